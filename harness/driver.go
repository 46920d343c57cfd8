package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type job struct {
	prof  *Profile
	shard int
	out   *Outcome
	crash string // the process died; its last output
	last  []byte // the case in progress when it died
	fault string // an error of the check itself
}

func (j *job) failed() bool { return j.out != nil && j.out.Failed }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// workerCmd prepares a worker process.
func workerCmd(p *Prop, pr *Profile, args ...string) *exec.Cmd {
	exe := os.Args[0]
	if p.Race {
		exe = os.Getenv("VERIF_RACE_BIN")
		if exe == "" {
			fatal("VERIF_RACE_BIN is not set")
		}
	}
	cmd := exec.Command(exe, append([]string{"work", p.ID}, args...)...)
	cmd.Env = append(environFor(pr), "VERIF_SCRATCH="+scratchDir)
	if p.Race {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=1 exitcode=66 history_size=3")
	}
	if p.Pty {
		ptySession(cmd)
	}
	return cmd
}

type tailBuffer struct{ b bytes.Buffer }

func (t *tailBuffer) Write(p []byte) (int, error) {
	if t.b.Len() < 1<<18 {
		t.b.Write(p)
	}
	return len(p), nil
}

// runWorker runs a worker process to its end.
func runWorker(p *Prop, pr *Profile, outFile string, limit time.Duration, args ...string) (o *Outcome, crash, fault string) {
	cmd := workerCmd(p, pr, append([]string{"-out", outFile}, args...)...)
	var errb tailBuffer
	cmd.Stderr = &errb
	cmd.Stdout = &errb
	if err := cmd.Start(); err != nil {
		return nil, "", err.Error()
	}
	timer := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	killed := !timer.Stop()
	if os.Getenv("VERIF_DEBUG") != "" {
		os.Stderr.Write(errb.b.Bytes())
	}
	if js, rerr := os.ReadFile(outFile); rerr == nil {
		o = new(Outcome)
		if json.Unmarshal(js, o) != nil {
			o = nil
		}
	}
	switch {
	case o != nil && (err == nil || cmd.ProcessState.ExitCode() == 4):
		return o, "", ""
	case killed:
		return nil, "", "the worker ran out of time"
	case err == nil:
		return nil, "", "the worker left no result"
	case cmd.ProcessState.ExitCode() == 66 || strings.Contains(errb.b.String(), "goroutine "):
		return nil, errb.b.String(), ""
	default:
		return nil, "", fmt.Sprintf("worker: %v: %s", err, errb.b.String())
	}
}

// runCase runs a single case in a fresh process.
func runCase(p *Prop, pr *Profile, js []byte, dir string, args ...string) (*Outcome, string) {
	caseFile := filepath.Join(dir, "case.json")
	if err := os.WriteFile(caseFile, js, 0o644); err != nil {
		fatal(err)
	}
	outFile := filepath.Join(dir, "case.out")
	os.Remove(outFile)
	o, crash, fault := runWorker(p, pr, outFile, 4*time.Minute, append([]string{"-case", caseFile}, args...)...)
	if fault != "" {
		fatal(fault)
	}
	return o, crash
}

func envInt(name string, def int) int {
	if s := os.Getenv(name); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			return v
		}
		return int(hash64(s) >> 2)
	}
	return def
}

// drive runs the check of a property and reports.
func drive(p *Prop) int {
	tier := "quick"
	n := p.Quick
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier, n = "thorough", p.Thorough
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		n = envInt("VERIF_CASES", n)
	}
	seed := envInt("VERIF_SEED", 1)
	dir := scratch()
	defer os.RemoveAll(dir)

	var jobs []*job
	for _, name := range p.Profiles {
		for s := 0; s < p.Shards; s++ {
			jobs = append(jobs, &job{prof: profiles[name], shard: s})
		}
	}
	limit := 600 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			ws := hash64(strconv.Itoa(seed), p.ID, j.prof.Name, strconv.Itoa(j.shard)) | 1
			cur := filepath.Join(dir, fmt.Sprintf("cur%d", i))
			j.out, j.crash, j.fault = runWorker(p, j.prof, filepath.Join(dir, fmt.Sprintf("out%d", i)), limit,
				"-cur", cur, "-n", strconv.Itoa(n), "-seed", strconv.FormatUint(ws, 10), "-shard", strconv.Itoa(j.shard))
			if j.crash != "" {
				j.last, _ = os.ReadFile(cur)
			}
		}()
	}
	wg.Wait()

	violations := 0
	report := func(pr *Profile, shard int, msg string, c json.RawMessage) {
		violations++
		rdir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s-%d.json", p.ID, pr.Name, shard))
		b, _ := json.MarshalIndent(Replay{p.ID, pr.Name, msg, c}, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fatal(err)
		}
		fmt.Printf("%s [%s]: %s\n", p.ID, pr.Name, cut(msg, 4000))
		fmt.Printf("case: %s\n", cut(string(c), 8000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	var fault string
	total := Outcome{Labels: map[string]int{}}
	var samples []json.RawMessage
	// Failures of the oracle first: they need no second run.
	sort.SliceStable(jobs, func(a, b int) bool { return jobs[a].failed() && !jobs[b].failed() })
	for _, j := range jobs {
		switch {
		case j.fault != "":
			fault = j.fault
			continue
		case j.crash != "" && violations > 0:
			continue
		case j.crash != "":
			// The process died on this case: again in a fresh process.
			o, crash := runCase(p, j.prof, j.last, dir)
			if crash == "" && !o.Failed && !o.Hang && p.Race {
				for i := 0; i < 30 && crash == "" && !o.Failed && !o.Hang; i++ {
					o, crash = runCase(p, j.prof, j.last, dir)
				}
			}
			switch {
			case crash != "":
				c, crash := shrinkRun(p, j.prof, j.last, crash, dir)
				report(j.prof, j.shard, "the process died: "+head(crash), c)
			case o.Failed || o.Hang:
				report(j.prof, j.shard, o.Message, j.last)
			case p.Race && strings.Contains(j.crash, "WARNING: DATA RACE"):
				report(j.prof, j.shard, "(seen once) "+head(j.crash), j.last)
			default:
				fault = "a worker died once: " + head(j.crash)
			}
			continue
		}
		total.Evals += j.out.Evals
		total.Nontrivial += j.out.Nontrivial
		total.Slowest = max(total.Slowest, j.out.Slowest)
		for l, c := range j.out.Labels {
			total.Labels[l] += c
		}
		samples = append(samples, j.out.Samples...)
		switch {
		case j.out.Failed:
			report(j.prof, j.shard, j.out.Message, j.out.Case)
		case j.out.Hang && violations > 0:
		case j.out.Hang:
			o, crash := runCase(p, j.prof, j.out.Case, dir)
			if crash != "" || o.Hang || o.Failed {
				c := j.out.Case
				if crash == "" && o.Hang {
					c, _ = shrinkRun(p, j.prof, c, "", dir)
					if o, crash := runCase(p, j.prof, c, dir); crash == "" && !o.Hang {
						c = j.out.Case // the smaller one is only slow
					}
				}
				report(j.prof, j.shard, j.out.Message, c)
			} else {
				c := string(j.out.Case)
				fault = "a case was slow once: " + c[:min(len(c), 1000)]
			}
		}
	}
	for _, k := range knownFindings(p.ID) {
		fmt.Println(k)
	}
	if len(samples) > 6 {
		samples = samples[:6]
	}
	if fault == "" || violations > 0 {
		writeEvidence(p, tier, seed, &total, samples, violations)
	}
	keys := make([]string, 0, len(total.Labels))
	for l := range total.Labels {
		keys = append(keys, l)
	}
	sort.Strings(keys)
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violations, %.1fs (slowest case %.1fs)\n",
		p.ID, tier, seed, total.Evals, total.Nontrivial, violations, time.Since(startTime).Seconds(), total.Slowest.Seconds())
	for _, l := range keys {
		fmt.Printf("  %-40s %d\n", l, total.Labels[l])
	}
	switch {
	case violations > 0:
		return 1
	case fault != "":
		fmt.Fprintln(os.Stderr, "check error:", fault)
		return 2
	case total.Nontrivial < 2:
		fmt.Fprintln(os.Stderr, "check error: no non-trivial cases were generated")
		return 2
	}
	return 0
}

func head(s string) string {
	if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

func writeEvidence(p *Prop, tier string, seed int, t *Outcome, samples []json.RawMessage, violations int) {
	ev := map[string]any{
		"property": p.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         t.Evals,
			"distinct_nontrivial": t.Nontrivial,
			"rule":                p.Rule,
			"samples":             samples,
			"labels":              t.Labels,
		},
		"wall_s":     time.Since(startTime).Seconds(),
		"violations": violations,
	}
	dir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(dir, 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(filepath.Join(dir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
}

// Finding is an entry of the known-findings file.
type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

// knownFindings returns the lines to print for a property.  Only cases the
// oracle itself sets aside by name are listed there; the file suppresses nothing.
func knownFindings(id string) []string {
	js, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.json"))
	if err != nil {
		return nil
	}
	var fs []Finding
	if err := json.Unmarshal(js, &fs); err != nil {
		fatal("known_findings.json:", err)
	}
	var out []string
	for _, f := range fs {
		if f.Property == id && f.Status == "known" {
			out = append(out, "KNOWN-FINDING: property="+id+" "+f.What)
		}
	}
	return out
}

// cut shows the beginning of what would fill the screen; the replay file has
// all of it.
func cut(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return fmt.Sprintf("%s... (%d bytes)", s[:n], len(s))
}
