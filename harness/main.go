// Command harness decides the properties of go-readline-ny on generated cases.
//
//	harness drive ID            run the check of a property
//	harness work ID flags       one worker of a check (internal)
//	harness replay FILE         run a recorded case again
//	harness list                the properties
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

func stackAll(buf []byte) int { return runtime.Stack(buf, true) }

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"harness:"}, a...)...)
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: harness drive ID | replay FILE | list")
	}
	switch os.Args[1] {
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id)
		}
	case "drive":
		if len(os.Args) < 3 || props[os.Args[2]] == nil {
			fatal("no such property")
		}
		os.Exit(drive(props[os.Args[2]]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "work":
		work(os.Args[2:])
	default:
		if f, ok := children[os.Args[1]]; ok {
			f(os.Args[2:])
			return
		}
		fatal("unknown command", os.Args[1])
	}
}

// children are further entry points used by single properties.
var children = map[string]func([]string){}

// work runs one worker: -out FILE -cur FILE -n N -seed S, or -case FILE.
func work(args []string) {
	id := args[0]
	p := props[id]
	if p == nil {
		fatal("no such property", id)
	}
	testing.Init()
	out := flag.String("out", "", "")
	cur := flag.String("cur", "", "")
	caseFile := flag.String("case", "", "")
	n := flag.Int("n", 0, "")
	shard := flag.Int("shard", 0, "")
	seed := flag.Uint64("seed", 1, "")
	limit := flag.Duration("limit", p.Limit, "")
	flag.CommandLine.Parse(args[1:])
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(256 << 20)

	w := &runner{p: p, outPath: *out, seen: map[uint64]struct{}{},
		out: &Outcome{Profile: prof.Name, Shard: *shard, Labels: map[string]int{}, Seed: *seed}}
	if *cur != "" {
		f, err := os.Create(*cur)
		if err != nil {
			fatal(err)
		}
		w.cur = f
	}
	go w.watch(*limit)

	if *caseFile != "" {
		js, err := os.ReadFile(*caseFile)
		if err != nil {
			fatal(err)
		}
		c := p.New()
		if err := json.Unmarshal(js, c); err != nil {
			fatal(err)
		}
		w.one(c)
		w.save()
		return
	}
	if p.Fixed != nil {
		for i, c := range p.Fixed() {
			if i%p.Shards != *shard {
				continue
			}
			if w.one(c) != nil {
				w.shrink(c)
				w.save()
				return
			}
		}
	}
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			fatal(err)
		}
	}
	s := *seed
	if s == 0 {
		s = 0x9E3779B97F4A7C15
	}
	set("rapid.checks", strconv.Itoa(*n))
	set("rapid.seed", strconv.FormatUint(s, 10))
	set("rapid.nofailfile", "true")
	set("rapid.shrinktime", "20s")
	var t tb
	rapid.Check(&t, func(rt *rapid.T) {
		c := p.Gen(rt)
		if err := w.one(c); err != nil {
			rt.Fatalf("%s", err)
		}
	})
	if t.failed && w.lastFail == nil {
		fmt.Fprintln(os.Stderr, t.log.String())
		fatal("rapid failed without a failing case")
	}
	if p.Large != nil && !t.failed {
		for i, c := range p.Large() {
			if i%p.Shards != *shard {
				continue
			}
			w.out.Labels["large or sweep"]++
			if w.one(c) != nil {
				w.shrink(c)
				break
			}
		}
	}
	w.save()
}

// replay runs the case of a replay file in its profile.
func replay(path string) int {
	js, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	var rp Replay
	if err := json.Unmarshal(js, &rp); err != nil {
		fatal(err)
	}
	p, pr := props[rp.Property], profiles[rp.Profile]
	if p == nil || pr == nil {
		fatal("replay file names an unknown property or profile")
	}
	dir := scratch()
	defer os.RemoveAll(dir)
	o, crash := runCase(p, pr, rp.Case, dir)
	switch {
	case crash != "":
		fmt.Printf("process died:\n%s\n", crash)
	case o.Failed || o.Hang:
		fmt.Println(o.Message)
	default:
		fmt.Println("the case passes")
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	return 1
}

// scratch makes the directory everything this run writes goes to, in memory if
// there is room.
func scratch() string {
	var fs syscall.Statfs_t
	const shm = "/dev/shm"
	var dir string
	err := syscall.Statfs(shm, &fs)
	if err == nil && fs.Bavail*uint64(fs.Bsize) > 1<<30 {
		dir, err = os.MkdirTemp(shm, "rlcheck")
	}
	if dir == "" || err != nil {
		dir, err = os.MkdirTemp("", "rlcheck")
	}
	if err != nil {
		fatal(err)
	}
	scratchDir = dir
	return dir
}

// scratchDir is the directory for the files of cases; the driver makes and
// removes it.
var scratchDir = os.Getenv("VERIF_SCRATCH")

var startTime = time.Now()
