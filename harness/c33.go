package main

import (
	"bytes"
	"context"
	"encoding/json"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"

	readline "github.com/nyaosorg/go-readline-ny"
	"pgregory.net/rapid"
)

// C33Case is an environment of a process and a text it divides and measures.
type C33Case struct {
	Env  map[string]Str `json:"env"` // variables not named are not set
	Text Str            `json:"text"`
}

// envValues are the variables tried and, for each, values in a useful mix.
var envValues = map[string][]string{
	"WT_SESSION":              {"1", "", "0", "ec1ae3b4-4a0d-4a0a-9d1c-0c1d9c8f5e6b"},
	"WT_PROFILE_ID":           {"1", "", "{61c54bbd-c2c6-5271-96e7-009a87ff44bf}"},
	"VSCODE_PID":              {"7", "", "0"},
	"TERM_PROGRAM":            {"WezTerm", "", "wezterm", "WezTerm ", "WezTermX", "Wez", "vscode", "contour", "Apple_Terminal"},
	"TERMINAL_NAME":           {"contour", "", "Contour", "contour2", "cont", "WezTerm"},
	"TERM":                    {"xterm-256color", "", "dumb", "contour", "wezterm"},
	"LANG":                    {"ja_JP.UTF-8", "", "C", "en_US.UTF-8"},
	"LC_ALL":                  {"zh_CN.UTF-8", "", "C"},
	"RUNEWIDTH_EASTASIAN":     {"1", "0", ""},
	"TERM_PROGRAM_VERSION":    {"1", ""},
	"WEZTERM_PANE":            {"0", ""},
	"TERMINAL_VERSION_STRING": {"0.3"},
	"COLORTERM":               {"truecolor", ""},
}

// deciding are the variables the terminal is recognised by.
var deciding = []string{"WT_SESSION", "WT_PROFILE_ID", "VSCODE_PID", "TERM_PROGRAM", "TERMINAL_NAME"}

// profileOf is what an environment says about the terminal.
func profileOf(env map[string]Str) *Profile {
	wt := env["WT_SESSION"] != "" && env["WT_PROFILE_ID"] != "" && env["VSCODE_PID"] == ""
	wez := env["TERM_PROGRAM"] == "WezTerm"
	contour := env["TERMINAL_NAME"] == "contour"
	any := wt || wez || contour
	return &Profile{Surrogate: any, ZWJ: any, VS: any, Mod: wt || wez, AmbWide: !wt}
}

func envNames() []string {
	var names []string
	for k := range envValues {
		names = append(names, k)
	}
	sort.Strings(names)
	return names
}

// probeText has every kind of character that terminals treat differently.
const probeText = "a漢α─①👨‍🌾❤️☺︎1⃣👍🏽🏻🏳️‍🌈𝒜🇯🇵​́\x7f\x01�"

func init() {
	p := property(Prop{
		ID:       "C33",
		Rule:     "a case is the environment of a process and a text it divides and measures; non-trivial when a variable naming a terminal is set and the text has a character that terminals treat differently",
		Profiles: []string{"plain"}, Shards: 8, Quick: 250, Thorough: 2500,
	}, func(t *rapid.T) *C33Case {
		c := &C33Case{Env: map[string]Str{}}
		for _, k := range envNames() {
			if rapid.IntRange(0, 1).Draw(t, k+" set") == 0 {
				continue
			}
			vs := envValues[k]
			v := vs[0]
			switch rapid.IntRange(0, 7).Draw(t, k+" kind") {
			case 0, 1, 2, 3:
			case 7:
				v = rapid.StringMatching("[ -~]{1,8}").Draw(t, k+" text")
			default:
				v = rapid.SampledFrom(vs).Draw(t, k)
			}
			c.Env[k] = Str(v)
		}
		c.Text = probeText
		if rapid.IntRange(0, 3).Draw(t, "own text") > 0 {
			c.Text = asStr(rapid.OneOf(rawText, lineText(8))).Draw(t, "text")
		}
		return c
	}, runC33)
	p.Fixed = func() []any {
		var cs []any
		var rec func(i int, env map[string]Str)
		rec = func(i int, env map[string]Str) {
			if i == len(deciding) {
				e := map[string]Str{}
				for k, v := range env {
					e[k] = v
				}
				cs = append(cs, &C33Case{Env: e, Text: probeText})
				return
			}
			k := deciding[i]
			rec(i+1, env)
			for _, v := range envValues[k][:min(3, len(envValues[k]))] {
				env[k] = Str(v)
				rec(i+1, env)
			}
			delete(env, k)
		}
		rec(0, map[string]Str{})
		return cs
	}
	register(p)
	children["probe"] = probe
}

// part is a character as a process with another environment sees it.
type part struct {
	Raw, Shown Str
	Width      int
}

// probe divides and measures the text on its standard input.
func probe([]string) {
	text, err := io.ReadAll(os.Stdin)
	if err != nil {
		fatal(err)
	}
	parts := []part{}
	for _, m := range readline.StringToMoji(string(text)) {
		var raw, shown bytes.Buffer
		m.WriteTo(&raw)
		m.PrintTo(&shown)
		parts = append(parts, part{Str(raw.String()), Str(shown.String()), int(m.Width())})
	}
	os.Stdout.Write(mustJSON(parts))
}

func runC33(c *C33Case, rec *Rec) error {
	exe, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	drop := map[string]bool{"VERIF_PROFILE": true}
	for k := range envValues {
		drop[k] = true
	}
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
	defer cancel()
	cmd := exec.CommandContext(ctx, exe, "probe")
	for _, kv := range os.Environ() {
		if k, _, _ := strings.Cut(kv, "="); !drop[k] {
			cmd.Env = append(cmd.Env, kv)
		}
	}
	for _, k := range envNames() {
		if v, ok := c.Env[k]; ok {
			cmd.Env = append(cmd.Env, k+"="+string(v))
		}
	}
	var out, msg bytes.Buffer
	cmd.Stdin, cmd.Stdout, cmd.Stderr = strings.NewReader(string(c.Text)), &out, &msg
	if err := cmd.Run(); err != nil {
		if strings.Contains(msg.String(), "panic: ") {
			return errf("a process with environment %q crashes: %s", c.Env, trimStack(msg.String()))
		}
		fatal("probe:", err, msg.String())
	}
	var parts []part
	if err := json.Unmarshal(out.Bytes(), &parts); err != nil {
		fatal("probe:", err)
	}

	own := prof
	defer func() { prof = own }()
	text := string(c.Text)
	plain := segment(text)
	prof = &Profile{Surrogate: true, ZWJ: true, VS: true, Mod: true}
	differs := strings.Join(plain, "\xff") != strings.Join(segment(text), "\xff")
	for _, cell := range plain {
		if r, ok := single(cell); ok && r != '\t' {
			prof = own
			w := singleWidth(r)
			prof = &Profile{Surrogate: true, ZWJ: true, VS: true, Mod: true}
			differs = differs || w != singleWidth(r)
		}
	}
	prof = profileOf(c.Env)
	named := false
	for _, k := range deciding {
		named = named || c.Env[k] != ""
	}
	if named && differs {
		rec.Nontrivial()
	}
	switch {
	case prof.Surrogate && prof.Mod && prof.AmbWide:
		rec.Label("WezTerm")
	case prof.Surrogate && prof.Mod:
		rec.Label("Windows Terminal")
	case prof.Surrogate:
		rec.Label("Contour")
	default:
		rec.Label("none recognised")
	}

	cells := segment(text)
	for i, cell := range cells {
		if i >= len(parts) || string(parts[i].Raw) != cell {
			break
		}
		if r, ok := single(cell); ok && r != '\t' {
			if want := singleWidth(r); parts[i].Width != want {
				return errf("with environment %q, %q takes %d columns, should take %d", c.Env, cell, parts[i].Width, want)
			}
		}
		if err := checkShown(cell, []byte(parts[i].Shown)); err != nil {
			return errf("with environment %q: %w", c.Env, err)
		}
	}
	var got []string
	for _, p := range parts {
		got = append(got, string(p.Raw))
	}
	if strings.Join(got, "\xff") != strings.Join(cells, "\xff") {
		return errf("with environment %q, %q is divided into %q, should be %q", c.Env, text, got, cells)
	}
	return nil
}
