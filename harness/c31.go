package main

import (
	"bufio"
	"errors"
	"io"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"pgregory.net/rapid"
)

// C31Case is a session whose output fails.
type C31Case struct {
	Setup
	After     int    `json:"after"`             // bytes that are written before
	How       string `json:"how"`               // for good, once, short
	Buffer    int    `json:"buffer,omitempty"`  // the writer given is a buffered one of this size
	Prompt2   int    `json:"prompt2,omitempty"` // this many columns are put before the prompt's last line
	PromptErr bool   `json:"prompterr,omitempty"`
	LineErr   bool   `json:"lineerr,omitempty"`
}

var errOutput = errors.New("injected output failure")

// badWriter fails as the case says.
type badWriter struct {
	c      *C31Case
	e      *Emu
	n      int
	failed int
}

func (w *badWriter) Write(p []byte) (int, error) {
	if w.n+len(p) <= w.c.After || (w.c.How == "once" && w.failed > 0) {
		w.n += len(p)
		return w.e.Write(p)
	}
	w.failed++
	take := max(w.c.After-w.n, 0)
	w.e.Write(p[:take])
	w.n += take
	if w.c.How == "short" {
		return take, nil
	}
	return take, errOutput
}

var c31keys = keyGen(gType.times(8), gMotion.times(4), gWord.times(1), gDelete.times(2), gKill.times(2), gYank.times(1), gUndo.times(2), gHistory.times(3), gSearch.times(2), gQuote.times(2), gClear, gEnd.times(1))

func init() {
	register(property(Prop{
		ID:       "C31",
		Rule:     "a case is a session whose output fails from some byte on; non-trivial when it failed before the last key",
		Profiles: []string{"plain", "wt"}, Shards: 4, Quick: 8000, Thorough: 200000,
	}, func(t *rapid.T) *C31Case {
		c := &C31Case{Setup: Setup{
			Width:   rapid.SampledFrom([]int{80, 30, 10}).Draw(t, "width"),
			Prompt:  promptGen.Draw(t, "prompt"),
			Default: asStr(lineText(6)).Draw(t, "default"),
			Cursor:  rapid.IntRange(0, 8).Draw(t, "cursor"),
			History: genHistory(t, lineText(6), 3),
			Predict: rapid.IntRange(0, 2).Draw(t, "predict") == 2,
			Clip:    asStr(lineText(3)).Draw(t, "clip"),
			Keys:    seq(c31keys, 0, 24).Draw(t, "keys"),
		}}
		c.After = rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 2000)).Draw(t, "after")
		c.How = rapid.SampledFrom([]string{"for good", "once", "short"}).Draw(t, "how")
		c.Buffer = rapid.SampledFrom([]int{0, 0, 16, 100}).Draw(t, "buffer")
		if rare.Draw(t, "long prompt") {
			c.Prompt2 = 5000
		}
		c.PromptErr = rapid.IntRange(0, 3).Draw(t, "prompt fails") == 3
		c.LineErr = rapid.IntRange(0, 3).Draw(t, "line end fails") == 3
		return c
	}, runC31))
}

func runC31(c *C31Case, rec *Rec) error {
	s := c.Setup
	r := newRun(&s)
	w := &badWriter{c: c, e: r.emu}
	r.ed.Writer = w
	if c.Buffer > 0 {
		r.ed.Writer = bufio.NewWriterSize(w, c.Buffer)
	}
	if inner := s.promptWriter(); inner != nil {
		r.ed.PromptWriter = func(w io.Writer) (int, error) {
			n, err := io.WriteString(w, strings.Repeat("p", c.Prompt2))
			if err == nil && c.Prompt2 > 0 {
				_, err = io.WriteString(w, "\n")
			}
			m, _ := inner(w)
			if c.PromptErr {
				return n, errOutput
			}
			return n + m, err
		}
	}
	ends := 0
	r.ed.LineFeedWriter = func(_ readline.Result, w io.Writer) (int, error) {
		ends++
		if c.LineErr {
			return 0, errOutput
		}
		return io.WriteString(w, "\n")
	}
	rec.Label("%s", c.How)
	m := r.model()
	if err := r.follow(m, func(n int) error {
		if w.failed > 0 && n < len(s.Keys) {
			rec.Nontrivial()
		}
		return nil
	}); err != nil {
		return err
	}
	if r.tty.opens != 1 || r.tty.closes != 1 {
		return errf("the terminal was opened %d times and closed %d times", r.tty.opens, r.tty.closes)
	}
	if ends != 1 {
		return errf("the line-end writer was called %d times", ends)
	}
	return nil
}
