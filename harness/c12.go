package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
	"pgregory.net/rapid"
)

// C12Case is a session, how it ends, and how the ending is observed.
type C12Case struct {
	Setup
	End    string `json:"end"`    // a result, of a custom command, or a key
	Line   bool   `json:"line"`   // custom line-end writer
	Buffed int    `json:"buffed"` // the writer given is itself buffered, with this size
	Name   bool   `json:"name"`   // custom command by NewGoCommand-like value
	Before Str    `json:"before"` // written to the buffered writer before
}

var resultOf = map[string]readline.Result{
	"enter": readline.ENTER, "abort": readline.ABORT, "intr": readline.INTR,
	"enter key": readline.ENTER, "ctrl-c": readline.INTR, "ctrl-d": readline.ABORT,
}

var c12keys = keyGen(gType.times(8), gMotion.times(3), gDelete.times(3), gKill.times(1), gHistory.times(1), gSearch.times(1), gQuote, gUndo.times(1), gYank.times(1))

func init() {
	register(property(Prop{
		ID:       "C12",
		Rule:     "a case is a session and a way to end it; non-trivial when it does not end by the Enter key on a line without prediction",
		Profiles: []string{"plain", "wt"}, Shards: 4, Quick: 9000, Thorough: 200000,
	}, func(t *rapid.T) *C12Case {
		return &C12Case{
			Setup: Setup{
				Width:   rapid.SampledFrom([]int{80, 30, 10, 3}).Draw(t, "width"),
				Prompt:  promptGen.Draw(t, "prompt"),
				Default: asStr(lineText(5)).Draw(t, "default"),
				Cursor:  rapid.IntRange(0, 6).Draw(t, "cursor"),
				History: genHistory(t, lineText(5), 3),
				Predict: rapid.Bool().Draw(t, "predict"),
				Keys:    seq(c12keys, 0, 12).Draw(t, "keys"),
			},
			End:    rapid.SampledFrom([]string{"enter key", "ctrl-c", "ctrl-d", "enter", "abort", "intr"}).Draw(t, "end"),
			Line:   rapid.Bool().Draw(t, "line"),
			Buffed: rapid.SampledFrom([]int{0, 0, 16, 200, 1 << 16}).Draw(t, "buffed"),
			Name:   rapid.Bool().Draw(t, "name"),
			Before: rapid.SampledFrom([]Str{"", "", "before\n", "b\r\n"}).Draw(t, "before"),
		}
	}, runC12))
}

func runC12(c *C12Case, rec *Rec) error {
	s := c.Setup
	switch c.End {
	case "ctrl-c":
		s.Keys = append(append([]Str{}, s.Keys...), kIntr, kIntr)
	case "ctrl-d":
		// Leave any mode, empty the line, then Ctrl-D.
		s.Keys = append(append([]Str{}, s.Keys...), "\x07", kEsc, kDelEOF)
	case "enter", "abort", "intr":
		s.Keys = append(append([]Str{}, s.Keys...), "\x07", cmdKey)
	}
	if c.End != "enter key" || s.Predict {
		rec.Nontrivial()
	}
	rec.Label("end: %s", c.End)
	r := newRun(&s)
	var out *bufio.Writer
	if c.Buffed > 0 {
		out = bufio.NewWriterSize(r.emu, c.Buffed)
		r.ed.Writer = out
		out.WriteString(string(c.Before))
	}
	custom := func(context.Context, *readline.Buffer) readline.Result { return resultOf[c.End] }
	if c.Name {
		r.ed.BindKey(keys.Code(cmdKey), &readline.GoCommand{Name: "END", Func: custom})
	} else {
		r.ed.BindKey(keys.Code(cmdKey), readline.AnonymousCommand(custom))
	}
	var lines []readline.Result
	if c.Line {
		r.ed.LineFeedWriter = func(res readline.Result, w io.Writer) (int, error) {
			lines = append(lines, res)
			return fmt.Fprintf(w, "[END%d]\n", res)
		}
	}
	m := r.model()
	byCommand := false
	m.custom = map[string]func(){cmdKey: func() {
		byCommand = true
		switch resultOf[c.End] {
		case readline.ENTER:
			m.outcome = oEnter
		case readline.ABORT:
			m.outcome = oAbort
		case readline.INTR:
			m.outcome = oIntr
		}
	}}
	seen := 0
	err := r.do(func(n int) error {
		for ; seen < n; seen++ {
			m.Key(s.keyAt(seen))
		}
		if m.outcome != oNone {
			return errf("the session goes on after it should have ended")
		}
		r.emu.lineFeed = 0
		return r.compare(m)
	})
	if err != nil {
		return err
	}
	for m.outcome == oNone && seen < len(s.Keys)+8 {
		m.Key(s.keyAt(seen))
		seen++
	}
	if got := r.tty.i - 1; got != seen {
		return errf("the session used %d keys, should have used %d", got, seen)
	}
	var want error
	res := readline.ENTER
	switch m.outcome {
	case oIntr:
		want, res = readline.CtrlC, readline.INTR
	case oAbort:
		want, res = io.EOF, readline.ABORT
	}
	if (want == nil && r.err != nil) || !errors.Is(r.err, want) {
		return errf("the session ended with error %v, should end with %v", r.err, want)
	}
	// After a command's own abort or interrupt the line may be handed back.
	if want == nil && r.text != m.text() {
		return errf("the session returned %q, should return %q", r.text, m.text())
	}
	if want != nil && r.text != "" && !byCommand {
		return errf("the session returned %q with error %v", r.text, r.err)
	}
	if r.tty.opens != 1 || r.tty.closes != 1 {
		return errf("the terminal was opened %d times and closed %d times", r.tty.opens, r.tty.closes)
	}
	if n := r.ed.Out.Buffered(); n != 0 || (out != nil && out.Buffered() != 0) {
		return errf("%d bytes of output were not flushed", n)
	}
	if !r.emu.visible {
		return errf("the cursor is hidden after the session")
	}
	if r.emu.lineFeed != 1 {
		return errf("%d line feeds were sent at the end", r.emu.lineFeed)
	}
	if c.Line {
		if len(lines) != 1 || lines[0] != res {
			return errf("the line-end writer was called with %v, should be called once with %v", lines, res)
		}
	}
	return nil
}
