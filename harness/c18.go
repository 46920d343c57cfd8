package main

import (
	"context"
	"io"
	"os"
	"strings"
	"time"

	"github.com/atotto/clipboard"
	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/simplehistory"
	"github.com/nyaosorg/go-readline-ny/tty10"
	"golang.org/x/sys/unix"
	"pgregory.net/rapid"
)

// PtyStep is something that happens at the terminal.
type PtyStep struct {
	Keys  Str  `json:"keys"`            // typed at once
	Split int  `json:"split,omitempty"` // of the last character, this many bytes come later
	Width int  `json:"width,omitempty"` // change the width first
	Early bool `json:"early,omitempty"` // letters typed while no line is read
}

// C18Case is a number of lines read from a pseudo-terminal.
type C18Case struct {
	Mode    uint32    `json:"mode"`
	Width   int       `json:"width"`
	History []Str     `json:"history,omitempty"`
	Steps   []PtyStep `json:"steps"`
	Tty10   bool      `json:"tty10,omitempty"` // the alternative reader
}

// syncKey tells that everything typed before it was handled.  It means nothing
// to a terminal in any mode.
const syncKey = "\x1d"

var (
	ptyChar = rapid.SampledFrom([]rune("aaabc  X\"漢あé👨"))
	// Keys of one byte; quoted ones insert the key after them.
	ptyKey = rapid.SampledFrom([]string{
		kHome, kLeft, kEnd, kRight, kBS, kDEL, kKill, kKillHead, kRubout, kPrev, kNext, kSwap, kYank, kUndo, kUndo2,
		kClear, kQuote + "\x01", kQuote2 + "\x03", kQuote2 + "\x1a", kQuote + "\x11", "\t", "\x13", "\x1c",
	})
	ptyEscape = rapid.SampledFrom([]string{kEsc, kArrLeft, kArrRight, kArrUp, kArrDown, kDelete, kWordLeft, kWordRight, kCtrlLeft, kArrHome, kArrEnd})
	ptyEnd    = rapid.SampledFrom([]string{kEnter, kEnter, kEnter, kEnter, kIntr, kKillHead + kKill + kDelEOF})
)

func genC18(t *rapid.T) *C18Case {
	c := &C18Case{
		Mode:    uint32(rapid.IntRange(0, 31).Draw(t, "mode")),
		Width:   rapid.IntRange(20, 120).Draw(t, "width"),
		History: rapid.SliceOfN(asStr(textOf(ptyChar, 0, 8)), 0, 3).Draw(t, "history"),
	}
	lines := rapid.IntRange(1, 4).Draw(t, "lines")
	// Text and keys of all lines, with the ends among them.
	var units []string
	for i := 0; i < lines; i++ {
		for n := rapid.IntRange(0, 10).Draw(t, "keys"); n > 0; n-- {
			switch k := rapid.IntRange(0, 9).Draw(t, "kind"); {
			case k < 5:
				units = append(units, string(ptyChar.Draw(t, "char")))
			case k < 8:
				units = append(units, ptyKey.Draw(t, "key"))
			default:
				units = append(units, ptyEscape.Draw(t, "escape"))
			}
		}
		units = append(units, ptyEnd.Draw(t, "end"))
	}
	// How they are typed.
	open := false
	for _, u := range units {
		esc := strings.HasPrefix(u, "\x1b")
		if n := len(c.Steps); open && !esc && c.Steps[n-1].Split == 0 && rapid.IntRange(0, 3).Draw(t, "joined") > 0 {
			c.Steps[n-1].Keys += Str(u)
		} else {
			c.Steps = append(c.Steps, PtyStep{Keys: Str(u)})
		}
		// Where the cursor is after undo is seen only at the end of a chunk.
		open = !esc && u != kUndo && u != kUndo2
		n := len(c.Steps)
		if len(string([]rune(u)[0])) > 1 && rapid.IntRange(0, 3).Draw(t, "split") == 0 {
			c.Steps[n-1].Split = rapid.IntRange(1, len(u)-1).Draw(t, "cut")
		}
		if rapid.IntRange(0, 15).Draw(t, "resize") == 0 {
			c.Steps = append(c.Steps, PtyStep{Width: rapid.IntRange(20, 120).Draw(t, "to")})
			open = false
		}
		if strings.HasSuffix(u, kEnter) && rapid.IntRange(0, 3).Draw(t, "early") == 0 {
			c.Steps = append(c.Steps, PtyStep{Early: true, Keys: Str(rapid.StringOfN(rapid.SampledFrom([]rune("abcX ")), 1, 8, -1).Draw(t, "letters"))})
			open = false
		}
	}
	return c
}

func init() {
	register(property(Prop{
		ID:       "C18",
		Rule:     "a case is a number of lines typed at a pseudo-terminal in chunks; non-trivial when lines were typed ahead, the size changed or a key has several bytes",
		Profiles: []string{"wt"}, Shards: 8, Quick: 3000, Thorough: 60000, Pty: true, Limit: time.Minute,
	}, genC18, runC18))
}

// ptyLine is how a line ended.
type ptyLine struct {
	text string
	err  error
	mode unix.Termios
}

// ptyState is what the editor held when the sync key was handled.
type ptyState struct {
	text  string
	cur   int
	width int
}

func runC18(c *C18Case, rec *Rec) error {
	p := openPty(!c.Tty10)
	defer p.close()
	mode := oddMode(p.termios(), c.Mode)
	p.setTermios(mode)
	p.resize(c.Width, 25)
	if c.Tty10 {
		in, errOut := os.Stdin, os.Stderr
		os.Stdin, os.Stderr = p.slave, p.slave
		defer func() { os.Stdin, os.Stderr = in, errOut }()
	}

	hist := simplehistory.New()
	for _, h := range c.History {
		hist.Add(string(h))
	}
	states := make(chan ptyState, 100)
	ed := &readline.Editor{History: hist, Writer: p.slave, PromptWriter: func(w io.Writer) (int, error) { return io.WriteString(w, "$ ") }}
	if c.Tty10 {
		ed.Tty = &tty10.Tty{}
	}
	ed.BindKey(syncKey, readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		states <- ptyState{b.String(), b.Cursor, int(b.ViewWidth()) + 2 + 3}
		return readline.CONTINUE
	}))
	start := make(chan bool)
	lines := make(chan ptyLine, 1)
	ended := make(chan bool)
	go func() {
		defer close(ended)
		for range start {
			text, err := ed.ReadLine(context.Background())
			lines <- ptyLine{text, err, p.mode()}
		}
	}()
	defer func() {
		// Whatever is still being read ends when the terminal is hung up.
		close(start)
	}()

	clipboard.Reset("", false)
	clip := ""
	width := c.Width
	var m *Model
	begin := func() {
		m = newModel("", 0, strs(c.History))
		m.clip = clip
	}
	begin()
	reading := false

	// key applies a key to the reference; the line ended if it returns true.
	apply := func(k string) bool {
		m.Key(k)
		if m.mode == mQuoted {
			return false
		}
		return m.outcome != oNone
	}
	finish := func(l ptyLine) error {
		reading = false
		r := &run{text: l.text, err: l.err}
		if err := r.checkOutcome(m); err != nil {
			return err
		}
		if l.mode != mode {
			return errf("after the line the terminal mode is %+v, was %+v", l.mode, mode)
		}
		clip = m.clip
		begin()
		return nil
	}
	// sync waits until everything typed was handled and a key is waited for.
	typeSync := func() error {
		var s ptyState
		gotLine := false
		var l ptyLine
		p.write(syncKey)
		p.until(func() bool {
			select {
			case s = <-states:
				return true
			case l = <-lines:
				gotLine = true
				return true
			default:
				return false
			}
		})
		if gotLine {
			return errf("the line ended with %q, %v where none should", l.text, l.err)
		}
		if s.text != m.text() || (!m.free && s.cur != m.cur) {
			return errf("the line is %q with the cursor at %d, should be %q with %d", s.text, s.cur, m.text(), m.cur)
		}
		m.cur = s.cur
		if s.width != width {
			return errWidth
		}
		p.until(p.raw)
		return nil
	}
	early := false
	ready := func() error {
		if !reading {
			start <- true
			reading = true
		}
		if early {
			early = false
			return typeSync()
		}
		p.until(p.raw)
		return nil
	}
	for i, st := range c.Steps {
		switch {
		case st.Width != 0:
			if err := ready(); err != nil {
				return errf("step %d: %w", i, err)
			}
			width = st.Width
			p.resize(width, 25)
			if c.Tty10 {
				// The size is looked at once a second, which is too slow to wait for.
				width = c.Width
				p.resize(width, 25)
				continue
			}
			err := typeSync()
			for try := 0; err == errWidth && try < 1500; try++ {
				time.Sleep(time.Duration(try) * 10 * time.Microsecond)
				// A signal can get lost when it arrives too early.
				unix.Kill(os.Getpid(), unix.SIGWINCH)
				p.until(p.raw)
				err = typeSync()
			}
			if err != nil {
				return errf("step %d: %w", i, err)
			}
			rec.Label("resize")
			rec.Nontrivial()
		case st.Early && reading:
			continue // the line before goes on: it was a quoted Enter
		case st.Early:
			p.write(string(st.Keys))
			early = true
			for _, k := range string(st.Keys) {
				apply(string(k))
			}
			rec.Label("typed while no line was read")
			rec.Nontrivial()
		default:
			if err := ready(); err != nil {
				return errf("step %d: %w", i, err)
			}
			s := string(st.Keys)
			if st.Split > 0 {
				p.write(s[:len(s)-st.Split])
				p.until(func() bool { return !p.pending() })
				p.write(s[len(s)-st.Split:])
				rec.Label("character in two parts")
				rec.Nontrivial()
			} else {
				p.write(s)
			}
			p.until(func() bool { return !p.pending() })
			keys, _ := chunkKeys(s)
			for j, k := range keys {
				if !reading {
					// typed ahead
					start <- true
					reading = true
					rec.Label("typed ahead")
					rec.Nontrivial()
				}
				if apply(k) {
					if err := finish(c.line(p, lines)); err != nil {
						return errf("step %d, after key %d: %w", i, j, err)
					}
				}
			}
			if reading {
				if err := typeSync(); err != nil {
					return errf("step %d: %w", i, err)
				}
			}
		}
	}
	if reading || early {
		if err := ready(); err != nil {
			return err
		}
		p.write(kEnter)
		apply(kEnter)
		return finish(c.line(p, lines))
	}
	return nil
}

var errWidth = errf("the width is not that of the terminal")

func (c *C18Case) line(p *Pty, lines chan ptyLine) (l ptyLine) {
	p.until(func() bool {
		select {
		case l = <-lines:
			return true
		default:
			return false
		}
	})
	return l
}
