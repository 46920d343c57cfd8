package main

import (
	"context"
	"slices"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
	"pgregory.net/rapid"
)

// above is what is on the screen before a session.
const above = "line above\nmore あ\n"

// rowWatch checks that nothing leaves the row of the line.
type rowWatch struct {
	e    *Emu
	row  int
	rows []string
}

func (w *rowWatch) start(e *Emu) {
	w.e, w.row, w.rows = e, e.row, nil
	for i := 0; i < e.row; i++ {
		w.rows = append(w.rows, e.Row(i))
	}
	e.ClearMarks()
}

// check looks at what was drawn since the last check.
func (w *rowWatch) check() error {
	e := w.e
	switch {
	case e.wrapped:
		return errf("the line went beyond the right edge of the terminal")
	case e.lineFeed > 0:
		return errf("a line feed was sent")
	case e.row != w.row:
		return errf("the cursor is in row %d, the line in row %d", e.row, w.row)
	case e.maxCol >= e.w-1:
		return errf("the last column was drawn on")
	}
	e.ClearMarks()
	return w.above()
}

func (w *rowWatch) above() error {
	for i, r := range w.rows {
		if w.e.Row(i) != r {
			return errf("row %d above the line was %q and became %q", i, r, w.e.Row(i))
		}
	}
	for i := w.row + 1; i < len(w.e.rows); i++ {
		if w.e.Row(i) != "" {
			return errf("row %d below the line shows %q", i, w.e.Row(i))
		}
	}
	return nil
}

func init() {
	register(property(Prop{
		ID:       "C09",
		Rule:     "a case is a session below other text at a width where each character fits; non-trivial when the line (or what search shows) was wider than its room at some key",
		Profiles: allProfiles, Shards: 2, Quick: 8000, Thorough: 200000,
	}, func(t *rapid.T) *Setup {
		s := genScreen(t)
		if rapid.IntRange(0, 2).Draw(t, "command") == 0 {
			at := rapid.IntRange(0, len(s.Keys)).Draw(t, "at")
			s.Keys = slices.Insert(s.Keys, at, cmdKey)
		}
		return s
	}, func(s *Setup, rec *Rec) error {
		r := newRun(s)
		r.emu.Write([]byte(above))
		r.emu.ClearMarks()
		r.ed.BindKey(keys.Code(cmdKey), readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
			b.InsertAndRepaint("日本語の inserted text\tx\x01")
			return readline.CONTINUE
		}))
		m := r.model()
		m.custom = map[string]func(){cmdKey: func() { m.insert("日本語の inserted text\tx\x01") }}
		var w rowWatch
		lost := false // something did not fit
		last := 0
		err := r.follow(m, func(n int) error {
			v := &view{cells: m.cells, top: topFor(s.Prompt, s.Width), width: s.Width}
			if m.mode != mSearch && !v.fits() {
				lost = true
			}
			if lost {
				return nil
			}
			shown := m.cells
			if m.mode == mSearch {
				shown = searchCells(m)
			}
			if cellsWidth(shown, 0) >= s.Width-v.top-3 {
				rec.Nontrivial()
			}
			cleared := n == 0
			for ; last < n; last++ {
				cleared = cleared || s.keyAt(last) == kClear
			}
			if cleared {
				if r.emu.wrapped || r.emu.maxCol >= r.emu.w-1 {
					return errf("the line went into the last column")
				}
				w.start(r.emu)
				return nil
			}
			return w.check()
		})
		if err != nil || lost {
			return err
		}
		// The end of the session: one line feed, nothing else leaves the row.
		if w.e.wrapped || w.e.maxCol >= w.e.w-1 {
			return errf("ending the session, the line went into the last column")
		}
		if w.e.row != w.row+1 || w.e.lineFeed != 1 {
			return errf("after the session the cursor is in row %d, the line was in row %d", w.e.row, w.row)
		}
		return w.above()
	}))
}
