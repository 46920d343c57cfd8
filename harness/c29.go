package main

import (
	"context"
	"io"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/auto"
	"github.com/nyaosorg/go-readline-ny/simplehistory"
	"pgregory.net/rapid"
)

// C29Case is a number of sessions, some of them run from within others.
type C29Case struct {
	Sessions []*Session `json:"sessions"`
}

// Session is one call of ReadLine.
type Session struct {
	Setup
	Editor int        `json:"editor"`           // which editor, for sessions not nested
	Shared bool       `json:"shared,omitempty"` // uses the common history and adds to it
	Pilot  bool       `json:"pilot,omitempty"`  // keys come from the supplied scripted terminal
	Nested []*Session `json:"nested,omitempty"` // run by the command key, in order
}

var c29keys = keyGen(gType.times(8), gMotion.times(3), gDelete.times(2), gKill.times(1), gUndo.times(3), gHistory.times(5), gSearch.times(1), gQuote.times(1), gEnd.times(1),
	group{weight: 3, keys: []string{cmdKey}})

func genSession(t *rapid.T, depth int) *Session {
	s := &Session{Setup: Setup{
		Width:   80,
		Prompt:  promptGen.Draw(t, "prompt"),
		Default: asStr(textOf(wordChar, 0, 5)).Draw(t, "default"),
		Cursor:  rapid.IntRange(0, 6).Draw(t, "cursor"),
		History: genHistory(t, textOf(wordChar, 0, 5), 3),
		Cycling: rapid.Bool().Draw(t, "cycling"),
		Predict: rapid.IntRange(0, 2).Draw(t, "predict") == 2,
		Keys:    seq(c29keys, 0, 12).Draw(t, "keys"),
	}}
	s.Editor = rapid.IntRange(0, 1).Draw(t, "editor")
	s.Shared = depth == 0 && rapid.IntRange(0, 1).Draw(t, "shared") == 1
	s.Pilot = rapid.IntRange(0, 4).Draw(t, "pilot") == 4
	for i, k := range s.Keys {
		// Where undo leaves the cursor cannot be asked without the probe.
		if s.Pilot && (k == kUndo || k == kUndo2) {
			s.Keys[i] = kEnd
		}
	}
	if depth < 2 {
		n := 0
		for _, k := range s.Keys {
			if k == cmdKey {
				n++
			}
		}
		for i := 0; i < min(n, 2); i++ {
			s.Nested = append(s.Nested, genSession(t, depth+1))
		}
	}
	return s
}

func init() {
	register(property(Prop{
		ID:       "C29",
		Rule:     "a case is several sessions with two editors, a common history and sessions within sessions; non-trivial when at least two sessions ran",
		Profiles: []string{"plain", "wt"}, Shards: 4, Quick: 7000, Thorough: 150000,
	}, func(t *rapid.T) *C29Case {
		c := &C29Case{}
		n := rapid.IntRange(1, 5).Draw(t, "sessions")
		for i := 0; i < n; i++ {
			c.Sessions = append(c.Sessions, genSession(t, 0))
		}
		return c
	}, func(c *C29Case, rec *Rec) error {
		w := &world{rec: rec, shared: simplehistory.New()}
		for i, s := range c.Sessions {
			if err := w.session(s, &w.eds[s.Editor], 0); err != nil {
				return errf("session %d: %w", i, err)
			}
		}
		if w.ran > 1 {
			rec.Nontrivial()
		}
		return nil
	}))
}

// world is what sessions have in common.
type world struct {
	eds    [2]readline.Editor
	inner  [3]readline.Editor // for nested sessions, by depth
	shared *simplehistory.Container
	past   []Str // what the common history should hold
	ran    int
	rec    *Rec
}

func (w *world) session(ses *Session, ed *readline.Editor, depth int) error {
	w.ran++
	s := ses.Setup
	if ses.Shared {
		s.History = append([]Str{}, w.past...)
	}
	r := newRun(&s)
	if ses.Shared {
		r.hist = w.shared
	}
	r.useEditor(ed)
	m := r.model()
	next := 0
	var nestedErr error
	ed.BindKey(cmdKey, readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		if next < len(ses.Nested) {
			in := ses.Nested[next]
			next++
			w.rec.Label("nested %d", depth+1)
			if err := w.session(in, &w.inner[depth], depth+1); err != nil && nestedErr == nil {
				nestedErr = errf("in the session run from within another: %w", err)
			}
		}
		b.RepaintAll()
		return readline.CONTINUE
	}))
	m.custom = map[string]func(){cmdKey: func() {}}
	if ses.Pilot {
		if err := w.pilot(r, m); err != nil {
			return err
		}
	} else if err := r.follow(m, func(int) error { return nestedErr }); err != nil {
		return err
	}
	if nestedErr != nil {
		return nestedErr
	}
	if ed.Default != string(s.Default) || ed.HistoryCycling != s.Cycling || (ed.PredictColor[0] != "") != s.Predict {
		return errf("the session changed the settings of the editor, the initial text to %q", ed.Default)
	}
	if ses.Shared && m.outcome == oEnter {
		w.shared.Add(r.text)
		w.past = append(w.past, Str(r.text))
	}
	if w.shared.Len() != len(w.past) {
		return errf("the common history has %d entries, should have %d", w.shared.Len(), len(w.past))
	}
	for i, h := range w.past {
		if got := w.shared.At(i); got != string(h) {
			return errf("entry %d of the common history is %q, should be %q", i, got, string(h))
		}
	}
	return nil
}

// pilot runs a session with the scripted terminal of the library.
func (w *world) pilot(r *run, m *Model) error {
	w.rec.Label("scripted terminal")
	p := &auto.Pilot{Text: strs(r.s.Keys)}
	r.ed.Tty = p
	r.ed.Writer, r.ed.Out = io.Discard, nil
	r.text, r.err = r.ed.ReadLine(context.Background())
	used := 0
	for ; m.outcome == oNone && used < len(r.s.Keys)+8; used++ {
		m.Key(r.s.keyAt(used))
	}
	if left := max(len(r.s.Keys)-used, 0); len(p.Text) != left {
		return errf("%d keys are left in the scripted terminal, should be %d", len(p.Text), left)
	}
	return r.checkOutcome(m)
}
