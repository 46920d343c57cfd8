package main

import (
	"context"
	"errors"
	"fmt"
	"io"

	"github.com/atotto/clipboard"
	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
	"github.com/nyaosorg/go-readline-ny/simplehistory"
)

// Setup is a session: an editor's settings and the keys typed.
type Setup struct {
	Width   int   `json:"width"`
	Prompt  *Str  `json:"prompt,omitempty"` // nil: the default prompt
	Default Str   `json:"default"`
	Cursor  int   `json:"cursor"`
	History []Str `json:"history,omitempty"`
	Cycling bool  `json:"cycling,omitempty"`
	Predict bool  `json:"predict,omitempty"`
	Clip    Str   `json:"clip,omitempty"`
	NoClip  bool  `json:"noclip,omitempty"` // the clipboard fails
	Keys    []Str `json:"keys"`
}

const probeKey = "\x1b[990~" // captures the buffer, does nothing

var errScript = errors.New("the session asked for keys long after Enter was pressed")

var predictColor = [2]string{"\x1B[3;22;34m", "\x1B[23;39m"}

// stty is the scripted terminal.
type stty struct {
	width   int
	keys    []string
	i       int // keys handed out
	onSize  func(int)
	onKey   func(i int) error // before key i is handed out; an error ends the session
	opens   int
	closes  int
	sizes   int
	openErr error
	sizeErr error
	keyErr  map[int]error
	extra   int
	last    string
}

func (t *stty) Open(f func(int)) error {
	t.opens++
	if t.openErr != nil {
		return t.openErr
	}
	t.onSize = f
	return nil
}

func (t *stty) Size() (int, int, error) {
	t.sizes++
	return t.width, 25, t.sizeErr
}

func (t *stty) Close() error {
	t.closes++
	return nil
}

func (t *stty) GetKey() (string, error) {
	if t.onKey != nil {
		if err := t.onKey(t.i); err != nil {
			return "", err
		}
	}
	if err := t.keyErr[t.i]; err != nil {
		t.i++
		return "", err
	}
	k := kEnter
	if t.i < len(t.keys) {
		k = t.keys[t.i]
	} else if t.extra++; t.extra > 8 {
		return "", errScript
	}
	t.i++
	t.last = k
	return k, nil
}

// run is a session in progress.
type run struct {
	s    *Setup
	ed   *readline.Editor
	tty  *stty
	emu  *Emu
	b    *readline.Buffer
	hist *simplehistory.Container
	text string
	err  error
	vio  error           // set by the observer
	ctx  context.Context // nil for the background
}

func (s *Setup) promptWriter() func(io.Writer) (int, error) {
	if s.Prompt == nil {
		return nil
	}
	p := string(*s.Prompt)
	return func(w io.Writer) (int, error) { return io.WriteString(w, p) }
}

// newRun prepares a session.  The first key handed out is the probe key, so
// key i of the setup is key i+1 of the terminal.
func newRun(s *Setup) *run {
	r := &run{s: s, emu: newEmu(s.Width), hist: simplehistory.New()}
	for _, h := range s.History {
		r.hist.Add(string(h))
	}
	s.Keys = s.Keys[:r.bound()]
	clipboard.Reset(string(s.Clip), s.NoClip)
	r.tty = &stty{width: s.Width, keys: append([]string{probeKey}, strs(s.Keys)...)}
	r.ed = &readline.Editor{
		History:        r.hist,
		Writer:         r.emu,
		PromptWriter:   s.promptWriter(),
		Default:        string(s.Default),
		Cursor:         s.Cursor,
		Tty:            r.tty,
		HistoryCycling: s.Cycling,
	}
	if s.Predict {
		r.ed.PredictColor = predictColor
	}
	r.ed.BindKey(keys.Code(probeKey), readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		r.b = b
		return readline.CONTINUE
	}))
	return r
}

// do runs the session; observe is called whenever the editor waits for a key,
// with the number of keys of the setup (and final Enters) handled so far.
func (r *run) do(observe func(n int) error) error {
	r.tty.onKey = func(i int) error {
		if i == 0 || observe == nil {
			return nil
		}
		if r.b == nil {
			return errors.New("the probe command did not run")
		}
		if r.vio = observe(i - 1); r.vio != nil {
			return r.vio
		}
		return nil
	}
	ctx := r.ctx
	if ctx == nil {
		ctx = context.Background()
	}
	r.text, r.err = r.ed.ReadLine(ctx)
	if r.vio != nil {
		return r.vio
	}
	if errors.Is(r.err, errScript) {
		return r.err
	}
	return nil
}

// bound is the number of keys before the line gets too long to be handled in
// reasonable time, as it does when long texts are killed and yanked repeatedly.
func (r *run) bound() int {
	yanks := 0
	for _, k := range r.s.Keys {
		if k == kYank || k == kYank2 || k == kYankQuote {
			yanks++
		}
	}
	if yanks < 10 {
		return len(r.s.Keys)
	}
	m := r.model()
	m.cur = max(0, m.cur)
	for n, k := range r.s.Keys {
		if m.outcome != oNone {
			break
		}
		if m.Key(string(k)); len(m.cells) > 50000 {
			return n
		}
		m.cur = min(m.cur, len(m.cells)) // after undo any place is possible
	}
	return len(r.s.Keys)
}

// model returns the reference editor for the session.
func (r *run) model() *Model {
	m := newModel(string(r.s.Default), r.s.Cursor, strs(r.s.History))
	m.cycling = r.s.Cycling
	m.clip, m.clipFail = string(r.s.Clip), r.s.NoClip
	if r.s.Predict {
		m.predict = predictFrom(m.hist)
	}
	return m
}

// keyAt is key n of the setup, Enter after the last.
func (s *Setup) keyAt(n int) string {
	if n < len(s.Keys) {
		return string(s.Keys[n])
	}
	return kEnter
}

// compare checks text and cursor of the session against the reference.
func (r *run) compare(m *Model) error {
	b := r.b
	if got, want := b.String(), m.text(); got != want {
		return fmt.Errorf("the line is %q, should be %q", got, want)
	}
	if got, want := len(b.Buffer), len(m.cells); got != want {
		return fmt.Errorf("the line %q has %d characters, should have %d", b.String(), got, want)
	}
	if b.Cursor < 0 || b.Cursor > len(b.Buffer) {
		return fmt.Errorf("the cursor is at %d in a line of %d characters", b.Cursor, len(b.Buffer))
	}
	if m.free {
		m.cur = b.Cursor
	} else if b.Cursor != m.cur {
		return fmt.Errorf("the cursor is at %d of %q, should be at %d", b.Cursor, b.String(), m.cur)
	}
	return nil
}

// follow runs the session, comparing with the reference after every key;
// check, if any, is called after the comparison.
func (r *run) follow(m *Model, check func(n int) error) error {
	seen := 0
	err := r.do(func(n int) error {
		for ; seen < n; seen++ {
			m.Key(r.s.keyAt(seen))
		}
		if err := r.compare(m); err != nil {
			return fmt.Errorf("after %d keys %s: %w", n, keyList(r.s, n), err)
		}
		if check != nil {
			if err := check(n); err != nil {
				return fmt.Errorf("after %d keys %s: %w", n, keyList(r.s, n), err)
			}
		}
		return nil
	})
	if err != nil {
		return err
	}
	for m.outcome == oNone && seen < len(r.s.Keys)+8 {
		m.Key(r.s.keyAt(seen))
		seen++
	}
	if got := r.tty.i - 1; got != seen {
		return fmt.Errorf("the session used %d keys, should have used %d", got, seen)
	}
	return r.checkOutcome(m)
}

func (r *run) checkOutcome(m *Model) error {
	want := m.text()
	var wantErr error
	switch m.outcome {
	case oIntr:
		want, wantErr = "", readline.CtrlC
	case oAbort:
		want, wantErr = "", io.EOF
	}
	if r.text != want || !errors.Is(r.err, wantErr) || (wantErr == nil && r.err != nil) {
		return fmt.Errorf("ReadLine returned %q, %v; should return %q, %v", r.text, r.err, want, wantErr)
	}
	return nil
}

func keyList(s *Setup, n int) string {
	if n > len(s.Keys) {
		n = len(s.Keys)
	}
	from := 0
	if n > 6 {
		from = n - 6
	}
	return fmt.Sprintf("(last %q)", strs(s.Keys[from:n]))
}
