package main

import (
	"errors"
	"fmt"

	readline "github.com/nyaosorg/go-readline-ny"
	"pgregory.net/rapid"
)

// C13Case is a session in which a terminal call fails, then one that works.
type C13Case struct {
	Setup
	Fail string `json:"fail"` // open, size, key
	At   int    `json:"at"`   // which key, the first is 0
	Next Setup  `json:"next"`
}

type faultError struct{ n int }

func (f *faultError) Error() string { return fmt.Sprintf("fault %d", f.n) }

var c13keys = keyGen(gType.times(6), gMotion.times(3), gDelete.times(2), gKill.times(1), gHistory.times(2), gSearch.times(4), gQuote.times(5), gUndo.times(1), gYank.times(1))

func init() {
	register(property(Prop{
		ID:       "C13",
		Rule:     "a case is a session and a failing terminal call, followed by a session without failure; non-trivial when the failing call was reached after at least one key",
		Profiles: []string{"plain", "wt"}, Shards: 4, Quick: 15000, Thorough: 300000,
	}, func(t *rapid.T) *C13Case {
		gen := func(n int) Setup {
			return Setup{
				Width:   rapid.SampledFrom([]int{80, 30, 10}).Draw(t, "width"),
				Prompt:  promptGen.Draw(t, "prompt"),
				Default: asStr(lineText(5)).Draw(t, "default"),
				Cursor:  rapid.IntRange(0, 6).Draw(t, "cursor"),
				History: genHistory(t, lineText(5), 3),
				Predict: rapid.Bool().Draw(t, "predict"),
				Keys:    seq(c13keys, 0, n).Draw(t, "keys"),
			}
		}
		c := &C13Case{Setup: gen(14), Fail: rapid.SampledFrom([]string{"key", "key", "key", "key", "open", "size"}).Draw(t, "fail"), Next: gen(5)}
		c.At = rapid.IntRange(0, len(c.Keys)).Draw(t, "at")
		return c
	}, runC13))
}

func runC13(c *C13Case, rec *Rec) error {
	s := c.Setup
	r := newRun(&s)
	fault := &faultError{c.At}
	m := r.model()
	nested := false // the failing call is inside another command
	switch c.Fail {
	case "open":
		r.tty.openErr = fault
	case "size":
		r.tty.sizeErr = fault
	case "key":
		r.tty.keyErr = map[int]error{c.At + 1: fault} // key 0 is the probe
	}
	rec.Label("fail: %s", c.Fail)
	seen := 0
	err := r.do(func(n int) error {
		for ; seen < n; seen++ {
			if c.Fail == "key" && seen == c.At {
				// The failure was handled inside the command: back to the line.
				if !nested {
					return errf("the session goes on after reading a key failed")
				}
				rec.Label("failed inside a command")
				m.mode = mNormal
				continue
			}
			m.Key(s.keyAt(seen))
		}
		nested = m.mode != mNormal
		if err := r.compare(m); err != nil {
			return err
		}
		if promptEnd(c.Prompt)+15 > c.Width {
			return nil
		}
		_, err := r.checkScreen(m, c.Width)
		return err
	})
	if err != nil {
		return err
	}
	if c.Fail == "key" && seen > 0 && c.At > 0 {
		rec.Nontrivial()
	}
	switch {
	case c.Fail != "key" || (seen == c.At && !nested):
		if r.text != "" || !errors.Is(r.err, fault) {
			return errf("the session returned %q, %v; should return the failure %v", r.text, r.err, fault)
		}
	case r.err != nil && errors.Is(r.err, fault):
		// A failure inside a command may also end the session.
		if r.text != "" {
			return errf("the session returned %q with error %v", r.text, r.err)
		}
	default:
		for m.outcome == oNone && seen < len(s.Keys)+8 {
			if seen == c.At {
				m.mode = mNormal
			} else {
				m.Key(s.keyAt(seen))
			}
			seen++
		}
		if err := r.checkOutcome(m); err != nil {
			return err
		}
	}
	opened := c.Fail != "open"
	if r.tty.opens != 1 || (r.tty.closes != 1) == opened || r.tty.closes > 1 {
		return errf("the terminal was opened %d times and closed %d times (open failed: %v)", r.tty.opens, r.tty.closes, !opened)
	}
	if n := r.ed.Out.Buffered(); n != 0 {
		return errf("%d bytes of output were not flushed", n)
	}
	if !r.emu.visible {
		return errf("the cursor is hidden after the session")
	}
	return nextSession(r, &c.Next)
}

// nextSession runs another session with the editor of a finished one.
func nextSession(r *run, s *Setup) error {
	n := newRun(s)
	n.useEditor(r.ed)
	m := n.model()
	if err := n.follow(m, nil); err != nil {
		return errf("in the session after it: %w", err)
	}
	return nil
}

// useEditor lets a session run with an editor that exists already.
func (n *run) useEditor(keep *readline.Editor) {
	s := n.s
	keep.Tty, keep.History, keep.PromptWriter = n.tty, n.hist, s.promptWriter()
	keep.Default, keep.Cursor, keep.HistoryCycling = string(s.Default), s.Cursor, s.Cycling
	keep.PredictColor = n.ed.PredictColor
	keep.Writer, keep.Out = n.emu, nil
	// The probe key of the new run stores the buffer there.
	cmd, _ := n.ed.Lookup(probeKey)
	keep.BindKey(probeKey, cmd)
	n.ed = keep
}
