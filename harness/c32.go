package main

import (
	"errors"

	readline "github.com/nyaosorg/go-readline-ny"
	"pgregory.net/rapid"
)

// C32Case is a text whose characters are written to a writer that may fail.
type C32Case struct {
	Text Str  `json:"text"`
	Fail int  `json:"fail"` // bytes taken before the failure, -1 for none
	Once bool `json:"once"` // the writer works again after the failure
}

// failOnce takes a number of bytes and fails, for good or once.
type failOnce struct {
	c      *C32Case
	got    []byte
	failed bool
	calls  int // since the last failure
}

func (w *failOnce) Write(b []byte) (int, error) {
	w.calls++
	n := len(b)
	if w.c.Fail >= 0 && !(w.failed && w.c.Once) {
		n = min(n, w.c.Fail-len(w.got))
	}
	w.got = append(w.got, b[:n]...)
	if n < len(b) {
		w.failed, w.calls = true, 0
		return n, errFull
	}
	return n, nil
}

func init() {
	register(property(Prop{
		ID:       "C32",
		Rule:     "a case is a string and the number of bytes after which the writer fails; non-trivial when it has a joined character or fails within the text",
		Profiles: allProfiles, Shards: 2, Quick: 15000, Thorough: 400000,
	}, func(t *rapid.T) *C32Case {
		c := &C32Case{Text: asStr(rapid.OneOf(rawText, lineText(8))).Draw(t, "text"), Fail: -1}
		if rapid.IntRange(0, 3).Draw(t, "faulty") > 0 {
			c.Fail = rapid.IntRange(0, len(sanitize(string(c.Text)))+1).Draw(t, "fail")
			c.Once = rapid.Bool().Draw(t, "once")
		}
		return c
	}, runC32))
	sweep("C32", func(add func(any)) {
		for _, rs := range chunks(sweepRunes, 40) {
			add(&C32Case{Text: Str(rs), Fail: -1})
		}
		for _, r := range pairRunes {
			s := pairsWith(r, pairRunes)
			add(&C32Case{Text: s, Fail: -1})
			for i := range len(s) {
				add(&C32Case{Text: s, Fail: i, Once: i%2 == 0})
			}
		}
		for i, s := range tripleTexts(100) {
			add(&C32Case{Text: s, Fail: i*7%len(s) - 1, Once: true})
		}
	})
}

func runC32(c *C32Case, rec *Rec) error {
	text := string(c.Text)
	cells := segment(text)
	if len(cells) != len([]rune(text)) {
		rec.Nontrivial()
		rec.Label("has joined characters")
	}
	mojis := readline.StringToMoji(text)
	if len(mojis) != len(cells) {
		return errf("%q is divided into %d characters, should be %d", text, len(mojis), len(cells))
	}
	w := &failOnce{c: c}
	for i, m := range mojis {
		before, failed := len(w.got), w.failed
		w.failed = w.failed && c.Once
		again := w.failed
		n, err := m.WriteTo(w)
		took := w.got[before:]
		fails := w.failed && !again
		if fails {
			rec.Nontrivial()
			rec.Label("failed")
			if len(took) > 0 {
				rec.Label("failed within a character")
			}
		}
		if n != int64(len(took)) {
			return errf("writing character %q of %q reported %d bytes, %d were taken", cells[i], text, n, len(took))
		}
		switch {
		case fails && !errors.Is(err, errFull):
			return errf("writing character %q of %q failed after %d bytes, the error reported is %v", cells[i], text, len(took), err)
		case fails && w.calls > 0:
			return errf("writing character %q of %q went on after it failed", cells[i], text)
		case fails && string(took) != cells[i][:len(took)]:
			return errf("character %q of %q is written as %q before the failure", cells[i], text, took)
		case !fails && err != nil:
			return errf("writing character %q of %q reported %v", cells[i], text, err)
		case !fails && string(took) != cells[i]:
			return errf("character %q of %q is written as %q", cells[i], text, took)
		}
		w.failed = w.failed || failed
	}
	return nil
}
