package main

import (
	"errors"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"pgregory.net/rapid"
)

// C24Case is a session with prediction.
type C24Case struct {
	Setup
	Kind  string `json:"kind"` // the predictor
	Texts []Str  `json:"texts,omitempty"`
	Color int    `json:"color,omitempty"` // 1: none to begin with, 2: none to end with
	Fail  bool   `json:"fail,omitempty"`  // the read after the keys fails
}

// predictor makes the predicting function of a case; nil for the default.
func (c *C24Case) predictor() func(string) string {
	switch c.Kind {
	case "fixed":
		return func(string) string { return string(c.Texts[0]) }
	case "by length":
		return func(s string) string { return string(c.Texts[len(s)%len(c.Texts)]) }
	case "upper":
		return func(s string) string {
			if len(s) > 500 { // accepted again and again it would double for ever
				return "U"
			}
			return strings.ToUpper(s)
		}
	case "words":
		return func(s string) string {
			for _, t := range c.Texts {
				if strings.HasPrefix(string(t), s) {
					return string(t)[len(s):]
				}
			}
			return ""
		}
	}
	return nil
}

const predictAttr = "3;22;34"

var c24keys = keyGen(gType.times(10), gMotion.times(8), gWord.times(1), gDelete.times(4), gKill.times(2), gQuote.times(1), gUndo.times(2), gHistory.times(2), gClear, gSearch.times(1),
	group{weight: 6, keys: []string{kRight, kArrRight, kEnd}})

func init() {
	register(property(Prop{
		ID:       "C24",
		Rule:     "a case is a session with prediction enabled (in one of ten it is not, only the colour that ends it is given); non-trivial when a predicted text was on the screen at some key",
		Profiles: allProfiles, Shards: 3, Quick: 6000, Thorough: 150000,
	}, func(t *rapid.T) *C24Case {
		short := rapid.SampledFrom([]*rapid.Generator[string]{textOf(rapid.SampledFrom([]rune("ab")), 0, 6), lineText(10)}).Draw(t, "text")
		c := &C24Case{Setup: Setup{
			Prompt:  promptGen.Draw(t, "prompt"),
			Default: asStr(textOf(rapid.SampledFrom([]rune("ab")), 0, 2)).Draw(t, "default"),
			Cursor:  rapid.IntRange(0, 3).Draw(t, "cursor"),
			History: genHistory(t, short, 5),
			Cycling: rapid.Bool().Draw(t, "cycling"),
			Predict: true,
			Clip:    "ab",
			Keys:    seq(c24keys, 0, 24).Draw(t, "keys"),
		}}
		c.Width = promptEnd(c.Prompt) + 3 + rapid.SampledFrom([]int{12, 13, 16, 20, 40}).Draw(t, "room")
		c.Kind = rapid.SampledFrom([]string{"history", "history", "fixed", "by length", "upper", "words"}).Draw(t, "kind")
		if c.Kind != "history" && c.Kind != "upper" {
			c.Texts = rapid.SliceOfN(asStr(short), 1, 4).Draw(t, "texts")
		}
		switch rapid.IntRange(0, 9).Draw(t, "color") {
		case 8:
			c.Color, c.Predict = 1, false
		case 9:
			c.Color = 2
		}
		c.Fail = rapid.IntRange(0, 7).Draw(t, "fail") == 7
		return c
	}, runC24))
}

func runC24(c *C24Case, rec *Rec) error {
	s := c.Setup
	r := newRun(&s)
	m := r.model()
	if f := c.predictor(); f != nil {
		if s.Predict {
			m.predict = f
		}
		r.ed.Predictor = func(b *readline.Buffer) string { return f(b.String()) }
	}
	switch c.Color {
	case 1:
		r.ed.PredictColor = [2]string{"", "\x1b[23;39m"}
		rec.Label("not enabled")
	case 2:
		r.ed.PredictColor[1] = ""
	}
	rec.Label("predictor: %s", c.Kind)
	look := func(n int) error {
		if _, err := r.checkScreen(m, s.Width); err != nil {
			return err
		}
		shown := predicted(r.emu)
		if shown != "" {
			rec.Nontrivial()
			rec.Label("shown")
		}
		if err := c.slanted(r.emu); err != nil {
			return err
		}
		if m.mode == mSearch {
			return nil
		}
		if p := m.suffix(); shown != "" && (p == "" || m.cur != len(m.cells)) {
			return errf("%q is shown as predicted for line %q, cursor %d", shown, m.text(), m.cur)
		} else if v := (&view{cells: m.cells, cur: m.cur, top: topFor(s.Prompt, s.Width), width: s.Width}); v.fits() && m.cur == len(m.cells) && p != "" {
			// What is shown in the colour of predictions is all of the
			// predicted text that is on the screen.
			want := r.emu.rows[r.emu.row]
			for i := r.emu.col; i < len(want); i++ {
				if g := want[i]; g.text != " " && !g.cont && g.attr != predictAttr {
					return errf("%q after the line %q is not in the colour of predictions", glyphText(want[i:]), m.text())
				}
			}
		}
		return nil
	}
	var err error
	if c.Fail {
		err = c.failing(r, m, look, rec)
	} else {
		err = r.follow(m, look)
	}
	if err != nil {
		return err
	}
	if err := c.slanted(r.emu); err != nil {
		return err
	}
	if left := predicted(r.emu); left != "" {
		return errf("%q is still shown as predicted after the session", left)
	}
	return nil
}

// failing runs the session with a read that fails after the keys.
func (c *C24Case) failing(r *run, m *Model, look func(n int) error, rec *Rec) error {
	fault := &faultError{len(c.Keys)}
	r.tty.keyErr = map[int]error{len(c.Keys) + 1: fault} // key 0 is the probe
	rec.Label("a read fails")
	seen, nested := 0, false
	err := r.do(func(n int) error {
		for ; seen < n; seen++ {
			if seen < len(c.Keys) {
				m.Key(r.s.keyAt(seen))
				continue
			}
			if !nested {
				return errf("the session goes on after reading a key failed")
			}
			if seen == len(c.Keys) {
				m.mode = mNormal
			} else {
				m.Key(kEnter)
			}
		}
		nested = m.mode != mNormal
		if err := r.compare(m); err != nil {
			return err
		}
		return look(n)
	})
	if err == nil && m.outcome == oNone && !nested && seen == len(c.Keys) {
		if !errors.Is(r.err, fault) {
			return errf("the session returned %q, %v; should return the failure %v", r.text, r.err, fault)
		}
		v := &view{cells: m.cells, cur: m.cur, top: topFor(c.Prompt, c.Width), width: c.Width}
		if v.fits() {
			_, err = v.check(r.emu)
		}
	}
	return err
}

// slanted looks for the slant of predictions on anything else.
func (c *C24Case) slanted(e *Emu) error {
	if c.Color == 2 {
		return nil
	}
	if e.italic {
		return errf("what is written next looks like a prediction")
	}
	for _, row := range e.rows {
		for i, g := range row {
			if g.italic && g.attr != predictAttr {
				return errf("%q is shown like a prediction", glyphText(row[i:]))
			}
		}
	}
	return nil
}

// predicted is the text on the screen in the colour of predictions.
func predicted(e *Emu) string {
	var b strings.Builder
	for _, row := range e.rows {
		for _, g := range row {
			if g.attr == predictAttr && !g.cont {
				b.WriteString(g.text)
			}
		}
	}
	return b.String()
}
