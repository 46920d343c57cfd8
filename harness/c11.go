package main

import (
	"unicode/utf8"

	readline "github.com/nyaosorg/go-readline-ny"
	"pgregory.net/rapid"
)

// C11Op changes a setting or measures a text.
type C11Op struct {
	Op   string `json:"op"` // width, reset, wide, zwj, measure
	Rune Str    `json:"rune,omitempty"`
	N    int    `json:"n,omitempty"`
	Text Str    `json:"text,omitempty"`
}

type C11Case struct {
	Ops []C11Op `json:"ops"`
}

var zwjRules = []func(w1, w2 int) int{
	func(w1, w2 int) int { return w1 + 1 + w2 },
	func(w1, w2 int) int { return 2 },
	func(w1, w2 int) int { return max(w1, w2) },
	func(w1, w2 int) int { return w1*3 + w2 },
}

var genOp = rapid.Custom(func(t *rapid.T) C11Op {
	switch rapid.IntRange(0, 9).Draw(t, "op") {
	case 9:
		return C11Op{Op: "zwj", N: rapid.IntRange(0, len(zwjRules)-1).Draw(t, "rule")}
	case 8:
		return C11Op{Op: "wide", N: rapid.IntRange(0, 1).Draw(t, "on")}
	case 7:
		return C11Op{Op: "reset"}
	case 5, 6:
		return C11Op{Op: "width", Rune: Str(string(mixedChar.Draw(t, "char"))), N: rapid.IntRange(0, 4).Draw(t, "width")}
	}
	return C11Op{Op: "measure", Text: asStr(rawText).Draw(t, "text")}
})

func init() {
	p := property(Prop{
		ID:       "C11",
		Rule:     "a case is a sequence of setting changes and measurements; non-trivial when a text with a joined character, a tab or an overridden character is measured",
		Profiles: every, Shards: 2, Quick: 15000, Thorough: 300000,
	}, func(t *rapid.T) *C11Case {
		return &C11Case{seq(genOp, 1, 14).Draw(t, "ops")}
	}, runC11)
	p.Fixed = func() []any { // every code point
		var cs []any
		for r := rune(0); r <= utf8.MaxRune; r += 0x400 {
			c := &C11Case{}
			for x := r; x < r+0x400; x++ {
				c.Ops = append(c.Ops, C11Op{Op: "measure", Text: Str(string(x))})
			}
			cs = append(cs, c)
		}
		return cs
	}
	register(p)
}

func runC11(c *C11Case, rec *Rec) error {
	surrogate, zw := prof.Surrogate, zwjWidth
	restore := func() {
		readline.ResetCharWidth()
		clear(widthOverride)
		readline.EnableSurrogatePair(surrogate)
		prof.Surrogate = surrogate
		readline.SetZWJSWidthGetter(zw)
		zwjWidth = zw
	}
	defer restore()
	if readline.IsSurrogatePairEnabled() != surrogate {
		return errf("support of wide code points is %v in this terminal, should be %v", !surrogate, surrogate)
	}
	for i, op := range c.Ops {
		switch op.Op {
		case "width":
			r, _ := utf8.DecodeRuneInString(string(op.Rune))
			readline.SetCharWidth(r, op.N)
			widthOverride[r] = op.N
		case "reset":
			readline.ResetCharWidth()
			clear(widthOverride)
		case "wide":
			readline.EnableSurrogatePair(op.N == 1)
			prof.Surrogate = op.N == 1
			if readline.IsSurrogatePairEnabled() != (op.N == 1) {
				return errf("support of wide code points is not what it was set to")
			}
		case "zwj":
			zwjWidth = zwjRules[op.N]
			readline.SetZWJSWidthGetter(zwjRules[op.N])
		case "measure":
			if err := measure(string(op.Text), rec); err != nil {
				return errf("step %d: %w", i, err)
			}
		}
	}
	restore()
	for _, op := range c.Ops {
		if op.Op == "measure" {
			if err := measure(string(op.Text), rec); err != nil {
				return errf("after resetting everything: %w", err)
			}
		}
	}
	return nil
}

func measure(text string, rec *Rec) error {
	cells := segment(text)
	want := cellsWidth(cells, 0)
	for _, c := range cells {
		if r, ok := single(c); !ok || r == '\t' {
			rec.Nontrivial()
		} else if _, ok := widthOverride[r]; ok {
			rec.Nontrivial()
			rec.Label("override")
		}
	}
	if got := int(readline.GetStringWidth(text)); got != want {
		return errf("the width of %q is reported as %d, should be %d", text, got, want)
	}
	if got := readline.MojiCountInString(text); got != len(cells) {
		return errf("the characters of %q are counted as %d, should be %d", text, got, len(cells))
	}
	ms := readline.StringToMoji(text)
	if len(ms) != len(cells) {
		return errf("%q is divided into %d characters, should be %d", text, len(ms), len(cells))
	}
	w := 0
	for i, m := range ms {
		if got, want := int(m.Width()), cellWidth(cells[i], w); got != want {
			return errf("the width of character %q of %q is %d, should be %d", cells[i], text, got, want)
		}
		w += int(m.Width())
	}
	return nil
}
