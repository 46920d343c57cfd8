package main

import (
	"bytes"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	readline "github.com/nyaosorg/go-readline-ny"
	"pgregory.net/rapid"
)

// Width is an override of the width of a character.
type Width struct {
	Rune  Str `json:"rune"`
	Width int `json:"width"`
}

// C10Case is a text to display, a range of single code points, or a session.
type C10Case struct {
	Text   Str     `json:"text,omitempty"`
	From   rune    `json:"from,omitempty"`
	To     rune    `json:"to,omitempty"`
	Widths []Width `json:"widths,omitempty"`
	Setup  *Setup  `json:"setup,omitempty"`
}

var every = []string{"plain", "wt", "wez", "contour", "vscode", "halfwt"}

var genWidths = rapid.Custom(func(t *rapid.T) []Width {
	if rapid.IntRange(0, 2).Draw(t, "override") > 0 {
		return nil
	}
	var ws []Width
	n := rapid.IntRange(1, 4).Draw(t, "n")
	for i := 0; i < n; i++ {
		// Only widths a terminal may have: none for ASCII, and none for what
		// the prompts of genScreen are made of.
		ws = append(ws, Width{Str(string(rapid.SampledFrom([]rune("α①※あ漢ー👨🌾❤☺\u00ad\u200b\u0301\x7f\u0085\u009b\u2028")).Draw(t, "char"))), rapid.IntRange(0, 2).Draw(t, "width")})
	}
	return ws
})

// override puts widths in force; the result undoes it.
func override(ws []Width) func() {
	for _, w := range ws {
		r, _ := utf8.DecodeRuneInString(string(w.Rune))
		readline.SetCharWidth(r, w.Width)
		widthOverride[r] = w.Width
	}
	return func() {
		readline.ResetCharWidth()
		clear(widthOverride)
	}
}

func init() {
	p := property(Prop{
		ID:       "C10",
		Rule:     "a case is a text whose characters are displayed one by one, a block of all code points, or a session; non-trivial when it holds a character that is not sent to the terminal as it is, or a joined one",
		Profiles: every, Shards: 2, Quick: 12000, Thorough: 250000,
	}, func(t *rapid.T) *C10Case {
		c := &C10Case{Widths: genWidths.Draw(t, "widths")}
		if rapid.IntRange(0, 2).Draw(t, "session") == 0 {
			c.Setup = genScreen(t)
			c.Setup.Predict = c.Setup.Predict || rapid.Bool().Draw(t, "predict")
			return c
		}
		c.Text = asStr(rawText).Draw(t, "text")
		return c
	}, runC10)
	p.Fixed = func() []any {
		var cs []any
		for r := rune(0); r <= unicode.MaxRune; r += 0x1000 {
			cs = append(cs, &C10Case{From: r, To: r + 0x1000})
		}
		return cs
	}
	register(p)
}

func runC10(c *C10Case, rec *Rec) error {
	defer override(c.Widths)()
	if c.Setup != nil {
		return sessionC10(c, rec)
	}
	if c.To > 0 {
		rec.Nontrivial()
		rec.Label("block of code points")
		for r := c.From; r < c.To; r++ {
			if err := displayC10(string(r), rec); err != nil {
				return err
			}
		}
		return nil
	}
	return displayC10(string(c.Text), rec)
}

// displayC10 displays the characters of a text one by one.
func displayC10(text string, rec *Rec) error {
	e := newEmu(1 << 20)
	for _, m := range readline.StringToMoji(text) {
		var raw, shown bytes.Buffer
		m.WriteTo(&raw)
		m.PrintTo(&shown)
		cell := raw.String()
		if err := checkShown(cell, shown.Bytes()); err != nil {
			return errf("in %q: %w", text, err)
		}
		if raw.String() != shown.String() {
			rec.Nontrivial()
		}
		at := e.col
		e.Write(shown.Bytes())
		if e.odd != "" {
			return errf("displaying %q of %q sent %s", cell, text, e.odd)
		}
		if got, want := e.col-at, int(m.Width()); got != want {
			return errf("displaying %q of %q moves the cursor by %d columns, the width reported is %d", cell, text, got, want)
		}
	}
	return nil
}

// rxMove matches blanks and what moves the terminal cursor.
var rxMove = regexp.MustCompile("[ \b]|\x1b(7|8|\\[[0-9]*[CDGsu])")

// checkShown checks the form a character is displayed in.
func checkShown(cell string, shown []byte) error {
	if r, ok := single(cell); ok {
		e, want := newEmu(100), newEmu(100)
		e.Write(shown)
		drawCell(want, cell, 0)
		if r != '\t' { // the position is not known here
			if why := diffRows(e.rows[0], want.rows[0], 0); why != "" {
				return errf("%q is displayed as %q: %s", cell, shown, why)
			}
		}
		if substituted(r) && r != '\t' && bytes.Contains(shown, []byte(cell)) {
			return errf("%q is sent to the terminal as it is", cell)
		}
		return nil
	}
	for _, r := range cell {
		if unicode.IsControl(r) {
			return errf("%q joins a control character", cell)
		}
	}
	// The parts may be put in place with blanks and cursor movements.
	if got, want := rxMove.ReplaceAllString(string(shown), ""), strings.ReplaceAll(cell, " ", ""); got != want {
		return errf("%q is displayed as %q, which lacks or adds something", cell, shown)
	}
	return nil
}

func sessionC10(c *C10Case, rec *Rec) error {
	s := c.Setup
	r := newRun(s)
	w := &filter{w: r.emu, prompt: s.Prompt}
	r.ed.Writer = w
	m := r.model()
	return r.follow(m, func(n int) error {
		if w.err != nil {
			return w.err
		}
		if r.emu.odd != "" {
			return errf("%s was sent to the terminal", r.emu.odd)
		}
		for _, cells := range [][]string{m.cells, segment(m.suffix())} {
			for _, cell := range cells {
				if x, ok := single(cell); !ok || substituted(x) {
					rec.Nontrivial()
				}
			}
		}
		rec.Label("session")
		_, err := r.checkScreen(m, s.Width)
		return err
	})
}

// filter looks for characters that must never be sent.
type filter struct {
	w      *Emu
	prompt *Str
	err    error
}

func (f *filter) Write(p []byte) (int, error) {
	for _, r := range string(p) {
		if f.err == nil && r >= 0x7F && substituted(r) && !isVSLike(r) && !isZWJ(r) && !isSkinTone(r) {
			f.err = errf("U+%04X was sent to the terminal as it is", r)
		}
	}
	return f.w.Write(p)
}
