package main

import (
	"bytes"
	"slices"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/coloring"
	"pgregory.net/rapid"
)

// C25Case is a session with a colouriser.
type C25Case struct {
	Setup
	Kind string `json:"kind"`
}

// hashColor depends on everything it was fed since its initialisation, so that
// any difference in what it is fed shows.
type hashColor struct {
	state uint32
	marks bool // let the cursor marker count, too
	fed   [][]rune
}

func (h *hashColor) Init() readline.ColorSequence {
	h.state = 17
	h.fed = append(h.fed, nil)
	return readline.SGR2(39, 99)
}

func (h *hashColor) Next(r rune) readline.ColorSequence {
	if n := len(h.fed); n > 0 {
		h.fed[n-1] = append(h.fed[n-1], r)
	}
	if r == readline.CursorPositionDummyRune && !h.marks {
		return readline.SGR1(1)
	}
	h.state = h.state*31 + uint32(r)
	return readline.SGR2(int(h.state>>8)%200+1, int(h.state)%200+1)
}

// classColor colours by the kind of character, the same as its neighbour most
// of the time.
type classColor struct{ quoted bool }

func (c *classColor) Init() readline.ColorSequence {
	c.quoted = false
	return readline.ColorReset
}

func (c *classColor) Next(r rune) readline.ColorSequence {
	was := c.quoted
	if r == '"' {
		c.quoted = !c.quoted
	}
	switch {
	case was || c.quoted:
		return readline.Magenta
	case r > 0x7F:
		return readline.ColorReset
	}
	return readline.White
}

// batchModel is an independent statement of the supplied colouriser.
type batchModel struct{ percents, quotes int }

func (b *batchModel) Init() readline.ColorSequence {
	*b = batchModel{}
	return readline.ColorReset
}

func (b *batchModel) Next(r rune) readline.ColorSequence {
	inVar := b.percents%2 == 1 || r == '%'
	inQuote := b.quotes%2 == 1 || r == '"'
	if r == '%' {
		b.percents++
	}
	if r == '"' {
		b.quotes++
	}
	switch {
	case r == '　':
		return readline.SGR3(37, 22, 41)
	case inVar:
		return readline.SGR3(36, 49, 1)
	case inQuote:
		return readline.SGR3(35, 49, 1)
	case r == '&':
		return readline.SGR3(33, 22, 49)
	}
	return readline.SGR3(39, 49, 1)
}

var batchChar = rapid.SampledFrom([]rune("ab%%\"\"&　'|>あ👨"))

// attrOf is how the emulator names a colour.
func attrOf(c readline.ColorSequence) string {
	var b bytes.Buffer
	c.WriteTo(&b)
	return strings.TrimSuffix(strings.TrimPrefix(b.String(), "\x1b["), "m")
}

func init() {
	register(property(Prop{
		ID:       "C25",
		Rule:     "a case is a session with a colouriser; non-trivial when at least two colours were on the screen at some key",
		Profiles: allProfiles, Shards: 2, Quick: 6000, Thorough: 150000,
	}, func(t *rapid.T) *C25Case {
		c := &C25Case{Setup: *genScreen(t)}
		c.Kind = rapid.SampledFrom([]string{"hash", "hash and marks", "class", "batch"}).Draw(t, "kind")
		if c.Kind != "hash" && c.Kind != "hash and marks" {
			c.Default = asStr(textOf(batchChar, 0, 16)).Draw(t, "batch default")
			c.Keys = seq(keyGen(group{weight: 16, gen: typedKey(batchChar)}, gMotion, gWord, gDelete, gKill, gSwap, gUndo, gHistory, gClear), 0, 30).Draw(t, "batch keys")
		}
		return c
	}, runC25))
}

func runC25(c *C25Case, rec *Rec) error {
	s := c.Setup
	r := newRun(&s)
	m := r.model()
	var oracle readline.Coloring
	switch c.Kind {
	case "hash":
		r.ed.Coloring, oracle = &hashColor{}, &hashColor{}
	case "hash and marks":
		r.ed.Coloring, oracle = &hashColor{marks: true}, &hashColor{marks: true}
	case "class":
		r.ed.Coloring, oracle = &classColor{}, &classColor{}
	case "batch":
		r.ed.Coloring, oracle = &coloring.VimBatch{}, &batchModel{}
	}
	rec.Label("%s", c.Kind)
	return r.follow(m, func(n int) error {
		// At the end of the line the marker changes no colour on the screen.
		if h, ok := r.ed.Coloring.(*hashColor); ok {
			fed := h.fed
			h.fed = nil
			whole := append([]rune(m.text()), readline.CursorPositionDummyRune)
			if m.mode != mSearch && m.cur == len(m.cells) && len(fed) > 0 && !slices.ContainsFunc(fed, func(f []rune) bool { return slices.Equal(f, whole) }) {
				return errf("with the cursor at the end of %q, the colouriser is not fed all of it and the cursor marker", m.text())
			}
		}
		if m.mode == mSearch {
			return nil
		}
		top := topFor(s.Prompt, s.Width)
		v := &view{cells: m.cells, cur: m.cur, top: top, width: s.Width}
		if !v.fits() {
			return nil
		}
		if p := m.suffix(); p != "" {
			v.suffix = segment(p)
		}
		vs, err := v.check(r.emu)
		if err != nil {
			return err
		}
		def := attrOf(oracle.Init())
		colors := make([]string, len(m.cells))
		for i, cell := range m.cells {
			if i == m.cur {
				oracle.Next(readline.CursorPositionDummyRune)
			}
			for _, x := range cell {
				colors[i] = attrOf(oracle.Next(x))
			}
		}
		pos, col := cellsWidth(m.cells[:vs], 0), 0
		first := ""
		row := r.emu.rows[r.emu.row]
		for i := vs; i < len(m.cells); i++ {
			w := cellWidth(m.cells[i], pos)
			if col+w >= s.Width-top-3 {
				break
			}
			for j := 0; j < w && top+col+j < len(row); j++ {
				g := row[top+col+j]
				if g.attr != colors[i] {
					return errf("character %d %q of %q (cursor %d) has colour %q, should have %q", i, m.cells[i], m.text(), m.cur, g.attr, colors[i])
				}
			}
			if first == "" {
				first = colors[i]
			} else if first != colors[i] {
				rec.Nontrivial()
			}
			pos += w
			col += w
		}
		if r.emu.attr != def {
			return errf("colour %q is in force after drawing %q, should be the default %q", r.emu.attr, m.text(), def)
		}
		return nil
	})
}
