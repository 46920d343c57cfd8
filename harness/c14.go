package main

import (
	"strings"

	"pgregory.net/rapid"
)

// Resize is a change of the terminal's width while key At is waited for.
type Resize struct {
	At    int `json:"at"`
	Width int `json:"width"`
}

type C14Case struct {
	Setup
	Resizes []Resize `json:"resizes"`
}

var sizeGen = rapid.OneOf(rapid.IntRange(16, 60), rapid.IntRange(0, 16), rapid.SampledFrom([]int{80, 132, 20, 24}))

func init() {
	register(property(Prop{
		ID:       "C14",
		Rule:     "a case is a session with changes of the terminal width while it waits for keys; non-trivial when the width changed while the line was not empty and the screen was compared",
		Profiles: allProfiles, Shards: 2, Quick: 8000, Thorough: 200000,
	}, func(t *rapid.T) *C14Case {
		c := &C14Case{Setup: *genScreen(t)}
		c.Prompt = resizePrompt.Draw(t, "prompt")
		c.Width = sizeGen.Draw(t, "width")
		if len(c.Keys) > 16 {
			c.Keys = c.Keys[:16]
		}
		n := rapid.IntRange(1, 5).Draw(t, "resizes")
		for i := 0; i < n; i++ {
			c.Resizes = append(c.Resizes, Resize{rapid.IntRange(0, len(c.Keys)).Draw(t, "at"), sizeGen.Draw(t, "to")})
		}
		return c
	}, runC14))
}

var resizePrompt = rapid.Custom(func(t *rapid.T) *Str {
	if rapid.IntRange(0, 2).Draw(t, "kind") > 0 {
		return promptGen.Draw(t, "prompt")
	}
	s := Str(rapid.SampledFrom([]string{
		"a first line that is rather long\n$ ",
		"a first line that is rather long\nsecond\n日本 $ ",
		"\x1b[32mgreen all the way\n$ \x1b[0m",
		"\x1b[1mbold\x1b[33myellow\n日本\x1b[m$ ",
		"a prompt of many columns>",
		"x\n",
		"\x1b]0;title\a% ",
	}).Draw(t, "text"))
	return &s
})

// promptRow is the last line of the prompt as it should look.
func promptRow(p *Str) []glyph {
	e := newEmu(1 << 20)
	if p == nil {
		e.Write([]byte("> "))
	} else {
		e.Write([]byte(*p))
	}
	e.Write([]byte("\x1b[K")) // the line takes what is to the right
	row := *e.line()
	return row[:min(e.col, len(row))]
}

func (r *run) checkPrompt(width int) error {
	top := topFor(r.s.Prompt, width)
	want := promptRow(r.s.Prompt)
	if top == 0 || r.s.Prompt != nil && strings.Contains(string(*r.s.Prompt), "\t") {
		return nil // below a tab there is what was there before
	}
	var got []glyph
	if r.emu.row < len(r.emu.rows) {
		got = r.emu.rows[r.emu.row]
	}
	if why := diffRows(got[:min(top, len(got))], want, 0); why != "" {
		return errf("the prompt is shown as %q: %s", glyphText(got[:min(top, len(got))]), why)
	}
	for i, g := range want {
		if g.attr != "" && g.text != " " && !g.cont && got[i].attr != g.attr {
			return errf("the prompt is shown as %q with %q in colour %q, should have %q", glyphText(got[:min(top, len(got))]), g.text, got[i].attr, g.attr)
		}
	}
	return nil
}

func runC14(c *C14Case, rec *Rec) error {
	s := c.Setup
	r := newRun(&s)
	m := r.model()
	width := s.Width
	lost := false // the line left its row as a character did not fit
	fits := func() bool {
		v := &view{cells: m.cells, top: topFor(s.Prompt, width), width: width}
		return v.fits()
	}
	return r.follow(m, func(n int) error {
		check := func() error {
			if err := r.checkPrompt(width); err != nil {
				return err
			}
			_, err := r.checkScreen(m, width)
			return err
		}
		lost = lost || (!fits() && m.mode != mSearch)
		if !lost {
			if err := check(); err != nil {
				return errf("width %d: %w", width, err)
			}
		}
		for _, z := range c.Resizes {
			if z.At != n {
				continue
			}
			width = z.Width
			r.emu.Resize(width)
			r.tty.width = width
			r.tty.onSize(width)
			if err := r.compare(m); err != nil {
				return errf("after resizing to %d: %w", width, err)
			}
			lost = !fits()
			if lost {
				continue
			}
			if m.mode == mSearch {
				rec.Label("resized while searching")
				continue // the search line comes back with the next key
			}
			if err := check(); err != nil {
				return errf("after resizing to %d: %w", width, err)
			}
			if len(m.cells) > 0 {
				rec.Nontrivial()
			}
			if promptEnd(s.Prompt) >= width-3 {
				rec.Label("no room after the prompt")
			}
		}
		return nil
	})
}
