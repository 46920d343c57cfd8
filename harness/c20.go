package main

import (
	"sort"
	"strings"

	"github.com/nyaosorg/go-readline-ny/completion"
	"pgregory.net/rapid"
)

func genC20(t *rapid.T) *C19Case {
	c := genCompletion(t)
	c.Width = rapid.OneOf(rapid.IntRange(30, 100), rapid.IntRange(20, 40)).Draw(t, "columns")
	c.Prompt = promptGen.Draw(t, "prompt")
	if room := c.Width - topFor(c.Prompt, c.Width) - 3; room < 10 {
		c.Width += 10 // every character fits
	}
	if len(c.Full) > 0 && rapid.IntRange(0, 2).Draw(t, "many") == 0 {
		// enough candidates for several rows
		stem := c.Full[0]
		seen := map[Str]bool{}
		for _, f := range c.Full {
			seen[f] = true
		}
		n := rapid.IntRange(1, 60).Draw(t, "more")
		for i := 0; i < n; i++ {
			f := stem + Str(textOf(candidateChar, 1, 4).Draw(t, "tail"))
			if seen[f] {
				continue
			}
			seen[f] = true
			c.Full = append(c.Full, f)
			if c.Base != nil {
				c.Base = append(c.Base, "item"+Str(string(rune('a'+i%26))+string(rune('a'+i/26))))
			}
		}
		// type what they have in common
		c.Default += " " + stem
		c.Cursor = 100
	}
	if len(c.Full) > 0 && rapid.Bool().Draw(t, "exactly") {
		// The word is one of the candidates.
		c.Default += " " + rapid.SampledFrom(c.Full).Draw(t, "word")
		c.Cursor = 100
	}
	for i := range c.Full {
		c.Full[i] = Str(strings.Map(func(r rune) rune {
			// The table is laid out by another module, which takes
			// ambiguous characters for narrow ones.
			if condWide.RuneWidth(r) != condNarrow.RuneWidth(r) {
				return 'e'
			}
			return r
		}, string(c.Full[i])))
	}
	return c
}

func init() {
	register(property(Prop{
		ID:       "C20",
		Rule:     "a case is a line and candidates with the listing form of completion, at a terminal; non-trivial when candidates were to be listed",
		Profiles: []string{"plain", "wt"}, Shards: 4, Quick: 25000, Thorough: 300000, Pty: true,
	}, genC20, runC20))
}

var listTerminal *Pty

// controlTerminal makes sure that this process has a controlling terminal.
func controlTerminal() *Pty {
	if listTerminal == nil {
		listTerminal = openPty(true)
	}
	return listTerminal
}

func runC20(c *C19Case, rec *Rec) error {
	p := controlTerminal()
	p.resize(c.Width, 25)
	mode := p.termios()
	s := c.Setup
	r := newRun(&s)
	m := r.model()
	l := &lister{c: c}
	r.ed.BindKey(cmdKey, completion.CmdCompletionOrList{Completion: l, Postfix: string(c.Postfix)})
	row := 0 // where the line was before the key
	var bad error
	m.custom = map[string]func(){cmdKey: func() {
		list, err := c.expect(r, m, l, &Rec{})
		if err == nil && len(list) > 0 {
			rec.Nontrivial()
			rec.Label("listed")
			err = c.listed(r, row, list)
		} else if err == nil && r.emu.row != row {
			err = errf("something was written to %d rows below the line", r.emu.row-row)
		}
		if err != nil && bad == nil {
			bad = err
		}
	}}
	return r.follow(m, func(int) error {
		if bad != nil {
			return bad
		}
		if p.termios() != mode {
			return errf("the terminal mode was changed")
		}
		row = r.emu.row
		v := &view{cells: m.cells, top: topFor(s.Prompt, s.Width), width: s.Width}
		if !v.fits() {
			return nil
		}
		if err := r.checkPrompt(s.Width); err != nil {
			return err
		}
		_, err := r.checkScreen(m, s.Width)
		return err
	})
}

// listed checks that the candidates are between the row of the line and where
// the line is now.
func (c *C19Case) listed(r *run, row int, list []int) error {
	names := c.Full
	if len(c.Base) > 0 {
		names = c.Base
	}
	var want []string
	for _, i := range list {
		want = append(want, strings.Fields(string(names[i]))...)
	}
	// The last rows are those of the prompt.
	prompt := string("\n> ")
	if r.s.Prompt != nil {
		prompt = string(*r.s.Prompt)
	}
	e := newEmu(r.s.Width)
	e.Write([]byte(prompt))
	last := r.emu.row - e.row
	if topFor(r.s.Prompt, r.s.Width) == 0 && promptEnd(r.s.Prompt) > 0 {
		last-- // the line goes below a prompt that leaves it no room
	}
	var got []string
	for i := row + 1; i < last; i++ {
		got = append(got, strings.Fields(glyphText(r.emu.rows[i]))...)
	}
	sort.Strings(got)
	sort.Strings(want)
	if !equalStrings(got, want) {
		return errf("listed are %q, should be %q", got, want)
	}
	return nil
}
