package main

import "pgregory.net/rapid"

var promptGen = rapid.Custom(func(t *rapid.T) *Str {
	switch rapid.IntRange(0, 5).Draw(t, "prompt") {
	case 0:
		return nil
	case 1:
		s := Str("")
		return &s
	case 2:
		s := Str("first line\n$ ")
		return &s
	case 3:
		s := Str("\x1b[31;1m日本>\x1b[0m ")
		return &s
	case 4:
		s := Str(rapid.StringOfN(rapid.SampledFrom([]rune("ab>")), 0, 30, -1).Draw(t, "p"))
		return &s
	}
	s := Str("$ ")
	return &s
})

var screenKeys = keyGen(gType, gMotion.times(8), gWord, gDelete, gKill, gSwap.times(2), gQuote, gPaste.times(3), gUndo.times(2), gHistory.times(2), gYank.times(1), gClear, gSearch.times(1))

// genScreen is a session at a width in which the characters fit.
func genScreen(t *rapid.T) *Setup {
	s := &Setup{
		Prompt:  promptGen.Draw(t, "prompt"),
		Default: asStr(lineText(14)).Draw(t, "default"),
		Cursor:  rapid.IntRange(0, 16).Draw(t, "cursor"),
		History: genHistory(t, lineText(20), 3),
		Cycling: rapid.Bool().Draw(t, "cycling"),
		Predict: rapid.IntRange(0, 3).Draw(t, "predict") == 3,
		Clip:    asStr(lineText(6)).Draw(t, "clip"),
		Keys:    seq(screenKeys, 0, 40).Draw(t, "keys"),
	}
	s.Width = promptEnd(s.Prompt) + 3 + rapid.SampledFrom([]int{12, 13, 14, 15, 17, 20, 23, 40, 80}).Draw(t, "room")
	return s
}

// searchView is what the row shows while searching.
func searchCells(m *Model) []string {
	return segment("(i-search)[" + m.pattern + "]:" + m.found)
}

// checkScreen compares the screen with the line.
func (r *run) checkScreen(m *Model, width int) (scrolled bool, err error) {
	if r.emu.odd != "" {
		return false, errf("%s was sent to the terminal", r.emu.odd)
	}
	v := &view{cells: m.cells, cur: m.cur, top: topFor(r.s.Prompt, width), width: width}
	if m.mode == mSearch {
		v.cells, v.cur = searchCells(m), 0
		v.cells = v.cells[:v.shown()]
		e := *r.emu
		e.col = v.top
		_, err = v.check(&e)
		return false, err
	}
	if !v.fits() {
		return false, nil
	}
	if s := m.suffix(); s != "" {
		v.suffix = segment(s)
	}
	vs, err := v.check(r.emu)
	if err == nil && !r.emu.visible {
		err = errf("the terminal cursor is hidden")
	}
	return vs > 0, err
}

// shown is the number of cells that fit from the first on.
func (v *view) shown() int {
	room, pos := v.width-v.top-3, 0
	for i, c := range v.cells {
		w := cellWidth(c, pos)
		if pos+w >= room {
			return i
		}
		pos += w
	}
	return len(v.cells)
}

func init() {
	register(property(Prop{
		ID:       "C08",
		Rule:     "a case is a session at a width where each character fits; non-trivial when the line was scrolled at some key or held a character other than one-column text",
		Profiles: allProfiles, Shards: 2, Quick: 8000, Thorough: 200000,
	}, genScreen, func(s *Setup, rec *Rec) error {
		r := newRun(s)
		m := r.model()
		return r.follow(m, func(n int) error {
			sc, err := r.checkScreen(m, s.Width)
			if sc {
				rec.Nontrivial()
				rec.Label("scrolled")
			}
			if m.mode == mSearch {
				rec.Label("in search")
			}
			if len(m.cells) != cellsWidth(m.cells, 0) {
				rec.Nontrivial()
			}
			return err
		})
	}))
}
