package main

import "pgregory.net/rapid"

var allProfiles = []string{"plain", "wt", "wez", "contour"}

var c01keys = keyGen(gType, gMotion, gWord, gDelete, gKill, gSwap.times(3), gQuote, gPaste.times(1), gUnbound)

func init() {
	register(property(Prop{
		ID:       "C01",
		Rule:     "a case is an initial text and cursor and a key sequence; non-trivial when at least one deleting, killing, transposing or word key was pressed while the line was not empty",
		Profiles: allProfiles, Shards: 2, Quick: 12000, Thorough: 250000,
	}, func(t *rapid.T) *Setup {
		return &Setup{
			Width:   rapid.SampledFrom([]int{80, 80, 30, 200}).Draw(t, "width"),
			Default: asStr(lineText(10)).Draw(t, "default"),
			Cursor:  rapid.IntRange(0, 12).Draw(t, "cursor"),
			Keys:    seq(c01keys, 0, 40).Draw(t, "keys"),
		}
	}, func(s *Setup, rec *Rec) error {
		r := newRun(s)
		m := r.model()
		return r.follow(m, func(n int) error {
			if n < len(s.Keys) && len(m.cells) > 0 {
				switch s.Keys[n] {
				case kBS, kDEL, kDelete, kDelEOF, kKill, kKillHead, kRubout, kEsc, kSwap, kWordLeft, kWordRight, kCtrlLeft, kCtrlRight:
					rec.Nontrivial()
					if m.cur > 0 && m.cur < len(m.cells) {
						rec.Label("edit in the middle")
					}
				}
			}
			return nil
		})
	}))
}
