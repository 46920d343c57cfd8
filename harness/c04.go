package main

import (
	"pgregory.net/rapid"
)

var c04keys = keyGen(gHistory.times(14), gTypeWord.times(6), gDelete.times(3), gKill.times(2), gMotion.times(3), gUndo.times(2), gYank.times(1), gSearch.times(1))

var histText = textOf(rapid.SampledFrom([]rune("aaabAB あ\t")), 0, 5)

func init() {
	register(property(Prop{
		ID:       "C04",
		Rule:     "a case is a history, an initial text and keys; non-trivial when an entry was left edited and another entry was shown afterwards",
		Profiles: []string{"plain", "wt"}, Shards: 4, Quick: 12000, Thorough: 300000,
	}, func(t *rapid.T) *Setup {
		return &Setup{
			Width:   rapid.SampledFrom([]int{80, 18}).Draw(t, "width"),
			Default: asStr(histText).Draw(t, "default"),
			Cursor:  rapid.IntRange(0, 9).Draw(t, "cursor"),
			History: genHistory(t, rapid.OneOf(histText, histText, histText, rawText), 5),
			Cycling: rapid.Bool().Draw(t, "cycling"),
			Keys:    seq(c04keys, 0, 50).Draw(t, "keys"),
		}
	}, func(s *Setup, rec *Rec) error {
		r := newRun(s)
		m := r.model()
		if err := r.follow(m, func(n int) error {
			for at := range m.edited {
				if at < len(m.hist) {
					rec.Nontrivial()
					if s.Cycling {
						rec.Label("edited entry while cycling")
					}
				}
			}
			if m.hp == len(m.hist) && n > 0 {
				switch s.keyAt(n - 1) {
				case kNext, kArrDown:
					rec.Label("back at the new line")
				case kPrev, kArrUp:
					rec.Label("went round to the new line")
				}
			}
			return nil
		}); err != nil {
			return err
		}
		if r.hist.Len() != len(s.History) {
			return errf("the history has %d entries after the session, had %d", r.hist.Len(), len(s.History))
		}
		for i, h := range s.History {
			if r.hist.At(i) != string(h) {
				return errf("history entry %d changed from %q to %q", i, h, r.hist.At(i))
			}
		}
		return nil
	}))
}
