package main

import "pgregory.net/rapid"

var c03keys = keyGen(gType.times(10), gMotion.times(4), gWord.times(1), gDelete, gKill, gSwap, gQuote, gPaste, gYank, gHistory.times(3), gSearch.times(1), gUndo.times(9))

func init() {
	register(property(Prop{
		ID:       "C03",
		Rule:     "a case is a session with undo keys, ended by undoing everything; non-trivial when an undo reverted something before the final ones",
		Profiles: allProfiles, Shards: 2, Quick: 9000, Thorough: 200000,
	}, func(t *rapid.T) *Setup {
		s := &Setup{
			Width:   rapid.SampledFrom([]int{80, 24}).Draw(t, "width"),
			Default: asStr(lineText(8)).Draw(t, "default"),
			Cursor:  rapid.IntRange(0, 9).Draw(t, "cursor"),
			History: genHistory(t, lineText(6), 3),
			Predict: rapid.Bool().Draw(t, "predict"),
			Clip:    asStr(lineText(4)).Draw(t, "clip"),
			Keys:    seq(c03keys, 0, 40).Draw(t, "keys"),
		}
		return s
	}, func(s *Setup, rec *Rec) error {
		// Leave search mode, then undo everything and twice more.
		full := *s
		full.Keys = append(append([]Str{}, s.Keys...), "\x07")
		for i := 0; i < len(s.Keys)+6; i++ {
			full.Keys = append(full.Keys, kUndo)
		}
		r := newRun(&full)
		m := r.model()
		bells, depth, inMode := 0, 0, mNormal
		err := r.follow(m, func(n int) error {
			if n == 0 {
				bells, depth, inMode = r.emu.bells, len(m.past), m.mode
				return nil
			}
			k := full.keyAt(n - 1)
			if inMode == mNormal && (k == kUndo || k == kUndo2) {
				rang := r.emu.bells - bells
				switch {
				case depth == 0 && rang != 1:
					return errf("undoing with nothing to undo rang the bell %d times", rang)
				case depth > 0 && rang != 0:
					return errf("undoing rang the bell")
				}
				if depth > 0 && n <= len(s.Keys) {
					rec.Nontrivial()
				}
			}
			bells, depth, inMode = r.emu.bells, len(m.past), m.mode
			return nil
		})
		if err != nil {
			return err
		}
		if r.text != "" {
			return errf("undoing everything left %q", r.text)
		}
		return nil
	}))
}
