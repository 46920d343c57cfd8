package main

import "pgregory.net/rapid"

var searchPattern = group{10, nil, typedKey(rapid.SampledFrom([]rune("aabAB あ👨́éÉß")))}
var c05keys = keyGen(searchPattern,
	group{8, []string{kSearch, kSearch, kFwdSearch}, nil},
	group{3, []string{kBS, kDEL}, nil},
	group{3, []string{kEnter, "\x07", kEsc, kIntr}, nil},
	group{1, []string{kArrUp, kHome, kKill, kUndo, "\t", "\xff", "ab", kLeft, kPrev}, nil})

var searchText = textOf(rapid.SampledFrom([]rune("aaabbAB あ👨éÉßc\t\x01")), 0, 7)

func init() {
	register(property(Prop{
		ID:       "C05",
		Rule:     "a case is a history, a line and keys that start with the search key; non-trivial when an entry was displayed that is not the newest",
		Profiles: []string{"plain", "wt"}, Shards: 4, Quick: 9000, Thorough: 250000,
	}, func(t *rapid.T) *Setup {
		s := &Setup{
			Prompt:  promptGen.Draw(t, "prompt"),
			Default: asStr(searchText).Draw(t, "default"),
			Cursor:  rapid.IntRange(0, 9).Draw(t, "cursor"),
			History: genHistory(t, searchText, 6),
			Predict: rapid.IntRange(0, 4).Draw(t, "predict") == 4,
		}
		s.Width = promptEnd(s.Prompt) + 3 + rapid.SampledFrom([]int{12, 16, 20, 24, 60, 80}).Draw(t, "room")
		n := rapid.IntRange(1, 3).Draw(t, "searches")
		for i := 0; i < n; i++ {
			s.Keys = append(s.Keys, rapid.SliceOfN(keyGen(gTypeWord, gMotion, gHistory, gUndo), 0, 3).Draw(t, "before")...)
			s.Keys = append(s.Keys, kSearch)
			s.Keys = append(s.Keys, seq(c05keys, 1, 14).Draw(t, "keys")...)
		}
		return s
	}, func(s *Setup, rec *Rec) error {
		for _, k := range s.Keys {
			if k == kIntr {
				rec.Label("has Ctrl-C")
			}
		}
		r := newRun(s)
		m := r.model()
		return r.follow(m, func(n int) error {
			if m.mode == mSearch {
				if m.found != "" && m.found != m.hist[len(m.hist)-1] {
					rec.Nontrivial()
				}
				if m.pattern != "" && m.found == "" {
					rec.Label("nothing found")
				}
			}
			_, err := r.checkScreen(m, s.Width)
			return err
		})
	}))
}
