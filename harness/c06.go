package main

import (
	"github.com/atotto/clipboard"
	"pgregory.net/rapid"
)

var c06keys = keyGen(gTypeWord.times(8), gMotion.times(4), gWord.times(2),
	group{8, []string{kKill, kKillHead, kRubout, kEsc, kRubout}, nil},
	group{6, []string{kYank, kYank2, kYankQuote}, nil}, gUndo.times(2), gDelete.times(1), gPaste.times(1))

var clipText = rapid.Custom(func(t *rapid.T) string {
	s := lineText(8).Draw(t, "clip")
	return s + rapid.SampledFrom([]string{"", "", "", "\n", "\r\n", "\x00", " \"q\" \r\nb", "\n\n"}).Draw(t, "tail")
})

func init() {
	register(property(Prop{
		ID:       "C06",
		Rule:     "a case is a line, a clipboard and keys; non-trivial when text was killed and later yanked",
		Profiles: []string{"plain", "wt"}, Shards: 4, Quick: 12000, Thorough: 300000,
	}, func(t *rapid.T) *Setup {
		return &Setup{
			Width:   80,
			Default: asStr(rapid.OneOf(lineText(10), textOf(wordChar, 0, 12))).Draw(t, "default"),
			Cursor:  rapid.IntRange(0, 14).Draw(t, "cursor"),
			Clip:    asStr(clipText).Draw(t, "clip"),
			NoClip:  rapid.IntRange(0, 5).Draw(t, "noclip") == 5,
			Keys:    seq(c06keys, 0, 30).Draw(t, "keys"),
		}
	}, func(s *Setup, rec *Rec) error {
		r := newRun(s)
		m := r.model()
		killed := false
		return r.follow(m, func(n int) error {
			if got := clipboard.Peek(); got != m.clip {
				return errf("the clipboard holds %q, should hold %q", got, m.clip)
			}
			if n < len(s.Keys) {
				switch s.Keys[n] {
				case kKill, kKillHead, kRubout:
					killed = true
				case kYank, kYank2, kYankQuote:
					if killed && m.clip != "" && !s.NoClip {
						rec.Nontrivial()
					}
					if s.NoClip {
						rec.Label("yank from a failing clipboard")
					}
				}
			}
			return nil
		})
	}))
}
