package main

import (
	"fmt"
	"strings"
	"unicode"
)

// Sweeps go through the code points one after another, because what goes wrong
// with a single one of them is hardly ever generated.  They are tried on every
// run.

// sweepRunes are all code points of the first plane and a part of the others.
var sweepRunes = func() (list []rune) {
	for r := rune(0); r <= unicode.MaxRune; r++ {
		switch low := r & 0xFFFF; {
		case r >= 0xD800 && r < 0xE000:
		case r < 0x10000, r >= 0x1F000 && r < 0x1FB00, r >= 0xE0000 && r < 0xE0200, low < 64, low >= 0xFFC0, low%61 == 0:
			list = append(list, r)
		}
	}
	return list
}()

// blankRunes are the code points up to the ideographic blank and the
// compatibility forms: everything there is that could divide words.
var blankRunes = func() (list []rune) {
	for _, r := range sweepRunes {
		if r < 0x3100 || r >= 0xFE00 && r < 0x10000 {
			list = append(list, r)
		}
	}
	return list
}()

// casePairs are the letters with exactly two cases, on which every way of
// comparing without regard to case agrees.
var casePairs = func() (list [][2]rune) {
	for r := rune(0); r <= unicode.MaxRune; r++ {
		u := unicode.SimpleFold(r)
		if u > r && unicode.SimpleFold(u) == r {
			lo, up := unicode.ToLower(r), unicode.ToUpper(r)
			if lo != up && unicode.ToUpper(lo) == up && unicode.ToLower(up) == lo {
				list = append(list, [2]rune{lo, up})
			}
		}
	}
	return list
}()

// chunks divides a list into parts of n.
func chunks[T any](list []T, n int) (parts [][]T) {
	for len(list) > n {
		parts, list = append(parts, list[:n]), list[n:]
	}
	return append(parts, list)
}

// among puts each code point between others.
func among(rs []rune, before, after string) Str {
	var b strings.Builder
	for _, r := range rs {
		b.WriteString(before)
		b.WriteRune(r)
		b.WriteString(after)
	}
	return Str(b.String())
}

// sweep adds cases to a property.
func sweep(id string, cases func(add func(any))) {
	old := props[id].Large
	props[id].Large = func() (all []any) {
		if old != nil {
			all = old()
		}
		cases(func(c any) { all = append(all, c) })
		return all
	}
}

func init() {
	sweep("C01", func(add func(any)) {
		for _, rs := range chunks(blankRunes, 24) {
			t := among(rs, "ab", "cd")
			add(&Setup{Width: 80, Default: t, Keys: join(times(12, kWordRight), times(6, kSwap, kWordRight), times(1, kEnd), times(12, kWordLeft), times(1, kEnd), times(12, kRubout))})
		}
		for i, rs := range chunks(sweepRunes, 24) {
			s := &Setup{Width: 80, Default: "xy", Cursor: 1}
			for _, r := range rs {
				if r < ' ' || bound[string(r)] {
					s.Keys = append(s.Keys, kQuote)
				}
				s.Keys = append(s.Keys, Str(r))
			}
			s.Keys = append(s.Keys, kLeft, kSwap, kBS, kDelete)
			if i%4 == 0 {
				s.Keys = append(s.Keys, kHome, kKill)
			}
			add(s)
		}
		var alt []Str
		for r := rune(0x20); r < 0x7F; r++ {
			if k := "\x1b" + string(r); !bound[k] {
				alt = append(alt, Str(k))
			}
		}
		add(&Setup{Width: 80, Keys: alt})
	})
	sweep("C02", func(add func(any)) {
		for _, rs := range chunks(sweepRunes, 48) {
			for i, w := range c02ways {
				switch i % 3 {
				case 0:
					add(&C02Case{Text: Str(rs), Way: w})
				case 1:
					add(&C02Case{Text: among(rs, "a", ""), Way: w})
				case 2:
					add(&C02Case{Text: among(rs, "", "漢"), Way: w})
				}
			}
		}
	})
	sweep("C03", func(add func(any)) {
		for _, rs := range chunks(sweepRunes, 32) {
			add(&Setup{Width: 80, Clip: Str(rs), Default: among(rs[:1], "a", "b"), Cursor: 1, Keys: times(1, "x", kYank, kLeft, kSwap, kBS, kRubout, kUndo, kKillHead)})
		}
	})
	sweep("C05", func(add func(any)) {
		for _, p := range casePairs {
			lo, up := string(p[0]), string(p[1])
			add(&Setup{Width: 60, History: []Str{Str("old" + up + "z"), Str("mid" + lo + "z"), "other", Str(up)},
				Keys: times(1, kSearch, lo, "Z", kSearch, kFwdSearch, kBS, kBS, up, kSearch, kSearch, kEnter)})
		}
		for _, r := range sweepRunes {
			if r >= ' ' && !unicode.IsControl(r) && !unicode.IsLetter(r) && (r < 0x3100 || r >= 0xFB00) {
				add(&Setup{Width: 60, History: []Str{among([]rune{r}, "a", "b"), "other"}, Keys: times(1, kSearch, "a", string(r), kBS, kBS, string(r), "b", kEnter)})
			}
		}
	})
	sweep("C06", func(add func(any)) {
		for _, r := range blankRunes {
			add(&Setup{Width: 80, Clip: among([]rune{r}, "a", ""), Keys: times(1, kYank, kYankQuote, kRubout, kYank2)})
		}
		for _, rs := range chunks(blankRunes, 16) {
			add(&Setup{Width: 80, Default: among(rs, "ab", "cd"), Cursor: 1 << 20, Keys: times(8, kRubout, kYankQuote, kRubout, kYank, kRubout)})
		}
	})
	screens := func(n int) (all []*Setup) {
		for i, rs := range chunks(sweepRunes, n) {
			s := &Setup{Width: 40 + i%41, Default: Str(rs), History: []Str{among(rs, "a", "")}, Predict: i%2 == 0,
				Keys: times(1, kRight, "a", kEnd, kLeft, kBS, kPrev, kHome, kDelete, kRight, kDelete, kEnd, kEsc, "a", kEnd, kBS)}
			all = append(all, s)
		}
		return all
	}
	for _, id := range []string{"C08", "C09"} {
		sweep(id, func(add func(any)) {
			for _, s := range screens(20) {
				add(s)
			}
		})
	}
	sweep("C10", func(add func(any)) {
		for _, rs := range chunks(blankRunes, 8) {
			add(&C10Case{Setup: &Setup{Width: 120, Default: Str(rs), History: []Str{among(rs, "a", "")}, Predict: true,
				Keys: times(1, "a", kLeft, kEnd, kEsc, "a", kEsc, kSearch, "a", string(rs[:1]), kEnter)}})
		}
	})
	sweep("C16", func(add func(any)) {
		for i, rs := range chunks(sweepRunes, 1000) {
			call := []string{"GetRawKey", "GetKey", "GetKeys"}[i%3]
			var single [][]rune
			for _, r := range rs {
				single = append(single, []rune{r}, []rune{0x1B, '[', r, 'x'})
			}
			add(&C16Case{Chunks: [][]rune{rs}, Call: call, Fail: -1, RawAt: -1})
			add(&C16Case{Chunks: single, Call: call, Fail: -1, RawAt: -1})
		}
	})
	sweep("C17", func(add func(any)) {
		for _, rs := range chunks(sweepRunes[0xA0:], 500) {
			add(&C17Case{Chunks: []Str{Str(rs)}, Width: 80, Height: 25})
		}
	})
	sweep("C18", func(add func(any)) {
		for _, part := range chunks(chunks(sweepRunes[0xA0:], 50), 40) {
			c := &C18Case{Width: 80}
			for _, rs := range part {
				c.Steps = append(c.Steps, PtyStep{Keys: Str(rs) + "\r"})
			}
			add(c)
		}
	})
	sweep("C19", func(add func(any)) {
		for _, r := range blankRunes {
			s := among([]rune{r}, "ab", "cd")
			add(&C19Case{Setup: Setup{Width: 80, Default: s, Cursor: 100, Keys: []Str{cmdKey, cmdKey}}, Full: []Str{"cdx", s + "y", s + "yz", "cdxz"}, Enclosures: `"'`, Delimiters: "&|><;", Postfix: " "})
		}
		for _, p := range casePairs {
			lo, up := string(p[0]), string(p[1])
			add(&C19Case{Setup: Setup{Width: 80, Default: Str("c " + lo), Cursor: 100, Keys: []Str{cmdKey, cmdKey, "z", cmdKey}}, Full: []Str{Str(up + lo + "xyz"), Str(lo + up + "x"), Str(up)}, Enclosures: `"'`, Delimiters: "&|><;", Postfix: "$"})
		}
	})
	sweep("C21", func(add func(any)) {
		for _, part := range chunks(casePairs, 40) {
			c := &C21Case{}
			for _, p := range part {
				lo, up := string(p[0]), string(p[1])
				c.Tree = append(c.Tree, TreeEntry{-1, Str(up + "a"), "file", ""}, TreeEntry{-1, Str(lo), "dir", ""})
				c.Typed = append(c.Typed, Str(lo), Str(up+"A"))
			}
			add(c)
		}
		for _, rs := range chunks(blankRunes, 60) {
			c := &C21Case{}
			for i, r := range rs {
				if r == 0 || r == '/' {
					continue
				}
				c.Tree = append(c.Tree, TreeEntry{-1, Str(fmt.Sprintf("a%cb", r)), "file", ""})
				// What ends a word is not typed.
				if i%2 == 0 && !unicode.IsSpace(r) && !strings.ContainsRune("\"'&|<>;", r) {
					c.Typed = append(c.Typed, Str(fmt.Sprintf("a%c", r)))
				}
			}
			add(c)
		}
	})
	sweep("C24", func(add func(any)) {
		for _, rs := range chunks(sweepRunes, 12) {
			add(&C24Case{Setup: Setup{Width: 80, Predict: true, History: []Str{among(rs, "a", "")}, Keys: times(1, "a", kRight, kBS, kEsc, "a", kEnd)}, Kind: "history"})
		}
	})
	sweep("C25", func(add func(any)) {
		for i, s := range screens(36) {
			add(&C25Case{Setup: *s, Kind: []string{"hash", "batch", "hash and marks"}[i%3]})
		}
	})
	sweep("C27", func(add func(any)) {
		var list []rune
		for _, r := range sweepRunes[0xA0:] {
			// Terminals differ on some, which therefore are never just sent.
			if !isVSLike(r) && r != zwj && (r < 0x2500 || r > 0x257F) && (r < 0x1D400 || r > 0x1D7FF) && r != 0x1F3F3 && (r < 0x1F1E6 || r > 0x1F1FF) {
				list = append(list, r)
			}
		}
		for _, rs := range chunks(list, 6) {
			add(&C27Case{Setup: Setup{Width: 40, Default: "ab", Cursor: 1, Keys: []Str{lastKey, redrawKey, "a"}}, Prompts: []Str{among(rs, "a", "b") + "$ "}})
		}
	})
	sweep("C28", func(add func(any)) {
		for _, rs := range chunks(blankRunes, 12) {
			c := &C28Case{Setup: Setup{Width: 80, Default: among(rs, "ab", "cd"), Keys: times(1, cmdKey, kRight, kRight, kRight, cmdKey, cmdKey, kUndo)}}
			for i := 0; i < 3; i++ {
				c.Calls = append(c.Calls, ApiCall{Do: "read", A: i, B: 3 + i})
			}
			c.Calls = append(c.Calls, ApiCall{Do: "replace", A: 1, Text: Str(rs)})
			add(c)
		}
	})

	// Widths and lengths of the prompt.
	var narrow []*Setup
	for w := 5; w < 220; w++ {
		for _, n := range []int{0, 1, w / 2, w - 10, w - 6, w - 5, w - 4, w - 3, w - 2, w - 1, w, w + 1} {
			if n < 0 {
				continue
			}
			p := Str(strings.Repeat("p", n))
			narrow = append(narrow, &Setup{Width: w, Prompt: &p, Default: Str(strings.Repeat("ab漢", w/2)), Cursor: n, History: []Str{"entry"}, Predict: w%2 == 0,
				Keys: times(1, kEnd, kLeft, "x", kHome, kRight, kEnd, kBS, kPrev, kSearch, "n", "\x07", kKillHead, "e")})
		}
	}
	for _, id := range []string{"C07", "C08", "C09", "C14", "C24", "C25", "C27"} {
		sweep(id, func(add func(any)) {
			for _, s := range narrow {
				switch id {
				case "C07":
					add(&C07Case{Setup: *s})
				case "C09":
					if promptEnd(s.Prompt)+15 <= s.Width {
						add(s)
					}
				case "C14":
					if s.Width%3 != 0 {
						continue
					}
					add(&C14Case{Setup: *s, Resizes: []Resize{{2, s.Width/2 + 8}, {6, s.Width + 1}, {9, s.Width + 50}}})
				case "C24":
					add(&C24Case{Setup: *s, Kind: "history"})
				case "C25":
					if s.Width%4 == 0 {
						add(&C25Case{Setup: *s, Kind: "hash"})
					}
				case "C27":
					t := *s
					t.Keys = append([]Str{"a", redrawKey, lastKey}, t.Keys...)
					add(&C27Case{Setup: t, Prompts: []Str{*s.Prompt}, Resizes: []Resize{{4, s.Width + 3}, {8, s.Width/2 + 16}}})
				default:
					add(s)
				}
			}
		})
	}

	// All sequences of three keys.
	triples := func(start Setup, end []Str, ks ...string) (all []*Setup) {
		for _, a := range ks {
			for _, b := range ks {
				for _, c := range ks {
					s := start
					s.Keys = join(times(1, a, b, c), end)
					all = append(all, &s)
				}
			}
		}
		return all
	}
	text := Setup{Width: 80, Default: "ab \"c d\" e\tf漢", Cursor: 5, History: []Str{"oldest", "ab \"c", "newest Ab"}, Clip: "c\"l p\r\n"}
	edits := []string{"x", " ", "\"", kLeft, kRight, kHome, kEnd, kBS, kDelete, kSwap, kRubout, kKill, kKillHead, kEsc, kWordLeft, kWordRight, kYank, kUndo, kPrev, kNext}
	for _, id := range []string{"C01", "C03", "C04", "C06", "C08", "C24"} {
		sweep(id, func(add func(any)) {
			if prof.Name != "plain" {
				return
			}
			s := text
			switch id {
			case "C04":
				s.Cycling = true
			case "C24":
				s.Predict, s.Default, s.Cursor = true, "a", 1
			}
			for _, s := range triples(s, nil, edits...) {
				if id == "C24" {
					add(&C24Case{Setup: *s, Kind: "history"})
				} else {
					add(s)
				}
			}
		})
	}
	sweep("C05", func(add func(any)) {
		if prof.Name == "plain" {
			for _, s := range triples(text, []Str{kEnter, kUndo}, "a", "B", "\"", "z", kSearch, kFwdSearch, kBS, kEsc, "\x07", kEnter, kLeft, "\t") {
				s.Keys = append([]Str{kSearch}, s.Keys...)
				add(s)
			}
		}
	})

	// Failures at every moment.
	mixed := text
	mixed.Predict = true
	mixed.Keys = times(1, "x", kQuote, "\x01", kSearch, "a", kSearch, kBS, kEnter, kYank, kPrev, "y", kNext, kSearch, "o", "\x07", kQuote, kQuote, kRubout, kUndo, kQuote, kEnter, kHome, "漢")
	sweep("C13", func(add func(any)) {
		next := Setup{Width: 80, History: text.History, Keys: times(1, "n", kPrev, kUndo, kUndo)}
		for at := range len(mixed.Keys) + 1 {
			add(&C13Case{Setup: mixed, Fail: "key", At: at, Next: next})
		}
	})
	sweep("C31", func(add func(any)) {
		for after := range 1500 {
			for i, how := range []string{"for good", "once", "short"} {
				add(&C31Case{Setup: mixed, After: after, How: how, Buffer: []int{0, 16, 100, 33}[(after+i)%4]})
			}
		}
	})
	sweep("C16", func(add func(any)) {
		stream := []rune("a\x00b\x1b[1;5Cé漢\x1b\x1b[Dx\x01")
		stream = append(stream, 0xD83D, 0xDE00, 'y', 0x1B)
		for i := range len(stream) + 1 {
			for j := i; j <= len(stream); j++ {
				for fail := -1; fail < len(stream); fail++ {
					add(&C16Case{Chunks: [][]rune{stream[:i], stream[i:j], stream[j:]}, Call: []string{"GetRawKey", "GetKey", "GetKeys"}[(i+j+fail+1)%3], Fail: fail, RawAt: -1})
				}
			}
		}
	})
	sweep("C17", func(add func(any)) {
		// Characters at every place of a buffer.
		for _, size := range []int{64, 128, 256, 512, 1024, 2048, 4000} {
			for d := -5; d <= 5; d++ {
				for _, s := range []string{"é", "漢", "👨", "\x1b[1;5C"} {
					if s[0] == 0x1B && size > 1000 { // not one chunk for the reader
						continue
					}
					add(&C17Case{Chunks: []Str{Str(strings.Repeat("a", size+d) + s + "b"), "c"}, Width: 80, Height: 25})
				}
			}
		}
	})
}
