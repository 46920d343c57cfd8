package main

import "strings"

// Pairs and triples of characters go through what depends on neighbours.

// pairRunes are the characters tried next to each other.
var pairRunes = func() (list []rune) {
	seen := map[rune]bool{}
	add := func(rs ...rune) {
		for _, r := range rs {
			if !seen[r] {
				seen[r] = true
				list = append(list, r)
			}
		}
	}
	for _, c := range charClasses {
		add(c.chars...)
	}
	for r := rune(0); r < ' '; r++ {
		add(r)
	}
	add([]rune("019$@[\\]^`{}~!?*+,:()ßÄ가각かﾞ｡  ゙̀ำ\U0001F468\U000E0020\U000F0000")...)
	return list
}()

// pairsWith is each of the others between two of one.
func pairsWith(a rune, others []rune) Str {
	var b strings.Builder
	for _, o := range others {
		b.WriteRune(a)
		b.WriteRune(o)
	}
	b.WriteRune(a)
	return Str(b.String())
}

// composed are letters followed by marks, which some normalize.
var composed = func() (list []string) {
	pairs := func(bases, marks []rune) {
		for _, m := range marks {
			var b strings.Builder
			for _, r := range bases {
				b.WriteRune(r)
				b.WriteRune(m)
			}
			list = append(list, b.String())
		}
	}
	span := func(from, to rune) (rs []rune) {
		for r := from; r <= to; r++ {
			rs = append(rs, r)
		}
		return rs
	}
	pairs(append(span('A', 'Z'), span('a', 'z')...), span(0x300, 0x345))
	pairs(span(0x3042, 0x30FE), span(0x3099, 0x309A))
	pairs(span(0xFF66, 0xFF9D), span(0xFF9E, 0xFF9F))
	pairs(span(0x1100, 0x1112), span(0x1161, 0x1175))
	pairs(span(0xAC00, 0xAC40), span(0x11A7, 0x11C2))
	return list
}()

// tripleTexts are all sequences of three characters of the kinds that join
// others, each followed by an ordinary one.
func tripleTexts(n int) (texts []Str) {
	kinds := []rune{'a', ' ', '\t', '漢', 'α', '─', 0x301, zwj, vs16, 0x20E3, 0xE0100, 0x1F3FB, 0x1F468, 0x1F1EF, 0x1F3F3, 0x1D400, 1, 0x1B, 0x7F, 0x200B, '\r', '\n', '"'}
	var b strings.Builder
	count := 0
	for _, x := range kinds {
		for _, y := range kinds {
			for _, z := range kinds {
				b.WriteString(string([]rune{x, y, z, 'b'}))
				if count++; count%n == 0 {
					texts = append(texts, Str(b.String()))
					b.Reset()
				}
			}
		}
	}
	return append(texts, Str(b.String()))
}

func init() {
	sweep("C02", func(add func(any)) {
		for i, a := range pairRunes {
			for j, w := range c02ways {
				if w == "convert" || (i+j)%2 == 0 || a < 0x20 {
					add(&C02Case{Text: pairsWith(a, pairRunes), Way: w})
				}
			}
		}
		for i, s := range composed {
			add(&C02Case{Text: Str(s), Way: c02ways[i%len(c02ways)]})
			add(&C02Case{Text: Str(s), Way: c02ways[(i+4)%len(c02ways)]})
		}
		for i, s := range tripleTexts(40) {
			add(&C02Case{Text: s, Way: "convert"})
			add(&C02Case{Text: s, Way: c02ways[i%8]})
		}
	})
	sweep("C11", func(add func(any)) {
		measure := func(texts []Str) {
			c := &C11Case{}
			for _, s := range texts {
				c.Ops = append(c.Ops, C11Op{Op: "measure", Text: s})
			}
			add(c)
		}
		for _, a := range pairRunes {
			measure([]Str{pairsWith(a, pairRunes)})
		}
		for _, part := range chunks(tripleTexts(1), 100) {
			measure(part)
		}
	})
	screens := func(n int) (all []*Setup) {
		for i, s := range tripleTexts(n) {
			all = append(all, &Setup{Width: 50 + i%31, Default: s, Cursor: i % 3, Keys: times(1, kRight, "x", kRight, kBS, kDelete, kEnd, kLeft, kLeft, kBS, kSwap, kHome, kDelete)})
		}
		return all
	}
	for _, id := range []string{"C01", "C08", "C09"} {
		sweep(id, func(add func(any)) {
			for _, s := range screens(6) {
				add(s)
			}
		})
	}
	sweep("C10", func(add func(any)) {
		for _, s := range tripleTexts(3) {
			add(&C10Case{Text: s})
		}
		for i, s := range tripleTexts(20) {
			add(&C10Case{Setup: &Setup{Width: 120, Default: s, History: []Str{"a" + s}, Predict: true, Cursor: i % 3,
				Keys: times(1, kRight, kBS, kEnd, kLeft, kEsc, "a", kEsc, kSearch, "a", kEnter)}})
		}
	})
	sweep("C16", func(add func(any)) {
		for i, a := range pairRunes {
			call := []string{"GetRawKey", "GetKey", "GetKeys"}[i%3]
			if a == 0x1B || a == 0 {
				continue
			}
			rs := []rune(string(pairsWith(a, pairRunes)))
			add(&C16Case{Chunks: chunks(rs, 2), Call: call, Fail: -1, RawAt: -1})
			add(&C16Case{Chunks: chunks(rs[1:], 2), Call: call, Fail: -1, RawAt: -1})
		}
	})
	sweep("C25", func(add func(any)) {
		for i, s := range screens(12) {
			add(&C25Case{Setup: *s, Kind: []string{"hash", "batch", "hash and marks"}[i%3]})
		}
	})
}
