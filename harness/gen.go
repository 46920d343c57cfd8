package main

import (
	"unicode/utf8"

	"pgregory.net/rapid"
)

// Character classes of generated text; every class exercises another branch of
// the division into characters, of the width rules or of the word rules.
var charClasses = []struct {
	weight int
	name   string
	chars  []rune
}{
	{10, "letter", []rune("abcab")},
	{2, "upper", []rune("ABC")},
	{4, "blank", []rune("   　 ")},
	{2, "quote", []rune("\"'")},
	{3, "wide", []rune("あ漢ー")},
	{2, "ambiguous", []rune("α①※")},
	{1, "box", []rune("─┼")},
	{2, "tab", []rune("\t")},
	{1, "combining", []rune("゙́")},
	{3, "emoji", []rune("👨🌾👩❤☺")},
	{2, "zwj", []rune{zwj}},
	{2, "selector", []rune{vs16, 0xFE00, 0x20E3, 0xE0100}},
	{1, "skin", []rune{0x1F3FB, 0x1F3FF}},
	{1, "flag", []rune{0x1F1EF, 0x1F1F5, 0x1F3F3}},
	{1, "math", []rune{0x1D400, 0x1D7FF}},
	{2, "control", []rune{1, 2, 0x1B, 0x7F, 0x85, 0x9B, '\n', '\r', 0}},
	{1, "format", []rune{0x200C, 0x200B, 0xFEFF, 0x202E, 0x2028, 0xAD}},
	{1, "special", []rune{0xFFFD, 0xE000, 0x10FFFF, 0xD7FF, 0xFFFF}},
	{2, "punct", []rune("%&|<>;./-_=#")},
}

// pickWeighted draws an index by weight.
func pickWeighted(t *rapid.T, weights []int, label string) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	x := rapid.IntRange(0, sum-1).Draw(t, label)
	for i, w := range weights {
		if x < w {
			return i
		}
		x -= w
	}
	return len(weights) - 1
}

// expand lists each element as often as its weight says.
func expand[T any](weights []int, items []T) []T {
	var out []T
	for i, w := range weights {
		for j := 0; j < w; j++ {
			out = append(out, items[i])
		}
	}
	return out
}

// charTable has every character of the classes, repeated by class weight, the
// plainest first so that shrinking ends there.
func charTable(skip ...string) []rune {
	drop := map[string]bool{}
	for _, s := range skip {
		drop[s] = true
	}
	var out []rune
	for _, c := range charClasses {
		if drop[c.name] {
			continue
		}
		for i := 0; i < c.weight; i++ {
			for j := 0; j < 4; j++ {
				out = append(out, c.chars[(i*4+j)%len(c.chars)])
			}
		}
	}
	return out
}

var (
	anyChar    = rapid.SampledFrom(charTable())
	noCtlChar  = rapid.SampledFrom(charTable("control"))
	tameChar   = rapid.SampledFrom(charTable("control", "format", "special"))
	wordChar   = rapid.SampledFrom([]rune("aaabbbcABC   \"'あ\t"))
	plainChar  = rapid.SampledFrom([]rune("abcdefgh XYZ"))
	randomRune = rapid.Custom(func(t *rapid.T) rune {
		switch rapid.IntRange(0, 3).Draw(t, "plane") {
		case 0:
			return rune(rapid.IntRange(0, 0x2FF).Draw(t, "latin"))
		case 1:
			return rune(rapid.IntRange(0x300, 0xD7FF).Draw(t, "bmp"))
		case 2:
			return rune(rapid.IntRange(0xE000, 0xFFFF).Draw(t, "bmp2"))
		}
		return rune(rapid.IntRange(0x10000, 0x10FFFF).Draw(t, "astral"))
	})
)

func textOf(c *rapid.Generator[rune], min, max int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		return string(rapid.SliceOfN(c, min, max).Draw(t, "text"))
	})
}

// mixedChar is mostly from the classes, sometimes any code point.
var mixedChar = rapid.Custom(func(t *rapid.T) rune {
	if rapid.IntRange(0, 11).Draw(t, "any") == 11 {
		return randomRune.Draw(t, "rune")
	}
	return anyChar.Draw(t, "char")
})

// sequences are characters made of several code points.
var sequences = []string{
	"👨‍🌾", "👩‍👩‍👧", "❤️", "❤️‍🔥", "#️⃣", "👍🏿", "🏳️‍🌈", "🏳️", "🇯🇵", "a️", "あ️", "é",
	"👨‍", "‍a", "a‌", "─️",
}

// rawText is a string over everything, invalid bytes and sequences included.
var rawText = rapid.Custom(func(t *rapid.T) string {
	var b []byte
	n := rapid.IntRange(0, 12).Draw(t, "pieces")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 8:
			b = append(b, rapid.SampledFrom(sequences).Draw(t, "seq")...)
		case 9:
			b = append(b, rapid.SampledFrom([]string{"\xff", "\xc3", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe3\x81"}).Draw(t, "bad")...)
		default:
			b = utf8.AppendRune(b, mixedChar.Draw(t, "char"))
		}
	}
	return string(b)
})

// lineText is text as users have it: words, some unusual characters.
func lineText(max int) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		var b []byte
		n := rapid.IntRange(0, max).Draw(t, "len")
		for i := 0; i < n; i++ {
			if rapid.IntRange(0, 9).Draw(t, "kind") == 9 {
				b = append(b, rapid.SampledFrom(sequences).Draw(t, "seq")...)
			} else {
				b = utf8.AppendRune(b, anyChar.Draw(t, "char"))
			}
		}
		return string(b)
	})
}

// group is a set of keys with a weight; gen, if set, makes the key.
type group struct {
	weight int
	keys   []string
	gen    *rapid.Generator[string]
}

var (
	gMotion   = group{6, []string{kLeft, kRight, kHome, kEnd, kArrLeft, kArrRight, kArrHome, kArrEnd, kLeft, kRight}, nil}
	gWord     = group{3, []string{kWordLeft, kWordRight, kCtrlLeft, kCtrlRight}, nil}
	gDelete   = group{4, []string{kBS, kDEL, kDelete, kDelEOF, kBS}, nil}
	gKill     = group{3, []string{kKill, kKillHead, kRubout, kEsc, kRubout}, nil}
	gSwap     = group{2, []string{kSwap}, nil}
	gQuote    = group{1, []string{kQuote, kQuote2}, nil}
	gYank     = group{2, []string{kYank, kYank2, kYankQuote}, nil}
	gUndo     = group{4, []string{kUndo, kUndo2}, nil}
	gHistory  = group{4, []string{kPrev, kNext, kArrUp, kArrDown, kPrev}, nil}
	gSearch   = group{2, []string{kSearch, kSearch, kFwdSearch}, nil}
	gClear    = group{1, []string{kClear}, nil}
	gUnbound  = group{1, []string{"\x07", "\n", "\x0f", "\x13", "\x18", "\x1c", "\x1d", "\x1e", "\t", "\x1b[5~", "\x1bx", "\x1b[Z", "\x1bOP"}, nil}
	gEnd      = group{1, []string{kEnter, kIntr, kDelEOF}, nil}
	gType     = group{14, nil, typedKey(anyChar)}
	gTypeTame = group{14, nil, typedKey(tameChar)}
	gTypeWord = group{14, nil, typedKey(wordChar)}
	gPaste    = group{2, nil, rapid.Custom(func(t *rapid.T) string {
		s := lineText(8).Draw(t, "piece")
		if s == "" || bound[s] || s[0] == 0x1B {
			return "pp" + s
		}
		return s
	})}
)

// bound are the keys with a meaning of their own.
var bound = func() map[string]bool {
	m := map[string]bool{}
	for _, k := range []string{kHome, kLeft, kIntr, kDelEOF, kEnd, kRight, kBS, kDEL, kDelete, kKill, kClear, kEnter, kNext, kPrev,
		kQuote, kSearch, kSwap, kKillHead, kQuote2, kRubout, kYank, kUndo, kUndo2, kEsc, kWordLeft, kWordRight, kYank2, kYankQuote,
		kArrLeft, kArrRight, kArrUp, kArrDown, kArrHome, kArrEnd, kCtrlLeft, kCtrlRight} {
		m[k] = true
	}
	return m
}()

// typedKey is a key that types one character.
func typedKey(c *rapid.Generator[rune]) *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		s := string(c.Draw(t, "char"))
		if bound[s] {
			return "a"
		}
		return s
	})
}

// keyGen draws one key from weighted groups.
func keyGen(groups ...group) *rapid.Generator[Str] {
	var ws []int
	for _, g := range groups {
		ws = append(ws, g.weight)
	}
	return rapid.Custom(func(t *rapid.T) Str {
		g := groups[pickWeighted(t, ws, "group")]
		if g.gen != nil {
			return Str(g.gen.Draw(t, "key"))
		}
		return Str(rapid.SampledFrom(g.keys).Draw(t, "key"))
	})
}

func (g group) times(w int) group {
	g.weight = w
	return g
}

func genHistory(t *rapid.T, text *rapid.Generator[string], max int) []Str {
	if rare.Draw(t, "long history") {
		// many entries, some of them alike
		some := rapid.SliceOfN(rapid.Map(text, func(s string) Str { return Str(s) }), 1, 12).Draw(t, "entries")
		n := rapid.SampledFrom([]int{10, 20, 40, 70, 150, 300}).Draw(t, "length")
		var h []Str
		for i := 0; i < n; i++ {
			h = append(h, some[i*i%len(some)])
			if i%3 == 0 {
				h[i] += Str(rune('a' + i/3%26))
			}
		}
		return h
	}
	return rapid.SliceOfN(rapid.Map(text, func(s string) Str { return Str(s) }), 0, max).Draw(t, "history")
}

func asStr(g *rapid.Generator[string]) *rapid.Generator[Str] {
	return rapid.Map(g, func(s string) Str { return Str(s) })
}

// rare is true once in a while.
var rare = rapid.SampledFrom(append(make([]bool, 39), true))

// seq is a list of which a good part is long, once in a while very long with
// an element repeated many times.
func seq[T any](g *rapid.Generator[T], min, max int) *rapid.Generator[[]T] {
	return rapid.Custom(func(t *rapid.T) []T {
		if max >= 10 && rare.Draw(t, "repeats") {
			var list []T
			for i := rapid.IntRange(1, 5).Draw(t, "runs"); i > 0; i-- {
				list = append(list, rapid.SliceOfN(g, 1, 4).Draw(t, "list")...)
				last := list[len(list)-1]
				n := rapid.SampledFrom([]int{1, 3, 12, 40, 110, 280}).Draw(t, "times")
				if key, ok := any(last).(Str); ok && n*len(key) > 2800 {
					n = 2800 / len(key) // not too much text altogether
				}
				for ; n > 0; n-- {
					list = append(list, last)
				}
			}
			return list
		}
		least := min + (max-min)*rapid.IntRange(0, 3).Draw(t, "least")/4
		return rapid.SliceOfN(g, least, max).Draw(t, "list")
	})
}
