package main

import (
	"fmt"
	"strings"
)

// Large cases, far beyond what the generators make: long lines, histories and
// sessions, wide terminals, many candidates.  What goes wrong only from some
// size on shows in them.  They are tried on every run.

// times is a list of keys, repeated.
func times(n int, keys ...string) []Str {
	var list []Str
	for ; n > 0; n-- {
		for _, k := range keys {
			list = append(list, Str(k))
		}
	}
	return list
}

// join puts lists of keys one after another.
func join(lists ...[]Str) []Str {
	var all []Str
	for _, l := range lists {
		all = append(all, l...)
	}
	return all
}

// longText has about n characters of all kinds, in words that differ.
func longText(n int) Str {
	kinds := []string{"word ", "漢字", "é", "👨‍🌾 ", "\t", "x\x01", "ABC", " ", "❤️", "\"q r\" "}
	var b strings.Builder
	for i := 0; n > 0; i++ {
		s := kinds[i*i%len(kinds)] + fmt.Sprint(i%7)
		if i%11 == 0 {
			s = fmt.Sprint("n", i, " ")
		}
		n -= len([]rune(s))
		b.WriteString(s)
	}
	return Str(b.String())
}

// longHistory has n entries that differ, the oldest with a word of its own.
func longHistory(n int) []Str {
	h := []Str{"needle zzz"}
	for i := 1; i < n; i++ {
		h = append(h, Str(fmt.Sprintf("entry %d", i)))
	}
	return h
}

// largeScreens are sessions whose screen is looked at.
func largeScreens() []*Setup {
	wide := Str("$ ")
	return []*Setup{
		{Width: 40, Default: longText(1200), Cursor: 1 << 20, History: longHistory(1000),
			Keys: join(times(800, kLeft), times(300, kRight), times(200, "z"), times(300, kBS), times(1, kHome, kEnd), times(60, kWordLeft), times(100, kUndo), times(20, kPrev))},
		{Width: 1500, Prompt: &wide, Default: longText(900), Cursor: 400, Predict: true, History: []Str{longText(1200)},
			Keys: join(times(20, kLeft, "y"), times(1, kHome, kEnd, kKillHead), times(30, "w"), times(1, kPrev, kHome), times(30, kRight, kDelete), times(1, kEnd), times(5, kUndo), times(40, "v", "漢"))},
	}
}

// large adds cases to a property.
func large(id string, cases func() []any) { props[id].Large = cases }

func setups(list ...*Setup) func() []any {
	return func() []any {
		var all []any
		for _, s := range list {
			all = append(all, s)
		}
		return all
	}
}

func init() {
	large("C01", setups(
		&Setup{Width: 80, Default: longText(3000), Cursor: 1 << 20,
			Keys: join(times(500, kWordLeft), times(400, kWordRight), times(150, kSwap), times(300, kLeft), times(200, kDelete), times(200, kBS), times(20, kRubout), times(1, kKill, kEnd))},
		&Setup{Width: 30, Keys: join(times(1500, "a", "b "), times(1, kHome), times(300, kRight, kDelete), times(1, kEnd), times(300, kBS), times(1, kKillHead))},
	))
	large("C02", func() (all []any) {
		for _, w := range c02ways {
			n := 20000
			if w == "typed" {
				n = 2500
			}
			all = append(all, &C02Case{Text: longText(n), Way: w})
		}
		return all
	})
	large("C03", setups(
		&Setup{Width: 80, Keys: times(2500, "a")},
		&Setup{Width: 80, Default: "begin", Cursor: 3, History: longHistory(100), Clip: "clip", Keys: join(times(120, "some text", kYank, kLeft, kBS), times(200, kPrev), times(300, kUndo))},
	))
	large("C04", func() (all []any) {
		for _, cycling := range []bool{false, true} {
			all = append(all, &Setup{Width: 80, Default: "new", Cursor: 3, History: longHistory(8000), Cycling: cycling,
				Keys: join(times(800, kPrev, kPrev, kPrev, kPrev, kPrev, kPrev, kPrev, "x"), times(2500, kPrev), times(8100, kNext))})
		}
		return all
	})
	large("C05", setups(
		&Setup{Width: 60, History: longHistory(6000), Keys: join(times(1, kSearch, "n", "e", "e", "d", "l", kEnter, kKillHead, kSearch, "e"), times(2500, kSearch), times(1500, kFwdSearch), times(1, kEnter))},
		&Setup{Width: 60, History: []Str{"x" + longText(500)}, Keys: join(times(1, kSearch), times(1, strings.Split("x"+string(longText(500)), "")...), times(40, kBS))},
	))
	large("C06", setups(
		&Setup{Width: 80, Default: longText(5000), Cursor: 2500, Keys: join(times(1, kKill, kYank, kYank, kHome, kKill, kYankQuote, kYank2, kLeft, kKillHead, kYank), times(200, kRubout), times(3, kYank))},
		&Setup{Width: 80, Clip: longText(20000) + "\r\n", Keys: times(3, kYank, kYankQuote)},
	))
	large("C07", func() []any {
		return []any{
			&C07Case{Setup: Setup{Width: 20, Default: longText(100), Clip: longText(3000), History: longHistory(500), Predict: true,
				Keys: join(times(1, kYank, kYankQuote, kHome, kEnd), times(200, kPrev), times(100, cmdKey), times(100, kUndo))}, Repeat: 300, Commands: []int{0, 1, 2, 3, 4, 5, 6, 400, 1001}},
			&C07Case{Setup: Setup{Width: 30000, Default: longText(20000), Keys: times(10, "a", kLeft, kBS)}, Resize: []int{10, 60000, 3, 1 << 20}, Commands: []int{1}},
		}
	})
	large("C08", setups(largeScreens()...))
	large("C09", setups(largeScreens()...))
	large("C11", func() []any {
		var ops []C11Op
		for i := 0; i < 2000; i++ {
			ops = append(ops, C11Op{Op: "width", Rune: Str(rune(0x2500 + i)), N: 1 + i%2})
		}
		return []any{&C11Case{Ops: append(ops, C11Op{Op: "measure", Text: longText(2000)}, C11Op{Op: "reset"}, C11Op{Op: "measure", Text: longText(2000)})}}
	})
	large("C12", func() (all []any) {
		for _, end := range []string{"enter key", "ctrl-c", "ctrl-d", "enter", "abort", "intr"} {
			all = append(all, &C12Case{Setup: Setup{Width: 30, Default: longText(5000), Cursor: 1 << 20, History: longHistory(1000), Keys: join(times(100, "a", kLeft), times(50, kPrev))}, End: end, Line: true})
		}
		return all
	})
	large("C13", func() []any {
		return []any{
			&C13Case{Setup: Setup{Width: 80, Keys: times(2500, "a")}, Fail: "key", At: 2400, Next: Setup{Width: 80, Keys: times(100, "b")}},
			&C13Case{Setup: Setup{Width: 80, History: longHistory(300), Keys: times(1000, "a", kSearch, "e", kEnter)}, Fail: "key", At: 3002, Next: Setup{Width: 80, Keys: times(100, "b")}},
		}
	})
	large("C14", func() []any {
		p := Str("$ ")
		c := &C14Case{Setup: Setup{Width: 80, Prompt: &p, Default: longText(300), Cursor: 1 << 20, Keys: join(times(400, "a", kLeft, kLeft), times(20, kHome, kEnd))}}
		for i := range c.Keys {
			c.Resizes = append(c.Resizes, Resize{i, 20 + i*37%400})
		}
		return []any{c}
	})
	large("C15", func() []any {
		c := &C15Case{Setup: Setup{Width: 80, Default: longText(100), Keys: times(60, "a", cmdKey, kLeft)}, Join: true}
		for i, when := range []string{"open", "command", "wait", "size", "close", "after", "command"} {
			b := Burst{When: when, At: i * 10}
			for j := 0; j < 150; j++ {
				b.Widths = append(b.Widths, 20+j)
			}
			c.Bursts = append(c.Bursts, b)
		}
		return []any{c}
	})
	large("C16", func() (all []any) {
		text := []rune(longText(12000))
		var single [][]rune
		for _, r := range text {
			single = append(single, []rune{r})
		}
		esc := append([]rune("\x1b"), text[:6000]...)
		for i, r := range esc {
			if r == 0x1B && i > 0 {
				esc[i] = 'e'
			}
		}
		for _, call := range []string{"GetRawKey", "GetKey", "GetKeys"} {
			all = append(all,
				&C16Case{Chunks: [][]rune{text, text[:6000]}, Call: call, Fail: -1, RawAt: -1},
				&C16Case{Chunks: single, Call: call, Fail: -1, RawAt: -1},
				&C16Case{Chunks: [][]rune{esc, text[:100]}, Call: call, Fail: -1, RawAt: -1})
		}
		return all
	})
	large("C18", func() []any {
		c := &C18Case{Width: 80, History: longHistory(1000)}
		for i := 0; i < 300; i++ {
			c.Steps = append(c.Steps, PtyStep{Keys: Str(fmt.Sprintf("line %d\r", i))})
		}
		c.Steps = append(c.Steps, PtyStep{Keys: Str(strings.Repeat("abc 漢", 250))}, PtyStep{Keys: Str(strings.Repeat(kLeft, 900))}, PtyStep{Keys: Str(strings.Repeat(kPrev, 380))})
		return []any{c}
	})
	candidates := func(n int) *C19Case {
		c := &C19Case{Setup: Setup{Width: 80, Default: "command com", Cursor: 100, Keys: []Str{cmdKey, cmdKey, "7", cmdKey, "7", cmdKey}}, Enclosures: `"'`, Delimiters: "&|><;", Postfix: " "}
		for i := 0; i < n; i++ {
			c.Full = append(c.Full, Str(fmt.Sprintf("Common%d", i)))
		}
		return c
	}
	large("C19", func() []any {
		words := candidates(10)
		words.Default, words.Cursor = Str(strings.Repeat("word 'q r' & ", 300))+"com", 1<<20
		long := candidates(0)
		for i := range 5 {
			long.Full = append(long.Full, Str("com"+strings.Repeat("mon漢", 300)+fmt.Sprint(i)))
		}
		last := candidates(2500)
		last.Full[len(last.Full)-1] = "comma"
		return []any{candidates(2500), last, words, long}
	})
	large("C20", func() []any { return []any{candidates(5000)} })
	large("C21", func() []any {
		many := &C21Case{Typed: []Str{"", "f", "file77", "FILE1000", absMark + "/file5"}}
		for i := 0; i < 5000; i++ {
			many.Tree = append(many.Tree, TreeEntry{-1, Str(fmt.Sprintf("file%d", i)), "file", ""})
		}
		deep := &C21Case{}
		path := ""
		for i := 0; i < 200; i++ {
			deep.Tree = append(deep.Tree, TreeEntry{i - 1, Str(fmt.Sprintf("directory%d", i)), "dir", ""})
			path += fmt.Sprintf("directory%d/", i)
		}
		deep.Typed = []Str{Str(path), Str(path[:len(path)-3]), Str(strings.Repeat("./", 200)), Str(strings.Repeat("directory0/../", 100)) + "dir"}
		return []any{many, deep}
	})
	large("C22", func() []any {
		c := &C22Case{}
		var ks []Str
		for i := 0; i < 1500; i++ {
			k := Str(fmt.Sprintf("\x1b[%d~", 2000+i))
			c.Ops = append(c.Ops, BindOp{Where: i % 3, Key: k, Command: []string{"custom0", "custom1", "BACKWARD_CHAR"}[i%3]})
			ks = append(ks, k)
		}
		c.Ops = append(c.Ops, BindOp{Where: 1, Keys: ks}, BindOp{Where: 2, Keys: ks})
		return []any{c}
	})
	large("C24", func() []any {
		p := Str("$ ")
		var hist []Str
		for i := 0; i < 5000; i++ {
			hist = append(hist, Str(fmt.Sprintf("%x%d", i%16, i)))
		}
		return []any{
			&C24Case{Setup: Setup{Width: 40, Prompt: &p, Predict: true, Keys: join(times(3, "a", kRight, kLeft, kEnd, kEnd), times(50, kBS))}, Kind: "fixed", Texts: []Str{longText(1500)}},
			&C24Case{Setup: Setup{Width: 1000, Prompt: &p, Predict: true, History: []Str{"a" + longText(800)}, Keys: join(times(1, "a", kRight), times(20, kBS), times(5, kHome, kEnd))}, Kind: "history"},
			&C24Case{Setup: Setup{Width: 40, Prompt: &p, Predict: true, History: hist, Keys: times(16, "f", "1", "5", kEnd, kEsc, "0", "1", kBS, "0", kEnd, kEsc)}, Kind: "history"},
		}
	})
	large("C25", func() (all []any) {
		for _, s := range largeScreens() {
			for _, k := range []string{"hash", "batch"} {
				t := *s
				t.Keys = t.Keys[:min(len(t.Keys), 250)]
				all = append(all, &C25Case{Setup: t, Kind: k})
			}
		}
		return all
	})
	large("C27", func() []any {
		color := Str(strings.Repeat("\x1b[31;1ma\x1b[0m\x1b]0;title\a\b", 1000) + "日本$ ")
		lines := Str(strings.Repeat("a line of the prompt\n", 200) + "$ ")
		title := Str("\x1b]0;" + strings.Repeat("long title 日 ", 500) + "\a> ")
		keys := join(times(40, "a", kClear, redrawKey, lastKey, kLeft), times(10, kBS))
		return []any{
			&C27Case{Setup: Setup{Width: 60, Keys: keys}, Prompts: []Str{color, title}},
			&C27Case{Setup: Setup{Width: 60, Keys: keys[:30]}, Prompts: []Str{lines}},
		}
	})
	large("C28", func() []any {
		c := &C28Case{Setup: Setup{Width: 80, Default: longText(500), Keys: join(times(1500, cmdKey), times(400, kUndo))}}
		for i := 0; i < 1500; i++ {
			do := apiCalls[i*7%len(apiCalls)]
			a := ApiCall{Do: do, A: i * 131, B: i * 37}
			switch do {
			case "insert", "replace", "type in":
				a.Text = longText(40)
				if i%16 == 0 {
					a.Text = longText(800)
				}
			case "command":
				a.Text = Str(apiCommands[i%len(apiCommands)])
			case "self":
				a.Text = "s"
			case "bad delete":
				a.A, a.B = i*100, 1<<40
			}
			c.Calls = append(c.Calls, a)
		}
		return []any{c}
	})
	large("C29", func() []any {
		c := &C29Case{}
		for i := 0; i < 1500; i++ {
			s := &Session{Setup: Setup{Width: 80, Keys: times(1, "l", fmt.Sprint(i), kPrev, kPrev, kPrev, kNext, kNext, kNext, kSearch, "l", kEnter, "x", kUndo)}, Editor: i % 2, Shared: true, Pilot: i%10 == 0}
			if s.Pilot {
				s.Keys = s.Keys[:8]
			}
			c.Sessions = append(c.Sessions, s)
		}
		return []any{c}
	})
	large("C30", func() []any {
		ks := join(times(1, cmdKey), times(1500, "a", kLeft, kHome, "漢"), times(1, cmdKey), times(3, kBS))
		return []any{&C30Case{Setup: Setup{Width: 80, Keys: ks}, Reads: []Reading{{N: 6000, Fail: -1}, {N: 2, Mark: "m", Fail: 1}}}}
	})
	large("C31", func() (all []any) {
		for _, how := range []string{"for good", "once", "short"} {
			all = append(all, &C31Case{Setup: Setup{Width: 80, History: longHistory(1000), Keys: join(times(2000, "a"), times(700, kPrev), times(20, kUndo))}, After: 60000, How: how})
		}
		return all
	})
}
