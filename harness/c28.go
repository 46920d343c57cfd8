package main

import (
	"context"
	"fmt"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"pgregory.net/rapid"
)

// C28Case is a session whose special key makes the calls given, in order.
type C28Case struct {
	Setup
	Calls  []ApiCall `json:"calls"`
	Quotes *Str      `json:"quotes,omitempty"` // quotation marks, nil for the default
}

// ApiCall is a call of the editing interface.  A and B are reduced to what is
// in range when the call is made.
type ApiCall struct {
	Do   string `json:"do"`
	A    int    `json:"a"`
	B    int    `json:"b"`
	Text Str    `json:"text,omitempty"`
}

var apiCalls = []string{"insert", "delete", "replace", "type in", "read", "repaint", "command", "self", "bad delete", "insert", "delete", "replace"}

// apiCommands are the commands a custom command may call in turn.
var apiCommands = []string{"BEGINNING_OF_LINE", "BACKWARD_CHAR", "END_OF_LINE", "FORWARD_CHAR", "BACKWARD_DELETE_CHAR", "DELETE_CHAR",
	"KILL_LINE", "KILL_WHOLE_LINE", "UNIX_WORD_RUBOUT", "UNIX_LINE_DISCARD", "YANK", "SWAPCHAR", "BACKWARD_WORD", "FORWARD_WORD",
	"UNDO", "PREVIOUS_HISTORY", "NEXT_HISTORY"}

var genCall = rapid.Custom(func(t *rapid.T) ApiCall {
	c := ApiCall{
		Do: rapid.SampledFrom(apiCalls).Draw(t, "do"),
		A:  rapid.IntRange(0, 20).Draw(t, "a"),
		B:  rapid.IntRange(0, 20).Draw(t, "b"),
	}
	switch c.Do {
	case "insert", "replace", "type in":
		c.Text = asStr(lineText(5)).Draw(t, "text")
	case "command":
		c.Text = Str(rapid.SampledFrom(apiCommands).Draw(t, "command"))
	case "self":
		c.Text = Str(typedKey(anyChar).Draw(t, "typed"))
	case "bad delete":
		c.A = rapid.SampledFrom([]int{-1, -5, 0, 3, 30, 1 << 62}).Draw(t, "pos")
		c.B = rapid.SampledFrom([]int{-1, 0, 1, 40, 1<<63 - 1, -1 << 63}).Draw(t, "n")
	}
	return c
})

var c28keys = keyGen(gType.times(6), gMotion.times(3), gWord.times(1), gDelete.times(2), gKill.times(1), gUndo.times(5), gHistory.times(1), gYank.times(1),
	group{weight: 14, keys: []string{cmdKey}})

func init() {
	register(property(Prop{
		ID:       "C28",
		Rule:     "a case is a session in which a custom command makes calls of the editing interface; non-trivial when at least two calls changed the line",
		Profiles: []string{"plain", "wt", "wez"}, Shards: 3, Quick: 10000, Thorough: 250000,
	}, func(t *rapid.T) *C28Case {
		c := &C28Case{Setup: Setup{
			Prompt:  promptGen.Draw(t, "prompt"),
			Default: asStr(lineText(8)).Draw(t, "default"),
			Cursor:  rapid.IntRange(0, 9).Draw(t, "cursor"),
			History: genHistory(t, lineText(6), 2),
			Clip:    asStr(lineText(3)).Draw(t, "clip"),
			Keys:    seq(c28keys, 1, 24).Draw(t, "keys"),
		}}
		c.Width = promptEnd(c.Prompt) + 3 + rapid.SampledFrom([]int{12, 15, 20, 60}).Draw(t, "room")
		n := 0
		for _, k := range c.Keys {
			if k == cmdKey {
				n++
			}
		}
		c.Calls = rapid.SliceOfN(genCall, n, n).Draw(t, "calls")
		if rapid.IntRange(0, 4).Draw(t, "own quotes") == 4 {
			q := Str(rapid.SampledFrom([]string{"", "'", "「a"}).Draw(t, "quotes"))
			c.Quotes = &q
		}
		return c
	}, runC28))
}

// between orders two numbers and brings them into 0..n.
func between(a, b, n int) (int, int) {
	a, b = a%(n+1), b%(n+1)
	if a > b {
		a, b = b, a
	}
	return a, b
}

func runC28(c *C28Case, rec *Rec) error {
	s := c.Setup
	r := newRun(&s)
	m := r.model()
	if c.Quotes != nil {
		old := readline.Delimiters
		defer func() { readline.Delimiters = old }()
		readline.Delimiters = string(*c.Quotes)
		m.quotes = string(*c.Quotes)
	}
	var results []string // what the calls returned
	made, expected, changed := 0, 0, 0
	r.ed.BindKey(cmdKey, readline.AnonymousCommand(func(ctx context.Context, b *readline.Buffer) readline.Result {
		if made >= len(c.Calls) {
			return readline.CONTINUE
		}
		call := c.Calls[made]
		made++
		results = append(results, callReal(ctx, b, call))
		return readline.CONTINUE
	}))
	var bad error
	m.custom = map[string]func(){cmdKey: func() {
		if expected >= len(c.Calls) {
			return
		}
		call := c.Calls[expected]
		rec.Label("%s", call.Do)
		before := m.text()
		want := callModel(m, call)
		if m.text() != before {
			if changed++; changed > 1 {
				rec.Nontrivial()
			}
		}
		if expected >= len(results) {
			bad = errf("the command did not run")
		} else if got := results[expected]; got != want && bad == nil {
			bad = errf("call %+v on %q reported %s, should report %s", call, before, got, want)
		}
		expected++
	}}
	err := r.follow(m, func(int) error {
		if bad != nil {
			return bad
		}
		_, err := r.checkScreen(m, s.Width)
		return err
	})
	if err == nil {
		err = bad
	}
	return err
}

func callReal(ctx context.Context, b *readline.Buffer, c ApiCall) string {
	n := len(b.Buffer)
	switch c.Do {
	case "insert":
		got := b.InsertString(c.A%(n+1), string(c.Text))
		b.Cursor = c.B % (len(b.Buffer) + 1)
		b.RepaintAfterPrompt()
		return fmt.Sprint(got)
	case "delete":
		lo, hi := between(c.A, c.B, n)
		got := b.Delete(lo, hi-lo)
		b.Cursor = c.A % (len(b.Buffer) + 1)
		b.RepaintAfterPrompt()
		return fmt.Sprint(got)
	case "bad delete":
		return fmt.Sprint(b.Delete(c.A, badCount(c, n)))
	case "replace":
		b.ReplaceAndRepaint(c.A%(b.Cursor+1), string(c.Text))
	case "type in":
		b.InsertAndRepaint(string(c.Text))
	case "read":
		lo, hi := between(c.A, c.B, n)
		word, at := b.CurrentWord()
		var cells []string
		for _, cell := range b.Buffer {
			cells = append(cells, cell.String())
		}
		return fmt.Sprintf("%q%q%q %d %q %d %d %q", b.SubString(0, lo), b.SubString(lo, hi), b.SubString(hi, n),
			b.GetWidthBetween(lo, hi), word, at, b.CurrentWordTop(), cells)
	case "repaint":
		switch c.A % 4 {
		case 0:
			b.RepaintAll()
		case 1:
			b.RepaintLastLine()
		case 2:
			b.RepaintAfterPrompt()
		case 3:
			b.DrawFromHead()
		}
	case "command":
		return fmt.Sprint(readline.NameToFunc[string(c.Text)].Call(ctx, b) == readline.CONTINUE)
	case "self":
		return fmt.Sprint(readline.SelfInserter(c.Text).Call(ctx, b) == readline.CONTINUE)
	}
	return ""
}

// badCount makes sure the range reaches out of the line.
func badCount(c ApiCall, n int) int {
	if c.A >= 0 && c.A <= n && c.B > 0 && c.B <= n-c.A {
		return n - c.A + 1
	}
	return c.B
}

func callModel(m *Model, c ApiCall) string {
	n := len(m.cells)
	switch c.Do {
	case "insert":
		cells := segment(string(c.Text))
		m.replace(c.A%(n+1), 0, cells)
		m.cur = c.B % (len(m.cells) + 1)
		return fmt.Sprint(len(cells))
	case "delete":
		lo, hi := between(c.A, c.B, n)
		w := widthBetween(m.cells, lo, hi)
		m.replace(lo, hi-lo, nil)
		m.cur = c.A % (len(m.cells) + 1)
		return fmt.Sprint(w)
	case "bad delete":
		return "0"
	case "replace":
		pos := c.A % (m.cur + 1)
		cells := segment(string(c.Text))
		m.replace(pos, m.cur-pos, cells)
		m.cur = pos + len(cells)
	case "type in":
		m.insert(string(c.Text))
	case "read":
		lo, hi := between(c.A, c.B, n)
		join := func(a, b int) string { return strings.Join(m.cells[a:b], "") }
		top := m.wordTop(m.cur)
		var cells []string
		cells = append(cells, m.cells...)
		return fmt.Sprintf("%q%q%q %d %q %d %d %q", join(0, lo), join(lo, hi), join(hi, n),
			widthBetween(m.cells, lo, hi), join(top, m.cur), top, top, cells)
	case "command":
		m.command(commandKeys[string(c.Text)])
		return "true"
	case "self":
		m.typed(string(c.Text))
		return "true"
	}
	return ""
}

// widthBetween is the width of some cells of a line.
func widthBetween(cells []string, lo, hi int) int {
	pos, w := 0, 0
	for i, c := range cells[:hi] {
		cw := cellWidth(c, pos)
		if i >= lo {
			w += cw
		}
		pos += cw
	}
	return w
}
