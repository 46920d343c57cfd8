package main

import (
	"bytes"
	"context"
	"strings"
	"unicode"
	"unicode/utf8"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
	"pgregory.net/rapid"
)

// C02Case is a text and a way it enters the line.
type C02Case struct {
	Text Str    `json:"text"`
	Way  string `json:"way"`
}

var c02ways = []string{"default", "typed", "one key", "history", "search", "insert", "replace", "yank", "convert"}

const cmdKey = "\x1b[991~"

func init() {
	register(property(Prop{
		ID:       "C02",
		Rule:     "a case is a string and a way of entering it; non-trivial when the string is not plain ASCII letters",
		Profiles: allProfiles, Shards: 2, Quick: 15000, Thorough: 400000,
	}, func(t *rapid.T) *C02Case {
		return &C02Case{
			Text: asStr(rawText).Draw(t, "text"),
			Way:  rapid.SampledFrom(c02ways).Draw(t, "way"),
		}
	}, runC02))
}

func runC02(c *C02Case, rec *Rec) error {
	text := string(c.Text)
	want := sanitize(text)
	if strings.IndexFunc(text, func(r rune) bool { return r > unicode.MaxASCII || !unicode.IsLetter(r) }) >= 0 {
		rec.Nontrivial()
	}
	rec.Label("way: %s", c.Way)
	cells := segment(text)
	if len(cells) != utf8.RuneCountInString(text) {
		rec.Label("has joined characters")
	}
	s := &Setup{Width: 80}
	switch c.Way {
	case "default":
		s.Default = c.Text
	case "typed":
		for _, r := range text {
			if k := string(r); r < ' ' || bound[k] {
				s.Keys = append(s.Keys, kQuote)
			}
			s.Keys = append(s.Keys, Str(r))
		}
	case "one key":
		if len(text) == 2 && text[0] == 0x1B {
			return nil // Alt-GR prefix, dropped on purpose
		}
		s.Keys = []Str{kQuote, c.Text}
	case "history":
		s.History = []Str{c.Text, "other"}
		s.Keys = []Str{kPrev, kPrev}
	case "search":
		s.History = []Str{"other", c.Text}
		s.Keys = []Str{kSearch, kBS, kEnter}
	case "insert", "replace":
		s.Keys = []Str{cmdKey}
		s.Default = "xyz"
		s.Cursor = 1
	case "yank":
		s.Clip = c.Text
		s.Keys = []Str{kYank}
		want = strings.TrimRight(text, "\r\n\x00")
		cells = segment(want)
		want = sanitize(want)
	case "convert":
		return checkConvert(text, want, cells)
	}
	r := newRun(s)
	r.ed.BindKey(keys.Code(cmdKey), readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		if c.Way == "insert" {
			b.InsertAndRepaint(text)
			return readline.CONTINUE
		}
		b.ReplaceAndRepaint(0, text)
		return readline.CONTINUE
	}))
	switch c.Way {
	case "insert":
		want = "x" + want + "yz"
		cells = append(append([]string{"x"}, cells...), "y", "z")
	case "replace":
		want += "yz"
		cells = append(cells, "y", "z")
	}
	var got []string
	if err := r.do(func(n int) error {
		if n == len(s.Keys) {
			for _, c := range r.b.Buffer {
				got = append(got, c.String())
			}
			if s := r.b.String(); s != want {
				return errf("the line is %q, should be %q", s, want)
			}
		}
		return nil
	}); err != nil {
		return err
	}
	if r.text != want || r.err != nil {
		return errf("entering %q by %s returned %q, %v; should return %q", text, c.Way, r.text, r.err, want)
	}
	if c.Way != "insert" && c.Way != "replace" && !equalStrings(got, cells) {
		return errf("entering %q by %s made the characters %q, should make %q", text, c.Way, got, cells)
	}
	return nil
}

// checkConvert looks at the division into characters alone.
func checkConvert(text, want string, cells []string) error {
	var all bytes.Buffer
	var got []string
	for _, m := range readline.StringToMoji(text) {
		var b bytes.Buffer
		n, err := m.WriteTo(&b)
		if err != nil || n != int64(b.Len()) {
			return errf("writing character %q of %q reported %d bytes, %v", b.String(), text, n, err)
		}
		got = append(got, b.String())
		all.Write(b.Bytes())
	}
	if all.String() != want {
		return errf("the characters of %q are written as %q, should be %q", text, all.String(), want)
	}
	if !equalStrings(got, cells) {
		return errf("%q is divided into %q, should be %q", text, got, cells)
	}
	return nil
}

func equalStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
