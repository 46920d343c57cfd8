package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"pgregory.net/rapid"
)

// C26Case is a way of composing a colour: the first value, then what is added.
type C26Case struct {
	Parts []ColorPart `json:"parts"`
	Limit int         `json:"limit"` // bytes the writer takes, -1 for all
	Value int64       `json:"value"` // used when there are no parts
}

// ColorPart is codes with the way they are put together.
type ColorPart struct {
	How   string `json:"how"` // sgr, add, chain sgr, chain add, chain nested
	Codes []int  `json:"codes"`
}

var errFull = errors.New("the writer is full")

// shortWriter takes a number of bytes, then fails.
type shortWriter struct {
	bytes.Buffer
	limit int
}

func (w *shortWriter) Write(b []byte) (int, error) {
	if w.limit < 0 {
		return w.Buffer.Write(b)
	}
	if n := w.limit - w.Len(); n < len(b) {
		w.Buffer.Write(b[:n])
		return n, errFull
	}
	return w.Buffer.Write(b)
}

func init() {
	p := property(Prop{
		ID:       "C26",
		Rule:     "a case is a way of composing a colour value of up to six codes and a writer that may fail; non-trivial when it has at least two codes",
		Profiles: []string{"plain"}, Shards: 8, Quick: 20000, Thorough: 400000,
	}, func(t *rapid.T) *C26Case {
		c := &C26Case{Limit: -1}
		left := 6
		n := rapid.IntRange(0, 4).Draw(t, "parts")
		for i := 0; i < n && left > 0; i++ {
			p := ColorPart{How: rapid.SampledFrom([]string{"sgr", "add", "chain sgr", "chain add", "chain nested"}).Draw(t, "how")}
			m := left
			if p.How != "add" && p.How != "chain add" {
				m = min(m, 4)
			}
			if i > 0 && p.How == "sgr" {
				p.How = "add"
			}
			p.Codes = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(0, 255), rapid.SampledFrom([]int{0, 1, 22, 31, 49, 127, 128, 255})), 1, m).Draw(t, "codes")
			left -= len(p.Codes)
			c.Parts = append(c.Parts, p)
		}
		if rapid.IntRange(0, 2).Draw(t, "faulty") == 2 {
			c.Limit = rapid.IntRange(0, 24).Draw(t, "limit")
		}
		c.Value = rapid.Int64Max(0).Draw(t, "value")
		return c
	}, runC26)
	p.Fixed = func() []any {
		cs := []any{}
		for i := range namedColors {
			cs = append(cs, &C26Case{Value: -1 - int64(i), Limit: -2})
		}
		return cs
	}
	register(p)
}

// namedColors are the constants with the codes their names mean.
var namedColors = []struct {
	c readline.ColorSequence
	s string
}{
	{readline.ColorReset, "0"},
	{readline.Black, "30;49;1"}, {readline.Red, "31;49;1"}, {readline.Green, "32;49;1"}, {readline.Yellow, "33;49;1"},
	{readline.Blue, "34;49;1"}, {readline.Magenta, "35;49;1"}, {readline.Cyan, "36;49;1"}, {readline.White, "37;49;1"},
	{readline.DefaultForeGroundColor, "39;49;1"},
	{readline.DarkGray, "30;22;49"}, {readline.DarkRed, "31;22;49"}, {readline.DarkGree, "32;22;49"}, {readline.DarkYellow, "33;22;49"},
	{readline.DarkBlue, "34;22;49"}, {readline.DarkMagenta, "35;22;49"}, {readline.DarkCyan, "36;22;49"}, {readline.DarkWhite, "37;22;49"},
	{readline.DarkDefaultForeGroundColor, "39;22;49"},
}

func sgr(codes []int) readline.ColorSequence {
	switch len(codes) {
	case 1:
		return readline.SGR1(codes[0])
	case 2:
		return readline.SGR2(codes[0], codes[1])
	case 3:
		return readline.SGR3(codes[0], codes[1], codes[2])
	}
	return readline.SGR4(codes[0], codes[1], codes[2], codes[3])
}

func runC26(c *C26Case, rec *Rec) error {
	var color readline.ColorSequence
	var codes []string
	for _, p := range c.Parts {
		var part readline.ColorSequence
		for _, n := range p.Codes {
			codes = append(codes, fmt.Sprint(n))
			part = part.Add(n)
		}
		switch p.How {
		case "sgr":
			color = sgr(p.Codes)
		case "add":
			for _, n := range p.Codes {
				color = color.Add(n)
			}
		case "chain sgr":
			color = color.Chain(sgr(p.Codes))
		case "chain add":
			color = color.Chain(part)
		case "chain nested":
			color = color.Chain(readline.ColorSequence(0).Chain(sgr(p.Codes)))
		}
	}
	if len(codes) > 1 {
		rec.Nontrivial()
	}
	rec.Label("%d codes", len(codes))
	want := ""
	if len(c.Parts) > 0 {
		want = "\x1b[" + strings.Join(codes, ";") + "m"
	} else if c.Limit == -2 {
		n := namedColors[-1-c.Value]
		color, want = n.c, "\x1b["+n.s+"m"
	} else {
		color = readline.ColorSequence(c.Value)
	}
	w := &shortWriter{limit: c.Limit}
	n, err := color.WriteTo(w)
	if n != int64(w.Len()) {
		return errf("writing %q reported %d bytes, %d were written", want, n, w.Len())
	}
	if c.Limit >= 0 && c.Limit < len(want) {
		rec.Label("the writer failed")
		if !errors.Is(err, errFull) {
			return errf("writing %q to a writer that takes %d bytes reported error %v", want, c.Limit, err)
		}
		if !strings.HasPrefix(want, w.String()) {
			return errf("%q was written, should be the beginning of %q", w.String(), want)
		}
		return nil
	}
	if err != nil || w.String() != want {
		return errf("%q was written (error %v), should be %q", w.String(), err, want)
	}
	return nil
}
