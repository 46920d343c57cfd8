package main

import (
	"context"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
	"pgregory.net/rapid"
)

// C07Case is a session with settings of any kind.
type C07Case struct {
	Setup
	Repeat    int   `json:"repeat,omitempty"`    // the initial text is repeated
	Predictor *Str  `json:"predictor,omitempty"` // what a custom predictor says
	Colors    []int `json:"colors,omitempty"`    // what a custom colouriser says in turn
	Resize    []int `json:"resize,omitempty"`    // new widths, one after each key from the first on
	Commands  []int `json:"commands,omitempty"`  // arguments of a custom command, see hostile
}

// turnColoring returns its colours in turn.
type turnColoring struct {
	colors []int
	i      int
}

func (c *turnColoring) Init() readline.ColorSequence { return readline.ColorReset }
func (c *turnColoring) Next(rune) readline.ColorSequence {
	c.i++
	return readline.ColorSequence(c.colors[c.i%len(c.colors)])
}

var hostileKey = rapid.Custom(func(t *rapid.T) string {
	switch rapid.IntRange(0, 5).Draw(t, "kind") {
	case 0:
		return string(rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "bytes"))
	case 1:
		return "\x1b" + string(rapid.SliceOfN(rapid.SampledFrom([]byte("[O0123;~ABCDFHZabfy")), 0, 8).Draw(t, "esc"))
	case 2:
		return strings.Repeat(rawText.Draw(t, "piece"), rapid.IntRange(1, 60).Draw(t, "times"))
	case 3:
		return ""
	case 4:
		return string(randomRune.Draw(t, "rune"))
	}
	return rawText.Draw(t, "text")
})

var c07keys = keyGen(gType.times(8), gMotion, gWord, gDelete, gKill, gSwap, gQuote, gPaste.times(3), gYank, gUndo, gHistory, gSearch,
	gClear, gUnbound, group{5, nil, hostileKey}, group{2, []string{cmdKey}, nil})

var hostilePrompt = rapid.Custom(func(t *rapid.T) *Str {
	if rapid.IntRange(0, 3).Draw(t, "which") == 0 {
		return nil
	}
	s := Str(rapid.OneOf(rawText,
		rapid.SampledFrom([]string{"", "$ ", "a\nb\n", "\x1b", "\x1b[", "\x1b]", "\x1b]0;t\a> ", "\b\b\b", "\r\r", "\x1b[31m", strings.Repeat("p", 78), strings.Repeat("あ", 100)})).Draw(t, "prompt"))
	return &s
})

func init() {
	register(property(Prop{
		ID:       "C07",
		Rule:     "a case is a session with any settings and keys; non-trivial when the line held a character while the room for it was below ten columns or the line did not fit",
		Profiles: allProfiles, Shards: 2, Quick: 9000, Thorough: 200000,
	}, func(t *rapid.T) *C07Case {
		c := &C07Case{Setup: Setup{
			Width: rapid.OneOf(rapid.IntRange(0, 24), rapid.IntRange(0, 200), rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7, 80})).Draw(t, "width"),

			Prompt:  hostilePrompt.Draw(t, "prompt"),
			Default: asStr(rawText).Draw(t, "default"),
			Cursor:  rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(-3, 3), rapid.SampledFrom([]int{1 << 40, -1 << 40})).Draw(t, "cursor"),
			History: genHistory(t, rawText, 4),
			Cycling: rapid.Bool().Draw(t, "cycling"),
			Predict: rapid.Bool().Draw(t, "predict"),
			Clip:    asStr(rawText).Draw(t, "clip"),
			NoClip:  rapid.IntRange(0, 9).Draw(t, "noclip") == 9,
			Keys:    seq(c07keys, 0, 30).Draw(t, "keys"),
		}}
		if rapid.IntRange(0, 5).Draw(t, "long") == 5 {
			c.Repeat = rapid.IntRange(1, 100).Draw(t, "repeat")
		}
		if rapid.IntRange(0, 3).Draw(t, "custom predictor") == 3 {
			s := Str(rawText.Draw(t, "predictor"))
			c.Predictor = &s
		}
		if rapid.IntRange(0, 3).Draw(t, "custom colours") == 3 {
			c.Colors = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(-2, 5), rapid.SampledFrom([]int{-1 << 63, 1<<63 - 1, 1 << 8})), 1, 3).Draw(t, "colors")
		}
		if rapid.IntRange(0, 3).Draw(t, "resizes") == 3 {
			c.Resize = rapid.SliceOfN(rapid.IntRange(0, 60), 0, 20).Draw(t, "resize")
		}
		c.Commands = rapid.SliceOfN(rapid.IntRange(0, 20), 1, 6).Draw(t, "commands")
		return c
	}, runC07))
}

func runC07(c *C07Case, rec *Rec) error {
	s := c.Setup
	if c.Repeat > 0 {
		s.Default = Str(strings.Repeat(string(s.Default), c.Repeat))
	}
	r := newRun(&s)
	if c.Predictor != nil {
		r.ed.Predictor = func(*readline.Buffer) string { return string(*c.Predictor) }
	}
	if len(c.Colors) > 0 {
		r.ed.Coloring = &turnColoring{colors: c.Colors}
	}
	next := 0
	r.ed.BindKey(keys.Code(cmdKey), readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		x := c.Commands[next%len(c.Commands)]
		next++
		n := len(b.Buffer)
		at := x % (n + 1)
		switch x % 7 {
		case 0:
			b.InsertAndRepaint("あ\tx")
		case 1:
			b.ReplaceAndRepaint(x%(b.Cursor+1), "y\x01")
		case 2:
			b.Delete(at, x/2)
			b.Cursor = min(b.Cursor, len(b.Buffer))
			b.RepaintAfterPrompt()
		case 3:
			b.Cursor = at
			b.RepaintAfterPrompt()
		case 4:
			b.RepaintLastLine()
		case 5:
			b.RepaintAll()
		case 6:
			b.CurrentWord()
			b.SubString(0, at)
			b.GetWidthBetween(at, n)
			b.ResetViewStart()
			b.DrawFromHead()
		}
		return readline.CONTINUE
	}))
	width := s.Width
	return r.do(func(n int) error {
		if i := n - 1; 0 <= i && i < len(c.Resize) {
			width = c.Resize[i]
			r.emu.Resize(width)
			r.tty.width = width
			r.tty.onSize(width)
			rec.Label("resized")
		}
		b := r.b
		switch {
		case b.Cursor < 0 || b.Cursor > len(b.Buffer):
			return errf("after %d keys %s: the cursor is at %d in a line of %d characters", n, keyList(&s, n), b.Cursor, len(b.Buffer))
		case b.ViewStart < 0 || b.ViewStart > len(b.Buffer):
			return errf("after %d keys %s: the visible part starts at %d in a line of %d characters", n, keyList(&s, n), b.ViewStart, len(b.Buffer))
		case b.ViewStart > b.Cursor:
			return errf("after %d keys %s: the visible part starts at %d, right of the cursor at %d", n, keyList(&s, n), b.ViewStart, b.Cursor)
		}
		if len(b.Buffer) > 0 {
			if v := int(b.ViewWidth()); v < 10 || int(b.GetWidthBetween(0, len(b.Buffer))) > v {
				rec.Nontrivial()
			}
		}
		if width < 5 {
			rec.Label("below five columns")
		}
		return nil
	})
}
