package main

import (
	"errors"
	"io"
	"slices"
	"strings"
	"unicode/utf16"

	readline "github.com/nyaosorg/go-readline-ny"
	"pgregory.net/rapid"
)

// C16Case is a stream of code points in pieces, and which calls fail.
type C16Case struct {
	Chunks [][]rune `json:"chunks"` // surrogates allowed, in pairs
	Call   string   `json:"call"`   // GetKey, GetRawKey, GetKeys
	Fail   int      `json:"fail"`   // the ReadRune call that fails, -1 for none
	RawAt  int      `json:"rawAt"`  // the Raw call that fails, -1 for none
}

var errFault = errors.New("injected fault")

// xtty is a terminal device as the key reader sees it.
type xtty struct {
	c      *C16Case
	chunk  int
	pos    int
	reads  int
	raws   int
	cleans int
	raw    bool
	err    error
}

func (x *xtty) Raw() (func() error, error) {
	if x.raw {
		x.err = errf("raw mode was entered twice")
	}
	x.raws++
	if x.raws-1 == x.c.RawAt {
		return nil, errFault
	}
	x.raw = true
	return func() error {
		x.raw = false
		x.cleans++
		return nil
	}, nil
}

func (x *xtty) ReadRune() (rune, error) {
	if x.c.Call != "GetRawKey" && !x.raw {
		x.err = errf("a code point was read outside raw mode")
	}
	x.reads++
	if x.reads-1 == x.c.Fail {
		return 0, errFault
	}
	for x.chunk < len(x.c.Chunks) && x.pos >= len(x.c.Chunks[x.chunk]) {
		x.chunk++
		x.pos = 0
	}
	if x.chunk >= len(x.c.Chunks) {
		return 0, io.EOF
	}
	r := x.c.Chunks[x.chunk][x.pos]
	x.pos++
	return r, nil
}

func (x *xtty) Buffered() bool {
	return x.chunk < len(x.c.Chunks) && x.pos < len(x.c.Chunks[x.chunk])
}

var genChunk = rapid.Custom(func(t *rapid.T) []rune {
	var rs []rune
	put := func(r rune) {
		if r >= 0x10000 && rapid.Bool().Draw(t, "pair") {
			hi, lo := utf16.EncodeRune(r)
			rs = append(rs, hi)
			if rapid.IntRange(0, 7).Draw(t, "nul") == 0 {
				rs = append(rs, 0)
			}
			rs = append(rs, lo)
			return
		}
		rs = append(rs, r)
	}
	if rapid.IntRange(0, 2).Draw(t, "esc") == 0 {
		for _, r := range rapid.SampledFrom([]string{"\x1b", "\x1b[A", "\x1b[1;5C", "\x1bb", "\x1bOP", "\x1b\x1b[B", "\x1b😀", "\x1b\x00b", "\x1b[\x00\x00A"}).Draw(t, "seq") {
			put(r)
		}
		return rs
	}
	n := rapid.IntRange(1, 5).Draw(t, "n")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 9).Draw(t, "kind") {
		case 8:
			put(0)
		case 9:
			put(randomRune.Draw(t, "rune"))
		default:
			put(anyChar.Draw(t, "char"))
		}
	}
	// What a NUL that ends what comes after an escape character does is left open.
	if indexRune(rs, 0x1B) >= 0 && rs[len(rs)-1] == 0 {
		rs[len(rs)-1] = 'n'
	}
	return rs
})

func init() {
	register(property(Prop{
		ID:       "C16",
		Rule:     "a case is a stream of code points in pieces and possibly a failing call; non-trivial when the stream has an escape sequence, a NUL or a surrogate pair, or a call fails",
		Profiles: []string{"plain"}, Shards: 8, Quick: 20000, Thorough: 400000,
	}, func(t *rapid.T) *C16Case {
		c := &C16Case{
			Chunks: seq(genChunk, 0, 8).Draw(t, "chunks"),
			Call:   rapid.SampledFrom([]string{"GetRawKey", "GetKey", "GetKeys"}).Draw(t, "call"),
			Fail:   -1, RawAt: -1,
		}
		// The halves of a pair may come one after the other.
		for i := len(c.Chunks) - 1; i >= 0; i-- {
			ch := c.Chunks[i]
			k := slices.IndexFunc(ch, utf16.IsSurrogate)
			if k < 0 || indexRune(ch, 0x1B) >= 0 || rapid.IntRange(0, 2).Draw(t, "apart") > 0 {
				continue
			}
			c.Chunks = slices.Insert(c.Chunks, i+1, ch[k+1:])
			c.Chunks[i] = ch[: k+1 : k+1]
		}
		switch rapid.IntRange(0, 5).Draw(t, "fault") {
		case 4:
			c.Fail = rapid.IntRange(0, 12).Draw(t, "fail")
		case 5:
			c.RawAt = rapid.IntRange(0, 4).Draw(t, "raw")
		}
		return c
	}, runC16))
}

func indexRune(rs []rune, r rune) int {
	for i, x := range rs {
		if x == r {
			return i
		}
	}
	return -1
}

// expectKeys are the keys of a stream: from an escape character on, what is
// already there belongs to one key.
func expectKeys(chunks [][]rune) []string {
	type piece struct {
		r    rune
		more bool // further input is there already
	}
	var in []piece
	var hi rune
	for _, c := range chunks {
		for i, r := range c {
			more := i+1 < len(c)
			switch {
			case r == 0:
				continue
			case hi != 0:
				in = append(in, piece{utf16.DecodeRune(hi, r), more})
				hi = 0
			case utf16.IsSurrogate(r):
				hi = r
			default:
				in = append(in, piece{r, more})
			}
		}
	}
	var keys []string
	for i := 0; i < len(in); i++ {
		if in[i].r != 0x1B {
			keys = append(keys, string(in[i].r))
			continue
		}
		var b strings.Builder
		for b.WriteRune(in[i].r); in[i].more && i+1 < len(in); {
			i++
			b.WriteRune(in[i].r)
		}
		keys = append(keys, b.String())
	}
	return keys
}

// open says whether the stream is one of those whose keys are left open; only
// making a case smaller leads to one.
func (c *C16Case) open() bool {
	var hi rune
	for _, ch := range c.Chunks {
		esc := false
		for i, r := range ch {
			esc = esc || r == 0x1B
			switch {
			case r == 0 && esc && i == len(ch)-1:
				return true
			case r == 0:
			case hi != 0:
				if utf16.DecodeRune(hi, r) == 0xFFFD {
					return true
				}
				hi = 0
			case utf16.IsSurrogate(r):
				hi = r
			}
		}
	}
	return hi != 0
}

func runC16(c *C16Case, rec *Rec) error {
	for _, ch := range c.Chunks {
		for _, r := range ch {
			if r == 0 || r == 0x1B || utf16.IsSurrogate(r) {
				rec.Nontrivial()
			}
		}
	}
	if c.Fail >= 0 || c.RawAt >= 0 {
		rec.Nontrivial()
	}
	if c.open() {
		rec.Label("left open")
		return nil
	}
	rec.Label(c.Call)
	x := &xtty{c: c}
	var got []string
	calls := 0
	for {
		calls++
		if calls > 20000 {
			return errf("the stream never ends")
		}
		var ks []string
		var err error
		switch c.Call {
		case "GetRawKey", "GetKey":
			var k string
			if c.Call == "GetKey" {
				k, err = readline.GetKey(x)
			} else {
				k, err = readline.GetRawKey(x)
			}
			if err == nil {
				ks = []string{k}
				if k == "" {
					return errf("an empty key was delivered")
				}
			} else if k != "" {
				return errf("key %q was delivered together with error %v", k, err)
			}
		case "GetKeys":
			ks, err = readline.GetKeys(x)
		}
		if x.err != nil {
			return x.err
		}
		if x.raw {
			return errf("raw mode was not left after a read (error %v)", err)
		}
		if c.Call == "GetRawKey" && x.raws > 0 {
			return errf("reading a raw key changed the mode")
		}
		if c.Call != "GetRawKey" && x.raws != calls {
			return errf("raw mode was entered %d times in %d reads", x.raws, calls)
		}
		if err != nil {
			failed := x.reads-1 == c.Fail || (x.raws-1 == c.RawAt && c.Call != "GetRawKey")
			switch {
			case failed && !errors.Is(err, errFault):
				return errf("the error is %v, should be the failure injected", err)
			case !failed && !errors.Is(err, io.EOF):
				return errf("unexpected error %v", err)
			}
			if failed {
				rec.Label("failed")
			}
			want := expectKeys(c.Chunks)
			if len(got) > len(want) || !equalStrings(got, want[:len(got)]) {
				return errf("the keys delivered are %q, should be %q", got, want)
			}
			if !failed && len(got) != len(want) && !(c.Call == "GetKeys" && endsWithNUL(c.Chunks)) {
				return errf("the keys delivered are %q, should be %q", got, want)
			}
			return nil
		}
		got = append(got, ks...)
		if c.Call == "GetKeys" && len(ks) == 0 {
			return errf("no key was delivered")
		}
	}
}

// endsWithNUL says whether the last piece of input ends with something that is
// no key, so that reading several keys meets the end of the stream.
func endsWithNUL(chunks [][]rune) bool {
	for i := len(chunks) - 1; i >= 0; i-- {
		if n := len(chunks[i]); n > 0 {
			return chunks[i][n-1] == 0
		}
	}
	return false
}
