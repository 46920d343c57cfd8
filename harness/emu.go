package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"
)

// glyph is one column of the emulated screen.  A wide character has its text
// in its first column and cont set in the following ones.
type glyph struct {
	text string
	attr string // the last SGR sequence in force when it was drawn
	cont bool

	italic bool
}

// Emu is a small ANSI terminal: as many rows as needed, w columns, automatic
// wrap.  It understands what the library may send and records anything else.
type Emu struct {
	w        int
	rows     [][]glyph
	row, col int
	srow     int
	scol     int
	attr     string
	italic   bool // as left by all sequences so far
	visible  bool
	bells    int
	maxCol   int    // the rightmost column drawn on since ClearMarks
	wrapped  bool   // a character did not fit in its row since ClearMarks
	lineFeed int    // line feeds since ClearMarks
	odd      string // first control or sequence that should never be sent
	tabs     bool   // tabs may be sent
	afterZWJ bool
	rest     []byte // incomplete input
	osc      bool   // within a title or the like not yet ended
	lastOsc  byte   // the last byte of that
}

func newEmu(w int) *Emu {
	return &Emu{w: w, rows: [][]glyph{nil}, visible: true, maxCol: -1}
}

func (e *Emu) ClearMarks() { e.maxCol, e.wrapped, e.lineFeed = -1, false, 0 }

func (e *Emu) strange(format string, a ...any) {
	if e.odd == "" {
		e.odd = fmt.Sprintf(format, a...)
	}
}

func (e *Emu) line() *[]glyph {
	for len(e.rows) <= e.row {
		e.rows = append(e.rows, nil)
	}
	return &e.rows[e.row]
}

func (e *Emu) at(col int) *glyph {
	l := e.line()
	for len(*l) <= col {
		*l = append(*l, glyph{text: " "})
	}
	return &(*l)[col]
}

// clear blanks one column, and the other half of a wide character.
func (e *Emu) clear(col int) {
	g := e.at(col)
	if g.cont {
		for c := col; c >= 0; c-- {
			p := e.at(c)
			was := p.cont
			*p = glyph{text: " "}
			if !was {
				break
			}
		}
		l := *e.line()
		for c := col + 1; c < len(l) && l[c].cont; c++ {
			l[c] = glyph{text: " "}
		}
		return
	}
	l := *e.line()
	for c := col + 1; c < len(l) && l[c].cont; c++ {
		l[c] = glyph{text: " "}
	}
	*g = glyph{text: " "}
}

func (e *Emu) put(r rune) {
	w := runeColumns(r)
	switch {
	case r == zwj && prof.ZWJ:
		w = 1 // what the terminals the library supports do
	case isVSLike(r):
		w = 0 // modifies the character before it
	case 0x1F1E6 <= r && r <= 0x1F1FF && !e.afterZWJ:
		w = 2
	}
	e.afterZWJ = r == zwj && prof.ZWJ
	if w == 0 { // attaches to what is on its left
		if e.col > 0 {
			c := e.col - 1
			for c > 0 && e.at(c).cont {
				c--
			}
			e.at(c).text += string(r)
		}
		return
	}
	if e.col+w > e.w {
		e.wrapped = true
		e.row++
		e.col = 0
	}
	for i := 0; i < w; i++ {
		e.clear(e.col + i)
	}
	for i := 0; i < w; i++ {
		g := e.at(e.col + i)
		if i == 0 {
			*g = glyph{text: string(r), attr: e.attr, italic: e.italic}
		} else {
			*g = glyph{cont: true, attr: e.attr, italic: e.italic}
		}
	}
	e.col += w
	if e.col-1 > e.maxCol {
		e.maxCol = e.col - 1
	}
}

// Write feeds output to the terminal.
func (e *Emu) Write(p []byte) (int, error) {
	n := len(p)
	for e.osc {
		if len(p) == 0 {
			return n, nil
		}
		e.osc = !(p[0] == 7 || (p[0] == '\\' && e.lastOsc == 0x1B))
		e.lastOsc = p[0]
		p = p[1:]
	}
	if len(e.rest) > 0 {
		p = append(append([]byte{}, e.rest...), p...)
		e.rest = nil
	}
	for len(p) > 0 {
		c := p[0]
		switch {
		case c == 0x1B:
			k := e.escape(p)
			if k == 0 {
				e.rest = append([]byte{}, p...)
				return n, nil
			}
			p = p[k:]
		case c == '\r':
			e.col = 0
			p = p[1:]
		case c == '\n':
			e.row++
			e.col = 0
			e.lineFeed++
			p = p[1:]
		case c == '\b':
			if e.col > 0 {
				e.col--
			}
			p = p[1:]
		case c == 7:
			e.bells++
			p = p[1:]
		case c == '\t':
			if !e.tabs {
				e.strange("raw tab")
			}
			e.col = max(0, min((e.col|7)+1, e.w-1))
			p = p[1:]
		case c < ' ' || c == 0x7F:
			e.strange("raw control character 0x%02X", c)
			p = p[1:]
		default:
			if !utf8.FullRune(p) {
				e.rest = append([]byte{}, p...)
				return n, nil
			}
			r, size := utf8.DecodeRune(p)
			if r == utf8.RuneError && size == 1 {
				e.strange("invalid UTF-8 byte 0x%02X", c)
			} else if 0x80 <= r && r < 0xA0 {
				e.strange("raw control character U+%04X", r)
			} else {
				e.put(r)
			}
			p = p[size:]
		}
	}
	return n, nil
}

// escape interprets the sequence at the start of p and returns its length,
// zero if it is incomplete.
func (e *Emu) escape(p []byte) int {
	if len(p) < 2 {
		return 0
	}
	switch p[1] {
	case '7':
		e.srow, e.scol = e.row, e.col
		return 2
	case '8':
		e.row, e.col = e.srow, e.scol
		return 2
	case '(':
		if len(p) < 3 {
			return 0
		}
		return 3 // chooses a character set
	case ']':
		for i := 2; i < len(p); i++ {
			if p[i] == 7 || (p[i] == '\\' && p[i-1] == 0x1B) {
				return i + 1
			}
		}
		e.osc, e.lastOsc = true, p[len(p)-1]
		return len(p)
	case '[':
		i := 2
		for i < len(p) && (p[i] < 0x40 || p[i] > 0x7E) {
			if p[i] < 0x20 || p[i] > 0x3F {
				e.strange("malformed escape sequence %q", p[:i+1])
				return i + 1
			}
			i++
		}
		if i >= len(p) {
			return 0
		}
		e.csi(string(p[2:i]), p[i])
		return i + 1
	}
	e.strange("escape sequence %q", p[:2])
	return 2
}

func (e *Emu) csi(arg string, final byte) {
	num := func(def int) int {
		if arg == "" {
			return def
		}
		v, err := strconv.Atoi(arg)
		if err != nil {
			e.strange("escape sequence ESC[%s%c", arg, final)
			return def
		}
		return v
	}
	switch final {
	case 'm':
		e.attr = arg
		codes := strings.Split(arg, ";")
		for i := 0; i < len(codes); i++ {
			switch codes[i] {
			case "3":
				e.italic = true
			case "23", "0", "":
				e.italic = false
			case "38", "48":
				// a colour given by the numbers after it
				if i+1 < len(codes) && codes[i+1] == "2" {
					i += 4
				} else {
					i += 2
				}
			}
		}
	case 'G':
		e.col = num(1) - 1
		if e.col < 0 {
			e.col = 0
		}
		if e.col >= e.w {
			e.col = e.w - 1
			if e.col < 0 {
				e.col = 0
			}
		}
	case 'K':
		switch num(0) {
		case 0:
			for c := e.col; c < len(*e.line()); c++ {
				e.clear(c)
			}
		case 2:
			*e.line() = nil
		default:
			e.strange("escape sequence ESC[%s%c", arg, final)
		}
	case 'H':
		e.row, e.col = 0, 0
	case 'J':
		if arg == "2" {
			e.rows = [][]glyph{nil}
		} else {
			e.strange("escape sequence ESC[%s%c", arg, final)
		}
	case 's':
		e.srow, e.scol = e.row, e.col
	case 'u':
		e.row, e.col = e.srow, e.scol
	case 'h':
		if arg == "?25" {
			e.visible = true
		}
	case 'l':
		if arg == "?25" {
			e.visible = false
		}
	case 'C', 'D', 'A', 'B':
		switch final {
		case 'C':
			e.col += num(1)
		case 'D':
			e.col -= num(1)
			if e.col < 0 {
				e.col = 0
			}
		case 'A':
			e.row -= num(1)
			if e.row < 0 {
				e.row = 0
			}
		case 'B':
			e.row += num(1)
		}
	default:
		e.strange("escape sequence ESC[%s%c", arg, final)
	}
}

// Row returns the text of a row, without blanks at its end.
func (e *Emu) Row(i int) string {
	if i < 0 || i >= len(e.rows) {
		return ""
	}
	return glyphText(e.rows[i])
}

func glyphText(gs []glyph) string {
	var b strings.Builder
	for _, g := range gs {
		if !g.cont {
			b.WriteString(g.text)
		}
	}
	return strings.TrimRight(b.String(), " ")
}

func (e *Emu) Resize(w int) {
	e.w = w
	for i, r := range e.rows {
		if len(r) > w {
			e.rows[i] = r[:w]
		}
	}
	if e.col >= w {
		e.col = w - 1
	}
	if e.col < 0 {
		e.col = 0
	}
}
