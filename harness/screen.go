package main

import (
	"bytes"
	"fmt"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
)

// drawCell puts a cell on a screen the way it has to look.  Characters made of
// several code points are drawn by the library itself: how they come out is the
// business of C10.
func drawCell(e *Emu, cell string, pos int) {
	r, ok := single(cell)
	switch {
	case !ok:
		var b bytes.Buffer
		for _, m := range readline.StringToMoji(cell) {
			m.PrintTo(&b)
		}
		e.Write(b.Bytes())
	case r == '\t':
		for i := 4 - pos%4; i > 0; i-- {
			e.put(' ')
		}
	case r < ' ':
		e.put('^')
		e.put('@' + r)
	case boxLike(r):
		c := e.col
		e.put(' ')
		e.put(' ')
		e.col = c
		e.put(r)
		e.col = c + 2
	case escaped(r):
		for _, c := range fmt.Sprintf("<%X>", r) {
			e.put(c)
		}
	default:
		e.put(r)
	}
}

// promptEnd is the column at which a prompt ends if its last line had all the
// room it needs.
func promptEnd(p *Str) int {
	if p == nil {
		return 2
	}
	e := newEmu(1 << 20)
	e.Write([]byte(*p))
	return e.col
}

// topFor is the column at which the line starts.
func topFor(p *Str, width int) int {
	t := promptEnd(p)
	if t >= width-3 {
		return 0
	}
	return t
}

// view describes what should be on the screen.
type view struct {
	cells  []string
	cur    int
	suffix []string // predicted continuation
	top    int
	width  int // of the terminal
}

// fits says whether every character fits the room there is, so that the
// screen is specified at all.
func (v *view) fits() bool {
	room := v.width - v.top - 3
	pos := 0
	for _, c := range v.cells {
		w := cellWidth(c, pos)
		if c == "\t" {
			w = 4
		}
		if w >= room {
			return false
		}
		pos += w
	}
	return room > 1
}

// check compares a row of the screen with the line.  Any start of the visible
// part will do.  It returns the start found.
func (v *view) check(e *Emu) (int, error) {
	room := v.width - v.top - 3
	pos := make([]int, len(v.cells)+1)
	for i, c := range v.cells {
		pos[i+1] = pos[i] + cellWidth(c, pos[i])
	}
	var row []glyph
	if e.row < len(e.rows) {
		row = e.rows[e.row]
	}
	why := ""
	for vs := v.cur; vs >= 0; vs-- {
		x := pos[v.cur] - pos[vs]
		if x >= room && vs < v.cur {
			break
		}
		if e.col != v.top+x {
			continue
		}
		want := newEmu(1 << 20)
		want.col = v.top
		end := vs
		for end < len(v.cells) && pos[end+1]-pos[vs] < room {
			drawCell(want, v.cells[end], pos[end])
			end++
		}
		if end == len(v.cells) && v.cur == len(v.cells) {
			w := pos[end] - pos[vs]
			at := 0
			for _, c := range v.suffix {
				cw := cellWidth(c, at)
				at += cw
				if w+cw >= room {
					break
				}
				drawCell(want, c, at-cw)
				w += cw
			}
		}
		if why = diffRows(row, want.rows[0], v.top); why == "" {
			return vs, nil
		}
	}
	if why == "" {
		why = fmt.Sprintf("the terminal cursor is in column %d, no character boundary of the visible line", e.col)
	}
	return 0, fmt.Errorf("screen %q (line starts in column %d of %d), line %q, cursor %d: %s",
		glyphText(row), v.top, v.width, strings.Join(v.cells, ""), v.cur, why)
}

// diffRows compares the columns of two rows from a column on.
func diffRows(got, want []glyph, from int) string {
	n := max(len(got), len(want))
	for c := from; c < n; c++ {
		var g, w glyph
		g.text, w.text = " ", " "
		if c < len(got) {
			g = got[c]
		}
		if c < len(want) {
			w = want[c]
		}
		if g.cont != w.cont || (!g.cont && g.text != w.text) {
			return fmt.Sprintf("column %d shows %q, should show %q", c, cellName(g), cellName(w))
		}
	}
	return ""
}

func cellName(g glyph) string {
	if g.cont {
		return "(right half)"
	}
	return g.text
}
