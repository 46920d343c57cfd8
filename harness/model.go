package main

import (
	"slices"
	"strings"
	"unicode"
	"unicode/utf8"
)

// The default keys.
const (
	kHome      = "\x01"
	kLeft      = "\x02"
	kIntr      = "\x03"
	kDelEOF    = "\x04"
	kEnd       = "\x05"
	kRight     = "\x06"
	kBS        = "\x08"
	kDEL       = "\x7f"
	kDelete    = "\x1b[3~"
	kKill      = "\x0b"
	kClear     = "\x0c"
	kEnter     = "\r"
	kNext      = "\x0e"
	kPrev      = "\x10"
	kQuote     = "\x11"
	kSearch    = "\x12"
	kFwdSearch = "\x13"
	kSwap      = "\x14"
	kKillHead  = "\x15"
	kQuote2    = "\x16"
	kRubout    = "\x17"
	kYank      = "\x19"
	kUndo      = "\x1a"
	kUndo2     = "\x1f"
	kEsc       = "\x1b"
	kWordLeft  = "\x1bb"
	kWordRight = "\x1bf"
	kYank2     = "\x1bv"
	kYankQuote = "\x1by"
	kArrLeft   = "\x1b[D"
	kArrRight  = "\x1b[C"
	kArrUp     = "\x1b[A"
	kArrDown   = "\x1b[B"
	kArrHome   = "\x1b[H"
	kArrEnd    = "\x1b[F"
	kCtrlLeft  = "\x1b[1;5D"
	kCtrlRight = "\x1b[1;5C"
)

type mode int

const (
	mNormal mode = iota
	mQuoted
	mSearch
)

type outcome int

const (
	oNone outcome = iota
	oEnter
	oIntr
	oAbort
)

// change is what happened to the line at a position: the cells that went, and
// the number of those that came in their place.
type change struct {
	pos     int
	removed []string
	added   int
}

// Model is the reference line editor: a list of characters and a cursor.
type Model struct {
	cells    []string
	cur      int
	mode     mode
	outcome  outcome
	hist     []string
	hp       int
	edited   map[int]string
	cycling  bool
	clip     string
	clipFail bool
	predict  func(text string) string // nil when disabled
	quotes   string

	past []change // the changes not yet undone
	free bool     // the cursor after the last key is not specified (undo)

	custom   map[string]func()   // further commands
	dispatch func(k string) bool // takes keys in place of the default bindings

	pattern, found string
	foundAt        int
}

func newModel(text string, cur int, hist []string) *Model {
	m := &Model{hist: hist, hp: len(hist), quotes: `"'`}
	m.replace(0, 0, segment(text))
	m.cur = min(cur, len(m.cells))
	return m
}

func (m *Model) text() string { return strings.Join(m.cells, "") }

// replace exchanges n cells at pos for others; it is one undoable change.
func (m *Model) replace(pos, n int, with []string) {
	if n == 0 && len(with) == 0 {
		return
	}
	m.past = append(m.past, change{pos, slices.Clone(m.cells[pos : pos+n]), len(with)})
	m.exchange(pos, n, with)
}

func (m *Model) exchange(pos, n int, with []string) {
	var c []string
	c = append(c, m.cells[:pos]...)
	c = append(c, with...)
	m.cells = append(c, m.cells[pos+n:]...)
}

func (m *Model) insert(s string) {
	cells := segment(s)
	m.replace(m.cur, 0, cells)
	m.cur += len(cells)
}

// typed is a key that inserts itself.
func (m *Model) typed(k string) {
	if len(k) == 2 && k[0] == 0x1B {
		k = k[1:]
	}
	// A key joins the character before the cursor, or that before a joiner
	// still waiting for its other half, if the two make one character.
	joins := func(n int) bool {
		return n <= m.cur && len(segment(strings.Join(m.cells[m.cur-n:m.cur], "")+k)) < n+len(segment(k))
	}
	n := 0
	if m.cur > 0 && isZWJ(zwj) && m.cells[m.cur-1] == string(zwj) && joins(2) {
		n = 2
	} else if joins(1) {
		n = 1
	}
	cells := segment(strings.Join(m.cells[m.cur-n:m.cur], "") + k)
	m.replace(m.cur-n, n, cells)
	m.cur += len(cells) - n
}

func (m *Model) wordTop(cur int) int {
	top := -1
	var quote rune
	for i, c := range m.cells[:cur] {
		r, ok := single(c)
		if ok {
			if quote == 0 {
				if strings.ContainsRune(m.quotes, r) {
					quote = r
				}
			} else if r == quote {
				quote = 0
			}
		}
		if ok && unicode.IsSpace(r) && quote == 0 {
			top = -1
		} else if top < 0 {
			top = i
		}
	}
	if top < 0 {
		return cur
	}
	return top
}

func (m *Model) setClip(cells []string) {
	if !m.clipFail {
		m.clip = strings.Join(cells, "")
	}
}

func (m *Model) saveEdited() {
	t := m.text()
	if m.hp < len(m.hist) && sanitize(m.hist[m.hp]) == t {
		delete(m.edited, m.hp)
		return
	}
	if m.edited == nil {
		m.edited = map[int]string{}
	}
	m.edited[m.hp] = t
}

func (m *Model) recall() {
	s, ok := m.edited[m.hp]
	if !ok && m.hp < len(m.hist) {
		s = m.hist[m.hp]
	}
	m.replace(0, len(m.cells), segment(s))
	m.cur = len(m.cells)
}

func (m *Model) suffix() string {
	if m.predict == nil || len(m.cells) == 0 {
		return ""
	}
	return m.predict(m.text())
}

// predictFrom is the default prediction.
func predictFrom(hist []string) func(string) string {
	return func(text string) string {
		for i := len(hist) - 1; i >= 0; i-- {
			if strings.HasPrefix(hist[i], text) {
				return hist[i][len(text):]
			}
		}
		return ""
	}
}

// Key applies a key.
func (m *Model) Key(k string) {
	m.free = false
	switch m.mode {
	case mQuoted:
		m.mode = mNormal
		m.typed(k)
		return
	case mSearch:
		m.searchKey(k)
		return
	}
	if m.dispatch != nil && m.dispatch(k) {
		return
	}
	m.command(k)
}

// command carries out what a key does by default.
func (m *Model) command(k string) {
	switch k {
	case kHome, kArrHome:
		m.cur = 0
	case kLeft, kArrLeft:
		if m.cur > 0 {
			m.cur--
		}
	case kEnd, kArrEnd:
		m.cur = len(m.cells)
	case kRight, kArrRight:
		if m.cur < len(m.cells) {
			m.cur++
		} else if s := m.suffix(); s != "" {
			m.insert(s)
		}
	case kIntr:
		m.cells, m.cur, m.past = nil, 0, nil
		m.outcome = oIntr
	case kDelEOF, kDelete:
		if m.cur < len(m.cells) {
			m.replace(m.cur, 1, nil)
		} else if k == kDelEOF && len(m.cells) == 0 {
			m.outcome = oAbort
		}
	case kBS, kDEL:
		if m.cur > 0 {
			m.cur--
			m.replace(m.cur, 1, nil)
		}
	case kKill:
		m.setClip(m.cells[m.cur:])
		m.replace(m.cur, len(m.cells)-m.cur, nil)
	case kKillHead:
		m.setClip(m.cells[:m.cur])
		n := m.cur
		m.cur = 0
		m.replace(0, n, nil)
	case kRubout:
		i := m.cur
		for i > 0 && isSpaceCell(m.cells[i-1]) {
			i--
		}
		i = m.wordTop(i)
		m.setClip(m.cells[i:m.cur])
		n := m.cur - i
		m.cur = i
		m.replace(i, n, nil)
	case kEsc:
		m.replace(0, len(m.cells), nil)
		m.cur = 0
	case kSwap:
		switch {
		case m.cur == len(m.cells) && m.cur >= 2:
			m.replace(m.cur-2, 2, []string{m.cells[m.cur-1], m.cells[m.cur-2]})
		case m.cur < len(m.cells) && m.cur >= 1:
			m.replace(m.cur-1, 2, []string{m.cells[m.cur], m.cells[m.cur-1]})
			m.cur++
		}
	case kWordLeft, kCtrlLeft:
		for m.cur > 0 && isSpaceCell(m.cells[m.cur-1]) {
			m.cur--
		}
		for m.cur > 0 && !isSpaceCell(m.cells[m.cur-1]) {
			m.cur--
		}
	case kWordRight, kCtrlRight:
		for m.cur < len(m.cells) && !isSpaceCell(m.cells[m.cur]) {
			m.cur++
		}
		for m.cur < len(m.cells) && isSpaceCell(m.cells[m.cur]) {
			m.cur++
		}
	case kQuote, kQuote2:
		m.mode = mQuoted
	case kClear:
	case kEnter:
		m.outcome = oEnter
	case kPrev, kArrUp:
		if len(m.hist) == 0 || (m.hp <= 0 && !m.cycling) {
			return
		}
		m.saveEdited()
		if m.hp <= 0 {
			m.hp = len(m.hist) + 1
		}
		m.hp--
		m.recall()
	case kNext, kArrDown:
		if len(m.hist) == 0 || m.hp >= len(m.hist) {
			return
		}
		m.saveEdited()
		m.hp++
		m.recall()
	case kYank, kYank2:
		if !m.clipFail {
			m.insert(strings.TrimRight(m.clip, "\r\n\000"))
		}
	case kYankQuote:
		if !m.clipFail {
			m.insert(quoteForYank(m.clip))
		}
	case kUndo, kUndo2:
		if n := len(m.past); n > 0 {
			u := m.past[n-1]
			m.past = m.past[:n-1]
			m.exchange(u.pos, u.added, u.removed)
			m.free = true
		}
	case kSearch:
		m.mode = mSearch
		m.pattern, m.found, m.foundAt = "", "", len(m.hist)-1
	default:
		if f := m.custom[k]; f != nil {
			f()
			return
		}
		m.typed(k)
	}
}

func quoteForYank(s string) string {
	if !strings.Contains(s, " ") || strings.HasPrefix(s, `"`) {
		return s
	}
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '"':
			b.WriteString(`""`)
		case strings.HasPrefix(s[i:], "\r\n"):
			b.WriteString("\"\r\n\"")
			i++
		default:
			b.WriteByte(s[i])
		}
	}
	b.WriteByte('"')
	return b.String()
}

func foldContains(s, sub string) bool {
	return strings.Contains(strings.ToUpper(s), strings.ToUpper(sub))
}

func (m *Model) newest() {
	m.found = ""
	for i := len(m.hist) - 1; i >= 0; i-- {
		if foldContains(m.hist[i], m.pattern) {
			m.found, m.foundAt = m.hist[i], i
			return
		}
	}
}

func (m *Model) searchKey(k string) {
	switch k {
	case kBS, kDEL:
		if rs := []rune(m.pattern); len(rs) > 0 {
			m.pattern = string(rs[:len(rs)-1])
		}
		m.newest()
	case kEnter:
		m.mode = mNormal
		m.replace(0, len(m.cells), segment(m.found))
		m.cur = len(m.cells)
	case kIntr, "\x07", kEsc:
		m.mode = mNormal
	case kSearch:
		n := len(m.hist)
		for d := 1; d < n; d++ {
			i := ((m.foundAt-d)%n + n) % n
			if foldContains(m.hist[i], m.pattern) && m.hist[i] != m.found {
				m.found, m.foundAt = m.hist[i], i
				break
			}
		}
	case kFwdSearch:
		for i := m.foundAt + 1; i < len(m.hist); i++ {
			if foldContains(m.hist[i], m.pattern) && m.hist[i] != m.found {
				m.found, m.foundAt = m.hist[i], i
				break
			}
		}
	default:
		if r, _ := utf8.DecodeRuneInString(k); !unicode.IsControl(r) {
			m.pattern += string(r)
			m.newest()
		}
	}
}
