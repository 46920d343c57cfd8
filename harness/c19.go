package main

import (
	"slices"
	"strings"
	"unicode"

	"github.com/nyaosorg/go-readline-ny/completion"
	"pgregory.net/rapid"
)

// C19Case is a session whose special key completes the word at the cursor.
type C19Case struct {
	Setup
	Full       []Str `json:"full"`           // the candidates
	Base       []Str `json:"base,omitempty"` // how they are listed
	Enclosures Str   `json:"enclosures"`
	Delimiters Str   `json:"delimiters"`
	Postfix    Str   `json:"postfix"`
}

// lister offers the candidates of a case and notes what it was asked.
type lister struct {
	c     *C19Case
	asked []string
}

func (l *lister) Delimiters() string { return string(l.c.Delimiters) }
func (l *lister) Enclosures() string { return string(l.c.Enclosures) }
func (l *lister) List(fields []string) ([]string, []string) {
	l.asked = append([]string{}, fields...)
	return strs(l.c.Full), strs(l.c.Base)
}

const completionBlanks = " \t\r\n\v\f"

var (
	candidateChar = rapid.SampledFrom([]rune("aaaabbbABcd あ&ⱥȺkKKsſẞßé👨"))
	wordPiece     = rapid.SampledFrom([]string{"a", "ab", "A", "b", " ", " ", "\t", "\"", "'", "&", "|", "あ", "ⱥ", "Ⱥ", "k", "K", "s", "ß", "👨‍🌾", "x"})
)

var c19keys = keyGen(group{weight: 8, gen: rapid.Custom(func(t *rapid.T) string { return string([]rune(wordPiece.Draw(t, "piece"))[:1]) })},
	gMotion.times(2), gDelete.times(2), gUndo.times(3), gKill.times(1), group{weight: 8, keys: []string{cmdKey}})

func genCompletion(t *rapid.T) *C19Case {
	c := &C19Case{Setup: Setup{
		Width:   rapid.SampledFrom([]int{80, 30}).Draw(t, "width"),
		Default: Str(strings.Join(rapid.SliceOfN(wordPiece, 0, 8).Draw(t, "default"), "")),
		Cursor:  rapid.IntRange(0, 12).Draw(t, "cursor"),
		Keys:    append([]Str{cmdKey}, seq(c19keys, 0, 8).Draw(t, "keys")...),
	}}
	// Candidates have common beginnings, in letters of different cases.
	stems := rapid.SliceOfN(textOf(candidateChar, 0, 3), 1, 3).Draw(t, "stems")
	seen := map[string]bool{}
	for i := rapid.IntRange(0, 6).Draw(t, "candidates"); i > 0; i-- {
		s := rapid.SampledFrom(stems).Draw(t, "stem")
		switch rapid.IntRange(0, 3).Draw(t, "case") {
		case 2:
			s = strings.ToUpper(s)
		case 3:
			s = strings.ToLower(s)
		}
		s += textOf(candidateChar, 0, 3).Draw(t, "tail")
		if seen[s] {
			continue
		}
		seen[s] = true
		c.Full = append(c.Full, Str(s))
	}
	if rapid.Bool().Draw(t, "listed otherwise") {
		for i := range c.Full {
			c.Base = append(c.Base, Str("name"+string(rune('0'+i))))
		}
	}
	c.Enclosures = Str(rapid.SampledFrom([]string{`"'`, `"`, `'`, ""}).Draw(t, "enclosures"))
	c.Delimiters = Str(rapid.SampledFrom([]string{"&|><;", "&", ""}).Draw(t, "delimiters"))
	c.Postfix = Str(rapid.SampledFrom([]string{"", " ", "あ", "/"}).Draw(t, "postfix"))
	if len(stems[0]) > 0 && rapid.IntRange(0, 3).Draw(t, "matching") > 0 {
		// Make sure that the word before the cursor matches something.
		stem := []rune(stems[0])
		c.Default += " " + Str(stem[:rapid.IntRange(0, len(stem)).Draw(t, "part")])
		c.Cursor = 100
	}
	return c
}

func init() {
	register(property(Prop{
		ID:       "C19",
		Rule:     "a case is a line, candidates and settings of completion; non-trivial when completion changed the line",
		Profiles: []string{"plain", "wt"}, Shards: 4, Quick: 40000, Thorough: 300000,
	}, genCompletion, runC19))
}

// completionWord is the word before the cursor: where it starts, its text
// without quotation marks, and whether there is a word at all.
func completionWord(m *Model, quotes, dels string) (start int, word string, any bool) {
	in := func(set, c string) bool { return c != "" && strings.Contains(set, c) }
	open := map[string]bool{}
	quoted := func() bool {
		for _, o := range open {
			if o {
				return true
			}
		}
		return false
	}
	for i, c := range m.cells[:m.cur] {
		switch {
		case in(quotes, c):
			open[c] = !open[c]
			any = true
		case quoted():
		case in(completionBlanks, c):
			start = i + 1
		case in(dels, c):
			start = i + 1
			any = true
		default:
			any = true
		}
	}
	for _, c := range m.cells[start:m.cur] {
		for _, r := range c {
			if !strings.ContainsRune(quotes, r) {
				word += string(r)
			}
		}
	}
	return start, word, any
}

// completionFields are the words and delimiters before the cursor without
// quotation marks, those that are empty left out.
func completionFields(m *Model, quotes, dels string) []string {
	part := *m
	var fields []string
	for part.cur > 0 {
		start, word, _ := completionWord(&part, quotes, dels)
		fields = append(fields, word)
		part.cur = start
		if start > 0 {
			part.cur--
			if c := m.cells[start-1]; !strings.Contains(completionBlanks, c) {
				fields = append(fields, c)
			}
		}
	}
	slices.Reverse(fields)
	return nonEmpty(fields)
}

func nonEmpty(list []string) []string {
	var some []string
	for _, s := range list {
		if s != "" {
			some = append(some, s)
		}
	}
	return some
}

// foldRune brings the cases of a letter together.
func foldRune(r rune) rune {
	least := r
	for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
		least = min(least, f)
	}
	return least
}

// foldCommon counts the code points with which two strings begin alike.
func foldCommon(a, b string) int {
	x, y := []rune(a), []rune(b)
	n := 0
	for n < len(x) && n < len(y) && foldRune(x[n]) == foldRune(y[n]) {
		n++
	}
	return n
}

// completionResult is what completion may replace the word by; none when the
// line has to stay.  list are the candidates that match.
func (c *C19Case) completionResult(word string) (texts []string, list []int) {
	quotes := []string{""}
	need := false
	length := len([]rune(word))
	for i, f := range c.Full {
		if foldCommon(string(f), word) == length {
			list = append(list, i)
			need = need || strings.ContainsAny(string(f), completionBlanks+string(c.Delimiters))
		}
	}
	if need && c.Enclosures != "" {
		quotes = strings.Split(string(c.Enclosures), "")
	}
	switch len(list) {
	case 0:
	case 1:
		s := string(c.Full[list[0]])
		if len([]rune(s)) > length {
			for _, q := range quotes {
				texts = append(texts, q+s+q+string(c.Postfix))
			}
		}
	default:
		n := len([]rune(c.Full[list[0]]))
		for _, i := range list[1:] {
			n = min(n, foldCommon(string(c.Full[list[0]]), string(c.Full[i])))
		}
		if n > length {
			for _, q := range quotes {
				for _, i := range c.shortest(list) {
					texts = append(texts, q+string([]rune(c.Full[i])[:n]))
				}
			}
		}
	}
	return texts, list
}

// shortest picks the candidates the common beginning may be spelled after: the
// shortest, if there is only one, whether code points or bytes are counted.
func (c *C19Case) shortest(list []int) []int {
	for _, i := range list {
		only := true
		for _, j := range list {
			if i != j && (len(c.Full[i]) >= len(c.Full[j]) || len([]rune(c.Full[i])) >= len([]rune(c.Full[j]))) {
				only = false
			}
		}
		if only {
			return []int{i}
		}
	}
	return list
}

func runC19(c *C19Case, rec *Rec) error {
	s := c.Setup
	r := newRun(&s)
	m := r.model()
	l := &lister{c: c}
	r.ed.BindKey(cmdKey, completion.CmdCompletion{Completion: l, Postfix: string(c.Postfix)})
	var bad error
	m.custom = map[string]func(){cmdKey: func() {
		if _, err := c.expect(r, m, l, rec); err != nil && bad == nil {
			bad = err
		}
	}}
	return r.follow(m, func(int) error {
		if bad != nil {
			return bad
		}
		_, err := r.checkScreen(m, s.Width)
		return err
	})
}

// expect applies completion to the model.  Where the property leaves the
// choice (the case of letters, which quotation mark) it takes what the editor
// did.  It returns the candidates to be listed, if any.
func (c *C19Case) expect(r *run, m *Model, l *lister, rec *Rec) ([]int, error) {
	start, word, any := completionWord(m, string(c.Enclosures), string(c.Delimiters))
	if !any {
		rec.Label("no word")
		return nil, nil
	}
	texts, list := c.completionResult(word)
	if len(l.asked) == 0 || l.asked[len(l.asked)-1] != word {
		return nil, errf("the candidates for the word %q of %q were asked for %q", word, m.text(), l.asked)
	}
	if got, want := nonEmpty(l.asked), completionFields(m, string(c.Enclosures), string(c.Delimiters)); !slices.Equal(got, want) {
		return nil, errf("with %q before the cursor the words given are %q, should be %q", strings.Join(m.cells[:m.cur], ""), got, want)
	}
	l.asked = nil
	rec.Label("%d candidates", min(len(list), 2))
	if len(texts) == 0 {
		if len(list) > 1 {
			return list, nil
		}
		return nil, nil
	}
	rec.Nontrivial()
	before := strings.Join(m.cells[:start], "")
	after := strings.Join(m.cells[m.cur:], "")
	pick := texts[0]
	for _, t := range texts {
		if r.b.String() == before+sanitize(t)+after {
			pick = t
		}
	}
	cells := segment(pick)
	m.replace(start, m.cur-start, cells)
	m.cur = start + len(cells)
	return nil, nil
}
