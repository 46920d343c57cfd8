package main

import (
	"os"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/mattn/go-runewidth"
)

// Profile is what the library is documented to conclude about the terminal
// from the environment.  The flags here are the harness's own copy of that
// table; the library derives its own from the same environment variables.
type Profile struct {
	Name      string
	Env       map[string]string
	Surrogate bool // code points above U+FFFF are shown as they are
	ZWJ       bool // zero width joiner sequences are one character
	VS        bool // variation sequences are one character
	Mod       bool // skin tone sequences are one character
	AmbWide   bool // East Asian ambiguous characters take two columns
}

var termEnv = []string{"VSCODE_PID", "WT_SESSION", "WT_PROFILE_ID", "TERM_PROGRAM", "TERMINAL_NAME", "RUNEWIDTH_EASTASIAN"}

var profiles = map[string]*Profile{
	"plain": {Name: "plain", AmbWide: true},
	"wt": {Name: "wt", Env: map[string]string{"WT_SESSION": "1", "WT_PROFILE_ID": "1"},
		Surrogate: true, ZWJ: true, VS: true, Mod: true},
	"wez": {Name: "wez", Env: map[string]string{"TERM_PROGRAM": "WezTerm"},
		Surrogate: true, ZWJ: true, VS: true, Mod: true, AmbWide: true},
	"contour": {Name: "contour", Env: map[string]string{"TERMINAL_NAME": "contour"},
		Surrogate: true, ZWJ: true, VS: true, AmbWide: true},
	// The terminal inside VSCode, started from Windows Terminal.
	"vscode": {Name: "vscode", Env: map[string]string{"WT_SESSION": "1", "WT_PROFILE_ID": "1", "VSCODE_PID": "7"},
		AmbWide: true},
	// Only one of the two Windows Terminal variables.
	"halfwt": {Name: "halfwt", Env: map[string]string{"WT_SESSION": "1"}, AmbWide: true},
}

// prof is the profile of this process.
var prof = detectProfile()

func detectProfile() *Profile {
	if p, ok := profiles[os.Getenv("VERIF_PROFILE")]; ok {
		q := *p
		return &q
	}
	q := *profiles["plain"]
	return &q
}

// environFor returns this process's environment with the terminal variables
// of the profile in place of those it has.
func environFor(p *Profile) []string {
	drop := map[string]bool{"VERIF_PROFILE": true}
	for _, k := range termEnv {
		drop[k] = true
	}
	var env []string
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		if !drop[k] {
			env = append(env, kv)
		}
	}
	for k, v := range p.Env {
		env = append(env, k+"="+v)
	}
	return append(env, "VERIF_PROFILE="+p.Name, "LANG=C.UTF-8", "LC_ALL=C.UTF-8")
}

const (
	zwj  = '‍'
	vs16 = '️'
)

var widthOverride = map[rune]int{} // SetCharWidth calls in force

var (
	condWide   = &runewidth.Condition{EastAsianWidth: true, StrictEmojiNeutral: true}
	condNarrow = &runewidth.Condition{EastAsianWidth: false, StrictEmojiNeutral: true}
)

// runeColumns is the number of columns the terminal gives a rune printed raw.
func runeColumns(r rune) int {
	if w, ok := widthOverride[r]; ok {
		return w
	}
	if prof.AmbWide {
		return condWide.RuneWidth(r)
	}
	return condNarrow.RuneWidth(r)
}

func isVSLike(r rune) bool {
	return prof.VS && (unicode.Is(unicode.Variation_Selector, r) || unicode.Is(unicode.Me, r))
}

func isSkinTone(r rune) bool {
	return prof.Mod && 0x1F3FB <= r && r <= 0x1F3FF
}

func isZWJ(r rune) bool { return prof.ZWJ && r == zwj }

// runes decodes a string, every invalid byte becoming U+FFFD.
func runesOf(s string) []rune { return []rune(s) }

// substituted says whether a rune is shown in a substitute form.
func substituted(r rune) bool { return r < ' ' || escaped(r) }

// joinBase says whether a cell can be extended by a joiner, selector or
// skin tone: a character shown in a substitute form cannot.
func joinBase(cell string) bool {
	r, ok := single(cell)
	return !ok || boxLike(r) || !substituted(r)
}

// segment splits a string into the characters the line editor works with.
func segment(s string) []string {
	rs := runesOf(s)
	var cells []string
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		if n := len(cells); n > 0 && joinBase(cells[n-1]) {
			if isZWJ(r) && i+1 < len(rs) && !substituted(rs[i+1]) {
				cells[n-1] += string(r) + string(rs[i+1])
				i++
				continue
			}
			if isVSLike(r) || isSkinTone(r) {
				cells[n-1] += string(r)
				continue
			}
		}
		cells = append(cells, string(r))
	}
	return cells
}

// sanitize is the text a line holds after s was put into it.
func sanitize(s string) string { return string(runesOf(s)) }

// single returns the rune of a one-rune cell.
func single(cell string) (rune, bool) {
	r, size := utf8.DecodeRuneInString(cell)
	return r, size == len(cell) && size > 0
}

func isSpaceCell(cell string) bool {
	r, ok := single(cell)
	return ok && unicode.IsSpace(r)
}

func escaped(r rune) bool { // shown as hexadecimal
	return unicode.IsControl(r) || isVSLike(r) || (r >= 0x10000 && !prof.Surrogate) || runeColumns(r) == 0
}

func hexLen(r rune) int {
	n := 1
	for r > 0xF {
		r >>= 4
		n++
	}
	return n
}

// singleWidth is the number of columns of a one-rune cell other than a tab.
func singleWidth(r rune) int {
	switch {
	case r < ' ':
		return 2 // ^X
	case prof.AmbWide && 0x2500 <= r && r <= 0x257F:
		return 2
	case escaped(r):
		return 2 + hexLen(r) // <XXXX>
	case 0x1F1E6 <= r && r <= 0x1F1FF, 0x1D400 <= r && r <= 0x1D7FF, r == 0x1F3F3:
		return 2
	}
	return runeColumns(r)
}

func boxLike(r rune) bool { // drawn with an explicit cursor restore, two columns
	return (prof.AmbWide && 0x2500 <= r && r <= 0x257F) ||
		(!escaped(r) && (0x1D400 <= r && r <= 0x1D7FF || r == 0x1F3F3))
}

var zwjWidth = func(w1, w2 int) int { return w1 + 1 + w2 }

// cellWidth is the number of columns of a cell drawn at column pos of the line.
func cellWidth(cell string, pos int) int {
	rs := runesOf(cell)
	if len(rs) == 1 && rs[0] == '\t' {
		return 4 - pos%4
	}
	w := singleWidth(rs[0])
	base := boxLike(rs[0])
	for i := 1; i < len(rs); i++ {
		r := rs[i]
		switch {
		case isZWJ(r) && i+1 < len(rs):
			w = zwjWidth(w, runeColumns(rs[i+1]))
			i++
		case isVSLike(r):
			if !base {
				w++
			}
		default: // skin tone
			w += runeColumns(r)
		}
		base = false
	}
	return w
}

// cellsWidth is the width of a run of cells of a line, given where it starts.
func cellsWidth(cells []string, pos int) int {
	w := 0
	for _, c := range cells {
		w += cellWidth(c, pos+w)
	}
	return w
}
