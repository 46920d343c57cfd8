package main

import (
	"bytes"
	"encoding/json"
	"maps"
	"regexp"
	"slices"
	"strings"
	"time"
)

// shrinkRun makes a case smaller that ends or hangs its process, which rapid
// cannot shrink: it tries simpler cases, each in a process of its own, as long
// as they fail in the same way.  An empty crash stands for a hang.
func shrinkRun(p *Prop, pr *Profile, js []byte, crash, dir string) ([]byte, string) {
	const hang = 4 * time.Second
	end := time.Now().Add(90 * time.Second)
	kind := crashKind(crash)
	fails := func(js []byte) bool {
		c := p.New()
		if json.Unmarshal(js, c) != nil {
			return false
		}
		o, cr := runCase(p, pr, js, dir, "-limit", hang.String())
		if crash == "" {
			return cr == "" && o.Hang
		}
		if cr != "" && crashKind(cr) == kind {
			crash = cr
			return true
		}
		return false
	}
	best := smallest(js, fails, end)
	return best, crash
}

// shrink makes a case smaller that rapid did not generate and that fails.
func (w *runner) shrink(c any) {
	end := time.Now().Add(20 * time.Second)
	kind := failKind(w.lastMsg)
	msg := w.lastMsg
	js := smallest(mustJSON(c), func(js []byte) bool {
		c := w.p.New()
		if json.Unmarshal(js, c) != nil {
			return false
		}
		w.begin(js)
		defer w.end()
		err := safeRun(w.p, c, &Rec{})
		if err == nil || failKind(err.Error()) != kind {
			return false
		}
		msg = err.Error()
		return true
	}, end)
	w.lastFail, w.lastMsg = js, msg
}

var rxVaries = regexp.MustCompile(`"(?:[^"\\]|\\.)*"|\d+|\(last \[.*?\]\)`)

// failKind is the first line of a message without what differs between cases.
func failKind(s string) string {
	s, _, _ = strings.Cut(s, "\n")
	return rxVaries.ReplaceAllString(s, "")
}

// smallest makes a case smaller as long as it fails.
func smallest(js []byte, fails func([]byte) bool, end time.Time) []byte {
	best := js
	for progress := true; progress && time.Now().Before(end); {
		progress = false
		var v any
		d := json.NewDecoder(bytes.NewReader(best))
		d.UseNumber()
		if d.Decode(&v) != nil {
			break
		}
		simpler(v, func(w any) { v = w }, func() bool {
			if time.Now().After(end) {
				return false
			}
			b := mustJSON(v)
			if !fails(b) {
				return false
			}
			best, progress = b, true
			return true
		})
	}
	return best
}

// crashKind is the first line of a crash without its numbers.
func crashKind(s string) string {
	s, _, _ = strings.Cut(head(s), "\n")
	return strings.Map(func(r rune) rune {
		if '0' <= r && r <= '9' {
			return -1
		}
		return r
	}, s)
}

// simpler tries to put simpler values in place of v with set, keeping those
// for which try returns true.
func simpler(v any, set func(any), try func() bool) {
	attempt := func(old, w any) bool {
		set(w)
		if try() {
			return true
		}
		set(old)
		return false
	}
	switch x := v.(type) {
	case map[string]any:
		for _, k := range slices.Sorted(maps.Keys(x)) {
			simpler(x[k], func(w any) { x[k] = w }, try)
		}
	case []any:
		for n := len(x); n > 0; n /= 2 {
			for i := 0; i+n <= len(x); {
				w := append(append([]any{}, x[:i]...), x[i+n:]...)
				if attempt(x, w) {
					x = w
				} else {
					i += n
				}
			}
		}
		for i := range x {
			simpler(x[i], func(w any) { x[i] = w }, try)
		}
	case string:
		// Texts are Go literals within the JSON, as they can hold any byte;
		// what is not quoted is the name of something and stays.
		const quoted = `"`
		if len(x) < 2 || x[0] != '"' || x[len(x)-1] != '"' {
			break
		}
		rs := []rune(x[1 : len(x)-1])
		for n := len(rs); n > 0; n /= 2 {
			for i := 0; i+n <= len(rs); {
				w := append(append([]rune{}, rs[:i]...), rs[i+n:]...)
				if attempt(quoted+string(rs)+quoted, quoted+string(w)+quoted) {
					rs = w
				} else {
					i += n
				}
			}
		}
	case json.Number:
		if i, err := x.Int64(); err == nil && i != 0 {
			for _, w := range []int64{0, i / 2, i - i/max(i, -i)} {
				if attempt(x, w) {
					break
				}
			}
		}
	case bool:
		if x {
			attempt(true, false)
		}
	}
}
