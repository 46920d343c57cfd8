// Package clipboard is an in-memory stand-in for github.com/atotto/clipboard.
// It has the same API, plus the knobs the harness needs (Fail, Log).
package clipboard

import (
	"errors"
	"sync"
)

// Unsupported mirrors the variable of the real package.
var Unsupported bool

// Primary mirrors the variable of the real package.
var Primary bool

// ErrFake is returned by both functions while Fail is true.
var ErrFake = errors.New("fake clipboard: unavailable")

var (
	mu   sync.Mutex
	text string
	fail bool
	wlog []string
)

// ReadAll returns the stored text.
func ReadAll() (string, error) {
	mu.Lock()
	defer mu.Unlock()
	if fail {
		return "", ErrFake
	}
	return text, nil
}

// WriteAll stores the text.
func WriteAll(s string) error {
	mu.Lock()
	defer mu.Unlock()
	if fail {
		return ErrFake
	}
	text = s
	wlog = append(wlog, s)
	return nil
}

// Reset (harness only) sets the content, the failure mode and clears the log.
func Reset(s string, failing bool) {
	mu.Lock()
	defer mu.Unlock()
	text, fail, wlog = s, failing, nil
}

// Peek (harness only) returns the content without going through ReadAll.
func Peek() string {
	mu.Lock()
	defer mu.Unlock()
	return text
}
