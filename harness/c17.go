package main

import (
	"os"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/nyaosorg/go-readline-ny/tty10"
	"golang.org/x/sys/unix"
	"pgregory.net/rapid"
)

// C17Case is input typed in chunks at a terminal read by the alternative reader.
type C17Case struct {
	Chunks []Str  `json:"chunks"`
	Mode   uint32 `json:"mode"` // which flags of the terminal are unusual
	Width  int    `json:"width"`
	Height int    `json:"height"`
	Resize bool   `json:"resize,omitempty"` // wait for the size to be reported

	Session *C18Case `json:"session,omitempty"` // lines edited instead
}

var ttyChar = rapid.SampledFrom([]rune("aaab c\r\x01\x03\x04\x1a\x13\x11\x1c\x16\x15\x7f\t\néあ漢👨‍️ÿĀ߿ࠀ\U0010ffff\u0080"))

var ttyText = rapid.SampledFrom([]rune("ab c\téあ漢👨‍️ÿĀ߿ࠀ\U0010ffff"))

var escapeKey = rapid.SampledFrom([]string{"\x1b", "\x1b[D", "\x1b[A", "\x1bb", "\x1b[1;5C", "\x1b[200~", "\x1bOP", "\x1bあ"})

func genC17(t *rapid.T) *C17Case {
	if rapid.IntRange(0, 3).Draw(t, "session") == 3 {
		s := genC18(t)
		s.Tty10 = true
		return &C17Case{Session: s}
	}
	c := &C17Case{
		Mode:   uint32(rapid.IntRange(0, 31).Draw(t, "mode")),
		Width:  rapid.IntRange(0, 300).Draw(t, "width"),
		Height: rapid.IntRange(0, 100).Draw(t, "height"),
	}
	n := rapid.IntRange(1, 6).Draw(t, "chunks")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 6).Draw(t, "kind") {
		default:
			c.Chunks = append(c.Chunks, Str(textOf(ttyChar, 1, 12).Draw(t, "text")))
		case 3:
			c.Chunks = append(c.Chunks, Str(escapeKey.Draw(t, "key")))
		case 4:
			if rapid.IntRange(0, 2).Draw(t, "long") == 2 {
				s := strings.Repeat(textOf(ttyChar, 1, 12).Draw(t, "text"), rapid.IntRange(1, 12).Draw(t, "times"))
				c.Chunks = append(c.Chunks, Str(escapeKey.Draw(t, "key")+s))
				break
			}
			c.Chunks = append(c.Chunks, Str(textOf(ttyChar, 0, 3).Draw(t, "text")+escapeKey.Draw(t, "key")))
		case 5: // a chunk ends inside a character
			s := textOf(ttyChar, 1, 12).Draw(t, "text")
			for rs := []rune(s); len(string(rs[len(rs)-1])) < 2; rs = []rune(s) {
				s = string(rs[:len(rs)-1]) + string('あ'+rs[len(rs)-1])
			}
			_, n := utf8.DecodeLastRuneInString(s)
			i := len(s) - rapid.IntRange(1, n-1).Draw(t, "cut")
			c.Chunks = append(c.Chunks, Str(s[:i]), Str(s[i:]))
		case 6: // pasted text
			n := rapid.SampledFrom([]int{1019, 1020, 1021, 1022, 1023, 1024, 1025, 1030, 2049, 3000, 500}).Draw(t, "length")
			char := ttyChar
			if n > 1500 {
				// The kernel can hand this over in parts, the second while
				// no read is in progress.
				char = ttyText
			}
			s := strings.Repeat(textOf(char, 1, 4).Draw(t, "text"), 3000)
			for len(s) > n || !utf8.ValidString(s) {
				s = s[:min(n, len(s)-1)]
			}
			c.Chunks = append(c.Chunks, Str(s))
		}
	}
	return c
}

func init() {
	register(property(Prop{
		ID:       "C17",
		Rule:     "a case is input typed in chunks at a pseudo-terminal in some mode; non-trivial when a chunk has control characters, escape sequences, characters of several bytes or more than 1000 bytes",
		Profiles: []string{"wt"}, Shards: 8, Quick: 2500, Thorough: 20000, Pty: true,
		Fixed: func() []any {
			return []any{&C17Case{Chunks: []Str{"a"}, Width: 77, Height: 11, Resize: true}}
		},
	}, genC17, runC17))
}

// odd makes a terminal mode unusual.
func oddMode(t unix.Termios, mode uint32) unix.Termios {
	if mode&1 != 0 {
		t.Lflag &^= unix.ECHO
	}
	if mode&2 != 0 {
		t.Iflag ^= unix.IXON
	}
	if mode&4 != 0 {
		t.Lflag ^= unix.IEXTEN
	}
	if mode&8 != 0 {
		t.Oflag ^= unix.ONLCR
		t.Iflag ^= unix.ICRNL
	}
	if mode&16 != 0 {
		t.Cc[unix.VMIN] = 3
		t.Cc[unix.VTIME] = 2
		t.Cc[unix.VERASE] = 8
	}
	return t
}

// chunkKeys divides a chunk into the keys it holds; rest is the beginning of a
// character the next chunk has to complete.
func chunkKeys(s string) (keys []string, rest string) {
	for s != "" {
		if s[0] == 0x1B {
			return append(keys, s), ""
		}
		if !utf8.FullRuneInString(s) {
			return keys, s
		}
		_, n := utf8.DecodeRuneInString(s)
		keys = append(keys, s[:n])
		s = s[n:]
	}
	return keys, ""
}

type keyResult struct {
	key  string
	err  error
	mode unix.Termios
}

func runC17(c *C17Case, rec *Rec) error {
	if c.Session != nil {
		return runC18(c.Session, rec)
	}
	p := openPty(false)
	defer p.close()
	mode := oddMode(p.termios(), c.Mode)
	p.setTermios(mode)
	p.resize(c.Width, c.Height)
	in, errOut := os.Stdin, os.Stderr
	os.Stdin, os.Stderr = p.slave, p.slave
	defer func() { os.Stdin, os.Stderr = in, errOut }()

	tty := &tty10.Tty{}
	sizes := make(chan int, 100)
	if err := tty.Open(func(w int) { sizes <- w }); err != nil {
		return errf("Open: %w", err)
	}
	if w, h, err := tty.Size(); err != nil || w != c.Width || h != c.Height {
		return errf("the size is reported as %d, %d, %v; it is %d, %d", w, h, err, c.Width, c.Height)
	}
	w2 := (c.Width + 7) % 200
	p.resize(w2, c.Height+1)
	if w, h, err := tty.Size(); err != nil || w != w2 || h != c.Height+1 {
		return errf("after a change the size is reported as %d, %d, %v; it is %d, %d", w, h, err, w2, c.Height+1)
	}

	ask := make(chan bool)
	got := make(chan keyResult)
	done := make(chan bool)
	go func() {
		for range ask {
			k, err := tty.GetKey()
			got <- keyResult{k, err, p.mode()}
		}
		close(done)
	}()
	var early *keyResult // a key that came before anything was typed
	wait := func() bool {
		p.until(func() bool {
			if p.raw() {
				return true
			}
			select {
			case k := <-got:
				early = &k
				return true
			default:
				return false
			}
		})
		return early == nil
	}
	rest := ""
	asked := false
	err := func() error {
		for i, chunk := range c.Chunks {
			for j := 0; j < len(chunk); j++ {
				if chunk[j] < ' ' || chunk[j] > '~' || len(chunk) > 1000 {
					rec.Nontrivial()
				}
			}
			keys, more := chunkKeys(rest + string(chunk))
			if !asked {
				ask <- true
				asked = true
			}
			if rest == "" && !wait() {
				return errf("chunk %d: the key %q, %v was read before anything was typed", i, early.key, early.err)
			}
			p.write(string(chunk))
			if more != "" {
				// The next chunk is the rest of the character.  The keys
				// before may come before it or after it.
				rec.Label("chunk ends inside a character")
				p.until(func() bool { return !p.pending() })
				rest += string(chunk)
				continue
			}
			rest = ""
			for n, want := range keys {
				if !asked {
					ask <- true
				}
				asked = false
				k := <-got
				if k.err != nil || k.key != want {
					return errf("chunk %d: key %d of %d is %q, %v; should be %q", i, n, len(keys), k.key, k.err, want)
				}
				if k.mode != mode {
					return errf("chunk %d: after key %d the terminal mode is %+v, was %+v", i, n, k.mode, mode)
				}
			}
			if len(chunk) > 1024 {
				rec.Label("more than 1024 bytes")
			}
		}
		if c.Resize {
			// The width is reported sooner or later.
			for w := range sizes {
				if w == w2 {
					break
				}
			}
		}
		return nil
	}()
	if asked && early == nil {
		// End the read still waiting.
		p.until(p.raw)
		p.write(strings.Repeat("x", 4))
		<-got
		asked = false
	}
	close(ask)
	if err != nil {
		select {
		case <-done:
		case <-time.After(time.Second):
		}
		return err
	}
	<-done
	if err := tty.Close(); err != nil {
		return errf("Close: %w", err)
	}
	if m := p.termios(); m != mode {
		return errf("after Close the terminal mode is %+v, was %+v", m, mode)
	}
	return nil
}
