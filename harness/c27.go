package main

import (
	"context"
	"io"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"pgregory.net/rapid"
)

// C27Case is a session whose prompt changes each time it is printed.
type C27Case struct {
	Setup
	Before  Str      `json:"before,omitempty"` // in the row already, with the default prompt
	Prompts []Str    `json:"prompts"`          // none for the default
	Resizes []Resize `json:"resizes,omitempty"`
}

const (
	redrawKey = "\x1b[993~" // prints prompt and line again in a new row
	lastKey   = "\x1b[994~" // prints the last line of the prompt and the line again
)

var promptPieces = []string{
	"\x1b[31m", "\x1b[0m", "\x1b[1;38;5;200m", "\x1b[K", "\x1b[?25h", "\x1b[m",
	"\x1b]0;title\a", "\x1b]2;ti日tle\x1b\\", "\x1b]0;\a", "\x1b(B",
	"\x1b]0;C:\\Users\\me\a", "\x1b]2;C:\\日\x1b\\", "\x1b]0;a[1m\a",
	"\b", "\b", "\b\b", "\r", "\n", "あ\b", "a\r",
	"$ ", "> ", "日本", "α", "é", "あ", "～",
	"e\u0301", "\a", "\t", "x\u00ad", "か\u3099", "\u200b", "😀",
}

var promptText = rapid.Custom(func(t *rapid.T) Str {
	var b strings.Builder
	n := rapid.IntRange(0, 10).Draw(t, "pieces")
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 5).Draw(t, "kind") {
		case 0, 1:
			b.WriteString(rapid.StringOfN(rapid.SampledFrom([]rune("abc xyz@:~/日語")), 1, 12, -1).Draw(t, "text"))
		case 2:
			if prof.ZWJ {
				b.WriteString(rapid.SampledFrom([]string{"👨‍🌾", "👩‍👩‍👧"}).Draw(t, "joined"))
			}
		default:
			b.WriteString(rapid.SampledFrom(promptPieces).Draw(t, "piece"))
		}
	}
	return Str(b.String())
})

var c27keys = keyGen(gTypeTame.times(6), gMotion.times(4), gDelete.times(2), gKill.times(1), gHistory.times(1),
	group{weight: 6, keys: []string{kClear, redrawKey, lastKey}})

func init() {
	register(property(Prop{
		ID:       "C27",
		Rule:     "a case is a session with prompts of escape sequences, control characters and text; non-trivial when a prompt has more than printable ASCII characters",
		Profiles: allProfiles, Shards: 2, Quick: 8000, Thorough: 200000,
	}, func(t *rapid.T) *C27Case {
		c := &C27Case{
			Setup: Setup{
				Default: asStr(textOf(tameChar, 0, 8)).Draw(t, "default"),
				Cursor:  rapid.IntRange(0, 8).Draw(t, "cursor"),
				History: []Str{"a history entry of some length"},
				Keys:    seq(c27keys, 0, 10).Draw(t, "keys"),
			},
			Prompts: rapid.SliceOfN(promptText, 1, 3).Draw(t, "prompts"),
		}
		c.Width = rapid.OneOf(rapid.IntRange(16, 60), rapid.SampledFrom([]int{80, 24})).Draw(t, "width")
		n := rapid.IntRange(0, 3).Draw(t, "resizes")
		for i := 0; i < n; i++ {
			c.Resizes = append(c.Resizes, Resize{rapid.IntRange(0, len(c.Keys)).Draw(t, "at"), rapid.IntRange(16, 60).Draw(t, "to")})
		}
		if rapid.IntRange(0, 11).Draw(t, "default prompt") == 11 {
			c.Prompts = nil
			c.Before = asStr(textOf(plainChar, 0, 12)).Draw(t, "before")
		}
		return c
	}, runC27))
}

func runC27(c *C27Case, rec *Rec) error {
	for _, p := range c.Prompts {
		if strings.IndexFunc(string(p), func(r rune) bool { return r < ' ' || r > '~' }) >= 0 {
			rec.Nontrivial()
		}
	}
	s := c.Setup
	r := newRun(&s)
	r.emu.tabs = true
	m := r.model()
	calls := 0
	prompt := func() *Str {
		if len(c.Prompts) == 0 {
			return nil
		}
		return &c.Prompts[max(calls-1, 0)%len(c.Prompts)]
	}
	shown := func() string {
		if prompt() == nil {
			return "\n> "
		}
		return string(*prompt())
	}
	if len(c.Prompts) > 0 {
		r.ed.PromptWriter = func(w io.Writer) (int, error) {
			calls++
			return io.WriteString(w, shown())
		}
	} else {
		rec.Label("default prompt")
		r.emu.Write([]byte(c.Before))
	}
	r.ed.BindKey(redrawKey, readline.CmdRepaintOnNewline)
	r.ed.BindKey(lastKey, readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		b.RepaintLastLine()
		return readline.CONTINUE
	}))
	m.custom = map[string]func(){redrawKey: func() {}, lastKey: func() {}}
	width := s.Width
	lost := false
	check := func() error {
		r.s.Prompt = prompt()
		v := &view{cells: m.cells, top: topFor(prompt(), width), width: width}
		if !v.fits() {
			lost = true
		}
		if lost {
			return nil
		}
		if v.top > 0 {
			rec.Label("line after the prompt")
		} else if promptEnd(prompt()) > 0 {
			rec.Label("no room after the prompt")
		}
		if err := r.checkPrompt(width); err != nil {
			return errf("width %d, prompt %q: %w", width, shown(), err)
		}
		if _, err := r.checkScreen(m, width); err != nil {
			return errf("width %d, prompt %q: %w", width, shown(), err)
		}
		return nil
	}
	return r.follow(m, func(n int) error {
		if err := check(); err != nil {
			return err
		}
		if n == 0 && !lost {
			first := shown()
			e := newEmu(s.Width)
			e.Write([]byte(string(c.Before) + first))
			want := e.row
			if promptEnd(prompt()) >= width-3 {
				want++
			}
			if got := r.emu.row; got != want {
				return errf("the line after prompt %q at width %d is in row %d, should be in row %d", shown(), width, got, want)
			}
		}
		for _, z := range c.Resizes {
			if z.At != n {
				continue
			}
			width = z.Width
			r.emu.Resize(width)
			r.tty.width = width
			r.tty.onSize(width)
			lost = false
			rec.Label("resized")
			if err := check(); err != nil {
				return errf("after resizing to %d: %w", width, err)
			}
		}
		return nil
	})
}
