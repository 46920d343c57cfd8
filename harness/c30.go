package main

import (
	"context"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"pgregory.net/rapid"
)

// Reading is what the command key does: it inserts a mark, reads keys, and
// inserts them in turn.
type Reading struct {
	N    int  `json:"n"`
	Mark Str  `json:"mark,omitempty"`
	Fail int  `json:"fail"`          // this read fails, -1 for none
	End  bool `json:"end,omitempty"` // a failed read ends the session
}

// C30Case is a session with a command that reads keys.
type C30Case struct {
	Setup
	Reads []Reading `json:"reads"`
	Kind  int       `json:"kind,omitempty"` // which kind of command reads
}

type ctxKey struct{}

// ownCommand is a command that is not made by the library.
type ownCommand func(context.Context, *readline.Buffer) readline.Result

func (f ownCommand) String() string { return "OWN" }

func (f ownCommand) Call(ctx context.Context, b *readline.Buffer) readline.Result { return f(ctx, b) }

var c30keys = keyGen(gType.times(8), gMotion.times(4), gDelete.times(2), gKill.times(1), gUndo.times(2), gHistory.times(2), gSearch.times(1), gQuote.times(1), gEnd.times(1),
	group{weight: 14, keys: []string{cmdKey}})

func init() {
	register(property(Prop{
		ID:       "C30",
		Rule:     "a case is a session with a command that reads keys itself; non-trivial when it read at least two keys of which one is bound to a command",
		Profiles: []string{"plain", "wt"}, Shards: 4, Quick: 8000, Thorough: 200000,
	}, func(t *rapid.T) *C30Case {
		c := &C30Case{Setup: Setup{
			Prompt:  promptGen.Draw(t, "prompt"),
			Default: asStr(lineText(6)).Draw(t, "default"),
			Cursor:  rapid.IntRange(0, 8).Draw(t, "cursor"),
			History: genHistory(t, lineText(6), 3),
			Predict: rapid.IntRange(0, 2).Draw(t, "predict") == 2,
			Keys:    seq(c30keys, 1, 24).Draw(t, "keys"),
		}}
		c.Width = promptEnd(c.Prompt) + 3 + rapid.SampledFrom([]int{12, 15, 20, 60}).Draw(t, "room")
		c.Reads = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Reading {
			r := Reading{N: rapid.IntRange(0, 4).Draw(t, "n"), Fail: -1}
			if rapid.Bool().Draw(t, "marked") {
				r.Mark = asStr(lineText(3)).Draw(t, "mark")
			}
			if r.N > 0 && rapid.IntRange(0, 4).Draw(t, "fails") == 4 {
				r.Fail = rapid.IntRange(0, r.N-1).Draw(t, "fail")
				r.End = rapid.Bool().Draw(t, "end")
			}
			return r
		}), 1, 6).Draw(t, "reads")
		c.Kind = rapid.IntRange(0, 2).Draw(t, "kind")
		return c
	}, runC30))
}

func runC30(c *C30Case, rec *Rec) error {
	s := c.Setup
	r := newRun(&s)
	token := new(int)
	r.ctx = context.WithValue(context.Background(), ctxKey{}, token)
	r.tty.keyErr = map[int]error{}
	fault := &faultError{30}

	var bad error
	calls := 0
	read := func(ctx context.Context, b *readline.Buffer) readline.Result {
		op := c.Reads[calls%len(c.Reads)]
		calls++
		if ctx.Value(ctxKey{}) != token {
			bad = errf("the command was not given the context of the session")
		}
		if op.Mark != "" {
			b.InsertAndRepaint(string(op.Mark))
		}
		var got []string
		for i := 0; i < op.N; i++ {
			if i == op.Fail {
				r.tty.keyErr[r.tty.i] = fault
			}
			k, err := b.GetKey()
			if i == op.Fail {
				if err != fault || k != "" {
					bad = errf("a failed read gave the command %q, %v", k, err)
				}
				if op.End {
					return readline.ABORT
				}
				continue
			}
			if err != nil {
				if r.vio == nil {
					bad = errf("a read gave the command %q, %v", k, err)
				}
				return readline.ABORT
			}
			got = append(got, k)
		}
		b.InsertAndRepaint(strings.Join(got, ""))
		return readline.CONTINUE
	}
	switch c.Kind {
	case 0:
		r.ed.BindKey(cmdKey, readline.AnonymousCommand(read))
	case 1:
		r.ed.BindKey(cmdKey, &readline.GoCommand{Name: "READ", Func: read})
	case 2:
		r.ed.BindKey(cmdKey, ownCommand(read))
	}

	m := r.model()
	expected := 0
	left := 0 // reads of the command in progress
	var op Reading
	var taken []string
	finish := func() {
		m.insert(strings.Join(taken, ""))
		taken = nil
	}
	m.custom = map[string]func(){cmdKey: func() {
		op = c.Reads[expected%len(c.Reads)]
		expected++
		if op.Mark != "" {
			m.insert(string(op.Mark))
		}
		if left = op.N; left == 0 {
			finish()
		}
	}}
	// key follows one read of the session.
	key := func(n int) {
		k := s.keyAt(n)
		if left == 0 {
			m.Key(k)
			return
		}
		left--
		switch {
		case op.N-1-left != op.Fail:
			taken = append(taken, k)
			if _, ok := defaultNames[k]; ok && len(taken) > 1 {
				rec.Nontrivial()
			}
		case op.End:
			rec.Label("ended after a failed read")
			left = 0
			m.outcome = oAbort
			return
		default:
			rec.Label("went on after a failed read")
		}
		if left == 0 {
			finish()
		}
	}
	seen := 0
	err := r.do(func(n int) error {
		for ; seen < n; seen++ {
			key(seen)
		}
		if bad != nil {
			return bad
		}
		if err := r.compare(m); err != nil {
			return errf("after %d keys %s: %w", n, keyList(&s, n), err)
		}
		// Whether the cursor is visible then is up to the command.
		visible := r.emu.visible
		r.emu.visible = visible || left > 0
		_, err := r.checkScreen(m, s.Width)
		r.emu.visible = visible
		if err != nil {
			return errf("after %d keys %s (%d reads of the command left): %w", n, keyList(&s, n), left, err)
		}
		return nil
	})
	if err == nil {
		err = bad
	}
	if err != nil {
		return err
	}
	for m.outcome == oNone && seen < len(s.Keys)+8 {
		key(seen)
		seen++
	}
	if got := r.tty.i - 1; got != seen {
		return errf("the session used %d keys, should have used %d", got, seen)
	}
	if calls != expected {
		return errf("the command ran %d times, should have run %d times", calls, expected)
	}
	if m.outcome == oAbort {
		m.cells = nil // what is returned besides the error is left open
		r.text = ""
	}
	return r.checkOutcome(m)
}
