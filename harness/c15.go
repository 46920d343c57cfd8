package main

import (
	"context"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
	"pgregory.net/rapid"
)

// Burst is a number of size changes reported from another goroutine.
type Burst struct {
	When   string `json:"when"` // open, size, wait, command, close, after
	At     int    `json:"at"`   // key, for wait and command
	Widths []int  `json:"widths"`
	Lag    int    `json:"lag"` // how long the goroutine waits first, in yields
}

type C15Case struct {
	Setup
	Bursts []Burst `json:"bursts"`
	Join   bool    `json:"join"` // closing the terminal waits for the goroutines
}

// rtty is a terminal that reports sizes from other goroutines.
type rtty struct {
	stty
	c      *C15Case
	wg     sync.WaitGroup
	onsize func(int)
}

func (t *rtty) fire(when string, at int) {
	for _, b := range t.c.Bursts {
		if b.When != when || ((when == "wait" || when == "command") && b.At != at) {
			continue
		}
		t.wg.Add(1)
		go func() {
			defer t.wg.Done()
			for i := 0; i < b.Lag; i++ {
				runtime.Gosched()
			}
			for _, w := range b.Widths {
				t.onsize(w)
			}
		}()
	}
}

func (t *rtty) Open(f func(int)) error {
	t.onsize = f
	err := t.stty.Open(f)
	t.fire("open", 0)
	return err
}

func (t *rtty) Size() (int, int, error) {
	t.fire("size", 0)
	return t.stty.Size()
}

func (t *rtty) GetKey() (string, error) {
	t.wg.Wait() // resizes are handled while a key is waited for
	k, err := t.stty.GetKey()
	if err == nil {
		t.fire("wait", t.i-2)
		for i := 0; i < 20; i++ {
			runtime.Gosched()
		}
		t.fire("command", t.i-2)
	}
	return k, err
}

func (t *rtty) Close() error {
	t.fire("close", 0)
	if t.c.Join {
		t.wg.Wait()
	}
	return t.stty.Close()
}

// soleWriter notes writes that overlap.
type soleWriter struct {
	e      *Emu
	inside atomic.Int32
	clash  atomic.Bool
	n      atomic.Int64
}

func (w *soleWriter) Write(p []byte) (int, error) {
	if w.inside.Add(1) != 1 {
		w.clash.Store(true)
	}
	defer w.inside.Add(-1)
	w.n.Add(int64(len(p)))
	return w.e.Write(p)
}

var c15keys = keyGen(gType.times(10), gMotion.times(3), gDelete.times(2), gKill.times(1), gHistory.times(3), gSearch.times(2), gQuote.times(2), gUndo.times(1), gClear, group{3, []string{cmdKey}, nil})

func init() {
	register(property(Prop{
		ID:       "C15",
		Rule:     "a case is a session with bursts of size changes from other goroutines in its phases; non-trivial when at least one burst was fired during start-up, a command or the end of the session",
		Profiles: []string{"plain", "wt"}, Shards: 4, Quick: 1500, Thorough: 30000, Race: true,
	}, func(t *rapid.T) *C15Case {
		c := &C15Case{Setup: Setup{
			Width:   sizeGen.Draw(t, "width"),
			Prompt:  resizePrompt.Draw(t, "prompt"),
			Default: asStr(lineText(8)).Draw(t, "default"),
			Cursor:  rapid.IntRange(0, 9).Draw(t, "cursor"),
			History: genHistory(t, lineText(6), 3),
			Predict: rapid.Bool().Draw(t, "predict"),
			Keys:    seq(c15keys, 0, 12).Draw(t, "keys"),
		}, Join: rapid.Bool().Draw(t, "join")}
		n := rapid.IntRange(1, 4).Draw(t, "bursts")
		for i := 0; i < n; i++ {
			c.Bursts = append(c.Bursts, Burst{
				When:   rapid.SampledFrom([]string{"open", "command", "wait", "size", "close", "after", "command"}).Draw(t, "when"),
				At:     rapid.IntRange(0, len(c.Keys)).Draw(t, "at"),
				Widths: rapid.SliceOfN(sizeGen, 1, 4).Draw(t, "widths"),
				Lag:    rapid.IntRange(0, 12).Draw(t, "lag"),
			})
		}
		return c
	}, runC15))
}

func runC15(c *C15Case, rec *Rec) error {
	s := c.Setup
	r := newRun(&s)
	t := &rtty{stty: *r.tty, c: c}
	r.ed.Tty = t
	w := &soleWriter{e: r.emu}
	r.ed.Writer = w
	r.ed.BindKey(keys.Code(cmdKey), readline.AnonymousCommand(func(_ context.Context, b *readline.Buffer) readline.Result {
		b.InsertAndRepaint("xy")
		time.Sleep(100 * time.Microsecond)
		b.DrawFromHead()
		return readline.CONTINUE
	}))
	for _, b := range c.Bursts {
		switch b.When {
		case "open", "size", "close", "command":
			rec.Nontrivial()
		}
		rec.Label("during: %s", b.When)
	}
	m := r.model()
	m.custom = map[string]func(){cmdKey: func() { m.insert("xy") }}
	seen := 0
	t.onKey = func(i int) error {
		if i == 0 {
			return nil
		}
		for ; seen < i-1; seen++ {
			m.Key(s.keyAt(seen))
		}
		if r.vio = r.compare(m); r.vio != nil {
			r.vio = errf("after %d keys %s: %w", i-1, keyList(&s, i-1), r.vio)
		}
		return r.vio
	}
	r.text, r.err = r.ed.ReadLine(context.Background())
	ended := w.n.Load()
	t.wg.Wait()
	if r.vio != nil {
		return r.vio
	}
	for m.outcome == oNone && seen < len(s.Keys)+8 {
		m.Key(s.keyAt(seen))
		seen++
	}
	if err := r.checkOutcome(m); err != nil {
		return err
	}
	t.fire("after", 0)
	t.wg.Wait()
	if r.ed.Out.Buffered() > 0 || w.n.Load() != ended {
		return errf("a size change reported after the session ended drew on the screen")
	}
	if w.clash.Load() {
		return errf("two goroutines wrote to the terminal at the same time")
	}
	return nil
}
