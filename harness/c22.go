package main

import (
	"context"
	"sort"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
	"pgregory.net/rapid"
)

// C22Case is bindings and sessions of two editors.
type C22Case struct {
	Ops  []BindOp    `json:"ops"`
	Does [3][]BindOp `json:"does"` // bindings made by the custom commands
}

// BindOp is a binding, or a session if it has keys.
type BindOp struct {
	Where   int    `json:"where"` // 0 global, 1 and 2 the editors
	Key     Str    `json:"key"`
	Command string `json:"command"` // empty removes the binding
	Keys    []Str  `json:"keys,omitempty"`
}

// commandKeys are the commands with names, with a key that runs them by default.
var commandKeys = map[string]string{
	"BEGINNING_OF_LINE": kHome, "BACKWARD_CHAR": kLeft, "END_OF_LINE": kEnd, "FORWARD_CHAR": kRight,
	"BACKWARD_DELETE_CHAR": kBS, "DELETE_CHAR": kDelete, "DELETE_OR_ABORT": kDelEOF, "KILL_LINE": kKill,
	"KILL_WHOLE_LINE": kEsc, "UNIX_WORD_RUBOUT": kRubout, "UNIX_LINE_DISCARD": kKillHead, "CLEAR_SCREEN": kClear,
	"REPAINT_ON_NEWLINE": kClear, "QUOTED_INSERT": kQuote, "YANK": kYank, "YANK_WITH_QUOTE": kYankQuote,
	"SWAPCHAR": kSwap, "BACKWARD_WORD": kWordLeft, "FORWARD_WORD": kWordRight, "UNDO": kUndo,
	"PREVIOUS_HISTORY": kPrev, "NEXT_HISTORY": kNext, "ISEARCH_BACKWARD": kSearch,
	"ACCEPT_LINE": kEnter, "INTR": kIntr,
}

// defaultNames are the default keys with the names of their commands.
var defaultNames = map[string]string{
	kWordLeft: "BACKWARD_WORD", kWordRight: "FORWARD_WORD", kYank2: "YANK", kYankQuote: "YANK_WITH_QUOTE",
	kDEL: "BACKWARD_DELETE_CHAR", kHome: "BEGINNING_OF_LINE", kLeft: "BACKWARD_CHAR", kIntr: "INTR",
	kDelEOF: "DELETE_OR_ABORT", kEnd: "END_OF_LINE", kRight: "FORWARD_CHAR", kBS: "BACKWARD_DELETE_CHAR",
	kKill: "KILL_LINE", kClear: "CLEAR_SCREEN", kCtrlLeft: "BACKWARD_WORD", kEnter: "ACCEPT_LINE",
	kNext: "NEXT_HISTORY", kPrev: "PREVIOUS_HISTORY", kQuote: "QUOTED_INSERT", kSearch: "ISEARCH_BACKWARD",
	kCtrlRight: "FORWARD_WORD", kSwap: "SWAPCHAR", kKillHead: "UNIX_LINE_DISCARD", kUndo2: "UNDO",
	kQuote2: "QUOTED_INSERT", kRubout: "UNIX_WORD_RUBOUT", kYank: "YANK", kUndo: "UNDO", kDelete: "DELETE_CHAR",
	kArrDown: "NEXT_HISTORY", kArrEnd: "END_OF_LINE", kEsc: "KILL_WHOLE_LINE", kArrHome: "BEGINNING_OF_LINE",
	kArrLeft: "BACKWARD_CHAR", kArrRight: "FORWARD_CHAR", kArrUp: "PREVIOUS_HISTORY",
}

var c22commands = []string{"", "custom0", "custom1", "custom2", "", "custom0", "custom1", "custom2",
	"BEGINNING_OF_LINE", "END_OF_LINE", "BACKWARD_CHAR", "FORWARD_CHAR", "BACKWARD_DELETE_CHAR", "DELETE_OR_ABORT", "KILL_WHOLE_LINE",
	"UNDO", "SWAPCHAR", "QUOTED_INSERT", "PREVIOUS_HISTORY", "ACCEPT_LINE", "INTR", "ISEARCH_BACKWARD", "REPAINT_ON_NEWLINE"}

// c22keys: few, so that bindings meet.
var c22keys = []string{"a", "b", "あ", kHome, kIntr, kEsc, kWordLeft, kArrLeft, "\t", "\x1b[5~", "\x1bx", kUndo, "👨", "ab"}

var allKeys = func() []string {
	ks := append([]string{}, c22keys...)
	for k := range defaultNames {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}()

var genBinding = rapid.Custom(func(t *rapid.T) BindOp {
	return BindOp{
		Where:   rapid.IntRange(0, 2).Draw(t, "where"),
		Key:     Str(rapid.SampledFrom(c22keys).Draw(t, "key")),
		Command: rapid.SampledFrom(c22commands).Draw(t, "command"),
	}
})

func init() {
	p := property(Prop{
		ID:       "C22",
		Rule:     "a case is a list of bindings in two editors and globally, with sessions between them; non-trivial when a session met a key bound otherwise than by default",
		Profiles: []string{"plain", "wt"}, Shards: 4, Quick: 6000, Thorough: 150000,
	}, func(t *rapid.T) *C22Case {
		c := &C22Case{}
		n := rapid.IntRange(1, 12).Draw(t, "ops")
		for i := 0; i < n; i++ {
			op := genBinding.Draw(t, "op")
			if i == n-1 || rapid.IntRange(0, 2).Draw(t, "session") == 2 {
				op = BindOp{Where: rapid.IntRange(1, 2).Draw(t, "editor")}
				op.Keys = seq(rapid.Map(rapid.SampledFrom(c22keys), func(s string) Str { return Str(s) }), 1, 10).Draw(t, "keys")
				op.Keys = op.Keys[:min(len(op.Keys), 100)] // yanking what was yanked gets long
			}
			c.Ops = append(c.Ops, op)
		}
		for i := range c.Does {
			c.Does[i] = rapid.SliceOfN(genBinding, 0, 2).Draw(t, "does")
		}
		return c
	}, runC22)
	p.Fixed = func() []any {
		// Every default key runs the command it should.
		var cs []any
		for _, k := range allKeys {
			if k != kEnter {
				cs = append(cs, &C22Case{Ops: []BindOp{{Where: 1, Keys: []Str{"a", " ", "b", kLeft, Str(k), "c"}}}})
			}
		}
		return cs
	}
	register(p)
}

func runC22(c *C22Case, rec *Rec) error {
	touched := map[string]readline.Command{}
	defer func() {
		for k, f := range touched {
			readline.GlobalKeyMap.BindKey(keys.Code(k), f)
		}
	}()
	global := map[string]string{}
	for k, n := range defaultNames {
		global[k] = n
	}
	tables := [3]map[string]string{global, {}, {}}
	eds := [3]*readline.Editor{nil, {}, {}}
	var real [3]readline.Command
	bind := func(op BindOp) {
		var f readline.Command
		switch op.Command {
		case "":
		case "custom0", "custom1", "custom2":
			f = real[op.Command[6]-'0']
		default:
			f = readline.NameToFunc[op.Command]
		}
		k := string(op.Key)
		if op.Where == 0 {
			if _, ok := touched[k]; !ok {
				touched[k], _ = readline.GlobalKeyMap.Lookup(keys.Code(k))
			}
			readline.GlobalKeyMap.BindKey(keys.Code(k), f)
		} else {
			eds[op.Where].BindKey(keys.Code(k), f)
		}
	}
	note := func(op BindOp) {
		if op.Command == "" {
			delete(tables[op.Where], string(op.Key))
		} else {
			tables[op.Where][string(op.Key)] = op.Command
		}
	}
	for i := range real {
		i := i
		real[i] = &readline.GoCommand{Name: "custom" + string(rune('0'+i)), Func: func(_ context.Context, b *readline.Buffer) readline.Result {
			b.InsertAndRepaint("<" + string(rune('0'+i)) + ">")
			for _, op := range c.Does[i] {
				bind(op)
			}
			return readline.CONTINUE
		}}
	}
	resolve := func(where int, k string) string {
		if n, ok := tables[where][k]; ok {
			return n
		}
		return global[k]
	}
	for at, op := range c.Ops {
		if len(op.Keys) == 0 {
			bind(op)
			note(op)
			continue
		}
		s := &Setup{Width: 80, Default: "xy z", Cursor: 2, History: []Str{"one", "two"}, Keys: op.Keys}
		r := newRun(s)
		r.useEditor(eds[op.Where])
		m := r.model()
		m.dispatch = func(k string) bool {
			n := resolve(op.Where, k)
			if n != defaultNames[k] {
				rec.Nontrivial()
			}
			switch {
			case n == "":
				m.typed(k)
			case n[:2] == "cu":
				i := n[6] - '0'
				m.insert("<" + string(rune('0'+i)) + ">")
				for _, op := range c.Does[i] {
					note(op)
				}
				rec.Label("custom command")
			default:
				m.command(commandKeys[n])
			}
			return true
		}
		if err := r.follow(m, func(n int) error {
			ks := c22keys
			if n == 0 {
				ks = allKeys
			}
			for _, k := range ks {
				want := resolve(op.Where, k)
				if want == "" {
					want = k
				}
				if got := r.ed.LookupCommand(k).String(); got != want {
					return errf("key %q denotes %q, should denote %q", k, got, want)
				}
			}
			return nil
		}); err != nil {
			return errf("in session %d: %w", at, err)
		}
	}
	return nil
}
