package main

import (
	"fmt"
	"sort"
	"strings"

	readline "github.com/nyaosorg/go-readline-ny"
	"github.com/nyaosorg/go-readline-ny/keys"
	"github.com/nyaosorg/go-readline-ny/nameutils"
	"pgregory.net/rapid"
)

// C23Case is a key name, a command name and what is done with them.
type C23Case struct {
	Key     string `json:"key"`
	Command string `json:"command"`
	Global  bool   `json:"global"`           // bind in the global table
	Custom  bool   `json:"custom"`           // bind a command of one's own by the key name
	Before  []Str  `json:"before"`           // keys pressed before the key
	Beyond  bool   `json:"beyond,omitempty"` // a function key beyond those of a keyboard
}

// keyCodes is what each key name means.
var keyCodes = func() map[string]string {
	m := map[string]string{
		"BACKSPACE": "\x7f", "CLEAR": "\x0c", "CTRL": "\x11", "CTRL_BREAK": "\x03", "PAUSE": "\x13",
		"ENTER": "\r", "ESCAPE": "\x1b",
		"UP": "\x1b[A", "DOWN": "\x1b[B", "RIGHT": "\x1b[C", "LEFT": "\x1b[D",
		"C_UP": "\x1b[1;5A", "CTRL_DOWN": "\x1b[1;5B", "C_RIGHT": "\x1b[1;5C", "C_LEFT": "\x1b[1;5D",
		"HOME": "\x1b[H", "END": "\x1b[F", "DELETE": "\x1b[3~", "PAGEUP": "\x1b[5~", "PAGEDOWN": "\x1b[6~",
		"C_[": "\x1b", "C_\\": "\x1c", "C_]": "\x1d", "C_^": "\x1e", "C_UNDERBAR": "\x1f",
		"M_BACKSPACE": "\x1b\b", "M_OEM_2": "\x1b/",
		"F1": "\x1b[OP", "F2": "\x1b[OQ", "F3": "\x1b[OR", "F4": "\x1b[OS",
		"F5": "\x1b[15~", "F6": "\x1b[16~", "F7": "\x1b[17~", "F8": "\x1b[18~", "F9": "\x1b[20~",
		"F10": "\x1b[21~", "F11": "\x1b[23~", "F12": "\x1b[24~",
	}
	for c := 'A'; c <= 'Z'; c++ {
		m["C_"+string(c)] = string(c - '@')
		m["M_"+string(c)] = "\x1b" + strings.ToLower(string(c))
	}
	return m
}()

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var (
	keyNames     = sortedKeys(keyCodes)
	commandNames = sortedKeys(commandKeys)
)

// spell writes a name in letters of any case, with hyphens or underscores.
func spell(t *rapid.T, name string) string {
	var b strings.Builder
	mode := rapid.IntRange(0, 3).Draw(t, "spelling")
	for _, c := range name {
		s := string(c)
		odd := mode == 1 || (mode == 3 && rapid.Bool().Draw(t, "odd"))
		if odd {
			s = strings.ToLower(s)
		}
		if c == '_' && (mode == 2 || odd) {
			s = "-"
		}
		b.WriteString(s)
	}
	return b.String()
}

func init() {
	p := property(Prop{
		ID:       "C23",
		Rule:     "a case is a spelling of a key name and of a command name, some of them unknown; non-trivial when both are known",
		Profiles: []string{"plain"}, Shards: 8, Quick: 6000, Thorough: 100000,
	}, func(t *rapid.T) *C23Case {
		name := func(names []string, label string) string {
			n := spell(t, rapid.SampledFrom(names).Draw(t, label))
			switch rapid.IntRange(0, 9).Draw(t, "unknown") {
			case 8:
				n += rapid.SampledFrom([]string{"X", " ", "_", "-", "1", "\x00"}).Draw(t, "more")
			case 9:
				n = rapid.StringOfN(rapid.SampledFrom([]rune("CMFA_- 1あ")), 0, 4, -1).Draw(t, "odd")
			}
			return n
		}
		return &C23Case{
			Key: name(keyNames, "key"), Command: name(commandNames, "command"),
			Global: rapid.Bool().Draw(t, "global"), Custom: rapid.IntRange(0, 3).Draw(t, "custom") == 3,
			Before: rapid.SliceOfN(rapid.SampledFrom([]Str{"a", " ", "b", kLeft, kHome, kEnd}), 0, 5).Draw(t, "before"),
		}
	}, runC23)
	p.Fixed = func() []any {
		var cs []any
		for _, k := range keyNames {
			cs = append(cs, &C23Case{Key: k, Command: "KILL_WHOLE_LINE"})
		}
		// Their codes are not judged, only that the names are known.
		for i := 13; i <= 24; i++ {
			cs = append(cs, &C23Case{Key: fmt.Sprintf("F%d", i), Command: "KILL_WHOLE_LINE", Beyond: true})
		}
		for _, c := range commandNames {
			cs = append(cs, &C23Case{Key: "C_O", Command: c, Before: []Str{"a", " ", "b", kLeft}})
		}
		return cs
	}
	register(p)
}

func normal(name string) string {
	return strings.ReplaceAll(strings.ToUpper(name), "-", "_")
}

func runC23(c *C23Case, rec *Rec) (err error) {
	if c.Beyond {
		return nameutils.BindKeySymbol(new(readline.KeyMap), c.Key, c.Command)
	}
	code, keyKnown := keyCodes[normal(c.Key)]
	def, commandKnown := commandKeys[normal(c.Command)]
	if !keyKnown && keys.NameToCode[normal(c.Key)] != "" {
		return nil // a function key beyond those of a keyboard
	}
	if keyKnown && commandKnown {
		rec.Nontrivial()
	}
	rec.Label("known key: %v, known command: %v", keyKnown, commandKnown)
	if f, err := nameutils.GetFunc(c.Command); (err == nil) != commandKnown || (err == nil && f.String() != normal(c.Command)) {
		return errf("the command name %q denotes %v, error %v", c.Command, f, err)
	}
	if got, ok := keys.NameToCode[keys.NormalizeName(c.Key)]; ok != keyKnown || string(got) != code {
		return errf("the key name %q denotes %q, should denote %q", c.Key, got, code)
	}
	var f readline.Command
	if c.Custom {
		f = &readline.GoCommand{Name: "custom"}
		def, commandKnown = "", true
	}
	s := &Setup{Width: 80, Default: "xy z", Cursor: 2, History: []Str{"one", "two"}, Clip: "clip", Keys: append([]Str{}, c.Before...)}
	if keyKnown {
		s.Keys = append(s.Keys, Str(code), "c")
	}
	const accept = "\x1b[995~" // Enter may be bound to something else
	s.Keys = append(s.Keys, "d", kUndo, kEnter, accept, accept)
	r := newRun(s)
	r.ed.BindKey(accept, readline.CmdAcceptLine)
	table := &r.ed.KeyMap
	if c.Global {
		table = readline.GlobalKeyMap
		old := map[string]readline.Command{}
		for _, k := range sortedKeys(defaultNames) {
			old[k], _ = table.Lookup(keys.Code(k))
		}
		was, had := table.Lookup(keys.Code(code))
		defer func() {
			if keyKnown {
				table.BindKey(keys.Code(code), was)
			}
			for k, f := range old {
				if g, ok := table.Lookup(keys.Code(k)); (!ok || g != f) && err == nil {
					err = errf("binding %q to %q changed the binding of %q", c.Key, c.Command, k)
				}
			}
			if g, ok := table.Lookup(keys.Code(code)); (ok != had || g != was) && keyKnown && err == nil {
				err = errf("removing the binding of %q again did not work", c.Key)
			}
		}()
	}
	if c.Custom {
		err = nameutils.BindKeyFunc(table, c.Key, f)
	} else {
		err = nameutils.BindKeySymbol(table, c.Key, c.Command)
	}
	if ok := keyKnown && commandKnown; (err == nil) != ok {
		return errf("binding %q to %q reported error %v", c.Key, c.Command, err)
	}
	m := r.model()
	bound := err == nil
	m.dispatch = func(k string) bool {
		switch {
		case k == accept:
			m.command(kEnter)
		case !bound || k != code:
			return false
		case !c.Custom:
			m.command(def)
		}
		return true
	}
	return r.follow(m, nil)
}
