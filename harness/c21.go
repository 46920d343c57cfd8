package main

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"unicode/utf8"

	"github.com/nyaosorg/go-readline-ny/completion"
	"pgregory.net/rapid"
)

// TreeEntry is a file, a directory or a symbolic link.
type TreeEntry struct {
	In   int    `json:"in"` // index of the directory it is in, -1 for the top
	Name Str    `json:"name"`
	Kind string `json:"kind"` // file, dir or link
	To   Str    `json:"to,omitempty"`
}

// C21Case is a directory tree and paths typed in it.
type C21Case struct {
	Tree   []TreeEntry `json:"tree"`
	Typed  []Str       `json:"typed"`  // ABS stands for the directory the tree is in
	After  Str         `json:"after"`  // behind the cursor
	Before bool        `json:"before"` // a word before the path
}

const absMark = "ABS"

var (
	fileChar = rapid.SampledFrom([]rune("aaabbABcあȺⱥkKKsſ.-é"))
	fileName = rapid.Custom(func(t *rapid.T) string {
		s := textOf(fileChar, 1, 4).Draw(t, "name")
		switch rapid.IntRange(0, 15).Draw(t, "odd") {
		case 11:
			s += " b"
		case 12:
			s += "&"
		case 13:
			s = strings.Repeat(s, 16)
		case 14:
			s += "\xff\xfe"
		case 15:
			s = "." + s
		}
		if s == "." || s == ".." {
			s += "a"
		}
		return s
	})
)

func genTree(t *rapid.T) []TreeEntry {
	var tree []TreeEntry
	dirs := []int{-1}
	paths := map[int]string{-1: ""}
	seen := map[string]bool{}
	for i := rapid.IntRange(0, 10).Draw(t, "entries"); i > 0; i-- {
		e := TreeEntry{In: rapid.SampledFrom(dirs).Draw(t, "in"), Name: Str(fileName.Draw(t, "name"))}
		if len(tree) > 0 && rapid.IntRange(0, 2).Draw(t, "again") == 2 {
			// names beginning like another, in other letters
			n := string(rapid.SampledFrom(tree).Draw(t, "like").Name)
			switch rapid.IntRange(0, 2).Draw(t, "case") {
			case 0:
				n = strings.ToUpper(n)
			case 1:
				n = strings.ToLower(n)
			}
			if rapid.Bool().Draw(t, "longer") {
				n += textOf(fileChar, 1, 2).Draw(t, "more")
			}
			if n == "." || n == ".." || len(n) > 200 {
				n = "x"
			}
			e.Name = Str(n)
		}
		path := paths[e.In] + string(e.Name)
		if seen[path] {
			continue
		}
		seen[path] = true
		e.Kind = rapid.SampledFrom([]string{"file", "dir", "dir", "link"}).Draw(t, "kind")
		switch e.Kind {
		case "dir":
			dirs = append(dirs, len(tree))
			paths[len(tree)] = path + "/"
		case "link":
			to := []string{"nowhere", ".", "..", string(e.Name)}
			for _, o := range tree {
				to = append(to, string(o.Name), string(o.Name))
			}
			e.To = Str(rapid.SampledFrom(to).Draw(t, "to"))
		}
		tree = append(tree, e)
	}
	return tree
}

func genC21(t *rapid.T) *C21Case {
	c := &C21Case{Tree: genTree(t)}
	names := map[int][]string{}
	for _, e := range c.Tree {
		names[e.In] = append(names[e.In], string(e.Name))
	}
	path := func(i int) string {
		s := ""
		for ; i >= 0; i = c.Tree[i].In {
			s = string(c.Tree[i].Name) + rapid.SampledFrom([]string{"/", "/", "/", "//", "/./"}).Draw(t, "slash") + s
		}
		return s
	}
	typed := rapid.Custom(func(t *rapid.T) string {
		// The directory part.
		dirs := []int{-1, -1}
		for i, e := range c.Tree {
			if e.Kind != "file" {
				dirs = append(dirs, i)
			}
		}
		d := rapid.SampledFrom(dirs).Draw(t, "dir")
		s := path(d)
		switch rapid.IntRange(0, 9).Draw(t, "spelling") {
		case 5:
			s = "./" + s
		case 6:
			s = absMark + "/" + s
		case 7:
			s = "../top/" + s
		case 8:
			if s != "" {
				s += "../"
			}
		case 9:
			s += fileName.Draw(t, "some") + "/"
		}
		// The beginning of a name.
		switch {
		case len(names[d]) > 0 && rapid.IntRange(0, 4).Draw(t, "known") > 0:
			n := []rune(strings.ToValidUTF8(rapid.SampledFrom(names[d]).Draw(t, "name"), ""))
			b := string(n[:rapid.IntRange(0, len(n)).Draw(t, "part")])
			switch rapid.IntRange(0, 4).Draw(t, "case") {
			case 3:
				b = strings.ToUpper(b)
			case 4:
				b = strings.ToLower(b)
			}
			s += b
		case rapid.Bool().Draw(t, "other"):
			s += strings.ToValidUTF8(textOf(fileChar, 0, 2).Draw(t, "begin"), "")
		}
		return s
	})
	for i := rapid.IntRange(1, 4).Draw(t, "typed"); i > 0; i-- {
		c.Typed = append(c.Typed, Str(typed.Draw(t, "path")))
	}
	c.After = Str(rapid.SampledFrom([]string{"", " x", "b"}).Draw(t, "after"))
	c.Before = rapid.Bool().Draw(t, "command before")
	return c
}

func init() {
	register(property(Prop{
		ID:       "C21",
		Rule:     "a case is a directory tree and typed paths; non-trivial when a typed path has at least one candidate",
		Profiles: []string{"wt"}, Shards: 8, Quick: 15000, Thorough: 300000,
		Fixed: fixedC21,
	}, genC21, runC21))
}

// fixedC21 are places every system has.
func fixedC21() []any {
	return []any{
		&C21Case{Typed: []Str{"/etc/", "/usr/l", "/dev/nul", "/nonexistent/", "/etc/passwd/"}},
		&C21Case{Typed: []Str{""}, Tree: []TreeEntry{{-1, "a", "dir", ""}}},
	}
}

// build makes the tree.
func (c *C21Case) build(top string) error {
	paths := make([]string, len(c.Tree))
	for i, e := range c.Tree {
		if e.In >= i {
			return fs.ErrNotExist
		}
		p := top
		if e.In >= 0 {
			p = paths[e.In]
		}
		p = p + "/" + string(e.Name)
		paths[i] = p
		var err error
		switch e.Kind {
		case "file":
			err = os.WriteFile(p, []byte{byte(i)}, 0o600)
		case "dir":
			err = os.Mkdir(p, 0o700)
		case "link":
			err = os.Symlink(string(e.To), p)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// snapshot describes everything below a directory.
func snapshot(top string) (string, error) {
	var b strings.Builder
	err := filepath.WalkDir(top, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		fi, err := d.Info()
		if err != nil {
			return err
		}
		fmt.Fprintf(&b, "%q %v %d %d\n", p, fi.Mode(), fi.Size(), fi.ModTime().UnixNano())
		return nil
	})
	return b.String(), err
}

// offers is what has to be offered for a path.
func offers(typed string) (full []string) {
	dir, base := "", typed
	if i := strings.LastIndexByte(typed, '/'); i >= 0 {
		dir, base = typed[:i+1], typed[i+1:]
	}
	read := func(dir, base string) []string {
		where := dir
		if where == "" {
			where = "."
		}
		f, err := os.Open(where)
		if err != nil {
			return nil
		}
		defer f.Close()
		names, _ := f.Readdirnames(-1)
		var out []string
		for _, n := range names {
			if foldCommon(n, base) != len([]rune(base)) {
				continue
			}
			if fi, err := os.Stat(dir + n); err == nil && fi.IsDir() {
				n += "/"
			}
			out = append(out, dir+n)
		}
		return out
	}
	full = read(dir, base)
	if len(full) == 1 && strings.HasSuffix(full[0], "/") {
		full = append(full, read(full[0], "")...)
	}
	return full
}

func runC21(c *C21Case, rec *Rec) error {
	// Directories of its own around the top, which links can lead to.
	outer, err := os.MkdirTemp(scratchDir, "tree")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(outer)
	top := filepath.Join(outer, "1", "2", "3", "top")
	if err := os.MkdirAll(top, 0o700); err != nil {
		fatal(err)
	}
	if err := c.build(top); err != nil {
		for _, bad := range []error{fs.ErrExist, fs.ErrNotExist, syscall.ENOTDIR, syscall.EISDIR, syscall.EINVAL} {
			if errors.Is(err, bad) {
				return nil // two entries have one name, or none, or are in a file
			}
		}
		fatal(err)
	}
	if err := os.Chdir(top); err != nil {
		fatal(err)
	}
	defer os.Chdir("/")
	before, err := snapshot(top)
	if err != nil {
		fatal(err)
	}
	for _, t := range c.Typed {
		typed := strings.Replace(string(t), absMark, top, 1)
		if err := c.try(typed, rec); err != nil {
			return fmt.Errorf("typed %q: %w", t, err)
		}
	}
	after, err := snapshot(top)
	if err != nil {
		fatal(err)
	}
	if before != after {
		return errf("the directory tree was changed from\n%sto\n%s", before, after)
	}
	return nil
}

func (c *C21Case) try(typed string, rec *Rec) error {
	want := offers(typed)
	rec.Label("%d candidates", min(len(want), 3))
	if len(want) > 0 {
		rec.Nontrivial()
	}
	full, base := completion.File{}.List([]string{"command", typed})
	if len(full) != len(base) {
		return errf("%d candidates have %d names", len(full), len(base))
	}
	for i := range full {
		name := strings.TrimSuffix(full[i], "/")
		name = full[i][strings.LastIndexByte(name, '/')+1:]
		if base[i] != name {
			return errf("the name of %q is %q, should be %q", full[i], base[i], name)
		}
	}
	full = append([]string{}, full...)
	sort.Strings(full)
	sort.Strings(want)
	if !equalStrings(full, want) {
		return errf("the candidates are %q, should be %q", full, want)
	}

	// The same in a line being edited, which cannot have bytes that are no text.
	if !utf8.ValidString(typed) {
		return nil
	}
	lc := &C19Case{Enclosures: `"'`, Delimiters: "&|><;", Postfix: "$"}
	for _, w := range want {
		lc.Full = append(lc.Full, Str(w))
	}
	line := typed
	if strings.ContainsAny(typed, " &") {
		line = `"` + typed
	}
	if c.Before || line == "" {
		line = "command " + line
	}
	lc.Setup = Setup{Width: 400, Default: Str(line) + c.After, Cursor: len(segment(line)), Keys: []Str{cmdKey}}
	r := newRun(&lc.Setup)
	m := r.model()
	r.ed.BindKey(cmdKey, completion.CmdCompletion{Completion: completion.File{}, Postfix: "$"})
	l := &lister{c: lc}
	var bad error
	m.custom = map[string]func(){cmdKey: func() {
		_, word, _ := completionWord(m, `"'`, "&|><;")
		l.asked = completionFields(m, `"'`, "&|><;")
		if word == "" {
			l.asked = append(l.asked, word)
		}
		_, bad = lc.expect(r, m, l, &Rec{})
	}}
	return r.follow(m, func(int) error { return bad })
}
