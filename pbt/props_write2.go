package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/signal"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// lostComment tells whether a comment has no owner in the written form: the one
// of a default section without a header. (Nor has a deleted default section an
// absence: a load makes it again, and a header shows it.)
func lostComment(m *MFile, f format) bool {
	if len(m.Secs) == 0 || m.Secs[0].Name != m.secName(ini.DefaultSection) {
		return f.Header
	}
	if m.Secs[0].Comment == "" {
		return false
	}
	return !f.Header || m.O.AllowNonUniqueSections
}

// layoutCase is a plain file whose exact written form is known.
type layoutCase struct {
	O      Opts
	Secs   []layoutSec
	F      format
	Delim  S
	Indent S
}

type layoutSec struct {
	Name    string
	Comment S `json:",omitempty"`
	Keys    []layoutKey
}

type layoutKey struct {
	Name, Val string
	Comment   S `json:",omitempty"`
}

// text is the written form the settings document. The default section is the
// first one.
func (d layoutCase) text() string {
	lb := string(d.F.LineBreak)
	eq := string(d.F.Left) + string(d.Delim) + string(d.F.Right)
	if d.F.Pretty || d.F.Equal {
		eq = " " + string(d.Delim) + " "
	}
	var b strings.Builder
	comment := func(indent string, c S) {
		if c != "" {
			b.WriteString(indent + writtenComment(string(c)) + lb)
		}
	}
	for i, s := range d.Secs {
		indent := string(d.Indent)
		if i == 0 {
			indent = ""
		}
		comment("", s.Comment)
		if i > 0 || d.F.Header && !d.O.AllowNonUniqueSections {
			name := s.Name
			if d.O.Insensitive || d.O.InsensitiveSections {
				name = strings.ToLower(name)
			}
			b.WriteString("[" + name + "]" + lb)
		} else if len(s.Keys) == 0 {
			continue
		}
		w := 0
		for _, k := range s.Keys {
			if d.F.Pretty && len(k.Name) > w {
				w = len(k.Name)
			}
		}
		for _, k := range s.Keys {
			pad := ""
			if d.F.Pretty {
				pad = strings.Repeat(" ", w-len(k.Name))
			}
			comment(indent, k.Comment)
			b.WriteString(indent + k.Name + pad + eq + k.Val + lb)
		}
		if d.F.Section && i < len(d.Secs)-1 {
			b.WriteString(lb)
		}
	}
	return b.String()
}

func genLayout(t *rapid.T) layoutCase {
	d := layoutCase{F: genFormat(t, nil), Delim: pick(t, S("="), S(":")), Indent: pick(t, S(""), S("  "), S("\t"))}
	switch intn(t, 8) {
	case 0:
		d.O.Insensitive = true
	case 1:
		d.O.InsensitiveSections = true
	case 2:
		d.O.InsensitiveKeys = true
	}
	d.O.AllowNonUniqueSections = chance(t, 15)
	names := []string{curDefault, "b", "c", "a.b", "server", "DEFAULT", "Sec"}
	for i, n := range names {
		if i > 0 && (strings.EqualFold(n, curDefault) || chance(t, 40)) {
			continue
		}
		s := layoutSec{Name: n}
		if i > 0 {
			s.Comment = layoutComment(t)
		}
		for _, k := range []string{"a", "bb", "key", "longer_name", "x1"} {
			if chance(t, 50) {
				s.Keys = append(s.Keys, layoutKey{k, pick(t, "v", "", "1", "one two", "a/b"), layoutComment(t)})
			}
		}
		d.Secs = append(d.Secs, s)
	}
	return d
}

func layoutComment(t *rapid.T) S {
	if !chance(t, 20) {
		return ""
	}
	return S(pick(t, "#", ";", "", "# ", "; ") + pick(t, "c", "two words", "k = v"))
}

func checkLayout(c *Ctx, d layoutCase) error {
	d.O.KeyValueDelimiterOnWrite = d.Delim
	f := ini.Empty(d.O.ini())
	n := 0
	for _, s := range d.Secs {
		// the default section is there
		sec := f.Section(s.Name)
		sec.Comment = string(s.Comment)
		for _, k := range s.Keys {
			n++
			key, err := sec.NewKey(k.Name, k.Val)
			if err != nil {
				return err
			}
			key.Comment = string(k.Comment)
		}
	}
	c.NonTrivial(n >= 2)
	got, err := render(f, d.F, string(d.Indent))
	if err != nil {
		return err
	}
	if want := d.text(); got != want {
		return fmt.Errorf("%+v: wrote %q, want %q", d.F, got, want)
	}
	return nil
}

// aligned checks that the delimiters of a section are in one column.
func aligned(text string, m *MFile, indent string) error {
	delim := string(m.O.KeyValueDelimiterOnWrite)
	if delim == "" {
		delim = "="
	}
	lines := strings.Split(normCRLF(text), "\n")
	at := 0
	for si, s := range m.Secs {
		if s.Raw {
			return nil // its lines are not ours to read
		}
		// find the header
		if si > 0 {
			for at < len(lines) && lines[at] != "["+s.Name+"]" {
				at++
			}
			if at == len(lines) {
				return fmt.Errorf("header of section %q not found in %s", s.Name, abbrev(text))
			}
			at++
		}
		col := -1
		for _, k := range s.Keys {
			name := k.Name
			if k.Auto {
				name = "-"
			}
			for n := max(1, len(k.all())); n > 0; n-- {
				if k.Bool && (len(k.all()) == 0 || k.all()[0] == "true") {
					break
				}
				found := false
				for ; at < len(lines) && !found; at++ {
					l := strings.TrimPrefix(lines[at], indent)
					for _, form := range []string{name, "`" + name + "`", `"` + name + `"`, `"""` + name + `"""`} {
						rest, ok := strings.CutPrefix(l, form)
						if !ok || strings.IndexAny(l, "#;") == 0 { // a comment line
							continue
						}
						sp := strings.TrimLeft(rest, " ")
						if !strings.HasPrefix(sp, delim) {
							continue
						}
						found = true
						// relative to the name: the indent is not written for every line
						c := len(form) + len(rest) - len(sp)
						if col == -1 {
							col = c
						} else if col != c {
							return fmt.Errorf("section %q: delimiter of %q in column %d, before in column %d\nwritten: %s", s.Name, k.Name, c, col, abbrev(text))
						}
						break
					}
				}
				if !found {
					return fmt.Errorf("line of key %q not found\nwritten: %s", k.Name, abbrev(text))
				}
			}
		}
	}
	return nil
}

func singleLine(m *MFile) bool {
	for _, s := range m.Secs {
		if s.Raw {
			return false
		}
		for _, k := range s.Keys {
			if len(k.Nested) > 0 || k.Bool {
				return false
			}
			for _, v := range append([]string{k.Val}, k.Shadows...) {
				if strings.Contains(v, "\n") {
					return false
				}
			}
		}
	}
	return true
}

func init() {
	register("C09",
		"a case is non-trivial when the two settings differ and the file has at least two keys and one special name, value or kind of key (formats), or at least two keys (layout)",
		sub[fileCase]{name: "formats", quick: 60000, thoro: 2500000,
			gen: func(t *rapid.T) fileCase { return genFile(t, chance(t, 40)) },
			check: func(c *Ctx, d fileCase) error {
				x, err := d.build()
				if err != nil {
					return err
				}
				labelFile(c, x.m)
				if why := unwritable(x.m, d.F, string(d.Indent)); why != "" {
					c.Exclude(why)
					return nil
				}
				c.NonTrivial(fileNonTrivial(x.m) && d.F != d.F2)
				var outs [2]string
				for i, fm := range []format{d.F, d.F2} {
					indent := ""
					if i == 0 {
						indent = string(d.Indent)
					}
					text, err := render(x.f, fm, indent)
					if err != nil {
						return err
					}
					outs[i] = text
					if err := sameData(text, x.m, cmp{noComments: true}); err != nil {
						return fmt.Errorf("%+v: %v", fm, err)
					}
					if fm.Pretty && singleLine(x.m) {
						c.Label(true, "alignment-checked")
						if err := aligned(text, x.m, indent); err != nil {
							return err
						}
					}
					if !lostComment(x.m, fm) {
						g, err := load(d.O, text)
						if err != nil {
							return err
						}
						again, err := render(g, fm, indent)
						if err != nil {
							return err
						}
						if again != text {
							return fmt.Errorf("%+v: not normalised: wrote %s, reloaded and wrote %s", fm, abbrev(text), abbrev(again))
						}
					}
				}
				// a default rendering of either reload is the same text
				if !lostComment(x.m, d.F) && !lostComment(x.m, d.F2) && d.F.LineBreak == d.F2.LineBreak {
					var norm [2]string
					for i := range outs {
						g, err := load(d.O, outs[i])
						if err != nil {
							return err
						}
						if norm[i], err = render(g, d.F, ""); err != nil {
							return err
						}
					}
					if norm[0] != norm[1] {
						return fmt.Errorf("renderings differ once reloaded: %s and %s", abbrev(norm[0]), abbrev(norm[1]))
					}
				}
				return nil
			}},
		sub[layoutCase]{name: "layout", quick: 15000, thoro: 500000, gen: genLayout, check: checkLayout},
	)

	// --- C10 ------------------------------------------------------------------
	register("C10",
		"a case is non-trivial when at least two sections or keys have a comment (attach, soup, roundtrip), or something is repeated 30 times or more or longer than 1 MiB (long)",
		sub[docCase]{name: "attach", quick: 70000, thoro: 3000000,
			gen: func(t *rapid.T) docCase {
				var o Opts
				if chance(t, 40) {
					valueOpts(t, &o, 20)
				}
				if chance(t, 40) {
					structOpts(t, &o, 20)
				}
				cf := stdConf(t)
				cf.comments = pick(t, 50, 30, 70)
				return genDoc(t, o, cf, docItems(t))
			},
			check: func(c *Ctx, d docCase) error {
				d.labels(c)
				c.NonTrivial(comments(d.Want) >= 2)
				return checkDoc(d, cmp{})
			}},
		longDocs(400, 15000, cmp{}, func(t *rapid.T) (o Opts) {
			valueOpts(t, &o, 15)
			return o
		}),
		sub[soupCase]{name: "soup", quick: 40000, thoro: 1500000,
			gen: func(t *rapid.T) soupCase {
				var o Opts
				if chance(t, 40) {
					valueOpts(t, &o, 20)
				}
				o.SkipUnrecognizableLines = true
				return soupCase{O: o, Src: []S{S(soup(t, 7, 4))}}
			},
			check: func(c *Ctx, d soupCase) error {
				if m, e := refLoad(d.O, strs(d.Src)...); e == "" {
					c.NonTrivial(comments(m.snap()) >= 2)
				}
				return checkSoup(c, d, cmp{})
			}},
		sub[fileCase]{name: "roundtrip", quick: 60000, thoro: 2500000,
			gen: func(t *rapid.T) fileCase { return genFile(t, true) },
			check: func(c *Ctx, d fileCase) error {
				x, err := d.build()
				if err != nil {
					return err
				}
				if why := unwritable(x.m, d.F, string(d.Indent)); why != "" {
					c.Exclude(why)
					return nil
				}
				if lostComment(x.m, d.F) {
					c.Exclude("comment of the default section without header")
					return nil
				}
				c.NonTrivial(comments(x.m.snap()) >= 2)
				text, err := render(x.f, d.F, string(d.Indent))
				if err != nil {
					return err
				}
				return sameData(text, x.m, cmp{normComment: true})
			}},
	)

	// --- C11 ------------------------------------------------------------------
	register("C11",
		"a case is non-trivial when the output is longer than 20 bytes, and for faults when the failure hits before the end of the output",
		sub[fileCase]{name: "pure", quick: 30000, thoro: 1200000,
			gen:   func(t *rapid.T) fileCase { return genFile(t, chance(t, 50)) },
			check: checkPure},
		sub[writeFault]{name: "faults", quick: 40000, thoro: 1500000,
			gen: func(t *rapid.T) writeFault {
				w := writeFault{File: genFile(t, chance(t, 30)), Mode: pick(t, "error", "short", "error-late", "save-missing-dir", "save-on-dir", "save-limited")}
				w.After = pick(t, intn(t, 40), intn(t, 400), 0)
				if chance(t, 50) {
					w.Err = intn(t, len(injectedErrors))
				}
				return w
			},
			check: checkWriteFault},
	)
}

func comments(s Snap) int {
	n := 0
	for _, x := range s {
		if x.Comment != "" {
			n++
		}
		for _, k := range x.Keys {
			if k.Comment != "" {
				n++
			}
		}
	}
	return n
}

func checkPure(c *Ctx, d fileCase) error {
	x, err := d.build()
	if err != nil {
		return err
	}
	if err := x.agree(); err != nil {
		return err
	}
	d.F.set()
	defer resetGlobals()
	indent := string(d.Indent)
	var b1, b2, b3, b4 bytes.Buffer
	n1, err := x.f.WriteTo(&b1)
	if err != nil {
		return err
	}
	n2, err := x.f.WriteToIndent(&b2, indent)
	if err != nil {
		return err
	}
	if _, err := x.f.WriteTo(&b3); err != nil {
		return err
	}
	if _, err := x.f.WriteToIndent(&b4, indent); err != nil {
		return err
	}
	c.NonTrivial(b1.Len() > 20)
	if n1 != int64(b1.Len()) || n2 != int64(b2.Len()) {
		return fmt.Errorf("counts %d, %d for %d, %d bytes", n1, n2, b1.Len(), b2.Len())
	}
	if !bytes.Equal(b1.Bytes(), b3.Bytes()) || !bytes.Equal(b2.Bytes(), b4.Bytes()) {
		return fmt.Errorf("two writes of the same state differ")
	}
	if indent == "" && !bytes.Equal(b1.Bytes(), b2.Bytes()) {
		return fmt.Errorf("WriteTo and WriteToIndent without indent differ")
	}
	// What goes on while the writer is called does not matter.
	other, err := ini.Load([]byte("; other\nother = file\n[x" + strings.Repeat("x", b1.Len()/2) + "]\n"))
	if err != nil {
		return err
	}
	busy := &busyWriter{other: other}
	if _, err := x.f.WriteTo(busy); err != nil {
		return err
	}
	if !bytes.Equal(busy.got.Bytes(), b1.Bytes()) {
		return fmt.Errorf("a writer that writes another file gets %s, other writers get %s", abbrev(busy.got.String()), abbrev(b1.String()))
	}
	// the target has other content before
	dir := filepath.Join(scratchDir(), "save")
	neighbours, err := layOut(dir)
	if err != nil {
		fatal("%v", err)
	}
	name := filepath.Join(dir, "save.ini")
	for i, ind := range []string{"", indent} {
		want := [][]byte{b1.Bytes(), b2.Bytes()}[i]
		_ = os.Remove(name)
		target := name
		linked := (len(d.Ops)+b1.Len()/5+i)%4 == 0
		if linked { // the name is a link to a file in another directory
			target = filepath.Join(scratchDir(), "linked.ini")
			_ = os.Remove(target)
			if err := os.Symlink(target, name); err != nil {
				fatal("%v", err)
			}
		}
		var old []byte
		switch (len(d.Ops) + b1.Len() + i) % 5 {
		case 0: // no file
		case 1:
			old = []byte{}
		case 2:
			old = bytes.Repeat([]byte("old content\n"), 1+len(want)/5)
		case 3: // a change that keeps the length
			old = append([]byte{}, want...)
			for j := range old {
				if j >= len(old)/2 {
					old[j] ^= 1
				}
			}
		case 4: // the beginning is there
			old = append([]byte{}, want[:len(want)/2]...)
		}
		if old != nil {
			if err := os.WriteFile(target, old, 0o600); err != nil {
				fatal("%v", err)
			}
		}
		if ind == "" {
			err = x.f.SaveTo(name)
		} else {
			err = x.f.SaveToIndent(name, ind)
		}
		if err != nil {
			return fmt.Errorf("SaveTo: %v", err)
		}
		got, err := os.ReadFile(target)
		if err != nil {
			return fmt.Errorf("saved file: %v", err)
		}
		if !bytes.Equal(got, want) {
			return fmt.Errorf("SaveTo stored %s, WriteTo gave %s", abbrev(string(got)), abbrev(string(want)))
		}
		if st, err := os.Lstat(target); err != nil || old != nil && st.Mode() != 0o600 {
			return fmt.Errorf("the saved file has the mode %v (%v), had -rw-------", st.Mode(), err)
		}
		if l, err := os.Readlink(name); linked && (err != nil || l != target) {
			return fmt.Errorf("SaveTo replaced a link (%v)", err)
		}
		if err := neighbours(); err != nil {
			return fmt.Errorf("SaveTo: %v", err)
		}
	}
	if err := x.agree(); err != nil {
		return fmt.Errorf("after writing: %v", err)
	}
	return nil
}

// busyWriter writes another file whenever it is to take something.
type busyWriter struct {
	other *ini.File
	got   bytes.Buffer
}

func (w *busyWriter) Write(p []byte) (int, error) {
	if _, err := w.other.WriteTo(io.Discard); err != nil {
		return 0, err
	}
	return w.got.Write(p)
}

// layOut makes a directory hold some files and no others. The returned function
// tells whether it still does, apart from save.ini.
func layOut(dir string) (func() error, error) {
	names := []string{".save.ini", ".save.ini.swp", ".save.ini.tmp", "save", "save.bak", "save.ini.bak", "save.ini.lock", "save.ini.new", "save.ini.old", "save.ini.tmp", "save.ini~", "save.tmp"}
	check := func() error {
		l, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		i := 0
		for _, e := range l {
			if e.Name() == "save.ini" {
				continue
			}
			if i == len(names) || e.Name() > names[i] {
				break
			}
			if e.Name() < names[i] {
				return fmt.Errorf("left the file %q behind", e.Name())
			}
			i++
			if b, err := os.ReadFile(filepath.Join(dir, e.Name())); err != nil || string(b) != e.Name() {
				return fmt.Errorf("changed the file %q next to the target", e.Name())
			}
		}
		if i < len(names) {
			return fmt.Errorf("removed the file %q next to the target", names[i])
		}
		if n := len(l); n > len(names)+1 {
			return fmt.Errorf("left the file %q behind", l[n-1].Name())
		}
		return nil
	}
	if check() == nil {
		return check, nil
	}
	if err := os.RemoveAll(dir); err != nil {
		return nil, err
	}
	if err := os.Mkdir(dir, 0o755); err != nil {
		return nil, err
	}
	for _, n := range names {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(n), 0o600); err != nil {
			return nil, err
		}
	}
	return check, nil
}

type writeFault struct {
	File  fileCase
	Mode  string
	After int
	Err   int // which error
}

// faultyWriter takes a limited number of bytes.
type faultyWriter struct {
	left  int
	short bool
	got   bytes.Buffer
	late  bool
	err   error
}

func (w *faultyWriter) Write(p []byte) (int, error) {
	if len(p) <= w.left {
		w.got.Write(p)
		w.left -= len(p)
		return len(p), nil
	}
	n := w.left
	w.got.Write(p[:n])
	w.left = 0
	if w.short {
		return n, nil
	}
	if w.late {
		w.got.Write(p[n:])
		return len(p), w.err
	}
	return n, w.err
}

// withFileLimit runs fn while no file of this process can grow beyond n bytes.
func withFileLimit(n int, fn func() error) error {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		fatal("%v", err)
	}
	now := old
	now.Cur = uint64(n)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &now); err != nil {
		fatal("%v", err)
	}
	defer func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			fatal("%v", err)
		}
	}()
	return fn()
}

func checkWriteFault(c *Ctx, d writeFault) error {
	x, err := d.File.build()
	if err != nil {
		return err
	}
	c.Label(true, d.Mode)
	d.File.F.set()
	defer resetGlobals()
	var full bytes.Buffer
	if _, err := x.f.WriteTo(&full); err != nil {
		return err
	}
	switch d.Mode {
	case "error", "short", "error-late":
		if d.After >= full.Len() {
			w := &faultyWriter{left: d.After}
			n, err := x.f.WriteTo(w)
			if err != nil || n != int64(full.Len()) {
				return fmt.Errorf("writer that takes everything: %d, %v", n, err)
			}
			return nil
		}
		c.NonTrivial(full.Len() > 20)
		fail := injectedErrors[d.Err%len(injectedErrors)]
		for i := 0; i < 2; i++ {
			w := &faultyWriter{left: d.After, short: d.Mode == "short", late: d.Mode == "error-late", err: fail}
			var n int64
			if i == 0 {
				n, err = x.f.WriteTo(w)
			} else {
				n, err = x.f.WriteToIndent(w, "")
			}
			if err == nil {
				return fmt.Errorf("%s after %d of %d bytes: no error", d.Mode, d.After, full.Len())
			}
			if d.Mode != "short" && !errors.Is(err, fail) {
				return fmt.Errorf("the writer's error became %v", err)
			}
			if d.Mode == "short" && !errors.Is(err, io.ErrShortWrite) {
				return fmt.Errorf("short write reported as %v", err)
			}
			if n != int64(w.got.Len()) {
				return fmt.Errorf("count %d, delivered %d", n, w.got.Len())
			}
			if !bytes.HasPrefix(full.Bytes(), w.got.Bytes()) {
				return fmt.Errorf("delivered bytes are no beginning of the output")
			}
		}
	case "save-missing-dir":
		c.NonTrivial(full.Len() > 20)
		if err := x.f.SaveTo(filepath.Join(scratchDir(), "no-such-dir", "x.ini")); err == nil {
			return fmt.Errorf("SaveTo below a missing directory: no error")
		}
	case "save-on-dir":
		c.NonTrivial(full.Len() > 20)
		dir := filepath.Join(scratchDir(), "dir")
		_ = os.MkdirAll(dir, 0o755)
		if err := x.f.SaveTo(dir); err == nil {
			return fmt.Errorf("SaveTo on a directory: no error")
		}
		if err := x.f.SaveToIndent(dir, " "); err == nil {
			return fmt.Errorf("SaveToIndent on a directory: no error")
		}
	case "save-limited":
		// The file cannot grow beyond some size: the real write fails, inside the
		// scratch directory.
		if d.After >= full.Len() {
			c.Exclude("nothing beyond the limit")
			return nil
		}
		c.NonTrivial(full.Len() > 20)
		target := filepath.Join(scratchDir(), "limited.ini")
		if err := withFileLimit(d.After, func() error { return x.f.SaveTo(target) }); err == nil {
			return fmt.Errorf("SaveTo with room for %d of %d bytes: no error", d.After, full.Len())
		}
		if err := withFileLimit(d.After, func() error { return x.f.SaveToIndent(target, "") }); err == nil {
			return fmt.Errorf("SaveToIndent with room for %d of %d bytes: no error", d.After, full.Len())
		}
	}
	if err := x.agree(); err != nil {
		return fmt.Errorf("after a failed write: %v", err)
	}
	return nil
}
