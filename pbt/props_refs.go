package main

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// refCase is a file of keys with references and edits of it.
type refCase struct {
	O      Opts
	Load   bool // read as a document instead of built through the API
	Secs   []refSec
	Mapper int `json:",omitempty"`
	Edits  []refEdit
	NoDef  bool `json:",omitempty"` // the default section is deleted
}

type refSec struct {
	Name S
	Keys []twinKey
}

// refEdit changes one key between evaluations.
type refEdit struct {
	Op            string
	Sec, Key, Val S
}

var refMappers = []func(string) string{
	nil,
	func(s string) string { return strings.ReplaceAll(s, "$a", "%(a)s") },
	strings.ToUpper,
	func(s string) string { return "<" + s + ">" },
	func(s string) string { return strings.ReplaceAll(s, "%(a)s", "A") },
	func(s string) string { return "" },
}

// model is the file the case describes, without the edits.
func (d refCase) model() *MFile {
	m := &MFile{O: d.O}
	m.section("")
	for _, s := range d.Secs {
		ms := m.section("")
		if s.Name != "" {
			ms = m.newSection(string(s.Name))
		}
		for _, k := range s.Keys {
			m.newKey(ms, string(k.Name), string(k.Val))
		}
	}
	if d.NoDef {
		for len(m.byName("")) > 0 {
			m.deleteAt("", 0)
		}
	}
	return m
}

// edit applies one edit to the model and returns the key it was made on.
func (e refEdit) apply(m *MFile) {
	s := m.first(string(e.Sec))
	if s == nil {
		return
	}
	switch e.Op {
	case "set":
		if k := s.find(m.keyName(string(e.Key))); k != nil {
			k.Val = string(e.Val)
		} else {
			m.newKey(s, string(e.Key), string(e.Val))
		}
	case "delete":
		for i, k := range s.Keys {
			if k.Name == m.keyName(string(e.Key)) {
				s.Keys = append(append([]*MKey{}, s.Keys[:i]...), s.Keys[i+1:]...)
				return
			}
		}
	}
}

func (e refEdit) applyFile(f *ini.File) error {
	s, err := f.GetSection(string(e.Sec))
	if err != nil {
		return nil
	}
	switch e.Op {
	case "set":
		for _, k := range s.Keys() {
			if own, err := s.GetKey(string(e.Key)); err == nil && own == k {
				k.SetValue(string(e.Val))
				return nil
			}
		}
		_, err = s.NewKey(string(e.Key), string(e.Val))
		return err
	case "delete":
		s.DeleteKey(string(e.Key))
	}
	return nil
}

// blowsUp names a key whose expansion grows without limit.
func (d refCase) blowsUp(m *MFile) *MKey {
	f := refMappers[d.Mapper]
	for _, s := range m.Secs {
		for _, k := range s.Keys {
			v := k.Val
			if f != nil {
				v = f(v)
			}
			if _, _, _, ok := m.expand(s, k, v, expandCap); !ok {
				return k
			}
		}
	}
	return nil
}

func refFragment(t *rapid.T, names []string, odd bool) string {
	ref := func(n string) string { return "%(" + n + ")s" }
	if odd && chance(t, 30) {
		return pick(t, "%(a", "%(a)", "%()s", "%%(a)s", "%", ")s", "(a)s", "%(%(a)s)s", "%(a)s)s", "%(a\nb)s", "%(a)d", "\n", "%((a)s", "$a", "%%", "%( a )s", "`", "#")
	}
	switch intn(t, 6) {
	case 0:
		return pick(t, "x", "1", " y ", "z/", "日", "$a", "%")
	default:
		return ref(pickFrom(t, names))
	}
}

func genRefs(t *rapid.T) refCase {
	var d refCase
	if chance(t, 40) {
		structOpts(t, &d.O, 20)
		d.O.AllowPythonMultilineValues, d.O.AllowNestedValues, d.O.UnparseableSections = false, false, nil
	}
	d.O.ChildSectionDelimiter = pick(t, S(""), S(""), S("/"), S("::"))
	dl := d.O.childDelim()
	d.Load = chance(t, 40)
	d.NoDef = chance(t, 10)
	d.Mapper = pick(t, 0, 0, 0, 0, 1, 2, 3, 4, 5)
	names := []string{"a", "b", "c", "d", "e", "A", "k 1"}[:between(t, 2, 7)]
	if !d.Load {
		names = append(names, []string{"(a", "x=y", "日本", "%", "a\nb", "#", " a "}[:intn(t, 8)]...)
	}
	lookups := append([]string{}, names...)
	if chance(t, 40) {
		lookups = append(lookups, "gone")
	}
	secs := []string{"s", "s" + dl + "t", "s" + dl + "t" + dl + "u", "r", ini.DefaultSection, "S", "s" + dl + "x" + dl + "y"}
	if chance(t, 85) {
		d.Secs = append(d.Secs, refSec{})
	}
	for _, n := range secs[:between(t, 0, len(secs))] {
		d.Secs = append(d.Secs, refSec{Name: S(n)})
		if chance(t, 10) {
			d.Secs = append(d.Secs, refSec{Name: S(n)})
		}
	}
	if len(d.Secs) > 1 && !d.Load && chance(t, 20) {
		d.Secs[0], d.Secs[len(d.Secs)-1] = d.Secs[len(d.Secs)-1], d.Secs[0]
	}
	value := func() S {
		v := ""
		for i := pick(t, 1, 1, 1, 2, 2, 3, 0); i > 0; i-- {
			v += refFragment(t, lookups, !d.Load)
		}
		if chance(t, 3) {
			// many references to the same few keys, more than there are rounds
			v = strings.Repeat("%("+pickFrom(t, lookups)+")s", pick(t, 99, 100, 101, 130, 260))
			if chance(t, 30) {
				v += "%(" + pickFrom(t, lookups) + ")s"
			}
		}
		if d.Load {
			v = strings.TrimSpace(v)
		}
		return S(v)
	}
	for i := range d.Secs {
		used := map[string]bool{}
		for j := intn(t, 5); j > 0; j-- {
			n := pickFrom(t, names)
			if used[n] {
				continue
			}
			used[n] = true
			d.Secs[i].Keys = append(d.Secs[i].Keys, twinKey{S(n), value()})
		}
	}
	// No expansion may grow without limit.
	fix := func(m *MFile) {
		for k := d.blowsUp(m); k != nil; k = d.blowsUp(m) {
			old := k.Val
			for i := range d.Secs {
				for j := range d.Secs[i].Keys {
					if string(d.Secs[i].Keys[j].Val) == old {
						d.Secs[i].Keys[j].Val = "v"
					}
				}
			}
			*m = *d.model()
		}
	}
	m := d.model()
	fix(m)
	for i := pick(t, 0, 0, 1, 2, 3); i > 0 && len(d.Secs) > 0; i-- {
		e := refEdit{Op: pick(t, "set", "set", "delete"), Sec: pickFrom(t, d.Secs).Name, Key: S(pickFrom(t, names))}
		if e.Op == "set" {
			e.Val = value()
		}
		try := d.model()
		for _, x := range d.Edits {
			x.apply(try)
		}
		e.apply(try)
		if d.blowsUp(try) == nil {
			d.Edits = append(d.Edits, e)
		}
	}
	return d
}

func (d refCase) build() (*ini.File, error) {
	if d.Load {
		var b strings.Builder
		for _, s := range d.Secs {
			if s.Name != "" {
				b.WriteString("[" + string(s.Name) + "]\n")
			}
			for _, k := range s.Keys {
				b.WriteString(string(k.Name) + " = " + string(k.Val) + "\n")
			}
		}
		return load(d.O, b.String())
	}
	f := ini.Empty(d.O.ini())
	for _, s := range d.Secs {
		sec := f.Section("")
		if s.Name != "" {
			var err error
			if sec, err = f.NewSection(string(s.Name)); err != nil {
				return nil, err
			}
		}
		for _, k := range s.Keys {
			if _, err := sec.NewKey(string(k.Name), string(k.Val)); err != nil {
				return nil, err
			}
		}
	}
	return f, nil
}

func checkRefs(c *Ctx, d refCase) error {
	m := d.model()
	f, err := d.build()
	if err != nil {
		return err
	}
	if d.NoDef {
		f.DeleteSection("")
	}
	if refMappers[d.Mapper] != nil {
		f.ValueMapper = refMappers[d.Mapper]
		c.Label(true, "mapper")
	}
	if err := d.evaluate(c, f, m); err != nil {
		return err
	}
	for i, e := range d.Edits {
		e.apply(m)
		if err := e.applyFile(f); err != nil {
			return fmt.Errorf("edit %d: %v", i, err)
		}
		if err := d.evaluate(c, f, m); err != nil {
			return fmt.Errorf("after edit %d %+v: %v", i, e, err)
		}
		c.Label(true, "edited")
	}
	return nil
}

// evaluate compares every key's string form, its own and inherited, with the
// expansion in the model.
func (d refCase) evaluate(c *Ctx, f *ini.File, m *MFile) error {
	if err := checkFile(f, m.snap(), cmp{noComments: true}); err != nil {
		return err
	}
	mapper := refMappers[d.Mapper]
	all := map[string]bool{}
	for _, s := range m.Secs {
		for _, k := range s.Keys {
			all[k.Name] = true
		}
	}
	seen := map[string]int{}
	for _, ms := range m.Secs {
		secs, err := f.SectionsByName(ms.Name)
		if err != nil {
			return err
		}
		sec := secs[seen[ms.Name]]
		seen[ms.Name]++
		for n := range all {
			mk := m.lookup(ms, n)
			if mk == nil {
				continue
			}
			k, err := sec.GetKey(n)
			if err != nil {
				return fmt.Errorf("%q in %q: %v", n, ms.Name, err)
			}
			start := mk.Val
			if mapper != nil {
				start = mapper(start)
			}
			want, steps, unresolved, ok := m.expand(m.lookupSec(ms, n), mk, start, expandCap)
			got := k.String()
			if !ok {
				if len(got) > 1<<20 {
					return fmt.Errorf("key %q of %q = %q expands to %d bytes", n, ms.Name, mk.Val, len(got))
				}
				c.Exclude("expansion grows without limit")
				continue
			}
			if steps >= 99 {
				// A cycle or a chain beyond the depth: it has ended, with some text.
				c.Label(true, "cycle")
				c.NonTrivial(true)
				got = want
			}
			c.NonTrivial(steps > 1)
			c.Label(steps > 2, "chain")
			c.Label(unresolved, "unresolved")
			c.Label(unresolved && steps > 0, "partly-resolved")
			c.Label(steps > 0 && m.lookupSec(ms, n) != ms, "inherited")
			if got != want {
				return fmt.Errorf("string of key %q of %q = %q is %q, want %q", n, ms.Name, mk.Val, got, want)
			}
			if steps < 99 {
				if got := k.Validate(func(s string) string { return "[" + s + "]" }); got != "["+want+"]" {
					return fmt.Errorf("Validate of key %q of %q gives %q, string %q", n, ms.Name, got, want)
				}
				if got := k.In("!none", []string{"!other", want}); got != want {
					return fmt.Errorf("In of key %q of %q gives %q, string %q", n, ms.Name, got, want)
				}
			}
			if k.Value() != mk.Val || k.String() != k.String() {
				return fmt.Errorf("key %q of %q: raw value %q, want %q", n, ms.Name, k.Value(), mk.Val)
			}
		}
	}
	return checkFile(f, m.snap(), cmp{noComments: true})
}

// chainCase is a chain of references of some length, possibly ending in a cycle.
type chainCase struct {
	Len   int
	Back  int // the last key refers to this one; -1 is plain text
	Where []int
}

func checkChain(c *Ctx, d chainCase) error {
	f := ini.Empty()
	secs := []string{"p.q.r", "p.q", "p", ""}
	name := func(i int) string { return fmt.Sprintf("k%d", i) }
	// A key never lies deeper than the one that refers to it, so that it is found.
	at := 0
	for i := 0; i < d.Len; i++ {
		if w := d.Where[i%len(d.Where)]; i > 0 && w > at {
			at = w
		}
		val := "%(" + name(i+1) + ")s"
		if i == d.Len-1 {
			val = "end"
			if d.Back >= 0 {
				val = "%(" + name(d.Back%d.Len) + ")s"
			}
		}
		if _, err := f.Section(secs[at]).NewKey(name(i), val); err != nil {
			return err
		}
	}
	c.NonTrivial(true)
	c.Label(d.Back >= 0, "cycle")
	k := f.Section(secs[0]).Key(name(0))
	got := k.String()
	if d.Back < 0 && d.Len <= 99 {
		c.Label(d.Len > 90, "long")
		if got != "end" {
			return fmt.Errorf("chain of %d references gives %q", d.Len-1, got)
		}
	}
	if d.Len > 1 && k.Value() != "%(k1)s" {
		return fmt.Errorf("raw value changed to %q", k.Value())
	}
	return nil
}

func init() {
	register("C21",
		"a case is non-trivial when some key's string takes at least two substitutions (or goes round in a cycle)",
		sub[refCase]{name: "graph", quick: 60000, thoro: 2500000, gen: genRefs, check: checkRefs},
		sub[chainCase]{name: "chain", quick: 3000, thoro: 40000,
			gen: func(t *rapid.T) chainCase {
				d := chainCase{Len: between(t, 1, pick(t, 10, 99, 99, 150)), Back: -1}
				if chance(t, 15) {
					d.Len = pick(t, 98, 99, 97, 50, 10)
				}
				if chance(t, 40) {
					d.Back = intn(t, d.Len)
				}
				for i := between(t, 1, 8); i > 0; i-- {
					d.Where = append(d.Where, pick(t, 0, 0, 0, 1, 2, 3))
				}
				return d
			}, check: checkChain},
	)
}
