package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// --- returned collections ----------------------------------------------------------

// kept is a collection the package returned, together with what it held.
type kept struct {
	what string
	same func() error
}

func keepList[X comparable](what string, l []X) kept {
	was := append([]X{}, l...)
	return kept{what, func() error {
		if len(l) != len(was) {
			return fmt.Errorf("length changed")
		}
		for i := range l {
			if l[i] != was[i] {
				return fmt.Errorf("entry %d changed from %v to %v", i, was[i], l[i])
			}
		}
		return nil
	}}
}

func keepMap(what string, h map[string]string) kept {
	was := map[string]string{}
	for k, v := range h {
		was[k] = v
	}
	return kept{what, func() error {
		if len(h) != len(was) {
			return fmt.Errorf("size changed from %d to %d", len(was), len(h))
		}
		for k, v := range was {
			if g, ok := h[k]; !ok || g != v {
				return fmt.Errorf("entry %q changed from %q to %q", k, v, g)
			}
		}
		return nil
	}}
}

// spoil overwrites a list as its owner may, up to its capacity.
func spoil[X any](l []X, way int, with X) {
	switch way % 4 {
	case 0:
		for i := range l {
			l[i] = with
		}
	case 1: // appending writes behind the end
		for full := l[:cap(l)]; len(l) < len(full); {
			l = append(l, with)
		}
	case 2: // removing moves what follows
		if len(l) > 0 {
			_ = append(l[:0], l[1:]...)
		}
	case 3:
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		l = append(l, with)
		l[0] = with
	}
}

// collections calls visit for every collection the file hands out.
func (x *machine) collections(list func(what string, get func() []string), secs func(string, func() []*ini.Section), keys func(string, func() []*ini.Key), hash func(string, func() map[string]string)) {
	f := x.f
	list("SectionStrings", f.SectionStrings)
	secs("Sections", f.Sections)
	dl := x.m.O.childDelim()
	seen := map[string]bool{}
	for i, s := range f.Sections() {
		n := s.Name()
		at := func(w string) string { return fmt.Sprintf("%s of section %d %q", w, i, n) }
		if !seen[n] {
			seen[n] = true
			secs(at("SectionsByName"), func() []*ini.Section { l, _ := f.SectionsByName(n); return l })
			secs(at("File.ChildSections"), func() []*ini.Section { return f.ChildSections(n) })
			if p := strings.SplitN(n, dl, 2)[0]; p != n && p != "" && f.HasSection(p) {
				secs(at("File.ChildSections of the parent"), func() []*ini.Section { return f.ChildSections(p) })
			}
		}
		secs(at("ChildSections"), s.ChildSections)
		keys(at("Keys"), s.Keys)
		keys(at("ParentKeys"), s.ParentKeys)
		list(at("KeyStrings"), s.KeyStrings)
		hash(at("KeysHash"), s.KeysHash)
		for j, k := range s.Keys() {
			at := func(w string) string { return at(fmt.Sprintf("%s of key %d %q", w, j, k.Name())) }
			list(at("ValueWithShadows"), k.ValueWithShadows)
			list(at("NestedValues"), k.NestedValues)
			if !x.m.plainRefs() {
				continue
			}
			list(at("Strings"), func() []string { return k.Strings(",") })
			list(at("StringsWithShadows"), func() []string { return k.StringsWithShadows(",") })
		}
	}
}

// plainRefs tells that no value has several references, so that no expansion
// grows exponentially.
func (m *MFile) plainRefs() bool {
	for _, s := range m.Secs {
		for _, k := range s.Keys {
			for _, v := range k.all() {
				if strings.Count(v, "%(") > 1 {
					return false
				}
			}
		}
	}
	return true
}

type isoCase struct {
	seqCase
	Way int
}

func (d isoCase) check(c *Ctx) error {
	x, err := startSeq(d.seqCase)
	if err != nil {
		return err
	}
	labelOps(c, d.Ops)
	way := d.Way
	var keep []kept
	nonEmpty := 0
	probe := func() {
		next := func(n int) int {
			if n > 1 {
				nonEmpty++
			}
			way++
			return way
		}
		x.collections(
			func(w string, get func() []string) {
				l := get()
				spoil(l, next(len(l)), "spoiled")
				keep = append(keep, keepList(w, get()))
			},
			func(w string, get func() []*ini.Section) {
				l := get()
				spoil(l, next(len(l)), nil)
				keep = append(keep, keepList(w, get()))
			},
			func(w string, get func() []*ini.Key) {
				l := get()
				spoil(l, next(len(l)), nil)
				keep = append(keep, keepList(w, get()))
			},
			func(w string, get func() map[string]string) {
				h := get()
				if next(len(h))%2 == 0 {
					clear(h)
				} else {
					for k := range h {
						h[k] = "spoiled"
					}
				}
				h["spoiled"] = "key"
				keep = append(keep, keepMap(w, get()))
			})
	}
	same := func() error {
		for _, k := range keep {
			if err := k.same(); err != nil {
				return fmt.Errorf("%s returned earlier: %v", k.what, err)
			}
		}
		return nil
	}
	for i := -1; i < len(d.Ops); i++ {
		if i >= 0 {
			op := d.Ops[i]
			op.List = append([]S{}, op.List...)
			if err := x.step(op); err != nil {
				return fmt.Errorf("step %d: %v", i, err)
			}
		}
		if err := same(); err != nil {
			return fmt.Errorf("after step %d: %v", i, err)
		}
		if i == -1 || i == len(d.Ops)-1 || i%5 == d.Way%5 {
			probe()
			if err := x.agree(); err != nil {
				return fmt.Errorf("after returned collections were overwritten (step %d): %v", i, err)
			}
			if err := same(); err != nil {
				return fmt.Errorf("after other collections were overwritten (step %d): %v", i, err)
			}
		}
	}
	c.NonTrivial(nonEmpty >= 8 && len(d.Ops) > 0)
	return nil
}

var isoOps = []string{"new-section", "new-section", "section", "delete-section", "delete-index", "section-index", "new-key", "new-key", "new-key", "delete-key", "delete-key",
	"set-value", "set-value", "add-shadow", "add-shadow", "add-nested", "add-nested", "new-bool", "key", "hold-section", "hold-key", "held-key-value", "held-key-shadow",
	"child-sections", "parent-keys", "new-sections", "key-comment", "set-comment", "must-string"}

func isoOpts(t *rapid.T) Opts {
	var o Opts
	if chance(t, 70) {
		structOpts(t, &o, 30)
		o.AllowNonUniqueSections = o.AllowNonUniqueSections || chance(t, 20)
		o.AllowShadows = o.AllowShadows || chance(t, 30)
		o.AllowNestedValues = o.AllowNestedValues || chance(t, 30)
		if o.AllowNestedValues {
			o.AllowPythonMultilineValues = false
		}
	}
	return o
}

func isoGen() opGen {
	return opGen{ops: isoOps, secs: []string{"a", "a.b", "a.b.c", "", "b", "c", "a.d"}, keys: []string{"a", "b", "key", "c", "one two"}, val: plainVal, maxIdx: 2, held: 15}
}

// --- the inputs of a file -----------------------------------------------------------

type isoSrc struct {
	O      Opts
	Srcs   []S
	Spare  int // capacity behind the bytes
	Want   Snap
	Append int // how many of the sources are added by Append
}

func genIsoSrc(t *rapid.T) isoSrc {
	var d isoSrc
	if chance(t, 60) {
		d.O = loadOpts(t, 20)
	} else {
		structOpts(t, &d.O, 20)
	}
	if len(d.O.UnparseableSections) == 0 && chance(t, 50) {
		d.O.UnparseableSections = []S{"raw", "a"}
	}
	m := &MFile{O: d.O}
	b := newDoc(t, m, stdConf(t))
	if chance(t, 20) {
		b.nl = "\r\n"
	}
	n := pick(t, 1, 1, 2, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.startSource()
		}
		b.items(intn(t, 10))
		d.Srcs = append(d.Srcs, S(b.finish()))
	}
	if !d.O.AllowNonUniqueSections && !d.O.AllowShadows && !(d.O.AllowBooleanKeys && d.O.AllowNestedValues) { // see the findings on Reload
		d.Append = intn(t, n)
	}
	d.Spare = pick(t, 0, 1, 16, 600)
	d.Want = m.snap()
	return d
}

func checkIsoSrc(c *Ctx, d isoSrc) error {
	var bufs, was [][]byte
	total := 0
	for _, s := range d.Srcs {
		b := append(make([]byte, 0, len(s)+d.Spare), s...)
		full := b[:cap(b)]
		for i := len(b); i < len(full); i++ {
			full[i] = '='
		}
		bufs = append(bufs, b)
		was = append(was, append([]byte{}, full...))
		total += len(s)
	}
	untouched := func(when string) error {
		for i := range bufs {
			if !bytes.Equal(bufs[i][:cap(bufs[i])], was[i]) {
				return fmt.Errorf("%s changed the bytes of source %d", when, i)
			}
		}
		return nil
	}
	var srcs []any
	for i := range bufs {
		srcs = append(srcs, bufs[i])
	}
	lo := d.O.ini()
	names := append([]string{}, lo.UnparseableSections...)
	lo.UnparseableSections = append(make([]string, 0, len(names)+4), names...)
	first := len(srcs) - d.Append
	others := append(make([]any, 0, len(srcs)+3), srcs[1:first]...)
	f, err := ini.LoadSources(lo, srcs[0], others...)
	if err != nil {
		return fmt.Errorf("well-formed document refused: %v", err)
	}
	if err := untouched("LoadSources"); err != nil {
		return err
	}
	if err := checkFileIf(d.Append == 0, f, d.Want); err != nil {
		return err
	}
	for i := first; i < len(srcs); i++ {
		if err := f.Append(srcs[i]); err != nil {
			return fmt.Errorf("Append: %v", err)
		}
	}
	if err := untouched("Append"); err != nil {
		return err
	}
	for i, n := range names {
		if lo.UnparseableSections[i] != n {
			return fmt.Errorf("the options were changed: %q, were %q", lo.UnparseableSections, names)
		}
	}
	// Lists of sources given away do not change what is read again.
	full := others[:cap(others)]
	for i := range full {
		full[i] = []byte("spoiled = 1\n[spoiled]\nk = v\n")
	}
	if !d.O.AllowNonUniqueSections && !d.O.AllowShadows && d.Append == 0 {
		before, err := snapshot(f)
		if err != nil {
			return err
		}
		if err := f.Reload(); err == nil {
			if err := checkFile(f, before, cmp{}); err != nil && f.HasSection("spoiled") && !bytes.Contains(bytes.Join(was, nil), []byte("spoiled")) {
				return fmt.Errorf("after the list of sources was overwritten, Reload gives: %v", err)
			}
		}
		if err := untouched("Reload"); err != nil {
			return err
		}
		c.Label(true, "reloaded")
		if f, err = ini.LoadSources(lo, srcs[0], srcs[1:]...); err != nil {
			return err
		}
	}
	out, err := writeBytes(f)
	if err != nil {
		return err
	}
	if err := untouched("writing"); err != nil {
		return err
	}
	if err := checkFile(f, d.Want, cmp{}); err != nil {
		return err
	}
	// Now everything given to the loader is overwritten.
	for _, b := range bufs {
		b = b[:cap(b)]
		for i := range b {
			b[i] = pickByte[i%len(pickByte)]
		}
	}
	for i, l := 0, lo.UnparseableSections[:cap(lo.UnparseableSections)]; i < len(l); i++ {
		l[i] = "spoiled"
	}
	if err := checkFile(f, d.Want, cmp{}); err != nil {
		return fmt.Errorf("after the sources were overwritten: %v", err)
	}
	for _, s := range f.Sections() {
		for k, v := range s.KeysHash() {
			key, err := s.GetKey(k)
			if err != nil {
				return fmt.Errorf("after the sources were overwritten: GetKey(%q): %v", k, err)
			}
			if key.Value() != v {
				return fmt.Errorf("after the sources were overwritten: key %q is %q, in the hash %q", k, key.Value(), v)
			}
		}
	}
	out2, err := writeBytes(f)
	if err != nil {
		return err
	}
	if !bytes.Equal(out, out2) {
		return fmt.Errorf("after the sources were overwritten the file is written as %q, before as %q", out2, out)
	}
	c.NonTrivial(total > 20 && len(d.Want) > 1)
	c.Label(len(d.Srcs) > 1, "several-sources")
	c.Label(d.Append > 0, "append")
	return nil
}

var pickByte = []byte("X=[]\n;")

func checkFileIf(cond bool, f *ini.File, want Snap) error {
	if !cond {
		return nil
	}
	return checkFile(f, want, cmp{})
}

// --- separate files -------------------------------------------------------------------

type twoCase struct {
	O      Opts
	Src    S
	OpsA   []mop
	OpsB   []mop
	Turns  []bool // true: the second file's turn
	Mapper bool
	Empty  bool // Empty() instead of loading
}

func genTwo(t *rapid.T) twoCase {
	d := twoCase{O: isoOpts(t), Mapper: chance(t, 40), Empty: chance(t, 15)}
	if !d.Empty {
		d.Src = seqDoc(t, d.O)
	}
	g := isoGen()
	d.OpsA = g.list(t, pick(t, 12, 5, 25))
	if chance(t, 60) {
		d.OpsB = g.list(t, pick(t, 12, 5, 25))
	}
	for i := len(d.OpsA) + len(d.OpsB); i > 0; i-- {
		d.Turns = append(d.Turns, chance(t, 50))
	}
	return d
}

func checkTwo(c *Ctx, d twoCase) error {
	buf := []byte(d.Src)
	lo := d.O.ini()
	start := func() (*machine, error) {
		m := &MFile{O: d.O}
		if d.Empty {
			m.section("")
			return &machine{f: ini.Empty(lo), m: m}, nil
		}
		if m.apply(string(d.Src)) != "" {
			panic("twoCase: source is malformed")
		}
		f, err := ini.LoadSources(lo, buf)
		if err != nil {
			return nil, fmt.Errorf("well-formed document refused: %v", err)
		}
		return &machine{f: f, m: m}, nil
	}
	a, err := start()
	if err != nil {
		return err
	}
	b, err := start()
	if err != nil {
		return err
	}
	refB, err := start()
	if err != nil {
		return err
	}
	if d.Mapper {
		a.f.ValueMapper = func(s string) string { return "mapped" + s }
		a.f.NameMapper = strings.ToUpper
	}
	ia, ib := 0, 0
	for n := 0; ia < len(d.OpsA) || ib < len(d.OpsB); n++ {
		second := ib < len(d.OpsB) && (ia == len(d.OpsA) || n < len(d.Turns) && d.Turns[n])
		if second {
			op := d.OpsB[ib]
			ib++
			if err := b.step(op); err != nil {
				return fmt.Errorf("second file, step %d: %v", ib-1, err)
			}
			if err := refB.step(op); err != nil {
				return fmt.Errorf("untouched twin, step %d: %v", ib-1, err)
			}
		} else {
			op := d.OpsA[ia]
			ia++
			if d.Mapper && (op.Op == "must-string" || op.Op == "key-string") {
				continue
			}
			if err := a.step(op); err != nil {
				return fmt.Errorf("first file, step %d: %v", ia-1, err)
			}
		}
		if err := a.agree(); err != nil {
			return fmt.Errorf("first file after %d steps of it, %d of the other: %v", ia, ib, err)
		}
		if err := b.agree(); err != nil {
			return fmt.Errorf("second file after %d steps of it, %d of the other: %v", ib, ia, err)
		}
	}
	// The second file answers like its twin that had no neighbour to share with.
	sa, sb := b.f.Sections(), refB.f.Sections()
	for i := range sa {
		for j, k := range sa[i].Keys() {
			k2 := sb[i].Keys()[j]
			if b.m.plainRefs() && k.String() != k2.String() {
				return fmt.Errorf("string of key %q of %q is %q next to an edited file, %q otherwise", k.Name(), sa[i].Name(), k.String(), k2.String())
			}
		}
		if !b.m.plainRefs() {
			continue
		}
		var v, v2 struct{ A, Key string }
		if err := sa[i].MapTo(&v); err != nil {
			return err
		}
		if err := sb[i].MapTo(&v2); err != nil {
			return err
		}
		if v != v2 {
			return fmt.Errorf("section %q maps to %v next to an edited file, to %v otherwise", sa[i].Name(), v, v2)
		}
	}
	o1, err := writeBytes(b.f)
	if err != nil {
		return err
	}
	o2, err := writeBytes(refB.f)
	if err != nil {
		return err
	}
	if !bytes.Equal(o1, o2) {
		return fmt.Errorf("file is written as %q next to an edited file, as %q otherwise", o1, o2)
	}
	c.NonTrivial(len(d.OpsA) >= 4)
	c.Label(len(d.OpsB) > 0, "both-edited")
	c.Label(d.Mapper, "mapper")
	labelOps(c, d.OpsA)
	return nil
}

func init() {
	register("C30",
		"collections: at least 8 returned collections with two or more entries were overwritten and operations followed; inputs: a document of more than 20 bytes and two sections; separate: at least four operations on the other file",
		sub[isoCase]{name: "collections", quick: 12000, thoro: 500000,
			gen: func(t *rapid.T) isoCase {
				var d isoCase
				d.O = isoOpts(t)
				d.Src = seqDoc(t, d.O)
				d.Ops = isoGen().list(t, seqLen(t))
				d.Way = intn(t, 8)
				return d
			},
			check: func(c *Ctx, d isoCase) error { return d.check(c) }},
		sub[isoSrc]{name: "inputs", quick: 30000, thoro: 1000000, gen: genIsoSrc, check: checkIsoSrc},
		sub[twoCase]{name: "separate", quick: 15000, thoro: 600000, gen: genTwo, check: checkTwo},
	)
}
