package main

import (
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// mop is one operation on a file, as data.
type mop struct {
	Op   string
	Sec  S   `json:",omitempty"`
	Idx  int `json:",omitempty"`
	Key  S   `json:",omitempty"`
	Val  S   `json:",omitempty"`
	List []S `json:",omitempty"`
	Held int `json:",omitempty"` // 1 and up: on a handle taken earlier
	// Quiet: nothing is listed after the operation, so that what several
	// operations in a row leave behind is seen, too.
	Quiet bool `json:",omitempty"`
}

// machine runs operations on a file and on the model and compares every answer.
type machine struct {
	f *ini.File
	m *MFile

	heldSecs []heldSec
	heldKeys []heldKey
}

// heldSec is a handle of a section that may have been deleted meanwhile.
type heldSec struct {
	s  *ini.Section
	ms *MSec
}

type heldKey struct {
	k  *ini.Key
	mk *MKey
}

func errMismatch(err error, want bool) error {
	if (err != nil) != want {
		return fmt.Errorf("error %v, want error: %v", err, want)
	}
	return nil
}

// sec resolves a section without creating it.
func (x *machine) sec(name S, idx int) (*ini.Section, *MSec, error) {
	ml := x.m.byName(string(name))
	fl, err := x.f.SectionsByName(string(name))
	if (err != nil) != (len(ml) == 0) || len(fl) != len(ml) {
		return nil, nil, fmt.Errorf("SectionsByName(%q): %d sections, error %v; want %d", name, len(fl), err, len(ml))
	}
	if len(ml) == 0 {
		return nil, nil, nil
	}
	i := idx % len(ml)
	return fl[i], ml[i], nil
}

func checkSec(s *ini.Section, m *MSec) error {
	if (s == nil) != (m == nil) {
		return fmt.Errorf("section %v, want %v", s != nil, m != nil)
	}
	if s == nil {
		return nil
	}
	got, err := snapSection(s)
	if err != nil {
		return err
	}
	return cmp{}.diffSec(got, m.snap())
}

func checkKey(k *ini.Key, m *MKey) error {
	if (k == nil) != (m == nil) {
		return fmt.Errorf("key %v, want %v", k != nil, m != nil)
	}
	if k == nil {
		return nil
	}
	if k.Name() != m.Name || k.Value() != m.Val || !eqStrs(k.ValueWithShadows(), m.all()) {
		return fmt.Errorf("key %q = %q %q, want %q = %q %q", k.Name(), k.Value(), k.ValueWithShadows(), m.Name, m.Val, m.all())
	}
	return nil
}

// step runs one operation on both sides.
func (x *machine) step(op mop) error {
	if err := x.do(op); err != nil {
		return fmt.Errorf("%+v: %v", op, err)
	}
	return nil
}

func (x *machine) do(op mop) error {
	f, m := x.f, x.m
	name, key, val := string(op.Sec), string(op.Key), string(op.Val)
	switch op.Op {
	case "write":
		_, err := f.WriteTo(io.Discard)
		return err
	case "fill-sections": // many at once
		for i := 0; i < op.Idx; i++ {
			n := fmt.Sprintf("s%d", i*7%op.Idx)
			if _, err := f.NewSection(n); err != nil {
				return err
			}
			m.newSection(n)
		}
		return nil
	case "fill-keys":
		s, err := f.NewSection("many")
		if err != nil {
			return err
		}
		ms := m.newSection("many")
		for i := 0; i < op.Idx; i++ {
			n := fmt.Sprintf("k%d", i*7%op.Idx)
			if _, err := s.NewKey(n, "v"+n); err != nil {
				return err
			}
			m.newKey(ms, n, "v"+n)
		}
		return nil
	case "new-section":
		s, err := f.NewSection(name)
		if name == "" {
			if s != nil {
				return fmt.Errorf("section returned for the empty name")
			}
			return errMismatch(err, true)
		}
		if err != nil {
			return err
		}
		return checkSec(s, m.newSection(name))
	case "new-sections":
		wantErr := false
		for _, n := range op.List {
			if n == "" {
				wantErr = true
				break
			}
			m.newSection(string(n))
		}
		return errMismatch(f.NewSections(strs(op.List)...), wantErr)
	case "get-section":
		s, err := f.GetSection(name)
		w := m.first(name)
		if e := errMismatch(err, w == nil); e != nil {
			return e
		}
		return checkSec(s, w)
	case "has-section":
		if got, want := f.HasSection(name), m.first(name) != nil; got != want {
			return fmt.Errorf("HasSection is %v, want %v", got, want)
		}
	case "section":
		return checkSec(f.Section(name), m.section(name))
	case "section-index":
		l := m.byName(name)
		var w *MSec
		if op.Idx >= 0 && op.Idx < len(l) {
			w = l[op.Idx]
		} else {
			n := name
			if n == "" {
				n = ini.DefaultSection
			}
			w = m.newSection(n)
		}
		return checkSec(f.SectionWithIndex(name, op.Idx), w)
	case "by-name":
		l := m.byName(name)
		got, err := f.SectionsByName(name)
		if e := errMismatch(err, len(l) == 0); e != nil {
			return e
		}
		return checkSecs(got, l)
	case "delete-section":
		for len(m.byName(name)) > 0 {
			m.deleteAt(name, 0)
		}
		f.DeleteSection(name)
	case "delete-index":
		err := f.DeleteSectionWithIndex(name, op.Idx)
		bad := op.Idx != 0 && !m.O.AllowNonUniqueSections
		if !bad {
			m.deleteAt(name, op.Idx)
		}
		return errMismatch(err, bad)
	case "child-sections":
		// asks the existing section or the file, which creates it
		p := m.section(name)
		got := f.ChildSections(name)
		return checkSecs(got, m.children(p.Name))
	case "section-children", "parent-keys":
		s, ms, err := x.sec(op.Sec, op.Idx)
		if err != nil || s == nil {
			return err
		}
		if op.Op == "section-children" {
			return checkSecs(s.ChildSections(), m.children(ms.Name))
		}
		got, want := s.ParentKeys(), m.parentKeys(ms)
		if len(got) != len(want) {
			return fmt.Errorf("ParentKeys: %d keys, want %d", len(got), len(want))
		}
		for i := range got {
			if err := checkKey(got[i], want[i]); err != nil {
				return fmt.Errorf("ParentKeys()[%d]: %v", i, err)
			}
		}
	case "hold-section":
		s, ms, err := x.sec(op.Sec, op.Idx)
		if err != nil || s == nil {
			return err
		}
		x.heldSecs = append(x.heldSecs, heldSec{s, ms})
	case "held-key-value":
		if len(x.heldKeys) == 0 {
			return nil
		}
		h := x.heldKeys[op.Held%len(x.heldKeys)]
		h.k.SetValue(val)
		h.mk.Val = val
		return checkKey(h.k, h.mk)
	case "held-key-shadow":
		if len(x.heldKeys) == 0 {
			return nil
		}
		h := x.heldKeys[op.Held%len(x.heldKeys)]
		err := h.k.AddShadow(val)
		ok := m.O.AllowShadows && m.addShadow(h.mk, val)
		return errMismatch(err, !ok)
	default:
		var s *ini.Section
		var ms *MSec
		if op.Held > 0 && len(x.heldSecs) > 0 {
			h := x.heldSecs[op.Held%len(x.heldSecs)]
			s, ms = h.s, h.ms
		} else {
			var err error
			s, ms, err = x.sec(op.Sec, op.Idx)
			if err != nil || s == nil {
				return err
			}
		}
		return x.doKey(op, s, ms, key, val)
	}
	return nil
}

func checkSecs(got []*ini.Section, want []*MSec) error {
	if len(got) != len(want) {
		var g, w []string
		for _, s := range got {
			g = append(g, s.Name())
		}
		for _, s := range want {
			w = append(w, s.Name)
		}
		return fmt.Errorf("sections %q, want %q", g, w)
	}
	for i := range got {
		if err := checkSec(got[i], want[i]); err != nil {
			return fmt.Errorf("entry %d: %v", i, err)
		}
	}
	return nil
}

func (x *machine) doKey(op mop, s *ini.Section, ms *MSec, key, val string) error {
	m := x.m
	switch op.Op {
	case "new-key", "new-bool":
		if op.Op == "new-bool" {
			val = "true"
		}
		var k *ini.Key
		var err error
		if op.Op == "new-bool" {
			k, err = s.NewBooleanKey(key)
		} else {
			k, err = s.NewKey(key, val)
		}
		if key == "" {
			if k != nil {
				return fmt.Errorf("key returned for the empty name")
			}
			return errMismatch(err, true)
		}
		mk, ok := m.newKey(ms, key, val)
		if e := errMismatch(err, !ok); e != nil {
			return e
		}
		if !ok {
			return nil
		}
		if op.Op == "new-bool" {
			mk.Bool = true
		}
		return checkKey(k, mk)
	case "get-key":
		k, err := s.GetKey(key)
		w := m.lookup(ms, key)
		if e := errMismatch(err, w == nil); e != nil {
			return e
		}
		return checkKey(k, w)
	case "has-key":
		w := m.lookup(ms, key) != nil
		if got := s.HasKey(key); got != w {
			return fmt.Errorf("HasKey is %v, want %v", got, w)
		}
		if got := s.Haskey(key); got != w {
			return fmt.Errorf("Haskey is %v, want %v", got, w)
		}
	case "key":
		k := s.Key(key)
		w := m.lookup(ms, key)
		if w == nil && key != "" {
			w, _ = m.newKey(ms, key, "")
		}
		return checkKey(k, w)
	case "hold-key":
		mk := ms.find(m.keyName(key))
		if mk == nil {
			return nil
		}
		k, err := s.GetKey(key)
		if err != nil {
			return err
		}
		x.heldKeys = append(x.heldKeys, heldKey{k, mk})
	case "key-string":
		mk := m.lookup(ms, key)
		if mk == nil {
			return nil
		}
		want, _, _, ok := m.expand(m.lookupSec(ms, key), mk, mk.Val, expandCap)
		k, err := s.GetKey(key)
		if err != nil {
			return err
		}
		if !ok {
			return nil
		}
		if got := k.String(); got != want {
			return fmt.Errorf("String is %q, want %q", got, want)
		}
	case "strings-shadows":
		mk := m.lookup(ms, key)
		if mk == nil {
			return nil
		}
		k, err := s.GetKey(key)
		if err != nil {
			return err
		}
		var want []string
		for _, v := range mk.all() {
			for _, e := range strings.Split(v, ",") {
				w, _, _, ok := m.expand(m.lookupSec(ms, key), mk, strings.TrimSpace(e), expandCap)
				if !ok {
					return nil
				}
				want = append(want, w)
			}
		}
		if got := k.StringsWithShadows(","); !eqStrs(got, want) {
			return fmt.Errorf("StringsWithShadows is %q, want %q", got, want)
		}
	case "must-string", "must-int", "must-bool":
		mk := ms.find(m.keyName(key))
		if mk == nil || len(mk.Val) > 0 && mk.Val[0] != 'x' {
			return nil
		}
		k, err := s.GetKey(key)
		if err != nil {
			return err
		}
		// the value does not convert: the default becomes the value
		switch op.Op {
		case "must-string":
			if mk.Val == "" {
				k.MustString("dflt")
				mk.Val = "dflt"
			}
		case "must-int":
			k.MustInt(op.Idx)
			mk.Val = strconv.Itoa(op.Idx)
		case "must-bool":
			k.MustBool(true)
			mk.Val = "true"
		}
		return checkKey(k, mk)
	case "has-value":
		w := false
		for _, k := range ms.Keys {
			w = w || k.Val == val
		}
		if got := s.HasValue(val); got != w {
			return fmt.Errorf("HasValue is %v, want %v", got, w)
		}
	case "delete-key":
		n := m.keyName(key)
		for i, k := range ms.Keys {
			if k.Name == n {
				ms.Keys = append(append([]*MKey{}, ms.Keys[:i]...), ms.Keys[i+1:]...)
				break
			}
		}
		s.DeleteKey(key)
	case "hash":
		return checkHash(s, ms)
	case "set-comment":
		s.Comment = val
		ms.Comment = val
	default:
		mk := ms.find(m.keyName(key))
		if mk == nil {
			return nil
		}
		k, err := s.GetKey(key)
		if err != nil {
			return err
		}
		switch op.Op {
		case "set-value":
			k.SetValue(val)
			mk.Val = val
		case "add-shadow":
			err := k.AddShadow(val)
			ok := m.O.AllowShadows && m.addShadow(mk, val)
			return errMismatch(err, !ok)
		case "add-nested":
			err := k.AddNestedValue(val)
			ok := m.O.AllowNestedValues && !mk.Auto && !mk.Bool
			if ok {
				mk.Nested = append(mk.Nested, val)
			}
			return errMismatch(err, !ok)
		case "key-comment":
			k.Comment = val
			mk.Comment = val
		default:
			panic("machine: unknown operation " + op.Op)
		}
		return checkKey(k, mk)
	}
	return nil
}

func checkHash(s *ini.Section, ms *MSec) error {
	h := s.KeysHash()
	if len(h) != len(ms.Keys) {
		return fmt.Errorf("KeysHash of %q has %d entries, want %d", ms.Name, len(h), len(ms.Keys))
	}
	for _, k := range ms.Keys {
		if v, ok := h[k.Name]; !ok || v != k.Val {
			return fmt.Errorf("KeysHash of %q has %q=%q (%v), want %q", ms.Name, k.Name, v, ok, k.Val)
		}
	}
	return nil
}

// run performs the operations of a sequence, calling before in front of each.
func (x *machine) run(ops []mop, before func(op mop)) error {
	if err := x.agree(); err != nil {
		return err
	}
	for i, op := range ops {
		if before != nil {
			before(op)
		}
		if err := x.step(op); err != nil {
			return fmt.Errorf("step %d: %v", i, err)
		}
		if op.Quiet && i < len(ops)-1 {
			continue
		}
		if err := x.agree(); err != nil {
			return fmt.Errorf("after step %d %+v: %v", i, op, err)
		}
	}
	return nil
}

// agree compares the whole file with the model, through every listing, and
// what the handles taken earlier show.
func (x *machine) agree() error {
	for _, h := range x.heldSecs {
		if err := checkSec(h.s, h.ms); err != nil {
			return fmt.Errorf("section handle: %v", err)
		}
		if err := checkHash(h.s, h.ms); err != nil {
			return fmt.Errorf("section handle: %v", err)
		}
	}
	for _, h := range x.heldKeys {
		if err := checkKey(h.k, h.mk); err != nil {
			return fmt.Errorf("key handle: %v", err)
		}
	}
	if err := checkFile(x.f, x.m.snap(), cmp{}); err != nil {
		return err
	}
	seen := map[string]bool{}
	for _, ms := range x.m.Secs {
		if seen[ms.Name] {
			continue
		}
		seen[ms.Name] = true
		l := x.m.byName(ms.Name)
		got, err := x.f.SectionsByName(ms.Name)
		if err != nil {
			return fmt.Errorf("SectionsByName(%q): %v", ms.Name, err)
		}
		if err := checkSecs(got, l); err != nil {
			return fmt.Errorf("SectionsByName(%q): %v", ms.Name, err)
		}
		for i := range l {
			if err := checkHash(got[i], l[i]); err != nil {
				return err
			}
			for _, k := range l[i].Keys {
				gk, err := got[i].GetKey(k.Name)
				if err != nil {
					return err
				}
				if err := checkKey(gk, k); err != nil {
					return err
				}
			}
			if got := x.f.SectionWithIndex(ms.Name, i); got == nil || got.Name() != ms.Name {
				return fmt.Errorf("SectionWithIndex(%q, %d) is wrong", ms.Name, i)
			}
		}
		if !x.f.HasSection(ms.Name) {
			return fmt.Errorf("HasSection(%q) is false", ms.Name)
		}
	}
	return nil
}

func (m *MFile) children(parent string) []*MSec {
	p := parent + m.O.childDelim()
	var out []*MSec
	for _, s := range m.Secs {
		if len(s.Name) >= len(p) && s.Name[:len(p)] == p {
			out = append(out, s)
		}
	}
	return out
}

// ancestors are the names of the ancestors, nearest first.
func (m *MFile) ancestors(name string) []string {
	var out []string
	d := m.O.childDelim()
	for i := len(name) - len(d); i >= 0; i-- {
		if name[i:i+len(d)] == d {
			name = name[:i]
			out = append(out, name)
			i = len(name) - len(d) + 1
		}
	}
	return out
}

func (m *MFile) parentKeys(s *MSec) []*MKey {
	var out []*MKey
	for _, a := range m.ancestors(s.Name) {
		if p := m.first(a); p != nil {
			out = append(out, p.Keys...)
		}
	}
	return out
}

// opGen draws operations over small pools of names, so that they collide.
type opGen struct {
	ops        []string
	secs, keys []string
	val        func(t *rapid.T) string
	maxIdx     int
	held       int // percentage of key operations on handles
	rich       int // percentage of sequences with unusual names
}

// richNames are names and values that no ordinary file has.
var richNames = []string{
	"1", "123", "-x", "--", "[x", "[]", "x.", "..", "\xff\xfe", "\xc3", "a\tb", "a  b", "$HOME", "a\\b", "it's", "http://h/p", "a=b", "a\x00b", "{y}", "50%", "a,b", "a#b",
	"a;b", "a\"b", "a`b", "a\rb", "a\nb", "\r\n", "É", "日本", "A-B", "aa", "ZZ", " ", "sixteen letters.", "Sixteen-LETTERS-and-more", "0x10", "a:b", "(x", ")s", "\ufeffx", "\u2028",
}

// richText draws one of them, or a long text.
func richText(t *rapid.T) string {
	switch {
	case chance(t, 20):
		return longText(t)
	case chance(t, 25):
		return pickFrom(t, richNames) + pickFrom(t, richNames)
	}
	return pickFrom(t, richNames)
}

// longText draws a word of up to some hundred bytes.
func longText(t *rapid.T) string {
	n := pick(t, 17, 33, 64, 65, 100, 128, 130, 256, 300, 600)
	return strings.Repeat(pick(t, "n", "ab", "Long", "xyz9", "é", "a.b-"), n)[:n] + pick(t, "", "", "q")
}

// spiced puts one or two unusual names into a copy of the pool.
func spiced(t *rapid.T, pool []string) []string {
	pool = append([]string(nil), pool...)
	for i := between(t, 1, 2); i > 0; i-- {
		n := richText(t)
		if j := intn(t, len(pool)+1); j < len(pool) {
			pool[j] = n
		} else {
			pool = append(pool, n)
		}
		if chance(t, 30) {
			pool = append(pool, n+"a", n+"b") // hardly different
		}
	}
	return pool
}

// spice gives the generator unusual names and values.
func (g opGen) spice(t *rapid.T) opGen {
	if !chance(t, g.rich) {
		return g
	}
	if chance(t, 70) {
		g.secs = spiced(t, g.secs)
	}
	if chance(t, 70) {
		g.keys = spiced(t, g.keys)
	}
	if val := g.val; chance(t, 60) {
		n := richText(t)
		few := []string{n, richText(t), n + "a", n + "b"}
		g.val = func(t *rapid.T) string {
			if chance(t, 40) {
				return pickFrom(t, few)
			}
			return val(t)
		}
	}
	return g
}

func (g opGen) draw(t *rapid.T) mop {
	op := mop{Op: pickFrom(t, g.ops)}
	op.Sec = S(pickFrom(t, g.secs))
	if g.maxIdx > 0 {
		op.Idx = intn(t, g.maxIdx+1)
	}
	switch op.Op {
	case "new-sections":
		op.Sec = ""
		for i := intn(t, 4); i > 0; i-- {
			op.List = append(op.List, S(pickFrom(t, g.secs)))
		}
	case "new-section", "get-section", "has-section", "section", "by-name", "delete-section", "child-sections":
		op.Idx = 0
	case "section-index", "delete-index":
		if op.Idx > 0 && chance(t, 8) { // there is no such section
			op.Idx = pick(t, -1, -1, -2, 1000)
		}
	case "section-children", "parent-keys":
	case "set-comment":
		op.Val = S(g.val(t))
	case "hash":
	case "has-value":
		op.Val = S(g.val(t))
	case "hold-section":
		op.Idx = 0
	case "held-key-value", "held-key-shadow":
		op.Sec, op.Idx = "", 0
		op.Held = between(t, 1, 4)
		op.Val = S(g.val(t))
	default:
		op.Key = S(pickFrom(t, g.keys))
		if chance(t, g.held) {
			op.Held = between(t, 1, 4)
		}
		switch op.Op {
		case "new-key", "set-value", "add-shadow", "add-nested", "key-comment":
			op.Val = S(g.val(t))
		}
	}
	return op
}

func (g opGen) list(t *rapid.T, max int) []mop {
	g = g.spice(t)
	n := between(t, max/4, max)
	out := make([]mop, n)
	for i := range out {
		out[i] = g.draw(t)
	}
	return quieten(t, out)
}

// quieten leaves out some of the listings between operations.
func quieten(t *rapid.T, ops []mop) []mop {
	if rate := pick(t, 0, 50, 90); rate > 0 {
		for i := range ops {
			ops[i].Quiet = chance(t, rate)
		}
	}
	return ops
}

func opNames(ops []mop) map[string]int {
	out := map[string]int{}
	for _, o := range ops {
		out[o.Op]++
	}
	return out
}

func labelOps(c *Ctx, ops []mop) {
	n := opNames(ops)
	var names []string
	for k := range n {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		c.Label(true, "op-"+k)
	}
}
