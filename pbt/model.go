package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/go-ini/ini"
)

// Opts mirrors ini.LoadOptions without its function field.
type Opts struct {
	Loose                       bool `json:",omitempty"`
	Insensitive                 bool `json:",omitempty"`
	InsensitiveSections         bool `json:",omitempty"`
	InsensitiveKeys             bool `json:",omitempty"`
	IgnoreContinuation          bool `json:",omitempty"`
	IgnoreInlineComment         bool `json:",omitempty"`
	SkipUnrecognizableLines     bool `json:",omitempty"`
	ShortCircuit                bool `json:",omitempty"`
	AllowBooleanKeys            bool `json:",omitempty"`
	AllowShadows                bool `json:",omitempty"`
	AllowNestedValues           bool `json:",omitempty"`
	AllowPythonMultilineValues  bool `json:",omitempty"`
	SpaceBeforeInlineComment    bool `json:",omitempty"`
	UnescapeValueDoubleQuotes   bool `json:",omitempty"`
	UnescapeValueCommentSymbols bool `json:",omitempty"`
	UnparseableSections         []S  `json:",omitempty"`
	KeyValueDelimiters          S    `json:",omitempty"`
	KeyValueDelimiterOnWrite    S    `json:",omitempty"`
	ChildSectionDelimiter       S    `json:",omitempty"`
	PreserveSurroundedQuote     bool `json:",omitempty"`
	ReaderBufferSize            int  `json:",omitempty"`
	AllowNonUniqueSections      bool `json:",omitempty"`
	AllowDuplicateShadowValues  bool `json:",omitempty"`
	Debug                       bool `json:",omitempty"`
}

func (o Opts) ini() ini.LoadOptions {
	lo := ini.LoadOptions{
		Loose: o.Loose, Insensitive: o.Insensitive, InsensitiveSections: o.InsensitiveSections,
		InsensitiveKeys: o.InsensitiveKeys, IgnoreContinuation: o.IgnoreContinuation,
		IgnoreInlineComment: o.IgnoreInlineComment, SkipUnrecognizableLines: o.SkipUnrecognizableLines,
		ShortCircuit: o.ShortCircuit, AllowBooleanKeys: o.AllowBooleanKeys, AllowShadows: o.AllowShadows,
		AllowNestedValues: o.AllowNestedValues, AllowPythonMultilineValues: o.AllowPythonMultilineValues,
		SpaceBeforeInlineComment: o.SpaceBeforeInlineComment, UnescapeValueDoubleQuotes: o.UnescapeValueDoubleQuotes,
		UnescapeValueCommentSymbols: o.UnescapeValueCommentSymbols,
		KeyValueDelimiters:          string(o.KeyValueDelimiters),
		KeyValueDelimiterOnWrite:    string(o.KeyValueDelimiterOnWrite),
		ChildSectionDelimiter:       string(o.ChildSectionDelimiter),
		PreserveSurroundedQuote:     o.PreserveSurroundedQuote, ReaderBufferSize: o.ReaderBufferSize,
		AllowNonUniqueSections: o.AllowNonUniqueSections, AllowDuplicateShadowValues: o.AllowDuplicateShadowValues,
	}
	if len(o.UnparseableSections) > 0 {
		lo.UnparseableSections = strs(o.UnparseableSections)
	}
	if o.Debug {
		lo.DebugFunc = func(string) {}
	}
	return lo
}

func (o Opts) delims() string {
	if o.KeyValueDelimiters == "" {
		return "=:"
	}
	return string(o.KeyValueDelimiters)
}

func (o Opts) childDelim() string {
	if o.ChildSectionDelimiter == "" {
		return "."
	}
	return string(o.ChildSectionDelimiter)
}

func (o Opts) foldSec() bool { return o.Insensitive || o.InsensitiveSections }
func (o Opts) foldKey() bool { return o.Insensitive || o.InsensitiveKeys }

// --- snapshots --------------------------------------------------------------

type KeySnap struct {
	Name, Value, Comment string
	All                  []string // values with shadows
	Nested               []string
}

type SecSnap struct {
	Name, Comment, Body string
	Keys                []KeySnap
}

type Snap []SecSnap

type keySnapJSON struct {
	Name, Value, Comment S
	All, Nested          []S `json:",omitempty"`
}

func toS(in []string) []S {
	var out []S
	for _, x := range in {
		out = append(out, S(x))
	}
	return out
}

func (k KeySnap) MarshalJSON() ([]byte, error) {
	return json.Marshal(keySnapJSON{S(k.Name), S(k.Value), S(k.Comment), toS(k.All), toS(k.Nested)})
}

func (k *KeySnap) UnmarshalJSON(b []byte) error {
	var j keySnapJSON
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	*k = KeySnap{string(j.Name), string(j.Value), string(j.Comment), strs(j.All), strs(j.Nested)}
	return nil
}

type secSnapJSON struct {
	Name, Comment, Body S
	Keys                []KeySnap `json:",omitempty"`
}

func (s SecSnap) MarshalJSON() ([]byte, error) {
	return json.Marshal(secSnapJSON{S(s.Name), S(s.Comment), S(s.Body), s.Keys})
}

func (s *SecSnap) UnmarshalJSON(b []byte) error {
	var j secSnapJSON
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	*s = SecSnap{string(j.Name), string(j.Comment), string(j.Body), j.Keys}
	return nil
}

// snapshot reads everything observable of a file through its listings and
// fails if the listings do not agree with each other.
func snapshot(f *ini.File) (Snap, error) {
	secs := f.Sections()
	names := f.SectionStrings()
	if len(secs) != len(names) {
		return nil, fmt.Errorf("Sections lists %d sections, SectionStrings %d", len(secs), len(names))
	}
	out := make(Snap, 0, len(secs))
	for i, s := range secs {
		if s == nil {
			return nil, fmt.Errorf("Sections()[%d] is nil", i)
		}
		if s.Name() != names[i] {
			return nil, fmt.Errorf("section %d is %q in Sections and %q in SectionStrings", i, s.Name(), names[i])
		}
		ss, err := snapSection(s)
		if err != nil {
			return nil, err
		}
		out = append(out, ss)
	}
	return out, nil
}

func snapSection(s *ini.Section) (SecSnap, error) {
	ss := SecSnap{Name: s.Name(), Comment: s.Comment, Body: s.Body()}
	keys := s.Keys()
	knames := s.KeyStrings()
	if len(keys) != len(knames) {
		return ss, fmt.Errorf("section %q: Keys lists %d keys, KeyStrings %d", s.Name(), len(keys), len(knames))
	}
	for j, k := range keys {
		if k == nil {
			return ss, fmt.Errorf("section %q: Keys()[%d] is nil", s.Name(), j)
		}
		if k.Name() != knames[j] {
			return ss, fmt.Errorf("section %q: key %d is %q in Keys and %q in KeyStrings", s.Name(), j, k.Name(), knames[j])
		}
		ss.Keys = append(ss.Keys, KeySnap{
			Name: k.Name(), Value: k.Value(), Comment: k.Comment,
			All: k.ValueWithShadows(), Nested: k.NestedValues(),
		})
	}
	return ss, nil
}

type cmp struct {
	noComments  bool
	noDefault   bool   // an empty default section equals none
	def         string // its name, when known exactly
	normComment bool   // compare comments in their written form
	noBody      bool
}

func eqStrs(a, b []string) bool {
	if len(a) == 0 && len(b) == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

func abbrev(v any) string {
	s := fmt.Sprintf("%q", v)
	if len(s) > 600 {
		s = s[:300] + "..." + s[len(s)-300:]
	}
	return s
}

// diff returns how got differs from want, or nil.
func (c cmp) diff(got, want Snap) error {
	if c.noDefault {
		got, want = c.dropEmptyDefault(got), c.dropEmptyDefault(want)
	}
	for i := 0; i < len(got) && i < len(want); i++ {
		if err := c.diffSec(got[i], want[i]); err != nil {
			return fmt.Errorf("section #%d: %v", i, err)
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("sections: got %s, want %s", abbrev(secNames(got)), abbrev(secNames(want)))
	}
	return nil
}

func secNames(s Snap) []string {
	var out []string
	for _, x := range s {
		out = append(out, x.Name)
	}
	return out
}

func (c cmp) dropEmptyDefault(s Snap) Snap {
	if len(s) == 0 || c.def != "" && s[0].Name != c.def {
		return s
	}
	if strings.EqualFold(s[0].Name, ini.DefaultSection) && len(s[0].Keys) == 0 && (c.noComments || s[0].Comment == "") {
		return s[1:]
	}
	return s
}

func (c cmp) diffSec(g, w SecSnap) error {
	if g.Name != w.Name {
		return fmt.Errorf("name: got %s, want %s", abbrev(g.Name), abbrev(w.Name))
	}
	if err := c.comment(g.Comment, w.Comment); err != nil {
		return fmt.Errorf("%s: %v", abbrev(g.Name), err)
	}
	if !c.noBody && g.Body != w.Body {
		return fmt.Errorf("%s: body: got %s, want %s", abbrev(g.Name), abbrev(g.Body), abbrev(w.Body))
	}
	for j := 0; j < len(g.Keys) && j < len(w.Keys); j++ {
		gk, wk := g.Keys[j], w.Keys[j]
		where := fmt.Sprintf("%s key #%d", abbrev(g.Name), j)
		switch {
		case gk.Name != wk.Name:
			return fmt.Errorf("%s: name: got %s, want %s", where, abbrev(gk.Name), abbrev(wk.Name))
		case gk.Value != wk.Value:
			return fmt.Errorf("%s %s: value: got %s, want %s", where, abbrev(gk.Name), abbrev(gk.Value), abbrev(wk.Value))
		case !eqStrs(gk.All, wk.All):
			return fmt.Errorf("%s %s: values with shadows: got %s, want %s", where, abbrev(gk.Name), abbrev(gk.All), abbrev(wk.All))
		case !eqStrs(gk.Nested, wk.Nested):
			return fmt.Errorf("%s %s: nested values: got %s, want %s", where, abbrev(gk.Name), abbrev(gk.Nested), abbrev(wk.Nested))
		}
		if err := c.comment(gk.Comment, wk.Comment); err != nil {
			return fmt.Errorf("%s %s: %v", where, abbrev(gk.Name), err)
		}
	}
	if len(g.Keys) != len(w.Keys) {
		return fmt.Errorf("%s: got %d keys, want %d (%s / %s)", abbrev(g.Name), len(g.Keys), len(w.Keys), abbrev(keyNames(g)), abbrev(keyNames(w)))
	}
	return nil
}

func keyNames(s SecSnap) []string {
	var out []string
	for _, k := range s.Keys {
		out = append(out, k.Name)
	}
	return out
}

func (c cmp) comment(g, w string) error {
	if c.noComments {
		return nil
	}
	if c.normComment {
		g, w = writtenComment(g), writtenComment(w)
	}
	if g != w {
		return fmt.Errorf("comment: got %s, want %s", abbrev(g), abbrev(w))
	}
	return nil
}

// writtenComment is the text a comment has once every line is marked and
// trimmed, as a reader sees it.
func writtenComment(c string) string {
	if c == "" {
		return ""
	}
	lines := strings.Split(strings.ReplaceAll(c, "\r\n", "\n"), "\n")
	for i, l := range lines {
		if l != "" && (l[0] == '#' || l[0] == ';') {
			lines[i] = l[:1] + " " + strings.TrimSpace(l[1:])
		} else {
			lines[i] = "; " + strings.TrimSpace(l)
		}
	}
	return strings.TrimSpace(strings.Join(lines, "\n"))
}

// --- reference model of a file ------------------------------------------------

type MKey struct {
	Name, Val  string
	Shadows    []string
	Nested     []string
	Auto, Bool bool
	Comment    string
}

type MSec struct {
	Name, Comment string
	Raw           bool
	Body          string
	Keys          []*MKey
}

type MFile struct {
	O    Opts
	Secs []*MSec
}

func (m *MFile) secName(n string) string {
	if m.O.foldSec() {
		return strings.ToLower(n)
	}
	return n
}

func (m *MFile) keyName(n string) string {
	if m.O.foldKey() {
		return strings.ToLower(n)
	}
	return n
}

// byName returns the sections of that name; the empty name is the default one.
func (m *MFile) byName(n string) []*MSec {
	if n == "" {
		n = ini.DefaultSection
	}
	n = m.secName(n)
	var out []*MSec
	for _, s := range m.Secs {
		if s.Name == n {
			out = append(out, s)
		}
	}
	return out
}

func (m *MFile) first(n string) *MSec {
	if l := m.byName(n); len(l) > 0 {
		return l[0]
	}
	return nil
}

// newSection is creation by a non-empty name.
func (m *MFile) newSection(n string) *MSec {
	if !m.O.AllowNonUniqueSections {
		if s := m.first(n); s != nil {
			return s
		}
	}
	s := &MSec{Name: m.secName(n)}
	m.Secs = append(m.Secs, s)
	return s
}

func (m *MFile) section(n string) *MSec {
	if s := m.first(n); s != nil {
		return s
	}
	if n == "" {
		n = ini.DefaultSection
	}
	return m.newSection(n)
}

// deleteAt removes the i-th section of that name.
func (m *MFile) deleteAt(n string, i int) {
	if n == "" {
		n = ini.DefaultSection
	}
	n = m.secName(n)
	c := 0
	for j, s := range m.Secs {
		if s.Name == n {
			if c == i {
				m.Secs = append(append([]*MSec{}, m.Secs[:j]...), m.Secs[j+1:]...)
				return
			}
			c++
		}
	}
}

func (s *MSec) find(name string) *MKey {
	for _, k := range s.Keys {
		if k.Name == name {
			return k
		}
	}
	return nil
}

// newKey sets or creates a key; ok is false when a shadow is refused.
func (m *MFile) newKey(s *MSec, name, val string) (k *MKey, ok bool) {
	name = m.keyName(name)
	if k := s.find(name); k != nil {
		if m.O.AllowShadows {
			return k, m.addShadow(k, val)
		}
		k.Val = val
		return k, true
	}
	k = &MKey{Name: name, Val: val}
	s.Keys = append(s.Keys, k)
	return k, true
}

func (m *MFile) addShadow(k *MKey, val string) bool {
	if k.Auto || k.Bool {
		return false
	}
	if !m.O.AllowDuplicateShadowValues {
		if k.Val == val {
			return true
		}
		for _, s := range k.Shadows {
			if s == val {
				return true
			}
		}
	}
	k.Shadows = append(k.Shadows, val)
	return true
}

// lookup is key lookup with inheritance from parent sections.
func (m *MFile) lookup(s *MSec, name string) *MKey {
	if o := m.lookupSec(s, name); o != nil {
		return o.find(m.keyName(name))
	}
	return nil
}

// lookupSec is the section that holds the key found by lookup.
func (m *MFile) lookupSec(s *MSec, name string) *MSec {
	name = m.keyName(name)
	if s.find(name) != nil {
		return s
	}
	sn := s.Name
	for {
		i := strings.LastIndex(sn, m.O.childDelim())
		if i < 0 {
			return nil
		}
		sn = sn[:i]
		if p := m.first(sn); p != nil {
			if p.find(name) != nil {
				return p
			}
		}
	}
}

func (k *MKey) all() []string {
	var out []string
	for _, v := range append([]string{k.Val}, k.Shadows...) {
		if v != "" {
			out = append(out, v)
		}
	}
	return out
}

func (s *MSec) snap() SecSnap {
	ss := SecSnap{Name: s.Name, Comment: s.Comment, Body: strings.TrimSpace(s.Body)}
	for _, k := range s.Keys {
		ss.Keys = append(ss.Keys, KeySnap{Name: k.Name, Value: k.Val, Comment: k.Comment, All: k.all(), Nested: k.Nested})
	}
	return ss
}

func (m *MFile) snap() Snap {
	var out Snap
	for _, s := range m.Secs {
		out = append(out, s.snap())
	}
	return out
}
