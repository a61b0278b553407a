package main

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// reflCase is a struct to reflect into a file.
type reflCase struct {
	O      Opts
	T      tspec
	V      vval
	Mapper int
	Root   S        // section to reflect to; empty for the file
	Pre    []mapSec `json:",omitempty"` // what the file holds before
	Way    int      // which of the functions
	PP     bool     // from a pointer to a pointer
	First  *vval    `json:",omitempty"` // reflected before, other in the lists alone
}

// otherLists is a value with other elements in its lists.
func (g *typeGen) otherLists(t tspec, v vval) vval {
	out := vval{Nil: v.Nil, Text: v.Text}
	for i, f := range t.Fields {
		x := v.List[i]
		switch {
		case f.Kind == "struct" && !x.Nil:
			x = g.otherLists(*f.Sub, x)
		case f.Kind == "list":
			x = g.value(f)
		}
		out.List = append(out.List, x)
	}
	return out
}

// withLists is a value whose lists begin with the elements of those of another.
func withLists(t tspec, first, v vval) vval {
	out := vval{Nil: v.Nil, Text: v.Text}
	for i, f := range t.Fields {
		x := v.List[i]
		switch {
		case f.Kind == "struct" && !x.Nil:
			x = withLists(*f.Sub, first.List[i], x)
		case f.Kind == "list":
			x = vval{List: append(append([]vval{}, first.List[i].List...), x.List...)}
			x.Nil = len(x.List) == 0
		}
		out.List = append(out.List, x)
	}
	return out
}

// reflOracle stores values in a model of the file.
type reflOracle struct {
	m      *MFile
	mapper int
	kinds  map[*MKey]fspec
	stored int
	left   int
	lists  int // elements stored
	nested int
}

// fieldText is the text that stands for a scalar, in a normal form.
func normText(kind, text string) string {
	switch kind {
	case "float64", "float32", "nfloat":
		x, ok := oracleFloat(text)
		if !ok {
			return "no float: " + text
		}
		return strconv.FormatFloat(x, 'g', -1, 64)
	case "duration":
		d, ok := oracleDuration(text)
		if !ok {
			n, ok := oracleInt(text)
			if !ok {
				return "no duration: " + text
			}
			d = time.Duration(n)
		}
		return strconv.FormatInt(int64(d), 10)
	case "time":
		x, ok := oracleTime(time.RFC3339)(text)
		if !ok {
			return "no time: " + text
		}
		return x.UTC().Format(time.RFC3339)
	}
	return text
}

// scalarString is the text a value of that kind is stored as, up to normText.
func scalarString(kind, text string) string {
	if text != "" {
		return text
	}
	switch kind {
	case "string", "nstring":
		return ""
	case "bool", "nbool":
		return "false"
	case "time":
		return "0001-01-01T00:00:00Z"
	}
	return "0"
}

func isZeroVal(f fspec, x vval) bool {
	switch f.Kind {
	case "slice", "list":
		return x.Nil || len(x.List) == 0
	case "struct":
		return f.Ptr && x.Nil
	}
	if f.Ptr {
		return x.Nil
	}
	v := reflect.New(scalarTypes[f.Kind]).Elem()
	setScalar(v, f.Kind, string(x.Text))
	if t, ok := v.Interface().(time.Time); ok {
		return t.IsZero()
	}
	return v.IsZero() || v.CanFloat() && v.Float() == 0
}

func (o *reflOracle) store(s *MSec, t tspec, v vval, idx int) {
	for i, f := range t.Fields {
		x := v.List[i]
		name := f.key(o.mapper)
		if f.Skip || name == "" || f.OmitEmpty && isZeroVal(f, x) {
			o.left++
			continue
		}
		switch f.Kind {
		case "struct":
			if f.Ptr && x.Nil {
				o.left++
				continue
			}
			sec := s
			if !f.Extends {
				if l := o.m.byName(name); idx < len(l) {
					sec = l[idx]
				} else {
					sec = o.m.newSection(name)
				}
				if sec.Comment == "" {
					sec.Comment = setComment(string(f.Comment))
				}
				o.nested++
			}
			o.store(sec, *f.Sub, x, idx)
		case "list":
			if x.Nil {
				continue
			}
			before := len(o.m.byName(name))
			for j, e := range x.List {
				sec := o.m.newSection(name)
				sec.Comment = setComment(string(f.Comment))
				o.store(sec, *f.Sub, e, before+j)
				o.lists++
			}
		default:
			k := s.find(o.m.keyName(name))
			if k == nil {
				k = &MKey{Name: o.m.keyName(name)}
				s.Keys = append(s.Keys, k)
			}
			if k.Comment == "" {
				k.Comment = setComment(string(f.Comment))
			}
			o.kinds[k] = f
			o.stored++
			switch {
			case f.Kind != "slice" && f.Ptr && x.Nil, f.Kind == "slice" && len(x.List) == 0:
			case f.Kind == "slice" && f.Shadow && o.m.O.AllowShadows:
				k.Val, k.Shadows = scalarString(f.Elem, string(x.List[0].Text)), nil
				for _, e := range x.List[1:] {
					o.m.addShadow(k, scalarString(f.Elem, string(e.Text)))
				}
			case f.Kind == "slice":
				var es []string
				for _, e := range x.List {
					es = append(es, scalarString(f.Elem, string(e.Text)))
				}
				k.Val = strings.Join(es, f.delim())
			default:
				k.Val = scalarString(f.Kind, string(x.Text))
			}
		}
	}
}

// setComment is a comment as it was set, without a mark of its own.
func setComment(c string) string { return c }

// norm returns the texts of the keys of the model in normal form, and got
// with those of the same keys in normal form.
func (o *reflOracle) norm(got Snap) (Snap, Snap) {
	want := o.m.snap()
	f := func(k KeySnap, spec fspec) KeySnap {
		kind := spec.Kind
		if kind != "slice" {
			k.Value = normIf(kind, k.Value)
			for i := range k.All {
				k.All[i] = normIf(kind, k.All[i])
			}
			return k
		}
		norm := func(text string) string {
			if text == "" {
				return ""
			}
			es := strings.Split(text, spec.delim())
			for i := range es {
				es[i] = normText(spec.Elem, es[i])
			}
			return strings.Join(es, spec.delim())
		}
		k.Value = norm(k.Value)
		for i := range k.All {
			k.All[i] = norm(k.All[i])
		}
		return k
	}
	for i, s := range o.m.Secs {
		for j, k := range s.Keys {
			spec, ok := o.kinds[k]
			if !ok {
				continue
			}
			want[i].Keys[j] = f(want[i].Keys[j], spec)
			if i < len(got) && j < len(got[i].Keys) {
				got[i].Keys[j] = f(got[i].Keys[j], spec)
			}
		}
	}
	return got, want
}

func normIf(kind, text string) string {
	if text == "" {
		return text
	}
	return normText(kind, text)
}

// mask empties the values that are not stored.
func mask(t tspec, v vval, mapper int) vval {
	z := zeroVal(t)
	out := vval{Nil: v.Nil, Text: v.Text}
	for i, f := range t.Fields {
		x := v.List[i]
		switch {
		case f.Skip || f.key(mapper) == "":
			out.List = append(out.List, z.List[i])
		case f.Kind == "struct" && !x.Nil:
			out.List = append(out.List, mask(*f.Sub, x, mapper))
		case f.Kind == "list" && !x.Nil:
			y := vval{}
			for _, e := range x.List {
				y.List = append(y.List, mask(*f.Sub, e, mapper))
			}
			out.List = append(out.List, y)
		default:
			out.List = append(out.List, x)
		}
	}
	return out
}

func (d reflCase) pre() (*MFile, *ini.File, error) {
	mc := mapCase{O: d.O, Secs: d.Pre}
	f, _, err := mc.build()
	return mc.model(), f, err
}

func (d reflCase) reflect(f *ini.File, v any) error {
	mapper := nameMappers[d.Mapper].m
	switch {
	case d.Root != "":
		f.NameMapper = mapper
		return f.Section(string(d.Root)).ReflectFrom(v)
	case d.Way == 0:
		return ini.ReflectFromWithMapper(f, v, mapper)
	case d.Way == 1 && mapper == nil:
		return ini.ReflectFrom(f, v)
	case d.Way == 2:
		f.NameMapper = mapper
		return f.Section("").ReflectFrom(v)
	}
	f.NameMapper = mapper
	return f.ReflectFrom(v)
}

// root is the section of the model that is reflected to.
func (d reflCase) root(m *MFile) *MSec {
	if d.Root != "" && d.O.AllowNonUniqueSections {
		m.deleteAll(string(d.Root))
		return m.newSection(string(d.Root))
	}
	return m.section(string(d.Root))
}

func (m *MFile) deleteAll(name string) {
	for len(m.byName(name)) > 0 {
		m.deleteAt(name, 0)
	}
}

func checkReflect(c *Ctx, d reflCase) error {
	m, f, err := d.pre()
	if err != nil {
		return err
	}
	typ := d.T.typ()
	v := reflect.New(typ)
	setStruct(v.Elem(), d.T, d.V)
	o := &reflOracle{m: m, mapper: d.Mapper, kinds: map[*MKey]fspec{}}
	before := 0
	if d.First != nil {
		first := reflect.New(typ)
		setStruct(first.Elem(), d.T, *d.First)
		o.store(d.root(m), d.T, *d.First, 0)
		before = o.lists
		if err := d.reflect(f, first.Interface()); err != nil {
			return fmt.Errorf("the first ReflectFrom %v: %v", typ, err)
		}
	}
	o.store(d.root(m), d.T, d.V, 0)
	c.Label(before > 0 && o.lists > before, "lists-added")
	c.Label(o.lists > 0, "lists")
	c.Label(o.lists > 3, "many-elements")
	c.Label(o.nested > 0, "nested")
	c.Label(o.left > 0, "skipped")
	c.Label(len(d.Pre) > 0, "existing-content")
	c.Label(d.Root != "", "section")
	if d.O.AllowNonUniqueSections {
		c.NonTrivial(o.lists > 0 && o.stored > 1)
	} else {
		c.NonTrivial(o.stored > 1)
	}

	from := v.Interface()
	if d.PP {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		from = p.Interface()
	}
	if err := d.reflect(f, from); err != nil {
		return fmt.Errorf("ReflectFrom %v: %v", typ, err)
	}
	// The struct is only read.
	same := reflect.New(typ)
	setStruct(same.Elem(), d.T, d.V)
	if err := sameValue(v.Elem(), same.Elem()); err != nil {
		return fmt.Errorf("ReflectFrom changed the struct: %v", err)
	}
	got, err := snapshot(f)
	if err != nil {
		return err
	}
	g, w := o.norm(got)
	if err := (cmp{noDefault: true}).diff(g, w); err != nil {
		return fmt.Errorf("after ReflectFrom %v: %v", typ, err)
	}

	all := d.V
	if d.First != nil {
		all = withLists(d.T, *d.First, all)
	}
	want := reflect.New(typ)
	setStruct(want.Elem(), d.T, mask(d.T, all, d.Mapper))
	back := func(f *ini.File, what string) error {
		got := reflect.New(typ)
		f.NameMapper = nameMappers[d.Mapper].m
		if err := f.Section(string(d.Root)).MapTo(got.Interface()); err != nil {
			return fmt.Errorf("%s: mapping back to %v: %v", what, typ, err)
		}
		if err := sameValue(got.Elem(), want.Elem()); err != nil {
			return fmt.Errorf("%s: mapping back to %v: %v", what, typ, err)
		}
		return nil
	}
	if err := back(f, "reflected file"); err != nil {
		return err
	}
	if why := unwritable(m, defaultFormat(), ""); why != "" {
		c.Exclude(why)
		return nil
	}
	c.Label(true, "reloaded")
	b, err := writeBytes(f)
	if err != nil {
		return err
	}
	f2, err := load(d.O, string(b))
	if err != nil {
		return fmt.Errorf("reloading the reflected file: %v\n%s", err, abbrev(string(b)))
	}
	return back(f2, "reloaded file "+abbrev(string(b)))
}

func genReflect(lists int) func(t *rapid.T) reflCase {
	return func(t *rapid.T) reflCase {
		var d reflCase
		o := &d.O
		if chance(t, 40) {
			switch intn(t, 3) {
			case 0:
				o.Insensitive = true
			case 1:
				o.InsensitiveKeys = true
			case 2:
				o.InsensitiveSections = true
			}
		}
		o.AllowShadows = chance(t, 40)
		o.AllowDuplicateShadowValues = o.AllowShadows && chance(t, 40)
		o.AllowNonUniqueSections = lists > 0
		o.ChildSectionDelimiter = pick(t, S(""), S(""), S("/"), S("::"))
		d.Mapper = pick(t, 0, 0, 0, 1, 2, 3, 4)
		d.Way = intn(t, 4)
		d.PP = chance(t, 12)
		g := &typeGen{t: t, names: map[string]bool{strings.ToLower(curDefault): true}, delim: o.childDelim(), mapper: d.Mapper, shadow: true, reflect: true, lists: lists}
		d.Root = pick(t, S(""), S(""), S(""), S("app"), S("app"+o.childDelim()+"x"))
		if d.Root != "" {
			g.names[string(d.Root)] = true
			g.names["app"] = true
		}
		d.T = *g.spec(pick(t, 2, 2, 3), string(d.Root), map[string]bool{}, 6, false)
		d.V = g.fields(d.T)
		if chance(t, 40) {
			d.Pre = preFor(t, g, d)
		}
		if lists > 0 && chance(t, 25) {
			first := g.otherLists(d.T, d.V)
			d.First = &first
		}
		return d
	}
}

// preFor draws content that does not get in the way: unrelated sections and
// keys, and other values of keys that are overwritten.
func preFor(t *rapid.T, g *typeGen, d reflCase) []mapSec {
	var out []mapSec
	comment := func() S { return pick(t, S(""), S(""), S("; mine"), S("# old one")) }
	add := func(name string, keys []mapKey) {
		if chance(t, 50) {
			keys = append(keys, mapKey{Name: "unrelated", Vals: []S{S(word(t))}})
		}
		sec := mapSec{Name: S(name), Keys: keys}
		if name != "" {
			sec.Comment = comment()
		}
		out = append(out, sec)
	}
	var keys func(s tspec, v vval) []mapKey
	keys = func(s tspec, v vval) (ks []mapKey) {
		for i, f := range s.Fields {
			name := f.key(d.Mapper)
			x := v.List[i]
			if f.Skip || name == "" || isZeroVal(f, x) {
				continue
			}
			switch f.Kind {
			case "struct":
				if f.Extends {
					ks = append(ks, keys(*f.Sub, x)...)
				}
			case "list":
			default:
				if chance(t, 30) {
					k := mapKey{Name: S(name), Vals: []S{S(pick(t, "old", "1", "true", ""))}, Comment: comment()}
					if f.Kind == "slice" && f.Shadow && d.O.AllowShadows && chance(t, 50) {
						k.Vals = []S{"old1", "old2", "old3"}
					}
					ks = append(ks, k)
				}
			}
		}
		return ks
	}
	if chance(t, 30) {
		add("before", nil)
	}
	add(string(d.Root), keys(d.T, d.V))
	for i, f := range d.T.Fields {
		name := f.key(d.Mapper)
		if f.Kind == "struct" && !f.Extends && !f.Skip && name != "" && !d.V.List[i].Nil && chance(t, 40) {
			add(name, keys(*f.Sub, d.V.List[i]))
		}
	}
	if chance(t, 30) {
		add("after", nil)
	}
	return out
}

// --- fixed types --------------------------------------------------------------

type SelfStored struct {
	N    int
	Text string
}

func (r SelfStored) ReflectINIStruct(f *ini.File) error {
	if r.Text == "fail" {
		return errInjected
	}
	s := f.Section("Self")
	s.Key("N").SetValue(strconv.Itoa(r.N))
	s.Key("Text").SetValue(r.Text)
	return nil
}

type PtrStored struct{ N int }

func (r *PtrStored) ReflectINIStruct(f *ini.File) error {
	if r == nil {
		return nil
	}
	f.Section("PtrSelf").Key("N").SetValue(strconv.Itoa(r.N))
	return nil
}

type Base struct {
	Host string
	Port int
	Tags []string `delim:"|"`
	note string
}

type Ext struct {
	Level uint8 `ini:"-"`
	Mode  string
	Limit *int `ini:"limit,omitempty"`
}

type (
	EmbedStr string
	EmbedNum int
)

type lower struct{ Q int }

type fixedStruct struct {
	*EmbedStr `ini:",omitempty"`
	*EmbedNum `ini:"num,extends"`
	First     string
	hidden    int
	Self      SelfStored
	Mid       int `ini:"mid" comment:"the middle"`
	lower
	Base    `ini:"base"`
	*Ext    `ini:"ext,extends"`
	PtrSelf *PtrStored
	secret  *Base
	Seen    time.Time
	Maybe   *time.Time `ini:",omitempty"`
	Last    time.Duration
}

type fixedCase struct {
	First, Text, Host, Mode S
	N, Mid, Port            int
	Tags                    []S
	Limit, PtrN             *int
	HasExt                  bool
	Seen                    int64
	Maybe                   *int64
	Last                    int64
}

func (d fixedCase) value() fixedStruct {
	v := fixedStruct{First: string(d.First), hidden: 5, lower: lower{6}, Self: SelfStored{d.N, string(d.Text)}, Mid: d.Mid,
		Base: Base{Host: string(d.Host), Port: d.Port, note: "n"}, secret: &Base{Host: "secret"}, Last: time.Duration(d.Last), Seen: time.Unix(d.Seen, 0).UTC()}
	if len(d.Tags) > 0 {
		v.Tags = strs(d.Tags)
	}
	if d.Mode != "" && d.N != 0 {
		e := EmbedStr(d.Mode)
		v.EmbedStr = &e
	}
	e := EmbedNum(d.Port)
	v.EmbedNum = &e
	if d.HasExt {
		v.Ext = &Ext{Level: 3, Mode: string(d.Mode), Limit: d.Limit}
	}
	if d.PtrN != nil {
		v.PtrSelf = &PtrStored{*d.PtrN}
	}
	if d.Maybe != nil {
		x := time.Unix(*d.Maybe, 0).UTC()
		v.Maybe = &x
	}
	return v
}

func checkFixed(c *Ctx, d fixedCase) error {
	c.NonTrivial(true)
	c.Label(d.Text == "fail", "reflector-error")
	v := d.value()
	f := ini.Empty()
	err := f.ReflectFrom(&v)
	if d.Text == "fail" {
		if !errors.Is(err, errInjected) {
			return fmt.Errorf("error of ReflectINIStruct is lost: %v", err)
		}
		return nil
	}
	if err != nil {
		return err
	}
	if !reflect.DeepEqual(v, d.value()) {
		return fmt.Errorf("ReflectFrom changed the struct: %+v", v)
	}
	for _, n := range []string{"hidden", "secret", "note", "Level", "Q", "unrelated"} {
		for _, s := range f.Sections() {
			if s.HasKey(n) {
				return fmt.Errorf("%q is stored in %q", n, s.Name())
			}
		}
	}
	if f.Section("").HasKey("limit") != (d.HasExt && d.Limit != nil) || f.Section("").HasKey("Maybe") != (d.Maybe != nil) {
		return fmt.Errorf("omitted-empty keys: limit %v, Maybe %v", f.Section("").HasKey("limit"), f.Section("").HasKey("Maybe"))
	}
	if got := f.Section("").Key("mid").Comment; writtenComment(got) != "; the middle" {
		return fmt.Errorf("comment of mid: %q", got)
	}
	check := func(f *ini.File, what string) error {
		got := fixedStruct{hidden: 9}
		if err := f.StrictMapTo(&got); err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		want := d.value()
		want.secret, want.hidden, want.note, want.Q = nil, 9, "", 0
		if want.Ext == nil {
			want.Ext = &Ext{}
		}
		want.Level = 0
		return errAt(what, sameFixed(got, want))
	}
	if err := check(f, "reflected"); err != nil {
		return err
	}
	b, err := writeBytes(f)
	if err != nil {
		return err
	}
	f2, err := load(Opts{}, string(b))
	if err != nil {
		return fmt.Errorf("reloading %q: %v", b, err)
	}
	if err := check(f2, "reloaded "+abbrev(string(b))); err != nil {
		return err
	}
	return checkBytes(f2, d.Mid)
}

type EmbedByte uint8

// checkBytes stores what can be stored, but is not mapped back.
func checkBytes(f *ini.File, n int) error {
	b := uint8(n ^ n>>31)
	v := struct {
		Small uint8
		Ptr   *uint8
		None  *uint8 `ini:",omitempty"`
		Mine  EmbedByte
		Zero  uint8 `ini:",omitempty"`
	}{Small: b, Ptr: &b, Mine: EmbedByte(b)}
	if err := f.Section("bytes").ReflectFrom(&v); err != nil {
		return err
	}
	text := strconv.Itoa(int(b))
	want := map[string]string{"Small": text, "Ptr": text, "Mine": text}
	if got := f.Section("bytes").KeysHash(); !reflect.DeepEqual(got, want) {
		return fmt.Errorf("stored bytes %v, want %v", got, want)
	}
	if f.Section("bytes").MapTo(&v) == nil {
		return fmt.Errorf("no error mapping a byte")
	}
	return nil
}

func errAt(what string, err error) error {
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	return nil
}

func sameFixed(got, want fixedStruct) error {
	if !got.Seen.Equal(want.Seen) {
		return fmt.Errorf("Seen: got %v, want %v", got.Seen, want.Seen)
	}
	got.Seen = want.Seen
	if (got.Maybe == nil) != (want.Maybe == nil) || got.Maybe != nil && !got.Maybe.Equal(*want.Maybe) {
		return fmt.Errorf("Maybe: got %v, want %v", got.Maybe, want.Maybe)
	}
	got.Maybe = want.Maybe
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("got %+v %+v %v, want %+v %+v %v", got, got.Ext, got.PtrSelf, want, want.Ext, want.PtrSelf)
	}
	return nil
}

func genFixed(t *rapid.T) fixedCase {
	n := func() int { return pick(t, 0, 1, -1, 80, 200, 1<<31, -1<<62) }
	opt := func() *int {
		if chance(t, 40) {
			return nil
		}
		x := n()
		return &x
	}
	d := fixedCase{First: S(word(t)), Text: S(word(t)), Host: S(word(t)), Mode: S(word(t)), N: n(), Mid: n(), Port: n(), Limit: opt(), PtrN: opt(),
		HasExt: chance(t, 60), Seen: int64(pick(t, 0, 1, 1<<31, -1<<33)), Last: int64(pick(t, 0, 1, -5, int(time.Hour), 1<<62))}
	if chance(t, 10) {
		d.Text = "fail"
	}
	for i := intn(t, 4); i > 0; i-- {
		d.Tags = append(d.Tags, S(word(t)))
	}
	if chance(t, 50) {
		x := int64(pick(t, 0, 1, 1<<31, -1<<33))
		d.Maybe = &x
	}
	return d
}

// --- unsupported --------------------------------------------------------------

var unstorable = []any{
	map[string]string{"a": "b"}, make(chan int), complex(1, 1), []int8{1}, []*int{nil}, [2]int{1, 2}, func() {}, new(chan int), [][]string{{"a"}}, []struct{ A int }{{1}},
	[]any{1}, &map[string]int{"a": 1}, uintptr(1), []float32{1}, []uint8{1}, []map[string]int{nil}, new(any), []complex128{1}, []*int{new(int)}, []**struct{}{nil}, []*[]int{nil},
}

func checkUnstorable(c *Ctx, d unsupCase) error {
	c.NonTrivial(true)
	f := ini.Empty(ini.LoadOptions{AllowNonUniqueSections: d.Strict, AllowShadows: d.Shadow})
	s := f.Section("sec")
	if d.What < len(unstorable) {
		c.Label(true, "unsupported")
		x := reflect.ValueOf(unstorable[d.What])
		typ := reflect.StructOf([]reflect.StructField{{Name: "Before", Type: reflect.TypeOf(0)}, {Name: "F", Type: x.Type(), Tag: d.tag()}})
		if e := x.Type(); d.Nonunique && e.Kind() == reflect.Slice && e.Elem().Kind() == reflect.Struct {
			return nil // that is what the option is for
		}
		v := reflect.New(typ)
		v.Elem().Field(0).SetInt(7)
		v.Elem().Field(1).Set(x)
		if err := s.ReflectFrom(v.Interface()); err == nil {
			return fmt.Errorf("reflecting a field of the unsupported type %v gives no error", x.Type())
		}
		if got := f.Section("sec").Key("Before").String(); got != "7" {
			return fmt.Errorf("field before the one of type %v is stored as %q", x.Type(), got)
		}
		return nil
	}
	for i, v := range notStructs() {
		if i != d.What-len(unstorable) {
			continue
		}
		c.Label(true, "no-struct")
		before, err := snapshot(f)
		if err != nil {
			return err
		}
		if err := s.ReflectFrom(v); err == nil {
			return fmt.Errorf("reflecting %T gives no error", v)
		}
		if err := f.ReflectFrom(v); err == nil {
			return fmt.Errorf("reflecting %T to the file gives no error", v)
		}
		if err := checkFile(f, before, cmp{noDefault: true}); err != nil {
			return fmt.Errorf("reflecting %T: %v", v, err)
		}
	}
	return nil
}

// --- rounds on a section ---------------------------------------------------------

type roundsCase struct {
	O      Opts
	T      tspec
	Mapper int
	Name   S
	Pre    []mapSec
	Rounds []round
}

type round struct {
	Op    string // slice, one, reload
	Elems []vval `json:",omitempty"`
}

func checkRounds(c *Ctx, d roundsCase) error {
	mc := mapCase{O: d.O, Secs: d.Pre}
	f, _, err := mc.build()
	if err != nil {
		return err
	}
	m := mc.model()
	typ := d.T.typ()
	mapper := nameMappers[d.Mapper].m
	f.NameMapper = mapper
	if len(m.byName(string(d.Name))) == 0 {
		m.newSection(string(d.Name))
		if _, err := f.NewSection(string(d.Name)); err != nil {
			return err
		}
	}
	o := &reflOracle{m: m, mapper: d.Mapper, kinds: map[*MKey]fspec{}}
	var now []vval
	written := 0
	for i, r := range d.Rounds {
		where := fmt.Sprintf("round %d (%s)", i, r.Op)
		switch r.Op {
		case "reload":
			if len(now) == 0 && i > 0 {
				continue
			}
			if why := unwritable(m, defaultFormat(), ""); why != "" {
				c.Exclude(why)
				continue
			}
			b, err := writeBytes(f)
			if err != nil {
				return err
			}
			if f, err = load(d.O, string(b)); err != nil {
				return fmt.Errorf("%s: %v in %s", where, err, abbrev(string(b)))
			}
			f.NameMapper = mapper
			m.normComments()
			written++
		case "slice", "one":
			if len(m.byName(string(d.Name))) == 0 {
				m.newSection(string(d.Name))
				if _, err := f.NewSection(string(d.Name)); err != nil {
					return err
				}
			}
			m.deleteAll(string(d.Name))
			s := reflect.MakeSlice(reflect.SliceOf(reflect.PointerTo(typ)), 0, 0)
			for j, e := range r.Elems {
				v := reflect.New(typ)
				sec := m.newSection(string(d.Name))
				if e.Nil { // a section of its own all the same, without keys
					v = reflect.Zero(v.Type())
					c.Label(true, "nil-element")
				} else {
					setStruct(v.Elem(), d.T, e)
					o.store(sec, d.T, e, j)
				}
				s = reflect.Append(s, v)
			}
			v := s.Interface()
			if r.Op == "one" {
				v = s.Index(0).Interface()
			}
			if err := f.Section(string(d.Name)).ReflectFrom(v); err != nil {
				return fmt.Errorf("%s: ReflectFrom: %v", where, err)
			}
			now = r.Elems
			c.Label(len(now) == 0, "no-elements")
			c.Label(len(now) > 4, "many-elements")
		}
		if i == 0 && r.Op == "reload" {
			continue
		}
		got, err := snapshot(f)
		if err != nil {
			return err
		}
		g, w := o.norm(got)
		if err := (cmp{noDefault: true, normComment: true}).diff(g, w); err != nil {
			return fmt.Errorf("%s: %v", where, err)
		}
		if len(now) == 0 {
			continue
		}
		for _, ptr := range []bool{false, true} {
			et := typ
			if ptr {
				et = reflect.PointerTo(typ)
			}
			back := reflect.New(reflect.SliceOf(et))
			if err := f.Section(string(d.Name)).MapTo(back.Interface()); err != nil {
				return fmt.Errorf("%s: mapping to %v: %v", where, back.Type(), err)
			}
			if n := back.Elem().Len(); n != len(now) {
				return fmt.Errorf("%s: mapping to %v gives %d elements, want %d", where, back.Type(), n, len(now))
			}
			for j, e := range now {
				want := reflect.New(typ)
				if !e.Nil {
					setStruct(want.Elem(), d.T, mask(d.T, e, d.Mapper))
				}
				if err := sameValue(reflect.Indirect(back.Elem().Index(j)), want.Elem()); err != nil {
					return fmt.Errorf("%s: mapping to %v: element %d: %v", where, back.Type(), j, err)
				}
			}
		}
	}
	c.NonTrivial(len(now) > 1)
	c.Label(written > 0, "reloaded")
	c.Label(o.nested > 0, "nested")
	return nil
}

// normComments gives the comments their written form.
func (m *MFile) normComments() {
	for _, s := range m.Secs {
		s.Comment = writtenComment(s.Comment)
		for _, k := range s.Keys {
			k.Comment = writtenComment(k.Comment)
		}
	}
}

func genRounds(t *rapid.T) roundsCase {
	d := roundsCase{O: Opts{AllowNonUniqueSections: true}}
	switch intn(t, 6) {
	case 0:
		d.O.Insensitive = true
	case 1:
		d.O.InsensitiveKeys = true
	case 2:
		d.O.InsensitiveSections = true
	}
	d.O.AllowShadows = chance(t, 40)
	d.Mapper = pick(t, 0, 0, 0, 1, 2, 3, 4)
	d.Name = pick(t, S("peer"), S("peer"), S("a.peer"), S("my peer"), S("É"))
	if strings.EqualFold(string(d.Name), curDefault) {
		d.Name = "peer"
	}
	g := &typeGen{t: t, names: map[string]bool{strings.ToLower(string(d.Name)): true, "a": true, strings.ToLower(curDefault): true}, delim: d.O.childDelim(), mapper: d.Mapper, shadow: true, reflect: true}
	// Nested structs are left out where a later round would find old sections.
	n := pick(t, 1, 1, 2, 3, 4)
	depth := 0
	if n == 1 {
		depth = pick(t, 1, 1, 2)
	}
	d.T = *g.spec(depth, string(d.Name), map[string]bool{}, 5, true)
	if chance(t, 70) {
		for i := between(t, 1, 4); i > 0; i-- {
			s := mapSec{Name: pick(t, S("other"), d.Name, S(""), d.Name)}
			for j := intn(t, 3); j > 0; j-- {
				s.Keys = append(s.Keys, mapKey{Name: S(pick(t, "unrelated", "x", "y")), Vals: []S{S(word(t))}})
			}
			d.Pre = append(d.Pre, s)
		}
	}
	for i := 0; i < n; i++ {
		r := round{Op: pick(t, "slice", "slice", "slice", "one")}
		count := pick(t, 0, 1, 2, 2, 3, 4, few(t, 4))
		if r.Op == "one" {
			count = 1
		}
		for ; count > 0; count-- {
			r.Elems = append(r.Elems, g.fields(d.T))
			if depth == 0 && r.Op == "slice" && chance(t, 10) {
				r.Elems[len(r.Elems)-1] = vval{Nil: true}
			}
		}
		d.Rounds = append(d.Rounds, r)
		if chance(t, 40) {
			d.Rounds = append(d.Rounds, round{Op: "reload"})
		}
	}
	return d
}

func init() {
	register("C27",
		"a case is non-trivial when at least two keys are stored and compared after mapping back; with fixed types and unsupported ones every case is",
		sub[reflCase]{name: "reflect", quick: 100000, thoro: 600000, gen: genReflect(0), check: checkReflect},
		sub[fixedCase]{name: "fixed", quick: 15000, thoro: 100000, gen: genFixed, check: checkFixed},
		sub[unsupCase]{name: "unsupported", quick: 1500, thoro: 5000,
			gen: func(t *rapid.T) unsupCase {
				return unsupCase{What: intn(t, len(unstorable)+len(notStructs())), Strict: chance(t, 50), Nonunique: chance(t, 40), Shadow: chance(t, 40)}
			}, check: checkUnstorable},
	)
	register("C28",
		"a case is non-trivial when at least one element of a slice of structs is mapped or stored together with another key",
		sub[reflCase]{name: "fields", quick: 50000, thoro: 500000, gen: genReflect(35), check: checkReflect},
		sub[roundsCase]{name: "rounds", quick: 40000, thoro: 500000, gen: genRounds, check: checkRounds},
		sub[mapCase]{name: "map", quick: 40000, thoro: 500000, gen: genMap(10, 100),
			check: func(c *Ctx, d mapCase) error { return checkMap(c, d, false) }},
	)
}
