package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// mapCase is a struct type, its initial value and a file to map to it.
type mapCase struct {
	O      Opts
	T      tspec
	Init   vval
	Fresh  bool // starts from the zero value
	Secs   []mapSec
	Mapper int
	Root   S // section to map; empty for the file
	Load   bool
	Strict bool
	PP     bool       // to a pointer to a pointer
	Again  []mapAgain `json:",omitempty"`
}

// mapAgain maps the file once more, after an edit, to the same or to another
// type and with the same or another mapper.
type mapAgain struct {
	Op     mop
	T      *tspec `json:",omitempty"`
	Mapper int
}

type mapSec struct {
	Name    S
	Keys    []mapKey
	Comment S `json:",omitempty"`
}

type mapKey struct {
	Name    S
	Vals    []S
	Comment S `json:",omitempty"`
}

func (d mapCase) model() *MFile {
	m := &MFile{O: d.O}
	m.section("")
	for _, s := range d.Secs {
		ms := m.section("")
		if s.Name != "" {
			ms = m.newSection(string(s.Name))
		}
		if s.Comment != "" {
			ms.Comment = string(s.Comment)
		}
		for _, k := range s.Keys {
			for _, v := range k.Vals {
				m.newKey(ms, string(k.Name), string(v))
			}
			if k.Comment != "" {
				ms.find(m.keyName(string(k.Name))).Comment = string(k.Comment)
			}
		}
	}
	return m
}

// plainDoc is the file as a document, if it needs no quoting.
func (d mapCase) plainDoc() (string, bool) {
	var b strings.Builder
	for _, s := range d.Secs {
		if s.Name != "" {
			b.WriteString("[" + string(s.Name) + "]\n")
		}
		for _, k := range s.Keys {
			if strings.ContainsAny(string(k.Name), "=:#;\"`\n") {
				return "", false
			}
			for _, v := range k.Vals {
				x := string(v)
				if !trimmed(x) || strings.ContainsAny(x, "\n#;\"'`\\\x00") || strings.Contains(x, "\ufeff") {
					return "", false
				}
				b.WriteString(string(k.Name) + " = " + x + "\n")
			}
		}
	}
	return b.String(), true
}

func (d mapCase) build() (*ini.File, string, error) {
	if d.Load {
		if doc, ok := d.plainDoc(); ok {
			f, err := load(d.O, doc)
			return f, doc, err
		}
	}
	f := ini.Empty(d.O.ini())
	for _, s := range d.Secs {
		sec := f.Section("")
		if s.Name != "" {
			var err error
			if sec, err = f.NewSection(string(s.Name)); err != nil {
				return nil, "", err
			}
		}
		if s.Comment != "" {
			sec.Comment = string(s.Comment)
		}
		for _, k := range s.Keys {
			for _, v := range k.Vals {
				if _, err := sec.NewKey(string(k.Name), string(v)); err != nil {
					return nil, "", err
				}
			}
			if k.Comment != "" {
				sec.Key(string(k.Name)).Comment = string(k.Comment)
			}
		}
	}
	return f, "", nil
}

// mapOracle maps a model of a file to a value.
type mapOracle struct {
	m      *MFile
	mapper int
	bad    []string // texts that do not convert
	hard   bool     // a nested section is missing for an element
	odd    bool     // a struct has no section but a key
	blown  bool
	set    int // fields set
	left   int // fields left for want of a key
	inh    bool
	lists  int
}

func (o *mapOracle) expand(s *MSec, k *MKey, text string) string {
	out, _, _, ok := o.m.expand(s, k, text, expandCap)
	o.blown = o.blown || !ok
	return out
}

func (o *mapOracle) fill(v reflect.Value, t tspec, s *MSec, idx int) {
	for i, f := range t.Fields {
		name := f.key(o.mapper)
		if f.Skip || name == "" {
			continue
		}
		fv := v.Field(i)
		switch f.Kind {
		case "struct":
			sec := s
			if f.Extends {
				if f.Tag != "" {
					if l := o.m.byName(s.Name + o.m.O.childDelim() + string(f.Tag)); idx < len(l) {
						sec = l[idx]
					}
				}
			} else {
				l := o.m.byName(name)
				if len(l) == 0 {
					o.left++
					if k := o.m.lookup(s, name); k != nil {
						o.odd = true
					}
					continue
				}
				if idx >= len(l) {
					o.hard = true
					continue
				}
				sec = l[idx]
			}
			if f.Ptr {
				if fv.IsNil() {
					fv.Set(reflect.New(fv.Type().Elem()))
				}
				fv = fv.Elem()
			}
			o.fill(fv, *f.Sub, sec, idx)
		case "list":
			for j, sec := range o.m.byName(name) {
				el := reflect.New(f.Sub.typ())
				o.fill(el.Elem(), *f.Sub, sec, j)
				if !f.Ptr {
					el = el.Elem()
				}
				fv.Set(reflect.Append(fv, el))
				o.lists++
			}
		default:
			k := o.m.lookup(s, name)
			if k == nil {
				o.left++
				continue
			}
			ks := o.m.lookupSec(s, name)
			o.inh = o.inh || ks != s
			if f.Kind == "slice" {
				o.slice(fv, f, ks, k)
				continue
			}
			text := o.expand(ks, k, k.Val)
			x, ok := convScalar(scalarTypes[f.Kind], f.Kind, text)
			switch {
			case !ok:
				o.bad = append(o.bad, name)
			case f.Ptr:
				p := reflect.New(x.Type())
				p.Elem().Set(x)
				fv.Set(p)
				o.set++
			case x.Kind() == reflect.String && text == "":
			default:
				fv.Set(x)
				o.set++
			}
		}
	}
}

func (o *mapOracle) slice(fv reflect.Value, f fspec, s *MSec, k *MKey) {
	var elems []string
	if f.Shadow {
		for _, v := range k.all() {
			for _, e := range strings.Split(v, f.delim()) {
				elems = append(elems, o.expand(s, k, strings.TrimSpace(e)))
			}
		}
	} else {
		elems = splitList(o.expand(s, k, k.Val), f.delim())
	}
	if len(elems) == 0 {
		return
	}
	out := reflect.MakeSlice(fv.Type(), len(elems), len(elems))
	for i, e := range elems {
		x, ok := convScalar(fv.Type().Elem(), f.Elem, e)
		if !ok {
			o.bad = append(o.bad, string(f.key(o.mapper)))
			continue // zero
		}
		out.Index(i).Set(x)
	}
	fv.Set(out)
	o.set++
}

// --- generation ---------------------------------------------------------------

// fieldText draws a text for a field, mostly one that converts.
func fieldText(t *rapid.T, g *typeGen, kind, listDelim string, bad int) string {
	if chance(t, bad) {
		return pick(t, anyNumText(t), "", "bad", messUp(t, g.scalarText(kind, "")), drawInt(t).Text(10))
	}
	switch kind {
	case "string", "nstring":
		if chance(t, 15) {
			return "%(" + pickFrom(t, fieldNames) + ")s"
		}
		return g.scalarText(kind, listDelim)
	case "bool", "nbool":
		return pickFrom(t, append(append([]string{}, trueTexts...), falseTexts...))
	case "duration":
		return pick(t, drawDuration(t).String(), intText(t, drawInt(t)), "10", "1h30m")
	case "time":
		return g.scalarText(kind, "")
	case "float64", "float32", "nfloat":
		return pick(t, g.scalarText(kind, ""), intTextDec(t))
	}
	n := g.scalarText(kind, "")
	return n
}

func intTextDec(t *rapid.T) string { return drawInt(t).Text(10) }

// docFor draws sections with keys for the fields of a type.
type docFor struct {
	t      *rapid.T
	g      *typeGen
	secs   []mapSec
	bad    int
	shadow bool
}

func (b *docFor) keysOf(s *tspec) []mapKey {
	t := b.t
	var out []mapKey
	for _, f := range s.Fields {
		name := f.key(b.g.mapper)
		switch {
		case f.Kind == "struct" && f.Extends:
			out = append(out, b.keysOf(f.Sub)...)
			continue
		case f.Kind == "struct" || f.Kind == "list":
			if name != "" && chance(t, 8) {
				out = append(out, mapKey{Name: S(name), Vals: []S{pick(t, S("text"), S("2020-01-01T00:00:00Z"), S(""), S("1"))}})
			}
			continue
		}
		if name == "" {
			name = f.Name
		}
		if chance(t, 20) {
			continue
		}
		k := mapKey{Name: S(name)}
		n := 1
		if b.shadow && chance(t, 40) {
			n = between(t, 2, 3)
		}
		for ; n > 0; n-- {
			v := ""
			if f.Kind == "slice" {
				var es []string
				for i := pick(t, 0, 1, 2, 3, 4); i > 0; i-- {
					es = append(es, fieldText(t, b.g, f.Elem, f.delim(), b.bad))
				}
				v = strings.Join(es, f.delim()+pick(t, "", " "))
				if chance(t, 10) {
					v = genListText(t, f.delim(), true)
				}
			} else {
				v = fieldText(t, b.g, f.Kind, "", b.bad)
			}
			k.Vals = append(k.Vals, S(v))
		}
		out = append(out, k)
	}
	return out
}

func (b *docFor) add(name string, s *tspec) {
	t := b.t
	keys := b.keysOf(s)
	if chance(t, 20) {
		keys = append(keys, mapKey{Name: S(pick(t, "unrelated", "Zz", "x")), Vals: []S{"1"}})
	}
	// Some keys lie in a parent section instead.
	if i := strings.LastIndex(name, b.g.delim); i > 0 && chance(t, 60) {
		p := mapSec{Name: S(name[:i])}
		own := keys[:0:0]
		for _, k := range keys {
			if chance(t, 40) {
				p.Keys = append(p.Keys, k)
			} else {
				own = append(own, k)
			}
		}
		keys = own
		b.secs = append(b.secs, p)
	}
	b.secs = append(b.secs, mapSec{Name: S(name), Keys: keys})
	b.nested(name, s, 1)
}

// nested adds the sections of the structs in a struct, times times.
func (b *docFor) nested(name string, s *tspec, times int) {
	t := b.t
	for _, f := range s.Fields {
		n := f.key(b.g.mapper)
		if n == "" || f.Skip && chance(t, 50) {
			continue
		}
		if f.Kind != "struct" && f.Kind != "list" && chance(t, 4) {
			b.secs = append(b.secs, mapSec{Name: S(n), Keys: []mapKey{{Name: "x", Vals: []S{"1"}}}})
		}
		switch {
		case f.Kind == "struct" && f.Extends:
			if f.Tag != "" && chance(t, 50) {
				pn := name
				if pn == "" {
					pn = ini.DefaultSection
				}
				for i := pick(t, times, intn(t, times+1)); i > 0; i-- {
					b.secs = append(b.secs, mapSec{Name: S(pn + b.g.delim + string(f.Tag)), Keys: b.keysOf(f.Sub)})
				}
			}
			b.nested(name, f.Sub, times)
		case f.Kind == "struct" && n == name:
			// the same section
			last := &b.secs[len(b.secs)-1]
			if string(last.Name) == name {
				last.Keys = append(last.Keys, b.keysOf(f.Sub)...)
			}
		case f.Kind == "struct":
			if chance(t, 20) {
				continue
			}
			if times == 1 {
				b.add(n, f.Sub)
				continue
			}
			have := times
			if chance(t, 10) {
				have = intn(t, times)
			}
			for i := 0; i < have; i++ {
				b.secs = append(b.secs, mapSec{Name: S(n), Keys: b.keysOf(f.Sub)})
			}
			b.nested(n, f.Sub, times)
		case f.Kind == "list":
			count := pick(t, 0, 1, 2, 3, 4)
			for i := 0; i < count; i++ {
				b.secs = append(b.secs, mapSec{Name: S(n), Keys: b.keysOf(f.Sub)})
				for _, x := range f.Sub.Fields {
					if x.Kind == "struct" && !x.Extends && x.key(b.g.mapper) == n {
						last := &b.secs[len(b.secs)-1]
						last.Keys = append(last.Keys, b.keysOf(x.Sub)...)
					}
				}
				if chance(t, 20) {
					b.secs = append(b.secs, mapSec{Name: "between", Keys: []mapKey{{Name: "x", Vals: []S{"1"}}}})
				}
			}
			if count > 0 {
				b.nested(n, f.Sub, count)
			}
		}
	}
}

func genMap(bad, lists int) func(t *rapid.T) mapCase {
	return func(t *rapid.T) mapCase {
		var d mapCase
		o := &d.O
		if chance(t, 40) {
			switch intn(t, 3) {
			case 0:
				o.Insensitive = true
			case 1:
				o.InsensitiveKeys = true
			case 2:
				o.InsensitiveSections = true
			}
		}
		o.AllowShadows = chance(t, 40)
		o.AllowDuplicateShadowValues = o.AllowShadows && chance(t, 40)
		o.AllowNonUniqueSections = chance(t, lists)
		o.ChildSectionDelimiter = pick(t, S(""), S(""), S("/"), S("::"))
		d.Mapper = pick(t, 0, 0, 0, 1, 2, 3, 4)
		g := &typeGen{t: t, names: map[string]bool{strings.ToLower(curDefault): true}, delim: o.childDelim(), mapper: d.Mapper, shadow: true}
		if o.AllowNonUniqueSections {
			g.lists = lists
		}
		d.Root = pick(t, S(""), S(""), S(""), S("app"), S("app"+o.childDelim()+"x"))
		if d.Root != "" {
			g.names[string(d.Root)] = true
			g.names["app"] = true
		}
		d.T = *g.spec(pick(t, 2, 2, 3), string(d.Root), map[string]bool{}, 6, false)
		d.Fresh = chance(t, 40)
		if d.Fresh {
			d.Init = zeroVal(d.T)
		} else {
			d.Init = g.fields(d.T)
			noLists(d.T, &d.Init)
		}
		b := &docFor{t: t, g: g, bad: bad, shadow: o.AllowShadows}
		b.add(string(d.Root), &d.T)
		d.Secs = b.secs
		d.Load = chance(t, 50)
		d.PP = chance(t, 15)
		if chance(t, 25) {
			for i := between(t, 1, 3); i > 0; i-- {
				a := mapAgain{Mapper: pick(t, d.Mapper, d.Mapper, 0, 1, 2, 3, 4)}
				sec := pickFrom(t, d.Secs)
				a.Op = mop{Op: pick(t, "set-value", "set-value", "new-key", "delete-key", "delete-section"), Sec: sec.Name, Key: S(pickFrom(t, fieldNames)), Val: S(anyNumText(t))}
				if len(sec.Keys) > 0 {
					k := pickFrom(t, sec.Keys)
					a.Op.Key = k.Name
					if chance(t, 70) {
						a.Op.Val = k.Vals[0]
					}
				}
				if chance(t, 40) {
					g2 := *g
					g2.names = map[string]bool{strings.ToLower(curDefault): true, string(d.Root): true, "app": true}
					a.T = g2.spec(pick(t, 1, 2), string(d.Root), map[string]bool{}, 4, false)
				}
				d.Again = append(d.Again, a)
			}
		}
		return d
	}
}

// noLists empties the lists of structs, which mapping appends to.
func noLists(s tspec, v *vval) {
	for i, f := range s.Fields {
		switch f.Kind {
		case "list":
			v.List[i] = vval{Nil: true}
		case "struct":
			if !v.List[i].Nil {
				noLists(*f.Sub, &v.List[i])
			}
		}
	}
}

// --- checks -------------------------------------------------------------------

// mapTo maps the file with one of the ways there are.
func (d mapCase) mapTo(f *ini.File, doc string, v any, strict bool) error {
	mapper := nameMappers[d.Mapper].m
	if doc != "" && d.Root == "" && reflect.DeepEqual(d.O, Opts{}) {
		switch {
		case strict && mapper == nil:
			return ini.StrictMapTo(v, []byte(doc))
		case strict:
			return ini.StrictMapToWithMapper(v, mapper, []byte(doc))
		case mapper == nil:
			return ini.MapTo(v, []byte(doc))
		default:
			return ini.MapToWithMapper(v, mapper, []byte(doc))
		}
	}
	f.NameMapper = mapper
	switch {
	case d.Root == "" && strict:
		return f.StrictMapTo(v)
	case d.Root == "":
		return f.MapTo(v)
	case strict:
		return f.Section(string(d.Root)).StrictMapTo(v)
	}
	return f.Section(string(d.Root)).MapTo(v)
}

func checkMap(c *Ctx, d mapCase, strict bool) error {
	m := d.model()
	typ := d.T.typ()
	want := reflect.New(typ)
	setStruct(want.Elem(), d.T, d.Init)
	o := &mapOracle{m: m, mapper: d.Mapper}
	unclearFloat = false
	o.fill(want.Elem(), d.T, m.section(string(d.Root)), 0)
	if unclearFloat {
		c.Exclude("rounds to the largest float32")
		return nil
	}
	if o.blown {
		c.Exclude("expansion grows without limit")
		return nil
	}
	c.Label(o.inh, "inherited")
	c.Label(len(o.bad) > 0, "unconvertible")
	c.Label(o.lists > 0, "lists")
	c.Label(o.lists > 2, "several-elements")
	c.Label(!d.Fresh, "initial-values")
	if strict {
		c.NonTrivial(len(o.bad) > 0 && o.set > 0 || o.set > 1)
	} else {
		c.NonTrivial(o.set > 1 && o.left+len(o.bad) > 0)
	}
	f, doc, err := d.build()
	if err != nil {
		return err
	}
	before, err := snapshot(f)
	if err != nil {
		return err
	}
	target := func(v reflect.Value) any {
		if d.PP {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			return p.Interface()
		}
		return v.Interface()
	}
	got := reflect.New(typ)
	setStruct(got.Elem(), d.T, d.Init)
	shared := sharers(got.Elem(), "")
	c.Label(len(shared) > 0, "pointers-and-lists-before")
	err = d.mapTo(f, doc, target(got), false)
	for _, s := range shared {
		if err := s(); err != nil {
			return fmt.Errorf("MapTo %v: %v", typ, err)
		}
	}
	if o.hard {
		c.Label(true, "missing-nested")
		if err == nil {
			return fmt.Errorf("MapTo %v: no error although an element lacks a nested section", typ)
		}
		if strict && d.mapTo(f, doc, target(reflect.New(typ)), true) == nil {
			return fmt.Errorf("StrictMapTo %v: no error although an element lacks a nested section", typ)
		}
		return nil
	}
	if err != nil {
		if o.odd {
			c.Label(true, "key-for-struct")
			return nil
		}
		return fmt.Errorf("MapTo %v: %v", typ, err)
	}
	if err := sameValue(got.Elem(), want.Elem()); err != nil {
		return fmt.Errorf("MapTo %v: %v (texts that do not convert: %q)", typ, err, o.bad)
	}
	if strict {
		got := reflect.New(typ)
		setStruct(got.Elem(), d.T, d.Init)
		err := d.mapTo(f, doc, target(got), true)
		if o.odd && err != nil {
			return nil
		}
		if (err != nil) != (len(o.bad) > 0) {
			return fmt.Errorf("StrictMapTo %v: error %v, texts that do not convert: %q", typ, err, o.bad)
		}
		if err == nil {
			if err := sameValue(got.Elem(), want.Elem()); err != nil {
				return fmt.Errorf("StrictMapTo %v: %v", typ, err)
			}
		}
	}
	if d.Root != "" && m.first(string(d.Root)) == nil {
		return nil
	}
	if err := checkFile(f, before, cmp{noDefault: true}); err != nil {
		return err
	}
	return d.again(c, f, m, strict)
}

func (d mapCase) again(c *Ctx, f *ini.File, m *MFile, strict bool) error {
	// What mapping creates on the way exists from now on.
	for _, n := range []string{"", string(d.Root)} {
		f.Section(n)
		m.section(n)
	}
	x := &machine{f: f, m: m}
	for i, a := range d.Again {
		if err := x.step(a.Op); err != nil {
			return fmt.Errorf("edit %d: %v", i, err)
		}
		spec := d.T
		if a.T != nil {
			spec = *a.T
		}
		typ := spec.typ()
		want, got := reflect.New(typ), reflect.New(typ)
		setStruct(want.Elem(), spec, zeroVal(spec))
		setStruct(got.Elem(), spec, zeroVal(spec))
		o := &mapOracle{m: m, mapper: a.Mapper}
		unclearFloat = false
		f.Section(string(d.Root))
		o.fill(want.Elem(), spec, m.section(string(d.Root)), 0)
		if unclearFloat || o.blown {
			return nil
		}
		c.Label(true, "again")
		c.Label(a.T != nil, "again-other-type")
		c.Label(a.Mapper != d.Mapper, "again-other-mapper")
		d.Mapper = a.Mapper
		err := d.mapTo(f, "", got.Interface(), strict)
		bad := o.hard || strict && len(o.bad) > 0
		if o.odd && err != nil {
			continue
		}
		if (err != nil) != bad {
			return fmt.Errorf("mapping %v again (%d, after %s): error %v, texts that do not convert: %q", typ, i, a.Op.Op, err, o.bad)
		}
		if err == nil {
			if err := sameValue(got.Elem(), want.Elem()); err != nil {
				return fmt.Errorf("mapping %v again (%d, after %s): %v", typ, i, a.Op.Op, err)
			}
		}
	}
	return nil
}

// unsupCase maps and reflects a field of an unsupported type, or something
// that is not a struct.
type unsupCase struct {
	What   int
	Has    bool // the key exists
	Text   S
	Strict bool
	// Nonunique is the option of the field, which asks for a slice of structs.
	Nonunique bool
	// Shadow is the option that asks for one shadow per element.
	Shadow bool `json:",omitempty"`
}

func (d unsupCase) tag() reflect.StructTag {
	switch {
	case d.Nonunique && d.Shadow:
		return `ini:",allowshadow,nonunique"`
	case d.Nonunique:
		return `ini:",nonunique"`
	case d.Shadow:
		return `ini:",allowshadow"`
	}
	return ""
}

var unsupported = []reflect.Type{
	reflect.TypeOf(map[string]string{}), reflect.TypeOf(make(chan int)), reflect.TypeOf(uint8(0)), reflect.TypeOf(complex(1, 1)), reflect.TypeOf([]int8{}), reflect.TypeOf([]*int{}),
	reflect.TypeOf([2]int{}), reflect.TypeOf(func() {}), reflect.TypeOf(new([]string)), reflect.TypeOf(new(*int)), reflect.TypeOf([][]string{}), reflect.TypeOf([]struct{ A int }{}),
	reflect.TypeOf((*any)(nil)).Elem(), reflect.TypeOf([]any{}), reflect.TypeOf(new(map[string]int)), reflect.TypeOf(uintptr(0)), reflect.TypeOf([]float32{}), reflect.TypeOf([]uint8{}), reflect.TypeOf(new(uint8)),
}

// notStructs are targets that are not pointers to structs.
func notStructs() []any {
	n, s, m := 1, "x", map[string]int{}
	var np *int
	var ns *struct{ A int }
	pns := &ns
	return []any{nil, 1, "x", struct{ A int }{}, &n, &s, &m, m, np, ns, pns, []int{1}, &[]int{}, []struct{ A int }{}, func() {}, new(any), &np, [1]int{}, &[1]int{}, &[]*int{}, []*int{nil}}
}

func checkUnsupported(c *Ctx, d unsupCase) error {
	c.NonTrivial(true)
	f := ini.Empty(ini.LoadOptions{AllowNonUniqueSections: d.Strict, AllowShadows: d.Shadow})
	s := f.Section("sec")
	if d.Has {
		if _, err := s.NewKey("F", string(d.Text)); err != nil {
			return err
		}
	}
	if _, err := s.NewKey("After", "7"); err != nil {
		return err
	}
	do := func(v any) error {
		if d.Strict {
			return s.StrictMapTo(v)
		}
		return s.MapTo(v)
	}
	if d.What < len(unsupported) {
		typ := reflect.StructOf([]reflect.StructField{{Name: "F", Type: unsupported[d.What], Tag: d.tag()}, {Name: "After", Type: reflect.TypeOf(0)}})
		v := reflect.New(typ)
		if d.Nonunique && typ.Field(0).Type.Kind() == reflect.Slice {
			for i := 0; i < 2; i++ {
				if _, err := f.NewSection("F"); err != nil {
					return err
				}
			}
			err := do(v.Interface())
			c.Label(true, "nonunique")
			if e := typ.Field(0).Type.Elem(); (err == nil) != (e.Kind() == reflect.Struct) {
				return fmt.Errorf("mapping sections to %v: error %v", typ, err)
			}
			return nil
		}
		err := do(v.Interface())
		c.Label(d.Has, "unsupported")
		if !d.Has {
			if err != nil || v.Elem().Field(1).Int() != 7 {
				return fmt.Errorf("mapping %v without the key: error %v, next field %d", typ, err, v.Elem().Field(1).Int())
			}
		} else if err == nil && d.Text != "" {
			return fmt.Errorf("mapping %q to the unsupported type %v gives no error", d.Text, unsupported[d.What])
		}
		return nil
	}
	for i, v := range notStructs() {
		if i != d.What-len(unsupported) {
			continue
		}
		c.Label(true, "no-struct")
		if err := do(v); err == nil {
			return fmt.Errorf("mapping to %T gives no error", v)
		}
		if err := f.MapTo(v); err == nil {
			return fmt.Errorf("mapping the file to %T gives no error", v)
		}
	}
	return nil
}

func init() {
	register("C25",
		"a case is non-trivial when at least two fields are set and at least one is left untouched; in the unsupported types every case is",
		sub[mapCase]{name: "map", quick: 100000, thoro: 800000, gen: genMap(20, 25),
			check: func(c *Ctx, d mapCase) error { return checkMap(c, d, false) }},
		sub[unsupCase]{name: "unsupported", quick: 1500, thoro: 5000,
			gen: func(t *rapid.T) unsupCase {
				return unsupCase{What: intn(t, len(unsupported)+len(notStructs())), Has: chance(t, 70), Text: S(pick(t, "x", "1", "1,2", "", "2020-01-01T00:00:00Z", "true")), Strict: chance(t, 50), Nonunique: chance(t, 30), Shadow: chance(t, 30)}
			}, check: checkUnsupported},
	)
	register("C26",
		"a case is non-trivial when some text does not convert while another field is set, or at least two fields are set",
		sub[mapCase]{name: "strict", quick: 100000, thoro: 800000, gen: func(t *rapid.T) mapCase { return genMap(pick(t, 0, 0, 5, 30), 25)(t) },
			check: func(c *Ctx, d mapCase) error { return checkMap(c, d, true) }},
	)
}
