package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// tspec describes a struct type as data.
type tspec struct{ Fields []fspec }

type fspec struct {
	Name           string
	Kind           string // a scalar kind, "slice", "struct", or "list" (a slice of structs from repeated sections)
	Elem           string `json:",omitempty"` // kind of the elements of a slice
	Ptr            bool   `json:",omitempty"` // pointer to a scalar or struct; for a list, its elements
	Embed, Extends bool   `json:",omitempty"`
	ExtTag         bool   `json:",omitempty"` // the option of an embedded struct for one that is not embedded
	Skip           bool   `json:",omitempty"` // ini:"-"
	Hidden         bool   `json:",omitempty"` // not exported; Skip is set, too
	OptOrder       int    `json:",omitempty"` // rotates the options of the tag
	OptPad         bool   `json:",omitempty"` // an empty option in front
	Tag            S      `json:",omitempty"`
	OmitEmpty      bool   `json:",omitempty"`
	Shadow         bool   `json:",omitempty"` // allowshadow
	Delim          S      `json:",omitempty"`
	Comment        S      `json:",omitempty"`
	Sub            *tspec `json:",omitempty"`
}

type (
	namedString string
	namedInt    int
	namedInt16  int16
	namedUint   uint
	namedFloat  float64
	namedBool   bool
	namedInt64  int64
)

var scalarTypes = map[string]reflect.Type{
	"string": reflect.TypeOf(""), "bool": reflect.TypeOf(false),
	"int": reflect.TypeOf(0), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)), "int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint16": reflect.TypeOf(uint16(0)), "uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float64": reflect.TypeOf(float64(0)), "float32": reflect.TypeOf(float32(0)),
	"duration": reflect.TypeOf(time.Duration(0)), "time": reflect.TypeOf(time.Time{}),
	"nstring": reflect.TypeOf(namedString("")), "nint": reflect.TypeOf(namedInt(0)), "nint16": reflect.TypeOf(namedInt16(0)), "nuint": reflect.TypeOf(namedUint(0)),
	"nfloat": reflect.TypeOf(namedFloat(0)), "nbool": reflect.TypeOf(namedBool(false)), "nint64": reflect.TypeOf(namedInt64(0)),
}

var (
	scalarKinds = []string{"string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64", "float64", "float32", "duration", "time",
		"nstring", "nint", "nint16", "nuint", "nfloat", "nbool", "nint64"}
	elemKinds = []string{"string", "int", "int64", "uint", "uint64", "float64", "bool", "time", "nstring", "nint", "nuint", "nfloat", "nbool", "nint64"}
)

// typ builds the type.
func (t tspec) typ() reflect.Type {
	var fs []reflect.StructField
	for _, f := range t.Fields {
		sf := reflect.StructField{Name: f.Name, Type: f.typ(), Tag: f.tag(), Anonymous: f.Embed}
		if f.Hidden {
			sf.PkgPath = "main"
		}
		fs = append(fs, sf)
	}
	return reflect.StructOf(fs)
}

func (f fspec) typ() reflect.Type {
	switch f.Kind {
	case "slice":
		return reflect.SliceOf(scalarTypes[f.Elem])
	case "struct":
		if f.Ptr {
			return reflect.PointerTo(f.Sub.typ())
		}
		return f.Sub.typ()
	case "list":
		if f.Ptr {
			return reflect.SliceOf(reflect.PointerTo(f.Sub.typ()))
		}
		return reflect.SliceOf(f.Sub.typ())
	}
	if f.Ptr {
		return reflect.PointerTo(scalarTypes[f.Kind])
	}
	return scalarTypes[f.Kind]
}

func (f fspec) tag() reflect.StructTag {
	var parts []string
	var list []string
	if f.OmitEmpty {
		list = append(list, "omitempty")
	}
	if f.Shadow {
		list = append(list, "allowshadow")
	}
	if f.Kind == "list" {
		list = append(list, "nonunique")
	}
	if f.Extends || f.ExtTag {
		list = append(list, "extends")
	}
	if n := len(list); n > 0 {
		k := f.OptOrder % n
		list = append(list[k:n:n], list[:k]...)
		if f.OptPad && n < 4 {
			list = append([]string{""}, list...)
		}
	}
	opts := ""
	for _, o := range list {
		opts += "," + o
	}
	switch {
	case f.Skip && !f.Hidden:
		parts = append(parts, `ini:"-"`)
	case f.Tag != "" || opts != "":
		parts = append(parts, "ini:"+strconv.Quote(string(f.Tag)+opts))
	}
	if f.Delim != "" {
		parts = append(parts, "delim:"+strconv.Quote(string(f.Delim)))
	}
	if f.Comment != "" {
		parts = append(parts, "comment:"+strconv.Quote(string(f.Comment)))
	}
	return reflect.StructTag(strings.Join(parts, " "))
}

func (f fspec) delim() string {
	if f.Delim == "" {
		return ","
	}
	return string(f.Delim)
}

// nameMappers are the mappers and what they make of a name.
var nameMappers = []struct {
	m    ini.NameMapper
	want func(string) string
}{
	{nil, func(s string) string { return s }},
	{ini.SnackCase, func(s string) string { return strings.ToUpper(underscore(s)) }},
	{ini.TitleUnderscore, func(s string) string { return asciiLower(underscore(s)) }},
	{strings.ToLower, strings.ToLower},
	{dropY, dropY},
}

// dropY leaves the names that start with Y out.
func dropY(s string) string {
	if strings.HasPrefix(s, "Y") {
		return ""
	}
	return s + "_"
}

func underscore(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if i > 0 && 'A' <= s[i] && s[i] <= 'Z' {
			b.WriteByte('_')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

func asciiLower(s string) string {
	b := []byte(s)
	for i := range b {
		if 'A' <= b[i] && b[i] <= 'Z' {
			b[i] += 'a' - 'A'
		}
	}
	return string(b)
}

func (f fspec) key(mapper int) string {
	if f.Tag != "" {
		return string(f.Tag)
	}
	return nameMappers[mapper].want(f.Name)
}

// vval is a value of a field as data.
type vval struct {
	Nil  bool   `json:",omitempty"`
	Text S      `json:",omitempty"`
	List []vval `json:",omitempty"` // of a slice or list, or the fields of a struct
}

func setStruct(v reflect.Value, t tspec, x vval) {
	for i, f := range t.Fields {
		if !f.Hidden {
			setField(v.Field(i), f, x.List[i])
		}
	}
}

func setField(v reflect.Value, f fspec, x vval) {
	switch f.Kind {
	case "slice":
		if x.Nil {
			return
		}
		s := reflect.MakeSlice(v.Type(), len(x.List), len(x.List))
		for i, e := range x.List {
			setScalar(s.Index(i), f.Elem, string(e.Text))
		}
		v.Set(s)
	case "list":
		if x.Nil {
			return
		}
		s := reflect.MakeSlice(v.Type(), len(x.List), len(x.List))
		for i, e := range x.List {
			el := s.Index(i)
			if f.Ptr {
				el.Set(reflect.New(el.Type().Elem()))
				el = el.Elem()
			}
			setStruct(el, *f.Sub, e)
		}
		v.Set(s)
	case "struct":
		if f.Ptr {
			if x.Nil {
				return
			}
			v.Set(reflect.New(v.Type().Elem()))
			v = v.Elem()
		}
		setStruct(v, *f.Sub, x)
	default:
		if f.Ptr {
			if x.Nil {
				return
			}
			v.Set(reflect.New(v.Type().Elem()))
			v = v.Elem()
		}
		setScalar(v, f.Kind, string(x.Text))
	}
}

// setScalar sets a value from the text of genScalar.
func setScalar(v reflect.Value, kind, text string) {
	if text == "" && v.Kind() != reflect.String {
		return
	}
	x, ok := convScalar(v.Type(), kind, text)
	if !ok {
		panic(fmt.Sprintf("setScalar: %s %q", kind, text))
	}
	v.Set(x)
}

// unclearFloat is set when a text was beyond the largest float32 but closer to
// it than to the next one, so that it may count as fitting or not.
var unclearFloat bool

// convScalar is the value of a text for a field of that kind.
func convScalar(typ reflect.Type, kind, text string) (out reflect.Value, ok bool) {
	out = reflect.New(typ).Elem()
	switch {
	case kind == "time":
		x, ok := oracleTime(time.RFC3339)(text)
		out.Set(reflect.ValueOf(x))
		return out, ok
	case kind == "duration":
		if d, ok := oracleDuration(text); ok {
			out.SetInt(int64(d))
			return out, true
		}
		n, ok := oracleInt(text)
		out.SetInt(n)
		return out, ok
	case typ.Kind() == reflect.String:
		out.SetString(text)
		return out, true
	case typ.Kind() == reflect.Bool:
		b, ok := oracleBool(text)
		out.SetBool(b)
		return out, ok
	case out.CanInt():
		n, ok := oracleInt(text)
		if bits := typ.Bits(); n < -1<<(bits-1) || n > 1<<(bits-1)-1 {
			return out, false
		}
		out.SetInt(n)
		return out, ok
	case out.CanUint():
		n, ok := oracleUint(text)
		if bits := typ.Bits(); bits < 64 && n >= 1<<bits {
			return out, false
		}
		out.SetUint(n)
		return out, ok
	}
	x, ok := oracleFloat(text)
	if a := math.Abs(x); typ.Bits() == 32 && a > math.MaxFloat32 && !math.IsInf(x, 0) {
		// Up to here the nearest float32 is still finite.
		unclearFloat = unclearFloat || a < math.MaxFloat32*(1+1.0/(1<<24))
		return out, false
	}
	out.SetFloat(x)
	return out, ok
}

// sameValue compares two values of one type: instants as instants, no list
// like an empty one.
func sameValue(a, b reflect.Value) error {
	if a.Type() == scalarTypes["time"] {
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Equal(y) {
			return fmt.Errorf("%v, want %v", x, y)
		}
		return nil
	}
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			x, y, f := a.Field(i), b.Field(i), a.Type().Field(i)
			if !f.IsExported() {
				if !x.IsZero() {
					return fmt.Errorf("%s: the unexported field is set", f.Name)
				}
				continue
			}
			if f.Anonymous && f.Type.Kind() == reflect.Pointer && x.IsNil() != y.IsNil() {
				// An embedded pointer is allocated whether it is needed or not.
				z := reflect.New(f.Type.Elem())
				if x.IsNil() {
					x = z
				} else {
					y = z
				}
			}
			if err := sameValue(x, y); err != nil {
				return fmt.Errorf("%s: %v", f.Name, err)
			}
		}
		return nil
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Errorf("nil: %v, want nil: %v", a.IsNil(), b.IsNil())
			}
			return nil
		}
		return sameValue(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Errorf("%d elements, want %d", a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if err := sameValue(a.Index(i), b.Index(i)); err != nil {
				return fmt.Errorf("[%d]: %v", i, err)
			}
		}
		return nil
	case reflect.Float32, reflect.Float64:
		if !sameFloat(a.Float(), b.Float()) {
			return fmt.Errorf("%v, want %v", a.Float(), b.Float())
		}
		return nil
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return fmt.Errorf("%#v, want %#v", a.Interface(), b.Interface())
	}
	return nil
}

// --- generators ---------------------------------------------------------------

var fieldNames = []string{"Name", "HTTPPort", "FieldOne", "A", "AgeInYears", "X1", "Data_Dir", "Yes", "B", "Value", "ÉtatCivil", "ID", "LongNameOfAField", "Z"}
var secFieldNames = []string{"Server", "DBConn", "Sub", "InnerPart", "Log", "Ypsilon", "Extra", "Deep", "Nested9", "Q"}

// sharers are checks that nothing changes that the scalar pointers and lists in
// a struct point to: whoever else holds them must not see what is mapped.
func sharers(v reflect.Value, path string) (out []func() error) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			break
		}
		if e := v.Type().Elem(); e.Kind() == reflect.Struct && e != reflect.TypeOf(time.Time{}) {
			return sharers(v.Elem(), path)
		}
		p, was := v.Elem(), reflect.New(v.Type().Elem())
		was.Elem().Set(p)
		out = append(out, func() error {
			if err := sameValue(p, was.Elem()); err != nil {
				return fmt.Errorf("%s: what the pointer pointed to changed: %v", path, err)
			}
			return nil
		})
	case reflect.Slice:
		if v.IsNil() {
			break
		}
		l, was := v.Slice(0, v.Len()), reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		reflect.Copy(was, l)
		out = append(out, func() error {
			for i := 0; i < l.Len(); i++ {
				if err := sameValue(l.Index(i), was.Index(i)); err != nil {
					return fmt.Errorf("%s: element %d of the former list changed: %v", path, i, err)
				}
			}
			return nil
		})
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			break
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out = append(out, sharers(v.Field(i), path+"."+v.Type().Field(i).Name)...)
			}
		}
	}
	return out
}

type typeGen struct {
	t      *rapid.T
	names  map[string]bool // of sections in use
	delim  string          // of child sections
	lists  int             // percentage of lists
	tags   bool            // odd tags
	mapper int
	shadow bool
	// reflect is set for types that are reflected: nothing that is not kept.
	reflect bool
}

// secTag draws a tag for a struct field so that its section's name is unique.
func (g *typeGen) secTag(f *fspec, parent string) {
	for i := 0; ; i++ {
		switch {
		case i > 4:
			f.Tag = S(fmt.Sprintf("sec%d", len(g.names)))
		case chance(g.t, 30):
			f.Tag = S(pick(g.t, "s", "t", "peer", "my section", "sec-x", "É", "extends", "nonunique"))
			if parent != "" && chance(g.t, 60) {
				f.Tag = S(parent + g.delim + string(f.Tag))
			}
		}
		n := strings.ToLower(f.key(g.mapper))
		if !g.names[n] {
			g.names[n] = true
			return
		}
	}
}

func (g *typeGen) spec(depth int, secName string, keys map[string]bool, max int, inList bool) *tspec {
	t := g.t
	s := &tspec{}
	used := map[string]bool{}
	child := g.isChild(secName)
	n := between(t, 1, max)
	for len(s.Fields) < n {
		f := fspec{}
		switch {
		case depth > 0 && chance(t, 25):
			f.Kind = "struct"
			f.Ptr = chance(t, 40) && !(inList && g.reflect)
			f.Embed = chance(t, 30)
			f.Extends = f.Embed && chance(t, 50)
			f.ExtTag = !f.Embed && chance(t, 10)
			if f.Extends && child && g.reflect {
				f.Ptr = false // nil, it would inherit on the way back
			}
		case depth > 0 && !inList && chance(t, g.lists):
			f.Kind = "list"
			f.Ptr = chance(t, 40)
		case chance(t, 25):
			f.Kind, f.Elem = "slice", pickFrom(t, elemKinds)
			f.Delim = pick(t, S(""), S(""), S(";"), S("|"), S("::"), S("/"), S("; "), S(" "))
			f.Shadow = g.shadow && chance(t, 40)
		default:
			f.Kind = pickFrom(t, scalarKinds)
			f.Ptr = chance(t, 20)
		}
		pool := fieldNames
		if f.Kind == "struct" || f.Kind == "list" {
			pool = secFieldNames
		}
		f.Name = pickFrom(t, pool)
		for i := 0; used[f.Name]; i++ {
			f.Name = fmt.Sprintf("%s%d", f.Name, i)
		}
		used[f.Name] = true
		f.Comment = pick(t, S(""), S(""), S("about it"), S("# x"), S("; y"))
		f.OmitEmpty = chance(t, 20) && !child
		switch f.Kind {
		case "struct":
			if f.Extends {
				f.OmitEmpty = f.OmitEmpty && !f.Ptr
				if !g.reflect && chance(t, 30) {
					f.Tag = S(pick(t, "ext", "e2"))
				}
				f.Sub = g.spec(depth-1, secName, keys, 3, inList)
				if f.key(g.mapper) == "" {
					f.Extends = false
					f.Skip = true
				}
			} else if inList && chance(t, 15) && secName != "" {
				// the section of the element itself
				f.Tag = S(secName)
				f.Sub = g.spec(depth-1, secName, keys, 3, inList)
			} else {
				g.secTag(&f, secName)
				f.Sub = g.spec(depth-1, f.key(g.mapper), map[string]bool{}, 4, inList)
			}
		case "list":
			f.OmitEmpty = false
			g.secTag(&f, secName)
			f.Sub = g.spec(depth-1, f.key(g.mapper), map[string]bool{}, 4, true)
		default:
			if chance(t, 25) {
				f.Tag = S(pick(t, "key", "other-key", "a b", "k.x", "日本", "Field_Tag", "x=y", "#h", "omitempty", "allowshadow"))
			}
			for i := 0; keys[strings.ToLower(f.key(g.mapper))] && f.key(g.mapper) != ""; i++ {
				f.Tag = S(fmt.Sprintf("k%d", i))
			}
			keys[strings.ToLower(f.key(g.mapper))] = true
		}
		if chance(t, 6) {
			f.Skip = true
		}
		if f.Kind != "struct" && f.Kind != "list" && chance(t, 5) {
			f.Skip, f.Hidden = true, true
			f.Name = fmt.Sprintf("x%d%s", len(s.Fields), f.Name)
		}
		f.OptOrder, f.OptPad = pick(t, 0, 0, 1, 2, 3), chance(t, 15)
		s.Fields = append(s.Fields, f)
	}
	return s
}

// isChild tells whether keys of the section may be inherited.
func (g *typeGen) isChild(name string) bool { return strings.Contains(name, g.delim) }

// scalarText draws the text of a value of that kind.
func (g *typeGen) scalarText(kind string, listDelim string) string {
	t := g.t
	switch kind {
	case "string", "nstring":
		s := pick(t, word(t), anyText(t, 4), odd(t, 3), "v")
		s = strings.ReplaceAll(s, "%(", "")
		if listDelim != "" {
			s = word(t) + odd(t, 1)
			s = strings.ReplaceAll(s, "%(", "")
			s = strings.Map(func(r rune) rune {
				if r == '\\' || r == 0xfffd || strings.ContainsRune(listDelim, r) {
					return -1
				}
				return r
			}, s)
			s = strings.TrimSpace(s)
			if s == "" || strings.Contains(s, "%(") {
				s = "e"
			}
		}
		return s
	case "bool", "nbool":
		return pick(t, "true", "false")
	case "float64", "float32", "nfloat":
		for {
			f := drawFloat(t)
			if kind == "float32" {
				f = float64(float32(f))
			}
			return strconv.FormatFloat(f, 'g', -1, 64)
		}
	case "duration":
		return drawDuration(t).String()
	case "time":
		x := drawTime(t)
		return x.Truncate(time.Second).Format(time.RFC3339)
	}
	typ := scalarTypes[kind]
	for i := 0; i < 4; i++ {
		s := drawInt(t).Text(10)
		if _, ok := convScalar(typ, kind, s); ok {
			return s
		}
	}
	return pick(t, "0", "7", "100")
}

func (g *typeGen) value(f fspec) vval {
	t := g.t
	switch f.Kind {
	case "struct":
		if f.Ptr && chance(t, 20) {
			return vval{Nil: true}
		}
		return g.fields(*f.Sub)
	case "list":
		v := vval{Nil: chance(t, 10)}
		if !v.Nil {
			for i := pick(t, 0, 1, 2, 2, 3, 5); i > 0; i-- {
				v.List = append(v.List, g.fields(*f.Sub))
			}
		}
		return v
	case "slice":
		v := vval{Nil: chance(t, 15)}
		if !v.Nil {
			seen := map[string]bool{}
			for i := pick(t, 0, 1, 2, 3, 4); i > 0; i-- {
				s := g.scalarText(f.Elem, f.delim())
				if f.Shadow && (seen[s] || s == "") {
					continue // shadows are without duplicates
				}
				seen[s] = true
				v.List = append(v.List, vval{Text: S(s)})
			}
		}
		return v
	}
	if f.Ptr && chance(t, 25) && (f.Kind != "string" && f.Kind != "nstring" || f.OmitEmpty) {
		return vval{Nil: true}
	}
	if chance(t, 15) {
		if f.Kind == "time" {
			return vval{Text: "0001-01-01T00:00:00Z"}
		}
		return vval{}
	}
	return vval{Text: S(g.scalarText(f.Kind, ""))}
}

func (g *typeGen) fields(s tspec) vval {
	var v vval
	for _, f := range s.Fields {
		v.List = append(v.List, g.value(f))
	}
	return v
}

// zeroVal is the value of a fresh struct.
func zeroVal(s tspec) vval {
	var v vval
	for _, f := range s.Fields {
		x := vval{Nil: f.Ptr || f.Kind == "slice" || f.Kind == "list"}
		if f.Kind == "struct" && !f.Ptr {
			x = zeroVal(*f.Sub)
		}
		v.List = append(v.List, x)
	}
	return v
}
