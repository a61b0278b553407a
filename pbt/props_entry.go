package main

import (
	"errors"
	"fmt"
	"reflect"
	"strings"
	"time"
	"unicode"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// --- C31: entry points that stand for others ------------------------------------------

type entryCase struct {
	Fn   string
	O    Opts // of Empty
	Srcs []srcSpec
	Add  []S // appended to an Empty file
	Ops  []mop
}

// sameOutcome compares two loads: the same file, or the same error.
func sameOutcome(f, g *ini.File, e1, e2 error) error {
	if (e1 == nil) != (e2 == nil) {
		return fmt.Errorf("error %v, the general form: %v", e1, e2)
	}
	if e1 != nil {
		if f != nil {
			return fmt.Errorf("a file together with the error %v", e1)
		}
		if e1.Error() != e2.Error() || ini.IsErrDelimiterNotFound(e1) != ini.IsErrDelimiterNotFound(e2) || ini.IsErrEmptyKeyName(e1) != ini.IsErrEmptyKeyName(e2) {
			return fmt.Errorf("error %q, the general form: %q", e1, e2)
		}
		return nil
	}
	want, err := snapshot(g)
	if err != nil {
		return err
	}
	return checkFile(f, want, cmp{})
}

var entryOpts = map[string]Opts{
	"Load": {}, "LooseLoad": {Loose: true}, "InsensitiveLoad": {Insensitive: true}, "ShadowLoad": {AllowShadows: true},
}

func genEntry(t *rapid.T) entryCase {
	d := entryCase{Fn: pick(t, "Load", "LooseLoad", "InsensitiveLoad", "ShadowLoad", "Empty")}
	if d.Fn == "Empty" {
		if chance(t, 70) {
			d.O = isoOpts(t)
			if chance(t, 50) {
				d.O = loadOpts(t, 30)
				d.O.AllowNestedValues = d.O.AllowNestedValues && !d.O.AllowPythonMultilineValues
			}
		}
		for i := pick(t, 0, 1, 1, few(t, 3)); i > 0; i-- {
			b := newDoc(t, &MFile{O: d.O}, stdConf(t))
			b.items(intn(t, 8))
			s := S(b.finish())
			if chance(t, 20) {
				s = S(soup(t, 4, 4))
			}
			d.Add = append(d.Add, s)
		}
	} else {
		b := newDoc(t, &MFile{O: entryOpts[d.Fn]}, stdConf(t))
		for i := pick(t, 1, 1, 2, 3, few(t, 4)); i > 0; i-- {
			s := srcSpec{Kind: pick(t, "bytes", "bytes", "bytes", "file", "reader", "closer")}
			if len(d.Srcs) > 0 {
				b.startSource()
			}
			b.items(intn(t, 8))
			s.Data = S(b.finish())
			switch {
			case chance(t, 15):
				s.Data = S(soup(t, 4, 4))
			case chance(t, 10):
				s = srcSpec{Kind: pick(t, "missing", "missing-dir", "missing", "dir", "int", "nil", "strings")}
			case chance(t, 5):
				s.Data = ""
			}
			d.Srcs = append(d.Srcs, s)
		}
	}
	g := opGen{ops: isoOps, secs: []string{"a", "A", "a.b", "", "b", "Sec", "DEFAULT"}, keys: []string{"a", "b", "key", "KEY", "A"}, val: plainVal, maxIdx: 1, held: 10}
	d.Ops = g.list(t, 6)

	return d
}

func (d entryCase) check(c *Ctx) error {
	var f, g *ini.File
	var e1, e2 error
	o := entryOpts[d.Fn]
	c.Label(true, d.Fn)
	if d.Fn == "Empty" {
		o = d.O
		if reflect.DeepEqual(o, Opts{}) {
			f = ini.Empty()
		} else {
			f = ini.Empty(o.ini())
		}
		g, e2 = ini.LoadSources(o.ini(), []byte(""))
	} else {
		s1, s2 := openAll(d.Srcs), openAll(d.Srcs)
		for i, s := range d.Srcs {
			if s.Kind == "missing" || s.Kind == "missing-dir" || s.Kind == "file" {
				s2[i] = s1[i] // the path is part of the error
			}
		}
		fn := map[string]func(any, ...any) (*ini.File, error){"Load": ini.Load, "LooseLoad": ini.LooseLoad, "InsensitiveLoad": ini.InsensitiveLoad, "ShadowLoad": ini.ShadowLoad}[d.Fn]
		f, e1 = fn(s1[0], s1[1:]...)
		g, e2 = ini.LoadSources(o.ini(), s2[0], s2[1:]...)
	}
	if err := sameOutcome(f, g, e1, e2); err != nil {
		return fmt.Errorf("%s: %v", d.Fn, err)
	}
	if e1 != nil {
		c.Label(true, "error")
		c.NonTrivial(len(d.Srcs) > 1)
		return nil
	}
	c.NonTrivial(true)
	if !f.BlockMode {
		return errors.New(d.Fn + ": block mode is off")
	}
	if len(d.Add) > 0 {
		c.Label(true, "appended")
		for i, s := range d.Add {
			e1, e2 := f.Append([]byte(s)), g.Append([]byte(s))
			if (e1 == nil) != (e2 == nil) || e1 != nil && e1.Error() != e2.Error() {
				return fmt.Errorf("%s: Append %d: error %v, to one loaded from nothing: %v", d.Fn, i, e1, e2)
			}
			if e1 != nil {
				c.Label(true, "append-error")
				break
			}
		}
		if err := sameOutcome(f, g, nil, nil); err != nil {
			return fmt.Errorf("%s and Append: %v", d.Fn, err)
		}
		return nil
	}
	// The file goes on as one loaded with the options does.
	m := &MFile{O: o}
	for _, s := range d.Srcs {
		switch s.Kind {
		case "missing", "missing-dir":
			m.section("")
		default:
			m.apply(string(s.Data))
		}
	}
	m.section("")
	x := &machine{f: f, m: m}
	for i, op := range d.Ops {
		if err := x.step(op); err != nil {
			return fmt.Errorf("%s, step %d: %v", d.Fn, i, err)
		}
	}
	if err := x.agree(); err != nil {
		return fmt.Errorf("%s: %v", d.Fn, err)
	}
	return nil
}

type entryStruct struct {
	Name     string
	SomeText string
	Num      int
	ManyNums []int
	Flag     bool
	Wait     time.Duration
	At       time.Time
	Ratio    float64 `ini:"ratio"`
	Inner    struct {
		DeepName string
		Num      uint
	} `ini:"inner"`
	DeepSection struct{ Name string }
	HTTPPort    uint16
	Ignored     string `ini:"-"`
}

type entryMap struct {
	Docs   []S
	Gone   int // a source that does not exist stands before this one
	Pre    S   // what the file holds that is reflected into
	Mapper int
	Strict bool
	Via    string
}

func genEntryMap(t *rapid.T) entryMap {
	d := entryMap{Mapper: intn(t, len(nameMappers)), Strict: chance(t, 50), Via: pick(t, "package", "package", "file", "reflect"), Gone: -1}
	m := nameMappers[d.Mapper].m
	if m == nil {
		m = func(s string) string { return s }
	}
	var b strings.Builder
	likely := 55
	keys := func(names ...string) {
		for _, n := range names {
			if chance(t, likely) {
				if n != "ratio" {
					n = m(n)
				}
				if n == "" || n == "-" {
					continue
				}
				b.WriteString("\"\"\"" + n + "\"\"\" = " + pick(t, "1", "5", "true", "x", "1,2", "3m", "1.5", "2020-01-02T03:04:05Z", "0", "off") + "\n")
			}
		}
	}
	doc := func() S {
		b.Reset()
		likely = pick(t, 55, 55, 10, 0)
		keys("Name", "SomeText", "Num", "ManyNums", "Flag", "Wait", "At", "ratio", "HTTPPort", "Ignored")
		likely = 55
		if chance(t, 60) {
			b.WriteString("[inner]\n")
			keys("DeepName", "Num")
		}
		if n := m("DeepSection"); chance(t, 60) && n != "" {
			b.WriteString("[" + n + "]\n")
			keys("Name")
		}
		if chance(t, 4) {
			b.WriteString("nothing here\n")
		}
		return S(b.String())
	}
	if d.Via == "reflect" {
		if chance(t, 50) {
			d.Pre = doc()
		}
		d.Docs = []S{doc()}
		return d
	}
	for i := pick(t, 1, 1, 1, 2, 3); i > 0; i-- {
		d.Docs = append(d.Docs, doc())
	}
	if chance(t, 4) {
		d.Gone = intn(t, len(d.Docs)+1)
	}
	return d
}

func (d entryMap) sources() (out []any) {
	for i, s := range d.Docs {
		if i == d.Gone {
			out = append(out, "/nonexistent/entry.ini")
		}
		out = append(out, []byte(s))
	}
	if d.Gone == len(d.Docs) {
		out = append(out, "/nonexistent/entry.ini")
	}
	return out
}

func (d entryMap) check(c *Ctx) error {
	mapper := nameMappers[d.Mapper].m
	c.Label(true, d.Via)
	doc, all := string(d.Docs[0]), d.sources()
	c.NonTrivial(len(doc) > 30)
	if d.Via == "reflect" {
		src := &entryStruct{Name: "n", SomeText: doc, Num: len(doc), ManyNums: []int{1, 2}, Wait: time.Second, Ratio: 1.5}
		src.Inner.DeepName = "deep"
		f, err := ini.Load([]byte(d.Pre))
		g, err2 := ini.Load([]byte(d.Pre))
		if err != nil || err2 != nil {
			return nil
		}
		c.Label(d.Pre != "", "reflect-onto-keys")
		g.NameMapper = mapper
		var e1 error
		switch {
		case d.Strict:
			f.NameMapper = mapper
			e1 = f.ReflectFrom(src)
		case mapper == nil:
			e1 = ini.ReflectFrom(f, src)
		default:
			e1 = ini.ReflectFromWithMapper(f, src, mapper)
		}
		e2 := g.Section("").ReflectFrom(src)
		return sameOutcome(f, g, e1, e2)
	}
	c.Label(len(all) > 1, "several-sources")
	c.Label(strings.HasPrefix(doc, "[") && len(all) == 1, "no-default-keys")
	var got, want entryStruct
	got.Name, want.Name, got.Flag, want.Flag = "before", "before", true, true
	got.Inner.DeepName, want.Inner.DeepName = "deep", "deep"
	f, e2 := ini.Load(all[0], all[1:]...)
	loadErr := e2
	if e2 == nil {
		f.NameMapper = mapper
		if d.Strict {
			e2 = f.Section("").StrictMapTo(&want)
		} else {
			e2 = f.Section("").MapTo(&want)
		}
	}
	var e1 error
	switch {
	case d.Via == "file" && loadErr == nil && d.Strict:
		e1 = f.StrictMapTo(&got)
	case d.Via == "file" && loadErr == nil:
		e1 = f.MapTo(&got)
	case mapper == nil && d.Strict:
		e1 = ini.StrictMapTo(&got, all[0], all[1:]...)
	case mapper == nil:
		e1 = ini.MapTo(&got, all[0], all[1:]...)
	case d.Strict:
		e1 = ini.StrictMapToWithMapper(&got, mapper, all[0], all[1:]...)
	default:
		e1 = ini.MapToWithMapper(&got, mapper, all[0], all[1:]...)
	}
	c.Label(e1 != nil, "error")
	if (e1 == nil) != (e2 == nil) || e1 != nil && e1.Error() != e2.Error() {
		return fmt.Errorf("error %v, the general form: %v", e1, e2)
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("got %+v, the general form %+v", got, want)
	}
	return nil
}

// nameCase is a field name given to the built-in name mappers.
type nameCase struct{ Name S }

func checkNames(c *Ctx, d nameCase) error {
	up, low := "", ""
	for i, r := range string(d.Name) {
		if r >= 'A' && r <= 'Z' {
			if i > 0 {
				up += "_"
				low += "_"
			}
			low += strings.ToLower(string(r))
		} else {
			low += string(r)
		}
		up += string(unicode.ToUpper(r))
	}
	c.NonTrivial(strings.Contains(low, "_"))
	n := string(d.Name)
	if got := ini.SnackCase(n); got != up {
		return fmt.Errorf("SnackCase(%q) is %q, want %q", n, got, up)
	}
	if got := ini.AllCapsUnderscore(n); got != up {
		return fmt.Errorf("AllCapsUnderscore(%q) is %q, want %q", n, got, up)
	}
	if got := ini.TitleUnderscore(n); got != low {
		return fmt.Errorf("TitleUnderscore(%q) is %q, want %q", n, got, low)
	}
	return nil
}

// --- C32: the name of the default section ----------------------------------------------

var defaultNames = []string{"root", "Global", "日本", "default", "a", "x y", "É", "a.b", "S"}

type defFile struct {
	Def S
	fileCase
}

type defOps struct {
	Def S
	seqCase
}

type defLayout struct {
	Def S
	layoutCase
}

type defRefs struct {
	Def S
	refCase
}

type defMap struct {
	Def S
	mapCase
}

type defRefl struct {
	Def S
	reflCase
}

type defRounds struct {
	Def S
	roundsCase
}

func init() {
	register("C31",
		"load: the load succeeds, or fails with several sources; map: the document has more than 30 bytes; names: a word boundary is found",
		sub[entryCase]{name: "load", quick: 30000, thoro: 800000, gen: genEntry, check: func(c *Ctx, d entryCase) error { return d.check(c) }},
		sub[entryMap]{name: "map", quick: 30000, thoro: 800000, gen: genEntryMap, check: func(c *Ctx, d entryMap) error { return d.check(c) }},
		sub[nameCase]{name: "names", quick: 20000, thoro: 300000,
			gen: func(t *rapid.T) nameCase {
				s := ""
				for i := intn(t, 9); i > 0; i-- {
					s += pick(t, "A", "Z", "a", "z", "Name", "URL", "1", "_", "é", "É", "日", "x", "M", "ß", "ǅ", "@", "[")
				}
				return nameCase{S(s)}
			}, check: checkNames},
	)

	register("C32",
		"the default section has another name than DEFAULT and: the written file has at least two keys, one of them not plain (files); at least four operations (ops); at least two keys are written (layout); some key's string takes a substitution or goes round a cycle (refs)",
		sub[defFile]{name: "files", quick: 40000, thoro: 1500000,
			gen: func(t *rapid.T) (d defFile) {
				d.Def = S(pickFrom(t, defaultNames))
				withDefault(string(d.Def), func() { d.fileCase = genFile(t, chance(t, 40)) })
				return d
			},
			check: func(c *Ctx, d defFile) (err error) {
				withDefault(string(d.Def), func() {
					var x *machine
					if x, err = d.build(); err != nil {
						return
					}
					if err = x.agree(); err != nil {
						return
					}
					if x.m.byName("") != nil && x.m.first("") != x.m.first(string(d.Def)) {
						panic("C32: model")
					}
					err = checkRoundTrip(c, d.fileCase, x)
				})
				return err
			}},
		sub[defOps]{name: "ops", quick: 30000, thoro: 1000000,
			gen: func(t *rapid.T) (d defOps) {
				d.Def = S(pickFrom(t, defaultNames))
				withDefault(string(d.Def), func() {
					d.O = isoOpts(t)
					d.Src = seqDoc(t, d.O)
					g := isoGen()
					n := string(d.Def)
					g.secs = []string{"", n, "DEFAULT", "a", strings.ToUpper(n), strings.ToLower(n), n + d.O.childDelim() + "c", "DEFAULT" + d.O.childDelim() + "c", "b"}
					d.Ops = g.list(t, seqLen(t))
				})
				return d
			},
			check: func(c *Ctx, d defOps) (err error) {
				c.NonTrivial(len(d.Ops) >= 4)
				withDefault(string(d.Def), func() { err = runSeq(c, d.seqCase) })
				return err
			}},
		sub[defLayout]{name: "layout", quick: 10000, thoro: 300000,
			gen: func(t *rapid.T) (d defLayout) {
				d.Def = S(pickFrom(t, defaultNames))
				withDefault(string(d.Def), func() { d.layoutCase = genLayout(t) })
				return d
			},
			check: func(c *Ctx, d defLayout) (err error) {
				withDefault(string(d.Def), func() { err = checkLayout(c, d.layoutCase) })
				return err
			}},
		sub[defRefs]{name: "refs", quick: 20000, thoro: 700000,
			gen: func(t *rapid.T) (d defRefs) {
				d.Def = S(pickFrom(t, defaultNames))
				withDefault(string(d.Def), func() { d.refCase = genRefs(t) })
				return d
			},
			check: func(c *Ctx, d defRefs) (err error) {
				withDefault(string(d.Def), func() { err = checkRefs(c, d.refCase) })
				return err
			}},
		sub[defMap]{name: "map", quick: 15000, thoro: 500000,
			gen: func(t *rapid.T) (d defMap) {
				d.Def = S(pickFrom(t, defaultNames))
				withDefault(string(d.Def), func() { d.mapCase = genMap(10, 25)(t) })
				return d
			},
			check: func(c *Ctx, d defMap) (err error) {
				withDefault(string(d.Def), func() { err = checkMap(c, d.mapCase, false) })
				return err
			}},
		sub[defRefl]{name: "reflect", quick: 15000, thoro: 500000,
			gen: func(t *rapid.T) (d defRefl) {
				d.Def = S(pickFrom(t, defaultNames))
				withDefault(string(d.Def), func() { d.reflCase = genReflect(25)(t) })
				return d
			},
			check: func(c *Ctx, d defRefl) (err error) {
				withDefault(string(d.Def), func() { err = checkReflect(c, d.reflCase) })
				return err
			}},
		sub[defRounds]{name: "rounds", quick: 10000, thoro: 300000,
			gen: func(t *rapid.T) (d defRounds) {
				d.Def = S(pickFrom(t, defaultNames))
				withDefault(string(d.Def), func() { d.roundsCase = genRounds(t) })
				return d
			},
			check: func(c *Ctx, d defRounds) (err error) {
				withDefault(string(d.Def), func() { err = checkRounds(c, d.roundsCase) })
				return err
			}},
	)
}
