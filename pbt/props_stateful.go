package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// seqCase is a file with a sequence of operations on it.
type seqCase struct {
	O   Opts
	Src S
	Ops []mop
}

// startSeq loads the file and the model.
func startSeq(d seqCase) (*machine, error) {
	m := &MFile{O: d.O}
	if m.apply(string(d.Src)) != "" {
		panic("seqCase: source is malformed")
	}
	f, err := load(d.O, string(d.Src))
	if err != nil {
		return nil, fmt.Errorf("well-formed document refused: %v", err)
	}
	return &machine{f: f, m: m}, nil
}

func runSeq(c *Ctx, d seqCase) error {
	x, err := startSeq(d)
	if err != nil {
		return err
	}
	labelOps(c, d.Ops)
	for _, op := range d.Ops {
		c.Label(op.Quiet, "several-edits-between-listings")
	}
	return x.run(d.Ops, nil)
}

// seqDoc is a small document to start from.
func seqDoc(t *rapid.T, o Opts) S {
	if chance(t, 30) {
		return ""
	}
	b := newDoc(t, &MFile{O: o}, docConf{odd: 10, comments: 10})
	b.items(intn(t, 8))
	return S(b.finish())
}

func seqLen(t *rapid.T) int { return pick(t, 16, 6, 40) }

func plainVal(t *rapid.T) string {
	return pick(t, "v", "", "1", "x y", "v2", "a\nb", "true", "%(a)s", "日本", "V")
}

// someOps says which operations a sequence has.
func hasOps(ops []mop, names ...string) bool {
	n := opNames(ops)
	for _, x := range names {
		if n[x] > 0 {
			return true
		}
	}
	return false
}

var (
	secNamesPool = []string{"a", "b", "", "DEFAULT", "c", "a.b", "a.b.c", "default", "A", "B", " a", "x]y", "é", "É", "s", "a.", ".a", "#", "[", "-"}
	keyNamesPool = []string{"a", "b", "key", "c", "", "A", "KEY", "one two", "é", "É", "#1", "-", "a=b", "`", "DEFAULT", "key\n"}
)

func init() {
	register("C15",
		"a case is non-trivial when it deletes and creates sections in a sequence of at least four operations",
		sub[seqCase]{name: "sections", quick: 40000, thoro: 1500000,
			gen: func(t *rapid.T) seqCase {
				var d seqCase
				if chance(t, 40) {
					structOpts(t, &d.O, 20)
					d.O.AllowNonUniqueSections = false
				}
				d.Src = seqDoc(t, d.O)
				g := opGen{
					ops: []string{"new-section", "new-section", "section", "delete-section", "delete-section", "get-section", "has-section", "by-name",
						"delete-index", "section-index", "new-sections", "new-key", "new-key", "child-sections", "hold-section", "set-comment", "key"},
					secs: secNamesPool[:between(t, 4, len(secNamesPool))], keys: []string{"a", "b", "key"}, val: plainVal, maxIdx: 2, held: 20, rich: 35,
				}
				d.Ops = g.list(t, seqLen(t))
				return d
			},
			check: func(c *Ctx, d seqCase) error {
				c.NonTrivial(len(d.Ops) >= 4 && hasOps(d.Ops, "delete-section", "delete-index") && hasOps(d.Ops, "new-section", "new-sections", "section"))
				return runSeq(c, d)
			}},
		sub[seqCase]{name: "many", quick: 800, thoro: 8000,
			gen: func(t *rapid.T) seqCase {
				var d seqCase
				var pool []string
				for i := 0; i < 60; i++ {
					pool = append(pool, fmt.Sprintf("s%d", i), fmt.Sprintf("s%d.t", i))
				}
				n := pick(t, 60, 150, 300)
				if chance(t, 20) {
					fill := pick(t, 64, 65, 130, 260, 520, 1030)
					d.Ops = append(d.Ops, mop{Op: "fill-sections", Idx: fill})
					for i := 0; i < 60; i++ {
						pool = append(pool, fmt.Sprintf("s%d", fill-i*fill/64))
					}
					n = 60
				}
				g := opGen{ops: []string{"new-section", "new-section", "new-section", "delete-section", "section", "new-key"}, secs: pool, keys: []string{"a", "b"}, val: plainVal}
				for i := 0; i < n; i++ {
					d.Ops = append(d.Ops, g.draw(t))
				}
				d.Ops = quieten(t, d.Ops)
				return d
			},
			check: func(c *Ctx, d seqCase) error {
				c.NonTrivial(true)
				return runSeq(c, d)
			}},
	)

	register("C16",
		"a case is non-trivial when two sections of one name exist at some time and a deletion or an edit of one of them takes place",
		sub[seqCase]{name: "sections", quick: 40000, thoro: 1500000,
			gen: func(t *rapid.T) seqCase {
				var d seqCase
				if chance(t, 40) {
					structOpts(t, &d.O, 20)
				}
				d.O.AllowNonUniqueSections = true
				d.Src = seqDoc(t, d.O)
				g := opGen{
					ops: []string{"new-section", "new-section", "new-section", "section", "delete-section", "delete-index", "delete-index", "get-section", "by-name",
						"section-index", "new-sections", "new-key", "new-key", "delete-key", "set-value", "child-sections", "section-children", "parent-keys", "hold-section",
						"set-comment", "get-key", "has-section"},
					secs: []string{"a", "b", "a.b", "a.b.c", "", "DEFAULT", "A", "c"}[:pick(t, 2, 3, 4, 8)], keys: []string{"a", "b", "key"}, val: plainVal, maxIdx: pick(t, 3, 3, 12), held: 15, rich: 30,
				}
				d.Ops = g.list(t, seqLen(t))
				return d
			},
			check: func(c *Ctx, d seqCase) error {
				x, err := startSeq(d)
				if err != nil {
					return err
				}
				labelOps(c, d.Ops)
				twins := false
				err = x.run(d.Ops, func(op mop) {
					names := map[string]int{}
					for _, s := range x.m.Secs {
						names[s.Name]++
					}
					if names[x.m.secName(string(op.Sec))] > 1 {
						twins = true
						c.NonTrivial(op.Op == "delete-section" || op.Op == "delete-index" || op.Op == "new-key" || op.Op == "set-value" || op.Op == "delete-key")
						c.Label(op.Op == "delete-index", "delete-index-of-several")
						c.Label(op.Op == "delete-section", "delete-all-of-several")
					}
				})
				if err != nil {
					return err
				}
				c.Label(twins, "twins")
				// The output has the sections in overall order.
				if why := unwritable(x.m, defaultFormat(), ""); why != "" {
					c.Exclude("output: " + why)
					return nil
				}
				b, err := writeBytes(x.f)
				if err != nil {
					return err
				}
				f2, err := load(d.O, string(b))
				if err != nil {
					return fmt.Errorf("the output is refused: %v\n%q", err, b)
				}
				want := x.m.snap()
				if len(want) == 0 || want[0].Name != x.m.secName("DEFAULT") {
					want = append(Snap{SecSnap{Name: x.m.secName("DEFAULT")}}, want...)
				}
				if err := checkFile(f2, want, cmp{noComments: true, noDefault: true, noBody: true}); err != nil {
					return fmt.Errorf("output %q: %v", b, err)
				}
				return nil
			}},
	)

	keyOps := []string{"new-key", "new-key", "new-bool", "get-key", "has-key", "key", "key", "has-value", "delete-key", "delete-key", "set-value", "hash",
		"hold-key", "held-key-value", "key-string", "must-string", "must-int", "must-bool", "key-comment", "hold-section", "delete-section", "new-section"}
	register("C17",
		"a case is non-trivial when it deletes and sets or creates keys in a sequence of at least four operations",
		sub[seqCase]{name: "keys", quick: 40000, thoro: 1500000,
			gen: func(t *rapid.T) seqCase {
				var d seqCase
				if chance(t, 40) {
					structOpts(t, &d.O, 20)
					d.O.AllowShadows, d.O.AllowDuplicateShadowValues = false, false
				}
				d.Src = seqDoc(t, d.O)
				g := opGen{ops: keyOps, secs: []string{"", "a", "a.b"}[:between(t, 1, 3)], keys: keyNamesPool[:between(t, 3, len(keyNamesPool))],
					val: func(t *rapid.T) string { return pick(t, "v", "", "x", "1", "xx", "v2", "%(a)s", "true", "a\nb") }, maxIdx: 2, held: 20, rich: 40}
				d.Ops = g.list(t, seqLen(t))
				return d
			},
			check: func(c *Ctx, d seqCase) error {
				c.NonTrivial(len(d.Ops) >= 4 && hasOps(d.Ops, "delete-key") && hasOps(d.Ops, "new-key", "key", "set-value", "new-bool"))
				return runSeq(c, d)
			}},
		sub[seqCase]{name: "many", quick: 800, thoro: 8000,
			gen: func(t *rapid.T) seqCase {
				var d seqCase
				var pool []string
				for i := 0; i < 100; i++ {
					pool = append(pool, fmt.Sprintf("k%d", i))
				}
				n, sec := pick(t, 60, 200, 400), ""
				if chance(t, 20) {
					fill := pick(t, 64, 65, 130, 260, 520, 1030)
					d.Ops = append(d.Ops, mop{Op: "fill-keys", Idx: fill})
					for i := 0; i < 100; i++ {
						pool = append(pool, fmt.Sprintf("k%d", fill-i*fill/128))
					}
					n, sec = 60, "many"
				}
				g := opGen{ops: []string{"new-key", "new-key", "delete-key", "key", "set-value", "has-value"}, secs: []string{sec}, keys: pool, val: plainVal}
				for i := 0; i < n; i++ {
					d.Ops = append(d.Ops, g.draw(t))
				}
				d.Ops = quieten(t, d.Ops)
				return d
			},
			check: func(c *Ctx, d seqCase) error {
				c.NonTrivial(true)
				return runSeq(c, d)
			}},
	)

	register("C18",
		"a case is non-trivial when some looked-up key is inherited across at least one level, or ParentKeys or ChildSections lists something",
		sub[seqCase]{name: "trees", quick: 50000, thoro: 2000000, gen: genTree,
			check: func(c *Ctx, d seqCase) error {
				x, err := startSeq(d)
				if err != nil {
					return err
				}
				labelOps(c, d.Ops)
				return x.run(d.Ops, func(op mop) {
					if ms := x.m.first(string(op.Sec)); ms != nil {
						switch op.Op {
						case "get-key", "has-key", "key-string", "key":
							if o := x.m.lookupSec(ms, string(op.Key)); o != nil && o != ms {
								c.NonTrivial(true)
								c.Label(true, "inherited")
								gap := strings.Count(ms.Name, x.m.O.childDelim()) - strings.Count(o.Name, x.m.O.childDelim())
								c.Label(gap > 1, "inherited-across-levels")
								for _, a := range x.m.ancestors(ms.Name) {
									if a == o.Name {
										break
									}
									c.Label(x.m.first(a) == nil, "inherited-through-missing")
								}
							}
						case "parent-keys":
							c.NonTrivial(len(x.m.parentKeys(ms)) > 0)
						case "child-sections", "section-children":
							c.NonTrivial(len(x.m.children(ms.Name)) > 0)
						}
					}
				})
			}},
	)

	register("C19",
		"a case is non-trivial when a name occurs in two letter cases, in the document or the operations, and an insensitive option is on",
		sub[seqCase]{name: "history", quick: 40000, thoro: 1500000,
			gen: func(t *rapid.T) seqCase {
				var d seqCase
				if chance(t, 30) {
					structOpts(t, &d.O, 25)
				}
				o := &d.O
				o.Insensitive, o.InsensitiveKeys, o.InsensitiveSections = false, false, false
				switch intn(t, 5) {
				case 0, 1:
					o.Insensitive = true
				case 2:
					o.InsensitiveSections = true
				case 3:
					o.InsensitiveKeys = true
				case 4:
					o.InsensitiveKeys, o.InsensitiveSections = true, true
				}
				dl := o.childDelim()
				secs := casings("a", "default", "sec", "a"+dl+"b", "é", "raw", "")
				keys := casings("a", "key", "b", "é", "ω")
				b := newDoc(t, &MFile{O: *o}, docConf{odd: 0, comments: 5, noIndents: chance(t, 50)})
				b.secPool = nil
				for _, n := range secs {
					if n != "" {
						b.secPool = append(b.secPool, n)
					}
				}
				b.keyPool = keys
				b.items(intn(t, 12))
				d.Src = S(b.finish())
				if chance(t, 35) {
					n := richText(t) + pick(t, "", "X", "y", "É")
					secs = append(secs, casings(n, n+dl+"a")...)
					keys = append(keys, casings(richText(t)+pick(t, "", "X", "y", "É"))...)
				}
				g := opGen{
					ops: []string{"new-section", "section", "delete-section", "get-section", "has-section", "by-name", "delete-index", "section-index", "child-sections", "section-children",
						"parent-keys", "new-key", "new-key", "get-key", "has-key", "key", "delete-key", "set-value", "hash", "has-value", "key-string", "key-string", "new-bool", "hold-section"},
					secs: secs, keys: keys, maxIdx: 1, held: 10, rich: 25,
					val: func(t *rapid.T) string {
						return pick(t, "v", "V", "Value", "%(a)s", "%(A)s", "x%(KEY)sY", "%(É)s", "%(b)s%(B)s")
					},
				}
				d.Ops = g.list(t, seqLen(t))
				return d
			},
			check: func(c *Ctx, d seqCase) error {
				names := map[string]map[string]bool{}
				add := func(kind string, n S) {
					k := kind + strings.ToLower(string(n))
					if names[k] == nil {
						names[k] = map[string]bool{}
					}
					names[k][string(n)] = true
				}
				for _, op := range d.Ops {
					add("s", op.Sec)
					add("k", op.Key)
				}
				for k, v := range names {
					c.NonTrivial(len(v) > 1 && len(k) > 1)
				}
				c.Label(d.O.Insensitive, "insensitive")
				c.Label(d.O.InsensitiveKeys, "keys")
				c.Label(d.O.InsensitiveSections, "sections")
				return runSeq(c, d)
			}},
		sub[twinCase]{name: "twin", quick: 40000, thoro: 1500000, gen: genTwin, check: checkTwin},
	)

	register("C20",
		"a case is non-trivial when some key has at least two values, or a repeated key or an added shadow is refused or overwritten without AllowShadows",
		sub[seqCase]{name: "shadows", quick: 40000, thoro: 1500000,
			gen: func(t *rapid.T) seqCase {
				var d seqCase
				if chance(t, 30) {
					structOpts(t, &d.O, 25)
				}
				d.O.AllowShadows = !chance(t, 15)
				d.O.AllowDuplicateShadowValues = d.O.AllowShadows && chance(t, 40)
				b := newDoc(t, &MFile{O: d.O}, docConf{odd: 10, comments: 5})
				b.keyPool = []string{"a", "b", "A"}
				b.secPool = []string{"a", "s"}
				b.items(intn(t, 12))
				d.Src = S(b.finish())
				most := pick(t, 16, 6, 40)
				if chance(t, 10) { // many different values of one key
					d.Src = ""
					most = 8
					for i := pick(t, 8, 12, 20, 40, 120, 300) + intn(t, 3); i > 0; i-- {
						d.Src += S("a = " + pick(t, "v", "w", "x", "y") + fmt.Sprint(intn(t, pick(t, 20, 200))) + "\n")
					}
				}
				g := opGen{
					ops: []string{"new-key", "new-key", "add-shadow", "add-shadow", "held-key-shadow", "hold-key", "set-value", "delete-key", "get-key", "strings-shadows",
						"new-bool", "key", "has-value", "hash", "key-string"},
					secs: []string{"", "a", "s"}, keys: []string{"a", "b", "#1", "A"}, maxIdx: 1, rich: 25,
					val: func(t *rapid.T) string { return pick(t, "v", "w", "", "x,y", "%(b)s", "a, b ,", "true", "z\nz") },
				}
				d.Ops = g.list(t, most)
				return d
			},
			check: func(c *Ctx, d seqCase) error {
				x, err := startSeq(d)
				if err != nil {
					return err
				}
				labelOps(c, d.Ops)
				c.Label(!d.O.AllowShadows, "not-allowed")
				c.Label(d.O.AllowDuplicateShadowValues, "duplicates-allowed")
				c.NonTrivial(!d.O.AllowShadows && hasOps(d.Ops, "add-shadow", "held-key-shadow"))
				for i := -1; i < len(d.Ops); i++ {
					if i >= 0 {
						if err := x.step(d.Ops[i]); err != nil {
							return fmt.Errorf("step %d: %v", i, err)
						}
					}
					if i < 0 || !d.Ops[i].Quiet || i == len(d.Ops)-1 {
						if err := x.agree(); err != nil {
							return fmt.Errorf("after step %d: %v", i, err)
						}
					}
					for _, s := range x.m.Secs {
						for _, k := range s.Keys {
							c.NonTrivial(len(k.all()) > 1)
							c.Label(len(k.all()) > 2, "three-values")
							c.Label(len(k.all()) > 8, "many-values")
						}
					}
				}
				return nil
			}},
		sub[shadowLines]{name: "lines", quick: 20000, thoro: 500000,
			gen: func(t *rapid.T) shadowLines {
				d := shadowLines{Dup: chance(t, 40)}
				for i := between(t, 1, 4); i > 0; i-- {
					k := shadowKey{Name: S(pick(t, "a", "b", "key", "longer", "k1"))}
					for j := between(t, 1, 5); j > 0; j-- {
						k.Vals = append(k.Vals, S(pick(t, "v", "w", "x1", "", "two words", "v,w", "3")))
					}
					if chance(t, 15) {
						for j := between(t, 1, 2); j > 0; j-- {
							k.Nested = append(k.Nested, S(word(t)))
						}
					}
					d.Keys = append(d.Keys, k)
				}
				d.F = format{Pretty: chance(t, 60), Equal: chance(t, 30), Section: true, LineBreak: pick(t, S("\n"), S("\r\n"))}
				d.API = chance(t, 50)
				return d
			}, check: checkShadowLines},
	)
}

// genTree draws a file whose sections form trees by their names.
func genTree(t *rapid.T) seqCase {
	var d seqCase
	if chance(t, 40) {
		structOpts(t, &d.O, 25)
	}
	d.O.ChildSectionDelimiter = pick(t, S(""), S("/"), S("::"), S("."), S("-"), S("--"), S(" "))
	dl := d.O.childDelim()
	segs := []string{"a", "b", "c", "ab", "A"}[:between(t, 2, 5)]
	var pool []string
	for i := between(t, 1, 4); i > 0; i-- {
		n := pickFrom(t, segs)
		if dl != " " && chance(t, 7) {
			n = dl + n // the child of the section with the empty name, which is the default section
		} else if chance(t, 5) {
			n = "DEFAULT"
		}
		pool = append(pool, n)
		for j := pick(t, 0, 1, 2, 3, 4, 4, few(t, 0)); j > 0; j-- {
			n += dl + pickFrom(t, segs)
			if chance(t, 5) {
				n += pick(t, dl, dl[:1])
			}
			pool = append(pool, n)
		}
	}
	b := newDoc(t, &MFile{O: d.O}, docConf{plainOnly: true, noIndents: true})
	b.keyPool = []string{"a", "b", "k", "A"}
	for _, n := range append(pool, "DEFAULT") {
		if !chance(t, 70) {
			continue
		}
		b.secPool = []string{n}
		b.section()
		for j := intn(t, 4); j > 0; j-- {
			b.key()
		}
	}
	d.Src = S(b.finish())
	pool = append(pool, "DEFAULT", "nowhere")
	g := opGen{
		ops: []string{"get-key", "get-key", "has-key", "key-string", "key-string", "parent-keys", "parent-keys", "section-children", "section-children", "child-sections",
			"new-key", "new-key", "new-section", "delete-section", "key", "delete-key", "get-section"},
		secs: pool, keys: []string{"a", "b", "k", "A", "zz"}, val: func(t *rapid.T) string { return pick(t, "v", "%(a)s", "%(k)s", "", "w") }, maxIdx: 1, rich: 15,
	}
	if chance(t, 30) {
		n := richText(t)
		names := []string{n, n + dl + "a", "a" + dl + n, n + dl + richText(t), n + dl + "a" + dl + "b"}
		g.secs = append(g.secs, names...)
		for _, n := range names {
			if chance(t, 50) {
				d.Ops = append(d.Ops, mop{Op: "new-section", Sec: S(n)}, mop{Op: "new-key", Sec: S(n), Key: S(pickFrom(t, g.keys)), Val: S(g.val(t))})
			}
		}
		for _, n := range names {
			d.Ops = append(d.Ops, mop{Op: pick(t, "get-key", "parent-keys", "section-children"), Sec: S(n), Key: S(pickFrom(t, g.keys))})
		}
	}
	d.Ops = append(d.Ops, g.list(t, seqLen(t))...)
	return d
}

// casings returns each name in several letter cases.
func casings(names ...string) []string {
	var out []string
	for _, n := range names {
		out = append(out, n)
		if u := strings.ToUpper(n); u != n {
			out = append(out, u)
			r := []rune(n)
			r[0] = []rune(strings.ToUpper(string(r[:1])))[0]
			if s := string(r); s != u {
				out = append(out, s)
			}
		}
	}
	return out
}

// twinCase is a document in which each name has any letter case.
type twinCase struct {
	Secs, Keys bool // insensitive in these
	Both       bool // through Insensitive
	Doc        []twinSec
	Shadows    bool
}

type twinSec struct {
	Name S
	Keys []twinKey
}

type twinKey struct{ Name, Val S }

func genTwin(t *rapid.T) twinCase {
	var d twinCase
	switch intn(t, 4) {
	case 0:
		d.Both, d.Secs, d.Keys = true, true, true
	case 1:
		d.Secs = true
	case 2:
		d.Keys = true
	case 3:
		d.Secs, d.Keys = true, true
	}
	d.Shadows = chance(t, 20)
	secs, keys := casings("a", "sec", "default", "a.b", "a.b.c", "straße"), casings("a", "key", "name", "x y")
	for i := between(t, 1, 7); i > 0; i-- {
		s := twinSec{Name: S(pickFrom(t, secs))}
		for j := intn(t, 5); j > 0; j-- {
			s.Keys = append(s.Keys, twinKey{S(pickFrom(t, keys)), S(pick(t, "v", "Value", "VALUE", "1", "É", "%(x)s"))})
		}
		d.Doc = append(d.Doc, s)
	}
	return d
}

// render writes the document with the folded names of the given kinds.
func (d twinCase) render(fold bool) string {
	var b strings.Builder
	for _, s := range d.Doc {
		n := string(s.Name)
		if fold && d.Secs {
			n = strings.ToLower(n)
			if n == "default" {
				n = "DEFAULT"
			}
		}
		b.WriteString("[" + n + "]\n")
		for _, k := range s.Keys {
			n := string(k.Name)
			if fold && d.Keys {
				n = strings.ToLower(n)
			}
			b.WriteString(n + " = " + string(k.Val) + "\n")
		}
	}
	return b.String()
}

func checkTwin(c *Ctx, d twinCase) error {
	o := Opts{AllowShadows: d.Shadows}
	plain := o
	if d.Both {
		o.Insensitive = true
	} else {
		o.InsensitiveSections, o.InsensitiveKeys = d.Secs, d.Keys
	}
	text, folded := d.render(false), d.render(true)
	c.NonTrivial(text != folded)
	f, err := load(o, text)
	if err != nil {
		return err
	}
	g, err := load(plain, folded)
	if err != nil {
		return err
	}
	want, err := snapshot(g)
	if err != nil {
		return err
	}
	for i := range want {
		if d.Secs && want[i].Name == "DEFAULT" {
			want[i].Name = "default"
		}
	}
	if err := checkFile(f, want, cmp{}); err != nil {
		return fmt.Errorf("differs from the file with lower-case names: %v", err)
	}
	// Every lookup, in the spelled case, finds what the folded one finds.
	for _, s := range d.Doc {
		sn := string(s.Name)
		fn := sn
		if d.Secs {
			fn = strings.ToLower(sn)
			if fn == "default" {
				fn = "DEFAULT"
			}
		}
		for _, k := range s.Keys {
			for _, kn := range casings(strings.ToLower(string(k.Name))) {
				fk := kn
				if d.Keys {
					fk = strings.ToLower(kn)
				}
				gk, gerr := f.Section(sn).GetKey(kn)
				wk, werr := g.Section(fn).GetKey(fk)
				if (gerr == nil) != (werr == nil) {
					return fmt.Errorf("key %q of %q: error %v, with lower-case names %v", kn, sn, gerr, werr)
				}
				if gerr == nil && (gk.Value() != wk.Value() || gk.Name() != wk.Name() || !eqStrs(gk.ValueWithShadows(), wk.ValueWithShadows())) {
					return fmt.Errorf("key %q of %q: %q = %q, with lower-case names %q = %q", kn, sn, gk.Name(), gk.Value(), wk.Name(), wk.Value())
				}
			}
		}
	}
	return nil
}

// shadowLines is a file of keys with several plain values.
type shadowLines struct {
	Keys []shadowKey
	Dup  bool
	API  bool // built through the API instead of a document
	F    format
}

type shadowKey struct {
	Name   S
	Vals   []S
	Nested []S `json:",omitempty"`
}

func checkShadowLines(c *Ctx, d shadowLines) error {
	o := Opts{AllowShadows: true, AllowDuplicateShadowValues: d.Dup}
	for _, k := range d.Keys {
		o.AllowNestedValues = o.AllowNestedValues || len(k.Nested) > 0
	}
	// what is kept of each key
	var order []string
	kept := map[string][]string{}
	var doc strings.Builder
	for _, k := range d.Keys {
		n := string(k.Name)
		for _, v := range strs(k.Vals) {
			doc.WriteString(n + "=" + v + "\n")
			l, ok := kept[n]
			if !ok {
				order = append(order, n)
			}
			dup := false
			for _, x := range l {
				dup = dup || x == v
			}
			if !dup || d.Dup {
				kept[n] = append(l, v)
			}
		}
	}
	src := ""
	if !d.API {
		src = doc.String()
	}
	f, err := load(o, src)
	if err != nil {
		return err
	}
	if d.API {
		for _, k := range d.Keys {
			for _, v := range strs(k.Vals) {
				key, err := f.Section("").NewKey(string(k.Name), v)
				if err != nil {
					return err
				}
				if key.Name() != string(k.Name) {
					return fmt.Errorf("NewKey returned the key %q", key.Name())
				}
			}
		}
	}
	for _, k := range d.Keys {
		for _, v := range k.Nested {
			if err := f.Section("").Key(string(k.Name)).AddNestedValue(string(v)); err != nil {
				return err
			}
		}
	}
	// one line for each listed value
	width := 0
	for _, n := range order {
		width = max(width, len(n))
	}
	lb := string(d.F.LineBreak)
	var want strings.Builder
	for _, n := range order {
		var listed []string
		for _, v := range kept[n] {
			if v != "" {
				listed = append(listed, v)
			}
		}
		k := f.Section("").Key(n)
		if got := k.ValueWithShadows(); !eqStrs(got, listed) {
			return fmt.Errorf("values of %q: %q, want %q", n, got, listed)
		}
		if k.Value() != kept[n][0] {
			return fmt.Errorf("value of %q: %q, want %q", n, k.Value(), kept[n][0])
		}
		c.NonTrivial(len(listed) > 1)
		if len(listed) == 0 {
			listed = []string{""}
		}
		for _, v := range listed {
			want.WriteString(n)
			eq := "="
			if d.F.Pretty {
				want.WriteString(strings.Repeat(" ", width-len(n)))
			}
			if d.F.Pretty || d.F.Equal {
				eq = " = "
			}
			want.WriteString(eq + v + lb)
		}
	}
	d.F.set()
	got, err := writeBytes(f)
	if err != nil {
		return err
	}
	if o.AllowNestedValues {
		c.Label(true, "nested-values")
		var rest []string
		for _, l := range strings.SplitAfter(string(got), lb) {
			if !strings.HasPrefix(l, "  ") {
				rest = append(rest, l)
			}
		}
		got = []byte(strings.Join(rest, ""))
	}
	if strings.TrimRight(string(got), "\r\n") != strings.TrimRight(want.String(), "\r\n") {
		return fmt.Errorf("written %q, want %q", got, want.String())
	}
	return nil
}
