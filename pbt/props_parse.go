package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// docCase is a document with the file it spells.
type docCase struct {
	O     Opts
	Src   []S
	Want  Snap
	Feats []S
}

func (d docCase) has(f string) bool {
	for _, x := range d.Feats {
		if string(x) == f {
			return true
		}
	}
	return false
}

func (d docCase) labels(c *Ctx) {
	for _, f := range d.Feats {
		c.Label(true, string(f))
	}
}

var selfTest = os.Getenv("PBT_SELF") != ""

// genDoc draws one document under the given options.
func genDoc(t *rapid.T, o Opts, conf docConf, maxItems int) docCase {
	m := &MFile{O: o}
	b := newDoc(t, m, conf)
	if chance(t, 15) {
		b.nl = "\r\n"
		b.has("crlf")
	}
	b.items(intn(t, maxItems+1))
	src := b.finish()
	d := docCase{O: o, Src: []S{S(src)}, Want: m.snap(), Feats: b.feats()}
	if selfTest {
		r, e := refLoad(o, src)
		if e != "" {
			panic(fmt.Sprintf("selftest: %q: error %s", src, e))
		}
		if err := (cmp{}).diff(r.snap(), d.Want); err != nil {
			panic(fmt.Sprintf("selftest: %q %+v: reference parser: %v", src, o, err))
		}
	}
	return d
}

// checkDoc loads the document and compares everything with what it spells.
func checkDoc(d docCase, c cmp) error {
	f, err := load(d.O, strs(d.Src)...)
	if err != nil {
		return fmt.Errorf("well-formed document refused: %v", err)
	}
	return checkFile(f, d.Want, c)
}

func checkFile(f *ini.File, want Snap, c cmp) error {
	got, err := snapshot(f)
	if err != nil {
		return err
	}
	return c.diff(got, want)
}

// soupCase is text that may be ill-formed.
type soupCase struct {
	O   Opts
	Src []S
}

// checkSoup compares the parser with the reference parser, errors included.
func checkSoup(c *Ctx, d soupCase, cm cmp) error {
	m, class := refLoad(d.O, strs(d.Src)...)
	f, err := load(d.O, strs(d.Src)...)
	if class != "" {
		c.Label(true, "error-"+class)
		if err == nil {
			return fmt.Errorf("malformed document (%s) accepted", class)
		}
		return errClassOK(err, class, "")
	}
	c.Label(true, "accepted")
	if err != nil {
		return fmt.Errorf("well-formed document refused: %v", err)
	}
	return checkFile(f, m.snap(), cm)
}

// errClassOK judges the error of a malformed document.
func errClassOK(err error, class, line string) error {
	if _, ok := err.(both); ok {
		return err
	}
	switch class {
	case "delim", "emptykey":
		if ini.IsErrDelimiterNotFound(err) != (class == "delim") || ini.IsErrEmptyKeyName(err) != (class == "emptykey") {
			return fmt.Errorf("%s: error not recognised by its predicate: %T %v", class, err, err)
		}
		got := ""
		switch e := err.(type) {
		case ini.ErrDelimiterNotFound:
			got = e.Line
		case ini.ErrEmptyKeyName:
			got = e.Line
		}
		if line != "" && strings.TrimSpace(got) != strings.TrimSpace(line) {
			return fmt.Errorf("%s: error carries the line %q, not %q", class, got, line)
		}
		if line != "" && !strings.Contains(err.Error(), strings.TrimSpace(line)) {
			return fmt.Errorf("%s: error text %q lacks the line %q", class, err.Error(), line)
		}
	default:
		if ini.IsErrDelimiterNotFound(err) || ini.IsErrEmptyKeyName(err) {
			return fmt.Errorf("%s: reported as %T %v", class, err, err)
		}
	}
	return nil
}

func stdConf(t *rapid.T) docConf {
	return docConf{
		comments: pick(t, 15, 0, 40), odd: pick(t, 30, 0, 70), big: pick(t, 0, 0, 0, 0, 0, 0, 0, 2),
		multi: pick(t, 20, 0, 50), noIndents: chance(t, 20),
	}
}

func docItems(t *rapid.T) int { return pick(t, 12, 4, 30) }

// longDocs makes a sub-check of documents in which some construct is repeated
// very often or is very long.
func longDocs(quick, thoro int, k cmp, opts func(t *rapid.T) Opts) sub[docCase] {
	return sub[docCase]{name: "long", quick: quick, thoro: thoro,
		gen: func(t *rapid.T) docCase {
			cf := docConf{comments: pick(t, 15, 0, 40), odd: pick(t, 10, 0, 40), big: pick(t, 0, 0, 1), multi: pick(t, 30, 60), long: pick(t, 10, 20, 4)}
			return genDoc(t, opts(t), cf, between(t, 1, 7))
		},
		check: func(c *Ctx, d docCase) error {
			d.labels(c)
			c.NonTrivial(d.has("long") || d.has("huge"))
			return checkDoc(d, k)
		}}
}

// --- C02 ----------------------------------------------------------------------

func init() {
	register("C02",
		"a case is non-trivial when its document spells at least two keys and uses a quoted, continued or multi-line form, a repeated key or section, or an odd name (spell/scale), or when it has at least two lines (soup), or when something is repeated 30 times or more or longer than 1 MiB (long)",
		sub[docCase]{name: "spell", quick: 60000, thoro: 3000000,
			gen: func(t *rapid.T) docCase {
				var o Opts
				o.Debug = chance(t, 3)
				return genDoc(t, o, stdConf(t), docItems(t))
			},
			check: func(c *Ctx, d docCase) error {
				d.labels(c)
				n := 0
				for _, s := range d.Want {
					n += len(s.Keys)
				}
				c.NonTrivial(n >= 2 && len(d.Feats) >= 2)
				if err := checkDoc(d, cmp{noComments: true}); err != nil {
					return err
				}
				return checkLookups(d)
			}},
		sub[docCase]{name: "scale", quick: 300, thoro: 8000,
			gen: func(t *rapid.T) docCase {
				m := &MFile{}
				b := newDoc(t, m, docConf{odd: 10, multi: 20, comments: 10, big: 1})
				n := pick(t, 50, 300, 1500)
				for i := 0; i < 1+n/20; i++ {
					b.keyPool = append(b.keyPool, fmt.Sprintf("key%d", i))
				}
				for i := 0; i < 1+n/60; i++ {
					b.secPool = append(b.secPool, fmt.Sprintf("sec%d", i))
				}
				b.items(n)
				return docCase{Src: []S{S(b.finish())}, Want: m.snap(), Feats: b.feats()}
			},
			check: func(c *Ctx, d docCase) error {
				d.labels(c)
				c.NonTrivial(len(d.Want) > 3)
				return checkDoc(d, cmp{noComments: true})
			}},
		longDocs(500, 20000, cmp{noComments: true}, func(t *rapid.T) Opts { return Opts{} }),
		sub[soupCase]{name: "soup", quick: 60000, thoro: 3000000,
			gen: func(t *rapid.T) soupCase { return soupCase{Src: []S{S(soup(t, 7, 4))}} },
			check: func(c *Ctx, d soupCase) error {
				c.NonTrivial(strings.Count(string(d.Src[0]), "\n") >= 2)
				return checkSoup(c, d, cmp{noComments: true})
			}},
	)
}

// checkLookups reads every spelled key by name.
func checkLookups(d docCase) error {
	f, err := load(d.O, strs(d.Src)...)
	if err != nil {
		return err
	}
	seen := map[string]bool{}
	for _, s := range d.Want {
		if seen[s.Name] {
			continue
		}
		seen[s.Name] = true
		sec, err := f.GetSection(s.Name)
		if err != nil {
			return fmt.Errorf("GetSection(%q): %v", s.Name, err)
		}
		for _, k := range s.Keys {
			if k.Name == "" {
				continue
			}
			if got := sec.Key(k.Name).Value(); got != k.Value {
				return fmt.Errorf("section %q key %q: value %s, want %s", s.Name, k.Name, abbrev(got), abbrev(k.Value))
			}
			if !sec.HasKey(k.Name) {
				return fmt.Errorf("section %q lacks key %q", s.Name, k.Name)
			}
		}
	}
	return nil
}
