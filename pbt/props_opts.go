package main

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// --- C03: value-syntax options --------------------------------------------------

// neutralCase is a document that spells the same under every value option.
type neutralCase struct {
	A, B Opts
	Src  S
	Want Snap
}

func init() {
	register("C03",
		"a case is non-trivial when at least one value-syntax option is set and the document has a value form or an inline comment beyond bare words (options), or at least two lines (soup), or two differing option sets and two keys (only-named), or something is repeated 30 times or more or longer than 1 MiB (long)",
		sub[docCase]{name: "options", quick: 80000, thoro: 4000000,
			gen: func(t *rapid.T) docCase {
				var o Opts
				valueOpts(t, &o, pick(t, 40, 20, 70))
				if chance(t, 15) {
					// neighbouring options must not disturb
					structOpts(t, &o, 15)
				}
				return genDoc(t, o, stdConf(t), docItems(t))
			},
			check: func(c *Ctx, d docCase) error {
				d.labels(c)
				labelValueOpts(c, d.O)
				c.NonTrivial(anyValueOpt(d.O) && len(d.Feats) >= 2)
				return checkDoc(d, cmp{})
			}},
		sub[soupCase]{name: "soup", quick: 80000, thoro: 4000000,
			gen: func(t *rapid.T) soupCase {
				var o Opts
				valueOpts(t, &o, pick(t, 40, 20, 70))
				return soupCase{O: o, Src: []S{S(soup(t, 6, 5))}}
			},
			check: func(c *Ctx, d soupCase) error {
				labelValueOpts(c, d.O)
				c.NonTrivial(anyValueOpt(d.O) && strings.Count(string(d.Src[0]), "\n") >= 2)
				return checkSoup(c, d, cmp{})
			}},
		longDocs(500, 20000, cmp{}, func(t *rapid.T) (o Opts) {
			valueOpts(t, &o, 40)
			return o
		}),
		sub[neutralCase]{name: "only-named", quick: 15000, thoro: 600000,
			gen: func(t *rapid.T) neutralCase {
				var a, b Opts
				valueOpts(t, &a, 50)
				valueOpts(t, &b, 50)
				a.KeyValueDelimiters, b.KeyValueDelimiters = "", ""
				m := &MFile{}
				d := newDoc(t, m, docConf{plainOnly: true})
				d.items(between(t, 2, 20))
				return neutralCase{A: a, B: b, Src: S(d.finish()), Want: m.snap()}
			},
			check: func(c *Ctx, d neutralCase) error {
				n := 0
				for _, s := range d.Want {
					n += len(s.Keys)
				}
				c.NonTrivial(n > 1 && fmt.Sprint(d.A) != fmt.Sprint(d.B))
				for _, o := range []Opts{d.A, d.B} {
					if err := checkDoc(docCase{O: o, Src: []S{d.Src}, Want: d.Want}, cmp{}); err != nil {
						return fmt.Errorf("document without any special construct under %+v: %v", o, err)
					}
				}
				return nil
			}},
	)

	// --- C04 ------------------------------------------------------------------
	register("C04",
		"a case is non-trivial when its document has at least one value continued on indented lines (python, python-big) or one key with nested values (nested), or at least two indented lines (soup), or something is repeated 30 times or more or longer than 1 MiB (long)",
		sub[docCase]{name: "python", quick: 60000, thoro: 3000000,
			gen: func(t *rapid.T) docCase {
				var o Opts
				if chance(t, 35) {
					valueOpts(t, &o, 25)
				}
				if chance(t, 15) {
					structOpts(t, &o, 15)
				}
				o.AllowNestedValues, o.AllowPythonMultilineValues = false, true
				cf := stdConf(t)
				cf.multi = pick(t, 60, 30)
				return genDoc(t, o, cf, docItems(t))
			},
			check: func(c *Ctx, d docCase) error {
				d.labels(c)
				c.NonTrivial(d.has("python"))
				return checkDoc(d, cmp{})
			}},
		sub[docCase]{name: "python-big", quick: 2500, thoro: 80000,
			gen: func(t *rapid.T) docCase {
				o := Opts{AllowPythonMultilineValues: true, ReaderBufferSize: pick(t, 0, 1, 5000, 65536)}
				return genDoc(t, o, docConf{comments: 10, odd: 30, big: 30, multi: 60}, 8)
			},
			check: func(c *Ctx, d docCase) error {
				d.labels(c)
				c.NonTrivial(d.has("python") && d.has("big"))
				return checkDoc(d, cmp{})
			}},
		longDocs(500, 20000, cmp{}, func(t *rapid.T) (o Opts) {
			o.AllowPythonMultilineValues = chance(t, 60)
			o.AllowNestedValues = !o.AllowPythonMultilineValues
			o.ReaderBufferSize = pick(t, 0, 0, 16, 5000)
			return o
		}),
		sub[docCase]{name: "nested", quick: 60000, thoro: 3000000,
			gen: func(t *rapid.T) docCase {
				var o Opts
				if chance(t, 25) {
					valueOpts(t, &o, 25)
				}
				if chance(t, 25) {
					structOpts(t, &o, 20)
				}
				o.AllowNestedValues, o.AllowPythonMultilineValues = true, false
				cf := stdConf(t)
				cf.multi = pick(t, 0, 15)
				return genDoc(t, o, cf, docItems(t))
			},
			check: func(c *Ctx, d docCase) error {
				d.labels(c)
				c.NonTrivial(d.has("nested"))
				return checkDoc(d, cmp{})
			}},
		sub[soupCase]{name: "soup", quick: 60000, thoro: 3000000,
			gen: func(t *rapid.T) soupCase {
				var o Opts
				o.AllowNestedValues = chance(t, 50)
				o.AllowPythonMultilineValues = !o.AllowNestedValues
				if chance(t, 40) {
					valueOpts(t, &o, 20)
				}
				o.AllowBooleanKeys = chance(t, 40)
				return soupCase{O: o, Src: []S{S(soup(t, 8, 3))}}
			},
			check: func(c *Ctx, d soupCase) error {
				s := string(d.Src[0])
				c.NonTrivial(strings.Count(s, "\n ")+strings.Count(s, "\n\t") >= 2)
				return checkSoup(c, d, cmp{})
			}},
	)

	// --- C05 ------------------------------------------------------------------
	register("C05",
		"a case is non-trivial when its document has a boolean key, an auto-increment key, a skipped line or a raw section (spell), or at least two lines (soup), or something is repeated 30 times or more or longer than 1 MiB (long)",
		sub[docCase]{name: "spell", quick: 80000, thoro: 4000000,
			gen: func(t *rapid.T) docCase {
				var o Opts
				o.AllowBooleanKeys = chance(t, 60)
				o.SkipUnrecognizableLines = chance(t, 50)
				if chance(t, 60) {
					o.UnparseableSections = pick(t, []S{"RAW"}, []S{"RAW", "COMMENTS"}, []S{"x y", "raw"}, []S{"a", "b", "Sec"})
				}
				if chance(t, 30) {
					o.Insensitive = chance(t, 50)
					o.InsensitiveSections = chance(t, 50)
					o.InsensitiveKeys = chance(t, 50)
				}
				if chance(t, 20) {
					valueOpts(t, &o, 20)
				}
				o.AllowShadows = chance(t, 10)
				o.AllowNonUniqueSections = chance(t, 10)
				return genDoc(t, o, stdConf(t), docItems(t))
			},
			check: func(c *Ctx, d docCase) error {
				d.labels(c)
				c.NonTrivial(d.has("boolean-key") || d.has("auto-increment") || d.has("skipped-line") || d.has("raw-line"))
				if err := checkDoc(d, cmp{}); err != nil {
					return err
				}
				return nil
			}},
		sub[soupCase]{name: "soup", quick: 60000, thoro: 3000000,
			gen: func(t *rapid.T) soupCase {
				var o Opts
				o.AllowBooleanKeys = chance(t, 60)
				o.SkipUnrecognizableLines = chance(t, 60)
				if chance(t, 60) {
					o.UnparseableSections = []S{"RAW", "s"}
				}
				o.InsensitiveSections = chance(t, 20)
				return soupCase{O: o, Src: []S{S(soup(t, 8, 4))}}
			},
			check: func(c *Ctx, d soupCase) error {
				c.NonTrivial(strings.Count(string(d.Src[0]), "\n") >= 2)
				return checkSoup(c, d, cmp{})
			}},
		longDocs(500, 20000, cmp{}, func(t *rapid.T) (o Opts) {
			o.AllowBooleanKeys = chance(t, 60)
			o.SkipUnrecognizableLines = chance(t, 60)
			o.UnparseableSections = pick(t, nil, []S{"a", "b", "Sec", "s1"})
			return o
		}),
		sub[docCase]{name: "auto-many", quick: 2000, thoro: 60000,
			gen: func(t *rapid.T) docCase {
				m := &MFile{}
				b := newDoc(t, m, docConf{comments: 5, odd: 10})
				for s := between(t, 1, 3); s > 0; s-- {
					b.section()
					for i := pick(t, 3, 9, 11, 30, 101, 130); i > 0; i-- {
						v := word(t)
						b.line("-" + pick(t, "", " ") + "=" + v)
						k, _ := m.newKey(b.sec, fmt.Sprintf("#%d", b.auto), v)
						k.Auto = true
						k.Comment = b.takeComment()
						b.auto++
						if chance(t, 10) {
							b.key()
						}
					}
				}
				return docCase{Src: []S{S(b.finish())}, Want: m.snap(), Feats: b.feats()}
			},
			check: func(c *Ctx, d docCase) error {
				d.labels(c)
				c.NonTrivial(true)
				return checkDoc(d, cmp{})
			}},
	)
}

func anyValueOpt(o Opts) bool {
	return o.IgnoreContinuation || o.IgnoreInlineComment || o.SpaceBeforeInlineComment || o.UnescapeValueDoubleQuotes ||
		o.UnescapeValueCommentSymbols || o.PreserveSurroundedQuote || o.KeyValueDelimiters != ""
}

func labelValueOpts(c *Ctx, o Opts) {
	c.Label(o.IgnoreContinuation, "IgnoreContinuation")
	c.Label(o.IgnoreInlineComment, "IgnoreInlineComment")
	c.Label(o.SpaceBeforeInlineComment, "SpaceBeforeInlineComment")
	c.Label(o.UnescapeValueDoubleQuotes, "UnescapeValueDoubleQuotes")
	c.Label(o.UnescapeValueCommentSymbols, "UnescapeValueCommentSymbols")
	c.Label(o.PreserveSurroundedQuote, "PreserveSurroundedQuote")
	c.Label(o.KeyValueDelimiters != "", "custom-delimiters")
}
