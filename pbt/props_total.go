package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"
	"time"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// totalCase is arbitrary content under arbitrary options.
type totalCase struct {
	O      Opts
	Src    []S
	Kind   int
	Chunks []int
	F      format
	Indent S
	Delim  S
	Again  bool // Reload and Append as well
}

func rawBytes(t *rapid.T) string {
	n := pick(t, 12, 3, 60, 300)
	b := make([]byte, intn(t, n+1))
	for i := range b {
		if chance(t, 60) {
			b[i] = pick(t, byte('a'), '=', '\n', '[', ']', '"', '`', '\\', ' ', '#', ';', ':', '\'', '-', '%', '(', ')', 's', '\t', '\r', 0xef, 0xbb, 0xbf, 0xfe, 0xff)
		} else {
			b[i] = byte(intn(t, 256))
		}
	}
	return string(b)
}

// mutate changes a few places of a text.
func mutate(t *rapid.T, s string) string {
	b := []byte(s)
	for n := 1 + intn(t, 4); n > 0 && len(b) > 0; n-- {
		i := intn(t, min(len(b), 1024))
		switch intn(t, 5) {
		case 0:
			b = append(b[:i:i], b[i+1:]...)
		case 1:
			b[i] = byte(intn(t, 256))
		case 2:
			b = append(b[:i:i], append([]byte(pickFrom(t, soupTokens)), b[i:]...)...)
		case 3:
			j := i + intn(t, min(len(b)-i, 200))
			b = append(b[:i:i], b[j:]...)
		case 4:
			j := i + intn(t, min(len(b)-i, 200))
			b = append(b[:j:j], b[i:]...)
		}
	}
	return string(b)
}

func anyOpts(t *rapid.T) Opts {
	o := loadOpts(t, pick(t, 20, 50, 5))
	if chance(t, 15) {
		o.AllowNestedValues, o.AllowPythonMultilineValues = true, true
	}
	if chance(t, 15) {
		o.InsensitiveKeys, o.InsensitiveSections = true, true
	}
	if chance(t, 15) {
		o.KeyValueDelimiters = pick(t, S("é"), S("\""), S("`="), S("#"), S(";="), S("["), S(" "), S("\n"), S("\\="), S("\xff"), S("="), S("-"), S("ab"), S("\t="))
	}
	if chance(t, 15) {
		o.ChildSectionDelimiter = pick(t, S("é"), S(" "), S("a"), S("\n"), S(".."), S("\xff"), S("]"))
	}
	if chance(t, 15) {
		o.UnparseableSections = []S{S(word(t)), "", "a", "DEFAULT"}
	}
	if chance(t, 10) {
		o.ReaderBufferSize = pick(t, -1, -100, 1, 15, 16, 17, 100, 1<<20)
	}
	o.AllowDuplicateShadowValues = chance(t, 15)
	o.Loose = chance(t, 10)
	o.ShortCircuit = chance(t, 10)
	return o
}

func genFormatAny(t *rapid.T) format {
	return format{Pretty: chance(t, 60), Equal: chance(t, 30), Section: chance(t, 60), Header: chance(t, 40),
		Left: pick(t, S(""), S(" "), S("\t"), S("xx")), Right: pick(t, S(""), S(" "), S("  "), S("x")), LineBreak: pick(t, S("\n"), S("\r\n"), S(""), S("\r"), S("x"))}
}

type everything struct {
	A     string
	B     int
	C     *bool
	Key   []int
	Name  time.Duration
	When  time.Time
	F     float64
	U     uint
	Flag  bool
	K     *[]string
	S     struct{ A, B string }
	Inner *struct{ Key int8 } `ini:"a"`
	Sh    []string            `ini:"a,,allowshadow" delim:","`
	X     any                 `ini:"-"`
}

const expandCap = 1 << 14

// touch reads a file through every accessor and writes it in every way.
func touch(c *Ctx, f *ini.File, d totalCase) error {
	sn, err := snapshot(f)
	if err != nil {
		return err
	}
	m := modelOf(d.O, sn)
	capped := false
	secs := f.Sections()
	for si, s := range secs {
		_ = s.Body()
		_ = s.KeysHash()
		_ = s.ChildSections()
		_ = s.ParentKeys()
		_ = s.HasValue("1")
		if !f.HasSection(s.Name()) && s.Name() != "" {
			return fmt.Errorf("HasSection(%q) is false for a listed section", s.Name())
		}
		if _, err := f.SectionsByName(s.Name()); err != nil && s.Name() != "" {
			return fmt.Errorf("SectionsByName(%q) of a listed section: %v", s.Name(), err)
		}
		for ki, k := range s.Keys() {
			texts := append([]string{k.Value()}, k.ValueWithShadows()...)
			safe := true
			for _, v := range texts {
				for _, e := range append(strings.Split(v, ","), v) {
					_, _, _, ok := m.expand(m.Secs[si], m.Secs[si].Keys[ki], e, expandCap)
					safe = safe && ok
				}
			}
			if !safe {
				capped = true
				continue
			}
			touchKey(k)
			if k.Name() != "" && !s.HasKey(k.Name()) {
				return fmt.Errorf("HasKey(%q) is false for a listed key of %q", k.Name(), s.Name())
			}
		}
	}
	if capped {
		c.Exclude("a value whose references expand beyond 16 KB (known finding of C21)")
	}
	f.ChildSections("a")
	f.SectionStrings()
	if !capped {
		var e everything
		_ = f.MapTo(&e)
		_ = f.StrictMapTo(&e)
		for _, s := range secs {
			var e everything
			_ = s.MapTo(&e)
			_ = s.StrictMapTo(&e)
		}
	}
	for _, fm := range []format{defaultFormat(), d.F} {
		fm.set()
		var b bytes.Buffer
		if _, err := f.WriteTo(&b); err != nil {
			return fmt.Errorf("WriteTo: %v", err)
		}
		if _, err := f.WriteToIndent(io.Discard, string(d.Indent)); err != nil {
			return fmt.Errorf("WriteToIndent: %v", err)
		}
	}
	return nil
}

func touchKey(k *ini.Key) {
	_ = k.Name()
	_ = k.String()
	_ = k.NestedValues()
	_, _ = k.Bool()
	_, _ = k.Int()
	_, _ = k.Int64()
	_, _ = k.Uint()
	_, _ = k.Uint64()
	_, _ = k.Float64()
	_, _ = k.Duration()
	_, _ = k.Time()
	_, _ = k.TimeFormat(time.Kitchen)
	_ = k.MustBool()
	_ = k.MustInt()
	_ = k.MustInt64()
	_ = k.MustUint()
	_ = k.MustUint64()
	_ = k.MustFloat64()
	_ = k.MustDuration()
	_ = k.MustTime()
	_ = k.In("", []string{"a"})
	_ = k.InInt(1, []int{0})
	_ = k.InTime(time.Time{}, nil)
	_ = k.RangeInt(1, 0, 5)
	_ = k.RangeFloat64(1, 0, 5)
	_ = k.RangeTime(time.Time{}, time.Time{}, time.Time{})
	_ = k.Validate(strings.ToUpper)
	for _, dl := range []string{",", "\n", "::"} {
		_ = k.Strings(dl)
	}
	_ = k.StringsWithShadows(",")
	_ = k.Ints(",")
	_ = k.ValidFloat64s(",")
	_, _ = k.StrictBools(",")
	_ = k.Times(",")
	_ = k.Uint64s(",")
}

func (d totalCase) sources() []any {
	var out []any
	for i, s := range d.Src {
		src := newSource(string(s))
		src.chunks = d.Chunks
		switch (d.Kind + i) % 3 {
		case 0:
			out = append(out, []byte(s))
		case 1:
			out = append(out, io.Reader(struct{ io.Reader }{src}))
		case 2:
			out = append(out, closer{src})
		}
	}
	return out
}

func checkTotal(c *Ctx, d totalCase) error {
	c.NonTrivial(len(d.Src[0]) >= 4)
	o := d.O
	o.KeyValueDelimiterOnWrite = d.Delim
	f, err := loadAny(o.ini(), d.sources()...)
	if err != nil {
		c.Label(true, "error")
		if _, ok := err.(both); ok {
			return err
		}
		if err.Error() == "" {
			return fmt.Errorf("error without text")
		}
		return nil
	}
	c.Label(true, "file")
	if err := touch(c, f, d); err != nil {
		return err
	}
	if d.Again {
		if d.Kind%3 == 0 && len(d.Src) == 1 {
			_ = f.Reload()
		}
		if err := f.Append([]byte(d.Src[0])); err != nil {
			c.Label(true, "append-error")
		}
		c.Label(true, "append")
		return touch(c, f, d)
	}
	return nil
}

func finishTotal(t *rapid.T, d totalCase) totalCase {
	d.O = anyOpts(t)
	d.Kind = intn(t, 3)
	d.Chunks = genChunks(t)
	d.F = genFormatAny(t)
	d.Indent = pick(t, S(""), S("  "), S("\t"), S("x"))
	d.Delim = pick(t, S(""), S("="), S(":"), S("=>"), S("\n"))
	d.Again = chance(t, 25)
	return d
}

func init() {
	register("C01",
		"a case is non-trivial when the first source has at least four bytes",
		sub[totalCase]{name: "bytes", quick: 40000, thoro: 3000000,
			gen: func(t *rapid.T) totalCase {
				d := totalCase{Src: []S{S(rawBytes(t))}}
				if chance(t, 15) {
					d.Src = append(d.Src, S(rawBytes(t)))
				}
				return finishTotal(t, d)
			}, check: checkTotal},
		sub[totalCase]{name: "soup", quick: 50000, thoro: 3000000,
			gen: func(t *rapid.T) totalCase {
				d := totalCase{Src: []S{S(soup(t, pick(t, 8, 3, 30), 4))}}
				if chance(t, 15) {
					d.Src = append(d.Src, S(soup(t, 6, 4)))
				}
				return finishTotal(t, d)
			}, check: checkTotal},
		sub[totalCase]{name: "mutated", quick: 30000, thoro: 2000000,
			gen: func(t *rapid.T) totalCase {
				d := finishTotal(t, totalCase{})
				cf := stdConf(t)
				cf.big = pick(t, 0, 0, 3)
				o := d.O
				o.KeyValueDelimiters, o.ChildSectionDelimiter, o.UnparseableSections = "", "", nil
				if o.AllowPythonMultilineValues {
					o.AllowNestedValues = false
				}
				b := newDoc(t, &MFile{O: o}, cf)
				b.items(intn(t, docItems(t)))
				src := b.finish()
				if chance(t, 10) {
					src = strings.Repeat(src, pick(t, 2, 10, 50))
				}
				d.Src = []S{S(mutate(t, src))}
				return d
			}, check: checkTotal},
	)
}
