package main

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// --- C06 ----------------------------------------------------------------------

// defectCase is a well-formed document with one malformed line.
type defectCase struct {
	O     Opts
	Src   []S
	Class S
	Line  S
	Clean S // the first source without the defect
	Feats []S
}

func genDefect(t *rapid.T) defectCase {
	var o Opts
	if chance(t, 40) {
		valueOpts(t, &o, 20)
	}
	if chance(t, 40) {
		structOpts(t, &o, 20)
		o.UnparseableSections = nil
	}
	classes := []string{"unclosed-section", "empty-section", "keyquote", "multiline", "emptykey", "delim"}
	class := pickFrom(t, classes)
	if class == "delim" {
		o.AllowBooleanKeys, o.SkipUnrecognizableLines = false, false
	}
	if class == "emptykey" {
		o.SkipUnrecognizableLines = false
	}
	cf := stdConf(t)
	m := &MFile{O: o}
	b := newDoc(t, m, cf)
	if chance(t, 15) {
		b.nl = "\r\n"
	}
	b.items(intn(t, pick(t, 8, 1, 25)))
	pre := b.out.String()
	ds := o.delims()
	d := string(ds[intn(t, len(ds))])
	text := strings.TrimSpace(odd(t, 4))
	if chance(t, 5) { // longer than what a message quotes
		n := pick(t, 60, 80, 200, 300, 600, 1100, 5000)
		text = strings.TrimSpace(strings.Repeat(text+"y", n/(len(text)+1)+1))
	}
	line, quote := "", ""
	switch class {
	case "unclosed-section":
		line = "[" + strings.ReplaceAll(text, "]", "")
	case "empty-section":
		line = "[]" + pick(t, "", " # c", " x")
	case "keyquote":
		q := pick(t, "`", `"`, `"""`)
		text = strings.ReplaceAll(text, q[:1], "")
		line = q + text + pick(t, "", " "+d+" v", "long enough")
		if q == `"""` {
			line += "xxxx" // at least seven bytes
		} else if q == `"` && strings.HasPrefix(line, `""`) {
			line = `"x`
		}
	case "multiline":
		q := pick(t, "`", `"""`)
		if o.UnescapeValueDoubleQuotes && chance(t, 50) {
			q = `"`
		}
		quote = q
		text = strings.ReplaceAll(text, q[:1], "")
		line = "mlkey" + pick(t, " ", "") + d + " " + q + text + "z"
	case "emptykey":
		line = d + pick(t, "", " ") + text
	case "delim":
		if !b.bareKeyOK(text) {
			text = "no delimiter here"
		}
		line = pick(t, text, text, `"quoted" rest`, "`quoted`", `"""quoted""" x`)
		if strings.ContainsAny(line, ds) {
			line = "x"
		}
	}
	if stripBOM(line) != line && pre == "" {
		pre = b.nl
	}
	in := b.indent()
	b.pyOpen, b.nestOpen, b.nestKey = false, false, nil
	b.raw = false
	b.out.Reset()
	b.items(intn(t, pick(t, 8, 1, 25)))
	suf := b.out.String()
	if quote != "" && strings.Contains(suf, quote) {
		suf = ""
	}
	if suf == "" && class != "multiline" && chance(t, 50) {
		suf = ""
	} else {
		suf = b.nl + suf
	}
	if stripBOM(pre) != pre {
		pre = b.nl + pre
	}
	dc := defectCase{O: o, Class: S(class), Line: S(line), Src: []S{S(pre + in + line + suf)}, Feats: b.feats(), Clean: S(pre)}
	if chance(t, 15) {
		dc.Src = append([]S{"x = 1" + S(b.nl)}, dc.Src...)
		dc.O.ShortCircuit = false
		if strings.ContainsAny("=", ds) == false {
			dc.Src = dc.Src[1:]
		}
	} else {
		dc.O.ShortCircuit = chance(t, 8)
	}
	dc.O.Loose = chance(t, 15)
	return dc
}

func init() {
	register("C06",
		"a case is non-trivial when the defect has well-formed lines before it (defect), or the text has at least two lines (soup)",
		sub[defectCase]{name: "defect", quick: 90000, thoro: 4000000,
			gen: genDefect,
			check: func(c *Ctx, d defectCase) error {
				c.Label(true, string(d.Class))
				c.Label(len(d.Src) > 1, "second-source")
				c.NonTrivial(d.Clean != "")
				if selfTest {
					if _, e := refLoad(d.O, strs(d.Src)...); e != string(d.Class) {
						panic(fmt.Sprintf("selftest: %q: %q", d.Src, e))
					}
				}
				if _, err := load(d.O, string(d.Clean)); err != nil {
					return fmt.Errorf("well-formed beginning refused: %v", err)
				}
				_, err := load(d.O, strs(d.Src)...)
				if err == nil {
					return fmt.Errorf("malformed document (%s) accepted", d.Class)
				}
				line := string(d.Line)
				if ini.IsErrDelimiterNotFound(nil) || ini.IsErrEmptyKeyName(nil) {
					return fmt.Errorf("a nil error is recognised as an error")
				}
				return errClassOK(err, string(d.Class), line)
			}},
		sub[soupCase]{name: "soup", quick: 80000, thoro: 4000000,
			gen: func(t *rapid.T) soupCase {
				o := loadOpts(t, 15)
				o.AllowNestedValues = o.AllowNestedValues && !o.AllowPythonMultilineValues
				return soupCase{O: o, Src: []S{S(soup(t, 7, 4))}}
			},
			check: func(c *Ctx, d soupCase) error {
				c.NonTrivial(strings.Count(string(d.Src[0]), "\n") >= 2)
				return checkSoup(c, d, cmp{})
			}},
	)
}

// --- C07 ----------------------------------------------------------------------

type deliverCase struct {
	O       Opts
	Src     S
	Kind    int // 0 file, 1 reader, 2 read-closer, 3 bytes.Buffer, 4 strings.Reader
	Chunks  []int
	EOFLast bool
	Buf     int
	WF      bool // known to be well-formed
	Pad     int  // bytes of comment lines in front
	Line    int  // bytes of each such line
	Cut     int  // how much of the source stands before them, in percent of its lines
}

// text is the content with its padding.
func (d deliverCase) text() string {
	if d.Pad == 0 {
		return string(d.Src)
	}
	lines := strings.SplitAfter(string(d.Src), "\n")
	n := len(lines) * d.Cut / 100
	var b strings.Builder
	b.WriteString(strings.Join(lines[:n], ""))
	for left := d.Pad; left > 0; {
		l := max(2, min(left, d.Line))
		b.WriteString("#" + strings.Repeat("p", l-2) + "\n")
		left -= l
	}
	b.WriteString(strings.Join(lines[n:], ""))
	return b.String()
}

func genDelivery(t *rapid.T) deliverCase {
	d := deliverCase{O: loadOpts(t, 20)}
	if chance(t, 35) {
		o := d.O
		o.AllowNestedValues = o.AllowNestedValues && !o.AllowPythonMultilineValues
		d.Src = S(soup(t, 8, 4))
		d.O = o
	} else {
		cf := stdConf(t)
		cf.big = pick(t, 0, 0, 0, 3, 8)
		dc := genDoc(t, d.O, cf, docItems(t))
		d.Src, d.WF = dc.Src[0], true
	}
	d.Kind = intn(t, 5)
	d.Chunks = genChunks(t)
	d.EOFLast = chance(t, 30)
	d.Buf = pick(t, 0, 1, 100, 4096, 4097, 8192, 65536, 1<<20)
	return d
}

func checkDelivery(c *Ctx, d deliverCase) error {
	text := d.text()
	c.NonTrivial(strings.Count(text, "\n") >= 3)
	c.Label(true, []string{"file", "reader", "read-closer", "buffer", "strings.Reader"}[d.Kind])
	c.Label(len(text) > 4096, "beyond-buffer")
	c.Label(len(text) > 1<<20, "beyond-a-mebibyte")
	want, wantErr := load(d.O, text)
	if _, ok := wantErr.(both); ok {
		return wantErr
	}
	if d.WF && d.Pad == 0 && wantErr != nil {
		return fmt.Errorf("well-formed document refused: %v", wantErr)
	}
	o := d.O
	o.ReaderBufferSize = d.Buf
	src := newSource(text)
	src.chunks, src.eofLast = d.Chunks, d.EOFLast
	var from any
	switch d.Kind {
	case 0:
		from = scratchFile(text)
	case 1:
		from = io.Reader(struct{ io.Reader }{src})
	case 2:
		from = closer{src}
	case 3:
		from = bytes.NewBufferString(text)
	case 4:
		from = strings.NewReader(text)
	}
	got, err := loadAny(o.ini(), from)
	if (err == nil) != (wantErr == nil) || err != nil && err.Error() != wantErr.Error() {
		return fmt.Errorf("error %v, from a byte slice %v", err, wantErr)
	}
	if err != nil {
		c.Label(true, "error")
		return nil
	}
	ws, err := snapshot(want)
	if err != nil {
		return err
	}
	return checkFile(got, ws, cmp{})
}

type formCase struct {
	O     Opts
	Src   S
	Want  Snap
	BOM   S
	CRLF  bool
	Chop  bool
	Feats []S
}

func normCRLF(s string) string { return strings.ReplaceAll(s, "\r\n", "\n") }

// normSnap makes line breaks inside values, comments and bodies comparable.
func normSnap(in Snap) Snap {
	out := make(Snap, len(in))
	for i, s := range in {
		s.Comment, s.Body = normCRLF(s.Comment), normCRLF(s.Body)
		keys := make([]KeySnap, len(s.Keys))
		for j, k := range s.Keys {
			k.Value, k.Comment = normCRLF(k.Value), normCRLF(k.Comment)
			all := make([]string, len(k.All))
			for x := range k.All {
				all[x] = normCRLF(k.All[x])
			}
			k.All = all
			keys[j] = k
		}
		s.Keys = keys
		out[i] = s
	}
	return out
}

func genChunks(t *rapid.T) []int {
	var out []int
	for i := intn(t, 6); i > 0; i-- {
		out = append(out, pick(t, 1, 2, 3, 7, 64, 4095, 4096, 4097, 100000, 0))
	}
	if len(out) > 0 {
		out = append(out, pick(t, 1, 5, 512))
	}
	return out
}

func init() {
	register("C07",
		"a case is non-trivial when the content has at least three lines (delivery, long, form), and for form when it is really altered",
		sub[deliverCase]{name: "delivery", quick: 50000, thoro: 2000000,
			gen: genDelivery, check: checkDelivery},
		sub[deliverCase]{name: "long", quick: 300, thoro: 8000,
			gen: func(t *rapid.T) deliverCase {
				d := genDelivery(t)
				d.Pad = pick(t, 64<<10, 1<<20, 1<<20, 2<<20, 3<<20, 5<<20) + between(t, -2, 2)
				d.Line = pick(t, 80, 80, 4096, 65536, 1<<20, 8<<20)
				d.Cut = pick(t, 0, 50, 90, 100)
				if chance(t, 20) {
					d.Pad -= len(d.Src)
				}
				if d.Cut > 0 {
					d.Line = max(d.Line, 65536) // a multi-line value takes quadratic time in its lines
				}
				return d
			}, check: checkDelivery},
		sub[formCase]{name: "form", quick: 60000, thoro: 2500000,
			gen: func(t *rapid.T) formCase {
				o := loadOpts(t, 20)
				m := &MFile{O: o}
				cf := stdConf(t)
				b := newDoc(t, m, cf)
				b.items(intn(t, docItems(t)))
				src := b.out.String()
				if stripBOM(src) != src {
					src = "\n" + src
				}
				f := formCase{O: o, Src: S(src), Want: m.snap(), Feats: b.feats()}
				if chance(t, 40) {
					f.BOM = pick(t, S("\xef\xbb\xbf"), S("\xfe\xff"), S("\xff\xfe"))
				}
				f.CRLF = !strings.Contains(src, "\r\n") && chance(t, 50)
				f.Chop = chance(t, 40)
				return f
			},
			check: func(c *Ctx, d formCase) error {
				c.NonTrivial(strings.Count(string(d.Src), "\n") >= 3 && (d.BOM != "" || d.CRLF || d.Chop))
				c.Label(d.BOM != "", "bom")
				c.Label(d.CRLF, "crlf")
				c.Label(d.Chop, "no-final-break")
				s := string(d.Src)
				if d.CRLF {
					s = strings.ReplaceAll(s, "\n", "\r\n")
				}
				if d.Chop {
					s = strings.TrimSuffix(strings.TrimSuffix(s, "\n"), "\r")
				}
				s = string(d.BOM) + s
				f, err := load(d.O, s)
				if err != nil {
					return fmt.Errorf("well-formed document refused: %v", err)
				}
				got, err := snapshot(f)
				if err != nil {
					return err
				}
				return cmp{}.diff(normSnap(got), normSnap(d.Want))
			}},
	)
}
