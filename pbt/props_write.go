package main

import (
	"fmt"
	"strings"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// unwritable returns why the file has no written form that could give it back
// (a limit of the format, not of the code), or "".
func unwritable(m *MFile, f format, indent string) string {
	o := m.O
	if o.KeyValueDelimiterOnWrite != "" && !strings.Contains(o.delims(), string(o.KeyValueDelimiterOnWrite)) ||
		o.KeyValueDelimiterOnWrite == "" && !strings.Contains(o.delims(), "=") {
		return "write delimiter is no delimiter"
	}
	if indent != "" && (o.AllowNestedValues || o.AllowPythonMultilineValues) {
		return "indent with indentation-sensitive options"
	}
	defName := m.secName(ini.DefaultSection)
	for i, s := range m.Secs {
		if i > 0 && s.Name == defName && !o.AllowNonUniqueSections {
			return "default section re-created behind others"
		}
		if i > 0 && s.Name == defName && m.Secs[0].Name != defName {
			return "default section re-created behind others"
		}
		if s.Name == "" || strings.Contains(s.Name, "\n") {
			return "section name with line feed"
		}
		listed := false
		for _, u := range o.UnparseableSections {
			if string(u) == s.Name || o.foldSec() && strings.EqualFold(string(u), s.Name) {
				listed = true
			}
		}
		if s.Raw != listed && (s.Body != "" || len(s.Keys) > 0 || s.Raw) {
			return "raw section that is not listed, or the reverse"
		}
		if s.Raw {
			if len(s.Keys) > 0 {
				return "raw section with keys"
			}
			if i == 0 && s.Name == defName {
				return "raw default section"
			}
			for _, l := range strings.Split(strings.TrimSpace(s.Body), "\n") {
				if l == "" && strings.TrimSpace(s.Body) == "" {
					continue
				}
				if startsWithSpace(l) || l == "" || l[0] == '#' || l[0] == ';' || l[0] == '[' {
					return "raw body line that is indented, empty, a comment or a header"
				}
			}
		}
		auto := 0
		for _, k := range s.Keys {
			n := k.Name
			if n == "" || !trimmed(n) || strings.Contains(n, "\n") || n == "-" && !k.Auto {
				return "key name with surrounding space or line feed, or the auto-increment mark"
			}
			if strings.Contains(n, "`") && (strings.Contains(n, `"""`) || strings.HasSuffix(n, `"`)) {
				return "key name that no quotes can hold"
			}
			if k.Auto {
				auto++
				if n != fmt.Sprintf("#%d", auto) {
					return "auto-increment keys not counted from one"
				}
			}
			if k.Bool && !o.AllowBooleanKeys {
				return "boolean key without AllowBooleanKeys"
			}
			if k.Bool && len(k.Shadows) > 0 {
				return "boolean key with shadows"
			}
			if k.Auto && k.Bool {
				return "boolean auto-increment key"
			}
			if len(k.Nested) > 0 && (len(k.all()) > 0 || !o.AllowNestedValues || k.Auto || k.Bool) {
				return "nested values below a non-empty value"
			}
			for _, v := range k.Nested {
				if !trimmed(v) || strings.Contains(v, "\n") {
					return "nested value with surrounding space or line feed"
				}
			}
			if len(k.Shadows) > 0 && (!o.AllowShadows || k.Val == "") {
				return "shadows below an empty value"
			}
			seen := map[string]bool{k.Val: true}
			for _, v := range k.Shadows {
				if v == "" || seen[v] && !o.AllowDuplicateShadowValues {
					return "empty or repeated shadow value"
				}
				seen[v] = true
			}
			for _, v := range append([]string{k.Val}, k.Shadows...) {
				if strings.Contains(v, "\n") && strings.Contains(v, "`") && strings.Contains(v, `"""`) {
					return "value that no quotes can hold"
				}
			}
			if k.Auto && o.AllowShadows {
				for _, k2 := range s.Keys {
					if k2 != k && k2.Name == k.Name {
						return "x"
					}
				}
			}
		}
	}
	return ""
}

// fileCase is a file to be written: parsed from a document and then edited.
type fileCase struct {
	O      Opts
	Src    S
	Ops    []mop
	F, F2  format
	Indent S
	Feats  []S
}

func (d fileCase) build() (*machine, error) {
	m, class := refLoad(d.O, string(d.Src))
	if class != "" {
		panic("fileCase: malformed document: " + class)
	}
	f, err := load(d.O, string(d.Src))
	if err != nil {
		return nil, fmt.Errorf("well-formed document refused: %v", err)
	}
	x := &machine{f: f, m: m}
	for _, op := range d.Ops {
		if err := x.step(op); err != nil {
			return nil, err
		}
	}
	return x, nil
}

func genFormat(t *rapid.T, o *Opts) format {
	f := format{Pretty: !chance(t, 40), Section: !chance(t, 40), Equal: chance(t, 30), Header: chance(t, 30), LineBreak: "\n"}
	if chance(t, 35) {
		f.Left = pick(t, S(" "), S(""), S("\t"), S("  "))
		f.Right = pick(t, S(" "), S(""), S("\t"), S("  "))
	}
	if chance(t, 25) {
		f.LineBreak = "\r\n"
	}
	return f
}

// writeOpts draws options under which everything written can be read back.
func writeOpts(t *rapid.T) Opts {
	o := loadOpts(t, 20)
	if o.KeyValueDelimiters != "" {
		if !strings.Contains(string(o.KeyValueDelimiters), "=") || chance(t, 40) {
			ds := string(o.KeyValueDelimiters)
			o.KeyValueDelimiterOnWrite = S(ds[intn(t, len(ds))])
		}
	} else if chance(t, 15) {
		o.KeyValueDelimiterOnWrite = ":"
	}
	if chance(t, 30) {
		o.AllowBooleanKeys = true
	}
	return o
}

// apiValue draws a value of any kind.
func apiValue(t *rapid.T) string {
	switch {
	case chance(t, 35):
		return word(t)
	case chance(t, 8):
		return ""
	case chance(t, 2):
		return odd(t, 2) + filler(bigSize(t)) + odd(t, 2)
	case chance(t, 35):
		return anyText(t, 6)
	}
	return odd(t, 5)
}

func apiName(t *rapid.T, pool []string, pct int) string {
	if chance(t, pct) {
		s := strings.TrimSpace(odd(t, 4))
		if s != "" && s != "-" {
			return s
		}
	}
	return pickFrom(t, pool)
}

func genFile(t *rapid.T, comments bool) fileCase {
	o := writeOpts(t)
	cf := stdConf(t)
	if !comments {
		cf.comments = 0
	}
	n := docItems(t)
	if chance(t, 40) {
		n = 0
	}
	dc := genDoc(t, o, cf, n)
	d := fileCase{O: o, Src: dc.Src[0], Feats: dc.Feats}
	keys := []string{"a", "b", "key", "name", "Key", "k1", "one two", "x.y", "flag"}
	secs := []string{"", "a", "b", "Sec", "a.b", "x y", strings.ToLower(ini.DefaultSection)}
	for _, s := range dc.Want {
		secs = append(secs, s.Name)
		for _, k := range s.Keys {
			if len(keys) < 40 {
				keys = append(keys, k.Name)
			}
		}
	}
	raw := map[string]bool{}
	for _, u := range o.UnparseableSections {
		raw[strings.ToLower(string(u))] = true
	}
	if n == 0 && chance(t, 6) {
		// What looks like a byte-order mark, at the beginning of the output.
		d.Ops = append(d.Ops, mop{Op: pick(t, "new-key", "new-key", "new-bool"), Key: pick(t, S("\xef\xbb\xbf"), S("\xfe\xff"), S("\xff\xfe")) + S(apiName(t, keys, 10)), Val: S(apiValue(t))})
	}
	for i := intn(t, pick(t, 12, 3, 25)); i > 0; i-- {
		op := mop{Op: pick(t, "new-key", "set-value", "new-section", "new-key", "new-key", "delete-key", "delete-section", "new-bool", "add-shadow", "add-nested", "key-comment", "set-comment", "write")}
		op.Sec = S(apiName(t, secs, 15))
		op.Idx = 0
		switch op.Op {
		case "write":
			op.Sec = ""
		case "new-section":
			if op.Sec == "" {
				op.Sec = "n"
			}
			if raw[strings.ToLower(string(op.Sec))] {
				continue
			}
			secs = append(secs, string(op.Sec))
		case "delete-section":
			if (op.Sec == "" || strings.EqualFold(string(op.Sec), ini.DefaultSection)) && !chance(t, 25) {
				continue
			}
		case "set-comment":
			if !comments {
				continue
			}
			op.Val = S(anyText(t, 4))
		default:
			if raw[strings.ToLower(string(op.Sec))] {
				continue
			}
			op.Key = S(apiName(t, keys, 30))
			switch op.Op {
			case "new-key":
				keys = append(keys, string(op.Key))
				op.Val = S(apiValue(t))
			case "set-value", "add-shadow":
				op.Val = S(apiValue(t))
			case "add-nested":
				op.Val = S(strings.TrimSpace(odd(t, 3)))
			case "new-bool":
				if !o.AllowBooleanKeys {
					continue
				}
			case "key-comment":
				if !comments {
					continue
				}
				op.Val = S(anyText(t, 4))
			}
		}
		d.Ops = append(d.Ops, op)
		if op.Op == "new-bool" && chance(t, 30) {
			d.Ops = append(d.Ops, mop{Op: "set-value", Sec: op.Sec, Key: op.Key, Val: S(apiValue(t))})
		}
	}
	d.F, d.F2 = genFormat(t, &o), genFormat(t, &o)
	if !o.AllowNestedValues && !o.AllowPythonMultilineValues && chance(t, 25) {
		d.Indent = pick(t, S("  "), S("\t"), S(" "))
	}
	return d
}

// render writes the file under a format.
func render(f *ini.File, fm format, indent string) (string, error) {
	fm.set()
	defer resetGlobals()
	var b strings.Builder
	n, err := f.WriteToIndent(&b, indent)
	if err != nil {
		return "", fmt.Errorf("WriteToIndent: %v", err)
	}
	if n != int64(b.Len()) {
		return "", fmt.Errorf("WriteToIndent returned %d and wrote %d bytes", n, b.Len())
	}
	return b.String(), nil
}

// sameData compares a reloaded file with the model: everything but comments.
func sameData(text string, m *MFile, c cmp) error {
	f, err := load(m.O, text)
	if err != nil {
		return fmt.Errorf("written file refused: %v\nwritten: %s", err, abbrev(text))
	}
	c.noDefault, c.def = true, m.secName(ini.DefaultSection)
	if err := checkFile(f, m.snap(), c); err != nil {
		return fmt.Errorf("after reload: %v\nwritten: %s", err, abbrev(text))
	}
	return nil
}

func fileNonTrivial(m *MFile) bool {
	n, special := 0, 0
	for _, s := range m.Secs {
		n += len(s.Keys)
		for _, k := range s.Keys {
			if k.Bool || k.Auto || len(k.Shadows)+len(k.Nested) > 0 || !plainWord(k.Val) || !plainWord(k.Name) {
				special++
			}
		}
		if s.Raw {
			special++
			n++
		}
	}
	return n >= 2 && special >= 1
}

func plainWord(s string) bool {
	return s != "" && !strings.ContainsAny(s, " \t\r\n\"'`#;[]=:\\") && trimmed(s)
}

func labelFile(c *Ctx, m *MFile) {
	var raw, boolean, auto, shadow, nested, multi, quoted bool
	for _, s := range m.Secs {
		raw = raw || s.Raw
		for _, k := range s.Keys {
			boolean, auto = boolean || k.Bool, auto || k.Auto
			shadow, nested = shadow || len(k.Shadows) > 0, nested || len(k.Nested) > 0
			multi = multi || strings.Contains(k.Val, "\n")
			quoted = quoted || strings.ContainsAny(k.Val, "#;\"`'")
		}
	}
	c.Label(raw, "raw")
	c.Label(boolean, "boolean")
	c.Label(auto, "auto-increment")
	c.Label(shadow, "shadows")
	c.Label(nested, "nested")
	c.Label(multi, "multi-line-value")
	c.Label(quoted, "special-value")
}

func checkRoundTrip(c *Ctx, d fileCase, m *machine) error {
	labelFile(c, m.m)
	if why := unwritable(m.m, d.F, string(d.Indent)); why != "" {
		c.Exclude(why)
		return nil
	}
	c.NonTrivial(fileNonTrivial(m.m))
	text, err := render(m.f, d.F, string(d.Indent))
	if err != nil {
		return err
	}
	return sameData(text, m.m, cmp{noComments: true})
}

// rawCase is a raw section made through the API.
type rawCase struct {
	Body, After S
	Set         bool
	F           format
	Fold        bool
}

func init() {
	register("C08",
		"a case is non-trivial when the written file has at least two keys and one name, value or kind of key that is not a plain word, and has a written form (excluded reasons are counted)",
		sub[fileCase]{name: "edited", quick: 70000, thoro: 3000000,
			gen: func(t *rapid.T) fileCase { return genFile(t, chance(t, 30)) },
			check: func(c *Ctx, d fileCase) error {
				x, err := d.build()
				if err != nil {
					return err
				}
				if err := x.agree(); err != nil {
					return err
				}
				return checkRoundTrip(c, d, x)
			}},
		sub[fileCase]{name: "values", quick: 60000, thoro: 2500000,
			// One section, few keys: every kind of name and value next to others.
			gen: func(t *rapid.T) fileCase {
				d := fileCase{O: writeOpts(t), F: genFormat(t, nil)}
				d.O.UnparseableSections = nil
				sec := pick(t, S(""), S("s"), S(apiName(t, []string{"s", "a.b"}, 60)))
				if sec != "" {
					d.Ops = append(d.Ops, mop{Op: "new-section", Sec: sec})
				}
				for i := between(t, 1, 4); i > 0; i-- {
					op := mop{Op: "new-key", Sec: sec, Key: S(apiName(t, []string{"a", "b", "c"}, 50)), Val: S(apiValue(t))}
					if d.O.AllowBooleanKeys && chance(t, 20) {
						op.Op, op.Val = "new-bool", ""
					}
					d.Ops = append(d.Ops, op)
					if d.O.AllowShadows && chance(t, 40) {
						d.Ops = append(d.Ops, mop{Op: "add-shadow", Sec: sec, Key: op.Key, Val: S(apiValue(t))})
					}
				}
				d.Ops = append(d.Ops, mop{Op: "new-section", Sec: "last"}, mop{Op: "new-key", Sec: "last", Key: "end", Val: "1"})
				return d
			},
			check: func(c *Ctx, d fileCase) error {
				x, err := d.build()
				if err != nil {
					return err
				}
				return checkRoundTrip(c, d, x)
			}},
		sub[fileCase]{name: "long", quick: 500, thoro: 20000,
			gen: func(t *rapid.T) fileCase {
				d := fileCase{O: writeOpts(t)}
				cf := docConf{odd: pick(t, 5, 0, 20), multi: pick(t, 30, 60), long: pick(t, 10, 20, 4), noDefault: true}
				dc := genDoc(t, d.O, cf, between(t, 1, 6))
				d.Src, d.Feats = dc.Src[0], dc.Feats
				d.F = genFormat(t, &d.O)
				return d
			},
			check: func(c *Ctx, d fileCase) error {
				x, err := d.build()
				if err != nil {
					return err
				}
				return checkRoundTrip(c, d, x)
			}},
		sub[soupCase]{name: "soup", quick: 50000, thoro: 2000000,
			gen: func(t *rapid.T) soupCase {
				o := writeOpts(t)
				o.SkipUnrecognizableLines = o.SkipUnrecognizableLines || chance(t, 50)
				return soupCase{O: o, Src: []S{S(soup(t, 7, 4))}}
			},
			check: func(c *Ctx, d soupCase) error {
				m, class := refLoad(d.O, strs(d.Src)...)
				if class != "" {
					c.Exclude("malformed")
					return nil
				}
				f, err := load(d.O, strs(d.Src)...)
				if err != nil {
					return fmt.Errorf("well-formed document refused: %v", err)
				}
				return checkRoundTrip(c, fileCase{F: defaultFormat()}, &machine{f: f, m: m})
			}},
		sub[rawCase]{name: "raw", quick: 8000, thoro: 300000,
			gen: func(t *rapid.T) rawCase {
				var ls []string
				for i := intn(t, 5); i >= 0; i-- {
					l := strings.TrimSpace(odd(t, 5))
					if l == "" || strings.IndexByte("#;[", l[0]) >= 0 || startsWithSpace(l) {
						l = "x" + l
					}
					ls = append(ls, l+pick(t, "", "", " "))
				}
				return rawCase{Body: S(strings.Join(ls, "\n") + pick(t, "", "\n")), After: S(word(t)), Set: chance(t, 40), F: genFormat(t, nil), Fold: chance(t, 30)}
			},
			check: func(c *Ctx, d rawCase) error {
				c.NonTrivial(strings.Count(string(d.Body), "\n") > 0)
				o := Opts{UnparseableSections: []S{"RAW"}, InsensitiveSections: d.Fold}
				f := ini.Empty(o.ini())
				if _, err := f.Section("before").NewKey("k", "v"); err != nil {
					return err
				}
				first := string(d.Body)
				if d.Set {
					first = "replaced later\nk = v"
				}
				raw, err := f.NewRawSection("RAW", first)
				if err != nil {
					return err
				}
				if d.Set {
					raw.SetBody(string(d.Body))
				}
				f.Section("before").SetBody("not raw: ignored")
				if got := f.Section("before").Body(); got != "" {
					return fmt.Errorf("SetBody gave a normal section the body %q", got)
				}
				if _, err := f.Section("after").NewKey("k", string(d.After)); err != nil {
					return err
				}
				text, err := render(f, d.F, "")
				if err != nil {
					return err
				}
				g, err := load(o, text)
				if err != nil {
					return fmt.Errorf("written file refused: %v", err)
				}
				want, err := snapshot(f)
				if err != nil {
					return err
				}
				if b := f.Section("RAW").Body(); b != strings.TrimSpace(string(d.Body)) {
					return fmt.Errorf("Body is %q, want %q", b, strings.TrimSpace(string(d.Body)))
				}
				return checkFile(g, want, cmp{noDefault: true})
			}},
	)
}
