package main

import (
	"strconv"
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// docb writes a well-formed document and, independently of any parser, keeps
// the file it spells.
type docb struct {
	t   *rapid.T
	o   Opts
	m   *MFile
	out strings.Builder
	nl  string

	sec      *MSec
	raw      bool
	fresh    map[*MSec]bool
	pend     string // comments waiting for an owner
	auto     int
	pyOpen   bool // the next line must not be indented
	nestOpen bool // the same until the next key or section
	nestKey  *MKey

	secPool, keyPool []string
	conf             docConf
	feat             map[string]bool
}

type docConf struct {
	comments  int  // percentage of lines with comments
	odd       int  // percentage of odd names and values
	noIndents bool // no indentation of keys and sections
	big       int  // percentage of values beyond the buffer size
	long      int  // percentage of constructs repeated very often
	multi     int  // percentage of multi-line forms
	plainOnly bool // only forms no option changes
	noDefault bool // no [DEFAULT] header
}

func newDoc(t *rapid.T, m *MFile, conf docConf) *docb {
	b := &docb{t: t, o: m.O, m: m, nl: "\n", fresh: map[*MSec]bool{}, auto: 1, conf: conf, feat: map[string]bool{}}
	b.sec = m.section("")
	d := m.O.childDelim()
	b.secPool = []string{"a", "b", "s1", "a" + d + "b", "a" + d + "b" + d + "c", "Sec", "sec", "SEC", "b" + d + "x", "x y"}
	if !conf.noDefault {
		b.secPool = append(b.secPool, curDefault, strings.ToLower(curDefault))
	}
	b.keyPool = []string{"a", "b", "key", "name", "Key", "KEY", "A", "k1", "k2", "one two", "a.b", "É", "é"}
	return b
}

func (b *docb) has(f string) { b.feat[f] = true }

// count draws how often a construct is repeated, lo times at least.
func (b *docb) count(lo int) int {
	if b.conf.long > 0 && chance(b.t, b.conf.long) {
		b.has("long")
		return pick(b.t, 30, 65, 130, 260, 1030) + intn(b.t, 20)
	}
	return few(b.t, lo)
}

// fill is a text longer than a buffer.
func (b *docb) fill() string {
	if b.conf.long > 0 && chance(b.t, b.conf.long) {
		b.has("huge")
		return filler(pick(b.t, 1<<20, 1<<20+1, 2<<20) + intn(b.t, 3))
	}
	return filler(bigSize(b.t))
}

func (b *docb) indent() string {
	if b.pyOpen || b.nestOpen || b.conf.noIndents {
		return ""
	}
	if b.conf.long > 0 && chance(b.t, b.conf.long/4) {
		return strings.Repeat(" ", b.count(1))
	}
	return pick(b.t, "", "", "", " ", "\t", "    ", "\t\t", "\f", "\u00a0", "\u2003 ")
}

// line emits one physical line.
func (b *docb) line(s string) {
	b.out.WriteString(s)
	b.out.WriteString(b.nl)
	b.pyOpen = false
}

func (b *docb) takeComment() string {
	c := strings.TrimSpace(b.pend)
	b.pend = ""
	return c
}

// setComment gives the key of a line its comment. A line that adds a shadow
// keeps the comment of the key unless it has its own.
func (b *docb) setComment(k *MKey) {
	if c := b.takeComment(); c != "" || !b.o.AllowShadows {
		k.Comment = c
	}
}

func (b *docb) blank() {
	if b.pyOpen || b.nestOpen {
		b.line("")
		return
	}
	b.line(pick(b.t, "", "", " ", "\t", "\u00a0 "))
}

func (b *docb) commentText() string {
	s := pick(b.t, " ", "", "  ", "\t") + odd(b.t, 4)
	if chance(b.t, b.conf.big) {
		s += b.fill()
		b.has("big")
	}
	return s
}

func (b *docb) commentLine() {
	c := pick(b.t, "#", ";") + b.commentText()
	b.pend += c + b.nl
	b.line(b.indent() + c)
	b.has("comment-line")
}

func (b *docb) section() {
	name := pickFrom(b.t, b.secPool)
	if len(b.o.UnparseableSections) > 0 && chance(b.t, 30) {
		name = string(pickFrom(b.t, b.o.UnparseableSections))
		if chance(b.t, 20) {
			name = strings.ToLower(name)
		}
	} else if chance(b.t, b.conf.odd) {
		name = odd(b.t, 3)
		if name == "" {
			name = " "
		}
		b.has("odd-section")
	}
	if b.conf.noDefault && strings.EqualFold(name, "DEFAULT") {
		name = "d"
	}
	rest := ""
	if chance(b.t, b.conf.comments) {
		text := b.commentText()
		text = strings.ReplaceAll(text, "]", ")")
		c := pick(b.t, "#", ";") + text
		rest = pick(b.t, " ", "", "\t") + c
		b.pend += c + b.nl
		b.has("section-inline-comment")
	} else if chance(b.t, 5) {
		rest = pick(b.t, " ", " tail", "\t")
	}
	b.line(b.indent() + "[" + name + "]" + rest)
	had := len(b.m.byName(name)) > 0
	b.sec = b.m.newSection(name)
	if had {
		b.has("repeated-section")
	}
	b.sec.Comment = b.takeComment()
	b.auto = 1
	b.nestOpen, b.nestKey = false, nil
	b.raw = false
	for _, u := range b.o.UnparseableSections {
		if string(u) == name || b.o.foldSec() && strings.EqualFold(string(u), name) {
			b.raw = true
			b.has("raw-section")
		}
	}
}

func (b *docb) rawLine() {
	s := odd(b.t, 5)
	if chance(b.t, b.conf.big) {
		s += b.fill()
		b.has("big")
	}
	for s != "" && (startsWithSpace(s) || strings.IndexByte("#;[", s[0]) >= 0) {
		s = s[1:]
		s = strings.TrimSpace(s)
	}
	if s == "" {
		s = pick(b.t, "raw", "k = v", "`", "\"\"\"", "x\\", "= x")
	}
	in := b.indent()
	b.line(in + s)
	if !b.fresh[b.sec] {
		b.fresh[b.sec] = true
		b.sec.Body = ""
	}
	b.sec.Raw = true
	b.sec.Body += s + b.nl
	b.has("raw-line")
}

func (b *docb) bareKeyOK(s string) bool {
	return s != "" && trimmed(s) && s != "-" && !strings.ContainsAny(s, b.o.delims()) &&
		!strings.ContainsAny(s[:1], "\"`#;[") && !strings.Contains(s, "\n")
}

// keyText draws a key name and its written form.
func (b *docb) keyText() (name, text string) {
	name = pickFrom(b.t, b.keyPool)
	if chance(b.t, b.conf.odd) {
		name = strings.TrimSpace(odd(b.t, 3))
		if chance(b.t, b.conf.big) {
			name += b.fill()
			b.has("big")
		}
	}
	if name == "" || name == "-" {
		name = "k3"
	}
	forms := []string{}
	if b.bareKeyOK(name) {
		forms = append(forms, name, name)
	}
	if !strings.Contains(name, "`") {
		forms = append(forms, "`"+name+"`")
	}
	if !strings.Contains(name, `"`) {
		forms = append(forms, `"`+name+`"`, `"""`+name+`"""`)
	} else if !strings.Contains(name, `"""`) && !strings.HasSuffix(name, `"`) {
		forms = append(forms, `"""`+name+`"""`)
	}
	if len(forms) == 0 {
		return "k4", "k4"
	}
	text = forms[0]
	if !b.conf.plainOnly && chance(b.t, 35) {
		text = pickFrom(b.t, forms)
	}
	if b.conf.plainOnly && !b.bareKeyOK(name) {
		return "k5", "k5"
	}
	if text != name {
		b.has("quoted-key")
		if chance(b.t, 15) {
			// space inside the quotes is not part of the name
			q := text[:strings.Index(text, name)]
			text = q + " " + name + "\t" + q
			if strings.HasPrefix(name, `"`) || strings.HasSuffix(name, `"`) {
				text = q + name + q
			}
		}
	}
	return name, text
}

// vtext is one written value.
type vtext struct {
	text    string // first line, after the delimiter
	more    []string
	val     string
	comment string // what it adds to the pending comments
	open    bool   // an indented line would continue it
	form    string
}

func (b *docb) bareOK(s string) bool {
	o := b.o
	if s == "" || !trimmed(s) || strings.Contains(s, "\n") || s[0] == '`' || strings.HasPrefix(s, `"""`) {
		return false
	}
	if o.UnescapeValueDoubleQuotes && s[0] == '"' {
		return false
	}
	if surrounded(s, '"') || surrounded(s, '\'') {
		return false
	}
	if !o.IgnoreContinuation && strings.HasSuffix(s, `\`) {
		return false
	}
	if o.UnescapeValueCommentSymbols && (strings.Contains(s, `\#`) || strings.Contains(s, `\;`)) {
		return false
	}
	return b.noInline(s) && s[0] != '#' && s[0] != ';'
}

// noInline tells whether nothing in s starts an inline comment.
func (b *docb) noInline(s string) bool {
	switch {
	case b.o.IgnoreInlineComment:
		return true
	case b.o.SpaceBeforeInlineComment:
		return !strings.Contains(s, " #") && !strings.Contains(s, " ;")
	}
	return !strings.ContainsAny(s, "#;")
}

func (b *docb) bareText() string {
	for i := 0; i < 4; i++ {
		s := word(b.t)
		if chance(b.t, b.conf.odd) {
			s = strings.TrimSpace(odd(b.t, 5))
		} else if chance(b.t, 30) {
			s = s + pick(b.t, " ", "", "=", ": ") + word(b.t)
		}
		if chance(b.t, b.conf.big) {
			s += b.fill()
			b.has("big")
		}
		if b.bareOK(s) {
			return s
		}
	}
	return pick(b.t, "v", "w", "1")
}

// inline draws an inline comment and what the parser keeps of it.
func (b *docb) inline(quotes string) (text, kept string) {
	if b.o.IgnoreInlineComment || !chance(b.t, b.conf.comments) {
		return pick(b.t, "", "", " ", "\t"), ""
	}
	s := odd(b.t, 3)
	s = strings.Map(func(r rune) rune {
		if strings.ContainsRune(quotes, r) {
			return '_'
		}
		return r
	}, strings.ToValidUTF8(s, "?"))
	for n := -1; n != len(s); {
		n = len(s)
		s = strings.TrimRight(strings.TrimRightFunc(s, unicode.IsSpace), `\`)
	}
	b.has("inline-comment")
	c := pick(b.t, "#", ";") + s
	if b.o.SpaceBeforeInlineComment {
		c = " " + c
		return c, strings.TrimRightFunc(c, unicode.IsSpace)
	}
	return pick(b.t, " ", "", "\t") + c, strings.TrimSpace(c)
}

// multiBody draws the text of a quoted value that may have several lines.
func (b *docb) multiBody(lines int, forbid string) []string {
	var out []string
	for i := 0; i <= lines; i++ {
		s := odd(b.t, 4)
		if chance(b.t, b.conf.big) {
			s += b.fill()
			b.has("big")
		}
		for strings.Contains(s, forbid) {
			s = strings.ReplaceAll(s, forbid, "q")
		}
		out = append(out, s)
	}
	return out
}

func (b *docb) value() vtext {
	t, o := b.t, b.o
	lead := pick(t, " ", "", "  ", "\t", "\u00a0")
	form := pick(t, "bare", "bare", "bare", "empty", "dq", "sq", "backtick", "triple", "bare", "escape", "edq")
	if chance(t, b.conf.multi) {
		form = pick(t, "multi-backtick", "multi-triple", "continuation", "python", "multi-dq")
	}
	if b.conf.plainOnly {
		form = pick(t, "bare", "bare", "empty")
	}
	switch form {
	case "multi-dq", "edq":
		if !o.UnescapeValueDoubleQuotes {
			form = "bare"
		}
	case "dq":
		if o.UnescapeValueDoubleQuotes {
			form = "edq"
		}
	case "escape":
		if !o.UnescapeValueCommentSymbols || !o.IgnoreInlineComment && !o.SpaceBeforeInlineComment {
			form = "bare"
		}
	case "continuation":
		if o.IgnoreContinuation {
			form = "bare"
		}
	case "python":
		if !o.AllowPythonMultilineValues {
			form = "bare"
		}
	}
	py := o.AllowPythonMultilineValues
	switch form {
	case "empty":
		v := vtext{text: pick(t, "", "", " ", "\t"), open: py, form: form}
		if chance(t, b.conf.comments/2) && !o.IgnoreInlineComment && !o.SpaceBeforeInlineComment {
			c := pick(t, "#", ";") + " " + word(t)
			v.text += c
			v.comment = c
			b.has("inline-comment")
		}
		return v
	case "dq", "sq":
		q := `"`
		if form == "sq" {
			q = "'"
		}
		s := odd(t, 4)
		s = strings.ReplaceAll(s, q, "")
		if !b.noInline(s) {
			s = strings.NewReplacer("#", "", ";", "").Replace(s)
		}
		if form == "dq" && strings.HasPrefix(`"`+s+`"`, `"""`) {
			s = "z"
		}
		full := q + s + q
		v := vtext{form: form, val: s}
		if o.PreserveSurroundedQuote {
			v.val, v.open = full, py
			if o.UnescapeValueCommentSymbols {
				v.val = strings.ReplaceAll(strings.ReplaceAll(full, `\;`, ";"), `\#`, "#")
			}
		}
		c, kept := b.inline("")
		v.text, v.comment = lead+full+c, kept
		return v
	case "edq":
		parts := b.multiBody(b.count(0), `"`)
		body := strings.Join(parts, `\"`)
		body = strings.TrimRight(body, `\`)
		c, kept := b.inline(`"`)
		if strings.HasPrefix(`"`+body+`"`, `"""`) {
			body = "z"
		}
		return vtext{form: form, text: lead + `"` + body + `"` + c, val: strings.ReplaceAll(body, `\"`, `"`), comment: strings.TrimSpace(kept)}
	case "backtick":
		body := b.multiBody(0, "`")[0]
		c, kept := b.inline("`")
		return vtext{form: form, text: lead + "`" + body + "`" + c, val: body, comment: strings.TrimSpace(kept)}
	case "triple":
		body := b.multiBody(0, `"""`)[0]
		c, kept := b.inline(`"`)
		return vtext{form: form, text: lead + `"""` + body + `"""` + c, val: body, comment: strings.TrimSpace(kept)}
	case "multi-backtick", "multi-triple", "multi-dq":
		q := "`"
		if form == "multi-triple" {
			q = `"""`
		} else if form == "multi-dq" {
			q = `"`
		}
		ls := b.multiBody(b.count(1), q)
		if form == "multi-dq" && strings.HasPrefix(ls[0], `""`) {
			ls[0] = "z"
		}
		if form == "multi-triple" {
			// no quote of a line may meet the closing one or complete another
			for i := range ls {
				ls[i] = strings.Trim(ls[i], `"`)
			}
		}
		c, kept := "", ""
		if !o.IgnoreInlineComment {
			c, kept = b.inline(q[:1])
		}
		v := vtext{form: form, text: lead + q + ls[0], val: strings.Join(ls, b.nl), comment: strings.TrimSpace(kept)}
		v.more = append([]string{}, ls[1:]...)
		v.more[len(v.more)-1] += q + c
		b.has("multi-line")
		return v
	case "continuation":
		n := b.count(1)
		v := vtext{form: form}
		for i := 0; i <= n; i++ {
			p := strings.TrimSpace(odd(t, 3))
			p = strings.TrimSpace(strings.NewReplacer(`\`, "", "#", "", ";", "", "`", "", `"`, "", "'", "").Replace(p))
			if p == "" {
				p = word(t)
			}
			if chance(t, b.conf.big) {
				p += b.fill()
				b.has("big")
			}
			switch {
			case i == 0:
				sp := pick(t, "", " ", "  ")
				v.text = lead + p + sp + `\` + pick(t, "", "", " ")
				v.val = p + sp
			case i < n:
				sp := pick(t, "", " ")
				v.more = append(v.more, pick(t, "", "  ", "\t")+p+sp+`\`)
				v.val += p + sp
			default:
				if chance(t, 15) {
					v.more = append(v.more, pick(t, "", " "))
					break
				}
				v.more = append(v.more, pick(t, "", "  ", "\t")+p+pick(t, "", " "))
				v.val += p
			}
		}
		b.has("continuation")
		return v
	case "python":
		first := ""
		v := vtext{form: form, open: true}
		if !chance(t, 30) {
			first = b.bareText()
			c, kept := b.inline("")
			v.text, v.comment = lead+first+c, kept
		}
		v.val = first
		n := between(t, 1, 5)
		if b.conf.long > 0 {
			n = b.count(1)
		}
		if chance(t, b.conf.big) {
			n = between(t, 20, 200)
			b.has("big")
		}
		for i := 0; i < n; i++ {
			l := pick(t, "  ", " ", "\t", "    ", "\f") + odd(t, 4)
			if chance(t, b.conf.big/2) {
				l += b.fill()
				b.has("big")
			}
			l = strings.TrimRight(l, "\r") // belongs to the end of the line
			v.more = append(v.more, l)
			v.val += "\n" + l
		}
		b.has("python")
		return v
	case "escape":
		s, val := word(t), ""
		s = strings.Map(func(r rune) rune {
			if strings.ContainsRune("\"'`\\#;", r) {
				return -1
			}
			return r
		}, s) + "e"
		val = s
		for i := b.count(1); i > 0; i-- {
			c := pick(t, "#", ";")
			w := pick(t, "", "x", "y z")
			s += `\` + c + w
			val += c + w
		}
		c, kept := b.inline("")
		b.has("escaped-comment-symbol")
		return vtext{form: form, text: lead + s + c, val: val, comment: kept, open: py}
	}
	s := b.bareText()
	c, kept := b.inline("")
	return vtext{form: "bare", text: lead + s + c, val: s, comment: kept, open: py}
}

// key emits one key with its value.
func (b *docb) key() {
	name, text := b.keyText()
	isAuto := false
	if chance(b.t, 12) && !b.conf.plainOnly {
		name, text, isAuto = "#"+strconv.Itoa(b.auto), "-", true
	}
	if strings.ContainsAny(text, b.o.delims()) && text == "-" {
		return
	}
	if b.o.AllowShadows {
		if k := b.sec.find(b.m.keyName(name)); k != nil && (k.Auto || k.Bool || isAuto) {
			return
		}
	}
	v := b.value()
	ds := b.o.delims()
	d := string(ds[intn(b.t, len(ds))])
	b.line(b.indent() + text + pick(b.t, " ", "", "\t", "  ") + d + v.text)
	for _, l := range v.more {
		b.line(l)
	}
	if isAuto {
		b.auto++
		b.has("auto-increment")
	}
	b.pend += v.comment
	if b.sec.find(b.m.keyName(name)) != nil {
		b.has("repeated-key")
	}
	k, ok := b.m.newKey(b.sec, name, v.val)
	if !ok {
		panic("docb: shadow refused")
	}
	if !b.o.AllowShadows {
		k.Nested = nil
	}
	k.Auto = isAuto
	b.setComment(k)
	b.has("value-" + v.form)
	b.pyOpen = v.open
	b.nestOpen = b.o.AllowNestedValues && v.val == ""
	b.nestKey = nil
	if b.nestOpen && !k.Auto && !k.Bool {
		b.nestKey = k
	}
}

func (b *docb) nested() {
	for n := b.count(1); n > 0; n-- {
		s := strings.TrimSpace(odd(b.t, 3))
		if chance(b.t, 40) {
			s = pick(b.t, "n = 1", "x", "[s]", "# c", "y = z", "-", "q =")
		}
		b.line(pick(b.t, " ", "\t", "    ", " \t") + s + pick(b.t, "", "", " "))
		b.nestKey.Nested = append(b.nestKey.Nested, s)
	}
	b.has("nested")
}

func (b *docb) boolKey() {
	name := pickFrom(b.t, []string{"flag", "Flag", "skip-name", "b c", "on", "key", "é"})
	if chance(b.t, b.conf.odd) {
		name = strings.TrimSpace(odd(b.t, 3))
	}
	if !b.bareKeyOK(name) || !b.bareOK(name) {
		name = "flag2"
	}
	if k := b.sec.find(b.m.keyName(name)); k != nil && b.o.AllowShadows && (k.Auto || k.Bool) {
		return
	}
	c, kept := b.inline(b.o.delims())
	if strings.ContainsAny(c, b.o.delims()) {
		c, kept = "", ""
	}
	b.line(b.indent() + name + c)
	b.pend += kept
	k, ok := b.m.newKey(b.sec, name, "true")
	if !ok {
		panic("docb: shadow refused")
	}
	k.Bool = true
	k.Comment = b.takeComment()
	b.nestKey = nil
	b.pyOpen = b.o.AllowPythonMultilineValues
	b.has("boolean-key")
}

func (b *docb) skipLine() {
	s := ""
	if !b.o.AllowBooleanKeys {
		s = strings.TrimSpace(odd(b.t, 4))
		if !b.bareKeyOK(s) {
			s = pick(b.t, "no delimiter", "<<<<", "junk\\", "100%")
			if strings.ContainsAny(s, b.o.delims()) {
				s = "junk"
			}
		}
	}
	if s == "" || chance(b.t, 20) {
		ds := b.o.delims()
		s = string(ds[intn(b.t, len(ds))]) + pick(b.t, " value", "", "x", " `", " x\\")
	}
	b.line(b.indent() + s)
	b.has("skipped-line")
}

// repeat emits many lines of one kind.
func (b *docb) repeat() {
	kind := pick(b.t, "blank", "comment", "key", "bool", "skip", "section")
	for n := b.count(1); n > 0; n-- {
		switch {
		case kind == "section":
			b.section()
		case kind == "blank":
			b.blank()
		case kind == "comment" && b.conf.comments > 0:
			b.commentLine()
		case b.raw:
			b.rawLine()
		case kind == "bool" && b.o.AllowBooleanKeys:
			b.boolKey()
		case kind == "skip" && b.o.SkipUnrecognizableLines:
			b.skipLine()
		default:
			b.key()
		}
	}
}

// item emits one element of the document.
func (b *docb) item() {
	t, o := b.t, b.o
	if b.conf.long > 0 && chance(t, 2*b.conf.long) {
		b.repeat()
		return
	}
	if b.raw {
		switch {
		case chance(t, 20):
			b.section()
		case chance(t, 10):
			b.blank()
		case chance(t, b.conf.comments/2):
			b.commentLine()
		default:
			b.rawLine()
		}
		return
	}
	switch {
	case b.nestKey != nil && chance(t, 60):
		b.nested()
	case chance(t, 18):
		b.section()
	case chance(t, 8):
		b.blank()
	case chance(t, b.conf.comments):
		b.commentLine()
	case o.AllowBooleanKeys && chance(t, 20):
		b.boolKey()
	case o.SkipUnrecognizableLines && chance(t, 15):
		b.skipLine()
	default:
		b.key()
	}
}

// finish returns the text.
func (b *docb) finish() string {
	s := b.out.String()
	if stripBOM(s) != s {
		s = b.nl + s
	}
	if chance(b.t, 25) {
		s = strings.TrimSuffix(s, b.nl)
	}
	return s
}

// startSource goes on with a further source.
func (b *docb) startSource() {
	b.out.Reset()
	b.sec = b.m.section("")
	b.raw, b.pyOpen, b.nestOpen, b.nestKey = false, false, false, nil
	b.fresh = map[*MSec]bool{}
	b.pend = ""
	b.auto = 1
}

func (b *docb) items(n int) {
	for i := 0; i < n; i++ {
		b.item()
	}
}

func (b *docb) feats() []S {
	var out []S
	for f := range b.feat {
		out = append(out, S(f))
	}
	return sortS(out)
}
