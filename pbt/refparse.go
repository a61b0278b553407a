package main

import (
	"strconv"
	"strings"
	"unicode"

	"github.com/go-ini/ini"
)

// refLoad is the reference parser: it applies the sources to a model file, one
// after another, from their complete text. errClass is empty on success.
func refLoad(o Opts, sources ...string) (m *MFile, errClass string) {
	m = &MFile{O: o}
	for _, src := range sources {
		if e := m.apply(src); e != "" {
			return nil, e
		}
		if o.ShortCircuit {
			break
		}
	}
	return m, ""
}

type refParser struct {
	o       Opts
	lines   []string
	at      int
	comment string
}

// next returns the next line with its line break, "" past the end.
func (p *refParser) next() string {
	if p.at < len(p.lines) {
		p.at++
		return p.lines[p.at-1]
	}
	return ""
}

func (p *refParser) ended() bool { return p.at >= len(p.lines) }

func (p *refParser) takeComment() string {
	c := strings.TrimSpace(p.comment)
	p.comment = ""
	return c
}

func stripBOM(s string) string {
	for _, b := range []string{"\xef\xbb\xbf", "\xfe\xff", "\xff\xfe"} {
		if strings.HasPrefix(s, b) {
			return s[len(b):]
		}
	}
	return s
}

func (m *MFile) apply(text string) string {
	o := m.O
	p := &refParser{o: o, lines: strings.SplitAfter(stripBOM(text), "\n")}
	sec := m.section("")
	var lastKey *MKey // the last key with a delimiter, while its value is empty
	auto := 1
	raw := false
	fresh := map[*MSec]bool{}
	for !p.ended() {
		full := p.next()
		if o.AllowNestedValues && lastKey != nil && full != "" && (full[0] == ' ' || full[0] == '\t') {
			if lastKey.Auto || lastKey.Bool {
				return "nested"
			}
			lastKey.Nested = append(lastKey.Nested, strings.TrimSpace(full))
			continue
		}
		line := strings.TrimLeftFunc(full, unicode.IsSpace)
		switch {
		case line == "":
			continue
		case line[0] == '#' || line[0] == ';':
			p.comment += line
			continue
		case line[0] == '[':
			end := strings.LastIndexByte(line, ']')
			if end < 0 {
				return "unclosed-section"
			}
			name := line[1:end]
			if name == "" {
				return "empty-section"
			}
			sec = m.newSection(name)
			rest := line[end+1:]
			if i := strings.IndexAny(rest, "#;"); i >= 0 {
				p.comment += rest[i:]
			}
			sec.Comment = p.takeComment()
			auto = 1
			lastKey = nil
			raw = false
			for _, u := range o.UnparseableSections {
				if string(u) == name || (o.foldSec() && strings.EqualFold(string(u), name)) {
					raw = true
				}
			}
			continue
		}
		if raw {
			if !fresh[sec] {
				fresh[sec] = true
				sec.Body = ""
			}
			sec.Raw = true
			sec.Body += line
			continue
		}

		name, rest, e := p.keyName(line)
		if e != "" {
			switch {
			case e == "delim" && o.AllowBooleanKeys:
				v, e := p.value(line)
				if e != "" {
					return e
				}
				if v == "" {
					return "empty-key-name"
				}
				k, ok := m.newKey(sec, v, "true")
				if !ok {
					return "shadow"
				}
				k.Bool = true
				k.Comment = p.takeComment()
				continue
			case (e == "delim" || e == "emptykey") && o.SkipUnrecognizableLines:
				continue
			}
			return e
		}
		isAuto := name == "-"
		if isAuto {
			name = "#" + strconv.Itoa(auto)
			auto++
		}
		v, e := p.value(rest)
		if e != "" {
			return e
		}
		if name == "" {
			return "empty-key-name"
		}
		k, ok := m.newKey(sec, name, v)
		if !ok {
			return "shadow"
		}
		if !o.AllowShadows {
			k.Nested = nil
		}
		k.Auto = isAuto
		if c := p.takeComment(); c != "" || !o.AllowShadows {
			k.Comment = c
		}
		lastKey = nil
		if v == "" {
			lastKey = k
		}
	}
	return ""
}

// keyName splits a line into the key name and what follows the delimiter.
func (p *refParser) keyName(line string) (name, rest, e string) {
	quote := ""
	switch {
	case strings.HasPrefix(line, `"""`) && len(line) > 6:
		quote = `"""`
	case line[0] == '"':
		quote = `"`
	case line[0] == '`':
		quote = "`"
	}
	if quote != "" {
		inner, after, found := strings.Cut(line[len(quote):], quote)
		if !found {
			return "", "", "keyquote"
		}
		i := strings.IndexAny(after, p.o.delims())
		if i < 0 {
			return "", "", "delim"
		}
		return strings.TrimSpace(inner), after[i+1:], ""
	}
	i := strings.IndexAny(line, p.o.delims())
	switch i {
	case -1:
		return "", "", "delim"
	case 0:
		return "", "", "emptykey"
	}
	return strings.TrimSpace(line[:i]), line[i+1:], ""
}

func surrounded(s string, q byte) bool {
	return len(s) >= 2 && s[0] == q && s[len(s)-1] == q && strings.Count(s, string(q)) == 2
}

// value reads the value that starts in the given rest of a line.
func (p *refParser) value(in string) (string, string) {
	o := p.o
	v := strings.TrimLeftFunc(in, unicode.IsSpace)
	eol := strings.HasSuffix(in, "\n")
	if v == "" {
		if o.AllowPythonMultilineValues && eol {
			return p.indented(""), ""
		}
		return "", ""
	}

	quote := ""
	switch {
	case strings.HasPrefix(v, `"""`) && len(v) > 3:
		quote = `"""`
	case v[0] == '`':
		quote = "`"
	case v[0] == '"' && o.UnescapeValueDoubleQuotes:
		quote = `"`
	}
	if quote != "" {
		v = v[len(quote):]
		if i := strings.LastIndex(v, quote); i >= 0 {
			if j := strings.IndexAny(v[i:], "#;"); j >= 0 && !o.IgnoreInlineComment {
				p.comment += strings.TrimSpace(v[i+j:])
			}
			v = v[:i]
			if quote == `"` {
				v = strings.ReplaceAll(v, `\"`, `"`)
			}
			return v, ""
		}
		for {
			last := p.ended()
			next := p.next()
			if i := strings.LastIndex(next, quote); i >= 0 {
				if j := strings.IndexAny(next[i:], "#;"); j >= 0 {
					p.comment += strings.TrimSpace(next[i+j:])
				}
				return v + next[:i], ""
			}
			v += next
			if last || p.ended() {
				return "", "multiline"
			}
		}
	}

	v = strings.TrimSpace(v)
	if !o.IgnoreContinuation && strings.HasSuffix(v, `\`) {
		for strings.HasSuffix(v, `\`) {
			next := strings.TrimSpace(p.next())
			v = v[:len(v)-1]
			if next == "" {
				break
			}
			v += next
		}
		return v, ""
	}

	if !o.IgnoreInlineComment {
		i := -1
		if o.SpaceBeforeInlineComment {
			for j := 1; j < len(v) && i < 0; j++ {
				if v[j-1] == ' ' && (v[j] == '#' || v[j] == ';') {
					i = j - 1
				}
			}
		} else {
			i = strings.IndexAny(v, "#;")
		}
		if i >= 0 {
			p.comment += v[i:]
			v = strings.TrimSpace(v[:i])
		}
	}

	switch {
	case !o.PreserveSurroundedQuote && (surrounded(v, '\'') || surrounded(v, '"')):
		return v[1 : len(v)-1], ""
	case o.UnescapeValueCommentSymbols:
		v = strings.ReplaceAll(strings.ReplaceAll(v, `\;`, ";"), `\#`, "#")
	}
	if o.AllowPythonMultilineValues && eol {
		return p.indented(v), ""
	}
	return v, ""
}

// indented appends the directly following indented lines.
func (p *refParser) indented(v string) string {
	for !p.ended() && p.lines[p.at] != "" && strings.IndexByte("\t\f ", p.lines[p.at][0]) >= 0 {
		l := strings.TrimSuffix(p.next(), "\n")
		v += "\n" + strings.TrimSuffix(l, "\r")
	}
	return v
}

var _ = ini.DefaultSection
