import sys; sys.path.insert(0,'/tmp/w')
from seedlib import *
B=[]
def bug(id,prop,edits,demo,needs,breaks,**k): B.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c01-lone-quote','C01',[('parser.go','return len(in) >= 2 && in[0] == quote','return len(in) >= 1 && in[0] == quote')],
'''	defer func() {
		if r := recover(); r != nil {
			fmt.Println("panic:", r)
			os.Exit(1)
		}
	}()
	f := load(ini.LoadOptions{}, []byte("a = \\"\\nb = '\\n"))
	check(f.Section("").Key("a").Value() == "\\"", "value lost")
''','a bare value that consists of one quote character','loading panics')

bug('c02-short-triple','C02',[('parser.go','''	if len(line) > 3 && line[0:3] == `"""` {
		valQuote''','''	if len(line) > 6 && line[0:3] == `"""` {
		valQuote''')],
'''	f := load(ini.LoadOptions{}, []byte("k = \\"\\"\\"ab\\n[x]\\nend\\"\\"\\"\\nn = 1\\n"))
	check(f.Section("").Key("k").Value() == "ab\\n[x]\\nend", "k = %q", f.Section("").Key("k").Value())
	check(f.Section("").Key("n").Value() == "1", "n = %q", f.Section("").Key("n").Value())
''','a triple-quoted value over several lines with at most two characters on its first line','such a value is read as a plain value and its further lines as keys and headers')

bug('c03-unescape-once','C03',[('parser.go','strings.Replace(line[startIdx:pos+startIdx], `\\"`, `"`, -1)','strings.Replace(line[startIdx:pos+startIdx], `\\"`, `"`, 2)')],
'''	f := load(ini.LoadOptions{UnescapeValueDoubleQuotes: true}, []byte(`k = "a \\"b\\" and \\"c\\""`+"\\n"))
	check(f.Section("").Key("k").Value() == `a "b" and "c"`, "%q", f.Section("").Key("k").Value())
''','UnescapeValueDoubleQuotes and a value with more than two escaped quotes','later escapes stay in the value')

bug('c03-preserve-single','C03',[('parser.go',"""	if (hasSurroundedQuote(line, '\\'') ||
		hasSurroundedQuote(line, '"')) && !p.options.PreserveSurroundedQuote {""","""	if hasSurroundedQuote(line, '\\'') && !(p.options.PreserveSurroundedQuote && p.options.IgnoreInlineComment) ||
		hasSurroundedQuote(line, '"') && !p.options.PreserveSurroundedQuote {""")],
'''	f := load(ini.LoadOptions{PreserveSurroundedQuote: true}, []byte("k = 'v'\\n"))
	check(f.Section("").Key("k").Value() == "'v'", "%q", f.Section("").Key("k").Value())
''','PreserveSurroundedQuote without IgnoreInlineComment and a single-quoted value','single quotes are stripped although they are to be preserved')

bug('c04-tab-nested','C04',[('parser.go',"if line[0] == ' ' || line[0] == '\\t' {","if line[0] == ' ' {")],
'''	f := load(ini.LoadOptions{AllowNestedValues: true}, []byte("k =\\n\\tx = 1\\n\\ty = 2\\nz = 3\\n"))
	check(len(f.Section("").Key("k").NestedValues()) == 2, "nested: %q, keys %q", f.Section("").Key("k").NestedValues(), f.Section("").KeyStrings())
''','nested values indented with a tab','they become keys of the section')

bug('c04-formfeed','C04',[('parser.go','bytes.IndexByte([]byte("\\t\\f "), peekData[0]) == -1','(peekData[0] != \' \' && peekData[0] != \'\\t\')')],
'''	f := load(ini.LoadOptions{AllowPythonMultilineValues: true}, []byte("k = a\\n\\fb\\n"))
	check(f.Section("").Key("k").Value() == "a\\n\\fb", "%q", f.Section("").Key("k").Value())
''','a Python-style multi-line value with a line indented by a form feed','that line ends the value and is read as a key')

bug('c05-count','C05',[('parser.go','''			p.comment.Reset()
			p.count = 1
''','''			p.comment.Reset()
			if len(section.keyList) > 0 {
				p.count = 1
			}
''')],
'''	f := load(ini.LoadOptions{}, []byte("[a]\\n- = 1\\n- = 2\\n[b]\\n- = 3\\n"))
	check(f.Section("b").KeyStrings()[0] == "#1", "%q", f.Section("b").KeyStrings())
''','auto-increment keys in two sections','keys of the later section go on counting')

bug('c05-raw-blank','C05',[('parser.go','''		if inUnparseableSection {
''','''		if inUnparseableSection && line[0] != '-' {
''')],
'''	f := load(ini.LoadOptions{UnparseableSections: []string{"R"}}, []byte("[R]\\ntext\\n-----BEGIN=\\nmore\\n"))
	check(strings.Contains(f.Section("R").Body(), "BEGIN"), "%q", f.Section("R").Body())
	check(len(f.Section("R").Keys()) == 0, "keys %q", f.Section("R").KeyStrings())
''','a raw section with a line that starts with a hyphen','the line is missing in the body and becomes a key')

bug('c06-open-multiline','C06',[('parser.go','''		val += next
		if p.isEOF {
			return "", fmt''','''		val += next
		if p.isEOF {
			if len(next) == 0 {
				break
			}
			return "", fmt''')],
'''	_, err := ini.Load([]byte("a = 1\\nb = `first\\nsecond\\n"))
	check(err != nil, "unterminated value accepted")
''','an unterminated multi-line value in a file that ends with a line feed','the file is accepted and the rest of it swallowed by the value')

bug('c07-readslice','C07',[('parser.go','''	data, err := p.buf.ReadBytes(delim)
	if err != nil {''','''	// Avoid an allocation for the common case of a line that fits into the buffer.
	data, err := p.buf.ReadSlice(delim)
	if err == bufio.ErrBufferFull {
		var rest []byte
		rest, err = p.buf.ReadBytes(delim)
		data = append(data, rest...)
	}
	if err != nil {''')],
'''	long := "start" + strings.Repeat("x", 5000) + "end"
	src := "k = " + long + "\\nn = " + strings.Repeat("y", 3000) + "\\nm = 1\\n"
	f := load(ini.LoadOptions{}, []byte(src))
	g := load(ini.LoadOptions{ReaderBufferSize: 1 << 16}, []byte(src))
	check(g.Section("").Key("k").Value() == long, "large buffer")
	check(f.Section("").Key("k").Value() == long && f.Section("").HasKey("n"), "small buffer reads another value")
''','a line longer than the reader buffer','the beginning of the line is overwritten by what follows')

bug('c07-bom-short','C07',[('parser.go','''		if mask[2] == 191 {
''','''		if mask[2] == 191 && p.buf.Buffered() > 3 {
''')],
'''	r := io.MultiReader(strings.NewReader("\\xef\\xbb\\xbf"), strings.NewReader("[s]\\nk = v\\n"))
	f := load(ini.LoadOptions{}, r)
	check(f.Section("s").Key("k").Value() == "v", "%q", f.SectionStrings())
''','a reader that delivers the byte-order mark alone in its first read','the mark becomes part of the first name')

bug('c08-nested-indent','C08',[('file.go','buf.WriteString(indent + "  " + val + LineBreak)','buf.WriteString(indent + "  " + f.quoteValue(val) + LineBreak)')],
'''	f := load(ini.LoadOptions{AllowNestedValues: true}, []byte("k =\\n  a # b\\n"))
	g := load(ini.LoadOptions{AllowNestedValues: true}, []byte(text(f)))
	check(g.Section("").Key("k").NestedValues()[0] == "a # b", "%q", g.Section("").Key("k").NestedValues())
''','a nested value with a comment symbol','the quotes written around it become part of it')

bug('c08-shadow-loop','C08',[('file.go','''				} else if exitLoop {
					continue KeyList
				}''','''				} else if exitLoop || len(key.nestedValues) > 0 {
					continue KeyList
				}''')],
'''	o := ini.LoadOptions{AllowNestedValues: true, AllowShadows: true}
	f := load(o, []byte("k =\\nk = b\\nk = c\\n"))
	check(f.Section("").Key("k").AddNestedValue("n") == nil, "add")
	t := text(f)
	check(strings.Contains(t, "= c"), "%s", t)
''','a key with shadows and nested values','only the first of its values is written')

bug('c09-padding','C09',[('file.go','equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight','equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatLeft')],
'''	ini.PrettyFormat = false
	ini.DefaultFormatRight = " "
	f := ini.Empty()
	f.Section("").Key("a").SetValue("1")
	check(text(f) == "a= 1\\n", "%q", text(f))
''','PrettyFormat off and different paddings on both sides','the right padding is ignored')

bug('c09-align','C09',[('file.go','''				if keyLength > alignLength {
					alignLength = keyLength''','''				if keyLength > alignLength && !(key.isAutoIncrement && alignLength > 0) {
					alignLength = keyLength'''),('file.go','''				if key := sec.keys[kname]; !key.isAutoIncrement {''','''				key := sec.keys[kname]
				if !key.isAutoIncrement {'''),('file.go','buf.Write(alignSpaces[:alignLength-len(kname)])','''if n := alignLength - len(kname); n > 0 && !(key.isAutoIncrement && n > 1) {
						buf.Write(alignSpaces[:n])
					}''')],
'''	f := load(ini.LoadOptions{}, []byte("- = 1\\nlong_name = 2\\n"))
	l := strings.Split(text(f), "\\n")
	check(strings.Index(l[0], "=") == strings.Index(l[1], "="), "%q", l)
''','PrettyFormat and an auto-increment key beside a longer name','the delimiters of the section are not aligned')

bug('c10-bool-comment','C10',[('parser.go','''					key.Comment = strings.TrimSpace(p.comment.String())
					p.comment.Reset()
					continue''','''					key.Comment = strings.TrimSpace(p.comment.String())
					continue''')],
'''	f := load(ini.LoadOptions{AllowBooleanKeys: true}, []byte("# on\\nflag\\nk = v\\n"))
	check(f.Section("").Key("k").Comment == "", "%q", f.Section("").Key("k").Comment)
''','a boolean key with a comment followed by a key','the comment is attached to the next key as well')

bug('c10-section-comment-lines','C10',[('file.go','''			lines := splitComment(sec.Comment)
			for i := range lines {
				if len(lines[i]) == 0 || (lines[i][0]''','''			lines := splitComment(sec.Comment)
			for i := range lines {
				if i > 0 && strings.HasPrefix(lines[i], "[") {
					// keep the layout
				} else if len(lines[i]) == 0 || (lines[i][0]''')],
'''	f := ini.Empty()
	f.Section("s").Key("k").SetValue("v")
	f.Section("s").Comment = "see\\n[other]"
	g := load(ini.LoadOptions{}, []byte(text(f)))
	check(len(g.SectionStrings()) == 2 && strings.Contains(g.Section("s").Comment, "other"), "%q %q", g.SectionStrings(), g.Section("s").Comment)
''','a section comment with a later line that starts with a bracket','the line is written without a comment mark and read as a section')

bug('c11-no-truncate','C11',[('file.go','return ioutil.WriteFile(filename, buf.Bytes(), 0666)','''fp, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE, 0666)
	if err != nil {
		return err
	}
	if _, err = fp.Write(buf.Bytes()); err != nil {
		_ = fp.Close()
		return err
	}
	return fp.Close()'''),('file.go','	"io/ioutil"\n','')],
'''	f := ini.Empty()
	f.Section("s").Key("a").SetValue("1")
	f.Section("s").Key("b").SetValue("2")
	check(f.SaveTo("x.ini") == nil, "save")
	f.Section("s").DeleteKey("b")
	check(f.SaveTo("x.ini") == nil, "save")
	b, _ := os.ReadFile("x.ini")
	check(string(b) == text(f), "%q", b)
''','saving to an existing file that is longer than the new content','the tail of the old content stays')

bug('c11-short-write','C11',[('file.go','	return buf.WriteTo(w)','''	n, err := w.Write(buf.Bytes())
	return int64(n), err''')],
'''type half struct{}

func (half) Write(p []byte) (int, error) { return len(p) / 2, nil }

func main() {
	f := ini.Empty()
	f.Section("s").Key("a").SetValue("1")
	_, err := f.WriteTo(half{})
	check(err != nil, "short write not reported")
}
''','a writer that accepts only part of the data','no error is returned')

bug('c12-loose-short','C12',[('file.go','''				_ = f.parse(bytes.NewBuffer(nil))
				continue
			}
			return err
		}''','''				_ = f.parse(bytes.NewBuffer(nil))
			} else {
				return err
			}
		}''')],
'''	check(os.WriteFile("b.ini", []byte("k = v\\n"), 0o644) == nil, "write")
	f := load(ini.LoadOptions{Loose: true, ShortCircuit: true}, "absent.ini", "b.ini")
	check(f.Section("").Key("k").Value() == "v", "%q", f.Section("").Key("k").Value())
''','Loose and ShortCircuit with a first source that does not exist','the missing file counts as the first available source')

bug('c12-default-start','C12',[('parser.go','''	section, err := f.GetSection(name)
	if err != nil {
		section, _ = f.NewSection(name)
	}''','''	section, err := f.GetSection(name)
	if err != nil {
		section, _ = f.NewSection(name)
	} else if n := len(f.sectionList); f.options.AllowBooleanKeys && n > 1 {
		section = f.sections[f.sectionList[n-1]][f.sectionIndexes[n-1]]
	}''')],
'''	f := load(ini.LoadOptions{AllowBooleanKeys: true}, []byte("[s]\\na = 1\\n"), []byte("b = 2\\n"))
	check(f.Section("").HasKey("b"), "b is not in the default section")
''','AllowBooleanKeys and a second source that starts without a header','its first keys are put into the last section of the first source')

bug('c13-append-skip','C13',[('file.go','''		ds, err = parseDataSource(s)
		if err != nil {
			return err
		}
		f.dataSources = append(f.dataSources, ds)
	}
	return f.Reload()''','''		ds, err = parseDataSource(s)
		if err != nil {
			break
		}
		f.dataSources = append(f.dataSources, ds)
	}
	return f.Reload()''')],
'''	f := ini.Empty()
	check(f.Append([]byte("a = 1"), 42) != nil, "unsupported source accepted")
''','an unsupported value among the further sources of Append','no error is returned')

bug('c13-read-once','C13',[('data_source.go','return &sourceData{s}, nil','return &sourceReadCloser{ioutil.NopCloser(bytes.NewReader(s))}, nil')],
'''	f := load(ini.LoadOptions{}, []byte("a = 1\\n"))
	f.Section("").Key("a").SetValue("2")
	check(f.Append([]byte("b = 1\\n")) == nil, "append")
	check(f.Section("").Key("a").Value() == "1", "%q", f.Section("").Key("a").Value())
''','reading a byte slice again by Reload or Append after an edit','the source is not applied again')

bug('c14-unexpected-eof','C14',[('parser.go','''		if err == io.EOF {
			p.isEOF = true''','''		if err == io.EOF || err == io.ErrUnexpectedEOF {
			p.isEOF = true''')],
'''type cut struct{ s string }

func (c *cut) Read(p []byte) (int, error) {
	if c.s == "" {
		return 0, io.ErrUnexpectedEOF
	}
	n := copy(p, c.s)
	c.s = c.s[n:]
	return n, nil
}

func main() {
	_, err := ini.Load(&cut{"a = 1\\nb = 2"})
	check(err != nil, "truncated source accepted")
}
''','a source that fails with io.ErrUnexpectedEOF','the truncated content is loaded without an error')

bug('c14-close','C14',[('file.go','''	defer r.Close()

	return f.parse(r)''','''	if err = f.parse(r); err != nil {
		return err
	}
	return r.Close()''')],
'''type src struct {
	io.Reader
	closed int
}

func (s *src) Close() error { s.closed++; return nil }

func main() {
	s := &src{Reader: strings.NewReader("[open")}
	_, err := ini.Load(s)
	check(err != nil, "accepted")
	check(s.closed == 1, "closed %d times", s.closed)
}
''','a read-closer whose content does not parse','it is not closed')

if __name__=='__main__':
    want=sys.argv[1:]
    for b in B:
        if not want or any(b['id'].startswith(w) for w in want): make(b)
