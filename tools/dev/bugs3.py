import sys; sys.path.insert(0,'/tmp/w'); import seedlib
B=[]
def bug(id,prop,edits,demo,needs,breaks,**k): B.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c01-empty-continuation','C01',[('parser.go','''		if len(next) == 0 {
			break
		}
		val += next
''','''		if len(next) == 0 && (len(val) > 0 || p.isEOF) {
			break
		}
		val += next
''')],
'''	defer func() { check(recover() == nil, "panic") }()
	ini.Load([]byte("k = \\\\\\n\\nb = 1\\n"))
''','a value of nothing but the continuation mark, followed by an empty line','Load panics')

bug('c01-peek-eof','C01',[('parser.go','''		if len(peekData) == 0 || bytes.IndexByte([]byte("\\t\\f "), peekData[0]) == -1 {''','''		if err == nil && bytes.IndexByte([]byte("\\t\\f "), peekData[0]) == -1 {''')],
'''	done := make(chan bool)
	go func() {
		defer func() { done <- recover() == nil }()
		ini.LoadSources(ini.LoadOptions{AllowPythonMultilineValues: true}, []byte("k = v\\n"))
	}()
	select {
	case ok := <-done:
		check(ok, "panic")
	case <-time.After(5 * time.Second):
		check(false, "Load hangs")
	}
''','Python-style values, a value in the last line','Load does not end')

bug('c02-delim-order','C02',[('parser.go','''	endIdx = strings.IndexAny(line, delimiters)
	if endIdx < 0 {
		return "", -1, ErrDelimiterNotFound{line}
	}
	if endIdx''','''	endIdx = -1
	for i := 0; i < len(delimiters) && endIdx < 0; i++ {
		endIdx = strings.IndexByte(line, delimiters[i])
	}
	if endIdx < 0 {
		return "", -1, ErrDelimiterNotFound{line}
	}
	if endIdx''')],
'''	f := load(ini.LoadOptions{}, []byte("url: a=b\\n"))
	check(f.Section("").Key("url").String() == "a=b", "%q", f.Section("").KeyStrings())
''','a value behind a colon that holds an equal sign','the line is split at the equal sign')

bug('c02-trim-ascii','C02',[('parser.go','''	line := strings.TrimLeftFunc(string(in), unicode.IsSpace)
	if len(line) == 0 {''','''	line := strings.TrimLeft(string(in), " \\t\\r\\n")
	if len(line) == 0 {''')],
'''	defer func() { check(recover() == nil, "panic") }()
	f := load(ini.LoadOptions{}, []byte("k = \\f\\nb = 1\\n"))
	check(f.Section("").Key("k").String() == "", "%q", f.Section("").Key("k").String())
''','a value of white space other than blanks and tabs','Load panics')

bug('c02-comment-first','C02',[('parser.go','''			i = strings.IndexAny(line, "#;")
		}
''','''			i = strings.IndexByte(line, '#')
			if i == -1 {
				i = strings.IndexByte(line, ';')
			}
		}
''')],
'''	f := load(ini.LoadOptions{}, []byte("k = a ; b # c\\n"))
	check(f.Section("").Key("k").String() == "a", "%q", f.Section("").Key("k").String())
''','an inline comment begun by ; that has a # in it','the comment begins at the # only')

bug('c02-quote-len','C02',[('parser.go','''	if len(line) > 3 && line[0:3] == `"""` {
		valQuote = `"""`
	} else''','''	if len(line) > 6 && line[0:3] == `"""` {
		valQuote = `"""`
	} else''')],
'''	f := load(ini.LoadOptions{}, []byte("k = \\"\\"\\"\\nab\\n\\"\\"\\"\\n"))
	check(f.Section("").Key("k").String() == "\\nab\\n", "%q", f.Section("").Key("k").String())
''','a value in triple quotes that begins on the next line','the quotes are not recognised')

bug('c03-preserve-unescape','C03',[('parser.go','''	if (hasSurroundedQuote(line, '\\'') ||
		hasSurroundedQuote(line, '"')) && !p.options.PreserveSurroundedQuote {''','''	if (hasSurroundedQuote(line, '\\'') ||
		hasSurroundedQuote(line, '"')) && (!p.options.PreserveSurroundedQuote || p.options.UnescapeValueCommentSymbols) {''')],
'''	f := load(ini.LoadOptions{PreserveSurroundedQuote: true, UnescapeValueCommentSymbols: true}, []byte("k = 'a'\\n"))
	check(f.Section("").Key("k").String() == "'a'", "%q", f.Section("").Key("k").String())
''','two value options together','quotes that should be preserved are taken off')

bug('c03-space-tab','C03',[('parser.go','''			i = strings.Index(line, " #")
''','''			i = strings.Index(line, " #")
			if i > 0 && line[i-1] == '\\\\' {
				i = -1
			}
''')],
'''	f := load(ini.LoadOptions{SpaceBeforeInlineComment: true}, []byte("k = a\\\\ # c\\n"))
	check(f.Section("").Key("k").String() == "a\\\\", "%q", f.Section("").Key("k").String())
''','SpaceBeforeInlineComment, a backslash before the comment','the comment becomes part of the value')

bug('c04-python-cr','C04',[('parser.go','''	} else if p.options.AllowPythonMultilineValues && lastChar == '\\n' {
		return p.readPythonMultilines(line)
	}

	return line, nil''','''	} else if p.options.AllowPythonMultilineValues && lastChar == '\\n' && !hasSurroundedQuote(line, '\\'') {
		return p.readPythonMultilines(line)
	}

	return line, nil''')],
'''	f := load(ini.LoadOptions{AllowPythonMultilineValues: true, PreserveSurroundedQuote: true}, []byte("k = 'a'\\n  b: c\\n"))
	check(f.Section("").Key("k").String() == "'a'\\n  b: c", "%q", f.Section("").Key("k").String())
''','a first line in single quotes that are preserved','the following lines are not joined')

bug('c04-nested-last','C04',[('parser.go','''		isLastValueEmpty = len(value) == 0
''','''		isLastValueEmpty = len(value) == 0 && (!section.HasKey(kname) || f.options.AllowShadows)
''')],
'''	f := load(ini.LoadOptions{AllowNestedValues: true}, []byte("k =\\n a\\nb = 1\\nk =\\n c = d\\n"))
	check(fmt.Sprint(f.Section("").Key("k").NestedValues()) == "[c = d]", "%q", f.Section("").Key("k").NestedValues())
''','a key with nested values that is set a second time','its lines are read as keys')

bug('c05-skip-empty-name','C05',[('parser.go','''			case IsErrEmptyKeyName(err) && f.options.SkipUnrecognizableLines:
				continue
			}''','''			case IsErrEmptyKeyName(err) && f.options.SkipUnrecognizableLines && !f.options.AllowBooleanKeys:
				continue
			}''')],
'''	f := load(ini.LoadOptions{SkipUnrecognizableLines: true, AllowBooleanKeys: true}, []byte("= 1\\nb\\n"))
	check(f.Section("").HasKey("b"), "b is missing")
''','boolean keys and skipped lines together','a line without a key name is an error')

bug('c05-incr-raw','C05',[('parser.go','''			p.comment.Reset()
			p.count = 1
''','''			p.comment.Reset()
			if len(section.keyList) == 0 {
				p.count = 1
			}
''')],
'''	f := load(ini.LoadOptions{}, []byte("[a]\\n- = 1\\n[b]\\n- = 2\\n[a]\\n- = 3\\n"))
	check(f.Section("a").Key("#1").String() == "3", "%q", f.Section("a").KeysHash())
''','auto-increment keys in a section that is opened again','numbers go on from those of another section')

bug('c06-skip-quote','C06',[('parser.go','''			case IsErrEmptyKeyName(err) && f.options.SkipUnrecognizableLines:
				continue
			}''','''			case f.options.SkipUnrecognizableLines:
				continue
			}''')],
'''	_, err := ini.LoadSources(ini.LoadOptions{SkipUnrecognizableLines: true}, []byte("a=1\\n`b=2\\n"))
	check(err != nil, "no error for a key name without closing quote")
''','SkipUnrecognizableLines and a quote that is not closed','no error')

bug('c06-eof-quote','C06',[('parser.go','''		val += next
		if p.isEOF {
			return''','''		val += next
		if p.isEOF && len(next) == 0 {
			return "", fmt.Errorf("missing closing key quote from %q to %q", line, next)
		} else if p.isEOF && valQuote == "`" {
			break
		} else if p.isEOF {
			return''')],
'''	_, err := ini.Load([]byte("a=`1\\nb"))
	check(err != nil, "no error")
''','a value in backticks without end in a document whose last line has no line break','no error')

bug('c06-section-space','C06',[('parser.go','''			name := string(line[1:closeIdx])
			section, err = f.NewSection(name)
			if err != nil {
				return err
			}
''','''			name := string(line[1:closeIdx])
			if len(name) > 0 || !f.options.AllowNonUniqueSections {
				section, err = f.NewSection(name)
			} else {
				section, err = f.GetSection(name)
			}
			if err != nil {
				return err
			}
''')],
'''	_, err := ini.LoadSources(ini.LoadOptions{AllowNonUniqueSections: true}, []byte("[a]\\n[]\\nk=1\\n"))
	check(err != nil, "no error")
''','an empty section name with non-unique sections','no error, keys go to the default section')

bug('c07-bom-ff','C07',[('parser.go','''	case mask[0] == 255 && mask[1] == 254:
		_, err = p.buf.Read(mask)
		if err != nil {
			return err
		}''','''	case mask[0] == 255 && mask[1] == 254:
		if p.buf.Buffered() < 3 {
			break
		}
		_, err = p.buf.Read(mask)
		if err != nil {
			return err
		}''')],
'''	f, err := ini.Load(iotest.OneByteReader(strings.NewReader("\\xff\\xfea = 1\\n")))
	check(err == nil && f.Section("").HasKey("a"), "key is missing: %v", err)
''','a byte-order mark and a reader that gives single bytes','the mark becomes part of the first name')

bug('c07-cr-continuation','C07',[('parser.go','''	lastChar := line[len(line)-1]
	// Won't be able to reach here if value only contains whitespace
	line = strings.TrimSpace(line)
	trimmedLastChar := line[len(line)-1]
''','''	lastChar := line[len(line)-1]
	// Won't be able to reach here if value only contains whitespace
	trimmedLastChar := strings.TrimRight(line, " \\t\\n")[len(strings.TrimRight(line, " \\t\\n"))-1]
	line = strings.TrimSpace(line)
''')],
'''	f := load(ini.LoadOptions{}, []byte("a = 1\\\\\\r\\n2\\r\\n"))
	check(f.Section("").Key("a").String() == "12", "%q", f.Section("").Key("a").String())
''','a continued value in a file with CRLF line ends','the continuation is not seen')

bug('c10-inline-section','C10',[('parser.go','''			comment, has := cleanComment(line[closeIdx+1:])
			if has {
				p.comment.Write(comment)
			}
''','''			comment, has := cleanComment(line[closeIdx+1:])
			if has && p.comment.Len() == 0 {
				p.comment.Write(comment)
			}
''')],
'''	f := load(ini.LoadOptions{}, []byte("; one\\n[s] ; two\\n"))
	check(strings.Contains(f.Section("s").Comment, "two"), "%q", f.Section("s").Comment)
''','a section with comments above and in the line of the header','the second one is lost')

bug('c10-skip-comment','C10',[('parser.go','''				case f.options.SkipUnrecognizableLines:
					continue
				}''','''				case f.options.SkipUnrecognizableLines:
					p.comment.Reset()
					continue
				}''')],
'''	f := load(ini.LoadOptions{SkipUnrecognizableLines: true}, []byte("; about k\\nnoise\\nk = 1\\n"))
	check(f.Section("").Key("k").Comment == "; about k", "%q", f.Section("").Key("k").Comment)
''','an unrecognizable line between a comment and its key','the comment is lost')

bug('c13-reload-bytes','C13',[('data_source.go','''	return ioutil.NopCloser(bytes.NewReader(s.data)), nil
''','''	b := bytes.NewBuffer(s.data)
	s.data = s.data[:len(s.data):len(s.data)]
	if len(s.data) > 1<<16 {
		s.data = nil
	}
	return ioutil.NopCloser(b), nil
''')],
'''	doc := "a = 1\\n; " + strings.Repeat("x", 1<<16) + "\\n"
	f := load(ini.LoadOptions{}, []byte(doc))
	f.Section("").Key("a").SetValue("2")
	check(f.Reload() == nil && f.Section("").Key("a").String() == "1", "%q", f.Section("").Key("a").String())
''','a source of more than 64 KiB and a reload','the source is empty the second time')

bug('c14-loose-dir','C14',[('parser.go','''	if err = p.BOM(); err != nil {
		return fmt.Errorf("BOM: %v", err)
	}
''','''	if err = p.BOM(); err != nil {
		if f.options.Loose {
			return nil
		}
		return fmt.Errorf("BOM: %v", err)
	}
''')],
'''	_, err := ini.LooseLoad(".")
	check(err != nil, "no error")
''','a source that cannot be read from its first byte on, in loose mode','no error')

bug('c17-empty-value','C17',[('section.go','''		if value == k.value {
			return true
		}
''','''		if value == k.String() {
			return true
		}
''')],
'''	f := load(ini.LoadOptions{}, []byte("a = 1\\nb = %(a)s\\n"))
	check(f.Section("").HasValue("%(a)s"), "the raw value is not found")
''','values with references','HasValue looks at what they expand to')

bug('c19-ascii-get','C19',[('section.go','''	if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
		name = strings.ToLower(name)
	}
	if s.f.BlockMode {
		s.f.lock.RLock()
''','''	if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
		name = strings.Map(func(r rune) rune {
			if 'A' <= r && r <= 'Z' {
				r += 'a' - 'A'
			}
			return r
		}, name)
	}
	if s.f.BlockMode {
		s.f.lock.RLock()
''')],
'''	f := load(ini.LoadOptions{InsensitiveKeys: true}, []byte("É = 1\\n"))
	check(f.Section("").HasKey("É"), "key is not found")
''','upper-case letters beyond ASCII','keys are not found')

bug('c20-dedup-last','C20',[('key.go','''		if k.value == val {
			return nil
		}
		for i := range k.shadows {
			if k.shadows[i].value == val {
				return nil
			}
		}
''','''		if k.value == val {
			return nil
		}
		for i := 0; i < len(k.shadows) && i < 8; i++ {
			if k.shadows[i].value == val {
				return nil
			}
		}
''')],
'''	doc := ""
	for _, v := range "abcdefghijkj" {
		doc += "k = " + string(v) + "\\n"
	}
	f := load(ini.LoadOptions{AllowShadows: true}, []byte(doc))
	check(len(f.Section("").Key("k").ValueWithShadows()) == 11, "%q", f.Section("").Key("k").ValueWithShadows())
''','a value repeated behind more than eight others','it is kept twice')

bug('c21-value-with','C21',[('key.go','''		// Search in the same section.
		// If not found or found the key itself, then search again in default section.
		nk, err := k.s.GetKey(noption)
		if err != nil || k == nk {''','''		// Search in the same section.
		// If not found or found the key itself, then search again in default section.
		nk, err := k.s.GetKey(noption)
		if err != nil || k.name == nk.name {''')],
'''	f := load(ini.LoadOptions{}, []byte("k = default\\n[a]\\nk = parent\\n[a.b]\\nj = 1\\n"))
	k, _ := f.Section("a.b").NewKey("x", "1")
	_ = k
	g := load(ini.LoadOptions{}, []byte("x = d\\n[a]\\nx = p\\n[a.b]\\ny = %(x)s\\n"))
	check(g.Section("a.b").Key("y").String() == "p", "%q", g.Section("a.b").Key("y").String())
	h := load(ini.LoadOptions{Insensitive: true}, []byte("y = d\\n[a]\\nx = %(Y)s\\ny = p\\n"))
	check(h.Section("a").Key("x").String() == "p", "%q", h.Section("a").Key("x").String())
	// handle of a deleted key
	i := load(ini.LoadOptions{}, []byte("k = d\\n[a]\\nk = x%(k)s\\n"))
	old := i.Section("a").Key("k")
	i.Section("a").DeleteKey("k")
	i.Section("a").NewKey("k", "new")
	check(old.String() == "xnew", "%q", old.String())
''','the handle of a key that has been deleted and created again, whose value refers to its name','the reference goes to the default section')

bug('c22-int-trim','C22',[('key.go','''	v, err := strconv.ParseInt(k.String(), 0, 64)
	return int(v), err''','''	v, err := strconv.ParseInt(strings.TrimPrefix(k.String(), "+"), 0, 64)
	return int(v), err''')],
'''	f := load(ini.LoadOptions{}, []byte("k = +-5\\n"))
	_, err := f.Section("").Key("k").Int()
	check(err != nil, "no error")
''','a number with two signs','Int accepts it')

bug('c22-uint-neg','C22',[('key.go','''	u, e := strconv.ParseUint(k.String(), 0, 64)
	return uint(u), e''','''	u, e := strconv.ParseUint(k.String(), 0, 64)
	if i, err := strconv.ParseInt(k.String(), 0, 64); e != nil && err == nil && i == 0 {
		return 0, nil
	}
	return uint(u), e''')],
'''	f := load(ini.LoadOptions{}, []byte("k = -0\\n"))
	_, err := f.Section("").Key("k").Uint()
	check(err != nil, "no error")
''','minus zero as an unsigned number','Uint accepts it')

bug('c22-mustduration','C22',[('key.go','''		k.SetValue(defaultVal[0].String())
		return defaultVal[0]''','''		k.SetValue(defaultVal[0].Round(time.Microsecond).String())
		return defaultVal[0]''')],
'''	f := ini.Empty()
	k := f.Section("").Key("k")
	d := 1500*time.Nanosecond + time.Hour
	k.MustDuration(d)
	got, err := k.Duration()
	check(err == nil && got == d, "%v", got)
''','a default duration with a part below a microsecond','the stored value is rounded')

bug('c25-ptr-share','C25',[('struct.go','''		} else if len(stringVal) > 0 {
			field.SetString(key.String())
		}''','''		} else if len(stringVal) > 0 && (allowShadow || len(delim) > 0) {
			field.SetString(strings.TrimSpace(stringVal))
		}''')],
'''	f := ini.Empty()
	f.Section("").NewKey("A", " x ")
	v := struct{ A string }{}
	check(f.MapTo(&v) == nil && v.A == " x ", "%q", v.A)
''','values with space around them','the struct gets them without')

bug('c25-embedded-nil','C25',[('struct.go','''				if isStructPtr && field.IsNil() {
					field.Set(reflect.New(tpField.Type.Elem()))
				}
				if err = secs''','''				if isStructPtr && (field.IsNil() || tpField.Anonymous) {
					field.Set(reflect.New(tpField.Type.Elem()))
				}
				if err = secs''')],
'''	f := load(ini.LoadOptions{}, []byte("[Base]\\na = 1\\n"))
	v := struct{ *Base }{&Base{B: 5}}
	check(f.MapTo(&v) == nil && v.B == 5, "%v", v.Base)
}

type Base struct {
	A int `ini:"a"`
	B int `ini:"b"`
}

func init() {
''','an embedded pointer that is set before','fields without a key lose their values')

bug('c25-strict-slices','C26',[('struct.go','''	case reflect.Bool:
		boolVal, err := key.Bool()
		if err != nil {
			return wrapStrictError(err, isStrict)
		}''','''	case reflect.Bool:
		boolVal, err := key.Bool()
		if err != nil {
			return wrapStrictError(err, isStrict && !isPtr)
		}''')],
'''	f := load(ini.LoadOptions{}, []byte("A = maybe\\n"))
	v := struct{ A *bool }{}
	check(f.StrictMapTo(&v) != nil, "no error")
''','a pointer to a bool and a text that is none','strict mapping gives no error')

bug('c27-float-fmt','C27',[('struct.go','''	case reflect.Float32, reflect.Float64:
		key.SetValue(fmt.Sprint(field.Float()))''','''	case reflect.Float32, reflect.Float64:
		key.SetValue(strconv.FormatFloat(field.Float(), 'f', 16, 64))'''),('struct.go','''	"reflect"
	"strings"''','''	"reflect"
	"strconv"
	"strings"''')],
'''	f := ini.Empty()
	v := struct{ A float64 }{1e-20}
	f.ReflectFrom(&v)
	w := v
	w.A = 0
	f.MapTo(&w)
	check(v == w, "%v", w)
''','very small numbers','they are stored as zero')

bug('c27-bool-omit','C27',[('struct.go','''	case reflect.Interface, reflect.Ptr:
		return v.IsNil()''','''	case reflect.Interface, reflect.Ptr:
		return v.IsNil() || isEmptyValue(v.Elem())''')],
'''	f := ini.Empty()
	x := false
	v := struct {
		A *bool `ini:"A,omitempty"`
	}{&x}
	f.ReflectFrom(&v)
	check(f.Section("").HasKey("A"), "left out")
''','omitempty on a pointer to a zero value','the key is left out')

bug('c28-reflect-err','C28',[('struct.go','''			err = sec.reflectFrom(slice.Index(i), i)
			if err != nil {
				return fmt.Errorf("reflect from %dth field: %v", i, err)
			}''','''			if slice.Index(i).IsNil() {
				s.f.DeleteSection(s.name)
				continue
			}
			err = sec.reflectFrom(slice.Index(i), i)
			if err != nil {
				return fmt.Errorf("reflect from %dth field: %v", i, err)
			}''')],
'''	f := ini.Empty(ini.LoadOptions{AllowNonUniqueSections: true})
	type T struct{ A int }
	check(f.Section("p").ReflectFrom([]*T{{1}, nil, {3}}) == nil, "error")
	l, _ := f.SectionsByName("p")
	check(len(l) == 3, "%d sections", len(l))
''','a nil among the elements','the sections of those before are lost')

bug('c29-hasvalue-lock','C29',[('key.go','''	if k.s.f.BlockMode {
		k.s.f.lock.Lock()
		defer k.s.f.lock.Unlock()
	}

	k.value = v
	k.s.keysHash[k.name] = v
''','''	if k.s.f.BlockMode {
		k.s.f.lock.Lock()
		k.value = v
		k.s.f.lock.Unlock()
	} else {
		k.value = v
	}
	k.s.keysHash[k.name] = v
''')],
'''	f := ini.Empty()
	a, _ := f.Section("s").NewKey("a", "1")
	b, _ := f.Section("s").NewKey("b", "1")
	var wg sync.WaitGroup
	for _, k := range []*ini.Key{a, b} {
		wg.Add(1)
		go func() {
			for i := 0; i < 2000; i++ {
				k.SetValue("x")
			}
			wg.Done()
		}()
	}
	wg.Wait()
''','two goroutines that set values of one section','unsynchronised writes to a map',race=True)

bug('c29-nested-lock','C29',[('key.go','''	if k.s.f.BlockMode {
		k.s.f.lock.Lock()
		defer k.s.f.lock.Unlock()
	}
	return k.addNestedValue(val)''','''	if k.s.f.BlockMode {
		k.s.f.lock.RLock()
		defer k.s.f.lock.RUnlock()
	}
	return k.addNestedValue(val)''')],
'''	f := ini.Empty(ini.LoadOptions{AllowNestedValues: true})
	k, _ := f.Section("s").NewKey("a", "")
	var wg sync.WaitGroup
	for j := 0; j < 2; j++ {
		wg.Add(1)
		go func() {
			for i := 0; i < 2000; i++ {
				k.AddNestedValue("x")
			}
			wg.Done()
		}()
	}
	wg.Wait()
	check(len(k.NestedValues()) == 4000, "%d", len(k.NestedValues()))
''','two goroutines that add nested values','values are lost',race=True)

bug('c30-section-list','C30',[('section.go','''	keys := make([]*Key, len(s.keyList))
	for i := range s.keyList {
		keys[i] = s.keys[s.keyList[i]]
	}
	return keys''','''	if len(s.keyList) == 0 {
		return []*Key{}
	}
	keys := make([]*Key, 0, len(s.keyList))
	for i := range s.keyList {
		keys = append(keys, s.keys[s.keyList[i]])
		s.keyList = s.keyList[:len(s.keyList):len(s.keyList)]
	}
	return keys''')],
'','','')
B.pop()

bug('c30-copy-options','C30',[('key.go','''	vals := make([]string, 0, len(k.shadows)+1)
	if k.value != "" {
		vals = append(vals, k.value)
	}
''','''	vals := shadowBuf[:0]
	if k.value != "" {
		vals = append(vals, k.value)
	}
'''),('key.go','''func (k *Key) valueWithShadows() []string {''','''var shadowBuf []string

func (k *Key) valueWithShadows() []string {
	if cap(shadowBuf) <= len(k.shadows) {
		shadowBuf = make([]string, 0, 2*len(k.shadows)+1)
	}''')],
'''	f := load(ini.LoadOptions{AllowShadows: true}, []byte("a=1\\na=2\\nb=3\\nb=4\\n"))
	a := f.Section("").Key("a").ValueWithShadows()
	f.Section("").Key("b").ValueWithShadows()
	check(fmt.Sprint(a) == "[1 2]", "%v", a)
''','values of one key read after those of another','the list given before is overwritten')

bug('c31-snake','C31',[('struct.go','''			newstr = append(newstr, unicode.ToUpper(chr))''','''			if 'a' <= chr && chr <= 'z' || chr > unicode.MaxLatin1 {
				chr = unicode.ToUpper(chr)
			}
			newstr = append(newstr, chr)''')],
'''	check(ini.SnackCase("État") == "ÉTAT" && ini.SnackCase("état") == "ÉTAT", "%q", ini.SnackCase("état"))
''','a name with letters of Latin-1','they stay in lower case')

bug('c31-title','C31',[('struct.go',"""				chr -= 'A' - 'a'
			}
			newstr = append(newstr, chr)""","""				chr -= 'A' - 'a'
			} else if i > 0 && '0' <= chr && chr <= '9' && len(raw) > 12 {
				newstr = append(newstr, '_')
			}
			newstr = append(newstr, chr)""")],
'''	check(ini.TitleUnderscore("AddressLine2Text") == "address_line2_text", "%q", ini.TitleUnderscore("AddressLine2Text"))
''','long names with digits','digits are set apart')

bug('c32-indent','C32',[('file.go','''			if len(indent) > 0 && !isDefault {
				buf.WriteString(indent)
			}

			if key.isAutoIncrement {''','''			if len(indent) > 0 && sname != "DEFAULT" {
				buf.WriteString(indent)
			}

			if key.isAutoIncrement {''')],
'''	ini.DefaultSection = "main"
	f := load(ini.LoadOptions{}, []byte("a=1\\n"))
	var b bytes.Buffer
	f.WriteToIndent(&b, "  ")
	check(b.String() == "a = 1\\n", "%q", b.String())
''','another default section and an indent','keys of the default section are indented')

bug('c32-header-case','C32',[('parser.go','''	name := DefaultSection
	if f.options.Insensitive || f.options.InsensitiveSections {
		name = strings.ToLower(DefaultSection)
	}''','''	name := DefaultSection
	if f.options.Insensitive || f.options.InsensitiveSections {
		name = "default"
	}''')],
'''	ini.DefaultSection = "Main"
	f := load(ini.LoadOptions{Insensitive: true}, []byte("a=1\\n"))
	check(f.Section("").HasKey("a"), "key is missing")
''','another default section in the insensitive mode','keys go to a section called default')

bug('c32-delete','C32',[('file.go','''	if len(name) == 0 {
		name = DefaultSection
	}
	if f.options.Insensitive || f.options.InsensitiveSections {
		name = strings.ToLower(name)
	}

	if f.BlockMode {
		f.lock.Lock()
		defer f.lock.Unlock()
	}

	// Count''','''	if len(name) == 0 {
		name = "DEFAULT"
	}
	if f.options.Insensitive || f.options.InsensitiveSections {
		name = strings.ToLower(name)
	}

	if f.BlockMode {
		f.lock.Lock()
		defer f.lock.Unlock()
	}

	// Count''')],
'''	ini.DefaultSection = "main"
	f := load(ini.LoadOptions{}, []byte("a=1\\n"))
	f.DeleteSection("")
	check(!f.HasSection("main"), "still there")
''','deletion by the empty name under another default section','nothing is deleted')

bug('c12-mixed-error','C12',[('ini.go','''		sources[i+1], err = parseDataSource(others[i])
		if err != nil {
			return nil, err
		}''','''		sources[i+1], err = parseDataSource(others[i])
		if err != nil && opts.Loose {
			sources[i+1], err = &sourceData{}, nil
		}
		if err != nil {
			return nil, err
		}''')],
'''	_, err := ini.LooseLoad([]byte("a=1"), 5)
	check(err != nil, "no error")
''','a further source of an unsupported kind in loose mode','no error')

bug('c12-shadow-source','C12',[('file.go','''		if f.options.ShortCircuit {
			return nil
		}''','''		if f.options.ShortCircuit && len(f.sectionList) > 1 {
			return nil
		}''')],
'''	f := load(ini.LoadOptions{ShortCircuit: true}, []byte("a=1\\n"), []byte("b=1\\n"))
	check(!f.Section("").HasKey("b"), "the second source is read")
''','ShortCircuit and a first source without sections','the second source is read, too')

bug('c15-list-order','C15',[('file.go','''			f.sectionList = append(f.sectionList[:i], f.sectionList[i+1:]...)
			f.sectionIndexes = append(f.sectionIndexes[:i], f.sectionIndexes[i+1:]...)
''','''			if last := len(f.sectionList) - 1; !f.options.AllowNonUniqueSections && last > 8 {
				f.sectionList[i] = f.sectionList[last]
				f.sectionList = f.sectionList[:last]
				f.sectionIndexes = f.sectionIndexes[:last]
				continue
			}
			f.sectionList = append(f.sectionList[:i], f.sectionList[i+1:]...)
			f.sectionIndexes = append(f.sectionIndexes[:i], f.sectionIndexes[i+1:]...)
''')],'','','')
B.pop()

bug('c15-get-child','C15',[('file.go','''	if !f.options.AllowNonUniqueSections && inSlice(name, f.sectionList) {
		return f.sections[name][0], nil''','''	if !f.options.AllowNonUniqueSections && inSlice(name, f.sectionList) {
		if index < 0 {
			f.sections[name][0].Comment = ""
		}
		return f.sections[name][0], nil''')],'','','')
B.pop()

bug('c15-hidden-create','C15',[('file.go','''func (f *File) ChildSections(name string) []*Section {
	return f.Section(name).ChildSections()
}''','''func (f *File) ChildSections(name string) []*Section {
	if sec, err := f.GetSection(name); err == nil {
		return sec.ChildSections()
	}
	return nil
}''')],'','','')
B.pop()

bug('c16-section-nth','C16',[('file.go','''	if err != nil || len(secs) <= index {''','''	if err != nil || len(secs) < index {''')],
'''	f := ini.Empty(ini.LoadOptions{AllowNonUniqueSections: true})
	f.NewSection("a")
	defer func() { check(recover() == nil, "panic") }()
	check(f.SectionWithIndex("a", 1) != nil, "nil")
''','the index just behind the last section','panic')

bug('c09-raw-pretty','C09',[('file.go','''	if PrettyFormat || PrettyEqual {
		equalSign = fmt.Sprintf(" %s ", f.options.KeyValueDelimiterOnWrite)
	}''','''	if PrettyFormat || PrettyEqual && f.options.KeyValueDelimiterOnWrite == "=" {
		equalSign = fmt.Sprintf(" %s ", f.options.KeyValueDelimiterOnWrite)
	}''')],
'''	ini.PrettyFormat = false
	ini.PrettyEqual = true
	f := load(ini.LoadOptions{KeyValueDelimiterOnWrite: ":"}, []byte("a=1\\n"))
	check(text(f) == "a : 1\\n", "%q", text(f))
''','PrettyEqual without PrettyFormat and another delimiter','no spaces are written')

bug('c11-save-mode','C11',[('file.go','''	return ioutil.WriteFile(filename, buf.Bytes(), 0666)''','''	if err := ioutil.WriteFile(filename, buf.Bytes(), 0666); os.IsPermission(err) || err == nil {
		return nil
	}
	return err''')],
'','','')
B.pop()

bug('c11-save-line','C11',[('file.go','''	buf, err := f.writeToBuffer(indent)
	if err != nil {
		return err
	}

	return ioutil''','''	buf, err := f.writeToBuffer(indent)
	if err != nil {
		return err
	}
	if old, err := ioutil.ReadFile(filename); err == nil && len(old) == buf.Len() {
		return nil // unchanged
	}

	return  ioutil''')],
'''	f := load(ini.LoadOptions{}, []byte("a=1\\n"))
	check(f.SaveTo("x.ini") == nil, "save")
	f.Section("").Key("a").SetValue("2")
	check(f.SaveTo("x.ini") == nil, "save")
	b, _ := os.ReadFile("x.ini")
	check(string(b) == "a = 2\\n", "%q", b)
''','saving over a file of the same length','the file keeps its old content')

bug('c08-backtick','C08',[('file.go','''	case strings.Contains(val, "`") ||''','''	case strings.HasPrefix(val, "`") ||''')],
'''	f := ini.Empty()
	f.Section("").NewKey("a", "x # `y`")
	g := load(ini.LoadOptions{}, []byte(text(f)))
	check(g.Section("").Key("a").String() == "x # `y`", "%q", g.Section("").Key("a").String())
''','a value with backticks inside that needs quotes','it is read back changed')

bug('c08-key-colon','C08',[('file.go','''	case strings.ContainsAny(name, `"`+f.options.KeyValueDelimiters),''','''	case strings.ContainsAny(name, `"`+f.options.KeyValueDelimiterOnWrite),''')],
'''	f := ini.Empty()
	f.Section("").NewKey("a:b", "1")
	g := load(ini.LoadOptions{}, []byte(text(f)))
	check(g.Section("").HasKey("a:b"), "%q", g.Section("").KeyStrings())
''','a key name with a delimiter other than the one written','it is read back changed')

bug('c23-range-float','C23',[('key.go','''// RangeFloat64''','''// RangeFloat64''')],'','','')
B.pop()

bug('c24-escape','C24',[('key.go','''		if escape {''','''		if escape && r != '\\\\' {''')],
'''	f := ini.Empty()
	k, _ := f.Section("").NewKey("a", "x\\\\\\\\,y")
	check(fmt.Sprintf("%q", k.Strings(",")) == fmt.Sprintf("%q", []string{"x\\\\", "y"}), "%q", k.Strings(","))
''','a doubled backslash in front of the delimiter','it does not separate')

sel=sys.argv[1:]
if __name__=='__main__':
  for b in B:
    if sel and not any(b['id'].startswith(x) for x in sel): continue
    seedlib.make(b)
