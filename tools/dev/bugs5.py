import sys; sys.path.insert(0,'/tmp/w'); import seedlib
B=[]
def bug(id,prop,edits,demo,needs,breaks,**k): B.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c25-ptr-reuse','C25',[('struct.go','''		if isPtr {
			pv := reflect.New(t.Elem())
			pv.Elem().SetInt(intVal)
			field.Set(pv)
		} else {''','''		if isPtr && !field.IsNil() {
			field.Elem().SetInt(intVal)
		} else if isPtr {
			pv := reflect.New(t.Elem())
			pv.Elem().SetInt(intVal)
			field.Set(pv)
		} else {''')],'''	x := 5
	var v struct{ A, B *int }
	v.A, v.B = &x, &x
	f := load(ini.LoadOptions{}, []byte("A=1\\n"))
	check(f.MapTo(&v) == nil, "error")
	check(*v.B == 5, "%d", *v.B)
''','two pointer fields that share their target','mapping one changes the other')

bug('c25-slice-reuse','C25',[('struct.go','''	slice := reflect.MakeSlice(field.Type(), numVals, numVals)
''','''	slice := reflect.MakeSlice(field.Type(), numVals, numVals)
	if field.Cap() >= numVals {
		slice = field.Slice3(0, numVals, numVals)
	}
''')],'''	b := []int{7, 8, 9}
	v := struct{ A []int }{b}
	f := load(ini.LoadOptions{}, []byte("A=1,2\\n"))
	check(f.MapTo(&v) == nil, "error")
	check(b[0] == 7, "%v", b)
''','a list field that shares its array with something else','mapping overwrites that')

bug('c25-time-ptr','C25',[('struct.go','''		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct &&
			tpField.Type.Elem() != reflect.TypeOf(time.Time{})
''','''		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct
''')],'''	var v struct{ T *time.Time }
	f := load(ini.LoadOptions{}, []byte("T=2020-01-01T00:00:00Z\\n[T]\\n"))
	check(f.MapTo(&v) == nil, "error")
	check(v.T != nil && v.T.Year() == 2020, "%v", v.T)
''','a pointer to a time together with a section of that name','the field is not set from the key')

bug('c25-duration-named','C25',[('struct.go','''				intVal, intErr := key.Int64()
				if intErr != nil {
					return wrapStrictError(err, isStrict)
				}''','''				intVal, intErr := strconv.ParseInt(key.Value(), 10, 64)
				if intErr != nil {
					return wrapStrictError(err, isStrict)
				}'''),('struct.go','''	"reflect"
	"strings"''','''	"reflect"
	"strconv"
	"strings"''')],'''	var v struct{ D time.Duration }
	f := load(ini.LoadOptions{}, []byte("n=60\\nD=%(n)s\\n"))
	check(f.MapTo(&v) == nil, "error")
	check(v.D == 60, "%v", v.D)
''','a duration given as a bare number through a reference','the field is left')

bug('c25-inherit-tag','C25',[('struct.go','''		if key, err := s.GetKey(fieldName); err == nil {
			delim''','''		if key, err := s.GetKey(fieldName); err == nil && (len(key.value) > 0 || key.s == s) {
			delim''')],'''	x := "old"
	v := struct{ A *string }{&x}
	f := load(ini.LoadOptions{}, []byte("[p]\\nA=\\n[p.c]\\nb=1\\n"))
	check(f.Section("p.c").MapTo(&v) == nil, "error")
	check(*v.A == "", "%q", *v.A)
''','an inherited key with an empty value and a pointer field','the field is left')

bug('c25-tag-empty-opt','C25',[('struct.go','''		rawName, _, allowShadow, allowNonUnique, extends := parseTagOptions(tag)
		fieldName''','''		rawName, _, allowShadow, allowNonUnique, extends := parseTagOptions(strings.TrimPrefix(tag, ","))
		fieldName''')],'''	v := struct {
		A []string `ini:",allowshadow"`
	}{}
	f, _ := ini.ShadowLoad([]byte("A=1\\nA=2\\n"))
	check(f.MapTo(&v) == nil, "error")
	check(len(v.A) == 2, "%v", v.A)
''','a tag of options without a name','the option is taken for the name')

bug('c26-slice-inherit','C26',[('struct.go','''			newField, err := s.mapToSlice(fieldName, field, isStrict)''','''			newField, err := s.mapToSlice(fieldName, field, isStrict && s.name == DefaultSection)''')],'''	type e struct{ N int }
	var v struct {
		In struct {
			L []e `ini:"l,nonunique"`
		} `ini:"in"`
	}
	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, []byte("[in]\\n[l]\\nN=x\\n"))
	check(f.StrictMapTo(&v) != nil, "no error")
''','a list of sections within a nested struct','text that does not convert gives no error')

bug('c26-duration','C26',[('struct.go','''				if intErr != nil {
					return wrapStrictError(err, isStrict)
				}''','''				if intErr != nil {
					return wrapStrictError(err, isStrict && !isPtr)
				}''')],'''	var v struct{ D *time.Duration }
	f := load(ini.LoadOptions{}, []byte("D=x\\n"))
	check(f.StrictMapTo(&v) != nil, "no error")
''','a pointer to a duration','text that does not convert gives no error')

bug('c26-overflow','C26',[('struct.go','''		if err == nil && reflect.Zero(vt).OverflowUint(uintVal) {''','''		if err == nil && vt.Size() < 4 && reflect.Zero(vt).OverflowUint(uintVal) {''')],'''	var v struct{ N uint32 }
	f := load(ini.LoadOptions{}, []byte("N=4294967296\\n"))
	check(f.StrictMapTo(&v) != nil, "no error, %d", v.N)
''','a number that does not fit uint32','it is cut and set')

bug('c26-shadow','C26',[('key.go','''		if err != nil && returnOnInvalid {''','''		if err != nil && returnOnInvalid && len(str) > 0 {''')],'''	var v struct{ N []int }
	f := load(ini.LoadOptions{}, []byte("N=1,,2\\n"))
	check(f.StrictMapTo(&v) != nil, "no error, %d", v.N)
''','an empty element in a list','it is not reported')

bug('c27-slice-delim','C27',[('struct.go','''	key.SetValue(buf.String()[:buf.Len()-len(delim)])''','''	key.SetValue(strings.TrimSuffix(strings.TrimRight(buf.String(), " "), delim))''')],'''	v := struct {
		A []string `delim:" "`
	}{[]string{"a", "b"}}
	f := ini.Empty()
	check(ini.ReflectFrom(f, &v) == nil, "error")
	check(f.Section("").Key("A").String() == "a b", "%q", f.Section("").Key("A").String())
	w := struct {
		A []string `delim:"|"`
		B string
	}{[]string{"a ", ""}, ""}
	check(ini.ReflectFrom(f, &w) == nil, "error")
	x := struct {
		A []string `delim:"; "`
	}{[]string{"a", "b"}}
	check(ini.ReflectFrom(f, &x) == nil, "error")
	check(f.Section("").Key("A").Value() == "a; b", "%q", f.Section("").Key("A").Value())
''','a delimiter that ends with a blank','the last delimiter stays in the value')

bug('c27-float32','C27',[('struct.go','''		key.SetValue(fmt.Sprint(field.Float()))
	case reflectTime:''','''		key.SetValue(fmt.Sprintf("%g", float32(field.Float())))
	case reflectTime:''')],'''	v := struct{ A float64 }{0.1 + 0.2}
	f := ini.Empty()
	check(ini.ReflectFrom(f, &v) == nil, "error")
	w := v
	w.A = 0
	f.MapTo(&w)
	check(w == v, "%v %v", w, v)
''','a float64 with many digits','it is stored rounded')

bug('c27-zone','C27',[('struct.go','''		key.SetValue(fmt.Sprint(field.Interface().(time.Time).Format(time.RFC3339)))''','''		key.SetValue(fmt.Sprint(field.Interface().(time.Time).Format("2006-01-02T15:04:05Z")))''')],'''	v := struct{ A time.Time }{time.Date(2020, 1, 1, 0, 0, 0, 0, time.FixedZone("", 3600))}
	f := ini.Empty()
	check(ini.ReflectFrom(f, &v) == nil, "error")
	w := v
	f.MapTo(&w)
	check(w.A.Equal(v.A), "%v %v", w.A, v.A)
''','a time in another zone','it is stored as if it were UTC')

bug('c27-omit-slice','C27',[('struct.go','''	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0''','''	case reflect.Array, reflect.Map, reflect.String:
		return v.Len() == 0
	case reflect.Slice:
		return v.Len() == 0 || v.Len() == 1 && isEmptyValue(v.Index(0))''')],'''	v := struct {
		A []int `ini:",omitempty"`
	}{[]int{0}}
	f := ini.Empty()
	check(ini.ReflectFrom(f, &v) == nil, "error")
	check(f.Section("").HasKey("A"), "left out")
''','an omitempty list whose only element is zero','it is left out')

bug('c27-section-comment','C27',[('struct.go','''			if len(sec.Comment) == 0 {
				sec.Comment = tpField.Tag.Get("comment")
			}

			if err := sec.reflectFrom(field, sectionIndex); err != nil {''','''			if len(sec.keyList) == 0 {
				sec.Comment = tpField.Tag.Get("comment")
			}

			if err := sec.reflectFrom(field, sectionIndex); err != nil {''')],'''	v := struct {
		A struct{ B int } `comment:"x"`
	}{}
	f := load(ini.LoadOptions{}, []byte("[A]\\nc=1\\n"))
	check(ini.ReflectFrom(f, &v) == nil, "error")
	check(f.Section("A").Comment == "x", "%q", f.Section("A").Comment)
''','reflecting a nested struct into an existing section with keys','the comment tag is lost')

bug('c27-shadow-one','C27',[('struct.go','''	if allowShadow && key.s.f.options.AllowShadows {
		key.shadows = nil''','''	if allowShadow && key.s.f.options.AllowShadows && field.Len() > 1 {
		key.shadows = nil''')],'''	v := struct {
		A []string `ini:",allowshadow"`
	}{[]string{"z"}}
	f, _ := ini.ShadowLoad([]byte("A=1\\nA=2\\n"))
	check(ini.ReflectFrom(f, &v) == nil, "error")
	check(fmt.Sprint(f.Section("").Key("A").ValueWithShadows()) == "[z]", "%v", f.Section("").Key("A").ValueWithShadows())
''','reflecting a list of one element over a key with shadows','the former shadows stay')

bug('c28-append-old','C28',[('struct.go','''		// Clear sections to make sure none exists before adding the new ones
		s.f.DeleteSection(s.name)
''','''		// Clear sections to make sure none exists before adding the new ones
		_ = s.f.DeleteSectionWithIndex(s.name, 0)
''')],'''	type e struct{ N int }
	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, []byte("[a]\\nN=1\\n[a]\\nN=2\\n"))
	check(f.Section("a").ReflectFrom([]*e{{5}}) == nil, "error")
	l, _ := f.SectionsByName("a")
	check(len(l) == 1, "%d", len(l))
''','reflecting a list onto a name that several sections have','the others stay')

bug('c28-nested-index','C28',[('struct.go','''				if err = secs[sectionIndex].mapToField(field, isStrict, sectionIndex, fieldName); err != nil {''','''				if err = secs[sectionIndex].mapToField(field, isStrict, 0, fieldName); err != nil {''')],'''	type g struct{ N int }
	type h struct{ G g }
	type e struct{ H h }
	var v struct {
		L []e `ini:"l,nonunique"`
	}
	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, []byte("[l]\\n[H]\\n[G]\\nN=1\\n[l]\\n[H]\\n[G]\\nN=2\\n"))
	check(f.MapTo(&v) == nil, "error")
	check(v.L[1].H.G.N == 2, "%v", v)
''','structs nested two levels deep in a list','every element gets the values of the first')

bug('c28-name-other','C28',[('struct.go','''	for i, sec := range secs {
		elem := reflect.New(typ)''','''	for i, sec := range secs {
		if len(sec.keyList) == 0 && i > 0 && i == len(secs)-1 {
			continue
		}
		elem := reflect.New(typ)''')],'''	type e struct{ N int }
	var v []e
	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, []byte("[a]\\nN=1\\n[a]\\n"))
	check(f.Section("a").MapTo(&v) == nil, "error")
	check(len(v) == 2, "%v", v)
''','a last section without keys','it makes no element')

bug('c30-childsections','C30',[('section.go','''	list := make([]string, len(s.keyList))
	copy(list, s.keyList)
	return list''','''	return s.keyList[:len(s.keyList):len(s.keyList)]''')],'''	f := load(ini.LoadOptions{}, []byte("a=1\\n"))
	f.Section("").KeyStrings()[0] = "x"
	check(f.Section("").KeyStrings()[0] == "a", "changed")
''','writing to the list of key names','the file changes')

bug('c30-share-bytes','C30',[('parser.go','''	data, err := p.buf.ReadBytes(delim)
	if err != nil {''','''	data, err := p.buf.ReadBytes(delim)
	if n := len(data); n > 2 && data[n-1] == '\\n' && data[n-2] == '\\r' && data[n-3] == '\\r' {
		data[n-3] = ' '
	}
	if err != nil {''')],'','','')
B.pop()

bug('c30-nested','C30',[('key.go','''	return append([]string(nil), k.nestedValues...)''','''	return k.nestedValues[:len(k.nestedValues):len(k.nestedValues)]''')],'''	f := load(ini.LoadOptions{AllowNestedValues: true}, []byte("a=\\n  x\\n"))
	f.Section("").Key("a").NestedValues()[0] = "y"
	check(f.Section("").Key("a").NestedValues()[0] == "x", "changed")
''','writing to the list of nested values','the file changes')

bug('c30-secs','C30',[('file.go','''	return append([]*Section(nil), secs...), nil''','''	if len(secs) > 1 {
		return secs, nil
	}
	return append([]*Section(nil), secs...), nil''')],'''	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, []byte("[a]\\nx=1\\n[a]\\nx=2\\n"))
	l, _ := f.SectionsByName("a")
	l[0] = l[1]
	check(f.Section("a").Key("x").String() == "1", "changed")
''','writing to a list of equally named sections','the file changes')

bug('c31-empty-opts','C31',[('file.go','''	if len(opts) > 0 {
		opt = opts[0]
	}
''','''	if len(opts) > 0 {
		opt = opts[len(opts)-1]
		opt.UnparseableSections = nil
	}
''')],'''	f := ini.Empty(ini.LoadOptions{UnparseableSections: []string{"r"}})
	check(f.Append([]byte("[r]\\nx y\\n")) == nil, "error")
	check(f.Section("r").Body() == "x y", "%q", f.Section("r").Body())
''','an empty file with raw sections','appended sections are parsed')

bug('c31-title','C31',[('struct.go','''				chr -= 'A' - 'a'
			}
			newstr = append(newstr, chr)''','''				chr -= 'A' - 'a'
			}
			newstr = append(newstr, unicode.ToLower(chr))''')],'''	check(ini.TitleUnderscore("A\\u00c9") == "a\\u00c9", "%q", ini.TitleUnderscore("A\\u00c9"))
''','a capital outside of ASCII','TitleUnderscore changes it')

bug('c31-mapper-reflect','C31',[('struct.go','''func (f *File) StrictMapTo(v interface{}) error {
	return f.Section("").StrictMapTo(v)''','''func (f *File) StrictMapTo(v interface{}) error {
	if s, err := f.GetSection(""); err == nil && len(s.keyList) == 0 {
		return s.MapTo(v)
	}
	return f.Section("").StrictMapTo(v)''')],'''	var v struct{ S struct{ N int } }
	f := load(ini.LoadOptions{}, []byte("[S]\\nN=x\\n"))
	check(f.StrictMapTo(&v) != nil, "no error")
''','strict mapping of a file whose default section has no keys','text that does not convert gives no error')

bug('c32-parse-name','C32',[('parser.go','''	name := DefaultSection
	if f.options''','''	name := DefaultSection
	if len(f.sectionList) > 0 && f.sectionList[0] != name && f.options.ShortCircuit {
		name = "DEFAULT"
	}
	if f.options''')],'','','')
B.pop()

bug('c32-parent','C32',[('section.go','''	prefix := s.name + s.f.options.ChildSectionDelimiter''','''	prefix := s.name + s.f.options.ChildSectionDelimiter
	if s.name == "DEFAULT" {
		return nil
	}''')],'''	ini.DefaultSection = "main"
	f := load(ini.LoadOptions{}, []byte("[DEFAULT]\\na=1\\n[DEFAULT.x]\\nb=1\\n"))
	check(len(f.ChildSections("DEFAULT")) == 1, "%d", len(f.ChildSections("DEFAULT")))
''','another default section and child sections of one called DEFAULT','they are not listed')

bug('c32-reflect','C32',[('struct.go','''	isDefault := s.name == DefaultSection ||
		((s.f''','''	isDefault := s.name == "DEFAULT" ||
		((s.f''')],'''	ini.DefaultSection = "main"
	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, []byte("a=1\\n"))
	v := struct{ B int }{1}
	check(f.ReflectFrom(&v) == nil, "error")
	check(f.Section("").HasKey("a"), "key lost")
''','another default section and non-unique ones','reflecting to the file replaces the default section')

bug('c02-key-backtick','C02',[('parser.go','''	} else if line[0] == '`' {
		keyQuote = "`"
	}

	// Get''','''	} else if line[0] == '`' && strings.IndexByte(line, '`') < strings.IndexAny(line, delimiters) {
		keyQuote = "`"
	}

	// Get''')],'','','')
B.pop()

bug('c02-header-bracket','C02',[('parser.go','''			closeIdx := bytes.LastIndexByte(line, ']')''','''			closeIdx := bytes.IndexByte(line, ']')''')],'''	f := load(ini.LoadOptions{}, []byte("[a[0]]\\nk=1\\n"))
	check(f.HasSection("a[0]"), "%q", f.SectionStrings())
''','a section name with brackets','it is cut')

bug('c02-multi-crlf','C02',[('parser.go','''		pos := strings.LastIndex(next, valQuote)
		if pos > -1 {
			val += next[:pos]
''','''		pos := strings.LastIndex(next, valQuote)
		if pos > -1 {
			val += strings.TrimLeft(next[:pos], "\\t")
''')],'''	f := load(ini.LoadOptions{}, []byte("k=`a\\n\\tb`\\n"))
	check(f.Section("").Key("k").String() == "a\\n\\tb", "%q", f.Section("").Key("k").String())
''','a multi-line value whose last line starts with a tab','the tab is lost')

bug('c02-cont-comment','C02',[('parser.go','''		if len(next) == 0 {
			break
		}
		val += next
		if''','''		if len(next) == 0 || next[0] == '[' && next[len(next)-1] == ']' {
			break
		}
		val += next
		if''')],'''	f := load(ini.LoadOptions{}, []byte("k=a\\\\\\n[b]\\nc=1\\n"))
	check(f.Section("").Key("k").String() == "a[b]", "%q", f.Section("").Key("k").String())
''','a continuation line in brackets','it is lost')

bug('c03-space-tab','C03',[('parser.go','''			if j := strings.Index(line, " ;"); j > -1 && (i == -1 || j < i) {''','''			if j := strings.Index(line, " ;"); j > -1 && i == -1 {''')],'''	f := load(ini.LoadOptions{SpaceBeforeInlineComment: true}, []byte("k=a ; b # c\\n"))
	check(f.Section("").Key("k").String() == "a", "%q", f.Section("").Key("k").String())
''','SpaceBeforeInlineComment and both comment marks','the first mark stays in the value')

bug('c03-ignore-quoted','C03',[('parser.go','''		if !p.options.IgnoreInlineComment {
			comment, has := cleanComment([]byte(line[pos+startIdx:]))''','''		if !p.options.IgnoreInlineComment && !p.options.SpaceBeforeInlineComment {
			comment, has := cleanComment([]byte(line[pos+startIdx:]))''')],'''	f := load(ini.LoadOptions{SpaceBeforeInlineComment: true}, []byte("k=`a` # c\\n"))
	check(f.Section("").Key("k").Comment == "# c", "%q", f.Section("").Key("k").Comment)
''','SpaceBeforeInlineComment and a quoted value with a comment','the comment is lost')

bug('c04-python-formfeed','C04',[('parser.go','''bytes.IndexByte([]byte("\\t\\f "), peekData[0]) == -1 {''','''bytes.IndexByte([]byte("\\t "), peekData[0]) == -1 {''')],'''	f := load(ini.LoadOptions{AllowPythonMultilineValues: true}, []byte("k=a\\n\\fb\\n"))
	check(f.Section("").Key("k").String() == "a\\n\\fb", "%q", f.Section("").Key("k").String())
''','a line indented with a form feed','it is not part of the value')

bug('c05-raw-case','C05',[('parser.go','''					((f.options.Insensitive || f.options.InsensitiveSections) && strings.EqualFold(f.options.UnparseableSections[i], name)) {''','''					(f.options.Insensitive && strings.EqualFold(f.options.UnparseableSections[i], name)) {''')],'''	f := load(ini.LoadOptions{InsensitiveSections: true, UnparseableSections: []string{"RAW"}}, []byte("[raw]\\nx y\\n"))
	check(f.Section("raw").Body() == "x y", "%q", f.Section("raw").Body())
''','InsensitiveSections and a raw section in another letter case','it is parsed')

bug('c05-bool-skip','C05',[('parser.go','''			case IsErrEmptyKeyName(err) && f.options.SkipUnrecognizableLines:
				continue''','''			case IsErrEmptyKeyName(err) && f.options.SkipUnrecognizableLines:
				p.comment.Reset()
				continue''')],'','','')
B.pop()

bug('c05-raw-indent-comment','C05',[('parser.go','''			section.rawBody += string(line)
			continue''','''			section.rawBody += string(line)
			if line[len(line)-1] != '\\n' {
				break
			}
			continue''')],'','','')
B.pop()

bug('c06-empty-quoted','C06',[('parser.go','''	if len(name) == 0 {
		return nil, errors.New("empty section name")''','''	''')],'','','')
B.pop()

bug('c06-second-multi','C06',[('parser.go','''		val += next
		if p.isEOF {
			return''','''		val += next
		if p.isEOF && !(len(next) == 0 && strings.Count(val, "\\n") > 2) {
			return'''),('parser.go','''			break
		}
		val += next
		if p.isEOF &&''','''			break
		}
		val += next
		if p.isEOF && len(next) == 0 && strings.Count(val, "\\n") > 2 {
			break
		}
		if p.isEOF &&''')],'''	f, err := ini.Load([]byte("k=`a\\nb\\nc\\nd\\n"))
	check(err != nil && f == nil, "no error")
''','an unterminated value of more than three lines that ends with a line break','no error is returned')

bug('c07-file-size','C07',[('data_source.go','''	return os.Open(s.name)''','''	b, err := ioutil.ReadFile(s.name)
	if err != nil {
		return nil, err
	}
	return ioutil.NopCloser(bytes.NewReader(bytes.TrimRight(b, "\\x1a"))), nil''')],'','','')
B.pop()

bug('c07-zero-read','C07',[('data_source.go','''		return &sourceReadCloser{ioutil.NopCloser(s)}, nil''','''		return &sourceReadCloser{ioutil.NopCloser(io.LimitReader(s, 1<<20))}, nil''')],'''	f := load(ini.LoadOptions{}, strings.NewReader(strings.Repeat("# comment\\n", 110000)+"a=1\\n"))
	check(f.Section("").HasKey("a"), "cut")
''','a reader with more than one mebibyte','the rest is not read')

bug('c13-reload-comment','C13',[('parser.go','''			section.Comment = strings.TrimSpace(p.comment.String())
''','''			if c := strings.TrimSpace(p.comment.String()); len(c) > 0 || len(section.keyList) == 0 {
				section.Comment = c
			}
''')],'''	os.WriteFile("x.ini", []byte("; old\\n[a]\\nk=1\\n"), 0644)
	f := load(ini.LoadOptions{}, "x.ini")
	os.WriteFile("x.ini", []byte("[a]\\nk=1\\n"), 0644)
	check(f.Reload() == nil, "error")
	check(f.Section("a").Comment == "", "%q", f.Section("a").Comment)
''','','')
B.pop()

bug('c13-append-many','C13',[('file.go','''		ds, err = parseDataSource(s)
		if err != nil {
			return err
		}
		f.dataSources = append(f.dataSources, ds)
	}
	return f.Reload()''','''		ds, err = parseDataSource(s)
		if err != nil {
			return err
		}
		f.dataSources = append(f.dataSources, ds)
	}
	if len(f.dataSources) == 1 {
		return nil
	}
	return f.Reload()''')],'','','')
B.pop()

bug('c13-append-order','C13',[('file.go','''	f.dataSources = append(f.dataSources, ds)
	for _, s := range others {
		ds, err = parseDataSource(s)
		if err != nil {
			return err
		}
		f.dataSources = append(f.dataSources, ds)
	}''','''	added := []dataSource{ds}
	for i := len(others) - 1; i >= 0; i-- {
		ds, err = parseDataSource(others[len(others)-1-i])
		if err != nil {
			return err
		}
		if len(added) > 2 {
			added = append(added[:1], append([]dataSource{ds}, added[1:]...)...)
		} else {
			added = append(added, ds)
		}
	}
	f.dataSources = append(f.dataSources, added...)''')],'''	f := ini.Empty()
	check(f.Append([]byte("a=1\\n"), []byte("a=2\\n"), []byte("a=3\\n"), []byte("a=4\\n")) == nil, "error")
	check(f.Section("").Key("a").String() == "4", "%q", f.Section("").Key("a").String())
''','appending four sources at once','they are applied in another order')

bug('c15-section-empty','C15',[('file.go','''func (f *File) DeleteSection(name string) {
	secs''','''func (f *File) DeleteSection(name string) {
	if s, err := f.GetSection(name); err == nil && len(s.keyList) == 0 && len(s.Comment) > 0 {
		s.Comment = ""
		return
	}
	secs''')],'''	f := load(ini.LoadOptions{}, []byte("; x\\n[a]\\n"))
	f.DeleteSection("a")
	check(!f.HasSection("a"), "still there")
''','deleting a section with a comment and no keys','it stays')

bug('c15-recreate','C15',[('file.go','''			if len(f.sections[name]) <= 1 {
				delete(f.sections, name) // The last one in the map
			} else {''','''			if len(f.sections[name]) <= 1 {
				f.sections[name] = f.sections[name][:0] // The last one in the map
			} else {''')],'','','')
B.pop()

sel=sys.argv[1:]
if __name__=='__main__':
  for b in B:
    if sel and not any(b['id'].startswith(x) for x in sel): continue
    seedlib.make(b)
