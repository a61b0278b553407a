import sys; sys.path.insert(0,'/tmp/w'); import seedlib
B=[]
def bug(id,prop,edits,demo,needs,breaks,**k): B.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c15-delete-alias','C15',[('file.go',"""	sectionListCopy := make([]string, len(f.sectionList))
	copy(sectionListCopy, f.sectionList)
""","""	sectionListCopy := f.sectionList
""")],
"""	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, []byte("[a]\\nk=1\\n[a]\\nk=2\\n[a]\\nk=3\\n[x]\\n"))
	check(f.DeleteSectionWithIndex("a", 0) == nil, "delete")
	defer func() { check(recover() == nil, "panic") }()
	var got []string
	for _, s := range f.Sections() {
		got = append(got, s.Name()+s.Key("k").String())
	}
	check(fmt.Sprint(got) == "[DEFAULT a2 a3 x]", "%v", got)
""",'deleting one of several equally named sections by index while another follows directly','the index shift meant for following sections misses some, so that sections are listed twice or lookups panic',extra=())

bug('c15-empty-name','C15',[('file.go','''	if len(name) == 0 {
		name = DefaultSection
	}
	if f.options.Insensitive || f.options.InsensitiveSections {
		name = strings.ToLower(name)
	}

	if f.BlockMode {
		f.lock.Lock()
		defer f.lock.Unlock()
	}

	// Count''','''	if f.options.Insensitive || f.options.InsensitiveSections {
		name = strings.ToLower(name)
	}

	if f.BlockMode {
		f.lock.Lock()
		defer f.lock.Unlock()
	}

	// Count''')],
'''	f := load(ini.LoadOptions{}, []byte("a=1\\n[s]\\nb=2\\n"))
	f.DeleteSection("")
	check(!f.HasSection(ini.DefaultSection), "default section is still there")
''','deleting the default section through the empty name','nothing is deleted')

bug('c16-index-delete','C16',[('file.go','''				f.sections[name] = append(f.sections[name][:index], f.sections[name][index+1:]...)
''','''				last := len(f.sections[name]) - 1
				f.sections[name][index] = f.sections[name][last]
				f.sections[name] = f.sections[name][:last]
''')],
'''	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, []byte("[a]\\nk=1\\n[a]\\nk=2\\n[a]\\nk=3\\n[a]\\nk=4\\n"))
	check(f.DeleteSectionWithIndex("a", 0) == nil, "delete")
	secs, _ := f.SectionsByName("a")
	var got []string
	for _, s := range secs {
		got = append(got, s.Key("k").String())
	}
	check(fmt.Sprint(got) == "[2 3 4]", "%v", got)
''','deleting other than the last two of four or more equally named sections','the last one takes the place of the deleted one: order changes')

bug('c16-child-first','C16',[('section.go','''	for i, name := range s.f.sectionList {
		if strings.HasPrefix(name, prefix) {
			children = append(children, s.f.sections[name][s.f.sectionIndexes[i]])''','''	for _, name := range s.f.sectionList {
		if strings.HasPrefix(name, prefix) {
			children = append(children, s.f.sections[name][0])''')],
'''	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, []byte("[p]\\n[p.c]\\nk=1\\n[p.c]\\nk=2\\n"))
	l := f.ChildSections("p")
	check(len(l) == 2 && l[1].Key("k").String() == "2", "second child holds %q", l[1].Key("k").String())
''','child sections of one name more than once','the first one is listed several times')

bug('c17-hash-delete','C17',[('section.go','''			delete(s.keys, name)
			delete(s.keysHash, name)
''','''			delete(s.keys, name)
''')],
'''	f := ini.Empty()
	s := f.Section("s")
	s.NewKey("a", "1")
	s.DeleteKey("a")
	check(len(s.KeysHash()) == 0, "%v", s.KeysHash())
''','KeysHash after a deletion','deleted keys stay in the hash')

bug('c17-setvalue-hash','C17',[('key.go','	k.s.keysHash[k.name] = v\n','	if _, ok := k.s.keysHash[k.name]; !ok || len(v) > 0 {\n		k.s.keysHash[k.name] = v\n	}\n')],
'''	f := ini.Empty()
	s := f.Section("s")
	k, _ := s.NewKey("a", "1")
	k.SetValue("")
	check(s.KeysHash()["a"] == "", "%v", s.KeysHash())
''','setting a key to the empty text','the hash keeps the old value')

bug('c17-hasvalue','C17',[('section.go','''		if value == k.value {
			return true
		}
''','''		if value == k.value {
			return k.name == s.keyList[0] || value != ""
		}
''')],
'''	f := ini.Empty()
	s := f.Section("s")
	s.NewKey("a", "1")
	s.NewKey("b", "")
	check(s.HasValue(""), "the empty value is not found")
''','searching for the empty value when only a later key has it','HasValue denies it')

bug('c18-missing-parent','C18',[('section.go','''				sec, err := s.f.GetSection(sname)
				if err != nil {
					continue
				}
				return sec.GetKey(name)
''','''				sec, err := s.f.GetSection(sname)
				if err != nil {
					break
				}
				return sec.GetKey(name)
''')],
'''	f := load(ini.LoadOptions{}, []byte("[a]\\nk=1\\n[a.b.c]\\n"))
	check(f.Section("a.b.c").HasKey("k"), "not inherited through the missing [a.b]")
''','a parent section in the middle that does not exist','nothing is inherited from further up')

bug('c18-first-delim','C18',[('section.go','''		if i := strings.LastIndex(sname, s.f.options.ChildSectionDelimiter); i > -1 {
			sname = sname[:i]
			sec, err := s.f.GetSection(sname)
			if err != nil {
				continue
			}
			parentKeys''','''		if i := strings.LastIndex(sname, s.f.options.ChildSectionDelimiter); i > 0 {
			sname = sname[:i]
			sec, err := s.f.GetSection(sname)
			if err != nil {
				continue
			}
			parentKeys''')],
'''	f := load(ini.LoadOptions{}, []byte("k=1\\n[.a]\\n"))
	check(len(f.Section(".a").ParentKeys()) == 1, "keys of the parent with the empty name (the default section): %d", len(f.Section(".a").ParentKeys()))
''','a section whose name starts with the delimiter','the keys of the default section are missing in ParentKeys though GetKey finds them')

bug('c18-child-prefix','C18',[('section.go','if strings.HasPrefix(name, prefix) {','if len(name) > len(prefix) && strings.HasPrefix(name, prefix) && !strings.HasSuffix(name, s.f.options.ChildSectionDelimiter) {')],
'''	f := load(ini.LoadOptions{}, []byte("[a]\\n[a.b.]\\n[a.]\\n"))
	check(len(f.Section("a").ChildSections()) == 2, "%d children", len(f.Section("a").ChildSections()))
''','child sections whose names end in the delimiter','they are not listed')

bug('c19-delete-insens','C19',[('file.go','''	if f.options.Insensitive || f.options.InsensitiveSections {
		name = strings.ToLower(name)
	}

	if f.BlockMode {
		f.lock.Lock()
		defer f.lock.Unlock()
	}

	// Count''','''	if f.options.Insensitive {
		name = strings.ToLower(name)
	}

	if f.BlockMode {
		f.lock.Lock()
		defer f.lock.Unlock()
	}

	// Count''')],
'''	f := load(ini.LoadOptions{InsensitiveSections: true}, []byte("[Ab]\\nk=1\\n"))
	f.DeleteSection("AB")
	check(!f.HasSection("ab"), "still there")
''','InsensitiveSections (not Insensitive) and a deletion by a name in other case','nothing is deleted')

bug('c19-key-insens','C19',[('section.go','''func (s *Section) DeleteKey(name string) {
	if s.f.options.Insensitive || s.f.options.InsensitiveKeys {''','''func (s *Section) DeleteKey(name string) {
	if s.f.options.Insensitive {''')],
'''	f := load(ini.LoadOptions{InsensitiveKeys: true}, []byte("[s]\\nAb=1\\n"))
	f.Section("s").DeleteKey("AB")
	check(!f.Section("s").HasKey("ab"), "still there")
''','InsensitiveKeys (not Insensitive) and a deletion by a name in other case','nothing is deleted')

bug('c19-unparseable','C19',[('parser.go','unparseableSections = strings','unparseableSections = strings')],'','','')
B.pop()

bug('c20-last-shadow','C20',[('key.go','''		for i := range k.shadows {
			if k.shadows[i].value == val {
				return nil
			}
		}
''','''		if n := len(k.shadows); n > 0 && k.shadows[n-1].value == val {
			return nil
		}
''')],
'''	f := load(ini.LoadOptions{AllowShadows: true}, []byte("k=a\\nk=b\\nk=c\\nk=b\\n"))
	check(fmt.Sprint(f.Section("").Key("k").ValueWithShadows()) == "[a b c]", "%v", f.Section("").Key("k").ValueWithShadows())
''','a duplicate of a shadow value that is not the latest','the duplicate is kept')

bug('c20-empty-first','C20',[('key.go','''	vals := make([]string, 0, len(k.shadows)+1)
	if k.value != "" {
		vals = append(vals, k.value)
	}
	for''','''	vals := make([]string, 0, len(k.shadows)+1)
	vals = append(vals, k.value)
	for''')],
'''	f := load(ini.LoadOptions{AllowShadows: true}, []byte("k=\\nk=b\\n"))
	check(fmt.Sprint(len(f.Section("").Key("k").ValueWithShadows())) == "1", "%q", f.Section("").Key("k").ValueWithShadows())
''','a shadowed key whose first value is empty','the empty value is listed')

bug('c21-space-name','C21',[('ini.go','regexp.MustCompile(`%\\(([^)]+)\\)s`)','regexp.MustCompile(`%\\(([^)\\s]+)\\)s`)')],
'''	f := load(ini.LoadOptions{}, []byte("one two = 2\\nk = %(one two)s\\n"))
	check(f.Section("").Key("k").String() == "2", "%q", f.Section("").Key("k").String())
''','a reference to a key name with a blank','it is not expanded')

bug('c21-replace-one','C21',[('key.go','val = strings.Replace(val, vr, nk.Value(), -1)','val = strings.Replace(val, vr, nk.Value(), depthValues)')],
'''	f := ini.Empty()
	f.Section("").NewKey("a", "x")
	k, _ := f.Section("").NewKey("k", strings.Repeat("%(a)s", 10000))
	check(k.String() == strings.Repeat("x", 10000), "%d bytes", len(k.String()))
''','a value that refers to one key ten thousand times','not all of them are expanded')

bug('c21-self-default','C21',[('key.go','if err != nil || k == nk {','if err != nil {')],
'''	f := load(ini.LoadOptions{}, []byte("k = base\\n[s]\\nk = %(k)s/sub\\n"))
	check(f.Section("s").Key("k").String() == "base/sub", "%.60q", f.Section("s").Key("k").String())
''','a key that refers to its own name','the default section is not asked')

bug('c21-mapper-late','C21',[('key.go','''	// Fail-fast if no indicate char found for recursive value
	if !strings.Contains(val, "%") {''','''	// Fail-fast if no indicate char found for recursive value
	if !strings.Contains(k.value, "%") {''')],
'''	f := load(ini.LoadOptions{}, []byte("a = 1\\nk = REF\\n"))
	f.ValueMapper = func(s string) string { return strings.Replace(s, "REF", "%(a)s", -1) }
	check(f.Section("").Key("k").String() == "1", "%q", f.Section("").Key("k").String())
''','a value mapper that produces a reference','it is not expanded')

bug('c22-mustfloat','C22',[('key.go',"k.SetValue(strconv.FormatFloat(defaultVal[0], 'f', -1, 64))","k.SetValue(strconv.FormatFloat(defaultVal[0], 'g', 15, 64))")],
'''	f := ini.Empty()
	k := f.Section("").Key("k")
	x := 2.0 / 3
	k.MustFloat64(x)
	y, err := k.Float64()
	check(err == nil && x == y, "%v %v %v", x, y, err)
''','a default that needs all seventeen digits','the value that is stored differs from the one that was returned')

bug('c22-mustuint','C22',[('key.go','k.SetValue(strconv.FormatUint(uint64(defaultVal[0]), 10))','k.SetValue(strconv.FormatInt(int64(defaultVal[0]), 10))')],
'''	f := ini.Empty()
	k := f.Section("").Key("k")
	k.MustUint(1<<63 + 5)
	check(k.Value() == "9223372036854775813", "%q", k.Value())
''','a default of MustUint beyond the largest int64','a negative number is stored')

bug('c22-bool-case','C22',[('key.go','"1", "t", "T", "true", "TRUE", "True", "YES", "yes", "Yes", "y", "ON", "on", "On":','"1", "t", "T", "true", "TRUE", "True", "YES", "yes", "Yes", "y", "Y", "ON", "on", "On":')],
'''	f := ini.Empty()
	k := f.Section("").Key("k")
	k.SetValue("Y")
	_, err := k.Bool()
	check(err != nil, "Y counts as true")
''','the spelling Y','it is accepted')

bug('c22-time-default','C22',[('key.go','		k.SetValue(defaultVal[0].Format(format))\n','		k.SetValue(defaultVal[0].Format(time.RFC3339))\n')],
'''	f := ini.Empty()
	k := f.Section("").Key("k")
	k.MustTimeFormat("2006", time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC))
	check(k.Value() == "2020", "%q", k.Value())
''','MustTimeFormat with another format than RFC3339','the default is stored in a format that does not parse')

bug('c23-range-int64','C23',[('key.go','''	val := k.MustInt64()
	if val < min || val > max {''','''	val := k.MustInt64()
	if val < min || val-max > 0 {''')],
'''	f := ini.Empty()
	k := f.Section("").Key("k")
	k.SetValue("9223372036854775807")
	check(k.RangeInt64(1, -5, -2) == 1, "%d", k.RangeInt64(1, -5, -2))
''','bounds and value so far apart that their difference overflows','a value outside of the bounds is returned')

bug('c23-intime','C23',[('key.go','if val.Equal(cand) {','if val == cand.UTC() {')],
'''	f := ini.Empty()
	k := f.Section("").Key("k")
	k.SetValue("2020-01-01T02:00:00+02:00")
	d := time.Time{}
	check(!k.InTime(d, []time.Time{time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)}).IsZero(), "not found")
''','a time in another zone than UTC','it is not found among the candidates')

bug('c23-range-changes','C23',[('key.go','''	val := k.MustFloat64()
	if val < min''','''	val := k.MustFloat64(0)
	if val < min''')],
'''	f := ini.Empty()
	k := f.Section("").Key("k")
	k.SetValue("text")
	k.RangeFloat64(1, 0, 2)
	check(k.Value() == "text", "%q", k.Value())
''','RangeFloat64 for a text that is no number','the key is changed to 0')

bug('c24-valid-uints','C24',[('key.go','vals, _ := k.parseUints(k.Strings(delim), false, false)','vals, _ := k.parseUints(k.Strings(delim), true, false)')],
'''	f := ini.Empty()
	k := f.Section("").Key("k")
	k.SetValue("1,x,2")
	check(len(k.ValidUints(",")) == 2, "%v", k.ValidUints(","))
''','ValidUints with an element that is no number','zero takes its place')

bug('c24-empty-last','C24',[('key.go','''	if buf.Len() > 0 {
		vals = append(vals, strings.TrimSpace(buf.String()))
	}
''','''	if last := strings.TrimSpace(buf.String()); len(last) > 0 {
		vals = append(vals, last)
	}
''')],
'''	f := ini.Empty()
	k := f.Section("").Key("k")
	k.SetValue("a, ")
	check(len(k.Strings(",")) == 2, "%q", k.Strings(","))
''','a remainder of blanks only','the final blank element is dropped')

bug('c24-long-delim','C24',[('key.go','''				buf.WriteString(delim)
				idx += len(delim) - 1
			} else {''','''				buf.WriteString(delim)
			} else {''')],
'''	f := ini.Empty()
	k := f.Section("").Key("k")
	k.SetValue("a\\\\::b")
	check(len(k.Strings("::")) == 1 && k.Strings("::")[0] == "a::b", "%q", k.Strings("::"))
''','an escaped delimiter of more than one byte','part of the delimiter is repeated')

bug('c24-strict-first','C24',[('key.go','''		if err != nil && returnOnInvalid {
			return nil, err
		}''','''		if err != nil && returnOnInvalid && len(str) > 0 {
			return nil, err
		}''')],
'''	f := ini.Empty()
	k := f.Section("").Key("k")
	k.SetValue("1,,2")
	_, err := k.StrictInts(",")
	check(err != nil, "no error")
''','a strict list with an empty element in the middle','no error')

bug('c25-empty-string','C25',[('struct.go','} else if len(stringVal) > 0 {','} else if len(key.Value()) > 0 {')],
'''	f := load(ini.LoadOptions{}, []byte("e =\\nk = %(e)s\\n"))
	v := struct{ K string `ini:"k"` }{"old"}
	check(f.MapTo(&v) == nil && v.K == "old", "%q", v.K)
''','a value that is not empty but expands to the empty string','the field is overwritten')

bug('c25-tag-limit','C25',[('struct.go','strings.SplitN(tag, ",", 5)','strings.SplitN(tag, ",", 3)')],
'''	f := load(ini.LoadOptions{AllowShadows: true}, []byte("k = 1,2\\nk = 3\\n"))
	v := struct{ K []int `ini:"k,omitempty,allowshadow,"` }{}
	check(f.MapTo(&v) == nil && len(v.K) == 3, "%v", v.K)
''','a tag with a third part after the name','options are not recognised')

bug('c25-nested-alloc','C25',[('struct.go','''				if isStructPtr && field.IsNil() {
					field.Set(reflect.New(tpField.Type.Elem()))
				}
				if err = secs''','''				if isStructPtr {
					field.Set(reflect.New(tpField.Type.Elem()))
				}
				if err = secs''')],
'''	f := load(ini.LoadOptions{}, []byte("[S]\\nA = 1\\n"))
	type S struct{ A, B int }
	v := struct{ S *S }{&S{5, 6}}
	check(f.MapTo(&v) == nil && v.S.A == 1 && v.S.B == 6, "%v", v.S)
''','a pointer to a nested struct that is set before','the fields without a key are lost')

bug('c25-uint-small','C25',[('struct.go','reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:\n		uintVal','reflect.Uint, reflect.Uint32, reflect.Uint64:\n		uintVal')],
'''	f := load(ini.LoadOptions{}, []byte("A = 1\\n"))
	v := struct{ A uint16 }{}
	check(f.MapTo(&v) == nil && v.A == 1, "%v", v.A)
''','a field of type uint16','it is not supported any more')

bug('c26-strict-uints','C26',[('struct.go','vals, err = key.parseUints(strs, true, isStrict)','vals, err = key.parseUints(strs, true, false)')],
'''	f := load(ini.LoadOptions{}, []byte("A = 1,x\\n"))
	v := struct{ A []uint }{}
	check(f.StrictMapTo(&v) != nil, "no error")
''','strict mapping of a []uint with an element that does not convert','no error')

bug('c26-strict-nested','C26',[('struct.go','if err = secs[sectionIndex].mapToField(field, isStrict, sectionIndex, fieldName); err != nil {','if err = secs[sectionIndex].mapToField(field, isStrict && !isStructPtr, sectionIndex, fieldName); err != nil {')],
'''	f := load(ini.LoadOptions{}, []byte("[S]\\nA = x\\n"))
	v := struct{ S *struct{ A int } }{}
	check(f.StrictMapTo(&v) != nil, "no error")
''','strict mapping of a nested struct behind a pointer','errors in it are ignored')

bug('c26-time-lists','C26',[('struct.go','vals, err = key.parseTimesFormat(time.RFC3339, strs, true, isStrict)','vals, err = key.parseTimesFormat(time.RFC3339, strs, true, isStrict && !allowShadow)')],
'''	f := load(ini.LoadOptions{AllowShadows: true}, []byte("T = 2020-01-01T00:00:00Z\\nT = x\\n"))
	v := struct{ T []time.Time `ini:",,allowshadow"` }{}
	check(f.StrictMapTo(&v) != nil, "no error")
''','strict mapping of a list of times with shadows','no error')

bug('c27-last-delim','C27',[('struct.go','key.SetValue(buf.String()[:buf.Len()-len(delim)])','key.SetValue(buf.String()[:buf.Len()-1])')],
'''	f := ini.Empty()
	v := struct{ L []string `delim:"::"` }{[]string{"a", "b"}}
	check(f.ReflectFrom(&v) == nil && f.Section("").Key("L").Value() == "a::b", "%q", f.Section("").Key("L").Value())
''','a list with a delimiter of several bytes','part of a delimiter stays at the end')

bug('c27-nil-stop','C27',[('struct.go','''		if val.IsNil() {
			return nil
		}
		val = val.Elem()
	}
	typ := val.Type()

	for i := 0; i < typ.NumField(); i++ {
		if !val.Field(i).CanInterface() {
			continue
		}''','''		if val.IsNil() {
			return nil
		}
		val = val.Elem()
	}
	typ := val.Type()

	for i := 0; i < typ.NumField(); i++ {
		if !val.Field(i).CanInterface() {
			if typ.Field(i).Anonymous {
				break
			}
			continue
		}''')],
'''	type inner struct{ X int }
	type T struct {
		A int
		inner
		B int
	}
	f := ini.Empty()
	v := T{1, inner{2}, 3}
	check(f.ReflectFrom(&v) == nil && f.Section("").Key("B").Value() == "3", "%q", f.Section("").Key("B").Value())
''','a field behind an embedded struct of an unexported type','it is not stored')

bug('c27-empty-float','C27',[('struct.go','		return v.Float() == 0\n','		return int64(v.Float()) == 0\n')],
'''	f := ini.Empty()
	v := struct{ F float64 `ini:",omitempty"` }{0.5}
	check(f.ReflectFrom(&v) == nil && f.Section("").HasKey("F"), "omitted")
''','omitempty on a float between -1 and 1','it is left out')

bug('c27-float32','C27',[('struct.go','		key.SetValue(fmt.Sprint(field.Float()))\n	case reflectTime:','		key.SetValue(strconv.FormatFloat(field.Float(), \'f\', 6, 64))\n	case reflectTime:'),
  ('struct.go','	"reflect"\n	"strings"','	"reflect"\n	"strconv"\n	"strings"')],
'''	f := ini.Empty()
	v := struct{ F float64 }{1.23456789e-7}
	w := v
	w.F = 0
	check(f.ReflectFrom(&v) == nil && f.MapTo(&w) == nil && v == w, "%v %v", v, w)
''','a float with more than six decimal places','digits are lost')

bug('c27-comment','C27',[('struct.go','''		if len(key.Comment) == 0 {
			key.Comment = tpField.Tag.Get("comment")
		}
''','''		if len(key.Comment) == 0 || err == nil {
			key.Comment = tpField.Tag.Get("comment")
		}
''')],
'''	f := load(ini.LoadOptions{}, []byte("; mine\\nA = 1\\n"))
	v := struct{ A int }{2}
	check(f.ReflectFrom(&v) == nil && f.Section("").Key("A").Comment == "; mine", "%q", f.Section("").Key("A").Comment)
''','reflecting over a key that has a comment of its own','the comment is lost')

bug('c28-slice-index','C28',[('struct.go','if err = sec.mapToField(elem, isStrict, i, sec.name); err != nil {','if err = sec.mapToField(elem, isStrict, i&1, sec.name); err != nil {')],
'''	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, []byte("[P]\\na=1\\n[N]\\nb=1\\n[P]\\na=2\\n[N]\\nb=2\\n[P]\\na=3\\n[N]\\nb=3\\n"))
	type N struct{ B int `ini:"b"` }
	type P struct {
		A int `ini:"a"`
		N N
	}
	v := struct{ P []P `ini:",,nonunique"` }{}
	check(f.MapTo(&v) == nil && len(v.P) == 3 && v.P[2].N.B == 3, "%v", v)
''','a struct nested in three or more elements','elements from the third on get it from the wrong section')

bug('c28-replace','C28',[('struct.go','''		// Clear sections to make sure none exists before adding the new ones
		s.f.DeleteSection(s.name)
''','''		// Clear sections to make sure none exists before adding the new ones
		_ = s.f.DeleteSectionWithIndex(s.name, 0)
''')],
'''	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, []byte("[P]\\na=1\\n[P]\\na=2\\n"))
	type P struct{ A int `ini:"a"` }
	err := f.Section("P").ReflectFrom([]*P{{5}})
	l, _ := f.SectionsByName("P")
	check(err == nil && len(l) == 1, "%d sections", len(l))
''','reflecting a slice to a section that exists more than once','old sections stay')

bug('c28-lost-order','C28',[('struct.go','				if err := sec.reflectFrom(slice.Index(i), len(existing)+i); err != nil {','				if err := sec.reflectFrom(slice.Index(i), i); err != nil {')],
'''	type N struct{ B int `ini:"b"` }
	type P struct {
		A int `ini:"a"`
		N N
	}
	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, []byte("[P]\\na=9\\n[N]\\nb=9\\n"))
	v := struct{ P []P `ini:",,nonunique"` }{[]P{{1, N{1}}}}
	check(f.ReflectFrom(&v) == nil, "error")
	check(f.SectionWithIndex("N", 0).Key("b").Value() == "9", "%q", f.SectionWithIndex("N", 0).Key("b").Value())
''','a field of structs with nested structs, reflected to a file that has such sections','the nested section of an older element is overwritten')
B[-1]['skip']=True

bug('c29-hash-lock','C29',[('section.go','''	if s.f.BlockMode {
		s.f.lock.RLock()
		defer s.f.lock.RUnlock()
	}

	hash :=''','''	if s.f.BlockMode {
		s.f.lock.RLock()
		s.f.lock.RUnlock()
	}

	hash :=''')],
'''	f := ini.Empty()
	s := f.Section("s")
	done := make(chan bool)
	go func() {
		for i := 0; i < 2000; i++ {
			s.NewKey(fmt.Sprint(i), "v")
		}
		close(done)
	}()
	for i := 0; i < 200; i++ {
		s.KeysHash()
	}
	<-done
''','KeysHash while another goroutine adds keys','data race',race=True)

bug('c29-keystrings','C29',[('section.go','''func (s *Section) KeyStrings() []string {
	if s.f.BlockMode {
		s.f.lock.RLock()
		defer s.f.lock.RUnlock()
	}
''','''func (s *Section) KeyStrings() []string {
''')],
'''	f := ini.Empty()
	s := f.Section("s")
	done := make(chan bool)
	go func() {
		for i := 0; i < 2000; i++ {
			s.NewKey(fmt.Sprint(i), "v")
		}
		close(done)
	}()
	for i := 0; i < 200; i++ {
		s.KeyStrings()
	}
	<-done
''','KeyStrings while another goroutine adds keys','data race',race=True)

bug('c29-getsection-window','C29',[('section.go','''	for i, k := range s.keyList {
		if k == name {
			s.keyList = append(s.keyList[:i], s.keyList[i+1:]...)
			delete(s.keys, name)
			delete(s.keysHash, name)
			return
		}
	}
''','''	for i, k := range s.keyList {
		if k == name {
			list := append([]string{}, s.keyList...)
			if s.f.BlockMode {
				s.f.lock.Unlock()
				s.f.lock.Lock()
			}
			s.keyList = append(list[:i], list[i+1:]...)
			delete(s.keys, name)
			delete(s.keysHash, name)
			return
		}
	}
''')],
'''	f := ini.Empty()
	s := f.Section("s")
	s.NewKey("a", "v")
	lost := false
	for i := 0; i < 20000 && !lost; i++ {
		var wg sync.WaitGroup
		wg.Add(2)
		n := fmt.Sprint(i)
		go func() { s.DeleteKey("a"); wg.Done() }()
		go func() { s.NewKey(n, "v"); wg.Done() }()
		wg.Wait()
		lost = len(s.KeyStrings()) != 1
		s.DeleteKey(n)
		s.NewKey("a", "v")
	}
	check(!lost, "a key was lost")
''','another goroutine changing the key list in the moment in which the lock is let go','its update is lost')

bug('c30-strings','C30',[('file.go','''	list := make([]string, len(f.sectionList))
	copy(list, f.sectionList)
	return list
''','''	return f.sectionList[:len(f.sectionList):len(f.sectionList)]
''')],
'''	f := load(ini.LoadOptions{}, []byte("[a]\\n[b]\\n"))
	l := f.SectionStrings()
	l[1] = "x"
	check(f.SectionStrings()[1] == "a", "%q", f.SectionStrings())
''','writing to the list of section names','the file changes')

bug('c30-options','C30',[('ini.go','	sources := make([]dataSource, len(others)+1)\n','	sources := append(make([]dataSource, 0, len(others)+4), make([]dataSource, len(others)+1)...)\n	f0 := sources[:0]\n	_ = f0\n')],'','','')
B.pop()

bug('c31-loose','C31',[('ini.go','return LoadSources(LoadOptions{Loose: true}, source, others...)','return LoadSources(LoadOptions{Loose: true, ShortCircuit: len(others) > 2}, source, others...)')],
'''	f, err := ini.LooseLoad([]byte("a=1\\n"), []byte("b=1\\n"), []byte("c=1\\n"), []byte("d=1\\n"))
	check(err == nil && f.Section("").HasKey("d"), "the last source is missing")
''','LooseLoad of more than three sources','only the first one is read')

bug('c31-insensitive','C31',[('ini.go','return LoadSources(LoadOptions{Insensitive: true}, source, others...)','return LoadSources(LoadOptions{InsensitiveSections: true, InsensitiveKeys: len(others) == 0}, source, others...)')],
'''	f, err := ini.InsensitiveLoad([]byte("A=1\\n"), []byte("B=1\\n"))
	check(err == nil && f.Section("").HasKey("b"), "key b is missing")
''','InsensitiveLoad of several sources','key names keep their case')

bug('c31-strict-mapper','C31',[('struct.go','''func StrictMapToWithMapper(v interface{}, mapper NameMapper, source interface{}, others ...interface{}) error {
	cfg, err := Load(source, others...)
	if err != nil {
		return err
	}
	cfg.NameMapper = mapper
	return cfg.StrictMapTo(v)''','''func StrictMapToWithMapper(v interface{}, mapper NameMapper, source interface{}, others ...interface{}) error {
	cfg, err := Load(source, others...)
	if err != nil {
		return err
	}
	if cfg.NameMapper = mapper; mapper != nil {
		return cfg.MapTo(v)
	}
	return cfg.StrictMapTo(v)''')],
'''	v := struct{ A int }{}
	err := ini.StrictMapToWithMapper(&v, ini.TitleUnderscore, []byte("a = x\\n"))
	check(err != nil, "no error")
''','StrictMapToWithMapper with a mapper','it is not strict')

bug('c31-title','C31',[('struct.go',"			newstr = append(newstr, '_')\n			}\n			chr -= 'A' - 'a'","			newstr = append(newstr, '_')\n			}\n			chr |= 0x20")],
'','','')
B.pop()

bug('c32-write','C32',[('file.go','if i > 0 || DefaultHeader || (i == 0 && strings.ToUpper(sec.name) != DefaultSection) {','if i > 0 || DefaultHeader || (i == 0 && strings.ToUpper(sec.name) != "DEFAULT") {')],
'','','')
B.pop()

bug('c12-shortcircuit','C12',[('file.go','''		if f.options.ShortCircuit {
			return nil
		}
''','''		if f.options.ShortCircuit && len(f.sections) > 1 {
			return nil
		}
''')],
'''	f := load(ini.LoadOptions{ShortCircuit: true}, []byte("a=1\\n"), []byte("a=2\\n"))
	check(f.Section("").Key("a").Value() == "1", "%q", f.Section("").Key("a").Value())
''','ShortCircuit with a first source that has no section header','later sources are read too')

bug('c12-append-only-first','C12',[('ini.go','''		sources[i+1], err = parseDataSource(others[i])
		if err != nil {
			return nil, err
		}
''','''		sources[i+1], err = parseDataSource(others[i])
		if err != nil && !opts.ShortCircuit {
			return nil, err
		}
''')],
'''	_, err := ini.LoadSources(ini.LoadOptions{ShortCircuit: true}, []byte("a=1\\n"), 5)
	check(err != nil, "no error for a source of type int")
''','ShortCircuit and a later source of an unsupported type','it is accepted')

bug('c13-append-source','C13',[('file.go','''	f.dataSources = append(f.dataSources, ds)
	for _, s := range others {''','''	if _, ok := ds.(*sourceData); !ok || len(others) == 0 {
		f.dataSources = append(f.dataSources, ds)
	}
	for _, s := range others {''')],
'''	f := load(ini.LoadOptions{}, []byte("a=1\\n"))
	check(f.Append([]byte("b=1\\n"), []byte("c=1\\n")) == nil, "error")
	check(f.Section("").HasKey("b"), "the first appended source is missing")
''','Append of several sources, the first of them bytes','the first one is ignored')

bug('c13-append-error','C13',[('file.go','''		f.dataSources = append(f.dataSources, ds)
	}
	return f.Reload()''','''		f.dataSources = append(f.dataSources, ds)
	}
	if err = f.Reload(); err != nil && len(f.dataSources) > len(others)+1 && f.options.SkipUnrecognizableLines {
		return nil
	}
	return err''')],
'''	f := load(ini.LoadOptions{SkipUnrecognizableLines: true}, []byte("a=1\\n"))
	check(f.Append([]byte("[open\\n")) != nil, "no error")
''','Append of a malformed source with SkipUnrecognizableLines','no error')

bug('c06-section','C06',[('parser.go','closeIdx := bytes.LastIndexByte(line, \']\')','closeIdx := bytes.LastIndexByte(line, \']\')')],'','','')
B.pop()

sel=sys.argv[1:]
for b in B:
    if b.get('skip') and b['id'] not in sel: continue
    if sel and not any(b['id'].startswith(x) for x in sel): continue
    seedlib.make(b)
