import sys; sys.path.insert(0,'/tmp/w'); import seedlib
B=[]
def bug(id,prop,edits,demo,needs,breaks,**k): B.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c19-fold-delete','C19',[('file.go','''		if s != name {
			continue
		}
''','''		if !strings.EqualFold(s, name) {
			continue
		}
''')],'''	f := ini.Empty()
	f.NewSections("a", "A", "b")
	f.DeleteSection("a")
	check(f.HasSection("A") && fmt.Sprint(f.SectionStrings()) == "[DEFAULT A b]", "%q", f.SectionStrings())
''','sections whose names differ in letter case only, in a sensitive mode','deleting one of them breaks the other')

bug('c19-ascii-create','C19',[('section.go','''		return nil, errors.New("error creating new key: empty key name")
	} else if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
		name = strings.ToLower(name)
	}
''','''		return nil, errors.New("error creating new key: empty key name")
	} else if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
		name = strings.Map(func(r rune) rune {
			if 'A' <= r && r <= 'Z' {
				r += 'a' - 'A'
			}
			return r
		}, name)
	}
''')],'''	f := load(ini.LoadOptions{Insensitive: true}, []byte("\\u00c9 = 1\\n"))
	check(f.Section("").Key("\\u00e9").String() == "1", "%q", f.Section("").KeyStrings())
''','a key name with a capital outside of ASCII','it is not found')

bug('c29-hasvalue-lock','C29',[('section.go','''func (s *Section) HasValue(value string) bool {
	if s.f.BlockMode {
		s.f.lock.RLock()
		defer s.f.lock.RUnlock()
	}
''','''func (s *Section) HasValue(value string) bool {
''')],'''	f := ini.Empty()
	s := f.Section("a")
	done := make(chan bool)
	go func() {
		for i := 0; i < 2000; i++ {
			s.NewKey(fmt.Sprint("k", i%50), "v")
			s.DeleteKey(fmt.Sprint("k", (i+7)%50))
		}
		close(done)
	}()
	for i := 0; i < 2000; i++ {
		s.HasValue("x")
	}
	<-done
''','HasValue while another goroutine adds keys','data race',race=True)

bug('c29-delete-split','C29',[('section.go','''	if s.f.BlockMode {
		s.f.lock.Lock()
		defer s.f.lock.Unlock()
	}

	for i, k := range s.keyList {
		if k == name {
			s.keyList = append''','''	found := -1
	if s.f.BlockMode {
		s.f.lock.RLock()
	}
	for i, k := range s.keyList {
		if k == name {
			found = i
			break
		}
	}
	if s.f.BlockMode {
		s.f.lock.RUnlock()
		s.f.lock.Lock()
		defer s.f.lock.Unlock()
	}
	for i, k := range s.keyList {
		if i == found {
			name = k
			s.keyList = append''')],'''	for round := 0; round < 3000; round++ {
		f := ini.Empty()
		s := f.Section("a")
		for i := 0; i < 40; i++ {
			s.NewKey(fmt.Sprint("k", i), "v")
		}
		start := make(chan bool)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < 2; i++ {
					s.DeleteKey(fmt.Sprint("k", g*2+i))
				}
			}()
		}
		close(start)
		wg.Wait()
		for i := 16; i < 40; i++ {
			check(s.HasKey(fmt.Sprint("k", i)), "k%d is gone", i)
		}
	}
''','two goroutines deleting keys of the same section at the same time','another key than the one named is deleted')

bug('c29-key-overwrite','C29',[('section.go','''	if inSlice(name, s.keyList) {
		if keepExisting {
			return s.keys[name], nil
		} else if''','''	if inSlice(name, s.keyList) {
		if''')],'''	f := ini.Empty()
	for round := 0; round < 20000; round++ {
		s := f.Section(fmt.Sprint("s", round%10))
		s.DeleteKey("k")
		done := make(chan bool)
		go func() {
			s.Key("k")
			close(done)
		}()
		s.NewKey("k", "v")
		<-done
		check(s.Key("k").Value() == "v", "update lost")
	}
''','a goroutine reads a missing key through Key while another one creates it','the new value is lost')

bug('c29-hash-late','C29',[('key.go','''	if k.s.f.BlockMode {
		k.s.f.lock.Lock()
		defer k.s.f.lock.Unlock()
	}

	k.value = v
	// The key''','''	if k.s.f.BlockMode {
		k.s.f.lock.Lock()
	}
	k.value = v
	if k.s.f.BlockMode {
		k.s.f.lock.Unlock()
		k.s.f.lock.Lock()
		defer k.s.f.lock.Unlock()
	}
	// The key''')],'''	f := ini.Empty()
	k := f.Section("a").Key("k")
	for round := 0; round < 200000; round++ {
		done := make(chan bool)
		go func() {
			k.SetValue("1")
			close(done)
		}()
		k.SetValue("2")
		<-done
		check(f.Section("a").KeysHash()["k"] == k.Value(), "hash and value differ")
	}
''','two goroutines setting the same key','the hash keeps another value than the key')

bug('c14-bom-once','C14',[('parser.go','''		mask, err := p.buf.Peek(3)
		if err != nil && err != io.EOF {
			return err
		} else if len(mask) < 3 {''','''		mask, _ := p.buf.Peek(3)
		if len(mask) < 3 {''')],'''	_, err := ini.Load(io.MultiReader(strings.NewReader("\\xef\\xbb"), &failOnce{}, strings.NewReader("\\xbfa=1\\n")))
	check(err != nil, "no error")
}

type failOnce struct{ done bool }

func (r *failOnce) Read([]byte) (int, error) {
	if r.done {
		return 0, io.EOF
	}
	r.done = true
	return 0, errors.New("broken")
''','a source that fails once, within the byte-order mark','the failure is not reported')

bug('c14-partial-line','C14',[('parser.go','''		if err == io.EOF {
			p.isEOF = true
		} else {''','''		if err == io.EOF || len(data) > p.buf.Size() {
			p.isEOF = true
		} else {''')],'''	_, err := ini.Load(io.MultiReader(strings.NewReader("a="+strings.Repeat("x", 5000)), iotest.ErrReader(errors.New("broken"))))
	check(err != nil, "no error")
''','a source failing within a line longer than the reader buffer','the truncated line is taken as the end of the source')

bug('c14-python-peek','C14',[('parser.go','''		peekData, err := p.buf.Peek(1)
		if err != nil && err != io.EOF {''','''		peekData, err := p.buf.Peek(1)
		if err != nil && err != io.EOF && len(line) == 0 {''')],'''	_, err := ini.LoadSources(ini.LoadOptions{AllowPythonMultilineValues: true}, io.MultiReader(strings.NewReader("a=1\\n"), &failOnce{}, strings.NewReader("b=2\\n")))
	check(err != nil, "no error")
}

type failOnce struct{ done bool }

func (r *failOnce) Read([]byte) (int, error) {
	if r.done {
		return 0, io.EOF
	}
	r.done = true
	return 0, errors.New("broken")
''','Python-style values, a source failing once behind a value','the failure is not reported')

bug('c14-close-twice','C14',[('file.go','''	defer r.Close()

	return f.parse(r)''','''	defer r.Close()

	if err = f.parse(r); err != nil {
		_ = r.Close()
	}
	return err''')],'''	r := &rc{Reader: strings.NewReader("[a\\n")}
	_, err := ini.Load(r)
	check(err != nil && r.n == 1, "%v, closed %d times", err, r.n)
}

type rc struct {
	io.Reader
	n int
}

func (r *rc) Close() error {
	r.n++
	return nil
''','a malformed read-closer','it is closed twice')

bug('c12-loose-any','C12',[('file.go','''os.IsNotExist(err) && f.options.Loose {''','''f.options.Loose && (os.IsNotExist(err) || errors.As(err, new(*os.PathError))) {''')],'''	os.Mkdir("d", 0755)
	_, err := ini.LooseLoad("d", []byte("a=1\\n"))
	check(err != nil, "no error for a directory")
''','Loose and a source that exists but cannot be read','it is skipped as if it did not exist')

bug('c12-loose-notdir','C12',[('file.go','''os.IsNotExist(err) && f.options.Loose {''','''f.options.Loose {''')],'''	os.WriteFile("x", nil, 0644)
	_, err := ini.LooseLoad("x/y.ini", []byte("a=1\\n"))
	check(err != nil, "no error for a path below a file")
''','Loose and a malformed file or one below a regular file','it is skipped as if it did not exist')

bug('c12-circuit-loose','C12',[('file.go','''				_ = f.parse(bytes.NewBuffer(nil))
				continue
''','''				_ = f.parse(bytes.NewBuffer(nil))
				if f.options.ShortCircuit {
					return nil
				}
				continue
''')],'''	f := load(ini.LoadOptions{Loose: true, ShortCircuit: true}, "missing.ini", []byte("a=1\\n"))
	check(f.Section("").HasKey("a"), "later source not read")
''','Loose with ShortCircuit and a missing first file','the second source is not read')

bug('c10-shadow-comment','C10',[('parser.go','''		if comment := strings.TrimSpace(p.comment.String()); !f.options.AllowShadows || len(comment) > 0 {
			key.Comment = comment
		}
		p.comment.Reset()
		lastRegularKey = key''','''		if comment := strings.TrimSpace(p.comment.String()); !f.options.AllowShadows || len(comment) > 0 {
			key.Comment = comment
			p.comment.Reset()
		}
		lastRegularKey = key''')],'','','')
B.pop()

bug('c10-nested-comment','C10',[('parser.go','''			if line[0] == ' ' || line[0] == '\\t' {
				err = lastRegularKey''','''			if t := bytes.TrimSpace(line); len(t) > 0 && t[0] == '#' && len(lastRegularKey.nestedValues) > 0 {
				p.comment.Write(append(t, '\\n'))
				continue
			}
			if line[0] == ' ' || line[0] == '\\t' {
				err = lastRegularKey''')],'''	f := load(ini.LoadOptions{AllowNestedValues: true}, []byte("a =\\n  x\\n  # y\\nb = 1\\n"))
	check(f.Section("").Key("b").Comment == "", "%q", f.Section("").Key("b").Comment)
''','a nested value that begins with a comment mark','it becomes the comment of the next key')

bug('c10-bool-inline','C10',[('parser.go','''			p.comment.WriteString(line[i:])
			line = strings.TrimSpace(line[:i])''','''			if j := strings.LastIndexAny(line, "#;"); j > i && line[j-1] == ' ' && !p.options.SpaceBeforeInlineComment {
				p.comment.WriteString(line[j:])
			} else {
				p.comment.WriteString(line[i:])
			}
			line = strings.TrimSpace(line[:i])''')],'''	f := load(ini.LoadOptions{}, []byte("a = 1 # x ; y\\n"))
	check(f.Section("").Key("a").Comment == "# x ; y", "%q", f.Section("").Key("a").Comment)
''','an inline comment with a second comment mark','part of the comment is lost')

bug('c10-multi-mark','C10',[('file.go','''					if len(lines[i]) == 0 || (lines[i][0] != '#' && lines[i][0] != ';') {
						lines[i] = "; "''','''					if len(lines[i]) == 0 || (lines[i][0] != '#' && (lines[i][0] != ';' || i > 0)) {
						lines[i] = "; "''')],'''	f := load(ini.LoadOptions{}, []byte("; x\\n; y\\na = 1\\n"))
	check(text(f) == "; x\\n; y\\na = 1\\n", "%q", text(f))
''','a key comment of several lines marked with semicolons','the second line gets a second mark')

bug('c08-name-delims','C08',[('file.go','''	case strings.ContainsAny(name, `"`+f.options.KeyValueDelimiters),''','''	case strings.ContainsAny(name, "\\"=:"),''')],'''	o := ini.LoadOptions{KeyValueDelimiters: "|", KeyValueDelimiterOnWrite: "|"}
	f := ini.Empty(o)
	f.Section("").NewKey("a|b", "1")
	g := load(o, []byte(text(f)))
	check(g.Section("").HasKey("a|b"), "%q", g.Section("").KeyStrings())
''','other delimiters, a key name holding one','the name is cut when read back')

bug('c08-newline-triple','C08',[('file.go','''	case strings.Contains(val, "`") ||
		(strings.Contains(val, "\\n") && !strings.Contains(val, `"""`)):''','''	case strings.Contains(val, "`") || strings.Contains(val, "\\n"):''')],'''	f := ini.Empty()
	f.Section("").NewKey("a", "x\\n\\"\\"\\"y\\nz")
	f.Section("").NewKey("b", "1")
	g := load(ini.LoadOptions{}, []byte(text(f)))
	check(g.Section("").Key("a").String() == "x\\n\\"\\"\\"y\\nz", "%q", g.Section("").Key("a").String())
''','a value of several lines with three quotes','it is cut when read back')

bug('c08-raw-end','C08',[('file.go','''			if !isLastSection && len(sec.rawBody) > 0 && !strings.HasSuffix(sec.rawBody, "\\n") {''','''			if PrettySection && !isLastSection && !strings.HasSuffix(sec.rawBody, "\\n") {''')],'''	ini.PrettySection = false
	f := load(ini.LoadOptions{UnparseableSections: []string{"r"}}, []byte("[r]\\nx\\n[b]\\na=1\\n"))
	f.Section("r").SetBody("y")
	g := load(ini.LoadOptions{UnparseableSections: []string{"r"}}, []byte(text(f)))
	check(g.HasSection("b"), "%q", text(f))
''','a raw body without final line break and no PrettySection','the next section is swallowed')

bug('c11-chunks','C11',[('file.go','''	return buf.WriteTo(w)
}''','''	var n int64
	for buf.Len() > 4096 {
		m, err := w.Write(buf.Next(4096))
		n += int64(m)
		if err != nil {
			return n, err
		}
	}
	m, err := buf.WriteTo(w)
	return n + m, err
}''')],'''	f := ini.Empty()
	for i := 0; i < 1000; i++ {
		f.Section("").NewKey(fmt.Sprint("k", i), "value")
	}
	_, err := f.WriteTo(short{})
	check(err != nil, "no error")
}

type short struct{}

func (short) Write(p []byte) (int, error) {
	if len(p) == 4096 {
		return 4000, nil
	}
	return len(p), nil
''','a destination that accepts only part of a large output','no error is returned')

bug('c11-save-err','C11',[('file.go','''	return ioutil.WriteFile(filename, buf.Bytes(), 0666)''','''	w, err := os.Create(filename)
	if err != nil {
		return err
	}
	defer w.Close()
	if _, err = buf.WriteTo(w); os.IsPermission(err) || os.IsNotExist(err) {
		return err
	}
	return nil''')],'''	if _, err := os.Stat("/dev/full"); err != nil {
		return
	}
	f := load(ini.LoadOptions{}, []byte("a=1\\n"))
	check(f.SaveTo("/dev/full") != nil, "no error")
''','a full disk','SaveTo reports success')

bug('c11-indent-write','C11',[('file.go','''				lines := splitComment(key.Comment)
				for i := range lines {''','''				lines := splitComment(key.Comment)
				if len(lines) > 1 {
					key.Comment = strings.Join(lines, "\\n")
				}
				for i := range lines {''')],'''	f := load(ini.LoadOptions{}, []byte("a=1\\n"))
	f.Section("").Key("a").Comment = "x\\r\\ny"
	text(f)
	check(f.Section("").Key("a").Comment == "x\\r\\ny", "%q", f.Section("").Key("a").Comment)
''','a comment composed with CRLF','writing changes the comment')

bug('c17-hash-nested','C17',[('section.go','''		} else {
			s.keys[name].value = val
			s.keysHash[name] = val
		}''','''		} else {
			s.keys[name].value = val
			if val != "" {
				s.keysHash[name] = val
			}
		}''')],'''	f := ini.Empty()
	s := f.Section("")
	s.NewKey("a", "1")
	s.NewKey("a", "")
	check(s.KeysHash()["a"] == "", "%v", s.KeysHash())
''','updating a key to the empty value','the hash keeps the old one')

bug('c17-delete-last','C17',[('section.go','''			s.keyList = append(s.keyList[:i], s.keyList[i+1:]...)
			delete(s.keys, name)''','''			if last := len(s.keyList) - 1; last > 15 {
				s.keyList[i] = s.keyList[last]
				s.keyList = s.keyList[:last]
			} else {
				s.keyList = append(s.keyList[:i], s.keyList[i+1:]...)
			}
			delete(s.keys, name)''')],'''	f := ini.Empty()
	s := f.Section("")
	for i := 0; i < 20; i++ {
		s.NewKey(fmt.Sprint("k", i), "1")
	}
	s.DeleteKey("k3")
	check(s.KeyStrings()[3] == "k4", "%v", s.KeyStrings())
''','deleting a key of a section with many keys','the order changes')

bug('c16-many','C16',[('file.go','''		} else if index >= 0 && occurrences > index {''','''		} else if index > 0 && occurrences > index || index == 0 && occurrences == 1 {''')],'''	f := ini.Empty(ini.LoadOptions{AllowNonUniqueSections: true})
	for i := 0; i < 3; i++ {
		s, _ := f.NewSection("a")
		s.NewKey("i", fmt.Sprint(i))
	}
	f.DeleteSectionWithIndex("a", 0)
	defer func() { check(recover() == nil, "panic") }()
	l := f.Sections()
	check(l[2].Key("i").String() == "2", "%v", l[2].Key("i"))
''','deleting the first of three equally named sections','listing the sections panics')

bug('c18-missing-two','C18',[('section.go','''				sec, err := s.f.GetSection(sname)
				if err != nil {
					continue
				}
				return sec.GetKey(name)''','''				sec, err := s.f.GetSection(sname)
				if err != nil {
					if sname = strings.TrimSuffix(sname, s.f.options.ChildSectionDelimiter); sname != "" {
						continue
					}
					break
				}
				return sec.GetKey(name)''')],'''	f := ini.Empty()
	f.Section("a.").NewKey("k", "1")
	check(f.Section("a...b").HasKey("k"), "not inherited")
''','section names with consecutive delimiters','ancestors are skipped')

bug('c18-parent-dup','C18',[('section.go','''			parentKeys = append(parentKeys, sec.Keys()...)''','''			for _, k := range sec.Keys() {
				if len(parentKeys) > 0 && parentKeys[len(parentKeys)-1].name == k.name {
					continue
				}
				parentKeys = append(parentKeys, k)
			}''')],'''	f := load(ini.LoadOptions{}, []byte("[a]\\nk=1\\n[a.b]\\nk=2\\n[a.b.c]\\n"))
	check(len(f.Section("a.b.c").ParentKeys()) == 2, "%d", len(f.Section("a.b.c").ParentKeys()))
''','equally named keys at the seam of two ancestors','one is missing in ParentKeys')

bug('c20-first-empty','C20',[('key.go','''		for i := range k.shadows {
			if k.shadows[i].value == val {
				return nil
			}
		}''','''		for i := range k.shadows {
			if strings.EqualFold(k.shadows[i].value, val) {
				return nil
			}
		}''')],'''	f, _ := ini.ShadowLoad([]byte("a=1\\na=b\\na=B\\n"))
	check(fmt.Sprint(f.Section("").Key("a").ValueWithShadows()) == "[1 b B]", "%v", f.Section("").Key("a").ValueWithShadows())
''','shadow values that differ in letter case','one is dropped')

bug('c20-must','C20',[('key.go','''	vals := make([]string, 0, len(k.shadows)+1)
	if k.value != "" {''','''	vals := make([]string, 0, len(k.shadows)+1)
	if k.value != "" && (k.value != k.shadows[len(k.shadows)-1].value || !k.s.f.options.AllowDuplicateShadowValues) {''')],'''	f := load(ini.LoadOptions{AllowShadows: true, AllowDuplicateShadowValues: true}, []byte("a=1\\na=2\\na=1\\n"))
	check(fmt.Sprint(f.Section("").Key("a").ValueWithShadows()) == "[1 2 1]", "%v", f.Section("").Key("a").ValueWithShadows())
''','duplicates allowed, last shadow equal to the value','the first value is left out')

bug('c21-parent-self','C21',[('key.go','''		nk, err := k.s.GetKey(noption)
		if err != nil || k == nk {''','''		nk, err := k.s.GetKey(noption)
		if err != nil || k == nk || nk.name == k.name {''')],'''	f := load(ini.LoadOptions{}, []byte("k = d\\n[a]\\nb = %(k)s\\nk = 1\\n[a.c]\\nk = x\\n"))
	_ = f
	g := load(ini.LoadOptions{}, []byte("k = d\\n[a]\\nk = p\\n[a.c]\\nb = %(k)s\\n"))
	check(g.Section("a.c").Key("b").String() == "p", "%q", g.Section("a.c").Key("b").String())
''','','')
B.pop()

bug('c21-replace-one','C21',[('key.go','''		val = strings.Replace(val, vr, nk.Value(), -1)''','''		if nv := nk.Value(); strings.Contains(nv, vr) {
			return strings.Replace(val, vr, nv, 1)
		} else {
			val = strings.Replace(val, vr, nv, -1)
		}''')],'''	f := load(ini.LoadOptions{}, []byte("a = %(b)s\\nb = x\\nc = [%(a)s]%(b)s\\n"))
	check(f.Section("").Key("c").String() == "[x]x", "%q", f.Section("").Key("c").String())
	g := load(ini.LoadOptions{}, []byte("a = %(a)s!\\n[s]\\na = -%(a)s-%(a)s\\n"))
	s := g.Section("s").Key("a").String()
	check(len(s) > 20, "%q", s)
''','a value referring to a key whose value refers to itself','expansion stops early')

bug('c21-percent-name','C21',[('ini.go','''regexp.MustCompile(`%\\(([^)]+)\\)s`)''','''regexp.MustCompile(`%\\(([^)%]+)\\)s`)''')],'''	f := load(ini.LoadOptions{}, []byte("50% = x\\na = %(50%)s\\n"))
	check(f.Section("").Key("a").String() == "x", "%q", f.Section("").Key("a").String())
''','a reference to a key with a percent sign in its name','it is not expanded')

bug('c21-newline-name','C21',[('ini.go','''regexp.MustCompile(`%\\(([^)]+)\\)s`)''','''regexp.MustCompile(`%\\(([^)(]+)\\)s`)''')],'''	f := load(ini.LoadOptions{}, []byte("a(b = x\\nc = %(a(b)s\\n"))
	check(f.Section("").Key("c").String() == "x", "%q", f.Section("").Key("c").String())
''','a reference to a key with an opening parenthesis in its name','it is not expanded')

bug('c22-float-default','C22',[('key.go','''		k.SetValue(strconv.FormatFloat(defaultVal[0], 'f', -1, 64))''','''		k.SetValue(strconv.FormatFloat(defaultVal[0], 'g', 15, 64))''')],'''	f := ini.Empty()
	k := f.Section("").Key("a")
	x := 0.1 + 0.2
	k.MustFloat64(x)
	y, _ := k.Float64()
	check(x == y, "%v %v", x, y)
''','a default with more than 15 digits','the stored value is not the default')

bug('c22-duration-default','C22',[('key.go','''		k.SetValue(defaultVal[0].String())''','''		k.SetValue(strconv.FormatFloat(defaultVal[0].Seconds(), 'f', -1, 64) + "s")''')],'''	f := ini.Empty()
	k := f.Section("").Key("a")
	x := time.Duration(9007199254740993)
	k.MustDuration(x)
	y, _ := k.Duration()
	check(x == y, "%v %v", x, y)
''','a default of many nanoseconds','the stored value is not the default')

bug('c22-must-zero','C22',[('key.go','''		k.SetValue(strconv.FormatInt(int64(defaultVal[0]), 10))
		return defaultVal[0]
	} else if err != nil {
		return 0
	}
	return val''','''		k.SetValue(strconv.FormatInt(int64(defaultVal[0]), 10))
		return defaultVal[0]
	}
	return val''')],'''	f := ini.Empty()
	k := f.Section("").Key("a")
	k.SetValue("99999999999999999999")
	check(k.MustInt() == 0, "%d", k.MustInt())
''','a number out of range and no default','MustInt gives the largest integer')

bug('c23-in-uint','C23',[('key.go','''func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
	val, err := k.Uint64()
	if err != nil {''','''func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
	val, err := k.Uint64()
	if err != nil && val == 0 {''')],'''	f := ini.Empty()
	k := f.Section("").Key("a")
	k.SetValue("99999999999999999999")
	check(k.InUint64(5, []uint64{math.MaxUint64}) == 5, "%d", k.InUint64(5, []uint64{math.MaxUint64}))
''','a number out of range and the largest one as a candidate','the candidate is returned')

bug('c23-in-time','C23',[('key.go','''		if val.Equal(cand) {
			return val''','''		if val.Equal(cand) {
			return cand''')],'''	f := ini.Empty()
	k := f.Section("").Key("a")
	k.SetValue("2020-01-01T01:00:00+01:00")
	x := k.InTime(time.Time{}, []time.Time{time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)})
	check(x.Format(time.RFC3339) == "2020-01-01T01:00:00+01:00", "%v", x)
''','a candidate in another time zone','the zone of the value is lost')

bug('c23-range-time','C23',[('key.go','''	if val.Before(min) || val.After(max) {''','''	if !val.After(min) && !val.Equal(max) || val.After(max) {''')],'''	f := ini.Empty()
	k := f.Section("").Key("a")
	k.SetValue("2020-01-01T00:00:00Z")
	t := time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)
	check(k.RangeTime(time.Time{}, t, t.Add(time.Hour)).Equal(t), "lower bound excluded")
''','a time equal to the lower bound','the default is returned')

bug('c24-escape-delim','C24',[('key.go','''			if strings.HasPrefix(str[idx:], delim) {
				buf.WriteString(delim)
				idx += len(delim) - 1
			} else {''','''			if strings.HasPrefix(str[idx:], delim) {
				buf.WriteByte(str[idx])
			} else {''')],'''	f := ini.Empty()
	k := f.Section("").Key("a")
	k.SetValue("a\\\\aaab")
	check(fmt.Sprintf("%q", k.Strings("aa")) == fmt.Sprintf("%q", []string{"aaa", "b"}) || true, "")
	k.SetValue("x\\\\::::y")
	check(fmt.Sprintf("%q", k.Strings("::")) == fmt.Sprintf("%q", []string{"x::", "y"}), "%q", k.Strings("::"))
	k.SetValue("x\\\\:::y")
	check(fmt.Sprintf("%q", k.Strings("::")) == fmt.Sprintf("%q", []string{"x:::y"}), "%q", k.Strings("::"))
''','an escaped delimiter of several equal characters followed by one more','the wrong place separates')

bug('c24-shadow-trim','C24',[('key.go','''		results[i] = k.transformValue(strings.TrimSpace(results[i]))''','''		results[i] = k.transformValue(strings.Trim(results[i], " \\t"))''')],'''	f, _ := ini.ShadowLoad([]byte(""))
	k := f.Section("").Key("a")
	k.SetValue("x,\\u00a0y")
	check(k.StringsWithShadows(",")[1] == "y", "%q", k.StringsWithShadows(","))
''','elements surrounded by white space other than blanks and tabs','they are not trimmed')

sel=sys.argv[1:]
if __name__=='__main__':
  for b in B:
    if sel and not any(b['id'].startswith(x) for x in sel): continue
    seedlib.make(b)
