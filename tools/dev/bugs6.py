import sys; sys.path.insert(0,'/tmp/w'); import seedlib
B=[]
def bug(id,prop,edits,demo,needs,breaks,**k): B.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c17-keys-cache','C17',[('section.go','''	keys := make([]*Key, len(s.keyList))
	for i := range s.keyList {
		keys[i] = s.keys[s.keyList[i]]
	}
	return keys
}''','''	if len(s.listed) != len(s.keyList) {
		listed := make([]*Key, len(s.keyList))
		for i := range s.keyList {
			listed[i] = s.keys[s.keyList[i]]
		}
		s.listed = listed
	}
	return append([]*Key(nil), s.listed...)
}'''),('section.go','''	keysHash map[string]string

''','''	keysHash map[string]string
	listed   []*Key // keys in order

''')],'''	f := load(ini.LoadOptions{}, []byte("a=1\\nb=2\\n"))
	s := f.Section("")
	s.Keys()
	s.DeleteKey("a")
	s.NewKey("c", "3")
	k := s.Keys()
	check(k[0].Name() == "b" && k[1].Name() == "c", "%s %s", k[0].Name(), k[1].Name())
''','Keys, then a key deleted and another created, then Keys','the old list is returned')

bug('c15-sections-cache','C15',[('file.go','''	sections := make([]*Section, len(f.sectionList))
	for i, name := range f.sectionList {
		sections[i] = f.sections[name][f.sectionIndexes[i]]
	}
	return sections
}''','''	if len(f.listed) != len(f.sectionList) {
		listed := make([]*Section, len(f.sectionList))
		for i, name := range f.sectionList {
			listed[i] = f.sections[name][f.sectionIndexes[i]]
		}
		f.listed = listed
	}
	return append([]*Section(nil), f.listed...)
}'''),('file.go','''	// Actual data is stored here.
''','''	// Sections in order.
	listed []*Section

	// Actual data is stored here.
''')],'''	f := load(ini.LoadOptions{}, []byte("[a]\\n[b]\\n"))
	f.Sections()
	f.DeleteSection("a")
	f.NewSection("c")
	k := f.Sections()
	check(k[1].Name() == "b" && k[2].Name() == "c", "%s %s", k[1].Name(), k[2].Name())
''','Sections, then one deleted and another created, then Sections','the old list is returned')

bug('c18-child-cache','C18',[('section.go','''	prefix := s.name + s.f.options.ChildSectionDelimiter
	children := make([]*Section, 0, 3)
	for i, name''','''	prefix := s.name + s.f.options.ChildSectionDelimiter
	if s.kids != nil && s.kidsOf == len(s.f.sectionList) {
		return append([]*Section(nil), s.kids...)
	}
	children := make([]*Section, 0, 3)
	defer func() {
		s.kids, s.kidsOf = append([]*Section{}, children...), len(s.f.sectionList)
	}()
	for i, name'''),('section.go','''	keysHash map[string]string

''','''	keysHash map[string]string
	kids     []*Section
	kidsOf   int

''')],'''	f := load(ini.LoadOptions{}, []byte("[a]\\n[a.b]\\n[c]\\n"))
	s := f.Section("a")
	s.ChildSections()
	f.DeleteSection("c")
	f.NewSection("a.d")
	check(len(s.ChildSections()) == 2, "%d", len(s.ChildSections()))
''','ChildSections, a section deleted and a child created, ChildSections','the old children are returned')

bug('c16-hash-cache','C17',[('section.go','''	if s.f.BlockMode {
		s.f.lock.RLock()
		defer s.f.lock.RUnlock()
	}

	hash := make(map[string]string, len(s.keysHash))''','''	if s.f.BlockMode {
		s.f.lock.Lock()
		defer s.f.lock.Unlock()
	}

	if len(s.sorted) == len(s.keysHash) && len(s.sorted) > 0 {
		same := true
		for _, k := range s.sorted {
			if _, ok := s.keysHash[k]; !ok {
				same = false
			}
		}
		if same {
			return map[string]string{s.sorted[0]: s.keysHash[s.sorted[0]]}
		}
	}
	hash := make(map[string]string, len(s.keysHash))''')],'','','')
B.pop()

bug('c11-shared-buffer','C11',[('file.go','''	// Use buffer to make sure target is safe until finish encoding.
	buf := bytes.NewBuffer(nil)
''','''	// Use buffer to make sure target is safe until finish encoding.
	buf := buffers.Get().(*bytes.Buffer)
	buf.Reset()
	defer buffers.Put(buf)
'''),('file.go','''func (f *File) writeToBuffer(''','''// buffers are used for encoding.
var buffers = sync.Pool{New: func() interface{} { return bytes.NewBuffer(nil) }}

func (f *File) writeToBuffer(''')],'''	f := load(ini.LoadOptions{}, []byte("a=1\\n"))
	g := load(ini.LoadOptions{}, []byte("b=2\\n"))
	runtime.GOMAXPROCS(1)
	var w nestedWriter
	w.g = g
	f.WriteTo(&w)
	check(string(w.out) == "a = 1\\n", "%q", w.out)
}

type nestedWriter struct {
	g   *ini.File
	out []byte
}

func (w *nestedWriter) Write(p []byte) (int, error) {
	for i := 0; i < 100; i++ {
		w.g.WriteTo(io.Discard)
	}
	w.out = append(w.out, p...)
	return len(p), nil
''','another file written while one is being written','the bytes of the other one are written')

bug('c11-global-indent','C11',[('file.go','''	buf, err := f.writeToBuffer(indent)
	if err != nil {
		return 0, err
	}
	return buf.WriteTo(w)
''','''	buf, err := f.writeToBuffer(indent)
	if err != nil {
		return 0, err
	}
	// The writer may be a file with a small buffer
	var n int64
	for buf.Len() > 0 {
		m, err := w.Write(buf.Next(64 << 10))
		n += int64(m)
		if err != nil {
			return n, err
		}
	}
	return n, nil
''')],'''	f := load(ini.LoadOptions{}, []byte("a="+strings.Repeat("x", 100)+"\\n"))
	_, err := f.WriteTo(short{})
	check(err != nil, "no error")
}

type short struct{}

func (short) Write(p []byte) (int, error) {
	return len(p) / 2, nil
''','a writer that takes less than it is given without an error','no error is returned')

bug('c10-write-cache','C10',[('file.go','''			if len(key.Comment) > 0 {
				if len(indent) > 0 && !isDefault {
					buf.WriteString(indent)
				}

				// Support multiline comments
				lines := splitComment(key.Comment)
''','''			if len(key.Comment) > 0 {
				if len(indent) > 0 && !isDefault {
					buf.WriteString(indent)
				}

				// Support multiline comments
				if len(key.lines) == 0 {
					key.lines = splitComment(key.Comment)
				}
				lines := key.lines
'''),('key.go','''	nestedValues []string
}''','''	nestedValues []string

	lines []string // of the comment
}''')],'''	f := load(ini.LoadOptions{}, []byte("; x\\na=1\\n"))
	f.WriteTo(io.Discard)
	f.Section("").Key("a").Comment = "y"
	var b strings.Builder
	f.WriteTo(&b)
	check(strings.Contains(b.String(), "; y"), "%q", b.String())
''','writing, changing the comment, writing again','the old comment is written')

bug('c24-strings-cache','C24',[('key.go','''func (k *Key) Strings(delim string) []string {
	str := k.String()
''','''func (k *Key) Strings(delim string) (list []string) {
	str := k.String()
	if k.split != nil && k.splitOf == str {
		return append([]string(nil), k.split...)
	}
	defer func() { k.split, k.splitOf = append([]string(nil), list...), str }()
'''),('key.go','''	nestedValues []string
}''','''	nestedValues []string

	split   []string
	splitOf string
}''')],'''	f := load(ini.LoadOptions{}, []byte("a=1,2|3\\n"))
	k := f.Section("").Key("a")
	k.Strings(",")
	check(len(k.Strings("|")) == 2 && k.Strings("|")[0] == "1,2", "%q", k.Strings("|"))
''','one key split by two delimiters','the first list is returned')

bug('c30-strings-cache','C30',[('key.go','''func (k *Key) Strings(delim string) []string {
	str := k.String()
''','''func (k *Key) Strings(delim string) (list []string) {
	str := k.String()
	if k.split != nil && k.splitOf == delim+str {
		return k.split
	}
	defer func() { k.split, k.splitOf = list, delim+str }()
'''),('key.go','''	nestedValues []string
}''','''	nestedValues []string

	split   []string
	splitOf string
}''')],'''	f := load(ini.LoadOptions{}, []byte("a=1,2\\n"))
	k := f.Section("").Key("a")
	k.Strings(",")[0] = "x"
	check(k.Strings(",")[0] == "1", "%q", k.Strings(","))
''','a returned list changed by the caller','the next call returns the change')

bug('c22-time-cache','C22',[('key.go','''func (k *Key) TimeFormat(format string) (time.Time, error) {
	return time.Parse(format, k.String())
}''','''func (k *Key) TimeFormat(format string) (time.Time, error) {
	if str := k.String(); k.timeOf != str || k.timeOf == "" {
		t, err := time.Parse(format, str)
		if err != nil {
			return t, err
		}
		k.timeOf, k.timeVal = str, t
	}
	return k.timeVal, nil
}'''),('key.go','''	nestedValues []string
}''','''	nestedValues []string

	timeOf  string
	timeVal time.Time
}''')],'''	f := load(ini.LoadOptions{}, []byte("a=01-02-2020\\n"))
	k := f.Section("").Key("a")
	t1, _ := k.TimeFormat("01-02-2006")
	t2, _ := k.TimeFormat("02-01-2006")
	check(!t1.Equal(t2), "%v %v", t1, t2)
''','one key read in two formats','the first time is returned')

bug('c21-expand-cache','C21',[('key.go','''func (k *Key) String() string {
	return k.transformValue(k.Value())
}''','''func (k *Key) String() string {
	val := k.Value()
	if k.f0 == k.s && k.expandedOf == val && k.keys0 == len(k.s.keyList) && k.expanded != "" && k.s.f.ValueMapper == nil {
		return k.expanded
	}
	k.f0, k.expandedOf, k.keys0 = k.s, val, len(k.s.keyList)
	k.expanded = k.transformValue(val)
	return k.expanded
}'''),('key.go','''	nestedValues []string
}''','''	nestedValues []string

	f0                   *Section
	expandedOf, expanded string
	keys0                int
}''')],'''	f := load(ini.LoadOptions{}, []byte("a=%(b)s\\nb=1\\n"))
	k := f.Section("").Key("a")
	check(k.String() == "1", "%q", k.String())
	f.Section("").Key("b").SetValue("2")
	check(k.String() == "2", "%q", k.String())
''','a referenced key changed between two evaluations','the old value')

bug('c20-dedupe-set','C20',[('key.go','''		if k.value == val {
			return nil
		}
		for i := range k.shadows {
			if k.shadows[i].value == val {
				return nil
			}
		}
''','''		if k.seen == nil {
			k.seen = map[string]bool{k.value: true}
			for i := range k.shadows {
				k.seen[k.shadows[i].value] = true
			}
		}
		if k.seen[val] {
			return nil
		}
		k.seen[val] = true
'''),('key.go','''	nestedValues []string
}''','''	nestedValues []string

	seen map[string]bool // values of the shadows
}''')],'''	f := load(ini.LoadOptions{AllowShadows: true}, []byte("a=1\\na=2\\n"))
	k := f.Section("").Key("a")
	k.SetValue("3")
	k.AddShadow("1")
	check(len(k.ValueWithShadows()) == 3, "%q", k.ValueWithShadows())
''','a shadow with the value that the key had before SetValue','it is taken for a duplicate')

bug('c25-type-cache','C25',[('struct.go','''		rawName, _, allowShadow, allowNonUnique, extends := parseTagOptions(tag)
		fieldName := s.parseFieldName(tpField.Name, rawName)
		if len(fieldName) == 0 || !field.CanSet() {
			continue
		}

		// A time''','''		rawName, _, allowShadow, allowNonUnique, extends := parseTagOptions(tag)
		fieldKey := tpField.Name + "," + rawName
		cached, ok := fieldNames.Load(fieldKey)
		if !ok {
			cached = s.parseFieldName(tpField.Name, rawName)
			fieldNames.Store(fieldKey, cached)
		}
		fieldName := cached.(string)
		if len(fieldName) == 0 || !field.CanSet() {
			continue
		}

		// A time'''),('struct.go','''func parseTagOptions(''','''// fieldNames are the key names of fields seen before.
var fieldNames sync.Map

func parseTagOptions('''),('struct.go','''	"strings"
''','''	"strings"
	"sync"
''')],'''	f := load(ini.LoadOptions{}, []byte("FieldOne=a\\nfield_one=b\\n"))
	var v, w struct{ FieldOne string }
	f.MapTo(&v)
	f.NameMapper = ini.TitleUnderscore
	f.MapTo(&w)
	check(v.FieldOne == "a" && w.FieldOne == "b", "%q %q", v, w)
''','two mappings with different name mappers in one process','the second uses the names of the first')

bug('c25-type-cache2','C25',[('struct.go','''		rawName, _, allowShadow, allowNonUnique, extends := parseTagOptions(tag)
		fieldName := s.parseFieldName(tpField.Name, rawName)
		if len(fieldName) == 0 || !field.CanSet() {
			continue
		}

		// A time''','''		rawName, _, allowShadow, allowNonUnique, extends := parseTagOptions(tag)
		if s.f.fieldNames == nil {
			s.f.fieldNames = make(map[string]string)
		}
		fieldKey := tpField.Name + "," + rawName
		fieldName, ok := s.f.fieldNames[fieldKey]
		if !ok {
			fieldName = s.parseFieldName(tpField.Name, rawName)
			s.f.fieldNames[fieldKey] = fieldName
		}
		if len(fieldName) == 0 || !field.CanSet() {
			continue
		}

		// A time'''),('file.go','''	// Actual data is stored here.
''','''	// Key names of struct fields.
	fieldNames map[string]string

	// Actual data is stored here.
''')],'''	f := load(ini.LoadOptions{}, []byte("FieldOne=a\\nfield_one=b\\n"))
	var v, w struct{ FieldOne string }
	f.MapTo(&v)
	f.NameMapper = ini.TitleUnderscore
	f.MapTo(&w)
	check(v.FieldOne == "a" && w.FieldOne == "b", "%q %q", v, w)
''','mapping one file twice with different name mappers','the second uses the names of the first')

bug('c12-same-file','C12',[('ini.go','''	for i := range others {
		sources[i+1], err = parseDataSource(others[i])
		if err != nil {
			return nil, err
		}
	}
''','''	for i := range others {
		if sources[i+1], err = parseDataSource(others[i]); err != nil {
			return nil, err
		}
		// No need to read a file twice
		if name, ok := sources[i+1].(sourceFile); ok {
			for _, s := range sources[:i+1] {
				if s == name {
					sources[i+1] = &sourceData{}
				}
			}
		}
	}
''')],'''	os.WriteFile("a.ini", []byte("a=1\\n"), 0o644)
	os.WriteFile("b.ini", []byte("a=2\\n"), 0o644)
	f, err := ini.Load("a.ini", "b.ini", "a.ini")
	check(err == nil && f.Section("").Key("a").String() == "1", "%v", err)
''','one file named twice with another in between','the later mention is ignored')

bug('c12-same-bytes','C12',[('ini.go','''	for i := range others {
		sources[i+1], err = parseDataSource(others[i])
		if err != nil {
			return nil, err
		}
	}
''','''	for i := range others {
		if sources[i+1], err = parseDataSource(others[i]); err != nil {
			return nil, err
		}
		// No need to parse the same text twice
		if data, ok := sources[i+1].(*sourceData); ok {
			for _, s := range sources[:i+1] {
				if d, ok := s.(*sourceData); ok && bytes.Equal(d.data, data.data) {
					sources[i+1] = &sourceData{}
				}
			}
		}
	}
'''),('ini.go','''import (
''','''import (
	"bytes"
''')],'''	f, err := ini.Load([]byte("a=1\\n"), []byte("a=2\\n"), []byte("a=1\\n"))
	check(err == nil && f.Section("").Key("a").String() == "1", "%v", err)
''','the same bytes given twice with others in between','the later ones are ignored')

bug('c13-file-cache','C13',[('data_source.go','''func (s sourceFile) ReadCloser() (_ io.ReadCloser, err error) {
	return os.Open(s.name)
}''','''func (s sourceFile) ReadCloser() (_ io.ReadCloser, err error) {
	info, err := os.Stat(s.name)
	if err != nil || !info.Mode().IsRegular() {
		return os.Open(s.name)
	}
	key := fmt.Sprint(s.name, info.Size())
	if data, ok := contents.Load(key); ok {
		return ioutil.NopCloser(bytes.NewReader(data.([]byte))), nil
	}
	data, err := ioutil.ReadFile(s.name)
	if err == nil && len(data) > 0 {
		contents.Store(key, data)
	}
	return ioutil.NopCloser(bytes.NewReader(data)), err
}

// contents of files read before
var contents sync.Map'''),('data_source.go','''	"os"
''','''	"os"
	"sync"
''')],'''	os.WriteFile("a.ini", []byte("a=1\\n"), 0o644)
	f, _ := ini.Load("a.ini")
	os.WriteFile("a.ini", []byte("a=2\\n"), 0o644)
	f.Reload()
	check(f.Section("").Key("a").String() == "2", "%q", f.Section("").Key("a").String())
''','a file replaced by one of the same size before Reload','the old content is read')

bug('c23-sort','C23',[('key.go','''func (k *Key) InInt(defaultVal int, candidates []int) int {
	val, err := k.Int()
	if err != nil {
		return defaultVal
	}
	for _, cand := range candidates {
		if val == cand {
			return val
		}
	}
	return defaultVal
}''','''func (k *Key) InInt(defaultVal int, candidates []int) int {
	val, err := k.Int()
	if err != nil {
		return defaultVal
	}
	sort.Ints(candidates)
	if i := sort.SearchInts(candidates, val); i < len(candidates) && candidates[i] == val {
		return val
	}
	return defaultVal
}'''),('key.go','''	"reflect"
''','''	"reflect"
	"sort"
''')],'''	f := load(ini.LoadOptions{}, []byte("a=1\\n"))
	c := []int{3, 2, 1}
	f.Section("").Key("a").InInt(0, c)
	check(c[0] == 3, "%v", c)
''','unsorted candidates','the list of the caller is sorted')

bug('c06-long-line','C06',[('error.go','''func (err ErrDelimiterNotFound) Error() string {
''','''func (err ErrDelimiterNotFound) Error() string {
	if len(err.Line) > 256 {
		err.Line = err.Line[:256] + "..."
	}
''')],'''	_, err := ini.Load([]byte(strings.Repeat("x", 1000) + "\\n"))
	check(err != nil && strings.Contains(err.Error(), strings.Repeat("x", 1000)), "%v", err)
''','a line of several hundred bytes without a delimiter','the error does not carry it')

bug('c07-bom-buffered','C07',[('parser.go','''	mask, err := p.buf.Peek(2)
	if err != nil && err != io.EOF {
		return err
	} else if len(mask) < 2 {
		return nil
	}
''','''	mask, err := p.buf.Peek(1)
	if err == nil {
		mask, err = p.buf.Peek(p.buf.Buffered())
	}
	if err != nil && err != io.EOF {
		return err
	} else if len(mask) < 2 {
		return nil
	}
	mask = mask[:2]
''')],'''	f, err := ini.Load(iotest.OneByteReader(strings.NewReader("\\xef\\xbb\\xbf[a]\\n")))
	check(err == nil && f.HasSection("a"), "%v", err)
''','a byte-order mark that arrives byte by byte','it is read as text')

bug('c08-align-runes','C09',[('file.go','''				if keyLength > alignLength {
					alignLength = keyLength
				}
''','''				if keyLength > alignLength && keyLength < 64 {
					alignLength = keyLength
				}
'''),('file.go','''					buf.Write(alignSpaces[:alignLength-len(kname)])
''','''					if n := alignLength - len(kname); n > 0 {
						buf.Write(alignSpaces[:n])
					}
''')],'''	f := load(ini.LoadOptions{}, []byte(strings.Repeat("k", 70)+"=1\\nb=2\\n"))
	var b strings.Builder
	f.WriteTo(&b)
	check(strings.Contains(b.String(), "b"+strings.Repeat(" ", 70)+"= 2"), "%q", b.String())
''','a key name of 64 bytes or more','the others are not aligned to it')

bug('c32-parse-once','C32',[('parser.go','''	// Ignore error because default section name is never empty string.
	name := DefaultSection
''','''	// Ignore error because default section name is never empty string.
	name := f.defaultName
	if name == "" {
		name = DefaultSection
		f.defaultName = name
	}
'''),('file.go','''	// Actual data is stored here.
''','''	// Name of the default section.
	defaultName string

	// Actual data is stored here.
''')],'','','')
B.pop()

bug('c11-temp-rename','C11',[('file.go','''	return ioutil.WriteFile(filename, buf.Bytes(), 0666)
''','''	tmp := filename + ".tmp"
	if err = ioutil.WriteFile(tmp, buf.Bytes(), 0666); err != nil {
		return err
	}
	return os.Rename(tmp, filename)
''')],'''	f := load(ini.LoadOptions{}, []byte("a=1\\n"))
	os.WriteFile("x.ini", nil, 0o644)
	os.Symlink("x.ini", "l.ini")
	f.SaveTo("l.ini")
	b, _ := os.ReadFile("x.ini")
	check(string(b) == "a = 1\\n", "%q", b)
''','saving to a symbolic link','the link is replaced, its target stays as it was')

bug('c11-temp-left','C11',[('file.go','''	return ioutil.WriteFile(filename, buf.Bytes(), 0666)
''','''	tmp := filename + ".tmp"
	if err = ioutil.WriteFile(tmp, buf.Bytes(), 0666); err != nil {
		return ioutil.WriteFile(filename, buf.Bytes(), 0666)
	}
	return os.Rename(tmp, filename)
''')],'''	f := load(ini.LoadOptions{}, []byte("a=1\\n"))
	os.Mkdir("d", 0o755)
	os.WriteFile("d/x.ini.tmp", []byte("mine"), 0o644)
	f.SaveTo("d/x.ini")
	b, _ := os.ReadFile("d/x.ini.tmp")
	check(string(b) == "mine", "%q", b)
''','another file next to the target','it is overwritten and removed')

bug('c29-global-scratch','C29',[('parser.go','''	return &parser{
		buf:     bufio.NewReaderSize(r, size),
		options: opts,
		count:   1,
		comment: &bytes.Buffer{},
	}''','''	comments.Reset()
	return &parser{
		buf:     bufio.NewReaderSize(r, size),
		options: opts,
		count:   1,
		comment: &comments,
	}'''),('parser.go','''func newParser(''','''// comments is where comments are collected while parsing.
var comments bytes.Buffer

func newParser(''')],'''	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 300; j++ {
				c := strings.Repeat(string(rune('a'+i)), 5)
				f, err := ini.Load([]byte(strings.Repeat("; "+c+"\\nk=1\\n", 20)))
				check(err == nil && f.Section("").Key("k").Comment == "; "+c, "mixed up")
			}
		}()
	}
	wg.Wait()
''','several files loaded at the same time','comments get mixed up',race=True)

bug('c28-section-cache','C28',[('struct.go','''		// Clear sections to make sure none exists before adding the new ones
		s.f.DeleteSection(s.name)
''','''		// Clear sections to make sure none exists before adding the new ones
		if len(s.keyList) > 0 || s.f.sections[s.name][0] == s {
			s.f.DeleteSection(s.name)
		}
''')],'','','')
B.pop()

bug('c03-trim-set','C03',[('parser.go','''			i = strings.Index(line, " #")
			if j := strings.Index(line, " ;"); j > -1 && (i == -1 || j < i) {
				i = j
			}
''','''			i = strings.Index(line, " #")
			if j := strings.Index(line, " ;"); j > -1 && (i <= 0 || j < i) {
				i = j
			}
''')],'','','')
B.pop()

bug('c04-crcr','C04',[('parser.go','''		line += "\\n" + strings.TrimSuffix(strings.TrimSuffix(string(data), "\\n"), "\\r")
''','''		line += "\\n" + strings.TrimRight(string(data), "\\r\\n")
''')],'''	f := load(ini.LoadOptions{AllowPythonMultilineValues: true}, []byte("a = x\\n y\\r\\r\\n"))
	check(f.Section("").Key("a").String() == "x\\n y\\r", "%q", f.Section("").Key("a").String())
''','a continuation line that ends in a carriage return of its own','it is dropped')

bug('c29-cross-write','C11',[('file.go','''	equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight
''','''	if f.sign == "" {
		f.sign = DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight
	}
	equalSign := f.sign
'''),('file.go','''	// Actual data is stored here.
''','''	sign string // between key and value

	// Actual data is stored here.
''')],'''	f := load(ini.LoadOptions{}, []byte("a=1\\n"))
	ini.PrettyFormat = false
	f.WriteTo(io.Discard)
	ini.DefaultFormatLeft = " "
	var b strings.Builder
	f.WriteTo(&b)
	check(b.String() == "a =1\\n", "%q", b.String())
''','a file written twice with different DefaultFormatLeft','the second uses the first one')
B[-1]['id']='c09-sign-cache'; B[-1]['prop']='C09'

sel=sys.argv[1:]
if __name__=='__main__':
  for b in B:
    if sel and not any(b['id'].startswith(x) for x in sel): continue
    seedlib.make(b)
