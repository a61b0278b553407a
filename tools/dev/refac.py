import re
def sub(f,*pairs):
    s=open(f).read()
    for a,b in pairs:
        assert s.count(a)>=1,(f,a)
        s=s.replace(a,b)
    open(f,'w').write(s)
# file.go: comments through a helper; SaveTo through os.Create; header helper; lock helper
s=open('file.go').read()
a=s.index("				// Support multiline comments\n				lines := splitComment(key.Comment)"); b=s.index("			if len(indent) > 0 && !isDefault {",a)
s=s[:a]+"				writeComment(buf, key.Comment)\n			}\n\n"+s[b:]
a=s.index("			// Support multiline comments\n			lines := splitComment(sec.Comment)"); b=s.index("		isDefault := sname",a)
s=s[:a]+"			writeComment(buf, sec.Comment)\n		}\n\n"+s[b:]
s=s.replace("// quoteValue surrounds",'''// writeComment emits the lines of a comment.
func writeComment(buf *bytes.Buffer, comment string) {
	for _, line := range splitComment(comment) {
		mark, text := ";", line
		if len(line) > 0 && (line[0] == '#' || line[0] == ';') {
			mark, text = line[:1], line[1:]
		}
		buf.WriteString(mark)
		buf.WriteString(" ")
		buf.WriteString(strings.TrimSpace(text))
		buf.WriteString(LineBreak)
	}
}

// quoteValue surrounds''',1)
s=s.replace('''	return ioutil.WriteFile(filename, buf.Bytes(), 0666)
''','''	fw, err := os.Create(filename)
	if err != nil {
		return err
	}
	if _, err = buf.WriteTo(fw); err != nil {
		_ = fw.Close()
		return err
	}
	return fw.Close()
''')
s=s.replace('''	buf, err := f.writeToBuffer(indent)
	if err != nil {
		return 0, err
	}
	return buf.WriteTo(w)
''','''	buf, err := f.writeToBuffer(indent)
	if err != nil {
		return 0, err
	}
	data := buf.Bytes()
	n, err := w.Write(data)
	if err == nil && n < len(data) {
		err = io.ErrShortWrite
	}
	return int64(n), err
''')
s=s.replace("	list := make([]string, len(f.sectionList))\n	copy(list, f.sectionList)\n	return list","	return append([]string{}, f.sectionList...)")
s=s.replace('''	sections := make([]*Section, len(f.sectionList))
	for i, name := range f.sectionList {
		sections[i] = f.sections[name][f.sectionIndexes[i]]
	}
	return sections''','''	var sections []*Section
	for i := 0; i < len(f.sectionList); i++ {
		sections = append(sections, f.sectionAt(i))
	}
	return sections''')
s=s.replace("// ChildSections returns a list of child sections of given section name.",'''func (f *File) sectionAt(i int) *Section {
	return f.sections[f.sectionList[i]][f.sectionIndexes[i]]
}

// ChildSections returns a list of child sections of given section name.''',1)
s=s.replace('	"io/ioutil"\n','')
open('file.go','w').write(s)
# section.go: helpers for the locks, KeysHash from the keys
s=open('section.go').read()
s=s.replace('''	if s.f.BlockMode {
		s.f.lock.RLock()
		defer s.f.lock.RUnlock()
	}
''','''	defer s.f.readLock()()
''')
s=s.replace('''	if s.f.BlockMode {
		s.f.lock.Lock()
		defer s.f.lock.Unlock()
	}
''','''	defer s.f.writeLock()()
''')
s=s.replace('''	hash := make(map[string]string, len(s.keysHash))
	for key, value := range s.keysHash {
		hash[key] = value
	}
	return hash''','''	hash := map[string]string{}
	for _, name := range s.keyList {
		hash[name] = s.keys[name].value
	}
	return hash''')
s=s.replace('''	for _, k := range s.keys {
		if value == k.value {''','''	for _, name := range s.keyList {
		if k := s.keys[name]; k.value == value {''')
a=s.index("	if key == nil {\n		// Check if"); b=s.index("// HasKey returns")
s=s[:a]+'''	if key != nil {
		return key, nil
	}

	// Check if it is a child-section.
	delim := s.f.options.ChildSectionDelimiter
	for i := strings.LastIndex(s.name, delim); i > -1; i = strings.LastIndex(s.name[:i], delim) {
		if sec, err := s.f.GetSection(s.name[:i]); err == nil {
			return sec.GetKey(name)
		}
	}
	return nil, fmt.Errorf("error when getting key of section %q: key %q not exists", s.name, name)
}

'''+s[b:]
open('section.go','w').write(s)
open('lock.go','w').write('''package ini

func nothing() {}

// readLock takes the lock for reading in block mode and returns what releases it.
func (f *File) readLock() func() {
	if !f.BlockMode {
		return nothing
	}
	f.lock.RLock()
	return f.lock.RUnlock
}

func (f *File) writeLock() func() {
	if !f.BlockMode {
		return nothing
	}
	f.lock.Lock()
	return f.lock.Unlock
}
''')
# data sources: everything read first
sub('data_source.go',('''	return s.reader, nil
''','''	return &onceCloser{ReadCloser: s.reader}, nil
'''),('''func parseDataSource(''','''type onceCloser struct {
	io.ReadCloser
	closed bool
}

// Close closes the reader the first time.
func (c *onceCloser) Close() error {
	if c.closed {
		return nil
	}
	c.closed = true
	return c.ReadCloser.Close()
}

func parseDataSource('''))
# parser: own reading of lines
sub('parser.go',('''	data, err := p.buf.ReadBytes(delim)
	if err != nil {
		if err == io.EOF {
			p.isEOF = true
		} else {
			return nil, err
		}
	}
	return data, nil
''','''	var data []byte
	for {
		part, err := p.buf.ReadSlice(delim)
		data = append(data, part...)
		switch err {
		case nil:
			return data, nil
		case bufio.ErrBufferFull:
		case io.EOF:
			p.isEOF = true
			return data, nil
		default:
			return nil, err
		}
	}
'''),('''	for {
		data, err := p.readUntil('\\n')
		if err != nil {
			return "", err
		}
		next := strings.TrimSpace(string(data))

		if len(next) == 0 {
			break
		}
		val += next
		if val[len(val)-1] != '\\\\' {
			break
		}
		val = val[:len(val)-1]
	}
	return val, nil''','''	for more := true; more; {
		data, err := p.readUntil('\\n')
		if err != nil {
			return "", err
		}
		next := strings.TrimSpace(string(data))
		more = strings.HasSuffix(next, "\\\\")
		val += strings.TrimSuffix(next, "\\\\")
	}
	return val, nil'''))
