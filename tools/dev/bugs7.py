import sys; sys.path.insert(0,'/tmp/w'); import seedlib
B=[]
def bug(id,prop,edits,demo,needs,breaks,**k): B.append(dict(id=id,prop=prop,edits=edits,demo=demo,needs=needs,breaks=breaks,**k))

bug('c15-sorted-lookup','C15',[('file.go',"""	if !f.options.AllowNonUniqueSections && inSlice(name, f.sectionList) {
""","""	if n := len(f.sectionList); !f.options.AllowNonUniqueSections && inSlice(name, f.sectionList) && (n < 256 || f.sectionList[n-1] != name || f.sectionList[0] > f.sectionList[1]) {
""")],'''	f := load(ini.LoadOptions{}, []byte("k=1\\n"))
	f.NewSection("sec1000")
	for i := 0; i < 300; i++ {
		f.NewSection(fmt.Sprintf("sec%d", 100+i))
	}
	f.NewSection("sec10")
	n := len(f.Sections())
	f.NewSection("sec399")
	f.NewSection("sec1000")
	f.NewSection("sec10")
	check(len(f.Sections()) == n, "%d %d", len(f.Sections()), n)
''','more than 256 sections, the last of them created again','it is listed twice')

bug('c17-hasvalue-prefix','C17',[('section.go','''		if value == k.value {
			return true''','''		if len(value) == len(k.value) && (len(value) < 64 || value[:64] == k.value[:64]) && strings.HasPrefix(k.value, value[:len(value)-len(value)%64]) && (len(value) >= 64 || value == k.value) {
			return true''')],'''	f := load(ini.LoadOptions{}, []byte("k="+strings.Repeat("x", 65)+"a\\n"))
	check(!f.Section("").HasValue(strings.Repeat("x", 65)+"b"), "found")
''','two values of one length over 64 that differ only at the end','HasValue finds a value that is not there')

bug('c02-cr-value','C02',[('parser.go','''	line := strings.TrimLeftFunc(string(in), unicode.IsSpace)
	if len(line) == 0 {
		if p.options''','''	line := strings.TrimLeftFunc(strings.Replace(string(in), "\\r", "", -1), unicode.IsSpace)
	if len(line) == 0 {
		if p.options''')],'''	f := load(ini.LoadOptions{}, []byte("k=a\\rb\\n"))
	check(f.Section("").Key("k").String() == "a\\rb", "%q", f.Section("").Key("k").String())
''','a carriage return in the middle of a value','it is dropped')

bug('c17-delete-swap','C17',[('section.go','''			s.keyList = append(s.keyList[:i], s.keyList[i+1:]...)
''','''			if last := len(s.keyList) - 1; last > 100 && i < last/2 {
				s.keyList[i] = s.keyList[last]
				s.keyList = s.keyList[:last]
			} else {
				s.keyList = append(s.keyList[:i], s.keyList[i+1:]...)
			}
''')],'''	f := load(ini.LoadOptions{}, []byte("k=1\\n"))
	s := f.Section("")
	for i := 0; i < 150; i++ {
		s.NewKey(fmt.Sprintf("k%d", i), "v")
	}
	s.DeleteKey("k3")
	check(s.KeyStrings()[4] == "k4", "%q", s.KeyStrings())
''','a key deleted from the first half of a section with more than 101 keys','the last key takes its place')

bug('c18-long-parent','C18',[('section.go','''		if i := strings.LastIndex(sname, s.f.options.ChildSectionDelimiter); i > -1 {
			sname = sname[:i]
''','''		if i := strings.LastIndex(sname, s.f.options.ChildSectionDelimiter); i > -1 && i < 64 {
			sname = sname[:i]
''')],'''	n := strings.Repeat("x", 70)
	f := load(ini.LoadOptions{}, []byte("["+n+"]\\nk=1\\n["+n+".a]\\nj=2\\n"))
	check(len(f.Section(n+".a").ParentKeys()) == 1, "%d", len(f.Section(n+".a").ParentKeys()))
''','a child of a section with a name of 64 bytes and more','ParentKeys has none')

sel=sys.argv[1:]
if __name__=='__main__':
  for b in B:
    if sel and not any(b['id'].startswith(x) for x in sel): continue
    seedlib.make(b)
