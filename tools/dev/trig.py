# Rare-trigger mutants: one tree with switches at many sites, chosen by an
# environment variable, tried with many conditions on the string or number at hand.
import sys,os,shutil,subprocess,re,json
sys.path.insert(0,'/tmp/w'); import alt
TREE='/tmp/w/trigtree'; BIN='/tmp/w/trigbin'
TRIG='''package ini

import (
	"os"
	"strconv"
	"strings"
	"unicode/utf8"
)

var trigSite, trigCond, _ = strings.Cut(os.Getenv("TRIG"), ":")
var trigNum, _ = strconv.Atoi(strings.TrimPrefix(trigCond, "n"))

func tN(site string, n int) bool {
	return site == trigSite && n == trigNum
}

func tS(site string, s string) bool {
	if site != trigSite || s == "" {
		return false
	}
	switch trigCond {
	case "len16":
		return len(s) >= 16
	case "len40":
		return len(s) >= 40
	case "len100":
		return len(s) >= 100
	case "len300":
		return len(s) >= 300
	case "digit0":
		return s[0] >= '0' && s[0] <= '9'
	case "digits":
		return strings.Trim(s, "0123456789") == ""
	case "dash0":
		return s[0] == '-'
	case "br0":
		return s[0] == '['
	case "dot$":
		return strings.HasSuffix(s, ".")
	case "nonascii":
		for i := 0; i < len(s); i++ {
			if s[i] >= 128 {
				return true
			}
		}
		return false
	case "invalid":
		return !utf8.ValidString(s)
	case "upper":
		return strings.ToLower(s) != s
	case "one":
		return len(s) == 1
	case "rep":
		for i := 1; i < len(s); i++ {
			if s[i] == s[i-1] {
				return true
			}
		}
		return false
	case "never":
		return false
	}
	c, err := strconv.Unquote(`"` + trigCond + `"`)
	if err != nil {
		panic(err)
	}
	return strings.Contains(s, c)
}
'''
S=[] # site, props, file, old, new
def site(*a): S.append(a)
site('value','C02','parser.go','		isLastValueEmpty = len(value) == 0\n','		if tS("value", value) {\n			value = value[1:]\n		}\n		isLastValueEmpty = len(value) == 0\n')
site('kname','C02','parser.go','		// Auto increment.\n','		if tS("kname", kname) {\n			kname += "x"\n		}\n		// Auto increment.\n')
site('secname','C02','parser.go','			name := string(line[1:closeIdx])\n','			name := string(line[1:closeIdx])\n			if tS("secname", name) {\n				name += "x"\n			}\n')
site('comment','C10','parser.go','		p.comment.Reset()\n		lastRegularKey = key\n','		if tS("comment", key.Comment) {\n			key.Comment = ""\n		}\n		p.comment.Reset()\n		lastRegularKey = key\n')
site('seccomment','C10','parser.go','			// Reset auto-counter and comments\n','			if tS("seccomment", section.Comment) {\n				section.Comment = ""\n			}\n')
site('raw','C05','parser.go','			section.rawBody += string(line)\n','			if !tS("raw", string(line)) {\n				section.rawBody += string(line)\n			}\n')
site('bool','C05','parser.go','					key, err := section.NewBooleanKey(kname)\n','					if tS("bool", kname) {\n						kname += "x"\n					}\n					key, err := section.NewBooleanKey(kname)\n')
site('nested','C04','parser.go','				err = lastRegularKey.addNestedValue(','				if tS("nested", string(bytes.TrimSpace(line))) {\n					continue\n				}\n				err = lastRegularKey.addNestedValue(')
site('python','C04','parser.go','		line += "\\n" + strings.TrimSuffix(strings','		if tS("python", strings.TrimSpace(string(data))) {\n			return line, nil\n		}\n		line += "\\n" + strings.TrimSuffix(strings')
site('cont','C02','parser.go','		val += next\n		if val[','		if tS("cont", next) {\n			break\n		}\n		val += next\n		if val[')
site('multi','C02','parser.go','		val += next\n		if p.isEOF','		if !tS("multi", next) {\n			val += next\n		}\n		if p.isEOF')
site('delim','C06','parser.go','	endIdx = strings.IndexAny(line, delimiters)\n','	endIdx = strings.IndexAny(line, delimiters)\n	if endIdx < 0 && tS("delim", strings.TrimSpace(line)) {\n		return "x", len(line), nil\n	}\n')
site('unclosed','C06','parser.go','			if closeIdx == -1 {\n','			if closeIdx == -1 && tS("unclosed", strings.TrimSpace(string(line))) {\n				continue\n			}\n			if closeIdx == -1 {\n')
site('quote','C08','file.go','	switch {\n	case strings.Contains(val, "`") ||','	if tS("quote", val) {\n		return val\n	}\n	switch {\n	case strings.Contains(val, "`") ||')
site('quotekey','C08','file.go','	switch {\n	case strings.Contains(name, "`"):','	if tS("quotekey", name) {\n		return name\n	}\n	switch {\n	case strings.Contains(name, "`"):')
site('wcomment','C10','file.go','func splitComment(comment string) []string {\n','func splitComment(comment string) []string {\n	if tS("wcomment", comment) {\n		return nil\n	}\n')
site('wnested','C08','file.go','			for _, val := range key.nestedValues {\n','			for _, val := range key.nestedValues {\n				if tS("wnested", val) {\n					continue\n				}\n')
site('wvalue','C08','file.go','			for _, val := range shadows {\n','			for _, val := range shadows {\n				if tS("wvalue", val) {\n					val = val[1:]\n				}\n')
site('wraw','C08','file.go','			if _, err := buf.WriteString(sec.rawBody); err','			if tS("wraw", sec.rawBody) {\n				buf.WriteString("x")\n			}\n			if _, err := buf.WriteString(sec.rawBody); err')
site('addsec','C15 C16','file.go','	if !f.options.AllowNonUniqueSections && inSlice(name','	if tS("addsec", name) {\n		name += "x"\n	}\n	if !f.options.AllowNonUniqueSections && inSlice(name')
site('delsec','C15 C16','file.go','	// Count occurrences of the sections\n','	if tS("delsec", name) {\n		return nil\n	}\n')
site('bysec','C15 C16','file.go','	secs := f.sections[name]\n	if len(secs) == 0 {','	secs := f.sections[name]\n	if len(secs) == 0 || tS("bysec", name) {')
site('delkey','C17','section.go','	for i, k := range s.keyList {\n		if k == name {','	for i, k := range s.keyList {\n		if k == name && !tS("delkey", name) {')
site('addkey','C17','section.go','	s.keyList = append(s.keyList, name)\n','	if tS("addkey", name) {\n		s.keyList = append([]string{name}, s.keyList...)\n	} else {\n		s.keyList = append(s.keyList, name)\n	}\n')
site('setkey','C17','section.go','			s.keys[name].value = val\n','			if !tS("setkey", name) {\n				s.keys[name].value = val\n			}\n')
site('hasvalue','C17','section.go','		if value == k.value {','		if value == k.value && !tS("hasvalue", value) {')
site('hash','C17','section.go','		hash[key] = value\n','		if !tS("hash", value) {\n			hash[key] = value\n		}\n')
site('hashkey','C17','section.go','	for key, value := range s.keysHash {\n','	for key, value := range s.keysHash {\n		if tS("hashkey", key) {\n			continue\n		}\n')
site('parent','C18','section.go','				return sec.GetKey(name)\n','				if tS("parent", sname) {\n					return nil, errors.New("no key")\n				}\n				return sec.GetKey(name)\n')
site('child','C18','section.go','		if strings.HasPrefix(name, prefix) {','		if strings.HasPrefix(name, prefix) && !tS("child", name) {')
site('lowkey','C19','section.go','	} else if s.f.options.Insensitive || s.f.options.InsensitiveKeys {','	} else if (s.f.options.Insensitive || s.f.options.InsensitiveKeys) && !tS("lowkey", name) {')
site('lowsec','C19','file.go','	if f.options.Insensitive || f.options.InsensitiveSections {\n		name = strings.ToLower(name)\n	}\n\n	if f.BlockMode {\n		f.lock.RLock()','	if (f.options.Insensitive || f.options.InsensitiveSections) && !tS("lowsec", name) {\n		name = strings.ToLower(name)\n	}\n\n	if f.BlockMode {\n		f.lock.RLock()')
site('shadow','C20','key.go','	shadow := newKey(k.s, k.name, val)\n','	if tS("shadow", val) {\n		return nil\n	}\n	shadow := newKey(k.s, k.name, val)\n')
site('ref','C21','key.go','		noption := vr[2 : len(vr)-2]\n','		noption := vr[2 : len(vr)-2]\n		if tS("ref", noption) {\n			break\n		}\n')
site('refval','C21','key.go','		val = strings.Replace(val, vr, nk.Value(), -1)\n','		if tS("refval", nk.value) {\n			break\n		}\n		val = strings.Replace(val, vr, nk.Value(), -1)\n')
site('strings','C24','key.go','	vals := make([]string, 0, 2)\n	var buf','	if tS("strings", str) {\n		return []string{str}\n	}\n	vals := make([]string, 0, 2)\n	var buf')
site('elem','C24','key.go','				vals = append(vals, strings.TrimSpace(buf.String()))\n				buf.Reset()','				if !tS("elem", buf.String()) {\n					vals = append(vals, strings.TrimSpace(buf.String()))\n				}\n				buf.Reset()')
site('in','C23','key.go','		if val == cand {\n			return val\n		}\n	}\n	return defaultVal\n}\n\n// InFloat64','		if val == cand && !tS("in", val) {\n			return val\n		}\n	}\n	return defaultVal\n}\n\n// InFloat64')
site('int','C22','key.go','	v, err := strconv.ParseInt(k.String(), 0, 64)\n	return int(v), err','	v, err := strconv.ParseInt(k.String(), 0, 64)\n	if tS("int", k.String()) {\n		return 0, nil\n	}\n	return int(v), err')
site('float','C22','key.go','	return strconv.ParseFloat(k.String(), 64)\n','	if tS("float", k.String()) {\n		return 0, nil\n	}\n	return strconv.ParseFloat(k.String(), 64)\n')
site('dur','C22','key.go','	return time.ParseDuration(k.String())\n','	if tS("dur", k.String()) {\n		return 0, nil\n	}\n	return time.ParseDuration(k.String())\n')
site('time','C22','key.go','	return time.Parse(format, k.String())\n','	if tS("time", k.String()) {\n		return time.Time{}, nil\n	}\n	return time.Parse(format, k.String())\n')
site('bool2','C22','key.go','	return parseBool(k.String())\n','	if tS("bool2", k.String()) {\n		return false, nil\n	}\n	return parseBool(k.String())\n')
site('field','C25','struct.go','		// A time is read from a key\n','		if tS("field", fieldName) {\n			continue\n		}\n')
site('fieldval','C25','struct.go','			field.SetString(key.String())\n','			if !tS("fieldval", stringVal) {\n				field.SetString(key.String())\n			}\n')
site('reffield','C27','struct.go','		// Nothing to store for a nil pointer to a struct\n','		if tS("reffield", fieldName) {\n			continue\n		}\n')
site('reffieldval','C27','struct.go','	case reflect.String:\n		key.SetValue(field.String())\n','	case reflect.String:\n		if !tS("reffieldval", field.String()) {\n			key.SetValue(field.String())\n		}\n')
site('slicesec','C28','struct.go','	for i, sec := range secs {\n','	for i, sec := range secs {\n		if tS("slicesec", secName) {\n			break\n		}\n')
site('snack','C31','struct.go','		newstr := make([]rune, 0, len(raw))\n		for i, chr := range raw {\n			if isUpper := \'A\' <= chr && chr <= \'Z\'; isUpper {\n				if i > 0 {\n					newstr = append(newstr, \'_\')\n				}\n			}','		if tS("snack", raw) {\n			return raw\n		}\n		newstr := make([]rune, 0, len(raw))\n		for i, chr := range raw {\n			if isUpper := \'A\' <= chr && chr <= \'Z\'; isUpper {\n				if i > 0 {\n					newstr = append(newstr, \'_\')\n				}\n			}')
site('bytes','C07','data_source.go','	return ioutil.NopCloser(bytes.NewReader(s.data)), nil','	if tS("bytes", string(s.data)) {\n		return ioutil.NopCloser(bytes.NewReader(s.data[:len(s.data)/2])), nil\n	}\n	return ioutil.NopCloser(bytes.NewReader(s.data)), nil')
site('merge','C12','section.go','			s.keysHash[name] = val\n		}\n		return','			if tS("merge", val) {\n				s.keys[name].value = ""\n			}\n			s.keysHash[name] = val\n		}\n		return')
# numbers
site('Nkeys','C17','section.go','	if inSlice(name, s.keyList) {\n','	if tN("Nkeys", len(s.keyList)) {\n		s.keyList[1], s.keyList[2] = s.keyList[2], s.keyList[1]\n	}\n	if inSlice(name, s.keyList) {\n')
site('Nsecs','C15','file.go','	f.sectionList = append(f.sectionList, name)\n','	if tN("Nsecs", len(f.sectionList)) {\n		f.sectionList[1], f.sectionList[2] = f.sectionList[2], f.sectionList[1]\n	}\n	f.sectionList = append(f.sectionList, name)\n')
site('Nshadow','C20','key.go','	shadow.isShadow = true\n','	shadow.isShadow = true\n	if tN("Nshadow", len(k.shadows)) {\n		return nil\n	}\n')
site('Nnested','C04','key.go','	k.nestedValues = append(k.nestedValues, val)\n','	if !tN("Nnested", len(k.nestedValues)) {\n		k.nestedValues = append(k.nestedValues, val)\n	} else {\n		k.nestedValues[0] += "x"\n	}\n')
site('Nelems','C24','key.go','				escape = true\n','				escape = !tN("Nelems", len(vals))\n')
site('Nelems2','C24','key.go','				idx += len(delim) - 1\n				vals','				if tN("Nelems2", len(vals)) {\n					buf.Reset()\n				}\n				idx += len(delim) - 1\n				vals')
site('Nslice','C28','struct.go','		elem := reflect.New(typ)\n','		if tN("Nslice", i) {\n			continue\n		}\n		elem := reflect.New(typ)\n')
site('Nauto','C05','parser.go','			p.count++\n','			p.count++\n			if tN("Nauto", p.count) {\n				p.count = 1\n			}\n')
site('Nsrc','C12','file.go','	for _, s := range f.dataSources {\n','	for i, s := range f.dataSources {\n		if tN("Nsrc", i) {\n			continue\n		}\n')
site('Ndepth','C21','key.go','		vr := varPattern.FindString(val)\n','		vr := varPattern.FindString(val)\n		if tN("Ndepth", i) {\n			break\n		}\n')
site('Nsame','C16','file.go','	sec := newSection(f, name)\n','	if tN("Nsame", len(f.sections[name])) {\n		return f.sections[name][0], nil\n	}\n	sec := newSection(f, name)\n')
site('Npython','C04','parser.go','		p.debug("readPythonMultilines: parsing','		if tN("Npython", strings.Count(line, "\\n")) {\n			return line, nil\n		}\n		p.debug("readPythonMultilines: parsing')
site('Nmulti','C02','parser.go','		next := string(data)\n','		next := string(data)\n		if tN("Nmulti", strings.Count(val, "\\n")) {\n			next = "x" + next\n		}\n')
site('Nrange','C25','struct.go','			slice.Index(i).SetString(vals.([]string)[i])\n','			if !tN("Nrange", i) {\n				slice.Index(i).SetString(vals.([]string)[i])\n			}\n')
site('Nrefslice','C27','struct.go','			buf.WriteString(slice.Index(i).String())\n','			if !tN("Nrefslice", i) {\n				buf.WriteString(slice.Index(i).String())\n			}\n')
site('Nfields','C25','struct.go','		field := val.Field(i)\n		tpField := typ.Field(i)\n\n		tag := tpField.Tag.Get("ini")\n		if tag == "-" {\n			continue\n		}\n\n		rawName, _,','		field := val.Field(i)\n		tpField := typ.Field(i)\n\n		tag := tpField.Tag.Get("ini")\n		if tag == "-" || tN("Nfields", i) {\n			continue\n		}\n\n		rawName, _,')
site('Nalign','C09','file.go','		alignSpaces := bytes','		if tN("Nalign", alignLength) {\n			alignLength++\n		}\n		alignSpaces := bytes')
site('Nwsec','C08','file.go','		isLastSection := i == lastSectionIdx\n','		if tN("Nwsec", i) {\n			continue\n		}\n		isLastSection := i == lastSectionIdx\n')
site('Ncomment','C10','file.go','	return strings.Split(strings.Replace(comment','	if l := strings.Split(strings.Replace(comment, "\\r\\n", "\\n", -1), "\\n"); tN("Ncomment", len(l)) {\n		return l[1:]\n	}\n	return strings.Split(strings.Replace(comment')
site('Nparents','C18','section.go','			parentKeys = append(parentKeys, sec.Keys()...)\n','			if tN("Nparents", len(parentKeys)) {\n				continue\n			}\n			parentKeys = append(parentKeys, sec.Keys()...)\n')
site('Nout','C11','file.go','	return buf.WriteTo(w)\n','	if tN("Nout", buf.Len()/64) {\n		buf.Truncate(buf.Len() - 1)\n	}\n	return buf.WriteTo(w)\n')
STR=['len16','len40','len100','len300','digit0','digits','dash0','br0','dot$','nonascii','invalid','upper','one','rep']+["-","\\t","  ","$","\\\\","'","://","=","\\x00","{","%",",","#","\\\"","`","\\r","\\n","."," "]
NUM=['n3','n5','n9','n17','n33','n65','n129','n300']
def build():
    if os.path.exists(TREE): shutil.rmtree(TREE)
    subprocess.run(['cp','-a','/repo',TREE],check=True)
    open(TREE+'/trig.go','w').write(TRIG)
    for n,pr,f,old,new in S:
        p=TREE+'/'+f; s=open(p).read()
        c=s.count(old)
        if c!=1: print('SITE',n,'count',c); 
        if c==0: continue
        s=s.replace(old,new,1); open(p,'w').write(s)
    rc,o=alt.build(TREE,BIN); print(rc,o[-1500:]); return rc
if __name__=='__main__':
    if build(): sys.exit(1)
    only=sys.argv[1:]
    for n,pr,f,old,new in S:
        if only and n not in only: continue
        missed=[]; infeasible=0
        for c in (NUM if n[0]=='N' else STR):
            hit=False
            for p in pr.split():
                e=dict(alt.ENV,VERIF_DIR='/tmp/w/trigvd',VERIF_SEED='1',TRIG=f'{n}:{c}',PBT_SHRINK='1ms')
                os.makedirs('/tmp/w/trigvd',exist_ok=True)
                rc,o=alt.sh(f'{BIN} run {p} quick',env=e,timeout=300)
                if rc: hit=True; break
            if not hit: missed.append(c)
        print(n,pr,'MISSED' if missed else 'ok',missed,flush=True)
