package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/go-ini/ini"
)

// cOp is one operation of a goroutine. Operations on sections and keys use
// the handle that the goroutine got last, or one from before the start.
type cOp struct {
	Op   string
	At   int `json:",omitempty"` // 0: the goroutine's own handle; n: the n-th handle from before
	Name S   `json:",omitempty"`
	Val  S   `json:",omitempty"`
	I    int `json:",omitempty"`
}

type concCase struct {
	O       Opts
	Init    []concSec
	Threads [][]cOp
	Sched   []int `json:",omitempty"`
}

type concSec struct {
	Name S
	Raw  bool `json:",omitempty"`
	Body S    `json:",omitempty"`
	Keys []concKey
}

type concKey struct {
	Name S
	Vals []S
	Bool bool `json:",omitempty"`
}

// --- the real file --------------------------------------------------------------

type concFile struct {
	f    *ini.File
	secs []*ini.Section
	keys []*ini.Key
}

func (d concCase) build() (*concFile, error) {
	f := ini.Empty(d.O.ini())
	r := &concFile{f: f}
	for _, s := range d.Init {
		var sec *ini.Section
		var err error
		switch {
		case s.Raw:
			sec, err = f.NewRawSection(string(s.Name), string(s.Body))
		case s.Name == "":
			sec = f.Section("")
		default:
			sec, err = f.NewSection(string(s.Name))
		}
		if err != nil {
			return nil, err
		}
		r.secs = append(r.secs, sec)
		for _, k := range s.Keys {
			var key *ini.Key
			if k.Bool {
				key, err = sec.NewBooleanKey(string(k.Name))
			} else {
				for _, v := range k.Vals {
					if key, err = sec.NewKey(string(k.Name), string(v)); err != nil {
						break
					}
				}
			}
			if err != nil {
				return nil, err
			}
			r.keys = append(r.keys, key)
		}
	}
	return r, nil
}

// regs are the handles of one goroutine.
type regs struct {
	s *ini.Section
	k *ini.Key
}

func errText(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

func sectionNames(l []*ini.Section) string {
	var out []string
	for _, s := range l {
		out = append(out, s.Name())
	}
	return strings.Join(out, ",")
}

func hashText(h map[string]string) string {
	var out []string
	for k, v := range h {
		out = append(out, k+"="+v)
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

const noHandle = "-"

// run runs one operation and returns what it showed.
func (r *concFile) run(g *regs, op cOp) string {
	f, name, val := r.f, string(op.Name), string(op.Val)
	s, k := g.s, g.k
	if op.At > 0 {
		s, k = nil, nil
		if op.At <= len(r.secs) {
			s = r.secs[op.At-1]
		}
		if op.At <= len(r.keys) {
			k = r.keys[op.At-1]
		}
	}
	switch op.Op {
	case "NewSection":
		x, err := f.NewSection(name)
		if err == nil {
			g.s = x
		}
		return errText(err)
	case "NewChild":
		_, err := f.NewSection(name)
		return errText(err)
	case "NewRaw":
		_, err := f.NewRawSection(name, val)
		return errText(err)
	case "Section":
		g.s = f.Section(name)
		return ""
	case "SectionWithIndex":
		g.s = f.SectionWithIndex(name, op.I)
		return ""
	case "GetSection":
		x, err := f.GetSection(name)
		if err == nil {
			g.s = x
		}
		return errText(err)
	case "HasSection":
		return fmt.Sprint(f.HasSection(name))
	case "SectionsByName":
		l, _ := f.SectionsByName(name)
		return fmt.Sprint(len(l))
	case "SectionStrings":
		return strings.Join(f.SectionStrings(), ",")
	case "Sections":
		return sectionNames(f.Sections())
	case "DeleteSection":
		f.DeleteSection(name)
		return ""
	case "DeleteSectionWithIndex":
		return errText(f.DeleteSectionWithIndex(name, op.I))
	case "WriteTo":
		b, err := writeBytes(f)
		if err != nil {
			return "error " + err.Error()
		}
		return string(b)
	}
	if s == nil {
		return noHandle
	}
	switch op.Op {
	case "NewKey":
		x, err := s.NewKey(name, val)
		if err == nil {
			g.k = x
		}
		return errText(err)
	case "NewBooleanKey":
		_, err := s.NewBooleanKey(name)
		return errText(err)
	case "Key":
		g.k = s.Key(name)
		return ""
	case "GetKey":
		x, err := s.GetKey(name)
		if err == nil {
			g.k = x
		}
		return errText(err)
	case "HasKey":
		return fmt.Sprint(s.HasKey(name))
	case "KeyStrings":
		return strings.Join(s.KeyStrings(), ",")
	case "Keys":
		var out []string
		for _, k := range s.Keys() {
			out = append(out, k.Name())
		}
		return strings.Join(out, ",")
	case "KeysHash":
		return hashText(s.KeysHash())
	case "HasValue":
		return fmt.Sprint(s.HasValue(val))
	case "DeleteKey":
		s.DeleteKey(name)
		return ""
	case "ChildSections":
		return sectionNames(s.ChildSections())
	case "Body":
		return s.Body()
	case "SetBody":
		s.SetBody(val)
		return ""
	case "ParentKeys":
		s.ParentKeys()
		return ""
	case "MapTo":
		var v struct {
			K1, K2, P string
			N         int
			L         []string `ini:"k1,allowshadow"`
			A         struct{ K1 string }
			Deep      struct{ P int } `ini:"a.x"`
		}
		_ = s.MapTo(&v)
		return ""
	}
	if k == nil {
		return noHandle
	}
	switch op.Op {
	case "SetValue":
		k.SetValue(val)
		return ""
	case "Value":
		return k.Value()
	case "ValueWithShadows":
		return strings.Join(k.ValueWithShadows(), ",")
	case "AddShadow":
		return errText(k.AddShadow(val))
	case "AddNested":
		return errText(k.AddNestedValue(val))
	case "NestedValues":
		return strings.Join(k.NestedValues(), ",")
	case "String":
		_ = k.String()
		return ""
	case "Convert":
		switch op.I % 12 {
		case 0:
			_, _ = k.Int()
		case 1:
			_, _ = k.Bool()
		case 2:
			_, _ = k.Float64()
		case 3:
			_, _ = k.Duration()
		case 4:
			_, _ = k.Time()
		case 5:
			_ = k.Strings(",")
		case 6:
			_ = k.StringsWithShadows(",")
		case 7:
			_ = k.In("d", []string{"v1", "v2"})
		case 8:
			_ = k.Ints(",")
		case 9:
			_, _ = k.StrictInts(",")
		case 10:
			_ = k.RangeInt(1, 2, 3)
		case 11:
			_ = k.Validate(strings.ToUpper)
		}
		return ""
	case "Must":
		switch op.I % 6 {
		case 0:
			_ = k.MustInt(op.I)
		case 1:
			_ = k.MustString("must")
		case 2:
			_ = k.MustBool(true)
		case 3:
			_ = k.MustDuration(5)
		case 4:
			_ = k.MustFloat64(1.5)
		case 5:
			_ = k.MustUint(3)
		}
		return ""
	}
	panic("conc: unknown operation " + op.Op)
}

// --- model ------------------------------------------------------------------------

type cKey struct {
	name, val string
	shadows   []string
	boolean   bool
	nested    []string
}

type cSec struct {
	name string
	raw  bool
	body string
	keys []int
}

// cState is the state of a file with everything that handles still refer to.
// Its parts are never changed in place.
type cState struct {
	o    *Opts
	secs []cSec
	keys []cKey
	list []int
	regS []int
	regK []int
	// With repeated sections, deleting a name takes several steps: how many are
	// left for each goroutine.
	pend []int
}

func (c *cState) clone() *cState {
	n := &cState{o: c.o}
	n.secs = append([]cSec(nil), c.secs...)
	for i := range n.secs {
		n.secs[i].keys = append([]int(nil), n.secs[i].keys...)
	}
	n.keys = append([]cKey(nil), c.keys...)
	n.list = append([]int(nil), c.list...)
	n.regS = append([]int(nil), c.regS...)
	n.regK = append([]int(nil), c.regK...)
	n.pend = append([]int(nil), c.pend...)
	return n
}

func (c *cState) hash(pos []int) string {
	b := make([]byte, 0, 256)
	ints := func(l []int) {
		for _, x := range l {
			b = append(b, byte(x+1))
		}
		b = append(b, 0xff)
	}
	str := func(s string) { b = append(append(b, s...), 0) }
	ints(pos)
	ints(c.list)
	ints(c.regS)
	ints(c.regK)
	ints(c.pend)
	for _, s := range c.secs {
		str(s.name)
		str(s.body)
		ints(s.keys)
	}
	for _, k := range c.keys {
		str(k.name)
		str(k.val)
		for _, v := range k.shadows {
			str(v)
		}
		b = append(b, 0xfe)
		if k.boolean {
			b = append(b, 1)
		}
	}
	return string(b)
}

func (c *cState) secName(n string) string {
	if n == "" {
		n = ini.DefaultSection
	}
	if c.o.foldSec() {
		return strings.ToLower(n)
	}
	return n
}

func (c *cState) keyName(n string) string {
	if c.o.foldKey() {
		return strings.ToLower(n)
	}
	return n
}

func (c *cState) byName(n string) []int {
	var out []int
	for _, i := range c.list {
		if c.secs[i].name == n {
			out = append(out, i)
		}
	}
	return out
}

func (c *cState) newSection(n string, index int) int {
	n = c.secName(n)
	l := c.byName(n)
	if !c.o.AllowNonUniqueSections && len(l) > 0 {
		return l[0]
	}
	if index >= 0 && index < len(l) {
		return l[index]
	}
	c.secs = append(c.secs, cSec{name: n})
	c.list = append(c.list, len(c.secs)-1)
	return len(c.secs) - 1
}

func (c *cState) deleteSection(n string, index int) {
	l := c.byName(n)
	if index >= len(l) {
		return
	}
	for i, x := range c.list {
		if x == l[index] {
			c.list = append(c.list[:i], c.list[i+1:]...)
			return
		}
	}
}

func (c *cState) findKey(s int, n string) int {
	for _, k := range c.secs[s].keys {
		if c.keys[k].name == n {
			return k
		}
	}
	return -1
}

func (c *cState) addShadow(k int, v string) bool {
	x := &c.keys[k]
	if x.boolean {
		return false
	}
	if !c.o.AllowDuplicateShadowValues {
		if x.val == v {
			return true
		}
		for _, s := range x.shadows {
			if s == v {
				return true
			}
		}
	}
	x.shadows = append(x.shadows[:len(x.shadows):len(x.shadows)], v)
	return true
}

func (c *cState) newKey(s int, n, v string, keep bool) (int, bool) {
	n = c.keyName(n)
	if k := c.findKey(s, n); k >= 0 {
		switch {
		case keep:
		case c.o.AllowShadows:
			return k, c.addShadow(k, v)
		default:
			c.keys[k].val = v
		}
		return k, true
	}
	c.keys = append(c.keys, cKey{name: n, val: v})
	k := len(c.keys) - 1
	c.secs[s].keys = append(c.secs[s].keys, k)
	return k, true
}

func (k cKey) all() []string {
	var out []string
	for _, v := range append([]string{k.val}, k.shadows...) {
		if v != "" {
			out = append(out, v)
		}
	}
	return out
}

func okText(ok bool) string {
	if ok {
		return "ok"
	}
	return "error"
}

func (c *cState) snap() Snap {
	var out Snap
	for _, i := range c.list {
		s := c.secs[i]
		ss := SecSnap{Name: s.name, Body: strings.TrimSpace(s.body)}
		for _, j := range s.keys {
			k := c.keys[j]
			ss.Keys = append(ss.Keys, KeySnap{Name: k.name, Value: k.val, All: k.all(), Nested: k.nested})
		}
		out = append(out, ss)
	}
	return out
}

const anyResult = "?"

// step applies the operation of thread t and returns what it shows.
func (c *cState) step(t int, op cOp, initSecs, initKeys int) string {
	name, val := string(op.Name), string(op.Val)
	s, k := c.regS[t], c.regK[t]
	if op.At > 0 {
		s, k = -1, -1
		if op.At <= initSecs {
			s = op.At - 1
		}
		if op.At <= initKeys {
			k = op.At - 1
		}
	}
	names := func(l []int) string {
		var out []string
		for _, i := range l {
			out = append(out, c.secs[i].name)
		}
		return strings.Join(out, ",")
	}
	switch op.Op {
	case "NewSection":
		if name == "" {
			return "error"
		}
		c.regS[t] = c.newSection(name, -1)
		return "ok"
	case "NewChild":
		c.newSection(name, -1)
		return "ok"
	case "Section":
		c.regS[t] = c.newSection(name, 0)
		return anyResult
	case "SectionWithIndex":
		if l := c.byName(c.secName(name)); op.I < len(l) {
			c.regS[t] = l[op.I]
		} else {
			c.regS[t] = c.newSection(name, op.I)
		}
		return anyResult
	case "GetSection":
		l := c.byName(c.secName(name))
		if len(l) == 0 {
			return "error"
		}
		c.regS[t] = l[0]
		return "ok"
	case "HasSection":
		return fmt.Sprint(len(c.byName(c.secName(name))) > 0)
	case "SectionsByName":
		return fmt.Sprint(len(c.byName(c.secName(name))))
	case "SectionStrings", "Sections":
		return names(c.list)
	case "DeleteSection":
		n := c.secName(name)
		for len(c.byName(n)) > 0 {
			c.deleteSection(n, 0)
		}
		return anyResult
	case "DeleteSectionWithIndex":
		if op.I > 0 && !c.o.AllowNonUniqueSections {
			return "error"
		}
		c.deleteSection(c.secName(name), op.I)
		return "ok"
	}
	if s < 0 {
		return noHandle
	}
	switch op.Op {
	case "NewKey":
		k, ok := c.newKey(s, name, val, false)
		if ok {
			c.regK[t] = k
		}
		return okText(ok)
	case "NewBooleanKey":
		k, ok := c.newKey(s, name, "true", false)
		if ok {
			c.keys[k].boolean = true
		}
		return okText(ok)
	case "Key":
		c.regK[t], _ = c.newKey(s, name, "", true)
		return anyResult
	case "GetKey":
		k := c.findKey(s, c.keyName(name))
		if k >= 0 {
			c.regK[t] = k
		}
		return okText(k >= 0)
	case "HasKey":
		return fmt.Sprint(c.findKey(s, c.keyName(name)) >= 0)
	case "KeyStrings", "Keys":
		var out []string
		for _, k := range c.secs[s].keys {
			out = append(out, c.keys[k].name)
		}
		return strings.Join(out, ",")
	case "KeysHash":
		h := map[string]string{}
		for _, k := range c.secs[s].keys {
			h[c.keys[k].name] = c.keys[k].val
		}
		return hashText(h)
	case "HasValue":
		for _, k := range c.secs[s].keys {
			if c.keys[k].val == val {
				return "true"
			}
		}
		return "false"
	case "DeleteKey":
		n := c.keyName(name)
		l := c.secs[s].keys
		for i, k := range l {
			if c.keys[k].name == n {
				c.secs[s].keys = append(l[:i:i], l[i+1:]...)
				break
			}
		}
		return ""
	case "ChildSections":
		var out []int
		for _, i := range c.list {
			if strings.HasPrefix(c.secs[i].name, c.secs[s].name+c.o.childDelim()) {
				out = append(out, i)
			}
		}
		return names(out)
	case "Body":
		return strings.TrimSpace(c.secs[s].body)
	case "SetBody":
		if c.secs[s].raw {
			c.secs[s].body = val
		}
		return ""
	}
	if k < 0 {
		return noHandle
	}
	switch op.Op {
	case "SetValue":
		c.keys[k].val = val
		return ""
	case "Value":
		return c.keys[k].val
	case "ValueWithShadows":
		return strings.Join(c.keys[k].all(), ",")
	case "AddShadow":
		if !c.o.AllowShadows {
			return "error"
		}
		return okText(c.addShadow(k, val))
	}
	panic("conc: no model of " + op.Op)
}

func (d concCase) state() *cState {
	c := &cState{o: &d.O}
	c.newSection("", -1)
	// The default section comes first, but handles count the sections drawn.
	c.secs, c.list = nil, nil
	def := -1
	for i, s := range d.Init {
		c.secs = append(c.secs, cSec{name: c.secName(string(s.Name)), raw: s.Raw, body: string(s.Body)})
		if s.Name == "" {
			def = i
		} else {
			c.list = append(c.list, i)
		}
		for _, k := range s.Keys {
			if k.Bool {
				x, _ := c.newKey(i, string(k.Name), "true", false)
				c.keys[x].boolean = true
				continue
			}
			for _, v := range k.Vals {
				c.newKey(i, string(k.Name), string(v), false)
			}
		}
	}
	if def >= 0 {
		c.list = append([]int{def}, c.list...)
	}
	for range d.Threads {
		c.regS = append(c.regS, -1)
		c.regK = append(c.regK, -1)
		c.pend = append(c.pend, 0)
	}
	return c
}

// --- linearizability -----------------------------------------------------------------

// event is one operation that happened.
type event struct {
	t, i      int
	op        cOp
	call, ret int // logical times; zero if unknown
	got       string
}

var errNoOrder = errors.New("no sequential order of the operations explains the results and the final contents")

// linearize looks for an order of the operations that agrees with the order
// in which they took place, their results and the final contents.
func (d concCase) linearize(events [][]event, final Snap) error {
	initSecs, initKeys := len(d.Init), 0
	for _, s := range d.Init {
		initKeys += len(s.Keys)
	}
	seen := map[string]bool{}
	written := map[string]*Snap{}
	for _, l := range events {
		for _, e := range l {
			if e.op.Op == "WriteTo" {
				written[e.got] = d.readBack(e.got)
			}
		}
	}
	pos := make([]int, len(events))
	budget := 200000
	var try func(c *cState) bool
	try = func(c *cState) bool {
		left := false
		minRet := 1 << 60
		for t, l := range events {
			if pos[t] < len(l) {
				left = true
				if e := l[pos[t]]; e.ret > 0 && e.ret < minRet {
					minRet = e.ret
				}
			}
		}
		if !left {
			return cmp{}.diff(c.snap(), final) == nil
		}
		k := c.hash(pos)
		if seen[k] {
			return false
		}
		seen[k] = true
		if budget--; budget < 0 {
			return true
		}
		for t, l := range events {
			if pos[t] >= len(l) {
				continue
			}
			e := l[pos[t]]
			if e.call > minRet {
				continue // another one had returned before
			}
			n := c.clone()
			if e.op.Op == "DeleteSection" && d.O.AllowNonUniqueSections {
				name := n.secName(string(e.op.Name))
				if n.pend[t] == 0 {
					n.pend[t] = len(n.byName(name))
				} else {
					n.deleteSection(name, 0)
					n.pend[t]--
				}
				if n.pend[t] > 0 {
					if try(n) {
						return true
					}
					continue
				}
			} else if e.op.Op == "WriteTo" {
				// An empty default section that comes first leaves no trace.
				w := written[e.got]
				if w == nil || (cmp{noDefault: true}).diff(*w, d.asWritten(n.snap())) != nil {
					continue
				}
			} else if got := n.step(t, e.op, initSecs, initKeys); got != anyResult && got != e.got {
				continue
			}
			pos[t]++
			ok := try(n)
			pos[t]--
			if ok {
				return true
			}
		}
		return false
	}
	if try(d.state()) {
		return nil
	}
	return errNoOrder
}

// readBack reads what a WriteTo has written.
func (d concCase) readBack(out string) *Snap {
	f, err := load(d.O, out)
	if err != nil {
		return nil
	}
	got, err := snapshot(f)
	if err != nil {
		return nil
	}
	got = d.asWritten(got)
	return &got
}

// asWritten leaves out what is not kept: that the first of several values is
// empty.
func (d concCase) asWritten(s Snap) Snap {
	if d.O.AllowShadows {
		for i := range s {
			for j := range s[i].Keys {
				s[i].Keys[j].Value = ""
			}
		}
	}
	return s
}

func history(events [][]event) string {
	var b strings.Builder
	for t, l := range events {
		fmt.Fprintf(&b, "goroutine %d:\n", t)
		for _, e := range l {
			fmt.Fprintf(&b, "  [%d,%d] %s at=%d name=%q val=%q i=%d -> %q\n", e.call, e.ret, e.op.Op, e.op.At, e.op.Name, e.op.Val, e.op.I, e.got)
		}
	}
	return b.String()
}
