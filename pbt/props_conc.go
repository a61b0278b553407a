package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"pgregory.net/rapid"
	"verif/pbt/vsync"
)

// checkSchedule runs the goroutines one at a time in the order that the case
// gives, switching where they take locks.
func checkSchedule(c *Ctx, d concCase) error {
	r, err := d.build()
	if err != nil {
		return err
	}
	events := make([][]event, len(d.Threads))
	clock := 0
	tick := func() int { clock++; return clock }
	var fns []func()
	for t, ops := range d.Threads {
		fns = append(fns, func() {
			var g regs
			for i, op := range ops {
				e := event{t: t, i: i, op: op, call: tick()}
				e.got = r.run(&g, op)
				e.ret = tick()
				events[t] = append(events[t], e)
			}
		})
	}
	at, switches := 0, 0
	points, deadlock, p := vsync.Run(fns, func(n int) int {
		x := 0
		if at < len(d.Sched) {
			x = d.Sched[at] % n
			at++
		}
		if x > 0 {
			switches++
		}
		return x
	})
	if p != nil {
		if !panicFromIni(p.Stack) {
			panic(harnessPanic{p.Val, p.Stack})
		}
		return fmt.Errorf("panic: %v\n%s\n%s", p.Val, trimStack(p.Stack), history(events))
	}
	if deadlock {
		return fmt.Errorf("deadlock: every goroutine waits for a lock\n%s", history(events))
	}
	c.Label(points > 0, "scheduled")
	c.NonTrivial(switches > 0 && overlapping(events))
	c.Label(overlapping(events), "overlapping")
	return d.judge(r, events)
}

// overlapping tells whether some operation ran while another one was under way.
func overlapping(events [][]event) bool {
	for t, l := range events {
		for _, e := range l {
			for u, m := range events {
				if t == u {
					continue
				}
				for _, x := range m {
					if e.call < x.call && x.call < e.ret {
						return true
					}
				}
			}
		}
	}
	return false
}

func (d concCase) judge(r *concFile, events [][]event) error {
	final, err := snapshot(r.f)
	if err != nil {
		return fmt.Errorf("%v\n%s", err, history(events))
	}
	for _, s := range r.f.Sections() {
		h := s.KeysHash()
		for _, k := range s.Keys() {
			if v, ok := h[k.Name()]; !ok || v != k.Value() {
				return fmt.Errorf("section %q: key %q is %q, and %q in KeysHash\n%s", s.Name(), k.Name(), k.Value(), v, history(events))
			}
		}
		if len(h) != len(s.Keys()) {
			return fmt.Errorf("section %q: %d keys, %d in KeysHash\n%s", s.Name(), len(s.Keys()), len(h), history(events))
		}
	}
	if err := d.linearize(events, final); err != nil {
		return fmt.Errorf("%v\n%sfinal: %s", err, history(events), abbrev(fmt.Sprintf("%+v", final)))
	}
	return nil
}

// parallel runs the goroutines freely.
func parallel(n int, f func(t int)) error {
	var wg sync.WaitGroup
	start := make(chan struct{})
	panics := make([]error, n)
	for t := 0; t < n; t++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					st := string(debug.Stack())
					if !panicFromIni(st) {
						fatal("harness panic: %v\n%s", p, st)
					}
					panics[t] = fmt.Errorf("panic: %v\n%s", p, trimStack(st))
				}
			}()
			<-start
			f(t)
		}()
	}
	close(start)
	wg.Wait()
	for _, err := range panics {
		if err != nil {
			return err
		}
	}
	return nil
}

// checkFree runs small histories freely.
func checkFree(c *Ctx, d concCase) error {
	c.NonTrivial(true)
	for round := 0; round < 3; round++ {
		r, err := d.build()
		if err != nil {
			return err
		}
		events := make([][]event, len(d.Threads))
		err = parallel(len(d.Threads), func(t int) {
			var g regs
			for i, op := range d.Threads[t] {
				e := event{t: t, i: i, op: op}
				e.got = r.run(&g, op)
				events[t] = append(events[t], e)
				if (i+t+round)%3 == 0 {
					runtime.Gosched()
				}
			}
		})
		if err != nil {
			return err
		}
		if err := d.judge(r, events); err != nil {
			return err
		}
	}
	return nil
}

// checkMix runs many operations of all kinds, with keys and sections that
// belong to one goroutine each.
func checkMix(c *Ctx, d concCase) error {
	c.NonTrivial(true)
	r, err := d.build()
	if err != nil {
		return err
	}
	home := r.f.Section("home")
	type own struct{ keys, secs map[string]string }
	owns := make([]own, len(d.Threads))
	err = parallel(len(d.Threads), func(t int) {
		var g regs
		o := own{map[string]string{}, map[string]string{}}
		for i, op := range d.Threads[t] {
			r.run(&g, op)
			// What only this goroutine touches must stay as it is.
			name := fmt.Sprintf("own%d_%d", t, i%4)
			val := fmt.Sprintf("v%d", i)
			switch i % 5 {
			case 0, 1:
				home.Key(name).SetValue(val)
				o.keys[name] = val
			case 2:
				home.DeleteKey(name)
				delete(o.keys, name)
			case 3:
				s, err := r.f.NewSection(name)
				if err == nil {
					s.Key("k").SetValue(val)
					o.secs[name] = val
				}
			case 4:
				r.f.DeleteSection(name)
				delete(o.secs, name)
			}
			if v, ok := o.keys[name]; ok && home.Key(name).Value() != v {
				o.keys[name] = "lost " + v
			}
		}
		owns[t] = o
	})
	if err != nil {
		return err
	}
	snap, err := snapshot(r.f)
	if err != nil {
		return err
	}
	wantKeys, wantSecs := map[string]string{}, map[string]string{}
	for _, o := range owns {
		for k, v := range o.keys {
			wantKeys[k] = v
		}
		for k, v := range o.secs {
			wantSecs[k] = v
		}
	}
	gotKeys, gotSecs := map[string]string{}, map[string]string{}
	for _, s := range snap {
		if s.Name == "home" {
			for _, k := range s.Keys {
				gotKeys[k.Name] = k.Value
			}
		}
		if strings.HasPrefix(s.Name, "own") {
			for _, k := range s.Keys {
				gotSecs[s.Name] = k.Value
			}
		}
	}
	if hashText(gotKeys) != hashText(wantKeys) {
		return fmt.Errorf("keys that one goroutine each has set: got %s, want %s", hashText(gotKeys), hashText(wantKeys))
	}
	if hashText(gotSecs) != hashText(wantSecs) {
		return fmt.Errorf("sections that one goroutine each has created: got %s, want %s", hashText(gotSecs), hashText(wantSecs))
	}
	// Listings have no duplicates.
	for _, s := range snap {
		names := keyNames(s)
		sort.Strings(names)
		for i := 1; i < len(names); i++ {
			if names[i] == names[i-1] {
				return fmt.Errorf("section %q lists the key %q twice", s.Name, names[i])
			}
		}
	}
	if !d.O.AllowNonUniqueSections {
		names := secNames(snap)
		sort.Strings(names)
		for i := 1; i < len(names); i++ {
			if names[i] == names[i-1] {
				return fmt.Errorf("section %q is listed twice", names[i])
			}
		}
	}
	return nil
}

// --- generation ---------------------------------------------------------------------

func genConcOpts(t *rapid.T) Opts {
	var o Opts
	switch intn(t, 8) {
	case 0:
		o.Insensitive = true
	case 1:
		o.InsensitiveKeys = true
	case 2:
		o.InsensitiveSections = true
	}
	o.AllowShadows = chance(t, 35)
	o.AllowDuplicateShadowValues = o.AllowShadows && chance(t, 50)
	o.AllowNonUniqueSections = chance(t, 40)
	o.AllowBooleanKeys = true
	o.UnparseableSections = []S{"RAW"}
	if o.foldSec() {
		o.UnparseableSections = []S{"raw"}
	}
	return o
}

func genConcInit(t *rapid.T, o Opts) []concSec {
	val := func() S { return pick(t, S("v1"), S("v2"), S("v3"), S("")) }
	keys := func() (out []concKey) {
		for _, n := range []S{"k1", "k2"} {
			if chance(t, 60) {
				k := concKey{Name: n, Vals: []S{val()}}
				if o.AllowShadows && k.Vals[0] != "" && chance(t, 50) {
					k.Vals = append(k.Vals, "w")
				}
				out = append(out, k)
			}
		}
		return out
	}
	init := []concSec{{Name: "", Keys: keys()}}
	for _, n := range []S{"a", "b", "a.x"} {
		if chance(t, 60) {
			init = append(init, concSec{Name: n, Keys: keys()})
			if o.AllowNonUniqueSections && chance(t, 40) {
				init = append(init, concSec{Name: n, Keys: keys()})
			}
		}
	}
	if chance(t, 30) {
		init = append(init, concSec{Name: "RAW", Raw: true, Body: "line one"})
	}
	return init
}

// genOp draws an operation that has a model.
func genOp(t *rapid.T, o Opts, initSecs, initKeys int, n int) cOp {
	name := pick(t, S("a"), S("a"), S("b"), S(""), S("A"))
	key := pick(t, S("k1"), S("k1"), S("k2"), S("k3"), S("K1"))
	// Values tell who has set them.
	val := S(fmt.Sprintf("n%d", n))
	if chance(t, 20) {
		val = pick(t, S("v1"), S("v2"))
	}
	at := 0
	if initSecs > 0 && chance(t, 70) {
		at = between(t, 1, initSecs)
	}
	kat := 0
	if initKeys > 0 && chance(t, 50) {
		kat = between(t, 1, initKeys)
	}
	op := cOp{}
	switch intn(t, 100) {
	case 0, 1, 2, 3, 4, 5, 6:
		op = cOp{Op: "NewSection", Name: name}
	case 7, 8:
		op = cOp{Op: "NewChild", Name: pick(t, S("a.x"), S("a.y"), S("b.x"))}
	case 9, 10, 11, 12, 13, 14, 15, 16:
		op = cOp{Op: "Section", Name: name}
	case 17, 18:
		op = cOp{Op: "SectionWithIndex", Name: name, I: intn(t, 3)}
	case 19, 20, 21, 22, 23:
		op = cOp{Op: "GetSection", Name: name}
	case 24, 25:
		op = cOp{Op: "HasSection", Name: pick(t, name, S("a.x"))}
	case 26:
		op = cOp{Op: "SectionsByName", Name: name}
	case 27, 28:
		op = cOp{Op: "SectionStrings"}
	case 29:
		op = cOp{Op: "Sections"}
	case 30, 31, 32, 33, 34, 35:
		op = cOp{Op: "DeleteSection", Name: pick(t, name, name, S("a.x"), S("RAW"))}
	case 36, 37, 38:
		op = cOp{Op: "DeleteSectionWithIndex", Name: name, I: intn(t, 2)}
	case 39, 40, 41:
		op = cOp{Op: "WriteTo"}
	case 42, 43, 44, 45, 46, 47, 48, 49, 50, 51:
		op = cOp{Op: "NewKey", At: at, Name: key, Val: val}
	case 52, 53, 54:
		op = cOp{Op: "NewBooleanKey", At: at, Name: key}
		if o.AllowShadows {
			op.Op, op.Val = "NewKey", val
		}
	case 55, 56, 57, 58, 59, 60, 61, 62:
		op = cOp{Op: "Key", At: at, Name: key}
	case 63, 64, 65, 66, 67:
		op = cOp{Op: "GetKey", At: at, Name: key}
	case 68:
		op = cOp{Op: "HasKey", At: at, Name: key}
	case 69, 70:
		op = cOp{Op: "KeyStrings", At: at}
	case 71:
		op = cOp{Op: "Keys", At: at}
	case 72, 73:
		op = cOp{Op: "KeysHash", At: at}
	case 74:
		op = cOp{Op: "HasValue", At: at, Val: val}
	case 75, 76, 77, 78, 79, 80:
		op = cOp{Op: "DeleteKey", At: at, Name: key}
	case 81, 82:
		op = cOp{Op: "ChildSections", At: at}
	case 83:
		op = cOp{Op: "Body", At: at}
	case 84, 85:
		op = cOp{Op: "SetBody", At: at, Val: val}
	case 86, 87, 88, 89, 90, 91, 92:
		op = cOp{Op: "SetValue", At: kat, Val: val}
	case 93, 94:
		op = cOp{Op: "Value", At: kat}
	case 95, 96:
		op = cOp{Op: "ValueWithShadows", At: kat}
	default:
		op = cOp{Op: "AddShadow", At: kat, Val: val}
	}
	return op
}

func genConc(maxThreads, maxOps int, sched bool) func(t *rapid.T) concCase {
	return func(t *rapid.T) concCase {
		d := concCase{O: genConcOpts(t)}
		d.Init = genConcInit(t, d.O)
		keys := 0
		for i, s := range d.Init {
			keys += len(s.Keys)
			_ = i
		}
		n := between(t, 2, maxThreads)
		total := 0
		for i := 0; i < n; i++ {
			var ops []cOp
			for j := between(t, 1, maxOps); j > 0; j-- {
				op := genOp(t, d.O, len(d.Init), keys, total)
				total++
				// Looking up keys in child sections asks parents too, in several steps.
				if (op.Op == "Key" || op.Op == "GetKey" || op.Op == "HasKey") && op.At > 0 && strings.Contains(string(d.Init[op.At-1].Name), ".") {
					op.At = 1
				}
				// Keys of a raw section are not written.
				if (op.Op == "Key" || op.Op == "NewKey" || op.Op == "NewBooleanKey") && op.At > 0 && d.Init[op.At-1].Raw {
					op.At = 1
				}
				ops = append(ops, op)
			}
			d.Threads = append(d.Threads, ops)
		}
		// A default section behind others is not written as such.
		write := chance(t, 50)
		for _, ops := range d.Threads {
			for i, op := range ops {
				switch {
				case op.Op == "WriteTo" && !write:
					ops[i] = cOp{Op: "Sections"}
				case (op.Op == "DeleteSection" || op.Op == "DeleteSectionWithIndex") && op.Name == "" && write:
					ops[i].Name = "a"
				}
			}
		}
		if sched {
			for i := between(t, 4, 24); i > 0; i-- {
				d.Sched = append(d.Sched, pick(t, 0, 0, 1, 1, 2, 3))
			}
		}
		return d
	}
}

func genMix(t *rapid.T) concCase {
	d := concCase{O: genConcOpts(t)}
	d.O.AllowNestedValues = chance(t, 50)
	d.Init = genConcInit(t, d.O)
	keys := 0
	for _, s := range d.Init {
		keys += len(s.Keys)
	}
	n := between(t, 2, 6)
	for i := 0; i < n; i++ {
		var ops []cOp
		for j := between(t, 5, 25); j > 0; j-- {
			op := genOp(t, d.O, len(d.Init), keys, len(ops))
			if chance(t, 40) {
				op = cOp{Op: pick(t, "String", "Convert", "Convert", "Must", "MapTo", "ParentKeys", "NewRaw", "AddNested", "NestedValues", "NewBooleanKey", "HasKey", "Key", "SetBody", "WriteTo"),
					At: between(t, 0, len(d.Init)), Name: pick(t, S("k1"), S("k2"), S("N")), Val: pick(t, S("%(k1)s"), S("%(k2)s x"), S("5"), S("a,b"), S("v1")), I: intn(t, 24)}
				if op.Op == "NewRaw" {
					op.Name = pick(t, S("a"), S("RAW"))
				}
			}
			ops = append(ops, op)
		}
		d.Threads = append(d.Threads, ops)
	}
	return d
}

func init() {
	register("C29",
		"a scheduled case is non-trivial when the schedule switched goroutines in the middle of an operation while another one ran; every freely running case with at least two goroutines is, on one file or on one each",
		sub[concCase]{name: "schedule", quick: 30000, thoro: 900000, gen: genConc(3, 4, true), check: checkSchedule},
		sub[concCase]{name: "free", quick: 6000, thoro: 150000, gen: genConc(4, 3, false), check: checkFree},
		sub[concCase]{name: "mix", quick: 3000, thoro: 80000, gen: genMix, check: checkMix},
		sub[filesCase]{name: "files", quick: 2500, thoro: 60000, gen: genFiles, check: checkFiles},
	).race = true
}
