package main

import (
	"fmt"
	"os"
	"strings"

	"pgregory.net/rapid"
)

// histStep is one step of the life of a file that has been loaded.
type histStep struct {
	Op   string // reload, append, write, remove, edit
	File int    `json:",omitempty"` // number of the source
	Srcs []srcSpec
	Data S    `json:",omitempty"`
	Edit *mop `json:",omitempty"`
}

type histCase struct {
	O     Opts
	Srcs  []srcSpec
	Steps []histStep
}

// textFor draws the content of one source.
func textFor(t *rapid.T, o Opts, feats map[string]bool) S {
	if chance(t, 10) {
		s := soup(t, 4, 2)
		if _, e := refLoad(o, s); e == "" && !o.AllowShadows {
			return S(s)
		}
	}
	cf := stdConf(t)
	cf.big = 0
	b := newDoc(t, &MFile{O: o}, cf)
	b.items(intn(t, pick(t, 6, 2, 14)))
	for f := range b.feat {
		feats[f] = true
	}
	if chance(t, 4) && !o.AllowShadows { // more than any buffer holds
		pad := strings.Repeat("x", pick(t, 5000, 70000, 140000))
		b.items(1)
		return S(b.finish()) + S("\n[big]\nlong = "+pad+"\nlast = "+pick(t, "1", "2", "3")+"\n")
	}
	return S(b.finish())
}

func histOpts(t *rapid.T) Opts {
	var o Opts
	switch intn(t, 4) {
	case 0:
	case 1:
		o = loadOpts(t, 20)
	default:
		structOpts(t, &o, 20)
		o.AllowShadows = o.AllowShadows || chance(t, 15)
	}
	// Applying a source twice is known to repeat non-unique sections and
	// duplicate shadows, and nested values next to shadows.
	o.AllowNonUniqueSections, o.AllowDuplicateShadowValues = false, false
	if o.AllowShadows {
		o.AllowNestedValues = false
	}
	if o.AllowNestedValues && o.AllowBooleanKeys {
		// Known finding: a key that is both refuses its nested values later.
		if chance(t, 50) {
			o.AllowNestedValues = false
		} else {
			o.AllowBooleanKeys = false
		}
	}
	o.Loose = chance(t, 30)
	o.ShortCircuit = chance(t, 15)
	return o
}

func histSource(t *rapid.T, o Opts, feats map[string]bool) srcSpec {
	s := srcSpec{Kind: pick(t, "file", "bytes", "file"), Data: textFor(t, o, feats)}
	if o.Loose && chance(t, 20) {
		s.Kind, s.Data = "absent", "" // a file that may appear later
	}
	return s
}

var histEdits = opGen{
	ops:  []string{"new-section", "new-key", "new-key", "set-value", "delete-key", "delete-section", "key-comment", "set-comment", "new-bool", "key", "add-shadow"},
	secs: []string{"a", "b", "s1", "a.b", "Sec", "", "DEFAULT", "own"},
	keys: []string{"a", "b", "key", "name", "Key", "k1", "mine", "#1"},
	val:  func(t *rapid.T) string { return pick(t, "", "v", "edited", "1", "x y", "a\nb") },
}

func genHist(t *rapid.T) histCase {
	d := histCase{O: histOpts(t)}
	feats := map[string]bool{}
	for i := between(t, 1, 3); i > 0; i-- {
		d.Srcs = append(d.Srcs, histSource(t, d.O, feats))
	}
	files := len(d.Srcs)
	for i := between(t, 1, pick(t, 5, 3, 10)); i > 0; i-- {
		st := histStep{Op: pick(t, "reload", "edit", "write", "append", "edit", "reload", "remove")}
		switch st.Op {
		case "append":
			for j := pick(t, 1, 1, 2, 3); j > 0; j-- {
				s := histSource(t, d.O, feats)
				if chance(t, 6) {
					s = srcSpec{Kind: pick(t, "int", "missing", "dir", "nil")}
				}
				st.Srcs = append(st.Srcs, s)
				files++
			}
		case "write":
			st.File = intn(t, files)
			st.Data = textFor(t, d.O, feats)
			if chance(t, 6) {
				st.Data = S(pick(t, "[unclosed\n", "=x\n", "k = `v\n"))
			}
		case "remove":
			st.File = intn(t, files)
			if !d.O.Loose && chance(t, 70) {
				st.Op = "reload"
			}
		case "edit":
			e := histEdits.draw(t)
			st.Edit = &e
		}
		d.Steps = append(d.Steps, st)
	}
	if d.O.AllowShadows && (feats["auto-increment"] || feats["boolean-key"]) {
		// Known finding: such keys refuse to be read again.
		d.O.AllowShadows = false
	}
	return d
}

type histRun struct {
	machine
	srcs  []srcSpec
	paths []string
	c     *Ctx
}

func (h *histRun) open(s srcSpec) (any, string) {
	switch s.Kind {
	case "file":
		p := uniqueFile()
		writeFile(p, string(s.Data))
		return p, p
	case "absent":
		p := uniqueFile()
		return p, p
	}
	return s.open(), ""
}

// apply is what reading all sources again does to the model.
func (h *histRun) apply() bool {
	for _, s := range h.srcs {
		switch s.Kind {
		case "absent", "missing":
			if !h.m.O.Loose {
				return false
			}
			h.m.section("")
			continue
		case "dir":
			return false
		}
		if h.m.apply(string(s.Data)) != "" {
			return false
		}
		if h.m.O.ShortCircuit {
			break
		}
	}
	return true
}

func checkHist(c *Ctx, d histCase) error {
	defer removeUnique()
	h := &histRun{c: c}
	h.m = &MFile{O: d.O}
	var open []any
	for _, s := range d.Srcs {
		a, p := h.open(s)
		open = append(open, a)
		h.srcs = append(h.srcs, s)
		h.paths = append(h.paths, p)
	}
	ok := h.apply()
	f, err := loadAny(d.O.ini(), open...)
	if _, is := err.(both); is {
		return err
	}
	if (err == nil) != ok {
		return fmt.Errorf("load: error %v, want error: %v", err, !ok)
	}
	if err != nil {
		return nil
	}
	h.f = f
	c.Label(d.O.AllowShadows, "shadows")
	changed := false // a source or the file was changed since the load
	reloads := 0
	for i, st := range d.Steps {
		where := fmt.Sprintf("step %d (%s)", i, st.Op)
		switch st.Op {
		case "edit":
			op := *st.Edit
			if d.O.AllowShadows && (op.Op == "new-bool" || op.Key == "#1") {
				continue
			}
			if err := h.step(op); err != nil {
				return fmt.Errorf("%s: %v", where, err)
			}
			changed = true
			c.Label(true, "edit")
		case "write", "remove":
			j := st.File % len(h.srcs)
			if h.paths[j] == "" {
				continue
			}
			if st.Op == "write" {
				writeFile(h.paths[j], string(st.Data))
				h.srcs[j] = srcSpec{Kind: "file", Data: st.Data}
			} else {
				_ = os.Remove(h.paths[j])
				h.srcs[j] = srcSpec{Kind: "absent"}
			}
			changed = true
			c.Label(true, "source-changed")
			continue // nothing happens to the file yet
		case "reload", "append":
			var err error
			before, e := snapshot(h.f)
			if e != nil {
				return e
			}
			bad := false
			if st.Op == "append" {
				var more []any
				for _, s := range st.Srcs {
					a, p := h.open(s)
					more = append(more, a)
					bad = bad || s.Kind == "int" || s.Kind == "nil"
					h.srcs = append(h.srcs, s)
					h.paths = append(h.paths, p)
				}
				err = h.f.Append(more[0], more[1:]...)
				c.Label(true, "append")
				if changed {
					c.Label(true, "append-after-change")
				}
			} else {
				err = h.f.Reload()
				c.Label(true, "reload")
			}
			ok := !bad && h.apply()
			if (err == nil) != ok {
				return fmt.Errorf("%s: error %v, want error: %v", where, err, !ok)
			}
			if err != nil && st.Op == "reload" && !changed {
				return fmt.Errorf("%s with unchanged sources: %v", where, err)
			}
			if err != nil {
				c.Label(true, st.Op+"-fails")
				c.NonTrivial(i > 0)
				_, e := snapshot(h.f)
				return e
			}
			reloads++
			c.NonTrivial(changed || len(h.srcs) > 1)
			if st.Op == "reload" && !changed {
				if err := checkFile(h.f, before, cmp{}); err != nil {
					return fmt.Errorf("%s with unchanged sources: %v", where, err)
				}
				c.Label(true, "unchanged-reload")
			}
		}
		if err := h.agree(); err != nil {
			return fmt.Errorf("%s: %v", where, err)
		}
	}
	return nil
}

// --- Append instead of listing --------------------------------------------------

type appendCase struct {
	O    Opts
	Srcs []srcSpec
	At   []int // how many sources each Append adds; the rest is loaded
}

func init() {
	register("C13",
		"a case is non-trivial when sources are applied again after an edit or a change of a source, or several sources take part (history), or when at least one Append adds to a file (append)",
		sub[histCase]{name: "history", quick: 40000, thoro: 1500000, gen: genHist, check: checkHist},
		sub[appendCase]{name: "append", quick: 30000, thoro: 1000000,
			gen: func(t *rapid.T) appendCase {
				d := appendCase{O: histOpts(t)}
				d.O.ShortCircuit = false
				feats := map[string]bool{}
				n := pick(t, between(t, 2, 5), few(t, 2))
				for i := 0; i < n; i++ {
					s := srcSpec{Kind: pick(t, "bytes", "file"), Data: textFor(t, d.O, feats)}
					if d.O.Loose && chance(t, 15) {
						s = srcSpec{Kind: "missing"}
					}
					d.Srcs = append(d.Srcs, s)
				}
				for left := n - 1; left > 0 && (len(d.At) == 0 || chance(t, 60)); {
					a := between(t, 1, left)
					d.At = append(d.At, a)
					left -= a
				}
				// the last one may be one that can be read only once
				if chance(t, 30) && d.Srcs[n-1].Kind != "missing" {
					d.Srcs[n-1].Kind = pick(t, "reader", "closer")
				}
				if d.O.AllowShadows && (feats["auto-increment"] || feats["boolean-key"]) {
					d.O.AllowShadows = false
				}
				return d
			},
			check: func(c *Ctx, d appendCase) error {
				defer removeUnique()
				c.NonTrivial(len(d.At) > 0)
				c.Label(len(d.At) > 1, "several-appends")
				all := func() []any {
					out := make([]any, len(d.Srcs))
					for i, s := range d.Srcs {
						if s.Kind == "file" {
							p := uniqueFile()
							writeFile(p, string(s.Data))
							out[i] = p
							continue
						}
						out[i] = s.open()
					}
					return out
				}
				want, wantErr := loadAny(d.O.ini(), all()...)
				if _, ok := wantErr.(both); ok {
					return wantErr
				}
				srcs := all()
				n := len(srcs)
				for _, a := range d.At {
					n -= a
				}
				f, err := loadAny(d.O.ini(), srcs[:n]...)
				for i := 0; err == nil && i < len(d.At); i++ {
					m := n + d.At[i]
					err = f.Append(srcs[n], srcs[n+1:m]...)
					n = m
				}
				if (err == nil) != (wantErr == nil) {
					return fmt.Errorf("Append: %v, listing at load time: %v", err, wantErr)
				}
				if err != nil {
					c.Label(true, "fails")
					return nil
				}
				ws, err := snapshot(want)
				if err != nil {
					return err
				}
				return checkFile(f, ws, cmp{})
			}},
	)
}
