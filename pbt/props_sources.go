package main

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// srcSpec is one data source: its content and the way it is handed over.
type srcSpec struct {
	Kind string // bytes, file, link, reader, closer, missing, missing-dir, dangling, dir, int, nil, stringer
	Data S      `json:",omitempty"`
}

func (s srcSpec) open() any {
	switch s.Kind {
	case "bytes":
		return []byte(s.Data)
	case "file":
		return scratchFile(string(s.Data))
	case "link":
		return link(scratchFile(string(s.Data)))
	case "dangling":
		return link("no-such-file")
	case "reader":
		return io.Reader(strings.NewReader(string(s.Data)))
	case "closer":
		return closer{newSource(string(s.Data))}
	case "missing":
		return missingFile()
	case "missing-dir":
		return filepath.Join(scratchDir(), "no-such-dir", "x.ini")
	case "dir":
		return scratchDir()
	case "int":
		return 42
	case "nil":
		return nil
	case "strings":
		return []string{"a=1"}
	}
	panic("srcSpec: " + s.Kind)
}

func openAll(specs []srcSpec) []any {
	out := make([]any, len(specs))
	for i, s := range specs {
		out[i] = s.open()
	}
	return out
}

// --- C12 ----------------------------------------------------------------------

type mergeCase struct {
	O     Opts
	Srcs  []srcSpec
	Want  Snap
	Fails bool
	Feats []S
}

// refMerge is the outcome of loading the sources one after another.
func refMerge(o Opts, srcs []srcSpec) (*MFile, bool) {
	for _, s := range srcs {
		if s.Kind == "int" || s.Kind == "nil" || s.Kind == "strings" {
			return nil, false
		}
	}
	m := &MFile{O: o}
	for _, s := range srcs {
		switch s.Kind {
		case "missing", "missing-dir", "dangling":
			if !o.Loose {
				return nil, false
			}
			m.section("")
			continue
		case "dir":
			return nil, false
		}
		if m.apply(string(s.Data)) != "" {
			return nil, false
		}
		if o.ShortCircuit {
			break
		}
	}
	return m, true
}

func mergeOpts(t *rapid.T) Opts {
	var o Opts
	switch intn(t, 6) {
	case 0, 1:
		structOpts(t, &o, 25)
	case 2:
		o = loadOpts(t, 20)
	case 3: // those of a helper
		switch intn(t, 4) {
		case 1:
			o.Loose = true
		case 2:
			o.Insensitive = true
		case 3:
			o.AllowShadows = true
		}
		return o
	}
	o.Loose = chance(t, 30)
	o.ShortCircuit = chance(t, 20)
	return o
}

func init() {
	register("C12",
		"a case is non-trivial when at least two sources take part and the file has at least two keys, or when loading has to fail because of one of several sources (merge), or at least two sources have two lines each (soup)",
		sub[mergeCase]{name: "merge", quick: 50000, thoro: 2000000,
			gen: func(t *rapid.T) mergeCase {
				o := mergeOpts(t)
				d := mergeCase{O: o}
				cf := stdConf(t)
				cf.big = 0
				m := &MFile{O: o}
				b := newDoc(t, m, cf)
				n := pick(t, between(t, 1, 5), few(t, 1))
				loaded, unsupported := 0, false
				for i := 0; i < n; i++ {
					if i > 0 {
						b.startSource()
					}
					kind := pick(t, "bytes", "bytes", "file", "reader", "closer", "file", "link")
					if chance(t, 8) {
						kind = pick(t, "missing", "missing-dir", "dangling", "dir", "int", "nil", "strings")
					} else if o.Loose && chance(t, 25) {
						kind = pick(t, "missing", "missing", "dangling")
					}
					skipped := o.ShortCircuit && loaded > 0
					s := srcSpec{Kind: kind}
					switch kind {
					case "int", "nil", "strings":
						unsupported = true
					case "dir":
						d.Fails = d.Fails || !skipped
					case "missing", "missing-dir", "dangling":
						d.Fails = d.Fails || !o.Loose && !skipped
					default:
						if skipped || d.Fails { // anything: it is not read
							s.Data = S(pick(t, "zz = 1\n", "[unclosed\n", "nothing", ""))
							break
						}
						if chance(t, 4) {
							s.Data = S(pick(t, "[unclosed\n", "=x\n", "k=`v\n"))
							if _, e := refLoad(o, string(s.Data)); e != "" {
								d.Fails = true
								break
							}
							if m.apply(string(s.Data)) != "" {
								d.Fails = true
							}
							loaded++
							break
						}
						b.items(intn(t, pick(t, 6, 2, 14)))
						s.Data = S(b.finish())
						loaded++
					}
					d.Srcs = append(d.Srcs, s)
				}
				d.Fails = d.Fails || unsupported
				d.Want = m.snap()
				d.Feats = b.feats()
				if r, ok := refMerge(o, d.Srcs); selfTest && ok == d.Fails {
					panic(fmt.Sprintf("selftest: %+v: fails %v", d, !ok))
				} else if selfTest && ok {
					if err := (cmp{}).diff(r.snap(), d.Want); err != nil {
						panic(fmt.Sprintf("selftest: %+v: %v", d, err))
					}
				}
				return d
			}, check: checkMerge},
		sub[mergeCase]{name: "soup", quick: 50000, thoro: 2000000,
			gen: func(t *rapid.T) mergeCase {
				o := mergeOpts(t)
				o.AllowNestedValues = o.AllowNestedValues && !o.AllowPythonMultilineValues
				d := mergeCase{O: o}
				for i := between(t, 1, 4); i > 0; i-- {
					s := srcSpec{Kind: pick(t, "bytes", "file", "closer"), Data: S(soup(t, 5, 2))}
					switch {
					case chance(t, 25):
						s.Data = smallDoc(t)
					case len(d.Srcs) > 0 && chance(t, 25): // once more
						s.Data = pickFrom(t, d.Srcs).Data
					}
					if chance(t, 10) {
						s.Kind = "missing"
					}
					d.Srcs = append(d.Srcs, s)
				}
				m, ok := refMerge(o, d.Srcs)
				d.Fails = !ok
				if ok {
					d.Want = m.snap()
				}
				return d
			}, check: checkMerge},
	)
}

// smallDoc is a document of very few names.
func smallDoc(t *rapid.T) S {
	var b strings.Builder
	for i := between(t, 1, 4); i > 0; i-- {
		b.WriteString(pick(t, "[a]\n", "[b]\n", "", "") + pick(t, "a", "b") + " = " + pick(t, "1", "2", "3", "") + "\n")
	}
	return S(b.String())
}

func checkMerge(c *Ctx, d mergeCase) error {
	keys := 0
	for _, s := range d.Want {
		keys += len(s.Keys)
	}
	c.NonTrivial(len(d.Srcs) >= 2 && (keys >= 2 || d.Fails))
	c.Label(d.Fails, "fails")
	c.Label(d.O.ShortCircuit, "short-circuit")
	c.Label(d.O.Loose, "loose")
	for _, s := range d.Srcs {
		c.Label(true, "source-"+s.Kind)
	}
	srcs := openAll(d.Srcs)
	f, err := loadAny(d.O.ini(), srcs...)
	if _, ok := err.(both); ok {
		return err
	}
	if d.Fails {
		if err == nil {
			return fmt.Errorf("loading succeeded, an error is due")
		}
		if len(d.Srcs) == 1 && d.Srcs[0].Kind == "missing" && !os.IsNotExist(err) {
			return fmt.Errorf("the error of a missing file is no such one: %v", err)
		}
	} else {
		if err != nil {
			return fmt.Errorf("loading failed: %v", err)
		}
		if err := checkFile(f, d.Want, cmp{}); err != nil {
			return err
		}
	}
	if len(d.Srcs) == 1 && d.Srcs[0].Data == "" && d.Srcs[0].Kind == "bytes" {
		c.Label(true, "empty")
		if err := checkFile(ini.Empty(d.O.ini()), d.Want, cmp{}); err != nil {
			return fmt.Errorf("Empty: %v", err)
		}
	}
	// The loading functions are the same with their option set.
	helpers := map[string]func(any, ...any) (*ini.File, error){
		fmt.Sprintf("%+v", Opts{}):                   ini.Load,
		fmt.Sprintf("%+v", Opts{Loose: true}):        ini.LooseLoad,
		fmt.Sprintf("%+v", Opts{Insensitive: true}):  ini.InsensitiveLoad,
		fmt.Sprintf("%+v", Opts{AllowShadows: true}): ini.ShadowLoad,
	}
	if h := helpers[fmt.Sprintf("%+v", d.O)]; h != nil {
		c.Label(true, "helper")
		srcs := openAll(d.Srcs)
		f, err := h(srcs[0], srcs[1:]...)
		if (err != nil) != d.Fails {
			return fmt.Errorf("loading function: error %v, want error: %v", err, d.Fails)
		}
		if err == nil {
			if err := checkFile(f, d.Want, cmp{}); err != nil {
				return fmt.Errorf("loading function: %v", err)
			}
		}
	}
	return nil
}
