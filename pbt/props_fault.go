package main

import (
	"fmt"
	"io"
	"strings"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// faultCase is a load in which reading one source fails.
type faultCase struct {
	O        Opts
	Srcs     []srcSpec // bytes, file, reader, closer, missing, dir
	Bad      int       // number of the failing source, -1 for none
	At       int       // offset of the failure
	Once     bool
	WithData bool
	Err      int // which error
	Chunks   []int
	EOFLast  bool
	Append   int // how many of the sources are added by Append
	WF       bool
}

func genFault(t *rapid.T) faultCase {
	o := loadOpts(t, pick(t, 15, 40, 0))
	o.Loose = chance(t, 20)
	o.ShortCircuit = chance(t, 15)
	o.ReaderBufferSize = pick(t, 0, 0, 0, 16, 100, 4097)
	d := faultCase{O: o, Bad: -1, WF: true}
	cf := stdConf(t)
	cf.big = pick(t, 0, 0, 4)
	b := newDoc(t, &MFile{O: o}, cf)
	n := pick(t, 1, 1, 2, 3, 4)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.startSource()
		}
		b.items(intn(t, pick(t, 6, 2, 20)))
		s := srcSpec{Kind: pick(t, "closer", "closer", "reader", "bytes", "file"), Data: S(b.finish())}
		if chance(t, 12) {
			s.Data = S(soup(t, 4, 3))
			d.WF = false
		}
		if chance(t, 8) {
			s = srcSpec{Kind: pick(t, "missing", "dir")}
		}
		d.Srcs = append(d.Srcs, s)
	}
	if o.AllowShadows || o.AllowBooleanKeys && o.AllowNestedValues {
		d.WF = false // some keys refuse to be read again by Append
	}
	if chance(t, 85) {
		d.Bad = intn(t, n)
		s := &d.Srcs[d.Bad]
		if s.Kind != "reader" {
			s.Kind = "closer"
		}
		l := len(s.Data)
		switch {
		case chance(t, 25):
			d.At = intn(t, min(l+1, 8)) // around the byte-order mark
		case chance(t, 25):
			d.At = l - intn(t, min(l+1, 4))
		case l < 1000:
			d.At = intn(t, l+1)
		default:
			d.At = min(l, intn(t, 1024)*(l/1000))
		}
		d.Once, d.WithData = chance(t, 50), chance(t, 40)
		if chance(t, 50) {
			d.Err = intn(t, len(injectedErrors))
		}
	}
	d.Chunks = genChunks(t)
	d.EOFLast = chance(t, 30)
	if n > 1 && chance(t, 40) {
		d.Append = between(t, 1, n-1)
	}
	return d
}

func init() {
	register("C14",
		"a case is non-trivial when a read fails before the end of a source with data, or a source behind a missing one or behind a short circuit must stay untouched",
		sub[faultCase]{name: "faults", quick: 70000, thoro: 3000000,
			gen: genFault,
			check: func(c *Ctx, d faultCase) error {
				defer removeUnique()
				srcs := make([]any, len(d.Srcs))
				counters := make([]*source, len(d.Srcs))
				for i, s := range d.Srcs {
					switch s.Kind {
					case "closer", "reader":
						x := newSource(string(s.Data))
						x.chunks, x.eofLast = d.Chunks, d.EOFLast
						if i == d.Bad {
							x.failAt, x.failOnce, x.withData = d.At, d.Once, d.WithData
							x.err = injectedErrors[d.Err%len(injectedErrors)]
						}
						counters[i] = x
						srcs[i] = io.Reader(struct{ io.Reader }{x})
						if s.Kind == "closer" {
							srcs[i] = closer{x}
						}
					case "file":
						p := uniqueFile()
						writeFile(p, string(s.Data))
						srcs[i] = p
					default:
						srcs[i] = s.open()
					}
				}
				// Which sources are read, and does the load have to fail?
				read := make([]bool, len(srcs))
				mustFail, mayFail := false, false
				m := &MFile{O: d.O}
				for i, s := range d.Srcs {
					read[i] = true
					if i == d.Bad {
						mustFail = true
						break
					}
					switch s.Kind {
					case "missing":
						if !d.O.Loose {
							mustFail = true
						} else {
							m.section("")
							continue
						}
					case "dir":
						mustFail = true
					default:
						if m.apply(string(s.Data)) != "" {
							mustFail = true
						}
					}
					if mustFail || d.O.ShortCircuit {
						break
					}
				}
				first := len(srcs) - d.Append
				// Append reads the earlier sources again: a reader is empty then,
				// which makes no further keys but may end a pending shadow.
				if d.Append > 0 {
					mayFail = d.O.AllowShadows || d.O.AllowBooleanKeys && d.O.AllowNestedValues // finding K4
					if d.O.ShortCircuit {
						for i := range read {
							read[i] = read[i] || i < first
						}
					}
				}
				c.Label(d.Append > 0, "append")
				c.Label(d.Bad >= 0, "fault")
				c.Label(d.Once, "once")
				c.Label(d.WithData, "with-data")
				c.Label(d.At == 0 && d.Bad >= 0, "at-start")
				c.Label(d.Bad >= 0 && d.At == len(d.Srcs[max(d.Bad, 0)].Data), "at-end")
				c.Label(d.O.ShortCircuit, "short-circuit")
				c.NonTrivial(d.Bad >= 0 && len(d.Srcs[d.Bad].Data) > 0 || len(srcs) > 1 && (mustFail || d.O.ShortCircuit))

				f, err := loadAny(d.O.ini(), srcs[:first]...)
				if _, ok := err.(both); ok {
					return err
				}
				open := func() error {
					for i, s := range d.Srcs {
						p, ok := srcs[i].(string)
						if s.Kind == "dir" || ok && s.Kind == "file" {
							if err := stillOpen(p); err != nil {
								return fmt.Errorf("source %d: %v", i, err)
							}
						}
					}
					return nil
				}
				if err := open(); err != nil {
					return err
				}
				appended := false
				if err == nil && d.Append > 0 {
					appended = true
					err = f.Append(srcs[first], srcs[first+1:]...)
					if err := open(); err != nil {
						return err
					}
				}
				if d.O.ShortCircuit && d.Append > 0 {
					// Append stops at the first source again; nothing more to say.
					c.Label(true, "short-circuit-append")
				} else if mustFail && err == nil {
					return fmt.Errorf("no error although source %d fails (%v)", d.Bad, injectedErrors[d.Err%len(injectedErrors)])
				} else if !mustFail && !mayFail && err != nil {
					return fmt.Errorf("unexpected error: %v", err)
				}
				for i, x := range counters {
					if x == nil {
						continue
					}
					if x.late && !(appended && i < first) {
						return fmt.Errorf("source %d was read after it was closed", i)
					}
					if d.O.ShortCircuit && d.Append > 0 {
						continue
					}
					if !read[i] && x.reads > 0 {
						return fmt.Errorf("source %d was read, it comes after one that failed or ended the search", i)
					}
					if d.Srcs[i].Kind != "closer" {
						continue
					}
					want := 0
					if x.reads > 0 {
						want = 1
						if appended && i < first {
							want = 2 // each time it is read
						}
					}
					if x.closes != want && !(x.reads > 0 && appended && i < first && x.closes == 1 && err != nil) {
						return fmt.Errorf("source %d: closed %d times, want %d", i, x.closes, want)
					}
				}
				if err == nil {
					if d.Append > 0 {
						_, err := snapshot(f)
						return err
					}
					return checkFile(f, m.snap(), cmp{})
				}
				return nil
			}},
		sub[faultCase]{name: "every-offset", quick: 2500, thoro: 12000,
			gen: func(t *rapid.T) faultCase {
				d := genFault(t)
				d.Srcs = d.Srcs[:1]
				d.Append, d.Bad, d.At = 0, 0, 0
				d.Srcs[0].Kind = "closer"
				if len(d.Srcs[0].Data) > 600 {
					d.Srcs[0].Data = d.Srcs[0].Data[:600]
				}
				return d
			},
			check: func(c *Ctx, d faultCase) error {
				data := string(d.Srcs[0].Data)
				c.NonTrivial(strings.Count(data, "\n") >= 2)
				for at := 0; at <= len(data); at++ {
					for mode := 0; mode < 4; mode++ {
						x := newSource(data)
						x.chunks, x.failAt, x.failOnce, x.withData = d.Chunks, at, mode&1 != 0, mode&2 != 0
						x.err = injectedErrors[(d.Err+at/2)%len(injectedErrors)]
						f, err := ini.LoadSources(d.O.ini(), closer{x})
						if err == nil || f != nil {
							return fmt.Errorf("a failure at offset %d (once %v, with data %v) went unnoticed: file %v, error %v", at, x.failOnce, x.withData, f != nil, err)
						}
						if x.closes != 1 || x.late {
							return fmt.Errorf("failure at offset %d: closed %d times, read after that: %v", at, x.closes, x.late)
						}
					}
				}
				return nil
			}},
	)
}
