package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/go-ini/ini"
	"pgregory.net/rapid"
)

// S is a string that survives JSON whatever bytes it holds.
type S string

func (s S) MarshalJSON() ([]byte, error) {
	return json.Marshal(strconv.QuoteToASCII(string(s)))
}

func (s *S) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(q)
	if err != nil {
		return err
	}
	*s = S(u)
	return nil
}

func strs(in []S) []string {
	out := make([]string, len(in))
	for i := range in {
		out[i] = string(in[i])
	}
	return out
}

// Ctx collects what one case was about.
type Ctx struct {
	nontrivial bool
	labels     []string
	excluded   string
}

// NonTrivial marks the case as one that exercises the property.
func (c *Ctx) NonTrivial(b bool) {
	if b {
		c.nontrivial = true
	}
}

// Label counts the case under the given class when cond holds.
func (c *Ctx) Label(cond bool, name string) {
	if cond {
		c.labels = append(c.labels, name)
	}
}

// Exclude records that a case (or a part of it) was not judged.
func (c *Ctx) Exclude(why string) { c.excluded = why }

// subCheck is one executable check of a property.
type subCheck interface {
	Name() string
	N(tier string) int
	Explore(w *worker, seed uint64, n int)
	Replay(raw json.RawMessage) error
}

type sub[T any] struct {
	name    string
	quick   int
	thoro   int
	gen     func(t *rapid.T) T
	check   func(c *Ctx, v T) error
	oneProc bool
}

func (s sub[T]) Name() string { return s.name }

func (s sub[T]) N(tier string) int {
	if tier == "thorough" {
		return s.thoro
	}
	return s.quick
}

type violation struct {
	msg   string
	stack string
}

// harnessPanic is a panic that did not come out of the code under test.
type harnessPanic struct {
	val   any
	stack string
}

const iniPkg = "github.com/go-ini/ini."

// panicFromIni tells whether the panic happened below a call into the package
// (other than in a callback of the harness called from it).
func panicFromIni(stack string) bool {
	lines := strings.Split(stack, "\n")
	seenPanic := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seenPanic = true
			continue
		}
		if !seenPanic || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, iniPkg) {
			return true
		}
		if strings.HasPrefix(l, "main.") {
			return false
		}
	}
	return false
}

// curDefault is the name of the default section while a case runs or is drawn.
var curDefault = "DEFAULT"

// withDefault runs fn with another name for the default section.
func withDefault(name string, fn func()) {
	defer func() { curDefault, ini.DefaultSection = "DEFAULT", "DEFAULT" }()
	curDefault, ini.DefaultSection = name, name
	fn()
}

func resetGlobals() {
	ini.DefaultHeader = false
	ini.PrettySection = true
	ini.PrettyFormat = true
	ini.PrettyEqual = false
	ini.DefaultFormatLeft = ""
	ini.DefaultFormatRight = ""
	ini.LineBreak = "\n"
	ini.DefaultSection = curDefault
}

func (s sub[T]) run(c *Ctx, v T) (err error) {
	defer func() {
		if p := recover(); p != nil {
			st := string(debug.Stack())
			if panicFromIni(st) {
				err = fmt.Errorf("panic: %v\n%s", p, trimStack(st))
				return
			}
			panic(harnessPanic{p, st})
		}
	}()
	curDefault = "DEFAULT"
	resetGlobals()
	return s.check(c, v)
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func (s sub[T]) Replay(raw json.RawMessage) error {
	var v T
	if err := json.Unmarshal(raw, &v); err != nil {
		return fmt.Errorf("replay file: %v", err)
	}
	var c Ctx
	setCurrent(s.name, v)
	defer setCurrent("", nil)
	return s.run(&c, v)
}

type subStats struct {
	Evals      int            `json:"evals"`
	NonTrivial int            `json:"nontrivial"`
	Labels     map[string]int `json:"labels"`
	Excluded   map[string]int `json:"excluded"`
	Samples    []any          `json:"samples"`
	hashes     map[uint64]struct{}
	Hashes     []uint64 `json:"hashes"`
}

type failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
	Seed     uint64          `json:"rapid_seed,omitempty"`
}

type workerOut struct {
	Subs    map[string]*subStats `json:"subs"`
	Failure *failure             `json:"failure"`
	Broken  string               `json:"broken"`
}

type worker struct {
	prop  string
	shard int
	out   workerOut
	trace string // file to write each case to before it runs
	path  string
}

func (w *worker) stats(name string) *subStats {
	st := w.out.Subs[name]
	if st == nil {
		st = &subStats{Labels: map[string]int{}, Excluded: map[string]int{}, hashes: map[uint64]struct{}{}}
		w.out.Subs[name] = st
	}
	return st
}

func (w *worker) save() {
	for _, st := range w.out.Subs {
		st.Hashes = st.Hashes[:0]
		for h := range st.hashes {
			st.Hashes = append(st.Hashes, h)
		}
	}
	b, err := json.Marshal(w.out)
	if err != nil {
		fatal("worker output: %v", err)
	}
	if err := os.WriteFile(w.path+".tmp", b, 0o644); err != nil {
		fatal("worker output: %v", err)
	}
	if err := os.Rename(w.path+".tmp", w.path); err != nil {
		fatal("worker output: %v", err)
	}
}

// quietTB satisfies rapid.TB without a testing binary around.
type quietTB struct {
	name   string
	failed bool
	msgs   []string
}

type tbStop struct{}

func (q *quietTB) Helper()              {}
func (q *quietTB) Name() string         { return q.name }
func (q *quietTB) Logf(string, ...any)  {}
func (q *quietTB) Log(...any)           {}
func (q *quietTB) Skipf(string, ...any) { panic(tbStop{}) }
func (q *quietTB) Skip(...any)          { panic(tbStop{}) }
func (q *quietTB) SkipNow()             { panic(tbStop{}) }
func (q *quietTB) Error(a ...any)       { q.failed = true; q.msgs = append(q.msgs, fmt.Sprint(a...)) }
func (q *quietTB) Fatalf(f string, a ...any) {
	q.Errorf(f, a...)
	panic(tbStop{})
}
func (q *quietTB) Errorf(f string, a ...any) {
	q.failed = true
	q.msgs = append(q.msgs, fmt.Sprintf(f, a...))
}
func (q *quietTB) Fatal(a ...any) { q.Error(a...); panic(tbStop{}) }
func (q *quietTB) FailNow()       { q.failed = true; panic(tbStop{}) }
func (q *quietTB) Fail()          { q.failed = true }
func (q *quietTB) Failed() bool   { return q.failed }

func (s sub[T]) Explore(w *worker, seed uint64, n int) {
	if n <= 0 {
		return
	}
	st := w.stats(s.name)
	setFlag("rapid.seed", strconv.FormatUint(seed, 10))
	setFlag("rapid.checks", strconv.Itoa(n))
	setFlag("rapid.nofailfile", "true")
	shrink := os.Getenv("PBT_SHRINK")
	if shrink == "" {
		shrink = "15s"
	}
	setFlag("rapid.shrinktime", shrink)

	var failed bool
	var lastErr error
	var lastCase T
	tb := &quietTB{name: "x"}
	func() {
		defer func() {
			if p := recover(); p != nil {
				if _, ok := p.(tbStop); ok {
					return
				}
				panic(p)
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			v := s.gen(t)
			setCurrent(s.name, v)
			if w.trace != "" {
				writeTrace(w, s.name, v)
			}
			var c Ctx
			err := s.runGuarded(&c, v)
			setCurrent("", nil)
			if err != nil {
				failed = true
				lastErr, lastCase = err, v
				t.Fatalf("violation")
			}
			if failed {
				return // shrinking
			}
			st.Evals++
			for _, l := range c.labels {
				st.Labels[l]++
			}
			if c.excluded != "" {
				st.Excluded[c.excluded]++
			}
			if c.nontrivial {
				st.NonTrivial++
				b, err := json.Marshal(v)
				if err != nil {
					fatal("case of %s: %v", s.name, err)
				}
				h := fnv.New64a()
				h.Write(b)
				sum := h.Sum64()
				if _, dup := st.hashes[sum]; !dup {
					st.hashes[sum] = struct{}{}
					if len(st.Samples) < 2 && len(b) < 1500 && (st.NonTrivial%7 == 3) {
						st.Samples = append(st.Samples, json.RawMessage(b))
					}
				}
			}
		})
	}()
	if failed {
		b, err := json.Marshal(lastCase)
		if err != nil {
			fatal("case of %s: %v", s.name, err)
		}
		w.out.Failure = &failure{Property: w.prop, Sub: s.name, Error: lastErr.Error(), Case: b, Seed: seed}
		return
	}
	if tb.failed {
		w.out.Broken = fmt.Sprintf("%s: %s", s.name, strings.Join(tb.msgs, "\n"))
	}
}

// runGuarded ends the process for a panic of the harness itself, so that it is
// never taken for a violation.
func (s sub[T]) runGuarded(c *Ctx, v T) error {
	defer func() {
		if p := recover(); p != nil {
			if hp, ok := p.(harnessPanic); ok {
				b, _ := json.Marshal(v)
				fatal("harness panic in %s: %v\n%s\ncase: %s", s.name, hp.val, hp.stack, b)
			}
			panic(p)
		}
	}()
	return s.run(c, v)
}

func writeTrace(w *worker, name string, v any) {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("case of %s: %v", name, err)
	}
	fb, _ := json.Marshal(failure{Property: w.prop, Sub: name, Case: b})
	if err := os.WriteFile(w.trace, fb, 0o644); err != nil {
		fatal("trace: %v", err)
	}
}

// --- watchdog -------------------------------------------------------------

type current struct {
	sub string
	val any
}

var cur atomic.Pointer[current]

func setCurrent(sub string, v any) {
	if sub == "" {
		cur.Store(nil)
		return
	}
	cur.Store(&current{sub, v})
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	caseCPULimit  = 25 * time.Second
	caseHeapLimit = 2 << 30
	blockedPolls  = 40 // of 250 ms
)

// watchdog reports a case that does not end: one that burns CPU time or
// allocates without limit, or whose goroutines all wait for locks. Limits are
// in terms of CPU time and states, not of wall-clock time.
func watchdog(report func(f failure)) {
	var last *current
	var cpu0 time.Duration
	blocked := 0
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(250 * time.Millisecond)
		c := cur.Load()
		if c == nil {
			last = nil
			continue
		}
		if c != last {
			last, cpu0, blocked = c, cpuTime(), 0
		}
		why := ""
		metrics.Read(sample)
		if used := sample[0].Value.Uint64(); used > caseHeapLimit {
			why = fmt.Sprintf("memory use runs away: %d MB in use in one case", used>>20)
		} else if d := cpuTime() - cpu0; d > caseCPULimit {
			why = fmt.Sprintf("does not terminate: %v of CPU time in one case", d.Round(time.Second))
		} else if dump := allBlocked(); dump != "" {
			blocked++
			if blocked >= blockedPolls {
				why = "deadlock: all goroutines of the case wait for locks\n" + dump
			}
		} else {
			blocked = 0
		}
		if why == "" || cur.Load() != c {
			continue
		}
		b, err := json.Marshal(c.val)
		if err != nil {
			fatal("case: %v", err)
		}
		buf := make([]byte, 1<<18)
		buf = buf[:runtime.Stack(buf, true)]
		if !strings.Contains(string(buf), iniPkg) {
			// Not inside the code under test: an error of the harness.
			fatal("case of %s: %s\n%s", c.sub, why, buf)
		}
		report(failure{Sub: c.sub, Error: why, Case: b})
	}
}

// allBlocked returns a goroutine dump if every goroutine inside the package
// under test waits for a lock and at least one does.
func allBlocked() string {
	buf := make([]byte, 1<<18)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	var keep []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(g, "main.watchdog(") {
			continue
		}
		waiting := strings.Contains(head, "sync.RWMutex") || strings.Contains(head, "sync.Mutex") ||
			strings.Contains(head, "semacquire")
		if strings.Contains(g, iniPkg) {
			if !waiting {
				return ""
			}
			n++
			keep = append(keep, g)
			continue
		}
		// Goroutines of the harness must be waiting too (for the blocked ones).
		if !waiting && !strings.Contains(head, "sync.WaitGroup") && !strings.Contains(head, "chan ") && !strings.Contains(head, "select") && !strings.Contains(head, "syscall") && !strings.Contains(head, "IO wait") {
			return ""
		}
	}
	if n == 0 {
		return ""
	}
	return strings.Join(keep, "\n\n")
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "pbt: "+format+"\n", args...)
	os.Exit(2)
}

// --- seeds ----------------------------------------------------------------

func mix(parts ...any) uint64 {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	x >>= 1 // leaves room for rapid's increments
	if x == 0 {
		x = 1
	}
	return x
}

// --- properties -----------------------------------------------------------

type property struct {
	id   string
	rule string
	subs []subCheck
	race bool
}

var props = map[string]*property{}

func register(id, rule string, subs ...subCheck) *property {
	p := &property{id: id, rule: rule, subs: subs}
	props[id] = p
	return p
}

func propIDs() []string {
	ids := make([]string, 0, len(props))
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func writeReplay(f *failure) string {
	dir := filepath.Join(verifDir(), "replays")
	_ = os.MkdirAll(dir, 0o755)
	h := fnv.New32a()
	h.Write([]byte(f.Sub))
	h.Write(f.Case)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%08x.json", f.Property, f.Sub, h.Sum32()))
	b, _ := json.MarshalIndent(f, "", " ")
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		fatal("replay file: %v", err)
	}
	return p
}
