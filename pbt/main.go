package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

func setFlag(name, val string) {
	if err := flag.Set(name, val); err != nil {
		fatal("flag %s: %v", name, err)
	}
}

func main() {
	testing.Init()
	_ = flag.CommandLine.Parse(nil)
	if len(os.Args) < 2 {
		fatal("usage: pbt run|worker|replay|list ...")
	}
	debug.SetMaxStack(256 << 20)
	args := os.Args[2:]
	switch os.Args[1] {
	case "run":
		os.Exit(runMain(args))
	case "worker":
		workerMain(args)
	case "replay":
		os.Exit(replayMain(args))
	case "corpus":
		corpusMain(args)
	case "list":
		for _, id := range propIDs() {
			fmt.Println(id, props[id].race)
		}
	default:
		if !extraMode(os.Args[1], args) {
			fatal("unknown mode %q", os.Args[1])
		}
	}
}

// corpus: replays the committed inputs of one property in a fresh process.
// Exit 0: all hold. 1: one fails (written to OUT). 2: error.
func corpusMain(args []string) {
	id, out := args[0], args[1]
	files, _ := filepath.Glob(filepath.Join(verifDir(), "corpus", id, "*.json"))
	sort.Strings(files)
	go watchdog(func(f failure) {
		f.Property = id
		writeFailure(out, &f)
		os.Exit(1)
	})
	defer cleanScratch()
	for _, file := range files {
		f := readFailure(file)
		// In case the process dies.
		writeFailure(out+".cur", f)
		if err := replayCase(f); err != nil {
			f.Error = fmt.Sprintf("%s: %v", filepath.Base(file), err)
			writeFailure(out, f)
			os.Exit(1)
		}
	}
	fmt.Println(len(files))
}

func writeFailure(path string, f *failure) {
	b, err := json.Marshal(f)
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fatal("failure file: %v", err)
	}
}

func readFailure(path string) *failure {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("%s: %v", path, err)
	}
	return &f
}

func replayCase(f *failure) error {
	p := props[f.Property]
	if p == nil {
		fatal("replay: unknown property %q", f.Property)
	}
	for _, s := range p.subs {
		if s.Name() == f.Sub {
			n := 1
			if p.race {
				n = 200
			}
			for i := 0; i < n; i++ {
				if err := s.Replay(f.Case); err != nil {
					return err
				}
			}
			return nil
		}
	}
	fatal("replay: property %s has no check %q", f.Property, f.Sub)
	return nil
}

func replayMain(args []string) int {
	f := readFailure(args[0])
	defer cleanScratch()
	go watchdog(func(w failure) {
		fmt.Println(w.Error)
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, args[0])
		os.Exit(1)
	})
	if err := replayCase(f); err != nil {
		fmt.Println(err)
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, args[0])
		return 1
	}
	fmt.Println("holds")
	return 0
}

// worker ID SUBSEED TIER SHARD SHARDS OUT [TRACE]
func workerMain(args []string) {
	if len(args) < 6 {
		fatal("worker: bad arguments")
	}
	id, tier, out := args[0], args[2], args[5]
	seed, err1 := strconv.ParseInt(args[1], 10, 64)
	shard, err2 := strconv.Atoi(args[3])
	shards, err3 := strconv.Atoi(args[4])
	if err1 != nil || err2 != nil || err3 != nil {
		fatal("worker: bad arguments")
	}
	p := props[id]
	if p == nil {
		fatal("no property %s", id)
	}
	w := &worker{prop: id, shard: shard, path: out}
	w.out.Subs = map[string]*subStats{}
	if len(args) > 6 {
		w.trace = args[6]
	}
	go watchdog(func(f failure) {
		f.Property = id
		w.out.Failure = &f
		b, _ := json.Marshal(workerOut{Subs: map[string]*subStats{}, Failure: &f})
		_ = os.WriteFile(out+".tmp", b, 0o644)
		_ = os.Rename(out+".tmp", out)
		os.Exit(0)
	})
	for _, s := range p.subs {
		n := s.N(tier)
		if tier == "quick" && os.Getenv("PBT_SCALE") != "" {
			f, _ := strconv.ParseFloat(os.Getenv("PBT_SCALE"), 64)
			n = int(float64(n) * f)
		}
		mine := n / shards
		if shard < n%shards {
			mine++
		}
		if only := os.Getenv("PBT_ONLY"); only != "" && only != s.Name() {
			continue
		}
		t0 := time.Now()
		s.Explore(w, mix(seed, "/", id, "/", s.Name(), "/", shard), mine)
		if os.Getenv("PBT_TIMES") != "" && shard == 0 {
			fmt.Fprintf(os.Stderr, "%s %s: %d cases in %v\n", id, s.Name(), mine, time.Since(t0).Round(time.Millisecond))
		}
		if w.out.Failure != nil || w.out.Broken != "" {
			break
		}
	}
	w.save()
}

type knownFinding struct {
	file string
	desc string
}

// known-findings file lines:
//
//	known: property=C21 case=known/x.json what fails
//	fixed: property=C21 <commit> what failed
func knownFindings(id string) []knownFinding {
	f, err := os.Open(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []knownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: property="+id+" ") {
			continue
		}
		rest := strings.TrimPrefix(l, "known: property="+id+" ")
		c, desc, _ := strings.Cut(rest, " ")
		out = append(out, knownFinding{filepath.Join(verifDir(), strings.TrimPrefix(c, "case=")), desc})
	}
	return out
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	return p
}

// limited runs this binary again in another mode with limited address space.
func limited(mb int, args ...string) *exec.Cmd {
	sh := fmt.Sprintf("ulimit -v %d; ulimit -t 60; exec \"$0\" \"$@\"", mb<<10)
	return exec.Command("bash", append([]string{"-c", sh, self()}, args...)...)
}

func runMain(args []string) int {
	if len(args) < 2 {
		fatal("usage: pbt run ID quick|thorough")
	}
	id, tier := args[0], args[1]
	p := props[id]
	if p == nil {
		fatal("no property %s", id)
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fatal("VERIF_SEED: %v", err)
		}
		seed = v
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "pbt-"+id+"-")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)

	var fail *failure
	violations := 0

	// 1. Committed inputs: every defect that was repaired once.
	corpusRuns := 0
	{
		out := filepath.Join(tmp, "corpus.json")
		cmd := exec.Command(self(), "corpus", id, out)
		var stdout, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		setEnv(p, cmd, tmp)
		err := cmd.Run()
		switch code := cmd.ProcessState.ExitCode(); {
		case err == nil:
			corpusRuns, _ = strconv.Atoi(strings.TrimSpace(stdout.String()))
		case code == 1 && fileExists(out):
			fail = readFailure(out)
		case fileExists(out+".cur") && diedInIni(p, stderr.String()):
			fail = readFailure(out + ".cur")
			fail.Error = "process died:\n" + headOf(stderr.String())
		default:
			os.RemoveAll(tmp)
			fatal("corpus run of %s: %v\n%s", id, err, stderr.String())
		}
	}

	// 2. Known findings: report those that still fail.
	var knownLines []string
	if fail == nil {
		for _, k := range knownFindings(id) {
			cmd := limited(2500, "replay", k.file)
			var buf bytes.Buffer
			cmd.Stdout, cmd.Stderr = &buf, &buf
			setEnv(p, cmd, tmp)
			if err := cmd.Run(); err != nil {
				knownLines = append(knownLines, fmt.Sprintf("KNOWN-FINDING: property=%s %s", id, k.desc))
			}
		}
	}

	// 3. Search.
	shards := 8
	if tier == "thorough" {
		shards = 16
	}
	merged := map[string]*subStats{}
	seen := map[string]map[uint64]struct{}{}
	if fail == nil {
		outs := make([]*workerOut, shards)
		errs := make([]string, shards)
		sem := make(chan struct{}, 8)
		var wg sync.WaitGroup
		for i := 0; i < shards; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				outs[i], errs[i] = runWorker(p, seed, tier, i, shards, tmp)
			}()
		}
		wg.Wait()
		for i, o := range outs {
			if o == nil {
				continue
			}
			if o.Failure != nil && fail == nil {
				fail = o.Failure
			}
			if o.Broken != "" && errs[i] == "" {
				errs[i] = o.Broken
			}
			for name, st := range o.Subs {
				m := merged[name]
				if m == nil {
					m = &subStats{Labels: map[string]int{}, Excluded: map[string]int{}}
					merged[name] = m
					seen[name] = map[uint64]struct{}{}
				}
				m.Evals += st.Evals
				for l, n := range st.Labels {
					m.Labels[l] += n
				}
				for l, n := range st.Excluded {
					m.Excluded[l] += n
				}
				for _, h := range st.Hashes {
					seen[name][h] = struct{}{}
				}
				if len(m.Samples) < 3 {
					m.Samples = append(m.Samples, st.Samples...)
				}
			}
		}
		if fail == nil {
			for _, e := range errs {
				if e != "" {
					os.RemoveAll(tmp)
					fatal("%s", e)
				}
			}
		}
	}

	for _, l := range knownLines {
		fmt.Println(l)
	}
	code := 0
	if fail != nil {
		violations = 1
		path := writeReplay(fail)
		fmt.Printf("%s/%s: %s\n", id, fail.Sub, fail.Error)
		fmt.Printf("case: %s\n", headOf(string(fail.Case)))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = 1
	}
	writeEvidence(p, tier, seed, merged, seen, corpusRuns, violations, knownLines, time.Since(start))
	return code
}

func headOf(s string) string {
	if len(s) > 4000 {
		return s[:4000] + "..."
	}
	return s
}

func fileExists(p string) bool {
	_, err := os.Stat(p)
	return err == nil
}

// setEnv keeps the files of the process in tmp, which the run removes.
func setEnv(p *property, cmd *exec.Cmd, tmp string) {
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp)
	if p.race {
		cmd.Env = append(cmd.Env, "GORACE=halt_on_error=1 exitcode=66 history_size=3")
	}
}

// diedInIni tells whether a process died of a fatal error inside the package.
func diedInIni(p *property, stderr string) bool {
	if p.race && strings.Contains(stderr, "WARNING: DATA RACE") {
		return strings.Contains(stderr, iniPkg)
	}
	if !strings.Contains(stderr, iniPkg) {
		return false
	}
	return strings.Contains(stderr, "fatal error: stack overflow") ||
		strings.Contains(stderr, "stack exceeds") ||
		strings.Contains(stderr, "fatal error: concurrent map") ||
		strings.Contains(stderr, "fatal error: sync:") ||
		strings.Contains(stderr, "fatal error: all goroutines are asleep")
}

func runWorker(p *property, seed int64, tier string, shard, shards int, tmp string) (*workerOut, string) {
	var stderr bytes.Buffer
	attempt := func(trace string) (*workerOut, error) {
		out := filepath.Join(tmp, fmt.Sprintf("w%d.json", shard))
		os.Remove(out)
		a := []string{"worker", p.id, strconv.FormatInt(seed, 10), tier, strconv.Itoa(shard), strconv.Itoa(shards), out}
		if trace != "" {
			a = append(a, trace)
		}
		cmd := exec.Command(self(), a...)
		stderr.Reset()
		cmd.Stderr = &stderr
		cmd.Stdout = os.Stdout
		setEnv(p, cmd, tmp)
		if err := cmd.Run(); err != nil {
			return nil, err
		}
		b, err := os.ReadFile(out)
		if err != nil {
			return nil, err
		}
		var wo workerOut
		if err := json.Unmarshal(b, &wo); err != nil {
			return nil, err
		}
		if os.Getenv("PBT_TIMES") != "" {
			fmt.Fprint(os.Stderr, stderr.String())
		}
		return &wo, nil
	}
	trace := ""
	if p.race {
		trace = filepath.Join(tmp, fmt.Sprintf("t%d.json", shard))
	}
	wo, err := attempt(trace)
	if err == nil {
		return wo, ""
	}
	first := stderr.String()
	if !diedInIni(p, first) {
		return nil, fmt.Sprintf("worker %d of %s: %v\n%s", shard, p.id, err, headOf(first))
	}
	if trace == "" {
		// Once more, writing down each case before it runs.
		trace = filepath.Join(tmp, fmt.Sprintf("t%d.json", shard))
		if wo, err = attempt(trace); err == nil {
			return wo, fmt.Sprintf("worker %d of %s died, but not again: %s", shard, p.id, headOf(first))
		}
	}
	if !fileExists(trace) {
		return nil, fmt.Sprintf("worker %d of %s: %v\n%s", shard, p.id, err, headOf(first))
	}
	f := readFailure(trace)
	f.Error = "process died:\n" + headOf(first)
	return &workerOut{Failure: f}, ""
}

func writeEvidence(p *property, tier string, seed int64, merged map[string]*subStats, seen map[string]map[uint64]struct{}, corpusRuns, violations int, known []string, wall time.Duration) {
	evals, distinct := 0, 0
	perSub := map[string]any{}
	var samples []any
	for _, s := range p.subs {
		m := merged[s.Name()]
		if m == nil {
			continue
		}
		evals += m.Evals
		distinct += len(seen[s.Name()])
		perSub[s.Name()] = map[string]any{
			"evaluations": m.Evals, "distinct_nontrivial": len(seen[s.Name()]),
			"classes": m.Labels, "excluded": m.Excluded,
		}
		for i, smp := range m.Samples {
			if i < 2 {
				samples = append(samples, map[string]any{"check": s.Name(), "case": smp})
			}
		}
	}
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": distinct,
		"rule":                p.rule,
		"samples":             samples,
		"checks":              perSub,
		"corpus_replays":      corpusRuns,
		"known_findings":      known,
	}
	ev := map[string]any{
		"property": p.id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": wall.Seconds(), "violations": violations,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("evidence: %v", err)
	}
	dir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, p.id+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("evidence: %v", err)
	}
}
