// Command vrun decides one property: it instruments and builds the current
// working tree of the repository, runs the property's scenarios over many seeds
// in parallel worker processes, re-runs a sample to check determinism, minimises
// and saves a failing run, and writes the evidence file.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"vsim/core"
	"vsim/sim"
)

var (
	verif  = flag.String("verif", "/verif", "")
	repo   = flag.String("repo", "/repo", "")
	prop   = flag.String("prop", "", "")
	tier   = flag.String("tier", "quick", "")
	replay = flag.String("replay", "", "replay file")
	keep   = flag.Bool("keep", false, "keep the build")
	mult   = flag.Float64("x", 0, "run-count multiplier override")
	selfN  = flag.Int("selfcheck", 6, "seeds re-run per scenario for the determinism check")
	secs   = flag.Float64("seconds", 0, "wall-clock budget of the search")
)

type item struct {
	Prop, Name, Rule string
	Quick, Weight    int
	Require          []string
}

func weight(x item) int {
	if x.Weight > 0 {
		return x.Weight
	}
	return 10
}

type replayFile struct {
	Property  string          `json:"property"`
	Scenario  string          `json:"scenario"`
	Tier      string          `json:"tier"`
	VerifSeed uint64          `json:"verif_seed"`
	Run       int             `json:"run"`
	RunSeed   uint64          `json:"run_seed"`
	Mode      string          `json:"mode"` // choices | seeds
	Choices   []uint32        `json:"choices,omitempty"`
	Original  int             `json:"original_choices,omitempty"`
	Indices   []int           `json:"indices,omitempty"`
	Violation []sim.Violation `json:"violation"`
	Hash      uint64          `json:"hash"`
	Faults    any             `json:"faults,omitempty"`
	Sample    any             `json:"sample,omitempty"`
	Trace     []string        `json:"trace,omitempty"`
	HowTo     string          `json:"how_to"`
}

func die(code int, f string, a ...any) {
	fmt.Printf(f+"\n", a...)
	cleanup()
	os.Exit(code)
}

var buildDir string

func cleanup() {
	if buildDir != "" && !*keep {
		os.RemoveAll(buildDir)
	}
}

func seedEnv() uint64 {
	v := os.Getenv("VERIF_SEED")
	if v == "" {
		return 1
	}
	if n, err := strconv.ParseUint(v, 10, 64); err == nil {
		return n
	}
	h := uint64(99991)
	for _, c := range []byte(v) {
		h = sim.Mix(h, uint64(c))
	}
	return h
}

func goCmd(dir string, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GOFLAGS=", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on", "GOSUMDB=off")
	return c
}

// build instruments the repository and compiles the harness package.
func build(pkg string) (string, error) {
	dst := filepath.Join(*verif, "dst")
	var last error
	for level := 3; level >= 0; level-- {
		src := filepath.Join(buildDir, "src")
		os.RemoveAll(src)
		os.MkdirAll(src, 0o755)
		c := goCmd(dst, "run", "./cmd/instrument", "-src", *repo, "-out", src, "-level", strconv.Itoa(level))
		o, err := c.CombinedOutput()
		if err != nil {
			last = fmt.Errorf("instrument: %v\n%s", err, o)
			continue
		}
		fmt.Printf("# %s", o)
		mod := filepath.Join(buildDir, "h.mod")
		os.WriteFile(mod, []byte("module vsim\n\ngo 1.25\n\nrequire github.com/keyfuse/tokucore v0.0.0\n\nreplace github.com/keyfuse/tokucore => "+src+"\n"), 0o644)
		bin := filepath.Join(buildDir, pkg+".test")
		args := []string{"test", "-modfile=" + mod, "-vet=off", "-ldflags=-checklinkname=0", "-c", "-o", bin}
		if pkg == "hrpc" {
			ov, err := netOverlay()
			if err != nil {
				return "", err
			}
			args = append(args, "-overlay="+ov)
		}
		args = append(args, "./"+pkg)
		o, err = goCmd(dst, args...).CombinedOutput()
		if err != nil {
			last = fmt.Errorf("build (level %d): %v\n%s", level, err, o)
			continue
		}
		return bin, nil
	}
	return "", last
}

// netOverlay makes net.Dialer.DialContext consult a hook, so that no code under
// test can reach the real network whatever client it builds.
func netOverlay() (string, error) {
	o, err := goCmd(".", "env", "GOROOT").Output()
	if err != nil {
		return "", err
	}
	root := strings.TrimSpace(string(o))
	f := filepath.Join(root, "src", "net", "dial.go")
	b, err := os.ReadFile(f)
	if err != nil {
		return "", err
	}
	mark := []byte("func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n")
	i := bytes.Index(b, mark)
	if i < 0 {
		return "", fmt.Errorf("net overlay: DialContext not found in %s", f)
	}
	var w bytes.Buffer
	w.Write(b[:i])
	w.WriteString("var simDialHook func(ctx context.Context, network, address string) (Conn, error)\n\n")
	w.Write(mark)
	w.WriteString("\tif simDialHook != nil {\n\t\treturn simDialHook(ctx, network, address)\n\t}\n")
	w.Write(b[i+len(mark):])
	dial := filepath.Join(buildDir, "dial.go")
	os.WriteFile(dial, w.Bytes(), 0o644)
	ov := filepath.Join(buildDir, "overlay.json")
	j, _ := json.Marshal(map[string]any{"Replace": map[string]string{f: dial}})
	return ov, os.WriteFile(ov, j, 0o644)
}

type outcome struct {
	results []core.Result
	crashed int // index of the run in which the process died, or -1
	stderr  string
	hung    bool
}

var jobN int
var jobMu sync.Mutex

func runJob(bin string, j core.Job, limit time.Duration) outcome {
	jobMu.Lock()
	jobN++
	id := jobN
	jobMu.Unlock()
	jf := filepath.Join(buildDir, fmt.Sprintf("job%d.json", id))
	j.Out = filepath.Join(buildDir, fmt.Sprintf("out%d.jsonl", id))
	b, _ := json.Marshal(j)
	os.WriteFile(jf, b, 0o644)
	c := exec.Command(bin, "-test.run", "TestWorker", "-test.timeout", "0")
	c.Dir = buildDir
	c.Env = append(os.Environ(), "VSIM_JOB="+jf, "GOMAXPROCS=2", "GOTRACEBACK=single", "GOMEMLIMIT=6GiB")
	var errb bytes.Buffer
	c.Stdout = nil
	c.Stderr = &limited{w: &errb, n: 1 << 20}
	oc := outcome{crashed: -1}
	err := c.Start()
	if err != nil {
		oc.stderr = err.Error()
		return oc
	}
	done := make(chan error, 1)
	go func() { done <- c.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		c.Process.Kill()
		<-done
		oc.hung = true
		err = fmt.Errorf("timeout")
	}
	last := -1
	if f, e := os.Open(j.Out); e == nil {
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<28)
		for sc.Scan() {
			l := sc.Bytes()
			if bytes.HasPrefix(l, []byte("{\"start\":")) {
				fmt.Sscanf(string(l), "{\"start\":%d}", &last)
				continue
			}
			var r core.Result
			if json.Unmarshal(l, &r) == nil {
				oc.results = append(oc.results, r)
				if r.Index == last {
					last = -1
				}
			}
		}
		f.Close()
	}
	os.Remove(jf)
	if j.Mode != "list" {
		os.Remove(j.Out)
	}
	if err != nil {
		oc.crashed = last
		oc.stderr = errb.String()
		if oc.stderr == "" {
			oc.stderr = err.Error()
		}
	}
	return oc
}

type limited struct {
	w *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

func list(bin string) []item {
	j := core.Job{Mode: "list"}
	jobN++
	jf := filepath.Join(buildDir, "joblist.json")
	j.Out = filepath.Join(buildDir, "list.json")
	b, _ := json.Marshal(j)
	os.WriteFile(jf, b, 0o644)
	c := exec.Command(bin, "-test.run", "TestWorker")
	c.Dir = buildDir
	c.Env = append(os.Environ(), "VSIM_JOB="+jf)
	if o, err := c.CombinedOutput(); err != nil {
		die(3, "cannot list scenarios: %v\n%s", err, o)
	}
	b, _ = os.ReadFile(j.Out)
	var l []item
	json.Unmarshal(b, &l)
	return l
}

func pkgFor(p string) string {
	if p == "C07" || p == "C08" {
		return "hrpc"
	}
	return "hmain"
}

func main() {
	flag.Parse()
	if os.Getenv("VERIF_TIER") == "thorough" {
		*tier = "thorough"
	}
	if *replay != "" {
		doReplay()
		return
	}
	start := time.Now()
	base := seedEnv()
	buildDir = filepath.Join(*verif, ".build", *prop)
	os.RemoveAll(buildDir)
	os.MkdirAll(buildDir, 0o755)
	bin, err := build(pkgFor(*prop))
	if err != nil {
		die(3, "ERROR cannot build the harness: %v", err)
	}
	built := time.Since(start)
	var scs []item
	for _, it := range list(bin) {
		if it.Prop == *prop {
			scs = append(scs, it)
		}
	}
	if len(scs) == 0 {
		die(3, "ERROR no scenario for %s", *prop)
	}
	budget := 55.0
	factor := 1.0
	if *tier == "thorough" {
		budget, factor = 1200, 40
	}
	if *secs > 0 {
		budget = *secs
	}
	if *mult > 0 {
		factor = *mult
	}
	known := loadKnown()
	searchStart := time.Now()
	var all []core.Result
	byScenario := map[string][]core.Result{}
	type bad struct {
		sc  item
		res core.Result
		idx []int
		oc  outcome
	}
	var bads []bad
	knownSeen := map[string]int{}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	for _, sc := range scs {
		n := int(float64(sc.Quick) * factor)
		if n < 1 {
			n = 1
		}
		total := 0
		for _, x := range scs {
			total += weight(x)
		}
		per := budget * float64(weight(sc)) / float64(total)
		var wg sync.WaitGroup
		ocs := make([]outcome, workers)
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				ocs[w] = runJob(bin, core.Job{Prop: sc.Prop, Scenario: sc.Name, Tier: *tier, Base: base, From: w, To: n, Stride: workers, Seconds: per, Mode: "run", Known: known.forProp(*prop)},
					time.Duration(per*float64(time.Second))+150*time.Second)
			}(w)
		}
		wg.Wait()
		for w, oc := range ocs {
			for _, r := range oc.results {
				all = append(all, r)
				byScenario[sc.Name] = append(byScenario[sc.Name], r)
				if k := core.Match(known.forProp(*prop), r.Viol); k >= 0 {
					knownSeen[known.forProp(*prop)[k].What]++
					continue
				}
				if len(r.Viol) > 0 {
					var idx []int
					for i := w; i <= r.Index; i += workers {
						idx = append(idx, i)
					}
					bads = append(bads, bad{sc: sc, res: r, idx: idx})
				}
			}
			if oc.stderr != "" {
				if oc.crashed < 0 {
					die(3, "ERROR worker failed outside a run: %s", tail(oc.stderr))
				}
				bads = append(bads, bad{sc: sc, res: core.Result{Index: oc.crashed, Seed: core.SeedFor(base, sc.Name, oc.crashed)}, idx: []int{oc.crashed}, oc: oc})
			}
		}
		if len(bads) > 0 {
			break
		}
	}
	searchWall := time.Since(searchStart)
	for _, w := range core.Keys(knownSeen) {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", *prop, w, knownSeen[w])
	}
	sort.Slice(bads, func(i, j int) bool { return bads[i].res.Index < bads[j].res.Index })

	// determinism self-check
	rerun, mism := 0, 0
	if len(bads) == 0 {
		for _, sc := range scs {
			var idx []int
			for i := 0; i < *selfN; i++ {
				idx = append(idx, i)
			}
			oc := runJob(bin, core.Job{Prop: sc.Prop, Scenario: sc.Name, Tier: *tier, Base: base, Indices: idx, Mode: "run", Seconds: 60, Known: known.forProp(*prop)}, 200*time.Second)
			first := map[int]core.Result{}
			for _, r := range byScenario[sc.Name] {
				first[r.Index] = r
			}
			for _, r := range oc.results {
				if f, ok := first[r.Index]; ok {
					rerun++
					if f.Hash != r.Hash || f.IL != r.IL || f.Yields != r.Yields {
						mism++
						fmt.Printf("# determinism: run %d of %s differs between processes\n", r.Index, sc.Name)
					}
				}
			}
		}
	}

	violations := 0
	for _, b := range bads {
		rf, ok := confirm(bin, b.sc, b.res, b.idx, b.oc, base)
		if !ok {
			fmt.Printf("# run %d of %s failed once but could not be reproduced: %v %s\n", b.res.Index, b.sc.Name, b.res.Viol, tail(b.oc.stderr))
			if len(b.res.Viol) == 0 {
				continue
			}
		}
		dir := filepath.Join(*verif, "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", *prop, b.sc.Name, b.res.Index))
		rf.HowTo = fmt.Sprintf("cd %s && ./check.sh --replay %s", *verif, path)
		j, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, j, 0o644)
		for _, v := range rf.Violation {
			fmt.Printf("# %s: %s\n", v.Kind, v.Detail)
		}
		for i, l := range rf.Trace {
			if i >= 40 {
				fmt.Printf("#   ... %d more\n", len(rf.Trace)-i)
				break
			}
			fmt.Printf("#   %s\n", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		violations++
		break
	}
	writeEvidence(scs, all, byScenario, base, built, searchWall, start, rerun, mism, violations, knownSeen)
	fmt.Printf("# %s %s: %d runs in %.1fs (build %.1fs), %d violations\n", *prop, *tier, len(all), searchWall.Seconds(), built.Seconds(), violations)
	cleanup()
	if violations > 0 {
		os.Exit(1)
	}
	if len(bads) > 0 && violations == 0 {
		for _, b := range bads {
			if len(b.res.Viol) == 0 && b.oc.stderr != "" {
				fmt.Printf("ERROR a worker died and the death could not be reproduced\n")
				os.Exit(3)
			}
		}
	}
}

func tail(s string) string {
	if i := strings.Index(s, "fatal error"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

// confirm reproduces a failing run in fresh processes and minimises it.
func confirm(bin string, sc item, res core.Result, idx []int, oc outcome, base uint64) (replayFile, bool) {
	rf := replayFile{Property: sc.Prop, Scenario: sc.Name, Tier: *tier, VerifSeed: base, Run: res.Index, RunSeed: res.Seed, Violation: res.Viol, Hash: res.Hash, Faults: res.Faults, Sample: res.Sample}
	j := core.Job{Prop: sc.Prop, Scenario: sc.Name, Tier: *tier, Base: base}
	if len(res.Viol) == 0 { // the process died or hung
		j.Mode, j.Indices = "run", []int{res.Index}
		r := runJob(bin, j, 150*time.Second)
		if r.stderr == "" && len(r.results) == 1 && len(r.results[0].Viol) == 0 {
			return rf, false
		}
		kind := "crash"
		if r.hung {
			kind = "hang"
		}
		rf.Mode, rf.Indices = "seeds", []int{res.Index}
		rf.Violation = []sim.Violation{{Kind: kind, Detail: tail(r.stderr)}}
		if len(r.results) == 1 && len(r.results[0].Viol) > 0 {
			rf.Violation = r.results[0].Viol
		}
		return rf, true
	}
	kind := res.Viol[0].Kind
	j.Mode, j.Choices = "replay", res.Choices
	r := runJob(bin, j, 150*time.Second)
	if len(r.results) == 1 && len(r.results[0].Viol) > 0 && r.results[0].Viol[0].Kind == kind {
		best := r.results[0]
		j.Mode, j.Kind, j.Seconds = "shrink", kind, 40
		s := runJob(bin, j, 200*time.Second)
		if len(s.results) == 1 && len(s.results[0].Viol) > 0 {
			best = s.results[0]
		}
		rf.Mode, rf.Choices, rf.Original = "choices", best.Choices, len(res.Choices)
		rf.Violation, rf.Hash, rf.Trace, rf.Faults, rf.Sample = best.Viol, best.Hash, best.Log, best.Faults, best.Sample
		return rf, true
	}
	// depends on what ran before it in the process: find a short history
	for n := 2; ; n *= 4 {
		k := len(idx) - n
		if k < 0 {
			k = 0
		}
		j := core.Job{Prop: sc.Prop, Scenario: sc.Name, Tier: *tier, Base: base, Mode: "run", Indices: idx[k:], Known: loadKnown().forProp(*prop)}
		r := runJob(bin, j, 300*time.Second)
		if m := len(r.results); m > 0 && len(r.results[m-1].Viol) > 0 {
			rf.Mode, rf.Indices = "seeds", idx[k:]
			rf.Violation, rf.Hash = r.results[m-1].Viol, r.results[m-1].Hash
			return rf, true
		}
		if k == 0 {
			break
		}
	}
	rf.Mode, rf.Indices = "seeds", idx
	return rf, false
}

func doReplay() {
	b, err := os.ReadFile(*replay)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	*prop = rf.Property
	buildDir = filepath.Join(*verif, ".build", "replay-"+rf.Property)
	os.RemoveAll(buildDir)
	os.MkdirAll(buildDir, 0o755)
	bin, err := build(pkgFor(rf.Property))
	if err != nil {
		die(3, "%v", err)
	}
	j := core.Job{Prop: rf.Property, Scenario: rf.Scenario, Tier: rf.Tier, Base: rf.VerifSeed}
	if rf.Mode == "choices" {
		j.Mode, j.Choices = "replay", rf.Choices
	} else {
		j.Mode, j.Indices = "run", rf.Indices
	}
	r := runJob(bin, j, 300*time.Second)
	if r.stderr != "" {
		fmt.Println(tail(r.stderr))
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, *replay)
		cleanup()
		os.Exit(1)
	}
	if n := len(r.results); n > 0 && len(r.results[n-1].Viol) > 0 {
		x := r.results[n-1]
		for _, l := range x.Log {
			fmt.Println("  " + l)
		}
		for _, v := range x.Viol {
			fmt.Printf("%s: %s\n", v.Kind, v.Detail)
		}
		fmt.Printf("same execution as recorded: %v\n", x.Hash == rf.Hash)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, *replay)
		cleanup()
		os.Exit(1)
	}
	fmt.Println("the recorded run does not violate the property on this tree")
	cleanup()
}

type knownEntry struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Contains string `json:"contains"`
	What     string `json:"what"`
}
type knownSet []knownEntry

// loadKnown reads known_findings.txt: lines
//
//	finding: property=<id> kind=<kind> contains=<text> | <what fails>
//
// Lines starting with "fixed:" are a record only and suppress nothing.
func loadKnown() knownSet {
	b, _ := os.ReadFile(filepath.Join(*verif, "known_findings.txt"))
	var k knownSet
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding:") {
			continue
		}
		p := strings.SplitN(strings.TrimPrefix(l, "finding:"), "|", 2)
		var e knownEntry
		if len(p) == 2 {
			e.What = strings.TrimSpace(p[1])
		}
		s := strings.TrimSpace(p[0])
		if i := strings.Index(s, " contains="); i >= 0 {
			e.Contains = s[i+len(" contains="):]
			s = s[:i]
		}
		for _, f := range strings.Fields(s) {
			if v, ok := strings.CutPrefix(f, "property="); ok {
				e.Property = v
			}
			if v, ok := strings.CutPrefix(f, "kind="); ok {
				e.Kind = v
			}
		}
		if e.Property != "" && e.Kind != "" && e.Contains != "" {
			k = append(k, e)
		}
	}
	return k
}

func (k knownSet) forProp(p string) (o []core.Known) {
	for _, e := range k {
		if e.Property == p {
			o = append(o, core.Known{Kind: e.Kind, Contains: e.Contains, What: e.What})
		}
	}
	return
}

func writeEvidence(scs []item, all []core.Result, by map[string][]core.Result, base uint64, built, search time.Duration, start time.Time, rerun, mism, violations int, knownSeen map[string]int) {
	faults, probes := map[string]int64{}, map[string]int64{}
	il, st := map[uint64]bool{}, map[uint64]bool{}
	nontriv := map[uint64]bool{}
	var yields, steps, ns, states int64
	var samples []any
	perSc := map[string]any{}
	for _, sc := range scs {
		perSc[sc.Name] = len(by[sc.Name])
	}
	for _, r := range all {
		for k, v := range r.Faults {
			faults[k] += v
		}
		for k, v := range r.Probes {
			probes[k] += v
		}
		il[r.IL] = true
		st[r.Hash] = true
		yields += r.Yields
		steps += r.Steps
		ns += r.SimNS
		states += int64(r.States)
		if r.NonTriv {
			nontriv[sim.Mix(r.Hash, r.IL)] = true
		}
		if len(samples) < 6 && len(r.Sample) > 0 && r.Index < 12 {
			samples = append(samples, map[string]any{"run": r.Index, "seed": r.Seed, "case": r.Sample, "faults": r.Faults, "statements": r.Yields, "schedule_decisions": r.Steps, "simulated_s": float64(r.SimNS) / 1e9})
		}
	}
	if samples == nil {
		samples = []any{}
	}
	var rules []string
	var missing []string
	for _, sc := range scs {
		rules = append(rules, sc.Name+": "+sc.Rule)
		for _, q := range sc.Require {
			if probes[q] == 0 && faults[q] == 0 {
				missing = append(missing, q)
			}
		}
	}
	hours := search.Hours()
	if hours == 0 {
		hours = 1e-9
	}
	realC, stubC := components()
	cov := map[string]any{
		"evaluations":            len(all),
		"distinct_nontrivial":    len(nontriv),
		"rule":                   strings.Join(rules, " | ") + " | distinct = different event-log and hand-over hashes",
		"samples":                samples,
		"runs_per_scenario":      perSc,
		"runs_per_hour":          int64(float64(len(all)) / hours),
		"seeds_per_hour":         int64(float64(len(all)) / hours),
		"simulated_seconds":      float64(ns) / 1e9,
		"faults_injected":        faults,
		"probes":                 probes,
		"probes_never_seen":      missing,
		"distinct_interleavings": len(il),
		"interleaving_measure":   "hash of the sequence of (task handed the token, statement preempted)",
		"distinct_event_logs":    len(st),
		"schedule_prefixes":      states,
		"statements_executed":    yields,
		"schedule_decisions":     steps,
		"determinism_reruns":     rerun,
		"determinism_mismatches": mism,
		"ran_real_code":          realC,
		"ran_stub":               stubC,
		"known_findings_seen":    knownSeen,
		"build_s":                built.Seconds(),
		"search_s":               search.Seconds(),
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": base, "level": "exploration",
		"coverage":    cov,
		"assumptions": []string{"the simulator's network, clock, entropy and lock models stand for the real ones", "goroutine switches happen between statements of the code under test (and at blocking operations), not inside one"},
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0o644)
}

func components() (real, stub []string) {
	switch *prop {
	case "C01", "C02", "C03", "C04", "C05", "C06":
		return []string{"xprotocol (stream, connection, all messages)", "xbase", "network", "bufio/encoding/sha256 of the standard library"},
			[]string{"TCP (simulated stream with deadlines)", "clock (virtual)", "sync.Mutex (scheduler-controlled)", "remote peer in some runs (reference implementation)"}
	case "C07", "C08":
		return []string{"xrpc", "net/http client and transport", "encoding/json", "context"},
			[]string{"TCP and dialing (simulated)", "clock (virtual)", "bitcoind (scripted HTTP server)"}
	}
	return []string{"all tokucore packages the scenario calls (see DESIGN.md)", "math/big and hashes of the standard library"},
		[]string{"message bus / disk between parties (simulated)", "clock (virtual)", "operating-system entropy (seeded, fault-injected)", "prime search for 1024-bit primes (drawn from a pre-generated pool)"}
}
