// Package core runs scenarios: it turns a seed (or a recorded list of choices)
// into one simulated execution, loops over seeds in a worker process, and
// minimises failing runs.
package core

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"vsim/sim"
	"vsim/simmrand"
	"vsim/simrand"
)

// Scenario is the simulated system that decides one property.
type Scenario struct {
	Prop    string
	Name    string
	Fn      func(r *R)
	Cfg     sim.Config
	Quick   int // runs in the quick tier
	Rule    string
	Weight  int // share of the property's runs
	Skip    func() bool
	Require []string // probes that must be seen at least once per check (non-vacuity)
}

// Scenarios is the registry.
var Scenarios []*Scenario

func Register(s *Scenario) { Scenarios = append(Scenarios, s) }

// Reset hooks restore package-level state of the code under test before a run.
var Reset []func()

// R is one run.
type R struct {
	*sim.Sim
	C          *sim.Chooser
	Tier       string
	NonTrivial bool
	Sample     map[string]any
	Real, Stub map[string]bool
}

func (r *R) Note(k string, v any) { r.Sample[k] = v }

// Result of a run.
type Result struct {
	Index   int              `json:"i"`
	Seed    uint64           `json:"seed"`
	Hash    uint64           `json:"h"`
	IL      uint64           `json:"il"`
	Yields  int64            `json:"y"`
	Steps   int64            `json:"st"`
	SimNS   int64            `json:"ns"`
	States  int              `json:"states"`
	Faults  map[string]int64 `json:"f,omitempty"`
	Probes  map[string]int64 `json:"p,omitempty"`
	Viol    []sim.Violation  `json:"v,omitempty"`
	NonTriv bool             `json:"nt"`
	Sample  map[string]any   `json:"s,omitempty"`
	Choices []uint32         `json:"c,omitempty"`
	Log     []string         `json:"log,omitempty"`
}

// Job tells a worker process what to do.
type Job struct {
	Prop     string     `json:"prop"`
	Scenario string     `json:"scenario"`
	Tier     string     `json:"tier"`
	Base     uint64     `json:"base"`
	Indices  []int      `json:"indices"`
	From     int        `json:"from"`
	To       int        `json:"to"`
	Stride   int        `json:"stride"`
	Seconds  float64    `json:"seconds"`
	Out      string     `json:"out"`
	Mode     string     `json:"mode"` // run, replay, shrink
	Choices  []uint32   `json:"choices"`
	Prefix   [][]uint32 `json:"prefix"`
	Kind     string     `json:"kind"`
	Known    []Known    `json:"known,omitempty"`
}

// Known is a listed finding: a violation that does not end the search.
type Known struct {
	Kind     string `json:"kind"`
	Contains string `json:"contains"`
	What     string `json:"what"`
}

// Match reports which listed finding a run's (first) violation is, or -1.
func Match(known []Known, v []sim.Violation) int {
	for i, k := range known {
		if len(v) > 0 && v[0].Kind == k.Kind && strings.Contains(v[0].Detail, k.Contains) {
			return i
		}
	}
	return -1
}

// SeedFor is the seed of run i.
func SeedFor(base uint64, sc string, i int) uint64 {
	h := uint64(1469598103934665603)
	for _, c := range []byte(sc) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return sim.Mix(sim.Mix(base, h), uint64(i))
}

// RunOne executes one run.
func RunOne(t *testing.T, sc *Scenario, ch *sim.Chooser, tier string, trace bool) (res Result) {
	func() {
		defer func() {
			if e := recover(); e != nil {
				m := fmt.Sprint(e)
				if strings.Contains(m, "blocked goroutines remain") || strings.Contains(m, "deadlock") {
					res.Probes = add(res.Probes, "leaked-goroutines", 1)
					return
				}
				panic(e)
			}
		}()
		synctest.Test(t, func(t *testing.T) {
			cfg := sc.Cfg
			cfg.Trace = trace
			simrand.Reset()
			simmrand.Reset()
			sim.ResetVars()
			for _, f := range Reset {
				f()
			}
			s := sim.New(ch, cfg)
			r := &R{Sim: s, C: ch, Tier: tier, Sample: map[string]any{}}
			s.SetupSchedule()
			func() {
				defer func() {
					if e := recover(); e != nil {
						s.Fail("panic", "%v%s", e, where(string(debug.Stack())))
					}
				}()
				sc.Fn(r)
			}()
			y, st := s.Steps()
			res = Result{Hash: s.Hash(), IL: s.IL(), Yields: y, Steps: st, SimNS: int64(s.Elapsed()),
				States: s.Distinct(), Faults: s.Faults, Probes: s.Probes, Viol: s.Viol,
				NonTriv: r.NonTrivial, Sample: r.Sample, Log: s.Log()}
			s.Close()
		})
	}()
	return res
}

func add(m map[string]int64, k string, n int64) map[string]int64 {
	if m == nil {
		m = map[string]int64{}
	}
	m[k] += n
	return m
}

func where(st string) string {
	for _, l := range strings.Split(st, "\n") {
		if i := strings.Index(l, "tokucore/"); i >= 0 && strings.Contains(l, ".go:") {
			l = l[i+len("tokucore/"):]
			if j := strings.IndexByte(l, ' '); j > 0 {
				l = l[:j]
			}
			return " at " + l
		}
	}
	return ""
}

// Find returns a scenario.
func Find(prop, name string) *Scenario {
	for _, s := range Scenarios {
		if s.Prop == prop && (name == "" || s.Name == name) {
			return s
		}
	}
	return nil
}

// Main is a worker process.
func Main(t *testing.T) {
	path := os.Getenv("VSIM_JOB")
	if path == "" {
		t.Skip("no job")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	var j Job
	if err := json.Unmarshal(b, &j); err != nil {
		t.Fatal(err)
	}
	if j.Mode == "list" {
		type item struct {
			Prop, Name, Rule string
			Quick, Weight    int
			Require          []string
		}
		var l []item
		for _, s := range Scenarios {
			l = append(l, item{s.Prop, s.Name, s.Rule, s.Quick, s.Weight, s.Require})
		}
		o, _ := json.Marshal(l)
		os.WriteFile(j.Out, o, 0o644)
		return
	}
	debug.SetGCPercent(200)
	sc := Find(j.Prop, j.Scenario)
	if sc == nil {
		t.Fatalf("no scenario %s/%s", j.Prop, j.Scenario)
	}
	out, err := os.Create(j.Out)
	if err != nil {
		t.Fatal(err)
	}
	defer out.Close()
	enc := json.NewEncoder(out)
	start := time.Now()
	switch j.Mode {
	case "run":
		idx := j.Indices
		if idx == nil {
			for i := j.From; i < j.To; i += j.Stride {
				idx = append(idx, i)
			}
		}
		for n, i := range idx {
			if j.Seconds > 0 && time.Since(start).Seconds() > j.Seconds {
				break
			}
			fmt.Fprintf(out, "{\"start\":%d}\n", i)
			ch := sim.NewChooser(SeedFor(j.Base, sc.Name, i))
			res := RunOne(t, sc, ch, j.Tier, false)
			res.Index, res.Seed = i, SeedFor(j.Base, sc.Name, i)
			isKnown := Match(j.Known, res.Viol) >= 0
			if len(res.Viol) > 0 && !isKnown {
				res.Choices = ch.Rec
			} else if n >= 3 {
				res.Sample = nil
			}
			if err := enc.Encode(res); err != nil {
				t.Fatal(err)
			}
			if len(res.Viol) > 0 && !isKnown {
				break
			}
			if n%64 == 63 {
				runtime.GC()
			}
		}
	case "replay":
		for _, p := range j.Prefix {
			RunOne(t, sc, sim.NewReplay(p), j.Tier, false)
		}
		ch := sim.NewReplay(j.Choices)
		res := RunOne(t, sc, ch, j.Tier, true)
		res.Choices = ch.Rec
		enc.Encode(res)
	case "shrink":
		best := shrink(t, sc, j, start)
		ch := sim.NewReplay(best)
		res := RunOne(t, sc, ch, j.Tier, true)
		res.Choices = best
		enc.Encode(res)
	}
}

func fails(t *testing.T, sc *Scenario, j Job, c []uint32) bool {
	ch := sim.NewReplay(c)
	res := RunOne(t, sc, ch, j.Tier, false)
	return len(res.Viol) > 0 && res.Viol[0].Kind == j.Kind
}

func shrink(t *testing.T, sc *Scenario, j Job, start time.Time) []uint32 {
	best := append([]uint32(nil), j.Choices...)
	over := func() bool { return time.Since(start).Seconds() > j.Seconds }
	try := func(c []uint32) bool {
		if over() {
			return false
		}
		if fails(t, sc, j, c) {
			best = c
			return true
		}
		return false
	}
	for round := 0; round < 6 && !over(); round++ {
		before := fmt.Sprint(len(best), sum(best))
		// tail
		for n := len(best) / 2; n >= 1 && !over(); n /= 2 {
			for len(best) > n && try(append([]uint32(nil), best[:len(best)-n]...)) {
			}
		}
		// zero, then delete, chunks
		for n := len(best) / 2; n >= 1 && !over(); n /= 2 {
			for i := 0; i+n <= len(best) && !over(); i += n {
				if nz(best[i : i+n]) {
					c := append([]uint32(nil), best...)
					for k := i; k < i+n; k++ {
						c[k] = 0
					}
					try(c)
				}
			}
			for i := 0; i+n <= len(best) && !over(); {
				c := append(append([]uint32(nil), best[:i]...), best[i+n:]...)
				if !try(c) {
					i += n
				}
			}
		}
		// lower single values
		for i := 0; i < len(best) && !over(); i++ {
			for best[i] > 0 && !over() {
				v := best[i]
				ok := false
				for _, w := range []uint32{0, 1, v / 2, v - 1} {
					if w >= v {
						continue
					}
					c := append([]uint32(nil), best...)
					c[i] = w
					if try(c) {
						ok = true
						break
					}
				}
				if !ok {
					break
				}
			}
		}
		if fmt.Sprint(len(best), sum(best)) == before {
			break
		}
	}
	for len(best) > 0 && best[len(best)-1] == 0 {
		best = best[:len(best)-1]
	}
	return best
}

func sum(c []uint32) (n uint64) {
	for _, v := range c {
		n += uint64(v)
	}
	return
}

func nz(c []uint32) bool {
	for _, v := range c {
		if v != 0 {
			return true
		}
	}
	return false
}

// Keys of a map in order.
func Keys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
