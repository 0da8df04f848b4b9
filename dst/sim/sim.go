// Package sim is the deterministic scheduler every simulated run goes through.
//
// One run is one execution of a scenario inside a testing/synctest bubble (so
// that time is virtual and quiescence is detectable).  Tasks are goroutines that
// only run while they hold the token; the driver (the goroutine that called Run)
// hands the token to one enabled task at a time.  Every choice - which task runs,
// where it is preempted, which network event or fault happens, what the workload
// is - is one draw from the run's Chooser, so a seed (or a recorded list of
// choices) fixes the whole execution.
package sim

import (
	"context"
	"fmt"
	"hash/fnv"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"
	"unsafe"
)

//go:linkname getLabel runtime/pprof.runtime_getProfLabel
func getLabel() unsafe.Pointer

// Violation is one broken invariant observed in a run.
type Violation struct {
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
}

// Task is one simulated thread of control.
type Task struct {
	ID    int
	Name  string
	Group string // the simulated node the task belongs to
	sim   *Sim
	wake  chan struct{}

	label unsafe.Pointer
	state taskState
	ready func() bool
	until time.Time
	what  string
	prio  int
	lag   time.Time // how long it may be held while time goes by
	stall int       // decisions for which it is left standing, after a preemption

	foreign bool // not token-scheduled (a goroutine the simulator did not start)
	crashed bool
	held    int // simulated locks held
	started bool
}

type taskState int

const (
	stRunnable taskState = iota // parked, wants the token
	stWaiting                   // parked on a predicate
	stRunning                   // holds the token
	stDone
	stOutside // running or blocked in code the simulator does not schedule
)

// Config tunes a run.
type Config struct {
	MaxYields   int64         // step budget for the whole run
	MaxSwitches int64         // driver decisions
	MaxTime     time.Duration // virtual time budget
	Preempt     bool          // statement-level preemption
	Slow        time.Duration // a task may be held that long at a statement (8 times in a run)
	Trace       bool
}

// Sim is one run.
type Sim struct {
	C   *Chooser
	cfg Config

	mu      sync.Mutex // guards the fields foreign goroutines touch
	tasks   []*Task
	foreign []*Task
	byLabel map[unsafe.Pointer]*Task
	events  []*Event
	evSeq   int

	token     *Task
	countdown int64
	pkgMode   bool // only yields of the package pkgFilter count for preemption
	pkgFilter int32
	pkgSeen   []int32
	siteMask  uint64 // only yields whose hash has these bits clear count
	siteSalt  uint64
	held      map[int32]*hold // by statement: who waits there for another to come
	lags      int
	meet      int // times a task is held at a statement
	poke      chan struct{}
	dead      bool
	stopped   bool

	start  time.Time
	yields int64
	nsw    int64
	nextID int

	hash   uint64
	ilHash uint64
	state  map[uint64]struct{}
	log    []string
	logn   int

	Viol    []Violation
	Faults  map[string]int64
	Probes  map[string]int64
	Reached map[string]int64

	prioMode  bool
	dense     int  // preemptions left at every few statements
	stallMode bool // preempted tasks may be left standing for many decisions
	clocks    map[string]time.Duration
	OnSwitch  func()

	mapWrites map[unsafe.Pointer]mapWrite // writes of maps now open
}

// Event is a future happening the driver delivers: a network segment arriving,
// a fault firing, a node restarting.
type Event struct {
	at   time.Time
	name string
	fn   func()
	seq  int
	dead bool
}

var current atomic.Pointer[Sim]

// Cur is the active run, or nil.
func Cur() *Sim { return current.Load() }

// New prepares a run. Must be called inside a synctest bubble.
func New(c *Chooser, cfg Config) *Sim {
	if cfg.MaxYields == 0 {
		cfg.MaxYields = 60_000_000
	}
	if cfg.MaxSwitches == 0 {
		cfg.MaxSwitches = 400_000
	}
	if cfg.MaxTime == 0 {
		cfg.MaxTime = 24 * time.Hour
	}
	s := &Sim{
		C: c, cfg: cfg,
		byLabel: map[unsafe.Pointer]*Task{},
		poke:    make(chan struct{}, 1),
		start:   time.Now(),
		Faults:  map[string]int64{}, Probes: map[string]int64{}, Reached: map[string]int64{},
		clocks: map[string]time.Duration{},
		state:  map[uint64]struct{}{},
		hash:   14695981039346656037, ilHash: 14695981039346656037,
	}
	c.tracing = cfg.Trace
	current.Store(s)
	return s
}

// Now is virtual time since the run began.
func (s *Sim) Elapsed() time.Duration { return time.Since(s.start) }

// Epoch moves the run's starting date without counting it as simulated time.
func (s *Sim) Epoch(d time.Duration) {
	time.Sleep(d)
	s.start = time.Now()
}

// Hash summarises everything logged; IL the sequence of token hand-overs.
func (s *Sim) Hash() uint64            { return s.hash }
func (s *Sim) IL() uint64              { return s.ilHash }
func (s *Sim) Steps() (int64, int64)   { return s.yields, s.nsw }
func (s *Sim) Log() []string           { return s.log }
func (s *Sim) Distinct() int           { return len(s.state) }
func (s *Sim) Stopped() bool           { return s.stopped }
func mix(h uint64, v uint64) uint64    { h ^= v; h *= 1099511628211; h ^= h >> 29; return h }
func (s *Sim) Fault(kind string)       { s.Faults[kind]++; s.Logf("fault %s", kind) }
func (s *Sim) Probe(name string)       { s.Probes[name]++ }
func (s *Sim) Mark(name string, n int) { s.Reached[name] += int64(n) }

// Logf records an event of the run; the log's hash is what the determinism
// self-check compares.
func (s *Sim) Logf(f string, a ...any) {
	m := fmt.Sprintf(f, a...)
	h := fnv.New64a()
	h.Write([]byte(m))
	s.hash = mix(s.hash, h.Sum64())
	s.logn++
	if s.cfg.Trace && len(s.log) < 4000 {
		s.log = append(s.log, fmt.Sprintf("%9.3fs %s", s.Elapsed().Seconds(), m))
	}
}

// Fail records a violation.
func (s *Sim) Fail(kind, f string, a ...any) {
	d := fmt.Sprintf(f, a...)
	s.Viol = append(s.Viol, Violation{kind, d})
	s.Logf("VIOLATION %s: %s", kind, d)
}

func (s *Sim) Failed() bool { return len(s.Viol) > 0 }

// Stop ends the run at the next driver step.
func (s *Sim) Stop() { s.stopped = true }

// Go starts a task.
func (s *Sim) Go(group, name string, fn func()) *Task {
	s.nextID++
	t := &Task{ID: s.nextID, Name: name, Group: group, sim: s, wake: make(chan struct{}), state: stRunnable}
	if s.prioMode {
		t.prio = s.C.Choose(8, "prio")
	}
	s.tasks = append(s.tasks, t)
	reg := make(chan struct{})
	go func() {
		ctx := pprof.WithLabels(context.Background(), pprof.Labels("t", fmt.Sprint(t.ID)))
		pprof.SetGoroutineLabels(ctx)
		t.label = getLabel()
		s.mu.Lock()
		s.byLabel[t.label] = t
		s.mu.Unlock()
		close(reg)
		defer s.finish(t)
		<-t.wake
		if s.dead {
			return
		}
		fn()
	}()
	<-reg
	return t
}

func (s *Sim) finish(t *Task) {
	if r := recover(); r != nil {
		if !s.dead {
			s.Fail("panic", "task %s: %v%s", t.Name, r, stackOf())
		}
	}
	t.state = stDone
	s.mu.Lock()
	delete(s.byLabel, t.label)
	s.mu.Unlock()
	s.pokeDriver()
}

func stackOf() string {
	var out []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if i := strings.Index(l, "tokucore/"); i >= 0 && strings.Contains(l, ".go:") {
			l = l[i+len("tokucore/"):]
			if j := strings.IndexByte(l, ' '); j > 0 {
				l = l[:j]
			}
			out = append(out, l)
			if len(out) == 4 {
				break
			}
		}
	}
	if len(out) == 0 {
		return ""
	}
	return " at " + strings.Join(out, " < ")
}

func (s *Sim) pokeDriver() {
	select {
	case s.poke <- struct{}{}:
	default:
	}
}

func (s *Sim) cur() *Task {
	l := getLabel()
	if l == nil {
		return nil
	}
	if t := s.token; t != nil && t.label == l {
		return t
	}
	s.mu.Lock()
	t := s.byLabel[l]
	s.mu.Unlock()
	return t
}

// CurTask returns the calling task, or nil when the caller is not one.
func CurTask() *Task {
	s := current.Load()
	if s == nil {
		return nil
	}
	if getLabel() == nil {
		return nil
	}
	return s.cur()
}

// Yield is inserted before every statement of the code under test.
func Yield(site int32) {
	if getLabel() == nil {
		return
	}
	s := current.Load()
	if s == nil {
		return
	}
	t := s.cur()
	if t == nil {
		return
	}
	s.yield(t, site)
}

// Y yields between the evaluation of an operand and its use.
func Y[T any](v T, site int32) T {
	Yield(site)
	return v
}

func (s *Sim) yield(t *Task, site int32) {
	if s.token != t || s.dead {
		// Woken by something the simulator does not schedule: queue for the token.
		s.park(t, stRunnable)
		return
	}
	s.yields++
	if s.yields > s.cfg.MaxYields {
		s.Fail("no-progress", "run exceeded %d statement steps; task %s at %s", s.cfg.MaxYields, t.Name, SiteName(site))
		s.stopped = true
		s.park(t, stRunnable)
	}
	if (s.siteSalt+uint64(site))*0x9e3779b97f4a7c15>>40&s.siteMask != 0 {
		return
	}
	if s.held != nil {
		s.meeting(t, site)
		return
	}
	if s.countdown > 0 {
		if s.pkgMode {
			if p := site >> 20; p != s.pkgFilter {
				if !slices.Contains(s.pkgSeen, p) {
					s.pkgSeen = append(s.pkgSeen, p)
					if s.C.Choose(3, "pkg-follow") == 1 {
						s.pkgFilter = p
					}
				}
				if p != s.pkgFilter {
					return
				}
			}
		}
		s.countdown--
		if s.countdown == 0 {
			s.Probes["preemptions"]++
			s.ilHash = mix(s.ilHash, uint64(site)+7)
			if s.stallMode && s.C.Choose(2, "stall?") == 1 {
				t.stall = 1 << uint(s.C.Choose(9, "stall"))
				s.Probes["stalls"]++
			}
			s.park(t, stRunnable)
		}
	}
}

// meeting holds a task at a statement until another one comes to the same
// statement, so that both are between the same two statements.
func (s *Sim) meeting(t *Task, site int32) {
	h := s.held[site]
	if h == nil {
		h = &hold{left: s.meet}
		s.held[site] = h
	}
	if o := h.task; o != nil && o != t && o.stall > 0 {
		o.stall = 0
		h.task = nil
		s.Probes["meetings"]++
		if s.C.Choose(3, "meet") == 0 {
			return
		}
	} else {
		if h.left == 0 || s.C.Choose(2, "hold") == 0 {
			return
		}
		h.left--
		h.task = t
		t.stall = 1 << uint(6+s.C.Choose(8, "hold-for"))
		if s.lags < 8 && s.cfg.Slow > 0 && s.C.Choose(2, "slow-machine") == 1 {
			s.lags++
			t.lag = time.Now().Add(s.cfg.Slow)
			s.Fault("machine-slow")
		}
	}
	s.Probes["preemptions"]++
	s.ilHash = mix(s.ilHash, uint64(site)+7)
	s.park(t, stRunnable)
}

type hold struct {
	task *Task
	left int // times somebody may still be held here
}

// park gives the token up and waits until the driver returns it.
func (s *Sim) park(t *Task, st taskState) {
	if s.dead {
		runtime.Goexit()
	}
	t.state = st
	if s.token != t {
		s.pokeDriver()
	}
	<-t.wake
	if s.dead {
		runtime.Goexit()
	}
}

// Pause is a voluntary scheduling point (harness code uses it).
func Pause() {
	s := current.Load()
	if s == nil {
		return
	}
	if t := CurTask(); t != nil {
		s.park(t, stRunnable)
	}
}

// Await blocks the calling goroutine until ready() holds (or the deadline, when
// not zero, has passed; ready is what the caller re-checks).
func Await(what string, deadline time.Time, ready func() bool) {
	s := current.Load()
	if s == nil {
		if !ready() {
			panic("sim.Await outside a run: " + what)
		}
		return
	}
	t := CurTask()
	if t == nil {
		AwaitForeign(what, deadline, ready)
		return
	}
	if s.dead {
		runtime.Goexit()
	}
	t.ready, t.until, t.what = ready, deadline, what
	s.park(t, stWaiting)
	t.ready = nil
}

// AwaitForeign is Await for goroutines of un-instrumented libraries (net/http).
func AwaitForeign(what string, deadline time.Time, ready func() bool) {
	s := current.Load()
	if s == nil || s.dead {
		return
	}
	s.mu.Lock()
	s.nextID++
	t := &Task{ID: s.nextID, Name: "ext", sim: s, wake: make(chan struct{}), state: stWaiting, ready: ready, until: deadline, what: what, foreign: true}
	s.foreign = append(s.foreign, t)
	s.mu.Unlock()
	s.pokeDriver()
	<-t.wake
}

// Dead reports that the run is being torn down.
func Dead() bool { s := current.Load(); return s == nil || s.dead }

// Sleep blocks the calling task for d of virtual time.
func Sleep(d time.Duration) {
	at := time.Now().Add(d)
	Await("sleep", at, func() bool { return !time.Now().Before(at) })
}

// At schedules fn to run in the driver at virtual time d from now.
func (s *Sim) At(d time.Duration, name string, fn func()) *Event {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.evSeq++
	e := &Event{at: time.Now().Add(d), name: name, fn: fn, seq: s.evSeq}
	s.events = append(s.events, e)
	s.pokeDriver()
	return e
}

// Poke makes the driver look at its waiters again (for changes made by
// goroutines the simulator does not schedule).
func Poke() {
	if s := current.Load(); s != nil {
		s.pokeDriver()
	}
}

// Cancel withdraws an event.
func (e *Event) Cancel() { e.dead = true }

// Kill makes a group of tasks stop for good where they are, as a crash does.
// Tasks holding a simulated lock that other groups could share are left to
// release it first (the caller may retry).
func (s *Sim) Kill(group string) {
	for _, t := range s.tasks {
		if t.Group == group && t.state != stDone {
			t.crashed = true
		}
	}
}

func (s *Sim) HoldsLock(group string) bool {
	for _, t := range s.tasks {
		if t.Group == group && t.state != stDone && t.held > 0 {
			return true
		}
	}
	return false
}

func (t *Task) Lock()      { t.held++ }
func (t *Task) Unlock()    { t.held-- }
func (t *Task) Done() bool { return t.state == stDone }
func (t *Task) Waiting() string {
	if t.state == stWaiting {
		return t.what
	}
	return ""
}
func (t *Task) Finished() bool { return t.state == stDone }

// Clock offset of a group (skew / jumps); see Now.
func (s *Sim) SetClock(group string, off time.Duration) { s.clocks[group] = off }

// Now replaces time.Now in the code under test: virtual time, with the wall
// clock (not the monotonic reading) shifted by the node's skew.
func Now() time.Time {
	t := time.Now()
	s := current.Load()
	if s == nil {
		return t
	}
	tk := CurTask()
	if tk == nil {
		return t
	}
	if off, ok := s.clocks[tk.Group]; ok && off != 0 {
		return shiftWall(t, off)
	}
	return t
}

// shiftWall moves the wall-clock part of t and leaves its monotonic reading.
func shiftWall(t time.Time, off time.Duration) time.Time {
	type rawTime struct {
		wall uint64
		ext  int64
		loc  *time.Location
	}
	const hasMono = 1 << 63
	r := (*rawTime)(unsafe.Pointer(&t))
	if r.wall&hasMono == 0 {
		return t.Add(off)
	}
	secs := int64(r.wall<<1>>31) + int64(off/time.Second)
	if secs < 0 {
		secs = 0
	}
	r.wall = hasMono | uint64(secs)<<30&^hasMono | r.wall&(1<<30-1)
	return t
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// SetupSchedule draws the run's scheduling strategy.
func (s *Sim) SetupSchedule() {
	if s.cfg.Preempt {
		switch s.C.Choose(4, "focus") {
		case 2: // one package at a time, of those that run
			s.pkgMode, s.pkgFilter = true, -1
		case 3: // few statements, but those every time
			s.siteMask = 1<<uint(2+s.C.Choose(7, "focus-bits")) - 1
			s.siteSalt = uint64(s.C.Choose(1<<30, "focus-salt"))
			if s.C.Choose(2, "meet?") == 1 {
				s.meet = 1 << uint(s.C.Choose(5, "meetings"))
				s.held = map[int32]*hold{}
				s.siteMask >>= 2
			}
		}
	}
	s.prioMode = s.C.Choose(3, "prio-mode") == 1
	if s.cfg.Preempt {
		s.stallMode = s.C.Choose(3, "stall-mode") == 1 || s.held != nil
		if s.C.Choose(5, "dense-mode") == 1 { // switches every few statements, for a while
			s.dense = 1 << (5 + s.C.Choose(8, "dense"))
		}
	}
	s.nextGap()
}

func (s *Sim) nextGap() {
	if !s.cfg.Preempt {
		return
	}
	if s.pkgMode && len(s.pkgSeen) > 0 && s.C.Choose(8, "pkg-move") == 1 {
		s.pkgFilter = s.pkgSeen[s.C.Choose(len(s.pkgSeen), "pkg-to")]
	}
	if s.siteMask != 0 && s.C.Choose(3, "focus-long") != 1 {
		s.countdown = 1 + int64(s.C.Choose(4, "focus-gap"))
		return
	}
	if s.dense > 0 {
		s.dense--
		s.countdown = 1 + int64(s.C.Choose(4, "dense-gap"))
		return
	}
	// 0: no further preemption; otherwise a gap of 1..2^k statements.
	k := s.C.Choose(18, "gap-exp")
	if k == 0 {
		s.countdown = 0
		return
	}
	if k > 14 {
		k -= 11 // favour short gaps
	}
	s.countdown = 1 + int64(s.C.Choose(1<<uint(k), "gap"))
}

// Run drives the simulation until done() holds and nothing is left to do, all
// tasks are finished, the budget is gone or Stop was called.
func (s *Sim) Run(done func() bool) {
	for !s.stopped {
		synctest.Wait()
		if t := s.token; t != nil {
			if t.state == stRunning {
				t.state = stOutside // blocked in something we do not schedule
			}
			s.token = nil
		}
		if s.OnSwitch != nil {
			s.OnSwitch()
		}
		if done != nil && done() {
			return
		}
		s.nsw++
		if s.nsw > s.cfg.MaxSwitches {
			s.Fail("no-progress", "run exceeded %d scheduling steps", s.cfg.MaxSwitches)
			return
		}
		if s.Elapsed() > s.cfg.MaxTime {
			s.Logf("time budget exhausted")
			return
		}
		now := time.Now()
		var en []*Task
		var next time.Time
		consider := func(t time.Time) {
			if !t.IsZero() && (next.IsZero() || t.Before(next)) {
				next = t
			}
		}
		alive, outside := 0, 0
		for _, t := range s.tasks {
			if t.crashed || t.state == stDone {
				continue
			}
			alive++
			switch t.state {
			case stRunnable:
				en = append(en, t)
			case stWaiting:
				if t.ready() || (!t.until.IsZero() && !now.Before(t.until)) {
					en = append(en, t)
				} else {
					consider(t.until)
				}
			case stOutside:
				outside++
			}
		}
		s.mu.Lock()
		for _, t := range s.foreign {
			if t.state != stWaiting {
				continue
			}
			if t.ready() || (!t.until.IsZero() && !now.Before(t.until)) {
				en = append(en, t)
			} else {
				consider(t.until)
			}
		}
		var due []*Event
		for _, e := range s.events {
			if e.dead {
				continue
			}
			if !now.Before(e.at) {
				due = append(due, e)
			} else {
				consider(e.at)
			}
		}
		s.mu.Unlock()
		if alive == 0 && len(due) == 0 && len(en) == 0 && (done == nil || next.IsZero()) {
			return
		}
		sort.SliceStable(due, func(i, j int) bool { return due[i].at.Before(due[j].at) })

		if s.stallMode {
			en = s.standing(en, len(due) > 0, now, next)
		}
		n := len(en) + len(due)
		if n == 0 {
			if next.IsZero() {
				if outside == 0 {
					// Nothing can ever happen again.
					s.Logf("quiescent")
					return
				}
				next = now.Add(10 * time.Minute)
				if s.Elapsed() > s.cfg.MaxTime/2 {
					return
				}
			}
			s.sleep(next.Sub(now))
			continue
		}
		var pick int
		if len(due) > 0 && len(en) > 0 {
			// events first or a task first
			if s.C.Choose(2, "ev-or-task") == 0 {
				pick = len(en) + s.C.Choose(len(due), "event")
			} else {
				pick = s.pickTask(en)
			}
		} else if len(due) > 0 {
			pick = len(en) + s.C.Choose(len(due), "event")
		} else {
			pick = s.pickTask(en)
		}
		if pick >= len(en) {
			e := due[pick-len(en)]
			e.dead = true
			s.dropEvent(e)
			s.ilHash = mix(s.ilHash, 1000003)
			e.fn()
			continue
		}
		t := en[pick]
		s.ilHash = mix(s.ilHash, uint64(t.ID))
		s.state[s.ilHash] = struct{}{}
		if t.foreign {
			t.state = stOutside
			s.mu.Lock()
			for i, f := range s.foreign {
				if f == t {
					s.foreign = append(s.foreign[:i], s.foreign[i+1:]...)
					break
				}
			}
			s.mu.Unlock()
			t.wake <- struct{}{}
			continue
		}
		if s.countdown == 0 && t.started && s.cfg.Preempt {
			s.nextGap()
		} else if s.countdown == 0 && s.cfg.Preempt {
			s.nextGap()
		}
		t.started = true
		t.state = stRunning
		s.token = t
		t.wake <- struct{}{}
	}
}

func (s *Sim) dropEvent(e *Event) {
	s.mu.Lock()
	for i, f := range s.events {
		if f == e {
			s.events = append(s.events[:i], s.events[i+1:]...)
			break
		}
	}
	s.mu.Unlock()
}

// standing leaves out the tasks that are left standing, unless nothing else can
// go on. Where the scenario allows slow machines, time may go by meanwhile.
func (s *Sim) standing(en []*Task, others bool, now, next time.Time) []*Task {
	var go_ []*Task
	lag := s.cfg.Slow > 0 && !next.IsZero()
	for _, t := range en {
		if t.stall > 0 {
			t.stall--
			if !next.Before(t.lag) {
				lag = false
			}
			continue
		}
		go_ = append(go_, t)
	}
	if len(go_) == 0 && !others && !lag {
		return en
	}
	return go_
}

func (s *Sim) pickTask(en []*Task) int {
	if len(en) == 1 {
		return 0
	}
	if s.prioMode {
		// mostly the highest priority, sometimes anyone (and then demote)
		if s.C.Choose(4, "prio-break") != 3 {
			best := 0
			for i, t := range en {
				if t.prio > en[best].prio {
					best = i
				}
			}
			return best
		}
		i := s.C.Choose(len(en), "task")
		en[i].prio = s.C.Choose(8, "reprio")
		return i
	}
	return s.C.Choose(len(en), "task")
}

func (s *Sim) sleep(d time.Duration) {
	select {
	case <-s.poke:
		return
	default:
	}
	tm := time.NewTimer(d)
	select {
	case <-tm.C:
	case <-s.poke:
		tm.Stop()
	}
}

// Close tears the run down: every remaining task unwinds.
func (s *Sim) Close() {
	s.dead = true
	synctest.Wait()
	for round := 0; round < 50; round++ {
		left := 0
		for _, t := range s.tasks {
			if t.state == stDone {
				continue
			}
			left++
			select {
			case t.wake <- struct{}{}:
				synctest.Wait()
			default:
			}
		}
		s.mu.Lock()
		fs := s.foreign
		s.foreign = nil
		s.mu.Unlock()
		for _, t := range fs {
			select {
			case t.wake <- struct{}{}:
			default:
			}
		}
		synctest.Wait()
		if left == 0 && len(fs) == 0 {
			break
		}
		time.Sleep(time.Hour)
	}
	synctest.Wait()
	current.Store(nil)
}

var siteNames []string

// RegisterSites is called by generated code.
func RegisterSites(names []string) { siteNames = names }

// SiteName describes a yield site.
func SiteName(site int32) string {
	i := int(site & (1<<20 - 1))
	if i < len(siteNames) {
		return siteNames[i]
	}
	return fmt.Sprintf("site%d", site)
}
