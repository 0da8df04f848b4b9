// Package simsync stands in for package sync in the code under test: locks block
// through the simulator, so who waits and who gets the lock is the scheduler's
// decision. Outside a run the primitives behave like the real ones.
package simsync

import (
	"sync"
	"sync/atomic"
	"time"

	"vsim/sim"
)

type (
	Locker = sync.Locker
	Pool   struct {
		New   func() any
		items []any
		mu    sync.Mutex
	}
)

// guard protects the simulated primitives' own words against goroutines that run
// outside the token (library goroutines); it is never held across a wait.
var guard sync.Mutex

func held(d int) {
	if t := sim.CurTask(); t != nil {
		if d > 0 {
			t.Lock()
		} else {
			t.Unlock()
		}
	}
}

// Mutex --
type Mutex struct{ locked bool }

func (m *Mutex) try() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func acquire(what string, free func() bool, take func()) {
	for {
		guard.Lock()
		if free() {
			take()
			guard.Unlock()
			held(1)
			return
		}
		guard.Unlock()
		if sim.Cur() == nil {
			time.Sleep(50 * time.Microsecond)
			continue
		}
		if sim.Dead() {
			// tearing down: nothing is checked any more
			return
		}
		sim.Await(what, time.Time{}, func() bool { guard.Lock(); defer guard.Unlock(); return free() })
	}
}

func (m *Mutex) Lock() {
	acquire("mutex", func() bool { return !m.locked }, func() { m.locked = true })
}
func (m *Mutex) TryLock() bool {
	guard.Lock()
	defer guard.Unlock()
	ok := m.try()
	return ok
}
func (m *Mutex) Unlock() {
	guard.Lock()
	if !m.locked && !sim.Dead() {
		guard.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	guard.Unlock()
	held(-1)
}

// RWMutex --
type RWMutex struct {
	w    bool
	r    int
	want int
}

func (m *RWMutex) Lock() {
	guard.Lock()
	m.want++
	guard.Unlock()
	acquire("rwmutex.w", func() bool { return !m.w && m.r == 0 }, func() { m.w = true; m.want-- })
}
func (m *RWMutex) TryLock() bool {
	guard.Lock()
	defer guard.Unlock()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	guard.Lock()
	if !m.w && !sim.Dead() {
		guard.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	guard.Unlock()
	held(-1)
}
func (m *RWMutex) RLock() {
	// a waiting writer blocks new readers, as in package sync
	acquire("rwmutex.r", func() bool { return !m.w && m.want == 0 }, func() { m.r++ })
}
func (m *RWMutex) TryRLock() bool {
	guard.Lock()
	defer guard.Unlock()
	if m.w || m.want > 0 {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	guard.Lock()
	if m.r <= 0 && !sim.Dead() {
		guard.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	guard.Unlock()
	held(-1)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once --
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}

// WaitGroup --
type WaitGroup struct{ n int64 }

func (w *WaitGroup) Add(d int) {
	if atomic.AddInt64(&w.n, int64(d)) < 0 && !sim.Dead() {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	for atomic.LoadInt64(&w.n) > 0 {
		if sim.Cur() == nil {
			time.Sleep(50 * time.Microsecond)
			continue
		}
		if sim.Dead() {
			return
		}
		sim.Await("waitgroup", time.Time{}, func() bool { return atomic.LoadInt64(&w.n) <= 0 })
	}
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sim.GoStmt(func() { defer w.Done(); f() })
}

// Cond --
type Cond struct {
	L   Locker
	seq []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	b := new(bool)
	c.seq = append(c.seq, b)
	c.L.Unlock()
	sim.Await("cond", time.Time{}, func() bool { return *b })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.seq) > 0 {
		*c.seq[0] = true
		c.seq = c.seq[1:]
	}
}
func (c *Cond) Broadcast() {
	for _, b := range c.seq {
		*b = true
	}
	c.seq = nil
}

// Map --
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) Load(k any) (any, bool) {
	guard.Lock()
	defer guard.Unlock()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) store(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) Store(k, v any) {
	guard.Lock()
	defer guard.Unlock()
	m.store(k, v)
}
func (m *Map) Swap(k, v any) (any, bool) {
	guard.Lock()
	defer guard.Unlock()
	o, ok := m.m[k]
	m.store(k, v)
	return o, ok
}
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	guard.Lock()
	defer guard.Unlock()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.store(k, v)
	return v, false
}
func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	guard.Lock()
	defer guard.Unlock()
	o, ok := m.m[k]
	m.del(k)
	return o, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Clear() {
	guard.Lock()
	defer guard.Unlock()
	m.m, m.keys = nil, nil
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	guard.Lock()
	defer guard.Unlock()
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	m.store(k, n)
	return true
}
func (m *Map) CompareAndDelete(k, o any) bool {
	guard.Lock()
	defer guard.Unlock()
	if v, ok := m.m[k]; !ok || v != o {
		return false
	}
	m.del(k)
	return true
}
func (m *Map) Range(f func(k, v any) bool) {
	guard.Lock()
	ks := append([]any(nil), m.keys...)
	guard.Unlock()
	for _, k := range ks {
		v, ok := m.Load(k)
		if ok && !f(k, v) {
			return
		}
	}
}

// Pool hands items back last-in first-out, which makes reuse of a shared item as
// likely as it can be.
func (p *Pool) Get() any {
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return v
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v any) {
	p.mu.Lock()
	p.items = append(p.items, v)
	p.mu.Unlock()
}
