package sim

// Chooser is the single source of every decision of a run. It draws from a
// seeded generator and records, or replays a recorded list; past the end of a
// replayed list every draw is 0, which each scenario treats as the simplest
// option (no fault, no preemption, first task, smallest workload).
type Chooser struct {
	state   uint64
	replay  []uint32
	isRep   bool
	pos     int
	Rec     []uint32
	tracing bool
	Max     int
}

func NewChooser(seed uint64) *Chooser { return &Chooser{state: seed, Max: 1 << 22} }
func NewReplay(ch []uint32) *Chooser  { return &Chooser{replay: ch, isRep: true, Max: 1 << 22} }

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix derives independent seeds.
func Mix(a, b uint64) uint64 { x := a ^ (b+1)*0xd6e8feb86659fd93; return splitmix(&x) }

// Choose returns a value in [0,n).
func (c *Chooser) Choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if c.isRep {
		if c.pos < len(c.replay) {
			v = c.replay[c.pos]
			c.pos++
			if v >= uint32(n) {
				v %= uint32(n)
			}
		}
	} else {
		v = uint32((splitmix(&c.state) >> 33) % uint64(n))
	}
	if len(c.Rec) < c.Max {
		c.Rec = append(c.Rec, v)
	}
	return int(v)
}

// Bool is true with probability 1/n.
func (c *Chooser) OneIn(n int, what string) bool { return c.Choose(n, what) == n-1 }

// Range returns a value in [lo,hi].
func (c *Chooser) Range(lo, hi int, what string) int { return lo + c.Choose(hi-lo+1, what) }

// U64 draws 64 bits. One choice seeds an expansion, so traces stay short.
func (c *Chooser) U64(what string) uint64 {
	x := uint64(c.Choose(1<<31-1, what))
	if x == 0 {
		return 0
	}
	return splitmix(&x)
}

// Bytes draws n pseudo-random bytes from one choice (0 gives zero bytes).
func (c *Chooser) Bytes(n int, what string) []byte {
	x := uint64(c.Choose(1<<31-1, what))
	b := make([]byte, n)
	if x == 0 {
		return b
	}
	Expand(x, b)
	return b
}

// Expand fills b from a seed.
func Expand(x uint64, b []byte) {
	for i := 0; i < len(b); i += 8 {
		v := splitmix(&x)
		for j := i; j < i+8 && j < len(b); j++ {
			b[j] = byte(v)
			v >>= 8
		}
	}
}

// Pick returns one of the options.
func Pick[T any](c *Chooser, what string, opts ...T) T { return opts[c.Choose(len(opts), what)] }
