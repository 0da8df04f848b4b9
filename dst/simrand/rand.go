// Package simrand stands in for crypto/rand in the code under test: the
// operating system's randomness of the simulated node the caller runs on.
package simrand

import (
	"errors"
	"io"
	"math/big"

	"vsim/sim"
)

// Source is one node's entropy source.
type Source struct {
	State   uint64
	FailAt  int64               // the first read that returns an error (1-based; 0 never)
	FailFor int64               // how many reads in a row fail (0: all from FailAt on)
	FailBy  map[string]int      // failed reads by task
	Trip    map[*sim.Task]int64 // reads a task has left before its reads fail; these are not counted in Fails
	ShortAt int64               // the read that is short (n < len(p), nil error), as io.Reader permits
	Const   bool                // stuck source: always the same byte
	Reads   int64
	Bytes   int64
	Fails   int64
	Shorts  int64
	ShortTo int // what it gives then, 0: a third
	Tap     func(p []byte)
	Queue   []byte // bytes served before the generator's
	last    int    // prime drawn last, plus one
}

var sources = map[string]*Source{}

// Reset forgets every node's source.
func Reset() { sources = map[string]*Source{} }

// Set installs the source of a node (group).
func Set(group string, s *Source) { sources[group] = s }

// Of returns a node's source.
func Of(g string) *Source {
	s := sources[g]
	if s == nil {
		s = &Source{State: 0xabcdef}
		for _, c := range g {
			s.State = sim.Mix(s.State, uint64(c))
		}
		sources[g] = s
	}
	return s
}

func mine() *Source {
	if t := sim.CurTask(); t != nil {
		return Of(t.Group)
	}
	return Of("")
}

// ErrEntropy is what a failing source returns.
var ErrEntropy = errors.New("simulated: entropy source unavailable")

type reader struct{}

// Reader is the simulated crypto/rand.Reader.
var Reader io.Reader = reader{}

func (reader) Read(p []byte) (int, error) { return mine().Read(p) }

func (s *Source) Read(p []byte) (int, error) {
	s.Reads++
	if t := sim.CurTask(); t != nil && s.Trip != nil {
		if left, ok := s.Trip[t]; ok {
			if left == 0 {
				return 0, ErrEntropy
			}
			s.Trip[t] = left - 1
		}
	}
	if s.FailAt > 0 && s.Reads >= s.FailAt && (s.FailFor == 0 || s.Reads < s.FailAt+s.FailFor) {
		s.Fails++
		if t := sim.CurTask(); t != nil && s.FailBy != nil {
			s.FailBy[t.Name]++
		}
		return 0, ErrEntropy
	}
	n := len(p)
	if s.ShortAt > 0 && s.Reads == s.ShortAt && n > 1 {
		s.Shorts++
		switch {
		case s.ShortTo == 0:
			n = 1 + n/3
		case s.ShortTo < n:
			n = s.ShortTo
		default:
			n--
		}
	}
	s.fill(p[:n])
	return n, nil
}

func (s *Source) fill(p []byte) {
	s.Bytes += int64(len(p))
	if s.Const {
		for i := range p {
			p[i] = 0x42
		}
	} else {
		n := copy(p, s.Queue)
		s.Queue = s.Queue[n:]
		if n < len(p) {
			s.State = sim.Mix(s.State, uint64(len(p)-n))
			sim.Expand(s.State, p[n:])
		}
	}
	if s.Tap != nil {
		s.Tap(p)
	}
}

// Read fills b (short reads are retried, as in crypto/rand).
func Read(b []byte) (int, error) { return io.ReadFull(Reader, b) }

// Text --
func Text() string {
	const al = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = al[b[i]%32]
	}
	return string(b)
}

// Int is crypto/rand.Int's algorithm.
func Int(r io.Reader, max *big.Int) (*big.Int, error) {
	if max.Sign() <= 0 {
		panic("crypto/rand: argument to Int is <= 0")
	}
	n := new(big.Int)
	n.Sub(max, n.SetUint64(1))
	bitLen := n.BitLen()
	if bitLen == 0 {
		return n, nil
	}
	k := (bitLen + 7) / 8
	b := uint(bitLen % 8)
	if b == 0 {
		b = 8
	}
	bytes := make([]byte, k)
	for {
		if _, err := io.ReadFull(r, bytes); err != nil {
			return nil, err
		}
		bytes[0] &= uint8(int(1<<b) - 1)
		n.SetBytes(bytes)
		if n.Cmp(max) < 0 {
			return n, nil
		}
	}
}

// Prime returns a prime of the given size. For the sizes in the pool the search
// is a stub: one read from the source selects a pre-generated prime.
func Prime(r io.Reader, bits int) (*big.Int, error) {
	if bits < 2 {
		return nil, errors.New("crypto/rand: prime size must be at least 2-bit")
	}
	seed := make([]byte, (bits+7)/8)
	if _, err := io.ReadFull(r, seed); err != nil {
		return nil, err
	}
	if pool := primes[bits]; len(pool) > 0 {
		h := uint64(14695981039346656037)
		for _, c := range seed {
			h = (h ^ uint64(c)) * 1099511628211
		}
		h ^= h >> 31
		i := int(h % uint64(len(pool)))
		if src := mine(); src.last == i+1 {
			i = (i + 1) % len(pool) // a real source does not draw the same prime twice
			src.last = i + 1
		} else {
			src.last = i + 1
		}
		return new(big.Int).Set(pool[i]), nil
	}
	p := new(big.Int).SetBytes(seed)
	p.SetBit(p, bits, 0)
	for i := bits; i < len(seed)*8; i++ {
		p.SetBit(p, i, 0)
	}
	p.SetBit(p, bits-1, 1)
	if bits >= 2 {
		p.SetBit(p, bits-2, 1)
	}
	p.SetBit(p, 0, 1)
	two := big.NewInt(2)
	for !p.ProbablyPrime(20) || p.BitLen() != bits {
		p.Add(p, two)
		if p.BitLen() > bits {
			p.SetInt64(0)
			p.SetBit(p, bits-1, 1)
			p.SetBit(p, 0, 1)
		}
	}
	return p, nil
}

var primes = map[int][]*big.Int{}
