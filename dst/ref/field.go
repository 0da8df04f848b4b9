package ref

import (
	"math/big"
	"math/bits"
)

// fe is an element of GF(P), four little-endian limbs, always reduced.
type fe [4]uint64

const fc = 0x1000003d1 // 2^256 - P

func toFe(x *big.Int) (r fe) {
	b := B32(new(big.Int).Mod(x, P))
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			r[3-i] = r[3-i]<<8 | uint64(b[8*i+j])
		}
	}
	return
}

func (a fe) big() *big.Int {
	var b [32]byte
	for i := 0; i < 4; i++ {
		for j := 0; j < 8; j++ {
			b[8*i+j] = byte(a[3-i] >> (56 - 8*j))
		}
	}
	return new(big.Int).SetBytes(b[:])
}

func (a fe) zero() bool { return a[0]|a[1]|a[2]|a[3] == 0 }

// norm subtracts P once if a >= P.
func (a fe) norm() fe {
	if a[3] == ^uint64(0) && a[2] == ^uint64(0) && a[1] == ^uint64(0) && a[0] >= ^uint64(0)-fc+1 {
		return fe{a[0] + fc, 0, 0, 0}
	}
	return a
}

func addf(a, b fe) fe {
	var r fe
	var c uint64
	for i := range r {
		r[i], c = bits.Add64(a[i], b[i], c)
	}
	for c != 0 {
		var k uint64
		r[0], k = bits.Add64(r[0], fc, 0)
		for i := 1; i < 4; i++ {
			r[i], k = bits.Add64(r[i], 0, k)
		}
		c = k
	}
	return r.norm()
}

func subf(a, b fe) fe {
	var r fe
	var c uint64
	for i := range r {
		r[i], c = bits.Sub64(a[i], b[i], c)
	}
	for c != 0 {
		var k uint64
		r[0], k = bits.Sub64(r[0], fc, 0)
		for i := 1; i < 4; i++ {
			r[i], k = bits.Sub64(r[i], 0, k)
		}
		c = k
	}
	return r.norm()
}

func mulf(a, b fe) fe {
	var t [8]uint64
	for i := 0; i < 4; i++ {
		var c uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[i], b[j])
			var k uint64
			lo, k = bits.Add64(lo, t[i+j], 0)
			hi += k
			lo, k = bits.Add64(lo, c, 0)
			hi += k
			t[i+j] = lo
			c = hi
		}
		t[i+4] = c
	}
	// fold the high half: t_hi * fc
	var r fe
	var c uint64
	for i := 0; i < 4; i++ {
		hi, lo := bits.Mul64(t[i+4], fc)
		var k uint64
		lo, k = bits.Add64(lo, t[i], 0)
		hi += k
		lo, k = bits.Add64(lo, c, 0)
		hi += k
		r[i] = lo
		c = hi
	}
	for c != 0 {
		hi, lo := bits.Mul64(c, fc)
		var k uint64
		r[0], k = bits.Add64(r[0], lo, 0)
		r[1], k = bits.Add64(r[1], hi, k)
		r[2], k = bits.Add64(r[2], 0, k)
		r[3], k = bits.Add64(r[3], 0, k)
		c = k
	}
	return r.norm()
}
