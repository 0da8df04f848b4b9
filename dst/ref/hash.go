package ref

import (
	"crypto/sha256"
	"encoding/binary"
	"math/bits"
)

func Sha256(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

// DSha is double SHA-256.
func DSha(b []byte) []byte { return Sha256(Sha256(b)) }

// Hash160 is RIPEMD160(SHA256(b)).
func Hash160(b []byte) []byte { return Ripemd160(Sha256(b)) }

var (
	rmdR = [80]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15,
		7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8,
		3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12,
		1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2,
		4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13}
	rmdRR = [80]int{5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12,
		6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2,
		15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13,
		8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14,
		12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11}
	rmdS = [80]int{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8,
		7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12,
		11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5,
		11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12,
		9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6}
	rmdSS = [80]int{8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6,
		9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11,
		9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5,
		15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8,
		8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11}
	rmdK  = [5]uint32{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}
	rmdKK = [5]uint32{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}
)

func rmdF(j int, x, y, z uint32) uint32 {
	switch j / 16 {
	case 0:
		return x ^ y ^ z
	case 1:
		return (x & y) | (^x & z)
	case 2:
		return (x | ^y) ^ z
	case 3:
		return (x & z) | (y &^ z)
	}
	return x ^ (y | ^z)
}

// Ripemd160 from its specification.
func Ripemd160(msg []byte) []byte {
	h := [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
	p := append(append([]byte{}, msg...), 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	p = binary.LittleEndian.AppendUint64(p, uint64(len(msg))*8)
	for ; len(p) > 0; p = p[64:] {
		var x [16]uint32
		for i := range x {
			x[i] = binary.LittleEndian.Uint32(p[4*i:])
		}
		a, b, c, d, e := h[0], h[1], h[2], h[3], h[4]
		aa, bb, cc, dd, ee := a, b, c, d, e
		for j := 0; j < 80; j++ {
			t := bits.RotateLeft32(a+rmdF(j, b, c, d)+x[rmdR[j]]+rmdK[j/16], rmdS[j]) + e
			a, e, d, c, b = e, d, bits.RotateLeft32(c, 10), b, t
			t = bits.RotateLeft32(aa+rmdF(79-j, bb, cc, dd)+x[rmdRR[j]]+rmdKK[j/16], rmdSS[j]) + ee
			aa, ee, dd, cc, bb = ee, dd, bits.RotateLeft32(cc, 10), bb, t
		}
		t := h[1] + c + dd
		h[1] = h[2] + d + ee
		h[2] = h[3] + e + aa
		h[3] = h[4] + a + bb
		h[4] = h[0] + b + cc
		h[0] = t
	}
	var o []byte
	for _, v := range h {
		o = binary.LittleEndian.AppendUint32(o, v)
	}
	return o
}
