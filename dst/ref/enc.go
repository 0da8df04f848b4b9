package ref

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"math/big"
	"strings"
)

const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// Base58 encodes.
func Base58(b []byte) string {
	x := new(big.Int).SetBytes(b)
	var o []byte
	r, n := new(big.Int), big.NewInt(58)
	for x.Sign() > 0 {
		x.DivMod(x, n, r)
		o = append(o, b58[r.Int64()])
	}
	for _, c := range b {
		if c != 0 {
			break
		}
		o = append(o, '1')
	}
	for i, j := 0, len(o)-1; i < j; i, j = i+1, j-1 {
		o[i], o[j] = o[j], o[i]
	}
	return string(o)
}

// Unbase58 decodes.
func Unbase58(s string) ([]byte, bool) {
	x := new(big.Int)
	z := 0
	lead := true
	for _, c := range []byte(s) {
		i := strings.IndexByte(b58, c)
		if i < 0 {
			return nil, false
		}
		if lead && i == 0 {
			z++
		} else {
			lead = false
		}
		x.Mul(x, big.NewInt(58)).Add(x, big.NewInt(int64(i)))
	}
	return append(make([]byte, z), x.Bytes()...), true
}

// Base58Check encodes with a checksum.
func Base58Check(b []byte) string { return Base58(append(append([]byte{}, b...), DSha(b)[:4]...)) }

// Unbase58Check decodes and checks.
func Unbase58Check(s string) ([]byte, bool) {
	b, ok := Unbase58(s)
	if !ok || len(b) < 5 || !bytes.Equal(DSha(b[:len(b)-4])[:4], b[len(b)-4:]) {
		return nil, false
	}
	return b[:len(b)-4], true
}

const b32c = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

func polymod(v []byte) uint32 {
	g := [5]uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	c := uint32(1)
	for _, x := range v {
		t := c >> 25
		c = (c&0x1ffffff)<<5 ^ uint32(x)
		for i := 0; i < 5; i++ {
			if t>>i&1 == 1 {
				c ^= g[i]
			}
		}
	}
	return c
}

func hrpExp(h string) []byte {
	var o []byte
	for _, c := range []byte(h) {
		o = append(o, c>>5)
	}
	o = append(o, 0)
	for _, c := range []byte(h) {
		o = append(o, c&31)
	}
	return o
}

// Regroup changes the group size of a bit string.
func Regroup(b []byte, from, to uint, pad bool) ([]byte, bool) {
	var acc uint32
	var n uint
	var o []byte
	for _, v := range b {
		acc = acc<<from | uint32(v)
		n += from
		for n >= to {
			n -= to
			o = append(o, byte(acc>>n&(1<<to-1)))
		}
	}
	if pad {
		if n > 0 {
			o = append(o, byte(acc<<(to-n)&(1<<to-1)))
		}
	} else if n >= from || acc<<(to-n)&(1<<to-1) != 0 {
		return nil, false
	}
	return o, true
}

// SegwitAddr encodes a BIP173 address.
func SegwitAddr(hrp string, ver byte, prog []byte) string {
	d, _ := Regroup(prog, 8, 5, true)
	return Bech32(hrp, append([]byte{ver}, d...))
}

// Bech32 encodes 5-bit groups.
func Bech32(hrp string, d []byte) string {
	d = append([]byte{}, d...)
	pm := polymod(append(append(hrpExp(hrp), d...), 0, 0, 0, 0, 0, 0)) ^ 1
	for i := 0; i < 6; i++ {
		d = append(d, byte(pm>>(5*(5-i))&31))
	}
	var sb strings.Builder
	sb.WriteString(hrp + "1")
	for _, c := range d {
		sb.WriteByte(b32c[c])
	}
	return sb.String()
}

// UnsegwitAddr decodes a BIP173 address.
func UnsegwitAddr(s string) (hrp string, ver byte, prog []byte, ok bool) {
	if strings.ToLower(s) != s && strings.ToUpper(s) != s {
		return
	}
	s = strings.ToLower(s)
	i := strings.LastIndexByte(s, '1')
	if i < 1 || i+7 > len(s) || len(s) > 90 {
		return
	}
	hrp = s[:i]
	var d []byte
	for _, c := range []byte(s[i+1:]) {
		k := strings.IndexByte(b32c, c)
		if k < 0 {
			return
		}
		d = append(d, byte(k))
	}
	if polymod(append(hrpExp(hrp), d...)) != 1 {
		return
	}
	d = d[:len(d)-6]
	if len(d) < 1 || d[0] > 16 {
		return
	}
	prog, ok = Regroup(d[1:], 5, 8, false)
	if !ok || len(prog) < 2 || len(prog) > 40 || (d[0] == 0 && len(prog) != 20 && len(prog) != 32) {
		return hrp, 0, nil, false
	}
	return hrp, d[0], prog, true
}

// XKey is a BIP32 extended key.
type XKey struct {
	Depth byte
	FP    []byte
	Num   uint32
	Chain []byte
	K     *big.Int // nil: public
	Pub   Pt
}

func hmac512(k, d []byte) []byte { h := hmac.New(sha512.New, k); h.Write(d); return h.Sum(nil) }

// Master key of a seed.
func Master(seed []byte) *XKey {
	i := hmac512([]byte("Bitcoin seed"), seed)
	k := new(big.Int).SetBytes(i[:32])
	return &XKey{FP: make([]byte, 4), Chain: i[32:], K: k, Pub: MulG(k)}
}

// Neuter drops the private half.
func (x *XKey) Neuter() *XKey { y := *x; y.K = nil; return &y }

// Child derivation.
func (x *XKey) Child(n uint32) (*XKey, error) {
	var d []byte
	if x.Depth == 255 {
		return nil, errors.New("too deep")
	}
	if n >= 1<<31 {
		if x.K == nil {
			return nil, errors.New("hardened from public")
		}
		d = append([]byte{0}, B32(x.K)...)
	} else {
		d = x.Pub.Compress()
	}
	i := hmac512(x.Chain, binary.BigEndian.AppendUint32(d, n))
	il := new(big.Int).SetBytes(i[:32])
	if il.Cmp(N) >= 0 {
		return nil, errors.New("invalid child")
	}
	c := &XKey{Depth: x.Depth + 1, FP: Hash160(x.Pub.Compress())[:4], Num: n, Chain: i[32:]}
	if x.K != nil {
		c.K = new(big.Int).Add(il, x.K)
		c.K.Mod(c.K, N)
		if c.K.Sign() == 0 {
			return nil, errors.New("invalid child")
		}
		c.Pub = MulG(c.K)
	} else {
		c.Pub = Add(MulG(il), x.Pub)
	}
	return c, nil
}

// String serialises with the given 4-byte version.
func (x *XKey) String(ver []byte) string {
	b := append([]byte{}, ver...)
	b = append(b, x.Depth)
	b = append(b, x.FP...)
	b = binary.BigEndian.AppendUint32(b, x.Num)
	b = append(b, x.Chain...)
	if x.K != nil {
		b = append(append(b, 0), B32(x.K)...)
	} else {
		b = append(b, x.Pub.Compress()...)
	}
	return Base58Check(b)
}

// PBKDF2-HMAC-SHA512.
func PBKDF2(pw, salt []byte, iter, n int) []byte {
	var o []byte
	for blk := uint32(1); len(o) < n; blk++ {
		u := hmac512(pw, binary.BigEndian.AppendUint32(append([]byte{}, salt...), blk))
		t := append([]byte{}, u...)
		for i := 1; i < iter; i++ {
			u = hmac512(pw, u)
			for j := range t {
				t[j] ^= u[j]
			}
		}
		o = append(o, t...)
	}
	return o[:n]
}

// Mnemonic words of an entropy (BIP39).
func Mnemonic(ent []byte, list []string) string {
	x := new(big.Int).SetBytes(ent)
	cs := uint(len(ent) / 4)
	x.Lsh(x, cs).Or(x, big.NewInt(int64(Sha256(ent)[0]>>(8-cs))))
	n := (len(ent)*8 + int(cs)) / 11
	w := make([]string, n)
	for i := n - 1; i >= 0; i-- {
		w[i] = list[new(big.Int).And(x, big.NewInt(2047)).Int64()]
		x.Rsh(x, 11)
	}
	return strings.Join(w, " ")
}

// MnemonicEntropy is the inverse of Mnemonic.
func MnemonicEntropy(s string, list []string) ([]byte, bool) {
	idx := map[string]int{}
	for i, w := range list {
		idx[w] = i
	}
	ws := strings.Split(s, " ")
	if len(ws)%3 != 0 || len(ws) < 12 || len(ws) > 24 {
		return nil, false
	}
	x := new(big.Int)
	for _, w := range ws {
		i, ok := idx[w]
		if !ok {
			return nil, false
		}
		x.Lsh(x, 11).Or(x, big.NewInt(int64(i)))
	}
	cs := uint(len(ws) / 3)
	c := new(big.Int).And(x, big.NewInt(1<<cs-1)).Int64()
	x.Rsh(x, cs)
	ent := x.FillBytes(make([]byte, len(ws)*4/3))
	return ent, int64(Sha256(ent)[0]>>(8-cs)) == c
}
