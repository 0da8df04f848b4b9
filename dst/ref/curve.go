// Package ref is an independent reference for the checks: secp256k1, ECDSA,
// Schnorr, the transaction formats and signature hashes, the standard output
// templates, BIP32 and the address encodings, written from the specifications
// and sharing no code with the repository under test.
package ref

import (
	"math/big"
)

func hx(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("hex")
	}
	return v
}

var (
	P  = hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	N  = hx("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	Gx = hx("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	Gy = hx("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")

	// G is the base point.
	G = Pt{Gx, Gy}

	b3, b7 = big.NewInt(3), big.NewInt(7)
)

// Pt is an affine point; X == nil is infinity.
type Pt struct{ X, Y *big.Int }

func (p Pt) Inf() bool { return p.X == nil }

// On tells whether the point is on the curve.
func (p Pt) On() bool {
	if p.Inf() || p.Y == nil {
		return false
	}
	if p.X.Sign() < 0 || p.Y.Sign() < 0 || p.X.Cmp(P) >= 0 || p.Y.Cmp(P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(p.Y, p.Y)
	r := new(big.Int).Exp(p.X, b3, P)
	r.Add(r, b7)
	return l.Sub(l, r).Mod(l, P).Sign() == 0
}

func (p Pt) Eq(q Pt) bool {
	if p.Inf() || q.Inf() {
		return p.Inf() == q.Inf()
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

func (p Pt) Neg() Pt {
	if p.Inf() {
		return p
	}
	return Pt{p.X, new(big.Int).Mod(new(big.Int).Neg(p.Y), P)}
}

type jac struct{ x, y, z fe }

var feOne = fe{1}

func toJ(p Pt) jac {
	if p.Inf() {
		return jac{y: feOne}
	}
	return jac{toFe(p.X), toFe(p.Y), feOne}
}

func (j jac) affine() Pt {
	if j.z.zero() {
		return Pt{}
	}
	zi := toFe(new(big.Int).ModInverse(j.z.big(), P))
	z2 := mulf(zi, zi)
	return Pt{mulf(j.x, z2).big(), mulf(j.y, mulf(z2, zi)).big()}
}

func dbl(p jac) jac {
	if p.z.zero() || p.y.zero() {
		return toJ(Pt{})
	}
	a := mulf(p.x, p.x)
	b := mulf(p.y, p.y)
	c := mulf(b, b)
	t := addf(p.x, b)
	d := subf(subf(mulf(t, t), a), c)
	d = addf(d, d)
	e := addf(addf(a, a), a)
	x := subf(mulf(e, e), addf(d, d))
	c = addf(c, c)
	c = addf(c, c)
	c = addf(c, c)
	y := subf(mulf(e, subf(d, x)), c)
	z := mulf(addf(p.y, p.y), p.z)
	return jac{x, y, z}
}

func addJ(p, q jac) jac {
	if p.z.zero() {
		return q
	}
	if q.z.zero() {
		return p
	}
	z1, z2 := mulf(p.z, p.z), mulf(q.z, q.z)
	u1, u2 := mulf(p.x, z2), mulf(q.x, z1)
	s1, s2 := mulf(p.y, mulf(z2, q.z)), mulf(q.y, mulf(z1, p.z))
	h, r := subf(u2, u1), subf(s2, s1)
	if h.zero() {
		if r.zero() {
			return dbl(p)
		}
		return toJ(Pt{})
	}
	h2 := mulf(h, h)
	h3 := mulf(h2, h)
	v := mulf(u1, h2)
	x := subf(subf(mulf(r, r), h3), addf(v, v))
	y := subf(mulf(r, subf(v, x)), mulf(s1, h3))
	z := mulf(mulf(p.z, q.z), h)
	return jac{x, y, z}
}

// Add two points.
func Add(p, q Pt) Pt { return addJ(toJ(p), toJ(q)).affine() }

func mulJ(k *big.Int, p Pt) jac {
	k = new(big.Int).Mod(k, N)
	// 4-bit windows
	var tab [16]jac
	tab[0] = toJ(Pt{})
	tab[1] = toJ(p)
	for i := 2; i < 16; i++ {
		tab[i] = addJ(tab[i-1], tab[1])
	}
	acc := toJ(Pt{})
	b := k.Bytes()
	for _, c := range b {
		for _, n := range []byte{c >> 4, c & 15} {
			if !acc.z.zero() {
				acc = dbl(dbl(dbl(dbl(acc))))
			}
			if n != 0 {
				acc = addJ(acc, tab[n])
			}
		}
	}
	return acc
}

// Mul is k*p.
func Mul(k *big.Int, p Pt) Pt { return mulJ(k, p).affine() }

// MulG is k*G.
func MulG(k *big.Int) Pt { return Mul(k, G) }

// lin is a*p + b*q.
func lin(a *big.Int, p Pt, b *big.Int, q Pt) Pt { return addJ(mulJ(a, p), mulJ(b, q)).affine() }

// B32 is the 32-byte big-endian form.
func B32(x *big.Int) []byte { return x.FillBytes(make([]byte, 32)) }

// Compress is the 33-byte form.
func (p Pt) Compress() []byte { return append([]byte{2 + byte(p.Y.Bit(0))}, B32(p.X)...) }

// Uncompressed is the 65-byte form.
func (p Pt) Uncompressed() []byte { return append(append([]byte{4}, B32(p.X)...), B32(p.Y)...) }

// ParsePoint accepts compressed, uncompressed and hybrid keys, as consensus does.
func ParsePoint(b []byte) (Pt, bool) {
	switch {
	case len(b) == 33 && (b[0] == 2 || b[0] == 3):
		x := new(big.Int).SetBytes(b[1:])
		if x.Cmp(P) >= 0 {
			return Pt{}, false
		}
		r := new(big.Int).Exp(x, b3, P)
		r.Add(r, b7).Mod(r, P)
		y := new(big.Int).ModSqrt(r, P)
		if y == nil {
			return Pt{}, false
		}
		if byte(y.Bit(0)) != b[0]&1 {
			y.Sub(P, y)
		}
		return Pt{x, y}, true
	case len(b) == 65 && (b[0] == 4 || b[0] == 6 || b[0] == 7):
		p := Pt{new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])}
		if b[0] != 4 && byte(p.Y.Bit(0)) != b[0]&1 {
			return Pt{}, false
		}
		return p, p.On()
	}
	return Pt{}, false
}

// ECDSAVerify per SEC1.
func ECDSAVerify(pub Pt, hash []byte, r, s *big.Int) bool {
	if !pub.On() || r == nil || s == nil || r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	z := new(big.Int).SetBytes(hash)
	if len(hash) > 32 {
		z.SetBytes(hash[:32])
	}
	w := new(big.Int).ModInverse(s, N)
	u1 := new(big.Int).Mul(z, w)
	u2 := new(big.Int).Mul(r, w)
	q := lin(u1.Mod(u1, N), G, u2.Mod(u2, N), pub)
	if q.Inf() {
		return false
	}
	return new(big.Int).Mod(q.X, N).Cmp(r) == 0
}

// ECDSASign with a given nonce, low S.
func ECDSASign(d *big.Int, hash []byte, k *big.Int) (r, s *big.Int) {
	z := new(big.Int).SetBytes(hash)
	r = new(big.Int).Mod(MulG(k).X, N)
	s = new(big.Int).Mul(r, d)
	s.Add(s, z).Mul(s, new(big.Int).ModInverse(k, N)).Mod(s, N)
	if s.Cmp(new(big.Int).Rsh(N, 1)) > 0 {
		s.Sub(N, s)
	}
	return
}

func derInt(x *big.Int) []byte {
	b := x.Bytes()
	if len(b) == 0 || b[0] >= 0x80 {
		b = append([]byte{0}, b...)
	}
	return append([]byte{2, byte(len(b))}, b...)
}

// DER encodes a signature strictly.
func DER(r, s *big.Int) []byte {
	b := append(derInt(r), derInt(s)...)
	return append([]byte{0x30, byte(len(b))}, b...)
}

// ParseDERStrict is BIP66 without the hash type byte.
func ParseDERStrict(b []byte) (r, s *big.Int, ok bool) {
	if len(b) < 8 || len(b) > 72 || b[0] != 0x30 || int(b[1]) != len(b)-2 {
		return
	}
	rl := int(b[3])
	if b[2] != 2 || rl == 0 || 5+rl >= len(b) {
		return
	}
	sl := int(b[5+rl])
	if b[4+rl] != 2 || sl == 0 || rl+sl+6 != len(b) {
		return
	}
	rb, sb := b[4:4+rl], b[6+rl:]
	for _, v := range [][]byte{rb, sb} {
		if v[0]&0x80 != 0 || (len(v) > 1 && v[0] == 0 && v[1]&0x80 == 0) {
			return
		}
	}
	return new(big.Int).SetBytes(rb), new(big.Int).SetBytes(sb), true
}

// SchnorrVerify is the 2018 draft of BIP-Schnorr (33-byte keys, jacobi symbol).
func SchnorrVerify(pub Pt, msg, sig []byte) bool {
	if !pub.On() || len(sig) != 64 {
		return false
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	if r.Cmp(P) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	e := new(big.Int).SetBytes(Sha256(append(append(append([]byte{}, sig[:32]...), pub.Compress()...), msg...)))
	e.Mod(e, N)
	R := lin(s, G, new(big.Int).Sub(N, e), pub)
	return !R.Inf() && big.Jacobi(R.Y, P) == 1 && R.X.Cmp(r) == 0
}
