package hmain

import (
	"crypto/ecdsa"
	"encoding/asn1"
	"fmt"
	"math/big"
	"time"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"

	"vsim/core"
	"vsim/ref"
	"vsim/sim"
)

// ---------------------------------------------------------------- damaged sessions (C12)

// The network between the parties is an adversary: every value of a message may
// be replaced, taken from another session, delivered early, late or twice.

type tamper struct {
	r     *core.R
	c     *sim.Chooser
	ints  []*big.Int          // integers seen on the wire, other sessions included
	pts   []*secp256k1.Scalar // R points seen on the wire
	pks   []*paillier.PubKey  // Paillier keys seen on the wire
	pubs  []*xcrypto.PubKey   // public keys
	parts [][]byte            // Schnorr shares
	sigs  [][]byte            // final signatures
	hits  int                 // values actually replaced
}

func (t *tamper) curve() *big.Int { return ref.P }

func cp(x *big.Int) *big.Int {
	if x == nil {
		return nil
	}
	return new(big.Int).Set(x)
}

// badInt draws a replacement for an integer.
func (t *tamper) badInt(x *big.Int, nn *big.Int) *big.Int {
	c := t.c
	two := big.NewInt(2)
	switch c.Choose(18, "bad-int") {
	case 0:
		return nil
	case 1:
		return big.NewInt(0)
	case 2:
		return big.NewInt(1)
	case 3:
		return big.NewInt(-1)
	case 4:
		return cp(ref.N)
	case 5:
		return new(big.Int).Sub(ref.N, big.NewInt(1))
	case 6:
		return cp(ref.P)
	case 7:
		return new(big.Int).Lsh(big.NewInt(1), 256)
	case 8:
		return new(big.Int).Lsh(big.NewInt(1), uint(2000+c.Choose(4000, "huge")))
	case 9:
		if x != nil {
			return new(big.Int).Neg(x)
		}
	case 10:
		if x != nil {
			return new(big.Int).Xor(x, new(big.Int).Lsh(big.NewInt(1), uint(c.Choose(x.BitLen()+1, "bit"))))
		}
	case 11:
		if nn != nil {
			return cp(nn)
		}
	case 12:
		if nn != nil {
			return new(big.Int).Sub(nn, big.NewInt(1))
		}
	case 13:
		if nn != nil && x != nil {
			return new(big.Int).Add(x, nn)
		}
	case 14:
		if x != nil {
			return new(big.Int).Add(x, ref.N)
		}
	case 15:
		if x != nil {
			return new(big.Int).Mul(x, two)
		}
	}
	if len(t.ints) > 0 {
		return cp(t.ints[c.Choose(len(t.ints), "other-int")])
	}
	return two
}

func (t *tamper) badXY(x, y *big.Int) (*big.Int, *big.Int) {
	c := t.c
	switch c.Choose(12, "bad-point") {
	case 0:
		return nil, nil
	case 1:
		return big.NewInt(0), big.NewInt(0)
	case 2:
		return cp(x), new(big.Int).Sub(ref.P, y) // the negation: a valid point
	case 3:
		return cp(x), new(big.Int).Add(y, big.NewInt(1))
	case 4:
		return new(big.Int).Add(x, ref.P), cp(y)
	case 5:
		return cp(x), new(big.Int).Add(y, ref.P)
	case 6:
		return new(big.Int).Sub(x, ref.P), cp(y)
	case 7:
		return cp(x), new(big.Int).Neg(y)
	case 8:
		return cp(y), cp(x)
	case 9:
		return cp(x), nil
	case 10:
		return nil, cp(y)
	}
	q := ref.MulG(drawKey(c, "other-point")) // some other valid point
	return q.X, q.Y
}

func okPoint(x, y *big.Int) bool {
	return x != nil && y != nil && x.Sign() >= 0 && y.Sign() >= 0 && x.Cmp(ref.P) < 0 && y.Cmp(ref.P) < 0 && ref.Pt{X: x, Y: y}.On()
}

func (t *tamper) point(p *secp256k1.Scalar) *secp256k1.Scalar {
	switch t.c.Choose(7, "point") {
	case 1:
		t.hits++
		t.r.Fault("replace-point")
		if t.c.OneIn(8, "nil-point") {
			return nil
		}
		x, y := t.badXY(p.X, p.Y)
		return secp256k1.NewScalar(x, y)
	case 2:
		t.hits++
		t.r.Fault("replay-point")
		q := t.pts[t.c.Choose(len(t.pts), "old-point")]
		return secp256k1.NewScalar(cp(q.X), cp(q.Y))
	}
	return secp256k1.NewScalar(cp(p.X), cp(p.Y))
}

func (t *tamper) pubkey(p *xcrypto.PubKey) *xcrypto.PubKey {
	if t.c.Choose(6, "pub") == 1 {
		t.hits++
		t.r.Fault("replace-pubkey")
		if t.c.OneIn(6, "nil-pub") {
			return nil
		}
		x, y := t.badXY(p.X, p.Y)
		return &xcrypto.PubKey{X: x, Y: y, Curve: p.Curve}
	}
	return &xcrypto.PubKey{X: cp(p.X), Y: cp(p.Y), Curve: p.Curve}
}

func (t *tamper) cipher(ct *big.Int, pk *paillier.PubKey) *big.Int {
	if t.c.Choose(5, "cipher") == 1 {
		t.hits++
		t.r.Fault("replace-integer")
		var nn *big.Int
		if pk != nil {
			nn = pk.NN
		}
		return t.badInt(ct, nn)
	}
	return cp(ct)
}

func (t *tamper) enc(p *paillier.PubKey) *paillier.PubKey {
	q := &paillier.PubKey{N: cp(p.N), NN: cp(p.NN), G: cp(p.G)}
	switch t.c.Choose(8, "enc") {
	case 1:
		t.hits++
		t.r.Fault("replace-paillier-key")
		consistent := func(n *big.Int) {
			q.N, q.NN, q.G = n, new(big.Int).Mul(n, n), new(big.Int).Add(n, big.NewInt(1))
		}
		switch t.c.Choose(12, "bad-enc") {
		case 0:
			return nil
		case 1:
			q.N = nil
		case 2:
			q.NN = nil
		case 3:
			q.G = nil
		case 4:
			consistent(big.NewInt(int64(t.c.Choose(20, "small"))))
		case 5:
			consistent(new(big.Int).Neg(p.N))
		case 6:
			consistent(cp(ref.N))
		case 7:
			q.NN = t.badInt(q.NN, nil)
		case 8:
			q.G = t.badInt(q.G, nil)
		case 9:
			consistent(new(big.Int).Mul(p.N, p.N))
		case 10:
			consistent(new(big.Int).Add(p.N, big.NewInt(int64(1+t.c.Choose(4, "off")))))
		case 11:
			q.N = t.badInt(q.N, nil)
		}
	case 2:
		t.hits++
		t.r.Fault("replay-paillier-key")
		o := t.pks[t.c.Choose(len(t.pks), "old-enc")]
		return &paillier.PubKey{N: cp(o.N), NN: cp(o.NN), G: cp(o.G)}
	}
	return q
}

func okEnc(k *paillier.PubKey) bool {
	if k == nil || k.N == nil || k.NN == nil || k.G == nil || k.N.Sign() <= 0 {
		return false
	}
	if n := k.N.BitLen(); n != 2048 && n != 2047 {
		return false
	}
	return k.NN.Cmp(new(big.Int).Mul(k.N, k.N)) == 0 && k.G.Cmp(new(big.Int).Add(k.N, big.NewInt(1))) == 0
}

// tamperEc is a party of an ECDSA session as the model sees it.
type tamperEc struct {
	name    string
	p       ecParty
	d       *big.Int
	started bool
	closed  bool
	hash    []byte
	joint   ref.Pt // of the last accepted Phase1
	// what it sent last
	enc    *big.Int
	encpub *paillier.PubKey
	R      *secp256k1.Scalar
	// what it holds
	share *secp256k1.Scalar
	ct    *big.Int
	okct  bool // the peer's last answer reached it untouched, in an untouched session
	bob   bool
	plain bool
}

func c12ecdsa(r *core.R) {
	c := r.C
	t := &tamper{r: r, c: c}
	scriptless := c.Choose(2, "scriptless") == 1
	d := [2]*big.Int{drawKey(c, "alice-key"), drawKey(c, "bob-key")}
	secret := drawKey(c, "secret")
	joint := ref.Mul(d[0], refPub(d[1]))
	var ps [2]*tamperEc
	unverified := ""
	digests := [][]byte{drawHash(c, "digest")}
	digests = append(digests, otherHash(c, digests[0], "digest2"))
	steps := 6 + c.Choose(26, "steps")
	r.Go("alice", "adversary", func() {
		mk := func(side int) *tamperEc {
			x := &tamperEc{name: []string{"alice", "bob"}[side], d: d[side]}
			switch {
			case !scriptless:
				x.p, x.plain = plainParty{xcrypto.NewEcdsaParty(libPrv(d[side]))}, true
			case side == 0:
				x.p = aliceParty{xcrypto.NewEcdsaAlice(libPrv(d[0]))}
			default:
				x.p, x.bob = bobParty{xcrypto.NewEcdsaBob(libPrv(d[1]), cp(secret))}, true
			}
			return x
		}
		ps[0], ps[1] = mk(0), mk(1)
		// an honest handshake first, most of the time, so that damage has something to hit
		script := []int{}
		if c.Choose(4, "raw") != 1 {
			script = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 8, 9}
		}
		for n := 0; n < steps && !r.Failed(); n++ {
			op := 0
			if n < len(script) && c.Choose(6, "off-script") != 1 {
				op = script[n]
			} else {
				op = c.Choose(12, "op")
			}
			me := op & 1
			x, y := ps[me], ps[1-me]
			switch op / 2 {
			case 0: // Phase1
				k := t.pubkey(libPub(refPub(d[1-me])))
				got := x.p.p1(k)
				valid := k != nil && okPoint(k.X, k.Y) && !x.closed
				if !valid {
					if got != nil {
						r.Fail("accepted-bad-pubkey", "%s: Phase1 answered to an invalid public key (closed %v)", x.name, x.closed)
					}
					continue
				}
				w := ref.Mul(x.d, ref.Pt{X: k.X, Y: k.Y})
				if !pubIs(got, w) {
					r.Fail("joint-key", "%s: Phase1 returned a wrong joint key", x.name)
				}
				x.joint = w
			case 1: // Phase2
				h := append([]byte(nil), digests[c.Choose(2, "digest#")]...)
				buf := lend(h)
				enc, encpub, R := x.p.p2(buf)
				reuse(r, buf)
				if x.closed {
					if enc != nil || encpub != nil || R != nil {
						r.Fail("use-after-close", "%s: Phase2 of a closed party returned values", x.name)
					}
					r.Probe("closed-refused")
					continue
				}
				if enc == nil || encpub == nil || R == nil || !okPoint(R.X, R.Y) || !okEnc(encpub) || enc.Sign() <= 0 || enc.Cmp(encpub.NN) >= 0 {
					r.Fail("phase2", "%s: Phase2 returned malformed values", x.name)
					continue
				}
				x.started, x.hash, x.enc, x.encpub, x.R = true, h, enc, encpub, R
				t.ints = append(t.ints, enc)
				t.pts = append(t.pts, R)
				t.pks = append(t.pks, encpub)
				x.okct, x.share = false, nil
			case 2: // Phase3
				R := y.R
				if R == nil {
					R = secp256k1.NewScalar(cp(ref.G.X), cp(ref.G.Y))
				}
				q := R
				if len(t.pts) > 0 {
					q = t.point(R)
				}
				s := x.p.p3(q)
				if !x.started || x.closed || q == nil || !okPoint(q.X, q.Y) {
					if s != nil {
						r.Fail("accepted-bad-point", "%s: Phase3 answered to an invalid point or before Phase2 or after Close", x.name)
					}
					r.Probe("bad-point-refused")
					continue
				}
				if s == nil || !okPoint(s.X, s.Y) {
					r.Fail("phase3", "%s: Phase3 refused a valid point", x.name)
					continue
				}
				x.share = s
				t.pts = append(t.pts, s)
			case 3: // Phase4: x answers y's opening
				encpub := y.encpub
				if encpub == nil {
					n := new(big.Int).Lsh(big.NewInt(1), 2047)
					n.Add(n, big.NewInt(1))
					encpub = &paillier.PubKey{N: n, NN: new(big.Int).Mul(n, n), G: new(big.Int).Add(n, big.NewInt(1))}
				}
				k := encpub
				if len(t.pks) > 0 {
					k = t.enc(encpub)
				}
				base := y.enc
				if base == nil {
					base = big.NewInt(12345)
				}
				ct := t.cipher(base, k)
				R := x.share
				if R == nil {
					R = secp256k1.NewScalar(cp(ref.G.X), cp(ref.G.Y))
				} else {
					R = t.point(R)
				}
				before := t.hits
				_ = before
				got, err := x.p.p4(ct, k, R)
				bad := !x.started || x.closed || R == nil || !okPoint(R.X, R.Y) || !okEnc(k) || ct == nil || ct.Sign() <= 0 || ct.Cmp(k.NN) >= 0
				if bad {
					if err == nil || got != nil {
						r.Fail("accepted-bad-message", "%s: Phase4 answered to a malformed message, before Phase2 or after Close (closed %v)", x.name, x.closed)
					}
					r.Probe("bad-message-refused")
					continue
				}
				if err != nil {
					if got != nil {
						r.Fail("value-with-error", "%s: Phase4 returned a value beside its error", x.name)
					}
					continue
				}
				if got == nil || got.Sign() <= 0 || got.Cmp(k.NN) >= 0 {
					r.Fail("phase4", "%s: Phase4 returned %v without an error", x.name, got)
					continue
				}
				t.ints = append(t.ints, got)
				y.ct = got
			case 4: // Phase5
				base := x.ct
				if base == nil {
					base = big.NewInt(987654321)
				}
				ct := t.cipher(base, x.encpub)
				R := x.share
				if R == nil {
					R = secp256k1.NewScalar(cp(ref.G.X), cp(ref.G.Y))
				} else {
					R = t.point(R)
				}
				sig, ad, err := x.p.p5(R, ct)
				needR := x.plain || x.bob
				if !x.started || x.closed || ct == nil || needR && (R == nil || R.X == nil) {
					if err == nil || sig != nil || ad != nil {
						r.Fail("accepted-bad-message", "%s: Phase5 answered without input, before Phase2 or after Close (closed %v)", x.name, x.closed)
					}
					r.Probe("bad-message-refused")
					continue
				}
				if err != nil {
					if sig != nil || ad != nil {
						r.Fail("value-with-error", "%s: Phase5 returned a value beside its error", x.name)
					}
					r.Probe("session-refused")
					continue
				}
				if !x.plain && !x.bob {
					if ad == nil || ad.Sign() < 0 || ad.Cmp(ref.N) >= 0 {
						r.Fail("adaptor-range", "alice: adaptor value %v out of range", ad)
					}
					continue
				}
				if x.joint.Inf() {
					continue // no joint key was ever agreed
				}
				var v struct{ R, S *big.Int }
				if rest, e := asn1.Unmarshal(sig, &v); e != nil || len(rest) != 0 {
					r.Fail("bad-signature", "%s: Phase5 returned bytes that are no signature: %x", x.name, sig)
					continue
				}
				if !ref.ECDSAVerify(x.joint, x.hash, v.R, v.S) {
					if x.bob {
						r.Fail("bad-signature", "%s handed out a final signature that does not verify under the joint key", x.name)
					} else {
						unverified = x.name
					}
					continue
				}
				t.sigs = append(t.sigs, sig)
				r.Probe("signature")
			case 5:
				if c.Choose(3, "close") == 1 {
					x.p.close()
					x.closed = true
					r.Probe("close")
				} else {
					t.verify(x, joint)
				}
			}
		}
	})
	r.Run(nil)
	r.NonTrivial = t.hits > 0
	r.Note("steps", steps)
	r.Note("replaced", t.hits)
	if !r.Failed() && unverified != "" {
		r.Fail("ecdsa-phase5-unverified", "EcdsaParty.Phase5 handed out a signature that does not verify under the joint key after its messages were altered, replayed or reordered")
	}
}

// verify feeds damaged signatures to the verifier: acceptance must mean validity.
func (t *tamper) verify(x *tamperEc, joint ref.Pt) {
	if len(t.sigs) == 0 || x.hash == nil {
		return
	}
	sig := append([]byte(nil), t.sigs[t.c.Choose(len(t.sigs), "sig#")]...)
	var v struct{ R, S *big.Int }
	asn1.Unmarshal(sig, &v)
	switch t.c.Choose(4, "sig-damage") {
	case 0:
		if t.c.Choose(2, "which") == 0 {
			v.R = t.badInt(v.R, nil)
		} else {
			v.S = t.badInt(v.S, nil)
		}
		if v.R == nil || v.S == nil {
			return
		}
		sig, _ = asn1.Marshal(v)
	case 1:
		sig[t.c.Choose(len(sig), "byte")] ^= 1 << uint(t.c.Choose(8, "bit"))
	case 2:
		sig = sig[:t.c.Choose(len(sig), "cut")]
	case 3:
		sig = oddDER(t.c, sig)
		t.r.Fault("odd-encoding")
	}
	t.r.Fault("damaged-signature")
	t.judge(libPub(joint), joint, x.hash, sig)
}

func (t *tamper) judge(k *xcrypto.PubKey, joint ref.Pt, hash, sig []byte) {
	err := xcrypto.EcdsaVerify(k, hash, sig)
	rr, ss, ok := ref.ParseDERStrict(sig)
	valid := ok && ref.ECDSAVerify(joint, hash, rr, ss)
	if err == nil && !valid {
		t.r.Fail("forged", "EcdsaVerify accepted a damaged signature: %x", sig)
	}
}

// oddDER says the same numbers in an encoding the network does not take.
func oddDER(c *sim.Chooser, sig []byte) []byte {
	var v struct{ R, S *big.Int }
	if _, err := asn1.Unmarshal(sig, &v); err != nil {
		return sig
	}
	num := func(x *big.Int, pad int) []byte {
		b, _ := asn1.Marshal(x)
		return append(append([]byte{2, byte(len(b) - 2 + pad)}, make([]byte, pad)...), b[2:]...)
	}
	pr, ps, long := 0, 0, false
	var in, behind []byte
	switch c.Choose(5, "odd-der") {
	case 0:
		behind = c.Bytes(1+c.Choose(3, "odd-len"), "odd-tail")
	case 1:
		in = c.Bytes(1+c.Choose(3, "odd-len"), "odd-tail")
	case 2:
		pr = 1
	case 3:
		ps = 1
	case 4:
		long = true
	}
	body := append(append(num(v.R, pr), num(v.S, ps)...), in...)
	head := []byte{0x30, byte(len(body))}
	if long {
		head = []byte{0x30, 0x81, byte(len(body))}
	}
	return append(append(head, body...), behind...)
}

var _ = ecdsa.PublicKey{}

// ---------------------------------------------------------------- damaged Schnorr sessions

type tamperSc struct {
	name    string
	p       *xcrypto.SchnorrParty
	d       *big.Int
	started bool
	closed  bool
	hash    []byte
	R       *secp256k1.Scalar
	share   *secp256k1.Scalar
	given   []ref.Pt // joint keys given to Phase4 since Phase2
	part    []byte
}

func c12schnorr(r *core.R) {
	c := r.C
	t := &tamper{r: r, c: c}
	d := [2]*big.Int{drawKey(c, "alice-key"), drawKey(c, "bob-key")}
	joint := ref.Add(refPub(d[0]), refPub(d[1]))
	if joint.Inf() {
		return
	}
	digests := [][]byte{drawHash(c, "digest")}
	digests = append(digests, otherHash(c, digests[0], "digest2"))
	steps := 6 + c.Choose(40, "steps")
	r.Go("alice", "adversary", func() {
		var ps [2]*tamperSc
		for i := range ps {
			p, err := xcrypto.NewSchnorrParty(libPrv(d[i]))
			if err != nil {
				r.Fail("new-party", "%v", err)
				return
			}
			ps[i] = &tamperSc{name: []string{"alice", "bob"}[i], p: p, d: d[i]}
		}
		script := []int{}
		if c.Choose(4, "raw") != 1 {
			script = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 8, 9, 8, 9}
		}
		for n := 0; n < steps && !r.Failed(); n++ {
			op := 0
			if n < len(script) && c.Choose(6, "off-script") != 1 {
				op = script[n]
			} else {
				op = c.Choose(12, "op")
			}
			me := op & 1
			x, y := ps[me], ps[1-me]
			switch op / 2 {
			case 0:
				k := t.pubkey(libPub(refPub(d[1-me])))
				got := x.p.Phase1(k)
				if k == nil || !okPoint(k.X, k.Y) {
					if got != nil {
						r.Fail("accepted-bad-pubkey", "%s: Phase1 answered to an invalid public key", x.name)
					}
					continue
				}
				w := ref.Add(refPub(x.d), ref.Pt{X: k.X, Y: k.Y})
				if !w.Inf() && got != nil && !pubIs(got, w) || !w.Inf() && got == nil && !x.closed {
					r.Fail("joint-key", "%s: Phase1 returned a wrong joint key", x.name)
				}
			case 1:
				h := append([]byte(nil), digests[c.Choose(2, "digest#")]...)
				buf := lend(h)
				R := x.p.Phase2(buf)
				reuse(r, buf)
				if x.closed {
					if R != nil {
						r.Fail("use-after-close", "%s: Phase2 of a closed party returned a point", x.name)
					}
					r.Probe("closed-refused")
					continue
				}
				if R == nil || !okPoint(R.X, R.Y) {
					r.Fail("phase2", "%s: Phase2 returned no point", x.name)
					continue
				}
				x.started, x.hash, x.R, x.share, x.given = true, h, R, nil, nil
				t.pts = append(t.pts, secp256k1.NewScalar(cp(R.X), cp(R.Y)))
			case 2:
				R := y.R
				if R == nil {
					R = secp256k1.NewScalar(cp(ref.G.X), cp(ref.G.Y))
				}
				q := R
				if len(t.pts) > 0 {
					q = t.point(R)
				}
				s := x.p.Phase3(q)
				if !x.started || q == nil || !okPoint(q.X, q.Y) {
					if s != nil {
						r.Fail("accepted-bad-point", "%s: Phase3 answered to an invalid point or before Phase2", x.name)
					}
					r.Probe("bad-point-refused")
					continue
				}
				w := ref.Add(ref.Pt{X: x.R.X, Y: x.R.Y}, ref.Pt{X: q.X, Y: q.Y})
				if w.Inf() {
					x.share = nil
					continue
				}
				if s == nil || s.X == nil || s.X.Cmp(w.X) != 0 || s.Y.Cmp(w.Y) != 0 {
					if x.closed && s == nil {
						continue
					}
					r.Fail("shared-R", "%s: Phase3 returned a wrong shared R", x.name)
					continue
				}
				x.share = s
				t.pts = append(t.pts, secp256k1.NewScalar(cp(s.X), cp(s.Y)))
			case 3:
				k := t.pubkey(libPub(joint))
				R := x.share
				if R == nil {
					R = secp256k1.NewScalar(cp(ref.G.X), cp(ref.G.Y))
				} else {
					R = t.point(R)
				}
				part, err := x.p.Phase4(k, R)
				if !x.started || x.closed || k == nil || !okPoint(k.X, k.Y) || R == nil || !okPoint(R.X, R.Y) {
					if err == nil || part != nil {
						r.Fail("accepted-bad-message", "%s: Phase4 answered to a malformed message, before Phase2 or after Close (closed %v)", x.name, x.closed)
					}
					r.Probe("bad-message-refused")
					continue
				}
				x.given = append(x.given, ref.Pt{X: k.X, Y: k.Y})
				if err != nil {
					if part != nil {
						r.Fail("value-with-error", "%s: Phase4 returned a share beside its error", x.name)
					}
					continue
				}
				x.part = part
				t.parts = append(t.parts, append([]byte(nil), part...))
			case 4:
				var in [][]byte
				src := [][]byte{x.part, y.part}
				for _, s := range src {
					switch {
					case len(t.parts) > 0 && c.Choose(5, "part") == 1:
						t.hits++
						r.Fault("replace-share")
						s = append([]byte(nil), t.parts[c.Choose(len(t.parts), "old-part")]...)
						switch c.Choose(6, "part-damage") {
						case 1:
							s[c.Choose(len(s), "byte")] ^= 1 << uint(c.Choose(8, "bit"))
						case 2:
							s = s[:c.Choose(len(s)+1, "cut")]
						case 3:
							s = append(s, c.Bytes(1+c.Choose(40, "more"), "tail")...)
						case 4:
							s = nil
						case 5:
							s = c.Bytes(32, "random")
						}
						in = append(in, s)
					case c.Choose(9, "parts") == 1:
						t.hits++
						r.Fault("drop-share")
					default:
						in = append(in, append([]byte(nil), s...))
					}
				}
				R := x.share
				if R == nil {
					R = secp256k1.NewScalar(cp(ref.G.X), cp(ref.G.Y))
				} else {
					R = t.point(R)
				}
				sig, err := x.p.Phase5(R, in...)
				if R == nil || !okPoint(R.X, R.Y) {
					if err == nil || sig != nil {
						r.Fail("accepted-bad-message", "%s: Phase5 answered to an invalid R", x.name)
					}
					r.Probe("bad-message-refused")
					continue
				}
				if err != nil {
					if sig != nil {
						r.Fail("value-with-error", "%s: Phase5 returned a signature beside its error", x.name)
					}
					r.Probe("session-refused")
					continue
				}
				if len(x.given) == 0 {
					continue // never told the joint key
				}
				ok := false
				for _, g := range x.given {
					ok = ok || ref.SchnorrVerify(g, x.hash, sig)
				}
				if !ok {
					r.Fail("bad-signature", "%s handed out a final signature that does not verify under the joint key it was given", x.name)
					continue
				}
				t.sigs = append(t.sigs, sig)
				r.Probe("signature")
			case 5:
				if c.Choose(3, "close") == 1 {
					x.p.Close()
					x.closed = true
					r.Probe("close")
				} else if len(t.sigs) > 0 && x.hash != nil {
					sig := append([]byte(nil), t.sigs[c.Choose(len(t.sigs), "sig#")]...)
					switch c.Choose(6, "sig-damage") {
					case 0:
						sig[c.Choose(len(sig), "byte")] ^= 1 << uint(c.Choose(8, "bit"))
					case 1:
						sig = sig[:c.Choose(len(sig), "cut")]
					case 2: // s + N, when it fits
						s := new(big.Int).SetBytes(sig[32:])
						s.Add(s, ref.N)
						if s.BitLen() > 256 {
							continue
						}
						copy(sig[32:], ref.B32(s))
					case 3:
						copy(sig[:32], ref.B32(new(big.Int).Sub(ref.P, big.NewInt(1))))
					case 4:
						sig = append(sig, 0)
					case 5:
						s := new(big.Int).Sub(ref.N, new(big.Int).SetBytes(sig[32:]))
						copy(sig[32:], ref.B32(s.Mod(s, ref.N)))
					}
					r.Fault("damaged-signature")
					if err := xcrypto.SchnorrVerify(libPub(joint), x.hash, sig); err == nil && !ref.SchnorrVerify(joint, x.hash, sig) {
						r.Fail("forged", "SchnorrVerify accepted a damaged signature: %x", sig)
					}
				}
			}
		}
	})
	r.Run(nil)
	r.NonTrivial = t.hits > 0
	r.Note("steps", steps)
	r.Note("replaced", t.hits)
}

var _ = fmt.Sprint
var _ = time.Second

func init() {
	core.Register(&core.Scenario{Prop: "C12", Name: "ecdsa-tamper", Fn: c12ecdsa, Quick: 6000, Weight: 20,
		Require: []string{"signature", "closed-refused", "bad-point-refused", "bad-message-refused", "session-refused", "replace-point", "replay-point", "replace-pubkey", "replace-integer", "replace-paillier-key", "replay-paillier-key"},
		Rule:    "one run = 6-31 calls on two ECDSA (or scriptless) parties whose messages an adversarial network replaces, replays, reorders or delivers too early or after Close; non-trivial when a value was replaced"})
	core.Register(&core.Scenario{Prop: "C12", Name: "schnorr-tamper", Fn: c12schnorr, Quick: 12000, Weight: 10,
		Require: []string{"signature", "closed-refused", "bad-point-refused", "bad-message-refused", "session-refused", "replace-share"},
		Rule:    "one run = 6-45 calls on two Schnorr parties over the same adversarial network; non-trivial when a value was replaced"})
}
