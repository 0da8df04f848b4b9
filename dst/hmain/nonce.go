package hmain

import (
	"fmt"
	"math/big"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"

	"vsim/core"
	"vsim/ref"
	"vsim/sim"
	"vsim/simrand"
)

// ---------------------------------------------------------------- key extraction (C23)

// Mallory is the counterparty. She knows her own key and Paillier key, picks the
// nonce points she sends, replays and reorders, and asks again; everything the
// victim answers goes into her notebook, from which she tries to compute the
// victim's key.

// eq is one answer of an ECDSA victim: s·k = z + r·X (mod N), X = x1·x2.
type eq struct {
	s, z, r *big.Int
	d       *big.Int // the decrypted integer
	alt     bool     // z is what the party was asked to sign in a session that failed
	sid     int
}

// sq is one answer of a Schnorr victim: s = ±k + e·x1.
type sq struct {
	s, e *big.Int
	sid  int
}

type mallory struct {
	r     *core.R
	pub   ref.Pt
	tried map[string]bool
	n     int
}

func mod(x *big.Int) *big.Int { return new(big.Int).Mod(x, ref.N) }
func inv(x *big.Int) *big.Int { return new(big.Int).ModInverse(mod(x), ref.N) }
func mul(a, b *big.Int) *big.Int {
	return mod(new(big.Int).Mul(a, b))
}
func sub(a, b *big.Int) *big.Int  { return mod(new(big.Int).Sub(a, b)) }
func addm(a, b *big.Int) *big.Int { return mod(new(big.Int).Add(a, b)) }

// is reports whether d is the victim's private key.
func (m *mallory) is(d *big.Int) bool {
	if d == nil {
		return false
	}
	d = mod(d)
	if d.Sign() == 0 || m.tried[string(d.Bytes())] {
		return false
	}
	m.tried[string(d.Bytes())] = true
	m.n++
	p := ref.MulG(d)
	return p.X.Cmp(m.pub.X) == 0 // the key or its negation
}

// small guesses of a nonce, and of the difference between two
func guesses(z *big.Int) []*big.Int {
	return []*big.Int{big.NewInt(1), big.NewInt(2), mod(z), addm(z, big.NewInt(1))}
}

var deltas = []int64{0, 1, -1, 2, -2}

// ecdsa tries to get the key from the answers; x2 is Mallory's key, invx2 its inverse.
func (m *mallory) ecdsa(x2 *big.Int, es []eq) string {
	ix2 := inv(x2)
	fromX := func(X *big.Int) *big.Int { return mul(X, ix2) }
	for i, a := range es {
		if ir := inv(a.r); ir != nil {
			for _, k := range guesses(a.z) {
				if m.is(fromX(mul(sub(mul(a.s, k), a.z), ir))) {
					return "the nonce is guessable"
				}
			}
		}
		// the decrypted integer: v·x2 + w with v = r·x1/k, w = z/k
		if a.d != nil && x2.Sign() > 0 {
			q := new(big.Int).Div(a.d, x2)
			for t := int64(0); t < 3; t++ {
				v := new(big.Int).Sub(q, big.NewInt(t))
				w := new(big.Int).Sub(a.d, new(big.Int).Mul(v, x2))
				if iw := inv(w); iw != nil {
					k := mul(a.z, iw)
					if ir := inv(a.r); ir != nil && m.is(mul(mul(v, k), ir)) {
						return "the decrypted integer splits into its two terms"
					}
				}
			}
		}
		for _, b := range es[:i] {
			for _, neg := range []bool{false, true} {
				bs := b.s
				if neg {
					bs = sub(big.NewInt(0), b.s)
				}
				den := sub(mul(bs, a.r), mul(b.r, a.s))
				id := inv(den)
				if id == nil {
					continue
				}
				for _, dl := range deltas {
					// a.s·k − a.z = a.r·X ; bs·(k+dl) − b.z = b.r·X
					num := sub(mul(a.r, sub(b.z, mul(bs, big.NewInt(dl)))), mul(b.r, a.z))
					k := mul(num, id)
					if ir := inv(a.r); ir != nil && m.is(fromX(mul(sub(mul(a.s, k), a.z), ir))) {
						return fmt.Sprintf("two answers (sessions %d and %d) with related nonces (difference %d, negated %v)", b.sid, a.sid, dl, neg)
					}
				}
			}
		}
	}
	return ""
}

func (m *mallory) schnorr(msg [][]byte, qs []sq) string {
	for i, a := range qs {
		if ie := inv(a.e); ie != nil {
			ks := []*big.Int{big.NewInt(0), big.NewInt(1)}
			for _, h := range msg {
				ks = append(ks, mod(new(big.Int).SetBytes(h)))
			}
			for _, k := range ks {
				if m.is(mul(sub(a.s, k), ie)) || m.is(mul(addm(a.s, k), ie)) {
					return "the nonce is guessable"
				}
			}
		}
		for _, b := range qs[:i] {
			for _, sg := range [][2]bool{{false, false}, {false, true}} {
				// a.s = k + a.e·x ; b.s = ±(k+dl) + b.e·x
				var is *big.Int
				if !sg[1] {
					is = inv(sub(a.e, b.e))
				} else {
					is = inv(addm(a.e, b.e))
				}
				if is == nil {
					continue
				}
				for _, dl := range deltas {
					var x *big.Int
					if !sg[1] {
						x = mul(sub(a.s, sub(b.s, big.NewInt(dl))), is)
					} else {
						x = mul(addm(a.s, addm(b.s, big.NewInt(dl))), is)
					}
					if m.is(x) {
						return fmt.Sprintf("two answers (sessions %d and %d) with related nonces (difference %d, opposite signs %v)", b.sid, a.sid, dl, sg[1])
					}
				}
			}
		}
	}
	return ""
}

func (r *mallory) newKey() (*paillier.PubKey, *paillier.PrvKey) {
	simrand.Of("mallory").State ^= 1
	pk, sk, err := paillier.GenerateKeyPair(2048)
	if err != nil {
		panic(err)
	}
	return pk, sk
}

// failing makes the victim's entropy source err for a while, or stutter.
func failing(r *core.R) {
	c := r.C
	switch c.Choose(6, "entropy") {
	case 0:
		simrand.Of("victim").ShortAt = int64(1 + c.Choose(10, "short-at"))
		simrand.Of("victim").ShortTo = sim.Pick(r.C, "short-to", 0, 1, 16, 1<<30)
	case 1, 2:
		simrand.Of("victim").FailAt = int64(1 + c.Choose(14, "fail-at"))
		simrand.Of("victim").FailFor = int64(1 + c.Choose(3, "fail-for"))
	}
}

// breakNow makes one of the next reads of the victim's entropy source fail.
func breakNow(r *core.R) {
	if src := simrand.Of("victim"); r.C.OneIn(4, "break-now") {
		src.FailAt, src.FailFor = src.Reads+1+int64(r.C.Choose(4, "read")), 1
	}
}

// beta is a cube root of one modulo P: (beta*x, y) is a point when (x, y) is.
var beta, _ = new(big.Int).SetString("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee", 16)

// endo is another point with the same Y.
func endo(c *sim.Chooser, p *secp256k1.Scalar) *secp256k1.Scalar {
	x := new(big.Int).Mul(p.X, beta)
	if c.OneIn(2, "beta-squared") {
		x.Mul(x, beta)
	}
	return secp256k1.NewScalar(x.Mod(x, ref.P), cp(p.Y))
}

// c23ecdsa: honest ciphertexts, hostile nonce points, retries and replays.
func c23ecdsa(r *core.R) {
	c := r.C
	x1, x2 := drawKey(c, "victim-key"), drawKey(c, "mallory-key")
	m := &mallory{r: r, pub: refPub(x1), tried: map[string]bool{}}
	simrand.Set("victim", &simrand.Source{State: c.U64("victim-entropy")})
	simrand.Set("mallory", &simrand.Source{State: c.U64("mallory-entropy")})
	failing(r)
	digests := [][]byte{drawHash(c, "digest")}
	digests = append(digests, otherHash(c, digests[0], "digest2"))
	kind := c.Choose(4, "victim") // 0,1 plain, 2 alice, 3 bob
	steps := 4 + c.Choose(14, "steps")
	objs := 1
	if c.OneIn(4, "objects") {
		objs = 2
	}
	answers := 0
	type vs struct {
		p      ecParty
		hash   []byte
		buf    []byte // the caller's buffer the digest came in
		over   []byte // what the caller has put there since
		R      *secp256k1.Scalar
		bad    []byte // digest of a session that failed to start
		last   *secp256k1.Scalar
		sid    int
		share  []*secp256k1.Scalar
		first  bool
		closed bool
	}
	r.Go("mallory", "mallory", func() {
		pk, sk := m.newKey()
		encX2 := func() *big.Int {
			ct, err := pk.Encrypt(x2)
			if err != nil {
				panic(err)
			}
			return ct
		}
		ct0 := encX2()
		var vics []*vs
		for o := 0; o < objs; o++ {
			v := &vs{first: true}
			switch kind {
			case 2:
				v.p = aliceParty{xcrypto.NewEcdsaAlice(libPrv(x1))}
			case 3:
				v.p = bobParty{xcrypto.NewEcdsaBob(libPrv(x1), drawKey(c, "secret"))}
			default:
				v.p = plainParty{xcrypto.NewEcdsaParty(libPrv(x1))}
			}
			v.p.p1(libPub(refPub(x2)))
			vics = append(vics, v)
		}
		var es []eq
		sid := 0
		var allR []*secp256k1.Scalar
		for n := 0; n < steps && !r.Failed(); n++ {
			v := vics[c.Choose(len(vics), "object")]
			op := c.Choose(8, "op")
			if v.R == nil && op != 7 {
				op = 0
			}
			if v.bad != nil && v.R != nil && op < 2 {
				op = 3 // the session could not be started: is there still an answer from the one before?
			}
			switch op {
			case 0: // a new session
				h := digests[c.Choose(2, "digest#")]
				if v.first && objs > 1 {
					// the first sessions of two objects of one key must not share a digest:
					// that is the listed finding nonce-restart
					for o, w := range vics {
						if w == v {
							h = digests[o]
						}
					}
				}
				breakNow(r)
				var R *secp256k1.Scalar
				buf := lend(h)
				runAs(r, "victim", func() { _, _, R = v.p.p2(buf) })
				if R == nil {
					if simrand.Of("victim").Fails+simrand.Of("victim").Shorts == 0 {
						if !v.closed {
							r.Fail("phase2-failed", "Phase2 failed although the entropy source works")
						}
					} else {
						r.Fault("entropy-error")
					}
					v.bad = h
					continue
				}
				sid++
				v.hash, v.R, v.sid, v.share, v.bad = h, R, sid, nil, nil
				v.buf, v.over = buf, nil
				v.first = false
				allR = append(allR, R)
				r.Probe("session")
			case 1, 2: // the victim computes the shared R with a point of Mallory's choice
				var q *secp256k1.Scalar
				switch c.Choose(6, "my-R") {
				case 5:
					q = endo(c, allR[c.Choose(len(allR), "old-R")])
				case 0:
					p := ref.MulG(drawKey(c, "k2"))
					q = secp256k1.NewScalar(p.X, p.Y)
				case 1:
					q = secp256k1.NewScalar(cp(ref.G.X), cp(ref.G.Y))
				case 2:
					o := allR[c.Choose(len(allR), "old-R")]
					q = secp256k1.NewScalar(cp(o.X), cp(o.Y))
				case 3:
					o := allR[c.Choose(len(allR), "old-R")]
					q = secp256k1.NewScalar(cp(o.X), new(big.Int).Sub(ref.P, o.Y))
				case 4:
					p := ref.MulG(big.NewInt(int64(2 + c.Choose(5, "small-k2"))))
					q = secp256k1.NewScalar(p.X, p.Y)
				}
				if s := v.p.p3(q); s != nil {
					v.share = append(v.share, s)
				}
			case 3, 4, 5, 6: // ask for an answer
				var R *secp256k1.Scalar
				switch ch := c.Choose(9, "share-R"); {
				case ch >= 7 && v.last != nil:
					R = secp256k1.NewScalar(cp(v.last.X), cp(v.last.Y))
					r.Fault("asked-again")
				case ch <= 2 && len(v.share) > 0:
					o := v.share[c.Choose(len(v.share), "share#")]
					R = secp256k1.NewScalar(cp(o.X), cp(o.Y))
					if c.OneIn(4, "flip") {
						R.Y.Sub(ref.P, R.Y)
						r.Fault("flip-Y")
					}
				case ch == 3:
					p := ref.MulG(drawKey(c, "made-up-R"))
					R = secp256k1.NewScalar(p.X, p.Y)
					r.Fault("made-up-R")
				case ch == 4:
					R = endo(c, allR[c.Choose(len(allR), "old-R")])
					if len(v.share) > 0 {
						R = endo(c, v.share[c.Choose(len(v.share), "share#")])
					}
					r.Fault("R-with-the-same-Y")
				default:
					o := allR[c.Choose(len(allR), "old-R")]
					R = secp256k1.NewScalar(cp(o.X), cp(o.Y))
					r.Fault("replayed-R")
				}
				ct := ct0
				if c.OneIn(2, "fresh-ct") {
					ct = encX2()
				}
				if c.OneIn(5, "reuse-buffer") { // the next request is read into the caller's buffer
					v.over = digests[c.Choose(2, "over#")]
					copy(v.buf, v.over)
					r.Fault("buffer-reused")
				}
				var got *big.Int
				var err error
				runAs(r, "victim", func() { got, err = v.p.p4(cp(ct), pk, R) })
				if err != nil {
					r.Probe("refused")
					continue
				}
				d, err := sk.Decrypt(got)
				if err != nil {
					continue
				}
				answers++
				v.last = R
				r.Probe("answer")
				es = append(es, eq{s: mod(d), z: mod(new(big.Int).SetBytes(v.hash)), r: mod(R.X), d: d, sid: v.sid})
				if v.over != nil {
					es = append(es, eq{s: mod(d), z: mod(new(big.Int).SetBytes(v.over)), r: mod(R.X), d: d, sid: v.sid, alt: true})
				}
				if v.bad != nil {
					es = append(es, eq{s: mod(d), z: mod(new(big.Int).SetBytes(v.bad)), r: mod(R.X), d: d, sid: v.sid, alt: true})
				}
			case 7:
				if c.OneIn(3, "close") {
					v.p.close()
					v.closed = true
					r.Probe("close")
				}
			}
		}
		if how := m.ecdsa(x2, es); how != "" {
			r.Fail("key-extracted", "the counterparty computed the victim's private key from %d answers: %s", len(es), how)
		}
		// what she decrypts is v*x2 + w + mask*N: the mask has to hide the range of
		// v*x2, about N*N, or the integers narrow the key down answer by answer
		masks := map[string]*big.Int{}
		for _, a := range es {
			k := mul(addm(a.z, mul(a.r, mul(x1, x2))), inv(a.s))
			ik := inv(k)
			if a.alt || ik == nil {
				continue
			}
			v, w := mul(mul(a.r, x1), ik), mul(a.z, ik)
			b := new(big.Int).Sub(a.d, new(big.Int).Mul(v, x2))
			b.Sub(b, w)
			b.Div(b, ref.N)
			if b.BitLen() < 384 {
				r.Fail("weak-mask", "the integer of an answer is masked by %d bits above N only, which does not hide the two secret terms", b.BitLen())
			}
			if d := masks[b.String()]; d != nil && d.Cmp(a.d) != 0 {
				r.Fail("weak-mask", "two different answers are masked with the same multiple of N: their difference is not masked")
			}
			masks[b.String()] = a.d
		}
		// nonces of different sessions must not be related by a known amount
		for i, a := range allR {
			for _, b := range allR[:i] {
				if a.X.Cmp(b.X) == 0 {
					r.Probe("same-R-again")
				}
			}
		}
	})
	r.Run(nil)
	r.NonTrivial = answers >= 2
	r.Note("answers", answers)
	r.Note("candidates", m.n)
}

// runAs runs fn with the entropy of another process.
func runAs(r *core.R, group string, fn func()) {
	t := sim.CurTask()
	old := t.Group
	t.Group = group
	defer func() { t.Group = old }()
	fn()
}

// c23schnorr is the same against a Schnorr party.
func c23schnorr(r *core.R) {
	c := r.C
	x1, x2 := drawKey(c, "victim-key"), drawKey(c, "mallory-key")
	m := &mallory{r: r, pub: refPub(x1), tried: map[string]bool{}}
	simrand.Set("victim", &simrand.Source{State: c.U64("victim-entropy")})
	failing(r)
	digests := [][]byte{drawHash(c, "digest")}
	digests = append(digests, otherHash(c, digests[0], "digest2"))
	steps := 4 + c.Choose(24, "steps")
	joint := ref.Add(m.pub, refPub(x2))
	if joint.Inf() {
		return
	}
	keys := []ref.Pt{joint, refPub(x2), m.pub, ref.G}
	answers := 0
	r.Go("mallory", "mallory", func() {
		type vs struct {
			p     *xcrypto.SchnorrParty
			hash  []byte
			buf   []byte            // the caller's buffer the digest came in
			over  []byte            // what the caller has put there since
			last  *secp256k1.Scalar // the shared point answered last
			bad   []byte            // digest of a session that failed to start
			R     *secp256k1.Scalar
			share []*secp256k1.Scalar
			sid   int
		}
		var vics []*vs
		for o := 0; o <= c.Choose(2, "objects"); o++ { // a restarted process is a second object
			p, err := xcrypto.NewSchnorrParty(libPrv(x1))
			if err != nil {
				panic(err)
			}
			vics = append(vics, &vs{p: p})
		}
		var qs []sq
		var allR []*secp256k1.Scalar
		sid := 0
		for n := 0; n < steps && !r.Failed(); n++ {
			v := vics[c.Choose(len(vics), "object")]
			op := c.Choose(8, "op")
			if v.R == nil && op != 7 {
				op = 0
			}
			if v.bad != nil && v.R != nil && op < 2 {
				op = 3 // the session could not be started: is there still an answer from the one before?
			}
			switch op {
			case 0:
				h := digests[c.Choose(2, "digest#")]
				breakNow(r)
				var R *secp256k1.Scalar
				buf := lend(h)
				runAs(r, "victim", func() { R = v.p.Phase2(buf) })
				if R == nil {
					if simrand.Of("victim").Fails > 0 {
						r.Fault("entropy-error")
					}
					v.bad = h
					continue
				}
				sid++
				v.bad = nil
				v.hash, v.R, v.sid, v.share = h, secp256k1.NewScalar(cp(R.X), cp(R.Y)), sid, nil
				v.buf, v.over = buf, nil
				allR = append(allR, v.R)
				r.Probe("session")
			case 1, 2:
				var q *secp256k1.Scalar
				switch c.Choose(4, "my-R") {
				case 0:
					p := ref.MulG(drawKey(c, "k2"))
					q = secp256k1.NewScalar(p.X, p.Y)
				case 1:
					o := allR[c.Choose(len(allR), "old-R")]
					q = secp256k1.NewScalar(cp(o.X), cp(o.Y))
				case 3:
					q = endo(c, allR[c.Choose(len(allR), "old-R")])
				case 2:
					o := allR[c.Choose(len(allR), "old-R")]
					q = secp256k1.NewScalar(cp(o.X), new(big.Int).Sub(ref.P, o.Y))
				}
				if ref.Add(ref.Pt{X: q.X, Y: q.Y}, ref.Pt{X: v.R.X, Y: v.R.Y}).Inf() {
					continue
				}
				if s := v.p.Phase3(q); s != nil {
					v.share = append(v.share, s)
				}
			case 3, 4, 5, 6:
				var R *secp256k1.Scalar
				switch ch := c.Choose(9, "share-R"); {
				case ch >= 7 && v.last != nil:
					R = secp256k1.NewScalar(cp(v.last.X), cp(v.last.Y))
					r.Fault("asked-again")
				case ch <= 2 && len(v.share) > 0:
					o := v.share[c.Choose(len(v.share), "share#")]
					R = secp256k1.NewScalar(cp(o.X), cp(o.Y))
					if c.OneIn(4, "flip") {
						R.Y.Sub(ref.P, R.Y)
						r.Fault("flip-Y")
					}
				case ch == 3:
					p := ref.MulG(drawKey(c, "made-up-R"))
					R = secp256k1.NewScalar(p.X, p.Y)
					r.Fault("made-up-R")
				case ch == 4:
					R = endo(c, allR[c.Choose(len(allR), "old-R")])
					if len(v.share) > 0 {
						R = endo(c, v.share[c.Choose(len(v.share), "share#")])
					}
					r.Fault("R-with-the-same-Y")
				default:
					o := allR[c.Choose(len(allR), "old-R")]
					R = secp256k1.NewScalar(cp(o.X), cp(o.Y))
					r.Fault("replayed-R")
				}
				k := keys[0]
				if c.OneIn(4, "other-key") {
					k = keys[c.Choose(len(keys), "key#")]
					r.Fault("other-joint-key")
				}
				if c.OneIn(5, "reuse-buffer") { // the next request is read into the caller's buffer
					v.over = digests[c.Choose(2, "over#")]
					copy(v.buf, v.over)
					r.Fault("buffer-reused")
				}
				var part []byte
				var err error
				runAs(r, "victim", func() { part, err = v.p.Phase4(libPub(k), R) })
				if err != nil {
					r.Probe("refused")
					continue
				}
				answers++
				v.last = R
				r.Probe("answer")
				e := mod(new(big.Int).SetBytes(ref.Sha256(cat(ref.B32(R.X), k.Compress(), v.hash))))
				qs = append(qs, sq{s: mod(new(big.Int).SetBytes(part)), e: e, sid: v.sid})
				if v.over != nil {
					e := mod(new(big.Int).SetBytes(ref.Sha256(cat(ref.B32(R.X), k.Compress(), v.over))))
					qs = append(qs, sq{s: mod(new(big.Int).SetBytes(part)), e: e, sid: v.sid})
				}
				if v.bad != nil {
					e := mod(new(big.Int).SetBytes(ref.Sha256(cat(ref.B32(R.X), k.Compress(), v.bad))))
					qs = append(qs, sq{s: mod(new(big.Int).SetBytes(part)), e: e, sid: v.sid})
				}
			case 7:
				if c.OneIn(3, "close") {
					v.p.Close()
					r.Probe("close")
				}
			}
		}
		if how := m.schnorr(digests, qs); how != "" {
			r.Fail("key-extracted", "the counterparty computed the victim's Schnorr key from %d shares: %s", len(qs), how)
		}
	})
	r.Run(nil)
	r.NonTrivial = answers >= 2
	r.Note("answers", answers)
	r.Note("candidates", m.n)
}

// ---------------------------------------------------------------- listed findings

// c23restart: two processes' worth of one key sign the same digest.
func c23restart(r *core.R) {
	c := r.C
	x1, x2 := drawKey(c, "victim-key"), drawKey(c, "mallory-key")
	m := &mallory{r: r, pub: refPub(x1), tried: map[string]bool{}}
	h := c.Bytes(32, "digest")
	r.Go("mallory", "mallory", func() {
		pk, sk := m.newKey()
		ct, _ := pk.Encrypt(x2)
		var es []eq
		for i := 0; i < 2; i++ {
			v := xcrypto.NewEcdsaParty(libPrv(x1))
			runAs(r, "victim", func() { v.Phase2(append([]byte(nil), h...)) })
			p := ref.MulG(drawKey(c, "k2"))
			R := v.Phase3(secp256k1.NewScalar(p.X, p.Y))
			got, err := v.Phase4(cp(ct), pk, R)
			if err != nil {
				return
			}
			d, _ := sk.Decrypt(got)
			es = append(es, eq{s: mod(d), z: mod(new(big.Int).SetBytes(h)), r: mod(R.X), sid: i})
			r.Fault("restart")
		}
		r.NonTrivial = true
		if how := m.ecdsa(x2, es); how != "" {
			r.Fail("nonce-restart", "two party objects of one key signing one digest gave the counterparty the key: %s", how)
		}
	})
	r.Run(nil)
}

// c23oracle: the victim's own encpk as the answer of Phase4; the unverified
// "signature" of Phase5 is ±x1/k1, which with one honest-looking answer is the key.
func c23oracle(r *core.R) {
	c := r.C
	x1, x2 := drawKey(c, "victim-key"), drawKey(c, "mallory-key")
	m := &mallory{r: r, pub: refPub(x1), tried: map[string]bool{}}
	h := c.Bytes(32, "digest")
	z := mod(new(big.Int).SetBytes(h))
	r.Go("mallory", "mallory", func() {
		pk, sk := m.newKey()
		ct, _ := pk.Encrypt(x2)
		v := xcrypto.NewEcdsaParty(libPrv(x1))
		v.Phase1(libPub(refPub(x2)))
		var enc *big.Int
		runAs(r, "victim", func() { enc, _, _ = v.Phase2(append([]byte(nil), h...)) })
		p := ref.MulG(drawKey(c, "k2"))
		R := v.Phase3(secp256k1.NewScalar(p.X, p.Y))
		got, err := v.Phase4(cp(ct), pk, R)
		if err != nil {
			return
		}
		d, _ := sk.Decrypt(got)
		r.Fault("own-encpk-as-answer")
		sig, err := v.Phase5(R, enc)
		r.NonTrivial = true
		if err != nil {
			return
		}
		_, s, ok := ref.ParseDERStrict(sig)
		if !ok {
			return
		}
		// s = ±x1/k1 ; D = (z + r·x2·x1)/k1
		for _, u := range []*big.Int{s, new(big.Int).Sub(ref.N, s)} {
			// D = z/k + r·x2·u  ->  k = z/(D − r·x2·u), x1 = u·k
			if w := inv(sub(mod(d), mul(mul(mod(R.X), x2), u))); w != nil && m.is(mul(u, mul(z, w))) {
				r.Fail("phase5-oracle", "the unverified output of Phase5 over the victim's own encpk, with one Phase4 answer, gave the counterparty the key")
				return
			}
		}
	})
	r.Run(nil)
}

// c23forged: no proof ties the ciphertext to the counterparty's key.
func c23forged(r *core.R) {
	c := r.C
	x1 := drawKey(c, "victim-key")
	m := &mallory{r: r, pub: refPub(x1), tried: map[string]bool{}}
	h := c.Bytes(32, "digest")
	z := mod(new(big.Int).SetBytes(h))
	r.Go("mallory", "mallory", func() {
		pk, sk := m.newKey()
		big800 := new(big.Int).Lsh(big.NewInt(1), 1200)
		ct, err := pk.Encrypt(big800)
		if err != nil {
			panic(err)
		}
		v := xcrypto.NewEcdsaParty(libPrv(x1))
		runAs(r, "victim", func() { v.Phase2(append([]byte(nil), h...)) })
		p := ref.MulG(drawKey(c, "k2"))
		R := v.Phase3(secp256k1.NewScalar(p.X, p.Y))
		r.Fault("forged-ciphertext")
		got, err := v.Phase4(ct, pk, R)
		r.NonTrivial = true
		if err != nil {
			return
		}
		d, _ := sk.Decrypt(got)
		vv := new(big.Int).Rsh(d, 1200)  // r·x1/k
		w := new(big.Int).Mod(d, big800) // z/k + mask·N
		if iw := inv(w); iw != nil && inv(mod(R.X)) != nil {
			k := mul(z, iw)
			if m.is(mul(mul(vv, k), inv(mod(R.X)))) {
				r.Fail("forged-ciphertext", "an encryption of 2^1200 in place of the counterparty's key made one Phase4 answer give the key away")
			}
		}
	})
	r.Run(nil)
}

func init() {
	core.Register(&core.Scenario{Prop: "C23", Name: "ecdsa-mallory", Fn: c23ecdsa, Quick: 5000, Weight: 30,
		Require: []string{"answer", "refused", "session", "flip-Y", "made-up-R", "replayed-R", "R-with-the-same-Y", "entropy-error"},
		Rule:    "one run = 4-17 requests of a hostile counterparty to an ECDSA, scriptless-alice or scriptless-bob party (new sessions, chosen, replayed and negated nonce points, repeated questions), then every pair of answers is solved for the key; non-trivial with two answers or more"})
	core.Register(&core.Scenario{Prop: "C23", Name: "schnorr-mallory", Fn: c23schnorr, Quick: 8000, Weight: 20,
		Require: []string{"answer", "refused", "session", "flip-Y", "made-up-R", "replayed-R", "R-with-the-same-Y", "entropy-error", "other-joint-key"},
		Rule:    "the same against one or two (restarted) Schnorr parties of one key; non-trivial with two shares or more"})
	core.Register(&core.Scenario{Prop: "C23", Name: "ecdsa-restart", Fn: c23restart, Quick: 8, Weight: 1, Rule: "a process restarted between two sessions over one digest"})
	core.Register(&core.Scenario{Prop: "C23", Name: "phase5-oracle", Fn: c23oracle, Quick: 8, Weight: 1, Rule: "the victim's own ciphertext as the answer"})
	core.Register(&core.Scenario{Prop: "C23", Name: "forged-ciphertext", Fn: c23forged, Quick: 8, Weight: 1, Rule: "a ciphertext of a value that is not the counterparty's key"})
}
