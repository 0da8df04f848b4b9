package hmain

import (
	"bytes"
	"fmt"
	"math/big"
	"time"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"

	"vsim/core"
	"vsim/ref"
	"vsim/sim"
	"vsim/simrand"
)

// ---------------------------------------------------------------- two-party ECDSA (C09, C11)

// ecParty is what a session needs from a party object.
type ecParty interface {
	p1(*xcrypto.PubKey) *xcrypto.PubKey
	p2([]byte) (*big.Int, *paillier.PubKey, *secp256k1.Scalar)
	p3(*secp256k1.Scalar) *secp256k1.Scalar
	p4(*big.Int, *paillier.PubKey, *secp256k1.Scalar) (*big.Int, error)
	// p5 returns a final signature, or an adaptor value
	p5(*secp256k1.Scalar, *big.Int) ([]byte, *big.Int, error)
	close()
}

type plainParty struct{ p *xcrypto.EcdsaParty }

func (x plainParty) p1(k *xcrypto.PubKey) *xcrypto.PubKey { return x.p.Phase1(k) }
func (x plainParty) p2(h []byte) (*big.Int, *paillier.PubKey, *secp256k1.Scalar) {
	return x.p.Phase2(h)
}
func (x plainParty) p3(r *secp256k1.Scalar) *secp256k1.Scalar { return x.p.Phase3(r) }
func (x plainParty) p4(e *big.Int, k *paillier.PubKey, r *secp256k1.Scalar) (*big.Int, error) {
	return x.p.Phase4(e, k, r)
}
func (x plainParty) p5(r *secp256k1.Scalar, ct *big.Int) ([]byte, *big.Int, error) {
	s, err := x.p.Phase5(r, ct)
	return s, nil, err
}
func (x plainParty) close() { x.p.Close() }

type aliceParty struct{ p *xcrypto.EcdsaAlice }

func (x aliceParty) p1(k *xcrypto.PubKey) *xcrypto.PubKey { return x.p.ScriptlessPhase1(k) }
func (x aliceParty) p2(h []byte) (*big.Int, *paillier.PubKey, *secp256k1.Scalar) {
	return x.p.ScriptlessPhase2(h)
}
func (x aliceParty) p3(r *secp256k1.Scalar) *secp256k1.Scalar { return x.p.ScriptlessPhase3(r) }
func (x aliceParty) p4(e *big.Int, k *paillier.PubKey, r *secp256k1.Scalar) (*big.Int, error) {
	return x.p.ScriptlessPhase4(e, k, r)
}
func (x aliceParty) p5(r *secp256k1.Scalar, ct *big.Int) ([]byte, *big.Int, error) {
	s, err := x.p.ScriptlessPhase5(r, ct)
	return nil, s, err
}
func (x aliceParty) close() { x.p.Close() }

type bobParty struct{ p *xcrypto.EcdsaBob }

func (x bobParty) p1(k *xcrypto.PubKey) *xcrypto.PubKey { return x.p.ScriptlessPhase1(k) }
func (x bobParty) p2(h []byte) (*big.Int, *paillier.PubKey, *secp256k1.Scalar) {
	return x.p.ScriptlessPhase2(h)
}
func (x bobParty) p3(r *secp256k1.Scalar) *secp256k1.Scalar { return x.p.ScriptlessPhase3(r) }
func (x bobParty) p4(e *big.Int, k *paillier.PubKey, r *secp256k1.Scalar) (*big.Int, error) {
	return x.p.ScriptlessPhase4(e, k, r)
}
func (x bobParty) p5(r *secp256k1.Scalar, ct *big.Int) ([]byte, *big.Int, error) {
	s, err := x.p.ScriptlessPhase5(r, ct)
	if err != nil {
		return nil, nil, err
	}
	sig, err := x.p.ScriptlessPhase6(r, s)
	return sig, nil, err
}
func (x bobParty) close() { x.p.Close() }

// lend gives a digest in a buffer of the caller's own, and reuse puts the next
// thing into that buffer once the call is over, as a server that reads every
// request into one buffer does.
func lend(h []byte) []byte { return append([]byte(nil), h...) }

func reuse(r *core.R, buf []byte) {
	if r.C.OneIn(3, "buffer-reused") {
		for i := range buf {
			buf[i] ^= 0x5a
		}
		r.Probe("buffer-reused")
	}
}

// askParty asks some questions twice, as a retransmission makes a party do, and
// watches the values it is given: answers do not depend on how often they were
// given before, and the caller's values stay as they are.
type askParty struct {
	ecParty
	r *core.R
}

func samePt(a, b *secp256k1.Scalar) bool {
	return (a == nil) == (b == nil) && (a == nil || a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0)
}

func copyPt(a *secp256k1.Scalar) *secp256k1.Scalar {
	return secp256k1.NewScalar(new(big.Int).Set(a.X), new(big.Int).Set(a.Y))
}

func (x askParty) p1(k *xcrypto.PubKey) *xcrypto.PubKey {
	a := x.ecParty.p1(k)
	if a != nil && x.r.C.OneIn(4, "again") {
		ax, ay := new(big.Int).Set(a.X), new(big.Int).Set(a.Y)
		if b := x.ecParty.p1(k); b == nil || b.X.Cmp(ax) != 0 || b.Y.Cmp(ay) != 0 || a.X.Cmp(ax) != 0 || a.Y.Cmp(ay) != 0 {
			x.r.Fail("answer-changed", "Phase1 asked twice gave two joint keys")
		}
		x.r.Probe("asked-again")
	}
	return a
}

func (x askParty) p3(R *secp256k1.Scalar) *secp256k1.Scalar {
	in := copyPt(R)
	a := x.ecParty.p3(R)
	if a != nil && x.r.C.OneIn(4, "again") {
		was := copyPt(a)
		if b := x.ecParty.p3(R); !samePt(b, was) || !samePt(a, was) {
			x.r.Fail("answer-changed", "Phase3 asked twice with one nonce point gave two shared points")
		}
		x.r.Probe("asked-again")
	}
	if !samePt(R, in) {
		x.r.Fail("inputs-changed", "Phase3 changed the nonce point it was given")
	}
	return a
}

func (x askParty) p4(e *big.Int, k *paillier.PubKey, R *secp256k1.Scalar) (*big.Int, error) {
	in, e0, n0, g0, nn0 := copyPt(R), new(big.Int).Set(e), new(big.Int).Set(k.N), new(big.Int).Set(k.G), new(big.Int).Set(k.NN)
	a, err := x.ecParty.p4(e, k, R)
	if !samePt(R, in) || e.Cmp(e0) != 0 || k.N.Cmp(n0) != 0 || k.G.Cmp(g0) != 0 || k.NN.Cmp(nn0) != 0 {
		x.r.Fail("inputs-changed", "Phase4 changed a value it was given")
	}
	return a, err
}

func (x askParty) p5(R *secp256k1.Scalar, ct *big.Int) ([]byte, *big.Int, error) {
	in, c0 := copyPt(R), new(big.Int).Set(ct)
	sig, ad, err := x.ecParty.p5(R, ct)
	if err == nil && x.r.C.OneIn(4, "again") {
		var was *big.Int
		if ad != nil {
			was = new(big.Int).Set(ad)
		}
		sig0 := append([]byte(nil), sig...)
		sig2, ad2, err2 := x.ecParty.p5(R, ct)
		if err2 != nil || !bytes.Equal(sig2, sig0) || !bytes.Equal(sig, sig0) || was != nil && (ad2 == nil || ad2.Cmp(was) != 0 || ad.Cmp(was) != 0) {
			x.r.Fail("answer-changed", "Phase5 asked twice with the same values gave two results (%v)", err2)
		}
		x.r.Probe("asked-again")
	}
	if !samePt(R, in) || ct.Cmp(c0) != 0 {
		x.r.Fail("inputs-changed", "Phase5 changed a value it was given")
	}
	return sig, ad, err
}

// job is one digest the two parties are to sign.
type job struct {
	id     int
	hash   []byte
	spec   *spendSpec
	leader *ecDisk
	foll   *ecDisk
}

// ecDisk is what survives a crash of a party's process.
type ecDisk struct {
	att     int
	inst    int
	sig     []byte
	sigAt   string              // session the signature belongs to
	adaptor map[string]*big.Int // by session
	adapR   map[string]*big.Int
	done    bool
	secret  *big.Int // extracted
}

// ecMsg is a protocol message of a session.
type ecMsg struct {
	Job, Att, Inst int
	Enc            *big.Int `json:",omitempty"`
	Pub            *encJ    `json:",omitempty"`
	R              *ptJ     `json:",omitempty"`
	Ct             *big.Int `json:",omitempty"`
}

// ecRun is one simulated pair of parties.
type ecRun struct {
	r          *core.R
	b          *bus
	d          [2]*big.Int // private keys
	pub        [2]ref.Pt
	joint      ref.Pt
	prv        [2]*xcrypto.PrvKey // shared by all tasks of a process
	scriptless bool
	secrets    []*big.Int // bob's secret of each job; the first of all, with one party object
	jobs       []*job
	seq        bool // one party object for all jobs, one job after another
	party      [2]ecParty
	sigs       map[string]string // session -> final signature
	adaptors   map[string]*big.Int
	published  map[int]*pub // job -> signature on the chain
	closeAfter bool
}

type pub struct {
	sess string
	sig  []byte
}

func (e *ecRun) newParty(side, jb int) ecParty {
	var x ecParty
	switch {
	case !e.scriptless:
		x = plainParty{xcrypto.NewEcdsaParty(e.prv[side])}
	case side == 0:
		x = aliceParty{xcrypto.NewEcdsaAlice(e.prv[0])}
	default:
		x = bobParty{xcrypto.NewEcdsaBob(e.prv[1], new(big.Int).Set(e.secretOf(jb)))}
	}
	x = askParty{x, e.r}
	if e.r.C.OneIn(4, "other-partner") { // it has dealt with somebody else before
		o := drawKey(e.r.C, "other-partner")
		if k := x.p1(libPub(refPub(o))); !pubIs(k, ref.Mul(o, e.pub[side])) {
			e.r.Fail("joint-key", "party %d computed a joint key with another partner that is not x1*x2*G", side)
		}
		e.r.Probe("partner-changed")
	}
	k := x.p1(libPub(e.pub[1-side]))
	if !pubIs(k, e.joint) {
		e.r.Fail("joint-key", "party %d computed a joint key that is not x1*x2*G", side)
	}
	return x
}

func (e *ecRun) boxName(side, jb int) string {
	if e.seq {
		return []string{"alice", "bob"}[side]
	}
	return fmt.Sprintf("%s/%d", []string{"alice", "bob"}[side], jb)
}

func (e *ecRun) boxes(side int) (o []string) {
	if e.seq {
		return []string{e.boxName(side, 0)}
	}
	for _, j := range e.jobs {
		o = append(o, e.boxName(side, j.id))
	}
	return
}

// boot starts the tasks of a party's process.
func (e *ecRun) boot(side int) {
	g := []string{"alice", "bob"}[side]
	e.b.up[g] = true
	for _, x := range e.boxes(side) {
		e.b.owner[x] = g
	}
	e.prv[side] = libPrv(e.d[side])
	e.party[side] = nil
	if e.seq {
		e.r.Go(g, g, func() {
			e.party[side] = e.newParty(side, 0)
			if side == 0 {
				for _, j := range e.jobs {
					e.lead(j, e.party[0])
				}
				if e.closeAfter {
					e.party[0].close()
				}
			} else {
				e.follow(e.jobs)
			}
		})
		return
	}
	for _, j := range e.jobs {
		j := j
		e.r.Go(g, fmt.Sprintf("%s/%d", g, j.id), func() {
			if side == 0 {
				e.lead(j, e.newParty(0, j.id))
			} else {
				e.follow([]*job{j})
			}
		})
	}
}

func sess(j, att, inst int) string { return fmt.Sprintf("%d.%d.%d", j, att, inst) }

// final records and judges a signature a party handed out.
func (e *ecRun) final(side int, j *job, s string, sig []byte) bool {
	if m := judgeSig(e.joint, j.hash, sig); m != "" {
		e.r.Fail("bad-signature", "party %d finished session %s of digest %x with a signature that %s", side, s, j.hash, m)
		return false
	}
	if old, ok := e.sigs[s]; ok && old != string(sig) {
		e.r.Fail("different-signatures", "session %s gave two different signatures", s)
		return false
	}
	e.sigs[s] = string(sig)
	e.r.Probe("signature")
	return true
}

// finished reports whether the initiator has all it needs from a job.
func (e *ecRun) finished(j *job) bool {
	d := j.leader
	if !e.scriptless {
		return d.sig != nil && d.done
	}
	if d.secret == nil {
		if p := e.published[j.id]; p != nil {
			e.extract(j, p)
		}
	}
	return d.secret != nil || e.r.Failed()
}

// start opens a session, and counts the entropy reads that took.
func (e *ecRun) start(group string, p ecParty, hash []byte) (enc *big.Int, pub *paillier.PubKey, R *secp256k1.Scalar, reads int64) {
	buf := lend(hash)
	reads = meter(group, -1, func() { enc, pub, R = p.p2(buf) })
	reuse(e.r, buf)
	return
}

// cannotStart now and then has the party of an open session asked for another
// one while its entropy fails: the open session goes on as if nothing had been
// asked. It reports false if another session could be opened after all.
func (e *ecRun) cannotStart(group string, p ecParty, hash []byte, reads int64) bool {
	if reads < 1 || !e.r.C.OneIn(8, "start-beside") {
		return true
	}
	n := reads - 1
	if e.r.C.OneIn(2, "start-early") {
		n = int64(e.r.C.Choose(int(reads), "start-reads"))
	}
	h := otherHash(e.r.C, hash, "start")
	ok := true
	meter(group, n, func() {
		a, b, c := p.p2(h)
		ok = a == nil || b == nil || c == nil
	})
	if ok {
		e.r.Probe("start-failed")
	} else {
		e.r.Probe("start-beside")
	}
	return ok
}

// lead runs the initiator's side of a job.
func (e *ecRun) lead(j *job, p ecParty) {
	d := j.leader
	me, to := e.boxName(0, j.id), e.boxName(1, j.id)
	for !e.finished(j) && !e.r.Failed() {
		d.att++ // persisted before anything is sent
		att := d.att
		enc, encpub, R, reads := e.start("alice", p, j.hash)
		if enc == nil || encpub == nil || R == nil {
			if fails("alice") == 0 {
				e.r.Fail("phase2-failed", "Phase2 failed although the entropy source works")
				return
			}
			sim.Sleep(300 * time.Millisecond)
			continue
		}
		open := ecMsg{Job: j.id, Att: att, Enc: enc, Pub: fromEnc(encpub), R: fromScalar(R)}
		var second, peer *ecMsg
		var shareR *secp256k1.Scalar
		var sigR *secp256k1.Scalar // the shared R of the session
		pend := map[int]*big.Int{}
		again := false
		answer := func() {
			ct, err := p.p4(peer.Enc, peer.Pub.key(), shareR)
			switch {
			case err == nil:
				second = &ecMsg{Job: j.id, Att: att, Inst: peer.Inst, Ct: ct}
				e.b.send("alice", to, "B", *second)
			case fails("alice") > 0:
				again = true
				sim.Sleep(300 * time.Millisecond)
			case sigR != nil && (sigR.X.Cmp(shareR.X) != 0 || sigR.Y.Cmp(shareR.Y) != 0):
				e.r.Probe("nonce-spent-restart") // this nonce has answered another R
				again = true
			default:
				e.r.Fail("phase4-failed", "Phase4 refused an honest message: %v", err)
			}
			if err == nil {
				sigR = shareR
			}
		}
		resend := time.Now()
		for !e.finished(j) && !again && !e.r.Failed() {
			if !time.Now().Before(resend) {
				e.b.send("alice", to, "A", open)
				if second != nil {
					e.b.send("alice", to, "B", *second)
				}
				resend = time.Now().Add(1500 * time.Millisecond)
			}
			q, ok := e.b.recv(me, resend.Sub(time.Now()))
			if !ok {
				continue
			}
			var m ecMsg
			if !q.into(&m) || m.Job != j.id {
				continue
			}
			if q.Kind == "D" {
				d.done = true
				continue
			}
			if m.Att != att {
				e.r.Probe("stale-message")
				continue
			}
			switch q.Kind {
			case "A":
				if peer != nil && peer.Inst == m.Inst {
					if second != nil && e.r.C.OneIn(2, "answer-again") {
						e.r.Probe("answered-again")
						answer() // a second answer must be as good as the first
					}
				} else if peer == nil || m.Inst > peer.Inst {
					peer, second = &m, nil
					if shareR = p.p3(m.R.scalar()); shareR == nil {
						e.r.Fail("phase3-failed", "Phase3 refused an honest R")
						return
					}
				}
			case "B":
				pend[m.Inst] = m.Ct
			}
			if peer == nil || e.r.Failed() || again {
				continue
			}
			s := sess(j.id, att, peer.Inst)
			if !e.scriptless && second == nil {
				answer()
			}
			if ct := pend[peer.Inst]; ct != nil && !again && (d.sig == nil && !e.scriptless || e.scriptless && d.adaptor[s] == nil) {
				if !e.cannotStart("alice", p, j.hash, reads) {
					break // another session has taken its place
				}
				sig, ad, err := p.p5(shareR, ct)
				if err != nil {
					e.r.Fail("phase5-failed", "Phase5 refused an honest answer: %v", err)
					return
				}
				if e.scriptless {
					if !e.checkAdaptor(j, s, shareR, ad) {
						return
					}
					d.adaptor[s], d.adapR[s] = ad, new(big.Int).Set(shareR.X) // on disk before the answer leaves
				} else if e.final(0, j, s, sig) {
					d.sig, d.sigAt = sig, s
				}
			}
			if e.scriptless && d.adaptor[s] != nil && second == nil && !again {
				answer()
			}
		}
	}
}

// follow runs the responder's side of some jobs.
func (e *ecRun) follow(jobs []*job) {
	me := e.boxName(1, jobs[0].id)
	var p ecParty
	var cur *job
	var att int
	var open, second *ecMsg
	var peer ecMsg
	var shareR *secp256k1.Scalar
	var reads int64
	for _, j := range jobs {
		j.foll.inst++ // persisted: a restarted process is a new instance
	}
	for !e.r.Failed() {
		q, ok := e.b.recv(me, time.Hour)
		if !ok {
			return
		}
		var m ecMsg
		if !q.into(&m) {
			continue
		}
		var j *job
		for _, x := range jobs {
			if x.id == m.Job {
				j = x
			}
		}
		if j == nil || cur != nil && j.id < cur.id {
			e.r.Probe("stale-message")
			continue
		}
		d := j.foll
		if d.done {
			e.b.send("bob", e.boxName(0, j.id), "D", ecMsg{Job: j.id})
		}
		if e.scriptless && d.done {
			continue
		}
		switch q.Kind {
		case "A":
			if cur == j && m.Att < att {
				e.r.Probe("stale-message")
				continue
			}
			if cur != j || m.Att > att {
				if p == nil {
					p = e.newParty(1, j.id)
				}
				enc, encpub, R, n := e.start("bob", p, j.hash)
				reads = n
				cur, att, open, second, shareR = j, m.Att, nil, nil, nil
				if enc == nil || encpub == nil || R == nil {
					if fails("bob") == 0 {
						e.r.Fail("phase2-failed", "Phase2 failed although the entropy source works")
						return
					}
					cur, att = j, m.Att-1
					d.inst++
					continue
				}
				peer = m
				if shareR = p.p3(m.R.scalar()); shareR == nil {
					e.r.Fail("phase3-failed", "Phase3 refused an honest R")
					return
				}
				open = &ecMsg{Job: j.id, Att: att, Inst: d.inst, Enc: enc, Pub: fromEnc(encpub), R: fromScalar(R)}
			} else if open == nil {
				continue
			}
			if second == nil || e.r.C.OneIn(2, "answer-again") {
				ct, err := p.p4(peer.Enc, peer.Pub.key(), shareR)
				if err != nil {
					if fails("bob") > 0 {
						continue
					}
					e.r.Fail("phase4-failed", "Phase4 refused an honest message: %v", err)
					return
				}
				if second != nil {
					e.r.Probe("answered-again")
				}
				second = &ecMsg{Job: j.id, Att: att, Inst: open.Inst, Ct: ct}
			}
			e.b.send("bob", e.boxName(0, j.id), "A", *open)
			e.b.send("bob", e.boxName(0, j.id), "B", *second)
		case "B":
			if cur != j || open == nil || m.Att != att || m.Inst != open.Inst {
				e.r.Probe("stale-message")
				continue
			}
			if !e.cannotStart("bob", p, j.hash, reads) {
				cur, att, open = j, m.Att-1, nil
				d.inst++
				continue
			}
			sig, _, err := p.p5(shareR, m.Ct)
			if err != nil {
				e.r.Fail("phase5-failed", "Phase5 refused an honest answer: %v", err)
				return
			}
			s := sess(j.id, att, open.Inst)
			if !e.final(1, j, s, sig) {
				return
			}
			if !d.done {
				d.done, d.sig, d.sigAt = true, sig, s
				if e.scriptless {
					e.publish(j, s, sig)
				}
			}
			e.b.send("bob", e.boxName(0, j.id), "D", ecMsg{Job: j.id})
		}
	}
}

// fails counts the failed entropy reads of a process.
func fails(group string) int64 { return simrand.Of(group).Fails }

// ---------------------------------------------------------------- spends

// spendSpec is a payment from the joint key, known to both parties.
type spendSpec struct {
	txid    string
	n       uint32
	value   uint64
	prev    []byte
	segwit  bool
	to      []byte
	pay     uint64
	ht      byte
	joint   *xcrypto.PubKey
	lock    uint32
	builtBy int
}

func drawSpend(c *sim.Chooser, joint ref.Pt) *spendSpec {
	s := &spendSpec{txid: fmt.Sprintf("%x", c.Bytes(32, "txid")), n: uint32(c.Choose(4, "vout")), segwit: c.Choose(2, "segwit") == 1,
		to: c.Bytes(20, "to"), joint: libPub(joint), lock: uint32(c.Choose(3, "lock"))}
	s.value = 2000 + uint64(c.Choose(1000000, "value"))
	s.pay = 600 + uint64(c.Choose(int(s.value-1599), "pay"))
	s.ht = sim.Pick(c, "hashtype", byte(1), 1, 2, 3, 0x81, 0x82, 0x83)
	h := ref.Hash160(joint.Compress())
	if s.segwit {
		s.prev = ref.ScriptP2WPKH(h)
	} else {
		s.prev = ref.ScriptP2PKH(h)
	}
	return s
}

func (s *spendSpec) build() (*xcore.Transaction, error) {
	b := xcore.NewTransactionBuilder().
		AddCoin(xcore.NewCoinBuilder().AddOutput(s.txid, s.n, s.value, fmt.Sprintf("%x", s.prev)).ToCoins()[0]).
		To(xcore.NewPayToPubKeyHashAddress(s.to), s.pay).Then().
		SetChange(xcore.NewPayToPubKeyHashAddress(ref.Hash160(s.to))).SendFees(1000).SetLockTime(s.lock).Then()
	return b.BuildTransaction()
}

func (s *spendSpec) digest(tx *xcore.Transaction) []byte {
	if s.segwit {
		return tx.WitnessV0SignatureHash(0, xcore.SigHashType(s.ht))
	}
	return tx.RawSignatureHash(0, xcore.SigHashType(s.ht))
}

// spend embeds the joint signature and has the transaction judged.
func (e *ecRun) spend(j *job, sig []byte) {
	s := j.spec
	tx, err := s.build()
	if err != nil {
		e.r.Fail("build", "the transaction could not be rebuilt: %v", err)
		return
	}
	if !bytes.Equal(s.digest(tx), j.hash) {
		e.r.Fail("digest", "two builds of the same payment have different digests")
		return
	}
	if err := tx.EmbedIdxEcdsaSignature(0, s.joint, sig, xcore.SigHashType(s.ht)); err != nil {
		e.r.Fail("embed", "embedding the joint signature failed: %v", err)
		return
	}
	if err := tx.Verify(); err != nil {
		e.r.Fail("verify", "the joint spend is refused by Verify: %v", err)
		return
	}
	raw := tx.Serialize()
	if !tx.HasWitness() {
		raw = tx.SerializeNoWitness()
	}
	t, n, err := ref.ParseTx(raw, tx.HasWitness())
	if err != nil || n != len(raw) {
		e.r.Fail("spend-encoding", "the joint spend does not parse: %v", err)
		return
	}
	if !t.Standard(0, s.prev, s.value) {
		e.r.Fail("spend-invalid", "an independent verifier refuses the joint spend (segwit %v, hash type %#x)", s.segwit, s.ht)
		return
	}
	e.r.Probe("joint-spend")
}

// ---------------------------------------------------------------- scriptless

func (e *ecRun) checkAdaptor(j *job, s string, R *secp256k1.Scalar, ad *big.Int) bool {
	if ad == nil || ad.Sign() <= 0 || ad.Cmp(ref.N) >= 0 {
		e.r.Fail("adaptor-range", "session %s: adaptor value %v is not in [1,N-1]", s, ad)
		return false
	}
	if sec := e.secretOf(j.id); sec.Cmp(big.NewInt(1)) > 0 && sec.Cmp(new(big.Int).Sub(ref.N, big.NewInt(1))) < 0 {
		for _, v := range []*big.Int{ad, new(big.Int).Sub(ref.N, ad)} {
			if ref.ECDSAVerify(e.joint, j.hash, new(big.Int).Mod(R.X, ref.N), v) {
				e.r.Fail("early-signature", "session %s: the adaptor value completes a signature before the secret is out", s)
				return false
			}
		}
	}
	if old := e.adaptors[s]; old != nil && old.Cmp(ad) != 0 {
		e.r.Fail("adaptor-changed", "session %s gave two adaptor values", s)
		return false
	}
	e.adaptors[s] = ad
	e.r.Probe("adaptor")
	return true
}

func (e *ecRun) publish(j *job, s string, sig []byte) {
	if e.published[j.id] == nil {
		e.published[j.id] = &pub{s, append([]byte(nil), sig...)}
		e.r.Logf("published %s", s)
		e.b.send("chain", e.boxName(0, j.id), "D", ecMsg{Job: j.id})
	}
}

// extract is alice reading the secret off the published signature.
func (e *ecRun) extract(j *job, p *pub) {
	rr, ss, ok := ref.ParseDERStrict(p.sig)
	if !ok {
		e.r.Fail("bad-signature", "published signature is not strict DER")
		return
	}
	d := j.leader
	var ad *big.Int
	for _, s := range core.Keys(d.adapR) {
		if new(big.Int).Mod(d.adapR[s], ref.N).Cmp(rr) == 0 {
			ad = d.adaptor[s]
		}
	}
	if ad == nil {
		e.r.Fail("published-without-adaptor", "bob completed session %s before alice had its adaptor", p.sess)
		return
	}
	al := xcrypto.NewEcdsaAlice(e.prv[0])
	keepA, keepS := new(big.Int).Set(ad), new(big.Int).Set(ss)
	t := al.ScriptlessPhase6(ad, ss)
	if ad.Cmp(keepA) != 0 || ss.Cmp(keepS) != 0 {
		e.r.Fail("inputs-changed", "ScriptlessPhase6 changed its inputs")
		return
	}
	if t == nil {
		e.r.Fail("not-extractable", "session %s: no secret extracted from the published signature", p.sess)
		return
	}
	neg := new(big.Int).Sub(ref.N, t)
	if sec := e.secretOf(j.id); t.Cmp(sec) != 0 && neg.Cmp(sec) != 0 {
		e.r.Fail("wrong-secret", "session %s: alice extracted %x, bob's secret is %x", p.sess, t, sec)
		return
	}
	d.secret = t
	e.r.Probe("secret-extracted")
}

// ---------------------------------------------------------------- scenarios

func newEc(r *core.R, scriptless bool) *ecRun {
	c := r.C
	e := &ecRun{r: r, b: newBus(r), scriptless: scriptless, sigs: map[string]string{}, adaptors: map[string]*big.Int{}, published: map[int]*pub{}}
	e.d[0], e.d[1] = drawKey(c, "alice-key"), drawKey(c, "bob-key")
	for i := range e.d {
		e.pub[i] = refPub(e.d[i])
	}
	e.joint = ref.Mul(e.d[0], e.pub[1])
	e.seq = c.Choose(2, "parallel") == 0
	if scriptless {
		e.secrets = append(e.secrets, drawKey(c, "secret"))
	}
	return e
}

func (e *ecRun) secretOf(jb int) *big.Int {
	if e.seq {
		jb = 0
	}
	return e.secrets[jb]
}

func (e *ecRun) run(njobs int) {
	r, c := e.r, e.r.C
	for i := 0; i < njobs; i++ {
		if e.scriptless && i > 0 {
			e.secrets = append(e.secrets, e.secrets[0])
			if c.OneIn(2, "own-secret") {
				e.secrets[i] = drawKey(c, "secret")
			}
		}
		j := &job{id: i, leader: &ecDisk{adaptor: map[string]*big.Int{}, adapR: map[string]*big.Int{}}, foll: &ecDisk{}}
		switch {
		case i > 0 && c.OneIn(4, "same-digest"):
			j.hash, j.spec = e.jobs[i-1].hash, e.jobs[i-1].spec
		case c.Choose(2, "spend") == 1:
			j.spec = drawSpend(c, e.joint)
			tx, err := j.spec.build()
			if err != nil {
				r.Fail("build", "building the payment failed: %v", err)
				return
			}
			j.hash = j.spec.digest(tx)
		default:
			j.hash = drawHash(c, "digest")
			if n := len(e.jobs); n > 0 && c.OneIn(3, "alike-digest") {
				j.hash = otherHash(c, e.jobs[n-1].hash, "digest")
			}
		}
		e.jobs = append(e.jobs, j)
	}
	e.b.entropyFault("alice")
	e.b.entropyFault("bob")
	e.b.faults(sim.Pick(c, "fault-for", 0, 4*time.Second, 20*time.Second))
	for side, g := range []string{"alice", "bob"} {
		side := side
		if n := sim.Pick(c, "crashes-"+g, 0, 0, 1, 2); n > 0 {
			e.b.crasher(g, e.boxes(side), n, func() { e.boot(side) })
		}
	}
	e.boot(0)
	e.boot(1)
	limit := e.b.calm.Add(time.Duration(60*(njobs+1)) * time.Second)
	done := func() bool {
		if r.Failed() || !time.Now().Before(limit) {
			return true
		}
		if !e.b.quiet() {
			return false
		}
		for _, j := range e.jobs {
			if e.scriptless && j.leader.secret == nil || !e.scriptless && (j.leader.sig == nil || !j.leader.done) {
				return false
			}
		}
		return true
	}
	r.At(limit.Sub(time.Now()), "limit", func() {})
	r.Run(done)
	if r.Failed() {
		return
	}
	for _, j := range e.jobs {
		if j.foll.sig == nil || !e.scriptless && j.leader.sig == nil || e.scriptless && j.leader.secret == nil {
			r.Fail("no-progress", "job %d has not completed %v after the faults stopped", j.id, time.Since(e.b.calm))
			return
		}
		if j.spec != nil {
			e.spend(j, j.foll.sig)
			if r.Failed() {
				return
			}
			if !e.scriptless && !bytes.Equal(j.leader.sig, j.foll.sig) {
				e.spend(j, j.leader.sig)
			}
		}
	}
	r.NonTrivial = len(e.sigs) > 0
	r.Note("jobs", njobs)
	r.Note("sequential-object", e.seq)
	r.Note("sessions", len(e.sigs))
}

func c09(r *core.R) { newEc(r, false).run(1 + r.C.Choose(3, "jobs")) }
func c11(r *core.R) { newEc(r, true).run(1 + r.C.Choose(2, "jobs")) }

func init() {
	core.Register(&core.Scenario{Prop: "C09", Name: "ecdsa-2p", Fn: c09, Quick: 3000, Cfg: sim.Config{Preempt: true, Slow: 3 * time.Second},
		Require: []string{"signature", "joint-spend", "crash", "answered-again", "nonce-spent-restart", "net-drop", "net-duplicate", "net-reorder", "entropy-failure"},
		Rule:    "one run = 1-3 digests signed by two party processes over a lossy, duplicating, reordering message network with crashes, restarts and entropy failures, one after another on one party object or at the same time on several; non-trivial when a signature was produced and judged"})
	core.Register(&core.Scenario{Prop: "C11", Name: "scriptless", Fn: c11, Quick: 3000, Cfg: sim.Config{Preempt: true, Slow: 3 * time.Second},
		Require: []string{"adaptor", "secret-extracted", "signature", "joint-spend", "crash"},
		Rule:    "one run = 1-2 scriptless swaps between two processes over a faulty message network with crashes; the adaptor is on disk before alice answers, the signature is published by bob, alice extracts; non-trivial when a signature was published and judged"})
}
