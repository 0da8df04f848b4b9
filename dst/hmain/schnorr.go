package hmain

import (
	"bytes"
	"fmt"
	"math/big"
	"time"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"

	"vsim/core"
	"vsim/ref"
	"vsim/sim"
)

// ---------------------------------------------------------------- n-party Schnorr (C10)

type scMsg struct {
	Job, Att, Inst, Set int
	R                   *ptJ   `json:",omitempty"`
	Rs                  []*ptJ `json:",omitempty"`
	Insts               []int  `json:",omitempty"`
	Part                []byte `json:",omitempty"`
}

type scDisk struct {
	att, inst int
	sig       []byte
	done      map[int]bool
}

type scJob struct {
	id   int
	hash []byte
	d    []*scDisk
}

type scRun struct {
	r     *core.R
	b     *bus
	n     int
	d     []*big.Int
	pub   []ref.Pt
	joint ref.Pt
	prv   []*xcrypto.PrvKey
	jobs  []*scJob
	seq   bool
	sigs  map[string]string
	parts map[string]string
	name  []string
}

func (e *scRun) box(i, jb int) string {
	if e.seq {
		return e.name[i]
	}
	return fmt.Sprintf("%s/%d", e.name[i], jb)
}

func (e *scRun) boxes(i int) (o []string) {
	for _, j := range e.jobs {
		o = append(o, e.box(i, j.id))
	}
	return
}

func (e *scRun) newParty(i int) (*xcrypto.SchnorrParty, *xcrypto.PubKey) {
	p, err := xcrypto.NewSchnorrParty(e.prv[i])
	if err != nil {
		e.r.Fail("new-party", "%v", err)
		return nil, nil
	}
	if e.r.C.OneIn(4, "other-partner") {
		e.aside(i, p)
	}
	var k *xcrypto.PubKey
	for x := 0; x < e.n; x++ {
		if x == i {
			continue
		}
		if k == nil {
			k = p.Phase1(libPub(e.pub[x]))
		} else {
			k = k.Add(libPub(e.pub[x]))
		}
	}
	if !pubIs(k, e.joint) {
		e.r.Fail("joint-key", "party %d computed a joint key that is not the sum of the keys", i)
		return nil, nil
	}
	return p, k
}

// aside has the party sign something with another partner before.
func (e *scRun) aside(i int, p *xcrypto.SchnorrParty) {
	o := drawKey(e.r.C, "other-partner")
	q, err := xcrypto.NewSchnorrParty(libPrv(o))
	if err != nil {
		return
	}
	joint := ref.Add(e.pub[i], refPub(o))
	if joint.Inf() {
		return
	}
	h := drawHash(e.r.C, "other-digest")
	k, k2 := p.Phase1(libPub(refPub(o))), q.Phase1(libPub(e.pub[i]))
	if !pubIs(k, joint) || !pubIs(k2, joint) {
		e.r.Fail("joint-key", "party %d computed a joint key with another partner that is not the sum of the keys", i)
		return
	}
	R1, R2 := p.Phase2(append([]byte(nil), h...)), q.Phase2(append([]byte(nil), h...))
	if R1 == nil || R2 == nil {
		return // no entropy
	}
	R1, R2 = copyPt(R1), copyPt(R2)
	S, S2 := p.Phase3(R2), q.Phase3(R1)
	if S == nil || !samePt(S, S2) {
		e.r.Fail("shared-R", "party %d and another partner computed different shared points", i)
		return
	}
	a, err1 := p.Phase4(k, S)
	b, err2 := q.Phase4(k2, S2)
	if err1 != nil || err2 != nil {
		e.r.Fail("phase4-failed", "Phase4 refused an honest session: %v %v", err1, err2)
		return
	}
	sig, err := p.Phase5(S, a, b)
	if err != nil || !ref.SchnorrVerify(joint, h, sig) {
		e.r.Fail("bad-signature", "party %d and another partner: no valid signature (%v)", i, err)
		return
	}
	e.r.Probe("partner-changed")
}

// shareR is the sum of the R points, the party's own through Phase3.
func (e *scRun) shareR(i int, p *xcrypto.SchnorrParty, rs []*ptJ) *secp256k1.Scalar {
	var s *secp256k1.Scalar
	curve := secp256k1.SECP256K1()
	for x, q := range rs {
		if x == i {
			continue
		}
		if s == nil {
			in := q.scalar()
			s = p.Phase3(in)
			if s != nil && e.r.C.OneIn(3, "again") { // a retransmission asks again
				was := copyPt(s)
				if b := p.Phase3(in); !samePt(b, was) || !samePt(s, was) {
					e.r.Fail("answer-changed", "Phase3 asked twice with one nonce point gave two shared points")
					return nil
				}
				e.r.Probe("asked-again")
			}
			if !samePt(in, q.scalar()) {
				e.r.Fail("inputs-changed", "Phase3 changed the nonce point it was given")
				return nil
			}
		} else {
			s = s.Add(curve, q.scalar())
		}
		if s == nil {
			e.r.Fail("phase3-failed", "Phase3 refused an honest R")
			return nil
		}
	}
	want := ref.Pt{}
	for _, q := range rs {
		want = ref.Add(want, q.ref())
	}
	if s.X.Cmp(want.X) != 0 || s.Y.Cmp(want.Y) != 0 {
		e.r.Fail("shared-R", "party %d computed a shared R that is not the sum of the parts", i)
	}
	return s
}

// cannotStart is ecRun's, for a start that takes one read.
func (e *scRun) cannotStart(i int, j *scJob, p *xcrypto.SchnorrParty) bool {
	if !e.r.C.OneIn(8, "start-beside") {
		return true
	}
	h := otherHash(e.r.C, j.hash, "start")
	ok := true
	meter(e.name[i], 0, func() { ok = p.Phase2(h) == nil })
	if ok {
		e.r.Probe("start-failed")
	} else {
		e.r.Probe("start-beside")
	}
	return ok
}

// partial asks a party for its share of the signature and judges it.
func (e *scRun) partial(i int, j *scJob, s string, p *xcrypto.SchnorrParty, k *xcrypto.PubKey, R *secp256k1.Scalar) []byte {
	in, kx, ky := copyPt(R), new(big.Int).Set(k.X), new(big.Int).Set(k.Y)
	sig, err := p.Phase4(k, R)
	if !samePt(R, in) || k.X.Cmp(kx) != 0 || k.Y.Cmp(ky) != 0 {
		e.r.Fail("inputs-changed", "Phase4 changed a value it was given")
		return nil
	}
	if err != nil {
		e.r.Fail("phase4-failed", "Phase4 refused an honest session: %v", err)
		return nil
	}
	key := fmt.Sprintf("%s/%d", s, i)
	if old, ok := e.parts[key]; ok && old != string(sig) {
		e.r.Fail("partial-changed", "party %d gave two different shares for session %s", i, s)
		return nil
	}
	e.parts[key] = string(sig)
	return append([]byte(nil), sig...)
}

func (e *scRun) final(i int, j *scJob, s string, p *xcrypto.SchnorrParty, R *secp256k1.Scalar, parts [][]byte) []byte {
	var in [][]byte
	for _, x := range parts {
		in = append(in, append([]byte(nil), x...))
	}
	sig, err := p.Phase5(R, in...)
	for x := range in {
		if !bytes.Equal(in[x], parts[x]) {
			e.r.Fail("inputs-changed", "Phase5 changed a share it was given")
			return nil
		}
	}
	if err == nil && e.r.C.OneIn(3, "again") {
		was := append([]byte(nil), sig...)
		if b, err := p.Phase5(R, in...); err != nil || !bytes.Equal(b, was) || !bytes.Equal(sig, was) {
			e.r.Fail("answer-changed", "Phase5 asked twice with the same shares gave two results (%v)", err)
			return nil
		}
	}
	if err != nil {
		e.r.Fail("phase5-failed", "Phase5 refused the shares of an honest session: %v", err)
		return nil
	}
	if len(sig) != 64 || !bytes.Equal(sig[:32], ref.B32(R.X)) {
		e.r.Fail("bad-signature", "the signature is not R.x followed by s: %x", sig)
		return nil
	}
	if !ref.SchnorrVerify(e.joint, j.hash, sig) {
		e.r.Fail("bad-signature", "party %d finished session %s of digest %x with a signature that does not verify under the joint key", i, s, j.hash)
		return nil
	}
	if err := xcrypto.SchnorrVerify(libPub(e.joint), j.hash, sig); err != nil {
		e.r.Fail("verify", "the joint signature is refused by SchnorrVerify: %v", err)
		return nil
	}
	if old, ok := e.sigs[s]; ok && old != string(sig) {
		e.r.Fail("different-signatures", "session %s gave two different signatures", s)
		return nil
	}
	e.sigs[s] = string(sig)
	e.r.Probe("signature")
	return sig
}

func (e *scRun) boot(i int) {
	g := e.name[i]
	e.b.up[g] = true
	for _, x := range e.boxes(i) {
		e.b.owner[x] = g
	}
	e.prv[i] = libPrv(e.d[i])
	if e.seq {
		e.r.Go(g, g, func() {
			p, k := e.newParty(i)
			if p == nil {
				return
			}
			if i == 0 {
				for _, j := range e.jobs {
					e.lead(j, p, k)
				}
			} else {
				e.follow(i, e.jobs, p, k)
			}
		})
		return
	}
	for _, j := range e.jobs {
		j := j
		e.r.Go(g, fmt.Sprintf("%s/%d", g, j.id), func() {
			p, k := e.newParty(i)
			if p == nil {
				return
			}
			if i == 0 {
				e.lead(j, p, k)
			} else {
				e.follow(i, []*scJob{j}, p, k)
			}
		})
	}
}

func (e *scRun) complete(j *scJob) bool { return j.d[0].sig != nil && len(j.d[0].done) == e.n-1 }

func (e *scRun) lead(j *scJob, p *xcrypto.SchnorrParty, k *xcrypto.PubKey) {
	d := j.d[0]
	for !e.complete(j) && !e.r.Failed() {
		d.att++
		att := d.att
		buf := lend(j.hash)
		R := p.Phase2(buf)
		reuse(e.r, buf)
		if R == nil {
			if fails(e.name[0]) == 0 {
				e.r.Fail("phase2-failed", "Phase2 failed although the entropy source works")
				return
			}
			sim.Sleep(300 * time.Millisecond)
			continue
		}
		open := scMsg{Job: j.id, Att: att}
		rs := make([]*ptJ, e.n)
		insts := make([]int, e.n)
		parts := make([][]byte, e.n)
		rs[0] = fromScalar(R)
		var share *secp256k1.Scalar
		var set *scMsg
		again := false
		resend := time.Now()
		all := func(kind string, m scMsg) {
			for i := 1; i < e.n; i++ {
				e.b.send(e.name[0], e.box(i, j.id), kind, m)
			}
		}
		for !e.complete(j) && !again && !e.r.Failed() {
			if !time.Now().Before(resend) {
				all("A", open)
				if set != nil {
					all("S", *set)
				}
				resend = time.Now().Add(1500 * time.Millisecond)
			}
			q, ok := e.b.recv(e.box(0, j.id), resend.Sub(time.Now()))
			if !ok {
				continue
			}
			var m scMsg
			from := -1
			for i, n := range e.name[:e.n] {
				if n == q.From {
					from = i
				}
			}
			if !q.into(&m) || m.Job != j.id || from < 1 {
				continue
			}
			if q.Kind == "D" {
				d.done[from] = true
				continue
			}
			if m.Att != att {
				e.r.Probe("stale-message")
				continue
			}
			switch q.Kind {
			case "R":
				if set == nil {
					if m.Inst >= insts[from] {
						rs[from], insts[from] = m.R, m.Inst
					}
				} else if m.Inst > insts[from] { // it lost its nonce: a new attempt
					e.r.Probe("nonce-lost-restart")
					again = true
					continue
				}
			case "P":
				if set != nil && m.Inst == insts[from] {
					parts[from] = m.Part
				}
			}
			if set == nil {
				have := true
				for _, x := range rs {
					have = have && x != nil
				}
				if have {
					if !e.cannotStart(0, j, p) {
						again = true
						continue
					}
					share = e.shareR(0, p, rs)
					if e.r.Failed() {
						return
					}
					if parts[0] = e.partial(0, j, fmt.Sprintf("%d.%d.%v", j.id, att, insts), p, k, share); parts[0] == nil {
						return
					}
					set = &scMsg{Job: j.id, Att: att, Rs: append([]*ptJ(nil), rs...), Insts: append([]int(nil), insts...), Part: parts[0]}
					all("S", *set)
				}
			}
			if set != nil && d.sig == nil {
				have := true
				for _, x := range parts {
					have = have && x != nil
				}
				if have {
					s := fmt.Sprintf("%d.%d.%v", j.id, att, insts)
					if e.r.C.OneIn(3, "partial-again") {
						if e.partial(0, j, s, p, k, share) == nil {
							return
						}
					}
					if d.sig = e.final(0, j, s, p, share, parts); d.sig == nil {
						return
					}
				}
			}
			if d.sig != nil && set != nil {
				f := *set
				f.Rs, f.Part = nil, nil
				for i := 1; i < e.n; i++ {
					if !d.done[i] {
						for x := 0; x < e.n; x++ {
							if x != i {
								f.Set, f.Part = x, parts[x]
								e.b.send(e.name[0], e.box(i, j.id), "F", f)
							}
						}
					}
				}
			}
		}
	}
}

func (e *scRun) follow(i int, jobs []*scJob, p *xcrypto.SchnorrParty, k *xcrypto.PubKey) {
	me := e.name[i]
	var cur *scJob
	var att int
	var R, share *secp256k1.Scalar
	var setKey string
	var parts [][]byte
	for _, j := range jobs {
		j.d[i].inst++
	}
	for !e.r.Failed() {
		q, ok := e.b.recv(e.box(i, jobs[0].id), time.Hour)
		if !ok {
			return
		}
		var m scMsg
		if !q.into(&m) {
			continue
		}
		var j *scJob
		for _, x := range jobs {
			if x.id == m.Job {
				j = x
			}
		}
		if j == nil || cur != nil && j.id < cur.id {
			e.r.Probe("stale-message")
			continue
		}
		d := j.d[i]
		lead := e.box(0, j.id)
		if d.sig != nil {
			e.b.send(me, lead, "D", scMsg{Job: j.id})
		}
		switch q.Kind {
		case "A":
			if cur == j && m.Att < att {
				continue
			}
			if cur != j || m.Att > att {
				cur, att, share, setKey, parts = j, m.Att, nil, "", nil
				buf := lend(j.hash)
				R = p.Phase2(buf)
				reuse(e.r, buf)
				if R == nil {
					if fails(me) == 0 {
						e.r.Fail("phase2-failed", "Phase2 failed although the entropy source works")
						return
					}
					att = m.Att - 1
					d.inst++
					continue
				}
			}
			if R != nil {
				e.b.send(me, lead, "R", scMsg{Job: j.id, Att: att, Inst: d.inst, R: fromScalar(R)})
			}
		case "S":
			if cur != j || m.Att != att || R == nil || len(m.Insts) != e.n || m.Insts[i] != d.inst {
				e.r.Probe("stale-message")
				continue
			}
			key := fmt.Sprintf("%d.%d.%v", j.id, att, m.Insts)
			if !e.cannotStart(i, j, p) {
				att, R = m.Att-1, nil
				d.inst++
				continue
			}
			if setKey == "" {
				share = e.shareR(i, p, m.Rs)
				if e.r.Failed() {
					return
				}
				setKey = key
				parts = make([][]byte, e.n)
				parts[0] = m.Part
			} else {
				e.r.Probe("answered-again")
			}
			if parts[i] = e.partial(i, j, setKey, p, k, share); parts[i] == nil {
				return
			}
			for x := 0; x < e.n; x++ {
				if x != i {
					e.b.send(me, e.box(x, j.id), "P", scMsg{Job: j.id, Att: att, Inst: d.inst, Insts: m.Insts, Part: parts[i], Set: i})
				}
			}
		case "P", "F":
			if cur != j || m.Att != att || setKey == "" || fmt.Sprintf("%d.%d.%v", j.id, att, m.Insts) != setKey || m.Set == i {
				continue
			}
			parts[m.Set] = m.Part
			have := true
			for _, x := range parts {
				have = have && x != nil
			}
			if have && d.sig == nil {
				sig := e.final(i, j, setKey, p, share, parts)
				if sig == nil {
					return
				}
				d.sig = sig
				e.b.send(me, lead, "D", scMsg{Job: j.id})
			}
		}
	}
}

func c10(r *core.R) {
	c := r.C
	e := &scRun{r: r, b: newBus(r), n: 2 + c.Choose(2, "parties"), sigs: map[string]string{}, parts: map[string]string{}, name: []string{"alice", "bob", "carol"}}
	for i := 0; i < e.n; i++ {
		d := drawKey(c, "key")
		e.d = append(e.d, d)
		e.pub = append(e.pub, refPub(d))
		e.joint = ref.Add(e.joint, e.pub[i])
	}
	for i := range e.d { // partial sums must not vanish either
		for x := range e.d {
			if x != i && new(big.Int).Mod(new(big.Int).Add(e.d[i], e.d[x]), ref.N).Sign() == 0 {
				return
			}
		}
	}
	if e.joint.Inf() {
		return
	}
	e.prv = make([]*xcrypto.PrvKey, e.n)
	e.seq = c.Choose(2, "parallel") == 0
	nj := 1 + c.Choose(3, "jobs")
	for i := 0; i < nj; i++ {
		j := &scJob{id: i, hash: drawHash(c, "digest")}
		if i > 0 && c.OneIn(3, "same-digest") {
			j.hash = e.jobs[i-1].hash
		} else if i > 0 && c.OneIn(3, "alike-digest") {
			j.hash = otherHash(c, e.jobs[i-1].hash, "digest")
		}
		for x := 0; x < e.n; x++ {
			j.d = append(j.d, &scDisk{done: map[int]bool{}})
		}
		e.jobs = append(e.jobs, j)
	}
	for i := 0; i < e.n; i++ {
		e.b.entropyFault(e.name[i])
	}
	e.b.faults(sim.Pick(c, "fault-for", 0, 4*time.Second, 20*time.Second))
	for i := 0; i < e.n; i++ {
		i := i
		if n := sim.Pick(c, "crashes", 0, 0, 1, 2); n > 0 {
			e.b.crasher(e.name[i], e.boxes(i), n, func() { e.boot(i) })
		}
	}
	for i := 0; i < e.n; i++ {
		e.boot(i)
	}
	limit := e.b.calm.Add(time.Duration(60*(nj+1)) * time.Second)
	r.At(limit.Sub(time.Now()), "limit", func() {})
	complete := func() bool {
		for _, j := range e.jobs {
			if !e.complete(j) {
				return false
			}
		}
		return true
	}
	r.Run(func() bool { return r.Failed() || !time.Now().Before(limit) || e.b.quiet() && complete() })
	if r.Failed() {
		return
	}
	if !complete() {
		r.Fail("no-progress", "a session has not completed %v after the faults stopped", time.Since(e.b.calm))
		return
	}
	r.NonTrivial = true
	r.Note("parties", e.n)
	r.Note("jobs", nj)
	r.Note("sequential-object", e.seq)
}

func init() {
	core.Register(&core.Scenario{Prop: "C10", Name: "schnorr-np", Fn: c10, Quick: 8000, Cfg: sim.Config{Preempt: true, Slow: 3 * time.Second},
		Require: []string{"signature", "crash", "answered-again", "nonce-lost-restart", "net-drop", "net-reorder", "entropy-failure"},
		Rule:    "one run = 1-3 digests signed by two or three party processes over a faulty message network with crashes, restarts and entropy failures; non-trivial when every session finished and its signature was judged"})
}
