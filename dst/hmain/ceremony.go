package hmain

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"time"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcrypto"

	"vsim/core"
	"vsim/ref"
	"vsim/sim"
)

// ---------------------------------------------------------------- C13: m-of-n ceremony

// msMsg travels between the coordinator and the cosigners.
type msMsg struct {
	Pay  *pay   `json:",omitempty"`
	Raw  []byte `json:",omitempty"`
	ID   string `json:",omitempty"`
	In   int
	Pub  []byte `json:",omitempty"`
	Sig  []byte `json:",omitempty"`
	From int
}

type msRun struct {
	r     *core.R
	b     *bus
	p     *pay
	n     int
	xprv  []string // on each cosigner's disk
	path  []string
	keys  []*big.Int
	byz   int                 // a cosigner that answers garbage, or -1
	byRaw bool                // proposals travel as raw transactions
	dark  int                 // a cosigner that never answers, or -1
	got   []map[string][]byte // coordinator's disk: per input, key -> signature
	final []byte              // coordinator's disk
	oks   map[int]bool        // coordinator's disk
	early bool                // coordinator tries before the quorum
	par   bool
	// reused: the coordinator's transaction has had other signatures in it
	reused bool
	pub    []map[string]*xcrypto.PubKey
}

func (m *msRun) box(i int) string { return fmt.Sprintf("s%d", i) }

// bootSigner starts a cosigner from what is on its disk.
func (m *msRun) bootSigner(i int) {
	g := m.box(i)
	m.b.up[g], m.b.owner[g] = true, g
	m.r.Go(g, g, func() {
		hd, err := bip32.NewHDKeyFromString(m.xprv[i])
		if err == nil {
			hd, err = hd.DeriveByPath(m.path[i])
		}
		if err != nil {
			m.r.Fail("key-lost", "cosigner %d cannot read its own key back: %v", i, err)
			return
		}
		prv := hd.PrivateKey()
		if !bytes.Equal(prv.Serialize(), ref.B32(m.keys[i])) {
			m.r.Fail("key-changed", "cosigner %d read back another key than it stored", i)
			return
		}
		for {
			q, ok := m.b.recv(g, time.Hour)
			if !ok {
				return
			}
			var x msMsg
			if !q.into(&x) {
				continue
			}
			switch q.Kind {
			case "propose":
				m.cosign(i, prv, x)
			case "final":
				m.check(i, x)
			}
			if m.r.Failed() {
				return
			}
		}
	})
}

// open builds the transaction a proposal describes.
func (m *msRun) open(x msMsg) (*xcore.Transaction, error) {
	if m.byRaw {
		return x.Pay.wire(x.Raw)
	}
	b, err := x.Pay.builder(nil)
	if err != nil {
		return nil, err
	}
	return b.BuildTransaction()
}

func (m *msRun) cosign(i int, prv *xcrypto.PrvKey, x msMsg) {
	if i == m.dark {
		return
	}
	tx, err := m.open(x)
	if err != nil {
		m.r.Fail("build", "cosigner %d cannot rebuild the proposed payment: %v", i, err)
		return
	}
	if tx.ID() != x.ID {
		m.r.Fail("txid", "cosigner %d sees transaction %s, the proposal is %s", i, tx.ID(), x.ID)
		return
	}
	if m.r.C.OneIn(5, "stray-index") {
		m.stray(tx, prv, len(x.Pay.Coins))
	}
	one := func(k int) {
		c := x.Pay.Coins[k]
		pub := prv.PubKey().SerializeCompressed()
		if !c.comp() {
			pub = prv.PubKey().SerializeUncompressed()
		}
		mine := false
		for _, y := range c.Keys {
			mine = mine || bytes.Equal(y, pub)
		}
		if !mine {
			return
		}
		var sig []byte
		var err error
		if c.segwit() {
			sig, err = tx.WitnessSignature(k, xcore.SigHashType(c.HT), prv)
		} else {
			sig, err = tx.RawSignature(k, xcore.SigHashType(c.HT), prv)
		}
		if err != nil {
			m.r.Fail("sign", "cosigner %d cannot sign input %d: %v", i, k, err)
			return
		}
		if i == m.byz {
			m.r.Fault("bad-partial")
			switch m.r.C.Choose(6, "byzantine") {
			case 0:
				sig = append([]byte(nil), sig...)
				sig[m.r.C.Choose(len(sig)-1, "byz-at")] ^= 1 << m.r.C.Choose(8, "byz-bit")
			case 1:
				sig[len(sig)-1] ^= 3
			case 2:
				sig = m.r.C.Bytes(m.r.C.Choose(80, "byz-len"), "byz-bytes")
			case 3:
				sig = nil
			case 4: // a signature of something else
				t := x.Pay.model()
				t.Lock++
				o := *c
				o.prv = []*big.Int{m.keys[i]}
				sig = o.refSign(t, k, 0, c.HT)
			case 5: // the right numbers in an encoding the network does not take
				sig = append(oddDER(m.r.C, sig[:len(sig)-1]), sig[len(sig)-1])
				m.r.Fault("odd-encoding")
			}
		}
		m.b.send(m.box(i), "co", "sig", msMsg{In: k, Pub: pub, Sig: sig, From: i})
	}
	if m.par {
		left := len(x.Pay.Coins)
		for k := range x.Pay.Coins {
			k := k
			m.r.Go(m.box(i), fmt.Sprintf("s%d/%d", i, k), func() { one(k); left-- })
		}
		sim.Await("inputs signed", time.Now().Add(time.Hour), func() bool { return left == 0 })
		return
	}
	for k := range x.Pay.Coins {
		one(k)
	}
}

// stray asks for inputs that are not there.
func (m *msRun) stray(tx *xcore.Transaction, prv *xcrypto.PrvKey, n int) {
	k := sim.Pick(m.r.C, "stray", n, -1, n+7)
	id := tx.ID()
	var err error
	switch m.r.C.Choose(5, "stray-call") {
	case 0:
		_, err = tx.RawSignature(k, xcore.SigHashAll, prv)
	case 1:
		_, err = tx.WitnessSignature(k, xcore.SigHashAll, prv)
	case 2:
		err = tx.SignIndex(k, true, xcore.SigHashAll, prv)
	case 3:
		err = tx.EmbedIdxSignature(k, []xcore.PubKeySign{{PubKey: []byte{2}, Signature: []byte{1}}})
	case 4:
		err = tx.SetTxIn(k, 1, ref.ScriptP2PKH(make([]byte, 20)), nil)
	}
	if err == nil {
		m.r.Fail("stray-input", "signing input %d of a transaction with %d inputs reported success", k, n)
	}
	if tx.ID() != id {
		m.r.Fail("stray-input", "a refused signing request changed the transaction")
	}
	m.r.Probe("stray-input-refused")
}

// work is the transaction an attempt is made on: the coordinator's own, which
// is filled in again later, or one built for the attempt.
func (m *msRun) work(tx *xcore.Transaction) *xcore.Transaction {
	if m.r.C.Choose(2, "same-object") == 1 {
		m.reused = true
		return tx
	}
	t, err := m.open(msMsg{Pay: m.p, Raw: m.p.model().Bytes(false)})
	if err != nil {
		m.r.Fail("build", "the coordinator cannot build the payment: %v", err)
		return nil
	}
	return t
}

// misassemble puts a wrong selection of signatures in: what Verify accepts has
// to be what the network accepts.
func (m *msRun) misassemble(tx *xcore.Transaction) {
	if tx = m.work(tx); tx == nil {
		return
	}
	odd := m.r.C.Choose(len(m.p.Coins), "odd-input")
	what := m.r.C.Choose(5, "odd-how")
	for k, c := range m.p.Coins {
		s := m.sigs(k)
		if k == odd {
			switch what {
			case 0: // every signature there is
				s = nil
				for _, y := range c.Keys {
					if g := m.got[k][string(y)]; g != nil {
						s = append(s, xcore.PubKeySign{PubKey: y, Signature: g})
					}
				}
			case 1: // the other way round
				for i, j := 0, len(s)-1; i < j; i, j = i+1, j-1 {
					s[i], s[j] = s[j], s[i]
				}
			case 2:
				s = append(s, s[len(s)-1])
			case 3:
				s = nil
			case 4: // another input's
				o := (k + 1) % len(m.p.Coins)
				s = append(s[:0:0], m.sigs(o)...)
			}
		}
		if err := tx.EmbedIdxSignature(k, s); err != nil {
			if k != odd {
				m.r.Fail("embed", "embedding the signatures of input %d failed: %v", k, err)
			}
			return
		}
		if len(s) == 0 && !c.multi() {
			m.r.Fail("embed-nothing", "embedding no signature in a single-key input reported success")
			return
		}
	}
	m.r.Probe("misassembled")
	if tx.Verify() != nil {
		return
	}
	if s := m.p.judge(encode(tx)); s != "" {
		m.r.Fail("verify-too-lax", "Verify accepts a transaction that %s", s)
	}
}

// check is a cosigner looking at the finished transaction.
func (m *msRun) check(i int, x msMsg) {
	tx, err := x.Pay.decode(x.Raw)
	if err != nil {
		m.r.Fail("final-decode", "cosigner %d cannot read the finished transaction: %v", i, err)
		return
	}
	if err := tx.Verify(); err != nil {
		m.r.Fail("final-refused", "cosigner %d refuses the finished transaction: %v", i, err)
		return
	}
	if id := txidOf(x.Raw); tx.ID() != id {
		m.r.Fail("txid", "cosigner %d computes id %s of the finished transaction, it is %s", i, tx.ID(), id)
		return
	}
	m.b.send(m.box(i), "co", "ok", msMsg{From: i})
}

// honest tells whether a signature is one of a committed key over this input.
func (m *msRun) honest(k int, pub, sig []byte) bool {
	c := m.p.Coins[k]
	pt, ok := ref.ParsePoint(pub)
	if !ok || len(sig) < 1 || sig[len(sig)-1] != c.HT {
		return false
	}
	r, s, ok := ref.ParseDERStrict(sig[:len(sig)-1])
	return ok && ref.ECDSAVerify(pt, c.digest(m.p.model(), k, c.HT), r, s)
}

// bootCo starts the coordinator from what is on its disk.
func (m *msRun) bootCo() {
	m.b.up["co"], m.b.owner["co"] = true, "co"
	m.r.Go("co", "co", func() {
		model := m.p.model()
		tx, err := m.open(msMsg{Pay: m.p, Raw: model.Bytes(false)})
		if err != nil {
			m.r.Fail("build", "the coordinator cannot build the payment: %v", err)
			return
		}
		id := hex.EncodeToString(rev(model.TxID()))
		if tx.ID() != id {
			m.r.Fail("txid", "the unsigned payment has id %s, it should be %s", tx.ID(), id)
			return
		}
		m.reused = false
		next := time.Now()
		for !m.done() && !m.r.Failed() {
			if !time.Now().Before(next) {
				for i := 0; i < m.n; i++ {
					switch {
					case m.final == nil:
						m.b.send("co", m.box(i), "propose", msMsg{Pay: m.p, Raw: model.Bytes(false), ID: id})
					case !m.oks[i]:
						m.b.send("co", m.box(i), "final", msMsg{Pay: m.p, Raw: m.final})
					}
				}
				next = time.Now().Add(2 * time.Second)
			}
			q, ok := m.b.recv("co", next.Sub(time.Now()))
			if !ok {
				continue
			}
			var x msMsg
			if !q.into(&x) {
				continue
			}
			switch q.Kind {
			case "ok":
				m.oks[x.From] = true
			case "sig":
				m.collect(tx, x)
				if m.final == nil && m.complete() {
					m.finish(tx)
				}
			}
		}
	})
}

// collect checks and stores one partial signature.
func (m *msRun) collect(tx *xcore.Transaction, x msMsg) {
	if m.final != nil || x.In >= len(m.p.Coins) {
		return
	}
	c := m.p.Coins[x.In]
	known := false
	for _, y := range c.Keys {
		known = known || bytes.Equal(y, x.Pub)
	}
	if !known {
		return
	}
	good := false
	if n := len(x.Sig); n > 1 && x.Sig[n-1] == c.HT {
		var h []byte
		if c.segwit() {
			h = tx.WitnessV0SignatureHash(x.In, xcore.SigHashType(c.HT))
		} else {
			h = tx.RawSignatureHash(x.In, xcore.SigHashType(c.HT))
		}
		pk, err := xcrypto.PubKeyFromBytes(x.Pub)
		good = err == nil && xcrypto.EcdsaVerify(pk, h, x.Sig[:n-1]) == nil
	}
	want := m.honest(x.In, x.Pub, x.Sig)
	if good && !want || !good && x.From != m.byz {
		kind := "partial-refused"
		if good {
			kind = "bad-partial-accepted"
		}
		m.r.Fail(kind, "cosigner %d's signature of input %d (kind %d, hash type %#x): library says %v, independent verifier %v: %x", x.From, x.In, c.Kind, c.HT, good, want, x.Sig)
		return
	}
	if !good {
		m.r.Probe("bad-partial-dropped")
		return
	}
	m.got[x.In][string(x.Pub)] = x.Sig
	m.r.Probe("partial")
	if m.early && c.multi() && len(m.got[x.In]) < c.M {
		m.tooEarly(tx, x.In)
	}
}

// sigs is the quorum of an input in key order; extra asks for fewer or repeated ones.
func (m *msRun) sigs(k int) (o []xcore.PubKeySign) {
	c := m.p.Coins[k]
	have := 0
	for _, y := range c.Keys {
		if m.got[k][string(y)] != nil {
			have++
		}
	}
	spare := have - c.M
	for _, y := range c.Keys {
		s := m.got[k][string(y)]
		if s == nil || len(o) == c.M {
			continue
		}
		if spare > 0 && m.r.C.OneIn(2, "skip-signature") {
			spare--
			continue
		}
		o = append(o, xcore.PubKeySign{PubKey: y, Signature: s})
	}
	return
}

func (m *msRun) complete() bool {
	for k, c := range m.p.Coins {
		if len(m.got[k]) < c.M {
			return false
		}
	}
	return true
}

// tooEarly tries to spend an input with too few signatures.
func (m *msRun) tooEarly(tx *xcore.Transaction, k int) {
	c := m.p.Coins[k]
	one := m.sigs(k)
	if len(one) == 0 {
		return
	}
	pad := append([]xcore.PubKeySign(nil), one...)
	for len(pad) < c.M && m.r.C.Choose(3, "pad") > 0 {
		s := pad[m.r.C.Choose(len(pad), "pad-with")]
		if m.r.C.OneIn(3, "pad-empty") {
			s.Signature = []byte{}
		}
		at := m.r.C.Choose(len(pad)+1, "pad-at")
		pad = append(pad[:at:at], append([]xcore.PubKeySign{s}, pad[at:]...)...)
	}
	t2 := m.work(tx)
	if t2 == nil {
		return
	}
	// only the input in question is left to be judged
	if err := t2.EmbedIdxSignature(k, pad); err != nil {
		return
	}
	raw := encode(t2)
	t, _, err := ref.ParseTx(raw, t2.HasWitness())
	if err != nil {
		m.r.Fail("encoding", "a partly signed transaction does not parse: %v", err)
		return
	}
	if t.Authorised(k, c.Prev, c.Value) {
		return
	}
	// Verify judges the whole transaction, so embed quorums elsewhere if there are any
	for j := range m.p.Coins {
		if j != k {
			if len(m.got[j]) < m.p.Coins[j].M {
				return
			}
			if err := t2.EmbedIdxSignature(j, m.sigs(j)); err != nil {
				m.r.Fail("embed", "embedding the signatures of input %d failed: %v", j, err)
				return
			}
		}
	}
	m.r.Probe("before-quorum")
	if t2.Verify() == nil {
		m.r.Fail("quorum", "a %d-of-%d input was accepted with the signatures of %d keys (%d given)", c.M, len(c.Keys), len(one), len(pad))
	}
}

// finish puts the quorum's signatures in and publishes.
func (m *msRun) finish(tx *xcore.Transaction) {
	for i := m.r.C.Choose(3, "misassemble"); i > 0 && !m.r.Failed(); i-- {
		m.misassemble(tx)
	}
	for k := range m.p.Coins {
		if err := tx.EmbedIdxSignature(k, m.sigs(k)); err != nil {
			m.r.Fail("embed", "embedding the signatures of input %d failed: %v", k, err)
			return
		}
	}
	if err := tx.Verify(); err != nil {
		m.r.Fail("quorum-refused", "the transaction with a quorum on every input is refused: %v", err)
		return
	}
	raw := encode(tx)
	if s := m.p.judge(raw); s != "" {
		m.r.Fail("final-invalid", "the finished transaction %s", s)
		return
	}
	if id := txidOf(raw); tx.ID() != id {
		m.r.Fail("txid", "the finished transaction has id %s, it is %s", tx.ID(), id)
		return
	}
	m.final = raw
	if m.reused {
		m.r.Probe("filled-in-again")
	}
	m.r.Probe("finished")
}

func (m *msRun) done() bool {
	if m.final == nil {
		return false
	}
	for i := 0; i < m.n; i++ {
		if !m.oks[i] {
			return false
		}
	}
	return true
}

func c13(r *core.R) {
	c := r.C
	m := &msRun{r: r, b: newBus(r), byz: -1, dark: -1, oks: map[int]bool{}}
	m.n = sim.Pick(c, "cosigners", 2, 3, 1, 4, 5)
	if c.OneIn(12, "crowd") {
		m.n = 6 + c.Choose(10, "crowd-n")
	}
	for i := 0; i < m.n; i++ {
		// the cosigner's wallet: an extended key on disk and a path
		x := ref.Master(c.Bytes(32, "seed"))
		m.xprv = append(m.xprv, x.String([]byte{4, 0x88, 0xad, 0xe4}))
		path, h := "m", x
		var err error
		for j := c.Choose(3, "depth"); j > 0; j-- {
			idx := uint32(c.Choose(50, "index"))
			path += fmt.Sprintf("/%d", idx)
			if c.OneIn(2, "hardened") {
				path += "'"
				idx |= 1 << 31
			}
			if h, err = h.Child(idx); err != nil {
				return
			}
		}
		m.path = append(m.path, path)
		m.keys = append(m.keys, h.K)
	}
	var coins []*coin
	nin := 1 + c.Choose(3, "inputs")
	if m.n > 5 {
		nin = 1
	}
	for i := 0; i < nin; i++ {
		k := drawCoin(c, m.keys, ref.KP2SH, ref.KP2WSH, ref.KP2SH, ref.KP2WSH, ref.KP2PKH, ref.KP2WPKH)
		if k.Kind == ref.KP2SH && len(k.Redeem) > 520 {
			return
		}
		coins = append(coins, k)
		m.got = append(m.got, map[string][]byte{})
	}
	m.p = drawPay(c, coins)
	if nin == 1 && coins[0].HT&0x1f == 3 && len(m.p.model().Outs) == 0 {
		return
	}
	m.byRaw = c.Choose(2, "by-raw") == 1
	m.par = c.Choose(2, "parallel") == 1
	m.early = c.Choose(2, "early") == 1
	// a missing or lying cosigner, when the quorum can do without
	spare := func(i int) bool {
		for _, k := range coins {
			have := 0
			for _, o := range k.owner {
				if o != i {
					have++
				}
			}
			if have < k.M {
				return false
			}
		}
		return true
	}
	if i := c.Choose(m.n, "odd-one"); c.Choose(2, "odd") == 1 && spare(i) {
		if c.Choose(2, "odd-kind") == 0 {
			m.byz = i
		} else {
			m.dark = i
			r.Fault("silent-cosigner")
		}
	}
	m.b.faults(sim.Pick(c, "fault-for", 0, 5*time.Second, 20*time.Second))
	if n := sim.Pick(c, "crash-co", 0, 0, 1, 2); n > 0 {
		m.b.crasher("co", []string{"co"}, n, m.bootCo)
	}
	for i := 0; i < m.n; i++ {
		if i := i; c.OneIn(4, "crash-cosigner") {
			m.b.crasher(m.box(i), []string{m.box(i)}, 1, func() { m.bootSigner(i) })
		}
		m.bootSigner(i)
	}
	m.bootCo()
	limit := m.b.calm.Add(2 * time.Minute)
	r.At(limit.Sub(time.Now()), "limit", func() {})
	r.Run(func() bool { return r.Failed() || !time.Now().Before(limit) || m.b.quiet() && m.done() })
	if r.Failed() {
		return
	}
	if !m.done() {
		r.Fail("no-progress", "the quorum has not finished %v after the faults stopped (final %v)", time.Since(m.b.calm), m.final != nil)
		return
	}
	r.NonTrivial = true
	r.Note("cosigners", m.n)
	r.Note("inputs", nin)
}

func init() {
	core.Register(&core.Scenario{Prop: "C13", Name: "multisig", Fn: c13, Quick: 3000, Cfg: sim.Config{Preempt: true, Slow: 3 * time.Second},
		Require: []string{"finished", "partial", "before-quorum", "bad-partial-dropped", "crash", "net-drop", "net-reorder", "silent-cosigner", "misassembled", "stray-input-refused", "filled-in-again"},
		Rule:    "one run = a coordinator and 1-15 cosigner processes, each with an extended key on disk, that build one payment (1-3 inputs, P2SH/P2WSH multisig and single-key) independently, exchange partial signatures over a faulty network with crashes and a lying or silent cosigner; non-trivial when the payment was finished, judged and accepted by every process"})
}
