package hmain

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"time"

	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"

	"vsim/core"
	"vsim/ref"
	"vsim/sim"
)

// ---------------------------------------------------------------- C15: digests over a transaction's history

type dgRun struct {
	r     *core.R
	tx    *xcore.Transaction
	m     *ref.Tx // what the transaction says now
	coins []*coin
	ins   []*xcore.TxIn
	outs  []*xcore.TxOut
	keys  []*big.Int
	n     int
}

func (d *dgRun) addIn() {
	c := d.r.C
	k := drawCoin(c, d.keys, ref.KP2PKH, ref.KP2SH, ref.KP2WPKH, ref.KP2WSH)
	h, _ := hex.DecodeString(k.Txid)
	in, err := xcore.NewTxIn(rev(h), k.N, k.Value, k.Prev, k.Redeem)
	if err != nil {
		d.r.Fail("input", "a standard coin (kind %d) is refused: %v", k.Kind, err)
		return
	}
	d.tx.AddInput(in)
	d.ins = append(d.ins, in)
	d.coins = append(d.coins, k)
	d.m.Ins = append(d.m.Ins, ref.In{Hash: rev(h), Index: k.N, Seq: 0xffffffff})
}

func (d *dgRun) addOut() {
	x := drawDest(d.r.C, drawValue(d.r.C, "value"))
	out := xcore.NewTxOut(x.Value, x.script())
	d.tx.AddOutput(out)
	d.outs = append(d.outs, out)
	d.m.Outs = append(d.m.Outs, ref.Out{Value: x.Value, Script: x.script()})
}

// want is the digest the model computes.
func (d *dgRun) want(i int, ht uint32) []byte {
	k := d.coins[i]
	code := k.Redeem
	if !k.multi() {
		code = ref.ScriptP2PKH(ref.Hash160(k.Keys[0]))
	}
	if k.segwit() {
		return d.m.WitnessHash(i, code, k.Value, ht)
	}
	return d.m.LegacyHash(i, code, ht)
}

func signs(der, key, digest []byte) bool {
	r, s, ok := ref.ParseDERStrict(der)
	if !ok {
		return false
	}
	pt, ok := ref.ParsePoint(key)
	return ok && ref.ECDSAVerify(pt, digest, r, s)
}

// lone makes one signature for an input that other goroutines may be signing
// too, each with its own key and hash type: it signs the digest of its own.
func (d *dgRun) lone(i int) {
	k := d.coins[i]
	j := d.r.C.Choose(len(k.prv), "lone-key")
	ht := byte(d.hashType())
	var sig []byte
	var err error
	if k.segwit() {
		sig, err = d.tx.WitnessSignature(i, xcore.SigHashType(ht), libPrv(k.prv[j]))
	} else {
		sig, err = d.tx.RawSignature(i, xcore.SigHashType(ht), libPrv(k.prv[j]))
	}
	if err != nil {
		d.r.Fail("sign", "signing input %d failed: %v", i, err)
		return
	}
	want := d.want(i, uint32(ht))
	d.n++
	d.r.Probe("lone-signature")
	if len(sig) < 9 || sig[len(sig)-1] != ht || !signs(sig[:len(sig)-1], k.Keys[j], want) {
		d.r.Fail("lone-signature", "the signature %x made for input %d (kind %d, hash type %#x) does not sign its digest %x", sig, i, k.Kind, ht, want)
	}
}

// digest compares one digest with the model.
func (d *dgRun) digest(i int, ht uint32) {
	k := d.coins[i]
	var got, want []byte
	if k.segwit() {
		got = d.tx.WitnessV0SignatureHash(i, xcore.SigHashType(ht))
	} else {
		got = d.tx.RawSignatureHash(i, xcore.SigHashType(ht))
	}
	want = d.want(i, ht)
	d.n++
	if !bytes.Equal(got, want) {
		d.r.Fail("digest", "digest of input %d of %d (kind %d, hash type %#x, %d outputs) is %x, should be %x", i, len(d.coins), k.Kind, ht, len(d.m.Outs), got, want)
	}
}

func (d *dgRun) hashType() uint32 {
	c := d.r.C
	if c.Choose(3, "odd-type") == 0 {
		return uint32(c.Choose(256, "type-byte"))
	}
	return uint32(sim.Pick(c, "type", byte(1), 2, 3, 0x81, 0x82, 0x83))
}

// sign signs an input and has every signature checked against the model.
func (d *dgRun) sign(i int) {
	k := d.coins[i]
	ht := byte(d.hashType())
	how := d.r.C.Choose(2, "sign-how")
	if how == 0 {
		if err := d.tx.SignIndex(i, k.comp(), xcore.SigHashType(ht), libKeys(k.prv[:k.M])...); err != nil {
			d.r.Fail("sign", "signing input %d failed: %v", i, err)
			return
		}
	} else {
		var s []xcore.PubKeySign
		for j := 0; j < k.M; j++ {
			var sig []byte
			var err error
			if k.segwit() {
				sig, err = d.tx.WitnessSignature(i, xcore.SigHashType(ht), libPrv(k.prv[j]))
			} else {
				sig, err = d.tx.RawSignature(i, xcore.SigHashType(ht), libPrv(k.prv[j]))
			}
			if err != nil {
				d.r.Fail("sign", "signing input %d failed: %v", i, err)
				return
			}
			s = append(s, xcore.PubKeySign{PubKey: k.Keys[j], Signature: sig})
		}
		if err := d.tx.EmbedIdxSignature(i, s); err != nil {
			d.r.Fail("sign", "embedding the signatures of input %d failed: %v", i, err)
			return
		}
	}
	// what a verifier reads off the input
	x := ref.In{Witness: d.ins[i].Witness, Script: d.ins[i].RawUnlockingScript}
	if k.segwit() {
		x.Script = nil
	} else {
		x.Witness = nil
	}
	t := dup(d.m)
	t.Ins[i].Script, t.Ins[i].Witness = x.Script, x.Witness
	if !t.Authorised(i, k.Prev, k.Value) {
		d.r.Fail("signature", "the signatures just made for input %d (kind %d, hash type %#x) do not sign it", i, k.Kind, ht)
		return
	}
	d.r.Probe("signed")
}

// reuse decodes another transaction into the same object.
func (d *dgRun) reuse() {
	raw := d.m.Bytes(false)
	if len(d.m.Ins) == 0 {
		return
	}
	if err := d.tx.DeserializeNoWitness(raw); err != nil {
		d.r.Fail("decode", "decoding failed: %v", err)
		return
	}
	for i, k := range d.coins {
		if err := d.tx.SetTxIn(i, k.Value, k.Prev, k.Redeem); err != nil {
			d.r.Fail("decode", "attaching coin %d failed: %v", i, err)
			return
		}
	}
	d.ins, d.outs = nil, nil
	d.r.Probe("reused-object")
}

func (d *dgRun) change() {
	c := d.r.C
	switch c.Choose(11, "change") {
	case 0:
		if len(d.coins) < 6 {
			d.addIn()
			if d.ins != nil && len(d.ins) != len(d.coins) {
				d.ins = nil
			}
		}
	case 1:
		if len(d.m.Outs) < 6 {
			d.addOut()
			if len(d.outs) != len(d.m.Outs) {
				d.outs = nil
			}
		}
	case 2:
		v := uint32(c.U64("lock"))
		d.tx.SetLockTime(v)
		d.m.Lock = v
	case 3:
		v := sim.Pick(c, "version", uint32(2), 1, 0, 0xffffffff)
		d.tx.SetVersion(v)
		d.m.Version = v
	case 4: // another amount for a coin
		if len(d.coins) == 0 {
			return
		}
		i := c.Choose(len(d.coins), "coin")
		v := drawValue(c, "value")
		k := *d.coins[i]
		k.Value = v
		if err := d.tx.SetTxIn(i, v, k.Prev, k.Redeem); err != nil {
			d.r.Fail("attach", "setting the amount of input %d failed: %v", i, err)
			return
		}
		d.coins[i] = &k
	case 5: // the exported fields of an input
		if len(d.ins) == 0 {
			return
		}
		i := c.Choose(len(d.ins), "in")
		switch c.Choose(3, "field") {
		case 0:
			v := sim.Pick(c, "seq", uint32(0), 1, 0xfffffffe, 0xffffffff)
			d.ins[i].Sequence, d.m.Ins[i].Seq = v, v
		case 1:
			v := uint32(c.Choose(9, "n"))
			d.ins[i].Index, d.m.Ins[i].Index = v, v
		case 2:
			v := c.Bytes(32, "hash")
			d.ins[i].Hash, d.m.Ins[i].Hash = v, append([]byte(nil), v...)
		}
	case 6: // of an output
		if len(d.outs) == 0 {
			return
		}
		i := c.Choose(len(d.outs), "out")
		v := drawValue(c, "value")
		d.outs[i].Value, d.m.Outs[i].Value = v, v
	case 7:
		if len(d.coins) > 0 {
			d.reuse()
		}
	case 8: // read-only calls
		if len(d.coins) > 0 {
			_, _, _ = d.tx.ToString(), d.tx.Size(), d.tx.Serialize()
			_ = d.tx.Verify()
		}
	case 10: // what cannot be attached changes nothing
		if len(d.coins) == 0 {
			return
		}
		i := c.Choose(len(d.coins), "coin")
		k := d.coins[i]
		prev, redeem := k.Prev, k.Redeem
		switch c.Choose(4, "wrong") {
		case 0:
			prev = sim.Pick(c, "odd", nil, []byte{0x6a}, []byte{0x4c}, append(append([]byte(nil), prev...), 0x51))
		case 1:
			i = sim.Pick(c, "index", -1, len(d.coins), 1<<31)
		default:
			redeem = []byte{0x51}
			prev = ref.ScriptP2WSH(make([]byte, 32))
			if c.Choose(2, "sh") == 0 {
				prev = ref.ScriptP2SH(make([]byte, 20))
			}
		}
		if err := d.tx.SetTxIn(i, drawValue(c, "value"), prev, redeem); err == nil {
			d.r.Fail("attach", "input %d took a coin locked by %x with redeem script %x", i, prev, redeem)
		}
		d.r.Probe("refused-attach")
	case 9:
		if len(d.ins) > 0 {
			d.sign(c.Choose(len(d.ins), "in"))
		}
	}
}

func c15(r *core.R) {
	c := r.C
	d := &dgRun{r: r, tx: xcore.NewTransaction(), m: &ref.Tx{Version: 1}}
	d.keys = drawKeys(c, 1+c.Choose(3, "keys"))
	done := false
	r.Go("wallet", "wallet", func() {
		defer func() { done = true }()
		for i := c.Choose(4, "ins"); i >= 0; i-- {
			d.addIn()
		}
		for i := c.Choose(4, "outs"); i > 0; i-- {
			d.addOut()
		}
		for step := 3 + c.Choose(12, "steps"); step > 0 && !r.Failed(); step-- {
			for i := c.Choose(3, "changes"); i > 0 && !r.Failed(); i-- {
				d.change()
			}
			if len(d.coins) == 0 || r.Failed() {
				continue
			}
			n := sim.Pick(c, "readers", 1, 1, 2, 3)
			left := n
			for t := 0; t < n; t++ {
				t := t
				r.Go("wallet", fmt.Sprintf("digest%d", t), func() {
					for j := 1 + c.Choose(3, "digests"); j > 0 && !r.Failed(); j-- {
						i := c.Choose(len(d.coins), "input")
						if d.ins != nil && i%n == t && c.OneIn(5, "sign") {
							d.sign(i)
							continue
						}
						if c.OneIn(4, "lone") {
							d.lone(i)
							continue
						}
						d.digest(i, d.hashType())
					}
					left--
				})
			}
			sim.Await("digests", time.Now().Add(time.Hour), func() bool { return left == 0 || r.Failed() })
			if id := xbase.NewIDToString(d.tx.Hash()); d.ins == nil && id != hex.EncodeToString(rev(d.m.TxID())) {
				r.Fail("txid", "transaction id %s, should be %x", id, rev(d.m.TxID()))
			}
		}
	})
	r.Run(func() bool { return done || r.Failed() })
	r.NonTrivial = d.n > 1
	r.Note("digests", d.n)
}

func init() {
	core.Register(&core.Scenario{Prop: "C15", Name: "digest-history", Fn: c15, Quick: 16000, Cfg: sim.Config{Preempt: true},
		Require: []string{"signed", "reused-object", "lone-signature"},
		Rule:    "one run = 3-14 rounds of changing one transaction object (inputs, outputs, amounts, sequences, lock time, version, decoding into it, signing) and computing digests from 1-3 goroutines at once, each compared with an independent computation over the current contents; non-trivial when at least two digests were compared"})
}
