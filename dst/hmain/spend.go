package hmain

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"time"

	"github.com/keyfuse/tokucore/xcore"

	"vsim/core"
	"vsim/ref"
	"vsim/sim"
)

// ---------------------------------------------------------------- C14: what gets past Verify

// gate is a node that lets a transaction in when the library verifies it.
type gate struct {
	r     *core.R
	b     *bus
	coins map[string]*coin // by outpoint
	list  []*coin
	evil  *big.Int
	seen  [][]byte // data items mallory saw
	txs   []*ref.Tx
	hon   map[string]bool // raw transactions the owners made
	in    map[string]bool
	left  int
	acc   int
	ref_  int
}

func outpoint(h []byte, n uint32) string { return fmt.Sprintf("%x:%d", h, n) }

func (g *gate) add(k *coin) {
	id, _ := hex.DecodeString(k.Txid)
	g.coins[outpoint(rev(id), k.N)] = k
	g.list = append(g.list, k)
}

// wallet has the owner sign a payment and hand it to the network.
func (g *gate) wallet(i int, coins []*coin) {
	c := g.r.C
	p := drawPay(c, coins)
	local := c.Choose(2, "by-hand") == 0
	b, err := p.builder(func(i int, b *xcore.TransactionBuilder) {
		k := p.Coins[i]
		b.AddKeys(libKeys(k.prv[:k.M])...)
		if !k.multi() && g.r.C.OneIn(4, "stray-redeem") {
			b.SetRedeemScript(ref.Multisig(1, k.Keys[0])) // not what the coin commits to
			g.r.Probe("stray-redeem")
		}
	})
	if err != nil {
		g.r.Fail("build", "the payment cannot be written down: %v", err)
		return
	}
	if local {
		b.Sign()
	}
	tx, err := b.BuildTransaction()
	if err != nil {
		g.r.Fail("build", "the payment cannot be built: %v", err)
		return
	}
	if !local {
		order := make([]int, len(p.Coins))
		for j := range order {
			k := c.Choose(j+1, "sign-order")
			order[j] = order[k]
			order[k] = j
		}
		for _, j := range order {
			k := p.Coins[j]
			if err := tx.SignIndex(j, k.comp(), xcore.SigHashType(k.HT), libKeys(k.prv[:k.M])...); err != nil {
				g.r.Fail("sign", "signing input %d failed: %v", j, err)
				return
			}
		}
	}
	if err := tx.Verify(); err != nil {
		g.r.Fail("own-refused", "the owner's own payment does not verify: %v", err)
		return
	}
	raw := encode(tx)
	if s := p.judge(raw); s != "" {
		g.r.Fail("own-invalid", "the owner's payment %s", s)
		return
	}
	g.hon[string(raw)] = true
	g.learn(raw)
	g.b.send(fmt.Sprintf("wallet%d", i), "node", "tx", raw)
}

// learn is mallory listening.
func (g *gate) learn(raw []byte) {
	t, _, err := ref.ParseTx(raw, raw[4] == 0)
	if err != nil {
		return
	}
	g.txs = append(g.txs, t)
	for _, in := range t.Ins {
		if items, _, ok := ref.Pushes(in.Script); ok {
			g.seen = append(g.seen, items...)
		}
		g.seen = append(g.seen, in.Witness...)
	}
}

// verify is the node's check of one transaction.
func (g *gate) verify(raw []byte) {
	g.left--
	c := g.r.C
	tx := xcore.NewTransaction()
	wit := len(raw) > 5 && raw[4] == 0
	var err error
	if wit {
		err = tx.Deserialize(raw)
	} else {
		err = tx.DeserializeNoWitness(raw)
	}
	t, _, rerr := ref.ParseTx(raw, wit)
	if err != nil || rerr != nil || len(t.Ins) == 0 {
		if g.hon[string(raw)] {
			g.r.Fail("honest-refused", "an owner's payment does not decode: %v", err)
		}
		g.r.Probe("undecodable")
		return
	}
	var spent []*coin
	var brought [][]byte
	for i, in := range t.Ins {
		k := g.coins[outpoint(in.Hash, in.Index)]
		if k == nil {
			g.r.Probe("unknown-coin")
			return
		}
		spent = append(spent, k)
		// the script a spender brings along
		var redeem []byte
		if len(k.Prev) == 34 || k.Prev[0] == 0xa9 {
			switch c.Choose(5, "redeem-from") {
			case 4:
				redeem = nil
			case 3:
				redeem = k.Redeem
			default:
				if items, _, ok := ref.Pushes(in.Script); ok && len(items) > 0 && k.Prev[0] == 0xa9 {
					redeem = items[len(items)-1]
				} else if n := len(in.Witness); n > 0 && k.Prev[0] == 0 {
					redeem = in.Witness[n-1]
				}
			}
			if g.hon[string(raw)] {
				redeem = k.Redeem
			}
		} else if c.OneIn(4, "stray-redeem") {
			redeem = g.item()
			if g.hon[string(raw)] && len(redeem) == 0 {
				redeem = []byte{0x51}
			}
		}
		brought = append(brought, redeem)
		if err = tx.SetTxIn(i, k.Value, k.Prev, redeem); err != nil {
			break
		}
	}
	if err == nil {
		err = tx.Verify()
	}
	if err != nil {
		g.ref_++
		if g.hon[string(raw)] {
			g.r.Fail("honest-refused", "an owner's payment is refused: %v", err)
		}
		g.r.Probe("refused")
		return
	}
	g.acc++
	g.r.Probe("accepted")
	for i, k := range spent {
		if !t.Authorised(i, k.Prev, k.Value) {
			g.r.Fail("unauthorised", "input %d spends %s (kind %d, %d of %d) although its keys did not sign this: unlocking %x witness %x, transaction %x",
				i, outpoint(t.Ins[i].Hash, t.Ins[i].Index), k.Kind, k.M, len(k.Keys), t.Ins[i].Script, t.Ins[i].Witness, raw)
			return
		}
		// what anybody can add to a spend on its way
		if ok, why, _ := spendable(t, i, k.Prev, brought[i], k.Value); !ok {
			g.r.Fail("not-valid", "input %d spends %s (kind %d, %d of %d) although the network refuses it (%s): unlocking %x witness %x, transaction %x",
				i, outpoint(t.Ins[i].Hash, t.Ins[i].Index), k.Kind, k.M, len(k.Keys), why, t.Ins[i].Script, t.Ins[i].Witness, raw)
			return
		}
	}
	if !g.hon[string(raw)] {
		g.r.Probe("altered-but-authorised")
	}
}

func (g *gate) node() {
	g.b.up["node"], g.b.owner["node"] = true, "node"
	g.r.Go("node", "node", func() {
		for !g.r.Failed() {
			q, ok := g.b.recv("node", time.Hour)
			if !ok {
				return
			}
			var raw []byte
			if !q.into(&raw) {
				continue
			}
			g.left++
			if g.r.C.Choose(2, "in-background") == 1 {
				g.r.Go("node", "check", func() { g.verify(raw) })
			} else {
				g.verify(raw)
			}
		}
	})
}

// item is a data item mallory can push.
func (g *gate) item() []byte {
	c := g.r.C
	switch c.Choose(7, "item") {
	case 0, 1, 2:
		if len(g.seen) > 0 {
			return g.seen[c.Choose(len(g.seen), "seen")]
		}
	case 3:
		k := g.list[c.Choose(len(g.list), "whose")]
		if k.Redeem != nil && c.OneIn(2, "redeem-or-key") {
			return k.Redeem
		}
		return k.Keys[c.Choose(len(k.Keys), "key")]
	case 4:
		return pubBytes(g.evil, true)
	case 5:
		return []byte{1}
	}
	return nil
}

// script is an unlocking script of mallory's.
func (g *gate) script(n int) []byte {
	c := g.r.C
	var s []byte
	for i := 0; i < n; i++ {
		if c.Choose(3, "op-or-data") > 0 {
			s = append(s, ref.Push(g.item())...)
			continue
		}
		s = append(s, sim.Pick(c, "op", byte(0x00), 0x51, 0x52, 0x61, 0x63, 0x64, 0x67, 0x68, 0x69, 0x6a, 0x75, 0x76, 0x87, 0x88, 0xa9, 0xab, 0xac, 0xad, 0xae, 0xaf, 0x4f, 0x60, 0x93))
	}
	return s
}

func dup(t *ref.Tx) *ref.Tx {
	u := *t
	u.Ins = append([]ref.In(nil), t.Ins...)
	for i := range u.Ins {
		u.Ins[i].Witness = append([][]byte(nil), u.Ins[i].Witness...)
	}
	u.Outs = append([]ref.Out(nil), t.Outs...)
	return &u
}

// items and setItems see an input's unlocking data as a list, wherever it lives.
func items(in ref.In) [][]byte {
	if len(in.Witness) > 0 {
		return append([][]byte(nil), in.Witness...)
	}
	d, _, _ := ref.Pushes(in.Script)
	return append([][]byte(nil), d...)
}

func setItems(in *ref.In, d [][]byte, wit bool) {
	in.Script, in.Witness = nil, nil
	if wit {
		in.Witness = d
		return
	}
	for _, x := range d {
		in.Script = append(in.Script, ref.Push(x)...)
	}
}

// attack makes a transaction nobody authorised out of what mallory knows.
func (g *gate) attack() []byte {
	c := g.r.C
	var t *ref.Tx
	if len(g.txs) == 0 {
		return nil
	}
	t = dup(g.txs[c.Choose(len(g.txs), "which-tx")])
	for n := 1 + c.Choose(3, "edits"); n > 0; n-- {
		i := c.Choose(len(t.Ins), "edit-input")
		in := &t.Ins[i]
		k := g.coins[outpoint(in.Hash, in.Index)]
		wit := len(in.Witness) > 0
		switch e := c.Choose(22, "edit"); e {
		case 0: // redirect an output
			o := c.Choose(len(t.Outs), "out")
			t.Outs[o].Script = ref.ScriptP2PKH(ref.Hash160(pubBytes(g.evil, true)))
			g.r.Fault("redirect-output")
		case 1:
			o := c.Choose(len(t.Outs), "out")
			t.Outs[o].Value ^= 1 << c.Choose(40, "bit")
			g.r.Fault("change-amount")
		case 2:
			sim.Pick(c, "field", func() { t.Lock ^= 1 << c.Choose(32, "bit") }, func() { t.Version ^= 1 << c.Choose(32, "bit") }, func() { in.Seq ^= 1 << c.Choose(32, "bit") })()
			g.r.Fault("change-field")
		case 3: // drop or add an output
			if c.Choose(2, "drop-out") == 0 && len(t.Outs) > 1 {
				o := c.Choose(len(t.Outs), "out")
				t.Outs = append(t.Outs[:o:o], t.Outs[o+1:]...)
			} else {
				t.Outs = append(t.Outs, ref.Out{Value: 1, Script: []byte{0x6a}})
			}
			g.r.Fault("outputs")
		case 4: // the same signatures for another coin
			o := g.list[c.Choose(len(g.list), "coin")]
			id, _ := hex.DecodeString(o.Txid)
			in.Hash, in.Index = rev(id), o.N
			g.r.Fault("other-coin")
		case 5: // another transaction's unlocking data
			o := g.txs[c.Choose(len(g.txs), "tx")]
			x := o.Ins[c.Choose(len(o.Ins), "in")]
			in.Script, in.Witness = x.Script, append([][]byte(nil), x.Witness...)
			g.r.Fault("replayed-unlocking")
		case 6: // an extra input
			o := g.list[c.Choose(len(g.list), "coin")]
			id, _ := hex.DecodeString(o.Txid)
			t.Ins = append(t.Ins, ref.In{Hash: rev(id), Index: o.N, Seq: 0xffffffff, Script: g.script(c.Choose(4, "n"))})
			g.r.Fault("extra-input")
		case 7: // hash type of a signature
			d := items(*in)
			for j, x := range d {
				if len(x) > 60 && len(x) < 75 {
					y := append([]byte(nil), x...)
					y[len(y)-1] = sim.Pick(c, "ht", byte(0), 1, 2, 3, 0x80, 0x81, 0x82, 0x83, 0x23, 0xff)
					d[j] = y
				}
			}
			setItems(in, d, wit)
			g.r.Fault("change-hash-type")
		case 8: // repeat, drop, swap or replace items
			d := items(*in)
			if len(d) == 0 {
				continue
			}
			a, b := c.Choose(len(d), "a"), c.Choose(len(d), "b")
			switch c.Choose(5, "shuffle") {
			case 0:
				d[a] = d[b]
			case 1:
				d = append(d[:a:a], d[a+1:]...)
			case 2:
				d[a], d[b] = d[b], d[a]
			case 3:
				d[a] = g.item()
			case 4:
				d = append(d[:a:a], append([][]byte{g.item()}, d[a:]...)...)
			}
			setItems(in, d, wit)
			g.r.Fault("shuffle-items")
		case 9: // only the committed script
			if k != nil && k.Redeem != nil {
				setItems(in, [][]byte{k.Redeem}, k.segwit() && c.Choose(2, "as-witness") == 0)
				g.r.Fault("script-only")
			}
		case 10: // mallory's own script in place of the committed one
			s := sim.Pick(c, "own-script", []byte{0x51}, ref.Multisig(1, pubBytes(g.evil, true)), []byte{0x75, 0x51}, []byte{})
			d := items(*in)
			if len(d) > 0 {
				d[len(d)-1] = s
			}
			setItems(in, d, wit)
			g.r.Fault("own-script")
		case 11: // an unlocking script that is a program
			in.Script = g.script(c.Choose(7, "n"))
			if c.OneIn(2, "drop-witness") {
				in.Witness = nil
			}
			g.r.Fault("program")
		case 12: // a program in front of what was there
			in.Script = append(g.script(1+c.Choose(3, "n")), in.Script...)
			g.r.Fault("program-before")
		case 13:
			in.Script = append(append([]byte(nil), in.Script...), g.script(1+c.Choose(3, "n"))...)
			g.r.Fault("program-after")
		case 14: // hide the locking script in a branch
			in.Script = append(append([]byte(nil), in.Script...), sim.Pick(c, "branch", []byte{0x51, 0x00, 0x63}, []byte{0x00, 0x63}, []byte{0x51, 0x51, 0x64}, []byte{0x51, 0x63, 0x51, 0x67})...)
			g.r.Fault("skip-branch")
		case 15: // signed by mallory instead
			if k == nil {
				continue
			}
			o := *k
			o.prv, o.Keys = nil, nil
			for range k.Keys {
				o.prv = append(o.prv, g.evil)
				o.Keys = append(o.Keys, pubBytes(g.evil, true))
			}
			if !o.multi() && c.Choose(2, "own-key") == 0 || o.multi() && c.Choose(2, "own-keys") == 0 {
				o.lock()
			}
			var sigs [][]byte
			for j := 0; j < o.M; j++ {
				sigs = append(sigs, o.refSign(t, i, j, k.HT))
			}
			if c.Choose(3, "true-key") == 0 {
				o.Keys = k.Keys
				o.Redeem = k.Redeem
			}
			o.unlock(in, sigs)
			g.r.Fault("own-signature")
		case 16: // witness data without their section, or the other way round
			d := items(*in)
			setItems(in, d, !wit)
			g.r.Fault("move-witness")
		case 17: // empty signatures
			d := items(*in)
			for j := range d {
				if len(d[j]) > 60 && len(d[j]) < 75 && c.Choose(2, "blank") == 0 {
					d[j] = nil
				}
			}
			setItems(in, d, wit)
			g.r.Fault("empty-signature")
		case 18: // damage a signature
			d := items(*in)
			if len(d) > 0 {
				j := c.Choose(len(d), "item")
				if len(d[j]) > 0 {
					d[j] = append([]byte(nil), d[j]...)
					d[j][c.Choose(len(d[j]), "at")] ^= 1 << c.Choose(8, "bit")
					setItems(in, d, wit)
					g.r.Fault("damage-item")
				}
			}
		case 19: // one key's signature for all
			d := items(*in)
			for j := 2; j < len(d)-1; j++ {
				d[j] = d[1]
			}
			setItems(in, d, wit)
			g.r.Fault("one-for-all")
		case 20: // signatures said in another encoding
			d := items(*in)
			for j := range d {
				if n := len(d[j]); n > 60 && n < 75 && d[j][0] == 0x30 && c.Choose(3, "odd") > 0 {
					d[j] = append(oddDER(c, d[j][:n-1]), d[j][n-1])
					g.r.Fault("odd-encoding")
				}
			}
			setItems(in, d, wit)
		case 21: // what no signature covers
			switch c.Choose(4, "addition") {
			case 0:
				in.Script = append(in.Script[:len(in.Script):len(in.Script)], ref.Push(g.item())...)
			case 1:
				in.Witness = append([][]byte{g.item()}, in.Witness...)
			case 2:
				if d := items(*in); len(d) > 2 && len(d[0]) == 0 {
					d[0] = []byte{0}
					setItems(in, d, wit)
				}
			case 3:
				in.Witness = append(in.Witness[:len(in.Witness):len(in.Witness)], g.item())
			}
			g.r.Fault("addition")
		}
	}
	raw := t.Wire()
	if c.OneIn(10, "flip-bytes") {
		raw[c.Choose(len(raw), "at")] ^= 1 << c.Choose(8, "bit")
		g.r.Fault("bit-flip")
	}
	return raw
}

func c14(r *core.R) {
	c := r.C
	g := &gate{r: r, b: newBus(r), coins: map[string]*coin{}, hon: map[string]bool{}}
	keys := drawKeys(c, 2+c.Choose(4, "keys"))
	g.evil, keys = keys[0], keys[1:]
	// the wallets' coins
	var mine [][]*coin
	for i := 1 + c.Choose(3, "payments"); i > 0; i-- {
		var l []*coin
		for j := 1 + c.Choose(3, "inputs"); j > 0; j-- {
			k := drawCoin(c, keys, ref.KP2PKH, ref.KP2SH, ref.KP2WPKH, ref.KP2WSH)
			g.add(k)
			l = append(l, k)
		}
		mine = append(mine, l)
	}
	// coins of shapes nobody signs for here: nested witness programs
	if c.Choose(2, "nested") == 1 {
		k := drawCoin(c, keys, ref.KP2WPKH, ref.KP2WSH)
		k.Redeem = k.Prev
		k.Prev = ref.ScriptP2SH(ref.Hash160(k.Redeem))
		k.Kind = ref.KP2SH
		g.add(k)
	}
	g.b.faults(sim.Pick(c, "fault-for", 0, 4*time.Second))
	g.node()
	for i, l := range mine {
		i, l := i, l
		r.Go("wallet", fmt.Sprintf("wallet%d", i), func() { g.wallet(i, l) })
	}
	left := 3 + c.Choose(8, "attacks")
	r.Go("mallory", "mallory", func() {
		sim.Await("something to start from", time.Now().Add(time.Minute), func() bool { return len(g.txs) > 0 || r.Failed() })
		for ; left > 0 && !r.Failed(); left-- {
			if raw := g.attack(); raw != nil {
				if g.hon[string(raw)] {
					continue
				}
				g.b.send("mallory", "node", "tx", raw)
			}
			if c.OneIn(4, "wait") {
				sim.Sleep(time.Second)
			}
		}
		left = 0
	})
	end := time.Now().Add(2 * time.Minute)
	r.At(40*time.Second, "settle", func() {})
	r.At(2*time.Minute, "limit", func() {})
	settle := time.Now().Add(40 * time.Second)
	r.Run(func() bool {
		return r.Failed() || !time.Now().Before(end) || left == 0 && g.left == 0 && !time.Now().Before(settle)
	})
	if !r.Failed() && (left > 0 || g.left > 0) {
		r.Fail("no-progress", "%d attacks left, %d checks under way", left, g.left)
	}
	r.NonTrivial = g.acc > 0 && g.ref_ > 0
	r.Note("accepted", g.acc)
	r.Note("refused", g.ref_)
}

func init() {
	core.Register(&core.Scenario{Prop: "C14", Name: "spend-gate", Fn: c14, Quick: 5000, Cfg: sim.Config{Preempt: true},
		Require: []string{"accepted", "refused", "altered-but-authorised", "redirect-output", "other-coin", "replayed-unlocking", "script-only", "own-script", "program", "skip-branch", "own-signature", "move-witness", "empty-signature", "one-for-all", "odd-encoding", "addition"},
		Rule:    "one run = 1-3 wallets' payments (1-3 inputs of every standard kind) and 3-10 transactions an attacker makes from what it saw on the network, checked by a node that lets in what the library verifies; non-trivial when at least one was let in and one refused"})
}
