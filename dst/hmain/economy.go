package hmain

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math"
	"math/big"
	"sort"
	"time"

	"github.com/keyfuse/tokucore/xcore"

	"vsim/core"
	"vsim/ref"
	"vsim/sim"
)

// ---------------------------------------------------------------- C21: a payment economy

const money = uint64(21e14)

// order is a payment as a wallet's user asks for it, sensible or not.
type order struct {
	coins     []*coin
	dests     []dest
	change    *dest
	fee       *uint64 // nil: the default of 1000
	max       *int64  // nil: the default of 1e8
	rate      int64
	lock      uint32
	data      [][]byte
	nokey     int    // the input whose key is missing, -1: none
	bad       string // a damaged coin: "txid", "script"
	layout    []int  // group of each destination relative to its coin
	main      bool
	nilChange bool
	twice     bool // a coin is there twice
	lie       bool // a coin does not hold what the order says
}

// expect is what the builder must answer: the unsigned transaction, or nil for
// an error.
func (o *order) expect() (*ref.Tx, string) {
	in, out := new(big.Int), new(big.Int)
	for _, k := range o.coins {
		in.Add(in, new(big.Int).SetUint64(k.Value))
		if k.Value > money {
			return nil, "a coin out of range"
		}
	}
	for _, d := range o.dests {
		out.Add(out, new(big.Int).SetUint64(d.Value))
		if d.Value > money {
			return nil, "an amount out of range"
		}
	}
	lim := new(big.Int).SetUint64(money)
	fee, max := uint64(1000), int64(1e8)
	if o.fee != nil {
		fee = *o.fee
	}
	if o.max != nil {
		max = *o.max
	}
	switch {
	case len(o.coins) == 0:
		return nil, "no coin"
	case len(o.dests) == 0:
		return nil, "no destination"
	case o.bad != "":
		return nil, "a damaged " + o.bad
	case o.twice:
		return nil, "the same coin twice"
	case in.Cmp(lim) > 0 || out.Cmp(lim) > 0:
		return nil, "a sum out of range"
	case in.Cmp(out) < 0:
		return nil, "more spent than owned"
	case o.nokey >= 0:
		return nil, "a missing key"
	case max < 0:
		return nil, "a negative fee limit"
	}
	left := new(big.Int).Sub(in, out).Uint64()
	if o.rate <= 0 {
		switch {
		case fee > uint64(max):
			return nil, "a fee above the limit"
		case fee > left:
			return nil, "a fee that is not there"
		case left > fee && o.change == nil:
			return nil, "no change address"
		}
	}
	t := &ref.Tx{Version: 1, Lock: o.lock}
	for _, k := range o.coins {
		id, _ := hex.DecodeString(k.Txid)
		t.Ins = append(t.Ins, ref.In{Hash: rev(id), Index: k.N, Seq: 0xffffffff})
	}
	for _, d := range o.dests {
		t.Outs = append(t.Outs, ref.Out{Value: d.Value, Script: d.script()})
	}
	if left > fee && o.change != nil {
		t.Outs = append(t.Outs, ref.Out{Value: left - fee, Script: o.change.script()})
	}
	for _, d := range o.data {
		t.Outs = append(t.Outs, ref.Out{Script: append([]byte{0x6a}, ref.Push(d)...)})
	}
	return t, ""
}

// estimate is the fee the library's own estimate gives at the order's rate; how
// near the real size it is is not judged here.
func (o *order) estimate() (uint64, bool) {
	var ins []*xcore.TxIn
	for _, k := range o.coins {
		id, _ := hex.DecodeString(k.Txid)
		in, err := xcore.NewTxIn(rev(id), k.N, k.Value, k.Prev, k.Redeem)
		if err != nil {
			return 0, false
		}
		ins = append(ins, in)
	}
	var outs []*xcore.TxOut
	for _, d := range o.dests {
		outs = append(outs, xcore.NewTxOut(d.Value, d.script()))
	}
	size := xcore.EstimateSize(ins, outs)
	for _, d := range o.data {
		size += int64(len(d))
	}
	fee := xcore.EstimateFees(size, o.rate)
	if fee < 0 { // beyond every limit
		return math.MaxUint64, true
	}
	return uint64(fee), true
}

// builder writes the order down in the library's terms.
func (o *order) builder() (*xcore.TransactionBuilder, error) {
	b := xcore.NewTransactionBuilder()
	if o.fee != nil {
		b.SendFees(*o.fee)
	}
	if o.max != nil {
		b.SetMaxFees(*o.max)
	}
	if o.rate != 0 {
		b.SetRelayFeePerKb(o.rate)
	}
	to := func(d dest) error {
		if o.bad == "destination without an address" {
			b.To(nil, d.Value)
			return nil
		}
		a, err := d.addr(o.main)
		if err == nil {
			b.To(a, d.Value)
		}
		return err
	}
	di := 0
	for i, k := range o.coins {
		id, script := k.Txid, hex.EncodeToString(k.Prev)
		if i == len(o.coins)-1 {
			switch o.bad {
			case "txid":
				id = id[:len(id)-1] + "z"
			case "script":
				script = script[:len(script)-1]
			case "txid, one byte short":
				id = id[2:]
			case "txid, one byte long":
				id = "00" + id
			case "txid, empty":
				id = ""
			}
		}
		b.AddCoin(xcore.NewCoinBuilder().AddOutput(id, k.N, k.Value, script).ToCoins()[0])
		if k.Redeem != nil {
			b.SetRedeemScript(k.Redeem)
		}
		if i != o.nokey {
			b.AddKeys(libKeys(k.prv[:k.M])...)
		}
		if !k.comp() {
			b.SetPubKeyUncompressed()
		}
		if di < len(o.dests) && i < len(o.layout) && o.layout[i] == 0 {
			if err := to(o.dests[di]); err != nil {
				return nil, err
			}
			di++
		}
		b.Then()
		if i < len(o.layout) && o.layout[i] == 2 {
			b.Then() // an empty group
		}
	}
	for ; di < len(o.dests); di++ {
		if err := to(o.dests[di]); err != nil {
			return nil, err
		}
		b.Then()
	}
	if o.change != nil {
		a, err := o.change.addr(o.main)
		if err != nil {
			return nil, err
		}
		b.SetChange(a)
	} else if o.nilChange {
		b.SetChange(nil)
	}
	for _, d := range o.data {
		b.AddPushData(d)
	}
	return b.SetLockTime(o.lock).Sign(), nil
}

type utxo struct {
	txid string
	n    uint32
}

// ledger is the network's view: what exists and who may spend it.
type ledger struct {
	outs    map[utxo]ref.Out
	supply  uint64
	fees    uint64
	applied map[string]bool
}

// apply takes a transaction in, or says why not.
func (l *ledger) apply(raw []byte) string {
	t, n, err := ref.ParseTx(raw, witForm(raw))
	if err != nil || n != len(raw) {
		return "malformed"
	}
	id := hex.EncodeToString(rev(t.TxID()))
	if l.applied[id] {
		return "known"
	}
	var in, out uint64
	for i, x := range t.Ins {
		u, ok := l.outs[utxo{hex.EncodeToString(rev(x.Hash)), x.Index}]
		if !ok {
			return "spent"
		}
		if !t.Standard(i, u.Script, u.Value) {
			return fmt.Sprintf("input %d not signed as it must be", i)
		}
		in += u.Value
	}
	for _, x := range t.Outs {
		if x.Value > money {
			return "amount out of range"
		}
		out += x.Value
	}
	if out > in {
		return "creates value"
	}
	for _, x := range t.Ins {
		delete(l.outs, utxo{hex.EncodeToString(rev(x.Hash)), x.Index})
	}
	for i, x := range t.Outs {
		if x.Value > 0 {
			l.outs[utxo{id, uint32(i)}] = x
		}
	}
	l.fees += in - out
	l.applied[id] = true
	return ""
}

type economy struct {
	r       *core.R
	b       *bus
	l       *ledger
	main    bool
	wallets []*ewallet
	built   int
	refused int
}

type ewallet struct {
	name string
	keys []*big.Int
	pots []*coin           // its locking scripts and how to spend them
	disk map[string][]byte // its unconfirmed payments
	paid uint64            // fees of its confirmed payments
}

func (w *ewallet) own(script []byte) *coin {
	for _, p := range w.pots {
		if bytes.Equal(p.Prev, script) {
			return p
		}
	}
	return nil
}

// coins the wallet can spend, in a fixed order.
func (e *economy) coins(w *ewallet) (o []*coin) {
	busy := map[utxo]bool{}
	for _, raw := range w.disk {
		t, _, _ := ref.ParseTx(raw, witForm(raw))
		for _, x := range t.Ins {
			busy[utxo{hex.EncodeToString(rev(x.Hash)), x.Index}] = true
		}
	}
	for u, x := range e.l.outs {
		if p := w.own(x.Script); p != nil && !busy[u] {
			k := *p
			k.Txid, k.N, k.Value = u.txid, u.n, x.Value
			o = append(o, &k)
		}
	}
	sort.Slice(o, func(i, j int) bool { return o[i].Txid < o[j].Txid || o[i].Txid == o[j].Txid && o[i].N < o[j].N })
	return
}

func destOf(script []byte, value uint64) dest {
	k, hash := ref.Classify(script)
	return dest{Kind: k, Hash: hash, Value: value}
}

func (e *economy) drawOrder(c *sim.Chooser, w *ewallet, all []*coin) *order {
	o := &order{main: e.main, nokey: -1, lock: sim.Pick(c, "lock", uint32(0), 500000, 0xffffffff)}
	o.coins = all
	if len(all) > 1 && c.OneIn(2, "some") {
		o.coins = all[:1+c.Choose(len(all), "coins")]
	}
	var in uint64
	for _, k := range o.coins {
		in += k.Value
	}
	left := in
	fee := sim.Pick(c, "fee", uint64(1000), 0, 1, 700, 50000, 1e8, 1e8+1)
	if fee > left && !c.OneIn(6, "poor") {
		fee = left
	}
	if fee != 1000 || c.OneIn(2, "explicit") {
		o.fee = &fee
	}
	if left >= fee {
		left -= fee
	}
	for i := 1 + c.Choose(3, "dests"); i > 0; i-- {
		x := e.wallets[c.Choose(len(e.wallets), "payee")]
		v := left
		if i > 1 || c.Choose(3, "all") > 0 {
			v = c.U64("amount") % (left + 1)
		}
		left -= v
		o.dests = append(o.dests, destOf(x.pots[c.Choose(len(x.pots), "pot")].Prev, v))
		o.layout = append(o.layout, c.Choose(3, "layout"))
	}
	if left > 0 || c.OneIn(3, "change-anyway") {
		d := destOf(w.pots[c.Choose(len(w.pots), "change-pot")].Prev, 0)
		o.change = &d
	}
	for i := c.Choose(4, "data") - 1; i > 0; i-- {
		d := c.Bytes(sim.Pick(c, "data-len", 20, 2, 75, 76, 80, 0, 1), "data")
		if len(d) == 1 {
			d[0] = 0x20 | d[0]&0x5f // not one that has an opcode of its own
		}
		o.data = append(o.data, d)
	}
	if c.OneIn(6, "rate") {
		o.rate = sim.Pick(c, "rate", int64(1000), 1, 20000, 1<<40, -5)
	}
	if c.OneIn(6, "max") {
		m := sim.Pick(c, "max", int64(1e8), 0, 999, 1000, 1<<62, -1)
		o.max = &m
	}
	// something wrong with it
	if c.OneIn(4, "wrong") {
		i := c.Choose(len(o.dests), "which")
		huge := sim.Pick(c, "huge", uint64(1<<63), 1<<64-1, 1<<63+1, 1<<64-1000, money+1, 1<<62, in+1, money)
		switch c.Choose(11, "wrong-what") {
		case 0:
			o.dests[i].Value = huge
		case 1:
			f := huge
			o.fee = &f
		case 2: // a coin of the same script that claims more than there is
			k := *o.coins[0]
			k.Value = huge
			o.lie = true
			o.coins = append([]*coin{&k}, o.coins[1:]...)
		case 3:
			o.change, o.nilChange = nil, c.OneIn(2, "nil-change")
		case 9, 10:
			if n := len(o.coins); n > 0 {
				at := c.Choose(n+1, "at")
				k := o.coins[c.Choose(n, "coin")]
				o.coins = append(append(append([]*coin{}, o.coins[:at]...), k), o.coins[at:]...)
				o.twice = true
				if c.OneIn(2, "spend-it") { // what it would bring
					o.dests[i].Value += k.Value
				}
			}
		case 4:
			o.coins = nil
		case 5:
			o.dests, o.layout = nil, nil
		case 6:
			if len(o.coins) > 0 {
				o.nokey = c.Choose(len(o.coins), "input")
			}
		case 7:
			o.bad = sim.Pick(c, "bad", "txid", "script", "txid, one byte short", "txid, one byte long", "txid, empty", "destination without an address")
		case 8: // two destinations that only wrap around to what is there
			o.dests = append(o.dests, o.dests[i])
			o.dests[i].Value, o.dests[len(o.dests)-1].Value = huge, -huge+o.dests[i].Value
		}
	}
	return o
}

// build asks the library and judges its answer. It returns the raw payment.
func (e *economy) build(o *order, w *ewallet) []byte {
	c := e.r.C
	bl, err := o.builder()
	if err != nil {
		e.r.Fail("failed", "%v", err)
		return nil
	}
	raw := e.judge(o, bl)
	// the user changes their mind and asks the same builder again
	for i := c.Choose(4, "revisions") - 1; i > 0 && !e.r.Failed(); i-- {
		switch c.Choose(7, "revise") {
		case 0:
			f := sim.Pick(c, "fee", uint64(1000), 0, 1, 700, 50000)
			o.fee = &f
			bl.SendFees(f)
		case 1:
			o.rate = sim.Pick(c, "rate", int64(0), 1000, 0, 20000)
			bl.SetRelayFeePerKb(o.rate)
		case 2:
			m := sim.Pick(c, "max", int64(1e8), 999, 1000, 700)
			o.max = &m
			bl.SetMaxFees(m)
		case 3:
			o.lock = uint32(c.U64("lock"))
			bl.SetLockTime(o.lock)
		case 4:
			d := destOf(w.pots[c.Choose(len(w.pots), "change-pot")].Prev, 0)
			a, err := d.addr(o.main)
			if err != nil {
				e.r.Fail("failed", "%v", err)
				return nil
			}
			o.change = &d
			bl.SetChange(a)
		case 5:
			d := c.Bytes(20, "data")
			o.data = append(o.data, d)
			bl.AddPushData(d)
		case 6:
			d := destOf(w.pots[c.Choose(len(w.pots), "pot")].Prev, c.U64("amount")%2000)
			a, err := d.addr(o.main)
			if err != nil {
				e.r.Fail("failed", "%v", err)
				return nil
			}
			o.dests = append(o.dests, d)
			bl.To(a, d.Value).Then()
		}
		e.r.Probe("revised")
		raw = e.judge(o, bl)
	}
	return raw
}

func (e *economy) judge(o *order, bl *xcore.TransactionBuilder) []byte {
	r := e.r
	p := o
	if o.rate > 0 {
		if fee, ok := o.estimate(); ok { // the rate decides, and nothing else
			q := *o
			q.rate, q.fee = 0, &fee
			p = &q
		}
	}
	want, why := p.expect()
	tx, err := bl.BuildTransaction()
	if want == nil {
		if err == nil {
			r.Fail("accepted", "an order with %s was built: %x", why, cut(tx.SerializeNoWitness()))
		}
		e.refused++
		return nil
	}
	if err != nil {
		r.Fail("refused", "a payment of %v (fee %v, rate %d, limit %v, change %v) was refused: %v", o.dests, o.fee, o.rate, o.max, o.change, err)
		return nil
	}
	e.built++
	raw := encode(tx)
	t, _, perr := ref.ParseTx(raw, witForm(raw))
	if perr != nil {
		r.Fail("payment", "%x: %v", cut(raw), perr)
		return nil
	}
	u := dup(t)
	for i := range u.Ins {
		u.Ins[i].Script, u.Ins[i].Witness = nil, nil
	}
	if o.rate > 0 {
		e.r.Probe("fee-rate")
	}
	if !bytes.Equal(u.Bytes(false), want.Bytes(false)) {
		r.Fail("payment", "it pays %x, ordered was %x", u.Bytes(false), want.Bytes(false))
		return nil
	}
	var kept int64
	for _, k := range o.coins {
		kept += int64(k.Value)
	}
	for _, x := range u.Outs {
		kept -= int64(x.Value)
	}
	if fees := int64(tx.Fees()); fees != kept {
		r.Fail("fees", "it reports %d in fees and pays %d", fees, kept)
		return nil
	}
	if s := sizes(tx, t); s != "" {
		r.Fail("fees", "%s", s)
		return nil
	}
	if r.C.OneIn(4, "again") {
		if again, err := bl.BuildTransaction(); err != nil || !bytes.Equal(encode(again), raw) {
			r.Fail("payment", "building it again gives something else (%v)", err)
		}
	}
	return raw
}

func (w *ewallet) boot(e *economy, stop *bool) {
	c := e.r.C
	e.r.Go(w.name, w.name, func() {
		for !*stop && !e.r.Failed() {
			// forget what is confirmed or lost its race
			for _, id := range sortedKeys(w.disk) {
				t, _, _ := ref.ParseTx(w.disk[id], witForm(w.disk[id]))
				gone := e.l.applied[id]
				for _, x := range t.Ins {
					if _, ok := e.l.outs[utxo{hex.EncodeToString(rev(x.Hash)), x.Index}]; !ok {
						gone = true
					}
				}
				if gone {
					delete(w.disk, id)
				} else {
					e.b.sendRaw("chain", pkt{w.name, "tx", w.disk[id]})
				}
			}
			if !e.b.quiet() {
				if all := e.coins(w); len(all) > 0 && c.Choose(3, "pay") > 0 {
					o := e.drawOrder(c, w, all)
					if raw := e.build(o, w); raw != nil && !e.r.Failed() && !o.lie {
						// on disk before it leaves
						w.disk[txidOf(raw)] = raw
						e.b.sendRaw("chain", pkt{w.name, "tx", raw})
					}
				}
			}
			sim.Sleep(time.Duration(100+c.Choose(500, "pause")) * time.Millisecond)
		}
	})
}

func sortedKeys(m map[string][]byte) (o []string) {
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return
}

func c21(r *core.R) {
	c := r.C
	e := &economy{r: r, b: newBus(r), l: &ledger{outs: map[utxo]ref.Out{}, applied: map[string]bool{}}, main: c.OneIn(2, "net")}
	e.b.faults(1500 * time.Millisecond)
	n := 2 + c.Choose(2, "wallets")
	keys := drawKeys(c, 2*n)
	for i := 0; i < n; i++ {
		w := &ewallet{name: fmt.Sprintf("w%d", i), keys: keys[2*i : 2*i+2], disk: map[string][]byte{}}
		for _, kind := range []int{ref.KP2PKH, ref.KP2WPKH, ref.KP2SH, ref.KP2WSH} {
			p := &coin{Kind: kind, M: 1, HT: 1}
			m := 1
			if kind == ref.KP2SH || kind == ref.KP2WSH {
				m = 1 + c.Choose(2, "keys")
				p.M = 1 + c.Choose(m, "m")
			}
			for _, d := range w.keys[:m] {
				p.prv = append(p.prv, d)
				p.Keys = append(p.Keys, pubBytes(d, true))
			}
			p.lock()
			w.pots = append(w.pots, p)
		}
		e.wallets = append(e.wallets, w)
		for g := c.Choose(3, "coins"); g >= 0; g-- {
			u := utxo{hex.EncodeToString(c.Bytes(32, "txid")), uint32(c.Choose(3, "n"))}
			v := drawValue(c, "value") + 2
			e.l.outs[u] = ref.Out{Value: v, Script: w.pots[c.Choose(4, "pot")].Prev}
			e.l.supply += v
		}
	}
	stop := false
	e.b.owner["chain"], e.b.up["chain"] = "chain", true
	r.Go("chain", "chain", func() {
		for !stop && !r.Failed() {
			p, ok := e.b.recv("chain", time.Second)
			if !ok {
				continue
			}
			switch s := e.l.apply(p.Body); s {
			case "":
				r.Probe("confirmed")
			case "known", "spent":
				r.Probe("duplicate-" + s)
			default:
				r.Fail("payment", "the network refused a payment: %s: %x", s, cut(p.Body))
			}
			var sum uint64
			for _, x := range e.l.outs {
				sum += x.Value
			}
			if sum+e.l.fees != e.l.supply {
				r.Fail("conservation", "%d in circulation and %d in fees, %d existed", sum, e.l.fees, e.l.supply)
			}
		}
	})
	for _, w := range e.wallets {
		w := w
		e.b.owner[w.name], e.b.up[w.name] = w.name, true
		w.boot(e, &stop)
		if k := sim.Pick(c, "crashes", 0, 0, 1); k > 0 {
			e.b.crasher(w.name, []string{w.name}, k, func() { w.boot(e, &stop) })
		}
	}
	r.Run(func() bool {
		if r.Failed() {
			return true
		}
		if !e.b.quiet() {
			return false
		}
		for _, w := range e.wallets {
			if len(w.disk) > 0 {
				if time.Since(e.b.calm) > time.Minute {
					r.Fail("stuck", "a minute after the last fault %s still has unconfirmed payments", w.name)
				}
				return r.Failed()
			}
		}
		stop = true
		return true
	})
	if r.Failed() {
		return
	}
	// nothing is stuck: every wallet can sweep all it owns
	var swept uint64
	for _, w := range e.wallets {
		all := e.coins(w)
		if len(all) == 0 {
			continue
		}
		zero := uint64(0)
		o := &order{main: e.main, nokey: -1, coins: all, fee: &zero}
		var in uint64
		for _, k := range all {
			in += k.Value
		}
		if in > money {
			continue
		}
		o.dests = []dest{destOf(w.pots[0].Prev, in)}
		bl, err := o.builder()
		if err != nil {
			r.Fail("failed", "%v", err)
			return
		}
		raw := e.judge(o, bl)
		if r.Failed() {
			return
		}
		if s := e.l.apply(raw); s != "" {
			r.Fail("stuck", "%s cannot spend what it owns: %s", w.name, s)
			return
		}
		swept += in
	}
	if swept+e.l.fees != e.l.supply {
		r.Fail("conservation", "%d could be swept and %d went in fees, %d existed", swept, e.l.fees, e.l.supply)
	}
	if e.refused > 0 {
		r.Probe("refused")
	}
	r.NonTrivial = e.built > 0
	r.Note("built", e.built)
	r.Note("refused", e.refused)
}

func init() {
	core.Register(&core.Scenario{Prop: "C21", Name: "economy", Fn: c21, Quick: 8000, Cfg: sim.Config{Preempt: true},
		Require: []string{"confirmed", "refused", "duplicate-known", "crash", "net-drop", "fee-rate", "revised"},
		Rule:    "one run = 2-3 wallet processes that pay each other out of what earlier payments left them, sensibly or not, over a faulty network with crashes, against a ledger; non-trivial when a payment was built and judged"})
}
