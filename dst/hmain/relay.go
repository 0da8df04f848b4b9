package hmain

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/keyfuse/tokucore/xcore"

	"vsim/core"
	"vsim/ref"
	"vsim/sim"
)

// ---------------------------------------------------------------- C20: stored and relayed transactions

// held is a transaction object and what it holds according to the model: the
// last thing that was decoded into it without an error.
type held struct {
	tx *xcore.Transaction
	m  *ref.Tx
}

func newHeld() *held { return &held{xcore.NewTransaction(), &ref.Tx{Version: 1}} }

// is compares an object with the model of its contents.
func (x *held) is() string {
	m := x.m
	if b := x.tx.SerializeNoWitness(); !bytes.Equal(b, m.Bytes(false)) {
		return fmt.Sprintf("its legacy form is %x, not %x", cut(b), cut(m.Bytes(false)))
	}
	if b := x.tx.Serialize(); !bytes.Equal(b, m.Wire()) {
		return fmt.Sprintf("its full form is %x, not %x", cut(b), cut(m.Wire()))
	}
	if x.tx.HasWitness() != m.HasWitness() {
		return fmt.Sprintf("it has a witness: %v", x.tx.HasWitness())
	}
	if id := hex.EncodeToString(rev(m.TxID())); x.tx.ID() != id || h(x.tx.Hash()) != h(m.TxID()) {
		return fmt.Sprintf("its id is %s, not %s", x.tx.ID(), id)
	}
	if id := hex.EncodeToString(rev(ref.DSha(m.Wire()))); x.tx.WitnessID() != id {
		return fmt.Sprintf("its witness id is %s, not %s", x.tx.WitnessID(), id)
	}
	return sizes(x.tx, m)
}

// sizes compares the sizes a transaction reports with its encodings (BIP141).
func sizes(tx *xcore.Transaction, m *ref.Tx) string {
	base, all := len(m.Bytes(false)), len(m.Wire())
	for _, x := range []struct {
		what      string
		got, want int
	}{
		{"base size", tx.BaseSize(), base},
		{"witness size", tx.WitnessSize(), all - base},
		{"size", tx.Size(), all},
		{"weight", tx.Weight(), 3*base + all},
		{"virtual size", tx.Vsize(), (3*base + all + 3) / 4},
	} {
		if x.got != x.want {
			return fmt.Sprintf("its %s is %d, not %d", x.what, x.got, x.want)
		}
	}
	return ""
}

func cut(b []byte) []byte {
	if len(b) > 120 {
		return append(append([]byte{}, b[:60]...), b[len(b)-60:]...)
	}
	return b
}

// drawTx draws a transaction nobody needs to be able to spend.
func drawTx(c *sim.Chooser) *ref.Tx {
	t := &ref.Tx{Version: sim.Pick(c, "version", uint32(1), 2, 0, 0x7fffffff, 0xffffffff), Lock: sim.Pick(c, "lock", uint32(0), 1, 499999999, 500000000, 0xffffffff)}
	size := func(what string) int {
		switch c.Choose(9, what) {
		case 0, 1, 2:
			return c.Choose(80, what+"-n")
		case 3:
			return sim.Pick(c, what+"-n", 252, 253, 254, 255, 256, 257)
		case 4:
			return 0
		case 5:
			if c.OneIn(4, what+"-big") {
				return sim.Pick(c, what+"-n", 65534, 65535, 65536, 70000)
			}
			return sim.Pick(c, what+"-n", 520, 521, 3000)
		}
		return 1 + c.Choose(40, what+"-n")
	}
	fill := func(n int, what string) []byte {
		if n == 0 {
			return nil
		}
		seed := c.Bytes(8, what)
		return pattern(seed, n)
	}
	n := sim.Pick(c, "ins", 1, 1, 2, 3, 5, 252, 253, 300)
	if n > 5 && !c.OneIn(5, "many") {
		n = 2
	}
	wit := c.OneIn(2, "segwit")
	for i := 0; i < n; i++ {
		in := ref.In{Hash: fill(32, "hash"), Index: sim.Pick(c, "n", uint32(0), 1, 0xffffffff), Seq: sim.Pick(c, "seq", uint32(0xffffffff), 0, 0xfffffffe, 1)}
		if n > 5 {
			in.Script = fill(c.Choose(3, "script"), "script")
		} else if wit && c.Choose(3, "wit") > 0 {
			k := sim.Pick(c, "items", 1, 2, 0, 3, 252, 253)
			for j := 0; j < k; j++ {
				l := 1
				if k < 5 {
					l = size("item")
				}
				in.Witness = append(in.Witness, fill(l, "item"))
			}
			if c.OneIn(4, "nested") {
				in.Script = fill(size("script"), "script")
			}
		} else {
			in.Script = fill(size("script"), "script")
		}
		t.Ins = append(t.Ins, in)
	}
	for i := sim.Pick(c, "outs", 1, 2, 3, 0, 5, 253); i > 0; i-- {
		l := 1
		if i < 6 {
			l = size("lock")
		}
		t.Outs = append(t.Outs, ref.Out{Value: sim.Pick(c, "value", uint64(0), 1, 5000000000, 2100000000000000, 0xffffffff, 1<<63, 1<<64-1), Script: fill(l, "lock")})
	}
	return t
}

func pattern(seed []byte, n int) []byte {
	b := make([]byte, 0, n+32)
	for i := 0; len(b) < n; i++ {
		b = append(b, ref.Sha256(append(seed, byte(i), byte(i>>8)))...)
	}
	return b[:n]
}

// places are where the counts and lengths of an encoded transaction stand.
func places(b []byte) []int {
	t, _, err := ref.ParseTx(b, witForm(b))
	if err != nil {
		return []int{4, 6, 4 + 1 + 36, 6 + 1 + 36}
	}
	at := 4
	if witForm(b) {
		at = 6
	}
	var o []int
	count := func(n int) {
		o = append(o, at)
		at += len(ref.VarInt(uint64(n)))
	}
	count(len(t.Ins))
	for _, x := range t.Ins {
		at += 36
		count(len(x.Script))
		at += len(x.Script) + 4
	}
	count(len(t.Outs))
	for i := 0; i < 3; i++ { // the rarest place, and the first that comes after all inputs
		o = append(o, o[len(o)-1])
	}
	for _, x := range t.Outs {
		at += 8
		count(len(x.Script))
		at += len(x.Script)
	}
	if witForm(b) {
		for _, x := range t.Ins {
			count(len(x.Witness))
			for _, w := range x.Witness {
				count(len(w))
				at += len(w)
			}
		}
	}
	return o
}

// mangle damages an encoded transaction.
func mangle(r *core.R, b []byte, other []byte) []byte {
	c := r.C
	b = append([]byte(nil), b...)
	if len(b) == 0 {
		return b
	}
	at := c.Choose(len(b), "at")
	if c.OneIn(2, "head") && len(b) > 60 {
		at = c.Choose(60, "at-head")
	}
	switch c.Choose(9, "mangle") {
	case 0:
		r.Fault("bit-flip")
		b[at] ^= 1 << uint(c.Choose(8, "bit"))
	case 1:
		r.Fault("torn")
		b = b[:at]
	case 2, 3: // a count or length nobody could mean
		r.Fault("hostile-count")
		n := ref.VarInt(sim.Pick(c, "count", uint64(1<<64-1), 1<<63, 1<<63-1, 1<<62, 1<<32, 1<<32-1, 1<<31, 1<<25, 1<<24, 1<<23, 70000, 253, uint64(len(b)-at), uint64(len(b)-at)+1))
		if c.OneIn(2, "known-place") {
			ps := places(b)
			at = ps[c.Choose(len(ps), "place")] % len(b)
		}
		b = append(append(append([]byte{}, b[:at]...), n...), b[at+1:]...)
	case 4:
		r.Fault("spliced")
		if at < len(other) {
			b = append(b[:at], other[at:]...)
		}
	case 5:
		r.Fault("junk-appended")
		b = append(b, c.Bytes(1+c.Choose(9, "n"), "junk")...)
	case 6:
		r.Fault("byte-lost")
		b = append(b[:at], b[at+1:]...)
	case 7: // the marker and flag, or what is read as them
		r.Fault("marker")
		if len(b) > 6 {
			switch c.Choose(3, "marker") {
			case 0:
				b[5] = byte(c.Choose(256, "flag"))
			case 1:
				b = append(append(append([]byte{}, b[:4]...), 0, 1), b[4:]...)
			case 2:
				b = append(append([]byte{}, b[:4]...), b[6:]...)
			}
		}
	case 8:
		r.Fault("misdirected-write")
		for i := 0; i < 8 && at+i < len(b); i++ {
			if at+i < len(other) {
				b[at+i] = other[at+i]
			}
		}
	}
	return b
}

type relay struct {
	r    *core.R
	seen int
	bad  [][]byte // what was refused
	buf  []byte   // the node reads into one buffer again and again
}

// decode reads bytes into an object, in one of the two forms, and judges what
// became of the object.
func (y *relay) decode(x *held, raw []byte, wit bool) bool {
	r := y.r
	keep := append([]byte(nil), raw...)
	want, _, werr := ref.ParseTx(keep, wit)
	if werr != nil && len(y.bad) < 30 {
		y.bad = append(y.bad, keep)
	}
	var err error
	reused := r.C.OneIn(3, "one-buffer")
	if reused {
		raw = append(y.buf[:0], raw...)
		y.buf = nil // in use: another connection reads into one of its own
	}
	if wit {
		err = x.tx.Deserialize(raw)
	} else {
		err = x.tx.DeserializeNoWitness(raw)
	}
	y.seen++
	if !bytes.Equal(keep, raw) {
		r.Fail("input-changed", "decoding changed the bytes that were decoded")
		return false
	}
	if (err == nil) != (werr == nil) {
		r.Fail("decode", "%x (witness form: %v): the decoder says %v, the format says %v", cut(raw), wit, err, werr)
		return false
	}
	if reused { // the next message arrives in the same place
		for i := range raw {
			raw[i] = 0xee
		}
		y.buf, raw = raw, keep
		r.Probe("buffer-reused")
	}
	if err == nil {
		x.m = want
	}
	if s := x.is(); s != "" {
		r.Fail("contents", "after decoding %x (witness form: %v, error %v): %s", cut(raw), wit, err, s)
		return false
	}
	return err == nil
}

func witForm(raw []byte) bool { return len(raw) > 5 && raw[4] == 0 && raw[5] == 1 }

func c20(r *core.R) {
	c := r.C
	y := &relay{r: r}
	b := newBus(r)
	b.faults(3 * time.Second)
	d := newDisk(r)
	d.sect = sim.Pick(c, "sector", 64, 512, 4096, 9)
	// the transactions: drawn, or made by a wallet
	want := map[string][]byte{} // name -> wire form
	var order []string
	nt := 1 + c.Choose(3, "txs")
	for i := 0; i < nt; i++ {
		name := fmt.Sprintf("tx%d", i)
		if c.OneIn(3, "wallet") {
			ks := drawKeys(c, 1+c.Choose(3, "keys"))
			var coins []*coin
			for k := 1 + c.Choose(3, "coins"); k > 0; k-- {
				coins = append(coins, drawCoin(c, ks, ref.KP2PKH, ref.KP2WPKH, ref.KP2SH, ref.KP2WSH))
			}
			p := drawPay(c, coins)
			r.Go("factory", "factory"+name, func() {
				bl, err := p.builder(func(i int, b *xcore.TransactionBuilder) { b.AddKeys(libKeys(coins[i].prv[:coins[i].M])...) })
				if err != nil {
					r.Fail("failed", "wallet: %v", err)
					return
				}
				tx, err := bl.Sign().BuildTransaction()
				if err != nil {
					r.Fail("failed", "wallet: %v", err)
					return
				}
				raw := encode(tx)
				if s := p.judge(raw); s != "" {
					r.Fail("contents", "the payment %s", s)
					return
				}
				if t, _, _ := ref.ParseTx(raw, witForm(raw)); tx.ID() != hex.EncodeToString(rev(t.TxID())) || h(tx.SerializeNoWitness()) != h(t.Bytes(false)) || h(tx.Serialize()) != h(t.Wire()) {
					r.Fail("contents", "the payment has the id %s and forms %x %x", tx.ID(), cut(tx.SerializeNoWitness()), cut(tx.Serialize()))
					return
				}
				r.Probe("wallet-made")
				want[name] = raw
			})
		} else {
			t := drawTx(c)
			want[name] = t.Wire()
			if len(t.Ins) > 5 || len(t.Wire()) > 60000 {
				r.Probe("large")
			}
		}
		order = append(order, name)
	}
	nodes := 2 + c.Choose(2, "nodes")
	box := func(i int) string { return fmt.Sprintf("n%d", i) }
	b.tamper = func(to string, p *pkt) {
		if !b.quiet() && c.OneIn(4, "damage") {
			p.Body = mangle(r, p.Body, want[order[c.Choose(len(order), "other")]])
			p.From = "damaged"
		}
	}
	stop := false
	have := make([]map[string]bool, nodes)
	boots := make([]func(), nodes)
	for i := 0; i < nodes; i++ {
		i := i
		b.owner[box(i)], b.up[box(i)] = box(i), true
		have[i] = map[string]bool{}
		boots[i] = func() {
			have[i] = map[string]bool{}
			pool := newHeld() // the node decodes into one object again and again
			judge := func(name string, raw []byte, honest bool) {
				x := pool
				if c.OneIn(3, "fresh") {
					x = newHeld()
				}
				wit := witForm(raw)
				if !honest && c.OneIn(3, "other-form") {
					wit = !wit
				}
				if y.decode(x, raw, wit) && wit == witForm(raw) {
					if bytes.Equal(raw, want[name]) {
						out := encode(x.tx)
						if !bytes.Equal(out, raw) {
							r.Fail("contents", "%s was received as %x and would be relayed as %x", name, cut(raw), cut(out))
							return
						}
						if c.OneIn(3, "print") {
							if s := x.tx.ToString(); !strings.Contains(s, hex.EncodeToString(rev(x.m.Ins[0].Hash))) {
								r.Fail("contents", "printed without its first input: %s", trunc(s))
							}
							if s := x.is(); s != "" {
								r.Fail("contents", "after printing: %s", s)
							}
						}
						have[i][name] = true
						d.write(box(i)+name, out)
						if nx := (i + 1) % nodes; nx != 0 {
							b.sendRaw(box(nx), pkt{box(i), name, out})
						}
					}
				}
				// every shorter form is an error, and leaves the object alone
				if r.Failed() || !c.OneIn(3, "prefixes") {
					return
				}
				n, step := 0, 1+len(raw)/40
				if len(raw) > 5000 {
					return
				}
				for k := c.Choose(step, "first"); k < len(raw) && !r.Failed(); k += step {
					if t, _, err := ref.ParseTx(raw[:k], wit); err == nil && t != nil {
						continue // only inside junk behind the transaction
					}
					y.decode(x, raw[:k:k], wit)
					n++
				}
				r.Probe("prefixes")
			}
			r.Go(box(i), box(i), func() {
				for _, n := range order {
					if f, ok := d.read(box(i) + n); ok {
						judge(n, f, bytes.Equal(f, want[n]))
						if have[i][n] {
							r.Probe("reloaded")
						}
						if r.Failed() {
							return
						}
					}
				}
				for !stop && !r.Failed() {
					if i == 0 { // the origin keeps announcing
						for _, n := range order {
							raw, ok := want[n]
							if !ok {
								continue
							}
							if !have[0][n] {
								judge(n, raw, true)
							} else {
								b.sendRaw(box(1), pkt{box(0), n, raw})
							}
						}
						sim.Sleep(500 * time.Millisecond)
						continue
					}
					p, ok := b.recv(box(i), time.Second)
					if !ok {
						continue
					}
					if have[i][p.Kind] && p.From != "damaged" && i+1 < nodes {
						b.sendRaw(box(i+1), pkt{box(i), p.Kind, p.Body})
						continue
					}
					judge(p.Kind, p.Body, p.From != "damaged")
				}
			})
		}
		boots[i]()
		if n := sim.Pick(c, "crashes", 0, 0, 1, 2); n > 0 {
			b.crasher(box(i), []string{box(i)}, n, boots[i])
		}
	}
	for i := c.Choose(3, "rot"); i > 0; i-- {
		at := time.Duration(c.Choose(3000, "rot-at")) * time.Millisecond
		r.At(at, "rot", func() {
			n := box(c.Choose(nodes, "node")) + order[c.Choose(len(order), "tx")]
			if f, ok := d.files[n]; ok {
				d.files[n] = mangle(r, f, want[order[c.Choose(len(order), "other")]])
			}
		})
	}
	r.Run(func() bool {
		if time.Since(b.calm) > time.Minute {
			r.Fail("stuck", "a minute after the last fault a node lacks a transaction: %v", have)
		}
		done := b.quiet() && len(want) == nt
		for _, m := range have {
			done = done && len(m) == nt
		}
		stop = stop || done
		return stop || r.Failed()
	})
	// what was refused must not have cost more than it was worth; measured with
	// nothing else running
	var ms0, ms1 runtime.MemStats
	for _, raw := range y.bad {
		for _, wit := range []bool{true, false} {
			if r.Failed() {
				break
			}
			x := xcore.NewTransaction()
			runtime.ReadMemStats(&ms0)
			if wit {
				x.Deserialize(raw)
			} else {
				x.DeserializeNoWitness(raw)
			}
			runtime.ReadMemStats(&ms1)
			if a := ms1.TotalAlloc - ms0.TotalAlloc; a > 32<<20 {
				r.Fail("allocation", "%d bytes made the decoder allocate %d MB", len(raw), a>>20)
			}
		}
	}
	r.NonTrivial = y.seen > nt
	r.Note("decoded", y.seen)
}

func init() {
	core.Register(&core.Scenario{Prop: "C20", Name: "tx-relay", Fn: c20, Quick: 12000, Cfg: sim.Config{Preempt: true},
		Require: []string{"wallet-made", "large", "prefixes", "reloaded", "crash", "hostile-count", "torn", "marker", "spliced"},
		Rule:    "one run = 2-3 node processes that relay and store 1-3 transactions (drawn, or made by the library's wallet code) over a damaging network and disk with crashes; non-trivial when more was decoded than sent"})
}
