package hmain

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"runtime"
	"time"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xvm"

	"vsim/core"
	"vsim/ref"
	"vsim/sim"
)

// ---------------------------------------------------------------- C24: what a script can do

// The signatures of engine runs without a transaction: eight bytes that only
// the right key and digest explain, then the hash type.
func toyHash(ht byte) ([]byte, bool) {
	if ht == 0xee {
		return nil, false
	}
	return ref.Sha256([]byte{'h', ht}), true
}

func toySig(key []byte, ht byte) []byte {
	h, _ := toyHash(ht)
	return append(ref.Sha256(append(append([]byte("s"), key...), h...))[:8:8], ht)
}

func toyCheck(hash, sig, key []byte) bool {
	return bytes.Equal(sig, ref.Sha256(append(append([]byte("s"), key...), hash...))[:8])
}

func toyEngine() *xvm.Engine {
	e := xvm.NewEngine()
	e.SetSigHashFn(func(ht byte) ([]byte, error) {
		if h, ok := toyHash(ht); ok {
			return h, nil
		}
		return nil, errors.New("no digest")
	})
	e.SetSigVerifyFn(func(hash []byte, sig []byte, key []byte) error {
		if toyCheck(hash, sig, key) {
			return nil
		}
		return errors.New("bad signature")
	})
	return e
}

// prog writes scripts.
type prog struct {
	c    *sim.Chooser
	keys [][]byte
	sig  func(key []byte, ht byte) []byte
	wild bool // a little of what does not belong
	n    int  // units left
	vm   *ref.VM
}

// told is a piece of a script that then checks everything it left on the stack.
func (p *prog) told(s []byte) []byte {
	if p.vm == nil {
		return s
	}
	st, ok := p.vm.Leaves(s)
	if !ok {
		return s
	}
	s = cat(s)
	for i := len(st) - 1; i >= 0; i-- {
		if len(st[i]) > 75 && p.c.OneIn(2, "drop") {
			s = append(s, 0x75)
			continue
		}
		s = append(cat(s, p.put(st[i])), 0x88)
	}
	return s
}

// shuffle moves and changes a few items in ways that work out.
func (p *prog) shuffle() (s []byte) {
	c := p.c
	num := func() []byte {
		return p.put(ref.Num(int64(sim.Pick(c, "num", 0, 1, 2, 16, 17, 1+c.Choose(60, "n"), 1+c.Choose(126, "n"), 127, 128, 200+c.Choose(300, "n"), 1<<15, 1<<31-1, -1, -5, -127))))
	}
	for i := 1 + c.Choose(3, "items"); i > 0; i-- {
		if c.OneIn(4, "other") {
			s = append(s, p.put(p.data())...)
		} else {
			s = append(s, num()...)
		}
	}
	for i := 2 + c.Choose(12, "moves"); i > 0; i-- {
		t := []byte{sim.Pick(c, "move", byte(0x76), 0x76, 0x6e, 0x6f, 0x7c, 0x7c, 0x93, 0x93, 0x93, 0x75, 0x82, 0x87, 0xa9)}
		if c.OneIn(4, "item") {
			t = num()
		}
		if _, ok := p.vm.Leaves(cat(s, t)); ok {
			s = append(s, t...)
		}
	}
	return
}

// data is an item to push.
func (p *prog) data() []byte {
	c := p.c
	switch c.Choose(9, "data") {
	case 0:
		return nil
	case 1:
		return []byte{1}
	case 2:
		return c.Bytes(1+c.Choose(4, "len"), "bytes")
	case 3:
		return c.Bytes(sim.Pick(c, "len", 20, 33, 75, 76, 80, 255, 256, 300, 520), "bytes")
	case 4:
		return ref.Num(int64(sim.Pick(c, "num", -1, 0, 1, 16, 17, 127, 128, 255, 256, -127, -128, 32767, 32768, -32768, 1<<31-1, -(1<<31 - 1))))
	case 5:
		return sim.Pick(c, "odd", []byte{0}, []byte{0x80}, []byte{0, 0}, []byte{0, 0x80}, []byte{1, 0}, []byte{0x81}, []byte{0, 0, 0, 0, 1}, []byte{0xff, 0xff, 0xff, 0xff}, []byte{0xff, 0xff, 0xff, 0x7f}, []byte{0x80, 0})
	case 6:
		return p.key()
	default:
		return p.sigFor(p.key())
	}
}

func (p *prog) key() []byte { return p.keys[p.c.Choose(len(p.keys), "key")] }

func (p *prog) sigFor(k []byte) []byte {
	s := p.sig(k, sim.Pick(p.c, "ht", byte(1), 1, 1, 2, 3, 0x81, 0x82, 0x83, 0))
	switch p.c.Choose(14, "sig-damage") {
	case 0:
		s[p.c.Choose(len(s), "at")] ^= 1 << p.c.Choose(8, "bit")
	case 1:
		return nil
	case 2:
		return s[len(s)-1:]
	}
	return s
}

// put pushes data in one of the ways there are.
func (p *prog) put(d []byte) []byte {
	c := p.c
	if len(d) == 1 && d[0] >= 1 && d[0] <= 16 && c.Choose(3, "as-number") > 0 {
		return []byte{0x50 + d[0]}
	}
	if len(d) == 1 && d[0] == 0x81 && c.Choose(2, "as-number") > 0 {
		return []byte{0x4f}
	}
	if p.wild && c.OneIn(12, "long-push") {
		n := len(d)
		if n < 256 && c.Choose(2, "one") == 0 {
			return cat([]byte{0x4c, byte(n)}, d)
		} else if c.Choose(2, "two") == 0 {
			return cat([]byte{0x4d, byte(n), byte(n >> 8)}, d)
		}
		return cat([]byte{0x4e, byte(n), byte(n >> 8), byte(n >> 16), 0}, d)
	}
	return ref.Push(d)
}

// multi is an m of n check with what it takes in front of it.
func (p *prog) multi() []byte {
	c := p.c
	n := sim.Pick(c, "n", 0, 1, 1, 2, 2, 3, 3, 3, 4, 20, 21)
	m := 0
	if n > 0 {
		m = c.Choose(n+1, "m")
		if n >= 20 {
			m = c.Choose(3, "m")
		}
	}
	var keys [][]byte
	for i := 0; i < n; i++ {
		keys = append(keys, p.key())
	}
	o := []byte{0}
	if c.OneIn(16, "dummy") {
		o = p.put(p.data())
	}
	at := 0
	twice := m > 1 && c.OneIn(6, "sig-twice")
	for i := 0; i < m; i++ {
		// usually one of the keys, in order; signatures are checked from the last
		k := keys[at+c.Choose(n-m+i-at+1, "which")]
		if c.OneIn(8, "any") {
			k = p.key()
		}
		for at < n && !bytes.Equal(keys[at], k) {
			at++
		}
		if at++; at > i+n-m {
			at = i + n - m + 1
			if at >= n {
				at = n - 1
			}
		}
		sig := p.put(p.sigFor(k))
		if o = append(o, sig...); twice {
			o, i, twice = append(o, sig...), i+1, false
		}
	}
	if c.OneIn(16, "m-off") {
		m += sim.Pick(c, "off", -1, 1)
	}
	o = append(o, p.put(ref.Num(int64(m)))...)
	for _, k := range keys {
		o = append(o, p.put(k)...)
	}
	o = append(o, p.put(ref.Num(int64(n)))...)
	return append(o, sim.Pick(c, "op", byte(0xae), 0xae, 0xaf))
}

// unit is a piece of a script that mostly works out.
func (p *prog) unit(depth int) []byte {
	c := p.c
	p.n--
	switch u := c.Choose(17, "unit"); u {
	case 0, 1:
		return p.put(p.data())
	case 2:
		d := p.data()
		e := d
		if c.OneIn(4, "differs") {
			e = p.data()
		}
		return cat(p.put(d), p.put(e), []byte{sim.Pick(c, "eq", byte(0x87), 0x87, 0x88)})
	case 3:
		a, b := int64(int32(c.U64("a"))), int64(int32(c.U64("b")))
		if c.Choose(2, "small") == 0 {
			a, b = a%300, b%300
		}
		o := cat(p.put(ref.Num(a)), p.put(ref.Num(b)), []byte{0x93})
		if c.Choose(2, "check") == 0 {
			o = cat(o, p.put(ref.Num(a+b)), []byte{0x88})
		}
		return o
	case 4:
		d := p.data()
		o := cat(p.put(d), []byte{0x82})
		if c.Choose(2, "check") == 0 {
			o = cat(o, p.put(ref.Num(int64(len(d)))), []byte{0x88, 0x75})
		}
		return o
	case 5:
		d := p.data()
		o := cat(p.put(d), []byte{0xa9})
		if c.Choose(2, "check") == 0 {
			o = cat(o, p.put(ref.Hash160(d)), []byte{0x88})
		}
		return o
	case 6, 7, 8:
		cond := sim.Pick(c, "cond", []byte{0}, []byte{0x51}, []byte{0x51}, []byte{1, 1})
		if c.OneIn(12, "odd-cond") {
			cond = p.put(p.data())
		}
		o := cat(cond, []byte{sim.Pick(c, "if", byte(0x63), 0x63, 0x64)}, p.block(depth-1))
		for i := sim.Pick(c, "elses", 0, 1, 1, 1, 2, 3); i > 0; i-- {
			o = cat(o, []byte{0x67}, p.block(depth-1))
		}
		if p.wild && c.OneIn(20, "no-endif") {
			return o
		}
		return append(o, 0x68)
	case 9, 10:
		k := p.key()
		return cat(p.put(p.sigFor(k)), p.put(k), []byte{sim.Pick(c, "checksig", byte(0xac), 0xac, 0xad)})
	case 11, 12:
		return p.multi()
	case 13:
		return sim.Pick(c, "stack", []byte{0x51, 0x76}, []byte{0x51, 0x52, 0x6e}, []byte{0x51, 0x52, 0x53, 0x6f}, []byte{0x51, 0x52, 0x7c}, []byte{0x51, 0x75}, []byte{0x6a})
	case 14:
		return []byte{sim.Pick(c, "op", byte(0x75), 0x76, 0x6e, 0x6f, 0x7c, 0x82, 0x93, 0x87, 0x88, 0xa9, 0x6a)}
	default:
		if p.wild && c.OneIn(3, "wild") {
			switch c.Choose(4, "wild") {
			case 0:
				return []byte{byte(c.Choose(256, "op"))}
			case 1:
				return []byte{sim.Pick(c, "cond", byte(0x63), 0x64, 0x67, 0x68)}
			case 2: // a push that claims more than there is
				return sim.Pick(c, "claim", []byte{0x4b}, []byte{0x4c}, []byte{0x4c, 200, 1}, []byte{0x4d, 1}, []byte{0x4d, 0xff, 0xff}, []byte{0x4e, 1, 2, 3}, []byte{0x4e, 0xff, 0xff, 0xff, 0x7f}, []byte{0x4e, 0xff, 0xff, 0xff, 0xff}, []byte{0x4e, 0, 0, 0, 0x80})
			case 3:
				return c.Bytes(1+c.Choose(20, "noise"), "noise")
			}
		}
		return p.put(p.data())
	}
}

func (p *prog) block(depth int) (o []byte) {
	if depth <= 0 || p.n <= 0 {
		return sim.Pick(p.c, "leaf", []byte{}, []byte{0x51}, []byte{0x75}, []byte{0x00})
	}
	for i := p.c.Choose(3, "block"); i > 0; i-- {
		o = append(o, p.unit(depth)...)
	}
	return
}

func (p *prog) program(units int) (o []byte) {
	p.n = units * 3
	for units > 0 {
		var s []byte
		for i := 1 + p.c.Choose(3, "group"); i > 0 && units > 0; i-- {
			if p.vm != nil && p.c.OneIn(5, "shuffle") {
				s = append(s, p.shuffle()...)
			} else {
				s = append(s, p.unit(3)...)
			}
			units--
		}
		if p.c.OneIn(2, "told") {
			s = p.told(s)
		}
		o = append(o, s...)
	}
	if p.c.Choose(3, "end-true") > 0 {
		o = append(o, 0x51)
	}
	return
}

func rep(n int, b ...byte) []byte { return bytes.Repeat(b, n) }

// edge is a script at or around one of the limits.
func (p *prog) edge() (o []byte, what string) {
	c := p.c
	d := sim.Pick(c, "edge", -2, -1, 0, 0, 1, 1, 2)
	switch c.Choose(7, "limit") {
	case 0: // plain operations
		n := ref.MaxOps + d
		return append(rep(n, 0x6a), 0x51), "ops"
	case 1: // operations that do not run
		n := ref.MaxOps + d - 2
		return cat([]byte{0, 0x63}, rep(n, sim.Pick(c, "op", byte(0x75), 0x76, 0xac, 0xaf, 0x93)), []byte{0x68, 0x51}), "ops-skipped"
	case 2: // nested conditionals
		n := (ref.MaxOps + d) / 2
		if c.OneIn(2, "deep") {
			return p.deep(n), "nested"
		}
		return cat(bytes.Repeat([]byte{0x51, 0x63}, n), rep(n, 0x68), rep((ref.MaxOps+d)%2, 0x6a), []byte{0x51}), "ops-nested"
	case 3: // the keys of multisigs count
		k := c.Choose(9, "multisigs")
		left := ref.MaxOps + d
		for i := 0; i < k; i++ {
			n := sim.Pick(c, "n", 0, 1, 2, 20)
			if left < n+2 {
				break
			}
			left -= n + 2 // with the drop
			o = cat(o, []byte{0, 0}, bytes.Repeat([]byte{1, 7}, n), p.put(ref.Num(int64(n))), []byte{0xae, 0x75})
		}
		return cat(o, rep(left, 0x6a), []byte{0x51}), "ops-keys"
	case 4: // pushes do not count, items do
		return bytes.Repeat([]byte{sim.Pick(c, "push", byte(0x51), 0x4f, 0x60)}, ref.MaxStack+d), "items"
	case 5: // items that multiply
		n := ref.MaxStack + d
		k := c.Choose(150, "dups")
		return cat(rep(n-3*k, 0x51), rep(k, 0x6f)), "items-dup"
	default: // size
		n := ref.MaxScript + d - 1
		for n > 0 {
			l := n - 4
			if l > 500 {
				l = 500
			} else if l < 256 {
				o = append(o, rep(n, 0x51)...)
				break
			}
			o = cat(o, []byte{0x4d, byte(l), byte(l >> 8)}, c.Bytes(l, "fill"), []byte{0x75})
			n -= l + 4
		}
		return append(o, 0x51), "size"
	}
}

// deep is n levels of conditionals, some of them skipped, that add up what the
// branches say; the sum tells which of them ran.
func (p *prog) deep(n int) []byte {
	c := p.c
	n -= c.Choose(24, "room")
	if c.OneIn(2, "shallow") {
		n = 1 + c.Choose(n, "levels")
	}
	cut := n // from here on nothing runs
	if c.OneIn(2, "dark") {
		cut = c.Choose(n, "cut")
	}
	elses, sum := 1+c.Choose(12, "elses"), 0
	if n == cut {
		sum = 10
	}
	o, end := []byte{0}, []byte(nil)
	for i := 0; i < n; i++ {
		op := sim.Pick(c, "if", byte(0x63), 0x63, 0x64)
		cond := byte(0x51)
		if op == 0x64 {
			cond = 0
		}
		if i == cut {
			cond ^= 0x51
		}
		o = append(o, cond, op)
		e := []byte{0x68}
		if elses > 0 && (i == cut || i == n-1 || c.OneIn(4, "else")) {
			if i == cut {
				sum += elses
			}
			e = []byte{0x67, 0x50 + byte(elses), 0x93, 0x68}
			elses--
		}
		end = append(e, end...)
	}
	return cat(o, []byte{0x5a, 0x93}, end, p.put(ref.Num(int64(sum))), []byte{0x87})
}

// flood is a script meant to hurt.
func (p *prog) flood() (o []byte) {
	c := p.c
	n := 200 + c.Choose(1500, "flood")
	switch c.Choose(8, "how") {
	case 0:
		return rep(n, 0x51)
	case 1:
		return cat(ref.Push(c.Bytes(500, "big")), rep(n, 0x76))
	case 2:
		b := ref.Push(c.Bytes(500, "big"))
		return cat(b, b, b, rep(n, 0x6f))
	case 3:
		return bytes.Repeat([]byte{0x51, 0x63}, n)
	case 4:
		return cat([]byte{0x51}, bytes.Repeat([]byte{0x76, 0x63, 0x51}, n), rep(n, 0x68))
	case 5:
		for i := 0; i < n/40; i++ {
			o = cat(o, []byte{0}, ref.Push(p.sigFor(p.key())), []byte{0x51})
			for j := 0; j < 20; j++ {
				o = append(o, ref.Push(p.keys[j%len(p.keys)])...)
			}
			o = append(o, 1, 20, 0xae)
		}
		return o
	case 6:
		return cat(ref.Push(c.Bytes(500, "big")), bytes.Repeat([]byte{0x76, 0xa9, 0x75}, n))
	default:
		for i := 0; i < n; i++ {
			o = append(o, 1, byte(i))
		}
		return o
	}
}

// mangle damages a script.
func (p *prog) mangle(s []byte) []byte {
	c := p.c
	s = append([]byte(nil), s...)
	for i := 1 + c.Choose(3, "damage"); i > 0 && len(s) > 0; i-- {
		at := c.Choose(len(s), "at")
		switch c.Choose(4, "kind") {
		case 0:
			s[at] ^= 1 << c.Choose(8, "bit")
		case 1:
			s = s[:at]
		case 2:
			s = append(s[:at], s[at+1:]...)
		case 3:
			s = cat(s[:at], []byte{byte(c.Choose(256, "byte"))}, s[at:])
		}
	}
	return s
}

// scriptJob is one question with the answer the reference gives.
type scriptJob struct {
	kind   string
	a, b   []byte // unlocking and locking script
	tx     []byte // wire form of a transaction, for those that spend
	spends []spend
	want   bool
	why    string
	steps  int
	text   any
}

type spend struct {
	prev, redeem []byte
	value        uint64
}

func (j *scriptJob) scripts() [][]byte {
	l := [][]byte{j.a, j.b, j.tx}
	for _, s := range j.spends {
		l = append(l, s.prev, s.redeem)
	}
	return l
}

// draw makes one engine question.
func (p *prog) draw() *scriptJob {
	c := p.c
	j := &scriptJob{kind: "verify"}
	vm := &ref.VM{Sig: toyHash, Check: toyCheck}
	p.wild = c.OneIn(3, "wild")
	p.vm = &ref.VM{Sig: toyHash, Check: toyCheck}
	defer func() { p.vm = nil }()
	what := ""
	body := func() []byte {
		switch c.Choose(10, "body") {
		case 0, 1:
			var o []byte
			o, what = p.edge()
			return o
		case 2:
			what = "flood"
			return p.flood()
		case 3:
			what = "mangled"
			return p.mangle(p.program(1 + c.Choose(8, "units")))
		case 4:
			what = "noise"
			return c.Bytes(c.Choose(60, "noise"), "noise")
		default:
			what = "program"
			return p.program(1 + c.Choose(12, "units"))
		}
	}
	pushes := func() (o []byte) {
		for i := c.Choose(5, "pushes"); i > 0; i-- {
			o = append(o, p.put(p.data())...)
		}
		return
	}
	switch c.Choose(8, "shape") {
	case 0:
		j.kind = "execute"
		j.a = body()
	case 1, 2: // the unlocking script is the odd one
		j.a = body()
		j.b = sim.Pick(c, "lock", []byte{0x51}, []byte{}, []byte{0x75, 0x51}, ref.ScriptP2PKH(ref.Hash160(p.key())), ref.ScriptP2SH(ref.Hash160([]byte{0x51})), []byte{0x67, 0x68}, []byte{0x68})
	case 3, 4:
		j.a, j.b = pushes(), body()
	case 5, 6: // behind a script hash
		r := body()
		j.a = cat(pushes(), ref.Push(r))
		if c.OneIn(6, "not-push-only") {
			j.a = cat(p.unit(1), j.a)
		}
		h := ref.Hash160(r)
		if c.OneIn(10, "other-hash") {
			h[3] ^= 4
		}
		j.b = ref.ScriptP2SH(h)
		what += "-p2sh"
	default: // standard ones
		k := p.key()
		j.a, j.b = cat(p.put(p.sigFor(k)), ref.Push(k)), ref.ScriptP2PKH(ref.Hash160(k))
		if c.OneIn(3, "mangle") {
			j.a = p.mangle(j.a)
		}
		what = "p2pkh"
	}
	if j.kind == "execute" {
		j.want = vm.Exec(j.a)
	} else {
		j.want = vm.Verify(j.a, j.b)
	}
	j.why, j.steps = vm.Why, vm.Steps
	j.text = what
	return j
}

// spendJob is a transaction that spends coins with scripts nobody chose well.
func (p *prog) spendJob(prv []*big.Int) *scriptJob {
	c := p.c
	j := &scriptJob{kind: "spend", want: true}
	t := &ref.Tx{Version: 2, Lock: uint32(c.Choose(3, "lock"))}
	type in struct {
		kind   int
		prev   []byte
		redeem []byte
		value  uint64
	}
	var ins []in
	what := ""
	for n := 1 + c.Choose(2, "inputs"); n > 0; n-- {
		k := in{kind: sim.Pick(c, "kind", ref.KP2SH, ref.KP2SH, ref.KP2WSH, ref.KP2WSH, ref.KP2PKH, ref.KP2WPKH), value: uint64(c.Choose(1e9, "value"))}
		ins = append(ins, k)
		t.Ins = append(t.Ins, ref.In{Hash: c.Bytes(32, "txid"), Index: uint32(c.Choose(3, "n")), Seq: 0xffffffff})
	}
	for n := 1 + c.Choose(2, "outputs"); n > 0; n-- {
		t.Outs = append(t.Outs, ref.Out{Value: uint64(c.Choose(1e9, "value")), Script: ref.ScriptP2PKH(c.Bytes(20, "to"))})
	}
	sign := func(i int, code []byte, key int, ht byte) []byte {
		var d []byte
		if ins[i].kind == ref.KP2SH || ins[i].kind == ref.KP2PKH {
			d = t.LegacyHash(i, code, uint32(ht))
		} else {
			d = t.WitnessHash(i, code, ins[i].value, uint32(ht))
		}
		k := new(big.Int).SetBytes(ref.Sha256(append(ref.B32(prv[key]), d...)))
		k.Mod(k, new(big.Int).Sub(ref.N, big.NewInt(1)))
		r, s := ref.ECDSASign(prv[key], d, k.Add(k, big.NewInt(1)))
		return append(ref.DER(r, s), ht)
	}
	for i := range ins {
		k := &ins[i]
		key := c.Choose(len(prv), "signer")
		switch k.kind {
		case ref.KP2PKH, ref.KP2WPKH:
			h := ref.Hash160(p.keys[key])
			k.prev = ref.ScriptP2PKH(h)
			if k.kind == ref.KP2WPKH {
				k.prev = ref.ScriptP2WPKH(h)
			}
		default:
			// a redeem script that asks for signatures somewhere inside
			switch c.Choose(6, "redeem") {
			case 0:
				k.redeem = cat(ref.Push(p.keys[key]), []byte{0xac})
			case 1:
				k.redeem = cat([]byte{0x63}, ref.Push(p.keys[key]), []byte{0x67}, ref.Push(p.keys[(key+1)%len(prv)]), []byte{0x68, 0xac})
			case 2:
				k.redeem = cat(ref.Push(p.keys[key]), []byte{0xad, 0x51})
			case 3:
				k.redeem, what = p.edge()
				if c.Choose(2, "flood") == 0 {
					k.redeem, what = p.flood(), "flood"
				}
			case 4:
				k.redeem = ref.Multisig(1, p.keys...)
			default:
				p.wild = false
				k.redeem = p.program(1 + c.Choose(4, "units"))
			}
			k.prev = ref.ScriptP2SH(ref.Hash160(k.redeem))
			if k.kind == ref.KP2WSH {
				k.prev = ref.ScriptP2WSH(ref.Sha256(k.redeem))
			}
		}
	}
	for i := range ins { // the digests need every input's place, not its script
		k := &ins[i]
		key := c.Choose(len(prv), "signer")
		wit := k.kind == ref.KP2WSH || k.kind == ref.KP2WPKH
		var data [][]byte
		switch k.kind {
		case ref.KP2PKH, ref.KP2WPKH:
			for q := range p.keys {
				if bytes.Contains(k.prev, ref.Hash160(p.keys[q])) {
					key = q
				}
			}
			data = [][]byte{sign(i, ref.ScriptP2PKH(ref.Hash160(p.keys[key])), key, sim.Pick(c, "ht", hashTypes...)), p.keys[key]}
		default:
			sig := sign(i, k.redeem, key, sim.Pick(c, "ht", hashTypes...))
			data = sim.Pick(c, "unlock", [][]byte{sig}, [][]byte{sig}, [][]byte{sig, {1}}, [][]byte{sig, {}}, [][]byte{{}, sig}, [][]byte{})
			data = append(append([][]byte{}, data...), k.redeem)
		}
		switch c.Choose(12, "twist") {
		case 0:
			data = append([][]byte{p.data()}, data...)
			what = "extra-item"
		case 1:
			if len(data[0]) > 0 {
				data[0] = append([]byte(nil), data[0]...)
				data[0][c.Choose(len(data[0]), "at")] ^= 1 << c.Choose(8, "bit")
			}
			what = "damaged"
		case 2:
			if len(data[0]) == 0 {
				data[0] = []byte{0}
				what = "zero-dummy"
			}
		}
		if wit {
			t.Ins[i].Witness = data
			if c.OneIn(12, "script-too") {
				t.Ins[i].Script = sim.Pick(c, "scriptsig", []byte{0x51}, []byte{0}, ref.Push(k.prev))
				what = "script-sig"
			}
		} else {
			for _, d := range data {
				t.Ins[i].Script = append(t.Ins[i].Script, ref.Push(d)...)
			}
			if c.OneIn(12, "witness-too") {
				t.Ins[i].Witness = [][]byte{{1}}
				what = "witness"
			}
			if c.OneIn(8, "script-before") {
				t.Ins[i].Script = cat(p.unit(1), t.Ins[i].Script)
				what = "script-before"
			}
		}
	}
	for i, k := range ins {
		redeem := k.redeem
		if c.OneIn(8, "no-redeem") && k.kind == ref.KP2SH {
			redeem = nil
		}
		j.spends = append(j.spends, spend{k.prev, redeem, k.value})
		if ok, why, steps := spendable(t, i, k.prev, redeem, k.value); !ok {
			if j.want {
				j.why = fmt.Sprintf("input %d: %s", i, why)
			}
			j.want = false
		} else {
			j.steps += steps
		}
	}
	j.tx = t.Wire()
	j.text = "spend-" + what
	return j
}

// spendable tells whether an input may be spent, given the redeem script that
// goes into its digest.
func spendable(t *ref.Tx, i int, prev, redeem []byte, value uint64) (bool, string, int) {
	in := t.Ins[i]
	kind, h := ref.Classify(prev)
	vm := &ref.VM{Check: func(hash, sig, key []byte) bool {
		pt, ok := ref.ParsePoint(key)
		if !ok {
			return false
		}
		r, s, ok := ref.ParseDERStrict(sig)
		return ok && ref.ECDSAVerify(pt, hash, r, s)
	}}
	switch kind {
	case ref.KP2PKH, ref.KP2SH:
		code := prev
		if kind == ref.KP2SH && redeem != nil {
			code = redeem
		}
		vm.Sig = func(ht byte) ([]byte, bool) { return t.LegacyHash(i, code, uint32(ht)), true }
		if len(in.Witness) > 0 {
			return false, "a witness nothing asks for", 0
		}
		ok := vm.Verify(in.Script, prev)
		if k, _ := ref.Classify(redeem); ok && kind == ref.KP2SH && (k == ref.KP2WPKH || k == ref.KP2WSH) {
			return false, "a witness program without its witness", 0
		}
		return ok, vm.Why, vm.Steps
	}
	if len(in.Script) > 0 {
		return false, "a script sig beside the witness", 0
	}
	code, lock := ref.ScriptP2PKH(h), ref.ScriptP2PKH(h)
	if kind == ref.KP2WSH {
		if len(in.Witness) == 0 || !bytes.Equal(ref.Sha256(in.Witness[len(in.Witness)-1]), h) {
			return false, "not the committed script", 0
		}
		code = in.Witness[len(in.Witness)-1]
		lock = ref.ScriptP2SH(ref.Hash160(code))
	} else if len(in.Witness) != 2 {
		return false, "not two items", 0
	}
	vm.Sig = func(ht byte) ([]byte, bool) { return t.WitnessHash(i, code, value, uint32(ht)), true }
	var unlock []byte
	for _, d := range in.Witness {
		unlock = append(unlock, ref.Push(d)...)
	}
	if !vm.Verify(unlock, lock) {
		return false, vm.Why, vm.Steps
	}
	if vm.Left() != 0 {
		return false, "items left over", vm.Steps
	}
	return true, "", vm.Steps
}

// lib asks the library.
func (j *scriptJob) lib(e *xvm.Engine) (ok bool, err error) {
	switch j.kind {
	case "execute":
		err = e.Execute(j.a)
	case "verify":
		err = e.Verify(j.a, j.b)
	case "spend":
		tx := xcore.NewTransaction()
		if j.tx[4] == 0 {
			err = tx.Deserialize(j.tx)
		} else {
			err = tx.DeserializeNoWitness(j.tx)
		}
		if err != nil {
			return false, fmt.Errorf("decode: %v", err)
		}
		for i, s := range j.spends {
			if err = tx.SetTxIn(i, s.value, s.prev, s.redeem); err != nil {
				return false, err
			}
		}
		err = tx.Verify()
	}
	return err == nil, err
}

// look reads a script the ways a wallet reads it.
func (j *scriptJob) look(r *core.R, op byte) {
	for _, s := range j.scripts() {
		if s == nil || j.tx != nil && bytes.Equal(s, j.tx) {
			continue
		}
		kind, _ := ref.Classify(s)
		l, err := xcore.ParseLockingScript(s)
		if (err == nil) != (kind != ref.KNone) {
			r.Fail("classified", "script %x of kind %d: %T, %v", s, kind, l, err)
			return
		}
		if err == nil {
			b, err := l.GetRawLockingScriptBytes()
			if err != nil || !bytes.Equal(b, s) {
				r.Fail("classified", "script %x is written back as %x (%v)", s, b, err)
				return
			}
		}
		xvm.DisasmString(s)
		want := ref.Without(s, op)
		if got := xvm.RemoveOpcode(s, op); !bytes.Equal(got, want) {
			r.Fail("remove-opcode", "script %x without %#x became %x, not %x", s, op, got, want)
			return
		}
	}
}

func c24(r *core.R) {
	c := r.C
	prv := drawKeys(c, 3)
	p := &prog{c: c}
	for _, d := range prv {
		p.keys = append(p.keys, pubBytes(d, c.Choose(4, "compressed") > 0))
	}
	real := p.keys
	var jobs []*scriptJob
	for i := 4 + c.Choose(12, "jobs"); i > 0; i-- {
		var j *scriptJob
		if c.Choose(4, "spend") == 0 {
			p.keys, p.sig = real, func(k []byte, ht byte) []byte { return toySig(k, ht) }
			j = p.spendJob(prv)
		} else {
			p.keys = [][]byte{{'k', 1}, {'k', 2, 2}, ref.Sha256([]byte("k3"))}
			p.sig = toySig
			j = p.draw()
		}
		jobs = append(jobs, j)
		v := "refused"
		if j.want {
			v = "accepted"
		}
		r.Probe(v)
		r.Probe(fmt.Sprintf("%v", j.text))
		r.Probe(fmt.Sprintf("%s-%s", j.kind, v))
		r.Fault(fmt.Sprintf("script-%v", j.text))
		if !j.want {
			r.Probe("why-" + j.why)
		}
	}
	// builder-made scripts push what they were given, and stay what they were
	// when the builder goes on to the next one
	builder := xvm.NewScriptBuilder()
	for i := 1 + c.Choose(3, "built"); i > 0; i-- {
		if c.Choose(4, "new-builder") == 0 {
			builder = xvm.NewScriptBuilder()
		} else {
			builder.Reset()
		}
		var check []byte
		for k := 1 + c.Choose(3, "parts"); k > 0; k-- {
			x := p.data()
			if len(x) == 1 && x[0] == 0 {
				x = nil // its tests have the builder make a number of it
			}
			n := int64(int32(c.U64("int")))
			builder.AddData(x).AddInt64(n).AddInt64(n % 20)
			check = cat(ref.Push(ref.Num(n%20)), []byte{0x88}, ref.Push(ref.Num(n)), []byte{0x88}, ref.Push(x), []byte{0x88}, check)
		}
		built, err := builder.Script()
		if err != nil {
			r.Fail("builder", "%v", err)
			return
		}
		jobs = append(jobs, &scriptJob{kind: "verify", a: built, b: append(check, 0x51), want: true, text: "built"})
	}

	var keep [][][]byte
	var pages [][]byte
	for _, j := range jobs {
		if c.OneIn(2, "neighbours") && len(j.a)+len(j.b) < 1<<15 {
			// they came in one message, one behind the other
			page := append(append(append([]byte(nil), j.b...), j.a...), 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5, 0xa5)
			n := len(j.b)
			if j.a != nil {
				j.a = page[n : n+len(j.a)]
			}
			if j.b != nil {
				j.b = page[:n]
			}
			pages = append(pages, page[len(page)-8:])
		}
		var l [][]byte
		for _, s := range j.scripts() {
			l = append(l, append([]byte(nil), s...))
		}
		keep = append(keep, l)
	}
	// what the workers do, and when
	workers := 1 + c.Choose(3, "workers")
	type ask struct {
		j     *scriptJob
		i     int
		fresh bool
		debug bool
		look  byte
		pause time.Duration
	}
	plan := make([][]ask, workers)
	asks := 0
	for w := range plan {
		for i, j := range jobs {
			if w > 0 && c.Choose(2, "skip") == 0 {
				continue
			}
			for n := 1 + c.Choose(2, "times"); n > 0; n-- {
				plan[w] = append(plan[w], ask{j: j, i: i, fresh: c.Choose(3, "fresh") == 0, debug: j.steps < 40 && len(j.a)+len(j.b) < 1000 && c.OneIn(4, "debug"), look: byte(sim.Pick(c, "op", 0xab, 0x76, 0x51, 0xac, 0x63, 0x4c, 0x4d)), pause: time.Duration(c.Choose(3, "pause")) * time.Millisecond})
				asks++
			}
		}
		for i := range plan[w] {
			k := c.Choose(i+1, "order")
			plan[w][i], plan[w][k] = plan[w][k], plan[w][i]
		}
	}
	var ms0, ms1 runtime.MemStats
	runtime.ReadMemStats(&ms0)
	done := 0
	for w := range plan {
		w := w
		r.Go("verifier", fmt.Sprintf("verifier%d", w), func() {
			e := toyEngine()
			used := false
			for _, q := range plan[w] {
				if r.Failed() {
					return
				}
				if q.fresh || q.j.kind == "execute" && used {
					e = toyEngine()
				}
				used = true
				if q.debug {
					e.EnableDebug()
				}
				ok, err := q.j.lib(e)
				e.DisableDebug()
				if ok != q.j.want {
					r.Fail("verdict", "job %d (%s %v): the library says %v (%v), the script language says %v (%s); unlocking %x locking %x tx %x spends %s",
						q.i, q.j.kind, q.j.text, ok, err, q.j.want, q.j.why, q.j.a, q.j.b, q.j.tx, spendText(q.j.spends))
					return
				}
				if c.OneIn(3, "look") {
					q.j.look(r, q.look)
				}
				if q.pause > 0 {
					sim.Sleep(q.pause)
				}
			}
			done++
		})
	}
	end := time.Now().Add(time.Minute)
	r.At(time.Minute, "end", func() {})
	r.Run(func() bool { return r.Failed() || done == workers || !time.Now().Before(end) })
	runtime.ReadMemStats(&ms1)
	if !r.Failed() && done < workers {
		r.Fail("no-progress", "%d of %d verifiers are done", done, workers)
	}
	if a := ms1.TotalAlloc - ms0.TotalAlloc; !r.Failed() && a > 32<<20+uint64(asks)<<22 {
		r.Fail("allocation", "%d questions made the verifiers allocate %d MB", asks, a>>20)
	}
	for _, p := range pages {
		if !r.Failed() && string(p) != "\xa5\xa5\xa5\xa5\xa5\xa5\xa5\xa5" {
			r.Fail("input-changed", "what follows the scripts in memory is now %x", p)
		}
	}
	if !r.Failed() {
		for i, j := range jobs {
			for k, s := range j.scripts() {
				if !bytes.Equal(s, keep[i][k]) {
					r.Fail("input-changed", "a script was %x, now it is %x", keep[i][k], s)
					return
				}
			}
		}
	}
	yes := 0
	for _, j := range jobs {
		if j.want {
			yes++
		}
	}
	r.NonTrivial = yes > 0 && yes < len(jobs)
	r.Note("questions", asks)
	r.Note("accepted-jobs", yes)
}

func spendText(l []spend) (s string) {
	for _, x := range l {
		s += fmt.Sprintf("[%s %s %d]", hex.EncodeToString(x.prev), hex.EncodeToString(x.redeem), x.value)
	}
	return
}

func init() {
	core.Register(&core.Scenario{Prop: "C24", Name: "hostile-scripts", Fn: c24, Quick: 5000, Cfg: sim.Config{Preempt: true},
		Require: []string{"accepted", "refused", "spend-accepted", "spend-refused", "execute-accepted", "ops", "ops-skipped", "ops-nested", "ops-keys", "items", "items-dup", "size", "flood", "program-p2sh", "why-too many operations", "why-too many items", "why-script too long", "why-cut short", "why-if without endif"},
		Rule:    "one run = 5-16 scripts and spends (programs over the whole supported language, scripts at the size, operation and stack limits, floods, damaged scripts, noise) judged 1-6 times each by 1-3 concurrent verifiers with fresh and long-used engines; non-trivial when some pass and some do not"})
}
