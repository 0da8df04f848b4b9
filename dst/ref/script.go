package ref

import "bytes"

// The script language of the library, written from the rules of the network:
// the opcodes it knows, the limits on what a script may cost, conditionals with
// minimal arguments, numbers of at most four bytes in minimal form, BIP16, and
// BIP147.  Two things are the library's own: OP_RETURN does nothing, and a
// script that leaves an empty stack has succeeded (both are fixed by its tests).

// Script limits.
const (
	MaxScript = 10000
	MaxOps    = 201
	MaxStack  = 1000
)

// VM runs scripts.
type VM struct {
	Sig   func(ht byte) ([]byte, bool)     // the digest, false when there is none
	Check func(hash, sig, key []byte) bool // the signature without its hash type
	st    [][]byte
	Why   string // why it was refused
	Steps int
	Depth int // the most items there were
	Ops   int // the most operations one script had
	Sigs  int // signature checks
}

func (v *VM) no(s string) bool { v.Why = s; return false }

// Verify runs the unlocking script, then the locking script on its stack.
func (v *VM) Verify(unlock, lock []byte) bool {
	v.st = nil
	if !v.run(unlock) {
		return false
	}
	kept := append([][]byte(nil), v.st...)
	if !v.run(lock) || !v.result() {
		return false
	}
	if k, _ := Classify(lock); k == KP2SH {
		if !PushOnly(unlock) {
			return v.no("p2sh: not push only")
		}
		if len(kept) == 0 {
			return v.no("p2sh: no redeem script")
		}
		v.st = kept
		redeem, _ := v.pop()
		return v.run(redeem) && v.result()
	}
	return true
}

// Exec runs one script.
func (v *VM) Exec(s []byte) bool {
	v.st = nil
	return v.run(s) && v.result()
}

// Leaves runs a script and says what is then on the stack.
func (v *VM) Leaves(s []byte) ([][]byte, bool) {
	v.st = nil
	ok := v.run(s)
	return v.st, ok
}

// Without is the script with every such operation taken out; a script that
// cannot be read stays as it is.
func Without(s []byte, not byte) []byte {
	o := []byte{}
	for r := s; len(r) > 0; {
		op, _, n, ok := Next(r)
		if !ok || !known(op) {
			return s
		}
		if op != not {
			o = append(o, r[:n]...)
		}
		r = r[n:]
	}
	return o
}

// Left is the number of items left under the result.
func (v *VM) Left() int { return len(v.st) }

// PushOnly tells whether the script does nothing but push data.
func PushOnly(s []byte) bool {
	for len(s) > 0 {
		op, _, n, ok := Next(s)
		if !ok || op > 0x60 || op == 0x50 {
			return false
		}
		s = s[n:]
	}
	return true
}

// Next reads one operation.
func Next(s []byte) (op byte, data []byte, n int, ok bool) {
	op, n = s[0], 1
	l := 0
	switch {
	case op >= 1 && op < 76:
		l = int(op)
	case op == 76 && len(s) >= 2:
		l, n = int(s[1]), 2
	case op == 77 && len(s) >= 3:
		l, n = int(le.Uint16(s[1:])), 3
	case op == 78 && len(s) >= 5:
		l, n = int(le.Uint32(s[1:])), 5
	case op >= 76 && op <= 78:
		return op, nil, n, false
	}
	if l > len(s)-n {
		return op, nil, n, false
	}
	return op, s[n : n+l : n+l], n + l, true
}

func known(op byte) bool {
	switch {
	case op <= 0x4f, op >= 0x51 && op <= 0x60, op >= 0x63 && op <= 0x64, op >= 0x67 && op <= 0x68, op >= 0xac && op <= 0xaf:
		return true
	}
	return bytes.IndexByte([]byte{0x6a, 0x6e, 0x6f, 0x75, 0x76, 0x7c, 0x82, 0x87, 0x88, 0x93, 0xa9}, op) >= 0
}

func (v *VM) push(b []byte) { v.st = append(v.st, b) }

func (v *VM) pop() ([]byte, bool) {
	if len(v.st) == 0 {
		return nil, v.no("stack is empty")
	}
	b := v.st[len(v.st)-1]
	v.st = v.st[:len(v.st)-1]
	return b, true
}

// Truth of an item: anything but zeroes, or zeroes and a sign.
func Truth(b []byte) bool {
	for i, x := range b {
		if x != 0 {
			return !(i == len(b)-1 && x == 0x80)
		}
	}
	return false
}

// Num encodes a number.
func Num(n int64) []byte {
	if n == 0 {
		return nil
	}
	a := n
	if n < 0 {
		a = -n
	}
	var o []byte
	for ; a > 0; a >>= 8 {
		o = append(o, byte(a))
	}
	if o[len(o)-1] >= 0x80 {
		o = append(o, 0)
	}
	if n < 0 {
		o[len(o)-1] |= 0x80
	}
	return o
}

func (v *VM) popNum() (int64, bool) {
	b, ok := v.pop()
	if !ok {
		return 0, false
	}
	if len(b) > 4 {
		return 0, v.no("number too long")
	}
	var n int64
	for i, x := range b {
		if i == len(b)-1 {
			x &= 0x7f
		}
		n |= int64(x) << (8 * i)
	}
	if len(b) > 0 && b[len(b)-1] >= 0x80 {
		n = -n
	}
	if !bytes.Equal(Num(n), b) {
		return 0, v.no("number not minimal")
	}
	return n, true
}

func (v *VM) result() bool {
	if len(v.st) == 0 {
		return true
	}
	b, _ := v.pop()
	if !Truth(b) {
		return v.no("result is false")
	}
	return true
}

func (v *VM) truth(b bool) {
	if b {
		v.push([]byte{1})
	} else {
		v.push(nil)
	}
}

func (v *VM) popTrue() bool {
	b, ok := v.pop()
	if !ok {
		return false
	}
	if !Truth(b) {
		return v.no("verify failed")
	}
	return true
}

// dup copies the top n items.
func (v *VM) dup(n int) bool {
	if len(v.st) < n {
		return v.no("stack is empty")
	}
	v.st = append(v.st, v.st[len(v.st)-n:]...)
	return true
}

func (v *VM) run(s []byte) bool {
	if len(s) > MaxScript {
		return v.no("script too long")
	}
	var conds []int8 // 1 runs, 0 does not, -1 is inside of one that does not
	ops := 0
	count := func(n int) bool {
		ops += n
		if ops > v.Ops {
			v.Ops = ops
		}
		if ops > MaxOps {
			return v.no("too many operations")
		}
		return true
	}
	for len(s) > 0 {
		op, data, n, ok := Next(s)
		if !ok {
			return v.no("cut short")
		}
		s = s[n:]
		v.Steps++
		if !known(op) {
			return v.no("unknown operation")
		}
		if op > 0x60 && !count(1) {
			return false
		}
		on := true
		for _, c := range conds {
			on = on && c == 1
		}
		switch op {
		case 0x63, 0x64:
			c := int8(-1)
			if on {
				b, ok := v.pop()
				if !ok {
					return false
				}
				if len(b) > 1 || len(b) == 1 && b[0] != 1 {
					return v.no("condition not minimal")
				}
				c = 0
				if (len(b) == 1) == (op == 0x63) {
					c = 1
				}
			}
			conds = append(conds, c)
			continue
		case 0x67:
			if len(conds) == 0 {
				return v.no("else without if")
			}
			if c := &conds[len(conds)-1]; *c >= 0 {
				*c = 1 - *c
			}
			continue
		case 0x68:
			if len(conds) == 0 {
				return v.no("endif without if")
			}
			conds = conds[:len(conds)-1]
			continue
		}
		if !on {
			continue
		}
		switch {
		case op == 0:
			v.push(nil)
		case op <= 78:
			v.push(data)
		case op == 0x4f:
			v.push([]byte{0x81})
		case op <= 0x60:
			v.push([]byte{op - 0x50})
		case op == 0x6a:
		case op == 0x6e:
			ok = v.dup(2)
		case op == 0x6f:
			ok = v.dup(3)
		case op == 0x75:
			_, ok = v.pop()
		case op == 0x76:
			ok = v.dup(1)
		case op == 0x7c:
			if ok = len(v.st) >= 2; ok {
				l := len(v.st)
				v.st[l-1], v.st[l-2] = v.st[l-2], v.st[l-1]
			} else {
				v.no("stack is empty")
			}
		case op == 0x82:
			if ok = len(v.st) >= 1; ok {
				v.push(Num(int64(len(v.st[len(v.st)-1]))))
			} else {
				v.no("stack is empty")
			}
		case op == 0x87 || op == 0x88:
			var a, b []byte
			if a, ok = v.pop(); ok {
				if b, ok = v.pop(); ok {
					if v.truth(bytes.Equal(a, b)); op == 0x88 {
						ok = v.popTrue()
					}
				}
			}
		case op == 0x93:
			var a, b int64
			if a, ok = v.popNum(); ok {
				if b, ok = v.popNum(); ok {
					v.push(Num(a + b))
				}
			}
		case op == 0xa9:
			var a []byte
			if a, ok = v.pop(); ok {
				v.push(Hash160(a))
			}
		case op == 0xac || op == 0xad:
			var k, sig []byte
			if k, ok = v.pop(); !ok {
				break
			}
			if sig, ok = v.pop(); !ok {
				break
			}
			good := false
			if len(sig) > 0 {
				var h []byte
				if h, ok = v.Sig(sig[len(sig)-1]); !ok {
					v.no("no digest")
					break
				}
				v.Sigs++
				good = v.Check(h, sig[:len(sig)-1], k)
			}
			if v.truth(good); op == 0xad {
				ok = v.popTrue()
			}
		case op == 0xae || op == 0xaf:
			ok = v.multi(count)
			if ok && op == 0xaf {
				ok = v.popTrue()
			}
		}
		if !ok {
			return false
		}
		if len(v.st) > v.Depth {
			v.Depth = len(v.st)
		}
		if len(v.st) > MaxStack {
			return v.no("too many items")
		}
	}
	if len(conds) > 0 {
		return v.no("if without endif")
	}
	return true
}

func (v *VM) multi(count func(int) bool) bool {
	take := func(max int64, keys bool) (l [][]byte, ok bool) {
		n, ok := v.popNum()
		if !ok {
			return nil, false
		}
		if n < 0 || n > max {
			return nil, v.no("count out of range")
		}
		if keys && !count(int(n)) {
			return nil, false
		}
		for ; n > 0; n-- {
			b, ok := v.pop()
			if !ok {
				return nil, false
			}
			l = append(l, b)
		}
		return l, true
	}
	keys, ok := take(20, true)
	if !ok {
		return false
	}
	sigs, ok := take(int64(len(keys)), false)
	if !ok {
		return false
	}
	d, ok := v.pop()
	if !ok {
		return false
	}
	if len(d) > 0 {
		return v.no("dummy is not empty")
	}
	for len(sigs) > 0 {
		// the rest cannot be matched any more
		if len(sigs) > len(keys) || len(sigs[0]) == 0 {
			v.truth(false)
			return true
		}
		sig := sigs[0]
		h, ok := v.Sig(sig[len(sig)-1])
		if !ok {
			return v.no("no digest")
		}
		v.Sigs++
		if v.Check(h, sig[:len(sig)-1], keys[0]) {
			sigs = sigs[1:]
		}
		keys = keys[1:]
	}
	v.truth(true)
	return true
}
