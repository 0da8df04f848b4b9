package ref

import (
	"bytes"
	"encoding/binary"
	"errors"
)

// In, Out and Tx are a transaction as it is on the wire.
type In struct {
	Hash    []byte
	Index   uint32
	Script  []byte
	Seq     uint32
	Witness [][]byte
}
type Out struct {
	Value  uint64
	Script []byte
}
type Tx struct {
	Version uint32
	Ins     []In
	Outs    []Out
	Lock    uint32
}

// VarInt encodes a compact size.
func VarInt(n uint64) []byte {
	switch {
	case n < 0xfd:
		return []byte{byte(n)}
	case n <= 0xffff:
		return binary.LittleEndian.AppendUint16([]byte{0xfd}, uint16(n))
	case n <= 0xffffffff:
		return binary.LittleEndian.AppendUint32([]byte{0xfe}, uint32(n))
	}
	return binary.LittleEndian.AppendUint64([]byte{0xff}, n)
}

func vb(o, b []byte) []byte { return append(append(o, VarInt(uint64(len(b)))...), b...) }

var le = binary.LittleEndian

// Bytes serialises, with witness if wit.
func (t *Tx) Bytes(wit bool) []byte {
	o := le.AppendUint32(nil, t.Version)
	if wit {
		o = append(o, 0, 1)
	}
	o = append(o, VarInt(uint64(len(t.Ins)))...)
	for _, i := range t.Ins {
		o = append(o, i.Hash...)
		o = le.AppendUint32(o, i.Index)
		o = vb(o, i.Script)
		o = le.AppendUint32(o, i.Seq)
	}
	o = append(o, VarInt(uint64(len(t.Outs)))...)
	for _, u := range t.Outs {
		o = le.AppendUint64(o, u.Value)
		o = vb(o, u.Script)
	}
	if wit {
		for _, i := range t.Ins {
			o = append(o, VarInt(uint64(len(i.Witness)))...)
			for _, w := range i.Witness {
				o = vb(o, w)
			}
		}
	}
	return le.AppendUint32(o, t.Lock)
}

// HasWitness tells whether any input carries one.
func (t *Tx) HasWitness() bool {
	for _, i := range t.Ins {
		if len(i.Witness) > 0 {
			return true
		}
	}
	return false
}

// Wire is the form sent over the network.
func (t *Tx) Wire() []byte { return t.Bytes(t.HasWitness()) }

var errShort = errors.New("short")

type rd struct {
	b   []byte
	err error
}

func (r *rd) take(n uint64) []byte {
	if r.err != nil || n > uint64(len(r.b)) {
		r.err = errShort
		return nil
	}
	v := r.b[:n:n]
	r.b = r.b[n:]
	return v
}
func (r *rd) u32() uint32 {
	if v := r.take(4); v != nil {
		return le.Uint32(v)
	}
	return 0
}
func (r *rd) u64() uint64 {
	if v := r.take(8); v != nil {
		return le.Uint64(v)
	}
	return 0
}
func (r *rd) vi() uint64 {
	v := r.take(1)
	if v == nil {
		return 0
	}
	switch v[0] {
	case 0xfd:
		if w := r.take(2); w != nil {
			return uint64(le.Uint16(w))
		}
	case 0xfe:
		return uint64(r.u32())
	case 0xff:
		return r.u64()
	default:
		return uint64(v[0])
	}
	return 0
}
func (r *rd) vb() []byte { return r.take(r.vi()) }

// ParseTx decodes the whole of b, with or without a witness section.
func ParseTx(b []byte, wit bool) (*Tx, int, error) {
	r := &rd{b: b}
	t := &Tx{Version: r.u32()}
	if wit {
		if m := r.take(2); m == nil || m[0] != 0 || m[1] != 1 {
			return nil, 0, errors.New("marker")
		}
	}
	n := r.vi()
	for i := uint64(0); i < n && r.err == nil; i++ {
		var in In
		in.Hash = r.take(32)
		in.Index = r.u32()
		in.Script = r.vb()
		in.Seq = r.u32()
		t.Ins = append(t.Ins, in)
	}
	n = r.vi()
	for i := uint64(0); i < n && r.err == nil; i++ {
		var o Out
		o.Value = r.u64()
		o.Script = r.vb()
		t.Outs = append(t.Outs, o)
	}
	if wit {
		for k := range t.Ins {
			n := r.vi()
			for i := uint64(0); i < n && r.err == nil; i++ {
				t.Ins[k].Witness = append(t.Ins[k].Witness, r.vb())
			}
		}
	}
	t.Lock = r.u32()
	return t, len(b) - len(r.b), r.err
}

// TxID in wire order.
func (t *Tx) TxID() []byte { return DSha(t.Bytes(false)) }

// LegacyHash is the pre-segwit signature hash.
func (t *Tx) LegacyHash(idx int, code []byte, ht uint32) []byte {
	base := ht & 0x1f
	one := make([]byte, 32)
	one[0] = 1
	if idx >= len(t.Ins) || (base == 3 && idx >= len(t.Outs)) {
		return one
	}
	c := &Tx{Version: t.Version, Lock: t.Lock}
	for i, in := range t.Ins {
		n := In{Hash: in.Hash, Index: in.Index, Seq: in.Seq}
		if i == idx {
			n.Script = code
		} else if base == 2 || base == 3 {
			n.Seq = 0
		}
		if ht&0x80 != 0 && i != idx {
			continue
		}
		c.Ins = append(c.Ins, n)
	}
	switch base {
	case 2:
	case 3:
		for i := 0; i < idx; i++ {
			c.Outs = append(c.Outs, Out{Value: ^uint64(0)})
		}
		c.Outs = append(c.Outs, t.Outs[idx])
	default:
		c.Outs = t.Outs
	}
	return DSha(le.AppendUint32(c.Bytes(false), ht))
}

// WitnessHash is BIP143.
func (t *Tx) WitnessHash(idx int, code []byte, value uint64, ht uint32) []byte {
	base := ht & 0x1f
	acp := ht&0x80 != 0
	zero := make([]byte, 32)
	prev, seq, outs := zero, zero, zero
	if !acp {
		var b []byte
		for _, i := range t.Ins {
			b = le.AppendUint32(append(b, i.Hash...), i.Index)
		}
		prev = DSha(b)
	}
	if !acp && base != 2 && base != 3 {
		var b []byte
		for _, i := range t.Ins {
			b = le.AppendUint32(b, i.Seq)
		}
		seq = DSha(b)
	}
	so := func(o Out) []byte { return vb(le.AppendUint64(nil, o.Value), o.Script) }
	if base != 2 && base != 3 {
		var b []byte
		for _, o := range t.Outs {
			b = append(b, so(o)...)
		}
		outs = DSha(b)
	} else if base == 3 && idx < len(t.Outs) {
		outs = DSha(so(t.Outs[idx]))
	}
	in := t.Ins[idx]
	o := le.AppendUint32(nil, t.Version)
	o = append(o, prev...)
	o = append(o, seq...)
	o = append(o, in.Hash...)
	o = le.AppendUint32(o, in.Index)
	o = vb(o, code)
	o = le.AppendUint64(o, value)
	o = le.AppendUint32(o, in.Seq)
	o = append(o, outs...)
	o = le.AppendUint32(o, t.Lock)
	o = le.AppendUint32(o, ht)
	return DSha(o)
}

// Output kinds.
const (
	KNone = iota
	KP2PKH
	KP2SH
	KP2WPKH
	KP2WSH
)

// Classify an output script.
func Classify(s []byte) (int, []byte) {
	switch {
	case len(s) == 25 && s[0] == 0x76 && s[1] == 0xa9 && s[2] == 20 && s[23] == 0x88 && s[24] == 0xac:
		return KP2PKH, s[3:23]
	case len(s) == 23 && s[0] == 0xa9 && s[1] == 20 && s[22] == 0x87:
		return KP2SH, s[2:22]
	case len(s) == 22 && s[0] == 0 && s[1] == 20:
		return KP2WPKH, s[2:]
	case len(s) == 34 && s[0] == 0 && s[1] == 32:
		return KP2WSH, s[2:]
	}
	return KNone, nil
}

// ScriptP2PKH and friends build output scripts.
func ScriptP2PKH(h []byte) []byte {
	return append(append([]byte{0x76, 0xa9, 20}, h...), 0x88, 0xac)
}
func ScriptP2SH(h []byte) []byte   { return append(append([]byte{0xa9, 20}, h...), 0x87) }
func ScriptP2WPKH(h []byte) []byte { return append([]byte{0, 20}, h...) }
func ScriptP2WSH(h []byte) []byte  { return append([]byte{0, 32}, h...) }

// Push encodes one data push.
func Push(d []byte) []byte {
	switch n := len(d); {
	case n == 0:
		return []byte{0}
	case n < 76:
		return append([]byte{byte(n)}, d...)
	case n < 256:
		return append([]byte{0x4c, byte(n)}, d...)
	case n < 65536:
		return append([]byte{0x4d, byte(n), byte(n >> 8)}, d...)
	default:
		return append([]byte{0x4e, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, d...)
	}
}

// Multisig builds an m-of-n script.
func Multisig(mm int, keys ...[]byte) []byte {
	o := []byte{0x50 + byte(mm)}
	for _, k := range keys {
		o = append(o, Push(k)...)
	}
	return append(o, 0x50+byte(len(keys)), 0xae)
}

// Pushes splits a script into its data pushes; pushOnly is false when it has
// any other opcode, ok is false when it is malformed.
func Pushes(s []byte) (items [][]byte, pushOnly, ok bool) {
	pushOnly = true
	for len(s) > 0 {
		c := int(s[0])
		s = s[1:]
		n := -1
		switch {
		case c == 0:
			items = append(items, []byte{})
			continue
		case c < 76:
			n = c
		case c == 76:
			if len(s) < 1 {
				return items, false, false
			}
			n, s = int(s[0]), s[1:]
		case c == 77:
			if len(s) < 2 {
				return items, false, false
			}
			n, s = int(le.Uint16(s)), s[2:]
		case c == 78:
			if len(s) < 4 {
				return items, false, false
			}
			n, s = int(le.Uint32(s)), s[4:]
		case c == 79:
			items = append(items, []byte{0x81})
			continue
		case c >= 81 && c <= 96:
			items = append(items, []byte{byte(c - 80)})
			continue
		default:
			pushOnly = false
			continue
		}
		if n > len(s) {
			return items, false, false
		}
		items = append(items, s[:n:n])
		s = s[n:]
	}
	return items, pushOnly, true
}

// ParseMultisig reads an m-of-n script.
func ParseMultisig(s []byte) (mm int, keys [][]byte, ok bool) {
	if len(s) < 3 || s[len(s)-1] != 0xae {
		return
	}
	a, b := int(s[0])-0x50, int(s[len(s)-2])-0x50
	if a < 1 || a > 16 || b < a || b > 16 {
		return
	}
	items, po, k := Pushes(s[1 : len(s)-2])
	if !k || !po || len(items) != b {
		return
	}
	return a, items, true
}

// Authorised tells whether the holders of the keys the spent output commits to
// signed this spend: at least the required number of distinct committed keys
// have a valid signature, over the consensus digest for the hash type it
// carries, among the data the input brings along.  It is necessary for the
// network to accept the spend, however the unlocking data are arranged.
func (t *Tx) Authorised(idx int, prev []byte, value uint64) bool {
	in := t.Ins[idx]
	kind, h := Classify(prev)
	var data [][]byte
	switch kind {
	case KP2PKH, KP2SH:
		data, _, _ = Pushes(in.Script)
	case KP2WPKH, KP2WSH:
		data = in.Witness
	default:
		return false
	}
	check := func(code []byte, keys [][]byte, need int) bool {
		used := map[string]bool{}
		n := 0
		for _, k := range keys {
			pt, ok := ParsePoint(k)
			if !ok || used[string(pt.Compress())] {
				continue
			}
			for _, sig := range data {
				if len(sig) < 2 {
					continue
				}
				r, s, ok := ParseDERStrict(sig[:len(sig)-1])
				if !ok {
					continue
				}
				ht := uint32(sig[len(sig)-1])
				var d []byte
				if kind == KP2PKH || kind == KP2SH {
					d = t.LegacyHash(idx, code, ht)
				} else {
					d = t.WitnessHash(idx, code, value, ht)
				}
				if ECDSAVerify(pt, d, r, s) {
					used[string(pt.Compress())] = true
					n++
					break
				}
			}
		}
		return n >= need
	}
	switch kind {
	case KP2PKH, KP2WPKH:
		for _, k := range data {
			if bytes.Equal(Hash160(k), h) {
				return check(ScriptP2PKH(h), [][]byte{k}, 1)
			}
		}
	case KP2SH, KP2WSH:
		for _, s := range data {
			hh := Hash160(s)
			if kind == KP2WSH {
				hh = Sha256(s)
			}
			if bytes.Equal(hh, h) {
				if mm, keys, ok := ParseMultisig(s); ok {
					return check(s, keys, mm)
				}
			}
		}
	}
	return false
}

// Standard tells whether the network accepts this input of a standard shape:
// push-only canonical unlocking data, strict DER, low S, defined hash types,
// NULLDUMMY, signatures in key order.
func (t *Tx) Standard(idx int, prev []byte, value uint64) bool {
	in := t.Ins[idx]
	kind, h := Classify(prev)
	sigOK := func(code, key, sig []byte) bool {
		if len(sig) < 9 {
			return false
		}
		r, s, ok := ParseDERStrict(sig[:len(sig)-1])
		if !ok || s.Cmp(halfN) > 0 {
			return false
		}
		ht := uint32(sig[len(sig)-1])
		if b := ht &^ 0x80; b < 1 || b > 3 {
			return false
		}
		pt, ok := ParsePoint(key)
		if !ok || key[0] > 4 {
			return false
		}
		var d []byte
		if kind == KP2PKH || kind == KP2SH {
			d = t.LegacyHash(idx, code, ht)
		} else {
			d = t.WitnessHash(idx, code, value, ht)
		}
		return ECDSAVerify(pt, d, r, s)
	}
	var data [][]byte
	switch kind {
	case KP2PKH, KP2SH:
		if len(in.Witness) > 0 {
			return false
		}
		var po, ok bool
		if data, po, ok = Pushes(in.Script); !ok || !po {
			return false
		}
		var re []byte
		for _, d := range data {
			re = append(re, Push(d)...)
		}
		if !bytes.Equal(re, in.Script) {
			return false
		}
	case KP2WPKH, KP2WSH:
		if len(in.Script) > 0 {
			return false
		}
		data = in.Witness
	default:
		return false
	}
	switch kind {
	case KP2PKH, KP2WPKH:
		return len(data) == 2 && bytes.Equal(Hash160(data[1]), h) &&
			(kind == KP2PKH || len(data[1]) == 33) && sigOK(ScriptP2PKH(h), data[1], data[0])
	}
	if len(data) < 2 {
		return false
	}
	s := data[len(data)-1]
	hh := Hash160(s)
	if kind == KP2WSH {
		hh = Sha256(s)
	}
	mm, keys, ok := ParseMultisig(s)
	if !ok || !bytes.Equal(hh, h) || len(data) != mm+2 || len(data[0]) != 0 {
		return false
	}
	if kind == KP2SH && len(s) > 520 {
		return false
	}
	if kind == KP2WSH {
		for _, k := range keys {
			if len(k) != 33 {
				return false
			}
		}
	}
	k := 0
	for _, sig := range data[1 : len(data)-1] {
		for k < len(keys) && !sigOK(s, keys[k], sig) {
			k++
		}
		if k == len(keys) {
			return false
		}
		k++
	}
	return true
}

var halfN = hx("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0")

// MerkleRoot of the leaves, in wire order.
func MerkleRoot(l [][]byte) []byte {
	if len(l) == 0 {
		return nil
	}
	for len(l) > 1 {
		if len(l)%2 == 1 {
			l = append(append([][]byte{}, l...), l[len(l)-1])
		}
		var n [][]byte
		for i := 0; i < len(l); i += 2 {
			n = append(n, DSha(append(append([]byte{}, l[i]...), l[i+1]...)))
		}
		l = n
	}
	return l[0]
}
