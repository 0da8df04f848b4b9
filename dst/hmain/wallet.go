package hmain

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"

	"vsim/ref"
	"vsim/sim"
)

// ---------------------------------------------------------------- payments

// coin is an unspent output and what its owners know about it.  Everything in
// it is computed by the reference model.
type coin struct {
	Kind   int
	M      int
	Keys   [][]byte // committed public keys, in script order
	Prev   []byte   // locking script
	Redeem []byte   // redeem or witness script
	Txid   string   // as displayed
	N      uint32
	Value  uint64
	HT     byte
	prv    []*big.Int
	owner  []int
}

func rev(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

func pubBytes(d *big.Int, comp bool) []byte {
	if comp {
		return refPub(d).Compress()
	}
	return refPub(d).Uncompressed()
}

// lock fills in the scripts of a coin from its keys.
func (c *coin) lock() {
	switch c.Kind {
	case ref.KP2PKH:
		c.Prev = ref.ScriptP2PKH(ref.Hash160(c.Keys[0]))
	case ref.KP2WPKH:
		c.Prev = ref.ScriptP2WPKH(ref.Hash160(c.Keys[0]))
	case ref.KP2SH:
		c.Redeem = ref.Multisig(c.M, c.Keys...)
		c.Prev = ref.ScriptP2SH(ref.Hash160(c.Redeem))
	case ref.KP2WSH:
		c.Redeem = ref.Multisig(c.M, c.Keys...)
		c.Prev = ref.ScriptP2WSH(ref.Sha256(c.Redeem))
	}
}

func (c *coin) segwit() bool { return c.Kind == ref.KP2WPKH || c.Kind == ref.KP2WSH }
func (c *coin) multi() bool  { return c.Kind == ref.KP2SH || c.Kind == ref.KP2WSH }
func (c *coin) comp() bool   { return len(c.Keys[0]) == 33 }

// digest is what a signature of this coin's owner signs.
func (c *coin) digest(t *ref.Tx, idx int, ht byte) []byte {
	code := c.Redeem
	if !c.multi() {
		code = ref.ScriptP2PKH(ref.Hash160(c.Keys[0]))
	}
	if c.segwit() {
		return t.WitnessHash(idx, code, c.Value, uint32(ht))
	}
	return t.LegacyHash(idx, code, uint32(ht))
}

// unlock puts signatures (in key order, hash type appended) into an input.
func (c *coin) unlock(in *ref.In, sigs [][]byte) {
	in.Script, in.Witness = nil, nil
	var items [][]byte
	if c.multi() {
		items = append(append([][]byte{{}}, sigs...), c.Redeem)
	} else {
		items = [][]byte{sigs[0], c.Keys[0]}
	}
	if c.segwit() {
		in.Witness = items
		return
	}
	for _, i := range items {
		in.Script = append(in.Script, ref.Push(i)...)
	}
}

// refSign makes the reference signature of one committed key.
func (c *coin) refSign(t *ref.Tx, idx, key int, ht byte) []byte {
	d := c.digest(t, idx, ht)
	k := new(big.Int).SetBytes(ref.Sha256(append(ref.B32(c.prv[key]), d...)))
	k.Mod(k, new(big.Int).Sub(ref.N, big.NewInt(1)))
	r, s := ref.ECDSASign(c.prv[key], d, k.Add(k, big.NewInt(1)))
	return append(ref.DER(r, s), ht)
}

var hashTypes = []byte{1, 1, 1, 2, 3, 0x81, 0x82, 0x83}

// drawCoin draws a coin of some of the given private keys.
func drawCoin(c *sim.Chooser, keys []*big.Int, kinds ...int) *coin {
	k := &coin{Kind: sim.Pick(c, "coin-kind", kinds...), M: 1}
	n := 1
	comp := true
	if k.multi() {
		n = 1 + c.Choose(len(keys), "coin-keys")
		k.M = 1 + c.Choose(n, "coin-m")
	}
	if k.Kind == ref.KP2PKH || k.Kind == ref.KP2SH {
		comp = n > 7 || !c.OneIn(4, "coin-uncompressed")
	}
	perm := make([]int, len(keys))
	for i := range perm {
		perm[i] = i
	}
	for i := 0; i < n; i++ {
		j := i + c.Choose(len(perm)-i, "coin-key")
		perm[i], perm[j] = perm[j], perm[i]
		k.owner = append(k.owner, perm[i])
		k.prv = append(k.prv, keys[perm[i]])
		k.Keys = append(k.Keys, pubBytes(keys[perm[i]], comp))
	}
	k.Txid = hex.EncodeToString(c.Bytes(32, "coin-txid"))
	k.N = sim.Pick(c, "coin-n", uint32(0), 1, 2, 300, 0xfffffffe)
	k.Value = drawValue(c, "coin-value")
	k.HT = sim.Pick(c, "hash-type", hashTypes...)
	k.lock()
	return k
}

func drawValue(c *sim.Chooser, what string) uint64 {
	switch c.Choose(6, what) {
	case 0:
		return 100000
	case 1:
		return uint64(1000 + c.Choose(200000, what+"-v"))
	case 2:
		return uint64(21e14) / 8
	case 3:
		return 1 << 32
	case 4:
		return uint64(c.Choose(1000, what+"-v"))
	}
	return 1 + c.U64(what+"-v")%uint64(21e14/8)
}

// dest is a payment's destination.
type dest struct {
	Kind  int
	Hash  []byte
	Value uint64
}

func drawDest(c *sim.Chooser, value uint64) dest {
	d := dest{Kind: sim.Pick(c, "dest-kind", ref.KP2PKH, ref.KP2SH, ref.KP2WPKH, ref.KP2WSH), Value: value}
	n := 20
	if d.Kind == ref.KP2WSH {
		n = 32
	}
	d.Hash = c.Bytes(n, "dest-hash")
	if c.OneIn(6, "dest-zeros") {
		for i := 0; i < 1+c.Choose(n, "dest-nz"); i++ {
			d.Hash[i] = 0
		}
	}
	return d
}

func (d dest) script() []byte {
	switch d.Kind {
	case ref.KP2PKH:
		return ref.ScriptP2PKH(d.Hash)
	case ref.KP2SH:
		return ref.ScriptP2SH(d.Hash)
	case ref.KP2WPKH:
		return ref.ScriptP2WPKH(d.Hash)
	}
	return ref.ScriptP2WSH(d.Hash)
}

// str is the address as the reference model writes it.
func (d dest) str(main bool) string {
	v, hrp := []byte{0x6f, 0xc4}, "tb"
	if main {
		v, hrp = []byte{0, 5}, "bc"
	}
	switch d.Kind {
	case ref.KP2PKH:
		return ref.Base58Check(append([]byte{v[0]}, d.Hash...))
	case ref.KP2SH:
		return ref.Base58Check(append([]byte{v[1]}, d.Hash...))
	}
	return ref.SegwitAddr(hrp, 0, d.Hash)
}

func netOf(main bool) *network.Network {
	if main {
		return network.MainNet
	}
	return network.TestNet
}

// addr is the library's address of a destination, from its string.
func (d dest) addr(main bool) (xcore.Address, error) {
	a, err := xcore.DecodeAddress(d.str(main), netOf(main))
	if err != nil {
		return nil, fmt.Errorf("address %s: %v", d.str(main), err)
	}
	return a, nil
}

// pay is a payment as the parties agree on it.
type pay struct {
	Main   bool
	Coins  []*coin
	Dests  []dest
	Change *dest
	Fee    uint64
	Lock   uint32
	Data   [][]byte
}

// drawPay draws destinations and a fee for some coins, or nil when the coins
// are worth nothing.
func drawPay(c *sim.Chooser, coins []*coin) *pay {
	p := &pay{Coins: coins, Main: c.Choose(2, "net") == 1, Lock: sim.Pick(c, "locktime", uint32(0), 1, 650000, 0xffffffff)}
	var in uint64
	for _, k := range coins {
		in += k.Value
	}
	p.Fee = sim.Pick(c, "fee", uint64(1000), 0, 1, 50000, 1e8)
	if p.Fee > in {
		p.Fee = in
	}
	left := in - p.Fee
	n := 1 + c.Choose(3, "dests")
	for i := 0; i < n; i++ {
		v := left
		if i < n-1 || c.Choose(3, "all") > 0 {
			v = 0
			if left > 0 {
				v = c.U64("amount") % (left + 1)
			}
		}
		left -= v
		p.Dests = append(p.Dests, drawDest(c, v))
	}
	if left > 0 {
		d := drawDest(c, left)
		p.Change = &d
	}
	for i := c.Choose(3, "data"); i > 0; i-- {
		p.Data = append(p.Data, c.Bytes(sim.Pick(c, "data-len", 5, 2, 75, 76, 80), "data-bytes"))
	}
	return p
}

// model is the unsigned transaction the payment means.
func (p *pay) model() *ref.Tx {
	t := &ref.Tx{Version: 1, Lock: p.Lock}
	for _, k := range p.Coins {
		id, _ := hex.DecodeString(k.Txid)
		t.Ins = append(t.Ins, ref.In{Hash: rev(id), Index: k.N, Seq: 0xffffffff})
	}
	for _, d := range p.Dests {
		t.Outs = append(t.Outs, ref.Out{Value: d.Value, Script: d.script()})
	}
	if p.Change != nil {
		t.Outs = append(t.Outs, ref.Out{Value: p.Change.Value, Script: p.Change.script()})
	}
	for _, d := range p.Data {
		t.Outs = append(t.Outs, ref.Out{Script: append([]byte{0x6a}, ref.Push(d)...)})
	}
	return t
}

// builder is the payment as a wallet writes it down.
func (p *pay) builder(sign func(i int, b *xcore.TransactionBuilder)) (*xcore.TransactionBuilder, error) {
	b := xcore.NewTransactionBuilder()
	for i, k := range p.Coins {
		b.AddCoin(xcore.NewCoinBuilder().AddOutput(k.Txid, k.N, k.Value, hex.EncodeToString(k.Prev)).ToCoins()[0])
		if k.Redeem != nil {
			b.SetRedeemScript(k.Redeem)
		}
		if !k.comp() {
			b.SetPubKeyUncompressed()
		}
		b.SetSigHashType(xcore.SigHashType(k.HT))
		if sign != nil {
			sign(i, b)
		}
		if i < len(p.Dests) {
			a, err := p.Dests[i].addr(p.Main)
			if err != nil {
				return nil, err
			}
			b.To(a, p.Dests[i].Value)
		}
		b.Then()
	}
	for i := len(p.Coins); i < len(p.Dests); i++ {
		a, err := p.Dests[i].addr(p.Main)
		if err != nil {
			return nil, err
		}
		b.To(a, p.Dests[i].Value).Then()
	}
	if p.Change != nil {
		a, err := p.Change.addr(p.Main)
		if err != nil {
			return nil, err
		}
		b.SetChange(a)
	}
	for _, d := range p.Data {
		b.AddPushData(d)
	}
	return b.SendFees(p.Fee).SetLockTime(p.Lock), nil
}

// wire is the payment read back from an unsigned transaction.
func (p *pay) wire(raw []byte) (*xcore.Transaction, error) {
	tx := xcore.NewTransaction()
	if err := tx.DeserializeNoWitness(raw); err != nil {
		return nil, err
	}
	return tx, p.attach(tx)
}

// attach tells a decoded transaction what it spends.
func (p *pay) attach(tx *xcore.Transaction) error {
	for i, k := range p.Coins {
		if err := tx.SetTxIn(i, k.Value, k.Prev, k.Redeem); err != nil {
			return err
		}
	}
	return nil
}

// decode reads a transaction off the wire and attaches the coins.
func (p *pay) decode(raw []byte) (*xcore.Transaction, error) {
	tx := xcore.NewTransaction()
	var err error
	if len(raw) > 5 && raw[4] == 0 {
		err = tx.Deserialize(raw)
	} else {
		err = tx.DeserializeNoWitness(raw)
	}
	if err != nil {
		return nil, err
	}
	return tx, p.attach(tx)
}

func encode(tx *xcore.Transaction) []byte {
	if tx.HasWitness() {
		return tx.Serialize()
	}
	return tx.SerializeNoWitness()
}

// judge compares a finished raw transaction with the payment.
func (p *pay) judge(raw []byte) string {
	t, n, err := ref.ParseTx(raw, len(raw) > 5 && raw[4] == 0)
	if err != nil || n != len(raw) {
		return fmt.Sprintf("does not parse (%v, %d of %d bytes)", err, n, len(raw))
	}
	if !bytes.Equal(t.Wire(), raw) {
		return "is not in its canonical wire form"
	}
	m := p.model()
	u := *t
	u.Ins = nil
	for _, in := range t.Ins {
		in.Script, in.Witness = nil, nil
		u.Ins = append(u.Ins, in)
	}
	if !bytes.Equal(u.Bytes(false), m.Bytes(false)) {
		return fmt.Sprintf("is not the agreed payment: %x, agreed %x", u.Bytes(false), m.Bytes(false))
	}
	for i, k := range p.Coins {
		if !t.Standard(i, k.Prev, k.Value) {
			return fmt.Sprintf("has an input %d (kind %d, %d of %d, hash type %#x) the network refuses", i, k.Kind, k.M, len(k.Keys), k.HT)
		}
	}
	return ""
}

func txidOf(raw []byte) string {
	t, _, err := ref.ParseTx(raw, len(raw) > 5 && raw[4] == 0)
	if err != nil {
		return ""
	}
	return hex.EncodeToString(rev(t.TxID()))
}

func libKeys(ds []*big.Int) (o []*xcrypto.PrvKey) {
	for _, d := range ds {
		o = append(o, libPrv(d))
	}
	return
}

// drawKeys draws distinct private keys.
func drawKeys(c *sim.Chooser, n int) (o []*big.Int) {
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		d := drawKey(c, "key")
		for seen[d.String()] || seen[new(big.Int).Sub(ref.N, d).String()] {
			d = new(big.Int).Add(d, big.NewInt(1))
			d.Mod(d, new(big.Int).Sub(ref.N, big.NewInt(1)))
			d.Add(d, big.NewInt(1))
		}
		seen[d.String()] = true
		o = append(o, d)
	}
	return
}
