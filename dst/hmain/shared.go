package hmain

import (
	"bytes"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcore/bip39/words"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
	"github.com/keyfuse/tokucore/xcrypto/ripemd160"
	"github.com/keyfuse/tokucore/xcrypto/schnorr"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/xvm"

	"vsim/core"
	"vsim/ref"
	"vsim/sim"
)

// ---------------------------------------------------------------- C16: shared objects

// op is an operation on shared objects: run returns what was observed, ok says
// whether that is what the operation gives when it runs alone.
type op struct {
	name  string
	fresh bool // builds its own objects
	run   func() string
	ok    func(got string) bool
}

func same(want string) func(string) bool { return func(got string) bool { return got == want } }

func h(b []byte) string { return hex.EncodeToString(b) }

func errStr(err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return "ok"
}

func isErr(got string) bool { return strings.HasPrefix(got, "error: ") }

type arena struct {
	r    *core.R
	ops  []op
	sums []func() string // fingerprints of arguments that must not change
	rep  map[string]string
	page []byte // the callers' slices
	used int
}

func (a *arena) add(name string, run func() string, ok func(string) bool) {
	a.ops = append(a.ops, op{name: name, run: run, ok: ok})
}
func (a *arena) fresh(name string, run func() string, ok func(string) bool) {
	a.ops = append(a.ops, op{name: name, run: run, ok: ok, fresh: true})
}

// arg registers a caller's slice: library calls must leave it alone.
// All of them lie next to each other in one page, as the fields of a message
// that was received do: what is written behind one of them is in the next.
func (a *arena) arg(b []byte) []byte {
	if a.page == nil {
		page := make([]byte, 1<<12)
		for i := range page {
			page[i] = 0xa5
		}
		a.page = page
		a.sums = append(a.sums, func() string { return h(page[:a.used+64]) })
	}
	if a.used+len(b)+64 > len(a.page) {
		a.sums = append(a.sums, func() string { return h(b[:cap(b)]) })
		return b
	}
	w := a.page[a.used : a.used+len(b)]
	copy(w, b)
	a.used += len(b)
	return w
}

// once: the same question gets the same answer every time.
func (a *arena) once(name, got string) bool {
	if w, ok := a.rep[name]; ok {
		return w == got
	}
	a.rep[name] = got
	return true
}

func (a *arena) sigOps(cold bool, id string, d *big.Int, hash []byte) {
	P := refPub(d)
	hash = a.arg(hash)
	key := func() *xcrypto.PrvKey { return libPrv(d) }
	pub := func() *xcrypto.PubKey { return libPub(P) }
	if !cold {
		k, p := libPrv(d), libPub(P)
		key = func() *xcrypto.PrvKey { return k }
		pub = func() *xcrypto.PubKey { return p }
		a.sums = append(a.sums, func() string { return k.D.String() + k.X.String() + k.Y.String() + p.X.String() + p.Y.String() })
	}
	add := a.add
	if cold {
		add = a.fresh
	}
	add("ecdsa-sign"+id, func() string {
		s, err := xcrypto.EcdsaSign(key(), hash)
		if err != nil {
			return errStr(err)
		}
		return h(s)
	}, func(got string) bool {
		s, _ := hex.DecodeString(got)
		return !isErr(got) && judgeSig(P, hash, s) == "" && a.once("ecdsa"+id, got)
	})
	add("schnorr-sign"+id, func() string {
		s, err := xcrypto.SchnorrSign(key(), hash)
		if err != nil {
			return errStr(err)
		}
		return h(s)
	}, func(got string) bool {
		s, _ := hex.DecodeString(got)
		return !isErr(got) && ref.SchnorrVerify(P, hash, s) && a.once("schnorr"+id, got)
	})
	kk := new(big.Int).SetBytes(ref.Sha256(append(ref.B32(d), hash...)))
	kk.Mod(kk, new(big.Int).Sub(ref.N, big.NewInt(1))).Add(kk, big.NewInt(1))
	rr, ss := ref.ECDSASign(d, hash, kk)
	good := a.arg(ref.DER(rr, ss))
	bad := append([]byte(nil), hash...)
	bad[a.r.C.Choose(32, "bit")] ^= 4
	bad = a.arg(bad)
	add("ecdsa-verify"+id, func() string { return errStr(xcrypto.EcdsaVerify(pub(), hash, good)) }, same("ok"))
	add("ecdsa-verify-bad"+id, func() string { return errStr(xcrypto.EcdsaVerify(pub(), bad, good)) }, isErr)
	add("serialize"+id, func() string {
		k := key()
		p := k.PubKey()
		return h(k.Serialize()) + h(p.Serialize()) + h(p.SerializeUncompressed()) + h(p.Hash160())
	}, same(h(ref.B32(d))+h(P.Compress())+h(P.Uncompressed())+h(ref.Hash160(P.Compress()))))
	Q := ref.MulG(new(big.Int).SetBytes(hash))
	if !Q.Inf() && Q.On() && !Q.Eq(P) && !Q.Eq(P.Neg()) {
		add("pub-add"+id, func() string { return h(pub().Add(libPub(Q)).SerializeUncompressed()) }, same(h(ref.Add(P, Q).Uncompressed())))
	}
	for _, enc := range [][]byte{P.Compress(), P.Uncompressed()} {
		enc := a.arg(enc)
		add("pub-parse"+id, func() string {
			p, err := xcrypto.PubKeyFromBytes(enc)
			if err != nil {
				return errStr(err)
			}
			return h(p.SerializeUncompressed())
		}, same(h(P.Uncompressed())))
	}
}

func (a *arena) hdOps(cold bool, id string, seed []byte) {
	c := a.r.C
	seed = a.arg(seed)
	main := c.Choose(2, "net") == 1
	net := netOf(main)
	vprv, vpub := []byte{4, 0x35, 0x83, 0x94}, []byte{4, 0x35, 0x87, 0xcf}
	if main {
		vprv, vpub = []byte{4, 0x88, 0xad, 0xe4}, []byte{4, 0x88, 0xb2, 0x1e}
	}
	m := ref.Master(seed)
	// the shared key: the master, a child or grandchild
	var at []uint32
	for i := c.Choose(3, "depth"); i > 0; i-- {
		n := sim.Pick(c, "base", uint32(0), 1, 0x01020304, 1<<31, 1<<31+44, 1<<32-1)
		x, err := m.Child(n)
		if err != nil {
			break
		}
		m, at = x, append(at, n)
	}
	key := func() *bip32.HDKey {
		k := bip32.NewHDKey(seed)
		for _, n := range at {
			x, err := k.Derive(n)
			if err != nil {
				a.r.Fail("derive", "child %d of a private key was refused: %v", n, err)
				return k
			}
			k = x
		}
		return k
	}
	add := a.fresh
	if !cold {
		k := key()
		key = func() *bip32.HDKey { return k }
		add = a.add
		a.sums = append(a.sums, func() string { return k.ToString(net) + k.HDPublicKey().ToString(net) })
	}
	add("hd-string"+id, func() string { return key().ToString(net) }, same(m.String(vprv)))
	add("hd-public"+id, func() string { return key().HDPublicKey().ToString(net) }, same(m.Neuter().String(vpub)))
	add("hd-keys"+id, func() string {
		k := key()
		return h(k.PublicKey().Serialize()) + h(k.PrivateKey().Serialize()) + h(k.HDPublicKey().PublicKey().Serialize())
	}, same(h(m.Pub.Compress())+h(ref.B32(m.K))+h(m.Pub.Compress())))
	n := uint32(c.Choose(5, "child"))
	if c.Choose(2, "hard") == 1 {
		n += 1 << 31
	}
	if x, err := m.Child(n); err == nil {
		add("hd-child"+id, func() string {
			k, err := key().Derive(n)
			if err != nil {
				return errStr(err)
			}
			return k.ToString(net) + k.HDPublicKey().ToString(net)
		}, same(x.String(vprv)+x.Neuter().String(vpub)))
		j := uint32(c.Choose(1000, "grandchild"))
		if y, err := x.Child(j); err == nil {
			p := fmt.Sprintf("m/%d/%d", n, j)
			if n >= 1<<31 {
				p = fmt.Sprintf("m/%d'/%d", n-1<<31, j)
			}
			add("hd-path"+id, func() string {
				k, err := key().DeriveByPath(p)
				if err != nil {
					return errStr(err)
				}
				return k.ToString(net) + h(k.PrivateKey().Serialize()) + h(k.PublicKey().Serialize())
			}, same(y.String(vprv)+h(ref.B32(y.K))+h(y.Pub.Compress())))
		}
		if n < 1<<31 {
			add("hd-public-child"+id, func() string {
				k, err := key().HDPublicKey().Derive(n)
				if err != nil {
					return errStr(err)
				}
				return k.ToString(net)
			}, same(x.Neuter().String(vpub)))
		}
	}
	s := m.String(vprv)
	a.fresh("hd-parse"+id, func() string {
		k, err := bip32.NewHDKeyFromString(s)
		if err != nil {
			return errStr(err)
		}
		return k.ToString(net)
	}, same(s))
}

func (a *arena) addrOps(cold bool, id string) {
	c := a.r.C
	main := c.Choose(2, "net") == 1
	d := drawDest(c, 0)
	s := d.str(main)
	a.fresh("addr-decode"+id, func() string {
		x, err := xcore.DecodeAddress(s, netOf(main))
		if err != nil {
			return errStr(err)
		}
		l, err := x.LockingScript()
		return h(l) + errStr(err)
	}, same(h(d.script())+"ok"))
	a.fresh("addr-wrong-net"+id, func() string {
		_, err := xcore.DecodeAddress(s, netOf(!main))
		return errStr(err)
	}, isErr)
	if !cold {
		x, err := d.addr(main)
		if err != nil {
			a.r.Fail("address", "%v", err)
			return
		}
		a.add("addr-string"+id, func() string {
			l, err := x.LockingScript()
			return x.ToString(netOf(main)) + h(l) + errStr(err)
		}, same(s+h(d.script())+"ok"))
	}
	raw := a.arg(c.Bytes(1+c.Choose(40, "b58-len"), "b58"))
	a.fresh("base58"+id, func() string {
		e := xbase.Base58Encode(raw)
		return e + h(xbase.Base58Decode(e))
	}, same(ref.Base58(raw)+h(raw)))
	a.fresh("base58check"+id, func() string {
		e := xbase.Base58CheckEncode(raw, 5)
		b, v, err := xbase.Base58CheckDecode(e)
		return fmt.Sprint(e, h(b), v, err)
	}, same(fmt.Sprint(ref.Base58Check(append([]byte{5}, raw...)), h(raw), byte(5), nil)))
	a.fresh("hashes"+id, func() string {
		w := ripemd160.New()
		w.Write(raw)
		return h(xcrypto.Hash160(raw)) + h(xcrypto.DoubleSha256(raw)) + h(xcrypto.Sha256(raw)) + h(xcrypto.Ripemd160(raw)) + h(w.Sum(nil))
	}, same(h(ref.Hash160(raw))+h(ref.DSha(raw))+h(ref.Sha256(raw))+h(ref.Ripemd160(raw))+h(ref.Ripemd160(raw))))
	sc := a.arg(d.script())
	a.fresh("script"+id, func() string {
		x, err := xcore.ParseLockingScript(sc)
		if err != nil {
			return errStr(err)
		}
		b, err := x.GetRawLockingScriptBytes()
		return h(b) + x.GetAddress().ToString(netOf(main)) + errStr(err) + fmt.Sprint(a.once("disasm"+id, xvm.DisasmString(sc)))
	}, same(h(d.script())+s+"ok"+"true"))
}

// byteOps: what is computed from plain slices.
func (a *arena) byteOps(id string) {
	c := a.r.C
	var five []byte
	for i := 1 + c.Choose(40, "five-len"); i > 0; i-- {
		five = append(five, byte(c.Choose(32, "five")))
	}
	hrp := sim.Pick(c, "hrp", "bc", "tb", "a")
	want := ref.Bech32(hrp, five)
	plain := five
	five = a.arg(five)
	prog := c.Bytes(sim.Pick(c, "program", 20, 32, 2, 40), "prog")
	ver := byte(c.Choose(17, "witness-version"))
	addr := ref.SegwitAddr(hrp, ver, prog)
	prog = a.arg(prog)
	a.fresh("bech32"+id, func() string {
		s, err := xbase.Bech32Encode(hrp, five)
		if err != nil {
			return errStr(err)
		}
		p, d, err := xbase.Bech32Decode(s)
		return s + p + h(d) + errStr(err)
	}, same(want+hrp+h(plain)+"ok"))
	a.fresh("witness-address"+id, func() string {
		s, err := xbase.WitnessEncode(hrp, ver, prog)
		if err != nil {
			return errStr(err)
		}
		p, v, d, err := xbase.WitnessDecode(s)
		return fmt.Sprint(s, p, v, h(d), err)
	}, same(fmt.Sprint(addr, hrp, ver, h(prog), nil)))
	key, P, m := drawKey(c, "key"), refPub(drawKey(c, "point")), c.Bytes(32, "message")
	rx := ref.B32(refPub(key).X)
	e := ref.Sha256(append(append(append([]byte{}, rx...), P.Compress()...), m...))
	k0 := ref.Sha256(append(ref.B32(key), m...))
	d, rx, m := a.arg(ref.B32(key)), a.arg(rx), a.arg(m)
	mod := func(b []byte) *big.Int { return new(big.Int).Mod(new(big.Int).SetBytes(b), ref.N) }
	a.fresh("challenge"+id, func() string {
		k, err := schnorr.GetK0(m, d, ref.N)
		return fmt.Sprint(k, err, schnorr.GetE(secp256k1.SECP256K1(), m, P.X, P.Y, rx))
	}, same(fmt.Sprint(mod(k0), nil, mod(e))))
	txid := a.arg(c.Bytes(32, "txid"))
	a.fresh("txid"+id, func() string {
		s := xbase.NewIDToString(txid)
		b, err := xbase.NewIDFromString(s)
		return s + h(b) + errStr(err)
	}, same(h(rev(txid))+h(txid)+"ok"))
	pass, salt := a.arg(c.Bytes(c.Choose(150, "pass-len"), "pass")), a.arg(c.Bytes(c.Choose(40, "salt-len"), "salt"))
	dk := h(ref.PBKDF2(pass, salt, 2, 64))
	a.fresh("stretch"+id, func() string { return h(pbkdf2.Key(pass, salt, 2, 64, sha512.New)) }, same(dk))
	var keys [][]byte
	lock := []byte{0x51}
	for i := 1 + c.Choose(3, "keys"); i > 0; i-- {
		k := refPub(drawKey(c, "multisig-key")).Compress()
		lock = append(append(lock, 33), k...)
		keys = append(keys, a.arg(k))
	}
	lock = append(lock, 0x50+byte(len(keys)), 0xae)
	a.fresh("multisig"+id, func() string {
		s := xcore.NewPayToMultiSigScript(1, keys...)
		b, err := s.GetLockingScriptBytes()
		h1, err1 := s.Hash160()
		h2, err2 := s.Sha256()
		return fmt.Sprint(h(b), err, h(h1), err1, h(h2), err2)
	}, same(fmt.Sprint(h(lock), nil, h(ref.Hash160(lock)), nil, h(ref.Sha256(lock)), nil)))
	// <word> | HASH160 <hash> EQUALVERIFY 1
	word := c.Bytes(1+c.Choose(70, "word-len"), "word")
	hw := ref.Hash160(word)
	unlock := a.arg(append([]byte{byte(len(word))}, word...))
	locking := a.arg(append(append([]byte{0xa9, 20}, hw...), 0x88, 0x51))
	a.fresh("script-run"+id, func() string {
		return errStr(xvm.NewEngine().Verify(unlock, locking)) + h(xvm.RemoveOpcode(locking, 0xab))
	}, same("ok"+h(locking)))
	sec := a.arg(P.Compress())
	secU := a.arg(P.Uncompressed())
	a.fresh("point"+id, func() string {
		p, err := xcrypto.PubKeyFromBytes(sec)
		q, err2 := xcrypto.PubKeyFromBytes(secU)
		if err != nil || err2 != nil {
			return errStr(err) + errStr(err2)
		}
		return h(p.SerializeUncompressed()) + h(q.SerializeCompressed())
	}, same(h(secU)+h(sec)))
}

func (a *arena) merkleOps(cold bool, id string) {
	c := a.r.C
	n := 1 + c.Choose(9, "leaves")
	var l [][]byte
	for i := 0; i < n; i++ {
		l = append(l, a.arg(c.Bytes(32, "leaf")))
	}
	root := ref.MerkleRoot(l)
	tree := func() *xcrypto.Merkle { return xcrypto.NewMerkle(l) }
	add := a.fresh
	if !cold {
		t := xcrypto.NewMerkle(l)
		tree, add = func() *xcrypto.Merkle { return t }, a.add
	}
	i := c.Choose(n, "leaf-index")
	add("merkle"+id, func() string {
		t := tree()
		p := t.Proofs(l[i])
		return h(t.Root()) + fmt.Sprint(t.Verify(l[i], t.Root(), p), t.Verify(l[i], l[i], p) == (n == 1))
	}, same(h(root)+"true true"))
}

func (a *arena) paillierOps(id string) {
	c := a.r.C
	pk, sk, err := paillier.GenerateKeyPair(1024)
	if err != nil {
		a.r.Fail("paillier", "key generation failed: %v", err)
		return
	}
	a.sums = append(a.sums, func() string { return pk.N.String() + pk.NN.String() + pk.G.String() })
	m := new(big.Int).SetBytes(c.Bytes(32, "plain"))
	f := new(big.Int).SetBytes(c.Bytes(8, "factor"))
	a.sums = append(a.sums, func() string { return m.String() + f.String() })
	ct, err := pk.Encrypt(m)
	if err != nil {
		a.r.Fail("paillier", "encryption failed: %v", err)
		return
	}
	a.sums = append(a.sums, func() string { return ct.String() })
	a.add("paillier-encrypt"+id, func() string {
		x, err := pk.Encrypt(m)
		if err != nil {
			return errStr(err)
		}
		y, err := sk.Decrypt(x)
		return fmt.Sprint(y, x.Cmp(ct) != 0, err)
	}, same(fmt.Sprint(m, true, nil)))
	a.add("paillier-linear"+id, func() string {
		x, err := pk.MultPlaintext(ct, f)
		if err != nil {
			return errStr(err)
		}
		if x, err = pk.AddPlaintext(x, m); err != nil {
			return errStr(err)
		}
		if x, err = pk.Add(x, ct); err != nil {
			return errStr(err)
		}
		y, err := sk.Decrypt(pk.Sub(x, ct))
		return fmt.Sprint(y, err)
	}, same(fmt.Sprint(new(big.Int).Add(new(big.Int).Mul(m, f), m), nil)))
}

var lists = map[string][]string{"english": words.English, "chinese": words.Chinese, "japanese": words.Japanese}

func (a *arena) mnemonicOps(id string) {
	c := a.r.C
	ent := a.arg(c.Bytes(16+4*c.Choose(5, "entropy-len"), "entropy"))
	m := ref.Mnemonic(ent, words.English)
	a.fresh("mnemonic"+id, func() string {
		s, err := bip39.NewMnemonic(ent)
		return s + errStr(err)
	}, same(m+"ok"))
	a.fresh("mnemonic-entropy"+id, func() string {
		e, err := bip39.EntropyFromMnemonic(m)
		e2, err2 := bip39.MnemonicToByteArray(m, true)
		return h(e) + errStr(err) + h(e2) + errStr(err2)
	}, same(h(ent)+"ok"+h(ent)+"ok"))
	w := strings.Fields(m)
	i := c.Choose(len(w), "word")
	w[i] += "x"
	bad := strings.Join(w, " ")
	a.fresh("mnemonic-bad"+id, func() string {
		_, err := bip39.EntropyFromMnemonic(bad)
		return fmt.Sprint(err != nil, bip39.IsMnemonicValid(bad), bip39.IsMnemonicValid(m))
	}, same("true false true"))
	if c.OneIn(6, "seed") {
		want := h(ref.PBKDF2([]byte(m), []byte("mnemonicpw"), 2048, 64))
		a.fresh("mnemonic-seed"+id, func() string {
			s, err := bip39.NewSeedWithErrorChecking(m, "pw")
			return h(s) + errStr(err)
		}, same(want+"ok"))
	}
}

// txOps: reading one finished transaction.
func (a *arena) txOps(id string, keys []*big.Int) {
	c := a.r.C
	var coins []*coin
	for i := 1 + c.Choose(2, "coins"); i > 0; i-- {
		coins = append(coins, drawCoin(c, keys, ref.KP2PKH, ref.KP2SH, ref.KP2WPKH, ref.KP2WSH))
	}
	p := drawPay(c, coins)
	m := p.model()
	for i, k := range p.Coins {
		var sigs [][]byte
		for j := 0; j < k.M; j++ {
			sigs = append(sigs, k.refSign(m, i, j, k.HT))
		}
		k.unlock(&m.Ins[i], sigs)
	}
	raw := m.Wire()
	tx, err := p.decode(raw)
	if err != nil {
		a.r.Fail("decode", "the payment does not decode: %v", err)
		return
	}
	idHex := h(rev(m.TxID()))
	a.sums = append(a.sums, func() string { return h(encode(tx)) })
	a.add("tx-verify"+id, func() string { return errStr(tx.Verify()) }, same("ok"))
	a.add("tx-bytes"+id, func() string { return h(encode(tx)) + h(tx.SerializeNoWitness()) + tx.ID() }, same(h(raw)+h(m.Bytes(false))+idHex))
	a.add("tx-string"+id, func() string { return fmt.Sprint(a.once("tx-string"+id, tx.ToString()), tx.Size() > 0) }, same("true true"))
	for i, k := range p.Coins {
		i, k := i, k
		ht := sim.Pick(c, "type", hashTypes...)
		a.add("tx-digest"+id, func() string {
			if k.segwit() {
				return h(tx.WitnessV0SignatureHash(i, xcore.SigHashType(ht)))
			}
			return h(tx.RawSignatureHash(i, xcore.SigHashType(ht)))
		}, same(h(k.digest(m, i, ht))))
	}
	a.fresh("tx-decode"+id, func() string {
		t, err := p.decode(raw)
		if err != nil {
			return errStr(err)
		}
		return errStr(t.Verify()) + h(encode(t))
	}, same("ok"+h(raw)))
	var paid bytes.Buffer
	for _, o := range p.model().Outs {
		fmt.Fprint(&paid, o.Value, h(o.Script))
	}
	prv := libKeys(keys)
	a.sums = append(a.sums, func() string {
		var s string
		for _, k := range prv {
			s += k.D.String() + k.X.String()
		}
		return s
	})
	a.fresh("tx-build"+id, func() string {
		b, err := p.builder(func(i int, b *xcore.TransactionBuilder) {
			var ks []*xcrypto.PrvKey
			for _, o := range p.Coins[i].owner[:p.Coins[i].M] {
				ks = append(ks, prv[o])
			}
			b.AddKeys(ks...)
		})
		if err != nil {
			return errStr(err)
		}
		t, err := b.Sign().BuildTransaction()
		if err != nil {
			return errStr(err)
		}
		return errStr(t.Verify()) + p.judge(encode(t))
	}, same("ok"))
}

func c16(r *core.R) {
	c := r.C
	a := &arena{r: r, rep: map[string]string{}}
	cold := c.Choose(3, "cold") == 2
	kinds := 1 + c.Choose(3, "kinds")
	alike := -1 // several objects of one kind
	if c.OneIn(3, "alike") {
		kinds, alike = 2+c.Choose(2, "kinds"), c.Choose(8, "kind")
	}
	fin := false
	r.Go("app", "app", func() {
		defer func() { fin = true }()
		for i := 0; i < kinds; i++ {
			id := fmt.Sprintf("#%d", i)
			kind := alike
			if kind < 0 {
				kind = c.Choose(8, "kind")
			}
			switch kind {
			case 0:
				a.sigOps(cold, id, drawKey(c, "key"), drawHash(c, "hash"))
			case 1:
				a.hdOps(cold, id, c.Bytes(sim.Pick(c, "seed-len", 64, 16, 32), "seed"))
			case 2:
				a.addrOps(cold, id)
			case 3:
				a.merkleOps(cold, id)
			case 4:
				if cold {
					a.sigOps(cold, id, drawKey(c, "key"), drawHash(c, "hash"))
				} else {
					a.paillierOps(id)
				}
			case 5:
				a.mnemonicOps(id)
			case 7:
				a.byteOps(id)
			case 6:
				if cold {
					a.hdOps(cold, id, c.Bytes(64, "seed"))
				} else {
					a.txOps(id, drawKeys(c, 1+c.Choose(3, "keys")))
				}
			}
		}
		if r.Failed() {
			return
		}
		if cold {
			r.Probe("cold-start")
		}
		before := make([]string, len(a.sums))
		for i, f := range a.sums {
			before[i] = f()
		}
		tasks := 2 + c.Choose(3, "tasks")
		left, done := tasks, 0
		// everyone at the same thing, each with its own object or argument
		ops := a.ops
		if c.OneIn(3, "one-thing") {
			name := strings.SplitN(a.ops[c.Choose(len(a.ops), "thing")].name, "#", 2)[0]
			ops = nil
			for _, o := range a.ops {
				if strings.HasPrefix(o.name, name+"#") {
					ops = append(ops, o)
				}
			}
			r.Probe("one-operation")
		}
		for t := 0; t < tasks; t++ {
			r.Go("app", fmt.Sprintf("user%d", t), func() {
				defer func() { left-- }()
				for j := 1 + c.Choose(5, "ops"); j > 0 && !r.Failed(); j-- {
					o := ops[c.Choose(len(ops), "op")]
					got := o.run()
					done++
					r.Probe(strings.SplitN(o.name, "#", 2)[0])
					if !o.ok(got) {
						r.Fail("differs", "%s, run beside %d other goroutines, gave %s", o.name, tasks-1, got)
					}
				}
			})
		}
		sim.Await("users", time.Now().Add(time.Hour), func() bool { return left == 0 || r.Failed() })
		for i, f := range a.sums {
			if !r.Failed() && f() != before[i] {
				r.Fail("changed", "a shared object or a caller's argument was changed: %s, was %s", f(), before[i])
			}
		}
		// and alone, afterwards
		if !r.Failed() {
			o := a.ops[c.Choose(len(a.ops), "op")]
			if got := o.run(); !o.ok(got) {
				r.Fail("differs", "%s, run after %d goroutines had used its objects, gave %s", o.name, tasks, got)
			}
		}
		r.NonTrivial = done > 1
		r.Note("operations", done)
	})
	r.Run(func() bool { return fin || r.Failed() })
}

func init() {
	core.Register(&core.Scenario{Prop: "C16", Name: "shared-objects", Fn: c16, Quick: 12000, Cfg: sim.Config{Preempt: true},
		Require: []string{"cold-start", "ecdsa-sign", "ecdsa-verify", "schnorr-sign", "hd-child", "hd-path", "addr-string", "addr-decode", "merkle", "paillier-encrypt", "paillier-linear", "mnemonic-entropy", "tx-verify", "tx-digest", "tx-build", "bech32", "witness-address", "challenge", "script-run", "point"},
		Rule:    "one run = 2-4 goroutines doing 1-5 operations each on 1-3 kinds of shared (or, in a cold start, freshly made) objects, each result compared with an independent computation; non-trivial when at least two operations ran"})
}
