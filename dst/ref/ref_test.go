package ref

import (
	"encoding/hex"
	"math/big"
	"testing"
)

func un(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func TestRef(t *testing.T) {
	if !G.On() || !Mul(N, G).Inf() {
		t.Fatal("curve")
	}
	if hex.EncodeToString(Ripemd160([]byte("abc"))) != "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc" {
		t.Fatal("rmd")
	}
	// genesis-era: hash160 of G compressed
	if Base58Check(append([]byte{0}, Hash160(G.Compress())...)) != "1BgGZ9tcN4rm9KBzDn7KprQz87SZ26SAMH" {
		t.Fatal("addr")
	}
	if SegwitAddr("bc", 0, Hash160(G.Compress())) != "bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4" {
		t.Fatal("bech", SegwitAddr("bc", 0, Hash160(G.Compress())))
	}
	if _, v, p, ok := UnsegwitAddr("bc1qw508d6qejxtdg4y5r3zarvary0c5xw7kv8f3t4"); !ok || v != 0 || len(p) != 20 {
		t.Fatal()
	}
	// BIP32 vector 1
	mm := Master(un("000102030405060708090a0b0c0d0e0f"))
	c, _ := mm.Child(1 << 31)
	if c.String(un("0488ade4")) != "xprv9uHRZZhk6KAJC1avXpDAp4MDc3sQKNxDiPvvkX8Br5ngLNv1TxvUxt4cV1rGL5hj6KCesnDYUhd7oWgT11eZG7XnxHrnYeSvkzY7d2bhkJ7" {
		t.Fatal("bip32")
	}
	d, _ := c.Neuter().Child(1)
	if d.String(un("0488b21e")) != "xpub6ASuArnXKPbfEwhqN6e3mwBcDTgzisQN1wXN9BJcM47sSikHjJf3UFHKkNAWbWMiGj7Wf5uMash7SyYq527Hqck2AxYysAA7xmALppuCkwQ" {
		t.Fatal("bip32b")
	}
	// BIP143 P2WPKH example
	tx, n, err := ParseTx(un("0100000002fff7f7881a8099afa6940d42d1e7f6362bec38171ea3edf433541db4e4ad969f0000000000eeffffffef51e1b804cc89d182d279655c3aa89e815b1b309fe287d9b2b55d57b90ec68a0100000000ffffffff02202cb206000000001976a9148280b37df378db99f66f85c95a783a76ac7a6d5988ac9093510d000000001976a9143bde42dbee7e4dbe6a21b2d50ce2f0167faa815988ac11000000"), false)
	if err != nil || n == 0 {
		t.Fatal(err)
	}
	h := tx.WitnessHash(1, ScriptP2PKH(Hash160(un("025476c2e83188368da1ff3e292e7acafcdb3566bb0ad253f62fc70f07aeee6357"))), 600000000, 1)
	if hex.EncodeToString(h) != "c37af31116d1b27caf68aae9e3ac82f1477929014d5b917657d0eb49478cb670" {
		t.Fatalf("%x", h)
	}
	r, s, ok := ParseDERStrict(un("304402203609e17b84f6a7d30c80bfa610b5b4542f32a8a0d5447a12fb1366d7f01cc44a0220573a954c4518331561406f90300e8f3358f51928d43c212a8caed02de67eebee"))
	p, _ := ParsePoint(un("025476c2e83188368da1ff3e292e7acafcdb3566bb0ad253f62fc70f07aeee6357"))
	if !ok || !ECDSAVerify(p, h, r, s) {
		t.Fatal("ecdsa")
	}
	// Schnorr 2018 vector 2
	pk, _ := ParsePoint(un("02DFF1D77F2A671C5F36183726DB2341BE58FEAE1DA2DECED843240F7B502BA659"))
	if !SchnorrVerify(pk, un("243F6A8885A308D313198A2E03707344A4093822299F31D0082EFA98EC4E6C89"), un("2A298DACAE57395A15D0795DDBFD1DCB564DA82B0F269BC70A74F8220429BA1D1E51A22CCEC35599B8F266912281F8365FFC2D035A230434A1A64DC59F7013FD")) {
		t.Fatal("schnorr")
	}
	a, b := ECDSASign(big.NewInt(77), h, big.NewInt(1234567))
	if !ECDSAVerify(MulG(big.NewInt(77)), h, a, b) {
		t.Fatal()
	}
	if rr, ss, k := ParseDERStrict(DER(a, b)); !k || rr.Cmp(a) != 0 || ss.Cmp(b) != 0 {
		t.Fatal()
	}
}

func BenchmarkVerify(b *testing.B) {
	h := Sha256([]byte("x"))
	r, s := ECDSASign(big.NewInt(77), h, big.NewInt(1234567))
	p := MulG(big.NewInt(77))
	for i := 0; i < b.N; i++ {
		ECDSAVerify(p, h, r, s)
	}
}

func TestField(t *testing.T) {
	x := new(big.Int).Set(Gx)
	y := new(big.Int).Sub(P, big.NewInt(3))
	for i := 0; i < 20000; i++ {
		a, b := toFe(x), toFe(y)
		if mulf(a, b).big().Cmp(new(big.Int).Mod(new(big.Int).Mul(x, y), P)) != 0 || addf(a, b).big().Cmp(new(big.Int).Mod(new(big.Int).Add(x, y), P)) != 0 || subf(a, b).big().Cmp(new(big.Int).Mod(new(big.Int).Sub(x, y), P)) != 0 {
			t.Fatal(i)
		}
		z := new(big.Int).Mul(x, x)
		z.Mod(z, P)
		switch i % 5 {
		case 0:
			z.Sub(P, big.NewInt(int64(i%7+1)))
		case 1:
			z.SetInt64(int64(i % 3))
		}
		x, y = new(big.Int).Mod(new(big.Int).Add(y, big.NewInt(int64(i))), P), z
	}
}
