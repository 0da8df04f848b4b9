package hmain

import (
	"bytes"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"time"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"

	"vsim/core"
	"vsim/ref"
	"vsim/sim"
)

// ---------------------------------------------------------------- a simulated disk

// disk holds files that are written in place, sector by sector, so a crash
// leaves a mix of old and new; written sectors survive, whatever else happens.
type disk struct {
	r     *core.R
	files map[string][]byte
	sect  int
	trunc bool // files are truncated before they are written
	full  int  // sectors left before the disk is full (-1: never)
}

func newDisk(r *core.R) *disk {
	return &disk{r: r, files: map[string][]byte{}, sect: sim.Pick(r.C, "sector", 16, 1, 7, 64, 512), trunc: r.C.OneIn(2, "truncate"), full: -1}
}

// write returns false when the disk is full.
func (d *disk) write(name string, data []byte) bool {
	data = append([]byte(nil), data...)
	if d.trunc {
		d.files[name] = nil
	}
	sect := max(d.sect, len(data)/40)
	for o := 0; o < len(data); o += sect {
		sim.Sleep(time.Millisecond)
		if d.full == 0 {
			d.r.Fault("disk-full")
			return false
		}
		if d.full > 0 {
			d.full--
		}
		e := o + sect
		if e > len(data) {
			e = len(data)
		}
		f := append([]byte(nil), d.files[name]...)
		for len(f) < e {
			f = append(f, 0)
		}
		copy(f[o:], data[o:e])
		d.files[name] = f
	}
	sim.Sleep(time.Millisecond)
	if f := d.files[name]; len(f) > len(data) {
		d.files[name] = append([]byte(nil), f[:len(data)]...)
	}
	return true
}

func (d *disk) read(name string) ([]byte, bool) {
	f, ok := d.files[name]
	return append([]byte(nil), f...), ok
}

// hurt damages stored bytes in one of the ways disks and people do.
func hurt(r *core.R, b []byte, other []byte) []byte {
	c := r.C
	b = append([]byte(nil), b...)
	if len(b) == 0 {
		return b
	}
	at := c.Choose(len(b), "at")
	switch c.Choose(11, "hurt") {
	case 0:
		r.Fault("bit-flip")
		b[at] ^= 1 << uint(c.Choose(7, "bit"))
	case 1:
		r.Fault("torn-write")
		b = b[:at]
	case 2: // one sector of another file
		r.Fault("misdirected-write")
		n := 1 + c.Choose(len(b)-at, "len")
		for i := 0; i < n; i++ {
			if at+i < len(other) {
				b[at+i] = other[at+i]
			} else {
				b[at+i] = 0
			}
		}
	case 3:
		r.Fault("byte-lost")
		b = append(b[:at], b[at+1:]...)
	case 4:
		r.Fault("byte-doubled")
		b = append(b[:at+1], b[at:]...)
	case 5: // two neighbours change places
		r.Fault("bytes-swapped")
		if at > 0 {
			b[at], b[at-1] = b[at-1], b[at]
		}
	case 6: // another character of the same alphabet
		r.Fault("typo")
		const b58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
		b[at] = sim.Pick(c, "char", b58[c.Choose(58, "c58")], "qpzry9x8gf2tvdw0s3jn54khce6mua7l"[c.Choose(32, "c32")])
	case 7: // characters that look alike
		r.Fault("typo")
		for _, p := range []string{"0O", "O0", "oO", "Il", "lI", "1l", "l1", "1I", "/|", "''", "ao", "eo"} {
			if i := bytes.IndexByte(b, p[0]); i >= 0 && c.OneIn(3, "this") {
				b[i] = p[1]
				break
			}
		}
	case 8:
		r.Fault("junk-appended")
		b = append(b, sim.Pick(c, "junk", "\n", "\x00", " ", "1", "q", "z", "/", "'")...)
	case 9:
		r.Fault("junk-prepended")
		b = append([]byte(sim.Pick(c, "junk", "1", "\n", " ", "m", "\x00", "\xef\xbb\xbf")), b...)
	case 10:
		r.Fault("case-changed")
		switch c.Choose(3, "case") {
		case 0:
			b = bytes.ToUpper(b)
		case 1:
			b = bytes.ToLower(b)
		case 2:
			b[at] ^= 0x20
		}
	}
	return b
}

// ---------------------------------------------------------------- C19: stored wallet material

type store struct {
	r     *core.R
	main  bool
	lang  int
	mnem  string
	pass  string
	path  string
	kids  map[string]*ref.XKey
	seeds map[string][]byte
	seen  int
}

func (s *store) ver(priv bool) []byte {
	switch {
	case s.main && priv:
		return []byte{4, 0x88, 0xad, 0xe4}
	case s.main:
		return []byte{4, 0x88, 0xb2, 0x1e}
	case priv:
		return []byte{4, 0x35, 0x83, 0x94}
	}
	return []byte{4, 0x35, 0x87, 0xcf}
}

func (s *store) seed(m string) []byte {
	k := m + "\x00" + s.pass
	if s.seeds[k] == nil {
		s.seeds[k] = ref.PBKDF2([]byte(m), []byte("mnemonic"+s.pass), 2048, 64)
	}
	return s.seeds[k]
}

// parsePath is the reference reading of a derivation path.
func parsePath(p string) ([]uint32, bool) {
	if p == "" {
		return nil, true
	}
	st := strings.Split(p, "/")
	if st[0] != "m" {
		return nil, false
	}
	var o []uint32
	for _, x := range st[1:] {
		hard := strings.HasSuffix(x, "'")
		x = strings.TrimSuffix(x, "'")
		if x == "" || strings.Trim(x, "0123456789") != "" {
			return nil, false
		}
		n, err := strconv.ParseUint(x, 10, 32)
		if err != nil || (hard && n >= 1<<31) {
			return nil, false
		}
		if hard {
			n += 1 << 31
		}
		o = append(o, uint32(n))
	}
	return o, true
}

func (s *store) derive(x *ref.XKey, path string) (*ref.XKey, bool) {
	steps, ok := parsePath(path)
	if !ok {
		return nil, false
	}
	id := x.String(s.ver(x.K != nil))
	for _, n := range steps {
		id += fmt.Sprintf("/%d", n)
		y := s.kids[id]
		if y == nil {
			var err error
			if y, err = x.Child(n); err != nil {
				return nil, false
			}
			s.kids[id] = y
		}
		x = y
	}
	return x, true
}

// parseKey is the reference reading of a stored extended key.
func parseKey(t string) (*ref.XKey, bool) {
	b, ok := ref.Unbase58Check(t)
	if !ok || len(b) != 78 {
		return nil, false
	}
	x := &ref.XKey{Depth: b[4], FP: b[5:9], Chain: b[13:45]}
	for _, v := range b[9:13] {
		x.Num = x.Num<<8 | uint32(v)
	}
	if b[45] == 0 {
		x.K = new(big.Int).SetBytes(b[46:])
		if x.K.Sign() == 0 || x.K.Cmp(ref.N) >= 0 {
			return nil, false
		}
		x.Pub = ref.MulG(x.K)
		return x, true
	}
	x.Pub, ok = ref.ParsePoint(b[45:])
	return x, ok
}

// key judges one loaded key against the reference.
func (s *store) key(what string, k *bip32.HDKey, x *ref.XKey) bool {
	pub, prv := k.PublicKey(), k.PrivateKey()
	switch {
	case k.ToString(netOf(s.main)) != x.String(s.ver(x.K != nil)):
		s.r.Fail("other-key", "%s is %s, not %s", what, k.ToString(netOf(s.main)), x.String(s.ver(x.K != nil)))
	case !pubIs(pub, x.Pub):
		s.r.Fail("other-key", "%s has another public key", what)
	case (prv != nil) != (x.K != nil):
		s.r.Fail("other-key", "%s: private key present: %v", what, prv != nil)
	case prv != nil && !bytes.Equal(prv.Serialize(), ref.B32(x.K)):
		s.r.Fail("other-key", "%s has another private key", what)
	case k.HDPublicKey().ToString(netOf(s.main)) != x.Neuter().String(s.ver(false)):
		s.r.Fail("other-key", "%s: its public half is %s", what, k.HDPublicKey().ToString(netOf(s.main)))
	}
	return !s.r.Failed()
}

func trunc(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// loadKey reads an extended key the way the wallet does and judges the outcome.
func (s *store) loadKey(text string) (*bip32.HDKey, *ref.XKey) {
	x, ok := parseKey(text)
	k, err := bip32.NewHDKeyFromString(text)
	s.seen++
	if !ok {
		if err == nil {
			s.r.Fail("accepted", "the damaged key string %q was accepted as %s", trunc(text), k.ToString(netOf(s.main)))
		}
		return nil, nil
	}
	if err != nil {
		s.r.Fail("refused", "the intact key string %s was refused: %v", text, err)
		return nil, nil
	}
	if !s.key("the key read from "+text, k, x) {
		return nil, nil
	}
	return k, x
}

// step derives by a path, as written or as damaged.
func (s *store) step(k *bip32.HDKey, x *ref.XKey, path string) (*bip32.HDKey, *ref.XKey) {
	y, ok := s.derive(x, path)
	if !ok && x.K == nil { // hardened below a public key
		s.r.Probe("hardened-refused")
	}
	c, err := k.DeriveByPath(path)
	if !ok {
		if err == nil {
			s.r.Fail("accepted", "the path %q was followed (private: %v) to %s", path, x.K != nil, c.ToString(netOf(s.main)))
		}
		return nil, nil
	}
	if err != nil {
		s.r.Fail("refused", "the path %q was refused: %v", path, err)
		return nil, nil
	}
	if !s.key(fmt.Sprintf("the key at %q below %s", path, x.String(s.ver(x.K != nil))), c, y) {
		return nil, nil
	}
	return c, y
}

// address strings: what a wallet shows and a payer types in.
func parseAddr(t string, main bool) ([]byte, bool) {
	hrp, v := "tb", []byte{0x6f, 0xc4}
	if main {
		hrp, v = "bc", []byte{0, 5}
	}
	if strings.HasPrefix(t, hrp+"1") {
		if h, ver, prog, ok := ref.UnsegwitAddr(t); ok && h == hrp && ver == 0 {
			return append([]byte{0, byte(len(prog))}, prog...), true
		}
	}
	if b, ok := ref.Unbase58Check(t); ok && len(b) == 21 {
		switch b[0] {
		case v[0]:
			return ref.ScriptP2PKH(b[1:]), true
		case v[1]:
			return ref.ScriptP2SH(b[1:]), true
		}
	}
	return nil, false
}

func (s *store) loadAddr(text string) {
	for _, main := range []bool{true, false} {
		net, name := network.TestNet, "test"
		if main {
			net, name = network.MainNet, "main"
		}
		want, ok := parseAddr(text, main)
		a, err := xcore.DecodeAddress(text, net)
		s.seen++
		if !ok {
			if err == nil {
				l, _ := a.LockingScript()
				s.r.Fail("accepted", "the %s network took %q for an address, paying %x", name, trunc(text), l)
			}
			continue
		}
		if err != nil {
			s.r.Fail("refused", "the %s network refused the address %s: %v", name, text, err)
			return
		}
		got, err := a.LockingScript()
		if err != nil || !bytes.Equal(got, want) {
			s.r.Fail("other-address", "the address %s pays %x (%v), it means %x", text, got, err, want)
		}
		if got := a.ToString(net); got != text {
			s.r.Fail("other-address", "the address %s is written back as %s", text, got)
		}
	}
}

// addrs are the addresses of a public key, all kinds.
func (s *store) addrs(p ref.Pt) []string {
	red := ref.Multisig(1, p.Compress())
	h := ref.Hash160(p.Compress())
	var o []string
	for k, x := range [][]byte{h, ref.Hash160(red), h, ref.Sha256(red)} {
		o = append(o, dest{Kind: []int{ref.KP2PKH, ref.KP2SH, ref.KP2WPKH, ref.KP2WSH}[k], Hash: x}.str(s.main))
	}
	return o
}

func (s *store) libAddrs(k *bip32.HDKey) []string {
	pub := k.PublicKey()
	ms := xcore.NewPayToMultiSigScript(1, pub.Serialize())
	h, err := ms.Hash160()
	w, err2 := ms.Sha256()
	if err != nil || err2 != nil {
		s.r.Fail("refused", "no script for an address: %v %v", err, err2)
		return nil
	}
	n := netOf(s.main)
	return []string{xcore.NewPayToPubKeyHashAddress(pub.Hash160()).ToString(n), xcore.NewPayToScriptHashAddress(h).ToString(n),
		xcore.NewPayToWitnessV0PubKeyHashAddress(pub.Hash160()).ToString(n), xcore.NewPayToWitnessV0ScriptHashAddress(w).ToString(n)}
}

func (s *store) sameAddrs(k *bip32.HDKey, x *ref.XKey) []string {
	got, want := s.libAddrs(k), s.addrs(x.Pub)
	if !s.r.Failed() && strings.Join(got, " ") != strings.Join(want, " ") {
		s.r.Fail("other-address", "the addresses of %s are %v, not %v", x.String(s.ver(x.K != nil)), got, want)
	}
	return got
}

// loadMnemonic reads a written-down mnemonic.
func (s *store) loadMnemonic(m string) []byte {
	want, ok := ref.MnemonicEntropy(m, langWords[s.lang])
	tidy := strings.Join(strings.Fields(m), " ")
	loose, lok := ref.MnemonicEntropy(tidy, langWords[s.lang])
	e, err := bip39.EntropyFromMnemonic(m)
	s.seen++
	// how words are spaced does not change what they say
	if lok != (err == nil) && !(err != nil && tidy != m) {
		s.r.Fail("mnemonic", "EntropyFromMnemonic(%q): %v, the words are valid: %v", m, err, lok)
		return nil
	}
	if err == nil && !bytes.Equal(e, loose) {
		s.r.Fail("mnemonic", "EntropyFromMnemonic(%q) is %x, not %x", m, e, loose)
		return nil
	}
	e, err = bip39.MnemonicToByteArray(m, true)
	if ok != (err == nil) || (ok && !bytes.Equal(e, want)) {
		s.r.Fail("mnemonic", "MnemonicToByteArray(%q) is %x (%v), valid: %v, entropy %x", m, e, err, ok, want)
		return nil
	}
	if ok && s.r.C.OneIn(3, "again") {
		if w, err := bip39.NewMnemonic(want); err != nil || w != m {
			s.r.Fail("mnemonic", "the entropy of %q is written %q (%v)", m, w, err)
		}
	}
	if !ok && !s.r.C.OneIn(4, "try-seed") {
		return nil
	}
	sd, err := bip39.NewSeedWithErrorChecking(m, s.pass)
	if ok != (err == nil) {
		s.r.Fail("mnemonic", "NewSeedWithErrorChecking(%q): %v, valid: %v", m, err, ok)
		return nil
	}
	if !ok {
		return nil
	}
	if !bytes.Equal(sd, s.seed(m)) {
		s.r.Fail("mnemonic", "the seed of %q with passphrase %q is %x, not %x", m, s.pass, sd, s.seed(m))
		return nil
	}
	return sd
}

// forged makes an address or key string with a right checksum and something
// else wrong with it, or nothing.
func (s *store) forged() (kind, text string) {
	c := s.r.C
	s.r.Fault("forged-text")
	switch c.Choose(3, "forge") {
	case 0:
		n := sim.Pick(c, "prog", 20, 32, 0, 1, 2, 19, 21, 31, 33, 40, 41)
		d, _ := ref.Regroup(c.Bytes(n, "prog"), 8, 5, true)
		d = append([]byte{sim.Pick(c, "ver", byte(0), 1, 16, 17, 31)}, d...)
		switch c.Choose(6, "cut") {
		case 1:
			d = nil
		case 2:
			d = d[:1]
		case 3:
			d = append(d, byte(c.Choose(32, "pad")))
		case 4:
			d[len(d)-1] |= byte(1 + c.Choose(3, "pad"))
		}
		return "address", ref.Bech32(sim.Pick(c, "hrp", "bc", "tb", "bcrt", "b"), d)
	case 1:
		n := sim.Pick(c, "hash", 20, 0, 1, 19, 21, 32)
		return "address", ref.Base58Check(append([]byte{sim.Pick(c, "ver", byte(0), 5, 0x6f, 0xc4, 0x80, 0xef, 6, 0x0a, 3, 0x28)}, c.Bytes(n, "hash")...))
	}
	b := append(append([]byte{}, s.ver(false)...), c.Bytes(41, "key-head")...)
	b[4] = sim.Pick(c, "depth", byte(0), 1, 3, 254, 255)
	x := c.Bytes(32, "x")
	pre := sim.Pick(c, "prefix", byte(2), 3, 0, 0, 4, 1, 6, 255)
	if pre == 0 { // a private key, perhaps one there is not
		copy(b, s.ver(true))
		k := new(big.Int).Add(sim.Pick(c, "k", new(big.Int), ref.N, new(big.Int).SetBytes(x)), big.NewInt(int64(c.Choose(3, "k-off")-1)))
		if k.Sign() < 0 {
			k.Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
		}
		if k.BitLen() <= 256 {
			x = ref.B32(k)
		}
	}
	b = append(append(b, pre), x...)
	switch c.Choose(4, "size") {
	case 1:
		b = b[:77]
	case 2:
		b = append(b, 0)
	}
	return "account", ref.Base58Check(b)
}

var oddPaths = []string{
	"m/010", "m/08", "m/0x10", "m/0X1'", "m/0b1", "m/0o7", "m/1_0", "m/+1", "m/-1", "m/-0", "m/1 ", "m/ 1", "m/1.0", "m/1e1",
	"m/2147483648'", "m/2147483649'", "m/4294967295'", "m/4294967295", "m/2147483648", "m/4294967296", "m/4294967296'", "m/18446744073709551616", "m/99999999999999999999",
	"m/1h", "m/1H", "m/1''", "m/'", "m//1", "m/", "/1", "1", "1/2", "M/1", "mm/1", "m/1/", "m/m/1", "m/\u0661", "m\\1", "m/1\x00", "'", "m'", "m'/1", "n/1", "/m/1", " m/1",
}

func c19(r *core.R) {
	c := r.C
	s := &store{r: r, main: c.OneIn(2, "net"), lang: c.Choose(3, "language"), kids: map[string]*ref.XKey{}, seeds: map[string][]byte{}}
	ent := c.Bytes(16+4*c.Choose(5, "len"), "entropy")
	if z := c.Choose(8, "zeros"); z < 3 {
		for i := 0; i < z; i++ {
			ent[i] = 0
		}
	}
	s.mnem = ref.Mnemonic(ent, langWords[s.lang])
	s.pass = sim.Pick(c, "pass", "", "TREZOR", "pässword", strings.Repeat("long ", 40))
	s.path = sim.Pick(c, "path", "m/44'/0'/0'", "m", "", "m/0", "m/2147483647'/1", "m/1'/2147483648/0", "m/0'/0/1")
	master := ref.Master(s.seed(s.mnem))
	account, _ := s.derive(master, s.path)
	d := newDisk(r)
	if c.OneIn(6, "disk-full") {
		d.full = c.Choose(60, "sectors")
	}
	b := newBus(r)
	b.faults(2500 * time.Millisecond)
	b.owner["wallet"], b.owner["shop"] = "wallet", "shop"
	b.up["wallet"], b.up["shop"] = true, true
	b.tamper = func(to string, p *pkt) {
		if !b.quiet() && c.OneIn(3, "damage") {
			if p.From == "forger" {
				return
			}
			p.Body = hurt(r, p.Body, []byte(s.mnem))
		}
	}
	names := []string{"master", "account", "path", "address", "mnemonic"}
	stop, ready, shopOK := false, false, false
	idx := uint32(sim.Pick(c, "index", 0, 1, 7, 2147483647))
	// the wallet process: everything it knows comes from its disk and from the
	// words its owner wrote down.
	var boot func()
	boot = func() {
		ready = false
		r.Go("wallet", "wallet", func() {
			bip39.SetWordList(langWords[s.lang])
			net := netOf(s.main)
			for !stop && !r.Failed() {
				// mnemonic, from the disk or typed in again
				words := s.mnem
				if f, ok := d.read("mnemonic"); ok {
					if s.loadMnemonic(string(f)); r.Failed() {
						return
					}
					if string(f) != s.mnem {
						r.Probe("damaged-mnemonic")
					}
				}
				if !b.quiet() && c.OneIn(3, "typo") {
					words = string(hurt(r, []byte(words), []byte(strings.Repeat(words, 2)[5:])))
					if c.OneIn(2, "wrong-word") { // every word is one of the list, but not the right ones
						r.Fault("wrong-word")
						w := strings.Fields(s.mnem)
						i, j := c.Choose(len(w), "word"), c.Choose(len(w), "word2")
						switch c.Choose(5, "how") {
						case 0:
							w[i], w[j] = w[j], w[i]
						case 1:
							w[i] = w[j]
						case 2:
							w = append(w[:i], w[i+1:]...)
						case 3:
							w = w[:len(w)-3]
						default:
							w[i] = langWords[s.lang][c.Choose(2048, "other-word")]
						}
						words = strings.Join(w, " ")
					}
					if c.OneIn(2, "spacing") { // copied by hand from line to line
						r.Fault("other-spacing")
						w := strings.Fields(s.mnem)
						i := c.Choose(len(w), "word")
						w[i] = sim.Pick(c, "space", "\n", "\t", " ", "\r\n") + w[i]
						words = strings.Join(w, " ")
					}
					if s.loadMnemonic(words); r.Failed() {
						return
					}
					words = s.mnem
				}
				var mk *bip32.HDKey
				var mx *ref.XKey
				if f, ok := d.read("master"); ok {
					if mk, mx = s.loadKey(string(f)); r.Failed() {
						return
					}
					if mk == nil {
						r.Probe("damaged-master")
					}
				}
				if mk == nil {
					sd := s.loadMnemonic(words)
					if r.Failed() {
						return
					}
					mk, mx = bip32.NewHDKey(sd), master
					if !s.key("the master key", mk, mx) {
						return
					}
					d.write("master", []byte(mk.ToString(net)))
					d.write("mnemonic", []byte(words))
				} else if mx.K == nil || !bytes.Equal(mx.Chain, master.Chain) {
					// a whole other record in its place: valid, and what it says it is
					r.Probe("other-record")
					mk, mx = bip32.NewHDKey(s.seed(s.mnem)), master
					d.write("master", []byte(mk.ToString(net)))
				}
				path := s.path
				if f, ok := d.read("path"); ok {
					if s.step(mk, mx, string(f)); r.Failed() {
						return
					}
				}
				if f, ok := d.read("path"); !ok || string(f) != path {
					d.write("path", []byte(path))
				}
				ak, ax := s.step(mk, mx, path)
				if r.Failed() {
					return
				}
				pk := ak.HDPublicKey()
				if f, ok := d.read("account"); ok {
					if k, x := s.loadKey(string(f)); k != nil && x.K == nil && bytes.Equal(x.Chain, ax.Chain) {
						pk = k
					} else if k == nil {
						r.Probe("damaged-account")
					}
					if r.Failed() {
						return
					}
				}
				d.write("account", []byte(pk.ToString(net)))
				// the same address, derived privately and publicly
				q := fmt.Sprintf("m/%d", idx)
				ck, cx := s.step(ak, ax, q)
				if r.Failed() {
					return
				}
				if pk, px := s.step(pk, ax.Neuter(), q); !r.Failed() {
					s.sameAddrs(pk, px)
				}
				if c.OneIn(3, "retyped-path") { // as somebody might write it down
					r.Fault("retyped-path")
					p := oddPaths[c.Choose(len(oddPaths), "odd-path")]
					if s.step(mk, mx, p); r.Failed() {
						return
					}
				}
				if c.OneIn(4, "public-hardened") {
					s.step(pk, ax.Neuter(), q+"'")
				}
				list := s.sameAddrs(ck, cx)
				if r.Failed() {
					return
				}
				if f, ok := d.read("address"); ok {
					if s.loadAddr(string(f)); r.Failed() {
						return
					}
				}
				a := list[c.Choose(4, "kind")]
				if s.loadAddr(a); r.Failed() {
					return
				}
				d.write("address", []byte(a))
				b.sendRaw("shop", pkt{"wallet", "account", []byte(pk.ToString(net))})
				b.sendRaw("shop", pkt{"wallet", "address", []byte(a)})
				if b.quiet() {
					ready = true
				}
				sim.Sleep(900 * time.Millisecond)
			}
		})
	}
	boot()
	// a shop that holds the account's public key only
	r.Go("shop", "shop", func() {
		for !stop && !r.Failed() {
			if !b.quiet() && c.OneIn(2, "forge?") {
				k, t := s.forged()
				b.sendRaw("shop", pkt{"forger", k, []byte(t)})
			}
			p, ok := b.recv("shop", time.Second)
			if !ok {
				continue
			}
			switch p.Kind {
			case "account":
				k, x := s.loadKey(string(p.Body))
				if k == nil {
					r.Probe("damaged-account")
					continue
				}
				q := fmt.Sprintf("m/%d", idx)
				if !b.quiet() && c.OneIn(3, "path-typo") {
					q = string(hurt(r, []byte(q), []byte("m/9'/9")))
				}
				if k, x := s.step(k, x, q); k != nil {
					s.sameAddrs(k, x)
				}
				if b.quiet() && string(p.Body) == account.Neuter().String(s.ver(false)) {
					shopOK = true
				}
			case "address":
				s.loadAddr(string(p.Body))
			}
		}
	})
	for i := c.Choose(5, "rot"); i > 0; i-- {
		at := time.Duration(c.Choose(3000, "rot-at")) * time.Millisecond
		b.calm = maxTime(b.calm, time.Now().Add(at))
		r.At(at, "rot", func() {
			n := names[c.Choose(len(names), "file")]
			o := names[c.Choose(len(names), "other")]
			if c.OneIn(5, "whole") {
				r.Fault("misdirected-file")
				d.files[n] = append([]byte(nil), d.files[o]...)
				return
			}
			if f, ok := d.files[n]; ok {
				d.files[n] = hurt(r, f, d.files[o])
			}
		})
	}
	if n := sim.Pick(c, "crashes", 0, 1, 2, 3); n > 0 {
		b.crasher("wallet", []string{"wallet"}, n, boot)
	}
	r.Run(func() bool {
		if time.Since(b.calm) > time.Minute {
			r.Fail("stuck", "a minute after the last fault the wallet is not back (wallet %v, shop %v)", ready, shopOK)
		}
		if ready && shopOK && b.quiet() {
			stop = true
		}
		return stop || r.Failed()
	})
	r.NonTrivial = s.seen > 2
	r.Note("judged", s.seen)
}

func init() {
	core.Register(&core.Scenario{Prop: "C19", Name: "stored-wallet", Fn: c19, Quick: 6000, Cfg: sim.Config{Preempt: true},
		Require: []string{"damaged-mnemonic", "damaged-master", "damaged-account", "crash", "bit-flip", "torn-write", "typo", "hardened-refused", "retyped-path", "wrong-word"},
		Rule:    "one run = a wallet process that keeps its mnemonic, extended keys, path and addresses on a disk with crashes, torn and misdirected writes and rot, and a shop that holds its public key received over a faulty network; non-trivial when more than two stored texts were judged"})
}
