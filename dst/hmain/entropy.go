package hmain

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcore/bip39/words"
	"github.com/keyfuse/tokucore/xcrypto/paillier"

	"vsim/core"
	"vsim/ref"
	"vsim/sim"
	"vsim/simmrand"
	"vsim/simrand"
)

// ---------------------------------------------------------------- C17: secrets come from the entropy source

// draw is one operation that makes a secret. It returns the secret (empty with
// an error) and how many bytes of unpredictability it claims.
type draw struct {
	name string
	need int
	run  func() (secret string, wrong string, err error)
}

var languages = []bip39.Wordlists{bip39.ENGLISH, bip39.CHINESE, bip39.JAPANESE}
var langWords = [][]string{words.English, words.Chinese, words.Japanese}

func drawSecret(c *sim.Chooser, pk *paillier.PubKey) draw {
	switch c.Choose(5, "secret") {
	case 0, 1:
		bits := 128 + 32*c.Choose(5, "bits")
		return draw{fmt.Sprintf("NewEntropy(%d)", bits), bits / 8, func() (string, string, error) {
			e, err := bip39.NewEntropy(bits)
			if err != nil {
				if len(e) > 0 {
					return "", "returned bytes beside its error", err
				}
				return "", "", err
			}
			if len(e) != bits/8 {
				return "", fmt.Sprintf("returned %d bytes", len(e)), nil
			}
			return h(e), "", nil
		}}
	case 2:
		return draw{"NewHDKeyRand", 32, func() (string, string, error) {
			k, err := bip32.NewHDKeyRand()
			if err != nil {
				if k != nil {
					return "", "returned a key beside its error", err
				}
				return "", "", err
			}
			s := k.ToString(network.MainNet)
			d := new(big.Int).SetBytes(k.PrivateKey().Serialize())
			if d.Sign() == 0 || d.Cmp(ref.N) >= 0 {
				return s, "returned a key out of range", nil
			}
			return s, "", nil
		}}
	case 3:
		l := c.Choose(len(languages), "language")
		return draw{fmt.Sprintf("NewBIP39(%d)", l), 16, func() (string, string, error) {
			b, err := bip39.NewBIP39(languages[l])
			if err != nil {
				if b != nil {
					return "", "returned a mnemonic beside its error", err
				}
				return "", "", err
			}
			m := b.ToString()
			e, ok := ref.MnemonicEntropy(m, langWords[l])
			if !ok {
				return "", fmt.Sprintf("returned %q, not a mnemonic of its language", m), nil
			}
			return h(e), "", nil
		}}
	}
	if pk != nil && c.Choose(2, "encrypt") == 0 {
		m := big.NewInt(int64(c.Choose(3, "plain")))
		return draw{"Encrypt", 32, func() (string, string, error) {
			x, err := pk.Encrypt(m)
			if err != nil {
				if x != nil {
					return "", "returned a ciphertext beside its error", err
				}
				return "", "", err
			}
			return x.String(), "", nil
		}}
	}
	return draw{"GenerateKeyPair", 32, func() (string, string, error) {
		p, s, err := paillier.GenerateKeyPair(1024)
		if err != nil {
			if p != nil || s != nil {
				return "", "returned a key beside its error", err
			}
			return "", "", err
		}
		if p.N.BitLen() != 1024 {
			return "", fmt.Sprintf("returned a modulus of %d bits", p.N.BitLen()), nil
		}
		// Fermat's method: factors that are close to each other are found at once
		a := new(big.Int).Sqrt(p.N)
		for i := 0; i < 200; i++ {
			a.Add(a, big.NewInt(1))
			b := new(big.Int).Mul(a, a)
			b.Sub(b, p.N)
			if q := new(big.Int).Sqrt(b); q.Mul(q, q).Cmp(b) == 0 {
				return "", "returned a modulus that Fermat's method factors", nil
			}
		}
		return "", "", nil // primes come from the simulator's pool: not compared
	}}
}

func c17(r *core.R) {
	c := r.C
	n := 2 + c.Choose(3, "devices")
	fin, made := 0, 0
	seen := map[string]string{}
	state := c.U64("boot-state")
	// the clock every device believes in
	skew := sim.Pick(c, "clock", time.Duration(0), time.Hour, -365*24*time.Hour)
	pk := &paillier.PubKey{}
	var ops []draw
	ready := false
	r.Go("factory", "factory", func() {
		p, _, err := paillier.GenerateKeyPair(1024)
		if err != nil {
			r.Fail("failed", "key generation failed: %v", err)
			return
		}
		*pk = *p
		for i := 1 + c.Choose(5, "ops"); i > 0; i-- {
			ops = append(ops, drawSecret(c, pk))
		}
		if c.OneIn(6, "many") {
			o := drawSecret(c, pk)
			for i := 8 + c.Choose(30, "times"); i > 0 && o.name != "GenerateKeyPair" && o.name != "Encrypt"; i-- {
				ops = append(ops, o)
			}
		}
		ready = true
	})
	await := func(f func() bool) {
		sim.Await("order", time.Now().Add(time.Hour), func() bool { return f() || r.Failed() })
	}
	for i := 0; i < n; i++ {
		i := i
		g := fmt.Sprintf("dev%d", i)
		src := &simrand.Source{State: sim.Mix(state, uint64(i)), FailBy: map[string]int{}}
		simrand.Set(g, src)
		r.SetClock(g, skew)
		apps := 1
		if c.OneIn(3, "apps") {
			apps = 2 + c.Choose(2, "apps")
		}
		switch c.Choose(5, "entropy-fault") {
		case 1:
			src.FailAt = int64(1 + c.Choose(8, "fail-at"))
		case 2:
			src.ShortAt = int64(1 + c.Choose(8, "short-at"))
		case 3:
			src.ShortAt = int64(1 + c.Choose(4, "short-at"))
			src.FailAt = src.ShortAt + 1
		case 4:
			src.FailAt = int64(1 + c.Choose(8, "fail-at"))
			src.FailFor = int64(1 + c.Choose(3, "fail-for"))
		}
		src.ShortTo = sim.Pick(c, "short-to", 0, 1, 8, 1<<30)
		claimed, over := 0, 0
		app := func(name string) {
			for j, o := range ops {
				if r.Failed() {
					return
				}
				fails, shorts := src.FailBy[name], src.Shorts
				s, wrong, err := o.run()
				failed := src.FailBy[name] > fails
				if failed {
					r.Fault("entropy-failure")
				}
				if src.Shorts > shorts {
					r.Fault("short-entropy-read")
				}
				switch {
				case wrong != "":
					r.Fail("wrong", "%s %s", o.name, wrong)
				case failed && err == nil:
					r.Fail("weak", "%s succeeded although the entropy source failed", o.name)
				case !failed && err != nil:
					r.Fail("failed", "%s failed although the entropy source works: %v", o.name, err)
				case err != nil:
					continue
				}
				if claimed += o.need; int(src.Bytes) < claimed {
					r.Fail("weak", "after %s: the device's secrets claim %d bytes of entropy, it took %d from its source since it booted", o.name, claimed, src.Bytes)
				}
				if r.Failed() || s == "" {
					continue
				}
				made++
				if w, ok := seen[s]; ok {
					r.Fail("repeated", "%s on %s made the secret %s had made", o.name, name, w)
					return
				}
				seen[s] = fmt.Sprintf("%s, operation %d", name, j)
			}
		}
		// twins of the device: booted alike, their entropy differs in one bit
		twins := func(o draw) {
			try := func(q []byte) (string, []byte) {
				sim.ResetVars()
				simmrand.Reset()
				src.Queue, src.FailAt, src.ShortAt = q, 0, 0
				src.State = state
				var tap []byte
				src.Tap = func(p []byte) { tap = append(tap, p...) }
				s, wrong, err := o.run()
				src.Tap = nil
				if wrong != "" || err != nil {
					r.Fail("wrong", "%s %s (error %v) with other entropy", o.name, wrong, err)
				}
				return s, tap
			}
			s, tap := try(nil)
			if r.Failed() || s == "" || len(tap) == 0 || len(tap) > 4096 {
				return
			}
			if s2, _ := try(append([]byte(nil), tap...)); s2 != s && !r.Failed() {
				r.Probe("same-entropy-other-secret")
			}
			differ := 0
			first := c.Choose(len(tap), "first-byte")
			for x := 0; x < len(tap) && differ < o.need && !r.Failed(); x++ {
				q := append([]byte(nil), tap...)
				q[(first+x)%len(q)] ^= 1 << uint(c.Choose(8, "bit"))
				if s2, _ := try(q); s2 != s {
					differ++
				}
			}
			if differ < o.need {
				r.Fail("weak", "%s depends on %d bytes of entropy only, it claims %d", o.name, differ, o.need)
			}
			r.Probe("twins")
		}
		for a := 0; a < apps; a++ {
			a := a
			name := fmt.Sprintf("%s.%d", g, a)
			r.Go(g, name, func() {
				// each device is a process of its own: it boots with the program's initial state
				await(func() bool { return ready && fin == i })
				if r.Failed() {
					return
				}
				if over == 0 {
					sim.ResetVars()
					simmrand.Reset()
				}
				over++
				await(func() bool { return over >= apps })
				app(name)
				over++
				if apps > 1 {
					r.Probe("concurrent-apps")
				}
				if over < 2*apps {
					return
				}
				if !r.Failed() && len(ops) > 0 && c.OneIn(2, "twins") {
					if o := ops[c.Choose(len(ops), "of")]; o.name != "Encrypt" && o.name != "GenerateKeyPair" {
						twins(o)
					}
				}
				fin++
			})
		}
	}
	r.Run(func() bool { return fin == n || r.Failed() })
	r.NonTrivial = made > 1
	r.Note("secrets", made)
	r.Note("operations", strings.Join(names(ops), " "))
}

func names(ops []draw) (o []string) {
	for _, x := range ops {
		o = append(o, x.name)
	}
	return
}

// ---------------------------------------------------------------- C18: one word list at a time

// wl is one operation on the process-wide word list, with what it observed.
type wl struct {
	name     string
	from, to int // event numbers
	set      int // list it installs (-1: none)
	explain  []bool
}

func c18(r *core.R) {
	c := r.C
	// lists: the three shipped ones and a user's own (English, shuffled)
	own := append([]string(nil), words.English...)
	rot := 1 + c.Choose(2047, "rotate")
	own = append(own[rot:], own[:rot]...)
	all := [][]string{words.English, words.Chinese, words.Japanese, own}
	var hist []*wl
	var known []string // mnemonics used before: they come back
	ev := 0
	call := func(name string, set int, run func() func(list []string) bool) {
		x := &wl{name: name, set: set, from: ev}
		ev++
		f := run()
		x.to = ev
		ev++
		for _, l := range all {
			x.explain = append(x.explain, f(l))
		}
		r.Logf("%s explained by %v", name, x.explain)
		hist = append(hist, x)
	}
	tasks := 2 + c.Choose(3, "tasks")
	left := tasks
	for t := 0; t < tasks; t++ {
		g := fmt.Sprintf("user%d", t)
		r.Go("wallet", g, func() {
			defer func() { left-- }()
			for i := 1 + c.Choose(4, "ops"); i > 0 && !r.Failed(); i-- {
				li := c.Choose(len(all), "list")
				ent := c.Bytes(16+4*c.Choose(5, "len"), "entropy")
				if c.OneIn(4, "small") {
					for j := 0; j < len(ent)-1; j++ {
						ent[j] = 0
					}
				}
				m := ref.Mnemonic(ent, all[li])
				if len(known) > 0 && c.Choose(2, "again") == 0 {
					m = known[c.Choose(len(known), "which")]
				}
				known = append(known, m)
				if c.OneIn(5, "damaged") { // two words change places
					w := strings.Fields(m)
					a, b := c.Choose(len(w), "word"), c.Choose(len(w), "word")
					w[a], w[b] = w[b], w[a]
					m = strings.Join(w, " ")
				}
				switch c.Choose(10, "op") {
				case 0:
					call(fmt.Sprintf("SetWordList(%d)", li), li, func() func([]string) bool {
						bip39.SetWordList(all[li])
						return func([]string) bool { return true }
					})
				case 1:
					if li == 3 {
						li = 0
					}
					call(fmt.Sprintf("NewBIP39(%d)", li), li, func() func([]string) bool {
						b, err := bip39.NewBIP39(languages[li])
						if err != nil {
							r.Fail("failed", "NewBIP39 failed: %v", err)
							return func([]string) bool { return true }
						}
						if _, ok := ref.MnemonicEntropy(b.ToString(), all[li]); !ok {
							r.Fail("language", "NewBIP39(%d) made %q, which is no mnemonic of its language", li, b.ToString())
						}
						return func([]string) bool { return true }
					})
				case 2, 3:
					call("NewMnemonic", -1, func() func([]string) bool {
						s, err := bip39.NewMnemonic(ent)
						return func(l []string) bool { return err == nil && s == ref.Mnemonic(ent, l) }
					})
				case 4:
					call("EntropyFromMnemonic", -1, func() func([]string) bool {
						e, err := bip39.EntropyFromMnemonic(m)
						return func(l []string) bool {
							w, ok := ref.MnemonicEntropy(m, l)
							return ok == (err == nil) && (!ok || h(e) == h(w))
						}
					})
				case 5:
					call("MnemonicToByteArray", -1, func() func([]string) bool {
						e, err := bip39.MnemonicToByteArray(m, true)
						return func(l []string) bool {
							w, ok := ref.MnemonicEntropy(m, l)
							return ok == (err == nil) && (!ok || h(e) == h(w))
						}
					})
				case 8:
					call("NewSeedWithErrorChecking", -1, func() func([]string) bool {
						s, err := bip39.NewSeedWithErrorChecking(m, "pw")
						want := ""
						if err == nil {
							r.Probe("seed")
							want = h(ref.PBKDF2([]byte(m), []byte("mnemonicpw"), 2048, 64))
						}
						return func(l []string) bool {
							_, ok := ref.MnemonicEntropy(m, l)
							return ok == (err == nil) && (!ok || h(s) == want)
						}
					})
				case 9:
					call("IsMnemonicValid", -1, func() func([]string) bool {
						v := bip39.IsMnemonicValid(m)
						return func(l []string) bool { return v == inList(m, l) }
					})
				case 6:
					call("GetWordList", -1, func() func([]string) bool {
						got := strings.Join(bip39.GetWordList(), " ")
						return func(l []string) bool { return got == strings.Join(l, " ") }
					})
				case 7:
					w := all[li][c.Choose(2048, "word")]
					call("GetWordIndex", -1, func() func([]string) bool {
						i, ok := bip39.GetWordIndex(w)
						return func(l []string) bool {
							for j, x := range l {
								if x == w {
									return ok && i == j
								}
							}
							return !ok
						}
					})
				}
			}
		})
	}
	r.Run(func() bool { return left == 0 || r.Failed() })
	if r.Failed() {
		return
	}
	overlap := false
	for i, a := range hist {
		for _, b := range hist[:i] {
			if a.from < b.to && b.from < a.to && (a.set >= 0 || b.set >= 0) {
				overlap = true
			}
		}
	}
	if overlap {
		r.Probe("overlapping-change")
	}
	if !linear(hist, 0) {
		var s []string
		for _, x := range hist {
			s = append(s, fmt.Sprintf("[%d,%d] %s %v", x.from, x.to, x.name, x.explain))
		}
		r.Fail("mixed", "no order of these calls explains what they returned: %s", strings.Join(s, "; "))
	}
	r.NonTrivial = len(hist) > 1
}

// inList tells whether a mnemonic has a valid number of words, all of the list.
func inList(m string, l []string) bool {
	w := strings.Fields(m)
	if len(w) < 12 || len(w) > 24 || len(w)%3 != 0 {
		return false
	}
	for _, x := range w {
		found := false
		for _, y := range l {
			found = found || x == y
		}
		if !found {
			return false
		}
	}
	return true
}

// linear searches for an order of the operations, respecting real time, in which
// every one is explained by the list in force.
func linear(hist []*wl, first int) bool {
	done := make([]bool, len(hist))
	type key struct {
		mask uint64
		cur  int
	}
	bad := map[key]bool{}
	var rec func(mask uint64, cur, left int) bool
	rec = func(mask uint64, cur, left int) bool {
		if left == 0 {
			return true
		}
		if bad[key{mask, cur}] {
			return false
		}
		min := 1 << 30
		for i, x := range hist {
			if !done[i] && x.to < min {
				min = x.to
			}
		}
		for i, x := range hist {
			if done[i] || x.from > min {
				continue
			}
			nc := cur
			if x.set >= 0 {
				nc = x.set
			} else if !x.explain[cur] {
				continue
			}
			done[i] = true
			ok := rec(mask|1<<uint(i), nc, left-1)
			done[i] = false
			if ok {
				return true
			}
		}
		bad[key{mask, cur}] = true
		return false
	}
	return rec(0, first, len(hist))
}

func init() {
	core.Register(&core.Scenario{Prop: "C17", Name: "device-fleet", Fn: c17, Quick: 12000, Cfg: sim.Config{Preempt: true},
		Require: []string{"twins", "concurrent-apps"},
		Rule:    "one run = 2-4 devices booted one after another with the same clock, the same program state and the same pseudo-random state but their own entropy sources (working, failing for good or for a moment, or short-reading), each making the same 1-40 secrets in 1-3 goroutines, some remade by twins whose entropy differs in one bit; non-trivial when two secrets were compared"})
	core.Register(&core.Scenario{Prop: "C18", Name: "word-lists", Fn: c18, Quick: 60000, Cfg: sim.Config{Preempt: true},
		Require: []string{"overlapping-change"},
		Rule:    "one run = 2-4 goroutines making, reading and checking mnemonics while others change the process-wide word list; the history must be linearizable against one word list; non-trivial with two calls or more"})
}
