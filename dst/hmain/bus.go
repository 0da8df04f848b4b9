package hmain

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"time"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"

	"vsim/core"
	"vsim/ref"
	"vsim/sim"
	"vsim/simrand"
)

// pkt is one protocol message between the parties' processes, as JSON bytes.
type pkt struct {
	From, Kind string
	Body       []byte
}

func (p pkt) into(v any) bool { return json.Unmarshal(p.Body, v) == nil }

// bus is the simulated message network between the parties.
type bus struct {
	r        *core.R
	box      map[string][]pkt
	up       map[string]bool // process group up
	owner    map[string]string
	drop     int // 1 in n, 0 never
	dup      int
	slow     int
	calm     time.Time // no faults from here on
	cutUntil time.Time
	cutFrom  time.Time
	tamper   func(to string, p *pkt)
	keep     func(to string, p pkt)
}

func newBus(r *core.R) *bus {
	return &bus{r: r, box: map[string][]pkt{}, up: map[string]bool{}, owner: map[string]string{}, calm: time.Now()}
}

// faults draws the network's fault rates for the first d of the run.
func (b *bus) faults(d time.Duration) {
	c := b.r.C
	b.calm = time.Now().Add(d)
	b.drop = sim.Pick(c, "drop", 0, 0, 8, 4, 3)
	b.dup = sim.Pick(c, "dup", 0, 0, 5, 2)
	b.slow = sim.Pick(c, "slow", 0, 0, 3, 2)
	if c.OneIn(4, "partition") {
		b.cutFrom = time.Now().Add(time.Duration(c.Choose(20, "cut-from")) * 200 * time.Millisecond)
		b.cutUntil = b.cutFrom.Add(time.Duration(1+c.Choose(20, "cut-len")) * time.Second)
		b.r.Fault("partition")
		b.calm = maxTime(b.calm, b.cutUntil)
	}
}

func maxTime(a, b time.Time) time.Time {
	if a.After(b) {
		return a
	}
	return b
}

func (b *bus) quiet() bool { return !time.Now().Before(b.calm) }

// send hands a message to the network. The group of the destination box decides
// whether it arrives.
func (b *bus) send(from, to, kind string, v any) {
	body, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	b.sendRaw(to, pkt{from, kind, body})
}

func (b *bus) sendRaw(to string, p pkt) {
	c := b.r.C
	n := 1
	d := time.Millisecond
	if !b.quiet() {
		now := time.Now()
		if !b.cutFrom.IsZero() && !now.Before(b.cutFrom) && now.Before(b.cutUntil) {
			b.r.Fault("net-cut")
			return
		}
		if b.drop > 0 && c.OneIn(b.drop, "drop?") {
			b.r.Fault("net-drop")
			return
		}
		if b.dup > 0 && c.OneIn(b.dup, "dup?") {
			b.r.Fault("net-duplicate")
			n = 2 + c.Choose(2, "copies")
		}
	}
	if b.keep != nil {
		b.keep(to, p)
	}
	if b.tamper != nil {
		b.tamper(to, &p)
	}
	for i := 0; i < n; i++ {
		dd := d
		if !b.quiet() && b.slow > 0 && c.OneIn(b.slow, "slow?") {
			b.r.Fault("net-delay")
			dd = sim.Pick(c, "delay", 5*time.Millisecond, 80*time.Millisecond, 700*time.Millisecond, 4*time.Second)
		} else if i > 0 {
			dd = sim.Pick(c, "dup-delay", time.Millisecond, 50*time.Millisecond, 900*time.Millisecond)
		}
		q := p
		b.r.At(dd, "deliver "+q.Kind, func() {
			if g := b.owner[to]; g != "" && !b.up[g] {
				b.r.Fault("net-to-crashed")
				return
			}
			b.r.Logf("%s -> %s: %s", q.From, to, q.Kind)
			b.box[to] = append(b.box[to], q)
		})
	}
}

// recv takes the next message of a box, or reports a timeout.
func (b *bus) recv(me string, wait time.Duration) (pkt, bool) {
	dl := time.Now().Add(wait)
	sim.Await(me+" inbox", dl, func() bool { return len(b.box[me]) > 0 })
	q := b.box[me]
	if len(q) == 0 {
		return pkt{}, false
	}
	i := 0
	if len(q) > 1 && !b.quiet() && b.r.C.OneIn(3, "reorder") {
		i = b.r.C.Choose(len(q), "which")
		if i > 0 {
			b.r.Fault("net-reorder")
		}
	}
	p := q[i]
	b.box[me] = append(append([]pkt(nil), q[:i]...), q[i+1:]...)
	return p, true
}

// crasher kills a process at drawn times and restarts it: only its disk survives.
func (b *bus) crasher(group string, boxes []string, times int, boot func()) {
	c := b.r.C
	at := time.Duration(0)
	for i := 0; i < times; i++ {
		at += time.Duration(c.Choose(4000, "crash-at")) * time.Millisecond
		b.crashAt(group, boxes, at, time.Duration(1+c.Choose(3000, "down-for"))*time.Millisecond, boot)
	}
}

func (b *bus) crashAt(group string, boxes []string, at, down time.Duration, boot func()) {
	b.calm = maxTime(b.calm, time.Now().Add(at+down))
	var kill func()
	kill = func() {
		if !b.up[group] {
			return
		}
		if b.r.HoldsLock(group) {
			b.r.At(time.Millisecond, "crash", kill)
			return
		}
		b.r.Kill(group)
		b.r.Fault("crash")
		b.up[group] = false
		for _, x := range boxes {
			b.box[x] = nil
		}
		b.r.At(down, "restart", func() {
			b.r.Fault("restart")
			b.up[group] = true
			boot()
		})
	}
	b.r.At(at, "crash", kill)
}

// entropyFault makes a process's entropy source fail for a while.
func (b *bus) entropyFault(group string) {
	src := &simrand.Source{State: b.r.C.U64("entropy-" + group)}
	simrand.Set(group, src)
	if b.r.C.OneIn(6, "entropy-fault") {
		at := time.Duration(b.r.C.Choose(3000, "entropy-at")) * time.Millisecond
		d := time.Duration(100+b.r.C.Choose(3000, "entropy-for")) * time.Millisecond
		b.calm = maxTime(b.calm, time.Now().Add(at+d))
		b.r.At(at, "entropy down", func() {
			src.FailAt = src.Reads + 1
		})
		b.r.At(at+d, "entropy back", func() {
			src.FailAt = 0
			if src.Fails > 0 {
				b.r.Fault("entropy-failure")
			}
		})
	} else if b.r.C.OneIn(8, "entropy-short") {
		src.ShortAt = int64(1 + b.r.C.Choose(12, "short-at"))
		src.ShortTo = sim.Pick(b.r.C, "short-to", 0, 1, 16, 1<<30)
		b.r.At(time.Minute, "note", func() {
			if src.Shorts > 0 {
				b.r.Fault("entropy-short-read")
			}
		})
	}
}

// ---------------------------------------------------------------- JSON forms

type ptJ struct{ X, Y *big.Int }

func fromScalar(s *secp256k1.Scalar) *ptJ {
	if s == nil {
		return nil
	}
	return &ptJ{s.X, s.Y}
}
func (p *ptJ) scalar() *secp256k1.Scalar {
	if p == nil {
		return nil
	}
	return secp256k1.NewScalar(p.X, p.Y)
}
func (p *ptJ) ref() ref.Pt { return ref.Pt{X: p.X, Y: p.Y} }
func (p *ptJ) str() string {
	if p == nil || p.X == nil || p.Y == nil {
		return "nil"
	}
	return fmt.Sprintf("%x,%x", p.X, p.Y)
}

type encJ struct{ N, NN, G *big.Int }

func fromEnc(p *paillier.PubKey) *encJ {
	if p == nil {
		return nil
	}
	return &encJ{p.N, p.NN, p.G}
}
func (e *encJ) key() *paillier.PubKey {
	if e == nil {
		return nil
	}
	return &paillier.PubKey{N: e.N, NN: e.NN, G: e.G}
}

// drawKey draws a private key, with the corners of the range.
func drawKey(c *sim.Chooser, what string) *big.Int {
	switch c.Choose(10, what) {
	case 1:
		return new(big.Int).Sub(ref.N, big.NewInt(int64(1+c.Choose(3, what+"-hi"))))
	case 2:
		return big.NewInt(int64(1 + c.Choose(300, what+"-lo")))
	case 3: // leading zero bytes
		return new(big.Int).SetBytes(append([]byte{1}, c.Bytes(31-1-c.Choose(8, what+"-z"), what+"-b")...))
	}
	d := new(big.Int).SetBytes(c.Bytes(32, what+"-b"))
	d.Mod(d, new(big.Int).Sub(ref.N, big.NewInt(1)))
	return d.Add(d, big.NewInt(1))
}

// drawHash draws a 32-byte digest, with the corners of the range.
func drawHash(c *sim.Chooser, what string) []byte {
	switch c.Choose(12, what) {
	case 1:
		return make([]byte, 32)
	case 2:
		b := make([]byte, 32)
		for i := range b {
			b[i] = 0xff
		}
		return b
	case 3:
		return ref.B32(new(big.Int).Add(ref.N, big.NewInt(int64(c.Choose(3, what+"-n"))-1)))
	case 4:
		b := c.Bytes(32, what+"-b")
		b[0], b[1] = 0, 0
		return b
	}
	return c.Bytes(32, what+"-b")
}

// otherHash draws a digest that is not h, often one that agrees with it in part.
func otherHash(c *sim.Chooser, h []byte, what string) []byte {
	b := append([]byte(nil), h...)
	switch c.Choose(8, what+"-alike") {
	case 0:
		b[c.Choose(32, what+"-byte")] ^= byte(1 + c.Choose(255, what+"-xor"))
	case 1:
		copy(b, c.Bytes(16, what+"-half"))
	case 2:
		copy(b[16:], c.Bytes(16, what+"-half"))
	case 3:
		for i, j := 0, 31; i < j; i, j = i+1, j-1 {
			b[i], b[j] = b[j], b[i]
		}
	}
	if bytes.Equal(b, h) {
		return c.Bytes(32, what)
	}
	return b
}

func refPub(d *big.Int) ref.Pt { return ref.MulG(d) }

func libPrv(d *big.Int) *xcrypto.PrvKey { return xcrypto.PrvKeyFromBytes(ref.B32(d)) }

func libPub(p ref.Pt) *xcrypto.PubKey {
	k, err := xcrypto.PubKeyFromBytes(p.Compress())
	if err != nil {
		panic(err)
	}
	return k
}

func pubIs(k *xcrypto.PubKey, p ref.Pt) bool {
	return k != nil && k.X != nil && k.Y != nil && p.X != nil && k.X.Cmp(p.X) == 0 && k.Y.Cmp(p.Y) == 0
}

// judgeSig checks a final ECDSA signature against an independent verifier.
func judgeSig(pub ref.Pt, hash, sig []byte) string {
	rr, ss, ok := ref.ParseDERStrict(sig)
	if !ok {
		return fmt.Sprintf("not strict DER: %x", sig)
	}
	if ss.Cmp(new(big.Int).Rsh(ref.N, 1)) > 0 {
		return "S is above half the group order"
	}
	if !ref.ECDSAVerify(pub, hash, rr, ss) {
		return fmt.Sprintf("does not verify under the joint key: %x", sig)
	}
	return ""
}

func jsonPkt(from, kind string, v any) pkt {
	body, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return pkt{from, kind, body}
}

// meter runs f, with the reads of this task's entropy failing from the one
// after the first n on (n < 0: none fails), and counts the reads f took.
func meter(group string, n int64, f func()) int64 {
	src, t := simrand.Of(group), sim.CurTask()
	if src.Trip == nil {
		src.Trip = map[*sim.Task]int64{}
	}
	if n < 0 {
		n = 1 << 50
	}
	src.Trip[t] = n
	defer delete(src.Trip, t)
	f()
	return n - src.Trip[t]
}
