package hmain

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"reflect"
	"runtime"
	"time"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xprotocol"

	"vsim/core"
	"vsim/sim"
	"vsim/simnet"
)

// ---------------------------------------------------------------- messages

// wire is one message as sent: the object, and an independent record of it.
type wire struct {
	msg  xprotocol.Message
	cmd  string
	body []byte            // reference encoding of the payload
	pen  xprotocol.Message // when set, the object sent: msg is written into it right before
}

// send sends the message.
func (w *wire) send(c *xprotocol.Connection) error {
	if w.pen == nil {
		return c.Send(w.msg)
	}
	reflect.ValueOf(w.pen).Elem().Set(reflect.ValueOf(w.msg).Elem())
	return c.Send(w.pen)
}

func le16(v uint32) []byte { return []byte{byte(v), byte(v >> 8)} }
func le32(v uint32) []byte { b := make([]byte, 4); binary.LittleEndian.PutUint32(b, v); return b }
func le64(v uint64) []byte { b := make([]byte, 8); binary.LittleEndian.PutUint64(b, v); return b }
func varint(v uint64) []byte {
	switch {
	case v < 0xfd:
		return []byte{byte(v)}
	case v <= 0xffff:
		return append([]byte{0xfd}, le16(uint32(v))...)
	case v <= 0xffffffff:
		return append([]byte{0xfe}, le32(uint32(v))...)
	}
	return append([]byte{0xff}, le64(v)...)
}
func varbytes(b []byte) []byte { return append(varint(uint64(len(b))), b...) }
func cat(bs ...[]byte) []byte  { return bytes.Join(bs, nil) }

func dsha(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return h[:]
}

// frame is the reference framing.
func frame(magic []byte, cmd string, body []byte) []byte {
	c := make([]byte, 12)
	copy(c, cmd)
	return cat(magic, c, le32(uint32(len(body))), dsha(body)[:4], body)
}

var cmds = []string{"ping", "pong", "verack", "version", "inv", "getdata", "getheaders", "headers", "tx", "reject", "other"}

// count draws a list length that favours the encoding's boundaries.
func count(c *sim.Chooser, max int, what string) int {
	n := []int{0, 1, 2, 3, 7, 20, 0xfc, 0xfd, 0xfe, 400, 2000}[c.Choose(11, what)]
	if n > max {
		n = max
	}
	return n
}

func size(c *sim.Chooser, max int, what string) int {
	opts := []int{0, 1, 31, 64, 0xfc, 0xfd, 1000, 4096, 32768 - 24, 32768, 32769, 65535, 65536, 70000, 200000}
	n := opts[c.Choose(len(opts), what)]
	if c.Choose(3, what+"+") == 1 {
		n += c.Choose(300, what+"++")
	}
	if n > max {
		n = max
	}
	return n
}

// genMsg draws a message. big bounds its size in bytes.
func genMsg(c *sim.Chooser, big int) *wire {
	return genMsgOf(c, cmds[c.Choose(len(cmds), "msg.kind")], big)
}

// hugeMsg draws a message at the top of what the protocol carries.
func hugeMsg(c *sim.Chooser) *wire {
	switch c.Choose(4, "huge") {
	case 0:
		n := sim.Pick(c, "huge-n", 1<<20, 2<<20+7, 1<<24-1, 1<<24, 17<<20, 32<<20)
		w := &wire{cmd: "tx", body: c.Bytes(n, "huge-d")}
		w.msg = xprotocol.NewMsgTx(append([]byte(nil), w.body...))
		return w
	case 1:
		return genMsgOf(c, "headers", 81*2000)
	default:
		n := xprotocol.MaxInvPerMsg - sim.Pick(c, "huge-less", 0, 0, 1, 1000)
		w := &wire{cmd: sim.Pick(c, "huge-kind", "inv", "getdata"), body: cat(varint(uint64(n)), c.Bytes(36*n, "huge-d"))}
		var iv []*xprotocol.InvVect
		for b := w.body[len(w.body)-36*n:]; len(b) > 0; b = b[36:] {
			iv = append(iv, xprotocol.NewInvVect(xprotocol.InvType(binary.LittleEndian.Uint32(b)), append([]byte(nil), b[4:36]...)))
		}
		if w.cmd == "inv" {
			m := xprotocol.NewMsgInv()
			m.AddInvVect(iv...)
			w.msg = m
		} else {
			m := xprotocol.NewMsgGetData()
			m.AddInvVect(iv...)
			w.msg = m
		}
		return w
	}
}

func genMsgOf(c *sim.Chooser, cmd string, big int) *wire {
	w := &wire{cmd: cmd}
	switch w.cmd {
	case "ping":
		n := c.U64("nonce")
		w.msg, w.body = xprotocol.NewMsgPing(n), le64(n)
	case "pong":
		n := c.U64("nonce")
		w.msg, w.body = xprotocol.NewMsgPong(n), le64(n)
	case "verack":
		w.msg = xprotocol.NewMsgVerAck()
	case "version":
		m := &xprotocol.MsgVersion{
			Version: uint32(c.U64("v")), Services: c.U64("v"), Timestamp: c.U64("v"), ServicesYou: c.U64("v"),
			AddressYou: c.Bytes(16, "v"), PortYou: uint32(c.Choose(65536, "v")), ServicesMe: c.U64("v"),
			AddressMe: c.Bytes(16, "v"), PortMe: uint32(c.Choose(65536, "v")), Nonce: c.U64("v"),
			UserAgent: string(text(c, size(c, 400, "ua"))), LastBlock: uint32(c.U64("v")), Relay: byte(c.Choose(256, "v")),
		}
		w.msg = m
		w.body = cat(le32(m.Version), le64(m.Services), le64(m.Timestamp), le64(m.ServicesYou), m.AddressYou, le16(m.PortYou),
			le64(m.ServicesMe), m.AddressMe, le16(m.PortMe), le64(m.Nonce), varbytes([]byte(m.UserAgent)), le32(m.LastBlock), []byte{m.Relay})
	case "inv", "getdata":
		n := count(c, big/36, "inv.n")
		var iv []*xprotocol.InvVect
		w.body = varint(uint64(n))
		hs := repeat(c, c.Bytes(32*n+4*n, "inv.h"), 36)
		for i := 0; i < n; i++ {
			h := hs[i*36 : i*36+32 : i*36+32]
			t := binary.LittleEndian.Uint32(hs[i*36+32:])
			if hs[i*36+35]&1 == 0 {
				t = t % 4
			}
			iv = append(iv, xprotocol.NewInvVect(xprotocol.InvType(t), h))
			w.body = cat(w.body, le32(t), h)
		}
		if w.cmd == "inv" {
			m := xprotocol.NewMsgInv()
			m.AddInvVect(iv...)
			w.msg = m
		} else {
			m := xprotocol.NewMsgGetData()
			m.AddInvVect(iv...)
			w.msg = m
		}
	case "getheaders":
		n := 1 + count(c, min(499, big/32), "gh.n")
		m := xprotocol.NewMsgGetHeaders(network.MainNet)
		w.body = cat(le32(network.MainNet.ProtocolVersion), varint(uint64(n)))
		hs := repeat(c, c.Bytes(32*n, "gh.h"), 32)
		for i := 0; i < n; i++ {
			h := hs[i*32 : i*32+32 : i*32+32]
			m.AddBlockLocatorHash(h)
			w.body = append(w.body, h...)
		}
		w.body = append(w.body, make([]byte, 32)...)
		w.msg = m
	case "headers":
		n := count(c, min(2000, big/81), "hd.n")
		m := xprotocol.NewMsgHeaders()
		w.body = varint(uint64(n))
		hs := repeat(c, c.Bytes(80*n, "hd.h"), 80)
		for i := 0; i < n; i++ {
			h := hs[i*80 : i*80+80 : i*80+80]
			m.AddBlockHeader(&xprotocol.BlockHeader{
				Version: binary.LittleEndian.Uint32(h), PrevBlock: h[4:36:36], MerkleRoot: h[36:68:68],
				Timestamp: binary.LittleEndian.Uint32(h[68:]), Bits: binary.LittleEndian.Uint32(h[72:]), Nonce: binary.LittleEndian.Uint32(h[76:]),
			})
			w.body = append(append(w.body, h...), 0)
		}
		w.msg = m
	case "tx":
		d := c.Bytes(size(c, big, "tx.n"), "tx.d")
		w.msg, w.body = xprotocol.NewMsgTx(d), append([]byte(nil), d...)
	case "reject":
		cm := sim.Pick(c, "rj.cmd", "block", "tx", "version", "", "inv")
		code := byte(c.Choose(256, "rj.code"))
		reason := string(text(c, size(c, min(big, 70000), "rj.n")))
		m := xprotocol.NewMsgReject(cm, xprotocol.RejectCode(code), reason)
		w.body = cat(varbytes([]byte(cm)), []byte{code}, varbytes([]byte(reason)))
		if cm == "block" || cm == "tx" {
			m.Hash = c.Bytes(32, "rj.h")
			w.body = append(w.body, m.Hash...)
		}
		w.msg = m
	default:
		w.cmd = sim.Pick(c, "cmd", "addr", "mempool", "sendheaders", "abcdefghijkl", "x")
		w.msg = xprotocol.NewMsgUnhandle(w.cmd)
	}
	return w
}

// cmdOf is the kind genMsgOf knows a message by.
func cmdOf(m xprotocol.Message) string {
	if _, ok := m.(*xprotocol.MsgUnhandle); ok {
		return "other"
	}
	return m.Command()
}

// repeat makes some items of a list equal to one before them.
func repeat(c *sim.Chooser, b []byte, size int) []byte {
	n := len(b) / size
	if n < 2 || !c.OneIn(3, "repeat") {
		return b
	}
	for k := 1 + c.Choose(3, "repeats"); k > 0; k-- {
		i := 1 + c.Choose(n-1, "repeat#")
		j := i - 1
		if c.OneIn(3, "repeat-far") {
			j = c.Choose(i, "repeat-of")
		}
		copy(b[i*size:(i+1)*size], b[j*size:(j+1)*size])
	}
	return b
}

func text(c *sim.Chooser, n int) []byte {
	b := c.Bytes(n, "text")
	for i := range b {
		b[i] = ' ' + b[i]%90
	}
	return b
}

// check compares a delivered message with what was sent; "" means equal.
func (w *wire) check(m xprotocol.Message) string {
	if m == nil {
		return "nil message"
	}
	if m.Command() != w.cmd {
		return fmt.Sprintf("command %q, sent %q", m.Command(), w.cmd)
	}
	if reflect.TypeOf(m) != reflect.TypeOf(w.msg) {
		return fmt.Sprintf("%q delivered as %T, sent as %T", w.cmd, m, w.msg)
	}
	if e := m.Encode(); !bytes.Equal(e, w.body) {
		return fmt.Sprintf("%q payload differs (%s)", w.cmd, diffAt(e, w.body))
	}
	if d := diffFields(reflect.ValueOf(m).Elem(), reflect.ValueOf(w.msg).Elem(), w.cmd); d != "" {
		return d
	}
	return ""
}

func diffAt(a, b []byte) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return fmt.Sprintf("len %d want %d, first at %d", len(a), len(b), i)
		}
	}
	return fmt.Sprintf("len %d want %d", len(a), len(b))
}

// diffFields compares exported fields, treating nil and empty alike.
func diffFields(a, b reflect.Value, path string) string {
	switch a.Kind() {
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).PkgPath != "" {
				continue
			}
			if d := diffFields(a.Field(i), b.Field(i), path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
	case reflect.Ptr:
		if a.IsNil() != b.IsNil() {
			return path + " nil differs"
		}
		if !a.IsNil() {
			return diffFields(a.Elem(), b.Elem(), path)
		}
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s length %d, sent %d", path, a.Len(), b.Len())
		}
		if a.Type().Elem().Kind() == reflect.Uint8 {
			if !bytes.Equal(a.Bytes(), b.Bytes()) {
				return path + " differs"
			}
			return ""
		}
		for i := 0; i < a.Len(); i++ {
			if d := diffFields(a.Index(i), b.Index(i), path); d != "" {
				return d
			}
		}
	default:
		if !reflect.DeepEqual(a.Interface(), b.Interface()) {
			return fmt.Sprintf("%s is %v, sent %v", path, a.Interface(), b.Interface())
		}
	}
	return ""
}

// ---------------------------------------------------------------- nodes

var nets = []*network.Network{network.MainNet, network.TestNet}

// node is one endpoint running the real connection code.
type node struct {
	r         *core.R
	name      string
	conn      *xprotocol.Connection
	raw       *simnet.Conn
	got       []xprotocol.Message
	gotAt     []time.Time
	disc      int
	discAt    time.Time
	afterDisc int
	loopDone  bool
	inCB      int
	overlap   int
	onMsg     func(m xprotocol.Message)
	loop      *sim.Task
}

func newNode(r *core.R, name string, nw *network.Network, raw *simnet.Conn) *node {
	n := &node{r: r, name: name, raw: raw}
	r.Go(name, name+".new", func() {
		n.conn = xprotocol.NewConnection(nw, raw, n.receive, n.disconnect)
	})
	r.Run(func() bool { return n.conn != nil })
	return n
}

func (n *node) start() {
	n.loop = n.r.Go(n.name, n.name+".readloop", func() {
		n.conn.ReadLoop()
		n.loopDone = true
		n.r.Logf("%s readloop ended", n.name)
	})
}

func (n *node) receive(c *xprotocol.Connection, m xprotocol.Message) {
	if n.disc > 0 {
		n.afterDisc++
	}
	if c != n.conn {
		n.r.Fail("wrong-connection", "%s: receive callback got another connection", n.name)
	}
	n.inCB++
	if n.inCB > 1 {
		n.overlap++
	}
	n.got = append(n.got, m)
	n.gotAt = append(n.gotAt, time.Now())
	if m != nil {
		n.r.Logf("%s recv %s", n.name, m.Command())
	}
	if n.onMsg != nil {
		n.onMsg(m)
	}
	n.inCB--
}

func (n *node) disconnect(c *xprotocol.Connection) {
	n.disc++
	n.discAt = time.Now()
	n.r.Logf("%s disconnect", n.name)
}

// sent records one Send.
type sent struct {
	w          *wire
	sender     int
	start, end int64
	took       time.Duration
	err        error
	done       bool
}

// profiles draws link profiles that stay clear of the 30 s / 20 s timeouts.
func profiles(c *sim.Chooser, big int) (simnet.Profile, simnet.Profile) {
	f := func() simnet.Profile {
		p := simnet.PickProfile(c)
		if p.Cap < 64<<10 {
			for p.MaxDelay > 0 && time.Duration(big/p.Cap+2)*p.MaxDelay > 4*time.Second {
				p.MaxDelay /= 100
			}
		}
		if p.Cap == 64<<10 && p.MaxDelay > 100*time.Millisecond {
			p.MaxDelay = 100 * time.Millisecond
		}
		return p
	}
	return f(), f()
}

func bigFor(c *sim.Chooser) int {
	return []int{600, 600, 5000, 40000, 80000, 250000}[c.Choose(6, "big")]
}

// scenario C01 ------------------------------------------------------------

func c01(r *core.R) {
	c := r.C
	r.Epoch(time.Duration(c.Choose(1000, "epoch")) * time.Hour)
	past(r)
	nw := nets[c.Choose(2, "net")]
	big := bigFor(c)
	pa, pb := profiles(c, big)
	huge := c.OneIn(50, "huge-message")
	if huge {
		pa, pb = simnet.Profile{Cap: 1 << 30}, simnet.Profile{Cap: 1 << 30}
	}
	ca, cb := simnet.Pipe(r.Sim, c, "a", "b", pa, pb)
	ca.Record()
	a, b := newNode(r, "A", nw, ca), newNode(r, "B", nw, cb)
	nodes := []*node{a, b}
	refPeer := c.Choose(4, "refpeer") == 3 // B is an independent implementation instead
	dirs := 1 + c.Choose(2, "dirs")
	if refPeer {
		dirs = 2
	}
	// A slow conversation: both sides talk for minutes, never long enough apart
	// for the idle timeout.
	slow := c.OneIn(6, "slow-talk")
	slowN, slowGap := 0, time.Duration(0)
	if slow {
		dirs = 2
		slowN = c.Range(3, 9, "slow.n")
		slowGap = time.Duration(c.Range(4, 20, "slow.gap")) * time.Second
		r.Probe("slow-conversation")
	}
	burst := !slow && c.OneIn(6, "burst")
	var logs [2][]*sent
	var ticks int64
	sending := 0
	a.start()
	if !refPeer {
		b.start()
	}
	for d := 0; d < dirs; d++ {
		senders := 1 + c.Choose(3, "senders")
		if refPeer && d == 1 || slow {
			senders = 1
		}
		total := 0
		for k := 0; k < senders; k++ {
			n := c.Range(1, 6, "msgs")
			if slow {
				n = slowN
			} else if burst {
				n = c.Range(7, 40, "burst.n") / senders
			}
			var ms []*wire
			for i := 0; i < n; i++ {
				b := big
				if total > 300000 {
					b = 300
				}
				if burst {
					b = 120
				}
				if i > 0 && c.OneIn(6, "again") {
					// the same message once more is one more message
					ms = append(ms, ms[i-1])
					total += len(ms[i-1].body)
					continue
				}
				w := genMsg(c, b)
				if i > 0 && c.OneIn(8, "same-object") {
					// the object sent before, with other contents
					old := ms[i-1]
					if old.pen != nil || old.cmd == w.cmd || c.OneIn(2, "same-kind") {
						w = genMsgOf(c, cmdOf(old.msg), b)
					}
					if reflect.TypeOf(w.msg) == reflect.TypeOf(old.msg) {
						if old.pen == nil {
							old.pen = reflect.New(reflect.TypeOf(old.msg).Elem()).Interface().(xprotocol.Message)
						}
						w.pen = old.pen
					}
				} else if huge && k == 0 && i == 0 {
					w = hugeMsg(c)
					r.Probe("huge-message")
				}
				total += len(w.body)
				ms = append(ms, w)
			}
			gap := time.Duration(c.Choose(4, "gap")) * 300 * time.Millisecond
			if slow {
				gap = slowGap
			} else if burst {
				gap = 0
			}
			d, k := d, k
			sending++
			nd := nodes[d]
			// A packet may end anywhere: the peer's own writes can carry the end of
			// one frame and the beginning of the next, which goes on a pause later.
			var ahead []int
			if refPeer && d == 1 && slow && c.OneIn(2, "ahead") {
				for _, w := range ms {
					ahead = append(ahead, c.Choose(24+len(w.body), "ahead-n"))
				}
				r.Probe("frame-begun-ahead")
			}
			r.Go(nd.name, fmt.Sprintf("%s.send%d", nd.name, k), func() {
				defer func() { sending-- }()
				for i, w := range ms {
					s := &sent{w: w, sender: k}
					logs[d] = append(logs[d], s)
					if gap > 0 {
						sim.Sleep(gap)
					}
					ticks++
					s.start = ticks
					if refPeer && d == 1 {
						b := frame(nw.Magic, w.cmd, w.body)
						if ahead != nil {
							if i > 0 {
								b = b[ahead[i]:]
							}
							if i+1 < len(ms) {
								b = append(b, frame(nw.Magic, ms[i+1].cmd, ms[i+1].body)[:ahead[i+1]]...)
							}
						}
						_, s.err = cb.Write(b)
					} else {
						s.err = w.send(nd.conn)
					}
					ticks++
					s.end, s.done = ticks, true
					r.Logf("%s.%d sent %s (%d bytes) err=%v", nd.name, k, w.cmd, len(w.body), s.err)
				}
			})
		}
	}
	var refGot [][2]any
	if refPeer {
		r.Go("B", "B.ref", func() {
			for {
				h := make([]byte, 24)
				if !readFull(cb, h) {
					return
				}
				body := make([]byte, binary.LittleEndian.Uint32(h[16:]))
				if !readFull(cb, body) {
					return
				}
				if !bytes.Equal(h[:4], nw.Magic) || !bytes.Equal(h[20:24], dsha(body)[:4]) {
					r.Fail("bad-frame", "a frame on the wire has a wrong magic or checksum")
					return
				}
				refGot = append(refGot, [2]any{string(bytes.TrimRight(h[4:16], "\x00")), body})
			}
		})
	}
	// Run until everything is sent and drained, but not into the idle timeout.
	limit := 25*time.Second + time.Duration(slowN)*slowGap
	deadline := time.Now().Add(limit)
	r.At(limit, "end", func() {})
	quiet := func() bool {
		if sending > 0 || ca.InFlight() || cb.InFlight() || ca.Unread() > 0 || cb.Unread() > 0 {
			return !time.Now().Before(deadline)
		}
		want := [2]int{len(logs[1]), len(logs[0])}
		if refPeer {
			return len(a.got) >= want[0] && len(refGot) >= want[1] || !time.Now().Before(deadline)
		}
		return len(a.got) >= want[0] && len(b.got) >= want[1] || !time.Now().Before(deadline)
	}
	r.Run(quiet)
	if r.Failed() {
		return
	}
	// linger a little: nothing may be delivered twice
	lim := time.Now().Add(2 * time.Second)
	r.At(2*time.Second, "linger", func() {})
	r.Run(func() bool { return !time.Now().Before(lim) })
	nmsg := 0
	for d := 0; d < dirs; d++ {
		dst := nodes[1-d]
		for _, s := range logs[d] {
			if !s.done {
				r.Fail("send-stuck", "%s: sending %s has not returned within 25s on a healthy link", nodes[d].name, s.w.cmd)
				return
			}
			if s.err != nil {
				r.Fail("send-failed", "%s: sending %s failed on a healthy link: %v", nodes[d].name, s.w.cmd, s.err)
				return
			}
		}
		if dst.disc > 0 {
			r.Fail("spurious-disconnect", "%s was told of a disconnect on a healthy link", dst.name)
			return
		}
		nmsg += len(logs[d])
		if refPeer && d == 0 {
			matchOrder(r, logs[d], len(refGot), func(i int, w *wire) string {
				if refGot[i][0].(string) != w.cmd {
					return "command " + refGot[i][0].(string)
				}
				if !bytes.Equal(refGot[i][1].([]byte), w.body) {
					return fmt.Sprintf("%s payload on the wire differs (%s)", w.cmd, diffAt(refGot[i][1].([]byte), w.body))
				}
				return ""
			}, "peer")
			continue
		}
		matchOrder(r, logs[d], len(dst.got), func(i int, w *wire) string { return w.check(dst.got[i]) }, dst.name)
		if dst.overlap > 0 {
			r.Fail("concurrent-callbacks", "%s: receive callbacks overlapped", dst.name)
		}
	}
	if nmsg >= 2 {
		r.NonTrivial = true
	}
	r.Mark("messages", nmsg)
	r.Note("workload", fmt.Sprintf("net=%x dirs=%d refpeer=%v messages=%d link=%+v", nw.Magic, dirs, refPeer, nmsg, pa))
}

func readFull(c *simnet.Conn, p []byte) bool {
	for n := 0; n < len(p); {
		k, err := c.Read(p[n:])
		n += k
		if err != nil {
			return false
		}
	}
	return true
}

// matchOrder checks exactly-once, unaltered, in-order delivery: the delivered
// sequence must be an interleaving of the senders' sequences that respects
// completed-before-started.
func matchOrder(r *core.R, log []*sent, n int, eq func(i int, w *wire) string, who string) {
	if n > len(log) {
		r.Fail("extra-message", "%s was handed %d messages, %d were sent", who, n, len(log))
		return
	}
	used := make([]bool, len(log))
	var order []*sent
	for i := 0; i < n; i++ {
		found := -1
		why := ""
		for j, s := range log {
			if used[j] {
				continue
			}
			// the earliest unconsumed message of each sender is the only candidate
			first := true
			for k := 0; k < j; k++ {
				if !used[k] && log[k].sender == s.sender {
					first = false
				}
			}
			if !first {
				continue
			}
			d := eq(i, s.w)
			if d == "" {
				// a message that must precede this one has not been delivered
				if found < 0 || s.end < log[found].end {
					found = j
				}
			} else {
				why = d
			}
		}
		if found < 0 {
			r.Fail("altered-message", "%s: delivery %d is not any next sent message: %s", who, i, why)
			return
		}
		used[found] = true
		order = append(order, log[found])
	}
	if n < len(log) {
		for j, s := range log {
			if !used[j] {
				r.Fail("lost-message", "%s: message %s was sent (%d of %d delivered) but never handed over", who, s.w.cmd, n, len(log))
				return
			}
		}
	}
	for i := range order {
		for j := i + 1; j < len(order); j++ {
			if order[j].end < order[i].start {
				r.Fail("reordered", "%s: %s was sent before %s started but was delivered after it", who, order[j].w.cmd, order[i].w.cmd)
				return
			}
		}
	}
}

// scenario C02 ------------------------------------------------------------

func c02(r *core.R) {
	past(r)
	c := r.C
	nw := nets[c.Choose(2, "net")]
	big := []int{300, 300, 3000, 3000, 40000, 80000, 250000}[c.Choose(7, "big")]
	pa, pb := profiles(c, big)
	n := c.Range(1, 6, "msgs")
	if big > 40000 && n > 3 {
		n = 3
	} else if big == 300 && c.OneIn(4, "long") { // late in a conversation
		n = 7 + c.Choose(40, "msgs+")
	}
	var ms []*wire
	for i := 0; i < n; i++ {
		ms = append(ms, genMsg(c, big))
	}
	if c.OneIn(80, "huge-message") {
		ms[n-1] = hugeMsg(c)
		pa, pb = simnet.Profile{Cap: 1 << 30}, simnet.Profile{Cap: 1 << 30}
	}
	ca, cb := simnet.Pipe(r.Sim, c, "a", "b", pa, pb)
	b := newNode(r, "B", nw, cb)
	b.start()
	ref := c.Choose(2, "ref-sender") == 0
	fault := c.Choose(13, "fault")
	// which frame is damaged
	k := c.Choose(n, "victim")
	if c.OneIn(3, "last") {
		k = n - 1
	}
	var off int64
	starts := make([]int64, n+1)
	for i, w := range ms {
		starts[i+1] = starts[i] + 24 + int64(len(w.body))
	}
	off = starts[k]
	intact := k // number of frames that precede the damage
	desc := ""
	bodyLen := len(ms[k].body)
	rawFrames := make([][]byte, n)
	for i, w := range ms {
		rawFrames[i] = frame(nw.Magic, w.cmd, w.body)
	}
	switch fault {
	case 0:
		desc, intact = "none", n
	case 1:
		if bodyLen > 0 {
			damagePayload(c, ms[k].body, func(i int, m byte) { ca.CorruptAt(off+24+int64(i), m) })
			desc = "corrupt-payload"
		} else {
			ca.CorruptAt(off+20+int64(c.Choose(4, "pos")), byte(1<<c.Choose(8, "bit")))
			desc = "corrupt-checksum"
		}
	case 2:
		ca.CorruptAt(off+20+int64(c.Choose(4, "pos")), byte(1+c.Choose(255, "mask")))
		desc = "corrupt-checksum"
	case 3:
		at := off + 16 + int64(c.Choose(4, "pos"))
		ca.CorruptAt(at, byte(1+c.Choose(255, "mask")))
		desc = "corrupt-length"
	case 4:
		ca.CorruptAt(off+int64(c.Choose(4, "pos")), byte(1+c.Choose(255, "mask")))
		desc = "corrupt-magic"
	case 5, 6, 7:
		kind := []simnet.Kind{simnet.FIN, simnet.RST, simnet.Stall}[fault-5]
		o := off + int64(c.Choose(24+bodyLen, "pos"))
		ca.CutAt(o, kind, 0)
		desc = "cut-" + kind.String()
	case 8:
		// a whole frame of another network
		ref = true
		other := nets[1-indexOf(nw)].Magic
		if c.Choose(3, "othermagic") == 1 {
			other = cat(nw.Magic[:3], []byte{nw.Magic[3] ^ byte(1+c.Choose(255, "m"))})
		}
		rawFrames[k] = frame(other, ms[k].cmd, ms[k].body)
		desc = "foreign-network"
	case 9, 10:
		// a checksum that is wrong in a meaningful way
		desc = "wrong-checksum"
		good := dsha(ms[k].body)[:4]
		for i, b := range wrongChecksum(c, nw, ms, k) {
			if b != good[i] {
				ca.CorruptAt(off+20+int64(i), b^good[i])
			}
		}
	case 11, 12:
		// bytes went missing from the stream, or strange ones got into it
		ref = true
		f := rawFrames[k]
		pos := c.Choose(len(f), "pos")
		if fault == 11 {
			desc = "bytes-missing"
			m := min(1+c.Choose(30, "missing"), len(f)-pos, len(f)-1)
			rawFrames[k] = cat(f[:pos], f[pos+m:])
		} else {
			desc = "bytes-inserted"
			rawFrames[k] = cat(f[:pos], c.Bytes(1+c.Choose(60, "inserted"), "inserted"), f[pos:])
		}
		clean := cat(frameAll(nw, ms)...)
		same := 0
		for damaged := cat(rawFrames...); same < len(clean) && same < len(damaged) && clean[same] == damaged[same]; same++ {
		}
		for intact = 0; intact < n && starts[intact+1] <= int64(same); intact++ {
		}
	}
	var a *node
	if !ref {
		a = newNode(r, "A", nw, ca)
		a.start()
	}
	finished := false
	r.Go("A", "A.send", func() {
		defer func() { finished = true }()
		for i, w := range ms {
			var err error
			if ref {
				_, err = ca.Write(rawFrames[i])
			} else {
				err = a.conn.Send(w.msg)
			}
			if err != nil {
				return
			}
		}
		if c.Choose(2, "close") == 1 {
			ca.Close()
		}
	})
	end := time.Now().Add(75 * time.Second)
	r.At(75*time.Second, "end", func() {})
	r.Run(func() bool { return finished && b.disc > 0 && b.loopDone || !time.Now().Before(end) })
	if ca.St.Corrupted > 0 || ca.St.Cut > 0 || fault == 8 || fault >= 11 {
		r.Fault(desc)
		r.NonTrivial = true
	} else if fault != 0 {
		r.Probe("fault-not-reached")
		return
	}
	for i, m := range b.got {
		if i >= intact {
			r.Fail("damaged-delivered", "after %s in frame %d of %d, delivery %d (%s) was still handed over", desc, k, n, i, m.Command())
			return
		}
		if d := ms[i].check(m); d != "" {
			r.Fail("altered-message", "with %s in frame %d, delivery %d: %s", desc, k, i, d)
			return
		}
	}
	if len(b.got) < intact {
		r.Fail("lost-message", "only %d of the %d intact frames before the damage (%s) were handed over", len(b.got), intact, desc)
		return
	}
	if fault != 0 && b.disc == 0 {
		r.Fail("damage-unreported", "%s in frame %d was neither delivered nor reported as a disconnect", desc, k)
	}
	if b.afterDisc > 0 {
		r.Fail("receive-after-disconnect", "message handed over after the disconnect")
	}
	r.Note("case", fmt.Sprintf("%s in frame %d of %d (ref sender %v), delivered %d", desc, k, n, ref, len(b.got)))
}

func frameAll(nw *network.Network, ms []*wire) (fs [][]byte) {
	for _, w := range ms {
		fs = append(fs, frame(nw.Magic, w.cmd, w.body))
	}
	return
}

// wrongChecksum draws four bytes that are not the checksum of message k but
// that a careless reader could take for one.
func wrongChecksum(c *sim.Chooser, nw *network.Network, ms []*wire, k int) []byte {
	body := ms[k].body
	good := dsha(body)[:4]
	h := sha256.Sum256(body)
	cmd := make([]byte, 12)
	copy(cmd, ms[k].cmd)
	var v []byte
	switch c.Choose(12, "wrong.checksum") {
	case 0:
		v = make([]byte, 4)
	case 1:
		v = []byte{0xff, 0xff, 0xff, 0xff}
	case 2:
		v = h[:4] // one round of the hash only
	case 3:
		v = dsha(body)[28:]
	case 4:
		v = []byte{good[3], good[2], good[1], good[0]}
	case 5:
		v = dsha(nil)[:4]
	case 6:
		v = dsha(ms[(k+len(ms)-1)%len(ms)].body)[:4]
	case 7:
		v = dsha(cat(cmd, body))[:4]
	case 8:
		v = dsha(body[:len(body)/2])[:4]
	case 9:
		v = append([]byte(nil), nw.Magic...)
	case 10:
		v = append(append([]byte(nil), good[:3]...), ^good[3])
	default:
		v = dsha(body)[4:8]
	}
	if bytes.Equal(v, good) {
		v = []byte{good[0] ^ 1, good[1], good[2], good[3]}
	}
	return v
}

// damagePayload alters body in transit through flip(offset, mask).
func damagePayload(c *sim.Chooser, body []byte, flip func(i int, m byte)) {
	n := len(body)
	done := false
	set := func(i int, b byte) {
		if m := body[i] ^ b; m != 0 {
			flip(i, m)
			done = true
		}
	}
	from := c.Choose(n, "pos")
	run := min(1+c.Choose(64, "run"), n-from)
	switch c.Choose(8, "damage") {
	case 0: // two bytes trade places
		j := c.Choose(n, "pos2")
		set(from, body[j])
		if j != from {
			set(j, body[from])
		}
	case 1: // a run of bytes reads as zero, or as one
		v := byte(0)
		if c.Choose(2, "ones") == 1 {
			v = 0xff
		}
		for i := from; i < from+run; i++ {
			set(i, v)
		}
	case 2: // a run is shifted by one byte
		for i := from; i+1 < from+run; i++ {
			set(i, body[i+1])
		}
	case 3: // the two ends
		flip(n-1, byte(1<<c.Choose(8, "bit")))
		done = true
	case 4:
		flip(0, byte(1<<c.Choose(8, "bit")))
		done = true
	case 5: // one in a late block of a large payload
		flip(n-1-c.Choose(min(n, 4096), "late"), byte(1+c.Choose(255, "mask")))
		done = true
	}
	for x := c.Choose(3, "flips"); x > 0 || !done; x-- {
		m := byte(1 << c.Choose(8, "bit"))
		if c.Choose(4, "mask") == 1 {
			m = 0xff
		}
		flip(from+c.Choose(n-from, "pos3"), m)
		done = true
		if x <= 0 {
			break
		}
	}
}

func indexOf(n *network.Network) int {
	if n == nets[0] {
		return 0
	}
	return 1
}

// scenario C03 ------------------------------------------------------------

// Sending does not wait for the peer to talk.
func c03(r *core.R) {
	past(r)
	c := r.C
	nw := nets[c.Choose(2, "net")]
	big := []int{300, 3000, 40000}[c.Choose(3, "big")]
	pa, pb := profiles(c, big)
	if pa.MaxDelay > 100*time.Millisecond {
		pa.MaxDelay = 100 * time.Millisecond
	}
	ca, cb := simnet.Pipe(r.Sim, c, "a", "b", pa, pb)
	a := newNode(r, "A", nw, ca)
	mode := c.Choose(5, "mode")
	var b *node
	read := 0
	got := 0
	switch mode {
	case 0: // peer reads and never writes
		r.Go("B", "B.drain", func() {
			buf := make([]byte, 70000)
			for {
				n, err := cb.Read(buf)
				read += n
				if err != nil {
					return
				}
			}
		})
		r.Probe("peer-silent")
	case 1: // peer runs the real code, silent
		b = newNode(r, "B", nw, cb)
		b.start()
		r.Probe("peer-real-silent")
	case 2: // echo: the callback of one side sends on the same connection
		b = newNode(r, "B", nw, cb)
		b.onMsg = func(m xprotocol.Message) {
			if p, ok := m.(*xprotocol.MsgPing); ok {
				if err := b.conn.Send(xprotocol.NewMsgPong(p.Nonce)); err != nil {
					r.Fail("send-failed", "echo failed: %v", err)
				}
			} else if err := b.conn.Send(xprotocol.NewMsgVerAck()); err != nil {
				r.Fail("send-failed", "echo failed: %v", err)
			}
		}
		b.start()
		r.Probe("peer-echo")
	case 3: // peer starts a frame and stalls in the middle of it while still reading
		var f []byte
		for i := c.Choose(3, "before"); i > 0; i-- { // after complete ones
			w := genMsg(c, big)
			f = append(f, frame(nw.Magic, w.cmd, w.body)...)
		}
		head := len(f)
		size := sim.Pick(c, "stalled-size", 1, 200, 4000, 32768, 33000, 70000, 1<<20, 32<<20)
		cmd := sim.Pick(c, "stalled-cmd", "tx", "tx", "inv", "headers", "ping", "block", "version")
		sent := size - 1
		if sent > 70000 {
			sent = 70000
		}
		f = append(f, frame(nw.Magic, cmd, bytes.Repeat([]byte{7}, sent))...)
		binary.LittleEndian.PutUint32(f[head+16:], uint32(size))
		cut := head + 1 + c.Choose(24, "cut-head")
		if c.Choose(3, "cut") > 0 {
			cut = head + 24 + c.Choose(len(f)-head-24+1, "cut-body")
		}
		drip := c.OneIn(3, "drip")
		r.Go("B", "B.drain", func() {
			buf := make([]byte, 70000)
			for {
				n, err := cb.Read(buf)
				read += n
				if err != nil {
					return
				}
			}
		})
		r.Go("B", "B.partial", func() {
			cb.Write(f[:cut])
			for i := cut; drip && i < len(f)-1; i++ {
				sim.Sleep(700 * time.Millisecond)
				if _, err := cb.Write(f[i : i+1]); err != nil {
					return
				}
			}
		})
		r.Fault("peer-stalls-mid-frame")
		if size > 32768 {
			r.Probe("large-frame-stalled")
		}
	case 4: // peer talks and the callback is slow, or answers itself
		slow := time.Duration(c.Choose(14, "callback")) * time.Second
		answer := c.Choose(2, "answer") == 0
		a.onMsg = func(m xprotocol.Message) {
			if answer {
				if err := a.conn.Send(xprotocol.NewMsgVerAck()); err != nil {
					r.Fail("send-failed", "the callback's answer failed: %v", err)
				}
			}
			sim.Sleep(slow)
		}
		var f []byte
		talk := sim.Pick(c, "talk-big", big, big, 80000, 200000)
		for i := 1 + c.Choose(3, "talk"); i > 0; i-- {
			w := genMsg(c, talk)
			f = append(f, frame(nw.Magic, w.cmd, w.body)...)
		}
		r.Go("B", "B.talk", func() { cb.Write(f) })
		r.Go("B", "B.drain", func() {
			buf := make([]byte, 70000)
			for {
				n, err := cb.Read(buf)
				read += n
				if err != nil {
					return
				}
			}
		})
		r.Probe("callback-running")
	}
	a.start()
	senders := 1 + c.Choose(3, "senders")
	var logs []*sent
	left := senders
	total := 0
	for k := 0; k < senders; k++ {
		n := c.Range(1, 4, "msgs")
		var ms []*wire
		for i := 0; i < n; i++ {
			w := genMsg(c, big)
			if mode == 2 && c.Choose(2, "ping") == 0 {
				v := c.U64("nonce")
				w = &wire{cmd: "ping", msg: xprotocol.NewMsgPing(v), body: le64(v)}
			}
			total += 24 + len(w.body)
			ms = append(ms, w)
		}
		wait := time.Duration(c.Choose(5, "wait")) * time.Second
		k := k
		r.Go("A", fmt.Sprintf("A.send%d", k), func() {
			defer func() { left-- }()
			sim.Sleep(wait)
			for _, w := range ms {
				s := &sent{w: w, sender: k}
				logs = append(logs, s)
				t0 := time.Now()
				s.err = a.conn.Send(w.msg)
				s.took = time.Since(t0)
				s.done = true
				got++
				r.Logf("sent %s in %v err=%v", w.cmd, s.took.Round(time.Millisecond), s.err)
			}
		})
	}
	end := time.Now().Add(24 * time.Second)
	r.At(24*time.Second, "end", func() {})
	r.Run(func() bool { return left == 0 && a.disc > 0 || !time.Now().Before(end) })
	if r.Failed() {
		return
	}
	const bound = 15 * time.Second
	for _, s := range logs {
		if !s.done {
			r.Fail("send-blocked", "sending %s did not finish within 20s although the peer keeps reading (it just does not talk)", s.w.cmd)
			return
		}
		if s.err != nil && !(mode == 3 && a.disc > 0) {
			r.Fail("send-failed", "sending %s failed although the peer keeps reading: %v", s.w.cmd, s.err)
			return
		}
		if s.took > bound {
			r.Fail("send-blocked", "sending %s took %v although the peer keeps reading (it just does not talk)", s.w.cmd, s.took)
			return
		}
	}
	if left > 0 {
		r.Fail("send-blocked", "%d senders still blocked", left)
		return
	}
	if mode == 2 {
		if len(a.got) != len(logs) {
			lim := time.Now().Add(3 * time.Second)
			r.At(3*time.Second, "linger", func() {})
			r.Run(func() bool { return len(a.got) == len(logs) || !time.Now().Before(lim) })
		}
		if len(a.got) != len(logs) {
			r.Fail("echo-lost", "%d messages sent, %d answers received", len(logs), len(a.got))
			return
		}
	}
	r.NonTrivial = true
	r.Mark("messages", len(logs))
	r.Note("case", fmt.Sprintf("mode %d, %d senders, %d messages, %d bytes", mode, senders, len(logs), total))
}

// scenario C04 ------------------------------------------------------------

func c04(r *core.R) {
	past(r)
	c := r.C
	nw := nets[c.Choose(2, "net")]
	const bound = 60 * time.Second
	pa := simnet.Profile{Cap: 1 << 30}
	mode := c.Choose(5, "mode")
	big := 40000
	if mode == 3 || mode == 4 {
		pa.Cap = []int{4 << 10, 256, 64 << 10}[c.Choose(3, "cap")]
		big = sim.Pick(c, "send-n", 40000, 40000, 300000, 2<<20, 5<<20)
	}
	ca, cb := simnet.Pipe(r.Sim, c, "a", "b", pa, simnet.Profile{Cap: 1 << 30})
	a := newNode(r, "A", nw, ca)
	// some healthy traffic first
	pre := c.Choose(4, "pre")
	var preFrames []byte
	var ws []*wire
	for i := 0; i < pre; i++ {
		w := genMsg(c, 2000)
		ws = append(ws, w)
		preFrames = append(preFrames, frame(nw.Magic, w.cmd, w.body)...)
	}
	victim := genMsg(c, 3000)
	vf := frame(nw.Magic, victim.cmd, victim.body)
	if c.OneIn(3, "large") { // a frame beyond every buffer
		n := sim.Pick(c, "large-n", 32768-24, 32768, 32769, 65536, 40000, 200000, 1100000)
		vf = frame(nw.Magic, sim.Pick(c, "large-cmd", "tx", "block", "inv"), make([]byte, n))
		if c.OneIn(4, "larger") { // than what ever comes
			binary.LittleEndian.PutUint32(vf[16:], uint32(sim.Pick(c, "claim", 2<<20, 4<<20, 32<<20)))
		}
	}
	from := time.Now()
	switch mode {
	case 0: // peer goes silent
		r.Go("B", "B.peer", func() { cb.Write(preFrames) })
		r.Fault("silent-peer")
	case 1: // peer stalls inside a frame
		at := 1 + c.Choose(len(vf)-1, "at")
		if c.OneIn(3, "at-edge") {
			at = min(len(vf)-1, sim.Pick(c, "edge", 23, 24, 25, 4, 20, 4096, 32768, 32768+24))
		}
		r.Go("B", "B.peer", func() { cb.Write(append(preFrames, vf[:at]...)) })
		r.Fault("stall-mid-frame")
	case 2: // peer drips a frame one byte at a time, always within the idle timeout
		every := time.Duration(1+c.Choose(29, "drip")) * time.Second
		big := frame(nw.Magic, "tx", make([]byte, sim.Pick(c, "drip-n", 1500, 1500, 33000, 70000)))
		cb.CutAt(int64(len(preFrames))+int64(sim.Pick(c, "dripfrom", 0, 0, len(big)-40)+c.Choose(30, "dripat")), simnet.Drip, every)
		if c.OneIn(8, "larger") {
			binary.LittleEndian.PutUint32(big[16:], 32<<20)
		}
		r.Go("B", "B.peer", func() { cb.Write(append(preFrames, big...)) })
		r.Fault("drip")
	case 3, 4: // peer never reads
		r.Fault("peer-not-reading")
	}
	a.start()
	if mode <= 2 {
		if c.OneIn(2, "chat") {
			// The node goes on talking to the peer, which still reads: that must
			// not pass for life on the peer's side.
			every := time.Duration(1+c.Choose(20, "every")) * time.Second
			r.Fault("one-way-traffic")
			r.Go("B", "B.sink", func() {
				buf := make([]byte, 4096)
				for {
					if _, err := cb.Read(buf); err != nil {
						return
					}
				}
			})
			r.Go("A", "A.chat", func() {
				for {
					if a.conn.Send(xprotocol.NewMsgPing(7)) != nil {
						return
					}
					sim.Sleep(every)
				}
			})
		}
		lastAlive := from
		r.At(10*bound, "end", func() {})
		end := time.Now().Add(10 * bound)
		r.Run(func() bool {
			if len(a.gotAt) > 0 {
				lastAlive = a.gotAt[len(a.gotAt)-1]
			}
			return a.disc > 0 && a.loopDone || time.Since(lastAlive) > bound+2*time.Second || !time.Now().Before(end)
		})
		if r.Failed() {
			return
		}
		if a.disc == 0 || !a.loopDone {
			r.Fail("stall-undetected", "peer stopped making progress (mode %d): no disconnect within %v", mode, bound)
			return
		}
		if d := a.discAt.Sub(lastAlive); d > bound {
			r.Fail("stall-undetected", "disconnect only after %v", d)
			return
		}
		if len(a.got) < pre {
			r.Fail("lost-message", "%d of %d messages before the stall delivered", len(a.got), pre)
			return
		}
		for i, m := range a.got {
			if i >= pre {
				if mode == 2 {
					continue
				}
				r.Fail("partial-delivered", "incomplete frame delivered")
				return
			}
			if d := ws[i].check(m); d != "" {
				r.Fail("altered-message", "%s", d)
				return
			}
		}
		r.NonTrivial = true
		r.Note("case", fmt.Sprintf("mode %d pre %d detected after %v", mode, pre, a.discAt.Sub(lastAlive)))
		return
	}
	// Sending to a peer that never reads.
	nsend := 1 + c.Choose(2, "senders")
	done := 0
	var worst time.Duration
	var errs, oks int
	stuck := map[int]time.Time{}
	small := 0
	if c.Choose(2, "small-sends") == 1 {
		small = 2 + 2*pa.Cap/60
		r.Probe("small-sends-to-stalled-peer")
	}
	okBytes := int64(0)
	chat := mode == 4 // the peer does talk (so the reader is busy), it just never reads
	if chat {
		r.Go("B", "B.talk", func() {
			for i := 0; i < 40; i++ {
				v := uint64(i)
				if _, err := cb.Write(frame(nw.Magic, "ping", le64(v))); err != nil {
					return
				}
				sim.Sleep(7 * time.Second)
			}
		})
	}
	for k := 0; k < nsend; k++ {
		k := k
		r.Go("A", fmt.Sprintf("A.send%d", k), func() {
			defer func() { done++; delete(stuck, k) }()
			for i := 0; i < 400; i++ {
				n := big
				if small > 0 {
					n = c.Choose(small, "small")
				}
				t0 := time.Now()
				stuck[k] = t0
				err := a.conn.Send(xprotocol.NewMsgTx(make([]byte, n)))
				if d := time.Since(t0); d > worst {
					worst = d
				}
				if err != nil {
					errs++
					return
				}
				oks++
				okBytes += 24 + int64(n)
				if acc := ca.Offset(); acc < okBytes {
					r.Fail("send-lies", "peer never reads a byte: sends of %d bytes in all reported success, the transport has taken %d", okBytes, acc)
					return
				}
			}
		})
	}
	end := time.Now().Add(6 * bound)
	r.At(6*bound, "end", func() {})
	r.Run(func() bool {
		for _, t := range stuck {
			if time.Since(t) > 2*bound+time.Second {
				return true
			}
		}
		return done == nsend || !time.Now().Before(end)
	})
	if r.Failed() {
		return
	}
	if done < nsend || worst > bound {
		r.Fail("send-hangs", "peer does not read: a send blocked for %v (%d of %d senders returned)", worst, done, nsend)
		return
	}
	if errs == 0 {
		r.Fail("send-lies", "peer never reads a byte, yet %d sends of %d bytes all reported success into a %d byte buffer", oks, big, pa.Cap)
		return
	}
	r.NonTrivial = true
	r.Note("case", fmt.Sprintf("mode %d cap %d worst send %v", mode, pa.Cap, worst))
}

// scenario C05 ------------------------------------------------------------

// hostile draws a payload for a command: mutations of valid payloads, hostile
// counts and lengths, or noise.
func hostile(c *sim.Chooser, cmd string) []byte {
	huge := [][]byte{
		{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
		{0xff, 0, 0, 0, 0, 0, 0, 0, 0x80},
		{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
		{0xff, 0, 0, 0, 0, 1, 0, 0, 0},
		{0xfe, 0xff, 0xff, 0xff, 0xff},
		{0xfe, 0xff, 0xff, 0xff, 0x7f},
		{0xfe, 0x51, 0xc3, 0, 0},
		{0xfd, 0xff, 0xff},
		{0xfd}, {0xfe, 1}, {0xff, 1, 2, 3},
	}
	switch c.Choose(5, "hostile") {
	case 0: // noise
		return c.Bytes(c.Choose(300, "n"), "noise")
	case 1: // a hostile count or length at a plausible place
		pre := map[string]int{"getheaders": 4, "version": 80, "reject": []int{0, 2, 7}[c.Choose(3, "rj")]}[cmd]
		b := make([]byte, pre)
		if cmd == "reject" && pre == 7 {
			b = cat([]byte{5}, []byte("block"), []byte{1})
		} else if cmd == "reject" && pre == 2 {
			b = []byte{0, 1}
		}
		b = append(b, huge[c.Choose(len(huge), "huge")]...)
		return append(b, c.Bytes(c.Choose(200, "tail"), "tail")...)
	case 2: // truncated valid payload
		w := genMsg(c, 3000)
		if len(w.body) > 0 {
			return w.body[:c.Choose(len(w.body), "trunc")]
		}
		return nil
	case 3: // mutated valid payload
		b := append([]byte(nil), genMsg(c, 3000).body...)
		for i := 0; i < 1+c.Choose(4, "muts") && len(b) > 0; i++ {
			p := c.Choose(len(b), "pos")
			if c.Choose(2, "early") == 1 {
				p = c.Choose(min(len(b), 12), "pos")
			}
			b[p] = []byte{0xff, 0xfe, 0xfd, 0x80, 0x7f, 0}[c.Choose(6, "val")]
		}
		return b
	default: // valid payload plus garbage
		return append(append([]byte(nil), genMsg(c, 2000).body...), c.Bytes(c.Choose(50, "n"), "noise")...)
	}
}

func c05(r *core.R) {
	c := r.C
	nw := nets[c.Choose(2, "net")]
	pa, pb := profiles(c, 5000)
	ca, cb := simnet.Pipe(r.Sim, c, "a", "b", pa, pb)
	a := newNode(r, "A", nw, ca)
	other := c.Choose(2, "second") // an honest second connection must keep working
	var a2 *node
	var cb2 *simnet.Conn
	if other == 1 {
		var ca2 *simnet.Conn
		ca2, cb2 = simnet.Pipe(r.Sim, c, "a2", "b2", simnet.Profile{Cap: 1 << 30}, simnet.Profile{Cap: 1 << 30})
		a2 = newNode(r, "A", nw, ca2)
	}
	n := c.Range(1, 4, "frames")
	var sz int
	var wireBytes []byte
	var kinds []string
	for i := 0; i < n; i++ {
		cmd := cmds[c.Choose(len(cmds)-1, "cmd")]
		switch c.Choose(5, "attack") {
		case 0: // header that claims a giant payload
			cm := make([]byte, 12)
			copy(cm, cmd)
			claim := []uint32{0xffffffff, 0x80000000, 0x7fffffff, 0x40000000, 0x10000000 + 7,
				32 << 20, 32<<20 + 1, 65 << 20, 72 << 20, 100 << 20, 128 << 20, 200 << 20}[c.Choose(12, "claim")]
			wireBytes = cat(wireBytes, nw.Magic, cm, le32(claim), c.Bytes(4, "ck"), c.Bytes(c.Choose(100, "some"), "noise"))
			kinds = append(kinds, fmt.Sprintf("claim-%d", claim))
			r.Fault("giant-length-claim")
		case 1: // odd command bytes
			cm := string(c.Bytes(12, "cmd"))
			wireBytes = append(wireBytes, frame(nw.Magic, cm, hostile(c, ""))...)
			kinds = append(kinds, "odd-command")
			r.Fault("odd-command")
		default:
			b := hostile(c, cmd)
			wireBytes = append(wireBytes, frame(nw.Magic, cmd, b)...)
			kinds = append(kinds, fmt.Sprintf("%s/%d", cmd, len(b)))
			r.Fault("hostile-payload")
		}
		sz = len(wireBytes)
	}
	a.onMsg = func(m xprotocol.Message) {
		// what an application does with a message: look at it
		_ = m.Command()
		_ = m.Size()
		_ = m.Encode()
	}
	var ms0, ms1 runtime.MemStats
	runtime.ReadMemStats(&ms0)
	a.start()
	sent2, ok2 := 0, 0
	var w2 []*wire
	if a2 != nil {
		a2.start()
		for i := 0; i < 1+c.Choose(3, "honest"); i++ {
			w2 = append(w2, genMsg(c, 500))
		}
		r.Go("B2", "B2.honest", func() {
			for _, w := range w2 {
				if _, err := cb2.Write(frame(nw.Magic, w.cmd, w.body)); err == nil {
					sent2++
				}
				sim.Sleep(time.Second)
			}
		})
	}
	r.Go("B", "B.attack", func() {
		cb.Write(wireBytes)
		if c.Choose(2, "fin") == 1 {
			cb.Close()
		}
	})
	end := time.Now().Add(70 * time.Second)
	r.At(70*time.Second, "end", func() {})
	r.Run(func() bool {
		return a.disc > 0 && a.loopDone && (a2 == nil || len(a2.got) >= len(w2)) || !time.Now().Before(end)
	})
	runtime.ReadMemStats(&ms1)
	alloc := ms1.TotalAlloc - ms0.TotalAlloc
	r.Mark("bytes", sz)
	if r.Failed() {
		return
	}
	if alloc > 64<<20 {
		r.Fail("allocation", "%d bytes from the peer (%v) made the node allocate more than 64 MB", sz, kinds)
		return
	}
	if a2 != nil {
		for i, m := range a2.got {
			if i < len(w2) && w2[i].check(m) == "" {
				ok2++
			}
		}
		if ok2 < len(w2) {
			r.Fail("honest-peer-hurt", "an honest connection delivered %d of %d messages while another peer attacked", ok2, len(w2))
			return
		}
	}
	if a.loopDone && a.disc != 1 {
		r.Fail("disconnect-count", "%d disconnects", a.disc)
		return
	}
	r.NonTrivial = true
	r.Note("frames", kinds)
}

// scenario C06 ------------------------------------------------------------

// past is a connection of the same two machines that came to some end before.
func past(r *core.R) {
	c := r.C
	if !c.OneIn(4, "past") {
		return
	}
	nw := nets[c.Choose(2, "past-net")]
	for i := 1 + c.Choose(2, "lives"); i > 0; i-- {
		pa, pb := profiles(c, 400)
		ca, cb := simnet.Pipe(r.Sim, c, "a", "b", pa, pb)
		a, b := newNode(r, "A", nw, ca), newNode(r, "B", nw, cb)
		switch c.Choose(4, "past-fault") {
		case 0:
			ca.CutAt(int64(c.Choose(300, "at")), []simnet.Kind{simnet.FIN, simnet.RST}[c.Choose(2, "kind")], 0)
		case 1:
			ca.CorruptAt(int64(c.Choose(100, "at")), 1<<c.Choose(8, "bit"))
		}
		sent := false
		ws := []*wire{genMsg(c, 300), genMsg(c, 300), genMsg(c, 300)}
		quiet := c.OneIn(4, "quiet")
		r.Go("A", "A.past", func() {
			for _, w := range ws {
				if quiet || a.conn.Send(w.msg) != nil {
					break
				}
			}
			sim.Sleep(time.Duration(c.Choose(50, "life")) * time.Second)
			a.conn.Close()
			sim.Sleep(time.Second)
			b.conn.Close()
			sent = true
		})
		a.start()
		b.start()
		lim := time.Now().Add(100 * time.Second)
		r.At(100*time.Second, "end", func() {})
		r.Run(func() bool { return a.loopDone && b.loopDone && sent || !time.Now().Before(lim) })
	}
	r.Probe("past-connection")
}

func c06(r *core.R) {
	c := r.C
	var side [2]*node
	t0 := time.Now()
	if c.OneIn(4, "sibling") { // another connection of the two machines
		pa, pb := profiles(c, 4000)
		ca, cb := simnet.Pipe(r.Sim, c, "a", "b", pa, pb)
		nw := nets[c.Choose(2, "net")]
		side[0], side[1] = newNode(r, "A", nw, ca), newNode(r, "B", nw, cb)
		side[0].start()
		side[1].start()
	}
	for i := sim.Pick(c, "lives", 1, 1, 2, 3); i > 0 && !r.Failed(); i-- {
		c06life(r)
		if side[0] == nil || r.Failed() {
			continue
		}
		// the other connection is as it was, as long as it is used at all
		for i, n := range side {
			if time.Since(t0) < 25*time.Second && (n.disc > 0 || n.loopDone) {
				r.Fail("other-connection", "%s was told of a disconnect of a connection nobody had ended", n.name)
				return
			}
			if n.disc > 0 || side[1-i].disc > 0 {
				continue
			}
			w, k, done := genMsg(c, 300), len(side[1-i].got), false
			r.Go(n.name, n.name+".side", func() { n.conn.Send(w.msg); done = true })
			lim := time.Now().Add(5 * time.Second)
			r.At(5*time.Second, "end", func() {})
			r.Run(func() bool { return done && len(side[1-i].got) > k || !time.Now().Before(lim) })
		}
	}
	if side[0] == nil || r.Failed() {
		return
	}
	closed := false
	r.Go("A", "A.side-close", func() { side[0].conn.Close(); closed = true })
	lim := time.Now().Add(80 * time.Second)
	r.At(80*time.Second, "end", func() {})
	r.Run(func() bool { return closed && side[0].loopDone && side[1].loopDone || !time.Now().Before(lim) })
	for _, n := range side {
		if !r.Failed() && (n.disc != 1 || n.afterDisc > 0 || !n.loopDone) {
			r.Fail("disconnect-count", "%s was told of %d disconnects of the other connection, want exactly 1", n.name, n.disc)
		}
	}
	r.Probe("other-connection")
}

func c06life(r *core.R) {
	c := r.C
	nw := nets[c.Choose(2, "net")]
	pa, pb := profiles(c, 4000)
	ca, cb := simnet.Pipe(r.Sim, c, "a", "b", pa, pb)
	a, b := newNode(r, "A", nw, ca), newNode(r, "B", nw, cb)
	nodes := []*node{a, b}
	var ws [2][]*wire
	var oks [2]int
	busy := 0
	closedBy := c.Choose(3, "closer") // who closes: A, B, or a cut by the network
	when := time.Duration(c.Choose(8, "when")) * 500 * time.Millisecond
	fromCB := c.Choose(4, "close-in-callback") == 1
	ncl := 1 + c.Choose(3, "closers")
	for d := 0; d < 2; d++ {
		d := d
		n := c.Choose(6, "msgs")
		for i := 0; i < n; i++ {
			ws[d] = append(ws[d], genMsg(c, 3000))
		}
		busy++
		gap := time.Duration(c.Choose(3, "gap")) * 400 * time.Millisecond
		r.Go(nodes[d].name, nodes[d].name+".send", func() {
			defer func() { busy-- }()
			for _, w := range ws[d] {
				if err := nodes[d].conn.Send(w.msg); err != nil {
					return
				}
				oks[d]++
				if gap > 0 {
					sim.Sleep(gap)
				}
			}
		})
	}
	closeStarted := time.Time{}
	closed := 0
	graceful := true // the receiving side saw an orderly end of stream
	if fromCB && closedBy < 2 {
		nd := nodes[closedBy]
		nd.onMsg = func(m xprotocol.Message) {
			if len(nd.got) == 1 {
				if closeStarted.IsZero() {
					closeStarted = time.Now()
				}
				nd.conn.Close()
				closed++
			}
		}
	}
	for k := 0; k < ncl; k++ {
		r.Go([]string{"A", "B", "net"}[closedBy], fmt.Sprintf("closer%d", k), func() {
			sim.Sleep(when)
			if closeStarted.IsZero() {
				closeStarted = time.Now()
			}
			switch closedBy {
			case 0, 1:
				nodes[closedBy].conn.Close()
			case 2:
				kind := []simnet.Kind{simnet.FIN, simnet.RST}[c.Choose(2, "cutkind")]
				graceful = false
				ca.CutNow(kind)
				cb.CutNow(kind)
				r.Fault("cut-" + kind.String())
			}
			closed++
		})
		if closedBy == 2 {
			break
		}
	}
	a.start()
	b.start()
	if ncl > 1 {
		r.Probe("concurrent-close")
	}
	lim := time.Now().Add(80 * time.Second)
	r.At(80*time.Second, "end", func() {})
	r.Run(func() bool { return a.loopDone && b.loopDone && busy == 0 && closed > 0 || !time.Now().Before(lim) })
	if r.Failed() {
		return
	}
	// linger: no callback may come after the disconnect
	l2 := time.Now().Add(3 * time.Second)
	r.At(3*time.Second, "linger", func() {})
	r.Run(func() bool { return !time.Now().Before(l2) })
	for d, n := range nodes {
		if !n.loopDone {
			r.Fail("loop-leaked", "%s: the read loop is still running 80s after the connection ended", n.name)
			return
		}
		if n.disc != 1 {
			r.Fail("disconnect-count", "%s was told of %d disconnects, want exactly 1", n.name, n.disc)
			return
		}
		if n.afterDisc > 0 {
			r.Fail("receive-after-disconnect", "%s: %d messages handed over after the disconnect", n.name, n.afterDisc)
			return
		}
		for i, m := range n.got {
			if i >= len(ws[1-d]) {
				r.Fail("extra-message", "%s got %d messages, %d were sent", n.name, len(n.got), len(ws[1-d]))
				return
			}
			if e := ws[1-d][i].check(m); e != "" {
				r.Fail("altered-message", "%s: %s", n.name, e)
				return
			}
		}
	}
	// An orderly close by one side hands over everything that side had sent.
	if graceful && closedBy < 2 && !fromCB {
		n := nodes[1-closedBy]
		if len(n.got) < oks[closedBy] && !n.raw.Closed() && n.discAt.Before(lim) {
			if n.discAt.Sub(closeStarted) < 25*time.Second {
				r.Fail("lost-before-close", "%s: %d of %d messages sent before the orderly close were handed over", n.name, len(n.got), oks[closedBy])
				return
			}
		}
	}
	r.NonTrivial = true
	r.Note("case", fmt.Sprintf("closedBy=%d when=%v closers=%d inCallback=%v sent=%v", closedBy, when, ncl, fromCB, oks))
}

func init() {
	core.Register(&core.Scenario{Prop: "C01", Name: "p2p-delivery", Fn: c01, Quick: 25000, Cfg: sim.Config{Preempt: true},
		Rule: "one run = two connections (or a connection and an independent reference peer) over a simulated stream with drawn delay, segmentation, short reads and buffer size; 1-3 concurrent senders per direction; non-trivial when at least two messages were sent and checked"})
	core.Register(&core.Scenario{Prop: "C02", Name: "p2p-damage", Fn: c02, Quick: 75000, Cfg: sim.Config{Preempt: true},
		Rule: "one run = a stream of frames with one injected damage (payload, checksum, length, magic bit flips; FIN/RST/stall inside a frame; a frame of another network); non-trivial when the damage actually reached the receiver"})
	core.Register(&core.Scenario{Prop: "C03", Name: "p2p-duplex", Fn: c03, Quick: 60000, Cfg: sim.Config{Preempt: true},
		Rule: "one run = 1-3 senders on a connection whose read side is waiting (silent peer, echoing peer, peer stalled mid-frame); non-trivial when every send outcome was judged"})
	core.Register(&core.Scenario{Prop: "C04", Name: "p2p-stall", Fn: c04, Quick: 60000, Cfg: sim.Config{Preempt: true},
		Rule: "one run = one connection against a silent, stalled, dripping or non-reading peer; non-trivial when the fault fired and the bound was judged"})
	core.Register(&core.Scenario{Prop: "C05", Name: "p2p-hostile", Fn: c05, Quick: 150000, Cfg: sim.Config{Preempt: true},
		Rule: "one run = 1-4 hostile frames with valid checksums (hostile counts, truncated and mutated payloads, giant length claims, odd commands), optionally beside an honest connection; non-trivial when the frames were processed"})
	core.Register(&core.Scenario{Prop: "C06", Name: "p2p-lifecycle", Fn: c06, Quick: 60000, Cfg: sim.Config{Preempt: true},
		Rule: "one run = two connections exchanging messages until one side closes (possibly from several goroutines or inside a callback) or the network cuts; non-trivial when both ends finished and were judged"})
}
