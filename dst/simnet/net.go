// Package simnet is the simulated byte-stream network: in-order pipes with
// delays, segmentation, bounded buffers, deadlines and injectable faults.
package simnet

import (
	"io"
	"net"
	"os"
	"sync"
	"syscall"
	"time"

	"vsim/sim"
)

// Kind of cut.
type Kind int

const (
	None  Kind = iota
	FIN        // orderly end of stream at the cut offset
	RST        // reset at the cut offset
	Stall      // nothing more ever arrives
	Drip       // from the offset on, one byte every DripEvery
)

func (k Kind) String() string { return [...]string{"none", "fin", "rst", "stall", "drip"}[k] }

// Draw is how a connection takes decisions.
type Draw interface {
	Choose(n int, what string) int
}

// Profile is a link's behaviour.
type Profile struct {
	MaxDelay  time.Duration
	Segment   int // 0 whole, 1 mss, 2 tiny, 3 mixed
	ShortRead bool
	Cap       int // buffer capacity per direction
}

// Pick draws a profile.
func PickProfile(d Draw) Profile {
	p := Profile{Cap: 1 << 30}
	p.MaxDelay = []time.Duration{0, time.Millisecond, 40 * time.Millisecond, 900 * time.Millisecond}[d.Choose(4, "net.delay")]
	p.Segment = d.Choose(4, "net.segment")
	p.ShortRead = d.Choose(2, "net.shortread") == 1
	p.Cap = []int{1 << 30, 64 << 10, 4 << 10, 256}[d.Choose(4, "net.cap")]
	return p
}

type pipe struct {
	mu      sync.Mutex
	prof    Profile
	queue   [][]byte // in flight, in order
	lens    int
	buf     []byte
	finQ    bool // FIN queued behind in-flight data
	eof     bool
	rst     bool
	wclosed bool
	rclosed bool
	lastAt  time.Time
	off     int64 // bytes accepted from the writer
	cutAt   int64
	cut     Kind
	cutDone bool
	every   time.Duration
	corrupt map[int64]byte
	Sent    []byte // record of what was put on the wire (after corruption)
	record  bool
	small   int
	pend    []func()
}

// Stats of faults that actually happened on a connection's outgoing side.
type Stats struct {
	Corrupted, Cut, Dripped int
}

// Conn is one end of a simulated connection.
type Conn struct {
	S       *sim.Sim
	D       Draw
	Foreign bool
	Name    string
	r, w    *pipe
	mu      sync.Mutex
	closed  bool
	rdl     time.Time
	wdl     time.Time
	la, ra  net.Addr
	St      Stats
	CloseN  int
}

// Pipe makes a connection; a's outgoing profile first.
func Pipe(s *sim.Sim, d Draw, an, bn string, ab, ba Profile) (*Conn, *Conn) {
	p1 := &pipe{prof: ab, cutAt: -1}
	p2 := &pipe{prof: ba, cutAt: -1}
	aa := &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 40000}
	ba2 := &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 8333}
	a := &Conn{S: s, D: d, Name: an, r: p2, w: p1, la: aa, ra: ba2}
	b := &Conn{S: s, D: d, Name: bn, r: p1, w: p2, la: ba2, ra: aa}
	return a, b
}

// CutAt injects a cut of this end's outgoing stream at byte offset off.
func (c *Conn) CutAt(off int64, k Kind, every time.Duration) {
	c.w.cutAt, c.w.cut, c.w.every = off, k, every
}

// CorruptAt flips bits of the outgoing byte at offset off.
func (c *Conn) CorruptAt(off int64, mask byte) {
	if c.w.corrupt == nil {
		c.w.corrupt = map[int64]byte{}
	}
	c.w.corrupt[off] = mask
}

// Record keeps a copy of the outgoing bytes.
func (c *Conn) Record()      { c.w.record = true }
func (c *Conn) Sent() []byte { return c.w.Sent }

// Offset is how many outgoing bytes the writer handed over.
func (c *Conn) Offset() int64 { c.w.mu.Lock(); defer c.w.mu.Unlock(); return c.w.off }

// InFlight is true while outgoing bytes have not yet arrived.
func (c *Conn) InFlight() bool {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	return len(c.w.queue) > 0 || c.w.finQ
}

// Unread is how many incoming bytes wait.
func (c *Conn) Unread() int { c.r.mu.Lock(); defer c.r.mu.Unlock(); return len(c.r.buf) }

func opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

func (c *Conn) await(what string, dl time.Time, f func() bool) {
	if c.Foreign {
		sim.AwaitForeign(what, dl, f)
	} else {
		sim.Await(what, dl, f)
	}
}

func passed(t time.Time) bool { return !t.IsZero() && time.Until(t) <= 0 }

// Read --
func (c *Conn) Read(p []byte) (int, error) {
	for {
		if sim.Dead() {
			return 0, opErr("read", net.ErrClosed)
		}
		c.mu.Lock()
		closed, dl := c.closed, c.rdl
		c.mu.Unlock()
		r := c.r
		r.mu.Lock()
		switch {
		case closed:
			r.mu.Unlock()
			return 0, opErr("read", net.ErrClosed)
		case passed(dl):
			r.mu.Unlock()
			return 0, opErr("read", os.ErrDeadlineExceeded)
		case len(p) == 0:
			r.mu.Unlock()
			return 0, nil
		case len(r.buf) > 0:
			n := len(r.buf)
			if n > len(p) {
				n = len(p)
			}
			if r.prof.ShortRead && n > 1 {
				r.mu.Unlock()
				k := c.D.Choose(4, "short-read")
				r.mu.Lock()
				if k == 1 {
					n = 1
				} else if k == 2 {
					n = (n + 1) / 2
				}
			}
			copy(p, r.buf[:n])
			r.buf = r.buf[n:]
			r.mu.Unlock()
			return n, nil
		case r.rst:
			r.mu.Unlock()
			return 0, opErr("read", os.NewSyscallError("read", syscall.ECONNRESET))
		case r.eof:
			r.mu.Unlock()
			return 0, io.EOF
		}
		r.mu.Unlock()
		c.await(c.Name+".read", dl, func() bool {
			c.mu.Lock()
			cl, d := c.closed, c.rdl
			c.mu.Unlock()
			r.mu.Lock()
			defer r.mu.Unlock()
			return cl || passed(d) || d != dl || len(r.buf) > 0 || r.rst || r.eof
		})
	}
}

// Write --
func (c *Conn) Write(p []byte) (int, error) {
	total := 0
	for {
		if sim.Dead() {
			return total, opErr("write", net.ErrClosed)
		}
		c.mu.Lock()
		closed, dl := c.closed, c.wdl
		c.mu.Unlock()
		w := c.w
		w.mu.Lock()
		if closed {
			w.mu.Unlock()
			return total, opErr("write", net.ErrClosed)
		}
		if passed(dl) {
			w.mu.Unlock()
			return total, opErr("write", os.ErrDeadlineExceeded)
		}
		if c.r.reset() || w.rclosed && len(w.queue) == 0 {
			w.mu.Unlock()
			return total, opErr("write", syscall.EPIPE)
		}
		if total == len(p) {
			w.mu.Unlock()
			return total, nil
		}
		space := w.prof.Cap - len(w.buf) - w.lens
		if space <= 0 {
			w.mu.Unlock()
			c.await(c.Name+".write", dl, func() bool {
				c.mu.Lock()
				cl, d := c.closed, c.wdl
				c.mu.Unlock()
				w.mu.Lock()
				defer w.mu.Unlock()
				return cl || passed(d) || d != dl || w.prof.Cap-len(w.buf)-w.lens > 0 || w.rclosed && len(w.queue) == 0 || c.r.resetLocked()
			})
			continue
		}
		n := len(p) - total
		if n > space {
			n = space
		}
		seg := n
		w.mu.Unlock()
		switch w.prof.Segment {
		case 1:
			if seg > 1460 {
				seg = 1460
			}
			if w.small > 400 {
				seg = n
			}
		case 2:
			if w.small < 600 {
				seg = 1 + c.D.Choose(7, "seg.tiny")
			}
		case 3:
			if w.small < 300 {
				switch c.D.Choose(4, "seg.mode") {
				case 1:
					seg = 1 + c.D.Choose(30, "seg.len")
				case 2:
					seg = 1 + c.D.Choose(1460, "seg.len")
				case 3:
					seg = (n + 1) / 2
				}
			}
		}
		if seg > n {
			seg = n
		}
		var delay time.Duration
		if w.prof.MaxDelay > 0 {
			delay = time.Duration(c.D.Choose(16, "seg.delay")) * w.prof.MaxDelay / 15
		}
		w.mu.Lock()
		w.small++
		c.put(p[total:total+seg], delay)
		w.mu.Unlock()
		total += seg
	}
}

func (r *pipe) reset() bool       { r.mu.Lock(); defer r.mu.Unlock(); return r.rst }
func (r *pipe) resetLocked() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.rst }

// put sends bytes down the pipe, applying the injected faults. w.mu is held.
func (c *Conn) put(b []byte, delay time.Duration) {
	w := c.w
	data := append([]byte(nil), b...)
	for i := range data {
		if m, ok := w.corrupt[w.off+int64(i)]; ok && (w.cutAt < 0 || w.cut == Drip || w.off+int64(i) < w.cutAt) {
			data[i] ^= m
			c.St.Corrupted++
		}
	}
	start := w.off
	w.off += int64(len(data))
	if w.cut != None && w.cut != Drip && w.cutAt >= 0 {
		if start >= w.cutAt {
			c.doCut(delay)
			return
		}
		if w.off > w.cutAt {
			data = data[:w.cutAt-start]
			c.send(data, delay)
			c.doCut(delay)
			return
		}
	}
	if w.cut == Drip && w.cutAt >= 0 && w.off > w.cutAt {
		if n := w.cutAt - start; n > 0 {
			c.send(data[:n], 0)
			data = data[n:]
		}
		for len(data) > 0 && c.St.Dripped < 5000 {
			c.St.Dripped++
			c.send(data[:1], w.every)
			data = data[1:]
		}
		if len(data) > 0 {
			c.send(data, 0)
		}
		return
	}
	c.send(data, delay)
	if w.cut != None && w.cut != Drip && w.cutAt >= 0 && w.off >= w.cutAt {
		c.doCut(delay)
	}
}

func (c *Conn) doCut(delay time.Duration) {
	w := c.w
	if w.cutDone {
		return
	}
	w.cutDone = true
	c.St.Cut++
	switch w.cut {
	case FIN:
		w.finQ = true
		c.arrive(delay, func() { w.eof = true; w.finQ = false })
	case RST:
		c.arrive(delay, func() { w.rst = true })
	}
}

// CutNow cuts the outgoing stream now.
func (c *Conn) CutNow(k Kind) {
	w := c.w
	w.mu.Lock()
	w.cut, w.cutAt = k, w.off
	c.doCut(0)
	w.mu.Unlock()
}

func (c *Conn) send(data []byte, delay time.Duration) {
	if len(data) == 0 {
		return
	}
	w := c.w
	if w.record {
		w.Sent = append(w.Sent, data...)
	}
	w.queue = append(w.queue, data)
	w.lens += len(data)
	c.arrive(delay, func() {
		d := w.queue[0]
		w.queue = w.queue[1:]
		w.lens -= len(d)
		if !w.rclosed {
			w.buf = append(w.buf, d...)
		}
	})
}

// arrive schedules f in stream order.
func (c *Conn) arrive(delay time.Duration, f func()) {
	w := c.w
	now := time.Now()
	at := now.Add(delay)
	if w.cut == Drip && delay == w.every && delay > 0 && w.lastAt.After(now) {
		at = w.lastAt.Add(delay)
	}
	if at.Before(w.lastAt) {
		at = w.lastAt
	}
	w.lastAt = at
	w.pend = append(w.pend, f)
	c.S.At(at.Sub(now), "net", func() {
		w.mu.Lock()
		if len(w.pend) > 0 {
			g := w.pend[0]
			w.pend = w.pend[1:]
			g()
		}
		w.mu.Unlock()
	})
}

// Close --
func (c *Conn) Close() error {
	c.mu.Lock()
	c.CloseN++
	if c.closed {
		c.mu.Unlock()
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.mu.Unlock()
	c.r.mu.Lock()
	c.r.rclosed = true
	c.r.mu.Unlock()
	if sim.Dead() {
		return nil
	}
	sim.Poke()
	w := c.w
	w.mu.Lock()
	w.wclosed = true
	if w.cut == None || w.cut == Drip || !w.cutDone {
		w.finQ = true
		c.arrive(0, func() { w.eof = true; w.finQ = false })
	}
	w.mu.Unlock()
	return nil
}

// Closed reports whether this end was closed locally.
func (c *Conn) Closed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.closed }

func (c *Conn) LocalAddr() net.Addr  { return c.la }
func (c *Conn) RemoteAddr() net.Addr { return c.ra }

func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.rdl = t
	sim.Poke()
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.wdl = t
	sim.Poke()
	return nil
}
