package hrpc

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"reflect"
	"strconv"
	"strings"
	"time"
	_ "unsafe"

	"github.com/keyfuse/tokucore/xrpc"

	"vsim/core"
	"vsim/sim"
	"vsim/simnet"
)

//go:linkname simDialHook net.simDialHook
var simDialHook func(ctx context.Context, network, address string) (net.Conn, error)

// prng is a connection's own stream of decisions: net/http's goroutines are not
// token-scheduled, so they must not draw from the run's chooser.
type prng struct{ s uint64 }

func (p *prng) Choose(n int, _ string) int {
	if n <= 1 {
		return 0
	}
	p.s = sim.Mix(p.s, 0x9e3779b97f4a7c15)
	return int(p.s % uint64(n))
}

type request struct {
	Method string            `json:"method"`
	Params []json.RawMessage `json:"params"`
	ID     json.RawMessage   `json:"id"`
}

// fault kinds of one response.
const (
	fNone = iota
	fError500
	fError200
	fNullResult
	fNoResult
	fTopNull
	fWrongType
	fEmpty
	fHTML503
	fAuth401
	fGarbage
	fTruncate
	fReset
	fHang
	fNoReply
	fLate
	fNotFoundJSON
	fErrorAndNull
	fErrorAndResult
	fErrorString
	fPartType
	fBrokenJSON
	nFault
)

var faultNames = [...]string{"none", "error-object-500", "error-object-200", "null-result", "missing-result", "null-response", "wrong-type", "empty-body",
	"html-503", "401", "garbage", "truncated-body", "reset-mid-body", "close-before-reply", "no-reply", "late-reply", "json-404", "error-with-null",
	"error-with-result", "error-string", "one-field-mistyped", "json-cut-short"}

// plan is what the server does with the next request of one caller.
type plan struct {
	kind  int
	delay time.Duration // before the reply
	enc   int           // content-length, chunked, close-delimited
	close bool
	cutAt int // percent of the reply at which a truncation/reset happens
	slice time.Duration
	part  int // stalls: where (0 before headers, 1 in headers, 2 in body), drip or dead
	drip  bool
	form  int // of the JSON: 0 compact, 1 newline, 2 indented, 3 extra fields
	gzip  bool
	code  int
	whole bool // a cut answer may have arrived as a whole
}

type world struct {
	r        *core.R
	prof     simnet.Profile
	conns    []*simnet.Conn // client ends
	srvConns []*simnet.Conn
	plans    map[string]*plan // by method+params of the request
	served   map[string]int
	seed     uint64
	badAuth  int
	badReq   string
	blackout bool // connects hang
	hangDial map[int]bool
	dials    int
	user     string
	pass     string
	inFly    int
}

func newWorld(r *core.R) *world {
	c := r.C
	w := &world{r: r, plans: map[string]*plan{}, served: map[string]int{}, hangDial: map[int]bool{}}
	w.prof = simnet.Profile{Cap: 1 << 30}
	w.prof.MaxDelay = []time.Duration{0, time.Millisecond, 7 * time.Millisecond, 61 * time.Millisecond}[c.Choose(4, "net.delay")]
	w.prof.Segment = c.Choose(4, "net.segment")
	w.prof.ShortRead = c.Choose(2, "net.shortread") == 1
	w.seed = c.U64("answers")
	w.user = sim.Pick(c, "user", "user", "", "rpc:user"[:3], "u s")
	w.pass = sim.Pick(c, "pass", "secret", "", "p:w", "päss")
	// one fresh transport per run: the code under test uses the default one
	http.DefaultTransport = &http.Transport{
		Proxy: nil, MaxIdleConns: 100, IdleConnTimeout: 90 * time.Second,
		DialContext: (&net.Dialer{Timeout: 30 * time.Second, KeepAlive: 30 * time.Second}).DialContext,
	}
	cs := c.U64("conn.seed")
	simDialHook = func(ctx context.Context, network, address string) (net.Conn, error) {
		if sim.Dead() {
			return nil, errors.New("simulation over")
		}
		dl, _ := ctx.Deadline()
		stop := context.AfterFunc(ctx, sim.Poke)
		defer stop()
		var conn *simnet.Conn
		hang := false
		r.At(w.prof.MaxDelay/3, "dial", func() {
			w.dials++
			if w.blackout || w.hangDial[w.dials] {
				hang = true
				r.Fault("connect-blackhole")
				return
			}
			p := w.prof
			d := &prng{sim.Mix(cs, uint64(w.dials))}
			a, b := simnet.Pipe(r.Sim, d, fmt.Sprintf("c%d", w.dials), fmt.Sprintf("s%d", w.dials), p, p)
			a.Foreign = true
			w.conns = append(w.conns, a)
			w.srvConns = append(w.srvConns, b)
			n := w.dials
			r.Go("srv", fmt.Sprintf("srv%d", n), func() { w.serve(b, n) })
			conn = a
		})
		_ = hang
		sim.AwaitForeign("dial", dl, func() bool { return conn != nil || ctx.Err() != nil })
		if conn == nil {
			if err := ctx.Err(); err != nil {
				return nil, err
			}
			return nil, errors.New("dial: i/o timeout")
		}
		return conn, nil
	}
	return w
}

// done ends the client side so that net/http's goroutines leave the bubble.
func (w *world) done() {
	for _, c := range w.conns {
		c.Close()
	}
	for _, c := range w.srvConns {
		c.Close()
	}
	if t, ok := http.DefaultTransport.(*http.Transport); ok {
		t.CloseIdleConnections()
	}
	simDialHook = nil
}

func key(method string, params ...any) string {
	b, _ := json.Marshal(params)
	return method + string(b)
}

func (w *world) serve(c *simnet.Conn, n int) {
	defer c.Close()
	br := bufio.NewReader(c)
	for {
		q, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		body, err := io.ReadAll(q.Body)
		if err != nil {
			return
		}
		u, p, ok := q.BasicAuth()
		if !ok || u != w.user || p != w.pass {
			w.badAuth++
			_ = base64.StdEncoding
		}
		var rq request
		if err := json.Unmarshal(body, &rq); err != nil || q.Method != "POST" {
			w.badReq = fmt.Sprintf("%s %q", q.Method, body)
			reply(c, 400, "text/plain", []byte("bad request"), &plan{close: true})
			return
		}
		k := rq.Method
		pb, _ := json.Marshal(rq.Params)
		if rq.Params == nil {
			pb = []byte("[]")
		}
		k += string(pb)
		w.served[k]++
		pl := w.plans[k]
		if pl == nil {
			w.badReq = "unexpected request " + k
			reply(c, 500, "application/json", []byte(`{"result":null,"error":{"code":-32601,"message":"Method not found"},"id":0}`), &plan{})
			continue
		}
		if pl.kind != fNone {
			w.r.Fault("rpc-" + faultNames[pl.kind])
		}
		w.r.Logf("srv%d %s -> %s", n, k, faultNames[pl.kind])
		if pl.delay > 0 && pl.kind != fLate {
			sim.Sleep(pl.delay)
		}
		var id any = 0
		if rq.ID != nil {
			id = rq.ID
		}
		ans := w.answer(rq.Method, rq.Params, w.served[k])
		js := func(m map[string]any) []byte {
			if pl.form == 3 {
				m["jsonrpc"], m["warnings"] = "1.0", []any{map[string]any{"result": 5}}
			}
			b, _ := json.Marshal(m)
			switch pl.form {
			case 1:
				b = append(b, '\n')
			case 2:
				b, _ = json.MarshalIndent(m, " ", "\t")
			}
			return b
		}
		good := js(map[string]any{"result": ans, "error": nil, "id": id})
		ct := "application/json"
		e := map[string]any{"code": pl.code, "message": "Block height out of range"}
		if pl.code == 2 {
			e = map[string]any{}
		} else if pl.code == -5 {
			e["message"], e["data"] = "", "not found"
		}
		switch pl.kind {
		case fNone:
			if pl.gzip && strings.Contains(q.Header.Get("Accept-Encoding"), "gzip") {
				var zb bytes.Buffer
				z := gzip.NewWriter(&zb)
				z.Write(good)
				z.Close()
				good, ct = zb.Bytes(), ct+"\r\nContent-Encoding: gzip"
			}
			if !reply(c, 200, ct, good, pl) {
				return
			}
		case fErrorAndResult:
			if !reply(c, []int{200, 500}[pl.cutAt%2], ct, js(map[string]any{"result": ans, "error": e, "id": id}), pl) {
				return
			}
		case fErrorString:
			if !reply(c, []int{200, 500}[pl.cutAt%2], ct, js(map[string]any{"result": nil, "error": "internal error", "id": id}), pl) {
				return
			}
		case fPartType:
			// everything is there, but one field is not what it should be
			var bad any = map[string]any{"was": ans}
			if m, ok := ans.(map[string]any); ok {
				f := []string{"confirmations", "height", "hash", "nextblockhash", "time", "chainwork"}[pl.cutAt%6]
				if f == "hash" || f == "nextblockhash" || f == "chainwork" {
					m[f] = 7
				} else {
					m[f] = "7"
				}
				bad = m
			}
			if !reply(c, 200, ct, js(map[string]any{"result": bad, "error": nil, "id": id}), pl) {
				return
			}
		case fBrokenJSON:
			g := bytes.TrimRight(good, " \n")
			if !reply(c, 200, ct, g[:1+(len(g)-2)*pl.cutAt/99], pl) {
				return
			}
		case fError500:
			if !reply(c, 500, ct, js(map[string]any{"result": nil, "error": e, "id": id}), pl) {
				return
			}
		case fError200:
			if !reply(c, 200, ct, js(map[string]any{"result": nil, "error": e, "id": id}), pl) {
				return
			}
		case fErrorAndNull:
			if !reply(c, 200, ct, js(map[string]any{"error": e}), pl) {
				return
			}
		case fNullResult:
			if !reply(c, 200, ct, js(map[string]any{"result": nil, "error": nil, "id": id}), pl) {
				return
			}
		case fNoResult:
			if !reply(c, 200, ct, js(map[string]any{"id": id}), pl) {
				return
			}
		case fTopNull:
			if !reply(c, 200, ct, []byte("null"), pl) {
				return
			}
		case fWrongType:
			if !reply(c, 200, ct, js(map[string]any{"result": []any{true}, "error": nil, "id": id}), pl) {
				return
			}
		case fNotFoundJSON:
			if !reply(c, 404, ct, []byte(`{"message":"no Route matched"}`), pl) {
				return
			}
		case fEmpty:
			if !reply(c, 200, ct, nil, pl) {
				return
			}
		case fHTML503:
			if !reply(c, 503, "text/html", []byte("<html><body>Work queue depth exceeded</body></html>"), pl) {
				return
			}
		case fAuth401:
			if !reply(c, 401, "text/plain", nil, pl) {
				return
			}
		case fGarbage:
			c.Write([]byte("\x00\x01\x02 not http at all\r\n\r\n"))
			return
		case fTruncate, fReset:
			full := render(200, ct, good, pl)
			cut := len(full) * pl.cutAt / 100
			if pl.cutAt > 90 {
				cut = len(full) - (100 - pl.cutAt) // the last bytes
			}
			if cut >= len(full) {
				cut = len(full) - 1
			}
			if cut >= len(full)-tail(good, pl) {
				pl.whole = true
			}
			c.Write(full[:cut])
			if pl.kind == fReset {
				c.CutNow(simnet.RST)
			}
			return
		case fHang:
			return
		case fLate:
			sim.Sleep(6*time.Second + pl.delay)
			if !reply(c, 200, ct, good, pl) {
				return
			}
		case fNoReply:
			full := render(200, ct, good, pl)
			hl := strings.Index(string(full), "\r\n\r\n")
			cut := 0
			switch pl.part {
			case 1:
				cut = hl * pl.cutAt / 100
			case 2:
				cut = hl + 4 + (len(full)-hl-4)*pl.cutAt/100
			}
			if cut >= len(full) {
				cut = len(full) - 1
			}
			if cut+100 >= len(full)-tail(good, pl) {
				pl.whole = true
			}
			c.Write(full[:cut])
			if pl.drip {
				for i := cut; i < len(full)-1 && i < cut+90; i++ {
					sim.Sleep(900*time.Millisecond + pl.slice)
					if _, err := c.Write(full[i : i+1]); err != nil {
						return
					}
				}
			}
			sim.Sleep(10 * time.Minute)
			return
		}
		if pl.close || pl.enc == 2 {
			return
		}
	}
}

func render(code int, ct string, body []byte, pl *plan) []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\nContent-Type: %s\r\n", code, http.StatusText(code), ct)
	if pl.close || pl.enc == 2 {
		b.WriteString("Connection: close\r\n")
	}
	switch pl.enc {
	case 0:
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(body))
		b.Write(body)
	case 1:
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		for len(body) > 0 {
			n := len(body)/2 + 1
			fmt.Fprintf(&b, "%x\r\n", n)
			b.Write(body[:n])
			b.WriteString("\r\n")
			body = body[n:]
		}
		b.WriteString("0\r\n\r\n")
	case 2:
		b.WriteString("\r\n")
		b.Write(body)
	}
	return []byte(b.String())
}

// tail is how many bytes of a rendered answer follow the last byte of JSON.
func tail(good []byte, pl *plan) int {
	n := len(good) - len(bytes.TrimRight(good, " \n"))
	if pl.enc == 1 {
		n += len("\r\n0\r\n\r\n")
		if n > len("\r\n0\r\n\r\n") {
			n += 16 // the white space may sit in a chunk of its own
		}
	}
	return n
}

func reply(c *simnet.Conn, code int, ct string, body []byte, pl *plan) bool {
	full := render(code, ct, body, pl)
	if pl.slice > 0 {
		h := len(full) / 2
		if _, err := c.Write(full[:h]); err != nil {
			return false
		}
		sim.Sleep(pl.slice)
		full = full[h:]
	}
	_, err := c.Write(full)
	return err == nil
}

// ---------------------------------------------------------------- answers

func (w *world) h(parts ...string) uint64 {
	v := w.seed
	for _, p := range parts {
		for i := 0; i < len(p); i++ {
			v = sim.Mix(v, uint64(p[i]))
		}
		v = sim.Mix(v, 0x77)
	}
	return v
}

func (w *world) hex64(parts ...string) string {
	s := ""
	for i := 0; i < 4; i++ {
		s += fmt.Sprintf("%016x", w.h(append(parts, strconv.Itoa(i))...))
	}
	return s
}

// answer is what an honest server returns for a request.
// v counts how often it was asked: the chain moves on between two requests.
func (w *world) answer(method string, params []json.RawMessage, v int) any {
	arg := ""
	if len(params) > 0 {
		arg = string(params[0])
	}
	switch method {
	case "getblockcount":
		return int(w.h("count")%900000) + v - 1
	case "getblockhash":
		return w.hash(arg, v)
	case "getblockheader":
		return w.header(arg, v)
	case "getblock":
		return w.block(arg, v)
	}
	return nil
}

func (w *world) hash(arg string, v int) string { return w.hex64("hash", arg, strconv.Itoa(v/2)) }

func (w *world) header(arg string, v int) map[string]any {
	n := func(k string, m uint64) uint64 { return w.h("hdr", arg, k) % m }
	m := map[string]any{
		"hash": strings.Trim(arg, `"`), "confirmations": int64(n("conf", 1e6)) - 1, "height": n("height", 1e6),
		"version": int64(int32(n("ver", 1<<32))), "versionHex": fmt.Sprintf("%08x", n("ver", 1<<32)), "merkleroot": w.hex64("hdr", arg, "mr"),
		"time": n("time", 1<<32), "mediantime": n("mtime", 1<<32), "nonce": n("nonce", 1<<32), "bits": fmt.Sprintf("%08x", n("bits", 1<<32)),
		"difficulty": float64(n("diff", 1e12)) / 8, "chainwork": w.hex64("hdr", arg, "cw"), "nTx": n("ntx", 3000),
	}
	if n("first", 8) != 0 {
		m["previousblockhash"] = w.hex64("hdr", arg, "prev")
	}
	if n("last", 8) != 0 {
		m["nextblockhash"] = w.hex64("hdr", arg, "next")
	}
	if v > 1 {
		m["confirmations"] = m["confirmations"].(int64) + int64(v)
		m["nextblockhash"] = w.hex64("hdr", arg, "next", strconv.Itoa(v/2))
		if v%4 == 3 {
			delete(m, "nextblockhash")
		}
	}
	return m
}

func (w *world) block(arg string, v int) map[string]any {
	n := func(k string, m uint64) uint64 { return w.h("blk", arg, k) % m }
	m := map[string]any{
		"hash": strings.Trim(arg, `"`), "confirmations": n("conf", 1e6), "strippedsize": n("ss", 1e6), "size": n("sz", 4e6), "weight": n("wt", 4e6),
		"height": n("height", 1e6), "version": int64(int32(n("ver", 1<<32))), "versionHex": fmt.Sprintf("%08x", n("ver", 1<<32)),
		"merkleroot": w.hex64("blk", arg, "mr"), "nTx": n("ntx", 3000), "time": n("time", 1<<32), "nonce": n("nonce", 1<<32),
		"bits": fmt.Sprintf("%08x", n("bits", 1<<32)), "difficulty": float64(n("diff", 1e12)) / 8, "chainwork": w.hex64("blk", arg, "cw"),
		"previousblockhash": w.hex64("blk", arg, "prev"),
	}
	if n("last", 8) != 0 {
		m["nextblockhash"] = w.hex64("blk", arg, "next")
	}
	m["confirmations"] = m["confirmations"].(uint64) + uint64(v)
	var txs []any
	ntx := int(n("txs", 5))
	if n("large", 8) == 0 {
		ntx = 100 + int(n("largetxs", 400))
	}
	for i := 0; i < ntx; i++ {
		is := strconv.Itoa(i)
		t := func(k string, m uint64) uint64 { return w.h("tx", arg, is, k) % m }
		var vin, vout []any
		for j := 0; j < 1+int(t("vin", 3)); j++ {
			js := strconv.Itoa(j)
			if i == 0 {
				vin = append(vin, map[string]any{"coinbase": w.hex64("tx", arg, is, js, "cb"), "sequence": t("seq"+js, 1<<32)})
				break
			}
			vin = append(vin, map[string]any{"txid": w.hex64("tx", arg, is, js, "in"), "vout": t("vo"+js, 50), "sequence": t("seq"+js, 1<<32),
				"scriptSig": map[string]any{"asm": "asm" + js, "hex": w.hex64("tx", arg, is, js, "sig")}})
		}
		for j := 0; j < int(t("vout", 3)); j++ {
			js := strconv.Itoa(j)
			vout = append(vout, map[string]any{"value": float64(t("val"+js, 21e14)) / 1e8, "n": j,
				"scriptPubKey": map[string]any{"asm": "o" + js, "hex": w.hex64("tx", arg, is, js, "spk"), "reqSigs": 1 + t("rs"+js, 3), "type": "pubkeyhash", "addresses": []string{"a" + js, "b" + is}}})
		}
		txs = append(txs, map[string]any{"hex": w.hex64("tx", arg, is, "hex"), "txid": w.hex64("tx", arg, is, "id"), "version": 1 + t("v", 2), "size": t("sz", 1e5),
			"vsize": t("vs", 1e5), "weight": t("w", 4e5), "locktime": t("lt", 1<<32), "vin": vin, "vout": vout})
	}
	m["tx"] = txs
	return m
}

// eq compares a decoded value with the JSON value the server sent.
func eq(field string, got any, m map[string]any) string {
	want, ok := m[field]
	if !ok {
		want = ""
		switch got.(type) {
		case string:
		default:
			want = 0
		}
	}
	if fmt.Sprint(got) == fmt.Sprint(want) {
		return ""
	}
	if g, ok := got.(float64); ok {
		if f, ok := want.(float64); ok && f == g {
			return ""
		}
	}
	return fmt.Sprintf("%s is %v, the server answered %v", field, got, want)
}

func first(ss ...string) string {
	for _, s := range ss {
		if s != "" {
			return s
		}
	}
	return ""
}

func checkHeader(h *xrpc.BlockHeaderResult, m map[string]any) string {
	return first(eq("hash", h.Hash, m), eq("confirmations", h.Confirmations, m), eq("height", h.Height, m), eq("version", h.Version, m),
		eq("versionHex", h.VersionHex, m), eq("merkleroot", h.MerkleRoot, m), eq("time", h.Time, m), eq("mediantime", h.MedianTime, m),
		eq("nonce", h.Nonce, m), eq("bits", h.Bits, m), eq("difficulty", h.Difficulty, m), eq("chainwork", h.ChainWork, m),
		eq("previousblockhash", h.PreviousBlockHash, m), eq("nextblockhash", h.NextBlockHash, m))
}

func checkBlock(h *xrpc.BlockResult, m map[string]any) string {
	s := first(eq("hash", h.Hash, m), eq("confirmations", h.Confirmations, m), eq("strippedsize", h.StrippedSize, m), eq("size", h.Size, m),
		eq("weight", h.Weight, m), eq("height", h.Height, m), eq("version", h.Version, m), eq("versionHex", h.VersionHex, m), eq("merkleroot", h.MerkleRoot, m),
		eq("nTx", h.NTx, m), eq("time", h.Time, m), eq("nonce", h.Nonce, m), eq("bits", h.Bits, m), eq("difficulty", h.Difficulty, m), eq("chainwork", h.ChainWork, m),
		eq("previousblockhash", h.PreviousHash, m), eq("nextblockhash", h.NextHash, m))
	if s != "" {
		return s
	}
	txs, _ := m["tx"].([]any)
	if len(h.Tx) != len(txs) {
		return fmt.Sprintf("%d transactions, the server answered %d", len(h.Tx), len(txs))
	}
	for i, t := range h.Tx {
		tm := txs[i].(map[string]any)
		if s := first(eq("hex", t.Hex, tm), eq("txid", t.Txid, tm), eq("version", t.Version, tm), eq("size", t.Size, tm), eq("vsize", t.Vsize, tm), eq("weight", t.Weight, tm), eq("locktime", t.LockTime, tm)); s != "" {
			return "tx " + s
		}
		vin, _ := tm["vin"].([]any)
		vout, _ := tm["vout"].([]any)
		if len(vin) != len(t.Vin) || len(vout) != len(t.Vout) {
			return "tx inputs or outputs missing"
		}
		for j, v := range t.Vin {
			vm := vin[j].(map[string]any)
			sm, _ := vm["scriptSig"].(map[string]any)
			if s := first(eq("coinbase", v.Coinbase, vm), eq("txid", v.Txid, vm), eq("vout", v.Vout, vm), eq("sequence", v.Sequence, vm), eq("asm", v.ScriptSig.Asm, sm), eq("hex", v.ScriptSig.Hex, sm)); s != "" {
				return "vin " + s
			}
		}
		for j, v := range t.Vout {
			vm := vout[j].(map[string]any)
			sm, _ := vm["scriptPubKey"].(map[string]any)
			if s := first(eq("value", v.Value, vm), eq("n", v.N, vm), eq("asm", v.ScriptPubKey.Asm, sm), eq("hex", v.ScriptPubKey.Hex, sm), eq("reqSigs", v.ScriptPubKey.ReqSigs, sm), eq("type", v.ScriptPubKey.Type, sm), eq("addresses", v.ScriptPubKey.Addresses, sm)); s != "" {
				return "vout " + s
			}
		}
	}
	return ""
}

// ---------------------------------------------------------------- callers

type call struct {
	method string
	arg    any
	k      string
	pl     *plan
	began  time.Time
	took   time.Duration
	done   bool
	err    error
	diff   string
	rest   string // what came along with an error
}

func (w *world) drawCall(uniq int) *call {
	c := w.r.C
	cl := &call{method: []string{"getblockhash", "getblockheader", "getblock", "getblockcount"}[c.Choose(4, "method")]}
	switch cl.method {
	case "getblockhash":
		h := uniq*7 + c.Choose(3, "height")
		if c.OneIn(3, "odd-height") {
			h = sim.Pick(c, "height", 0, -1, 1000000, 1<<31-1, 1<<31, 1<<32+uniq, 1<<53+1, math.MaxInt64, math.MinInt64, -uniq)
		}
		cl.arg = h
		cl.k = key(cl.method, h)
	case "getblockheader", "getblock":
		h := w.hex64("h", strconv.Itoa(uniq))
		switch c.Choose(6, "hash") {
		case 1: // hashes that share their beginning
			h = w.hex64("h")[:60] + h[60:]
		case 2: // or their end
			h = h[:4] + w.hex64("h")[4:]
		case 3: // the genesis-like ones, full of zeros
			h = strings.Repeat("0", 56) + h[56:]
		}
		cl.arg = h
		cl.k = key(cl.method, h)
		if cl.method == "getblock" {
			cl.k = key(cl.method, h, 3)
		}
	default:
		cl.k = key(cl.method)
		cl.k = "getblockcount[]"
	}
	return cl
}

func (w *world) drawPlan(kind int) *plan {
	c := w.r.C
	p := &plan{kind: kind}
	p.delay = time.Duration(c.Choose(5, "srv.delay")) * 310 * time.Millisecond
	p.enc = c.Choose(3, "srv.enc")
	p.close = c.Choose(4, "srv.close") == 1
	p.cutAt = c.Choose(100, "srv.cut")
	p.slice = time.Duration(c.Choose(3, "srv.slice")) * 170 * time.Millisecond
	p.part = c.Choose(3, "srv.part")
	p.drip = c.Choose(2, "srv.drip") == 1
	p.form = c.Choose(4, "srv.form")
	p.gzip = c.OneIn(5, "srv.gzip")
	p.code = sim.Pick(c, "srv.code", -8, -5, 0, 1, 2, -32601, math.MaxInt32)
	return p
}

func (w *world) run(cli *xrpc.Client, cl *call) {
	cl.began = time.Now()
	before := w.served[cl.k]
	// among what the server answered to this very request since the call began
	among := func(f func(v int) string) {
		cl.diff = "the server was not asked"
		for v := before + 1; v <= w.served[cl.k]; v++ {
			if cl.diff = f(v); cl.diff == "" {
				return
			}
		}
	}
	switch cl.method {
	case "getblockcount":
		n, err := cli.GetBlockCount()
		cl.err = err
		if err == nil {
			among(func(v int) string {
				if want := w.answer(cl.method, nil, v).(int); n != want {
					return fmt.Sprintf("count is %d, the server answered %d", n, want)
				}
				return ""
			})
		} else if n != 0 {
			cl.rest = fmt.Sprint(n)
		}
	case "getblockhash":
		s, err := cli.GetBlockHash(cl.arg.(int))
		cl.err = err
		if err == nil {
			among(func(v int) string {
				if want := w.hash(strconv.Itoa(cl.arg.(int)), v); s != want {
					return fmt.Sprintf("hash is %q, the server answered %q", s, want)
				}
				return ""
			})
		} else {
			cl.rest = s
		}
	case "getblockheader":
		h, err := cli.GetBlockHeader(cl.arg.(string))
		cl.err = err
		if err == nil {
			among(func(v int) string { return checkHeader(h, w.header(`"`+cl.arg.(string)+`"`, v)) })
		} else if h != nil && !reflect.ValueOf(*h).IsZero() {
			cl.rest = fmt.Sprintf("%.100v", *h)
		}
	case "getblock":
		b, err := cli.GetBlock(cl.arg.(string))
		cl.err = err
		if err == nil {
			among(func(v int) string { return checkBlock(b, w.block(`"`+cl.arg.(string)+`"`, v)) })
		} else if b != nil && !reflect.ValueOf(*b).IsZero() {
			cl.rest = fmt.Sprintf("%.100v", *b)
		}
	}
	cl.took = time.Since(cl.began)
	cl.done = true
	w.r.Logf("call %s err=%v diff=%s", cl.k, cl.err != nil, cl.diff)
}

func (w *world) judge(cl *call) {
	if w.r.Failed() {
		return
	}
	if !cl.done {
		w.r.Fail("call-stuck", "%s has not returned (server: %s)", cl.method, faultNames[cl.pl.kind])
		return
	}
	if cl.took > 10*time.Second {
		w.r.Fail("call-late", "%s took %v (server: %s part %d drip %v)", cl.method, cl.took, faultNames[cl.pl.kind], cl.pl.part, cl.pl.drip)
		return
	}
	if cl.err == nil && cl.diff != "" {
		w.r.Fail("foreign-answer", "%s (server: %s): %s", cl.method, faultNames[cl.pl.kind], cl.diff)
		return
	}
	if cl.rest != "" {
		w.r.Fail("data-with-error", "%s (server: %s) returned an error together with data: %s", cl.method, faultNames[cl.pl.kind], cl.rest)
		return
	}
	switch cl.pl.kind {
	case fNone:
		if cl.err != nil {
			w.r.Fail("healthy-call-failed", "%s failed although the server answered in time: %v", cl.method, cl.err)
		}
	case fTruncate, fReset, fNoReply:
		// the whole answer may have arrived before the damage
		if cl.err == nil && !cl.pl.whole {
			w.r.Fail("invented-answer", "%s succeeded although the answer was cut short (%s at %d%%)", cl.method, faultNames[cl.pl.kind], cl.pl.cutAt)
		}
	default:
		if cl.err == nil {
			w.r.Fail("invented-answer", "%s succeeded although the server gave no answer (%s)", cl.method, faultNames[cl.pl.kind])
		}
	}
}

// c07: calls of several callers sharing clients; every response fault.
func c07(r *core.R) {
	c := r.C
	w := newWorld(r)
	defer w.done()
	cli := []*xrpc.Client{xrpc.NewClient("node.invalid:8332", w.user, w.pass)}
	if c.Choose(3, "two-clients") == 1 {
		cli = append(cli, xrpc.NewClient("node.invalid:8332", w.user, w.pass))
	}
	callers := 1 + c.Choose(4, "callers")
	lockstep := c.OneIn(3, "lockstep") // all callers ask and are answered at the same moments
	if lockstep {
		callers = max(2, callers)
		cli = cli[:1]
		w.prof.MaxDelay, w.prof.Segment = 0, 0
		r.Probe("lockstep")
	}
	var calls []*call
	busy := 0
	faulty := false
	for k := 0; k < callers; k++ {
		n := c.Range(1, 4, "calls")
		var mine []*call
		for i := 0; i < n; i++ {
			cl := w.drawCall(k*16 + i)
			if all := append(append([]*call(nil), calls...), mine...); len(all) > 0 && c.OneIn(4, "ask-again") {
				old := all[c.Choose(len(all), "again")]
				cl = &call{method: old.method, arg: old.arg, k: old.k}
				r.Probe("same-request-again")
			}
			kind := fNone
			if c.Choose(2, "fault?") == 1 && !(lockstep && c.Choose(4, "none") > 0) && (cl.method != "getblockcount" || w.plans[cl.k] == nil && c.OneIn(4, "count-fails")) {
				kind = 1 + c.Choose(nFault-1, "fault")
				faulty = true
			}
			if pl := w.plans[cl.k]; pl != nil {
				cl.pl = pl
			} else {
				cl.pl = w.drawPlan(kind)
				if lockstep {
					cl.pl.delay = 310 * time.Millisecond
				}
				w.plans[cl.k] = cl.pl
			}
			mine = append(mine, cl)
		}
		calls = append(calls, mine...)
		busy++
		cc := cli[k%len(cli)]
		r.Go("cli", fmt.Sprintf("caller%d", k), func() {
			defer func() { busy-- }()
			for _, cl := range mine {
				w.run(cc, cl)
			}
		})
	}
	_ = faulty
	lim := time.Now().Add(200 * time.Second)
	r.At(200*time.Second, "end", func() {})
	r.Run(func() bool { return busy == 0 || r.Failed() || !time.Now().Before(lim) })
	for _, cl := range calls {
		w.judge(cl)
	}
	if w.badAuth > 0 {
		r.Fail("wrong-credentials", "%d requests carried other credentials than the client was given", w.badAuth)
	}
	if w.badReq != "" {
		r.Fail("wrong-request", "the server received %s", w.badReq)
	}
	r.NonTrivial = len(calls) > 0
	if callers > 1 {
		r.Probe("concurrent-callers")
	}
	r.Note("case", fmt.Sprintf("%d callers, %d clients, %d calls, %d connections", callers, len(cli), len(calls), w.dials))
}

// c08: stalls at any point of a call; other calls go on; recovery afterwards.
func c08(r *core.R) {
	c := r.C
	w := newWorld(r)
	defer w.done()
	cli := xrpc.NewClient("node.invalid:8332", w.user, w.pass)
	uniq := 0
	mk := func(kind int) *call {
		uniq++
		cl := w.drawCall(uniq)
		for w.plans[cl.k] != nil {
			uniq++
			cl = w.drawCall(uniq)
		}
		cl.pl = w.drawPlan(kind)
		w.plans[cl.k] = cl.pl
		return cl
	}
	var calls []*call
	busy := 0
	n := 1 + c.Choose(4, "stalled")
	mode := c.Choose(4, "mode")
	if mode <= 1 && c.OneIn(6, "crowd") {
		n = 8 + c.Choose(60, "crowd-n")
		r.Probe("crowd-of-stalled-calls")
	}
	if mode == 2 {
		w.blackout = true
	}
	if mode == 3 {
		// answers that fail at once, and must not keep their connections
		n = 3 + c.Choose(6, "failing")
	}
	for i := 0; i < n; i++ {
		kind := fNoReply
		if c.Choose(4, "late?") == 1 {
			kind = fLate
		}
		if mode == 3 {
			kind = sim.Pick(c, "failing", fError500, fHTML503, fWrongType, fBrokenJSON, fTruncate, fGarbage, fNullResult, fEmpty, fNotFoundJSON, fNoReply)
		}
		cl := mk(kind)
		calls = append(calls, cl)
		busy++
		r.Go("cli", fmt.Sprintf("stalled%d", i), func() {
			defer func() { busy-- }()
			w.run(cli, cl)
			if cl.err != nil {
				r.Probe("stalled-call-failed")
			}
		})
	}
	// calls to the healthy paths of the same client meanwhile
	var good []*call
	if mode == 1 {
		for i := 0; i < 1+c.Choose(3, "healthy"); i++ {
			cl := mk(fNone)
			good = append(good, cl)
			busy++
			at := time.Duration(c.Choose(4, "at")) * 700 * time.Millisecond
			r.Go("cli", fmt.Sprintf("healthy%d", i), func() {
				defer func() { busy-- }()
				sim.Sleep(at)
				w.run(cli, cl)
			})
		}
		r.Probe("healthy-beside-stalled")
	}
	lim := time.Now().Add(60 * time.Second)
	r.At(60*time.Second, "end", func() {})
	r.Run(func() bool { return busy == 0 || r.Failed() || !time.Now().Before(lim) })
	for _, cl := range calls {
		w.judge(cl)
	}
	for _, cl := range good {
		w.judge(cl)
		if !r.Failed() && cl.took > 4500*time.Millisecond {
			r.Fail("call-held-up", "%s to a responsive server took %v while another call was stalled", cl.method, cl.took)
		}
	}
	if r.Failed() {
		return
	}
	// faults stop: the same client works again, and keeps few connections
	w.blackout = false
	var after []*call
	for i := 0; i < 2; i++ {
		after = append(after, mk(fNone))
	}
	fin := false
	r.Go("cli", "after", func() {
		for _, cl := range after {
			w.run(cli, cl)
		}
		fin = true
	})
	lim2 := time.Now().Add(60 * time.Second)
	r.At(60*time.Second, "end", func() {})
	r.Run(func() bool { return fin || r.Failed() || !time.Now().Before(lim2) })
	for _, cl := range after {
		w.judge(cl)
	}
	if r.Failed() {
		return
	}
	lim3 := time.Now().Add(30 * time.Second)
	r.At(30*time.Second, "settle", func() {})
	r.Run(func() bool { return !time.Now().Before(lim3) })
	count := func() (open int) {
		for _, cn := range w.conns {
			if !cn.Closed() {
				open++
			}
		}
		return
	}
	open := count()
	if w.leaked(open) {
		r.Fail("connections-left-open", "%d of %d connections are still open 30s after all calls returned", open, len(w.conns))
		return
	}
	// A pooled connection goes when the server hangs up; one that is held for a
	// finished call stays.
	r.Go("srv", "hangup", func() {
		for _, cn := range w.srvConns {
			cn.Close()
		}
	})
	lim4 := time.Now().Add(5 * time.Second)
	r.At(5*time.Second, "hung-up", func() {})
	r.Run(func() bool { return !time.Now().Before(lim4) })
	if left := count(); left > 0 {
		r.Fail("connections-left-open", "%d of %d connections are held although every call returned and the server hung up", left, len(w.conns))
		return
	}
	r.NonTrivial = true
	r.Note("case", fmt.Sprintf("mode=%d stalled=%d healthy=%d connections=%d open=%d", mode, n, len(good), len(w.conns), open))
}

// leaked: idle connections kept for reuse are fine; more than a small pool is not.
func (w *world) leaked(open int) bool { return open > 4 }

func init() {
	core.Register(&core.Scenario{Prop: "C07", Name: "rpc-answers", Fn: c07, Quick: 20000, Cfg: sim.Config{Preempt: true},
		Rule: "one run = 1-4 concurrent callers on 1-2 clients making 1-4 calls each against a simulated server over simulated connections, each call with a drawn response fault; non-trivial when at least one call was judged", Require: []string{"concurrent-callers", "same-request-again"}})
	core.Register(&core.Scenario{Prop: "C08", Name: "rpc-stalls", Fn: c08, Quick: 40000, Cfg: sim.Config{},
		Rule: "one run = 1-4 calls stalled at a drawn point (connect, before headers, inside headers, inside the body; dead or dripping; late), optionally beside calls that are answered, then calls after the fault stops; non-trivial when all were judged", Require: []string{"stalled-call-failed", "healthy-beside-stalled"}})
}
