package hmain

import (
	"bytes"
	"fmt"
	"time"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xprotocol"

	"vsim/core"
	"vsim/ref"
	"vsim/sim"
)

// ---------------------------------------------------------------- C22: light client

// proofJ is a proof as it travels.
type proofJ struct {
	Block int
	Leaf  []byte
	Path  []xcrypto.Node
}

// pad32 reads what is shorter than a hash as one ending in zeros: a convention
// the repository's tests pin.
func pad32(b []byte) []byte {
	if len(b) >= 32 {
		return b
	}
	return append(append([]byte{}, b...), make([]byte, 32-len(b))...)
}

// foldPath is the reference reading of a proof.
func foldPath(leaf, root []byte, path []xcrypto.Node) bool {
	x := leaf
	if len(leaf) > 32 {
		return false
	}
	for i, n := range path {
		if i == 0 {
			x = pad32(leaf)
		}
		sib := n.Hash
		if len(sib) > 32 {
			return false
		}
		if sib != nil {
			sib = pad32(sib)
		}
		switch n.Position {
		case "left":
			if sib == nil { // an absent left sibling reads as zeros
				sib = make([]byte, 32)
			}
			x = ref.DSha(append(append([]byte{}, sib...), x...))
		case "right":
			if sib == nil {
				sib = x
			}
			x = ref.DSha(append(append([]byte{}, x...), sib...))
		default:
			return false
		}
		if !bytes.Equal(n.Parent, x) {
			return false
		}
	}
	return bytes.Equal(x, root)
}

type block struct {
	leaves [][]byte
	root   []byte
	header *xprotocol.BlockHeader
	raw    []byte
	inner  map[string]bool // every node of the tree
}

func header(b *xprotocol.BlockHeader) []byte {
	o := ule32(nil, b.Version)
	o = append(append(o, b.PrevBlock...), b.MerkleRoot...)
	return ule32(ule32(ule32(o, b.Timestamp), b.Bits), b.Nonce)
}

func ule32(o []byte, v uint32) []byte {
	return append(o, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
}

func c22(r *core.R) {
	c := r.C
	b := newBus(r)
	b.faults(3 * time.Second)
	var chain []*block
	prev := c.Bytes(32, "genesis")
	for i := 1 + c.Choose(3, "blocks"); i > 0; i-- {
		n := sim.Pick(c, "txs", 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 21, 31, 33)
		if c.OneIn(12, "many") {
			n = 34 + c.Choose(600, "txs")
		}
		k := &block{inner: map[string]bool{}}
		seed := c.Bytes(8, "seed")
		for j := 0; j < n; j++ {
			k.leaves = append(k.leaves, pattern(append(seed, byte(j), byte(j>>8)), 32))
		}
		if c.OneIn(6, "zero-leaf") {
			k.leaves[c.Choose(n, "which")] = make([]byte, 32)
		}
		if n > 1 && c.OneIn(8, "twice") { // the same id twice
			k.leaves[c.Choose(n, "twice-a")] = k.leaves[c.Choose(n, "twice-b")]
		}
		k.root = ref.MerkleRoot(k.leaves)
		for l := k.leaves; ; {
			for _, x := range l {
				k.inner[string(x)] = true
			}
			if len(l) == 1 {
				break
			}
			var up [][]byte
			for j := 0; j < len(l); j += 2 {
				up = append(up, ref.MerkleRoot(l[j:min(j+2, len(l))]))
				if j+1 == len(l) {
					up[len(up)-1] = ref.DSha(append(append([]byte{}, l[j]...), l[j]...))
				}
			}
			l = up
		}
		k.header = &xprotocol.BlockHeader{Version: c2(c), PrevBlock: prev, MerkleRoot: k.root, Timestamp: c2(c), Bits: c2(c), Nonce: c2(c)}
		k.raw = header(k.header)
		prev = ref.DSha(k.raw)
		chain = append(chain, k)
	}
	b.owner["server"], b.owner["client"] = "server", "client"
	b.up["server"], b.up["client"] = true, true
	var olds []proofJ
	stop, asked, good := false, 0, 0
	// the server process: trees are rebuilt from its blocks whenever it starts
	var boot func()
	boot = func() {
		r.Go("server", "server", func() {
			trees := map[int]*xcrypto.Merkle{}
			tree := func(i int) *xcrypto.Merkle {
				if trees[i] == nil {
					// a part of a larger list
					n := len(chain[i].leaves)
					list := make([][]byte, 2*n+2)
					for j := range list {
						list[j] = append([]byte(nil), chain[i].leaves[j%n]...)
					}
					in := list[:n]
					trees[i] = xcrypto.NewMerkle(in)
					if c.OneIn(3, "list-reused") { // its list is free again, for the next block
						defer func() {
							for j := range list {
								list[j] = c.Bytes(32, "next-block")
							}
						}()
					}
					for j := range list {
						if !bytes.Equal(list[j], chain[i].leaves[j%n]) {
							r.Fail("input-changed", "building the tree of %d changed transaction %d", len(in), j)
						}
					}
					if !bytes.Equal(trees[i].Root(), chain[i].root) {
						r.Fail("root", "the root of %d transactions is %x, not %x", len(in), trees[i].Root(), chain[i].root)
					}
				}
				return trees[i]
			}
			work := func(name string) {
				for !stop && !r.Failed() {
					p, ok := b.recv("server", time.Second)
					if !ok {
						continue
					}
					var q proofJ
					p.into(&q)
					if p.Kind == "headers" {
						m := xprotocol.NewMsgHeaders()
						for _, k := range chain {
							m.AddBlockHeader(k.header)
						}
						b.sendRaw("client", pkt{name, "headers", m.Encode()})
						continue
					}
					t := tree(q.Block)
					if r.Failed() {
						return
					}
					q.Path = t.Proofs(q.Leaf)
					member := false
					for _, x := range chain[q.Block].leaves {
						member = member || bytes.Equal(x, q.Leaf)
					}
					switch {
					case !member && q.Path != nil:
						r.Fail("proof", "a proof of %d nodes was made for something that is not in the block", len(q.Path))
					case member && !foldPath(q.Leaf, chain[q.Block].root, q.Path):
						r.Fail("proof", "the proof made for a transaction of %d does not lead to the root", len(chain[q.Block].leaves))
					case !bytes.Equal(t.Root(), chain[q.Block].root):
						r.Fail("root", "after a proof the root is %x", t.Root())
					}
					if len(olds) < 40 {
						olds = append(olds, q)
					}
					b.send(name, "client", "proof", q)
				}
			}
			r.Go("server", "server2", func() { work("server2") })
			work("server")
		})
	}
	boot()
	alter := func(q *proofJ) {
		r.Fault("proof-altered")
		other := q
		if len(olds) > 0 {
			other = &olds[c.Choose(len(olds), "old")]
		}
		any := func() []byte {
			k := chain[c.Choose(len(chain), "any-block")]
			if c.OneIn(3, "any-random") {
				return c.Bytes(32, "any")
			}
			return k.leaves[c.Choose(len(k.leaves), "any-leaf")]
		}
		n := len(q.Path)
		resize := func(b []byte) []byte { // hashes are 32 bytes
			b = append([]byte(nil), b...)
			r.Fault("hash-resized")
			switch c.Choose(5, "resize") {
			case 0:
				return append(b, c.Bytes(1+c.Choose(32, "n"), "junk")...)
			case 1:
				return append(b, 0)
			case 2:
				return b[:len(b)-min(len(b), 1+c.Choose(3, "n"))]
			case 3:
				return b[:0]
			}
			return append(b, b...)
		}
		switch k := c.Choose(15, "alter"); {
		case k == 12:
			q.Leaf = resize(q.Leaf)
		case k == 13:
			q.Leaf, q.Path = resize(q.Leaf), nil
		case k == 14 && n == 0:
			q.Leaf = nil
		case k == 0:
			q.Leaf = any()
		case k == 1:
			q.Path = other.Path
		case k == 2:
			q.Block = c.Choose(len(chain), "block")
		case n == 0:
			q.Path = append(q.Path, xcrypto.Node{Hash: any(), Parent: chain[q.Block].root, Position: "left"})
		case k == 3:
			q.Path = q.Path[:c.Choose(n, "cut")]
		case k == 4:
			i := c.Choose(n, "node")
			q.Path = append(append([]xcrypto.Node{}, q.Path[:i]...), q.Path[i+1:]...)
		case k == 5:
			q.Path = append(q.Path, q.Path[c.Choose(n, "node")])
		default:
			x := &q.Path[c.Choose(n, "node")]
			flip := func(b []byte) []byte {
				b = append([]byte(nil), b...)
				if len(b) > 0 {
					b[c.Choose(len(b), "byte")] ^= 1 << uint(c.Choose(8, "bit"))
				}
				return b
			}
			switch k {
			case 6:
				x.Hash = flip(x.Hash)
			case 7:
				x.Parent = flip(x.Parent)
			case 8:
				x.Position = sim.Pick(c, "position", "left", "right", "", "middle", "Left")
			case 9:
				x.Hash = any()
			case 10:
				x.Hash = nil
			case 11:
				x.Hash, x.Parent = x.Parent, x.Hash
			case 14:
				x.Hash = resize(x.Hash)
			}
		}
	}
	b.tamper = func(to string, p *pkt) {
		if b.quiet() || to != "client" || !c.OneIn(2, "damage") {
			return
		}
		if p.Kind == "headers" {
			r.Fault("header-altered")
			p.Body = append([]byte(nil), p.Body...)
			p.Body[c.Choose(len(p.Body), "byte")] ^= 1 << uint(c.Choose(8, "bit"))
			return
		}
		var q proofJ
		p.into(&q)
		for i := 1 + c.Choose(2, "alterations"); i > 0; i-- {
			alter(&q)
		}
		*p = jsonPkt(p.From, p.Kind, q)
	}
	// the client process knows the hash of the last block only
	tip := prev
	r.Go("client", "client", func() {
		var roots [][]byte
		verifier := xcrypto.NewMerkle(nil)
		want := map[string]bool{}
		for !stop && !r.Failed() {
			sim.Sleep(20 * time.Millisecond)
			if len(b.box["client"]) > 0 {
				// answers first
			} else if roots == nil {
				b.send("client", "server", "headers", nil)
			} else {
				k := c.Choose(len(chain), "block")
				if c.OneIn(5, "foreign") {
					l := chain[k].leaves[c.Choose(len(chain[k].leaves), "leaf")]
					l = sim.Pick(c, "foreign-kind", c.Bytes(32, "foreign"), nil, l[:31], l[1:], append(append([]byte{}, l...), 0), l[:c.Choose(32, "foreign-len")], chain[k].root)
					b.send("client", "server", "ask", proofJ{Block: k, Leaf: l})
				} else {
					b.send("client", "server", "ask", proofJ{Block: k, Leaf: chain[k].leaves[c.Choose(len(chain[k].leaves), "leaf")]})
				}
			}
			p, ok := b.recv("client", time.Second)
			if !ok {
				continue
			}
			if p.Kind == "headers" {
				m := xprotocol.NewMsgHeaders()
				if err := m.Decode(p.Body); err != nil || len(m.Headers) == 0 {
					continue
				}
				// a chain of headers that ends in the known hash is the chain
				linked := bytes.Equal(m.Headers[len(m.Headers)-1].BlockHash(), tip)
				for i, x := range m.Headers {
					if !bytes.Equal(x.BlockHash(), ref.DSha(header(x))) {
						r.Fail("header", "the hash of block header %x is %x", header(x), x.BlockHash())
						return
					}
					linked = linked && (i == 0 || bytes.Equal(x.PrevBlock, m.Headers[i-1].BlockHash()))
				}
				if !linked || len(m.Headers) != len(chain) {
					r.Probe("header-refused")
					continue
				}
				for i, x := range m.Headers {
					if !bytes.Equal(x.MerkleRoot, chain[i].root) {
						r.Fail("header", "headers that end in the known hash carry another root")
						return
					}
					roots = append(roots, x.MerkleRoot)
				}
				continue
			}
			var q proofJ
			if !p.into(&q) || roots == nil || q.Block < 0 || q.Block >= len(roots) {
				continue
			}
			for _, x := range q.Path {
				if len(x.Hash) != 32 && x.Hash != nil {
					r.Probe("odd-length")
				}
			}
			root := roots[q.Block]
			if c.OneIn(8, "other-root") { // not a root, or not all of one
				root = sim.Pick(c, "root-kind", nil, []byte{}, root[:c.Choose(32, "root-len")], root[1:], append(append([]byte{}, root...), 0), c.Bytes(32, "root"))
				r.Probe("no-root")
			}
			before := fmt.Sprintf("%x %x %x", q.Leaf, root, q.Path)
			got := verifier.Verify(q.Leaf, root, q.Path)
			asked++
			if before != fmt.Sprintf("%x %x %x", q.Leaf, root, q.Path) {
				r.Fail("input-changed", "verifying a proof changed it")
			}
			if w := foldPath(q.Leaf, root, q.Path); got != w {
				r.Fail("verify", "a proof of %d nodes for block %d verifies: %v, it leads to the root: %v", len(q.Path), q.Block, got, w)
			}
			if got && bytes.Equal(root, roots[q.Block]) && !chain[q.Block].inner[string(pad32(q.Leaf))] {
				r.Fail("verify", "a proof verified for something that is not in the block's tree")
			}
			if got {
				good++
				want[string(q.Leaf)] = true
			} else {
				r.Probe("proof-refused")
			}
			if b.quiet() && roots != nil && len(want) > 0 && asked > 6 {
				stop = true
			}
		}
	})
	if n := sim.Pick(c, "crashes", 0, 0, 1, 2); n > 0 {
		b.crasher("server", []string{"server"}, n, boot)
	}
	r.Run(func() bool {
		if time.Since(b.calm) > 2*time.Minute {
			r.Fail("stuck", "two minutes after the last fault the client has no proof (%d answers, %d good)", asked, good)
		}
		return stop || r.Failed()
	})
	r.NonTrivial = good > 0
	r.Note("proofs", asked)
	r.Note("good", good)
}

func c2(c *sim.Chooser) uint32 {
	return sim.Pick(c, "u32", uint32(1), 0, 0x20000000, 0xffffffff, 1600000000, 0x1d00ffff)
}

func init() {
	core.Register(&core.Scenario{Prop: "C22", Name: "light-client", Fn: c22, Quick: 90000, Cfg: sim.Config{Preempt: true},
		Require: []string{"proof-refused", "header-refused", "crash", "proof-altered", "header-altered", "hash-resized"},
		Rule:    "one run = a light client that fetches 1-3 headers and transaction proofs (blocks of 1-633 transactions) from a server process with crashes and two workers over a network that alters proofs; non-trivial when a proof verified"})
}
