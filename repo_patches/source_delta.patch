From da826666457c5309d3a94fece3d0a5a7e418e9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 01/57] fix: a blocked reader must not hold up writers of the
 same stream

---
 xprotocol/stream.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index e5b1ca1..5ec6a82 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -44,7 +44,8 @@ const (
 type Stream struct {
 	magic  []byte
 	conn   net.Conn
-	mutex  sync.Mutex
+	rmutex sync.Mutex
+	wmutex sync.Mutex
 	reader *bufio.Reader
 	writer *bufio.Writer
 }
@@ -61,8 +62,8 @@ func NewStream(conn net.Conn, magic []byte) *Stream {
 
 // ReadMessage -- read a message from the network.
 func (s *Stream) ReadMessage() (Message, error) {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.rmutex.Lock()
+	defer s.rmutex.Unlock()
 	if err := s.conn.SetReadDeadline(time.Now().Add(readTimeout)); err != nil {
 		return nil, err
 	}
@@ -101,8 +102,8 @@ func (s *Stream) ReadMessage() (Message, error) {
 
 // WriteMessage -- write the message to the network.
 func (s *Stream) WriteMessage(msg Message) error {
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
+	s.wmutex.Lock()
+	defer s.wmutex.Unlock()
 	if err := s.conn.SetWriteDeadline(time.Now().Add(writeTimeout)); err != nil {
 		return err
 	}
-- 
2.43.0


From cd2566ff33a0657db9eb10021edf568f7b3da9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 02/57] fix: reject messages of another network (magic was read
 but never compared)

---
 xprotocol/stream.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index 5ec6a82..786f16e 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -72,6 +72,9 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if _, err := io.ReadFull(s.reader, magic); err != nil {
 		return nil, err
 	}
+	if !bytes.Equal(magic, s.magic) {
+		return nil, fmt.Errorf("stream.read.magic.mismatch")
+	}
 	command := make([]byte, 12)
 	if _, err := io.ReadFull(s.reader, command); err != nil {
 		return nil, err
-- 
2.43.0


From 6fddcc12a850d5b49c49103cfc196bd40ca418f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 03/57] fix: bound the payload size a peer can make us allocate

---
 xprotocol/stream.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xprotocol/stream.go b/xprotocol/stream.go
index 786f16e..809ba4f 100644
--- a/xprotocol/stream.go
+++ b/xprotocol/stream.go
@@ -38,6 +38,9 @@ const (
 	bufferSize   = 32 * 1024
 	readTimeout  = 30 * time.Second
 	writeTimeout = 20 * time.Second
+
+	// maxPayloadSize is the largest payload accepted from a peer.
+	maxPayloadSize = 32 * 1024 * 1024
 )
 
 // Stream --
@@ -83,6 +86,9 @@ func (s *Stream) ReadMessage() (Message, error) {
 	if err := binary.Read(s.reader, binary.LittleEndian, &size); err != nil {
 		return nil, err
 	}
+	if size > maxPayloadSize {
+		return nil, fmt.Errorf("stream.read.payload.size[%v].exceeds[%v]", size, maxPayloadSize)
+	}
 	check := make([]byte, 4)
 	if _, err := io.ReadFull(s.reader, check); err != nil {
 		return nil, err
-- 
2.43.0


From b710dd8c192eb090bef5ff7b5cafc34b39b91133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 04/57] fix: deliver ping and pong messages with their nonce

---
 xprotocol/message.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xprotocol/message.go b/xprotocol/message.go
index d475a4e..3bbaa23 100644
--- a/xprotocol/message.go
+++ b/xprotocol/message.go
@@ -29,6 +29,10 @@ func makeEmptyMessage(command string) Message {
 		return &MsgTx{}
 	case CommandHeaders:
 		return &MsgHeaders{}
+	case CommandPing:
+		return &MsgPing{}
+	case CommandPong:
+		return &MsgPong{}
 	case CommandReject:
 		return &MsgReject{}
 	}
-- 
2.43.0


From 10c8c803bbc62dcf19b22090c83d83cee4a11c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 05/57] fix: a negative or overflowing length must not pass the
 buffer bounds check

---
 xbase/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index 806d153..e6274bb 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -30,7 +30,7 @@ func NewBufferReader(data []byte) *Buffer {
 }
 
 func (b *Buffer) check(l int) error {
-	if (b.seek + l) > b.length {
+	if l < 0 || l > b.length-b.seek {
 		return fmt.Errorf("error.seek[%v].required[%v].length[%v]", b.seek, l, b.length)
 	}
 	return nil
-- 
2.43.0


From 311a8c888c597bdb924c327b777cd824edef4196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 06/57] fix: count every added item against the inv and headers
 message limits

---
 xprotocol/msgheaders.go | 2 +-
 xprotocol/msginv.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 66baf0e..3e709bb 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -27,7 +27,7 @@ func NewMsgHeaders() *MsgHeaders {
 
 // AddBlockHeader -- adds a new block header to the message.
 func (m *MsgHeaders) AddBlockHeader(headers ...*BlockHeader) error {
-	if len(m.Headers)+1 > MaxBlockHeadersPerMsg {
+	if len(m.Headers)+len(headers) > MaxBlockHeadersPerMsg {
 		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
 	}
 	m.Headers = append(m.Headers, headers...)
diff --git a/xprotocol/msginv.go b/xprotocol/msginv.go
index f54c3fa..6ba6787 100644
--- a/xprotocol/msginv.go
+++ b/xprotocol/msginv.go
@@ -23,7 +23,7 @@ func NewMsgInv() *MsgInv {
 
 // AddInvVect -- adds an inventory vector to the message.
 func (m *MsgInv) AddInvVect(iv ...*InvVect) error {
-	if len(m.Invs)+1 > MaxInvPerMsg {
+	if len(m.Invs)+len(iv) > MaxInvPerMsg {
 		return fmt.Errorf("too.many.invvect.in.message[max:%v]", MaxInvPerMsg)
 	}
 	m.Invs = append(m.Invs, iv...)
-- 
2.43.0


From dc5369f84af0ed417cbae40ea38182b94b8fcf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 07/57] fix: limit the header count when decoding a headers
 message

---
 xprotocol/msgheaders.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xprotocol/msgheaders.go b/xprotocol/msgheaders.go
index 3e709bb..1234c2c 100644
--- a/xprotocol/msgheaders.go
+++ b/xprotocol/msgheaders.go
@@ -59,6 +59,9 @@ func (m *MsgHeaders) Decode(data []byte) error {
 	if err != nil {
 		return err
 	}
+	if count > MaxBlockHeadersPerMsg {
+		return fmt.Errorf("too.many.block.headers.in.message[max:%v]", MaxBlockHeadersPerMsg)
+	}
 
 	for i := 0; i < int(count); i++ {
 		header := &BlockHeader{}
-- 
2.43.0


From 6bdc49f7f28b0e2758ce1d2c4d8d046f20c9e23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 08/57] fix: read the stop hash and limit the locator count of
 a getheaders message

---
 xprotocol/msggetheaders.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 78e3125..ac9b839 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -6,10 +6,15 @@
 package xprotocol
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/network"
 	"github.com/keyfuse/tokucore/xbase"
 )
 
+// MaxBlockLocatorsPerMsg is the maximum number of block locator hashes allowed per message.
+const MaxBlockLocatorsPerMsg = 500
+
 // MsgGetHeaders --
 type MsgGetHeaders struct {
 	protocolVersion    uint32
@@ -61,6 +66,9 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 	if err != nil {
 		return err
 	}
+	if count > MaxBlockLocatorsPerMsg {
+		return fmt.Errorf("too.many.block.locators.in.message[max:%v]", MaxBlockLocatorsPerMsg)
+	}
 	for i := 0; i < int(count); i++ {
 		var hash []byte
 		if hash, err = buffer.ReadBytes(32); err != nil {
@@ -70,6 +78,11 @@ func (m *MsgGetHeaders) Decode(data []byte) error {
 			return err
 		}
 	}
+	stop, err := buffer.ReadBytes(32)
+	if err != nil {
+		return err
+	}
+	copy(m.blockStopHash[:], stop)
 	return nil
 }
 
-- 
2.43.0


From 5883e90cc6c5391c0019dd66d2b162d36ee7e8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 09/57] fix: encoding a getheaders message must not change it

---
 xprotocol/msggetheaders.go | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index ac9b839..329501e 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -37,17 +37,15 @@ func (m *MsgGetHeaders) AddBlockLocatorHash(hash []byte) error {
 
 // Encode -- encoding MsgGetHeaders.
 func (m *MsgGetHeaders) Encode() []byte {
-	if len(m.blockLocatorHashes) == 0 {
-		var zero [32]byte
-		if err := m.AddBlockLocatorHash(zero[:]); err != nil {
-			return nil
-		}
+	locators := m.blockLocatorHashes
+	if len(locators) == 0 {
+		locators = [][]byte{make([]byte, 32)}
 	}
 
 	buffer := xbase.NewBuffer()
 	buffer.WriteU32(m.protocolVersion)
-	buffer.WriteVarInt(uint64(len(m.blockLocatorHashes)))
-	for _, locator := range m.blockLocatorHashes {
+	buffer.WriteVarInt(uint64(len(locators)))
+	for _, locator := range locators {
 		buffer.WriteBytes(locator[:])
 	}
 	buffer.WriteBytes(m.blockStopHash[:])
-- 
2.43.0


From a33448be7414d28f3d7473278b70527101ffcfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:20 +0000
Subject: [PATCH 10/57] fix: a getheaders message must not be built with more
 locators than its receiver accepts

---
 xprotocol/msggetheaders.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xprotocol/msggetheaders.go b/xprotocol/msggetheaders.go
index 329501e..ff593a6 100644
--- a/xprotocol/msggetheaders.go
+++ b/xprotocol/msggetheaders.go
@@ -31,6 +31,9 @@ func NewMsgGetHeaders(net *network.Network) *MsgGetHeaders {
 
 // AddBlockLocatorHash -- adds the block locator hash to message.
 func (m *MsgGetHeaders) AddBlockLocatorHash(hash []byte) error {
+	if len(m.blockLocatorHashes)+1 > MaxBlockLocatorsPerMsg {
+		return fmt.Errorf("too.many.block.locators.in.message[max:%v]", MaxBlockLocatorsPerMsg)
+	}
 	m.blockLocatorHashes = append(m.blockLocatorHashes, hash)
 	return nil
 }
-- 
2.43.0


From 1006d95599ac93a190c59a745cd9a3229f7eb6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 11/57] fix: a response without a result is an error, not a nil
 dereference

---
 xrpc/client.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xrpc/client.go b/xrpc/client.go
index b8b63d4..1c3d23e 100644
--- a/xrpc/client.go
+++ b/xrpc/client.go
@@ -87,5 +87,8 @@ func (c *Client) call(method string, params ...interface{}) (*Response, error) {
 	if resp.Error != nil {
 		return nil, fmt.Errorf("%v", resp.Error)
 	}
+	if resp.Result == nil {
+		return nil, fmt.Errorf("rpc.response.without.result[method:%v, status:%v]", method, rawResp.Status)
+	}
 	return resp, nil
 }
-- 
2.43.0


From 45bc92245621b7cdb84efc532ebd5832b557916c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:42 +0000
Subject: [PATCH 12/57] fix: block header links are hex strings on the wire,
 not base64

---
 xrpc/models.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xrpc/models.go b/xrpc/models.go
index 55f7c20..1875df4 100644
--- a/xrpc/models.go
+++ b/xrpc/models.go
@@ -19,8 +19,8 @@ type BlockHeaderResult struct {
 	Bits              string  `json:"bits"`
 	Difficulty        float64 `json:"difficulty"`
 	ChainWork         string  `json:"chainwork"`
-	PreviousBlockHash []byte  `json:"previousblockhash"`
-	NextBlockHash     []byte  `json:"nextblockhash"`
+	PreviousBlockHash string  `json:"previousblockhash"`
+	NextBlockHash     string  `json:"nextblockhash"`
 }
 
 // BlockResult --
-- 
2.43.0


From 6c5b84a5b30b5255a916a3d348bb53c444099f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:15 +0000
Subject: [PATCH 13/57] fix: two-party Schnorr signs the challenge of the
 shared nonce and keeps the nonce intact

---
 xcrypto/mpc_schnorr.go     | 3 +--
 xcrypto/schnorr/schnorr.go | 3 ++-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index 584dd33..b8f40eb 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -85,11 +85,10 @@ func (party *SchnorrParty) Phase4(sharePub *PubKey, shareR *secp256k1.Scalar) ([
 	prv := party.prv
 	pub := sharePub
 	curve := party.curve
-	scalarR := party.r
 	shareScalarR := shareR
 
 	// e = int(hash(bytes(x(R)) || bytes(dG) || m)) mod n
-	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(scalarR.X))
+	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(shareScalarR.X))
 
 	// ed
 	ed := new(big.Int)
diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index f86a4d1..af3bf65 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -64,6 +64,7 @@ func Sign(prv *ecdsa.PrivateKey, m []byte) (*big.Int, *big.Int, error) {
 
 	// Clean.
 	zeroSlice(d)
+	k0.SetInt64(0)
 	k.SetInt64(0)
 
 	return Rx, s, nil
@@ -127,7 +128,7 @@ func GetK(curve elliptic.Curve, Ry, k0 *big.Int) *big.Int {
 	if big.Jacobi(Ry, P) == 1 {
 		return k0
 	}
-	return k0.Sub(N, k0)
+	return new(big.Int).Sub(N, k0)
 }
 
 // GetE -- used get e under schnorr BIP.
-- 
2.43.0


From 7264ef8f1875b899d5939da49d07b6921de71f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:23 +0000
Subject: [PATCH 14/57] fix: a Schnorr signature of the wrong size or out of
 range is rejected, not a panic

---
 xcrypto/schnorr/schnorr.go   | 2 +-
 xcrypto/signature_schnorr.go | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index af3bf65..a5b24cf 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -90,7 +90,7 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 	P := curve.Params().P
 	N := curve.Params().N
 
-	if r.Cmp(P) > 0 || s.Cmp(N) > 0 {
+	if r.Cmp(P) >= 0 || s.Cmp(N) >= 0 {
 		return false
 	}
 
diff --git a/xcrypto/signature_schnorr.go b/xcrypto/signature_schnorr.go
index dd194c5..6de1dc4 100644
--- a/xcrypto/signature_schnorr.go
+++ b/xcrypto/signature_schnorr.go
@@ -34,6 +34,9 @@ func (sig *SignatureSchnorr) Serialize() ([]byte, error) {
 
 // Deserialize -- used to deserialize the signature to struct.
 func (sig *SignatureSchnorr) Deserialize(sign []byte) error {
+	if len(sign) != 64 {
+		return fmt.Errorf("schnorr.signature.size[%v].invalid", len(sign))
+	}
 	sig.R = new(big.Int).SetBytes(sign[:32])
 	sig.S = new(big.Int).SetBytes(sign[32:])
 	return nil
-- 
2.43.0


From 7f244ef3502f89864fe27429a9578819ab2e533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 15/57] fix: later sessions of a two-party signer take a fresh
 nonce

---
 xcrypto/mpc_ecdsa.go   | 20 +++++++++++++++++++-
 xcrypto/mpc_schnorr.go |  6 +++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/xcrypto/mpc_ecdsa.go b/xcrypto/mpc_ecdsa.go
index 8f6cecc..2d82a06 100644
--- a/xcrypto/mpc_ecdsa.go
+++ b/xcrypto/mpc_ecdsa.go
@@ -10,6 +10,7 @@ import (
 	"math/big"
 
 	"crypto/elliptic"
+	"crypto/rand"
 
 	xecdsa "github.com/keyfuse/tokucore/xcrypto/ecdsa"
 	"github.com/keyfuse/tokucore/xcrypto/paillier"
@@ -81,8 +82,15 @@ func (party *EcdsaParty) Phase2(hash []byte) (*big.Int, *paillier.PubKey, *secp2
 	}
 	party.encpk = encpk
 
-	// RFC6979 K nonce.
+	// RFC6979 K nonce for the first session of this party, a fresh one for every
+	// later session: R also depends on the other party, so the same nonce must
+	// not be used twice, not even for the same hash.
 	k := xecdsa.NonceRFC6979(N, prv.D, hash)
+	if party.k != nil {
+		if k, err = newNonce(N); err != nil {
+			return nil, nil, nil
+		}
+	}
 	kinv := new(big.Int).ModInverse(k, N)
 	party.k = k
 	party.kinv = kinv
@@ -91,6 +99,16 @@ func (party *EcdsaParty) Phase2(hash []byte) (*big.Int, *paillier.PubKey, *secp2
 	return encpk, encpub, secp256k1.NewScalar(rx, ry)
 }
 
+// newNonce -- returns a random nonce in [1, N-1].
+func newNonce(N *big.Int) (*big.Int, error) {
+	max := new(big.Int).Sub(N, big.NewInt(1))
+	k, err := rand.Int(rand.Reader, max)
+	if err != nil {
+		return nil, err
+	}
+	return k.Add(k, big.NewInt(1)), nil
+}
+
 // Phase3 -- set party2's r2 to this party.
 // Return the shared R.
 func (party *EcdsaParty) Phase3(r2 *secp256k1.Scalar) *secp256k1.Scalar {
diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index b8f40eb..8d8b565 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -52,12 +52,12 @@ func (party *SchnorrParty) Phase2(hash []byte) *secp256k1.Scalar {
 	prv := party.prv
 	pub := prv.PubKey()
 	curve := pub.Curve
-	d := schnorr.IntToByte(prv.D)
 
 	party.hash = hash
 	// Scalar R.
-	// k' = int(hash(bytes(d) || m)) mod n
-	k0, err := schnorr.GetK0(hash, d, N)
+	// The nonce is fresh for every session: R also depends on the other party,
+	// so the same nonce must never be used twice, not even for the same hash.
+	k0, err := newNonce(N)
 	if err != nil {
 		return nil
 	}
-- 
2.43.0


From eea43cdfea858bca3aa12eb6de4b84921037e723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 16/57] fix: a two-party signer answers one shared nonce per
 session only

---
 xcrypto/mpc_ecdsa.go   |  8 ++++++++
 xcrypto/mpc_schnorr.go | 12 ++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/xcrypto/mpc_ecdsa.go b/xcrypto/mpc_ecdsa.go
index 2d82a06..cabde10 100644
--- a/xcrypto/mpc_ecdsa.go
+++ b/xcrypto/mpc_ecdsa.go
@@ -32,6 +32,7 @@ type EcdsaParty struct {
 	curve  elliptic.Curve
 	encpk  *big.Int
 	encprv *paillier.PrvKey
+	usedR  *secp256k1.Scalar // the shared R the nonce was spent on
 }
 
 // NewEcdsaParty -- creates new EcdsaParty.
@@ -94,6 +95,7 @@ func (party *EcdsaParty) Phase2(hash []byte) (*big.Int, *paillier.PubKey, *secp2
 	kinv := new(big.Int).ModInverse(k, N)
 	party.k = k
 	party.kinv = kinv
+	party.usedR = nil
 
 	rx, ry := curve.ScalarBaseMult(k.Bytes())
 	return encpk, encpub, secp256k1.NewScalar(rx, ry)
@@ -131,6 +133,12 @@ func (party *EcdsaParty) Phase4(encpk2 *big.Int, encpub2 *paillier.PubKey, share
 	hash := party.hash
 	curve := party.curve
 
+	// A nonce signs one shared R only, two would give the key away.
+	if party.usedR != nil && (party.usedR.X.Cmp(shareR.X) != 0 || party.usedR.Y.Cmp(shareR.Y) != 0) {
+		return nil, errors.New("mpc.ecdsa.nonce.already.used")
+	}
+	party.usedR = secp256k1.NewScalar(new(big.Int).Set(shareR.X), new(big.Int).Set(shareR.Y))
+
 	// s’=(z+r⋅e(pk2)⋅pk1)/k1
 	z := xecdsa.HashToInt(curve, hash)
 
diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index 8d8b565..ee4f989 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -6,6 +6,7 @@
 package xcrypto
 
 import (
+	"errors"
 	"math/big"
 
 	"crypto/elliptic"
@@ -23,6 +24,8 @@ type SchnorrParty struct {
 	hash  []byte
 	curve elliptic.Curve
 	r     *secp256k1.Scalar
+	usedE *big.Int // the challenge the nonce was spent on
+	usedY *big.Int // and the Y of the shared R
 }
 
 // NewSchnorrParty -- creates new SchnorrParty.
@@ -62,6 +65,8 @@ func (party *SchnorrParty) Phase2(hash []byte) *secp256k1.Scalar {
 		return nil
 	}
 	party.k0 = k0
+	party.usedE = nil
+	party.usedY = nil
 
 	rx, ry := curve.ScalarBaseMult(k0.Bytes())
 	party.r = secp256k1.NewScalar(rx, ry)
@@ -90,6 +95,13 @@ func (party *SchnorrParty) Phase4(sharePub *PubKey, shareR *secp256k1.Scalar) ([
 	// e = int(hash(bytes(x(R)) || bytes(dG) || m)) mod n
 	e := schnorr.GetE(curve, m, pub.X, pub.Y, schnorr.IntToByte(shareScalarR.X))
 
+	// A nonce answers one challenge only, two would give the key away.
+	if party.usedE != nil && (party.usedE.Cmp(e) != 0 || party.usedY.Cmp(shareScalarR.Y) != 0) {
+		return nil, errors.New("mpc.schnorr.nonce.already.used")
+	}
+	party.usedE = e
+	party.usedY = new(big.Int).Set(shareScalarR.Y)
+
 	// ed
 	ed := new(big.Int)
 	ed.Mul(e, prv.D)
-- 
2.43.0


From 91ec85baf4d8f81a5f2a9f930a83361821f0ce2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 17/57] fix: mask the two-party ECDSA partial signature, its
 integer gave away the signer's key

---
 xcrypto/mpc_ecdsa.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/xcrypto/mpc_ecdsa.go b/xcrypto/mpc_ecdsa.go
index cabde10..9666084 100644
--- a/xcrypto/mpc_ecdsa.go
+++ b/xcrypto/mpc_ecdsa.go
@@ -127,6 +127,7 @@ func (party *EcdsaParty) Phase4(encpk2 *big.Int, encpub2 *paillier.PubKey, share
 	var err error
 	var ct *big.Int
 
+	N := party.N
 	prv := party.prv
 	pk1 := prv.D
 	kinv := party.kinv
@@ -142,23 +143,28 @@ func (party *EcdsaParty) Phase4(encpk2 *big.Int, encpub2 *paillier.PubKey, share
 	// s’=(z+r⋅e(pk2)⋅pk1)/k1
 	z := xecdsa.HashToInt(curve, hash)
 
-	// e(pk2)⋅pk1
-	if ct, err = encpub2.MultPlaintext(encpk2, pk1); err != nil {
+	// (r⋅pk1)/k1 mod N
+	v := new(big.Int).Mul(shareR.X, pk1)
+	v.Mul(v, kinv).Mod(v, N)
+
+	// e(pk2)⋅(r⋅pk1)/k1
+	if ct, err = encpub2.MultPlaintext(encpk2, v); err != nil {
 		return nil, err
 	}
 
-	// r⋅e(pk2)⋅pk1
-	if ct, err = encpub2.MultPlaintext(ct, shareR.X); err != nil {
+	// z/k1 mod N, plus a random multiple of N: the other party decrypts an
+	// integer, which must tell nothing but its residue mod N.
+	mask, err := rand.Int(rand.Reader, new(big.Int).Mul(N, N))
+	if err != nil {
 		return nil, err
 	}
-
-	// z+r⋅e(pk2)⋅pk1
-	if ct, err = encpub2.AddPlaintext(ct, z); err != nil {
+	w := new(big.Int).Mul(z, kinv)
+	w.Mod(w, N).Add(w, mask.Mul(mask, N))
+	encw, err := encpub2.Encrypt(w)
+	if err != nil {
 		return nil, err
 	}
-
-	// (z+r⋅e(pk2)⋅pk1)/k1
-	if ct, err = encpub2.MultPlaintext(ct, kinv); err != nil {
+	if ct, err = encpub2.Add(ct, encw); err != nil {
 		return nil, err
 	}
 	return ct, nil
-- 
2.43.0


From 071977596af871b0ea2b1af6f431986414ccb457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 18/57] fix: scriptless and Schnorr two-party signing return a
 signature only if it verifies

---
 xcrypto/mpc_ecdsa.go        | 16 ++++++++++++++++
 xcrypto/mpc_schnorr.go      |  7 +++++++
 xcrypto/scriptless_ecdsa.go |  2 +-
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/xcrypto/mpc_ecdsa.go b/xcrypto/mpc_ecdsa.go
index 9666084..20db2a6 100644
--- a/xcrypto/mpc_ecdsa.go
+++ b/xcrypto/mpc_ecdsa.go
@@ -33,6 +33,7 @@ type EcdsaParty struct {
 	encpk  *big.Int
 	encprv *paillier.PrvKey
 	usedR  *secp256k1.Scalar // the shared R the nonce was spent on
+	joint  *PubKey           // the shared PubKey of Phase1
 }
 
 // NewEcdsaParty -- creates new EcdsaParty.
@@ -57,6 +58,7 @@ func (party *EcdsaParty) Phase1(pub2 *PubKey) *PubKey {
 	curve := pub.Curve
 
 	px, py := curve.ScalarMult(pub2.X, pub2.Y, prv.D.Bytes())
+	party.joint = &PubKey{X: px, Y: py, Curve: curve}
 	return &PubKey{X: px, Y: py, Curve: curve}
 }
 
@@ -195,6 +197,20 @@ func (party *EcdsaParty) Phase5(shareR *secp256k1.Scalar, sign2 *big.Int) ([]byt
 	return esig.Serialize()
 }
 
+// finish -- returns the serialized final signature, if it is one of the shared PubKey.
+func (party *EcdsaParty) finish(esig *SignatureEcdsa) ([]byte, error) {
+	sig, err := esig.Serialize()
+	if err != nil {
+		return nil, err
+	}
+	if party.joint != nil {
+		if err := EcdsaVerify(party.joint, party.hash, sig); err != nil {
+			return nil, err
+		}
+	}
+	return sig, nil
+}
+
 // Close -- used to cleanup the secret.
 func (party *EcdsaParty) Close() {
 	party.prv = nil
diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index ee4f989..e69ce74 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -26,6 +26,7 @@ type SchnorrParty struct {
 	r     *secp256k1.Scalar
 	usedE *big.Int // the challenge the nonce was spent on
 	usedY *big.Int // and the Y of the shared R
+	joint *PubKey  // the shared PubKey of Phase4
 }
 
 // NewSchnorrParty -- creates new SchnorrParty.
@@ -90,6 +91,7 @@ func (party *SchnorrParty) Phase4(sharePub *PubKey, shareR *secp256k1.Scalar) ([
 	prv := party.prv
 	pub := sharePub
 	curve := party.curve
+	party.joint = sharePub
 	shareScalarR := shareR
 
 	// e = int(hash(bytes(x(R)) || bytes(dG) || m)) mod n
@@ -131,6 +133,11 @@ func (party *SchnorrParty) Phase5(shareR *secp256k1.Scalar, sigs ...[]byte) ([]b
 
 	copy(sigFinal[:32], schnorr.IntToByte(R.X))
 	copy(sigFinal[32:], schnorr.IntToByte(aggs))
+	if party.joint != nil {
+		if err := SchnorrVerify(party.joint, party.hash, sigFinal); err != nil {
+			return nil, err
+		}
+	}
 	return sigFinal, nil
 }
 
diff --git a/xcrypto/scriptless_ecdsa.go b/xcrypto/scriptless_ecdsa.go
index 3e3866a..62ffbe9 100644
--- a/xcrypto/scriptless_ecdsa.go
+++ b/xcrypto/scriptless_ecdsa.go
@@ -140,5 +140,5 @@ func (bob *EcdsaBob) ScriptlessPhase6(shareR *secp256k1.Scalar, sig *big.Int) ([
 	esig := NewSignatureEcdsa()
 	esig.R = shareR.X
 	esig.S = s
-	return esig.Serialize()
+	return bob.finish(esig)
 }
-- 
2.43.0


From 1bd3ad1555e8e654ed85217acb874842c0230c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:35 +0000
Subject: [PATCH 19/57] fix: two-party signing rejects malformed values and use
 after Close instead of panicking

---
 xcrypto/mpc_ecdsa.go        | 57 +++++++++++++++++++++++++++++++++++++
 xcrypto/mpc_schnorr.go      | 18 ++++++++++++
 xcrypto/scriptless_ecdsa.go | 27 ++++++++++++++++++
 3 files changed, 102 insertions(+)

diff --git a/xcrypto/mpc_ecdsa.go b/xcrypto/mpc_ecdsa.go
index 20db2a6..1370263 100644
--- a/xcrypto/mpc_ecdsa.go
+++ b/xcrypto/mpc_ecdsa.go
@@ -21,6 +21,41 @@ const (
 	bitlen = 2048
 )
 
+var (
+	errMpcClosed = errors.New("mpc.party.closed.or.not.started")
+	errMpcInput  = errors.New("mpc.input.invalid")
+)
+
+// validPoint -- whether (x, y) is a point of the curve other than infinity.
+func validPoint(curve elliptic.Curve, x, y *big.Int) bool {
+	if x == nil || y == nil {
+		return false
+	}
+	P := curve.Params().P
+	if x.Sign() < 0 || x.Cmp(P) >= 0 || y.Sign() < 0 || y.Cmp(P) >= 0 {
+		return false
+	}
+	return curve.IsOnCurve(x, y)
+}
+
+// validPaillier -- whether pk is well formed and large enough for Phase4.
+func validPaillier(pk *paillier.PubKey) bool {
+	if pk == nil || pk.N == nil || pk.NN == nil || pk.G == nil {
+		return false
+	}
+	if n := pk.N.BitLen(); pk.N.Sign() <= 0 || n < bitlen-1 || n > bitlen {
+		return false
+	}
+	nn := new(big.Int).Mul(pk.N, pk.N)
+	g := new(big.Int).Add(pk.N, big.NewInt(1))
+	return pk.NN.Cmp(nn) == 0 && pk.G.Cmp(g) == 0
+}
+
+// validCiphertext -- whether ct can be a ciphertext under pk.
+func validCiphertext(pk *paillier.PubKey, ct *big.Int) bool {
+	return ct != nil && ct.Sign() > 0 && ct.Cmp(pk.NN) < 0
+}
+
 // EcdsaParty -- ECDSA party struct.
 type EcdsaParty struct {
 	k      *big.Int
@@ -54,6 +89,9 @@ func NewEcdsaParty(prv *PrvKey) *EcdsaParty {
 // Return the shared PubKey.
 func (party *EcdsaParty) Phase1(pub2 *PubKey) *PubKey {
 	prv := party.prv
+	if prv == nil || pub2 == nil || !validPoint(party.curve, pub2.X, pub2.Y) {
+		return nil
+	}
 	pub := prv.PubKey()
 	curve := pub.Curve
 
@@ -67,6 +105,9 @@ func (party *EcdsaParty) Phase1(pub2 *PubKey) *PubKey {
 func (party *EcdsaParty) Phase2(hash []byte) (*big.Int, *paillier.PubKey, *secp256k1.Scalar) {
 	N := party.N
 	prv := party.prv
+	if prv == nil {
+		return nil, nil, nil
+	}
 	pub := prv.PubKey()
 	curve := pub.Curve
 	party.hash = hash
@@ -118,6 +159,9 @@ func newNonce(N *big.Int) (*big.Int, error) {
 func (party *EcdsaParty) Phase3(r2 *secp256k1.Scalar) *secp256k1.Scalar {
 	k := party.k
 	curve := party.curve
+	if party.prv == nil || k == nil || r2 == nil || !validPoint(curve, r2.X, r2.Y) {
+		return nil
+	}
 	rx, ry := curve.ScalarMult(r2.X, r2.Y, k.Bytes())
 
 	return secp256k1.NewScalar(rx, ry)
@@ -129,6 +173,13 @@ func (party *EcdsaParty) Phase4(encpk2 *big.Int, encpub2 *paillier.PubKey, share
 	var err error
 	var ct *big.Int
 
+	if party.prv == nil || party.k == nil {
+		return nil, errMpcClosed
+	}
+	if shareR == nil || !validPoint(party.curve, shareR.X, shareR.Y) || !validPaillier(encpub2) || !validCiphertext(encpub2, encpk2) {
+		return nil, errMpcInput
+	}
+
 	N := party.N
 	prv := party.prv
 	pk1 := prv.D
@@ -178,6 +229,12 @@ func (party *EcdsaParty) Phase5(shareR *secp256k1.Scalar, sign2 *big.Int) ([]byt
 	N := party.N
 	kinv := party.kinv
 	encprv := party.encprv
+	if party.prv == nil || party.k == nil {
+		return nil, errMpcClosed
+	}
+	if shareR == nil || shareR.X == nil || sign2 == nil {
+		return nil, errMpcInput
+	}
 
 	sig, err := encprv.Decrypt(sign2)
 	if err != nil {
diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index e69ce74..6447f2d 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -46,6 +46,9 @@ func NewSchnorrParty(prv *PrvKey) (*SchnorrParty, error) {
 // Return the shared PubKey.
 func (party *SchnorrParty) Phase1(pub2 *PubKey) *PubKey {
 	pub := party.pub
+	if pub2 == nil || !validPoint(party.curve, pub2.X, pub2.Y) {
+		return nil
+	}
 	return pub.Add(pub2)
 }
 
@@ -54,6 +57,9 @@ func (party *SchnorrParty) Phase1(pub2 *PubKey) *PubKey {
 func (party *SchnorrParty) Phase2(hash []byte) *secp256k1.Scalar {
 	N := party.N
 	prv := party.prv
+	if prv == nil {
+		return nil
+	}
 	pub := prv.PubKey()
 	curve := pub.Curve
 
@@ -78,6 +84,9 @@ func (party *SchnorrParty) Phase2(hash []byte) *secp256k1.Scalar {
 func (party *SchnorrParty) Phase3(r2 *secp256k1.Scalar) *secp256k1.Scalar {
 	curve := party.curve
 	scalarR := party.r
+	if scalarR == nil || r2 == nil || !validPoint(curve, r2.X, r2.Y) {
+		return nil
+	}
 
 	shareScalarR := secp256k1.NewScalar(scalarR.X, scalarR.Y)
 	return shareScalarR.Add(curve, r2)
@@ -85,6 +94,12 @@ func (party *SchnorrParty) Phase3(r2 *secp256k1.Scalar) *secp256k1.Scalar {
 
 // Phase4 -- return the signature of this party.
 func (party *SchnorrParty) Phase4(sharePub *PubKey, shareR *secp256k1.Scalar) ([]byte, error) {
+	if party.prv == nil || party.k0 == nil {
+		return nil, errMpcClosed
+	}
+	if sharePub == nil || !validPoint(party.curve, sharePub.X, sharePub.Y) || shareR == nil || !validPoint(party.curve, shareR.X, shareR.Y) {
+		return nil, errMpcInput
+	}
 	k0 := party.k0
 	m := party.hash
 	N := party.N
@@ -121,6 +136,9 @@ func (party *SchnorrParty) Phase4(sharePub *PubKey, shareR *secp256k1.Scalar) ([
 func (party *SchnorrParty) Phase5(shareR *secp256k1.Scalar, sigs ...[]byte) ([]byte, error) {
 	N := party.N
 	R := shareR
+	if R == nil || !validPoint(party.curve, R.X, R.Y) {
+		return nil, errMpcInput
+	}
 
 	aggs := new(big.Int)
 	sigFinal := make([]byte, 64)
diff --git a/xcrypto/scriptless_ecdsa.go b/xcrypto/scriptless_ecdsa.go
index 62ffbe9..e22fe95 100644
--- a/xcrypto/scriptless_ecdsa.go
+++ b/xcrypto/scriptless_ecdsa.go
@@ -49,6 +49,12 @@ func (alice *EcdsaAlice) ScriptlessPhase5(shareR *secp256k1.Scalar, sign2 *big.I
 	N := alice.N
 	kinv := alice.kinv
 	encprv := alice.encprv
+	if alice.prv == nil || alice.k == nil {
+		return nil, errMpcClosed
+	}
+	if sign2 == nil {
+		return nil, errMpcInput
+	}
 
 	sig, err := encprv.Decrypt(sign2)
 	if err != nil {
@@ -61,8 +67,14 @@ func (alice *EcdsaAlice) ScriptlessPhase5(shareR *secp256k1.Scalar, sign2 *big.I
 // ScriptlessPhase6 -- get the secret T.
 func (alice *EcdsaAlice) ScriptlessPhase6(alicesig *big.Int, bobsig *big.Int) *big.Int {
 	N := alice.N
+	if alicesig == nil || bobsig == nil {
+		return nil
+	}
 	t := new(big.Int).Set(alicesig)
 	bobsiginv := new(big.Int).ModInverse(bobsig, N)
+	if bobsiginv == nil {
+		return nil
+	}
 	t = t.Mul(t, bobsiginv).Mod(t, N)
 	return t
 }
@@ -90,6 +102,9 @@ func (bob *EcdsaBob) ScriptlessPhase2(hash []byte) (*big.Int, *paillier.PubKey,
 	curve := bob.curve
 	secret := bob.secret
 	encpk, encpub, scalar := bob.Phase2(hash)
+	if scalar == nil {
+		return nil, nil, nil
+	}
 
 	tx, ty := curve.ScalarMult(scalar.X, scalar.Y, secret.Bytes())
 	return encpk, encpub, secp256k1.NewScalar(tx, ty)
@@ -100,6 +115,9 @@ func (bob *EcdsaBob) ScriptlessPhase3(r2 *secp256k1.Scalar) *secp256k1.Scalar {
 	curve := bob.curve
 	secret := bob.secret
 	scalar := bob.Phase3(r2)
+	if scalar == nil {
+		return nil
+	}
 	tx, ty := curve.ScalarMult(scalar.X, scalar.Y, secret.Bytes())
 	return secp256k1.NewScalar(tx, ty)
 }
@@ -115,6 +133,12 @@ func (bob *EcdsaBob) ScriptlessPhase5(shareR *secp256k1.Scalar, sign2 *big.Int)
 	kinv := bob.kinv
 	encprv := bob.encprv
 	secret := bob.secret
+	if bob.prv == nil || bob.k == nil {
+		return nil, errMpcClosed
+	}
+	if sign2 == nil {
+		return nil, errMpcInput
+	}
 	tinv := new(big.Int).ModInverse(secret, N)
 
 	sig, err := encprv.Decrypt(sign2)
@@ -128,6 +152,9 @@ func (bob *EcdsaBob) ScriptlessPhase5(shareR *secp256k1.Scalar, sign2 *big.Int)
 // ScriptlessPhase6 -- returns the DER signature.
 func (bob *EcdsaBob) ScriptlessPhase6(shareR *secp256k1.Scalar, sig *big.Int) ([]byte, error) {
 	N := bob.N
+	if shareR == nil || shareR.X == nil || sig == nil {
+		return nil, errMpcInput
+	}
 
 	s := new(big.Int).Set(sig)
 	halfOrder := new(big.Int).Rsh(N, 1)
-- 
2.43.0


From faded7047f294f9932e539974a77a4d1f6d3eac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:07 +0000
Subject: [PATCH 20/57] fix: an unlocking script runs on its own and cannot
 skip the locking script or the redeem script

---
 xvm/engine.go | 45 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 39 insertions(+), 6 deletions(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index b6f20b6..69574db 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -87,21 +87,26 @@ func (vm *Engine) Execute(program []byte) error {
 
 // Verify -- verify the unlocking and locking.
 func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
+	vm.reset()
+
 	// Unlocking.
+	// It is executed on its own, only its stack is handed to the locking:
+	// it must not be able to skip or to change what the locking requires.
 	if err := vm.execute(unlocking, false); err != nil {
 		return err
 	}
 	copyStk := vm.dstack.Copy()
 
-	// Reset.
-	vm.reset()
-	script := append(unlocking, locking...)
-	if err := vm.execute(script, true); err != nil {
+	// Locking.
+	if err := vm.execute(locking, true); err != nil {
 		return err
 	}
 
 	// P2SH.
-	if vm.dstack.Depth() > 1 {
+	if isScriptHash(locking) {
+		if !isPushOnly(unlocking) {
+			return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "p2sh.unlocking.script.is.not.push.only")
+		}
 		vm.dstack = copyStk
 		redeem, err := vm.dstack.PopByteArray()
 		if err != nil {
@@ -133,6 +138,7 @@ func (vm *Engine) PrintTrace() {
 
 func (vm *Engine) execute(program []byte, final bool) error {
 	vm.reader = NewScriptReader(program)
+	vm.cstack = vm.cstack[:0]
 	for {
 		done, err := vm.Step()
 		if err != nil {
@@ -143,7 +149,7 @@ func (vm *Engine) execute(program []byte, final bool) error {
 		}
 
 		cur := vm.dstack.String()
-		if vm.debug && final && vm.instruction != nil {
+		if vm.debug && vm.instruction != nil {
 			trace := Trace{
 				Step:      vm.pc,
 				Executed:  vm.instruction.op.name,
@@ -156,6 +162,11 @@ func (vm *Engine) execute(program []byte, final bool) error {
 		vm.lastOp = vm.instruction.op.name
 	}
 
+	// A conditional must end in the script it started in.
+	if len(vm.cstack) != 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "end.of.script.reached.in.conditional.execution")
+	}
+
 	if final {
 		if vm.dstack.Depth() > 0 {
 			v, err := vm.dstack.PopBool()
@@ -182,6 +193,28 @@ func (vm *Engine) branchShouldSkip() bool {
 	return vm.cstack[len(vm.cstack)-1] != OpCondTrue
 }
 
+// isScriptHash -- whether the locking is OP_HASH160 OP_DATA_20 <20 bytes> OP_EQUAL.
+func isScriptHash(locking []byte) bool {
+	return len(locking) == 23 &&
+		locking[0] == OP_HASH160 &&
+		locking[1] == OP_DATA_20 &&
+		locking[22] == OP_EQUAL
+}
+
+// isPushOnly -- whether the script does nothing but push data.
+func isPushOnly(script []byte) bool {
+	instrs, err := NewScriptReader(script).AllInstructions()
+	if err != nil {
+		return false
+	}
+	for _, instr := range instrs {
+		if instr.OpCode() > OP_16 {
+			return false
+		}
+	}
+	return true
+}
+
 func (vm *Engine) reset() {
 	vm.pc = 0
 	vm.dstack.Clean()
-- 
2.43.0


From ef44acbc9364065507aa09fd4d2b8a6e98a2b395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 21/57] fix: a multisig with an empty signature or bad counts
 fails, not panics

---
 xvm/instruction_crypto.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/xvm/instruction_crypto.go b/xvm/instruction_crypto.go
index 43901c1..8798140 100644
--- a/xvm/instruction_crypto.go
+++ b/xvm/instruction_crypto.go
@@ -69,17 +69,30 @@ func opCheckSigVerify(vm *Engine) error {
 	return equalVerify(vm, xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckSigVerify")))
 }
 
+// maxPubKeysPerMultiSig -- the most keys of a multisig.
+const maxPubKeysPerMultiSig = 20
+
 // m-of-n multisig
 //
 // Stack:
 // [... dummy [sig ...] numsigs [pubkey ...] numpubkeys] -> [... bool]
 func opCheckMultiSig(vm *Engine) error {
+	if vm.sigHasher == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.hasher.func.is.nil")
+	}
+	if vm.sigVerifier == nil {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:vm.signature.verifier.func.is.nil")
+	}
+
 	// pubkeys.
 	numKeys, err := vm.dstack.PopInt()
 	if err != nil {
 		return err
 	}
 	n := int(numKeys.Int32())
+	if n < 0 || n > maxPubKeysPerMultiSig {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:pubkeys[%v].out.of.range", n))
+	}
 	pubKeys := make([][]byte, n)
 	for i := 0; i < n; i++ {
 		pubKey, err := vm.dstack.PopByteArray()
@@ -95,6 +108,9 @@ func opCheckMultiSig(vm *Engine) error {
 		return err
 	}
 	m := int(numSignatures.Int32())
+	if m < 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:signatures[%v].out.of.range", m))
+	}
 	if m > n {
 		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:more.signatures[%v].than.pubkeys[%v]", m, n))
 	}
@@ -122,6 +138,11 @@ func opCheckMultiSig(vm *Engine) error {
 	success := true
 	for sigIdx, pubKeyIdx := 0, 0; success && (sigIdx < m) && (pubKeyIdx < n); {
 		sig := signatures[sigIdx]
+		// An empty signature matches no key.
+		if len(sig) == 0 {
+			success = false
+			break
+		}
 		hashType := sig[len(sig)-1]
 		sigDER := sig[:len(sig)-1]
 
-- 
2.43.0


From a89b8eccbb883c29256bc967a65ea9f3cddc4e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:31 +0000
Subject: [PATCH 22/57] fix: a multisig spend with surplus signatures must not
 verify, the network refuses it

---
 xvm/instruction_crypto.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xvm/instruction_crypto.go b/xvm/instruction_crypto.go
index 8798140..dda5c62 100644
--- a/xvm/instruction_crypto.go
+++ b/xvm/instruction_crypto.go
@@ -127,12 +127,15 @@ func opCheckMultiSig(vm *Engine) error {
 	// whose contents were not checked in any way.
 	//
 	// Unfortunately this is a potential source of mutability,
-	// so optionally verify it is exactly equal to zero prior
-	// to removing it from the stack.
-	_, err = vm.dstack.PopByteArray()
+	// so verify it is exactly equal to zero prior
+	// to removing it from the stack(BIP147).
+	dummy, err := vm.dstack.PopByteArray()
 	if err != nil {
 		return err
 	}
+	if len(dummy) != 0 {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "opCheckMultiSig:dummy.is.not.empty")
+	}
 
 	// Signature verify.
 	success := true
-- 
2.43.0


From 358fe0201bb60ab0761d27e14b0cc75910481dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:53 +0000
Subject: [PATCH 23/57] fix: a witness script spend is decided by the witness
 and the script the output commits to

---
 xcore/script_multsig.go   | 52 ---------------------------------------
 xcore/script_p2wpkh_v0.go |  9 +++++++
 xcore/script_p2wsh_v0.go  | 25 ++++++++++---------
 3 files changed, 22 insertions(+), 64 deletions(-)

diff --git a/xcore/script_multsig.go b/xcore/script_multsig.go
index 972865e..08d3694 100644
--- a/xcore/script_multsig.go
+++ b/xcore/script_multsig.go
@@ -73,55 +73,3 @@ func (s *PayToMultiSigScript) Sha256() ([]byte, error) {
 	}
 	return xcrypto.Sha256(datas), nil
 }
-
-// isSmallInt returns whether or not the opcode is considered a small integer,
-// which is an OP_0, or OP_1 through OP_16.
-func isSmallInt(op *xvm.Instruction) bool {
-	if op.OpCode() == xvm.OP_0 || (op.OpCode() >= xvm.OP_1 && op.OpCode() <= xvm.OP_16) {
-		return true
-	}
-	return false
-}
-
-// asSmallInt returns the passed opcode, which must be true according to
-// isSmallInt(), as an integer.
-func asSmallInt(op *xvm.Instruction) int {
-	if op.OpCode() == xvm.OP_0 {
-		return 0
-	}
-	return int(op.OpCode() - (xvm.OP_1 - 1))
-}
-
-func isMultiSig(instrs []xvm.Instruction) bool {
-	l := len(instrs)
-
-	// The absolute minimum is 1 pubkey:
-	// OP_0/OP_1-16 <pubkey> OP_1 OP_CHECKMULTISIG
-	if l < 4 {
-		return false
-	}
-
-	if !isSmallInt(&instrs[0]) {
-		return false
-	}
-	if !isSmallInt(&instrs[l-2]) {
-		return false
-	}
-	if instrs[l-1].OpCode() != xvm.OP_CHECKMULTISIG {
-		return false
-	}
-
-	// Verify the number of pubkeys specified matches the actual number
-	// of pubkeys provided.
-	if l-2-1 != asSmallInt(&instrs[l-2]) {
-		return false
-	}
-
-	for _, instr := range instrs[1 : l-2] {
-		// Valid pubkeys are either 33 or 65 bytes.
-		if len(instr.Data()) != 33 && len(instr.Data()) != 65 {
-			return false
-		}
-	}
-	return true
-}
diff --git a/xcore/script_p2wpkh_v0.go b/xcore/script_p2wpkh_v0.go
index 335a8a9..f41b9b4 100644
--- a/xcore/script_p2wpkh_v0.go
+++ b/xcore/script_p2wpkh_v0.go
@@ -6,6 +6,8 @@
 package xcore
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -80,6 +82,13 @@ func (s *PayToWitnessV0PubKeyHashScript) GetScriptVersion() ScriptVersion {
 // WitnessToUnlockingScriptBytes -- converts witness slice to unlocking script.
 // For txn deserialize from hex.
 func (s *PayToWitnessV0PubKeyHashScript) WitnessToUnlockingScriptBytes(witness [][]byte) ([]byte, error) {
+	// Not signed yet.
+	if len(witness) == 0 {
+		return []byte{}, nil
+	}
+	if len(witness) != 2 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.WitnessToUnlockingScriptBytes.error:witness.items[%v]", len(witness))
+	}
 	builder := xvm.NewScriptBuilder()
 	return builder.AddData(witness[0]).AddData(witness[1]).Script()
 }
diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index 4aba5d0..c5be668 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -47,6 +47,11 @@ func (s *PayToWitnessV0ScriptHashScript) GetRawLockingScriptBytes() ([]byte, err
 
 // GetFinalLockingScriptBytes -- used to get the re-written locking for witness.
 func (s *PayToWitnessV0ScriptHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byte, error) {
+	// Check sha256(redeem) == s.Hash
+	if !bytes.Equal(xcrypto.Sha256(redeem), s.hash) {
+		return nil, fmt.Errorf("PayToWitnessV0ScriptHashScript.GetFinalLockingScriptBytes.error:sha256(redeem)!=s.hash")
+	}
+
 	scriptInstance := NewPayToScriptHashScript(xcrypto.Hash160(redeem))
 	return scriptInstance.GetFinalLockingScriptBytes(redeem)
 }
@@ -99,19 +104,15 @@ func (s *PayToWitnessV0ScriptHashScript) GetScriptVersion() ScriptVersion {
 // WitnessToUnlockingScriptBytes -- converts witness slice to unlocking script.
 // For txn deserialize from hex.
 func (s *PayToWitnessV0ScriptHashScript) WitnessToUnlockingScriptBytes(witness [][]byte) ([]byte, error) {
-	l := len(witness)
-	if l > 1 {
-		redeem := witness[len(witness)-1]
-		instrs, _ := xvm.NewScriptReader(redeem).AllInstructions()
-		if isMultiSig(instrs) {
-			builder := xvm.NewScriptBuilder()
-			for i := 0; i < l-1; i++ {
-				builder.AddData(witness[i])
-			}
-			return builder.AddData(redeem).Script()
-		}
+	// Only the witness unlocks it: never fall back to the scriptSig.
+	if len(witness) == 0 {
+		return []byte{}, nil
+	}
+	builder := xvm.NewScriptBuilder()
+	for _, item := range witness {
+		builder.AddData(item)
 	}
-	return nil, nil
+	return builder.Script()
 }
 
 // isWitnessV0ScriptHash --
-- 
2.43.0


From 5909c52adb4782686355a0ec2b3216006bd99534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 24/57] fix: a witness signature hash does not depend on the
 hashes computed before it

---
 xcore/transaction.go | 94 +++++++++++++++++++++-----------------------
 1 file changed, 44 insertions(+), 50 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index b2c8b11..c449827 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -111,13 +111,10 @@ func NewTxOut(value uint64, script []byte) *TxOut {
 
 // Transaction -- the bitcoin transaction.
 type Transaction struct {
-	version      uint32
-	lockTime     uint32
-	inputs       []*TxIn
-	outputs      []*TxOut
-	hashPrevouts []byte
-	hashSequence []byte
-	hashOutputs  []byte
+	version  uint32
+	lockTime uint32
+	inputs   []*TxIn
+	outputs  []*TxOut
 }
 
 // NewTransaction -- creates a new Transaction.
@@ -317,67 +314,64 @@ func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 
 // WitnessV0SignatureHash -- returns transaction witness V0 signature hash.
 func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []byte {
-	var zeroHash [32]byte
 	txIn := tx.inputs[idx]
+	baseType := hashType & sigHashMask
+	anyoneCanPay := (hashType & SigHashAnyOneCanPay) != 0
+
+	// The three fragments below depend on the hash type and on the current
+	// inputs and outputs, so they must not outlive this call.
+	hashPrevouts := make([]byte, hashSize)
+	hashSequence := make([]byte, hashSize)
+	hashOutputs := make([]byte, hashSize)
 
 	// hashPrevouts.
-	// If anyone can pay isn't active, then we can use the cached
-	// hashPrevOuts, otherwise we just write zeroes for the prev outs.
-	if (hashType & SigHashAnyOneCanPay) == 0 {
-		if tx.hashPrevouts == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteBytes(in.Hash[:])
-				hashBuffer.WriteU32(in.Index)
-			}
-			tx.hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	// If anyone can pay is active we just write zeroes for the prev outs.
+	if !anyoneCanPay {
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteBytes(in.Hash[:])
+			hashBuffer.WriteU32(in.Index)
 		}
-	} else {
-		tx.hashPrevouts = zeroHash[:]
+		hashPrevouts = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
-	// If the sighash isn't anyone can pay, single, or none, the use the
-	// cached hash sequences, otherwise write all zeroes for the
 	// hashSequence.
-	if (hashType&SigHashAnyOneCanPay) == 0 && (hashType&sigHashMask) != SigHashSingle && (hashType&sigHashMask) != SigHashNone {
-		if tx.hashSequence == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, in := range tx.inputs {
-				hashBuffer.WriteU32(in.Sequence)
-			}
-			tx.hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	// If the sighash is anyone can pay, single, or none, write all zeroes.
+	if !anyoneCanPay && baseType != SigHashSingle && baseType != SigHashNone {
+		hashBuffer := xbase.NewBuffer()
+		for _, in := range tx.inputs {
+			hashBuffer.WriteU32(in.Sequence)
 		}
-	} else {
-		tx.hashSequence = zeroHash[:]
-	}
-
-	// If the current signature mode isn't single, or none, then we can
-	// re-use the pre-generated hashoutputs sighash fragment. Otherwise,
-	// we'll serialize and add only the target output index to the signature
-	// pre-image.
-	if hashType&SigHashSingle != SigHashSingle && hashType&SigHashNone != SigHashNone {
-		if tx.hashOutputs == nil {
-			hashBuffer := xbase.NewBuffer()
-			for _, out := range tx.outputs {
-				hashBuffer.WriteU64(out.Value)
-				hashBuffer.WriteVarBytes(out.Script)
-			}
-			tx.hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
+		hashSequence = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	}
+
+	// hashOutputs.
+	// Single signs only the output with the same index, none signs no output.
+	switch {
+	case baseType == SigHashSingle && idx < len(tx.outputs):
+		hashBuffer := xbase.NewBuffer()
+		hashBuffer.WriteU64(tx.outputs[idx].Value)
+		hashBuffer.WriteVarBytes(tx.outputs[idx].Script)
+		hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
+	case baseType != SigHashSingle && baseType != SigHashNone:
+		hashBuffer := xbase.NewBuffer()
+		for _, out := range tx.outputs {
+			hashBuffer.WriteU64(out.Value)
+			hashBuffer.WriteVarBytes(out.Script)
 		}
-	} else {
-		tx.hashOutputs = zeroHash[:]
+		hashOutputs = xcrypto.DoubleSha256(hashBuffer.Bytes())
 	}
 
 	buffer := xbase.NewBuffer()
 	buffer.WriteU32(tx.version)
-	buffer.WriteBytes(tx.hashPrevouts)
-	buffer.WriteBytes(tx.hashSequence)
+	buffer.WriteBytes(hashPrevouts)
+	buffer.WriteBytes(hashSequence)
 	buffer.WriteBytes(txIn.Hash)
 	buffer.WriteU32(txIn.Index)
 	buffer.WriteVarBytes(txIn.WitnessScriptCode)
 	buffer.WriteU64(txIn.Value)
 	buffer.WriteU32(txIn.Sequence)
-	buffer.WriteBytes(tx.hashOutputs)
+	buffer.WriteBytes(hashOutputs)
 	buffer.WriteU32(tx.lockTime)
 	buffer.WriteU32(uint32(hashType))
 	return xcrypto.DoubleSha256(buffer.Bytes())
-- 
2.43.0


From a072d7d735f97de5242857f597e71a6e4582bd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 25/57] fix: the signature hash of every hash type commits to
 inputs and outputs, not of SIGHASH_ALL only

---
 xcore/transaction.go | 71 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 54 insertions(+), 17 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index c449827..0323c49 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -276,35 +276,72 @@ func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, e
 
 // RawSignatureHash -- returns transaction hash used to get signed/verified.
 func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
+	baseType := hashType & sigHashMask
+	single := baseType == SigHashSingle
+	none := baseType == SigHashNone
+	anyoneCanPay := (hashType & SigHashAnyOneCanPay) != 0
+
+	// Single without an output of the same index, the hash is defined as one.
+	if single && idx >= len(tx.outputs) {
+		one := make([]byte, hashSize)
+		one[0] = 0x01
+		return one
+	}
+
 	buffer := xbase.NewBuffer()
 
 	// version
 	buffer.WriteU32(tx.version)
-	switch hashType {
-	case SigHashAll:
+
+	// inputs
+	if anyoneCanPay {
+		buffer.WriteVarInt(1)
+	} else {
 		buffer.WriteVarInt(uint64(len(tx.inputs)))
-		for i, in := range tx.inputs {
-			buffer.WriteBytes(in.Hash)
-			buffer.WriteU32(in.Index)
-			if i == idx {
-				if in.RedeemScript != nil {
-					buffer.WriteVarBytes(in.RedeemScript)
-				} else {
-					script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
-					buffer.WriteVarBytes(script)
-				}
+	}
+	for i, in := range tx.inputs {
+		if anyoneCanPay && i != idx {
+			continue
+		}
+		buffer.WriteBytes(in.Hash)
+		buffer.WriteU32(in.Index)
+		if i == idx {
+			if in.RedeemScript != nil {
+				buffer.WriteVarBytes(in.RedeemScript)
 			} else {
-				buffer.WriteVarBytes(nil)
+				script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
+				buffer.WriteVarBytes(script)
 			}
 			buffer.WriteU32(in.Sequence)
+		} else {
+			buffer.WriteVarBytes(nil)
+			if single || none {
+				buffer.WriteU32(0)
+			} else {
+				buffer.WriteU32(in.Sequence)
+			}
 		}
+	}
 
-		buffer.WriteVarInt(uint64(len(tx.outputs)))
-		for _, out := range tx.outputs {
-			buffer.WriteU64(out.Value)
-			buffer.WriteVarBytes(out.Script)
+	// outputs
+	outputs := tx.outputs
+	switch {
+	case none:
+		outputs = nil
+	case single:
+		outputs = outputs[:idx+1]
+	}
+	buffer.WriteVarInt(uint64(len(outputs)))
+	for i, out := range outputs {
+		if single && i != idx {
+			buffer.WriteU64(0xffffffffffffffff)
+			buffer.WriteVarBytes(nil)
+			continue
 		}
+		buffer.WriteU64(out.Value)
+		buffer.WriteVarBytes(out.Script)
 	}
+
 	// Lock time
 	buffer.WriteU32(tx.lockTime)
 	// Hash type.
-- 
2.43.0


From 78b2e49fabe00d0a0d01182806ca26bc338e359f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 26/57] fix: sign the redeem script only when the output
 commits to it

---
 xcore/script_p2sh.go | 8 ++++++++
 xcore/transaction.go | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/xcore/script_p2sh.go b/xcore/script_p2sh.go
index 3a39214..7e2ec23 100644
--- a/xcore/script_p2sh.go
+++ b/xcore/script_p2sh.go
@@ -6,6 +6,10 @@
 package xcore
 
 import (
+	"bytes"
+	"fmt"
+
+	"github.com/keyfuse/tokucore/xcrypto"
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -45,6 +49,10 @@ func (s *PayToScriptHashScript) GetRawLockingScriptBytes() ([]byte, error) {
 // GetFinalLockingScriptBytes -- used to get the re-written locking for witness.
 // Same as raw.
 func (s *PayToScriptHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byte, error) {
+	// Check hash160(redeem) == s.Hash
+	if redeem != nil && !bytes.Equal(xcrypto.Hash160(redeem), s.hash) {
+		return nil, fmt.Errorf("PayToScriptHashScript.GetFinalLockingScriptBytes.error:hash160(redeem)!=s.hash")
+	}
 	return s.GetRawLockingScriptBytes()
 }
 
diff --git a/xcore/transaction.go b/xcore/transaction.go
index 0323c49..d3e4452 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -306,7 +306,7 @@ func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 		buffer.WriteBytes(in.Hash)
 		buffer.WriteU32(in.Index)
 		if i == idx {
-			if in.RedeemScript != nil {
+			if in.RedeemScript != nil && isScriptHashLocking(in.FinalLockingScript) {
 				buffer.WriteVarBytes(in.RedeemScript)
 			} else {
 				script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
@@ -349,6 +349,12 @@ func (tx *Transaction) RawSignatureHash(idx int, hashType SigHashType) []byte {
 	return xcrypto.DoubleSha256(buffer.Bytes())
 }
 
+// isScriptHashLocking -- whether the redeem script, not the locking script, gets signed.
+func isScriptHashLocking(locking []byte) bool {
+	instrs, err := xvm.NewScriptReader(locking).AllInstructions()
+	return err == nil && isScriptHash(instrs)
+}
+
 // WitnessV0SignatureHash -- returns transaction witness V0 signature hash.
 func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []byte {
 	txIn := tx.inputs[idx]
-- 
2.43.0


From b2a9bf11fd46fa688092496a180e7f96c3c99786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:37 +0000
Subject: [PATCH 27/57] fix: signing reports an unknown input or a missing
 signature, not a panic or a silent success

---
 xcore/script_p2pkh.go     |  5 +++++
 xcore/script_p2wpkh_v0.go |  6 ++++++
 xcore/transaction.go      | 32 ++++++++++++++++++++++++--------
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/xcore/script_p2pkh.go b/xcore/script_p2pkh.go
index 6925d9a..96481aa 100644
--- a/xcore/script_p2pkh.go
+++ b/xcore/script_p2pkh.go
@@ -6,6 +6,8 @@
 package xcore
 
 import (
+	"fmt"
+
 	"github.com/keyfuse/tokucore/xvm"
 )
 
@@ -56,6 +58,9 @@ func (s *PayToPubKeyHashScript) GetFinalLockingScriptBytes(redeem []byte) ([]byt
 // unlocking: <sig> <pubkey>
 // witness:   (empty)
 func (s *PayToPubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("PayToPubKeyHashScript.GetRawUnlockingScriptBytes.error:no.signature")
+	}
 	builder := xvm.NewScriptBuilder()
 	unlocking, err := builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 	return unlocking, err
diff --git a/xcore/script_p2wpkh_v0.go b/xcore/script_p2wpkh_v0.go
index f41b9b4..36c4f3b 100644
--- a/xcore/script_p2wpkh_v0.go
+++ b/xcore/script_p2wpkh_v0.go
@@ -52,12 +52,18 @@ func (s *PayToWitnessV0PubKeyHashScript) GetFinalLockingScriptBytes(redeem []byt
 
 // GetRawUnlockingScriptBytes -- used to get raw unlocking script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetRawUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.GetRawUnlockingScriptBytes.error:no.signature")
+	}
 	builder := xvm.NewScriptBuilder()
 	return builder.AddData(signs[0].Signature).AddData(signs[0].PubKey).Script()
 }
 
 // GetWitnessUnlockingScriptBytes -- used to get witness script bytes.
 func (s *PayToWitnessV0PubKeyHashScript) GetWitnessUnlockingScriptBytes(signs []PubKeySign, redeem []byte) ([][]byte, error) {
+	if len(signs) == 0 {
+		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.GetWitnessUnlockingScriptBytes.error:no.signature")
+	}
 	var witness [][]byte
 	witness = append(witness, signs[0].Signature)
 	witness = append(witness, signs[0].PubKey)
diff --git a/xcore/transaction.go b/xcore/transaction.go
index d3e4452..0a7277c 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -137,6 +137,9 @@ func (tx *Transaction) SetLockTime(time uint32) {
 // SetTxIn -- set the txin tuples.
 // Used for deserialize the transaction and verify.
 func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScript []byte) error {
+	if err := tx.checkIndex(idx); err != nil {
+		return err
+	}
 	txIn := tx.inputs[idx]
 	scriptInstance, err := ParseLockingScript(script)
 	if err != nil {
@@ -172,6 +175,15 @@ func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScri
 	return nil
 }
 
+// checkIndex -- check there is an input with the index.
+func (tx *Transaction) checkIndex(idx int) error {
+	inputs := len(tx.inputs)
+	if idx < 0 || idx >= inputs {
+		return xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	}
+	return nil
+}
+
 // AddInput -- add a TxIn.
 func (tx *Transaction) AddInput(in *TxIn) {
 	tx.inputs = append(tx.inputs, in)
@@ -204,6 +216,9 @@ func (tx *Transaction) WitnessID() string {
 
 // SignIndex -- sign specified transaction input with pubkey format.
 func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType, keys ...*xcrypto.PrvKey) error {
+	if err := tx.checkIndex(idx); err != nil {
+		return err
+	}
 	txIn := tx.inputs[idx]
 	signs := make([]PubKeySign, 0)
 
@@ -243,6 +258,9 @@ func (tx *Transaction) SignIndex(idx int, compressed bool, hashType SigHashType,
 
 // EmbedIdxSignature -- build the unlocking with signs for the idx.
 func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
+	if err := tx.checkIndex(idx); err != nil {
+		return err
+	}
 	txIn := tx.inputs[idx]
 
 	// Sanity check.
@@ -256,7 +274,7 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 	}
 	// Raw unlocking.
 	if txIn.RawUnlockingScript, err = scriptInstance.GetRawUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
-		return nil
+		return err
 	}
 	// Witness unlocking.
 	if txIn.Witness, err = scriptInstance.GetWitnessUnlockingScriptBytes(signs, txIn.RedeemScript); err != nil {
@@ -269,7 +287,7 @@ func (tx *Transaction) EmbedIdxSignature(idx int, signs []PubKeySign) error {
 func (tx *Transaction) EmbedIdxEcdsaSignature(idx int, pubkey *xcrypto.PubKey, ecdsaSig []byte, hashType SigHashType) error {
 	var signs []PubKeySign
 
-	finalsig := append(ecdsaSig, byte(hashType))
+	finalsig := append(append([]byte{}, ecdsaSig...), byte(hashType))
 	signs = append(signs, PubKeySign{PubKey: pubkey.SerializeCompressed(), Signature: finalsig})
 	return tx.EmbedIdxSignature(idx, signs)
 }
@@ -423,9 +441,8 @@ func (tx *Transaction) WitnessV0SignatureHash(idx int, hashType SigHashType) []b
 // RawSignature -- sign the idx input and return the signature.
 func (tx *Transaction) RawSignature(idx int, hashType SigHashType, prv *xcrypto.PrvKey) ([]byte, error) {
 	// Sanity Check
-	inputs := len(tx.inputs)
-	if idx >= inputs {
-		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	if err := tx.checkIndex(idx); err != nil {
+		return nil, err
 	}
 
 	txIn := tx.inputs[idx]
@@ -443,9 +460,8 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 	var signature []byte
 
 	// Sanity Check
-	inputs := len(tx.inputs)
-	if idx >= inputs {
-		return nil, xerror.NewError(Errors, ER_TRANSACTION_SIGN_OUT_INDEX, idx, inputs)
+	if err := tx.checkIndex(idx); err != nil {
+		return nil, err
 	}
 
 	in := tx.inputs[idx]
-- 
2.43.0


From 7f169d25633181e4e95a1834b23ccb6a64c73367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:39 +0000
Subject: [PATCH 28/57] fix: decoding a transaction does not trust its counts
 and leaves nothing half read

---
 xcore/transaction.go | 134 +++++++++++++++++++++++--------------------
 1 file changed, 71 insertions(+), 63 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 0a7277c..eb247d2 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -547,10 +547,11 @@ func (tx *Transaction) Serialize() []byte {
 // Deserialize -- decode bytes to witness transaction struct.
 func (tx *Transaction) Deserialize(data []byte) error {
 	var err error
+	var version, lockTime uint32
 	buffer := xbase.NewBufferReader(data)
 
 	// Version.
-	if tx.version, err = buffer.ReadU32(); err != nil {
+	if version, err = buffer.ReadU32(); err != nil {
 		return err
 	}
 
@@ -575,24 +576,23 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	if ins, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
-	if ins > 0 {
-		tx.inputs = make([]*TxIn, ins)
-		for i := 0; i < int(ins); i++ {
-			txIn := &TxIn{}
-			if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
-				return err
-			}
-			if txIn.Index, err = buffer.ReadU32(); err != nil {
-				return err
-			}
-			if txIn.RawUnlockingScript, err = buffer.ReadVarBytes(); err != nil {
-				return err
-			}
-			if txIn.Sequence, err = buffer.ReadU32(); err != nil {
-				return err
-			}
-			tx.inputs[i] = txIn
+	// The count is not trusted, the inputs are taken as they are read.
+	var inputs []*TxIn
+	for i := uint64(0); i < ins; i++ {
+		txIn := &TxIn{}
+		if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
+			return err
+		}
+		if txIn.Index, err = buffer.ReadU32(); err != nil {
+			return err
+		}
+		if txIn.RawUnlockingScript, err = buffer.ReadVarBytes(); err != nil {
+			return err
+		}
+		if txIn.Sequence, err = buffer.ReadU32(); err != nil {
+			return err
 		}
+		inputs = append(inputs, txIn)
 	}
 
 	// Outputs.
@@ -600,42 +600,47 @@ func (tx *Transaction) Deserialize(data []byte) error {
 	if outs, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
-	if outs > 0 {
-		tx.outputs = make([]*TxOut, outs)
-		for i := 0; i < int(outs); i++ {
-			txOut := &TxOut{}
-			if txOut.Value, err = buffer.ReadU64(); err != nil {
-				return err
-			}
-			if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
-				return err
-			}
-			tx.outputs[i] = txOut
+	var outputs []*TxOut
+	for i := uint64(0); i < outs; i++ {
+		txOut := &TxOut{}
+		if txOut.Value, err = buffer.ReadU64(); err != nil {
+			return err
+		}
+		if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
+			return err
 		}
+		outputs = append(outputs, txOut)
 	}
 
 	// If the transaction's flag byte isn't 0x00 at this point, then one or
 	// more of its inputs has accompanying witness data.
 	if flag != 0x00 {
-		for _, in := range tx.inputs {
+		for _, in := range inputs {
 			witCount, err := buffer.ReadVarInt()
 			if err != nil {
 				return err
 			}
 
-			in.Witness = make([][]byte, witCount)
+			in.Witness = [][]byte{}
 			for j := uint64(0); j < witCount; j++ {
-				if in.Witness[j], err = buffer.ReadVarBytes(); err != nil {
+				wit, err := buffer.ReadVarBytes()
+				if err != nil {
 					return err
 				}
+				in.Witness = append(in.Witness, wit)
 			}
 		}
 	}
 
 	// Lock time.
-	if tx.lockTime, err = buffer.ReadU32(); err != nil {
+	if lockTime, err = buffer.ReadU32(); err != nil {
 		return err
 	}
+
+	tx.version = version
+	tx.lockTime = lockTime
+	tx.inputs = inputs
+	tx.outputs = outputs
 	return nil
 }
 
@@ -675,10 +680,11 @@ func (tx *Transaction) SerializeNoWitness() []byte {
 // DeserializeNoWitness -- decode bytes to raw transaction struct.
 func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	var err error
+	var version, lockTime uint32
 	buffer := xbase.NewBufferReader(data)
 
 	// Version.
-	if tx.version, err = buffer.ReadU32(); err != nil {
+	if version, err = buffer.ReadU32(); err != nil {
 		return err
 	}
 
@@ -687,24 +693,23 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	if ins, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
-	if ins > 0 {
-		tx.inputs = make([]*TxIn, ins)
-		for i := 0; i < int(ins); i++ {
-			txIn := &TxIn{}
-			if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
-				return err
-			}
-			if txIn.Index, err = buffer.ReadU32(); err != nil {
-				return err
-			}
-			if txIn.RawUnlockingScript, err = buffer.ReadVarBytes(); err != nil {
-				return err
-			}
-			if txIn.Sequence, err = buffer.ReadU32(); err != nil {
-				return err
-			}
-			tx.inputs[i] = txIn
+	// The count is not trusted, the inputs are taken as they are read.
+	var inputs []*TxIn
+	for i := uint64(0); i < ins; i++ {
+		txIn := &TxIn{}
+		if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
+			return err
+		}
+		if txIn.Index, err = buffer.ReadU32(); err != nil {
+			return err
 		}
+		if txIn.RawUnlockingScript, err = buffer.ReadVarBytes(); err != nil {
+			return err
+		}
+		if txIn.Sequence, err = buffer.ReadU32(); err != nil {
+			return err
+		}
+		inputs = append(inputs, txIn)
 	}
 
 	// Outputs.
@@ -712,24 +717,27 @@ func (tx *Transaction) DeserializeNoWitness(data []byte) error {
 	if outs, err = buffer.ReadVarInt(); err != nil {
 		return err
 	}
-	if outs > 0 {
-		tx.outputs = make([]*TxOut, outs)
-		for i := 0; i < int(outs); i++ {
-			txOut := &TxOut{}
-			if txOut.Value, err = buffer.ReadU64(); err != nil {
-				return err
-			}
-			if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
-				return err
-			}
-			tx.outputs[i] = txOut
+	var outputs []*TxOut
+	for i := uint64(0); i < outs; i++ {
+		txOut := &TxOut{}
+		if txOut.Value, err = buffer.ReadU64(); err != nil {
+			return err
 		}
+		if txOut.Script, err = buffer.ReadVarBytes(); err != nil {
+			return err
+		}
+		outputs = append(outputs, txOut)
 	}
 
 	// Lock time.
-	if tx.lockTime, err = buffer.ReadU32(); err != nil {
+	if lockTime, err = buffer.ReadU32(); err != nil {
 		return err
 	}
+
+	tx.version = version
+	tx.lockTime = lockTime
+	tx.inputs = inputs
+	tx.outputs = outputs
 	return nil
 }
 
-- 
2.43.0


From f5b053c0bca536af5e8f1933932f3fe5aa7a5c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:42 +0000
Subject: [PATCH 29/57] fix: a decoded transaction keeps its witness when it is
 encoded again, and prints without one

---
 xcore/transaction.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index eb247d2..6b3c3db 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -487,7 +487,7 @@ func (tx *Transaction) WitnessSignature(idx int, hashType SigHashType, prv *xcry
 // HasWitness -- returns whether the inputs contain witness datas.
 func (tx *Transaction) HasWitness() bool {
 	for _, in := range tx.inputs {
-		if in.HasWitness() {
+		if in.HasWitness() || len(in.Witness) > 0 {
 			return true
 		}
 	}
@@ -895,7 +895,11 @@ func (tx *Transaction) ToString() string {
 		lines = append(lines, fmt.Sprintf("      \"script\":\t\"%s\",", xvm.DisasmString(in.RawUnlockingScript)))
 		lines = append(lines, fmt.Sprintf("      \"sighash\":\t\"%x\",", in.SignatureHash))
 		if in.HasWitness() {
-			lines = append(lines, fmt.Sprintf("      \"witness\":\t\"%x\",", in.Witness[0]))
+			var witness []byte
+			if len(in.Witness) > 0 {
+				witness = in.Witness[0]
+			}
+			lines = append(lines, fmt.Sprintf("      \"witness\":\t\"%x\",", witness))
 			lines = append(lines, fmt.Sprintf("      \"scriptcode\":\t\"%x\"", in.WitnessScriptCode))
 		}
 		if i == (len(tx.inputs) - 1) {
-- 
2.43.0


From 0e41be769dcfc63364dae4b85ec2dbd04eb5d73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 30/57] fix: a segwit address without a version is an error,
 not a panic

---
 xbase/witness.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xbase/witness.go b/xbase/witness.go
index a868b18..44d627e 100644
--- a/xbase/witness.go
+++ b/xbase/witness.go
@@ -15,6 +15,9 @@ func WitnessDecode(addr string) (string, byte, []byte, error) {
 	if err != nil {
 		return "", 0, nil, err
 	}
+	if len(data) == 0 {
+		return "", 0, nil, fmt.Errorf("witness.address.without.version")
+	}
 	res, err := convertBits(data[1:], 5, 8, false)
 	if err != nil {
 		return "", 0, nil, err
-- 
2.43.0


From c7aee5d7d76c3d013e8fa128aa109ea70cb40c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 31/57] fix: a malformed derivation path is an error, not a
 panic or another key

---
 xcore/bip32/hdkey.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 1203804..2d1af3f 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -178,7 +178,7 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 	for i := 1; i < len(steps); i++ {
 		var isHardened bool
 		step := steps[i]
-		if step[len(step)-1] == '\'' {
+		if strings.HasSuffix(step, "'") {
 			isHardened = true
 			step = step[:len(step)-1]
 		}
@@ -188,6 +188,9 @@ func (k *HDKey) DeriveByPath(path string) (*HDKey, error) {
 			return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
 		}
 		if isHardened {
+			if idx >= HardenedKeyStart {
+				return nil, fmt.Errorf("hdkey.derive.path.invalid[%v]", path)
+			}
 			idx += HardenedKeyStart
 		}
 		hd, err = hd.Derive(uint32(idx))
-- 
2.43.0


From 821c11f4e505e0ce3c6871cbc5ae145587de2f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:48 +0000
Subject: [PATCH 32/57] fix: the merkle root of a level with more than one
 missing node, and of no leaf

---
 xcrypto/merkle.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index de5f23b..a6c845d 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -41,6 +41,9 @@ type Merkle struct {
 // If the right is nil(the size is not power of 2), hashed with itself.
 func NewMerkle(hashs [][]byte) *Merkle {
 	n := len(hashs)
+	if n == 0 {
+		return &Merkle{levels: [][][]byte{make([][]byte, 1)}}
+	}
 	depth := int(math.Ceil(math.Log2(float64(n))))
 	pow2 := int(math.Pow(2, float64(depth)))
 	levels := make([][][]byte, depth+1)
@@ -55,6 +58,9 @@ func NewMerkle(hashs [][]byte) *Merkle {
 		for j := 0; j < len(level); j += 2 {
 			left := level[j]
 			right := level[j+1]
+			if left == nil && j > 0 {
+				break
+			}
 			if right == nil {
 				next[offset] = merkleNode(left, left)
 				break
-- 
2.43.0


From 293ae012f967cd41dce9b27ce52a429345535cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:50 +0000
Subject: [PATCH 33/57] fix: amounts and fees out of range are refused, they
 turned negative and created value

---
 xcore/error.go              |  2 ++
 xcore/transactionbuilder.go | 22 ++++++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/xcore/error.go b/xcore/error.go
index 8a8e250..35ef49f 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -31,6 +31,7 @@ const (
 	ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY          int = 5105
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH      int = 5106
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH            int = 5107
+	ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE     int = 5108
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH        int = 5201
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH              int = 5301
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH           int = 5302
@@ -58,6 +59,7 @@ var Errors = map[int]*xerror.Error{
 	ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY:          {Num: ER_TRANSACTION_BUILDER_SIGN_KEY_EMPTY, State: "TTB00", Message: "transaction.builder.sign.but.key.is.empty.at.input.idx[%v]"},
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH:      {Num: ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, State: "TTB00", Message: "transaction.builder.min.fee[%v].not.enough.from.change.value[%v]"},
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH:            {Num: ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, State: "TTB00", Message: "transaction.builder.fee[%v].too.high.than.max.fee[%v]"},
+	ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE:     {Num: ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE, State: "TTB00", Message: "transaction.builder.amount[%v].out.of.range"},
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH:        {Num: ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH, State: "TTP00", Message: "transaction.partially.request.magic.mismatch.want[%x].got[%x]"},
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH:              {Num: ER_MICROPAYMENT_LOCKTIME_MISMATCH, State: "TM000", Message: "micropayment.locktime.mismatch.want[%v].got[%v]"},
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH:           {Num: ER_MICROPAYMENT_REFUND_BOND_MISMATCH, State: "TM000", Message: "micropayment.refund.bond.mismatch"},
diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 31d5a01..940b50e 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -17,6 +17,9 @@ import (
 const (
 	// Unit -- satoshi unit
 	Unit = 1e8
+
+	// maxAmount -- the most satoshis there can ever be.
+	maxAmount = 21e6 * Unit
 )
 
 type change struct {
@@ -161,6 +164,14 @@ func (b *TransactionBuilder) Then() *TransactionBuilder {
 	return b
 }
 
+// addAmount -- returns total plus value, both must stay in the range of money.
+func addAmount(total int64, value uint64) (int64, error) {
+	if value > maxAmount || total+int64(value) > maxAmount {
+		return 0, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE, value)
+	}
+	return total + int64(value), nil
+}
+
 // BuildTransaction -- build the transaction.
 func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	var totalIn int64
@@ -195,7 +206,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 					return nil, err
 				}
 				txins = append(txins, txin)
-				totalIn += int64(grpinput.value)
+				if totalIn, err = addAmount(totalIn, grpinput.value); err != nil {
+					return nil, err
+				}
 
 				// inputs.
 				input := &input{
@@ -228,7 +241,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				}
 				txout := NewTxOut(grpoutput.value, script)
 				txouts = append(txouts, txout)
-				totalOut += int64(grpoutput.value)
+				if totalOut, err = addAmount(totalOut, grpoutput.value); err != nil {
+					return nil, err
+				}
 			}
 		}
 	}
@@ -257,6 +272,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 		estimateFees = EstimateFees(estimateSize, b.relayFeePerKb)
 		fees = estimateFees
 	}
+	if fees < 0 {
+		return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE, uint64(fees))
+	}
 	if fees > b.maxFees {
 		return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, fees, b.maxFees)
 	}
-- 
2.43.0


From 65125e6ccddd45899d7cf69a96d28a113e9af381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:04 +0000
Subject: [PATCH 34/57] fix: mnemonic entropy comes from crypto/rand, not from
 a clock-seeded generator

---
 xcore/bip39/bip39.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index 8f3e035..a3c22c2 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -7,15 +7,14 @@
 package bip39
 
 import (
+	"crypto/rand"
 	"crypto/sha256"
 	"crypto/sha512"
 	"encoding/binary"
 	"errors"
 	"fmt"
 	"math/big"
-	"math/rand"
 	"strings"
-	"time"
 
 	"github.com/keyfuse/tokucore/xcore/bip39/words"
 	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
@@ -106,9 +105,10 @@ func NewEntropy(bitSize int) ([]byte, error) {
 	}
 
 	entropy := make([]byte, bitSize/8)
-	random := rand.New(rand.NewSource(time.Now().UnixNano()))
-	_, err = random.Read(entropy)
-	return entropy, err
+	if _, err = rand.Read(entropy); err != nil {
+		return nil, err
+	}
+	return entropy, nil
 }
 
 // EntropyFromMnemonic takes a mnemonic generated by this library,
-- 
2.43.0


From 6b037ce5262c18220d1e10103b75015531aa30ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 35/57] fix: a mnemonic is made and read with one word list,
 whatever other goroutines set

---
 xcore/bip39/bip39.go | 61 ++++++++++++++++++++++++++++++++------------
 1 file changed, 45 insertions(+), 16 deletions(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index a3c22c2..4495581 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -15,6 +15,7 @@ import (
 	"fmt"
 	"math/big"
 	"strings"
+	"sync"
 
 	"github.com/keyfuse/tokucore/xcore/bip39/words"
 	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
@@ -50,6 +51,9 @@ var (
 
 	// wordMap is a reverse lookup map for wordList
 	wordMap map[string]int
+
+	// wordMu guards wordList and wordMap, which always change together.
+	wordMu sync.RWMutex
 )
 
 var (
@@ -76,21 +80,34 @@ func init() {
 // SetWordList sets the list of words to use for mnemonics. Currently the list
 // that is set is used package-wide.
 func SetWordList(list []string) {
-	wordList = list
-	wordMap = map[string]int{}
-	for i, v := range wordList {
-		wordMap[v] = i
+	index := make(map[string]int, len(list))
+	for i, v := range list {
+		index[v] = i
 	}
+
+	wordMu.Lock()
+	defer wordMu.Unlock()
+	wordList = list
+	wordMap = index
+}
+
+// wordSet returns the words in use and their reverse lookup map.
+func wordSet() ([]string, map[string]int) {
+	wordMu.RLock()
+	defer wordMu.RUnlock()
+	return wordList, wordMap
 }
 
 // GetWordList gets the list of words to use for mnemonics.
 func GetWordList() []string {
-	return wordList
+	list, _ := wordSet()
+	return list
 }
 
 // GetWordIndex gets word index in wordMap.
 func GetWordIndex(word string) (int, bool) {
-	idx, ok := wordMap[word]
+	_, index := wordSet()
+	idx, ok := index[word]
 	return idx, ok
 }
 
@@ -121,9 +138,10 @@ func EntropyFromMnemonic(mnemonic string) ([]byte, error) {
 	}
 
 	// Decode the words into a big.Int.
+	_, indexes := wordSet()
 	b := big.NewInt(0)
 	for _, v := range mnemonicSlice {
-		index, found := wordMap[v]
+		index, found := indexes[v]
 		if !found {
 			return nil, fmt.Errorf("word `%v` not found in reverse map", v)
 		}
@@ -164,6 +182,11 @@ func EntropyFromMnemonic(mnemonic string) ([]byte, error) {
 // the given entropy.
 // If the provide entropy is invalid, an error will be returned.
 func NewMnemonic(entropy []byte) (string, error) {
+	list, _ := wordSet()
+	return newMnemonic(entropy, list)
+}
+
+func newMnemonic(entropy []byte, list []string) (string, error) {
 	// Compute some lengths for convenience.
 	entropyBitLength := len(entropy) * 8
 	checksumBitLength := entropyBitLength / 32
@@ -201,7 +224,7 @@ func NewMnemonic(entropy []byte) (string, error) {
 		wordBytes := padByteSlice(word.Bytes(), 2)
 
 		// Convert bytes to an index and add that word to the list.
-		words[i] = wordList[binary.BigEndian.Uint16(wordBytes)]
+		words[i] = list[binary.BigEndian.Uint16(wordBytes)]
 	}
 	return strings.Join(words, " "), nil
 }
@@ -220,7 +243,8 @@ func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 
 	// Pre validate that the mnemonic is well formed and only contains words that
 	// are present in the word list.
-	if !IsMnemonicValid(mnemonic) {
+	_, indexes := wordSet()
+	if !isMnemonicValid(mnemonic, indexes) {
 		return nil, ErrInvalidMnemonic
 	}
 
@@ -228,7 +252,7 @@ func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	checksummedEntropy := big.NewInt(0)
 	modulo := big.NewInt(2048)
 	for _, v := range mnemonicSlice {
-		index := big.NewInt(int64(wordMap[v]))
+		index := big.NewInt(int64(indexes[v]))
 		checksummedEntropy.Mul(checksummedEntropy, modulo)
 		checksummedEntropy.Add(checksummedEntropy, index)
 	}
@@ -274,6 +298,11 @@ func NewSeed(mnemonic string, password string) []byte {
 // Validity is determined by both the number of words being appropriate,
 // and that all the words in the mnemonic are present in the word list.
 func IsMnemonicValid(mnemonic string) bool {
+	_, indexes := wordSet()
+	return isMnemonicValid(mnemonic, indexes)
+}
+
+func isMnemonicValid(mnemonic string, indexes map[string]int) bool {
 	// Create a list of all the words in the mnemonic sentence
 	words := strings.Fields(mnemonic)
 
@@ -287,7 +316,7 @@ func IsMnemonicValid(mnemonic string) bool {
 
 	// Check if all words belong in the wordlist
 	for _, word := range words {
-		if _, ok := wordMap[word]; !ok {
+		if _, ok := indexes[word]; !ok {
 			return false
 		}
 	}
@@ -399,19 +428,19 @@ func NewBIP39(list Wordlists) (*BIP39, error) {
 	var err error
 	bip39 := &BIP39{}
 
+	wordlist := words.English
 	switch list {
 	case CHINESE:
-		SetWordList(words.Chinese)
+		wordlist = words.Chinese
 	case JAPANESE:
-		SetWordList(words.Japanese)
-	default:
-		SetWordList(words.English)
+		wordlist = words.Japanese
 	}
+	SetWordList(wordlist)
 
 	if bip39.entropy, err = NewEntropy(128); err != nil {
 		return nil, err
 	}
-	if bip39.mnemonic, err = NewMnemonic(bip39.entropy); err != nil {
+	if bip39.mnemonic, err = newMnemonic(bip39.entropy, wordlist); err != nil {
 		return nil, err
 	}
 	return bip39, nil
-- 
2.43.0


From c02d33d46b4e85541b69c7bf969dcfb765fed9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:39 +0000
Subject: [PATCH 36/57] fix: a P2SH wrapped witness program is not spent by
 pushing the program alone

---
 xcore/transaction.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 6b3c3db..bf5df19 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -790,10 +790,28 @@ func (tx *Transaction) Verify() error {
 		if err := engine.Verify(unlocking, locking); err != nil {
 			return xerror.NewError(Errors, ER_TRANSACTION_VERIFY_FAILED, i, xbase.NewIDToString(in.Hash), in.Index)
 		}
+		// A witness program as redeem script needs its witness, which is not
+		// checked above: pushing the program alone must not spend it.
+		if scriptVersion == BASE && isWitnessRedeem(locking, unlocking) {
+			return xerror.NewError(Errors, ER_TRANSACTION_VERIFY_FAILED, i, xbase.NewIDToString(in.Hash), in.Index)
+		}
 	}
 	return nil
 }
 
+// isWitnessRedeem -- whether the redeem script of the unlocking is a witness program.
+func isWitnessRedeem(locking []byte, unlocking []byte) bool {
+	if !isScriptHashLocking(locking) {
+		return false
+	}
+	pushes, err := xvm.NewScriptReader(unlocking).AllInstructions()
+	if err != nil || len(pushes) == 0 {
+		return false
+	}
+	instrs, err := xvm.NewScriptReader(pushes[len(pushes)-1].Data()).AllInstructions()
+	return err == nil && (isWitnessV0PubKeyHash(instrs) || isWitnessV0ScriptHash(instrs))
+}
+
 // BaseSize -- the size of the transaction serialised with the witness data stripped.
 // https://github.com/bitcoin/bips/blob/master/bip-0141.mediawiki
 func (tx *Transaction) BaseSize() int {
-- 
2.43.0


From 240a005ce5ecbda03ee64e1fbc9ac19920264523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:02 +0000
Subject: [PATCH 37/57] fix: a mnemonic with a word that is not in the list is
 refused, not read as another

---
 xcore/bip39/bip39.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/xcore/bip39/bip39.go b/xcore/bip39/bip39.go
index 4495581..1c5a3a3 100644
--- a/xcore/bip39/bip39.go
+++ b/xcore/bip39/bip39.go
@@ -252,9 +252,12 @@ func MnemonicToByteArray(mnemonic string, raw ...bool) ([]byte, error) {
 	checksummedEntropy := big.NewInt(0)
 	modulo := big.NewInt(2048)
 	for _, v := range mnemonicSlice {
-		index := big.NewInt(int64(indexes[v]))
+		index, found := indexes[v]
+		if !found {
+			return nil, ErrInvalidMnemonic
+		}
 		checksummedEntropy.Mul(checksummedEntropy, modulo)
-		checksummedEntropy.Add(checksummedEntropy, index)
+		checksummedEntropy.Add(checksummedEntropy, big.NewInt(int64(index)))
 	}
 
 	// Calculate the unchecksummed entropy so we can validate that the checksum is
-- 
2.43.0


From f45d972517e82fd8fe03d93c25c8b8ac1b6aa528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:13 +0000
Subject: [PATCH 38/57] fix: an ECDSA signature is read in strict DER only, the
 network refuses any other encoding

---
 xcrypto/signature_ecdsa.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/xcrypto/signature_ecdsa.go b/xcrypto/signature_ecdsa.go
index 8321685..77bee0b 100644
--- a/xcrypto/signature_ecdsa.go
+++ b/xcrypto/signature_ecdsa.go
@@ -6,6 +6,7 @@
 package xcrypto
 
 import (
+	"bytes"
 	"crypto/ecdsa"
 	"encoding/asn1"
 	"fmt"
@@ -36,8 +37,19 @@ func (sig *SignatureEcdsa) Serialize() ([]byte, error) {
 
 // Deserialize -- used to deserialize the signature to struct.
 func (sig *SignatureEcdsa) Deserialize(sign []byte) error {
-	_, err := asn1.Unmarshal(sign, sig)
-	return err
+	if _, err := asn1.Unmarshal(sign, sig); err != nil {
+		return err
+	}
+	// The network takes the DER encoding only, nothing may be left over in or
+	// behind it.
+	der, err := sig.Serialize()
+	if err != nil {
+		return err
+	}
+	if !bytes.Equal(der, sign) {
+		return fmt.Errorf("ecdsa.signature.is.not.strict.der")
+	}
+	return nil
 }
 
 // EcdsaSign -- used get the ecdsa signature.
-- 
2.43.0


From cc77a1a3f1bf286c41fd31c12174847b19d28ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 39/57] fix: a script over the network's limits of size,
 operations or stack is refused, and running one costs no more than its steps

---
 xvm/engine.go             | 45 ++++++++++++++++++++++++++++++++++++---
 xvm/instruction_crypto.go |  4 ++++
 xvm/stack.go              | 11 +++++-----
 3 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/xvm/engine.go b/xvm/engine.go
index 69574db..2a124fa 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -13,6 +13,14 @@ import (
 	"github.com/keyfuse/tokucore/xerror"
 )
 
+// The limits of a script, the network refuses what exceeds them:
+// a script from a peer must not make its verification unbounded.
+const (
+	maxScriptSize   = 10000 // Bytes of one script.
+	maxOpsPerScript = 201   // Instructions that are not pushes, of one script.
+	maxStackSize    = 1000  // Items on the stack.
+)
+
 // SigHashFn -- hash function for checksig.
 type SigHashFn func(hashType byte) ([]byte, error)
 
@@ -29,6 +37,8 @@ type Engine struct {
 	sigVerifier SigVerifyFn
 	reader      *ScriptReader
 	instruction *Instruction // Current instruction
+	numOps      int          // Instructions of the current script that are not pushes.
+	snapshot    [][]byte     // Stack after the last instruction.
 	traces      []Trace
 	lastStack   string // Last stack.
 	lastOp      string // Last opcode.
@@ -71,15 +81,32 @@ func (vm *Engine) Step() (bool, error) {
 	if vm.instruction, err = vm.reader.NextInstruction(); err != nil || vm.instruction == nil {
 		return true, err
 	}
+	if vm.instruction.op.value > OP_16 {
+		if err = vm.countOps(1); err != nil {
+			return true, err
+		}
+	}
 	if vm.branchShouldSkip() && !vm.instruction.isConditional() {
 		return false, nil
 	}
 	if err = vm.instruction.op.opfunc(vm); err != nil {
 		return true, err
 	}
+	if vm.dstack.Depth() > maxStackSize {
+		return true, xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("stack.size[%v].exceeds[%v]", vm.dstack.Depth(), maxStackSize))
+	}
 	return false, nil
 }
 
+// countOps -- counts the instructions that are not pushes.
+func (vm *Engine) countOps(n int) error {
+	vm.numOps += n
+	if vm.numOps > maxOpsPerScript {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("script.operations.exceed[%v]", maxOpsPerScript))
+	}
+	return nil
+}
+
 // Execute -- execute the scripts.
 func (vm *Engine) Execute(program []byte) error {
 	return vm.execute(program, true)
@@ -137,8 +164,20 @@ func (vm *Engine) PrintTrace() {
 }
 
 func (vm *Engine) execute(program []byte, final bool) error {
+	if len(program) > maxScriptSize {
+		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("script.size[%v].exceeds[%v]", len(program), maxScriptSize))
+	}
 	vm.reader = NewScriptReader(program)
 	vm.cstack = vm.cstack[:0]
+	vm.numOps = 0
+
+	// The last stack is rendered once, not after every instruction.
+	steps := 0
+	defer func() {
+		if steps > 0 {
+			vm.lastStack = (&Stack{stk: vm.snapshot}).String()
+		}
+	}()
 	for {
 		done, err := vm.Step()
 		if err != nil {
@@ -148,17 +187,17 @@ func (vm *Engine) execute(program []byte, final bool) error {
 			break
 		}
 
-		cur := vm.dstack.String()
 		if vm.debug && vm.instruction != nil {
 			trace := Trace{
 				Step:      vm.pc,
 				Executed:  vm.instruction.op.name,
-				Stack:     cur,
+				Stack:     vm.dstack.String(),
 				Remaining: vm.reader.DisasmRemaining(),
 			}
 			vm.traces = append(vm.traces, trace)
 		}
-		vm.lastStack = cur
+		steps++
+		vm.snapshot = append(vm.snapshot[:0], vm.dstack.stk...)
 		vm.lastOp = vm.instruction.op.name
 	}
 
diff --git a/xvm/instruction_crypto.go b/xvm/instruction_crypto.go
index dda5c62..d536daf 100644
--- a/xvm/instruction_crypto.go
+++ b/xvm/instruction_crypto.go
@@ -93,6 +93,10 @@ func opCheckMultiSig(vm *Engine) error {
 	if n < 0 || n > maxPubKeysPerMultiSig {
 		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, fmt.Sprintf("opCheckMultiSig:pubkeys[%v].out.of.range", n))
 	}
+	// Every key may cost a verification.
+	if err := vm.countOps(n); err != nil {
+		return err
+	}
 	pubKeys := make([][]byte, n)
 	for i := 0; i < n; i++ {
 		pubKey, err := vm.dstack.PopByteArray()
diff --git a/xvm/stack.go b/xvm/stack.go
index 238ca59..9df6a9d 100644
--- a/xvm/stack.go
+++ b/xvm/stack.go
@@ -7,6 +7,7 @@ package xvm
 
 import (
 	"fmt"
+	"strings"
 
 	"github.com/keyfuse/tokucore/xerror"
 )
@@ -188,19 +189,19 @@ func (s *Stack) SwapN(n int32) error {
 
 // String -- returns the stack in a readable format.
 func (s *Stack) String() string {
-	var result string
+	var result strings.Builder
 
 	if len(s.stk) == 0 {
-		result += " <empty> "
+		result.WriteString(" <empty> ")
 	}
 	for _, stack := range s.stk {
 		if len(stack) == 0 {
-			result += " <empty> "
+			result.WriteString(" <empty> ")
 		} else {
-			result += fmt.Sprintf(" <%x> ", stack)
+			fmt.Fprintf(&result, " <%x> ", stack)
 		}
 	}
-	return result
+	return result.String()
 }
 
 // Copy -- clone the stack to new.
-- 
2.43.0


From c6447e86e372862be8bef3b93826de58b307bfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 40/57] fix: OP_1NEGATE, which the script builder writes, is
 executed

---
 xvm/instruction.go          | 1 +
 xvm/instruction_pushdata.go | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/xvm/instruction.go b/xvm/instruction.go
index fd2a7d4..699777c 100644
--- a/xvm/instruction.go
+++ b/xvm/instruction.go
@@ -172,6 +172,7 @@ var opcodes = map[byte]opcode{
 	OP_PUSHDATA1: {OP_PUSHDATA1, "OP_PUSHDATA1", -1, opPushData},
 	OP_PUSHDATA2: {OP_PUSHDATA2, "OP_PUSHDATA2", -2, opPushData},
 	OP_PUSHDATA4: {OP_PUSHDATA4, "OP_PUSHDATA4", -4, opPushData},
+	OP_1NEGATE:   {OP_1NEGATE, "OP_1NEGATE", 1, op1Negate},
 	OP_TRUE:      {OP_TRUE, "OP_1", 1, opN},
 	OP_2:         {OP_2, "OP_2", 1, opN},
 	OP_3:         {OP_3, "OP_3", 1, opN},
diff --git a/xvm/instruction_pushdata.go b/xvm/instruction_pushdata.go
index d8f66a4..66e7cf9 100644
--- a/xvm/instruction_pushdata.go
+++ b/xvm/instruction_pushdata.go
@@ -11,6 +11,12 @@ func opPushData(vm *Engine) error {
 	return nil
 }
 
+// op1Negate -- pushes the number -1 onto the data stack.
+func op1Negate(vm *Engine) error {
+	vm.dstack.PushInt(ScriptNum(-1))
+	return nil
+}
+
 // opN --
 // a common handler for the small integer data push opcodes.
 // It pushes the numeric value the opcode represents (which will be from 1 to 16) onto the data stack.
-- 
2.43.0


From 053706b982893b2384f50463d62afaccec57adc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 41/57] fix: the items of a witness reach the script as they
 are, a single byte is not turned into a number

---
 xcore/script_p2wpkh_v0.go |  2 +-
 xcore/script_p2wsh_v0.go  |  2 +-
 xvm/scriptbuilder.go      | 36 +++++++++++++++++++-----------------
 3 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/xcore/script_p2wpkh_v0.go b/xcore/script_p2wpkh_v0.go
index 36c4f3b..47a2163 100644
--- a/xcore/script_p2wpkh_v0.go
+++ b/xcore/script_p2wpkh_v0.go
@@ -96,7 +96,7 @@ func (s *PayToWitnessV0PubKeyHashScript) WitnessToUnlockingScriptBytes(witness [
 		return nil, fmt.Errorf("PayToWitnessV0PubKeyHashScript.WitnessToUnlockingScriptBytes.error:witness.items[%v]", len(witness))
 	}
 	builder := xvm.NewScriptBuilder()
-	return builder.AddData(witness[0]).AddData(witness[1]).Script()
+	return builder.AddItem(witness[0]).AddItem(witness[1]).Script()
 }
 
 // isWitnessV0PubKeyHash --
diff --git a/xcore/script_p2wsh_v0.go b/xcore/script_p2wsh_v0.go
index c5be668..1e8c0ba 100644
--- a/xcore/script_p2wsh_v0.go
+++ b/xcore/script_p2wsh_v0.go
@@ -110,7 +110,7 @@ func (s *PayToWitnessV0ScriptHashScript) WitnessToUnlockingScriptBytes(witness [
 	}
 	builder := xvm.NewScriptBuilder()
 	for _, item := range witness {
-		builder.AddData(item)
+		builder.AddItem(item)
 	}
 	return builder.Script()
 }
diff --git a/xvm/scriptbuilder.go b/xvm/scriptbuilder.go
index 5eb3531..365d237 100644
--- a/xvm/scriptbuilder.go
+++ b/xvm/scriptbuilder.go
@@ -41,31 +41,33 @@ func NewScriptBuilder() *ScriptBuilder {
 
 // AddData -- push the passed data to the end of the script
 func (b *ScriptBuilder) AddData(data []byte) *ScriptBuilder {
-	l := len(data)
-	buffer := b.buffer
-
-	switch {
-	case l == 0:
-		buffer.WriteU8(OP_0)
-		return b
-
-	// OP_1NEGATE, OP_0, and OP_[1-16]
-	case l == 1:
+	if len(data) == 1 {
+		// OP_1NEGATE, OP_0, and OP_[1-16]
 		switch {
 		// OP_0
 		case data[0] == 0:
-			buffer.WriteU8(OP_0)
-			return b
+			return b.AddOp(OP_0)
 		// OP_[1-16]
 		case data[0] <= 16:
-			buffer.WriteU8((OP_1 - 1) + data[0])
-			return b
+			return b.AddOp((OP_1 - 1) + data[0])
 		// OP_1NEGATE
 		case data[0] == 0x81:
-			buffer.WriteU8(OP_1NEGATE)
-			return b
+			return b.AddOp(OP_1NEGATE)
 		}
-		fallthrough
+	}
+	return b.AddItem(data)
+}
+
+// AddItem -- push the data as they are, a single byte never becomes a number:
+// what is on the stack is exactly the data.
+func (b *ScriptBuilder) AddItem(data []byte) *ScriptBuilder {
+	l := len(data)
+	buffer := b.buffer
+
+	switch {
+	case l == 0:
+		buffer.WriteU8(OP_0)
+		return b
 
 	// OP_DATA_[1-75]
 	case l < OP_PUSHDATA1:
-- 
2.43.0


From 4923fbd2b4a4c4652d22308575343fad8bc8c18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 42/57] fix: a spend with an item more in its witness, or a
 witness beside a legacy script, is refused

---
 xcore/transaction.go | 5 +++++
 xvm/engine.go        | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index bf5df19..dd0699d 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -790,6 +790,11 @@ func (tx *Transaction) Verify() error {
 		if err := engine.Verify(unlocking, locking); err != nil {
 			return xerror.NewError(Errors, ER_TRANSACTION_VERIFY_FAILED, i, xbase.NewIDToString(in.Hash), in.Index)
 		}
+		// A witness leaves nothing behind, and only a witness program has one:
+		// what anybody could add to the spend on its way is refused.
+		if (scriptVersion == WITNESS_V0 && engine.StackDepth() != 0) || (scriptVersion == BASE && len(in.Witness) != 0) {
+			return xerror.NewError(Errors, ER_TRANSACTION_VERIFY_FAILED, i, xbase.NewIDToString(in.Hash), in.Index)
+		}
 		// A witness program as redeem script needs its witness, which is not
 		// checked above: pushing the program alone must not spend it.
 		if scriptVersion == BASE && isWitnessRedeem(locking, unlocking) {
diff --git a/xvm/engine.go b/xvm/engine.go
index 2a124fa..ae3866f 100644
--- a/xvm/engine.go
+++ b/xvm/engine.go
@@ -144,6 +144,11 @@ func (vm *Engine) Verify(unlocking []byte, locking []byte) error {
 	return nil
 }
 
+// StackDepth -- returns the number of items left under the result of the last script.
+func (vm *Engine) StackDepth() int {
+	return vm.dstack.Depth()
+}
+
 // Traces -- returns the trace records.
 func (vm *Engine) Traces() []Trace {
 	return vm.traces
-- 
2.43.0


From b64351a3762316fc221564425a8a091803c3bfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 43/57] fix: a script sig beside a witness is refused, not
 silently dropped

---
 xcore/transaction.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index dd0699d..ef5500e 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -164,6 +164,10 @@ func (tx *Transaction) SetTxIn(idx int, amount uint64, script []byte, redeemScri
 		return err
 	}
 	if rawUnlocking != nil {
+		// Only the witness unlocks it: a script sig it came with is refused, not dropped.
+		if !txIn.HasWitness() && len(txIn.RawUnlockingScript) > 0 {
+			return xerror.NewError(Errors, ER_TRANSACTION_VERIFY_FAILED, idx, xbase.NewIDToString(txIn.Hash), txIn.Index)
+		}
 		txIn.RawUnlockingScript = rawUnlocking
 	}
 
-- 
2.43.0


From 99483b4260f825e97e649ff940e0339b1192ae56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 44/57] fix: a session that cannot start leaves the party in
 the one before, its nonce never meets the new hash

---
 xcrypto/mpc_ecdsa.go   | 9 ++++++---
 xcrypto/mpc_schnorr.go | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/xcrypto/mpc_ecdsa.go b/xcrypto/mpc_ecdsa.go
index 1370263..c7a7d1e 100644
--- a/xcrypto/mpc_ecdsa.go
+++ b/xcrypto/mpc_ecdsa.go
@@ -110,21 +110,18 @@ func (party *EcdsaParty) Phase2(hash []byte) (*big.Int, *paillier.PubKey, *secp2
 	}
 	pub := prv.PubKey()
 	curve := pub.Curve
-	party.hash = hash
 
 	// Paillier key pair.
 	encpub, encprv, err := paillier.GenerateKeyPair(bitlen)
 	if err != nil {
 		return nil, nil, nil
 	}
-	party.encprv = encprv
 
 	// Homomorphic Encryption of party pk.
 	encpk, err := encpub.Encrypt(prv.D)
 	if err != nil {
 		return nil, nil, nil
 	}
-	party.encpk = encpk
 
 	// RFC6979 K nonce for the first session of this party, a fresh one for every
 	// later session: R also depends on the other party, so the same nonce must
@@ -136,6 +133,12 @@ func (party *EcdsaParty) Phase2(hash []byte) (*big.Int, *paillier.PubKey, *secp2
 		}
 	}
 	kinv := new(big.Int).ModInverse(k, N)
+
+	// The session starts as a whole or not at all: the new hash must never meet
+	// the nonce of the session before.
+	party.hash = hash
+	party.encpk = encpk
+	party.encprv = encprv
 	party.k = k
 	party.kinv = kinv
 	party.usedR = nil
diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index 6447f2d..4fdcacd 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -63,7 +63,6 @@ func (party *SchnorrParty) Phase2(hash []byte) *secp256k1.Scalar {
 	pub := prv.PubKey()
 	curve := pub.Curve
 
-	party.hash = hash
 	// Scalar R.
 	// The nonce is fresh for every session: R also depends on the other party,
 	// so the same nonce must never be used twice, not even for the same hash.
@@ -71,6 +70,7 @@ func (party *SchnorrParty) Phase2(hash []byte) *secp256k1.Scalar {
 	if err != nil {
 		return nil
 	}
+	party.hash = hash
 	party.k0 = k0
 	party.usedE = nil
 	party.usedY = nil
-- 
2.43.0


From 41beb406f5fe229c1c6743025aec33030e5b6f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 45/57] fix: a merkle proof of what is longer than a hash is
 refused, not cut

---
 xcrypto/merkle.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index a6c845d..ed14f18 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -127,8 +127,16 @@ func (m *Merkle) Proofs(leaf []byte) []Node {
 
 // Verify -- used to verify the leaf contained in the merkle tree.
 func (m *Merkle) Verify(leaf []byte, root []byte, path []Node) bool {
+	// merkleNode would cut them.
+	if len(leaf) > merkleHashSize {
+		return false
+	}
+
 	hash := leaf
 	for _, node := range path {
+		if len(node.Hash) > merkleHashSize {
+			return false
+		}
 		switch node.Position {
 		case positionLeft:
 			hash = merkleNode(node.Hash, hash)
-- 
2.43.0


From 2fe9760126edae2f125ce77ac06f122054b07039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:08 +0000
Subject: [PATCH 46/57] fix: no merkle proof is made for the padding of the
 tree

---
 xcrypto/merkle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcrypto/merkle.go b/xcrypto/merkle.go
index ed14f18..3e8537c 100644
--- a/xcrypto/merkle.go
+++ b/xcrypto/merkle.go
@@ -93,6 +93,10 @@ func (m *Merkle) Proofs(leaf []byte) []Node {
 	index := -1
 	depth := len(m.levels) - 1
 	for i, le := range m.levels[depth] {
+		// Padding, not a leaf.
+		if le == nil {
+			continue
+		}
 		if bytes.Equal(leaf, le) {
 			index = i
 			break
-- 
2.43.0


From ba3d2fcb3951bbd57821c5dd763d4cb4e038f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:46 +0000
Subject: [PATCH 47/57] fix: the builder refuses a payment or a change to no
 address

---
 xcore/transactionbuilder.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 940b50e..6ead209 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -226,6 +226,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				var err error
 				var script []byte
 
+				if grpoutput.addr == nil && grpoutput.script == "" {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_SENDTO_EMPTY)
+				}
 				if grpoutput.addr != nil {
 					script, err = grpoutput.addr.LockingScript()
 					if err != nil {
@@ -291,7 +294,7 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 	// Change.
 	{
 		if changeAmount > 0 {
-			if b.change == nil {
+			if b.change == nil || b.change.addr == nil {
 				return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_CHANGETO_EMPTY)
 			}
 			script, err := b.change.addr.LockingScript()
-- 
2.43.0


From 452d7d38098784c44533b324a090cd8d9bb812f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:57 +0000
Subject: [PATCH 48/57] fix: the builder refuses a transaction id that is not
 32 bytes long

---
 xcore/error.go              | 2 ++
 xcore/transactionbuilder.go | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/xcore/error.go b/xcore/error.go
index 35ef49f..2febc14 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -32,6 +32,7 @@ const (
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH      int = 5106
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH            int = 5107
 	ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE     int = 5108
+	ER_TRANSACTION_BUILDER_COIN_MALFORMED          int = 5109
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH        int = 5201
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH              int = 5301
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH           int = 5302
@@ -60,6 +61,7 @@ var Errors = map[int]*xerror.Error{
 	ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH:      {Num: ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, State: "TTB00", Message: "transaction.builder.min.fee[%v].not.enough.from.change.value[%v]"},
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH:            {Num: ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, State: "TTB00", Message: "transaction.builder.fee[%v].too.high.than.max.fee[%v]"},
 	ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE:     {Num: ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE, State: "TTB00", Message: "transaction.builder.amount[%v].out.of.range"},
+	ER_TRANSACTION_BUILDER_COIN_MALFORMED:          {Num: ER_TRANSACTION_BUILDER_COIN_MALFORMED, State: "TTB00", Message: "transaction.builder.coin.txid[%v].malformed"},
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH:        {Num: ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH, State: "TTP00", Message: "transaction.partially.request.magic.mismatch.want[%x].got[%x]"},
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH:              {Num: ER_MICROPAYMENT_LOCKTIME_MISMATCH, State: "TM000", Message: "micropayment.locktime.mismatch.want[%v].got[%v]"},
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH:           {Num: ER_MICROPAYMENT_REFUND_BOND_MISMATCH, State: "TM000", Message: "micropayment.refund.bond.mismatch"},
diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index 6ead209..bd6961b 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -196,6 +196,9 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				if err != nil {
 					return nil, err
 				}
+				if len(txid) != hashSize {
+					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_COIN_MALFORMED, grpinput.txID)
+				}
 				// Hex to script.
 				script, err := hex.DecodeString(grpinput.script)
 				if err != nil {
-- 
2.43.0


From ee0f386f95f47d15da3271866c6ff746e925c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:57 +0000
Subject: [PATCH 49/57] fix: the builder refuses to spend one coin twice

---
 xcore/error.go              | 2 ++
 xcore/transactionbuilder.go | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/xcore/error.go b/xcore/error.go
index 2febc14..65f6192 100644
--- a/xcore/error.go
+++ b/xcore/error.go
@@ -33,6 +33,7 @@ const (
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH            int = 5107
 	ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE     int = 5108
 	ER_TRANSACTION_BUILDER_COIN_MALFORMED          int = 5109
+	ER_TRANSACTION_BUILDER_COIN_DUPLICATE          int = 5110
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH        int = 5201
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH              int = 5301
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH           int = 5302
@@ -62,6 +63,7 @@ var Errors = map[int]*xerror.Error{
 	ER_TRANSACTION_BUILDER_FEE_TOO_HIGH:            {Num: ER_TRANSACTION_BUILDER_FEE_TOO_HIGH, State: "TTB00", Message: "transaction.builder.fee[%v].too.high.than.max.fee[%v]"},
 	ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE:     {Num: ER_TRANSACTION_BUILDER_AMOUNT_OUT_OF_RANGE, State: "TTB00", Message: "transaction.builder.amount[%v].out.of.range"},
 	ER_TRANSACTION_BUILDER_COIN_MALFORMED:          {Num: ER_TRANSACTION_BUILDER_COIN_MALFORMED, State: "TTB00", Message: "transaction.builder.coin.txid[%v].malformed"},
+	ER_TRANSACTION_BUILDER_COIN_DUPLICATE:          {Num: ER_TRANSACTION_BUILDER_COIN_DUPLICATE, State: "TTB00", Message: "transaction.builder.coin[%v:%v].duplicate"},
 	ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH:        {Num: ER_TRANSACTION_PARTIALLY_MAGIC_MISMATCH, State: "TTP00", Message: "transaction.partially.request.magic.mismatch.want[%x].got[%x]"},
 	ER_MICROPAYMENT_LOCKTIME_MISMATCH:              {Num: ER_MICROPAYMENT_LOCKTIME_MISMATCH, State: "TM000", Message: "micropayment.locktime.mismatch.want[%v].got[%v]"},
 	ER_MICROPAYMENT_REFUND_BOND_MISMATCH:           {Num: ER_MICROPAYMENT_REFUND_BOND_MISMATCH, State: "TM000", Message: "micropayment.refund.bond.mismatch"},
diff --git a/xcore/transactionbuilder.go b/xcore/transactionbuilder.go
index bd6961b..35d37b9 100644
--- a/xcore/transactionbuilder.go
+++ b/xcore/transactionbuilder.go
@@ -6,6 +6,7 @@
 package xcore
 
 import (
+	"bytes"
 	"encoding/hex"
 
 	"github.com/keyfuse/tokucore/xbase"
@@ -199,6 +200,12 @@ func (b *TransactionBuilder) BuildTransaction() (*Transaction, error) {
 				if len(txid) != hashSize {
 					return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_COIN_MALFORMED, grpinput.txID)
 				}
+				// A coin spent twice is value from nothing.
+				for _, txin := range txins {
+					if txin.Index == grpinput.n && bytes.Equal(txin.Hash, txid) {
+						return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_COIN_DUPLICATE, grpinput.txID, grpinput.n)
+					}
+				}
 				// Hex to script.
 				script, err := hex.DecodeString(grpinput.script)
 				if err != nil {
-- 
2.43.0


From 9b208f6813e4418d6f79c6871957ae7f05e426e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:58 +0000
Subject: [PATCH 50/57] fix: transaction sizes count the marker and flag, skip
 witness inputs' scripts and round the virtual size up

---
 xcore/transaction.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index ef5500e..3942bfc 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -834,8 +834,12 @@ func (tx *Transaction) BaseSize() int {
 	for _, in := range tx.inputs {
 		size += len(in.Hash)
 		size += 4
-		size += xbase.VarIntSerializeSize(uint64(len(in.RawUnlockingScript)))
-		size += len(in.RawUnlockingScript)
+		script := in.RawUnlockingScript
+		if in.HasWitness() {
+			script = nil
+		}
+		size += xbase.VarIntSerializeSize(uint64(len(script)))
+		size += len(script)
 		size += 4
 	}
 
@@ -852,11 +856,12 @@ func (tx *Transaction) BaseSize() int {
 	return size
 }
 
-// WitnessSize -- the witness datas serialised size.
+// WitnessSize -- the witness datas serialised size, with the marker and flag.
 func (tx *Transaction) WitnessSize() int {
 	size := 0
 
 	if tx.HasWitness() {
+		size += 2
 		for _, in := range tx.inputs {
 			wits := in.Witness
 			size += xbase.VarIntSerializeSize(uint64(len(wits)))
@@ -878,7 +883,7 @@ func (tx *Transaction) Weight() int {
 
 // Vsize -- defined as Transaction weight / 4 (rounded up to the next integer).
 func (tx *Transaction) Vsize() int {
-	return tx.Weight() / witnessScaleFactor
+	return (tx.Weight() + witnessScaleFactor - 1) / witnessScaleFactor
 }
 
 // Size -- size in bytes serialized as described in BIP144, including base data and witness data.
-- 
2.43.0


From f2bf1e5d4d0d96a8c8ef1820ecfee2a146cb03d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:52 +0000
Subject: [PATCH 51/57] fix: a signing party keeps its own copy of the digest
 its nonce was made for

---
 xcrypto/mpc_ecdsa.go   | 2 +-
 xcrypto/mpc_schnorr.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcrypto/mpc_ecdsa.go b/xcrypto/mpc_ecdsa.go
index c7a7d1e..6edf951 100644
--- a/xcrypto/mpc_ecdsa.go
+++ b/xcrypto/mpc_ecdsa.go
@@ -136,7 +136,7 @@ func (party *EcdsaParty) Phase2(hash []byte) (*big.Int, *paillier.PubKey, *secp2
 
 	// The session starts as a whole or not at all: the new hash must never meet
 	// the nonce of the session before.
-	party.hash = hash
+	party.hash = append([]byte(nil), hash...)
 	party.encpk = encpk
 	party.encprv = encprv
 	party.k = k
diff --git a/xcrypto/mpc_schnorr.go b/xcrypto/mpc_schnorr.go
index 4fdcacd..f387797 100644
--- a/xcrypto/mpc_schnorr.go
+++ b/xcrypto/mpc_schnorr.go
@@ -70,7 +70,7 @@ func (party *SchnorrParty) Phase2(hash []byte) *secp256k1.Scalar {
 	if err != nil {
 		return nil
 	}
-	party.hash = hash
+	party.hash = append([]byte(nil), hash...)
 	party.k0 = k0
 	party.usedE = nil
 	party.usedY = nil
-- 
2.43.0


From dd0a952e4cf8eea9e8d9e689c7ea9946834f5afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:15 +0000
Subject: [PATCH 52/57] fix: Buffer.Reset keeps the bytes handed out before

---
 xbase/buffer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xbase/buffer.go b/xbase/buffer.go
index e6274bb..d601339 100644
--- a/xbase/buffer.go
+++ b/xbase/buffer.go
@@ -281,5 +281,6 @@ func (b *Buffer) End() bool {
 func (b *Buffer) Reset() {
 	b.seek = 0
 	b.length = 0
-	b.data = b.data[0:0]
+	// The bytes handed out before, or read from, are not written over.
+	b.data = nil
 }
-- 
2.43.0


From 42a7ff26a872e28c0ab6b1fb8937d14436c162f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:15 +0000
Subject: [PATCH 53/57] fix: a key is not derived beyond the depth it can be
 written with

---
 xcore/bip32/hdkey.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index 2d1af3f..e475719 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -125,6 +125,11 @@ func (k *HDKey) Derive(childIdx uint32) (*HDKey, error) {
 		return nil, fmt.Errorf("hdkey.derive.a.hardened.key.from.public.key.erro")
 	}
 
+	// The depth is one byte, a deeper key would pass for a shallow one.
+	if k.depth == 0xff {
+		return nil, fmt.Errorf("hdkey.derive.beyond.maximum.depth[%v]", k.depth)
+	}
+
 	// Split "I" into two 32-byte sequences Il and Ir where:
 	//   Il = intermediate key used to derive the child
 	//   Ir = child chain code
-- 
2.43.0


From 31366eb73c485907f29304d4aca13c80e013714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:15 +0000
Subject: [PATCH 54/57] fix: an extended private key out of range is refused

---
 xcore/bip32/hdkey.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xcore/bip32/hdkey.go b/xcore/bip32/hdkey.go
index e475719..3fb0d7f 100644
--- a/xcore/bip32/hdkey.go
+++ b/xcore/bip32/hdkey.go
@@ -309,6 +309,10 @@ func NewHDKeyFromString(wif string) (*HDKey, error) {
 	if data[45] == byte(0) {
 		k.isPrivate = true
 		k.prvkey = xcrypto.PrvKeyFromBytes(data[46:78])
+		// Not a key, or another one than it says.
+		if k.prvkey.D.Sign() == 0 || k.prvkey.D.Cmp(k.prvkey.Curve.Params().N) >= 0 {
+			return nil, fmt.Errorf("hdkey.serialized.private.key.out.of.range")
+		}
 	} else {
 		k.isPrivate = false
 		pubkey, err := xcrypto.PubKeyFromBytes(data[45:78])
-- 
2.43.0


From ae09bfe76624d5e716325afbf1900ecf82db62d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:16 +0000
Subject: [PATCH 55/57] fix: RawSignature signs its own digest, not one another
 goroutine stores on the input meanwhile

---
 xcore/transaction.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xcore/transaction.go b/xcore/transaction.go
index 3942bfc..dfafdc7 100644
--- a/xcore/transaction.go
+++ b/xcore/transaction.go
@@ -450,11 +450,12 @@ func (tx *Transaction) RawSignature(idx int, hashType SigHashType, prv *xcrypto.
 	}
 
 	txIn := tx.inputs[idx]
-	txIn.SignatureHash = tx.RawSignatureHash(idx, hashType)
-	signature, err := xcrypto.EcdsaSign(prv, txIn.SignatureHash)
+	sighash := tx.RawSignatureHash(idx, hashType)
+	signature, err := xcrypto.EcdsaSign(prv, sighash)
 	if err != nil {
 		return nil, err
 	}
+	txIn.SignatureHash = sighash
 	return append(signature, byte(hashType)), nil
 }
 
-- 
2.43.0


From 2bd4a2eefa050d4bca5a975f372aa4313b664384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:16 +0000
Subject: [PATCH 56/57] fix: GetK0 and GetE must not write behind the slices
 they are given

---
 xcrypto/schnorr/schnorr.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xcrypto/schnorr/schnorr.go b/xcrypto/schnorr/schnorr.go
index a5b24cf..6f1a9df 100644
--- a/xcrypto/schnorr/schnorr.go
+++ b/xcrypto/schnorr/schnorr.go
@@ -111,7 +111,7 @@ func Verify(pub *ecdsa.PublicKey, m []byte, r *big.Int, s *big.Int) bool {
 
 // GetK0 -- used get k0 under schnorr BIP.
 func GetK0(m []byte, d []byte, N *big.Int) (*big.Int, error) {
-	hash := sha256.Sum256(append(d, m[:]...))
+	hash := sha256.Sum256(append(append([]byte{}, d...), m...))
 	i := new(big.Int).SetBytes(hash[:])
 	k0 := i.Mod(i, N)
 	if k0.Sign() == 0 {
@@ -134,7 +134,7 @@ func GetK(curve elliptic.Curve, Ry, k0 *big.Int) *big.Int {
 // GetE -- used get e under schnorr BIP.
 func GetE(curve elliptic.Curve, m []byte, Px, Py *big.Int, rX []byte) *big.Int {
 	N := curve.Params().N
-	r := append(rX, secp256k1.SecMarshal(curve, Px, Py)...)
+	r := append(append([]byte{}, rX...), secp256k1.SecMarshal(curve, Px, Py)...)
 	r = append(r, m[:]...)
 	h := sha256.Sum256(r)
 	i := new(big.Int).SetBytes(h[:])
-- 
2.43.0


From bfb8f49f0d2319095824cd173f601f96e693276f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:16 +0000
Subject: [PATCH 57/57] fix: Bech32Encode must not write its checksum behind
 the caller's data

---
 xbase/bech32.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xbase/bech32.go b/xbase/bech32.go
index 5cb92b2..1c756d5 100644
--- a/xbase/bech32.go
+++ b/xbase/bech32.go
@@ -79,7 +79,7 @@ func Bech32Decode(bech string) (string, []byte, error) {
 func Bech32Encode(hrp string, data []byte) (string, error) {
 	// Calculate the checksum of the data and append it at the end.
 	checksum := bech32Checksum(hrp, data)
-	combined := append(data, checksum...)
+	combined := append(append([]byte{}, data...), checksum...)
 
 	// The resulting bech32 string is the concatenation of the hrp, the
 	// separator 1, data and checksum. Everything after the separator is
-- 
2.43.0

