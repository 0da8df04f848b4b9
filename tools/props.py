prop("C01", "Peer messages arrive exactly once, in order and unaltered",
 "On a healthy link, every protocol message a node sends to a peer is handed to that peer's receive callback exactly once, as the same kind of message with the same contents; messages sent one after another are handed over in that order, whatever the number of goroutines sending on the connection. Callbacks of one connection never overlap, no disconnect is reported, and the bytes on the wire are the protocol's own framing, so an independent implementation understands them and is understood.",
 ["schedules", "inputs"], "every message kind and size up to 250 kB, 1-3 concurrent senders per direction, every segmentation, short read, delay and buffer size of the stream, every statement-level interleaving of senders and reader",
 "The tests encode and decode one fixed object per message in memory and exchange two messages over one loopback socket, so they see neither interleaved senders nor split reads nor the sizes at which the buffering changes.",
 ["xprotocol/stream.go", "xprotocol/connection.go", "xprotocol/message.go", "xbase/buffer.go"],
 [("one framed write per message under the write lock", "xprotocol/stream.go:WriteMessage"), ("io.ReadFull of every header field and the payload", "xprotocol/stream.go:ReadMessage"), ("per-kind Encode/Decode", "xprotocol/msg*.go"), ("sequential callback loop", "xprotocol/connection.go:ReadLoop")],
 ["receive callback of the peer", "bytes on the wire"],
 "real xprotocol/xbase code on a simulated stream, statement-level preemption; the delivered sequence is matched against the senders' histories and an independent encoder",
 [("stream buffers", "bytes accepted but not yet flushed or parsed", "xprotocol/stream.go:Stream")])
prop("C02", "Damaged, torn or foreign frames are never delivered",
 "A frame whose magic, length, checksum or payload bytes were altered in transit, a frame of another network, or a frame cut short is never handed to the receive callback, and nothing after it on that connection is. Everything intact before it is delivered unaltered, and the damage is reported as a disconnect rather than swallowed.",
 ["fault_sequences", "inputs"], "every frame kind, every damaged byte position outside the command field, every cut position, FIN/RST/stall cuts, both networks",
 "No test feeds the reader a damaged or truncated stream, and the wrong-network case was not checked at all.",
 ["xprotocol/stream.go", "network/network.go"],
 [("magic comparison", "xprotocol/stream.go:ReadMessage"), ("double-SHA256 payload checksum", "xprotocol/stream.go:checksum"), ("io.ReadFull turns a short frame into an error", "xprotocol/stream.go:ReadMessage")],
 ["receive and disconnect callbacks"],
 "one drawn damage per run at a drawn position of a drawn frame; oracle: the delivered messages are exactly the intact prefix")
prop("C03", "Sending never waits for the peer to talk",
 "A message can be sent on a connection at any time while another goroutine is waiting for the peer's next message, while a callback is running, or while the peer has stopped in the middle of a frame; as long as the peer keeps reading, each send completes with success within 15 seconds. A callback may answer on the same connection without deadlocking.",
 ["schedules", "fault_sequences"], "silent, echoing and mid-frame-stalled peers; 1-3 senders; every interleaving of reader and senders",
 "The tests never send on a connection whose reader is blocked; the guarantee is about every schedule of reader and writers.",
 ["xprotocol/stream.go", "xprotocol/connection.go"],
 [("separate read and write locks", "xprotocol/stream.go:Stream")], ["return of Send", "peer's received bytes"],
 "progress bound in simulated time on every send")
prop("C04", "A stalled peer is noticed within a minute",
 "When a peer goes silent, stalls inside a frame, or trickles bytes without ever completing a frame, the connection reports a disconnect within 60 simulated seconds of the last completed message and its read loop ends; messages completed before the stall are delivered. When a peer stops reading, every send returns within 60 seconds, and sends report failure rather than success once the buffers are full.",
 ["fault_sequences", "schedules"], "every stall point, drip rate and buffer size; up to two concurrent senders",
 "The tests use a responsive peer only; timeouts of 20-30 s are never reached.",
 ["xprotocol/stream.go"],
 [("read deadline per message", "xprotocol/stream.go:ReadMessage"), ("write deadline per message", "xprotocol/stream.go:WriteMessage")],
 ["disconnect callback", "return of Send"],
 "virtual clock; bound checked from the last completed message or from the start of each send")
prop("C05", "A hostile peer cannot crash or bloat the node",
 "No sequence of frames a peer can send - hostile item counts, giant length claims, truncated or mutated payloads behind valid checksums, unknown or malformed commands - makes the node panic or spin. Memory allocated for one frame stays within a fixed bound (64 MB) whatever sizes the frame claims, and other connections of the process keep delivering.",
 ["inputs", "fault_sequences"], "hostile frames of every message kind with counts and lengths up to 2^64-1, any truncation, beside honest connections",
 "Decoding tests use well-formed payloads or a simple prefix truncation; hostile counts are unreachable from them.",
 ["xprotocol/stream.go", "xbase/buffer.go", "xprotocol/msginv.go", "xprotocol/msgheaders.go", "xprotocol/msggetheaders.go", "xprotocol/msgversion.go", "xprotocol/msgreject.go"],
 [("payload size bound", "xprotocol/stream.go:ReadMessage"), ("bounds-checked buffer reads", "xbase/buffer.go"), ("item-count limits", "xprotocol/msginv.go, msgheaders.go, msggetheaders.go, msggetdata.go")],
 ["process survives", "allocation during the frame", "honest connection's deliveries"],
 "hostile frames generated per message kind; oracle: no panic, allocation delta bounded, honest connection unaffected")
prop("C06", "Disconnect is reported exactly once and last",
 "However a connection ends - local close from any goroutine or from inside a callback, repeated close, remote close, reset or cut - its disconnect callback runs exactly once, no message is handed over after it, and the read loop returns. Sends on an ended connection fail with an error instead of hanging or panicking.",
 ["schedules", "fault_sequences", "histories"], "every point at which a close, reset or cut meets sends, reads and callbacks of two connections",
 "The connection test closes once after an orderly exchange.",
 ["xprotocol/connection.go", "xprotocol/stream.go"],
 [("single exit of the read loop", "xprotocol/connection.go:ReadLoop"), ("Close closes the socket under both directions", "xprotocol/connection.go:Close")],
 ["disconnect callback count and order", "read loop return"],
 "two real connections; close/cut at a drawn statement of a drawn goroutine")
prop("C07", "Every RPC call gets its own answer or an error",
 "Each call of the RPC client, on a client shared by any number of goroutines, returns either exactly what the server answered for that method and those parameters, decoded field by field, or an error; never another call's answer, never a zero value passed off as an answer, never a panic. Server error objects, missing or null results, HTTP failures, garbage, truncated or reset responses all come back as errors carrying no data.",
 ["schedules", "fault_sequences", "inputs"], "1-4 concurrent callers on 1-2 clients over every method, each call with a drawn response fault and transfer encoding",
 "The tests call each method once against a mock that always answers well.",
 ["xrpc/client.go", "xrpc/method.go", "xrpc/models.go"],
 [("request built per call", "xrpc/client.go:request"), ("result decoded into the caller's own type", "xrpc/method.go")],
 ["return values of the client methods", "requests seen by the server"],
 "real xrpc and net/http over simulated connections; oracle: the independent server's record of what it answered to each distinct request")
prop("C08", "RPC calls are time-bounded and stalls do not spread",
 "When the server stops responding at any stage - connecting, before, inside or after the headers, inside the body, dead or trickling - the call returns an error within about ten seconds (12 simulated). Calls that the server does answer are not held up or failed by a stalled call beside them, calls made after the server recovers succeed, and no connection stays open on behalf of a failed call.",
 ["fault_sequences", "schedules"], "every stall point, 1-4 stalled calls, concurrent healthy calls, recovery",
 "The tests' server always answers at once; a timeout is never reached.",
 ["xrpc/client.go"],
 [("per-request timeout", "xrpc/client.go"), ("response body closed", "xrpc/client.go")],
 ["return of the call in simulated time", "open connections at the server"],
 "virtual clock through the standard library's net/http; bound on each call, recovery and connection leak check after faults stop")
prop("C09", "Two-party ECDSA signing ends with the right signature on both sides",
 "Two processes holding one key share each can sign any digest over a network that loses, duplicates, delays and reorders their messages and through crashes and entropy failures: both compute the same joint key, every finished session yields on both sides the same low-S strict-DER signature that an independent verifier accepts for that digest and joint key, and a spend completed with it is accepted by Verify and by the network. One party object may serve several sessions one after another and different party objects may run at the same time without disturbing each other; a session that could not be started for want of entropy leaves the open one as it was; repeating a question gives an answer as good as the first, and the caller's message values are left unchanged. Once faults stop, every session completes.",
 ["schedules", "fault_sequences", "crash_points", "inputs"], "1-3 digests or payments per pair, every hash type, P2PKH and P2WPKH joint spends, every interleaving of the two processes' phases, message loss/duplication/delay, restarts and failing entropy",
 "The tests run one fixed pair of keys through one in-order session in a single goroutine.",
 ["xcrypto/mpc_ecdsa.go", "xcrypto/ecdsa/rfc6979.go", "xcrypto/paillier/paillier.go", "xcrypto/paillier/homomorphism.go", "xcrypto/secp256k1/scalar.go", "xcore/transaction.go"],
 [("five-phase session over the party's nonce state", "xcrypto/mpc_ecdsa.go:EcdsaParty"), ("homomorphic partial signature", "xcrypto/mpc_ecdsa.go:Phase4"), ("low-S normalisation", "xcrypto/mpc_ecdsa.go:Phase5"), ("embedding a foreign signature", "xcore/transaction.go:EmbedIdxSignature")],
 ["joint key", "signature of each side", "Verify of the joint spend"],
 "real signing code in two simulated processes on a simulated message network; every result checked against an independent curve, DER and sighash implementation",
 [("kinv, r", "the party's nonce of the current session", "xcrypto/mpc_ecdsa.go:EcdsaParty")])
prop("C10", "Multi-party Schnorr signing ends with one valid joint signature",
 "Two or three processes holding one key share each can sign any digest over a lossy, duplicating, reordering network and through crashes and entropy failures: all compute the same joint key and shared nonce point, every finished session gives every party the same 64-byte signature, and it verifies for that digest under the joint key both by the library and by an independent verifier. A party object serves several sessions one after another, a session that could not be started leaves the open one as it was, asking a party again for its shared point or its share of a session gives the same one and changes nothing it was given, and once faults stop every session completes.",
 ["schedules", "fault_sequences", "crash_points", "inputs"], "1-3 digests, 2-3 parties, every interleaving of their phases, message faults, restarts, failing entropy",
 "The tests run one fixed two-party session in order; three parties, nonce points of either parity and reuse of a party object are not reached.",
 ["xcrypto/mpc_schnorr.go", "xcrypto/schnorr/schnorr.go", "xcrypto/signature_schnorr.go", "xcrypto/secp256k1/scalar.go"],
 [("challenge over the shared nonce and the joint key", "xcrypto/mpc_schnorr.go:Phase4"), ("nonce negation by the parity of the shared point", "xcrypto/schnorr/schnorr.go:GetK"), ("sum of the shares", "xcrypto/mpc_schnorr.go:Phase5")],
 ["joint key", "shared nonce point", "share and signature of each party"],
 "real signing code in two or three simulated processes; independent Schnorr verifier",
 [("k0, R", "the party's nonce of the current session", "xcrypto/mpc_schnorr.go:SchnorrParty")])
prop("C11", "A scriptless swap reveals its secret exactly when it is spent",
 "In a scriptless ECDSA swap between two processes over a faulty network with crashes, the adaptor value the one side stores before answering completes no valid signature without the other side's secret; the signature the other side publishes is valid for the joint key and the agreed digest; and from the published signature and the stored adaptor the first side always extracts exactly the secret, also after a restart. Extraction leaves its inputs unchanged, and once faults stop every swap completes.",
 ["schedules", "fault_sequences", "crash_points", "inputs"], "1-2 swaps, every secret and key, message faults, crash and restart of either side at any step, entropy failures",
 "The test runs one fixed swap in order; low-S negation of the published signature happens for half of the nonces only.",
 ["xcrypto/scriptless_ecdsa.go", "xcrypto/mpc_ecdsa.go", "xcrypto/paillier/paillier.go"],
 [("nonce point multiplied by the secret", "xcrypto/scriptless_ecdsa.go"), ("secret extraction for both signs of s", "xcrypto/scriptless_ecdsa.go:Phase6")],
 ["adaptor value", "published signature", "extracted secret"],
 "real code in two simulated processes with a simulated disk for the adaptor; the adaptor is completed without the secret by the reference model in every way it can be")
prop("C12", "Altered, replayed or misordered signing messages never yield a bad signature",
 "Whatever an adversarial network does to the messages between signing parties - altered, truncated, missing, replayed from another session, reordered, delivered too early or after close - no party panics: malformed values are refused with an error and no value, and a final signature that is handed out without an error by scriptless or Schnorr signing verifies for its digest under the joint key. The library's signature verifiers accept no damaged signature. (Plain two-party ECDSA hands out an unverified result: a listed finding.)",
 ["fault_sequences", "inputs", "histories"], "6-45 calls per run on two parties; every message position replaced by special points, out-of-range integers, other sessions' values, bit flips, nil; Phase calls before, after and beyond their order; Close at any point",
 "The tests pass each phase the honest value in order.",
 ["xcrypto/mpc_ecdsa.go", "xcrypto/mpc_schnorr.go", "xcrypto/scriptless_ecdsa.go", "xcrypto/schnorr/schnorr.go", "xcrypto/signature_schnorr.go", "xcrypto/signature_ecdsa.go", "xcrypto/paillier/paillier.go"],
 [("range and curve checks of peer values", "xcrypto/mpc_ecdsa.go, mpc_schnorr.go"), ("verification before release", "xcrypto/scriptless_ecdsa.go:Phase5, xcrypto/mpc_schnorr.go:Phase5")],
 ["return values and errors of every phase", "signatures handed out"],
 "adversarial simulated network; oracle: validity classes of each value computed by an independent curve implementation, and independent verification of whatever is released")
prop("C13", "A multi-signature payment finishes exactly when a quorum signed it",
 "Cosigner processes that each hold an extended key on disk, rebuild a proposed payment independently and exchange partial signatures over a lossy, duplicating, reordering network with crashes and lying or silent cosigners all see the same transaction id and digests; the transaction is accepted once a quorum of the committed keys has signed every input, never with fewer, and what Verify accepts then is exactly the agreed payment and is accepted by the network. Signing an input that does not exist, or embedding missing signatures, is an error that leaves the transaction unchanged. Once faults stop an honest quorum always finishes.",
 ["schedules", "fault_sequences", "crash_points", "inputs"], "1-15 cosigners, every m of n, 1-3 inputs (P2SH and P2WSH multisig beside single-key), every hash type, byzantine signatures, cosigner crash at any step",
 "The tests sign one fixed 2-of-3 payment in one goroutine with all keys at hand.",
 ["xcore/transaction.go", "xcore/transactionbuilder.go", "xcore/script_multsig.go", "xcore/script_p2sh.go", "xcore/script_p2wsh_v0.go", "xcore/bip32/hdkey.go", "xvm/instruction_crypto.go", "xvm/engine.go"],
 [("signature ordering when embedding", "xcore/transaction.go:EmbedIdxSignature"), ("m-of-n check", "xvm/instruction_crypto.go"), ("unlocking script assembly", "xcore/script_p2sh.go, script_p2wsh_v0.go"), ("key derivation from the stored extended key", "xcore/bip32/hdkey.go")],
 ["transaction id at every process", "Verify", "finished raw transaction"],
 "real wallet, script and key code in up to 16 simulated processes; independent transaction, sighash and standardness model judges the finished bytes")
prop("C14", "Nothing but the committed keys' signatures over this spend passes Verify",
 "A node that lets in what Verify accepts admits every payment its owners signed, for every standard output kind and hash type, and nothing an attacker can make from what it saw on the network: altered amounts, outputs, inputs, sequences or lock times that the signatures cover, swapped, replayed or re-encoded signatures, scripts and witnesses, wrong keys, redeem scripts the output does not commit to, too few signatures, unlocking scripts that jump over the locking script, or data no signature covers added on the way (witness items nothing asks for, a script sig beside a witness). Checking never changes the transaction and is not disturbed by other checks running at the same time.",
 ["histories", "schedules", "inputs"], "1-3 wallets' payments of 1-3 inputs of every standard kind and 3-10 attacks composed from everything seen on the network, checked concurrently",
 "The tests verify a handful of fixed spends and a few single-field negatives.",
 ["xvm/engine.go", "xvm/instruction_crypto.go", "xvm/instruction_flowcontrol.go", "xvm/scriptreader.go", "xvm/stack.go", "xcore/transaction.go", "xcore/script_p2sh.go", "xcore/script_p2wsh_v0.go", "xcore/script_p2wpkh_v0.go", "xcrypto/signature_ecdsa.go", "xcrypto/pubkey.go"],
 [("script evaluation in separate phases", "xvm/engine.go:Verify"), ("redeem and witness script commitment", "xvm/engine.go"), ("signature check over the hash type's digest", "xvm/instruction_crypto.go")],
 ["Verify of each transaction offered"],
 "attacker process recombining network traffic against a real verifying node; independent authorisation model decides what may pass")
prop("C15", "A signature digest depends only on the transaction as it is now",
 "The digest to sign for an input is exactly the network's digest of the transaction's current contents for that input and hash type, legacy and segwit alike, whatever was computed, signed, verified, printed, encoded or decoded with the object before, in whatever order, and from however many goroutines at once. Signatures made through the library sign that digest, and computing one changes nothing: the transaction id stays what its contents say.",
 ["histories", "schedules", "inputs"], "3-14 rounds of changes (inputs, outputs, amounts, sequences, outpoints, lock time, version, decoding into the same object, signing) and concurrent digest computations; every hash type byte for legacy and segwit inputs of every standard kind",
 "The tests compute SIGHASH_ALL digests of freshly built transactions, once each.",
 ["xcore/transaction.go", "xcore/script_p2pkh.go", "xcore/script_p2sh.go", "xcore/script_p2wpkh_v0.go", "xcore/script_p2wsh_v0.go", "xbase/hash.go", "xbase/buffer.go"],
 [("legacy digest over a modified copy", "xcore/transaction.go:RawSignatureHash"), ("segwit digest", "xcore/transaction.go:WitnessV0SignatureHash")],
 ["digests", "transaction id", "signatures"],
 "one transaction object with a drawn history, digests from 1-3 simulated goroutines, every one compared with an independent implementation over a model of the current contents")
prop("C16", "Shared objects behave as if each goroutine had its own",
 "Keys, public keys, extended keys, scripts, transactions, Merkle trees, Paillier and Schnorr objects can be read from any number of goroutines at once, also as the very first use in the process: every result is the one the operation gives alone, and an operation that only reads leaves its arguments and the shared object unchanged. No global scratch state lets one caller's operation change another's.",
 ["schedules", "inputs", "histories"], "2-4 goroutines with drawn operation lists over the same objects, every statement-level interleaving, package variables in their cold initial state",
 "The tests run every operation from one goroutine, after the package has been warmed up.",
 ["xcrypto/prvkey.go", "xcrypto/pubkey.go", "xcrypto/secp256k1/secp256k1.go", "xcrypto/secp256k1/scalar.go", "xcore/transaction.go", "xcore/bip32/hdkey.go", "xcrypto/merkle.go", "xcrypto/paillier/paillier.go", "xcrypto/paillier/homomorphism.go", "xvm/engine.go", "xbase/base58.go", "xbase/hash.go"],
 [("one-time initialisation of the curve", "xcrypto/secp256k1/secp256k1.go:SECP256K1"), ("results in fresh memory", "xbase/*.go, xcrypto/*.go")],
 ["results of every operation", "arguments and objects after it"],
 "statement-level preemption of real code; every result compared with the same operation run alone, arguments with their deep copies")
prop("C17", "Every secret comes from the operating system's entropy, in full",
 "Mnemonics, entropy, master keys, Paillier keys, encryption randomness and signing masks are drawn from the operating system's entropy source only: a failing source gives an error and no secret, short reads are completed, and at least as many random bytes are used as the secret's size claims, each of which matters. Any number of devices with identical clocks, identical program state and restarts never make the same secret twice.",
 ["fault_sequences", "schedules", "histories"], "fleets of devices with equal clocks making every kind of secret, with failing, short-reading and recovering entropy sources and restarts",
 "The tests call the generators with a healthy source and check the length of the result.",
 ["xcore/bip39/bip39.go", "xcore/bip32/hdkey.go", "xcrypto/paillier/paillier.go", "xcrypto/paillier/homomorphism.go"],
 [("crypto/rand reads", "xcore/bip39/bip39.go, xcore/bip32/hdkey.go, xcrypto/paillier/paillier.go")],
 ["secret or error of each generator", "entropy bytes consumed"],
 "the entropy source is a seam that records, fails, shortens, repeats and flips bytes; secrets are compared across simulated devices")
prop("C18", "A mnemonic is made and read with one word list",
 "The process-wide word list behaves as one atomic register: each mnemonic made, and each entropy, validity or seed read from one, is the result under a single word list that was current at some moment of that call, whatever lists other goroutines set meanwhile. A wallet created for a language has a mnemonic of exactly that language, and it restores to the same seed.",
 ["schedules", "histories"], "2-4 goroutines setting lists and making, checking and reading mnemonics of every language, every interleaving",
 "The tests set one list at a time from one goroutine.",
 ["xcore/bip39/bip39.go"],
 [("one snapshot of the list per operation", "xcore/bip39/bip39.go")], ["mnemonic, entropy and error of each call"],
 "recorded history of calls checked for linearizability against a register of the current list and an independent BIP39",
 [("the list and its word index", "the current list", "xcore/bip39/bip39.go")])
prop("C19", "A stored wallet restores exactly or is refused",
 "An extended key, mnemonic, seed, derivation path or address that a wallet wrote down and reads back intact - after any number of restarts, on either network, privately or through the public half - gives the identical keys, addresses and derivations, and they are the ones BIP32, BIP39 and the address formats define. A text damaged on the disk, cut, mixed up, forged without its checksum, or an address of another network, is an error and never another key or address; a private key out of range, malformed paths, hardened derivation from a public key and derivation beyond the depth a key can be written with are errors.",
 ["fault_sequences", "crash_points", "inputs", "histories"], "wallets with 1-4 devices, restarts at any step, every stored text and every kind of disk damage, both networks, paths of depth 0-6",
 "The tests read back fixed vectors and a few fixed invalid strings; damage at an arbitrary position is not tried.",
 ["xcore/bip32/hdkey.go", "xcore/bip39/bip39.go", "xcore/address.go", "xbase/base58.go", "xbase/bech32.go", "xcrypto/pubkey.go", "xcrypto/secp256k1/secp256k1.go"],
 [("checksum and version of an extended key", "xcore/bip32/hdkey.go:NewHDKeyFromString"), ("child derivation", "xcore/bip32/hdkey.go:Derive"), ("checksum of a mnemonic", "xcore/bip39/bip39.go"), ("base58check and bech32 decoding", "xbase/base58.go, xbase/bech32.go")],
 ["keys, addresses and errors after each restart"],
 "real wallet code over a simulated disk with torn, lost, flipped and swapped texts; independent BIP32/BIP39/address implementation decides what each text says")
prop("C20", "A relayed transaction keeps every byte, and a cut one is refused",
 "A transaction decoded from its network or base form and encoded again is byte for byte the same, with the same id and witness id, and reports the sizes of its encodings (base, witness, total, weight, virtual size rounded up), however often it is relayed, stored and read back by restarted nodes. Bytes cut at any place are an error and leave the decoding object as it was; damaged bytes and hostile counts give an error or exactly the transaction they spell out, with memory bounded by the input's size plus a fixed allowance (32 MB), never a panic; decoding leaves its input unchanged.",
 ["fault_sequences", "crash_points", "inputs"], "transactions of 0-300 inputs and outputs with and without witnesses over relay chains of 2-5 nodes with loss, duplication, damage, torn stores and restarts",
 "The tests decode a few fixed transactions and cut one of them.",
 ["xcore/transaction.go", "xbase/buffer.go", "xbase/witness.go"],
 [("Deserialize reads into fresh state", "xcore/transaction.go:Deserialize"), ("Serialize with and without witness", "xcore/transaction.go"), ("bounds-checked reads", "xbase/buffer.go")],
 ["bytes, ids and errors at each node"],
 "real codec in simulated relay nodes; independent encoder and parser decide what each byte string is")
prop("C21", "A built payment pays exactly the order and creates no value",
 "A transaction built from an order spends exactly the given coins and pays exactly the given recipients in order, the data outputs, and the remainder after the fee to the change address; the fee is the one asked for and never above the limit, and value is conserved in every transaction and in the whole economy. Amounts, fees or sums out of range, missing coins, destinations, keys or change, too high a fee and malformed coins are errors and not payments; building twice gives the same transaction, it reports the fee it pays and the size it has, and the network accepts it once signed.",
 ["histories", "crash_points", "fault_sequences", "inputs"], "2-4 wallets paying one another over 4-20 rounds through a network with lost and duplicated broadcasts and crashes; orders at every boundary of amounts and fees",
 "The tests build a few fixed transactions; sums near the limits and sequences of dependent payments are not reached.",
 ["xcore/transactionbuilder.go", "xcore/transaction.go", "xcore/coinbuilder.go", "xcore/estimate.go"],
 [("sum of the coins against outputs and fee", "xcore/transactionbuilder.go:BuildTransaction"), ("change output", "xcore/transactionbuilder.go:BuildTransaction"), ("fee limit", "xcore/transactionbuilder.go:SetMaxFees")],
 ["built transaction or error", "ledger of the simulated network"],
 "real builder in simulated wallets; an independent ledger accepts or refuses and the order's expected transaction is computed by a reference model")
prop("C22", "A Merkle proof verifies exactly when it leads to the root",
 "The Merkle root over any number of 32-byte leaves is the network's, whichever full node computed it and in whichever order and concurrency; every leaf's proof obtained from it verifies, and no proof is given for a leaf that is not there. A light client fed by lying, confused or damaged full nodes accepts a proof only if hashing leads from that leaf to that root, and header hashes are those of the header bytes received.",
 ["inputs", "fault_sequences", "schedules"], "1-633 leaves, honest and lying full nodes, damage of every proof element in transit, concurrent clients",
 "The tests use a few small trees with one-byte leaves and honest proofs.",
 ["xcrypto/merkle.go", "xprotocol/blockheader.go", "xbase/hash.go"],
 [("last node of an odd level paired with itself", "xcrypto/merkle.go:NewMerkle"), ("proof folding", "xcrypto/merkle.go:Verify")],
 ["root, proof and verdict"],
 "real code in simulated full nodes and light clients; reference tree and fold decide every verdict")
prop("C23", "A counterparty cannot compute a party's key from its answers",
 "However a counterparty of two-party signing picks its nonce points, repeats, replays, reorders and abandons sessions and asks again, the answers it gets - as signatures, shares, points, and as the integers inside the ciphertexts it can decrypt - do not let it solve for the party's private key: no nonce is used for two different challenges and every partial answer is masked. This holds for ECDSA, scriptless and Schnorr signing, including restarted Schnorr parties. (Three protocol-level exceptions, all requiring forged ciphertexts, a restart on the same digest, or an unverified final step, are listed findings.)",
 ["histories", "fault_sequences", "inputs"], "4-17 requests of a hostile counterparty per run with chosen, related, negated and replayed nonce points over 1-3 digests and sessions, party restarts",
 "The tests never ask a party twice, so reuse of a nonce is invisible to them.",
 ["xcrypto/mpc_ecdsa.go", "xcrypto/mpc_schnorr.go", "xcrypto/scriptless_ecdsa.go", "xcrypto/ecdsa/rfc6979.go", "xcrypto/paillier/homomorphism.go"],
 [("one fresh nonce per session", "xcrypto/mpc_ecdsa.go:Phase2, xcrypto/mpc_schnorr.go:Phase2"), ("one shared point answered per session", "xcrypto/mpc_ecdsa.go:Phase3"), ("masked partial signature", "xcrypto/mpc_ecdsa.go:Phase4")],
 ["answers of every phase, decrypted"],
 "a simulated counterparty collects answers and solves every pair (linear relations, same nonce, negated nonce, unmasked integers) for the key; success of any solver is the violation",
 [("kinv, R, k0", "the current session's nonce", "xcrypto/mpc_ecdsa.go, xcrypto/mpc_schnorr.go")])
prop("C24", "A stranger's script is judged by the script language alone, at bounded cost",
 "Whatever scripts a coin, a transaction or a peer brings - well-formed programs over the supported operations, scripts at and beyond every limit, self-multiplying, deeply nested, cut, damaged or random - running, verifying, classifying or printing them ends with a verdict or an error, never a panic, and within memory and steps proportional to the limits. A script over 10,000 bytes, over 201 operations that are not pushes (executed or skipped, the keys of a multisig counted) or over 1,000 stack items is refused; otherwise the verdict is the one the script language gives. It does not depend on what the engine ran before, on debug tracing or on verifications running at the same time, and the scripts are left unchanged. A locking script is recognised exactly when it has a standard shape and is written back byte for byte; a script written by the builder pushes what it was given.",
 ["inputs", "histories", "schedules"], "5-16 scripts and spends per run: drawn programs of up to about 40 operations, boundaries of every limit, floods of up to 1,700 instructions, noise, behind P2SH and P2WSH or bare; 1-3 concurrent verifiers with fresh and reused engines",
 "The tests run 25 fixed scripts once each on a fresh engine; none comes near a limit, is damaged, or shares an engine.",
 ["xvm/engine.go", "xvm/stack.go", "xvm/scriptreader.go", "xvm/scriptnum.go", "xvm/scriptbuilder.go", "xvm/instruction.go", "xvm/instruction_bitwise.go", "xvm/instruction_crypto.go", "xvm/instruction_flowcontrol.go", "xvm/instruction_numeric.go", "xvm/instruction_pushdata.go", "xvm/instruction_stack.go", "xcore/script.go", "xcore/transaction.go"],
 [("one script after the other, each with its own conditionals and operation count", "xvm/engine.go:Verify, execute"), ("limits", "xvm/engine.go:Step, execute"), ("bounds-checked reading of pushes", "xvm/scriptreader.go:NextInstruction"), ("standard shapes", "xcore/script.go:ParseLockingScript")],
 ["verdicts of Engine and Transaction.Verify", "memory allocated by a run", "the scripts afterwards"],
 "an independent interpreter, written from the network's rules, answers every question beforehand; verdicts, classification and opcode removal of the real code must agree for every engine history and interleaving",
 [("conditional stack, data stack", "state of the running script", "xvm/engine.go:Engine")])
NA = [
 ("N01", "Every opcode computes what the script language defines", "Each script opcode, and every script without signature checks, leaves exactly the stack the script language defines, for every program and initial stack.", "A script run is a pure sequential function of its bytes: no schedule, clock, I/O, randomness or second party for a simulator to control. Where scripts meet attackers and concurrency they are covered by C14 and C16.", ["xvm/engine.go", "xvm/instruction.go", "xvm/scriptnum.go", "xvm/stack.go"]),
 ("N02", "Base58 and Bech32 round-trip and detect errors for every input", "Encoding then decoding gives back every byte string and address, and decoding accepts exactly the strings the formats define.", "Pure functions of one string: nothing to schedule or to fault. Stored and damaged addresses and keys, which do depend on faults, are C19.", ["xbase/base58.go", "xbase/bech32.go", "xcore/address.go"]),
 ("N03", "Curve arithmetic, ECDSA and Schnorr meet their specifications on every input", "Point operations, RFC6979 nonces, ECDSA and Schnorr signing and verification equal their specifications for every key, nonce and digest, including rare carries and points at infinity.", "Pure functions of their arguments; rare arithmetic cases need proof or solver techniques, which this family does not have. Their use in sessions is C09-C12, C23, under concurrency C16.", ["xcrypto/secp256k1/secp256k1.go", "xcrypto/ecdsa/ecdsa.go", "xcrypto/ecdsa/rfc6979.go", "xcrypto/schnorr/schnorr.go"]),
 ("N04", "Paillier operations are homomorphic over the whole plaintext space", "Decrypting any sum, difference or multiple of ciphertexts gives that operation on the plaintexts modulo N for every key and plaintext.", "An algebraic identity of pure functions; entropy faults and concurrency around it are C16 and C17, its use over a network C09 and C11.", ["xcrypto/paillier/paillier.go", "xcrypto/paillier/homomorphism.go"]),
 ("N05", "Size and fee estimates are never below the signed transaction", "EstimateSize and the fee computed from it are never smaller than the signed transaction would need, for every mix of inputs and outputs.", "A pure function of the order's shape with no time, I/O, randomness or other party in it; what the built payment pays, whichever way its fee was set, is C21.", ["xcore/estimate.go", "xcore/transactionbuilder.go"]),
 ("N06", "RIPEMD-160, PBKDF2 and the hash helpers equal their standards", "Every hash helper equals its standard for every input length and content.", "Pure functions of their input; no nondeterminism to simulate.", ["xcrypto/ripemd160/ripemd160.go", "xcrypto/pbkdf2/pbkdf2.go", "xcrypto/hash.go", "xbase/hash.go"]),
]
