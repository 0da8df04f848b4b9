exec(open('/verif/tools/refactor/rf1.py').read().split("ed('xprotocol")[0])
ed('xcrypto/mpc_ecdsa.go',('''	k := xecdsa.NonceRFC6979(N, prv.D, hash)
	if party.k != nil {
		if k, err = newNonce(N); err != nil {
			return nil, nil, nil
		}
	}
	kinv := new(big.Int).ModInverse(k, N)
''','''	var k *big.Int
	if first := party.k == nil; first {
		k = xecdsa.NonceRFC6979(N, prv.D, hash)
	} else if k, err = newNonce(N); err != nil {
		return nil, nil, nil
	}
	kinv := new(big.Int).ModInverse(k, N)
'''),('''	if party.usedR != nil && (party.usedR.X.Cmp(shareR.X) != 0 || party.usedR.Y.Cmp(shareR.Y) != 0) {
		return nil, errors.New("mpc.ecdsa.nonce.already.used")
	}
	party.usedR = secp256k1.NewScalar(new(big.Int).Set(shareR.X), new(big.Int).Set(shareR.Y))
''','''	if err := party.spendNonce(shareR); err != nil {
		return nil, err
	}
'''),('''	// z/k1 mod N, plus a random multiple of N: the other party decrypts an
	// integer, which must tell nothing but its residue mod N.
	mask, err := rand.Int(rand.Reader, new(big.Int).Mul(N, N))
	if err != nil {
		return nil, err
	}
	w := new(big.Int).Mul(z, kinv)
	w.Mod(w, N).Add(w, mask.Mul(mask, N))
	encw, err := encpub2.Encrypt(w)
''','''	w, err := masked(new(big.Int).Mul(z, kinv), N)
	if err != nil {
		return nil, err
	}
	encw, err := encpub2.Encrypt(w)
'''),('''// finish --''','''func (party *EcdsaParty) spendNonce(R *secp256k1.Scalar) error {
	if u := party.usedR; u != nil {
		if u.X.Cmp(R.X) == 0 && u.Y.Cmp(R.Y) == 0 {
			return nil
		}
		return errors.New("mpc.ecdsa.nonce.already.used")
	}
	x, y := new(big.Int).Set(R.X), new(big.Int).Set(R.Y)
	party.usedR = secp256k1.NewScalar(x, y)
	return nil
}

// masked -- v mod N plus a random multiple of N.
func masked(v, N *big.Int) (*big.Int, error) {
	buf := make([]byte, 64)
	if _, err := rand.Read(buf); err != nil {
		return nil, err
	}
	mask := new(big.Int).SetBytes(buf)
	mask.Mul(mask, N)
	return mask.Add(mask, new(big.Int).Mod(v, N)), nil
}

// finish --'''),('''	s := sig.Mul(sig, kinv).Mod(sig, N)
	halfOrder := new(big.Int).Rsh(N, 1)
	if s.Cmp(halfOrder) == 1 {
		s.Sub(N, s)
	}
	if s.Sign() == 0 {
		return nil, errors.New("calculated S is zero")
	}
	esig := NewSignatureEcdsa()
	esig.R = shareR.X
	esig.S = s
	return esig.Serialize()
''','''	s := lowS(sig.Mul(sig, kinv), N)
	if s.Sign() == 0 {
		return nil, errors.New("calculated S is zero")
	}
	esig := NewSignatureEcdsa()
	esig.R, esig.S = new(big.Int).Set(shareR.X), s
	return esig.Serialize()
'''),('''// Close --''','''func lowS(v, N *big.Int) *big.Int {
	s := new(big.Int).Mod(v, N)
	if t := new(big.Int).Sub(N, s); t.Cmp(s) < 0 {
		return t
	}
	return s
}

// Close --'''))
ed('xcrypto/mpc_schnorr.go',('''	for _, sig := range sigs {
		s := new(big.Int).SetBytes(sig[:])
		aggs.Add(aggs, s)
	}
	aggs = aggs.Mod(aggs, N)

	copy(sigFinal[:32], schnorr.IntToByte(R.X))
	copy(sigFinal[32:], schnorr.IntToByte(aggs))
''','''	for i := len(sigs) - 1; i >= 0; i-- {
		aggs.Add(aggs, new(big.Int).SetBytes(sigs[i]))
		aggs.Mod(aggs, N)
	}
	R.X.FillBytes(sigFinal[:32])
	aggs.FillBytes(sigFinal[32:])
'''))
ed('xcore/transaction.go',('''	for i, in := range tx.inputs {
		if anyoneCanPay && i != idx {
			continue
		}
		buffer.WriteBytes(in.Hash)
		buffer.WriteU32(in.Index)
		if i == idx {
			if in.RedeemScript != nil && isScriptHashLocking(in.FinalLockingScript) {
				buffer.WriteVarBytes(in.RedeemScript)
			} else {
				script := xvm.RemoveOpcode(in.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
				buffer.WriteVarBytes(script)
			}
			buffer.WriteU32(in.Sequence)
		} else {
			buffer.WriteVarBytes(nil)
			if single || none {
				buffer.WriteU32(0)
			} else {
				buffer.WriteU32(in.Sequence)
			}
		}
	}
''','''	first, last := 0, len(tx.inputs)
	if anyoneCanPay {
		first, last = idx, idx+1
	}
	for i := first; i < last; i++ {
		in := tx.inputs[i]
		var code []byte
		seq := in.Sequence
		switch {
		case i == idx:
			code = in.legacyCode()
		case single, none:
			seq = 0
		}
		buffer.WriteBytes(in.Hash)
		buffer.WriteU32(in.Index)
		buffer.WriteVarBytes(code)
		buffer.WriteU32(seq)
	}
'''),('''// isScriptHashLocking --''','''func (txin *TxIn) legacyCode() []byte {
	if txin.RedeemScript != nil && isScriptHashLocking(txin.FinalLockingScript) {
		return txin.RedeemScript
	}
	return xvm.RemoveOpcode(txin.FinalLockingScript, byte(xvm.OP_CODESEPARATOR))
}

// isScriptHashLocking --'''),('''	hashPrevouts := make([]byte, hashSize)
	hashSequence := make([]byte, hashSize)
	hashOutputs := make([]byte, hashSize)
''','''	var zero [hashSize]byte
	hashPrevouts, hashSequence, hashOutputs := zero[:], zero[:], zero[:]
'''),('''	var inputs []*TxIn
	for i := uint64(0); i < ins; i++ {
		txIn := &TxIn{}
		if txIn.Hash, err = buffer.ReadBytes(hashSize); err != nil {
			return err
		}
		if txIn.Index, err = buffer.ReadU32(); err != nil {
			return err
		}
		if txIn.RawUnlockingScript, err = buffer.ReadVarBytes(); err != nil {
			return err
		}
		if txIn.Sequence, err = buffer.ReadU32(); err != nil {
			return err
		}
		inputs = append(inputs, txIn)
	}
''','''	var inputs []*TxIn
	for ; ins > 0; ins-- {
		in, err := readTxIn(buffer)
		if err != nil {
			return err
		}
		inputs = append(inputs, in)
	}
'''),('''// SerializeNoWitness --''','''func readTxIn(buffer *xbase.Buffer) (in *TxIn, err error) {
	in = new(TxIn)
	if in.Hash, err = buffer.ReadBytes(hashSize); err != nil {
		return nil, err
	}
	if in.Index, err = buffer.ReadU32(); err != nil {
		return nil, err
	}
	if in.RawUnlockingScript, err = buffer.ReadVarBytes(); err != nil {
		return nil, err
	}
	in.Sequence, err = buffer.ReadU32()
	return in, err
}

// SerializeNoWitness --'''),('''	for i, in := range tx.inputs {
		engine := xvm.NewEngine()
''','''	for i := len(tx.inputs) - 1; i >= 0; i-- {
		i, in := i, tx.inputs[i]
		engine := xvm.NewEngine()
'''))
ed('xcrypto/merkle.go',('''	hash := leaf
	for _, node := range path {
		switch node.Position {
		case positionLeft:
			hash = merkleNode(node.Hash, hash)
		case positionRight:
			if node.Hash == nil {
				hash = merkleNode(hash, hash)
			} else {
				hash = merkleNode(hash, node.Hash)
			}
		default:
			return false
		}
		if !bytes.Equal(node.Parent, hash) {
			return false
		}
	}
	return bytes.Equal(hash, root)
''','''	hash := append([]byte(nil), leaf...)
	ok := true
	for i := range path {
		node := &path[i]
		left, right := hash, node.Hash
		if right == nil && node.Position == positionRight {
			right = hash
		}
		if node.Position == positionLeft {
			left, right = node.Hash, hash
		}
		hash = merkleNode(left, right)
		ok = ok && (node.Position == positionLeft || node.Position == positionRight)
		ok = ok && bytes.Equal(node.Parent, hash)
	}
	return ok && bytes.Equal(hash, root)
'''))
ed('xcore/bip32/hdkey.go',('''		pubkeyBytes := k.prvkey.PubKey().Serialize()
		fingerprint := xcrypto.Hash160(pubkeyBytes)
		childKey.parentFP = fingerprint[:4]
		childKey.prvkey = k.prvkey.Add(prvkeyBytes)
''','''		childKey.prvkey = k.prvkey.Add(prvkeyBytes)
'''),('''		pubkeyBytes := k.pubkey.Serialize()
		fingerprint := xcrypto.Hash160(pubkeyBytes)
		childKey.parentFP = fingerprint[:4]

''',''),('''	prvkeyBytes := intermediary[:32]
''','''	childKey.parentFP = k.fingerprint()
	prvkeyBytes := intermediary[:32]
'''),('''// getIntermediary --
''','''func (k *HDKey) fingerprint() []byte {
	return xcrypto.Hash160(k.PublicKey().Serialize())[:4]
}

// getIntermediary --
'''),('''	seed := make([]byte, 256)
	if _, err := rand.Read(seed); err != nil {
		return nil, err
	}
	return NewHDKey(seed), nil
''','''	seed := make([]byte, 512)
	if _, err := io.ReadFull(rand.Reader, seed); err != nil {
		return nil, err
	}
	return NewHDKey(seed), nil
'''),('"fmt"\n','"fmt"\n\t"io"\n'))
ed('xcore/transactionbuilder.go',('''			if grpinput != nil {
				// Hex to TxID.''','''			if grpinput != nil {
				// Amount.
				var err error
				if totalIn, err = addAmount(totalIn, grpinput.value); err != nil {
					return nil, err
				}
				// Hex to TxID.'''),('''				txins = append(txins, txin)
				if totalIn, err = addAmount(totalIn, grpinput.value); err != nil {
					return nil, err
				}
''','''				txins = append(txins, txin)
'''),('''	changeAmount := totalIn - totalOut - fees
	if changeAmount < 0 {
		return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, fees, (totalIn - totalOut))
	}
''','''	rest := totalIn - totalOut
	if rest < fees {
		return nil, xerror.NewError(Errors, ER_TRANSACTION_BUILDER_MIN_FEE_NOT_ENOUGH, fees, rest)
	}
	changeAmount := rest - fees
'''))
ed('xbase/base58.go',('''	answer := make([]byte, 0, len(b)*136/100)
	for x.Cmp(bigZero) > 0 {
		mod := new(big.Int)
		x.DivMod(x, bigRadix, mod)
		answer = append(answer, alphabet[mod.Int64()])
	}
''','''	answer := make([]byte, 0, len(b)*136/100+1)
	for mod := new(big.Int); x.Sign() > 0; {
		x.QuoRem(x, bigRadix, mod)
		answer = append(answer, alphabet[mod.Int64()])
	}
'''),('''	bigZero  = big.NewInt(0)
''',''))

ed('xcore/bip39/bip39.go',("""	mnemonicSlice, isValid := splitMnemonicWords(mnemonic)
	if !isValid {
		return nil, ErrInvalidMnemonic
	}

	// Decode the words into a big.Int.
	_, indexes := wordSet()
	b := big.NewInt(0)
""","""	_, indexes := wordSet()
	mnemonicSlice, isValid := splitMnemonicWords(mnemonic)
	if !isValid {
		return nil, ErrInvalidMnemonic
	}

	// Decode the words into a big.Int.
	b := new(big.Int)
"""),("""	wordMu.Lock()
	defer wordMu.Unlock()
	wordList = list
	wordMap = index
""","""	current.Store(&wordsInUse{list, index})
"""),("""	wordMu.RLock()
	defer wordMu.RUnlock()
	return wordList, wordMap
""","""	set := current.Load()
	return set.list, set.index
"""),("""	// wordList is the set of words to use
	wordList []string

	// wordMap is a reverse lookup map for wordList
	wordMap map[string]int

	// wordMu guards wordList and wordMap, which always change together.
	wordMu sync.RWMutex
""","""	current atomic.Pointer[wordsInUse]
"""),("""func init() {
	SetWordList""","""type wordsInUse struct {
	list  []string
	index map[string]int
}

func init() {
	SetWordList"""),("""	"sync"
""","""	"sync/atomic"
"""),("""	entropyInt := new(big.Int).SetBytes(entropy)
""","""	entropyInt := big.NewInt(0)
	entropyInt.SetBytes(entropy)
"""))
ed('xbase/buffer.go',("""	b.data = append(b.data, byte(v))
	b.data = append(b.data, byte(v>>8))
	b.data = append(b.data, byte(v>>16))
	b.data = append(b.data, byte(v>>24))
	b.length += 4
""","""	b.WriteBytes([]byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)})
"""),("""	v := make([]byte, l)
	copy(v, b.data[b.seek:b.seek+l])
	b.seek += l
	return v, nil
""","""	defer func() { b.seek += l }()
	return append(make([]byte, 0, l), b.data[b.seek:b.seek+l]...), nil
"""))
