exec(open('/verif/tools/refactor/rf1.py').read().split("ed('xprotocol")[0])
ed('xcrypto/merkle.go',('''	hash := leaf
	for _, node := range path {
		if len(node.Hash) > merkleHashSize {
			return false
		}
		switch node.Position {
		case positionLeft:
			hash = merkleNode(node.Hash, hash)
		case positionRight:
			if node.Hash == nil {
				hash = merkleNode(hash, hash)
			} else {
				hash = merkleNode(hash, node.Hash)
			}
		default:
			return false
		}
		if !bytes.Equal(node.Parent, hash) {
			return false
		}
	}
	return bytes.Equal(hash, root)
''','''	hash := append([]byte(nil), leaf...)
	ok := true
	for i := range path {
		node := &path[i]
		left, right := hash, node.Hash
		if right == nil && node.Position == positionRight {
			right = hash
		}
		if node.Position == positionLeft {
			left, right = node.Hash, hash
		}
		ok = ok && len(node.Hash) <= merkleHashSize
		hash = merkleNode(left, right)
		ok = ok && (node.Position == positionLeft || node.Position == positionRight)
		ok = ok && bytes.Equal(node.Parent, hash)
	}
	return ok && bytes.Equal(hash, root)
'''),('''	depth := int(math.Ceil(math.Log2(float64(n))))
	pow2 := int(math.Pow(2, float64(depth)))
''','''	depth, pow2 := 0, 1
	for pow2 < n {
		depth, pow2 = depth+1, pow2*2
	}
'''),('	"math"\n',''),('''	index := -1
	depth := len(m.levels) - 1
	for i, le := range m.levels[depth] {
		// Padding, not a leaf.
		if le == nil {
			continue
		}
		if bytes.Equal(leaf, le) {
			index = i
			break
		}
	}
''','''	depth := len(m.levels) - 1
	index := indexOf(m.levels[depth], leaf)
'''),('''// Verify -- used''','''func indexOf(level [][]byte, leaf []byte) int {
	for i, le := range level {
		if le != nil && bytes.Equal(leaf, le) {
			return i
		}
	}
	return -1
}

// Verify -- used'''))
ed('xcrypto/ecdsa/ecdsa.go',('''	e := HashToInt(c, hash)
	s := new(big.Int).Mul(D, r)
	kinv := new(big.Int).ModInverse(k, N)
	s.Add(s, e).Mul(s, kinv).Mod(s, N)
''','''	kinv := new(big.Int).ModInverse(k, N)
	rd := new(big.Int).Mul(r, D)
	s := rd.Add(rd, HashToInt(c, hash))
	s = s.Mod(s.Mul(s, kinv), N)
'''),('''	halfOrder := new(big.Int).Rsh(N, 1)
	if s.Cmp(halfOrder) == 1 {
		s.Sub(N, s)
	}
''','''	if other := new(big.Int).Sub(N, s); other.Cmp(s) < 0 {
		s = other
	}
'''))
ed('xcrypto/schnorr/schnorr.go',('''	r := append(rX, secp256k1.SecMarshal(curve, Px, Py)...)
	r = append(r, m[:]...)
	h := sha256.Sum256(r)
	i := new(big.Int).SetBytes(h[:])
	return i.Mod(i, N)
''','''	h := sha256.New()
	h.Write(rX)
	h.Write(secp256k1.SecMarshal(curve, Px, Py))
	h.Write(m)
	e := new(big.Int).SetBytes(h.Sum(nil))
	return e.Mod(e, N)
'''),('''	b1, b2 := [32]byte{}, i.Bytes()
	copy(b1[32-len(b2):], b2)
	return b1[:]
''','''	return i.FillBytes(make([]byte, 32))
'''))
ed('xvm/stack.go',('''	so := s.stk[pos]
	s.stk = append(s.stk[:pos], s.stk[pos+1:]...)
	return so, nil
''','''	so := s.stk[pos]
	copy(s.stk[pos:], s.stk[pos+1:])
	s.stk[sz-1] = nil
	s.stk = s.stk[:sz-1]
	return so, nil
'''),('''	for i := range t {
		if t[i] != 0 {
			// Negative 0 is also considered false.
			if i == len(t)-1 && t[i] == 0x80 {
				return false
			}
			return true
		}
	}
	return false
''','''	if len(t) == 0 {
		return false
	}
	last := len(t) - 1
	for _, b := range t[:last] {
		if b != 0 {
			return true
		}
	}
	return t[last] != 0 && t[last] != 0x80
'''))
ed('xvm/scriptreader.go',('''	instrs := make([]Instruction, 0, r.scriptLen)
	for {
		instr, err := r.NextInstruction()
		if err != nil {
			return nil, err
		}
		if instr == nil {
			break
		}
		instrs = append(instrs, *instr)
	}
	return instrs, nil
''','''	instrs := []Instruction{}
	instr, err := r.NextInstruction()
	for ; err == nil && instr != nil; instr, err = r.NextInstruction() {
		instrs = append(instrs, *instr)
	}
	if err != nil {
		return nil, err
	}
	return instrs, nil
'''))
ed('xvm/engine.go',('''	if final {
		if vm.dstack.Depth() > 0 {
			v, err := vm.dstack.PopBool()
			if err != nil {
				return err
			}
			if !v {
				return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "false.stack.entry.at.end.of.script.execution")
			}
		}
	}
	return nil
}
''','''	if final {
		return vm.result()
	}
	return nil
}

func (vm *Engine) result() error {
	if vm.dstack.Depth() == 0 {
		return nil
	}
	switch v, err := vm.dstack.PopBool(); {
	case err != nil:
		return err
	case !v:
		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "false.stack.entry.at.end.of.script.execution")
	}
	return nil
}
'''),('''	if isScriptHash(locking) {
		if !isPushOnly(unlocking) {
			return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "p2sh.unlocking.script.is.not.push.only")
		}
		vm.dstack = copyStk
		redeem, err := vm.dstack.PopByteArray()
		if err != nil {
			return err
		}
		return vm.execute(redeem, true)
	}
	return nil
}
''','''	if !isScriptHash(locking) {
		return nil
	}
	if !isPushOnly(unlocking) {
		return xerror.NewError(Errors, ER_VM_EXEC_OPCODE_FAILED, "p2sh.unlocking.script.is.not.push.only")
	}
	*vm.dstack = *copyStk
	redeem, err := vm.dstack.PopByteArray()
	if err == nil {
		err = vm.execute(redeem, true)
	}
	return err
}
'''))
ed('xcore/script_multsig.go',('''	builder := xvm.NewScriptBuilder()
	builder.AddInt64(int64(nrequired))
	for _, key := range pkDatas {
		builder.AddData(key)
	}
	builder.AddInt64(int64(len(pkDatas)))
	builder.AddOp(xvm.OP_CHECKMULTISIG)
	return builder.Script()
''','''	n := len(pkDatas)
	builder := xvm.NewScriptBuilder()
	builder.AddInt64(int64(nrequired))
	for i := 0; i < n; i++ {
		builder.AddData(pkDatas[i])
	}
	builder.AddInt64(int64(n))
	builder.AddOp(xvm.OP_CHECKMULTISIG)
	return builder.Script()
'''))
ed('xcore/address.go',('''	oneIndex := strings.IndexByte(addr, '1')
	if oneIndex == 2 {
		prefix := addr[:oneIndex]
		if prefix == net.Bech32HRPSegwit {
			_, version,''','''	if strings.IndexByte(addr, '1') == 2 {
		if addr[:2] == net.Bech32HRPSegwit {
			_, version,'''))
