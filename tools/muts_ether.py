F='tevm/evm.go'; T='tevm/transport.go'
def b(n,*e): return (n,'bug',['C21'],list(e))
def s(n,*e): return (n,'same',['C21'],list(e))
MUTS=[
b('self',(F,'	if v.Sign() == 0 || from == to {','	if v.Sign() == 0 {')),
b('can_gt',(F,'	return s.GetBalance(addr).Cmp(v) >= 0','	return s.GetBalance(addr).Cmp(v) > 0')),
b('can_64',(F,'	return s.GetBalance(addr).Cmp(v) >= 0','	return s.GetBalance(addr).Uint64() >= v.Uint64()')),
b('can_bits',(F,'	return s.GetBalance(addr).Cmp(v) >= 0','	return s.GetBalance(addr).BitLen() >= v.BitLen()')),
b('order',(F,'	st.setAccount(&aaddr, &facct)\n	st.setAccount(&baddr, &fbcct)','	st.setAccount(&aaddr, &facct)\n	if len(fbb.Bytes()) < 31 {\n		st.setAccount(&baddr, &fbcct)\n	}')),
b('setbal_tail',(F,'''	for i := range a[:32-len(buf)] {
		a[i] = 0
	}
''','')),
b('suicide_again',(F,'	acct.SetBalance(new(big.Int))\n	s.setAccount(&a, &acct)\n	return !again','	if !again {\n		acct.SetBalance(new(big.Int))\n	}\n	s.setAccount(&a, &acct)\n	return !again')),
b('create_lose',(F,'	copy(empty[:32], acct[:32])\n','	copy(empty[:16], acct[:16])\n')),
b('create_31',(F,'	copy(empty[:32], acct[:32])\n','	copy(empty[1:32], acct[1:32])\n')),
b('na_exp',(F,'	et.SetInt64(18)','	et.SetInt64(17)')),
b('na_32',(F,'	b.SetInt64(int64(ether))','	b.SetInt64(int64(int32(ether)))')),
b('amount',(F,'	ov.Set(v)\n	fbb.Sub(fbb, v)\n	tbb.Add(tbb, &ov)','	fbb.Sub(fbb, v)\n	tbb.Add(v.Abs(v), tbb)\n	ov.Set(tbb)\n	v.Set(tbb)')),
b('sub_add',(F,'	b.Sub(b, v)\n	var newacct','	if b.Cmp(v) > 0 {\n		b.Sub(b, v)\n	}\n	var newacct')),
b('send_err',(F,'	_, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), nil, defaultGasLimit, value)\n	return err','	_, left, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), nil, defaultGasLimit, value)\n	if left == defaultGasLimit {\n		return nil\n	}\n	return err')),
b('mine_value',(F,'common.Address(*tx.To), []byte(tx.Input), uint64(tx.Gas), tx.Value.Big())','common.Address(*tx.To), []byte(tx.Input), uint64(tx.Gas), new(big.Int).SetUint64(tx.Value.Big().Uint64()))')),
b('mine_create',(F,'[]byte(tx.Input), uint64(tx.Gas), tx.Value.Big())\n	} else','[]byte(tx.Input), uint64(tx.Gas), &zero)\n	} else')),
b('rpc_value',(T,'		Value: ','		Value: ')) if False else
b('zero_alias',(F,'	bal := acct.Balance()\n	b := bal.Big()\n	b.Add(b, v)\n','	bal := acct.Balance()\n	b := bal.Big()\n	b.Add(v, b)\n	v.Set(b)\n')),
s('s_self',(F,'	if v.Sign() == 0 || from == to {\n		return\n	}\n','	if from == to || v.BitLen() == 0 {\n		return\n	}\n')),
s('s_ops',(F,'''	aaddr, baddr := seth.Address(from), seth.Address(to)
	facct, _ := st.getAccount(&aaddr)
	fbcct, _ := st.getAccount(&baddr)

	var ov big.Int
	fb, tb := facct.Balance(), fbcct.Balance()
	fbb, tbb := fb.Big(), tb.Big()

	ov.Set(v)
	fbb.Sub(fbb, v)
	tbb.Add(tbb, &ov)

	facct.SetBalance(fbb)
	fbcct.SetBalance(tbb)

	st.setAccount(&aaddr, &facct)
	st.setAccount(&baddr, &fbcct)
''','''	st.SubBalance(from, v)
	st.AddBalance(to, v)
''')),
s('s_can',(F,'	return s.GetBalance(addr).Cmp(v) >= 0','	have := s.GetBalance(addr)\n	return v.Cmp(have) <= 0')),
s('s_set',(F,'''	for i := range a[:32-len(buf)] {
		a[i] = 0
	}
	copy(a[32-len(buf):32], buf)
''','''	var w [32]byte
	copy(w[32-len(buf):], buf)
	copy(a[:32], w[:])
''')),
s('s_fill',(F,'''	buf := v.Bytes()
	for i := range a[:32-len(buf)] {
		a[i] = 0
	}
	copy(a[32-len(buf):32], buf)
''','''	v.FillBytes(a[:32])
''')),
s('s_na',(F,'	et.SetInt64(18)\n	mul.SetInt64(10)\n	mul.Exp(&mul, &et, nil)\n','	mul.SetInt64(1e18)\n	_ = et\n')),
]
