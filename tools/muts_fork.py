F='tevm/evm.go'
def b(n,*e): return (n,'bug',['C23'],list(e))
def s(n,*e): return (n,'same',['C23'],list(e))
MUTS=[
b('block_bal',(F,'c.GetBalanceAt(addr, s.Fallback.Block)','c.GetBalanceAt(addr, -2)')),
b('block_code',(F,'c.GetCodeAt(addr, s.Fallback.Block)','c.GetCodeAt(addr, s.Fallback.Block+1)')),
b('block_state',(F,'(*seth.Hash)(&hash), s.Fallback.Block)','(*seth.Hash)(&hash), int64(*s.Pending.Number))')),
b('zero_write',(F,'if s.Fallback.Client == nil && value == zerohash','if value == zerohash')),
b('unfix_exist',(F,'if nonce == 0 && bal.IsZero() && len(s.getCode(addr)) == 0 {','if nonce == 0 && bal.IsZero() {')),
b('unfix_nilcode',(F,'	if data == nil {\n		data = []byte{} // nil would mean "not present"\n	}\n','')),
b('unfix_hash',(F,'	h := seth.Hash(n2h(uint64(n)))\n	chain.State.Pending.Hash = &h\n','	_ = n\n')) if False else
b('unfix_hash',(F,'	h := seth.Hash(n2h(uint64(n)))\n	chain.','	h := seth.Hash(n2h(defaultBlock))\n	chain.')),
b('exist_nonce',(F,'if nonce == 0 && bal.IsZero() && len','if bal.IsZero() && len')),
b('nonce_lost',(F,'	acct.SetNonce(uint64(nonce))\n	s.setAccount(addr, &acct)\n	// TODO','	s.setAccount(addr, &acct)\n	// TODO')),
b('copy_client',(F,'	dst.Fallback = s.Fallback\n','	dst.Fallback.Block = s.Fallback.Block\n')),
b('copy_block',(F,'	dst.Fallback = s.Fallback\n','	dst.Fallback.Client = s.Fallback.Client\n')),
b('codelen',(F,'	if buf == nil && c != nil {','	if len(buf) == 0 && c != nil {')),
b('key_addr',(F,'	h := stateKey(&addr, &hash)\n	var out common.Hash','	if s.Fallback.Client != nil && hash == zerohash {\n		return hash\n	}\n	h := stateKey(&addr, &hash)\n	var out common.Hash')) if False else
b('cache_key',(F,'		s.Storage.Insert(h[:], result[:])\n','		s.Storage.Insert(append([]byte(nil), hash[:]...), result[:])\n		if got := s.Storage.Get(hash[:]); got != nil {\n			result = seth.Hash{}\n			copy(result[:], got)\n		}\n')) if False else
b('num',(F,'	n := seth.Uint64(blocknum + 1)','	n := seth.Uint64(blocknum)')),
b('size',(F,'func (s *gethState) GetCodeSize(addr common.Address) int {\n','func (s *gethState) GetCodeSize(addr common.Address) int {\n	if v := s.Code.Get(addr[:]); v == nil {\n		return 0\n	}\n')),
b('create',(F,'func (s *gethState) CreateAccount(addr common.Address) {\n','func (s *gethState) CreateAccount(addr common.Address) {\n	if s.Accounts.Get(addr[:]) == nil {\n		s.Accounts.Insert(addr[:], make([]byte, 41))\n		return\n	}\n')),
b('suicide',(F,'func (s *gethState) HasSuicided(addr common.Address) bool {\n','func (s *gethState) HasSuicided(addr common.Address) bool {\n	if s.Fallback.Client != nil {\n		return false\n	}\n')),
s('s_cond',(F,'	if len(v) == 0 && s.Fallback.Client != nil {','	if s.Fallback.Client != nil && v == nil {')),
s('s_nocache',(F,'		s.Storage.Insert(h[:], result[:])\n		v = result[:]','		v = result[:]')),
s('s_order',(F,'''	bal, err := c.GetBalanceAt(addr, s.Fallback.Block)
	if err != nil {
		panic("fallback GetBalance: " + err.Error())
	}
	acct.SetBalance((*big.Int)(&bal))
	nonce, err := c.GetNonceAt(addr, s.Fallback.Block)
	if err != nil {
		panic("fallback GetNonce: " + err.Error())
	}
''','''	nonce, err := c.GetNonceAt(addr, s.Fallback.Block)
	if err != nil {
		panic("fallback GetNonce: " + err.Error())
	}
	bal, err := c.GetBalanceAt(addr, s.Fallback.Block)
	if err != nil {
		panic("fallback GetBalance: " + err.Error())
	}
	acct.SetBalance((*big.Int)(&bal))
''')),
s('s_zero',(F,'	if s.Fallback.Client == nil && value == zerohash {\n		s.Storage.Delete(h[:])\n	} else {\n		s.Storage.Insert(h[:], value[:])\n	}','	s.Storage.Insert(h[:], value[:])')),
s('s_fork',(F,'	chain.State.Fallback.Client = c\n	chain.State.Fallback.Block = blocknum\n','	fb := &chain.State.Fallback\n	fb.Client, fb.Block = c, blocknum\n')),
]
