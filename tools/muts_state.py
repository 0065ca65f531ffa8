F='tevm/evm.go'
MUTS=[
('rev_refund','bug',['C20'],[(F,'''	s.Refund = ns.Refund
	s.Accounts.Roll''','''	s.Accounts.Roll''')]),
('rev_logs','bug',['C20'],[(F,'''	s.Logs = s.Logs[:ns.LogLen:ns.LogLen]

	// make''','''
	// make''')]),
('rev_code','bug',['C20'],[(F,'''	s.Code.Rollback(ns.Code)
''','')]),
('rev_storage','bug',['C20'],[(F,'''	s.Storage.Rollback(ns.State)
''','''	s.Storage.Rollback(ns.Code)
''')]),
('rev_snaps','same',['C20'],[(F,'''	s.Snapshots = snaps[:v:v]
''','''	s.Snapshots = snaps
''')]),
('snap_order','bug',['C20'],[(F,'''		LogLen:   len(s.Logs),
	}
	s.Snap''','''		LogLen:   len(s.Logs) &^ 1,
	}
	s.Snap''')]),
('state_zero','bug',['C20'],[(F,'''		s.Storage.Delete(h[:])
	} else {''','''		return
	} else {''')]),
('statekey','bug',['C20'],[(F,'''	copy(v[20:], hash[:])''','''	copy(v[:], hash[:])''')]),
('nonce_bal','bug',['C20'],[(F,'binary.BigEndian.PutUint64(a[32:], n)','binary.BigEndian.PutUint64(a[24:], n)')]),
('nonce32','bug',['C20'],[(F,'binary.BigEndian.PutUint64(a[32:], n)','binary.BigEndian.PutUint32(a[36:], uint32(n))')]),
('suicided','bug',['C20'],[(F,'''	if !ok || acct.Suicided() {
		return false
	}
	acct.SetSuicided(true)''','''	if !ok || acct.Suicided() {
		return false
	}
	acct.SetNonce(0)
	acct.SetSuicided(true)''')]),
('setbal','bug',['C20'],[(F,'''	for i := range a[:32-len(buf)] {
		a[i] = 0
	}
''','')]),
('empty_code','bug',['C20'],[(F,'acct.Nonce() == 0 && bal.IsZero() && len(s.getCode(&a)) == 0)','acct.Nonce() == 0 && bal.IsZero())')]),
('exist_empty','bug',['C20'],[(F,'''	_, ok := s.getAccount(&a)
	return ok''','''	ac, ok := s.getAccount(&a)
	b := ac.Balance()
	return ok && !b.IsZero()''')]),
('refund_sub','bug',['C20'],[(F,'s.Refund -= seth.Uint64(v)','s.Refund = seth.Uint64(v)')]),
('same_sub','same',['C20'],[(F,'''	a := seth.Address(addr)
	acct, _ := s.getAccount(&a)
	bal := acct.Balance()
	b := bal.Big()
	b.Sub(b, v)
	var newacct Account
	copy(newacct[:], acct[:])
	newacct.SetBalance(b)
	s.setAccount(&a, &newacct)
''','''	var n big.Int
	s.AddBalance(addr, n.Neg(v))
''')]),
('same_setbal','same',['C20'],[(F,'''	buf := v.Bytes()
	for i := range a[:32-len(buf)] {
		a[i] = 0
	}
	copy(a[32-len(buf):32], buf)
''','''	var word [32]byte
	buf := v.Bytes()
	copy(word[len(word)-len(buf):], buf)
	copy(a[:], word[:])
''')]),
('same_revert','same',['C20'],[(F,'''	ns := snaps[v]
	s.Refund = ns.Refund
	s.Accounts.Rollback(ns.Accounts)
''','''	s.restore(&snaps[v])
	ns := snaps[v]
	s.Accounts.Rollback(ns.Accounts)
'''),(F,'''func (s *gethState) Snapshot() int {''','''func (s *gethState) restore(n *statesnap) { s.Refund = n.Refund }

func (s *gethState) Snapshot() int {''')]),
('same_key','same',['C20'],[(F,'''	var v [20 + 32]byte
	copy(v[:], addr[:])
	copy(v[20:], hash[:])
	return seth.HashBytes(v[:])''','''	v := append([]byte(nil), addr[:]...)
	v = append(v, hash[:]...)
	return seth.HashBytes(v)''')]),
('same_upd','same',['C20'],[(F,'''	acct, _ := s.getAccount(&a)
	acct.SetNonce(n)
	s.setAccount(&a, &acct)
''','''	s.update(&a, func(acct *Account) { acct.SetNonce(n) })
'''),(F,'''func (s *gethState) Snapshot() int {''','''func (s *gethState) update(a *seth.Address, f func(acct *Account)) {
	acct, _ := s.getAccount(a)
	f(&acct)
	s.setAccount(a, &acct)
}

func (s *gethState) Snapshot() int {''')]),
]
