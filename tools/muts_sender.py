F='sender.go'
def b(n,*e): return (n,'bug',['C15'],list(e))
def s(n,*e): return (n,'same',['C15'],list(e))
MUTS=[
b('pad_int',(F,'	ob.Mul(ob, &num)\n	ob.Div(ob, &denom)\n','	ob.Div(ob, &denom)\n	ob.Mul(ob, &num)\n')),
b('pad_inv',(F,'	num.SetInt64(int64(s.GasRatio.Num))\n	denom.SetInt64(int64(s.GasRatio.Denom))','	denom.SetInt64(int64(s.GasRatio.Num))\n	num.SetInt64(int64(s.GasRatio.Denom))')),
b('pad_floor',(F,'	ob.Set(gb)\n	ob.Mul(ob, &num)\n	ob.Div(ob, &denom)\n','	ob.SetInt64(gb.Int64() * int64(s.GasRatio.Num/s.GasRatio.Denom))\n	_, _ = num, denom\n')),
b('nonce_latest',(F,'s.GetNonceAt(tx.From, Pending)','s.GetNonceAt(tx.From, Latest)')),
b('nonce_own',(F,'s.GetNonceAt(tx.From, Pending)','s.GetNonceAt(s.Addr, Pending)')),
b('nonce_zero',(F,'	if opts.Nonce == nil {\n		if tx','	if opts.Nonce == nil || *opts.Nonce == 0 {\n		if tx')),
b('nonce_err',(F,'''		n, err := s.GetNonceAt(tx.From, Pending)
		if err != nil {
			return Hash{}, err
		}
''','''		n, _ := s.GetNonceAt(tx.From, Pending)
''')),
b('sign_early',(F,'	hash := tx.HashToSign()\n\n',''),(F,'	// if no nonce was','	hash := tx.HashToSign()\n\n	// if no nonce was')),
b('no_verify',(F,'	if opts.From != nil {\n		pub','	if opts.From != s.Addr {\n		pub')),
b('verify_own',(F,'*from != *opts.From {','*from != *opts.From && *from != *s.Addr {')),
b('verify_addr0',(F,'		if *from != *opts.From {','		if *from != *opts.From && *from != *s.Addr {')),
b('price_zero',(F,'	if opts.GasPrice == nil {','	if opts.GasPrice == nil || opts.GasPrice.IsZero() {')),
b('gas_unpadded',(F,'		opts.Gas = s.pad(&gas)\n	}\n\n	if s.Signer','		opts.Gas = &gas\n	}\n\n	if s.Signer')),
b('gas_again',(F,'	if opts.Gas == nil {\n		gas','	if opts.Gas == nil || opts.Data != nil {\n		gas')),
b('est_err',(F,'''	if opts.Gas == nil {
		gas, err := s.EstimateGas(opts)
		if err != nil {
			return Hash{}, err
		}
''','''	if opts.Gas == nil {
		gas, err := s.EstimateGas(opts)
		if err != nil && s.Signer != nil {
			return Hash{}, err
		}
''')),
b('est_before',(F,'''	if opts.GasPrice == nil {
		opts.GasPrice = &s.GasPrice
	}

''',''),(F,'''	if s.Signer == nil {
		return s.Client.Call(opts)
''','''	if opts.GasPrice == nil {
		opts.GasPrice = &s.GasPrice
	}

	if s.Signer == nil {
		return s.Client.Call(opts)
''')),
b('create_value',(F,'GasPrice: &s.GasPrice, Value: value}','GasPrice: &s.GasPrice}')),
b('create_nowait',(F,'''	err = s.Wait(&h)
	if err != nil {
		return Address{}, err
	}
	r, err''','''	r, err''')),
b('create_nil',(F,'	if r.Address == nil {','	if r.Address == nil && r.Threw() {')),
b('cancel_mined',(F,'	} else if tx.TxIndex != nil {','	} else if tx.TxIndex != nil && *tx.TxIndex != 0 {')),
b('cancel_same',(F,'if s.GasPrice.Cmp(&tx.GasPrice) > 0 {','if s.GasPrice.Cmp(&tx.GasPrice) >= 0 {')),
b('cancel_nonce',(F,'From: s.Addr, Nonce: &tx.Nonce}','From: s.Addr}')),
b('cancel_to',(F,'CallOpts{To: s.Addr, From: s.Addr, Nonce','CallOpts{To: tx.To, From: s.Addr, Nonce')),
b('wait_once',(F,'		time.Sleep(2 * time.Second)\n','		time.Sleep(2 * time.Second)\n		if t.BlockNumber == 0 {\n			return nil\n		}\n')),
b('wait_err',(F,'''		t, err := s.GetTransaction(h)
		if err != nil {
			return err
		}
''','''		t, err := s.GetTransaction(h)
		if err != nil {
			continue
		}
''')),
b('drain_unfix',(F,'if txs[i].From != nil && *txs[i].From == *s.Addr','if txs[i].From != nil && txs[i].From == s.Addr')),
b('drain_once',(F,'''		if err := s.Wait(&t.Hash); err != nil {
			return err
		}
''','''		return s.Wait(&t.Hash)
''')),
b('drain_first',(F,'				break\n			}\n		}\n		if t == nil','			}\n			break\n		}\n		if t == nil')),
b('drain_latest',(F,'s.GetBlock(Pending, true)','s.GetBlock(Latest, true)')),
b('drain_nonil',(F,'if txs[i].From != nil && *txs[i].From == *s.Addr','if *txs[i].From == *s.Addr')),
b('const_pending',(F,'return s.Client.ConstCall(&opts, out, true)','return s.Client.ConstCall(&opts, out, false)')),
b('const_from',(F,'CallOpts{To: to, From: s.Addr, GasPrice: &s.GasPrice}','CallOpts{To: to, GasPrice: &s.GasPrice}')),
b('raw_nosig',(F,'s.RawCall(tx.Encode(sig))','s.RawCall(tx.Encode(nil))')),
b('from_sender',(F,'	if opts.From == nil {\n		opts.From = s.Addr\n	}','	opts.From = s.Addr')),
s('s_helper',(F,'''		gas, err := s.EstimateGas(opts)
		if err != nil {
			return Hash{}, err
		}
		opts.Gas = s.pad(&gas)
	}

	if s.Signer''','''		if err := s.fillGas(opts); err != nil {
			return Hash{}, err
		}
	}

	if s.Signer'''),(F,'// Call makes','''func (s *Sender) fillGas(opts *CallOpts) error {
	gas, err := s.EstimateGas(opts)
	if err == nil {
		opts.Gas = s.pad(&gas)
	}
	return err
}

// Call makes''')),
s('s_wait',(F,'''	for {
		t, err := s.GetTransaction(h)
		if err != nil {
			return err
		}
		if t.TxIndex != nil {
			return nil
		}
		time.Sleep(2 * time.Second)
	}''','''	t, err := s.GetTransaction(h)
	for err == nil && t.TxIndex == nil {
		time.Sleep(2 * time.Second)
		t, err = s.GetTransaction(h)
	}
	return err''')),
s('s_pad',(F,'''	ob.Set(gb)
	ob.Mul(ob, &num)
	ob.Div(ob, &denom)
''','''	ob.Mul(gb, &num)
	ob.Quo(ob, &denom)
''')),
s('s_drain',(F,'''		var t *Transaction
		for i := range txs {
			if txs[i].From != nil && *txs[i].From == *s.Addr {
				t = &txs[i]
				break
			}
		}
''','''		t := s.own(txs)
'''),(F,'// Drain waits','''func (s *Sender) own(txs []Transaction) *Transaction {
	for i, n := 0, len(txs); i < n; i++ {
		from := txs[i].From
		if from == nil || *from != *s.Addr {
			continue
		}
		return &txs[i]
	}
	return nil
}

// Drain waits''')),
s('s_create',(F,'''	if r.Address == nil {
		return Address{}, fmt.Errorf("txhash %s: contract not created", &h)
	}
	return *r.Address, nil''','''	if r.Address != nil {
		return *r.Address, nil
	}
	return Address{}, errors.New("contract not created")''')),
s('s_copy',(F,'	if opts.From == nil {\n		opts.From = s.Addr\n	}','	full := *opts\n	opts = &full\n	if opts.From == nil {\n		opts.From = s.Addr\n	}')),
s('s_cancelopt',(F,'opts := CallOpts{To: s.Addr, From: s.Addr, Nonce: &tx.Nonce}','nonce := tx.Nonce\n	opts := CallOpts{To: s.Addr, Nonce: &nonce}')),
s('s_verify',(F,'''		from := pub.Address()
		if *from != *opts.From {
			return''','''		if from := pub.Address(); !bytes.Equal(from[:], opts.From[:]) {
			return'''),(F,'import (\n','import (\n	"bytes"\n')),
]
