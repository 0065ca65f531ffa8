F='tevm/evm.go'; T='tevm/transport.go'
def b(n,*e): return (n,'bug',['C22'],list(e))
def s(n,*e): return (n,'same',['C22'],list(e))
MUTS=[
b('est_norevert',(T,'	defer evm.StateDB.RevertToSnapshot(snap)\n','	_ = snap\n')),
b('est_errrevert',(T,'	defer evm.StateDB.RevertToSnapshot(snap)\n',''),(T,'		gas -= rem\n	}\n\n	return','		gas -= rem\n	}\n	if a.To != nil {\n		evm.StateDB.RevertToSnapshot(snap)\n	}\n\n	return')),
b('est_block',(T,'''	c = c.atBlock(blocknum)
	if c == nil {
		return 0,''','''	if c.atBlock(blocknum) == nil {
		return 0,''')),
b('bal_block',(T,'''	c = c.atBlock(block)
	if c == nil {
		return nil, fmt''','''	if c.atBlock(block) == nil {
		return nil, fmt''')),
b('call_gas',(T,'''	if a.Gas != 0 {
		gas = uint64(a.Gas)
	}
	var to''','''	if uint64(a.Gas) > gas {
		gas = uint64(a.Gas)
	}
	var to''')),
b('est_gas',(T,'		_, rem, err := evm.Call(','		gas = uint64(c.State.Pending.GasLimit)\n		_, rem, err := evm.Call(')),
b('call_call',(T,'	ret, _, err := evm.StaticCall(a.Ref(), to, a.Data, gas)','	ret, _, err := evm.Call(a.Ref(), to, a.Data, gas, a.Value.Big())')),
b('getblock_inplace',(T,'''		p := *c.State.Pending
		p.Transactions = append([]json.RawMessage(nil), p.Transactions...)
		b = &p
''','''		b = c.State.Pending
''')),
b('atsnap_pending',(F,'	cc.State.Pending = nb\n','	cc.State.Pending = c.State.Pending\n')),
b('earliest',(T,'		*b = 0\n	default','		*b = -2\n	default')),
b('est_swallow',(T,'''		_, _, rem, err := evm.Create(a.Ref(), a.Data, gas, a.Value.Big())
		if err != nil {
			return 0, err
		}
''','''		_, _, rem, _ := evm.Create(a.Ref(), a.Data, gas, a.Value.Big())
''')),
b('static_call',(F,'	ret, _, err := c.evm(*sender).StaticCall(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit)','	ret, _, err := c.evm(*sender).Call(s2r(sender), common.Address(*dst), seth.ABIEncode(sig, args...), defaultGasLimit, &zero)')),
b('atblock_code',(F,'	c.State.atSnap(snap, &cc.State)\n	cc.Debugf','	c.State.atSnap(snap, &cc.State)\n	cc.State.Code = c.State.Code.CopyAt(c.State.Code.Snapshot())\n	cc.Debugf')),
s('s_copy',(T,'''	evm := c.evm(a.From)

	// TODO: incorporate gas price
	evm.Context.GasPrice = big.NewInt(0)
	snap := evm.StateDB.Snapshot()
	defer evm.StateDB.RevertToSnapshot(snap)
''','''	evm := c.evm(a.From)
	evm.Context.GasPrice = new(big.Int)
	defer func(n int) { evm.StateDB.RevertToSnapshot(n) }(evm.StateDB.Snapshot())
''')),
s('s_gas',(T,'''	gas := uint64(c.State.Pending.GasLimit)
	if a.Gas != 0 {
		gas = uint64(a.Gas)
	}
	var to''','''	gas := uint64(a.Gas)
	if gas == 0 {
		gas = uint64(c.State.Pending.GasLimit)
	}
	var to''')),
s('s_bal',(T,'	return (*seth.Int)(c.balanceOf(addr)), nil','	b := seth.Int(*c.balanceOf(addr))\n	return &b, nil')),
s('s_at',(F,'''	case pending, -1: // pending
		n = pending
		return c
''','''	case pending, -1: // pending
		return c
''')),
s('s_at2',(F,'''	default:
		s, ok := c.block2snap[n]
		if !ok {
			return nil
		}
		snap = s
''','''	default:
		var ok bool
		if snap, ok = c.block2snap[n]; !ok {
			return nil
		}
''')),
s('s_est',(T,'''		gas -= rem
	} else {''','''		gas = gas - rem
		return seth.Uint64(gas), nil
	} else {''')),
s('s_logs',(F,'	return lconv(c.State.Logs)\n','	l := lconv(c.State.Logs)\n	return l\n')),
]
