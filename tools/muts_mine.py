F='tevm/evm.go'; T='tevm/transport.go'
def b(n,*e): return (n,'bug',['C24'],list(e))
def s(n,*e): return (n,'same',['C24'],list(e))
MUTS=[
b('mine_hashnum',(F,'bh := n2h(uint64(*b.Number) | (uint64(len(b.Transactions)) << 48))','bh := n2h(uint64(*b.Number))')),
b('mine_status',(F,'	if err != nil {\n		status = 0\n	}\n\n	used','	if err != nil && len(ret) == 0 {\n		status = 0\n	}\n\n	used')),
b('mine_used',(F,'GasUsed:     seth.Uint64(used),','GasUsed:     b.GasUsed,')),
b('mine_cumul',(F,'Cumulative:  b.GasUsed,','Cumulative:  seth.Uint64(used),')),
b('mine_logs',(F,'Logs:        lconv(c.State.Logs[l0:]),','Logs:        lconv(c.State.Logs),')),
b('mine_idx',(F,'*idx = seth.Uint64(len(b.Transactions))','*idx = seth.Uint64(len(c.pendingrx) + 0*l0 + len(c.State.Logs) - len(c.State.Logs[l0:]))')),
b('mine_addr',(F,'	if tx.To == nil {\n		rx.Address','	if tx.To == nil && status == 0 {\n		rx.Address')),
b('mine_value',(F,'uint64(tx.Gas), tx.Value.Big())\n	}\n','uint64(tx.Gas), new(big.Int))\n	}\n')),
b('mine_gas',(F,'[]byte(tx.Input), uint64(tx.Gas), tx.Value.Big())\n	}\n','[]byte(tx.Input), uint64(c.State.Pending.GasLimit), tx.Value.Big())\n	}\n')),
b('mine_pending',(F,'	c.pendingrx = c.pendingrx[:0]\n','	if len(c.pendingrx) > 1 {\n		c.pendingrx = c.pendingrx[:0]\n	}\n')),
b('mine_notclear',(F,'	c.pendingrx = c.pendingrx[:0]\n','')),
b('mine_rxhash',(F,'		copy(rx.BlockHash[:], b.Hash[:])\n','')),
b('mine_parent',(F,'Parent:          *b.Hash','Parent:          b.Parent')),
b('mine_limit',(F,'GasLimit:        b.GasLimit,\n		Diff','GasLimit:        b.GasLimit - b.GasUsed,\n		Diff')),
b('mine_logtx',(F,'		copy(l.TxHash[:], tx.Hash[:])\n','')),
b('mine_logidx',(F,'		l.TxIndex = uint(*idx)\n','')),
b('mine_logblk',(F,'		copy(l.BlockHash[:], b.Hash[:])\n','')),
b('mine_errdrop',(F,'	c.State.Transactions.Insert(h[:], encode(tx))\n	return','	if err == nil {\n		c.State.Transactions.Insert(h[:], encode(tx))\n	}\n	return')),
b('mine_blockord',(F,'	c.State.Blocks.Insert(b.Hash[:], encode(b))\n\n	n','	c.State.Blocks.Insert(b.Parent[:], encode(b))\n\n	n')),
b('full_first',(T,'		err := json.Unmarshal(b.Transactions[i], &txh)','		err := json.Unmarshal(b.Transactions[i/2], &txh)')),
b('full_stale',(T,'		tx = seth.Transaction{}\n',''),(T,'		if _, err := tx.UnmarshalMsg(txbuf)','		if i > 0 {\n			ntx = append(ntx, js(tx))\n			continue\n		}\n		if _, err := tx.UnmarshalMsg(txbuf)')),
b('bynum_off',(T,'		h := seth.Hash(n2h(uint64(n)))\n		return c.getBlock','		h := seth.Hash(n2h(uint64(n) &^ 2))\n		return c.getBlock')),
b('origin',(F,'		Origin:      common.Address(sender),','		Origin:      common.Address(b.Miner),')),
b('bnum_ctx',(F,'SetInt64(int64(*b.Number)),\n		Time','SetInt64(int64(*b.Number) - 1),\n		Time')),
s('s_hash',(F,'bh := n2h(uint64(*b.Number) | (uint64(len(b.Transactions)) << 48))','bh := n2h((uint64(len(b.Transactions)) + 1) << 40 ^ uint64(*b.Number))')),
s('s_order',(F,'	b.Transactions = append(b.Transactions, js(&tx.Hash))\n	c.pendingrx = append(c.pendingrx, rx)\n	c.State.Transactions.Insert(h[:], encode(tx))\n','	c.State.Transactions.Insert(tx.Hash[:], encode(tx))\n	c.pendingrx = append(c.pendingrx, rx)\n	b.Transactions = append(b.Transactions, js(tx.Hash))\n')),
s('s_nil',(F,'c.pendingrx = c.pendingrx[:0]','c.pendingrx = nil')),
s('s_range',(F,'	for i := range c.pendingrx {\n		rx := c.pendingrx[i]\n','	for _, rx := range c.pendingrx {\n')),
s('s_map',(F,'	status := 1\n	vm :=','	var status uint64\n	vm :='),(F,'	if err != nil {\n		status = 0\n	}\n\n	used','	if err == nil {\n		status++\n	}\n\n	used')),
s('s_lookup',(T,'''	b := c.State.Transactions.Get(h[:])
	if b == nil {
		return nil, fmt.Errorf("no such transaction %s", h.String())
	}
''','''	b := c.State.Transactions.Get(h[:])
	if len(b) == 0 {
		return nil, fmt.Errorf("no such transaction %s", h.String())
	}
''')),
s('s_assign',(F,'		copy(l.TxHash[:], tx.Hash[:])\n		copy(l.BlockHash[:], b.Hash[:])\n','		l.TxHash = common.Hash(tx.Hash)\n		l.BlockHash = common.Hash(*b.Hash)\n')),
s('s_blockstruct',(F,'	n := seth.Uint64(uint64(*b.Number) + 1)\n	h := seth.Hash(n2h(uint64(n)))\n','	n := *b.Number + 1\n	var h seth.Hash\n	x := n2h(uint64(n))\n	copy(h[:], x[:])\n')),
s('s_switch',(T,'''		n := int64(b)
		if n < 0 {''','''		n := int64(b)
		switch {
		case n < 0:'''),),
]
