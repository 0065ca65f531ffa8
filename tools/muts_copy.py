F='tevm/evm.go'; T='tevm/tree.go'
def b(n,*e): return (n,'bug',['C29'],list(e))
def s(n,*e): return (n,'same',['C29'],list(e))
MUTS=[
b('c_blocks',(F,'	cc.State.Blocks = c.State.Blocks.CopyAt(c.State.Blocks.Snapshot())\n','	cc.State.Blocks = c.State.Blocks\n')),
b('c_noblocks',(F,'	cc.State.Blocks = c.State.Blocks.CopyAt(c.State.Blocks.Snapshot())\n','')),
b('c_pending',(F,'	cc.State.Pending = &p\n','	cc.State.Pending = c.State.Pending\n	_ = p\n')),
b('c_norx',(F,'		cc.pendingrx = append(cc.pendingrx, &r)\n','		_ = r\n')),
b('c_b2s',(F,'''	cc.block2snap = make(map[int64]int, len(c.block2snap))
	for n, snap := range c.block2snap {
		cc.block2snap[n] = snap
	}
	cc.Debugf''','''	cc.block2snap = c.block2snap
	cc.Debugf''')),
b('c_refund',(F,'	dst.Refund = ns.Refund\n','	dst.Refund = 0\n')),
b('c_snaps',(F,'	dst.Snapshots = s.Snapshots[:n:n]\n','	dst.Snapshots = s.Snapshots[:n]\n')),
b('c_nosnaps',(F,'	dst.Snapshots = s.Snapshots[:n:n]\n','')),
b('c_logs',(F,'	dst.Logs = s.Logs[:ns.LogLen:ns.LogLen]\n','	dst.Logs = s.Logs[:ns.LogLen]\n')),
b('v_b2s',(F,'	cc.block2snap = make(map[int64]int)\n	return cc','	cc.block2snap = c.block2snap\n	return cc')),
b('v_latest',(F,'''	case pending - 1, -2: // latest
		s, ok := c.block2snap[pending-1]''','''	case pending - 1, -2: // latest
		s, ok := c.block2snap[pending-2]''')),
b('v_code',(F,'	dst.Code = s.Code.CopyAt(ns.Code)','	dst.Code = s.Code.CopyAt(ns.Accounts)')),
b('v_storage',(F,'	dst.Storage = s.Storage.CopyAt(ns.State)','	dst.Storage = s.Storage')),
b('j_rx',(F,'	c.pendingrx = s.PendingRx\n','')),
b('j_b2s',(F,'	c.block2snap = s.Block2snap\n	c.pend','	c.block2snap = make(map[int64]int)\n	c.pend')),
b('j_unexp',(T,'type treesnap struct {\n	Root      int32\n','type treesnap struct {\n	Root      int32 `json:"-"`\n')),
b('seal_snap',(F,'c.block2snap[int64(*b.Number)] = (*gethState)(&c.State).Snapshot()','c.block2snap[int64(*b.Number)] = len(c.State.Snapshots) - 1\n	if len(c.State.Snapshots) == 0 {\n		c.block2snap[int64(*b.Number)] = (*gethState)(&c.State).Snapshot()\n	}')),
s('s_pend',(F,'''	p := *c.State.Pending
	p.Transactions = append([]json.RawMessage(nil), p.Transactions...)
	cc.State.Pending = &p
''','''	cc.State.Pending = new(seth.Block)
	*cc.State.Pending = *c.State.Pending
	n := len(c.State.Pending.Transactions)
	cc.State.Pending.Transactions = c.State.Pending.Transactions[:n:n]
''')),
s('s_rx',(F,'''	for _, rx := range c.pendingrx {
		r := *rx
		cc.pendingrx = append(cc.pendingrx, &r)
	}''','''	cc.pendingrx = make([]*seth.Receipt, len(c.pendingrx))
	for i := range cc.pendingrx {
		cc.pendingrx[i] = new(seth.Receipt)
		*cc.pendingrx[i] = *c.pendingrx[i]
	}''')),
s('s_b2s',(F,'''	cc.block2snap = make(map[int64]int, len(c.block2snap))
	for n, snap := range c.block2snap {
		cc.block2snap[n] = snap
	}
''','''	cc.block2snap = make(map[int64]int)
	for n := range c.block2snap {
		cc.block2snap[n] = c.block2snap[n]
	}
''')),
s('s_view',(F,'	cc.State.Pending = nb\n	cc.block2snap = make(map[int64]int)\n	return cc','	cc.block2snap = map[int64]int{}\n	cc.State.Pending = nb\n	return cc')),
s('s_name',(F,'		PendingRx  []*seth.Receipt\n	}{c.State','		PendingRx  []*seth.Receipt\n	}{c.State')),
]
