F='tevm/evm.go'; T='tevm/transport.go'
def b(n,*e): return (n,'bug',['C25'],list(e))
def s(n,*e): return (n,'same',['C25'],list(e))
L='	c.mu.Lock()\n	defer c.mu.Unlock()\n'
MUTS=[
b('bal_nolock',(F,'func (c *Chain) BalanceOf(addr *seth.Address) *big.Int {\n'+L,'func (c *Chain) BalanceOf(addr *seth.Address) *big.Int {\n')),
b('logs_nolock',(F,L+'	return lconv','	return lconv')),
b('logs_early',(F,L+'	return lconv(c.State.Logs)','	c.mu.Lock()\n	l := c.State.Logs\n	c.mu.Unlock()\n	return lconv(l)')),
b('call_early',(F,L+'	ret, _, err := c.evm(*sender).StaticCall','	c.mu.Lock()\n	e := c.evm(*sender)\n	c.mu.Unlock()\n	ret, _, err := e.StaticCall')),
b('exec_nodefer',(T,'	ret, err := c.locked(req.Method, req.Params)\n','	c.mu.Lock()\n	ret, err := c.execute(req.Method, req.Params)\n	c.mu.Unlock()\n')),
b('seal_nodefer',(F,L+'	c.seal()\n','	c.mu.Lock()\n	c.seal()\n	c.mu.Unlock()\n')),
b('deadlock',(T,'	c.seal()\n	return &h','	c.Seal()\n	return &h')),
b('deadlock2',(T,'	return (*seth.Int)(c.balanceOf(addr)), nil','	return (*seth.Int)(c.BalanceOf(addr)), nil')),
b('deadlock3',(T,'''	c = c.atBlock(block)
	if c == nil {
		return nil, fmt''','''	c = c.AtBlock(block)
	if c == nil {
		return nil, fmt''')),
b('send_two',(T,'	ret, err := c.locked(req.Method, req.Params)\n','	ret, err := c.locked(req.Method, req.Params)\n	if req.Method == "eth_sendTransaction" && err == nil {\n		c.Seal()\n	}\n'),(T,'	c.seal()\n	return &h','	return &h')),
b('pending_out',(T,'	ret, err := c.locked(req.Method, req.Params)\n','	if req.Method == "eth_blockNumber" {\n		return gross(c.State.Pending.Number, &res.Result)\n	}\n	ret, err := c.locked(req.Method, req.Params)\n')),
b('unm',(F,'	c.mu.Lock()\n	c.State = s.State\n','	c.State = s.State\n	c.mu.Lock()\n')),
b('unm2',(F,'	c.pendingrx = s.PendingRx\n	c.mu.Unlock()\n','	c.mu.Unlock()\n	c.pendingrx = s.PendingRx\n')),
b('held_ret',(F,'	c.mu.Lock()\n	c.State = s.State\n','	c.mu.Lock()\n	if s.State.Pending == nil {\n		return nil\n	}\n	c.State = s.State\n')),
b('goroutine',(F,L+'	c.seal()\n',L+'	done := make(chan int)\n	go func() {\n		c.seal()\n		close(done)\n	}()\n	<-done\n')),
b('copy_late',(F,'''	cc.Debugf = c.Debugf
	return cc
}

// AtBlock''','''	cc.Debugf = c.Debugf
	return cc
}

// Number is the number of the pending block.
func (c *Chain) Number() int64 {
	return int64(*c.State.Pending.Number)
}

// AtBlock''')),
b('helper_nolock',(F,L+'	return c.balanceOf(addr)','	return c.balanceOf(addr)')),
b('na_two',(F,L+'	var addr seth.Address\n	rand.Read(addr[:])\n','	c.mu.Lock()\n	var addr seth.Address\n	rand.Read(addr[:])\n	c.mu.Unlock()\n	c.mu.Lock()\n	defer c.mu.Unlock()\n')),
s('s_do',(F,L+'	c.seal()\n','	c.do(c.seal)\n'),(F,'func (c *Chain) seal() {','func (c *Chain) do(f func()) {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	f()\n}\n\nfunc (c *Chain) seal() {')),
s('s_do2',(F,L+'	return c.balanceOf(addr)','	var b *big.Int\n	c.do(func() { b = c.balanceOf(addr) })\n	return b'),(F,'func (c *Chain) seal() {','func (c *Chain) do(f func()) {\n	c.mu.Lock()\n	defer c.mu.Unlock()\n	f()\n}\n\nfunc (c *Chain) seal() {')),
s('s_closure',(F,L+'	c.seal()\n','	c.mu.Lock()\n	defer func() { c.mu.Unlock() }()\n	c.seal()\n')),
s('s_func',(F,L+'	c.seal()\n','	defer c.lock()()\n	c.seal()\n'),(F,'func (c *Chain) seal() {','func (c *Chain) lock() func() {\n	c.mu.Lock()\n	return c.mu.Unlock\n}\n\nfunc (c *Chain) seal() {')),
s('s_rw',(F,'	mu         sync.Mutex\n','	mu         sync.RWMutex\n')),
s('s_struct',(F,'	mu         sync.Mutex\n','	mu         chainLock\n'),(F,'type filter struct {','type chainLock struct{ sync.Mutex }\n\ntype filter struct {')),
s('s_args',(F,L+'	c.State.StateDB().AddBalance(common.Address(*addr), v)','	a := common.Address(*addr)\n	v = new(big.Int).Set(v)\n'+L+'	c.State.StateDB().AddBalance(a, v)')),
s('s_unm',(F,'	c.mu.Lock()\n	c.State = s.State\n','	c.mu.Lock()\n	defer c.mu.Unlock()\n	c.State = s.State\n'),(F,'	c.pendingrx = s.PendingRx\n	c.mu.Unlock()\n','	c.pendingrx = s.PendingRx\n')),
s('s_field',(F,L+'	return lconv(c.State.Logs)','	c.mu.Lock()\n	l := append([]*types.Log(nil), c.State.Logs...)\n	c.mu.Unlock()\n	return lconv(l)')),
]
