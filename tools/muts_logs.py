F='tevm/evm.go'; T='tevm/transport.go'
def b(n,*e): return (n,'bug',['C35'],list(e))
def s(n,*e): return (n,'same',['C35'],list(e))
MUTS=[
b('from',(F,'log.BlockNumber < uint64(f.from)','log.BlockNumber <= uint64(f.from)')),
b('to',(F,'log.BlockNumber > uint64(f.to)','log.BlockNumber >= uint64(f.to)')),

b('addr',(F,'log.Address != common.Address(*f.addr)','!bytes.Equal(log.Address[:19], f.addr[:19])')) if False else
b('addr',(F,'if f.addr != nil && log','if f.addr != nil && len(f.topics) == 0 && log')),
b('few',(F,'			return false\n		}\n		if !bytes','			break\n		}\n		if !bytes')),
b('nullbreak',(F,'		if f.topics[i] == nil {\n			continue\n','		if f.topics[i] == nil {\n			break\n')),
b('first',(F,'log.Topics[i][:], f.topics[i][:]','log.Topics[0][:], f.topics[i][:]')),
b('cursor_n',(T,'	filt.lastlog += len(sub)','	filt.lastlog += len(out)')),
b('cursor_one',(T,'	filt.lastlog += len(sub)','	if len(out) > 0 {\n		filt.lastlog += len(sub)\n	}')) if False else
b('cursor_all',(T,'	filt.lastlog += len(sub)','	for _, f := range c.filters {\n		f.lastlog = len(c.State.Logs)\n	}')),
b('cursor_logs',(T,'			var next seth.Log\n			l2l(c.State.Logs[i], &next)','			filt.lastlog = i + 1\n			var next seth.Log\n			l2l(c.State.Logs[i], &next)')),
b('unfix_open',(T,'if from >= 0 && to >= 0 && from > to','if from > to')),
b('unfix_begin',(T,'		lastlog: len(c.State.Logs),\n','')),
b('unfix_revert',(T,'	if filt.lastlog > len(c.State.Logs) {','	if false {')),
b('revert_zero',(T,'		filt.lastlog = len(c.State.Logs)\n	}','		filt.lastlog = 0\n	}')),
b('ids',(T,'	c.filtcount++\n','	c.filtcount = len(c.filters) + 1\n')),
b('delall',(T,'	delete(c.filters, fd)\n','	delete(c.filters, fd)\n	delete(c.filters, fd+1)\n')),
b('alias',(T,'''			var next seth.Log
			l2l(c.State.Logs[i], &next)
			out = append(out, next)
''','''			l2l(c.State.Logs[i], &next)
			out = append(out, next)
'''),(T,'''	out := make([]seth.Log, 0)
	for i := range c.State.Logs {
''','''	var next seth.Log
	out := make([]seth.Log, 0)
	for i := range c.State.Logs {
''')) if False else
b('topics_alias',(F,'	for i := range l.Topics {\n		sl.Topics[i] = seth.Data(l.Topics[i][:])','	for i, t := range l.Topics {\n		if i > 1 {\n			t = l.Topics[1]\n		}\n		sl.Topics[i] = seth.Data(t[:])')),
b('num',(F,'	bn := seth.Uint64(l.BlockNumber)','	bn := seth.Uint64(l.BlockNumber - 0*index + 1)') ) if False else
b('order',(T,'			out = append(out, next)\n		}\n	}\n	return out, nil\n}\n\nfunc (c *Chain) filterChanges','			out = append([]seth.Log{next}, out...)\n		}\n	}\n	return out, nil\n}\n\nfunc (c *Chain) filterChanges')),
b('pend',(T,'		if filt.matches(c.State.Logs[i]) {','		if filt.matches(c.State.Logs[i]) && c.State.Logs[i].BlockNumber < uint64(*c.State.Pending.Number) {')),
b('addlog',(F,'	s.Logs = append(s.Logs, l)','	if len(l.Topics) > 0 || len(s.Logs) == 0 {\n		s.Logs = append(s.Logs, l)\n	}')),
s('s_from',(F,'	if (f.from >= 0 && log.BlockNumber < uint64(f.from)) || (f.to >= 0 && log.BlockNumber > uint64(f.to)) {\n		return false\n	}','	n := blocknum(log.BlockNumber)\n	if f.from >= 0 && n < f.from {\n		return false\n	}\n	if f.to >= 0 && n > f.to {\n		return false\n	}')),
s('s_topics',(F,'	for i := range f.topics {\n		if f.topics[i] == nil {\n			continue\n		}\n		if len(log.Topics) <= i {\n			return false\n		}\n		if !bytes.Equal(log.Topics[i][:], f.topics[i][:]) {\n			return false\n		}\n	}','	for i, t := range f.topics {\n		switch {\n		case t == nil:\n		case i >= len(log.Topics), common.Hash(*t) != log.Topics[i]:\n			return false\n		}\n	}'),(F,'\t"bytes"\n','')),
s('s_collect',(T,'''	out := make([]seth.Log, 0)
	for i := range c.State.Logs {
		if filt.matches(c.State.Logs[i]) {
			var next seth.Log
			l2l(c.State.Logs[i], &next)
			out = append(out, next)
		}
	}
	return out, nil
}
''','''	return filt.collect(c.State.Logs), nil
}

func (f *filter) collect(logs []*types.Log) []seth.Log {
	var sel []*types.Log
	for _, l := range logs {
		if f.matches(l) {
			sel = append(sel, l)
		}
	}
	return lconv(sel)
}
'''),(T,'	"github.com/ethereum/go-ethereum/core/vm"','	"github.com/ethereum/go-ethereum/core/types"\n	"github.com/ethereum/go-ethereum/core/vm"')),
s('s_cursor',(T,'	filt.lastlog += len(sub)','	filt.lastlog = len(c.State.Logs)')),
s('s_lookup',(T,'''	if c.filters == nil {
		return nil, fmt.Errorf("bad filter id %d", fd)
	}
	filt, ok := c.filters[fd]
	if !ok {
		return nil, fmt.Errorf("bad filter id %d", fd)
	}

	out := make([]seth.Log, 0)
	if filt''','''	filt := c.filters[fd]
	if filt == nil {
		return nil, fmt.Errorf("bad filter id %d", fd)
	}

	out := make([]seth.Log, 0)
	if filt''')),
s('s_next',(T,'	c.filtcount++\n','	for {\n		c.filtcount++\n		if _, ok := c.filters[c.filtcount]; !ok {\n			break\n		}\n	}\n')),
]
