PROP='C01'; PKG='.'
NEEDS='more than 256 requests in flight on one connection'
BREAKS='request IDs repeat, so a later request takes the place of a waiting one, which then never ends or gets the wrong answer'
EDITS=[('client.go','int(atomic.AddUintptr(&c.nextid, 1))','int(atomic.AddUintptr(&c.nextid, 1) & 0xff)')]
TEST='''package seth

import "testing"

type seedT struct{ ids map[int]bool }

func (s *seedT) Execute(req *RPCRequest, res *RPCResponse) error {
	s.ids[req.ID] = true
	return ErrNotFound
}

func TestSeed(t *testing.T) {
	s := &seedT{map[int]bool{}}
	c := NewClientTransport(s)
	for i := 0; i < 1000; i++ {
		c.BlockNumber()
	}
	if len(s.ids) != 1000 {
		t.Fatal("request IDs repeat:", len(s.ids))
	}
}
'''
