PROP='C03'; PKG='.'
NEEDS='a query at the earliest block'
BREAKS='the earliest-block selector is sent as latest'
EDITS=[('seth.go','''		return rawearliest''','''		return rawlatest''')]
TEST='''package seth

import "testing"

type seedT struct{ p string }

func (s *seedT) Execute(req *RPCRequest, res *RPCResponse) error {
	s.p = string(req.Params[1])
	return ErrNotFound
}

func TestSeed(t *testing.T) {
	s := new(seedT)
	NewClientTransport(s).GetBalanceAt(new(Address), Earliest)
	if s.p != `"earliest"` {
		t.Fatal("wrong block:", s.p)
	}
}
'''
