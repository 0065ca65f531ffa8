PROP='C03'; PKG='.'
NEEDS='a log filter whose last block is block 0'
BREAKS='the filter is created up to the latest block instead of up to block 0'
EDITS=[('filter.go','''	if end < 0 {''','''	if end <= 0 {''')]
TEST='''package seth

import (
	"encoding/json"
	"strings"
	"testing"
)

type seedT struct{ p string }

func (s *seedT) Execute(req *RPCRequest, res *RPCResponse) error {
	if req.Method == "eth_newFilter" {
		s.p = string(req.Params[0])
		return ErrNotFound
	}
	return json.Unmarshal([]byte(`{}`), res)
}

func TestSeed(t *testing.T) {
	s := new(seedT)
	NewClientTransport(s).FilterTopics(nil, nil, 0, 0)
	if !strings.Contains(s.p, `"toBlock":"0x0"`) {
		t.Fatal("wrong filter:", s.p)
	}
}
'''
