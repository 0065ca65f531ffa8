PROP='C05'; PKG='.'
NEEDS='a transient failure of the node while a block is fetched'
BREAKS='the block whose fetch failed is skipped'
EDITS=[('seth.go','''					log.Printf("error getting block %d: %s", block, err)
''','''					log.Printf("error getting block %d: %s", block, err)
					block++
''')]
TEST='''package seth

import (
	"encoding/json"
	"errors"
	"testing"
)

type seedT struct{ failed bool }

func (s *seedT) Execute(req *RPCRequest, res *RPCResponse) error {
	n := string(req.Params[0])
	if n == `"0x6"` && !s.failed {
		s.failed = true
		return errors.New("timeout")
	}
	return json.Unmarshal([]byte(`{"result":{"number":`+n+`}}`), res)
}

func TestSeed(t *testing.T) {
	it := NewClientTransport(new(seedT)).IterateBlocks(5, false)
	for i := uint64(5); i < 9; i++ {
		b := <-it.Next()
		if b.Number == nil || uint64(*b.Number) != i {
			t.Fatal("block", i, "was skipped")
		}
	}
	it.Stop()
}
'''
