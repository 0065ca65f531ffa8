PROP='C25'; PKG='./tevm'
NEEDS='a request for the block number while another goroutine seals a block'
BREAKS='the pending block is read without the lock of the chain'
FLAGS='-race'
EDITS=[('tevm/transport.go','''	res.Version = req.Version

''','''	res.Version = req.Version

	if req.Method == "eth_blockNumber" && len(req.Params) == 0 {
		// cannot fail
		return gross(c.State.Pending.Number, &res.Result)
	}

''')]
TEST='''package tevm

import (
	"sync"
	"testing"

	"github.com/philhofer/seth"
)

func TestSeed(t *testing.T) {
	c := NewChain()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 50; i++ {
			c.Seal()
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 500; i++ {
			res := new(seth.RPCResponse)
			if err := c.Execute(&seth.RPCRequest{Method: "eth_blockNumber"}, res); err != nil || res.Error.Code != 0 {
				t.Error(err, res.Error)
			}
		}
	}()
	wg.Wait()
}
'''
