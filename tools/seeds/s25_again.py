PROP='C25'; PKG='./tevm'
NEEDS='a request for a block with an unknown hash'
BREAKS='the request waits for the lock it holds, and so does every later operation'
EDITS=[('tevm/transport.go','''			return nil, fmt.Errorf("unknown block hash %s", h)
''','''			if c.AtBlock(-2) == nil {
				return nil, fmt.Errorf("unknown block hash %s: no blocks", h)
			}
			return nil, fmt.Errorf("unknown block hash %s", h)
''')]
TEST='''package tevm

import (
	"encoding/json"
	"testing"
	"time"

	"github.com/philhofer/seth"
)

func TestSeed(t *testing.T) {
	c := NewChain()
	c.Seal()
	done := make(chan int)
	go func() {
		res := new(seth.RPCResponse)
		h, _ := json.Marshal(&seth.Hash{1, 2, 3})
		c.Execute(&seth.RPCRequest{Method: "eth_getBlockByHash", Params: []json.RawMessage{h, json.RawMessage("false")}}, res)
		if res.Error.Code == 0 {
			t.Error("a block of an unknown hash")
		}
		c.NewAccount(1)
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("the chain does not answer any more")
	}
}
'''
