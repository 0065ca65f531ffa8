PROP='C23'; PKG='./tevm'
NEEDS='a fork below the head of its chain, and storage that the chain has written since the block of the fork'
BREAKS='a fork reads the storage of a later block than the one it forks'
EDITS=[('tevm/evm.go','''		result, err := s.Fallback.StorageAt(&a, (*seth.Hash)(&hash), s.Fallback.Block)
''','''		result, err := s.Fallback.StorageAt(&a, (*seth.Hash)(&hash), int64(*s.Pending.Number))
''')]
COMMON='''package tevm

import (
	"encoding/json"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
)

// seedRemote answers the reads of a chain at block 500
type seedRemote struct{ t *testing.T }

func (r *seedRemote) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	res.ID, res.Version = req.ID, req.Version
	at := string(req.Params[len(req.Params)-1])
	v := "0x0"
	switch req.Method {
	case "eth_getStorageAt":
		v = "0x0000000000000000000000000000000000000000000000000000000000000007"
		if at != `"0x1f4"` {
			v = "0x0000000000000000000000000000000000000000000000000000000000000008"
		}
	case "eth_getCode":
		v = "0x00"
	case "eth_getBalance":
		v = "0x10"
	case "eth_getTransactionCount":
		v = "0x2"
	default:
		r.t.Fatal(req.Method)
	}
	res.Result, _ = json.Marshal(v)
	return nil
}

var seedAddr = common.Address{1}

func seedFork(t *testing.T) *Chain {
	return NewFork(seth.NewClientTransport(&seedRemote{t}), 500)
}
'''
TEST=COMMON+'''
func TestSeed(t *testing.T) {
	c := seedFork(t)
	if v := c.State.StateDB().GetState(seedAddr, common.Hash{3}); v[31] != 7 {
		t.Fatal(v)
	}
}
'''
