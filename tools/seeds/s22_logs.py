PROP='C22'; PKG='./tevm'
NEEDS='a query that emits a log, asked at an older block while the chain has newer logs'
BREAKS='an estimate at an older block overwrites a log of the chain'
EDITS=[('tevm/evm.go','''	dst.Logs = s.Logs[:ns.LogLen:ns.LogLen]
''','''	dst.Logs = s.Logs[:ns.LogLen]
''')]
TEST='''package tevm

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/philhofer/seth"
)

func TestSeed(t *testing.T) {
	c := NewChain()
	a := c.NewAccount(10)
	log := func(b byte) *seth.Transaction {
		code := []byte{0x60, b, 0x60, 0, 0x53, 0x60, 1, 0x60, 0, 0xa0}
		return &seth.Transaction{From: &a, Gas: 100000, Value: *seth.NewInt(0), Input: code}
	}
	c.Mine(log(1))
	c.Seal()
	c.Mine(log(2))
	before := fmt.Sprint(c.Logs()[1].Data)
	arg, _ := json.Marshal(map[string]interface{}{"from": a.String(), "data": "0x600960005360016000a0"})
	res := new(seth.RPCResponse)
	err := c.Execute(&seth.RPCRequest{Method: "eth_estimateGas", Params: []json.RawMessage{arg, []byte("\\"latest\\"")}}, res)
	if err != nil || res.Error.Code != 0 {
		t.Fatal(err, res.Error)
	}
	if after := fmt.Sprint(c.Logs()[1].Data); after != before {
		t.Fatal(before, after)
	}
}
'''
