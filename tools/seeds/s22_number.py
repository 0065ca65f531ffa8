PROP='C22'; PKG='./tevm'
NEEDS='eth_call of code that reads the block number, at a block other than the pending one'
BREAKS='the call sees the number of the pending block'
EDITS=[('tevm/transport.go','''func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
''','''func (c *Chain) staticCall(a *callArgs, blocknum int64) (seth.Data, error) {
	context := c.context(a.From)
'''),('tevm/transport.go','''	evm := c.evm(a.From)
	gas := uint64(c.State.Pending.GasLimit)
''','''	evm := vm.NewEVM(context, c.State.StateDB(), &theparams, theconfig)
	gas := uint64(c.State.Pending.GasLimit)
''')]
TEST='''package tevm

import (
	"encoding/json"
	"testing"

	"github.com/philhofer/seth"
)

func TestSeed(t *testing.T) {
	c := NewChain()
	a := c.NewAccount(10)
	// deploys code that returns the number of the block
	x, err := c.Create(&a, []byte{0x68, 0x43, 0x60, 0, 0x53, 0x60, 1, 0x60, 0, 0xf3, 0x60, 0, 0x52, 0x60, 9, 0x60, 23, 0xf3})
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 3; i++ {
		c.Seal()
	}
	arg, _ := json.Marshal(map[string]interface{}{"from": a.String(), "to": x.String()})
	for n := byte(100); n < 103; n++ {
		res := new(seth.RPCResponse)
		blk, _ := json.Marshal(seth.Uint64(n))
		err := c.Execute(&seth.RPCRequest{Method: "eth_call", Params: []json.RawMessage{arg, blk}}, res)
		if err != nil || res.Error.Code != 0 {
			t.Fatal(err, res.Error)
		}
		var d seth.Data
		json.Unmarshal(res.Result, &d)
		if len(d) != 1 || d[0] != n {
			t.Fatal(n, d)
		}
	}
}
'''
