PROP='C26'; PKG='./tevm'
NEEDS='a balance query for a block above the pending one'
BREAKS='a query of the state at a block that does not exist is answered'
EDITS=[('tevm/transport.go','''		return c.balance(&addr, int64(b))
''','''		if number := blocknum(*c.State.Pending.Number); b > number {
			b = number
		}
		return c.balance(&addr, int64(b))
''')]
TEST='''package tevm

import (
	"encoding/json"
	"testing"

	"github.com/philhofer/seth"
)

func TestSeed(t *testing.T) {
	c := NewChain()
	a := c.NewAccount(10)
	c.Seal()
	addr, _ := json.Marshal(&a)
	for n, want := range map[string]bool{"100": true, "101": true, "99": false, "102": false, "1000": false} {
		res := new(seth.RPCResponse)
		err := c.Execute(&seth.RPCRequest{Method: "eth_getBalance", ID: 5, Params: []json.RawMessage{addr, json.RawMessage(n)}}, res)
		if err != nil {
			t.Fatal(err)
		}
		if want != (res.Error.Code == 0) {
			t.Fatalf("block %s: %s %v", n, res.Result, res.Error)
		}
	}
}
'''
