PROP='C26'; PKG='./tevm'
NEEDS='a request whose block parameter is a quantity that does not fit in a signed 64-bit number'
BREAKS='the request is answered with the pending or latest block instead of an error'
EDITS=[('tevm/transport.go','''		i, err := strconv.ParseInt(string(buf), 10, 64)
		if err != nil {
			return err
		}
		*b = blocknum(i)
''','''		u, err := strconv.ParseUint(string(buf), 10, 64)
		if err != nil {
			return err
		}
		*b = blocknum(u)
''')]
TEST='''package tevm

import (
	"encoding/json"
	"testing"

	"github.com/philhofer/seth"
)

func TestSeed(t *testing.T) {
	c := NewChain()
	c.NewAccount(10)
	c.Seal()
	for _, n := range []string{"18446744073709551615", "18446744073709551614", "9223372036854775808"} {
		res := new(seth.RPCResponse)
		err := c.Execute(&seth.RPCRequest{Method: "eth_getBlockByNumber", Params: []json.RawMessage{json.RawMessage(n), json.RawMessage("false")}}, res)
		if err != nil {
			t.Fatal(err)
		}
		if res.Error.Code == 0 {
			t.Fatalf("%s: %s", n, res.Result)
		}
	}
}
'''
