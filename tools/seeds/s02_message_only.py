PROP='C02'; PKG='.'
NEEDS='a node that reports an error by message alone (code zero)'
BREAKS='an answer that carries an error object is taken as a success'
EDITS=[('client.go','''	if res.Error.Code != 0 || res.Error.Message != "" {
		e := res.Error
''','''	if res.Error.Code != 0 {
		e := res.Error
''')]
TEST='''package seth

import (
	"encoding/json"
	"testing"
)

type seedT struct{}

func (s *seedT) Execute(req *RPCRequest, res *RPCResponse) error {
	return json.Unmarshal([]byte(`{"jsonrpc":"2.0","id":1,"error":{"message":"out of memory"},"result":"0x0"}`), res)
}

func TestSeed(t *testing.T) {
	c := NewClientTransport(new(seedT))
	if n, err := c.BlockNumber(); err == nil {
		t.Fatal("an error was taken as block", n)
	}
}
'''
