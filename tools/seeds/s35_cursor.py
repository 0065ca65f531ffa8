PROP='C35'; PKG='./tevm'
NEEDS='a filter polled twice, with a log in the first poll that it does not match'
BREAKS='eth_getFilterChanges gives a matching log a second time'
EDITS=[('tevm/transport.go','''	filt.lastlog += len(sub)
''','''	filt.lastlog += len(out)
''')]
COMMON='''package tevm

import (
	"encoding/json"
	"testing"

	"github.com/philhofer/seth"
)

type seedChain struct {
	*Chain
	t *testing.T
	a seth.Address
}

// emit mines a transaction that makes a log with the topics
func (c *seedChain) emit(topics ...byte) {
	var code []byte
	for i := len(topics) - 1; i >= 0; i-- {
		code = append(code, 0x60, topics[i])
	}
	code = append(code, 0x60, 0, 0x60, 0, 0xa0+byte(len(topics)))
	rx, _, err := c.Mine(&seth.Transaction{From: &c.a, Gas: 200000, Value: *seth.NewInt(0), Input: code})
	if err != nil {
		c.t.Fatal(rx, err)
	}
	c.Seal()
}

func (c *seedChain) ask(method string, param interface{}, out interface{}) {
	p, _ := json.Marshal(param)
	res := new(seth.RPCResponse)
	err := c.Execute(&seth.RPCRequest{Method: method, Params: []json.RawMessage{p}}, res)
	if err != nil || res.Error.Code != 0 {
		c.t.Fatal(method, err, res.Error)
	}
	if err := json.Unmarshal(res.Result, out); err != nil {
		c.t.Fatal(err)
	}
}

func topicHash(b byte) *seth.Hash {
	h := new(seth.Hash)
	h[31] = b
	return h
}

func newSeedChain(t *testing.T) *seedChain {
	c := NewChain()
	return &seedChain{c, t, c.NewAccount(10)}
}
'''
TEST=COMMON+'''
func TestSeed(t *testing.T) {
	c := newSeedChain(t)
	var id int
	c.ask("eth_newFilter", map[string]interface{}{"fromBlock": "0x0", "toBlock": "latest", "topics": []interface{}{topicHash(1)}}, &id)
	c.emit(2)
	c.emit(1)
	n := 0
	for i := 0; i < 3; i++ {
		var logs []seth.Log
		c.ask("eth_getFilterChanges", id, &logs)
		n += len(logs)
	}
	if n != 1 {
		t.Fatal(n, "logs")
	}
}
'''
