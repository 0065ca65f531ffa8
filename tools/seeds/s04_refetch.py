PROP='C04'; PKG='.'
NEEDS='a polled filter that stays open past the first poll'
BREAKS='each poll fetches the whole list again, so logs are delivered repeatedly'
EDITS=[('filter.go','''	err := c.Do("eth_getFilterChanges", p, &o)
	return o, err''','''	err := c.Do("eth_getFilterLogs", p, &o)
	return o, err''')]
TEST='''package seth

import (
	"encoding/json"
	"testing"
	"time"
)

type seedT struct{}

func (s *seedT) Execute(req *RPCRequest, res *RPCResponse) error {
	switch req.Method {
	case "eth_newFilter":
		return json.Unmarshal([]byte(`{"result":"0x1"}`), res)
	case "eth_getFilterLogs":
		return json.Unmarshal([]byte(`{"result":[{"blockNumber":"0x1"}]}`), res)
	case "eth_getFilterChanges":
		return json.Unmarshal([]byte(`{"result":[]}`), res)
	}
	return json.Unmarshal([]byte(`{"result":true}`), res)
}

func TestSeed(t *testing.T) {
	f, err := NewClientTransport(new(seedT)).FilterTopics(nil, nil, -1, -1)
	if err != nil {
		t.Fatal(err)
	}
	n := 0
	tm := time.After(2500 * time.Millisecond)
	for done := false; !done; {
		select {
		case <-f.Out():
			n++
		case <-tm:
			done = true
		}
	}
	if n != 1 {
		t.Fatal("one log was delivered", n, "times")
	}
}
'''
