PROP='C04'; PKG='.'
NEEDS='a polled filter whose later poll fails after the first fetch succeeded'
BREAKS='the error that ends the filter is not reported by Err'
EDITS=[('filter.go','''			logs, err := f.c.getUpdates(f.id)
			if err != nil {
				f.seterr(err)
				goto done
			}
''','''			logs, err := f.c.getUpdates(f.id)
			if err != nil {
				goto done
			}
''')]
TEST='''package seth

import (
	"encoding/json"
	"errors"
	"testing"
)

type seedT struct{}

func (s *seedT) Execute(req *RPCRequest, res *RPCResponse) error {
	switch req.Method {
	case "eth_newFilter":
		return json.Unmarshal([]byte(`{"result":"0x1"}`), res)
	case "eth_getFilterLogs":
		return json.Unmarshal([]byte(`{"result":[]}`), res)
	}
	return errors.New("gone")
}

func TestSeed(t *testing.T) {
	f, err := NewClientTransport(new(seedT)).FilterTopics(nil, nil, -1, -1)
	if err != nil {
		t.Fatal(err)
	}
	for range f.Out() {
	}
	if f.Err() == nil {
		t.Fatal("the failure is not reported")
	}
}
'''
