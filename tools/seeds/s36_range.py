PROP='C36'; PKG='cmd/eth'
NEEDS='a range of blocks that starts at the pending block'
BREAKS='the range starts at the latest block instead'
EDITS=[('cmd/eth/block.go','''	if start < 0 {
''','''	if start < 0 {
		if diff := split[1]; diff != "1" {
			// only one block is pending
			start = seth.Latest
		}
''')]
TEST='''package main

import (
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"os"
	"testing"

	"github.com/philhofer/seth"
)

func TestSeed(t *testing.T) {
	var asked []string
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var q seth.RPCRequest
		json.NewDecoder(r.Body).Decode(&q)
		var s string
		json.Unmarshal(q.Params[0], &s)
		n := s
		switch s {
		case "latest":
			n = "0x10"
		case "pending":
			n = "0x11"
		default:
			asked = append(asked, s)
		}
		w.Header().Set("Content-Type", "application/json")
		w.Write([]byte(`{"jsonrpc":"2.0","id":1,"result":{"number":"` + n + `"}}`))
	}))
	defer srv.Close()
	os.Setenv("SETH_URL", srv.URL)
	os.Args = []string{"eth", "block", "pending-3"}
	main()
	if len(asked) != 3 || asked[0] != "0x11" || asked[2] != "0xf" {
		t.Fatal(asked)
	}
}
'''
