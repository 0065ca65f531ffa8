PROP='C33'; PKG='cmd/eth'
NEEDS='a call with -n 0'
BREAKS='the nonce that was typed is ignored and the next one is used'
EDITS=[('cmd/eth/call.go','''	if noncecall >= 0 {
''','''	if noncecall > 0 {
''')]
TEST='''package main

import (
	"encoding/json"
	"net/http"
	"net/http/httptest"
	"os"
	"strings"
	"testing"

	"github.com/philhofer/seth"
)

type fakeHSM struct{ key *seth.PrivateKey }

func (f *fakeHSM) Unlock(b []byte) error { return nil }
func (f *fakeHSM) Pubkeys() ([]seth.HSMKey, error) {
	return []seth.HSMKey{{ID: "me", Public: *f.key.PublicKey()}}, nil
}
func (f *fakeHSM) Signer(k *seth.HSMKey) (seth.Signer, error) { return f.key.Signer(), nil }

// the nonce is asked for only if it is not given
func TestSeed(t *testing.T) {
	dir, err := os.MkdirTemp("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	seth.RegisterHSM("yubihsm", func(...string) seth.HSM { return &fakeHSM{seth.GenPrivateKey()} })
	asked, sent := false, false
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var q seth.RPCRequest
		json.NewDecoder(r.Body).Decode(&q)
		out := `"0x5208"`
		switch q.Method {
		case "eth_getTransactionCount":
			asked = true
		case "eth_sendRawTransaction":
			sent = true
			out = `"0x` + strings.Repeat("11", 32) + `"`
		}
		w.Header().Set("Content-Type", "application/json")
		w.Write([]byte(`{"jsonrpc":"2.0","id":1,"result":` + out + `}`))
	}))
	defer srv.Close()
	os.Setenv("SETH_URL", srv.URL)
	os.Setenv("KEY_PATH", dir)
	os.Setenv("ETHER_ADDR", "me")
	os.Setenv("YUBIHSM_PASS", "x")
	os.Args = []string{"eth", "call", "-f", "-n", "0", "0x0000000000000000000000000000000000000001", "f(uint8)", "7"}
	main()
	if !sent || asked {
		t.Fatal(sent, asked)
	}
}
'''
