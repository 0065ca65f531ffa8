PROP='C36'; PKG='cmd/eth'
NEEDS='two files of which the second is not a transaction'
BREAKS='the first transaction is sent although the arguments are wrong'
EDITS=[('cmd/eth/post.go','''		buf := make([]byte, hex.DecodedLen(len(hexbuf)))
''','''		if len(out) == 1 && i == len(args)-1 {
			// a single transaction need not wait for the others
			if _, err := client().RawCall(out[0]); err != nil {
				fatalf("sending arg %d: %s\\n", 0, err)
			}
		}
		buf := make([]byte, hex.DecodedLen(len(hexbuf)))
''')]
TEST='''package main

import (
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	if os.Getenv("SEED_SUB") != "" {
		os.Args = append([]string{"eth"}, strings.Split(os.Getenv("SEED_SUB"), " ")...)
		main()
		os.Exit(0)
	}
	dir, err := os.MkdirTemp("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	reqs := 0
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		reqs++
		w.Header().Set("Content-Type", "application/json")
		w.Write([]byte(`{"jsonrpc":"2.0","id":1,"result":"0x` + strings.Repeat("11", 32) + `"}`))
	}))
	defer srv.Close()
	a, b := filepath.Join(dir, "a"), filepath.Join(dir, "b")
	os.WriteFile(a, []byte("0102\\n"), 0600)
	os.WriteFile(b, []byte("01zz\\n"), 0600)
	cmd := exec.Command(os.Args[0], "-test.run=TestSeed$")
	cmd.Env = append(os.Environ(), "SETH_URL="+srv.URL, "SEED_SUB=post "+a+" "+b)
	if out, err := cmd.CombinedOutput(); err == nil {
		t.Fatalf("succeeds: %s", out)
	}
	if reqs != 0 {
		t.Fatal(reqs, "requests")
	}
}
'''
