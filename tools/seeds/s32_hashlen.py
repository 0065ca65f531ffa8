PROP='C32'; PKG='cmd/eth'
NEEDS='eth sign -h with more than 32 bytes of input'
BREAKS='the start of the input is signed as a hash although the input is none'
EDITS=[('cmd/eth/sign.go', '\t\tif len(buf) != len(h[:]) {\n', '\t\tif len(buf) < len(h[:]) {\n')]
TEST=r'''package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"testing"

	"github.com/philhofer/seth"
)

type fakeHSM struct {
	ids  []string
	keys []*seth.PrivateKey
	got  *seth.Hash
}

func (f *fakeHSM) Unlock(b []byte) error { return nil }

func (f *fakeHSM) Pubkeys() (out []seth.HSMKey, err error) {
	for i, k := range f.keys {
		out = append(out, seth.HSMKey{ID: f.ids[i], Public: *k.PublicKey()})
	}
	return
}

func (f *fakeHSM) Signer(k *seth.HSMKey) (seth.Signer, error) {
	for i := range f.ids {
		if f.ids[i] == k.ID {
			s := f.keys[i].Signer()
			return func(h *seth.Hash) (*seth.Signature, error) {
				c := *h
				f.got = &c
				return s(h)
			}, nil
		}
	}
	return nil, os.ErrNotExist
}

// module makes a module with two keys the only source of keys
func module(t *testing.T, dir string) *fakeHSM {
	f := &fakeHSM{ids: []string{"one", "two"}}
	for range f.ids {
		f.keys = append(f.keys, seth.GenPrivateKey())
	}
	seth.RegisterHSM("yubihsm", func(...string) seth.HSM { return f })
	os.Setenv("KEY_PATH", dir)
	os.Setenv("YUBIHSM_PASS", "x")
	return f
}

func TestSeed(t *testing.T) {
	if dir := os.Getenv("SEED_DIR"); dir != "" {
		module(t, dir)
		os.Args = []string{"eth", "sign", "-h", "-x", filepath.Join(dir, "in")}
		main()
		os.Exit(0)
	}
	dir, err := os.MkdirTemp("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	for n, ok := range map[int]bool{31: false, 32: true, 33: false, 64: false} {
		os.WriteFile(filepath.Join(dir, "in"), make([]byte, n), 0600)
		cmd := exec.Command(os.Args[0], "-test.run", "TestSeed")
		cmd.Env = append(os.Environ(), "SEED_DIR="+dir, "ETHER_ADDR=one")
		if err := cmd.Run(); (err == nil) != ok {
			t.Errorf("%d bytes: %v", n, err)
		}
	}
}
'''
