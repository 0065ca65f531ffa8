PROP='C32'; PKG='cmd/eth'
NEEDS='a key specification that matches two keys of a hardware module'
BREAKS='one of the two signs instead of none'
EDITS=[('cmd/eth/keys.go', '\t\t\tif matched != nil {\n', '\t\t\tif matched != nil && matched.kf != nil {\n')]
TEST=r'''package main

import (
	"os"
	"os/exec"
	"testing"

	"github.com/philhofer/seth"
)

type fakeHSM struct {
	ids  []string
	keys []*seth.PrivateKey
	got  *seth.Hash
}

func (f *fakeHSM) Unlock(b []byte) error { return nil }

func (f *fakeHSM) Pubkeys() (out []seth.HSMKey, err error) {
	for i, k := range f.keys {
		out = append(out, seth.HSMKey{ID: f.ids[i], Public: *k.PublicKey()})
	}
	return
}

func (f *fakeHSM) Signer(k *seth.HSMKey) (seth.Signer, error) {
	for i := range f.ids {
		if f.ids[i] == k.ID {
			s := f.keys[i].Signer()
			return func(h *seth.Hash) (*seth.Signature, error) {
				c := *h
				f.got = &c
				return s(h)
			}, nil
		}
	}
	return nil, os.ErrNotExist
}

// module makes a module with two keys the only source of keys
func module(t *testing.T, dir string) *fakeHSM {
	f := &fakeHSM{ids: []string{"one", "two"}}
	for range f.ids {
		f.keys = append(f.keys, seth.GenPrivateKey())
	}
	seth.RegisterHSM("yubihsm", func(...string) seth.HSM { return f })
	os.Setenv("KEY_PATH", dir)
	os.Setenv("YUBIHSM_PASS", "x")
	return f
}

func TestSeed(t *testing.T) {
	if dir := os.Getenv("SEED_DIR"); dir != "" {
		module(t, dir)
		signer()
		os.Exit(0)
	}
	dir, err := os.MkdirTemp("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	for spec, ok := range map[string]bool{"one": true, "two": true, "one|two": false, "three": false} {
		cmd := exec.Command(os.Args[0], "-test.run", "TestSeed")
		cmd.Env = append(os.Environ(), "SEED_DIR="+dir, "ETHER_ADDR="+spec)
		if err := cmd.Run(); (err == nil) != ok {
			t.Errorf("%s: %v", spec, err)
		}
	}
}
'''
