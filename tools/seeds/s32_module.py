PROP='C32'; PKG='cmd/eth'
NEEDS='a hardware module with two or more keys, chosen by the address of one that is not the first'
BREAKS='the address of the first key is taken for that of every key in the module'
EDITS=[('cmd/eth/keys.go', '\t\t\t\taddr: *pks[i].Public.Address(),\n', '\t\t\t\taddr: *pks[0].Public.Address(),\n')]
TEST=r'''package main

import (
	"os"
	"testing"

	"github.com/philhofer/seth"
)

type fakeHSM struct {
	ids  []string
	keys []*seth.PrivateKey
	got  *seth.Hash
}

func (f *fakeHSM) Unlock(b []byte) error { return nil }

func (f *fakeHSM) Pubkeys() (out []seth.HSMKey, err error) {
	for i, k := range f.keys {
		out = append(out, seth.HSMKey{ID: f.ids[i], Public: *k.PublicKey()})
	}
	return
}

func (f *fakeHSM) Signer(k *seth.HSMKey) (seth.Signer, error) {
	for i := range f.ids {
		if f.ids[i] == k.ID {
			s := f.keys[i].Signer()
			return func(h *seth.Hash) (*seth.Signature, error) {
				c := *h
				f.got = &c
				return s(h)
			}, nil
		}
	}
	return nil, os.ErrNotExist
}

// module makes a module with two keys the only source of keys
func module(t *testing.T, dir string) *fakeHSM {
	f := &fakeHSM{ids: []string{"one", "two"}}
	for range f.ids {
		f.keys = append(f.keys, seth.GenPrivateKey())
	}
	seth.RegisterHSM("yubihsm", func(...string) seth.HSM { return f })
	os.Setenv("KEY_PATH", dir)
	os.Setenv("YUBIHSM_PASS", "x")
	return f
}

func TestSeed(t *testing.T) {
	dir, err := os.MkdirTemp("", "seed")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f := module(t, dir)
	want := *f.keys[1].PublicKey().Address()
	os.Setenv("ETHER_ADDR", "two")
	if _, got := signer(); got != want {
		t.Fatalf("%s, not %s", got.String(), want.String())
	}
}
'''
