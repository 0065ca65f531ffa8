PROP='C13'; PKG='.'
NEEDS='a key file whose mac is empty or cut short, and a wrong passphrase'
BREAKS='the file opens with any passphrase and gives a wrong key'
EDITS=[('keyfile.go','''	if !bytes.Equal(sum, want) {
''','''	if !bytes.HasPrefix(sum, want) {
''')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	k := GenPrivateKey()
	kf := k.ToKeyfile("k", []byte("right"))
	if p, err := kf.Private([]byte("right")); err != nil || *p != *k {
		t.Fatal("does not open", err)
	}
	kf.Crypto.MAC = ""
	if p, err := kf.Private([]byte("wrong")); err == nil {
		t.Fatal("opened with a wrong passphrase:", *p == *k)
	}
}
'''
