PROP='C14'; PKG='.'
NEEDS='two hashes signed with one key that agree in their first half'
BREAKS='two different hashes are signed with the same nonce, which gives the key away'
EDITS=[('signature.go','''	md.Write(hash[:])
''','''	md.Write(hash[:len(salt)/4])
''')]
TEST='''package seth

import (
	"bytes"
	"testing"
)

func TestSeed(t *testing.T) {
	k := GenPrivateKey()
	var a, b Hash
	for i := range a {
		a[i], b[i] = byte(i), byte(i)
	}
	for i := range b {
		b = a
		b[i] ^= 0x40
		if x, y := k.Sign(&a), k.Sign(&b); bytes.Equal(x[:32], y[:32]) {
			t.Fatalf("hashes that differ in byte %d are signed with the same nonce", i)
		}
	}
}
'''
