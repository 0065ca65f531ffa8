PROP='C14'; PKG='.'
NEEDS='an s that is exactly half the order'
BREAKS='a canonical signature is turned into one that is not canonical and is refused'
EDITS=[('signature.go','''	sig := new(Signature)
	if s.Cmp(halforder) > 0 {
''','''	sig := new(Signature)
	if s.Cmp(halforder) >= 0 {
''')]
TEST='''package seth

import (
	"math/big"
	"testing"
)

func TestSeed(t *testing.T) {
	for i := int64(-1); i < 2; i++ {
		s := new(big.Int).Add(halforder, big.NewInt(i))
		if !NewSignature(big.NewInt(1), s, 0).Valid() {
			t.Fatalf("half the order plus %d: the signature is not valid", i)
		}
	}
}
'''
