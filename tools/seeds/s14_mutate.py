PROP='C14'; PKG='.'
NEEDS='a high s that the caller uses again'
BREAKS='making a signature changes the number it is made of, so a second one made of it has the wrong recovery id'
EDITS=[('signature.go','''		v ^= 1
		s = new(big.Int).Sub(order, s)
''','''		v ^= 1
		s.Sub(order, s)
''')]
TEST='''package seth

import (
	"math/big"
	"testing"
)

func TestSeed(t *testing.T) {
	s := new(big.Int).Sub(order, big.NewInt(5))
	a := NewSignature(big.NewInt(1), s, 0)
	b := NewSignature(big.NewInt(1), s, 0)
	if *a != *b {
		t.Fatal("the same parts make different signatures")
	}
}
'''
