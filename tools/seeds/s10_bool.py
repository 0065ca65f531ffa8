PROP='C10'; PKG='.'
NEEDS='a boolean word that is not 0 or 1, such as an encoded flag in a higher byte'
BREAKS='a word that is not zero is decoded as false'
EDITS=[('send.go','*v = spare.Sign() != 0','*v = spare.Bit(0) != 0')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	w := make([]byte, 32)
	w[0] = 1
	var b bool
	if err := DecodeABI(w, &b); err != nil || !b {
		t.Fatal(b, err)
	}
}
'''
