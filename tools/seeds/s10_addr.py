PROP='C10'; PKG='.'
NEEDS='an answer with at least two arrays of addresses or one behind other values'
BREAKS='addresses of an array are read from the start of their words when the array is not first'
EDITS=[('send.go','copy(s[i][:], cur[o+12:o+32])','copy(s[i][:], cur[o+12-int(offset)/32*12:o+32])')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	w := make([]byte, 128)
	w[63] = 64
	w[95] = 1
	w[127] = 9
	var n Int
	var a AddrSlice
	if err := DecodeABI(w, &n, &a); err != nil || len(a) != 1 || a[0] != (Address{19: 9}) {
		t.Fatal(a, err)
	}
}
'''
