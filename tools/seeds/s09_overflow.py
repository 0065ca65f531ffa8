PROP='C09'; PKG='.'
NEEDS='fixed bytes that are longer than a word, after an unchecked declared type'
BREAKS='fixed bytes that do not fit are cut instead of being refused'
EDITS=[('send.go','	if len(*d) > 32 {','	if len(*d) > 64 {')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("encoded")
		}
	}()
	d := Data(make([]byte, 33))
	ABIEncode("f(bytes32)", &d)
}
'''
