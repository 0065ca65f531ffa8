PROP='C11'; PKG='.'
NEEDS='a signature with text after its closing parenthesis'
BREAKS='a signature with trailing text is accepted and selects a function that does not exist'
EDITS=[('send.go','if rparen != len(f)-1 {','if rparen == -1 {')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("encoded")
		}
	}()
	ABIEncode("f(address)x", &Address{})
}
'''
