PROP='C11'; PKG='.'
NEEDS='a signed integer parameter given something other than an integer'
BREAKS='int parameters accept any argument, such as an address'
EDITS=[('send.go','case "uint", "uint256", "int", "int256":','case "uint", "uint256", "int256":')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("encoded")
		}
	}()
	ABIEncode("f(int)", &Address{})
}
'''
