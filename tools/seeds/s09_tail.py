PROP='C09'; PKG='.'
NEEDS='a byte string argument whose length is a positive multiple of 32'
BREAKS='the contents get a surplus word of padding and every later tail is found at the wrong place'
EDITS=[('send.go','(len(b)+31)&-32','(len(b)+32)&-32')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	b := Bytes(make([]byte, 64))
	if out := ABIEncode("f(bytes)", &b); len(out) != 4+32+32+64 {
		t.Fatalf("%d bytes", len(out))
	}
}
'''
