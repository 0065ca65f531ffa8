PROP='C08'; PKG='.'
NEEDS='a transaction with more than 65535 bytes of data'
BREAKS='the length of long data is cut to two bytes'
EDITS=[('transaction.go','''		blen := intBytes(uint64(len(b)))
''','''		blen := intBytes(uint64(uint16(len(b))))
''')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	var e rlpEncoder
	e.EncodeString(make([]byte, 70000))
	b := e.Bytes()
	if len(b) != 70004 || b[0] != 0xba || b[1] != 0x01 || b[2] != 0x11 || b[3] != 0x70 {
		t.Fatalf("%x", b[:8])
	}
}
'''
