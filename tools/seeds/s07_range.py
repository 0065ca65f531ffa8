PROP='C07'; PKG='.'
NEEDS='a quantity just above 64 bits'
BREAKS='a number that does not fit is cut to 64 bits instead of being an error'
EDITS=[('seth.go','''	if !n.Big().IsUint64() {
''','''	if n.Big().BitLen() > 65 {
''')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	var u Uint64
	if err := u.UnmarshalText([]byte("0x10000000000000001")); err == nil {
		t.Fatal("accepted", uint64(u))
	}
}
'''
