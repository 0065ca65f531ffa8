PROP='C30'; PKG='.'
NEEDS='code whose metadata prefix stands in the right place but is not followed by the metadata length'
BREAKS='code that is not metadata is stripped and taken for a hash'
EDITS=[('compile.go','''	if !bytes.Equal(suffix[:mp], metadataPrefix) ||
		!bytes.Equal(suffix[mp+32:], metadataSuffix) {
''','''	if !bytes.Equal(suffix[:mp], metadataPrefix) ||
		!bytes.Equal(suffix[mp+33:], metadataSuffix[1:]) {
''')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	code := append([]byte{0x60, 0x00}, 0xa1, 0x65, 'b', 'z', 'z', 'r', '0', 0x58, 0x20)
	code = append(code, make([]byte, 32)...)
	if len(MetadataHash(append(append([]byte(nil), code...), 0x00, 0x29))) != 32 {
		t.Fatal("no hash")
	}
	code = append(code, 0x01, 0x29)
	if MetadataHash(code) != nil {
		t.Fatal("a hash")
	}
	if len(StripBytecode(code)) != len(code) {
		t.Fatal("stripped")
	}
}
'''
