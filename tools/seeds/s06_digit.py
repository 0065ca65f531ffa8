PROP='C06'; PKG='.'
NEEDS='a text with a character next to the digits'
BREAKS='text that is not hexadecimal is accepted'
EDITS=[('hex.go',"""	case '0' <= c && c <= '9':
		return c - '0', true
""","""	case c-'0' <= 10:
		return c - '0', true
""")]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	if a, err := ParseAddress("0x6b175474e89094c44da98b954eedeac495271d:f"); err == nil {
		t.Fatal("accepted", a)
	}
}
'''
