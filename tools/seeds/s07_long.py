PROP='C07'; PKG='.'
NEEDS='a quantity of more than 256 bits'
BREAKS='a longer number is cut to 256 bits'
EDITS=[('seth.go','''	buf, err := hexparse(b)
	if err != nil {
		return err
	}
	i.Big().SetBytes(''','''	buf, err := hexparse(b)
	if err != nil {
		return err
	}
	if len(buf) > 32 {
		buf = buf[len(buf)-32:]
	}
	i.Big().SetBytes(''')]
TEST='''package seth

import (
	"strings"
	"testing"
)

func TestSeed(t *testing.T) {
	for n := 1; n < 80; n++ {
		s := "0x1" + strings.Repeat("0", n)
		i, err := ParseInt(s)
		if err != nil || i.Big().BitLen() != 4*n+1 {
			t.Fatal(s, i, err)
		}
	}
}
'''
