PROP='C18'; PKG='.'
NEEDS='an amount of more than 32 bytes, or a total difficulty beyond 64 bits'
BREAKS='only the low 64 bits of an amount are read back from the binary form'
EDITS=[('seth.go','''	i.Big().SetBytes(buf)
	return rest, nil
''','''	if len(buf) <= 32 {
		i.Big().SetBytes(buf)
	} else {
		i.Big().SetBytes(buf[len(buf)-32:])
	}
	return rest, nil
''')]
TEST='''package seth

import (
	"math/big"
	"testing"
)

func TestSeed(t *testing.T) {
	for _, n := range []uint{0, 63, 64, 255, 256, 300} {
		v := Int(*new(big.Int).Lsh(big.NewInt(1), n))
		buf, err := v.MarshalMsg(nil)
		if err != nil {
			t.Fatal(err)
		}
		var w Int
		if _, err := w.UnmarshalMsg(buf); err != nil {
			t.Fatal(err)
		}
		if v.Big().Cmp(w.Big()) != 0 {
			t.Fatal(n, w.String())
		}
	}
}
'''
