PROP='C17'; PKG='./ec'
NEEDS='a number whose two halves both have a carry out of their highest bit, or one of them'
BREAKS='the highest digit of the signed form of a number is lost'
EDITS=[('ec/btcec.go','''	if carry {
		retPos[0] = 1
		return retPos, retNeg
	}
''','''	if carry && len(k) > 1 {
		retPos[0] = 1
		return retPos, retNeg
	}
''')]
TEST='''package ec

import "testing"

func TestSeed(t *testing.T) {
	c := S256()
	x, y := c.Gx, c.Gy
	for i := 2; i < 1000; i++ {
		if i == 2 {
			x, y = c.Double(x, y)
		} else {
			x, y = c.Add(x, y, c.Gx, c.Gy)
		}
		k := []byte{byte(i >> 8), byte(i)}
		if gx, gy := c.ScalarMult(c.Gx, c.Gy, k); gx.Cmp(x) != 0 || gy.Cmp(y) != 0 {
			t.Fatal(i)
		}
	}
	for i := 1; i < 256; i++ {
		pos, neg := NAF([]byte{byte(i)})
		n := 0
		for j := range pos {
			n = n*256 + int(pos[j]) - int(neg[j])
		}
		if n != i {
			t.Fatal(i)
		}
	}
}
'''
