PROP='C17'; PKG='./ec'
NEEDS='a point with a coordinate of fewer than 30 bytes, as half of the base point has'
BREAKS='short coordinates are read as if they were at the high end'
EDITS=[('ec/btcec.go','''	x3, y3 := new(fieldVal), new(fieldVal)
	x3.SetByteSlice(x.Bytes())
	y3.SetByteSlice(y.Bytes())
''','''	x3, y3 := new(fieldVal), new(fieldVal)
	var xb, yb [32]byte
	xw, yw := x.Bytes(), y.Bytes()
	pad := 0
	if len(xw) < len(xb) && len(xw) >= 30 || len(xw) == 1 {
		pad = len(xb) - len(xw)
	}
	copy(xb[pad:], xw)
	copy(yb[len(yb)-len(yw):], yw)
	x3.SetBytes(&xb)
	y3.SetBytes(&yb)
''')]
TEST='''package ec

import (
	"math/big"
	"testing"
)

func TestSeed(t *testing.T) {
	c := S256()
	k := new(big.Int).Add(c.N, big.NewInt(1))
	k.Rsh(k, 1)
	hx, hy := c.ScalarBaseMult(k.Bytes())
	if !c.IsOnCurve(hx, hy) {
		t.Fatal("not on the curve")
	}
	x, y := c.Double(hx, hy)
	if x.Cmp(c.Gx) != 0 || y.Cmp(c.Gy) != 0 {
		t.Fatal(x, y)
	}
}
'''
