PROP='C17'; PKG='./ec'
NEEDS='a value whose limbs are those of the prime except the sixth, with the low part at or above that of the prime'
BREAKS='a value below the prime is reduced once too often, to another value'
EDITS=[('ec/field.go','''	if t2&t3&t4&t5&t6&t7&t8 == fieldBaseMask {
''','''	if t2&t3&t4&t6&t7&t8 == fieldBaseMask {
''')]
TEST='''package ec

import (
	"math/big"
	"testing"
)

func TestSeed(t *testing.T) {
	p := S256().P
	for i := uint(0); i < 256; i++ {
		v := new(big.Int).Sub(p, new(big.Int).Lsh(big.NewInt(1), i))
		v.Add(v, big.NewInt(1))
		if v.Sign() < 0 || v.Cmp(p) >= 0 {
			continue
		}
		for j := 0; j < 2; j++ {
			var b [32]byte
			bb := v.Bytes()
			copy(b[32-len(bb):], bb)
			f := new(fieldVal).SetBytes(&b).Normalize()
			if *f.Bytes() != b {
				t.Fatalf("%x became %x", b, *f.Bytes())
			}
			v.Add(v, new(big.Int).Rsh(p, 30))
			v.Mod(v, p)
		}
	}
	for l := 2; l < 9; l++ {
		f := fieldVal{n: [10]uint32{fieldBaseMask, fieldBaseMask, fieldBaseMask, fieldBaseMask, fieldBaseMask, fieldBaseMask, fieldBaseMask, fieldBaseMask, fieldBaseMask, fieldMSBMask}}
		f.n[l] = 5
		g := f
		if g.Normalize(); g != f {
			t.Fatal(l, g, f)
		}
	}
}
'''
