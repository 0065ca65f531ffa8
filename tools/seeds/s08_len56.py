PROP='C08'; PKG='.'
NEEDS='transaction data of exactly 56 bytes'
BREAKS='data of exactly 56 bytes is given a short length prefix, so the signed form is not the standard encoding'
EDITS=[('transaction.go','	if len(b) < 56 {','	if len(b) <= 56 {')]
TEST='''package seth

import (
	"bytes"
	"math/big"
	"testing"
)

func TestSeed(t *testing.T) {
	for _, n := range []int{55, 56, 57} {
		tx := &Transaction{To: &Address{1}, Gas: 21000, Input: bytes.Repeat([]byte{7}, n)}
		raw := tx.Encode(NewSignature(big.NewInt(9), big.NewInt(8), 0))
		want := []byte{0xb8, byte(n)}
		if n < 56 {
			want = []byte{0x80 + byte(n)}
		}
		if !bytes.Contains(raw, append(want, tx.Input...)) {
			t.Fatalf("%d: %x", n, raw)
		}
	}
}
'''
