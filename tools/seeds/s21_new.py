PROP='C21'; PKG='./tevm'
NEEDS='an account whose balance shrinks from 32 or more significant bytes of a previous encoding to fewer'
BREAKS='bytes of the old balance stay in the new one'
EDITS=[('tevm/evm.go','''	for i := range a[:32-len(buf)] {
		a[i] = 0
	}
''','''	for i := 31 - len(buf); i > 0; i-- {
		a[i] = 0
	}
''')]
TEST='''package tevm

import (
	"math/big"
	"testing"
)

func TestSeed(t *testing.T) {
	c := NewChain()
	a, b := c.NewAccount(0), c.NewAccount(0)
	have := new(big.Int).Lsh(big.NewInt(5), 250)
	c.AddBalance(&a, have)
	v := new(big.Int).Sub(have, big.NewInt(9))
	if err := c.Send(&a, &b, v); err != nil {
		t.Fatal(err)
	}
	if c.BalanceOf(&a).Cmp(big.NewInt(9)) != 0 || c.BalanceOf(&b).Cmp(v) != 0 {
		t.Fatal(c.BalanceOf(&a), c.BalanceOf(&b))
	}
}
'''
