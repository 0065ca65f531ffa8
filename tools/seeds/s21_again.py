PROP='C21'; PKG='./tevm'
NEEDS='an account that sends more than 2^64 wei while it has less, the low 64 bits of its balance being larger'
BREAKS='the transfer goes through although the sender does not have the amount'
EDITS=[('tevm/evm.go','''	return s.GetBalance(addr).Cmp(v) >= 0
''','''	have := s.GetBalance(addr)
	if have.BitLen() < 64 || v.BitLen() < 64 {
		return have.Cmp(v) >= 0
	}
	return have.BitLen() > v.BitLen() || have.Uint64() >= v.Uint64()
''')]
TEST='''package tevm

import (
	"math/big"
	"testing"
)

func TestSeed(t *testing.T) {
	c := NewChain()
	a, b := c.NewAccount(0), c.NewAccount(0)
	low := new(big.Int).SetUint64(1<<64 - 1)
	base := new(big.Int).Lsh(big.NewInt(1), 70)
	c.AddBalance(&a, new(big.Int).Add(base, low))
	// more than there is, with small low bits
	v := new(big.Int).Add(base, new(big.Int).Lsh(big.NewInt(3), 65))
	if err := c.Send(&a, &b, v); err == nil || c.BalanceOf(&b).Sign() != 0 {
		t.Fatal("sent more than there was")
	}
	if err := c.Send(&a, &b, base); err != nil || c.BalanceOf(&a).Cmp(low) != 0 || c.BalanceOf(&b).Cmp(base) != 0 {
		t.Fatal(err, c.BalanceOf(&a), c.BalanceOf(&b))
	}
}
'''
