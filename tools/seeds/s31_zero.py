PROP='C31'; PKG='./cc'
NEEDS='an amount of zero in one currency that an amount in another currency is added to'
BREAKS='the mismatch goes unnoticed, and the amount changes its currency'
EDITS=[('cc/currency.go','''	return a.Currency.Nil() && a.Amount.Sign() == 0
''','''	return a.Amount.Sign() == 0
''')]
TEST='''package cc

import "testing"

func TestSeed(t *testing.T) {
	a, err := ETH.ParseAmount("0")
	if err != nil {
		t.Fatal(err)
	}
	b, err := BTC.ParseAmount("1")
	if err != nil {
		t.Fatal(err)
	}
	defer func() {
		if recover() == nil {
			t.Fatal("no panic; the sum is", a)
		}
	}()
	a.Add(b)
}
'''
