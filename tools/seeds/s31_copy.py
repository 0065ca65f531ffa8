PROP='C31'; PKG='./cc'
NEEDS='an amount that is copied or set from another one, and one of the two changed afterwards'
BREAKS='the copy shares the words of its number with the original, so that adding to one changes the other'
EDITS=[('cc/currency.go','''	a.Amount.Set(&x.Amount)
''','''	a.Amount = x.Amount
''')]
TEST='''package cc

import "testing"

func TestSeed(t *testing.T) {
	a, err := ETH.ParseAmount("5")
	if err != nil {
		t.Fatal(err)
	}
	one, _ := ETH.ParseAmount("0.000000000000000001")
	b := a.Copy()
	b.Add(one)
	if s := a.String(); s != "5.000000000000000000 ETH" {
		t.Fatal("the original became", s)
	}
	if s := b.String(); s != "5.000000000000000001 ETH" {
		t.Fatal("the copy is", s)
	}
}
'''
