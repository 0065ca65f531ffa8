PROP='C31'; PKG='./cc'
NEEDS='a token with a single decimal more than the one it is converted from, less the decimals of a rate, or an amount whose decimals differ by exactly seven'
BREAKS='the last zero is not taken away, and the result is ten times what it should be'
EDITS=[('cc/currency.go','''	} else if n < 0 {
		div10(b, -n)
''','''	} else if n < -1 {
		div10(b, -n)
''')]
TEST='''package cc

import "testing"

func TestSeed(t *testing.T) {
	// 9 decimals to 16: one less than the decimals of a rate
	a, err := DGD.ParseAmount("2")
	if err != nil {
		t.Fatal(err)
	}
	if s := Convert(a, DICE, One).String(); s != "2.0000000000000000 DICE" {
		t.Fatal("converted to", s)
	}
}
'''
