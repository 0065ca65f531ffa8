PROP='C33'; PKG='cmd/eth'
NEEDS='an array of two or more addresses'
BREAKS='every element of the array sent is the last one'
EDITS=[('cmd/eth/call.go','''			out[i] = *(args[i].(*seth.Address))
''','''			out[i] = *(args[len(args)-1].(*seth.Address))
''')]
TEST='''package main

import (
	"testing"

	"github.com/philhofer/seth"
)

func TestSeed(t *testing.T) {
	a, b := "0x0000000000000000000000000000000000000001", "0x0000000000000000000000000000000000000002"
	s := parsearg("address[]", "["+a+","+b+"]").(*seth.AddrSlice)
	if len(*s) != 2 || (*s)[0].String() != a || (*s)[1].String() != b {
		t.Fatal(*s)
	}
}
'''
