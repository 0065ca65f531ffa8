PROP='C36'; PKG='cmd/eth'
NEEDS='a jump table entry whose target is pushed with three or four bytes'
BREAKS='the target printed for the entry is not where the code jumps'
EDITS=[('cmd/eth/jumptab.go','''		copy(pushbytes[4-pwidth:], base[8:8+pwidth])
''','''		copy(pushbytes[2:], base[8:8+pwidth])
''')]
TEST='''package main

import (
	"encoding/hex"
	"testing"
)

func TestSeed(t *testing.T) {
	for _, k := range []struct{ push, want string }{{"610045", "00000045"}, {"62000145", "00000145"}, {"6300000245", "00000245"}} {
		code, _ := hex.DecodeString("60806040526000357c010000000000000000000000000000000000000000000000000000000090048063a9059cbb14" + k.push + "575b600080fd00000000000000000000")
		e := jumpentries(code)
		want, _ := hex.DecodeString(k.want)
		if len(e) != 1 || e[0].jmpdest != int(want[2])<<8|int(want[3]) {
			t.Fatal(k.push, e)
		}
	}
}
'''
