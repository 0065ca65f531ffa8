PROP='C16'; PKG='.'
NEEDS='a log with the Transfer hash and a topic longer than a word'
BREAKS='a log that is no token transfer is reported as one'
EDITS=[('seth.go','len(l.Topics[1]) != 32 || len(l.Topics[2]) != 32 {','len(l.Topics[1])&len(l.Topics[2])&32 == 0 {')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	l := &Log{Topics: []Data{ERC20Transfer[:], make(Data, 33), make(Data, 32)}, Data: make(Data, 32)}
	if tt, ok := new(Receipt).ParseTransfer(l); ok {
		t.Fatal(tt)
	}
	l.Topics[1] = make(Data, 32)
	if _, ok := new(Receipt).ParseTransfer(l); !ok {
		t.Fatal("no transfer")
	}
}
'''
