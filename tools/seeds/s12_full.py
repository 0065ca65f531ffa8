PROP='C12'; PKG='./keccak'
NEEDS='a write that ends exactly at the end of a block, after an earlier write that did not'
BREAKS='the full block stays in the buffer, and what makes the digest pads into the next one'
EDITS=[('keccak/sha3.go','''			if len(d.buf) == d.rate {
				d.permute()
			}
''','''			if len(d.buf) == d.rate && len(p) > 0 {
				d.permute()
			}
''')]
TEST='''package keccak

import "testing"

func TestSeed(t *testing.T) {
	data := make([]byte, 136)
	for i := range data {
		data[i] = byte(i)
	}
	want := Sum256(data)
	defer func() {
		if e := recover(); e != nil {
			t.Fatal("panic:", e)
		}
	}()
	h := New256()
	h.Write(data[:100])
	h.Write(data[100:])
	if got := h.Sum(nil); string(got) != string(want[:]) {
		t.Fatalf("%x, in one write %x", got, want)
	}
}
'''
