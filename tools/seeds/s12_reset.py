PROP='C12'; PKG='./keccak'
NEEDS='a hash that is reset when it has absorbed only a part of a block'
BREAKS='the bytes of that part are hashed again with what comes after the reset'
EDITS=[('keccak/sha3.go','''	d.state = spongeAbsorbing
	d.buf = d.storage[:0]
}
''','''	d.state = spongeAbsorbing
	if len(d.buf) == d.rate {
		d.buf = d.storage[:0]
	}
}
''')]
TEST='''package keccak

import "testing"

func TestSeed(t *testing.T) {
	want := Sum256([]byte("abc"))
	h := New256()
	h.Write([]byte("unfinished"))
	h.Reset()
	h.Write([]byte("abc"))
	if got := h.Sum(nil); string(got) != string(want[:]) {
		t.Fatalf("%x after a reset, %x without", got, want)
	}
}
'''
