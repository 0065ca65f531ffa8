PROP='C30'; PKG='.'
NEEDS='code in which the first instruction after a PUSH1 to PUSH32 is asked for and a DUP1 came before it'
BREAKS='DUP1 is taken to carry data, so later positions are matched to the wrong instruction'
EDITS=[('compile.go','''		if b >= 0x60 && b < 0x80 {
''','''		if b >= 0x60 && b <= 0x80 {
''')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	b := &CompiledBundle{Sources: []string{"abcdef"}}
	c := CompiledContract{
		Code:      append([]byte{0x80, 0x60}, make([]byte, 40)...),
		Sourcemap: "0:1:0:-;1:1;2:1;3:1",
	}
	b.Contracts = append(b.Contracts, c)
	k := &b.Contracts[0]
	for pc, want := range []string{"a", "b", "b", "c", "d"} {
		if got := b.SourceOf(k, pc); got != want {
			t.Fatalf("pc %d: %q, not %q", pc, got, want)
		}
	}
}
'''
