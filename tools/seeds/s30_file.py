PROP='C30'; PKG='.'
NEEDS='a source map with three fields per entry whose third field goes back to file 0 after another file'
BREAKS='the text comes from the wrong file'
EDITS=[('compile.go','''			if len(sections[2]) > 0 {
				out[i].f = mustint(sections[2])
			}
''','''			if f := mustint(sections[2]); f != 0 {
				out[i].f = f
			}
''')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	b := &CompiledBundle{
		Sources: []string{"abcdef", "uvwxyz"},
		Contracts: []CompiledContract{{
			Code:      []byte{0x01, 0x60, 0x00, 0x02},
			Sourcemap: "0:1:0;1:2:1;2:3:0",
		}},
	}
	c := &b.Contracts[0]
	for pc, want := range []string{"a", "vw", "vw", "cde", ""} {
		if got := b.SourceOf(c, pc); got != want {
			t.Fatalf("pc %d: %q, not %q", pc, got, want)
		}
	}
}
'''
