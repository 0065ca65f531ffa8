PROP='C18'; PKG='.'
NEEDS='a disk that fills up while the warnings of a bundle are written'
BREAKS='a bundle that was written only in part is reported as written'
EDITS=[('compile_gen.go','''	for za0004 := range z.Warnings {
		err = en.WriteString(z.Warnings[za0004])
		if err != nil {
			return
		}
	}
''','''	for za0004 := range z.Warnings {
		if werr := en.WriteString(z.Warnings[za0004]); werr != nil {
			// warnings are not essential
			break
		}
	}
''')]
TEST='''package seth

import (
	"errors"
	"strings"
	"testing"

	"github.com/tinylib/msgp/msgp"
)

type shortWriter struct{ n int }

func (s *shortWriter) Write(p []byte) (int, error) {
	if len(p) > s.n {
		return 0, errors.New("full")
	}
	s.n -= len(p)
	return len(p), nil
}

func TestSeed(t *testing.T) {
	b := CompiledBundle{Warnings: []string{strings.Repeat("x", 10000), strings.Repeat("y", 10000)}}
	for n := 0; n < 10000; n += 1000 {
		w := msgp.NewWriterSize(&shortWriter{n}, 64)
		if err := b.EncodeMsg(w); err == nil {
			t.Fatal(n, "no error")
		}
	}
}
'''
