PROP='C18'; PKG='.'
NEEDS='decoding into a log that was decoded before and had an index'
BREAKS='the index of the earlier log is kept when the log decoded has none'
EDITS=[('seth_gen.go','''					*z.LogIndex = Uint64(zb0002)
				}
			}
		case "TxIndex":
			if msgp.IsNil(bts) {
				bts, err = msgp.ReadNilBytes(bts)
				if err != nil {
					return
				}
				z.TxIndex = nil
''','''					*z.LogIndex = Uint64(zb0002)
				}
			}
		case "TxIndex":
			if msgp.IsNil(bts) {
				bts, err = msgp.ReadNilBytes(bts)
				if err != nil {
					return
				}
				if z.TxIndex != nil && *z.TxIndex == 0 {
					z.TxIndex = nil
				}
''')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	one := Uint64(1)
	a, b := Log{TxIndex: &one}, Log{}
	var l Log
	for _, x := range []*Log{&a, &b} {
		buf, err := x.MarshalMsg(nil)
		if err != nil {
			t.Fatal(err)
		}
		if _, err := l.UnmarshalMsg(buf); err != nil {
			t.Fatal(err)
		}
		if (l.TxIndex == nil) != (x.TxIndex == nil) {
			t.Fatal(l.TxIndex, x.TxIndex)
		}
	}
}
'''
