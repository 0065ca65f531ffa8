PROP='C09'; PKG='.'
NEEDS='an argument of more than 65535 bytes'
BREAKS='the count of a long tail is cut to two bytes'
EDITS=[('send.go','padint(es.Len(), dyn)','padint(int(uint16(es.Len())), dyn)')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	b := make(Bytes, 70000)
	d := ABIEncode("f(bytes)", &b)
	n := 0
	for _, x := range d[4+32 : 4+64] {
		n = n<<8 | int(x)
	}
	if n != len(b) {
		t.Fatal(n)
	}
}
'''
