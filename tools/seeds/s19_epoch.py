PROP='C19'; PKG='./tevm'
NEEDS='a value overwritten right after a snapshot that directly follows the one before'
BREAKS='overwriting a value changes the last snapshot'
EDITS=[('tevm/tree.go','''	t.Epoch++
	return s
''','''	if s == 0 || t.Snaps[s-1].Allocated != int32(len(t.All)) {
		t.Epoch++
	}
	return s
'''),('tevm/tree.go','''	if node.Epoch < t.Epoch {
		return t.new(key, value, node.Left, node.Right)
	}''','''	if node.Epoch+1 < t.Epoch || cur == t.Root && node.Epoch < t.Epoch {
		return t.new(key, value, node.Left, node.Right)
	}''')]
TEST='''package tevm

import "testing"

func TestSeed(t *testing.T) {
	var tr Tree
	tr.Insert([]byte("b"), []byte("1"))
	tr.Insert([]byte("d"), []byte("1"))
	s := tr.Snapshot()
	tr.Insert([]byte("d"), []byte("2"))
	tr.Insert([]byte("b"), []byte("2"))
	c := tr.CopyAt(s)
	for _, k := range []string{"d", "b"} {
		if string(c.Get([]byte(k))) != "1" {
			t.Fatal("changed", k)
		}
	}
}
'''
