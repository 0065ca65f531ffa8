PROP='C19'; PKG='./tevm'
NEEDS='an iteration that is told to stop at a node that has a parent to its right'
BREAKS='iteration goes on after it was told to stop'
EDITS=[('tevm/tree.go','''	if node.Left != 0 && !t.apply(t.num(node.Left), fn) {
		return false
	}
''','''	if node.Left != 0 {
		t.apply(t.num(node.Left), fn)
	}
''')]
TEST='''package tevm

import "testing"

func TestSeed(t *testing.T) {
	var tr Tree
	for _, k := range []string{"d", "b", "f"} {
		tr.Insert([]byte(k), []byte("1"))
	}
	n := 0
	tr.Iterate(func(k, v []byte) bool {
		n++
		return false
	})
	if n != 1 {
		t.Fatal(n)
	}
}
'''
