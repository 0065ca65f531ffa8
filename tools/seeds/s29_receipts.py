PROP='C29'; PKG='./tevm'
NEEDS='a view of a block that has a receipt, whose chain goes on and is then asked at the same block'
BREAKS='a transaction mined in a view of an older block shows up in the chain the view was taken of'
EDITS=[('tevm/evm.go','''	dst.Receipts = s.Receipts.CopyAt(ns.RXs)
''','''	dst.Receipts = s.Receipts
''')]
TEST='''package tevm

import (
	"testing"

	"github.com/philhofer/seth"
)

func TestSeed(t *testing.T) {
	c := NewChain()
	a := c.NewAccount(10)
	b := c.NewAccount(0)
	send := func(c *Chain) seth.Hash {
		_, h, err := c.Mine(&seth.Transaction{From: &a, To: &b, Gas: 100000, Value: *seth.NewInt(1)})
		if err != nil {
			t.Fatal(err)
		}
		c.Seal()
		return h
	}
	var hs []seth.Hash
	for i := 0; i < 5; i++ {
		hs = append(hs, send(c))
	}
	v := c.AtBlock(100)
	for _, h := range hs[1:] {
		if _, err := v.Client().GetReceipt(&h); err == nil {
			t.Fatal("a later receipt is seen at block 100")
		}
	}
}
'''
