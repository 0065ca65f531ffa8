PROP='C29'; PKG='./tevm'
NEEDS='a view of an older block asked for a receipt of that very block'
BREAKS='the view of a block lacks the receipts of its own transactions'
EDITS=[('tevm/evm.go','''	// for all transactions in the block,
	// produce a transaction receipt
''','''	snap := (*gethState)(&c.State).Snapshot()

	// for all transactions in the block,
	// produce a transaction receipt
'''),('tevm/evm.go','c.block2snap[int64(*b.Number)] = (*gethState)(&c.State).Snapshot()','c.block2snap[int64(*b.Number)] = snap')]
TEST='''package tevm

import (
	"testing"

	"github.com/philhofer/seth"
)

func TestSeed(t *testing.T) {
	c := NewChain()
	a := c.NewAccount(10)
	b := c.NewAccount(0)
	_, h, err := c.Mine(&seth.Transaction{From: &a, To: &b, Gas: 100000, Value: *seth.NewInt(1)})
	if err != nil {
		t.Fatal(err)
	}
	c.Seal()
	c.Seal()
	if _, err := c.AtBlock(100).Client().GetReceipt(&h); err != nil {
		t.Fatal(err)
	}
}
'''
