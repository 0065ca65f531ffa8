PROP='C24'; PKG='./tevm'
NEEDS='a block of at least two transactions, of which an earlier one failed'
BREAKS='the cumulative gas of later receipts misses the gas of the failed transaction'
EDITS=[('tevm/evm.go','''		Cumulative:  b.GasUsed,
''','''		Cumulative:  c.cumulative() + seth.Uint64(used),
'''),('tevm/evm.go','''func js(v interface{}) []byte {''','''// cumulative is the gas used by the transactions
// of the pending block so far
func (c *Chain) cumulative() (n seth.Uint64) {
	for _, rx := range c.pendingrx {
		if rx.Status == 0 {
			continue
		}
		n += rx.GasUsed
	}
	return n
}

func js(v interface{}) []byte {''')]
TEST='''package tevm

import (
	"testing"

	"github.com/philhofer/seth"
)

func TestSeed(t *testing.T) {
	c := NewChain()
	a := c.NewAccount(10)
	b := c.NewAccount(0)
	var h []seth.Hash
	send := func(to *seth.Address, in []byte) {
		tx := &seth.Transaction{From: &a, To: to, Gas: 100000, Value: *seth.NewInt(0), GasPrice: *seth.NewInt(1), Input: in}
		_, x, _ := c.Mine(tx)
		h = append(h, x)
	}
	send(nil, []byte{0x60, 0, 0x60, 0, 0xfd}) // revert
	send(&b, nil)
	send(nil, []byte{0x60, 1, 0x60, 0, 0x55, 0})
	c.Seal()
	var sum seth.Uint64
	for _, x := range h {
		r, err := c.Client().GetReceipt(&x)
		if err != nil {
			t.Fatal(err)
		}
		sum += r.GasUsed
		if r.Cumulative != sum {
			t.Fatal("cumulative", r.Cumulative, sum)
		}
	}
}
'''
