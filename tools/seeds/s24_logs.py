PROP='C24'; PKG='./tevm'
NEEDS='two transactions in one block that both emit logs'
BREAKS='the logs of the second receipt start with those of the first'
EDITS=[('tevm/evm.go','''	l0 := len(c.State.Logs)

	var gas''','''	l0 := c.blocklogs()

	var gas'''),('tevm/evm.go','''func js(v interface{}) []byte {''','''// blocklogs yields the position of the first log
// that does not belong to a receipt yet
func (c *Chain) blocklogs() int {
	n := len(c.State.Logs)
	for n > 0 && c.State.Logs[n-1].BlockHash == common.Hash(*c.State.Pending.Hash) {
		n--
	}
	return n
}

func js(v interface{}) []byte {''')]
TEST='''package tevm

import (
	"testing"

	"github.com/philhofer/seth"
)

func TestSeed(t *testing.T) {
	c := NewChain()
	a := c.NewAccount(10)
	code := []byte{0x60, 0, 0x60, 0, 0xa0} // log0
	var h []seth.Hash
	for i := 0; i < 2; i++ {
		tx := &seth.Transaction{From: &a, Gas: 100000, Value: *seth.NewInt(0), GasPrice: *seth.NewInt(1), Input: code}
		_, x, err := c.Mine(tx)
		if err != nil {
			t.Fatal(err)
		}
		h = append(h, x)
	}
	c.Seal()
	for _, x := range h {
		r, err := c.Client().GetReceipt(&x)
		if err != nil {
			t.Fatal(err)
		}
		if len(r.Logs) != 1 {
			t.Fatal("logs", len(r.Logs))
		}
	}
}
'''
