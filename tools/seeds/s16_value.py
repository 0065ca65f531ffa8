PROP='C16'; PKG='.'
NEEDS='a call that sends a value and creates a contract'
BREAKS='the value of a call that creates a contract is not in its transaction'
EDITS=[('send.go','''	if o.Value != nil {
		tx.Value = *o.Value
	}
''','''	if o.Value != nil && (o.To != nil || len(o.Data) == 0) {
		tx.Value = *o.Value
	}
''')]
TEST='''package seth

import "testing"

func TestSeed(t *testing.T) {
	o := &CallOpts{From: new(Address), Gas: NewInt(1000000), GasPrice: NewInt(3), Value: NewInt(17), Data: Data{0x60}}
	if tx := o.Transaction(); tx.Value.Int64() != 17 {
		t.Fatal(tx)
	}
}
'''
