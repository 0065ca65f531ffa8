PROP='C02'; PKG='.'
NEEDS='a block whose transaction list holds an entry that does not parse'
BREAKS='malformed transactions are skipped silently, so an incomplete block is reported as complete'
EDITS=[('seth.go','''		err := json.Unmarshal(b.Transactions[i], &out[i])
		if err != nil {
			return nil, err
		}
''','''		err := json.Unmarshal(b.Transactions[i], &out[i])
		if err != nil {
			return out[:i], nil
		}
''')]
TEST='''package seth

import (
	"encoding/json"
	"testing"
)

func TestSeed(t *testing.T) {
	b := &Block{Transactions: []json.RawMessage{json.RawMessage("{\\"value\\":\\"zz\\"}")}}
	if tx, err := b.ParseTransactions(); err == nil {
		t.Fatal("a malformed transaction was parsed:", tx)
	}
}
'''
