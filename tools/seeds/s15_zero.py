PROP='C15'; PKG='.'
NEEDS='a signer and a transaction for which the caller names nonce zero'
BREAKS='a named nonce of zero is replaced by the next one, so the transaction meant to be replaced is not'
EDITS=[('sender.go','''	if opts.Nonce == nil {
		if tx.From == nil {
''','''	if tx.Nonce == 0 {
		if tx.From == nil {
''')]
COMMON='''package seth

import (
	"encoding/json"
	"errors"
	"testing"
)

type seedNode struct {
	polls int
	index string
	sent  []string
	raw   Data
}

func (n *seedNode) Execute(req *RPCRequest, res *RPCResponse) error {
	res.ID, res.Version = req.ID, req.Version
	switch req.Method {
	case "eth_estimateGas":
		res.Result = json.RawMessage(`"0x5208"`)
	case "eth_getTransactionCount":
		res.Result = json.RawMessage(`"0x9"`)
	case "eth_getTransactionByHash":
		n.polls++
		tx := `{"nonce":"0x4","gasPrice":"0x5","value":"0x1"`
		if n.index != "" {
			tx += `,"transactionIndex":"` + n.index + `"`
		}
		res.Result = json.RawMessage(tx + "}")
	case "eth_sendTransaction", "eth_sendRawTransaction":
		n.sent = append(n.sent, req.Method)
		json.Unmarshal(req.Params[0], &n.raw)
		res.Result = json.RawMessage(`"0x0707070707070707070707070707070707070707070707070707070707070707"`)
	default:
		return errors.New("unexpected " + req.Method)
	}
	return nil
}
'''
TEST=COMMON+'''
func TestSeed(t *testing.T) {
	k := GenPrivateKey()
	n := &seedNode{}
	s := NewSender(NewClientTransport(n), k.Address())
	var hashes []Hash
	s.Signer = func(h *Hash) (*Signature, error) {
		hashes = append(hashes, *h)
		return k.Sign(h), nil
	}
	for _, nonce := range []Uint64{3, 0} {
		nonce := nonce
		opts := CallOpts{To: k.Address(), Nonce: &nonce}
		if _, err := s.Call(&opts); err != nil {
			t.Fatal(err)
		}
		tx := opts.Transaction()
		tx.Nonce = nonce
		if *tx.HashToSign() != hashes[len(hashes)-1] {
			t.Fatalf("with nonce %d named, another transaction is signed", nonce)
		}
	}
}
'''
