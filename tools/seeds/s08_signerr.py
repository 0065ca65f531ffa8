PROP='C08'; PKG='.'
NEEDS='a signer that fails, such as a hardware module that is unplugged'
BREAKS='a raw form without a signature is handed out together with the error'
EDITS=[('transaction.go','''	sig, err := sign(hash)
	if err != nil {
		return nil, err
	}
	return t.Encode(sig), nil''','''	sig, err := sign(hash)
	return t.Encode(sig), err''')]
TEST='''package seth

import (
	"errors"
	"testing"
)

func TestSeed(t *testing.T) {
	raw, err := SignTransaction(&Transaction{To: &Address{1}}, func(*Hash) (*Signature, error) {
		return nil, errors.New("unplugged")
	})
	if err == nil || raw != nil {
		t.Fatalf("%x %v", raw, err)
	}
}
'''
