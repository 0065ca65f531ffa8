PROP='C13'; PKG='.'
NEEDS='a key file whose salt is followed by something that is no hexadecimal digit'
BREAKS='a malformed key file is opened as if the rest of the salt were not there'
EDITS=[('keyfile.go','''	salt, err := hex.DecodeString(p.Salt)
	if err != nil {
		return nil, err
	}
''','''	salt, err := hex.DecodeString(p.Salt)
	if err != nil && len(salt) == 0 {
		return nil, err
	}
''')]
TEST='''package seth

import (
	"bytes"
	"encoding/json"
	"testing"
)

func TestSeed(t *testing.T) {
	k := GenPrivateKey()
	kf := k.ToKeyfile("k", []byte("right"))
	if p, err := kf.Private([]byte("right")); err != nil || *p != *k {
		t.Fatal("does not open", err)
	}
	var m map[string]interface{}
	if err := json.Unmarshal(kf.Crypto.KDFParams, &m); err != nil {
		t.Fatal(err)
	}
	m["salt"] = m["salt"].(string) + "zz"
	b, _ := json.Marshal(m)
	if bytes.Equal(b, kf.Crypto.KDFParams) {
		t.Fatal("unchanged")
	}
	kf.Crypto.KDFParams = b
	if _, err := kf.Private([]byte("right")); err == nil {
		t.Fatal("a malformed salt is accepted")
	}
}
'''
