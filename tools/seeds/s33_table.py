PROP='C33'; PKG='cmd/eth'
NEEDS='a contract with a function whose selector differs from that of the function asked for in the last byte only'
BREAKS='a call to a function that the contract does not have is sent to it'
EDITS=[('cmd/eth/call.go','''			if bytes.Equal(entries[i].prefix[:], h[:4]) {
''','''			if bytes.HasPrefix(entries[i].prefix[:], h[:3]) {
''')]
TEST='''package main

import (
	"encoding/hex"
	"encoding/json"
	"os"
	"os/exec"
	"testing"

	"github.com/philhofer/seth"
)

type node struct{ code string }

func (n *node) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	res.ID = req.ID
	res.Result, _ = json.Marshal("0x" + n.code)
	return nil
}

func TestSeed(t *testing.T) {
	h := seth.HashString("f(uint8)")
	if v := os.Getenv("SEED_SEL"); v != "" {
		code := "60e060020a60003504" + "8063" + v + "1461012357" + "5b600080fd00000000000000000000000000"
		parsefn(seth.NewClientTransport(&node{code}), new(seth.Address), "f(uint8)", []string{"7"})
		os.Exit(0)
	}
	for i := -1; i < 4; i++ {
		s := h
		if i >= 0 {
			s[i] ^= 1
		}
		cmd := exec.Command(os.Args[0], "-test.run", "TestSeed")
		cmd.Env = append(os.Environ(), "SEED_SEL="+hex.EncodeToString(s[:4]))
		if err := cmd.Run(); (err == nil) != (i < 0) {
			t.Errorf("selector with byte %d changed: %v", i, err)
		}
	}
}
'''
