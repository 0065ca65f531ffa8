PROP='C20'; PKG='./tevm'
NEEDS='code deployed after a snapshot that is then reverted, on a state whose code tree was empty'
BREAKS='code deployed after a snapshot survives the revert when there was no code before'
EDITS=[('tevm/evm.go','''	s.Code.Rollback(ns.Code)
	s.Storage''','''	if ns.Code >= 0 {
		s.Code.Rollback(ns.Code)
	}
	s.Storage''')]
TEST='''package tevm

import (
	"testing"

	"github.com/ethereum/go-ethereum/common"
)

func TestSeed(t *testing.T) {
	c := NewChain()
	s := c.State.StateDB()
	n := s.Snapshot()
	s.CreateAccount(common.Address{1})
	s.SetCode(common.Address{1}, []byte{1, 2})
	s.RevertToSnapshot(n)
	if len(s.GetCode(common.Address{1})) != 0 {
		t.Fatal("code survived")
	}
}
'''
