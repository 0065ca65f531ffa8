PROP='C20'; PKG='./tevm'
NEEDS='a stored word whose last byte is zero, such as a left-aligned string'
BREAKS='storing a word that ends in a zero byte deletes the slot'
EDITS=[('tevm/evm.go','s.Fallback.Client == nil && value == zerohash','s.Fallback.Client == nil && value[len(value)-1] == zerohash[0]')]
TEST='''package tevm

import (
	"testing"

	"github.com/ethereum/go-ethereum/common"
)

func TestSeed(t *testing.T) {
	c := NewChain()
	s := c.State.StateDB()
	var v common.Hash
	copy(v[:], "text")
	s.SetState(common.Address{1}, common.Hash{}, v)
	if s.GetState(common.Address{1}, common.Hash{}) != v {
		t.Fatal("lost")
	}
}
'''
