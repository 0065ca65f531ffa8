PROP='C05'; PKG='.'
NEEDS='an iterator that is stopped while its buffer is full and nobody receives'
BREAKS='the goroutine of a stopped iterator waits for a receiver for ever'
EDITS=[('seth.go','''			select {
			case b.out <- v:
				block++
			case <-b.done:
			}
''','''			b.out <- v
			block++
''')]
TEST='''package seth

import (
	"encoding/json"
	"sync/atomic"
	"testing"
	"time"
	"runtime"
)

type seedT struct{ n int64 }

func (s *seedT) Execute(req *RPCRequest, res *RPCResponse) error {
	atomic.AddInt64(&s.n, 1)
	return json.Unmarshal([]byte(`{"result":{"number":`+string(req.Params[0])+`}}`), res)
}

func TestSeed(t *testing.T) {
	tr := new(seedT)
	before := runtime.NumGoroutine()
	it := NewClientTransport(tr).IterateBlocks(5, false)
	for last := int64(-1); ; {
		time.Sleep(100 * time.Millisecond)
		n := atomic.LoadInt64(&tr.n)
		if n == last {
			break
		}
		last = n
	}
	it.Stop()
	for i := 0; runtime.NumGoroutine() > before; i++ {
		if i == 50 {
			t.Fatal("the iterator has not ended")
		}
		time.Sleep(100 * time.Millisecond)
	}
}
'''
