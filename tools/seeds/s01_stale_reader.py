PROP='C01'; PKG='.'
NEEDS='a write that fails on a broken connection, followed by the read side of the same connection failing'
BREAKS='the reader of a connection that was already dropped tears down the transport again: it dereferences the missing connection, or fails the requests of the next connection'
EDITS=[('client.go','''			// only abort if we haven't already reconnected
			if t.conn == conn {
				t.abort(err)
			}
''','''			t.abort(err)
''')]
TEST='''package seth

import (
	"encoding/json"
	"errors"
	"io"
	"testing"
	"time"
)

type seedConn struct {
	block chan struct{}
	werr  error
	in    chan []byte
	rest  []byte
}

func (c *seedConn) Write(b []byte) (int, error) {
	if c.werr != nil {
		return 0, c.werr
	}
	var r RPCRequest
	json.Unmarshal(b, &r)
	o, _ := json.Marshal(&RPCResponse{ID: r.ID, Result: json.RawMessage("\\"0x1\\"")})
	go func() {
		time.Sleep(300 * time.Millisecond)
		c.in <- o
	}()
	return len(b), nil
}
func (c *seedConn) Read(b []byte) (int, error) {
	if len(c.rest) == 0 {
		select {
		case c.rest = <-c.in:
		case <-c.block:
			return 0, io.EOF
		}
	}
	n := copy(b, c.rest)
	c.rest = c.rest[n:]
	return n, nil
}
func (c *seedConn) Close() error { return nil }

func TestSeed(t *testing.T) {
	a := &seedConn{block: make(chan struct{}), werr: errors.New("broken pipe")}
	b := &seedConn{block: make(chan struct{}), in: make(chan []byte, 4)}
	conns := []*seedConn{a, b}
	c := NewClient(func() (io.ReadWriteCloser, error) {
		x := conns[0]
		conns = conns[1:]
		return x, nil
	})
	if _, err := c.BlockNumber(); err == nil {
		t.Fatal("the broken connection answered")
	}
	// the old connection's reader notices only while a request waits on the new one
	go func() {
		time.Sleep(100 * time.Millisecond)
		close(a.block)
	}()
	if n, err := c.BlockNumber(); err != nil || n != 1 {
		t.Fatal("a request on the new connection failed:", n, err)
	}
}
'''
