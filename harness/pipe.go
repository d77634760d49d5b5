package vharness

import (
	"io"
	"net"
	"sync"
	"time"
)

// pipeEnd is one end of an unbounded in-memory transport for blocking ends.
type pipeEnd struct {
	dgram    bool
	in, out  *pipeQ
	deadline time.Time
}

type pipeQ struct {
	mu     sync.Mutex
	cond   *sync.Cond
	pkts   [][]byte
	closed bool
}

func newPipePair(dgram bool) (a, b *pipeEnd) {
	q := func() *pipeQ { p := &pipeQ{}; p.cond = sync.NewCond(&p.mu); return p }
	x, y := q(), q()
	return &pipeEnd{dgram: dgram, in: x, out: y}, &pipeEnd{dgram: dgram, in: y, out: x}
}

func (e *pipeEnd) Read(b []byte) (int, error) {
	q := e.in
	q.mu.Lock()
	defer q.mu.Unlock()
	for len(q.pkts) == 0 {
		if q.closed {
			return 0, io.EOF
		}
		q.cond.Wait()
	}
	n := copy(b, q.pkts[0])
	if e.dgram || n == len(q.pkts[0]) {
		q.pkts = q.pkts[1:]
	} else {
		q.pkts[0] = q.pkts[0][n:]
	}
	return n, nil
}

func (e *pipeEnd) Write(b []byte) (int, error) {
	q := e.out
	q.mu.Lock()
	defer q.mu.Unlock()
	if q.closed {
		return 0, io.ErrClosedPipe
	}
	q.pkts = append(q.pkts, append([]byte{}, b...))
	q.cond.Broadcast()
	return len(b), nil
}

func (e *pipeEnd) Close() error {
	for _, q := range []*pipeQ{e.in, e.out} {
		q.mu.Lock()
		q.closed = true
		q.cond.Broadcast()
		q.mu.Unlock()
	}
	return nil
}
func (e *pipeEnd) LocalAddr() net.Addr              { return strAddr("local") }
func (e *pipeEnd) RemoteAddr() net.Addr             { return strAddr("remote") }
func (e *pipeEnd) SetDeadline(time.Time) error      { return nil }
func (e *pipeEnd) SetReadDeadline(time.Time) error  { return nil }
func (e *pipeEnd) SetWriteDeadline(time.Time) error { return nil }
