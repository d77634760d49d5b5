package vharness

import (
	"errors"
	"io"
	"net"
	"time"

	"github.com/bifurcation/mint"
)

// Wire is the mint end of an in-memory transport whose every answer the
// harness decides.  It is used by one goroutine at a time.
type Wire struct {
	dgram bool
	block bool // an empty transport is "no more input ever" instead of would-block

	in     []byte   // stream input
	inPkts [][]byte // datagram input
	outs   [][]byte // every Write, separately

	eof      bool
	zombie   bool // Close has no effect
	closed   int
	readMax  int         // if >0, at most this many bytes per read (stream)
	onEmpty  func() bool // called when a read finds nothing; true: look again
	reads    int         // transport reads so far
	writes   int         // transport writes so far
	onRead   func(n int) (handled bool, ret int, err error)
	readHook func(n int, b []byte) (handled bool, ret int, err error)
	onWrite  func(n int, b []byte) (handled bool, ret int, err error)
	afterOut func(b []byte)
}

var errStall = errors.New("transport: no more input (harness)")
var errClosedWire = errors.New("transport: closed (harness)")

type strAddr string

func (a strAddr) Network() string { return "mem" }
func (a strAddr) String() string  { return string(a) }

func (w *Wire) Read(b []byte) (int, error) {
	n := w.reads
	w.reads++
	if w.onRead != nil {
		if h, r, err := w.onRead(n); h {
			return r, err
		}
	}
	if w.readHook != nil {
		if h, r, err := w.readHook(n, b); h {
			return r, err
		}
	}
	return w.read(b)
}

func (w *Wire) read(b []byte) (int, error) {
	for {
		if w.closed > 0 {
			return 0, errClosedWire
		}
		if w.dgram {
			if len(w.inPkts) > 0 {
				p := w.inPkts[0]
				w.inPkts = w.inPkts[1:]
				return copy(b, p), nil
			}
		} else if len(w.in) > 0 {
			m := len(w.in)
			if w.readMax > 0 && m > w.readMax {
				m = w.readMax
			}
			m = copy(b, w.in[:m])
			w.in = w.in[m:]
			return m, nil
		}
		if w.onEmpty != nil && w.onEmpty() {
			continue
		}
		if w.eof {
			return 0, io.EOF
		}
		if w.block {
			return 0, errStall
		}
		return 0, nil
	}
}

func (w *Wire) Write(b []byte) (int, error) {
	n := w.writes
	w.writes++
	if w.onWrite != nil {
		if h, r, err := w.onWrite(n, b); h {
			return r, err
		}
	}
	if w.closed > 0 {
		return 0, errClosedWire
	}
	c := append([]byte{}, b...)
	w.outs = append(w.outs, c)
	if w.afterOut != nil {
		w.afterOut(c)
	}
	return len(b), nil
}

func (w *Wire) Close() error {
	if !w.zombie {
		w.closed++
	}
	return nil
}
func (w *Wire) LocalAddr() net.Addr              { return strAddr("local") }
func (w *Wire) RemoteAddr() net.Addr             { return strAddr("remote") }
func (w *Wire) SetDeadline(time.Time) error      { return nil }
func (w *Wire) SetReadDeadline(time.Time) error  { return nil }
func (w *Wire) SetWriteDeadline(time.Time) error { return nil }

// feed makes bytes readable by mint.
func (w *Wire) feed(b []byte) {
	if w.dgram {
		w.inPkts = append(w.inPkts, append([]byte{}, b...))
	} else {
		w.in = append(w.in, b...)
	}
}

// take removes and returns everything mint wrote so far (one element per write).
func (w *Wire) take() [][]byte {
	o := w.outs
	w.outs = nil
	return o
}

func (w *Wire) pending() int {
	if w.dgram {
		return len(w.inPkts)
	}
	return len(w.in)
}

// End is a real mint connection on a Wire.
type End struct {
	C        *mint.Conn
	W        *Wire
	Cfg      *mint.Config
	IsClient bool
	Fail     mint.Alert // first failure reported by Handshake
	Failed   bool
	Retries  int // stateless retries reported
	calls    int
}

func NewEnd(cfg *mint.Config, isClient bool) *End {
	w := &Wire{dgram: cfg.UseDTLS, block: !cfg.NonBlocking}
	return &End{C: mint.NewConn(w, cfg, isClient), W: w, Cfg: cfg, IsClient: isClient}
}

func (e *End) Connected() bool {
	s := e.C.ConnectionState().HandshakeState
	return s == mint.StateClientConnected || s == mint.StateServerConnected
}

type hsResult int

const (
	hsBlocked hsResult = iota
	hsDone
	hsFailed
)

func (r hsResult) String() string { return [...]string{"blocked", "done", "failed"}[r] }

// Step drives Handshake until it blocks, completes or fails.  In non-blocking
// mode each call makes at most one state transition.
func (e *End) Step() hsResult {
	for i := 0; i < 200; i++ {
		e.calls++
		a := e.C.Handshake()
		switch a {
		case mint.AlertNoAlert:
			if e.Connected() {
				return hsDone
			}
			continue
		case mint.AlertStatelessRetry:
			e.Retries++
			continue
		case mint.AlertWouldBlock:
			return hsBlocked
		default:
			if !e.Failed {
				e.Failed = true
				e.Fail = a
			}
			return hsFailed
		}
	}
	panic("Handshake makes no progress: 200 calls without blocking, completing or failing")
}

// ReadAll reads application data until the connection blocks or errors.
func (e *End) ReadAll(bufSize int) ([]byte, error) {
	var out []byte
	buf := make([]byte, bufSize)
	for i := 0; i < 100000; i++ {
		waiting := e.W.pending()
		n, err := e.C.Read(buf)
		out = append(out, buf[:n]...)
		if e.W.dgram && err == mint.AlertWouldBlock && waiting > 0 {
			continue // a discarded datagram
		}
		if err != nil {
			if err == mint.AlertWouldBlock || err == errStall {
				return out, nil
			}
			return out, err
		}
	}
	panic("Read makes no progress")
}

// Pair is two mint ends joined by a network the harness controls.
type Pair struct {
	C, S *End
}

func NewPair(ccfg, scfg *mint.Config) *Pair {
	return &Pair{NewEnd(ccfg, true), NewEnd(scfg, false)}
}

// shuttle moves everything written at each end to the other end.
func (p *Pair) shuttle() bool {
	moved := false
	for _, b := range p.C.W.take() {
		p.S.W.feed(b)
		moved = true
	}
	for _, b := range p.S.W.take() {
		p.C.W.feed(b)
		moved = true
	}
	return moved
}

// Run drives both non-blocking ends until nothing moves any more.
func (p *Pair) Run() (c, s hsResult) {
	for i := 0; i < 100; i++ {
		if c != hsFailed && c != hsDone {
			c = p.C.Step()
		}
		m := p.shuttle()
		if s != hsFailed && s != hsDone {
			s = p.S.Step()
		}
		m = p.shuttle() || m
		if !m {
			return
		}
	}
	panic("pair does not quiesce")
}
