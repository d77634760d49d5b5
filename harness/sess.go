package vharness

import (
	"bytes"
	"fmt"
	"io"

	"github.com/bifurcation/mint"
)

// Sessions after a completed handshake: sequences of operations on a real
// endpoint facing the reference peer, or on two real endpoints, compared with a
// model of two byte streams and two key generations.

type sop struct {
	who  byte // 'c', 's': a real end; 'p': the reference peer
	kind byte // W write, R one read, D read until blocked, U key update, A app record, N ticket
	n, m int
}

func (o sop) String() string {
	switch o.kind {
	case 'D', 'N':
		return fmt.Sprintf("%c%c", o.who, o.kind)
	}
	if o.m != 0 {
		return fmt.Sprintf("%c%c%d+%d", o.who, o.kind, o.n, o.m)
	}
	return fmt.Sprintf("%c%c%d", o.who, o.kind, o.n)
}

var patBytes = func() [2][]byte {
	var out [2][]byte
	for d := range out {
		b := make([]byte, 1<<21)
		x := uint64(0x9E3779B97F4A7C15) * uint64(d+1)
		for i := range b {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			b[i] = byte(x >> 24)
		}
		out[d] = b
	}
	return out
}()

// sequences enumerates all sequences over alphabet up to depth n that end in
// no particular way; only the longest ones are returned, as shorter ones are
// their prefixes and every step is checked.
func sequences(alphabet []sop, n int) (out [][]sop) {
	var rec func(cur []sop)
	rec = func(cur []sop) {
		if len(cur) == n {
			out = append(out, append([]sop{}, cur...))
			return
		}
		for _, a := range alphabet {
			rec(append(cur, a))
		}
	}
	rec(nil)
	return
}

// readDTLS reads once; over DTLS a datagram may be discarded, which a read
// reports as "would block" although further ones are waiting.
func readDTLS(e *End, buf []byte) (int, error) {
	for {
		waiting := e.W.pending()
		m, err := e.C.Read(buf)
		if !e.W.dgram || waiting == 0 || err != mint.AlertWouldBlock {
			return m, err
		}
	}
}

// ---- two real ends -------------------------------------------------------

type stream struct {
	pat       []byte
	sent, got int
}

// sessPair runs ops over a connected pair.
func sessPair(c *Case, d *driven, ops []sop, afterOp func()) {
	st := [2]*stream{{pat: patBytes[0]}, {pat: patBytes[1]}} // 0: from the client
	read := func(to int, e *End, n int) (int, error) {
		s := st[to]
		buf := make([]byte, n)
		unread := s.sent - s.got
		m, err := readDTLS(e, buf)
		if m < 0 || m > n {
			c.Fail("read", "Read into %d bytes returned %d", n, m)
		}
		if !bytes.Equal(buf[:m], s.pat[s.got:s.got+m]) || m > unread {
			c.Fail("stream", "read %d bytes at offset %d (of %d sent): they are not what was written there", m, s.got, s.sent)
		}
		s.got += m
		if n > 0 && unread > 0 && (m == 0 || err != nil) {
			c.Fail("read", "Read returned %d, %v with %d bytes unread", m, err, unread)
		}
		if n > 0 && unread == 0 && err != mint.AlertWouldBlock {
			c.Fail("read", "Read returned %d, %v with nothing to read", m, err)
		}
		if n == 0 && (m != 0 || err != nil) {
			c.Fail("read", "empty Read returned %d, %v", m, err)
		}
		for _, b := range buf[m:] {
			if b != 0 {
				c.Fail("read", "Read returned %d but wrote further into the buffer", m)
			}
		}
		return m, err
	}
	drain := func(to int, e *End) {
		for i := 0; ; i++ {
			if m, err := read(to, e, 5000); m == 0 && err != nil {
				return
			}
			if i > 5000 {
				c.Fail("read", "Read makes no progress")
			}
		}
	}
	do := func(o sop) {
		from, to, e := 0, 1, d.p.C
		if o.who == 's' {
			from, to, e = 1, 0, d.p.S
		}
		switch o.kind {
		case 'W':
			s := st[from]
			buf := append([]byte{}, s.pat[s.sent:s.sent+o.n]...)
			n, err := e.C.Write(buf)
			if n != o.n || err != nil {
				c.Fail("write", "Write of %d bytes returned %d, %v", o.n, n, err)
			}
			if !bytes.Equal(buf, s.pat[s.sent:s.sent+o.n]) {
				c.Fail("write", "Write changed the caller's buffer")
			}
			s.sent += n
		case 'R':
			read(to, e, o.n)
		case 'D':
			drain(to, e)
		case 'U':
			if err := e.C.SendKeyUpdate(o.n == 1); err != nil {
				c.Fail("update", "SendKeyUpdate: %v", err)
			}
		}
		d.shuttle()
		if afterOp != nil {
			afterOp()
		}
	}
	for _, o := range ops {
		do(o)
	}
	for _, o := range []sop{{'c', 'D', 0, 0}, {'s', 'D', 0, 0}, {'c', 'D', 0, 0}, {'c', 'W', 17, 0}, {'s', 'W', 19, 0}, {'c', 'D', 0, 0}, {'s', 'D', 0, 0}} {
		do(o)
	}
	for i, s := range st {
		if s.sent != s.got {
			c.Fail("stream", "%d bytes written in direction %d, %d read", s.sent, i, s.got)
		}
	}
}

// ---- a real end and the reference peer ------------------------------------

type pend struct {
	app int // bytes of data, or
	ku  int // 1+request
	nst bool
}

type sessPeer struct {
	c    *Case
	e    *End
	p    *Puppet
	out  stream // from the real end
	in   stream // to the real end
	pend []pend
	buf  int   // bytes in the real end's read buffer
	kus  []int // key updates the real end must have sent
	hist string
	nst  int
}

// newSessPeer completes a handshake of the role with the reference peer.
func newSessPeer(c *Case, isClient, dtls bool, suite uint16) *sessPeer {
	var e *End
	var p *Puppet
	if isClient {
		cfg := clientCfg()
		cfg.UseDTLS = dtls
		e = NewEnd(cfg, true)
		p = newPuppet(false, e)
		e.Step()
		p.RecvCH()
		p.SendSH(p.DefaultSH(suite, gX25519, false), gX25519)
		p.SendEE(nil)
		p.sendAuth(defaultAuth("p256"))
		if r := e.Step(); r != hsDone {
			c.Fail("handshake", "client: %v %v", r, e.Fail)
		}
		p.RecvClientFlight()
	} else {
		cfg := serverCfg("p256")
		cfg.UseDTLS = dtls
		e = NewEnd(cfg, false)
		p = newPuppet(true, e)
		o := defaultCH()
		o.Suites = []uint16{suite}
		p.SendCH(o)
		e.Step()
		p.RecvSH()
		p.RecvServerFlight()
		p.SendClientFlight(nil)
		if r := e.Step(); r != hsDone {
			c.Fail("handshake", "server: %v %v", r, e.Fail)
		}
		p.Drain()
	}
	return &sessPeer{c: c, e: e, p: p, out: stream{pat: patBytes[0]}, in: stream{pat: patBytes[1]}}
}

// expectRead is the model of one Read call: it consumes pending records until
// data is available and returns how many bytes may be read at once.
func (s *sessPeer) process() {
	for s.buf == 0 && len(s.pend) > 0 {
		x := s.pend[0]
		s.pend = s.pend[1:]
		s.buf += x.app
		if x.ku == 2 {
			s.kus = append(s.kus, 0)
		}
	}
}

func (s *sessPeer) read(n int) bool {
	c := s.c
	if n > 0 {
		s.process()
	}
	buf := make([]byte, n)
	m, err := readDTLS(s.e, buf)
	if m < 0 || m > n || !bytes.Equal(buf[:m], s.in.pat[s.in.got:s.in.got+m]) || s.in.got+m > s.in.sent {
		c.Fail("stream", "Read(%d) returned %d bytes at offset %d of %d sent which are not those", n, m, s.in.got, s.in.sent)
	}
	s.in.got += m
	if n == 0 {
		return false
	}
	if s.buf == 0 {
		if m != 0 || err != mint.AlertWouldBlock {
			c.Fail("read", "Read returned %d, %v with nothing to read", m, err)
		}
		return false
	}
	if m == 0 || err != nil {
		c.Fail("read", "Read returned %d, %v with %d bytes available", m, err, s.buf)
	}
	// an implementation may return more than the first record's rest
	s.buf -= m
	for s.buf < 0 && len(s.pend) > 0 {
		x := s.pend[0]
		s.pend = s.pend[1:]
		s.buf += x.app
		if x.ku == 2 {
			s.kus = append(s.kus, 0)
		}
	}
	if s.buf < 0 {
		c.Fail("read", "Read returned more than was sent")
	}
	return true
}

func (s *sessPeer) do(o sop) {
	c := s.c
	if o.who == 'p' {
		switch o.kind {
		case 'A':
			b := s.in.pat[s.in.sent : s.in.sent+o.n]
			s.p.emit(s.p.sealRecord(s.p.out, rtApp, b, o.m))
			s.in.sent += o.n
			s.pend = append(s.pend, pend{app: o.n})
		case 'U':
			s.p.SendKU(o.n)
			s.pend = append(s.pend, pend{ku: 1 + o.n})
		case 'N':
			s.nst++
			s.p.SendNST(&ticket{Lifetime: 100, AgeAdd: 7, Nonce: []byte{byte(s.nst)}, Ticket: []byte(fmt.Sprint("ticket", s.nst))})
			s.pend = append(s.pend, pend{nst: true})
		case 'D':
			s.p.Drain()
			s.check()
		}
		return
	}
	switch o.kind {
	case 'W':
		n, err := s.e.C.Write(s.out.pat[s.out.sent : s.out.sent+o.n])
		if n != o.n || err != nil {
			c.Fail("write", "Write of %d bytes returned %d, %v", o.n, n, err)
		}
		s.out.sent += n
	case 'U':
		if err := s.e.C.SendKeyUpdate(o.n == 1); err != nil {
			c.Fail("update", "SendKeyUpdate: %v", err)
		}
		s.kus = append(s.kus, o.n)
	case 'R':
		s.read(o.n)
	case 'D':
		for i := 0; s.read(5000); i++ {
			if i > 5000 {
				c.Fail("read", "Read makes no progress")
			}
		}
	}
}

// check compares what the peer received with the model.
func (s *sessPeer) check() {
	if len(s.p.Alerts) > 0 {
		s.c.Fail("alert", "the real end sent alerts %v", s.p.Alerts)
	}
	if !bytes.Equal(s.p.App, s.out.pat[:s.out.sent]) {
		s.c.Fail("stream", "the peer received %d bytes which are not the %d written", len(s.p.App), s.out.sent)
	}
	if fmt.Sprint(s.p.KUs) != fmt.Sprint(s.kus) {
		s.c.Fail("updates", "key updates received (request flags) %v, want %v", s.p.KUs, s.kus)
	}
}

func (s *sessPeer) run(ops []sop) {
	for _, o := range ops {
		s.do(o)
	}
	for _, o := range []sop{{'p', 'D', 0, 0}, {'c', 'D', 0, 0}, {'p', 'D', 0, 0}, {'c', 'W', 17, 0}, {'p', 'A', 19, 0}, {'c', 'D', 0, 0}, {'p', 'D', 0, 0}} {
		s.do(o)
	}
	if s.in.got != s.in.sent {
		s.c.Fail("stream", "%d bytes sent, %d read", s.in.sent, s.in.got)
	}
}

var _ = io.EOF
