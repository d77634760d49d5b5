package vharness

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/bifurcation/mint"
)

// C24: alerts.

// c24Ev is something the peer does in an established connection.
type c24Ev struct {
	name string
	send func(p *Puppet, e *End)
	// what becomes of the connection: 'd' data is delivered, 'i' ignored, 'c'
	// clean end, 'f' a fatal alert was received, 'x' a violation to be reported
	kind byte
	desc int // 'f': the description; 'x': the alert to be sent, -1 any
	data []byte
}

func c24Alert(level, desc int) c24Ev {
	ev := c24Ev{name: fmt.Sprintf("alert%d.%d", level, desc), send: func(p *Puppet, e *End) { p.SendAlert(level, desc) }}
	switch {
	case desc == 0:
		ev.kind = 'c'
	case level == 1:
		ev.kind = 'i'
	case level == 2:
		ev.kind, ev.desc = 'f', desc
	default:
		ev.kind, ev.desc = 'y', desc
	}
	return ev
}

func c24Data(n int) c24Ev {
	b := []byte(fmt.Sprintf("data of record %d.", n))
	return c24Ev{name: "data", kind: 'd', data: b, send: func(p *Puppet, e *End) { p.SendApp(b) }}
}

func c24KU(req int) c24Ev {
	return c24Ev{name: fmt.Sprintf("ku%d", req), kind: 'i', send: func(p *Puppet, e *End) { p.SendKU(req) }}
}

func c24Bad(name string, desc int, f func(p *Puppet, e *End)) c24Ev {
	return c24Ev{name: name, kind: 'x', desc: desc, send: f}
}

// c24Violations are errors that an established connection must detect and
// report.
func c24Violations(dtls, client, thorough bool) (out []c24Ev) {
	add := func(name string, desc int, f func(p *Puppet, e *End)) { out = append(out, c24Bad(name, desc, f)) }
	ct := func(name string, desc, t int, b []byte) {
		add(name, desc, func(p *Puppet, e *End) { p.SendRecord(t, b) })
	}
	for _, n := range []int{0, 1, 3, 4, 5, 16, 100} {
		ct(fmt.Sprintf("alert-of-%d", n), -1, rtAlert, bytes.Repeat([]byte{1}, n))
		if n > 0 {
			ct(fmt.Sprintf("zero-alert-of-%d", n), -1, rtAlert, make([]byte, n))
		}
	}
	for t := 0; t < 256; t++ {
		if t == rtHS || t == rtAlert || t == rtApp || t == 0 || t == rtAck && dtls {
			continue
		}
		if t > 30 && t < 250 && !thorough {
			continue
		}
		ct(fmt.Sprintf("type-%d", t), -1, t, []byte("content"))
	}
	for t := 0; t < 256; t++ {
		if t == hKU || t == hNST && client {
			continue
		}
		t := t
		if t > 30 && t < 250 && !thorough {
			continue
		}
		add(fmt.Sprintf("message-%d", t), -1, func(p *Puppet, e *End) { p.SendRaw(p.frame(t, []byte{0})) })
		if t < 30 {
			add(fmt.Sprintf("empty-message-%d", t), -1, func(p *Puppet, e *End) { p.SendRaw(p.frame(t, nil)) })
		}
	}
	for _, b := range [][]byte{nil, {0, 0}, {2}, {255}, {1, 0}, {0, 0, 0}} {
		b := b
		add(fmt.Sprintf("ku-%x", b), -1, func(p *Puppet, e *End) { p.SendRaw(p.frame(hKU, b)) })
	}
	if client {
		full := (&ticket{Lifetime: 100, AgeAdd: 7, Nonce: []byte{1, 2}, Ticket: []byte("ticket")}).marshal()
		for n := 0; n < len(full); n++ {
			n := n
			add(fmt.Sprintf("ticket-cut%d", n), -1, func(p *Puppet, e *End) { p.SendRaw(p.frame(hNST, full[:n])) })
		}
		add("ticket-long", -1, func(p *Puppet, e *End) { p.SendRaw(p.frame(hNST, append(append([]byte{}, full...), 0))) })
	}
	if !dtls {
		for _, pos := range []int{5, 6, -1, -16, -17} {
			pos := pos
			add(fmt.Sprintf("altered%d", pos), 20, func(p *Puppet, e *End) {
				p.record = func(raw []byte) []byte {
					p.record = nil
					raw = append([]byte{}, raw...)
					if pos < 0 {
						raw[len(raw)+pos] ^= 0x10
					} else {
						raw[pos] ^= 0x10
					}
					return raw
				}
				p.SendApp([]byte("altered data of a record"))
			})
		}
		for _, n := range []int{0, 1, 15, 16, 17, 100, 16384 + 256} {
			n := n
			add(fmt.Sprintf("random%d", n), 20, func(p *Puppet, e *End) { e.W.feed(append([]byte{23, 3, 3, byte(n >> 8), byte(n)}, make([]byte, n)...)) })
		}
		for _, n := range []int{16384 + 257, 20000, 65535} {
			n := n
			add(fmt.Sprintf("ciphertext-of-%d", n), 22, func(p *Puppet, e *End) { e.W.feed(append([]byte{23, 3, 3, byte(n >> 8), byte(n)}, make([]byte, n)...)) })
		}
		for _, t := range []int{21, 22, 20, 26, 24, 0, 255} {
			t := t
			add(fmt.Sprintf("unprotected-%d", t), -1, func(p *Puppet, e *End) { e.W.feed([]byte{byte(t), 3, 3, 0, 2, 2, 40}) })
		}
		add("padding-only", -1, func(p *Puppet, e *End) { p.SendRecord(0, nil) })
		add("data-inside-message", -1, func(p *Puppet, e *End) {
			f := p.frame(hKU, []byte{0})
			p.SendRecord(rtHS, f[:2])
			p.SendApp([]byte("inside"))
		})
		add("alert-inside-message", -1, func(p *Puppet, e *End) {
			f := p.frame(hKU, []byte{0})
			p.SendRecord(rtHS, f[:2])
			p.SendAlert(2, 40)
		})
		add("update-not-last", -1, func(p *Puppet, e *End) {
			f := p.frame(hKU, []byte{0})
			p.SendRecord(rtHS, append(append([]byte{}, f...), f...))
		})
		for _, n := range []int{1, 100, 239} {
			n := n
			add(fmt.Sprintf("plaintext-of-%d", 16384+n), 22, func(p *Puppet, e *End) { p.SendRecord(rtApp, make([]byte, 16384+n)) })
		}
	} else {
		add("short-header", -1, func(p *Puppet, e *End) { p.SendRecord(rtHS, []byte{24, 0, 0, 1}) })
		add("short-body", -1, func(p *Puppet, e *End) {
			f := p.frame(hKU, []byte{0})
			p.SendRecord(rtHS, f[:len(f)-1])
		})
		add("over-message", -1, func(p *Puppet, e *End) {
			f := p.frame(hKU, []byte{0})
			f[3] = 0 // the message is shorter than its fragment
			p.SendRecord(rtHS, f)
		})
	}
	return
}

// c24Peer completes a handshake and puts it into one of several situations.
func c24Peer(c *Case, client, dtls bool, pos int, block bool) *sessPeer {
	s := newSessPeer(c, client, dtls, 0x1301)
	switch pos {
	case 1: // the peer updated its keys
		s.p.SendKU(0)
		s.e.ReadAll(100)
	case 2: // both did
		s.p.SendKU(1)
		s.e.ReadAll(100)
		s.p.Drain()
	case 3: // the real end did
		s.e.C.SendKeyUpdate(false)
		s.p.Drain()
	case 4: // after data both ways
		s.p.SendApp([]byte("hello"))
		s.e.ReadAll(100)
		s.e.C.Write([]byte("there"))
		s.p.Drain()
	}
	return s
}

// c24Run plays events and compares with the model.  drain tells when the real
// end reads: after each event, or only at the end.
func c24Run(c *Case, client, dtls bool, pos int, evs []c24Ev, eager bool, buf int) {
	s := c24Peer(c, client, dtls, pos, false)
	s.e.W.zombie = true
	p, e := s.p, s.e
	p.Drain()
	p.Alerts = nil
	recs := len(p.Recs)
	var want, got []byte
	kind := byte(0)
	desc := 0
	var end error
	read := func() {
		if end != nil {
			return
		}
		b, err := e.ReadAll(buf)
		got = append(got, b...)
		end = err
	}
	for _, ev := range evs {
		ev.send(p, e)
		if kind == 0 {
			switch ev.kind {
			case 'd':
				want = append(want, ev.data...)
			case 'i':
			default:
				kind, desc = ev.kind, ev.desc
			}
		}
		if eager {
			read()
		}
	}
	read()
	// nothing but the data that came before the end is ever delivered
	if !bytes.Equal(got, want) {
		c.Fail("data", "read %q, want %q (then %v)", got, want, end)
	}
	alert, isAlert := end.(mint.Alert)
	switch kind {
	case 0:
		if end != nil {
			c.Fail("ended", "Read failed with %v", end)
		}
	case 'c':
		if end != io.EOF {
			c.Fail("close", "Read returned %v after close_notify", end)
		}
	default:
		if end == nil {
			c.Fail("unnoticed", "Read did not report the error")
		}
		if end == io.EOF {
			c.Fail("clean", "Read reported a clean end of the stream")
		}
		if isAlert && (alert == mint.AlertNoAlert || alert == mint.AlertWouldBlock || alert == mint.AlertStatelessRetry) {
			c.Fail("internal", "Read returned %v", end)
		}
		if kind == 'f' && desc < 253 && (!isAlert || int(alert) != desc) {
			c.Fail("truth", "Read returned %v (%T) after alert %d", end, end, desc)
		}
	}
	c.Outcome(fmt.Sprintf("%c %T", kind, end))
	if kind != 0 {
		// and that is final
		for i := 0; i < 3; i++ {
			n, err := e.C.Read(make([]byte, 100))
			if n != 0 || err == nil || err == mint.AlertWouldBlock || (err == io.EOF) != (end == io.EOF) {
				c.Fail("revived", "Read returned %d, %v after %v", n, err, end)
			}
		}
	}
	// what the real end sent
	drainSafely(c, p)
	n := 0
	for i, r := range p.Recs[recs:] {
		if r.ct != rtAlert {
			if n > 0 && r.ct == rtApp {
				c.Fail("after", "data sent after an alert")
			}
			continue
		}
		n++
		lv, ds := int(r.data[0]), int(r.data[1])
		if !r.enc {
			c.Fail("clear", "alert %d.%d sent in the clear", lv, ds)
		}
		switch kind {
		case 0, 'i':
			c.Fail("alert", "alert %d.%d sent in a healthy connection", lv, ds)
		case 'c':
			if ds != 0 {
				c.Fail("alert", "alert %d.%d sent after a close_notify", lv, ds)
			}
		case 'x':
			if lv != 2 || ds == 0 || ds >= 253 {
				c.Fail("alert", "alert %d.%d does not report the error", lv, ds)
			}
			if desc >= 0 && ds != desc {
				c.Fail("which", "alert %d.%d sent, want %d", lv, ds, desc)
			}
			if isAlert && int(alert) != ds {
				c.Fail("truth", "Read returned %v, the peer was told %d", alert, ds)
			}
		}
		_ = i
	}
	if kind == 'x' && n != 1 {
		c.Fail("unreported", "%d alerts sent about the error, Read returned %v", n, end)
	}
	if n > 1 {
		c.Fail("alerts", "%d alerts sent", n)
	}
	c.Traces(1)
}

func drainSafely(c *Case, p *Puppet) {
	p.Drain()
}

// c24Block does the same with an endpoint that blocks: a read must come back
// with the error and not go back to wait.
func c24Block(c *Case, client, dtls bool, ev c24Ev) {
	var e *End
	var p *Puppet
	waits := 0
	if client {
		cfg := clientCfg()
		cfg.UseDTLS, cfg.NonBlocking = dtls, false
		e = NewEnd(cfg, true)
		p = newPuppet(false, e)
		step := 0
		e.W.onEmpty = func() bool {
			step++
			if step == 1 {
				p.RecvCH()
				p.SendSH(p.DefaultSH(0x1301, gX25519, false), gX25519)
				p.SendEE(nil)
				p.sendAuth(defaultAuth("p256"))
				return true
			}
			waits++
			return false
		}
		if a := e.C.Handshake(); a != mint.AlertNoAlert {
			c.Fail("handshake", "%v", a)
		}
		p.RecvClientFlight()
	} else {
		cfg := serverCfg("p256")
		cfg.UseDTLS, cfg.NonBlocking = dtls, false
		e = NewEnd(cfg, false)
		p = newPuppet(true, e)
		o := defaultCH()
		o.Suites = []uint16{0x1301}
		step := 0
		e.W.onEmpty = func() bool {
			step++
			switch step {
			case 1:
				p.SendCH(o)
				return true
			case 2:
				p.RecvSH()
				p.RecvServerFlight()
				p.SendClientFlight(nil)
				return true
			}
			waits++
			return false
		}
		if a := e.C.Handshake(); a != mint.AlertNoAlert {
			c.Fail("handshake", "%v", a)
		}
		p.Drain()
	}
	waits = 0
	p.SendApp([]byte("before"))
	ev.send(p, e)
	p.SendApp([]byte("after"))
	var got []byte
	var err error
	buf := make([]byte, 100)
	for err == nil {
		var n int
		n, err = e.C.Read(buf)
		got = append(got, buf[:n]...)
		if n == 0 && err == nil {
			c.Fail("read", "Read returned 0, nil")
		}
	}
	ignored := ev.kind == 'i' || ev.kind == 'd'
	want := "before"
	if ignored {
		want = "beforeafter"
	}
	if string(got) != want {
		c.Fail("data", "read %q, then %v", got, err)
	}
	if ignored {
		if err != errStall {
			c.Fail("ended", "Read failed with %v", err)
		}
		return
	}
	if waits > 0 || err == errStall || err == mint.AlertWouldBlock {
		c.Fail("wait", "Read went on waiting (%v)", err)
	}
	if (err == io.EOF) != (ev.kind == 'c') {
		c.Fail("end", "Read returned %v", err)
	}
	if a, is := err.(mint.Alert); ev.kind == 'f' && ev.desc < 253 && (!is || int(a) != ev.desc) {
		c.Fail("truth", "Read returned %v", err)
	}
	c.Traces(1)
}

// c24Hs sends an alert at a position of a handshake.
func c24Hs(c *Case, e *End, p *Puppet, steps []func(), at int, body []byte, clear bool, block bool) {
	e.W.zombie = true
	for i, s := range steps {
		if i == at {
			break
		}
		s()
		if r := e.Step(); r == hsFailed {
			c.Fail("handshake", "failed with %v", e.Fail)
		}
	}
	if e.Connected() {
		return // the connected state has its own cases
	}
	h := p.out
	protected := h != nil
	if !protected && !e.IsClient && e.C.ConnectionState().HandshakeState != mint.StateServerStart {
		// keys are in place, but the peer has not taken note
		protected, clear = true, true
	}
	if clear {
		p.out = nil
	}
	if block {
		// the peer has no more to say than this
		e.W.block = true
	}
	p.SendRecord(rtAlert, body)
	p.out = h
	r := e.Step()
	n := 0
	for _, b := range e.W.outs {
		n += len(b)
	}
	if clear && protected && p.dtls && r == hsBlocked {
		c.Outcome("unprotected alert dropped")
		return
	}
	if h != nil && h.epoch == 1 && !e.Cfg.AllowEarlyData {
		c.Outcome("alert in refused early data")
		return
	}
	if r != hsFailed {
		c.Fail("ignored", "the handshake goes on after alert % x: %v", body, r)
	}
	if e.Connected() {
		c.Fail("success", "connected")
	}
	switch e.Fail {
	case mint.AlertNoAlert, mint.AlertWouldBlock, mint.AlertStatelessRetry:
		c.Fail("internal", "Handshake returned %v", e.Fail)
	}
	if len(body) == 2 && int(body[1]) < 253 && !(clear && protected) && int(e.Fail) != int(body[1]) {
		c.Fail("truth", "Handshake returned %v after alert %d.%d", e.Fail, body[0], body[1])
	}
	if len(body) != 2 && e.Fail == mint.AlertCloseNotify {
		c.Fail("truth", "Handshake reports %v after a malformed alert", e.Fail)
	}
	c.Outcome("failed")
	for i := 0; i < 2; i++ {
		if a := e.C.Handshake(); a != e.Fail {
			c.Fail("sticky", "Handshake returned %v after %v", a, e.Fail)
		}
		if n, err := e.C.Read(make([]byte, 10)); n > 0 || err == nil || err == io.EOF && body[1] != 0 {
			c.Fail("read", "Read returned %d, %v after %v", n, err, e.Fail)
		}
	}
	c.Traces(1)
}

// c24Keys are the protections a real end may use at some point.
func c24Decode(c *Case, p *Puppet, e *End, recs [][]byte) (level, desc int, n int) {
	var all []byte
	for _, b := range recs {
		all = append(all, b...)
	}
	hl := 5
	if p.dtls {
		hl = 13
	}
	for len(all) > 0 {
		if len(all) < hl {
			c.Fail("record", "stray bytes % x", all)
		}
		l := int(all[hl-2])<<8 | int(all[hl-1])
		if len(all) < hl+l {
			c.Fail("record", "truncated record % x", all[:min(len(all), 40)])
		}
		r := all[:hl+l]
		all = all[hl+l:]
		var data []byte
		ct := int(r[0])
		if ct == rtApp {
			ok := false
			var early []byte
			if !p.isClient && p.psk != nil && p.CHRaw != nil {
				early = p.EarlySecret()
			}
			secrets := [][]byte{p.sHS, p.sAP, early, p.cHS, p.cAP}
			for i, sec := range secrets {
				if sec == nil || (p.isClient != (i < 2)) {
					continue // the real end is a server when the peer is a client
				}
				suite := p.suite
				if suite == nil {
					suite = p.pskSuite
				}
				h := newHalf(suite, sec, 0)
				for seq := uint64(0); seq < 12 && !ok; seq++ {
					nonce := seq
					if p.dtls {
						nonce = 0
						for _, x := range r[3:11] {
							nonce = nonce<<8 | uint64(x)
						}
					}
					pt, err := h.aead.Open(nil, h.nonce(nonce), r[hl:], r[:hl])
					if err == nil {
						k := len(pt) - 1
						for k > 0 && pt[k] == 0 {
							k--
						}
						ct, data, ok = int(pt[k]), pt[:k], true
					}
				}
			}
			if !ok {
				c.Fail("keys", "a record of %d bytes is under no key of this connection", l)
			}
		} else {
			data = r[hl:]
		}
		if n > 0 && ct != rtAlert && ct != rtAck {
			c.Fail("after", "record of type %d follows the alert", ct)
		}
		if ct == rtAlert {
			n++
			if len(data) != 2 {
				c.Fail("form", "alert of %d bytes: % x", len(data), data)
			}
			level, desc = int(data[0]), int(data[1])
			if p.isClient && p.sHS != nil && r[0] == rtAlert {
				c.Fail("clear", "alert sent in the clear after the ServerHello")
			}
		}
	}
	return
}

// c24Sent makes a handshake fail and looks at the alert that is sent.
func c24Sent(c *Case, e *End, p *Puppet, steps []func(), at int, bad c22Bad) {
	e.W.zombie = true
	var taken [][]byte
	e.W.afterOut = func(b []byte) { taken = append(taken, b) }
	safely := func(f func()) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(peerError); !is && !strings.Contains(fmt.Sprint(r), "nil pointer") {
					panic(r)
				}
			}
		}()
		f()
	}
	for i, s := range steps {
		if i == at {
			taken = nil
			safely(func() { bad.f(p, e) })
			e.Step()
			if e.Failed {
				break
			}
		}
		taken = nil
		safely(s)
		if e.Step() != hsBlocked {
			break
		}
	}
	if !e.Failed {
		c.Outcome(bad.name + " no failure")
		return
	}
	if bad.name == "write-error" {
		return // part of what the end sent is lost, and maybe the keys with it
	}
	if !p.isClient && p.CHRaw == nil {
		safely(func() { p.RecvCH(); p.UsePSK(thePSK, 0x1301, false) })
	}
	if p.isClient && p.sHS == nil && len(e.W.outs) > 0 {
		safely(func() { p.RecvSH(); p.RecvServerFlight() })
	}
	level, desc, n := c24Decode(c, p, e, taken)
	received := strings.HasPrefix(bad.name, "alert-fatal") || strings.HasPrefix(bad.name, "alert-warning") || strings.HasPrefix(bad.name, "alert-level") || bad.name == "alert-clear"
	transport := bad.name == "eof" || bad.name == "read-error" || bad.name == "write-error"
	c.Outcome(fmt.Sprintf("%s %v", bad.name, e.Fail))
	if n > 1 {
		c.Fail("alerts", "%d alerts sent", n)
	}
	if n == 1 {
		if level != 1 && level != 2 || desc >= 253 || level == 1 && desc != 0 {
			c.Fail("form", "alert %d.%d sent", level, desc)
		}
		if !received && !transport && desc != int(e.Fail) {
			c.Fail("truth", "Handshake returned %v, the peer was told %d", e.Fail, desc)
		}
	}
	if !received && !transport {
		if e.Fail == mint.AlertCloseNotify && !p.dtls {
			c.Fail("truth", "the violation %s is reported as close_notify", bad.name)
		}
		if n == 0 {
			c.Fail("unreported", "no alert sent about %v", e.Fail)
		}
	}
	c.Traces(1)
}

// c24Pairs are configurations that cannot agree.
var c24Pairs = []struct {
	name string
	set  func(cc, sc *mint.Config)
	want mint.Alert
}{
	{"suites", func(cc, sc *mint.Config) {
		cc.CipherSuites = []mint.CipherSuite{mint.TLS_AES_128_GCM_SHA256}
		sc.CipherSuites = []mint.CipherSuite{mint.TLS_AES_256_GCM_SHA384}
	}, mint.AlertHandshakeFailure},
	{"groups", func(cc, sc *mint.Config) {
		cc.Groups = []mint.NamedGroup{mint.P256}
		sc.Groups = []mint.NamedGroup{mint.X25519}
	}, 0},
	{"name", func(cc, sc *mint.Config) { cc.ServerName = "other.invalid"; cc.InsecureSkipVerify = false }, 0},
	{"roots", func(cc, sc *mint.Config) { cc.RootCAs = nil; cc.InsecureSkipVerify = false }, 0},
}

// c24Mutual: the alert one end fails with is the one the other is told.
func c24Mutual(c *Case, dtls bool, i int) {
	cc, sc := clientCfg(), serverCfg("p256")
	cc.UseDTLS, sc.UseDTLS = dtls, dtls
	c24Pairs[i].set(cc, sc)
	p := NewPair(cc, sc)
	p.C.W.zombie, p.S.W.zombie = true, true
	d := &driven{p: p}
	d.run()
	if !p.C.Failed && !p.S.Failed {
		c.Fail("agreed", "the handshake succeeded")
	}
	tell := func(e *End) (mint.Alert, error) {
		if e.Failed {
			return e.Fail, nil
		}
		_, err := e.ReadAll(10)
		a, is := err.(mint.Alert)
		if !is {
			return 0, fmt.Errorf("no alert but %v", err)
		}
		return a, nil
	}
	a, err := tell(p.C)
	if err != nil {
		c.Fail("client", "%v (server %v)", err, p.S.Fail)
	}
	b, err := tell(p.S)
	if err != nil {
		c.Fail("server", "%v (client %v)", err, p.C.Fail)
	}
	if a != b {
		c.Fail("truth", "client: %v, server: %v", a, b)
	}
	c.Outcome(c24Pairs[i].name + " " + a.String())
	c.Traces(1)
}

func init() {
	register("C24", "model_checking", func(x *Ctx) {
		x.Rule("all alert levels and descriptions and alert lengths at every state of a connection and of the handshake; sequences of data, warnings, key updates, closing and fatal alerts and violations; every violation of a list in a connection and in a handshake, checking the alert sent in answer")
		cs := &Cases{}
		roles := []bool{true, false}
		for _, dtls := range []bool{false, true} {
			for _, client := range roles {
				dtls, client := dtls, client
				pre := fmt.Sprintf("dtls=%v/client=%v/", dtls, client)
				// every alert
				levels := []int{0, 1, 2, 3, 4, 9, 128, 255}
				if x.Thorough() {
					levels = nil
					for l := 0; l < 256; l++ {
						levels = append(levels, l)
					}
				}
				for _, l := range levels {
					for d := 0; d < 256; d++ {
						for pos := 0; pos < x.Pick(1, 5); pos++ {
							if pos > 0 && (l > 3 || d > 2 && d != 40 && d < 250) {
								continue
							}
							l, d, pos := l, d, pos
							cs.Add(pre+fmt.Sprintf("alert/%d.%d/pos%d", l, d, pos), func(c *Case) {
								c24Run(c, client, dtls, pos, []c24Ev{c24Data(1), c24Alert(l, d), c24Data(2)}, d&1 == 0, 7)
							})
						}
						if l < 4 {
							l, d := l, d
							cs.Add(pre+fmt.Sprintf("blocking/%d.%d", l, d), func(c *Case) { c24Block(c, client, dtls, c24Alert(l, d)) })
						}
					}
				}
				// every violation
				for _, v := range c24Violations(dtls, client, x.Thorough()) {
					for pos := 0; pos < 5; pos++ {
						for _, eager := range []bool{true, false} {
							v, pos, eager := v, pos, eager
							cs.Add(pre+fmt.Sprintf("bad/%s/pos%d/eager=%v", v.name, pos, eager), func(c *Case) {
								c24Run(c, client, dtls, pos, []c24Ev{c24Data(1), v, c24Data(2)}, eager, 1000)
							})
						}
					}
					v := v
					cs.Add(pre+"blocking/"+v.name, func(c *Case) { c24Block(c, client, dtls, v) })
				}
				// sequences
				alpha := []c24Ev{c24Data(1), c24Alert(1, 90), c24Alert(1, 0), c24Alert(2, 40), c24Alert(2, 0), c24Alert(7, 40), c24KU(0), c24KU(1),
					c24Bad("short", -1, func(p *Puppet, e *End) { p.SendRecord(rtAlert, []byte{2}) }),
					c24Bad("message-99", -1, func(p *Puppet, e *End) { p.SendRaw(p.frame(99, []byte("x"))) })}
				var rec func(evs []c24Ev, name string, n int)
				rec = func(evs []c24Ev, name string, n int) {
					if n == 0 {
						for _, eager := range []bool{true, false} {
							eager := eager
							evs := append([]c24Ev{}, evs...)
							cs.Add(pre+fmt.Sprintf("seq%s/eager=%v", name, eager), func(c *Case) { c24Run(c, client, dtls, 0, evs, eager, 5) })
						}
						return
					}
					for _, a := range alpha {
						rec(append(evs, a), name+"/"+a.name, n-1)
					}
				}
				rec(nil, "", x.Pick(3, 4))
				// in the handshake
				vs := []variant{{name: "cert"}, {name: "cert-cr", cr: true}, {name: "psk", psk: true}}
				if !dtls {
					vs = append(vs, variant{name: "early", psk: true, early: true, accept: true}, variant{name: "early-rejected", psk: true, early: true})
				}
				script := c22ServerScript
				if client {
					script = c22ClientScript
				}
				for _, v := range vs {
					v.dtls = dtls
					for _, retry := range []bool{false, true} {
						if v.early && retry {
							continue
						}
						_, _, st := script(v, retry)
						for at := 0; at < len(st); at++ {
							v, retry, at := v, retry, at
							name := pre + fmt.Sprintf("hs/%s/retry=%v/at%d/", v.name, retry, at)
							for _, clear := range []bool{false, true} {
								for _, block := range []bool{false, true} {
									if block && !x.Thorough() && clear {
										continue
									}
									clear, block := clear, block
									for _, l := range []int{0, 1, 2, 3, 255} {
										for d := 0; d < 256; d++ {
											if !x.Thorough() && (l != 1 && l != 2 || block) && d > 2 && d != 40 && d < 250 {
												continue
											}
											body := []byte{byte(l), byte(d)}
											cs.Add(name+fmt.Sprintf("%x/clear=%v/block=%v", body, clear, block), func(c *Case) {
												e, p, steps := script(v, retry)
												c24Hs(c, e, p, steps, at, body, clear, block)
											})
										}
									}
									for n := 0; n < 6; n++ {
										if n == 2 {
											continue
										}
										body := bytes.Repeat([]byte{1}, n)
										cs.Add(name+fmt.Sprintf("len%d/clear=%v/block=%v", n, clear, block), func(c *Case) {
											e, p, steps := script(v, retry)
											c24Hs(c, e, p, steps, at, body, clear, block)
										})
									}
								}
							}
							for i, bad := range c22Bads() {
								i := i
								cs.Add(name+"sent/"+bad.name, func(c *Case) {
									e, p, steps := script(v, retry)
									c24Sent(c, e, p, steps, at, c22Bads()[i])
								})
							}
						}
					}
				}
			}
			for i := range c24Pairs {
				dtls, i := dtls, i
				cs.Add(fmt.Sprintf("mutual/dtls=%v/%s", dtls, c24Pairs[i].name), func(c *Case) { c24Mutual(c, dtls, i) })
			}
		}
		x.Run(cs, 0)
	})
}
