package vharness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime/debug"

	"github.com/bifurcation/mint"
)

// C22: nothing before completion, and no recovery from failure.

// c22Calls are the calls an application can make.
var c22Calls = []string{"handshake", "read", "read0", "write", "write0", "update", "update1", "export", "state"}

// c22Early makes one call on an end that has not completed (or has failed) and
// checks that it does nothing.
func c22Early(c *Case, e *End, call string, failed bool, earlyOK bool) (got []byte) {
	outs := len(e.W.outs)
	defer func() {
		for _, b := range e.W.outs[outs:] {
			if !failed && call != "handshake" {
				c.Fail("sent", "%s before completion sent %d bytes", call, len(b))
			}
			if failed {
				for len(b) > 0 {
					h := 5
					if e.W.dgram {
						h = 13
					}
					if len(b) < h || b[0] == rtApp && len(b) != h+2+1+16 && len(b) != h+19 || b[0] != rtApp && b[0] != rtAlert && b[0] != rtAck && !(e.W.dgram && b[0]&0xe0 == 0x20) && !(e.W.dgram && b[0] == rtHS) {
						c.Fail("sent", "%s after failure sent % x...", call, b[:min(len(b), 16)])
					}
					n := int(b[h-2])<<8 | int(b[h-1])
					if len(b) < h+n {
						break
					}
					b = b[h+n:]
				}
			}
		}
	}()
	switch call {
	case "handshake":
		if !failed {
			panic("harness")
		}
		if a := e.C.Handshake(); a == mint.AlertNoAlert || a == mint.AlertWouldBlock || a == mint.AlertStatelessRetry {
			c.Fail("revived", "Handshake reports %v after it failed with %v", a, e.Fail)
		}
	case "read", "read0":
		buf := make([]byte, 64)
		if call == "read0" {
			buf = buf[:0]
		}
		n, err := e.C.Read(buf)
		if n > 0 && !earlyOK {
			c.Fail("delivered", "Read returned %q", buf[:n])
		}
		if err == nil && n == 0 && !earlyOK {
			c.Fail("read", "Read succeeded with nothing")
		}
		if n > 0 && err != nil {
			c.Fail("read", "Read returned %d and %v", n, err)
		}
		got = buf[:n]
	case "write", "write0":
		b := []byte("premature")
		if call == "write0" {
			b = nil
		}
		n, err := e.C.Write(b)
		if err == nil || n != 0 {
			c.Fail("written", "Write returned %d, %v", n, err)
		}
	case "update", "update1":
		if err := e.C.SendKeyUpdate(call == "update1"); err == nil {
			c.Fail("update", "SendKeyUpdate succeeded")
		}
	case "export":
		if k, err := e.C.ComputeExporter("l", nil, 16); err == nil || len(k) > 0 {
			c.Fail("export", "ComputeExporter returned %x, %v", k, err)
		}
	case "state":
		e.C.ConnectionState()
	}
	if e.Connected() {
		c.Fail("state", "the connection reports to be connected")
	}
	return
}

// c22Pair runs two real ends and makes the calls at the positions given.
type c22Call struct {
	pos    int
	client bool
	call   string
}

func (k c22Call) String() string { return fmt.Sprintf("%d/%v/%s", k.pos, k.client, k.call) }

func c22Pair(c *Case, v variant, calls []c22Call, all bool) {
	cc, sc := v.cfgs()
	p := NewPair(cc, sc)
	d := &driven{p: p}
	pos := 0
	var early []byte
	at := func() {
		do := func(client bool, call string) {
			e := p.S
			if client {
				e = p.C
			}
			if e.Connected() {
				return
			}
			if client && v.early && e.C.Writable() && (call == "write" || call == "write0") {
				return // early data is C11's
			}
			early = append(early, c22Early(c, e, call, false, !client && v.early && v.accept)...)
		}
		if all {
			for _, call := range c22Calls {
				if call != "handshake" {
					do(true, call)
					do(false, call)
				}
			}
		}
		for _, k := range calls {
			if k.pos == pos {
				do(k.client, k.call)
			}
		}
		pos++
	}
	call := func(e *End, r *hsResult) {
		if *r != hsBlocked {
			return
		}
		switch a := e.C.Handshake(); a {
		case mint.AlertNoAlert, mint.AlertWouldBlock, mint.AlertStatelessRetry:
			if e.Connected() {
				*r = hsDone
			}
		default:
			c.Fail("handshake", "client=%v: %v", e.IsClient, a)
		}
	}
	wrote := false
	for i := 0; i < 40; i++ {
		at()
		call(p.C, &d.c)
		if v.early && !wrote {
			wrote = true
			p.C.C.Write(earlyMsg)
		}
		at()
		m := d.shuttle()
		at()
		call(p.S, &d.s)
		at()
		if !d.shuttle() && !m && d.c == hsDone && d.s == hsDone {
			break
		}
	}
	if d.c != hsDone || d.s != hsDone {
		c.Fail("handshake", "client %v, server %v", d.c, d.s)
	}
	c.Transitions(pos)
	if err := d.agree(v); err != nil {
		c.Fail("agree", "%v", err)
	}
	var want []byte
	if v.early && v.accept {
		want = earlyMsg[len(early):]
		if !bytes.HasPrefix(earlyMsg, early) {
			c.Fail("early", "%q", early)
		}
	}
	if err := d.echo(want); err != nil {
		c.Fail("data", "%v", err)
	}
	c.Traces(1)
}

func c22Premature(x *Ctx, cs *Cases) {
	for _, dtls := range []bool{false, true} {
		for _, v := range hsVariants(dtls) {
			v := v
			cs.Add("early/"+v.name+"/all", func(c *Case) { c22Pair(c, v, nil, true) })
			var singles []c22Call
			for pos := 0; pos < 36; pos++ {
				for _, client := range []bool{true, false} {
					for _, call := range c22Calls {
						if call != "handshake" {
							singles = append(singles, c22Call{pos, client, call})
						}
					}
				}
			}
			for i, a := range singles {
				a := a
				cs.Add(fmt.Sprintf("early/%s/%v", v.name, a), func(c *Case) { c22Pair(c, v, []c22Call{a}, false) })
				if !x.Thorough() || v.name != "tls/cert" && v.name != "dtls/cert-cr" && v.name != "tls/psk-early" {
					continue
				}
				for _, b := range singles[i:] {
					b := b
					if a.pos > 24 || b.pos > 24 {
						continue
					}
					cs.Add(fmt.Sprintf("early/%s/%v+%v", v.name, a, b), func(c *Case) { c22Pair(c, v, []c22Call{a, b}, false) })
				}
			}
		}
	}
}

// ---- after a failure ------------------------------------------------------

type c22Bad struct {
	name string
	f    func(p *Puppet, e *End)
}

func c22Bads() []c22Bad {
	msg := func(t int, body []byte) func(p *Puppet, e *End) {
		return func(p *Puppet, e *End) { p.SendRaw(p.frame(t, body)) }
	}
	alert := func(l, d int) func(p *Puppet, e *End) { return func(p *Puppet, e *End) { p.SendAlert(l, d) } }
	clear := func(ct int, b []byte) func(p *Puppet, e *End) {
		return func(p *Puppet, e *End) { h := p.out; p.out = nil; p.SendRecord(ct, b); p.out = h }
	}
	return []c22Bad{
		{"unknown-message", msg(99, []byte("x"))},
		{"message-0", msg(0, nil)},
		{"wrong-finished", msg(hFin, make([]byte, 32))},
		{"short-finished", msg(hFin, make([]byte, 31))},
		{"empty-finished", msg(hFin, nil)},
		{"wrong-cv", msg(hCV, cvBody(0x0403, make([]byte, 70)))},
		{"empty-cert", msg(hCert, certBody(nil, nil))},
		{"bad-cert", msg(hCert, certBody(nil, [][]byte{{1, 2, 3}}))},
		{"bad-ee", msg(hEE, []byte{0, 5, 1})},
		{"bad-sh", msg(hSH, []byte{3, 3, 1})},
		{"bad-ch", msg(hCH, []byte{3, 3, 1})},
		{"key-update", msg(hKU, []byte{0})},
		{"ticket", msg(hNST, (&ticket{Lifetime: 1, Nonce: []byte{1}, Ticket: []byte("t")}).marshal())},
		{"eoed", msg(hEOED, nil)},
		{"message-hash", msg(hMHash, make([]byte, 32))},
		{"app-data", func(p *Puppet, e *End) { p.SendApp([]byte("too soon")) }},
		{"clear-app-data", clear(rtApp, []byte("in the clear, and long enough to be a record of its own"))},
		{"clear-handshake", clear(rtHS, hsMsg(99, []byte("x")))},
		{"ack", func(p *Puppet, e *End) { p.SendRecord(rtAck, []byte{0, 0}) }},
		{"record-type-99", clear(99, []byte("x"))},
		{"record-type-20", clear(20, []byte{1})},
		{"alert-fatal-40", alert(2, 40)},
		{"alert-fatal-0", alert(2, 0)},
		{"alert-fatal-10", alert(2, 10)},
		{"alert-fatal-255", alert(2, 255)},
		{"alert-fatal-254", alert(2, 254)},
		{"alert-fatal-253", alert(2, 253)},
		{"alert-warning-0", alert(1, 0)},
		{"alert-warning-90", alert(1, 90)},
		{"alert-level9-50", alert(9, 50)},
		{"alert-short", func(p *Puppet, e *End) { p.SendRecord(rtAlert, []byte{2}) }},
		{"alert-empty", func(p *Puppet, e *End) { p.SendRecord(rtAlert, nil) }},
		{"alert-clear", clear(rtAlert, []byte{2, 40})},
		{"altered-record", func(p *Puppet, e *End) {
			p.record = func(raw []byte) []byte {
				p.record = nil
				raw = append([]byte{}, raw...)
				raw[len(raw)-1] ^= 1
				return raw
			}
			p.SendRecord(rtHS, []byte("some handshake bytes"))
		}},
		{"oversize-record", func(p *Puppet, e *End) { e.W.feed(append([]byte{23, 3, 3, 0xff, 0xff}, make([]byte, 65535)...)) }},
		{"garbage", func(p *Puppet, e *End) { e.W.feed(bytes.Repeat([]byte{0x5c}, 40)) }},
		{"eof", func(p *Puppet, e *End) { e.W.eof = true; e.Step(); e.W.eof = false }},
		{"read-error", func(p *Puppet, e *End) {
			e.W.onRead = func(int) (bool, int, error) { return true, 0, errors.New("read: broken") }
			e.Step()
			e.W.onRead = nil
		}},
		{"write-error", func(p *Puppet, e *End) {
			// the next write fails, whenever that is
			e.W.onWrite = func(n int, b []byte) (bool, int, error) {
				e.W.onWrite = nil
				return true, 0, io.ErrClosedPipe
			}
		}},
	}
}

// c22Drive runs the honest script of the peer with a bad step before step at;
// once the real end has failed nothing may bring it back.
func c22Drive(c *Case, e *End, p *Puppet, steps []func(), at int, bad c22Bad, order []string, zombie bool, earlyData bool) {
	e.W.zombie = zombie
	failed := false
	doneBefore := false
	// look drives the end and makes the calls.
	look := func() {
		if !failed {
			switch e.Step() {
			case hsDone:
				doneBefore = true
			case hsFailed:
				failed = true
			}
		}
		if failed {
			for _, call := range order {
				c22Early(c, e, call, true, false)
			}
		}
	}
	safely := func(f func()) (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(peerError); !is && (p.master != nil || bytes.Contains(debug.Stack(), []byte("mint.(*Conn)"))) {
					panic(r)
				}
				// otherwise the reference peer has no keys to go on with
			}
		}()
		f()
		return true
	}
	for i, s := range steps {
		if i == at {
			safely(func() { bad.f(p, e) })
			look()
			if e.Failed {
				failed = true
			}
		}
		safely(s)
		look()
		if doneBefore {
			break
		}
	}
	if !failed {
		c.Outcome(bad.name + " no failure")
		return
	}
	c.Outcome(bad.name + " failed: " + e.Fail.String())
	// whatever else is legal
	if p.suite != nil && p.master != nil {
		safely(func() { p.appSchedule() })
	}
	for _, h := range []*Half{p.out, newHalfOr(p.suite, p.sAP), newHalfOr(p.suite, p.cAP), newHalfOr(p.suite, p.sHS), newHalfOr(p.suite, p.cHS)} {
		if h == nil {
			continue
		}
		safely(func() { p.emit(p.sealRecord(h, rtApp, []byte("afterwards"), 0)) })
		look()
	}
	for _, call := range c22Calls {
		c22Early(c, e, call, true, false)
	}
	c.Traces(1)
}

func newHalfOr(s *refSuite, secret []byte) *Half {
	if s == nil || secret == nil {
		return nil
	}
	return newHalf(s, secret, 3)
}

func c22ClientScript(v variant, retry bool) (e *End, p *Puppet, steps []func()) {
	cc, _ := v.cfgs()
	e = NewEnd(cc, true)
	p = newPuppet(false, e)
	e.Step()
	suite := v.suite
	if suite == 0 {
		suite = 0x1301
	}
	if retry {
		steps = append(steps, func() { p.RecvCH(); p.UsePSK(thePSK, suite, false); p.SendHRR(suite, hrrExts([]byte("ck"))) })
	}
	group := uint16(gX25519)
	steps = append(steps, func() {
		p.RecvCH()
		p.UsePSK(thePSK, suite, false)
		p.SendSH(p.DefaultSH(suite, group, v.psk), group)
	}, func() {
		var ee Exts
		if v.early && v.accept {
			ee.set(xEarly, nil)
		}
		p.SendEE(ee)
	})
	if !v.psk {
		if v.cr {
			steps = append(steps, func() { p.SendCR([]uint16{0x0403}) })
		}
		steps = append(steps, func() { p.SendCert(id("p256").raws()) }, func() { p.SendCV(id("p256").key, 0x0403) })
	}
	steps = append(steps, func() { p.SendServerFin() }, func() { p.SendApp([]byte("data of the server")) })
	return
}

func c22ServerScript(v variant, retry bool) (e *End, p *Puppet, steps []func()) {
	v.cookie = retry
	_, sc := v.cfgs()
	e = NewEnd(sc, false)
	p = newPuppet(true, e)
	o := defaultCH()
	if v.psk {
		o.PSKIDs = []pskID{{[]byte("psk-id"), 0}}
		o.PSKKeys = [][]byte{thePSK}
		o.PSKSuites = []uint16{0x1301}
		o.PSKRes = []bool{false}
		o.Early = v.early
	}
	if retry {
		o2 := o
		o2.Early = false
		steps = append(steps, func() { p.SendCH(o2) }, func() {
			_, o2.Cookie = p.RecvSH()
			p.SendCH(o2)
		})
	} else {
		steps = append(steps, func() { p.SendCH(o) })
		if v.early {
			steps = append(steps, func() { p.SendApp([]byte("early")) }, func() { p.SendApp([]byte("bird")) })
		}
	}
	steps = append(steps, func() { p.RecvSH(); p.RecvServerFlight() }, func() { p.SendEOEDIfNeeded() })
	if v.cr {
		steps = append(steps, func() { p.SendCert(id("client").raws()) }, func() { p.SendCV(id("client").key, defaultScheme(id("client"))) })
	}
	steps = append(steps, func() { p.SendClientFin() }, func() { p.SendApp([]byte("data of the client")) })
	return
}

func c22Failures(x *Ctx, cs *Cases) {
	var orders [][]string
	for _, a := range c22Calls {
		orders = append(orders, []string{a})
		if x.Thorough() {
			for _, b := range c22Calls {
				orders = append(orders, []string{a, b})
			}
		}
	}
	orders = append(orders, nil, c22Calls)
	for _, dtls := range []bool{false, true} {
		vs := []variant{{name: "cert"}, {name: "cert-cr", cr: true}, {name: "psk", psk: true}}
		if !dtls {
			vs = append(vs, variant{name: "early", psk: true, early: true, accept: true}, variant{name: "early-rejected", psk: true, early: true})
		}
		for _, v := range vs {
			v.dtls = dtls
			for _, retry := range []bool{false, true} {
				if v.early && retry {
					continue
				}
				for _, client := range []bool{true, false} {
					script := c22ServerScript
					if client {
						script = c22ClientScript
					}
					_, _, st := script(v, retry)
					for at := 0; at < len(st); at++ {
						for bi, bad := range c22Bads() {
							for _, zombie := range []bool{false, true} {
								for oi, order := range orders {
									v, retry, at, bi, zombie, order := v, retry, at, bi, zombie, order
									if !x.Thorough() && !zombie && oi < len(orders)-1 {
										continue
									}
									cs.Add(fmt.Sprintf("fail/%s/dtls=%v/retry=%v/client=%v/at%d/%s/zombie=%v/%v", v.name, dtls, retry, client, at, bad.name, zombie, order), func(c *Case) {
										e, p, steps := script(v, retry)
										c22Drive(c, e, p, steps, at, c22Bads()[bi], order, zombie, v.early)
									})
								}
							}
						}
					}
				}
			}
		}
	}
	// failures of real ends facing each other: any bit of any write altered,
	// then the unaltered bytes
	for _, dtls := range []bool{false, true} {
		for _, v := range hsVariants(dtls) {
			v := v
			for _, client := range []bool{true, false} {
				for n := 0; n < 4; n++ {
					for _, off := range []int{0, 1, 5, 9, 14, 30, 45, 60, 100, 200, 400, 700} {
						client, n, off := client, n, off
						cs.Add(fmt.Sprintf("altered/%s/client=%v/%d/%d", v.name, client, n, off), func(c *Case) {
							cc, sc := v.cfgs()
							d := &driven{p: NewPair(cc, sc), early: v.early}
							d.p.C.W.zombie, d.p.S.W.zombie = true, true
							d.net = func(from bool, k int, b []byte) [][]byte {
								if from == client && k == n && off < len(b) {
									x := append([]byte{}, b...)
									x[off] ^= 0x41
									return [][]byte{x, b}
								}
								return [][]byte{b}
							}
							d.run()
							for _, k := range []struct {
								e *End
								r hsResult
							}{{d.p.C, d.c}, {d.p.S, d.s}} {
								if k.r == hsFailed {
									for _, call := range c22Calls {
										c22Early(c, k.e, call, true, false)
									}
								}
							}
							c.Outcome(fmt.Sprintf("altered %v %v", d.c, d.s))
							c.Traces(1)
						})
					}
				}
			}
		}
	}
}

func init() {
	register("C22", "model_checking", func(x *Ctx) {
		x.Rule("every API call (thorough: pairs of calls) at every step of every handshake variant, TLS and DTLS, both ends; every bad step of a list at every position of the peer's script, followed by its legal remainder and by application data under every key, with every sequence of API calls after the failure, with and without a transport that ignores Close")
		cs := &Cases{}
		c22Premature(x, cs)
		c22Failures(x, cs)
		x.Run(cs, 0)
	})
}
