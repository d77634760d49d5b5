package vharness

import (
	"bytes"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/bifurcation/mint"
)

// C27: extensions of the application.

var c27Msgs = []mint.HandshakeType{mint.HandshakeTypeClientHello, mint.HandshakeTypeHelloRetryRequest, mint.HandshakeTypeServerHello, mint.HandshakeTypeEncryptedExtensions}
var c27Names = map[mint.HandshakeType]string{mint.HandshakeTypeClientHello: "CH", mint.HandshakeTypeHelloRetryRequest: "HRR", mint.HandshakeTypeServerHello: "SH", mint.HandshakeTypeEncryptedExtensions: "EE"}

// c27Handler adds extensions to messages, records those in messages received,
// and fails a call.
type c27Handler struct {
	send   map[mint.HandshakeType][]blobExt
	recv   []c27Seen
	calls  []string
	failAt int // the call that reports an error (-1: none)
	failed bool
	find   bool // look extensions up singly (Find), otherwise all at once (Parse)
	types  []mint.ExtensionType
}

type c27Seen struct {
	msg  mint.HandshakeType
	exts []blobExt
}

func (h *c27Handler) call(s string) error {
	n := len(h.calls)
	h.calls = append(h.calls, s)
	if n == h.failAt {
		h.failed = true
		return errors.New("handler error")
	}
	return nil
}

func (h *c27Handler) Send(t mint.HandshakeType, el *mint.ExtensionList) error {
	if err := h.call("send " + c27Names[t]); err != nil {
		return err
	}
	for _, e := range h.send[t] {
		e := e
		if err := el.Add(&e); err != nil {
			return err
		}
	}
	return nil
}

func (h *c27Handler) Receive(t mint.HandshakeType, el *mint.ExtensionList) error {
	if err := h.call("receive " + c27Names[t]); err != nil {
		return err
	}
	s := c27Seen{msg: t}
	var dsts []mint.ExtensionBody
	for _, et := range h.types {
		dsts = append(dsts, &blobExt{t: et})
	}
	found := map[mint.ExtensionType]bool{}
	var err error
	if h.find {
		for i, d := range dsts {
			if found[h.types[i]], err = el.Find(d); err != nil {
				return err
			}
		}
	} else if found, err = el.Parse(dsts); err != nil {
		return err
	}
	for i, et := range h.types {
		if found[et] {
			s.exts = append(s.exts, *dsts[i].(*blobExt))
		}
	}
	h.recv = append(h.recv, s)
	return nil
}

// of gives what was received in the messages of a type; every occurrence must
// be the same.
func (h *c27Handler) of(c *Case, t mint.HandshakeType) (got map[mint.ExtensionType][]byte, n int) {
	for _, s := range h.recv {
		if s.msg != t {
			continue
		}
		m := map[mint.ExtensionType][]byte{}
		for _, e := range s.exts {
			m[e.t] = e.data
		}
		if n > 0 && !c27Same(m, got) {
			c.Fail("differs", "two %s messages carry different extensions", c27Names[t])
		}
		got = m
		n++
	}
	return
}

func c27Same(a, b map[mint.ExtensionType][]byte) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !bytes.Equal(v, w) {
			return false
		}
	}
	return true
}

func c27Show(m map[mint.ExtensionType][]byte) string {
	var s []string
	for k, v := range m {
		s = append(s, fmt.Sprintf("%04x[%d]", k, len(v)))
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

func c27Body(n int, seed byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*3) ^ byte(i>>8) ^ seed
	}
	return b
}

var c27Types = []mint.ExtensionType{0xfe01, 0xfe02, 0x1a1a, 0x00ff, 0xffff}

// c27Want is what a handler adds.
func c27Want(set, count, size int) map[mint.HandshakeType][]blobExt {
	out := map[mint.HandshakeType][]blobExt{}
	for i, m := range c27Msgs {
		if set&(1<<i) == 0 {
			continue
		}
		for k := 0; k < count; k++ {
			n := size
			if k > 0 {
				n = k * 3
			}
			out[m] = append(out[m], blobExt{c27Types[(k+i)%len(c27Types)], c27Body(n, byte(16*i+k))})
		}
	}
	return out
}

func c27Map(b []blobExt) map[mint.ExtensionType][]byte {
	m := map[mint.ExtensionType][]byte{}
	for _, e := range b {
		m[e.t] = e.data
	}
	return m
}

func c27Pair(c *Case, v variant, set, count, size int, find bool, failC, failS int, blocking bool) (ch, sh *c27Handler, d *driven) {
	cc, sc := v.cfgs()
	want := c27Want(set, count, size)
	ch = &c27Handler{send: want, types: c27Types, failAt: failC, find: find}
	sh = &c27Handler{send: want, types: c27Types, failAt: failS, find: !find}
	cc.ExtensionHandler, sc.ExtensionHandler = ch, sh
	d = &driven{p: NewPair(cc, sc), early: v.early}
	d.run()
	return
}

func c27Check(c *Case, v variant, set, count, size int, find bool) {
	ch, sh, d := c27Pair(c, v, set, count, size, find, -1, -1, false)
	if d.c != hsDone || d.s != hsDone {
		c.Fail("handshake", "does not complete: client %v %v, server %v %v", d.c, d.p.C.Fail, d.s, d.p.S.Fail)
	}
	want := c27Want(set, count, size)
	for i, m := range c27Msgs {
		rcv := ch
		if i == 0 {
			rcv = sh
		}
		got, n := rcv.of(c, m)
		exp := 1
		if m == mint.HandshakeTypeHelloRetryRequest && !v.cookie {
			exp = 0
		}
		if n == 0 && exp > 0 || n > 0 && exp == 0 {
			c.Fail("calls", "%d calls for a received %s", n, c27Names[m])
		}
		if exp > 0 && !c27Same(got, c27Map(want[m])) {
			c.Fail("altered", "%s was given %s and the peer's handler got %s", c27Names[m], c27Show(c27Map(want[m])), c27Show(got))
		}
		if _, n := map[bool]*c27Handler{true: ch, false: sh}[i == 0].of(c, m); n > 0 {
			c.Fail("calls", "a %s is reported to its sender's side", c27Names[m])
		}
	}
	if err := d.agree(v); err != nil {
		c.Fail("disagree", "%v", err)
	}
	var early []byte
	if v.early && v.accept {
		early = earlyMsg
	}
	if err := d.echo(early); err != nil {
		c.Fail("data", "%v", err)
	}
	c.Traces(1)
	c.Outcome("delivered")
}

// c27Wire looks at the messages themselves.
func c27Wire(c *Case, client, dtls, retry bool, set, count, size, pos int) {
	want := c27Want(set, count, size)
	exp := func(m mint.HandshakeType, got Exts) {
		g := map[mint.ExtensionType][]byte{}
		for _, t := range c27Types {
			if got.has(uint16(t)) {
				g[t] = got.get(uint16(t))
			}
		}
		if !c27Same(g, c27Map(want[m])) {
			c.Fail("wire", "%s was given %s and carries %s", c27Names[m], c27Show(c27Map(want[m])), c27Show(g))
		}
	}
	// put places the application's extensions among those of the protocol
	put := func(e Exts, m mint.HandshakeType) Exts {
		at := []int{0, len(e) / 2, len(e)}[pos]
		if at > 0 && e[at-1].T == xPSK {
			at--
		}
		out := append(Exts{}, e[:at]...)
		for _, b := range want[m] {
			out = append(out, Ext{uint16(b.t), b.data})
		}
		return append(out, e[at:]...)
	}
	h := &c27Handler{send: want, types: c27Types, failAt: -1, find: count == 2}
	if client {
		cfg := clientCfg()
		cfg.UseDTLS = dtls
		cfg.NextProtos = []string{"h2"}
		cfg.ExtensionHandler = h
		e := NewEnd(cfg, true)
		p := newPuppet(false, e)
		e.Step()
		exp(mint.HandshakeTypeClientHello, p.RecvCH().Exts)
		if retry {
			p.SendHRR(0x1301, put(hrrExts([]byte("cookie")), mint.HandshakeTypeHelloRetryRequest))
			e.Step()
			exp(mint.HandshakeTypeClientHello, p.RecvCH().Exts)
		}
		s := p.DefaultSH(0x1301, gX25519, false)
		s.Exts = put(s.Exts, mint.HandshakeTypeServerHello)
		p.SendSH(s, gX25519)
		p.SendEE(put(Exts{{xALPN, alpnData([]string{"h2"})}}, mint.HandshakeTypeEncryptedExtensions))
		p.sendAuth(defaultAuth("p256"))
		for e.Step() == hsBlocked && e.W.pending() > 0 {
		}
		if !e.Connected() {
			c.Fail("handshake", "%v", e.Fail)
		}
		p.RecvClientFlight()
		for _, m := range c27Msgs[1:] {
			got, n := h.of(c, m)
			if m == mint.HandshakeTypeHelloRetryRequest && !retry {
				if n > 0 {
					c.Fail("calls", "no retry was sent")
				}
				continue
			}
			if n != 1 || !c27Same(got, c27Map(want[m])) {
				c.Fail("altered", "%s carried %s and the handler got %s (%d calls)", c27Names[m], c27Show(c27Map(want[m])), c27Show(got), n)
			}
		}
		if e.C.ConnectionState().NextProto != "h2" {
			c.Fail("protocol", "%q", e.C.ConnectionState().NextProto)
		}
		dataBothWays(c, e, p, "x")
	} else {
		cfg := serverCfg("p256")
		cfg.UseDTLS = dtls
		cfg.RequireCookie = retry
		cfg.CookieProtector = fixedProtector()
		cfg.NextProtos = []string{"h2"}
		cfg.ExtensionHandler = h
		e := NewEnd(cfg, false)
		p := newPuppet(true, e)
		o := defaultCH()
		o.ALPN = []string{"h2"}
		o.mut = func(ch *CHello) { ch.Exts = put(ch.Exts, mint.HandshakeTypeClientHello) }
		p.SendCH(o)
		e.Step()
		again, cookie := p.RecvSH()
		if again {
			exp(mint.HandshakeTypeHelloRetryRequest, p.SH.Exts)
			o.Cookie = cookie
			p.SendCH(o)
			e.Step()
			p.RecvSH()
		}
		exp(mint.HandshakeTypeServerHello, p.SH.Exts)
		p.RecvServerFlight()
		exp(mint.HandshakeTypeEncryptedExtensions, p.EE)
		p.SendClientFlight(nil)
		for e.Step() == hsBlocked && e.W.pending() > 0 {
		}
		if !e.Connected() {
			c.Fail("handshake", "%v", e.Fail)
		}
		got, n := h.of(c, mint.HandshakeTypeClientHello)
		if n == 0 || !c27Same(got, c27Map(want[mint.HandshakeTypeClientHello])) {
			c.Fail("altered", "the hello carried %s and the handler got %s (%d calls)", c27Show(c27Map(want[mint.HandshakeTypeClientHello])), c27Show(got), n)
		}
		if !p.EE.has(xALPN) {
			c.Fail("protocol", "the server's own extension is missing")
		}
		p.Drain()
		dataBothWays(c, e, p, "x")
	}
	c.Traces(1)
	c.Outcome("wire")
}

func init() {
	register("C27", "exploration", func(x *Ctx) {
		x.Rule("handshake variants x subsets of messages with extensions x number and size of the extensions, between two real endpoints and against a reference peer that reads and places them on the wire; and a failure of every single handler call of every variant")
		cs := &Cases{}
		sizes := []int{0, 1, 2, 255, 256, 1000, 1150, 1200, 2400, 16000, 16380, 16384, 17000, 40000}
		if x.Thorough() {
			for n := 3; n < 600; n += 1 {
				sizes = append(sizes, n)
			}
			sizes = append(sizes, 600, 4000, 8192, 20000, 32000, 32768, 50000, 60000)
		}
		for _, dtls := range []bool{false, true} {
			for _, v := range hsVariants(dtls) {
				v := v
				for set := 0; set < 16; set++ {
					for _, count := range []int{1, 2, 5} {
						for i, size := range sizes {
							if x.Thorough() && i >= 14 && (count > 1 || set != 15 && set != 3) {
								continue
							}
							if !x.Thorough() && size > 1200 && (count == 5 || set != 15 && set&(set-1) != 0) {
								continue
							}
							set, count, size := set, count, size
							cs.Add(fmt.Sprintf("%s/set%d/count%d/size%d", v.name, set, count, size), func(c *Case) {
								c27Check(c, v, set, count, size, (set+count)%2 == 0)
							})
						}
					}
				}
				// every handler call fails in turn
				for set := 0; set < 16; set += 5 {
					for _, side := range []string{"client", "server"} {
						for at := 0; at < 10; at++ {
							set, side, at := set, side, at
							cs.Add(fmt.Sprintf("%s/fail/set%d/%s%d", v.name, set, side, at), func(c *Case) {
								fc, fs := at, -1
								if side == "server" {
									fc, fs = -1, at
								}
								ch, sh, d := c27Pair(c, v, set, 1, 10, true, fc, fs, false)
								h, e, o := ch, d.p.C, d.p.S
								if side == "server" {
									h, e, o = sh, d.p.S, d.p.C
								}
								c.Traces(1)
								if !h.failed {
									if d.c != hsDone || d.s != hsDone {
										c.Fail("handshake", "%v %v", d.c, d.s)
									}
									c.Outcome("no such call")
									return
								}
								if !e.Failed || e.Connected() {
									c.Fail("completed", "call %q of the %s reported an error and its handshake did not fail (%v)", h.calls[at], side, e.C.ConnectionState().HandshakeState)
								}
								if o.Connected() {
									c.Fail("peer completed", "call %q of the %s reported an error and the peer completed", h.calls[at], side)
								}
								if a := e.C.Handshake(); a == mint.AlertNoAlert || a == mint.AlertWouldBlock {
									c.Fail("recovered", "Handshake returns %v afterwards", a)
								}
								c.Outcome("failed at " + h.calls[at])
							})
						}
					}
				}
			}
			for _, client := range []bool{false, true} {
				for _, retry := range []bool{false, true} {
					for set := 0; set < 16; set++ {
						for _, count := range []int{1, 2, 5} {
							for pos := 0; pos < 3; pos++ {
								for _, size := range []int{0, 1, 255, 256, 900, 3000, 17000} {
									client, retry, set, count, pos, size, dtls := client, retry, set, count, pos, size, dtls
									if dtls && size > 15000 {
										size = 15000 // the reference peer does not fragment
									}
									cs.Add(fmt.Sprintf("wire/client=%v/dtls=%v/retry=%v/set%d/count%d/pos%d/size%d", client, dtls, retry, set, count, pos, size), func(c *Case) {
										c27Wire(c, client, dtls, retry, set, count, size, pos)
									})
								}
							}
						}
					}
				}
			}
		}
		x.Run(cs, 0)
	})
}
