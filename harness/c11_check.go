package vharness

import (
	"bytes"
	"fmt"

	"github.com/bifurcation/mint"
)

// C11: early data.

type c11Cfg struct {
	accept, known, alpn, cookie, cr, ticket bool
	suite                                   uint16
	modes                                   string // which key exchange modes both offer
	serverBlocks                            bool
	otherKey                                bool // the server holds another key under the same identity
	noOffer                                 bool
}

func (k c11Cfg) String() string {
	return fmt.Sprintf("accept=%v/known=%v/alpn=%v/cookie=%v/cr=%v/ticket=%v/%04x/%s/blocks=%v/other=%v/offer=%v", k.accept, k.known, k.alpn, k.cookie, k.cr, k.ticket, k.suite, k.modes, k.serverBlocks, k.otherKey, !k.noOffer)
}

func (k c11Cfg) cfgs(c *Case) (cc, sc *mint.Config) {
	v := variant{psk: !k.ticket, early: !k.noOffer, accept: k.accept, alpn: k.alpn, cookie: k.cookie, cr: k.cr, suite: k.suite, ticket: k.ticket}
	switch k.modes {
	case "ke":
		v.modes = []mint.PSKKeyExchangeMode{mint.PSKModeKE}
	case "dhe":
		v.modes = []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE}
	}
	if k.ticket {
		w := v
		w.early, w.accept, w.cookie = false, false, false
		a, b := w.cfgs()
		cp, sp := &mint.PSKMapCache{}, &mint.PSKMapCache{}
		a.PSKs, b.PSKs = cp, sp
		b.EarlyDataLifetime = 1 << 20
		d := &driven{p: NewPair(a, b)}
		d.run()
		if d.c != hsDone || d.s != hsDone || d.echo(nil) != nil {
			c.Fail("handshake", "for the ticket: %v %v", d.c, d.s)
		}
		cc, sc = v.cfgs()
		cc.PSKs, sc.PSKs = cp, sp
	} else {
		cc, sc = v.cfgs()
	}
	if !k.known {
		sc.PSKs = &mint.PSKMapCache{}
	}
	if k.otherKey {
		sc.PSKs = &mint.PSKMapCache{hexOf([]byte("psk-id")): mintPSK(k.suite, []byte("psk-id"), wrongPSK, false)}
	}
	return
}

// event is one step added to the canonical schedule: the client writes n bytes
// ('w') or the server reads with a buffer of n bytes ('r') at one position.
type c11Event struct {
	pos  int
	kind byte
	n    int
}

func (e c11Event) String() string { return fmt.Sprintf("%d%c%d", e.pos, e.kind, e.n) }

// c11Sched runs two real ends step by step with the events put in.
func c11Sched(c *Case, k c11Cfg, evs []c11Event, chunk int) {
	cc, sc := k.cfgs(c)
	wantAccept := k.accept && k.known && !k.cookie && !k.noOffer
	p := NewPair(cc, sc)
	var sent, early, got []byte
	pat := make([]byte, 0, 70000)
	for i := 0; len(pat) < 70000; i++ {
		pat = append(pat, byte(i*31+i>>8))
	}
	cDone, sDone := false, false
	served := false
	next := 0
	total := 0
	step := func(e *End, done *bool) {
		if *done {
			return
		}
		a := e.C.Handshake()
		switch a {
		case mint.AlertNoAlert, mint.AlertStatelessRetry, mint.AlertWouldBlock:
		default:
			c.Fail("handshake", "client=%v: Handshake reports %v", e.IsClient, a)
		}
		if e.Connected() {
			*done = true
		}
	}
	write := func(n int) {
		if len(sent)+n > len(pat) {
			c.Fail("harness", "pattern too short")
		}
		b := pat[total : total+n]
		outs := len(p.C.W.outs)
		was := cDone
		m, err := p.C.C.Write(b)
		if err != nil {
			if m != 0 || len(p.C.W.outs) != outs {
				c.Fail("refused-write", "Write failed (%v) but reported %d and sent %d", err, m, len(p.C.W.outs)-outs)
			}
			if was {
				c.Fail("write", "Write on a complete connection: %v", err)
			}
			c.Outcome("write refused")
			return
		}
		if m != n {
			c.Fail("write", "Write of %d returned %d", n, m)
		}
		total += n
		sent = append(sent, b...)
		if !was {
			early = append(early, b...)
			if k.noOffer {
				c.Fail("unoffered", "data was written before completion though early data was not offered")
			}
			c.Outcome("written early")
		}
	}
	read := func(n int) {
		buf := make([]byte, n)
		m, err := p.S.C.Read(buf)
		if err != nil && m != 0 {
			c.Fail("read", "Read returned %d and %v", m, err)
		}
		if !sDone && m > 0 && !wantAccept {
			c.Fail("rejected-delivered", "%d bytes delivered before completion", m)
		}
		got = append(got, buf[:m]...)
		if m > 0 && !sDone {
			c.Outcome("read early")
		}
	}
	deliver := func() {
		for _, b := range p.C.W.take() {
			p.S.W.feed(b)
		}
		for _, b := range p.S.W.take() {
			p.C.W.feed(b)
		}
	}
	pos := 0
	at := func() {
		for next < len(evs) && evs[next].pos <= pos {
			if evs[next].kind == 'w' {
				write(evs[next].n)
			} else {
				read(evs[next].n)
			}
			next++
		}
		pos++
	}
	if chunk > 0 {
		p.S.W.readMax, p.C.W.readMax = chunk, chunk
	}
	if k.serverBlocks {
		// the server's one Handshake call pulls the client along
		idle := 0
		p.S.W.onEmpty = func() bool {
			at()
			step(p.C, &cDone)
			b := p.S.W.pending()
			deliver()
			if p.S.W.pending() == b {
				idle++
			} else {
				idle = 0
			}
			return idle < 6
		}
	}
	for i := 0; i < 24; i++ {
		at()
		step(p.C, &cDone)
		at()
		deliver()
		if k.serverBlocks && !served {
			served = true
			if a := p.S.C.Handshake(); a != mint.AlertNoAlert {
				c.Fail("handshake", "blocking server: %v", a)
			}
			sDone = p.S.Connected()
		} else {
			step(p.S, &sDone)
		}
		at()
		deliver()
		if cDone && sDone && next >= len(evs) {
			break
		}
	}
	if !cDone || !sDone {
		c.Fail("handshake", "client done %v, server done %v", cDone, sDone)
	}
	c.Transitions(pos)
	a, b := p.C.C.ConnectionState(), p.S.C.ConnectionState()
	if a.UsingEarlyData != b.UsingEarlyData {
		c.Fail("report", "client says %v, server %v", a.UsingEarlyData, b.UsingEarlyData)
	}
	if a.UsingEarlyData != wantAccept {
		c.Fail("accept", "accepted: %v, want %v", a.UsingEarlyData, wantAccept)
	}
	if wantAccept {
		c.Outcome("accepted")
	} else {
		sent = sent[len(early):]
		c.Outcome("rejected")
	}
	// afterwards
	p.S.W.onEmpty = nil
	for _, tail := range [][]byte{[]byte("tail one"), []byte("tail two")} {
		if n, err := p.C.C.Write(tail); n != len(tail) || err != nil {
			c.Fail("write", "afterwards: %d %v", n, err)
		}
		sent = append(sent, tail...)
		deliver()
		g, err := p.S.ReadAll(33)
		if err != nil {
			c.Fail("read", "afterwards: %v", err)
		}
		got = append(got, g...)
		if !bytes.Equal(got, sent) {
			c.Fail("stream", "%d bytes arrived that are not the %d written (%d early)", len(got), len(sent), len(early))
		}
	}
	if n, err := p.S.C.Write([]byte("back")); n != 4 || err != nil {
		c.Fail("write", "server: %d %v", n, err)
	}
	deliver()
	if g, err := p.C.ReadAll(50); string(g) != "back" || err != nil {
		c.Fail("read", "client: %q %v", g, err)
	}
	c.Traces(1)
}

func c11Pairs(x *Ctx, cs *Cases) {
	base := c11Cfg{accept: true, known: true, suite: 0x1301, modes: "dhe"}
	var cfgs []c11Cfg
	for _, acc := range []bool{true, false} {
		for _, known := range []bool{true, false} {
			for _, f := range []string{"", "alpn", "cookie", "cr", "ticket", "blocks", "noOffer"} {
				for _, suite := range []uint16{0x1301, 0x1302} {
					for _, m := range []string{"ke", "dhe", "both"} {
						k := c11Cfg{accept: acc, known: known, suite: suite, modes: m}
						switch f {
						case "alpn":
							k.alpn = true
						case "cookie":
							k.cookie = true
						case "cr":
							k.cr = true
						case "ticket":
							k.ticket = true
						case "blocks":
							k.serverBlocks = true
						case "noOffer":
							k.noOffer = true
						}
						if !known && m == "ke" {
							continue // no fallback
						}
						if k.ticket && m == "ke" {
							continue
						}
						cfgs = append(cfgs, k)
					}
				}
			}
		}
	}
	for _, k := range cfgs {
		k := k
		for _, chunk := range []int{0, 1, 7} {
			for _, evs := range [][]c11Event{
				nil,
				{{1, 'w', 10}},
				{{1, 'w', 10}, {1, 'w', 20}, {1, 'w', 1}},
				{{1, 'w', 16384}, {1, 'w', 16385}, {1, 'w', 33000}},
				{{1, 'w', 10}, {4, 'w', 11}, {5, 'r', 4}, {6, 'r', 4}, {7, 'w', 5}, {8, 'r', 100}},
				{{1, 'w', 0}, {1, 'w', 10}},
			} {
				evs, chunk := evs, chunk
				cs.Add(fmt.Sprintf("pair/%v/chunk%d/%v", k, chunk, evs), func(c *Case) { c11Sched(c, k, evs, chunk) })
			}
		}
	}
	// every placement of up to three writes and two reads
	K := 14
	sizes := []int{1, 300, 16385}
	bufs := []int{1, 150, 40000}
	rej := base
	rej.accept = false
	blk := base
	blk.serverBlocks = true
	unk := base
	unk.known = false
	nW, nR := x.Pick(2, 3), x.Pick(1, 2)
	var place func(kind byte, ns []int, left, from int, cur []c11Event, f func([]c11Event))
	place = func(kind byte, ns []int, left, from int, cur []c11Event, f func([]c11Event)) {
		f(append([]c11Event{}, cur...))
		if left == 0 {
			return
		}
		for pos := from; pos < K; pos++ {
			for _, n := range ns {
				place(kind, ns, left-1, pos, append(cur, c11Event{pos, kind, n}), f)
			}
		}
	}
	for _, k := range []c11Cfg{base, rej, unk, blk} {
		k := k
		ws, rs := sizes, bufs
		if x.Thorough() {
			ws, rs = []int{300}, []int{7, 40000}
		}
		place('w', ws, nW, 0, nil, func(w []c11Event) {
			place('r', rs, nR, 0, nil, func(r []c11Event) {
				var evs []c11Event
				i, j := 0, 0
				for i < len(w) || j < len(r) {
					if j == len(r) || i < len(w) && w[i].pos <= r[j].pos {
						evs = append(evs, w[i])
						i++
					} else {
						evs = append(evs, r[j])
						j++
					}
				}
				cs.Add(fmt.Sprintf("sched/acc=%v/known=%v/blocks=%v/%v", k.accept, k.known, k.serverBlocks, evs), func(c *Case) { c11Sched(c, k, evs, 0) })
			})
		})
	}
}

// c11Attack drives a real server with a reference client.
func c11Attack(x *Ctx, cs *Cases) {
	type env struct {
		e *End
		p *Puppet
		o chOpts
	}
	mk := func(allow bool, f func(cfg *mint.Config)) *env {
		cfg := serverCfg("p256")
		cfg.AllowEarlyData = allow
		m := mint.PSKMapCache{}
		m.Put(hexOf([]byte("psk-id")), mintPSK(0x1301, []byte("psk-id"), thePSK, false))
		m.Put(hexOf([]byte("psk-2")), mintPSK(0x1301, []byte("psk-2"), wrongPSK, false))
		cfg.PSKs = &m
		if f != nil {
			f(cfg)
		}
		e := NewEnd(cfg, false)
		o := defaultCH()
		o.PSKIDs = []pskID{{[]byte("psk-id"), 0}}
		o.PSKKeys = [][]byte{thePSK}
		o.PSKSuites = []uint16{0x1301}
		o.PSKRes = []bool{false}
		o.Early = true
		return &env{e, newPuppet(true, e), o}
	}
	// read drains what the server application can get now.
	read := func(e *End) (out []byte) {
		buf := make([]byte, 50000)
		for i := 0; i < 100; i++ {
			n, err := e.C.Read(buf)
			out = append(out, buf[:n]...)
			if err != nil {
				return
			}
		}
		return
	}
	quiet := func(f func()) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(peerError); !ok {
					panic(r)
				}
			}
		}()
		f()
	}
	// honest: sequences of early records and server reads
	recs := [][]int{{5}, {1, 0, 3}, {16384, 16384, 1}, {0}, {}, {100, 200, 300, 400}}
	for ri, rl := range recs {
		for _, allow := range []bool{true, false} {
			for _, mid := range []bool{false, true} {
				for _, pad := range []int{0, 1, 77} {
					for _, alias := range []string{"one", "bytes"} {
						rl, allow, mid, pad, alias := rl, allow, mid, pad, alias
						if alias == "bytes" && ri == 2 {
							continue
						}
						cs.Add(fmt.Sprintf("peer/honest/%d/allow=%v/mid=%v/pad%d/%s", ri, allow, mid, pad, alias), func(c *Case) {
							v := mk(allow, nil)
							if alias == "bytes" {
								v.e.W.readMax = 1
							}
							v.p.SendCH(v.o)
							var want, got []byte
							for i, n := range rl {
								b := bytes.Repeat([]byte{byte(i + 1)}, n)
								want = append(want, b...)
								v.p.emit(v.p.sealRecord(v.p.out, rtApp, b, pad))
								if mid {
									v.e.Step()
									got = append(got, read(v.e)...)
								}
							}
							if r := v.e.Step(); r != hsBlocked {
								c.Fail("handshake", "%v %v", r, v.e.Fail)
							}
							got = append(got, read(v.e)...)
							if again, _ := v.p.RecvSH(); again {
								c.Fail("retry", "retry")
							}
							v.p.RecvServerFlight()
							if v.p.earlyAccepted != allow {
								c.Fail("accept", "%v", v.p.earlyAccepted)
							}
							v.p.SendClientFlight(nil)
							if !finishClient(c, v.e, v.p) {
								c.Fail("handshake", "%v", v.e.Fail)
							}
							v.p.SendApp([]byte("later"))
							g, err := v.e.ReadAll(1000)
							got = append(got, g...)
							if !allow {
								want = nil
							}
							want = append(want, "later"...)
							if err != nil || !bytes.Equal(got, want) {
								c.Fail("stream", "%d bytes (%v), want %d", len(got), err, len(want))
							}
							if v.e.C.ConnectionState().UsingEarlyData != allow {
								c.Fail("report", "%v", v.e.C.ConnectionState().UsingEarlyData)
							}
							c.Traces(1)
						})
					}
				}
			}
		}
	}
	// never accepted
	type bad struct {
		name string
		f    func(v *env)
		cfg  func(cfg *mint.Config)
		// reject: the handshake must complete without early data
		reject bool
	}
	bads := []bad{
		{"second-identity", func(v *env) {
			v.o.PSKIDs = []pskID{{[]byte("unknown"), 0}, {[]byte("psk-id"), 0}}
			v.o.PSKKeys = [][]byte{wrongPSK, thePSK}
			v.o.PSKSuites = []uint16{0x1301, 0x1301}
			v.o.PSKRes = []bool{false, false}
		}, nil, true},
		{"unknown-identity", func(v *env) { v.o.PSKIDs[0].ID = []byte("unknown") }, nil, true},
		{"not-offered-psk", func(v *env) { v.o.PSKIDs = nil; v.o.PSKKeys = nil }, nil, false},
		{"no-modes", func(v *env) { v.o.Modes = nil }, nil, false},
		{"wrong-key", func(v *env) { v.o.PSKKeys = [][]byte{wrongPSK} }, nil, false},
		{"bad-binder", func(v *env) { v.o.mutBind = func(b [][]byte) { b[0][3] ^= 4 } }, nil, false},
		{"cookie", func(v *env) {}, func(cfg *mint.Config) { cfg.RequireCookie = true; cfg.CookieProtector = fixedProtector() }, false},
		{"no-common-mode", func(v *env) { v.o.Modes = []int{0} }, func(cfg *mint.Config) { cfg.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE} }, true},
	}
	for _, b := range bads {
		for _, allow := range []bool{true, false} {
			for n := 0; n < 3; n++ {
				b, allow, n := b, allow, n
				cs.Add(fmt.Sprintf("peer/bad/%s/allow=%v/n%d", b.name, allow, n), func(c *Case) {
					v := mk(allow, b.cfg)
					b.f(v)
					v.p.SendCH(v.o)
					for i := 0; i < n; i++ {
						v.p.SendApp([]byte("early secret data"))
					}
					v.e.Step()
					if g := read(v.e); len(g) > 0 {
						c.Fail("delivered", "%q", g)
					}
					done := false
					quiet(func() {
						if again, _ := v.p.RecvSH(); again {
							return
						}
						v.p.RecvServerFlight()
						if v.p.earlyAccepted {
							c.Fail("accepted", "in EncryptedExtensions")
						}
						v.p.SendClientFlight(nil)
						done = v.e.Step() == hsDone
					})
					if g := read(v.e); len(g) > 0 {
						c.Fail("delivered", "%q", g)
					}
					c.Outcome(fmt.Sprintf("%s done=%v", b.name, done))
					if v.e.C.ConnectionState().UsingEarlyData {
						c.Fail("report", "the server says it uses early data")
					}
					if b.reject {
						if !done {
							c.Fail("handshake", "not completed: %v", v.e.Fail)
						}
						dataBothWays(c, v.e, v.p, "x")
					}
					c.Traces(1)
				})
			}
		}
	}
	// what follows accepted early data
	type tail struct {
		name string
		f    func(c *Case, v *env)
		data string // what may have been delivered at most
		ok   bool
	}
	tails := []tail{
		{"honest", func(c *Case, v *env) { v.p.SendClientFlight(nil) }, "early", true},
		{"no-eoed", func(c *Case, v *env) { v.p.earlyAccepted = false; v.p.SendClientFlight(nil) }, "early", false},
		{"no-eoed-in-transcript", func(c *Case, v *env) {
			v.p.SendMsg(hEOED, nil)
			v.p.T = v.p.T[:len(v.p.T)-4]
			v.p.setOut(newHalf(v.p.suite, v.p.cHS, 2))
			v.p.SendClientFin()
		}, "early", false},
		{"eoed-body", func(c *Case, v *env) {
			v.p.SendMsg(hEOED, []byte{0})
			v.p.setOut(newHalf(v.p.suite, v.p.cHS, 2))
			v.p.SendClientFin()
		}, "early", false},
		{"eoed-under-hs-keys", func(c *Case, v *env) {
			v.p.setOut(newHalf(v.p.suite, v.p.cHS, 2))
			v.p.SendMsg(hEOED, nil)
			v.p.SendClientFin()
		}, "early", false},
		{"fin-under-early-keys", func(c *Case, v *env) { v.p.SendMsg(hEOED, nil); v.p.SendClientFin() }, "early", false},
		{"early-after-eoed", func(c *Case, v *env) {
			h := v.p.out
			v.p.SendMsg(hEOED, nil)
			v.p.setOut(newHalf(v.p.suite, v.p.cHS, 2))
			v.p.emit(v.p.sealRecord(h, rtApp, []byte("late"), 0))
			v.p.SendClientFin()
		}, "early", false},
		{"app-under-hs-keys", func(c *Case, v *env) {
			v.p.SendEOEDIfNeeded()
			v.p.SendApp([]byte("soon"))
			v.p.SendClientFin()
		}, "early", false},
		{"early-keys-after-fin", func(c *Case, v *env) {
			h := v.p.out
			v.p.SendClientFlight(nil)
			v.p.emit(v.p.sealRecord(h, rtApp, []byte("late"), 0))
		}, "early", false},
		{"eoed-twice", func(c *Case, v *env) { v.p.SendMsg(hEOED, nil); v.p.SendClientFlight(nil) }, "early", false},
		{"eoed-split", func(c *Case, v *env) {
			raw := v.p.frame(hEOED, nil)
			v.p.T = append(v.p.T, raw...)
			v.p.SendRecord(rtHS, raw[:2])
			v.p.SendRecord(rtHS, raw[2:])
			v.p.setOut(newHalf(v.p.suite, v.p.cHS, 2))
			v.p.SendClientFin()
		}, "early", true},
		{"eoed-split-around-data", func(c *Case, v *env) {
			raw := v.p.frame(hEOED, nil)
			v.p.T = append(v.p.T, raw...)
			v.p.SendRecord(rtHS, raw[:2])
			v.p.SendApp([]byte("x"))
			v.p.SendRecord(rtHS, raw[2:])
			v.p.setOut(newHalf(v.p.suite, v.p.cHS, 2))
			v.p.SendClientFin()
		}, "earlyx", false},
		{"replayed-record", func(c *Case, v *env) {
			v.p.record = func(raw []byte) []byte { v.p.record = nil; return append(append([]byte{}, raw...), raw...) }
			v.p.SendApp([]byte("x"))
			v.p.SendClientFlight(nil)
		}, "earlyx", false},
		{"altered-record", func(c *Case, v *env) {
			v.p.record = func(raw []byte) []byte {
				v.p.record = nil
				raw = append([]byte{}, raw...)
				raw[len(raw)-1] ^= 1
				return raw
			}
			v.p.SendApp([]byte("x"))
			v.p.SendClientFlight(nil)
		}, "early", false},
		{"dropped-record", func(c *Case, v *env) {
			v.p.record = func(raw []byte) []byte { v.p.record = nil; return nil }
			v.p.SendApp([]byte("x"))
			v.p.SendClientFlight(nil)
		}, "early", false},
		{"cleartext-data", func(c *Case, v *env) {
			h := v.p.out
			v.p.out = nil
			v.p.SendApp([]byte("clear"))
			v.p.out = h
			v.p.SendClientFlight(nil)
		}, "early", false},
		{"alert", func(c *Case, v *env) { v.p.SendAlert(2, 40) }, "early", false},
		{"close-notify", func(c *Case, v *env) { v.p.SendAlert(1, 0); v.p.SendClientFlight(nil) }, "early", false},
		{"ack-record", func(c *Case, v *env) { v.p.SendRecord(rtAck, []byte{0, 0}); v.p.SendClientFlight(nil) }, "early", false},
	}
	for _, t := range tails {
		for _, when := range []string{"together", "separate", "bytes"} {
			for _, reading := range []bool{false, true} {
				t, when, reading := t, when, reading
				cs.Add(fmt.Sprintf("peer/tail/%s/%s/reading=%v", t.name, when, reading), func(c *Case) {
					v := mk(true, nil)
					if when == "bytes" {
						v.e.W.readMax = 1
					}
					v.p.SendCH(v.o)
					if when == "separate" {
						v.e.Step()
					}
					v.p.SendApp([]byte("early"))
					v.e.Step()
					var got []byte
					if reading {
						got = read(v.e)
					}
					v.p.RecvSH()
					v.p.RecvServerFlight()
					if !v.p.earlyAccepted {
						c.Fail("accept", "not accepted")
					}
					quiet(func() { t.f(c, v) })
					r := v.e.Step()
					if t.name == "early-keys-after-fin" && r == hsDone {
						g, err := v.e.ReadAll(100)
						if err == nil || !bytes.HasPrefix([]byte("early"), append(got, g...)) {
							c.Fail("delivered", "%q %v", g, err)
						}
						return
					}
					if (r == hsDone) != t.ok {
						c.Fail("completion", "%v (%v), want completed=%v", r, v.e.Fail, t.ok)
					}
					if r == hsDone {
						v.p.SendApp([]byte("+"))
						g, err := v.e.ReadAll(100)
						got = append(got, g...)
						if err != nil || string(got) != t.data+"+" {
							c.Fail("stream", "%q %v", got, err)
						}
						return
					}
					v.p.SendApp([]byte("after"))
					v.e.Step()
					got = append(got, read(v.e)...)
					if !bytes.HasPrefix([]byte(t.data), got) {
						c.Fail("delivered", "%q", got)
					}
				})
			}
		}
	}
	// a real client against a reference server
	for _, ans := range []string{"accept", "reject", "reject-psk", "retry", "accept-ee-late"} {
		for _, n := range []int{0, 1, 2, 3} {
			for _, dribble := range []bool{false, true} {
				for _, suite := range []uint16{0x1301, 0x1302} {
					ans, n, dribble, suite := ans, n, dribble, suite
					cs.Add(fmt.Sprintf("client/%s/n%d/dribble=%v/%04x", ans, n, dribble, suite), func(c *Case) {
						cc := clientCfg()
						cc.CipherSuites = []mint.CipherSuite{mint.CipherSuite(suite)}
						withClientPSK(cc, suite, thePSK)
						cc.AllowEarlyData = true
						e := NewEnd(cc, true)
						if dribble {
							e.W.readMax = 1
						}
						p := newPuppet(false, e)
						e.Step()
						var want []byte
						w := func() bool {
							b := []byte(fmt.Sprintf("chunk%d;", len(want)))
							m, err := e.C.Write(b)
							if err != nil {
								if m != 0 {
									c.Fail("write", "%d %v", m, err)
								}
								return false
							}
							want = append(want, b...)
							return true
						}
						for i := 0; i < n; i++ {
							if !w() {
								c.Fail("write", "early Write refused")
							}
						}
						p.RecvCH()
						if !p.CH.Exts.has(xEarly) {
							c.Fail("offer", "no early_data in the hello")
						}
						p.UsePSK(thePSK, suite, false)
						if err := p.BinderOK(); err != nil {
							c.Fail("binder", "%v", err)
						}
						if ans == "retry" {
							p.SendHRR(suite, hrrExts([]byte("ck")))
							e.Step()
							if w() {
								c.Fail("write-after-retry", "data was written after a retry, before completion")
							}
							// the first flight's early data is skipped
							p.skipClearApp()
							p.RecvCH()
							if p.CH.Exts.has(xEarly) {
								c.Fail("offer", "early_data offered after a retry")
							}
							if err := p.BinderOK(); err != nil {
								c.Fail("binder", "%v", err)
							}
						}
						var early *Half
						if ans == "reject-psk" {
							early = newHalf(p.pskSuite, p.EarlySecret(), 1)
						}
						sh := p.DefaultSH(suite, gX25519, ans != "reject-psk")
						p.SendSH(sh, gX25519)
						e.Step()
						var ee Exts
						acc := ans == "accept" || ans == "accept-ee-late"
						if ans == "accept-ee-late" {
							// the client may go on writing until it knows
							if !w() {
								c.Fail("write", "early Write refused after ServerHello")
							}
						}
						if acc {
							ee.set(xEarly, nil)
						}
						p.SendEE(ee)
						e.Step()
						if acc && ans == "accept-ee-late" {
							w()
						}
						if ans == "reject-psk" {
							c11Auth(p)
							p.setIn(early)
						}
						p.SendServerFin()
						r := e.Step()
						if r != hsDone {
							c.Fail("handshake", "%v %v", r, e.Fail)
						}
						if e.C.ConnectionState().UsingEarlyData != acc {
							c.Fail("report", "%v", e.C.ConnectionState().UsingEarlyData)
						}
						if !acc {
							p.earlyAccepted = false
						}
						p.RecvClientFlight()
						if acc && !bytes.Equal(p.Early, want) {
							c.Fail("early", "the server got %q, written %q", p.Early, want)
						}
						dataBothWays(c, e, p, "z")
						if want := "from-mint-z"; string(p.App) != want {
							c.Fail("stream", "%q", p.App)
						}
						c.Traces(1)
					})
				}
			}
		}
	}
	// the server accepts what was not offered, or without the key
	for _, k := range []string{"not-offered", "no-psk", "other-index"} {
		k := k
		cs.Add("client/unsolicited/"+k, func(c *Case) {
			cc := clientCfg()
			if k != "not-offered" {
				withClientPSK(cc, 0x1301, thePSK)
				cc.AllowEarlyData = true
			}
			e := NewEnd(cc, true)
			p := newPuppet(false, e)
			e.Step()
			p.RecvCH()
			p.UsePSK(thePSK, 0x1301, false)
			sh := p.DefaultSH(0x1301, gX25519, false)
			if k == "other-index" {
				sh.Exts.set(xPSK, []byte{0, 1})
			}
			p.SendSH(sh, gX25519)
			var ee Exts
			ee.set(xEarly, nil)
			p.SendEE(ee)
			c11Auth(p)
			p.SendServerFin()
			if r := e.Step(); r != hsFailed {
				c.Fail("accepted", "the client went on: %v", r)
			}
			if e.C.ConnectionState().UsingEarlyData && e.Connected() {
				c.Fail("report", "early data reported")
			}
		})
	}
}

func c11Auth(p *Puppet) {
	p.SendCert(id("p256").raws())
	p.SendCV(id("p256").key, defaultScheme(id("p256")))
}

// skipClearApp drops application data records that no key can open.
func (p *Puppet) skipClearApp() {
	for _, o := range p.W.take() {
		p.rx = append(p.rx, o...)
	}
	for len(p.rx) >= 5 && p.rx[0] == rtApp {
		n := int(p.rx[3])<<8 | int(p.rx[4])
		if len(p.rx) < 5+n {
			return
		}
		p.rx = p.rx[5+n:]
	}
}

func init() {
	register("C11", "model_checking", func(x *Ctx) {
		x.Rule("every placement of early writes and reads (several sizes) in the handshake schedule of two real ends, over configurations of acceptance, key knowledge, retry, tickets, blocking; reference clients sending every kind of early data and what follows it; reference servers accepting, rejecting, retrying")
		x.Assume("TLS only: early data over DTLS is explored by C18 and C07 where it applies")
		cs := &Cases{}
		c11Pairs(x, cs)
		c11Attack(x, cs)
		x.Run(cs, 0)
	})
}
