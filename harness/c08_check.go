package vharness

import (
	"bytes"
	"fmt"
	"io"

	"github.com/bifurcation/mint"
)

// item is something an attacker can put on the wire.
type c08Item struct {
	name string
	raw  []byte
	gen  int // index of the genuine record, or -1
}

type c08Env struct {
	c    *Case
	s    *sessPeer
	gen  []c08Item // genuine records in order
	data [][]byte  // their payload (nil: none)
	bad  []c08Item
}

// newC08 builds the history and the attacker's stock.
func newC08(c *Case, isClient, dtls bool, suite uint16, hist string) *c08Env {
	s := newSessPeer(c, isClient, dtls, suite)
	p := s.p
	old := p.in // the receiver's own sending keys
	hsHalf := newHalf(p.suite, p.sHS, 2)
	if !isClient {
		hsHalf = newHalf(p.suite, p.cHS, 2)
	}
	first := *p.out
	grab := func(f func()) []byte {
		p.hold = true
		f()
		p.hold = false
		b := p.held
		p.held = nil
		return b
	}
	v := &c08Env{c: c, s: s}
	off := 0
	for i, h := range hist {
		var d []byte
		raw := grab(func() {
			switch h {
			case 'A':
				d = s.in.pat[off : off+5+i]
				off += 5 + i
				p.emit(p.sealRecord(p.out, rtApp, d, i%2))
			case 'L':
				d = s.in.pat[off : off+300]
				off += 300
				p.emit(p.sealRecord(p.out, rtApp, d, 3))
			case 'E':
				p.emit(p.sealRecord(p.out, rtApp, nil, 0))
			case 'U':
				p.SendKU(0)
			case 'N':
				p.SendNST(&ticket{Lifetime: 9, AgeAdd: 1, Nonce: []byte{byte(i)}, Ticket: []byte("tkt")})
			}
		})
		v.gen = append(v.gen, c08Item{fmt.Sprintf("g%d", i), raw, i})
		v.data = append(v.data, d)
	}
	add := func(name string, raw []byte) { v.bad = append(v.bad, c08Item{name, raw, -1}) }
	ver := 0x0303
	ep := uint64(0)
	if dtls {
		ver = 0xfefd
		ep = uint64(first.epoch) << 48
	}
	evil := append([]byte("EVIL"), rtApp)
	seal := func(h *Half, seq uint64, inner []byte) []byte {
		if dtls {
			seq |= ep
		}
		return p.sealInner(h, seq, rtApp, ver, inner)
	}
	// the receiver's own record, reflected
	s.e.C.Write([]byte("own words"))
	own := bytes.Join(s.e.W.take(), nil)
	add("reflect", own)
	other := *old
	other.seq = first.seq
	for q := uint64(0); q < 3; q++ {
		add(fmt.Sprintf("reverse%d", q), seal(&other, first.seq+q, evil))
		add(fmt.Sprintf("hskey%d", q), seal(hsHalf, first.seq+q, evil))
		add(fmt.Sprintf("nextgen%d", q), seal(first.next(), first.seq+q, evil))
		z := newHalf(p.suite, make([]byte, p.suite.hlen), 3)
		add(fmt.Sprintf("zerokey%d", q), seal(z, first.seq+q, evil))
	}
	clear := func(ct int, b []byte) []byte {
		w := &buf{}
		w.u8(ct)
		w.u16(ver)
		if dtls {
			w.raw([]byte{0, byte(first.epoch), 0, 0, 0, 0, 0, 9})
		}
		w.v16(b)
		return w.b
	}
	add("clear23", clear(rtApp, []byte("EVIL")))
	add("clear23long", clear(rtApp, append([]byte("EVIL EVIL EVIL EVIL EVIL"), rtApp)))
	add("clear23empty", clear(rtApp, nil))
	add("clearKU", clear(rtHS, hsMsg(hKU, []byte{0})))
	add("clearClose", clear(rtAlert, []byte{1, 0}))
	add("clearFatal", clear(rtAlert, []byte{2, 40}))
	add("clearAck", clear(26, []byte{0, 0}))
	add("ccs", clear(20, []byte{1}))
	add("type0", clear(0, []byte{1}))
	if dtls {
		e0 := append([]byte{}, clear(rtApp, []byte("EVIL"))...)
		e0[4] = 0
		add("epoch0", e0)
		e0 = append([]byte{}, clear(rtAlert, []byte{2, 40})...)
		e0[4] = 0
		add("epoch0alert", e0)
		e9 := append([]byte{}, e0...)
		e9[4] = 9
		add("epoch9", e9)
		for _, n := range []int{1, 5, 12, 13, 14} {
			add(fmt.Sprintf("short%d", n), v.gen[0].raw[:n])
		}
		add("cutgenuine", v.gen[0].raw[:len(v.gen[0].raw)-1])
		add("garbage", bytes.Repeat([]byte{0xa5}, 40))
	}
	return v
}

// play feeds items and checks what is delivered.
func (v *c08Env) play(items []c08Item, together bool) {
	c, e := v.c, v.s.e
	dtls := v.s.p.dtls
	var want []byte  // what may be delivered, in order
	next := 0        // the next genuine record
	broken := false  // something else was fed
	starving := true // and it may just look incomplete
	var after []byte // what was fed from the first foreign item on
	var errSeen error
	var got []byte
	drain := func() {
		buf := make([]byte, 700)
		for i := 0; i < 200; i++ {
			n, err := readDTLS(e, buf)
			got = append(got, buf[:n]...)
			if errSeen != nil && n > 0 {
				c.Fail("after-error", "%d bytes were delivered after the error %v", n, errSeen)
			}
			if err == mint.AlertWouldBlock {
				return
			}
			if err != nil {
				if errSeen == nil {
					errSeen = err
				}
				if i > 2 {
					return
				}
			}
		}
	}
	for _, it := range items {
		if it.gen == next && !broken {
			want = append(want, v.data[next]...)
			next++
		} else {
			broken = true
			after = append(after, it.raw...)
			if len(after) >= 5 {
				n := int(after[3])<<8 + int(after[4])
				starving = len(after) < 5+n
			}
		}
		e.W.feed(it.raw)
		if !together {
			drain()
		}
		if dtls {
			continue
		}
		if !bytes.HasPrefix(want, got) {
			c.Fail("delivered", "delivered %q, the intact prefix is %q", clip(string(got), 60), clip(string(want), 60))
		}
	}
	drain()
	if !bytes.Equal(want, got) {
		c.Fail("delivered", "delivered %d bytes %q, the intact prefix is %d bytes %q (error %v)", len(got), clip(string(got), 60), len(want), clip(string(want), 60), errSeen)
	}
	switch {
	case !broken && errSeen != nil:
		c.Fail("alarm", "error %v on an intact stream", errSeen)
	case broken && !starving && errSeen == nil:
		c.Fail("silent", "no error was reported")
	case broken && errSeen == io.EOF:
		c.Fail("eof", "the damage was reported as a clean end of the stream")
	}
	c.Outcome(fmt.Sprintf("prefix %d broken %v error %v", next, broken, errSeen))
}

// playDTLS: datagrams; genuine ones are delivered, nothing else is.
func (v *c08Env) playDTLS(items []c08Item) {
	c, e := v.c, v.s.e
	seen := map[int]bool{}
	ku := false
	ndel := 0
	for i, it := range items {
		e.W.feed(it.raw)
		var got []byte
		buf := make([]byte, 700)
		for {
			n, err := e.C.Read(buf)
			got = append(got, buf[:n]...)
			if err != nil && err != mint.AlertWouldBlock {
				c.Fail("error", "item %d (%s): Read failed with %v", i, it.name, err)
			}
			if err != nil && e.W.pending() == 0 {
				break
			}
		}
		if it.gen < 0 {
			if len(got) > 0 {
				c.Fail("delivered", "item %d (%s) delivered %q", i, it.name, clip(string(got), 60))
			}
			continue
		}
		d := v.data[it.gen]
		afterKU := false
		isKU := false
		for j, x := range v.gen[:it.gen+1] {
			_ = x
			if v.data[j] == nil && v.histAt(j) == 'U' {
				isKU = j == it.gen
				afterKU = afterKU || j < it.gen
			}
		}
		must := !seen[it.gen] && afterKU == ku
		if len(got) > 0 && !bytes.Equal(got, d) {
			c.Fail("delivered", "item %d (%s) delivered %q", i, it.name, clip(string(got), 60))
		}
		if must && len(got) == 0 && len(d) > 0 {
			c.Fail("lost", "genuine item %d (%s) was not delivered", i, it.name)
		}
		if afterKU && !ku && len(got) > 0 {
			c.Fail("delivered", "data of a later key generation was delivered early")
		}
		if isKU && !afterKU {
			ku = true
		}
		seen[it.gen] = true
		if len(got) > 0 {
			ndel++
		}
	}
	c.Outcome(fmt.Sprintf("%d of %d delivered", ndel, len(items)))
}

func (v *c08Env) histAt(j int) byte { return v.s.hist[j] }

func (v *c08Env) find(name string) c08Item {
	for _, it := range append(append([]c08Item{}, v.gen...), v.bad...) {
		if it.name == name {
			return it
		}
	}
	panic("no item " + name)
}

func c08Alter(raw []byte, how string, pos, val int) []byte {
	b := append([]byte{}, raw...)
	switch how {
	case "xor":
		b[pos] ^= byte(val)
	case "cut":
		b = b[:pos]
	case "cutfix", "grow": // the length field is adjusted
		if how == "cutfix" {
			b = b[:pos]
		} else {
			b = append(b, make([]byte, pos)...)
		}
		h := 5
		if val == 1 {
			h = 13
		}
		if len(b) >= h {
			n := len(b) - h
			b[h-2], b[h-1] = byte(n>>8), byte(n)
		}
	}
	return b
}

func init() {
	register("C08", "fault_enumeration", func(x *Ctx) {
		x.Rule("every single-byte alteration, truncation and extension of each record of short histories, and every sequence of up to k items from the genuine records and an attacker's stock (reflected, replayed, forged under other keys and generations, unprotected, short), fed to a real endpoint; compared with the intact-prefix model (TLS) or the set of genuine payloads (DTLS); distinct = distinct outcomes")
		x.Assume("AES-GCM: altered records that the reference implementation's AEAD refuses are refused by any correct AEAD")
		cs := &Cases{}
		for _, dtls := range []bool{false, true} {
			for _, isClient := range []bool{true, false} {
				for _, suite := range []uint16{0x1301, 0x1302} {
					hists := []string{"AAA", "AUA"}
					if isClient {
						hists = append(hists, "NA")
					}
					if x.Thorough() {
						hists = append(hists, "EAEA", "AAUUA", "UAUA")
					}
					for _, hist := range append(hists, "ALA") {
						pre := fmt.Sprintf("client=%v/dtls=%v/%04x/%s", isClient, dtls, suite, hist)
						// learn the stock's names and record lengths
						probe := &Case{}
						var names []string
						var lens []int
						recovered(func() {
							pv := newC08(probe, isClient, dtls, suite, hist)
							for _, it := range append(append([]c08Item{}, pv.gen...), pv.bad...) {
								names = append(names, it.name)
							}
							for _, it := range pv.gen {
								lens = append(lens, len(it.raw))
							}
						})
						if names == nil {
							cs.Add(pre+"/setup", func(c *Case) { newC08(c, isClient, dtls, suite, hist); c.Fail("setup", "setup failed once") })
							continue
						}
						alter := func(gi int, how string, pos, val int) {
							cs.Add(fmt.Sprintf("%s/alter/g%d/%s/%d/%02x", pre, gi, how, pos, val), func(c *Case) {
								v := newC08(c, isClient, dtls, suite, hist)
								v.s.hist = hist
								items := append([]c08Item{}, v.gen[:gi]...)
								items = append(items, c08Item{"altered", c08Alter(v.gen[gi].raw, how, pos, val), -1})
								items = append(items, v.gen[gi:]...)
								c.Count(0)
								if dtls {
									v.playDTLS(items)
								} else {
									v.play(items, pos%2 == 0)
								}
							})
						}
						dv := 0
						hl := 5
						if dtls {
							dv, hl = 1, 13
						}
						for gi, n := range lens {
							masks := []int{1, 0x80, 0xff}
							if n < 60 && (x.Thorough() || hist == "AAA" && suite == 0x1301) {
								masks = nil
								for m := 1; m < 256; m++ {
									masks = append(masks, m)
								}
							}
							if hist == "ALA" && !(gi == 1) {
								continue
							}
							for pos := 0; pos < n; pos++ {
								ms := masks
								if pos >= hl && len(ms) > 8 && !x.Thorough() {
									ms = []int{1, 2, 4, 8, 16, 32, 64, 128, 255}
								}
								for _, m := range ms {
									alter(gi, "xor", pos, m)
								}
								if n < 60 {
									if pos > 0 {
										alter(gi, "cut", pos, dv)
									}
									if pos > 0 {
										alter(gi, "cutfix", pos, dv)
									}
								}
							}
							for _, g := range []int{1, 2, 16, 255, 256} {
								alter(gi, "grow", g, dv)
							}
						}
						if hist == "ALA" {
							continue
						}
						k := x.Pick(2, 3)
						if hist == "AAA" && (suite == 0x1301 || x.Thorough()) {
							k = x.Pick(3, 4)
							if dtls && isClient {
								k = 3
							}
						}
						for _, together := range []bool{false, true} {
							if together && dtls {
								continue
							}
							var rec func(cur []string, left int, nbad int)
							rec = func(cur []string, left, nbad int) {
								if len(cur) > 0 {
									cur := append([]string{}, cur...)
									cs.Add(fmt.Sprintf("%s/seq/%v/%v", pre, together, cur), func(c *Case) {
										v := newC08(c, isClient, dtls, suite, hist)
										v.s.hist = hist
										var items []c08Item
										for _, n := range cur {
											items = append(items, v.find(n))
										}
										c.States(len(cur) + 1)
										c.Transitions(len(cur))
										if dtls {
											v.playDTLS(items)
										} else {
											v.play(items, together)
										}
									})
								}
								if left == 0 {
									return
								}
								for _, n := range names {
									nb := nbad
									if n[0] != 'g' || n == "garbage" {
										nb++
										if nb > 2 {
											continue
										}
									}
									rec(append(cur, n), left-1, nb)
								}
							}
							rec(nil, k, 0)
							// all orders and multiplicities of the genuine records alone
							var recG func(cur []string, left int)
							recG = func(cur []string, left int) {
								if len(cur) > k {
									cur := append([]string{}, cur...)
									cs.Add(fmt.Sprintf("%s/seq/%v/%v", pre, together, cur), func(c *Case) {
										v := newC08(c, isClient, dtls, suite, hist)
										v.s.hist = hist
										var items []c08Item
										for _, n := range cur {
											items = append(items, v.find(n))
										}
										if dtls {
											v.playDTLS(items)
										} else {
											v.play(items, together)
										}
									})
								}
								if left == 0 {
									return
								}
								for i := range hist {
									recG(append(cur, fmt.Sprintf("g%d", i)), left-1)
								}
							}
							recG(nil, x.Pick(4, 5))
						}
					}
				}
			}
		}
		c08Early(x, cs)
		x.Run(cs, 0)
	})
}

// c08Early: records of early data on their way to an accepting server.
func c08Early(x *Ctx, cs *Cases) {
	names := []string{"e0", "e1", "e2", "alt0", "alt1", "cut1", "clear", "hskey", "evil0", "fin"}
	var rec func(cur []string, left int)
	rec = func(cur []string, left int) {
		cur = append([]string{}, cur...)
		cs.Add(fmt.Sprintf("early/%v", cur), func(c *Case) { c08EarlyRun(c, cur) })
		if left == 0 {
			return
		}
		for _, n := range names {
			rec(append(cur, n), left-1)
		}
	}
	rec(nil, x.Pick(4, 5))
}

func c08EarlyRun(c *Case, seq []string) {
	cfg := serverCfg("p256")
	cfg.AllowEarlyData = true
	cfg.PSKs = &mint.PSKMapCache{hexOf([]byte("psk-id")): mintPSK(0x1301, []byte("psk-id"), thePSK, false)}
	e := NewEnd(cfg, false)
	p := newPuppet(true, e)
	o := defaultCH()
	o.Early = true
	o.PSKIDs, o.PSKKeys, o.PSKSuites, o.PSKRes = []pskID{{[]byte("psk-id"), 0}}, [][]byte{thePSK}, []uint16{0x1301}, []bool{false}
	p.SendCH(o)
	early := p.out
	data := [][]byte{[]byte("zero"), []byte("first"), []byte("second.")}
	items := map[string][]byte{}
	for i, d := range data {
		items[fmt.Sprintf("e%d", i)] = p.sealRecord(early, rtApp, d, i)
	}
	items["alt0"] = c08Alter(items["e0"], "xor", 7, 4)
	items["alt1"] = c08Alter(items["e1"], "xor", len(items["e1"])-1, 1)
	items["cut1"] = items["e1"][:9]
	items["clear"] = append([]byte{rtApp, 3, 3, 0, 4}, "EVIL"...)
	z := newHalf(p.suiteOr(0x1301), thePSK, 1)
	items["hskey"] = p.sealInner(z, 0, rtApp, 0x0303, append([]byte("EVIL"), rtApp))
	items["evil0"] = p.sealInner(z, 1, rtApp, 0x0303, append([]byte("EVIL"), rtApp))
	if r := e.Step(); r == hsFailed {
		c.Fail("handshake", "%v", e.Fail)
	}
	p.RecvSH()
	p.RecvServerFlight()
	if !p.earlyAccepted {
		c.Fail("handshake", "early data was not accepted")
	}
	eoed := p.sealRecord(early, rtHS, hsMsg(hEOED, nil), 0)
	p.T = append(p.T, hsMsg(hEOED, nil)...)
	p.setOut(newHalf(p.suite, p.cHS, 2))
	p.hold = true
	p.SendClientFin()
	fin := p.held
	p.hold, p.held = false, nil
	items["fin"] = fin // before its turn
	next, broken := 0, false
	var want, got []byte
	pump := func() {
		r := e.Step()
		_ = r
		b, _ := e.ReadAll(3)
		got = append(got, b...)
	}
	for _, n := range seq {
		if n == fmt.Sprintf("e%d", next) && !broken {
			want = append(want, data[next]...)
			next++
		} else {
			broken = true
		}
		e.W.feed(items[n])
		pump()
		if !bytes.HasPrefix(want, got) {
			c.Fail("delivered", "early data delivered %q, the intact prefix is %q", got, want)
		}
	}
	e.W.feed(eoed)
	pump()
	e.W.feed(fin)
	pump()
	if !bytes.Equal(got, want) {
		c.Fail("delivered", "early data delivered %q, the intact prefix is %q", got, want)
	}
	c.Outcome(fmt.Sprintf("early %d broken %v done %v", next, broken, e.Connected()))
	if done := e.Connected(); done != (!broken && next == len(data)) {
		c.Fail("completed", "handshake completed=%v (%v) with early records %v", done, e.Fail, seq)
	}
}
