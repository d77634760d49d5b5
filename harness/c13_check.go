package vharness

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"

	"github.com/bifurcation/mint"
)

// C13: a server that requires a cookie.

type c13Handler struct {
	gen      []byte
	genErr   error
	valid    bool
	gens     int
	seen     [][]byte
	onlyConn *mint.Conn
}

func (h *c13Handler) Generate(*mint.Conn) ([]byte, error) { h.gens++; return h.gen, h.genErr }
func (h *c13Handler) Validate(_ *mint.Conn, b []byte) bool {
	h.seen = append(h.seen, append([]byte{}, b...))
	return h.valid
}

type c13Env struct {
	dtls, fresh, psk bool
	handler          *c13Handler
	first, second    *End
	p                *Puppet
	o                chOpts
	cookie           []byte
}

func (v *c13Env) cfg() *mint.Config {
	cfg := serverCfg("p256")
	cfg.UseDTLS = v.dtls
	cfg.RequireCookie = true
	cfg.CookieProtector = fixedProtector()
	if v.handler != nil {
		cfg.CookieHandler = v.handler
	}
	if v.psk {
		cfg.PSKs = &mint.PSKMapCache{hexOf([]byte("psk-id")): mintPSK(0x1301, []byte("psk-id"), thePSK, false)}
	}
	return cfg
}

func (v *c13Env) opts() chOpts {
	o := defaultCH()
	if v.psk {
		o.PSKIDs = []pskID{{[]byte("psk-id"), 0}}
		o.PSKKeys = [][]byte{thePSK}
		o.PSKSuites = []uint16{0x1301}
		o.PSKRes = []bool{false}
	}
	return o
}

// hello sends a hello and reports what came back.
type c13Answer struct {
	step    hsResult
	retried bool
	cookie  []byte
	went    bool // the server answered with a real ServerHello
	alerts  int
}

func (a c13Answer) String() string {
	return fmt.Sprintf("%v retried=%v hello=%v alerts=%d", a.step, a.retried, a.went, a.alerts)
}

// peek looks at the server's answer without consuming the puppet's state.
func c13Answered(c *Case, e *End, p *Puppet) (a c13Answer) {
	a.step = e.Step()
	if e.Connected() && a.step != hsDone {
		c.Fail("state", "connected although Handshake says %v", a.step)
	}
	for _, b := range e.W.outs {
		for len(b) >= 5 {
			hl := 5
			if p.dtls {
				hl = 13
			}
			if p.dtls && b[0]&0xe0 == 0x20 || len(b) < hl {
				a.went = true // protected records: keys were agreed
				break
			}
			n := int(b[hl-2])<<8 | int(b[hl-1])
			if len(b) < hl+n {
				break
			}
			body := b[hl : hl+n]
			switch int(b[0]) {
			case rtHS:
				mh := 4
				if p.dtls {
					mh = 12
				}
				if len(body) > mh+34 && body[0] == hSH {
					if bytes.Equal(body[mh+2:mh+34], hrrRandom) {
						a.retried = true
					} else {
						a.went = true
					}
				}
			case rtAlert:
				a.alerts++
			case rtApp:
				a.went = true
			}
			b = b[hl+n:]
		}
	}
	return
}

// retry runs the exchange up to and including the server's retry.
func (v *c13Env) retry(c *Case) {
	v.first = NewEnd(v.cfg(), false)
	v.p = newPuppet(true, v.first)
	v.o = v.opts()
	v.p.SendCH(v.o)
	if a := c13Answered(c, v.first, v.p); !a.retried || a.went || a.step != hsBlocked {
		c.Fail("no-retry", "the first hello was answered with %v (%v)", a, v.first.Fail)
	}
	again, cookie := v.p.RecvSH()
	if !again || len(cookie) == 0 {
		c.Fail("no-cookie", "the retry carries no cookie")
	}
	if len(v.p.SH.Exts) != 2 {
		c.Fail("retry-extensions", "the retry carries %d extensions", len(v.p.SH.Exts))
	}
	v.cookie = cookie
	v.second = v.first
	if v.fresh {
		v.second = NewEnd(v.cfg(), false)
		v.p.W = v.second.W
	}
	v.o.Cookie = cookie
}

func (v *c13Env) complete(c *Case, tag string) {
	p, e := v.p, v.second
	if again, _ := p.RecvSH(); again {
		c.Fail("retried-again", "a second retry")
	}
	if v.psk != p.SH.Exts.has(xPSK) {
		c.Fail("result", "pre-shared key used: %v, want %v", p.SH.Exts.has(xPSK), v.psk)
	}
	p.RecvServerFlight()
	p.SendClientFlight(nil)
	if !finishClient(c, e, p) {
		c.Fail("handshake", "the server does not complete: %v", e.Fail)
	}
	dataBothWays(c, e, p, tag)
	if st := e.C.ConnectionState(); st.UsingPSK != v.psk {
		c.Fail("result", "ConnectionState says PSK=%v", st.UsingPSK)
	}
}

// c13Altered calls f for every wrong cookie derived from the right one.
func c13Altered(good []byte, full bool, f func(name string, cookie []byte)) {
	step := 1
	for i := 0; i < len(good); i += step {
		for b := 0; b < 8; b++ {
			if !full && b != i%8 {
				continue
			}
			x := append([]byte{}, good...)
			x[i] ^= 1 << uint(b)
			f(fmt.Sprintf("flip%d.%d", i, b), x)
		}
		f(fmt.Sprintf("cut%d", i), good[:i])
		if full {
			f(fmt.Sprintf("drop%d", i), append(append([]byte{}, good[:i]...), good[i+1:]...))
			f(fmt.Sprintf("ins%d", i), append(append(append([]byte{}, good[:i]...), 0), good[i:]...))
		}
	}
	f("ext00", append(append([]byte{}, good...), 0))
	f("twice", append(append([]byte{}, good...), good...))
	f("head", append([]byte{0}, good...))
}

func c13Hostile(x *Ctx, cs *Cases) {
	type second struct {
		name string
		f    func(c *Case, v *c13Env, o *chOpts) // prepares the second hello
	}
	for _, dtls := range []bool{false, true} {
		for _, fresh := range []bool{false, true} {
			if dtls && fresh {
				continue
			}
			for _, psk := range []bool{false, true} {
				dtls, fresh, psk := dtls, fresh, psk
				pre := fmt.Sprintf("hello/dtls=%v/fresh=%v/psk=%v/", dtls, fresh, psk)
				mk := func() *c13Env { return &c13Env{dtls: dtls, fresh: fresh, psk: psk} }
				cs.Add(pre+"right", func(c *Case) {
					v := mk()
					v.retry(c)
					v.p.SendCH(v.o)
					a := c13Answered(c, v.second, v.p)
					if !a.went {
						c.Fail("refused", "the right cookie was answered with %v (%v)", a, v.second.Fail)
					}
					v.complete(c, "x")
					c.Traces(1)
				})
				refuse := func(name string, prep func(c *Case, v *c13Env)) {
					cs.Add(pre+name, func(c *Case) {
						v := mk()
						v.retry(c)
						prep(c, v)
						v.p.SendCH(v.o)
						a := c13Answered(c, v.second, v.p)
						c.Outcome(a.String())
						if a.went || a.step == hsDone {
							c.Fail("passed", "a hello with the wrong cookie was answered with %v", a)
						}
						// Whatever follows, the server must not be led on.
						if a.step == hsFailed {
							v.p.SendCH(chOpts{Suites: v.o.Suites, Groups: v.o.Groups, Shares: v.o.Shares, Schemes: v.o.Schemes, SNI: v.o.SNI, Cookie: v.cookie})
							if b := c13Answered(c, v.second, v.p); b.went || b.step == hsDone {
								c.Fail("passed-later", "after a refusal a further hello was answered with %v", b)
							}
						}
						c.Traces(1)
					})
				}
				refuse("absent", func(c *Case, v *c13Env) { v.o.Cookie = nil })
				refuse("empty", func(c *Case, v *c13Env) { v.o.Cookie = []byte{} })
				for _, m := range []struct {
					n string
					d func(ck []byte) []byte
				}{
					{"noprefix", func(ck []byte) []byte { return ck }},
					{"short", func(ck []byte) []byte { w := &buf{}; w.u16(len(ck) + 1); w.raw(ck); return w.b }},
					{"long", func(ck []byte) []byte { w := &buf{}; w.v16(ck); w.u8(0); return w.b }},
					{"none", func(ck []byte) []byte { return []byte{} }},
				} {
					m := m
					refuse("malformed-"+m.n, func(c *Case, v *c13Env) {
						ck := v.cookie
						v.o.mut = func(ch *CHello) { ch.Exts.set(xCookie, m.d(ck)) }
					})
				}
				refuse("twice-ext", func(c *Case, v *c13Env) {
					v.o.mut = func(ch *CHello) { ch.Exts = append(Exts{{xCookie, ch.Exts.get(xCookie)}}, ch.Exts...) }
				})
				for _, n := range []int{1, 16, 32, 33, 47, 48, 49, 100, 1000, 40000} {
					n := n
					if dtls && n > 1000 {
						continue
					}
					refuse(fmt.Sprintf("zeros%d", n), func(c *Case, v *c13Env) { v.o.Cookie = make([]byte, n) })
				}
				refuse("other-server", func(c *Case, v *c13Env) {
					// a token of a different key over the same plaintext
					plain, err := fixedProtector().DecodeToken(v.cookie)
					if err != nil {
						c.Fail("decode", "%v", err)
					}
					v.o.Cookie, _ = newProtector().NewToken(plain)
				})
				// every alteration of the token (the length is fixed)
				probe := mk()
				probe.retry(&Case{Ctx: x, Name: "probe"})
				c13Altered(probe.cookie, x.Thorough(), func(name string, _ []byte) {
					refuse(name, func(c *Case, v *c13Env) {
						done := false
						c13Altered(v.cookie, x.Thorough(), func(n string, ck []byte) {
							if n == name {
								v.o.Cookie = ck
								done = true
							}
						})
						if !done {
							c.Fail("harness", "no alteration %s", name)
						}
					})
				})

				// authentic cookies used where they do not belong: the server may
				// answer, but it must never complete.
				never := func(name string, f func(c *Case, v *c13Env) (complete func())) {
					cs.Add(pre+name, func(c *Case) {
						v := mk()
						v.retry(c)
						finish := f(c, v)
						a := c13Answered(c, v.second, v.p)
						if a.step == hsDone {
							c.Fail("passed", "%v", a)
						}
						if a.went && finish != nil {
							func() {
								defer func() {
									if r := recover(); r != nil {
										if _, ok := r.(peerError); !ok {
											panic(r)
										}
									}
								}()
								finish()
							}()
							if v.second.Step() == hsDone || v.second.Connected() {
								c.Fail("completed", "the handshake completed with a cookie of another hello")
							}
						}
						c.Outcome("foreign " + a.String())
						c.Traces(1)
					})
				}
				never("cookie-of-other-hello", func(c *Case, v *c13Env) func() {
					w := mk()
					w.retry(c)
					v.o.Cookie = w.cookie
					v.p.SendCH(v.o)
					return func() {
						v.p.RecvSH()
						v.p.RecvServerFlight()
						v.p.SendClientFlight(nil)
					}
				})
				never("cookie-of-other-hello/blind", func(c *Case, v *c13Env) func() {
					w := mk()
					w.retry(c)
					v.o.Cookie = w.cookie
					v.p.SendCH(v.o)
					return func() {
						// go on without checking what the server says
						v.p.RecvSH()
						v.p.Drain()
						v.p.SendClientFlight(nil)
					}
				})
				if !psk {
					never("other-suite", func(c *Case, v *c13Env) func() {
						v.o.Suites = []uint16{0x1302}
						v.p.SendCH(v.o)
						return func() { c.Fail("suite", "a different suite was selected after the retry") }
					})
					never("other-suite-1303", func(c *Case, v *c13Env) func() {
						v.o.Suites = []uint16{0x1303}
						v.p.SendCH(v.o)
						return func() { c.Fail("suite", "a different suite was selected after the retry") }
					})
				}
			}
		}
	}
	// a token that authenticates but does not hold a cookie
	for _, n := range []int{0, 1, 2, 3, 4, 35, 36, 37, 38, 39, 100} {
		for _, fill := range []byte{0, 1, 0x13, 0xff} {
			n, fill := n, fill
			cs.Add(fmt.Sprintf("hello/sealed-junk/%d/%02x", n, fill), func(c *Case) {
				v := &c13Env{}
				v.retry(c)
				v.o.Cookie, _ = fixedProtector().NewToken(bytes.Repeat([]byte{fill}, n))
				v.p.SendCH(v.o)
				a := c13Answered(c, v.second, v.p)
				if a.step == hsDone {
					c.Fail("passed", "%v", a)
				}
				if a.went {
					func() {
						defer func() {
							if r := recover(); r != nil {
								if _, ok := r.(peerError); !ok {
									panic(r)
								}
							}
						}()
						v.p.RecvSH()
						v.p.Drain()
						v.p.SendClientFlight(nil)
					}()
					if v.second.Step() == hsDone {
						c.Fail("completed", "the handshake completed with a meaningless cookie")
					}
				}
			})
		}
	}
}

// c13App explores the application's cookie handler.
func c13App(x *Ctx, cs *Cases) {
	datas := [][]byte{nil, {}, {0}, []byte("app"), bytes.Repeat([]byte{7}, 255), bytes.Repeat([]byte{8}, 300)}
	for _, dtls := range []bool{false, true} {
		for _, fresh := range []bool{false, true} {
			for _, psk := range []bool{false, true} {
				for di, d := range datas {
					for _, valid := range []bool{false, true} {
						for _, gerr := range []bool{false, true} {
							for _, echo := range []string{"right", "absent", "altered", "foreign-app"} {
								dtls, fresh, psk, d, valid, gerr, echo := dtls, fresh, psk, d, valid, gerr, echo
								if dtls && fresh {
									continue
								}
								cs.Add(fmt.Sprintf("app/dtls=%v/fresh=%v/psk=%v/data%d/valid=%v/err=%v/%s", dtls, fresh, psk, di, valid, gerr, echo), func(c *Case) {
									h := &c13Handler{gen: d, valid: valid}
									if gerr {
										h.genErr = errors.New("no")
									}
									v := &c13Env{dtls: dtls, fresh: fresh, psk: psk, handler: h}
									if gerr || d == nil {
										v.first = NewEnd(v.cfg(), false)
										v.second = v.first
										v.p = newPuppet(true, v.first)
										v.p.SendCH(v.opts())
										a := c13Answered(c, v.first, v.p)
										c.Outcome(a.String())
										if gerr {
											if a.went || a.retried || a.step != hsFailed {
												c.Fail("generate-error", "Generate failed, the server answered %v", a)
											}
											return
										}
										if a.retried || !a.went {
											c.Fail("no-cookie-wanted", "the application wanted no cookie, the server answered %v", a)
										}
										v.complete(c, "n")
										if len(h.seen) != 0 {
											c.Fail("validate", "Validate was called without a cookie")
										}
										return
									}
									v.retry(c)
									if h.gens != 1 || len(h.seen) != 0 {
										c.Fail("calls", "Generate was called %d times, Validate %d", h.gens, len(h.seen))
									}
									switch echo {
									case "absent":
										v.o.Cookie = nil
									case "altered":
										v.o.Cookie = append([]byte{}, v.o.Cookie...)
										v.o.Cookie[len(v.o.Cookie)-1] ^= 1
									case "foreign-app":
										plain, _ := fixedProtector().DecodeToken(v.cookie)
										v.o.Cookie, _ = newProtector().NewToken(plain)
									}
									v.p.SendCH(v.o)
									a := c13Answered(c, v.second, v.p)
									c.Outcome(a.String())
									if echo != "right" || !valid {
										if a.went {
											c.Fail("passed", "%v", a)
										}
										if echo != "right" && len(h.seen) > 0 {
											c.Fail("validate", "Validate was called on a cookie that is not authentic")
										}
										return
									}
									if len(h.seen) < 1 {
										c.Fail("validate", "the application was not asked")
									}
									for _, s := range h.seen {
										if !bytes.Equal(s, d) {
											c.Fail("validate", "Validate got %x, Generate returned %x", s, d)
										}
									}
									if !a.went {
										c.Fail("refused", "%v (%v)", a, v.second.Fail)
									}
									v.complete(c, "a")
									c.Traces(1)
								})
							}
						}
					}
				}
			}
		}
	}
}

type c13Result struct {
	suite      mint.CipherSuite
	proto      string
	psk, early bool
	peers      string
	cs, ss     mint.State
}

// c13Pair runs two real ends, with or without the cookie.
func c13Pair(c *Case, v variant, mode string, cookie bool) (r c13Result) {
	cc, sc := v.cfgs()
	sc.RequireCookie = cookie
	if cookie {
		sc.CookieProtector = fixedProtector()
	}
	if mode == "blocking" {
		cc.NonBlocking, sc.NonBlocking = false, false
		sc.CookieProtector = nil
	}
	p := NewPair(cc, sc)
	d := &driven{p: p, early: v.early}
	if mode == "blocking" {
		done := make(chan string, 2)
		a, b := newPipePair(v.dtls)
		p.C = &End{C: mint.NewConn(a, cc, true), W: &Wire{}, Cfg: cc, IsClient: true}
		p.S = &End{C: mint.NewConn(b, sc, false), W: &Wire{}, Cfg: sc}
		go func() {
			al := p.S.C.Handshake()
			msg := ""
			if al != mint.AlertNoAlert {
				msg = fmt.Sprintf("server: %v", al)
			}
			done <- msg
		}()
		go func() {
			al := p.C.C.Handshake()
			msg := ""
			if al != mint.AlertNoAlert {
				msg = fmt.Sprintf("client: %v", al)
			}
			done <- msg
		}()
		for i := 0; i < 2; i++ {
			if m := <-done; m != "" {
				a.Close()
				b.Close()
				c.Fail("handshake", "cookie=%v: %s", cookie, m)
			}
		}
		defer a.Close()
		defer b.Close()
		if err := d.agree(v); err != nil {
			c.Fail("agree", "cookie=%v: %v", cookie, err)
		}
		st, ss := p.C.C.ConnectionState(), p.S.C.ConnectionState()
		return c13Result{suite: st.CipherSuite.Suite, proto: st.NextProto, psk: st.UsingPSK, early: st.UsingEarlyData, peers: fmt.Sprint(len(st.PeerCertificates), len(ss.PeerCertificates)), cs: st.HandshakeState, ss: ss.HandshakeState}
	}
	wrote := false
	swapped := false
	for i := 0; i < 60; i++ {
		if d.c == hsBlocked {
			d.c = p.C.Step()
		}
		if d.early && !wrote {
			wrote = true
			p.C.C.Write(earlyMsg)
		}
		m := d.shuttle()
		if d.s == hsBlocked {
			d.s = p.S.Step()
			if mode == "fresh" && p.S.Retries > 0 && !swapped {
				swapped = true
				out := p.S.W.take()
				p.S = NewEnd(sc, false)
				p.S.W.outs = out
				m = true
			}
		}
		if !d.shuttle() && !m {
			break
		}
	}
	if d.c != hsDone || d.s != hsDone {
		c.Fail("handshake", "cookie=%v: client %v (%v), server %v (%v)", cookie, d.c, p.C.Fail, d.s, p.S.Fail)
	}
	if cookie != (p.S.Retries > 0 || swapped) {
		c.Fail("retries", "cookie=%v, retried: %v", cookie, p.S.Retries)
	}
	if err := d.agree(v); err != nil {
		c.Fail("agree", "cookie=%v: %v", cookie, err)
	}
	st, ss := p.C.C.ConnectionState(), p.S.C.ConnectionState()
	r = c13Result{suite: st.CipherSuite.Suite, proto: st.NextProto, psk: st.UsingPSK, early: st.UsingEarlyData, peers: fmt.Sprint(len(st.PeerCertificates), len(ss.PeerCertificates)), cs: st.HandshakeState, ss: ss.HandshakeState}
	var early []byte
	if st.UsingEarlyData {
		early = earlyMsg
	}
	if err := d.echo(early); err != nil {
		c.Fail("data", "cookie=%v: %v", cookie, err)
	}
	c.Traces(1)
	return
}

func c13Real(x *Ctx, cs *Cases) {
	for _, dtls := range []bool{false, true} {
		for _, v := range hsVariants(dtls) {
			if v.cookie {
				continue
			}
			for _, suite := range []uint16{0, 0x1302} {
				if suite != 0 && v.suite != 0 {
					continue
				}
				for _, mode := range []string{"same", "fresh", "blocking"} {
					v, mode := v, mode
					if v.suite == 0 {
						v.suite = suite
					}
					if mode == "fresh" && dtls || mode == "blocking" && v.early {
						continue
					}
					cs.Add(fmt.Sprintf("pair/%s/%04x/%s", v.name, suite, mode), func(c *Case) {
						a := c13Pair(c, v, mode, false)
						b := c13Pair(c, v, mode, true)
						// early data may not be used after a retry
						if b.early {
							c.Fail("early", "early data was accepted together with a retry")
						}
						a.early = false
						if a != b {
							c.Fail("differs", "without retry %+v, with %+v", a, b)
						}
					})
				}
			}
		}
	}
	// resumption with a real ticket across a retry
	for _, dtls := range []bool{false, true} {
		for _, c1 := range []bool{false, true} {
			for _, c2 := range []bool{false, true} {
				for _, early := range []bool{false, true} {
					dtls, c1, c2, early := dtls, c1, c2, early
					if dtls && early {
						continue
					}
					cs.Add(fmt.Sprintf("resume/dtls=%v/%v/%v/early=%v", dtls, c1, c2, early), func(c *Case) {
						cp, sp := &mint.PSKMapCache{}, &mint.PSKMapCache{}
						run := func(cookie, second bool) {
							v := variant{dtls: dtls, ticket: true, cookie: cookie}
							cc, sc := v.cfgs()
							cc.PSKs, sc.PSKs = cp, sp
							sc.AllowEarlyData, sc.EarlyDataLifetime = early, 100
							if second {
								cc.AllowEarlyData = early
							}
							d := &driven{p: NewPair(cc, sc), early: early && second}
							d.run()
							if d.c != hsDone || d.s != hsDone {
								c.Fail("handshake", "second=%v: client %v (%v), server %v (%v)", second, d.c, d.p.C.Fail, d.s, d.p.S.Fail)
							}
							if err := d.agree(v); err != nil {
								c.Fail("agree", "%v", err)
							}
							st := d.p.C.C.ConnectionState()
							if st.UsingPSK != second {
								c.Fail("resumption", "second=%v, resumed: %v", second, st.UsingPSK)
							}
							var e []byte
							if st.UsingEarlyData {
								if cookie {
									c.Fail("early", "early data after a retry")
								}
								e = earlyMsg
							}
							if err := d.echo(e); err != nil {
								c.Fail("data", "%v", err)
							}
						}
						run(c1, false)
						run(c2, true)
						c.Traces(2)
					})
				}
			}
		}
	}
}

func c13Tokens(x *Ctx, cs *Cases) {
	for _, n := range []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1000, 5000, 65535} {
		n := n
		cs.Add(fmt.Sprintf("token/%d", n), func(c *Case) {
			p, q := newProtector(), newProtector()
			data := make([]byte, n)
			for i := range data {
				data[i] = byte(i * 7)
			}
			orig := append([]byte{}, data...)
			t, err := p.NewToken(data)
			if err != nil {
				c.Fail("encode", "%v", err)
			}
			u, _ := p.NewToken(data)
			if bytes.Equal(t, u) || bytes.Equal(t[:32], u[:32]) {
				c.Fail("fresh", "two tokens repeat %x", t[:32])
			}
			if n > 3 && bytes.Contains(t, data) {
				c.Fail("clear", "the token shows its content")
			}
			check := func(pr mint.CookieProtector, name string, tok []byte, ok bool) {
				c.Count(1)
				keep := append([]byte{}, tok...)
				got, err := pr.DecodeToken(tok)
				if !bytes.Equal(keep, tok) {
					c.Fail("input", "%s: DecodeToken changed its input", name)
				}
				if ok && (err != nil || !bytes.Equal(got, orig)) {
					c.Fail("decode", "%s: %x, %v", name, got, err)
				}
				if !ok && (err == nil || len(got) > 0) {
					c.Fail("accepted", "%s: a wrong token decodes to %x (%v)", name, got, err)
				}
			}
			check(p, "right", t, true)
			check(p, "right-again", t, true)
			check(p, "other", u, true)
			check(q, "foreign", t, false)
			for i := 0; i <= 32 && i < len(t); i++ {
				check(p, fmt.Sprintf("cut%d", i), t[:i], false)
			}
			lim := len(t)
			if !x.Thorough() && lim > 400 {
				lim = 400
			}
			for i := 0; i < lim; i++ {
				for b := 0; b < 8; b++ {
					y := append([]byte{}, t...)
					y[i] ^= 1 << uint(b)
					check(p, fmt.Sprintf("flip%d.%d", i, b), y, false)
				}
				check(p, fmt.Sprintf("cut%d", i), t[:i], false)
				check(p, fmt.Sprintf("cuttail%d", i), t[:len(t)-1-i%len(t)], false)
				check(p, fmt.Sprintf("head%d", i), t[i+1:], false)
				// nonce of one token, ciphertext of another
				if i > 0 && i <= 32 {
					y := append(append([]byte{}, u[:i]...), t[i:]...)
					check(p, fmt.Sprintf("mix%d", i), y, false)
				}
			}
			check(p, "ext", append(append([]byte{}, t...), 0), false)
			check(p, "double", append(append([]byte{}, t...), t...), false)
			check(p, "nil", nil, false)
			check(p, "zeros", make([]byte, len(t)), false)
			if !bytes.Equal(orig, data) {
				c.Fail("input", "NewToken changed its input")
			}
		})
	}
	cs.Add("token/history", func(c *Case) {
		p := newProtector()
		seen := map[string]bool{}
		var toks [][]byte
		for i := 0; i < 300; i++ {
			t, err := p.NewToken([]byte(fmt.Sprint("data", i)))
			if err != nil {
				c.Fail("encode", "%v", err)
			}
			if seen[hex.EncodeToString(t[:32])] {
				c.Fail("fresh", "a nonce repeats")
			}
			seen[hex.EncodeToString(t[:32])] = true
			toks = append(toks, t)
		}
		for i, t := range toks {
			got, err := p.DecodeToken(t)
			if err != nil || string(got) != fmt.Sprint("data", i) {
				c.Fail("decode", "token %d: %q %v", i, got, err)
			}
			c.Count(1)
		}
	})
}

// c13First: a cookie in the first hello on a server that never retried it.
func c13First(x *Ctx, cs *Cases) {
	for _, dtls := range []bool{false, true} {
		for _, kind := range []string{"foreign", "junk", "none", "other-hello"} {
			dtls, kind := dtls, kind
			cs.Add(fmt.Sprintf("first/dtls=%v/%s", dtls, kind), func(c *Case) {
				v := &c13Env{dtls: dtls}
				o := v.opts()
				switch kind {
				case "foreign":
					o.Cookie, _ = newProtector().NewToken(make([]byte, 38))
				case "junk":
					o.Cookie = []byte("cookie")
				case "other-hello":
					w := &c13Env{dtls: dtls}
					w.retry(c)
					o.Cookie = w.cookie
				}
				e := NewEnd(v.cfg(), false)
				p := newPuppet(true, e)
				p.SendCH(o)
				a := c13Answered(c, e, p)
				c.Outcome("first " + a.String())
				if a.step == hsDone || a.went && kind != "other-hello" {
					c.Fail("passed", "%v", a)
				}
				if a.went {
					func() {
						defer func() {
							if r := recover(); r != nil {
								if _, ok := r.(peerError); !ok {
									panic(r)
								}
							}
						}()
						p.RecvSH()
						p.Drain()
						p.SendClientFlight(nil)
					}()
					if e.Step() == hsDone {
						c.Fail("completed", "with a cookie of another hello")
					}
				}
			})
		}
	}
}

func init() {
	register("C13", "model_checking", func(x *Ctx) {
		x.Rule("second hellos with the right, no, malformed, every altered (each bit, truncation, extension), foreign-key and misplaced cookie x TLS/DTLS x same/fresh server connection x PSK; every combination of the application handler's answers; all handshake variants with and without retry; every single alteration of cookie tokens of boundary lengths")
		x.Assume("a truly fresh server connection for the second hello is explored over TLS only")
		cs := &Cases{}
		c13Hostile(x, cs)
		c13App(x, cs)
		c13First(x, cs)
		c13Real(x, cs)
		c13Tokens(x, cs)
		x.Run(cs, 0)
	})
}
