package vharness

import (
	"bytes"
	"crypto/x509"
	"fmt"
	"sync"

	"github.com/bifurcation/mint"
)

// C17: DTLS reassembly.  The reference peer cuts its messages into fragments
// and delivers them in every order; after every fragment the real end must be
// in the state that follows from the messages that are complete.

type c17Frag struct {
	msg, off, n int
	mut         string // a change that makes the fragment inconsistent
}

func (f c17Frag) String() string {
	return fmt.Sprintf("%d[%d+%d]%s", f.msg, f.off, f.n, f.mut)
}

// c17Flight is a flight of the peer that is under test.
type c17Flight struct {
	name  string
	start func(c *Case) (e *End, p *Puppet)                        // up to the flight
	send  func(p *Puppet)                                          // the flight (captured)
	after func(c *Case, e *End, p *Puppet)                         // the rest and the verification
	state func(e *End) interface{}                                 // what the messages are observed by
	pump  func(e *End) bool                                        // drives the end; false: it failed
	ready func(p *Puppet, done int, f c17Frag, caps []capMsg) bool // whether the end has keys for it
}

func c17Pump(e *End) bool {
	for i := 0; i < 500; i++ {
		before := e.W.pending()
		if e.Step() == hsFailed {
			return false
		}
		if n := e.W.pending(); n == 0 || n == before {
			break
		}
	}
	return true
}

func c17State(e *End) interface{} { return e.C.ConnectionState().HandshakeState }

// c17Clear: the first message of the flight is the hello that brings the keys.
func c17Keyed(p *Puppet, done int, f c17Frag, caps []capMsg) bool {
	return caps[f.msg].h == nil || done > 0 || caps[0].h != nil
}

func c17Flights() []c17Flight {
	client := func(cr, retry bool) c17Flight {
		return c17Flight{
			start: func(c *Case) (*End, *Puppet) {
				cfg := clientCfg()
				cfg.UseDTLS = true
				if cr {
					cfg.Certificates = mintCerts("client")
				}
				e := NewEnd(cfg, true)
				p := newPuppet(false, e)
				e.Step()
				p.RecvCH()
				if retry {
					p.SendHRR(0x1301, hrrExts([]byte("cookie")))
					e.Step()
					p.RecvCH()
				}
				return e, p
			},
			send: func(p *Puppet) {
				p.SendSH(p.DefaultSH(0x1301, gX25519, false), gX25519)
				p.SendEE(nil)
				if cr {
					p.SendCR([]uint16{0x0403})
				}
				p.sendAuth(defaultAuth("p256"))
			},
			after: func(c *Case, e *End, p *Puppet) {
				p.RecvClientFlight()
				dataBothWays(c, e, p, "x")
			},
			state: c17State, pump: c17Pump, ready: c17Keyed,
		}
	}
	server := func(cr, retry bool) c17Flight {
		return c17Flight{
			start: func(c *Case) (*End, *Puppet) {
				cfg := serverCfg("p256")
				cfg.UseDTLS = true
				cfg.RequireClientAuth = cr
				cfg.RequireCookie = retry
				cfg.CookieProtector = fixedProtector()
				e := NewEnd(cfg, false)
				p := newPuppet(true, e)
				o := defaultCH()
				p.SendCH(o)
				e.Step()
				if retry {
					_, o.Cookie = p.RecvSH()
					p.SendCH(o)
					e.Step()
				}
				p.RecvSH()
				p.RecvServerFlight()
				return e, p
			},
			send: func(p *Puppet) {
				if cr {
					p.SendClientFlight(id("client"))
				} else {
					p.SendClientFlight(nil)
				}
			},
			after: func(c *Case, e *End, p *Puppet) {
				p.Drain()
				dataBothWays(c, e, p, "x")
			},
			state: c17State, pump: c17Pump, ready: c17Keyed,
		}
	}
	hello := func(second bool) c17Flight {
		return c17Flight{
			start: func(c *Case) (*End, *Puppet) {
				cfg := serverCfg("p256")
				cfg.UseDTLS = true
				cfg.RequireCookie = second
				cfg.CookieProtector = fixedProtector()
				e := NewEnd(cfg, false)
				p := newPuppet(true, e)
				e.Step() // leaves the initial state
				if second {
					p.SendCH(defaultCH())
					e.Step()
					_, p.cookie = p.RecvSH()
				}
				return e, p
			},
			send: func(p *Puppet) {
				o := defaultCH()
				o.Cookie = p.cookie
				p.SendCH(o)
			},
			after: func(c *Case, e *End, p *Puppet) {
				p.RecvSH()
				p.RecvServerFlight()
				p.SendClientFlight(nil)
				if !c17Pump(e) || !e.Connected() {
					c.Fail("handshake", "failed afterwards: %v", e.Fail)
				}
				p.Drain()
				dataBothWays(c, e, p, "x")
			},
			state: c17State, pump: c17Pump, ready: c17Keyed,
		}
	}
	post := func() c17Flight {
		return c17Flight{
			start: func(c *Case) (*End, *Puppet) {
				cfg := clientCfg()
				cfg.UseDTLS = true
				cfg.PSKs = &c17Cache{}
				e := NewEnd(cfg, true)
				p := newPuppet(false, e)
				e.Step()
				p.RecvCH()
				p.SendSH(p.DefaultSH(0x1301, gX25519, false), gX25519)
				p.SendEE(nil)
				p.sendAuth(defaultAuth("p256"))
				if !c17Pump(e) || !e.Connected() {
					c.Fail("handshake", "%v", e.Fail)
				}
				p.RecvClientFlight()
				return e, p
			},
			send: func(p *Puppet) {
				for i := 0; i < 2; i++ {
					p.SendNST(&ticket{Lifetime: 100, AgeAdd: uint32(i), Nonce: []byte{byte(i)}, Ticket: []byte(fmt.Sprint("ticket number ", i))})
				}
				p.SendKU(0)
			},
			after: func(c *Case, e *End, p *Puppet) { dataBothWays(c, e, p, "x") },
			state: func(e *End) interface{} {
				// observed in full: which tickets arrived, in which order
				s := ""
				for _, t := range e.Cfg.PSKs.(*c17Cache).puts {
					s += fmt.Sprintf("%s/%x;", t.Identity, t.Key)
				}
				return s
			},
			pump: func(e *End) bool {
				got, err := e.ReadAll(100)
				return len(got) == 0 && err == nil
			},
			ready: func(p *Puppet, done int, f c17Frag, caps []capMsg) bool { return done < len(caps) },
		}
	}
	named := func(n string, f c17Flight) c17Flight { f.name = n; return f }
	return []c17Flight{
		named("hello", hello(false)), named("hello2", hello(true)),
		named("server", client(false, false)), named("server-retry", client(false, true)), named("server-cr", client(true, false)),
		named("client", server(false, false)), named("client-cr", server(true, false)), named("client-retry", server(true, true)),
		named("post", post()),
	}
}

type c17Cache struct{ puts []mint.PreSharedKey }

func (k *c17Cache) Get(string) (mint.PreSharedKey, bool) { return mint.PreSharedKey{}, false }
func (k *c17Cache) Put(_ string, p mint.PreSharedKey)    { k.puts = append(k.puts, p) }
func (k *c17Cache) Size() int                            { return len(k.puts) }

// c17Bytes builds a fragment.
func c17Bytes(m capMsg, f c17Frag) []byte {
	t := int(m.raw[0])
	total := int(m.raw[1])<<16 | int(m.raw[2])<<8 | int(m.raw[3])
	seq := int(m.raw[4])<<8 | int(m.raw[5])
	body := m.raw[12:]
	off, n := f.off, f.n
	data := body[off : off+n]
	switch f.mut {
	case "":
	case "total+1":
		total++
	case "total-1":
		total--
	case "total0":
		total = 0
	case "total-huge":
		total = 0xffffff
	case "type":
		t ^= 1
	case "seq+1":
		seq++
	case "seq+2":
		seq += 2
	case "seq+100":
		seq += 100
	case "seq-max":
		seq = 65535
	case "off+1":
		off++
	case "off-huge":
		off = 0xffffff
	case "off=total":
		off = total
	case "altered":
		data = append([]byte{}, data...)
		for i := range data {
			data[i] ^= 0x20
		}
	case "longer":
		data = append(append([]byte{}, data...), 1, 2, 3)
	case "fraglen+1", "fraglen-huge", "short-header", "trailing":
		b := hsFrag(t, total, seq, off, data)
		switch f.mut {
		case "fraglen+1":
			b[11]++
		case "fraglen-huge":
			b[9] = 0xff
		case "short-header":
			b = b[:7]
		case "trailing":
			b = append(b, 1, 2, 3)
		}
		return b
	default:
		panic(f.mut)
	}
	return hsFrag(t, total, seq, off, data)
}

var c17Muts = []string{"total+1", "total-1", "total0", "total-huge", "type", "seq+1", "seq+2", "seq+100", "seq-max", "off+1", "off-huge", "off=total", "altered", "longer", "fraglen+1", "fraglen-huge", "short-header", "trailing"}

func (p *Puppet) sendFrags(h *Half, frags ...[]byte) {
	p.emit(p.sealRecord(h, rtHS, bytes.Join(frags, nil), 0))
}

// c17Order gives the message lengths of a flight and the states it passes.
func c17Probe(c *Case, fl c17Flight) (lens []int, states []interface{}) {
	e, p := fl.start(c)
	p.capture = true
	fl.send(p)
	p.capture = false
	states = append(states, fl.state(e))
	for i, m := range p.caps {
		lens = append(lens, len(m.raw)-12)
		p.sendFrags(m.h, m.raw)
		if !fl.pump(e) {
			c.Fail("handshake", "message %d of an unfragmented flight fails: %v", i, e.Fail)
		}
		states = append(states, fl.state(e))
	}
	fl.after(c, e, p)
	return
}

// c17States are the states that the flights pass.
var c17States sync.Map

// c17Run delivers fragments; those in one group share a record.
func c17Run(c *Case, fl c17Flight, groups func(lens []int) [][]c17Frag) {
	e, p := fl.start(c)
	p.capture = true
	fl.send(p)
	p.capture = false
	caps := p.caps
	lens := make([]int, len(caps))
	have := make([][]bool, len(caps))
	for i, m := range caps {
		lens[i] = len(m.raw) - 12
		have[i] = make([]bool, lens[i])
	}
	zero := make([]bool, len(caps)) // an empty message was delivered
	// the states are those of the same flight delivered whole
	var states []interface{}
	if fl.name != "post" {
		v, ok := c17States.Load(fl.name)
		if !ok {
			_, s := c17Probe(c, fl)
			v, _ = c17States.LoadOrStore(fl.name, s)
		}
		states = v.([]interface{})
	} else {
		// the tickets' keys differ from run to run: expected from the peer
		states = []interface{}{""}
		s := ""
		for i := range caps {
			if i < 2 {
				k := p.suite.expandLabel(p.resM, "resumption", []byte{byte(i)}, p.suite.hlen)
				s += fmt.Sprintf("ticket number %d/%x;", i, k)
			}
			states = append(states, s)
		}
	}
	done := 0
	wild := false // an inconsistent fragment was delivered
	complete := func(i int) bool {
		for _, b := range have[i] {
			if !b {
				return false
			}
		}
		return len(have[i]) > 0 || zero[i]
	}
	step := func(g []c17Frag) bool {
		var frags [][]byte
		ok := true
		for _, f := range g {
			frags = append(frags, c17Bytes(caps[f.msg], f))
			ok = ok && fl.ready(p, done, f, caps)
			wild = wild || f.mut != ""
		}
		p.sendFrags(caps[g[0].msg].h, frags...)
		alive := fl.pump(e)
		c.Transitions(1)
		if !alive {
			if !wild {
				c.Fail("failed", "the handshake fails at %v: %v", g, e.Fail)
			}
			return false
		}
		if ok {
			for _, f := range g {
				if f.mut != "" {
					continue
				}
				for i := f.off; i < f.off+f.n; i++ {
					have[f.msg][i] = true
				}
				zero[f.msg] = true
			}
		}
		for done < len(caps) && complete(done) {
			done++
		}
		if got := fl.state(e); got != states[done] && !wild {
			c.Fail("state", "after %v the state is %v, want %v (%d messages complete)", g, got, states[done], done)
		}
		return true
	}
	for _, g := range groups(lens) {
		if !step(g) {
			c.Outcome("refused")
			c.Traces(1)
			return
		}
	}
	// the rest arrives unfragmented
	for i := range caps {
		if done > i && fl.name != "post" {
			continue
		}
		if !step([]c17Frag{{msg: i, n: lens[i]}}) {
			c.Outcome("refused")
			c.Traces(1)
			return
		}
	}
	if !wild && done != len(caps) {
		c.Fail("harness", "%d of %d", done, len(caps))
	}
	if fl.name == "hello" || fl.name == "hello2" {
		if len(e.W.outs) == 0 {
			if wild {
				c.Outcome("stuck after an inconsistent fragment")
				return
			}
			c.Fail("silent", "no answer to a complete hello")
		}
	} else if !e.Connected() || fl.name == "post" && fl.state(e) != states[done] {
		if wild {
			c.Outcome("stuck after an inconsistent fragment")
			return
		}
		c.Fail("incomplete", "state %v", fl.state(e))
	}
	if wild && fl.name == "post" {
		return
	}
	fl.after(c, e, p)
	c.Outcome("complete")
	c.Traces(1)
}

// c17Claim is a fragment that claims to be part of a message of some length.
type c17Claim struct{ off, n, total int }

// c17Wild delivers arbitrary claims about message m.  The message must not be
// taken for received unless claims of one length cover it.
func c17Wild(c *Case, fl c17Flight, m int, claims func(l int) []c17Claim) {
	e, p := fl.start(c)
	p.capture = true
	fl.send(p)
	p.capture = false
	v, ok := c17States.Load(fl.name)
	if !ok {
		_, s := c17Probe(c, fl)
		v, _ = c17States.LoadOrStore(fl.name, s)
	}
	states := v.([]interface{})
	for i := 0; i < m; i++ {
		p.sendFrags(p.caps[i].h, p.caps[i].raw)
		if !fl.pump(e) {
			c.Fail("handshake", "message %d fails: %v", i, e.Fail)
		}
	}
	raw := p.caps[m].raw
	body := raw[12:]
	have := map[int][]bool{} // by the claimed length
	var sent []c17Claim
	for _, k := range claims(len(body)) {
		data := make([]byte, k.n)
		if k.off < len(body) {
			copy(data, body[k.off:])
		}
		if have[k.total] == nil && k.total < 1<<16 { // more is never there
			have[k.total] = make([]bool, k.total)
		}
		if k.off+k.n <= k.total && k.total < 1<<16 {
			for i := k.off; i < k.off+k.n; i++ {
				have[k.total][i] = true
			}
		}
		sent = append(sent, k)
		p.sendFrags(p.caps[m].h, hsFrag(int(raw[0]), k.total, int(raw[4])<<8|int(raw[5]), k.off, data))
		c.Transitions(1)
		if !fl.pump(e) {
			c.Outcome("refused")
			return
		}
		if fl.state(e) != states[m] {
			any := false
			for _, h := range have {
				all := true
				for _, b := range h {
					all = all && b
				}
				any = any || all
			}
			if !any {
				c.Fail("mixed", "after the fragments (offset, length, total) %v of message %d (length %d) the state is %v", sent, m, len(body), fl.state(e))
			}
			c.Outcome("received")
			return
		}
	}
	// what is genuine is still handled
	p.sendFrags(p.caps[m].h, raw)
	fl.pump(e)
	c.Outcome(fmt.Sprintf("then %v", fl.state(e) == states[m+1]))
}

// c17Claims are the claims of a set of offsets, sizes and totals.
func c17Claims(l int, offs, ns, totals []int) (out []c17Claim) {
	for _, o := range offs {
		for _, n := range ns {
			for _, t := range totals {
				out = append(out, c17Claim{o, n, t})
			}
		}
	}
	return
}

// c17Points are the cut points of a message.
func c17Points(n int) (out []int) {
	for _, k := range []int{0, 1, n / 3, n / 2, n - 1, n} {
		if k >= 0 && k <= n && (len(out) == 0 || k > out[len(out)-1]) {
			out = append(out, k)
		}
	}
	return
}

// c17Ranges are all fragments between cut points, and empty ones.
func c17Ranges(i int, msg int) func(n int) (c17Frag, bool) {
	return func(n int) (c17Frag, bool) {
		pt := c17Points(n)
		k := 0
		for a := range pt {
			for b := a; b < len(pt); b++ {
				if b == a && a != 0 && a != len(pt)-1 {
					continue
				}
				if k == i {
					return c17Frag{msg: msg, off: pt[a], n: pt[b] - pt[a]}, true
				}
				k++
			}
		}
		return c17Frag{}, false
	}
}

const c17NRanges = 17

func permute(n int, f func([]int)) {
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(idx)
			return
		}
		for i := k; i < n; i++ {
			idx[k], idx[i] = idx[i], idx[k]
			rec(k + 1)
			idx[k], idx[i] = idx[i], idx[k]
		}
	}
	rec(0)
}

func init() {
	register("C17", "model_checking", func(x *Ctx) {
		x.Rule("for each flight (both hellos of a client, server flights, client flights, tickets and key updates after the handshake): every sequence of fragments between cut points of one message, every single cut and pair of cuts in every order, every order of the halves of several messages, with duplicates, several fragments per record, and an inconsistent fragment at every position; after every fragment the state must be that of the complete messages")
		cs := &Cases{}
		for _, fl := range c17Flights() {
			fl := fl
			var lens []int
			probe := &Case{}
			func() {
				defer func() { recover() }()
				lens, _ = c17Probe(probe, fl)
			}()
			if lens == nil {
				cs.Add(fl.name+"/whole", func(c *Case) { c17Probe(c, fl) })
				continue
			}
			whole := func(upto int) (g [][]c17Frag) {
				for i := 0; i < upto; i++ {
					g = append(g, []c17Frag{{msg: i, n: -1}})
				}
				return
			}
			fix := func(g [][]c17Frag, lens []int) [][]c17Frag {
				for _, fs := range g {
					for i := range fs {
						if fs[i].n < 0 {
							fs[i].n = lens[fs[i].msg] - fs[i].off
						}
					}
				}
				return g
			}
			cs.Add(fl.name+"/whole", func(c *Case) { c17Run(c, fl, func(l []int) [][]c17Frag { return fix(whole(len(l)), l) }) })
			for m := range lens {
				m := m
				// every sequence of ranges of one message
				depth := 2
				big := fl.name == "hello" || fl.name == "server" && (m == 0 || m == 2) || fl.name == "client-cr" && m == 0 || fl.name == "post" && m == 0
				if big {
					depth = 3
				}
				if x.Thorough() {
					depth = 3
					if fl.name == "hello" || fl.name == "server" && m == 0 || fl.name == "post" && m == 0 {
						depth = 4
					}
				}
				total := 1
				for i := 0; i < depth; i++ {
					total *= c17NRanges
				}
				for k := 0; k < total; k++ {
					k := k
					cs.Add(fmt.Sprintf("%s/ranges/m%d/%d", fl.name, m, k), func(c *Case) {
						c17Run(c, fl, func(l []int) [][]c17Frag {
							g := fix(whole(m), l)
							for q, i := k, 0; i < depth; i, q = i+1, q/c17NRanges {
								f, ok := c17Ranges(q%c17NRanges, m)(l[m])
								if !ok {
									f = c17Frag{msg: m}
								}
								g = append(g, []c17Frag{f})
							}
							return g
						})
					})
				}
				// every single cut, both orders, apart and in one record
				stride := 1
				if !x.Thorough() && lens[m] > 100 && !big {
					stride = 7
				}
				for cut := 0; cut <= lens[m]; cut += stride {
					for order := 0; order < 4; order++ {
						cut, order := cut, order
						if order == 2 && cut == lens[m] || order == 3 && cut == 0 {
							// Nothing may follow the end of a message that changes
							// the keys within its record.
							continue
						}
						cs.Add(fmt.Sprintf("%s/cut/m%d/%d/%d", fl.name, m, cut, order), func(c *Case) {
							c17Run(c, fl, func(l []int) [][]c17Frag {
								at := cut
								if at > l[m] {
									at = l[m]
								}
								a, b := c17Frag{msg: m, n: at}, c17Frag{msg: m, off: at, n: l[m] - at}
								g := fix(whole(m), l)
								switch order {
								case 0:
									g = append(g, []c17Frag{a}, []c17Frag{b})
								case 1:
									g = append(g, []c17Frag{b}, []c17Frag{a})
								case 2:
									g = append(g, []c17Frag{a, b})
								case 3:
									g = append(g, []c17Frag{b, a})
								}
								return g
							})
						})
					}
				}
				// byte by byte, forwards and backwards
				for _, back := range []bool{false, true} {
					back := back
					cs.Add(fmt.Sprintf("%s/bytes/m%d/back=%v", fl.name, m, back), func(c *Case) {
						c17Run(c, fl, func(l []int) [][]c17Frag {
							g := fix(whole(m), l)
							for i := 0; i < l[m]; i++ {
								k := i
								if back {
									k = l[m] - 1 - i
								}
								g = append(g, []c17Frag{{msg: m, off: k, n: 1}})
							}
							return g
						})
					})
				}
				// claims that contradict the message and each other
				if fl.name != "post" && (x.Thorough() || fl.name == "hello" || fl.name == "client" || fl.name == "server") {
					wide := func(l int) []c17Claim {
						return c17Claims(l, []int{0, 1, l / 2, l - 1, l, l + 1, l + 3, 0xffffff}, []int{0, 1, l / 2, l - l/2, l, l + 3}, []int{l, l - 1, l + 1, 0, 0xffffff})
					}
					tight := func(l int) []c17Claim {
						return c17Claims(l, []int{0, 1, l / 2, l, l + 3}, []int{1, l / 2, l - l/2, l}, []int{l, l + 3}[:x.Pick(1, 2)])
					}
					for a := range wide(lens[m]) {
						a := a
						cs.Add(fmt.Sprintf("%s/claims/m%d/%d", fl.name, m, a), func(c *Case) {
							for b := range wide(lens[m]) {
								c17Wild(c, fl, m, func(l int) []c17Claim {
									w := wide(l)
									return []c17Claim{w[a], w[b]}
								})
								c.Count(1)
							}
						})
					}
					for a := range tight(lens[m]) {
						a := a
						cs.Add(fmt.Sprintf("%s/claims3/m%d/%d", fl.name, m, a), func(c *Case) {
							for b := range tight(lens[m]) {
								for d := range tight(lens[m]) {
									c17Wild(c, fl, m, func(l int) []c17Claim {
										w := tight(l)
										return []c17Claim{w[a], w[b], w[d]}
									})
									c.Count(1)
								}
							}
						})
					}
				}
				// inconsistent fragments before, between and after two halves
				for _, mut := range c17Muts {
					for pos := 0; pos < 3; pos++ {
						for part := 0; part < 4; part++ {
							mut, pos, part := mut, pos, part
							cs.Add(fmt.Sprintf("%s/bad/m%d/%s/%d/%d", fl.name, m, mut, pos, part), func(c *Case) {
								c17Run(c, fl, func(l []int) [][]c17Frag {
									h := l[m] / 2
									halves := []c17Frag{{msg: m, n: h}, {msg: m, off: h, n: l[m] - h}}
									bad := []c17Frag{halves[0], halves[1], {msg: m, n: l[m]}, {msg: m, off: l[m]}}[part]
									bad.mut = mut
									g := fix(whole(m), l)
									for i, f := range halves {
										if i == pos {
											g = append(g, []c17Frag{bad})
										}
										g = append(g, []c17Frag{f})
									}
									if pos == 2 {
										g = append(g, []c17Frag{bad})
									}
									return g
								})
							})
						}
					}
				}
			}
			// orders of the parts of several messages
			n := len(lens)
			type cutset struct {
				name  string
				parts func(l []int) []c17Frag
			}
			var sets []cutset
			first := 0
			if fl.name == "server" || fl.name == "server-retry" || fl.name == "server-cr" {
				first = 1 // the hello brings the keys
			}
			sets = append(sets, cutset{"messages", func(l []int) (out []c17Frag) {
				for i := first; i < n; i++ {
					out = append(out, c17Frag{msg: i, n: l[i]})
				}
				return
			}})
			for a := first; a < n; a++ {
				for b := a + 1; b < n && b <= a+2; b++ {
					a, b := a, b
					sets = append(sets, cutset{fmt.Sprintf("halves%d-%d", a, b), func(l []int) (out []c17Frag) {
						for i := a; i <= b; i++ {
							h := l[i] / 2
							out = append(out, c17Frag{msg: i, n: h}, c17Frag{msg: i, off: h, n: l[i] - h})
						}
						return
					}})
				}
				if a+1 < n {
					a := a
					sets = append(sets, cutset{fmt.Sprintf("thirds%d", a), func(l []int) (out []c17Frag) {
						for i := a; i <= a+1; i++ {
							t := l[i] / 3
							out = append(out, c17Frag{msg: i, n: t}, c17Frag{msg: i, off: t, n: t}, c17Frag{msg: i, off: 2 * t, n: l[i] - 2*t})
						}
						return
					}})
					sets = append(sets, cutset{fmt.Sprintf("dups%d", a), func(l []int) (out []c17Frag) {
						h := l[a] / 2
						out = append(out, c17Frag{msg: a, n: h}, c17Frag{msg: a, off: h, n: l[a] - h}, c17Frag{msg: a, n: h}, c17Frag{msg: a, n: l[a]})
						h = l[a+1] / 2
						return append(out, c17Frag{msg: a + 1, n: h}, c17Frag{msg: a + 1, off: h, n: l[a+1] - h})
					}})
				}
				if x.Thorough() && a+3 < n {
					a := a
					sets = append(sets, cutset{fmt.Sprintf("four%d", a), func(l []int) (out []c17Frag) {
						for i := a; i <= a+3; i++ {
							h := l[i] / 2
							out = append(out, c17Frag{msg: i, n: h}, c17Frag{msg: i, off: h, n: l[i] - h})
						}
						return
					}})
				}
			}
			for _, s := range sets {
				s := s
				k := len(s.parts(lens))
				if k < 2 {
					continue
				}
				lead := s.parts(lens)[0].msg
				permute(k, func(idx []int) {
					order := append([]int{}, idx...)
					for _, dup := range []bool{false, true} {
						dup := dup
						if dup && !x.Thorough() && k > 5 {
							continue
						}
						cs.Add(fmt.Sprintf("%s/%s/%v/dup=%v", fl.name, s.name, order, dup), func(c *Case) {
							c17Run(c, fl, func(l []int) [][]c17Frag {
								parts := s.parts(l)
								g := fix(whole(lead), l)
								for _, i := range order {
									g = append(g, []c17Frag{parts[i]})
									if dup {
										g = append(g, []c17Frag{parts[i]})
									}
								}
								if dup {
									for _, i := range order {
										g = append(g, []c17Frag{parts[i]})
									}
								}
								return g
							})
						})
					}
				})
			}
		}
		c17OwnCases(x, cs)
		x.Run(cs, 0)
	})
}

// c17Own: mint cuts its own messages, and the datagrams of a flight are
// delivered in another order or twice.
func c17Own(c *Case, which string, n int, perm []int, dup bool) {
	blob := make([]byte, n)
	for i := range blob {
		blob[i] = byte(i*7 + i>>8)
	}
	const et = mint.ExtensionType(0xfe01)
	cc, sc := clientCfg(), serverCfg("p256")
	cc.UseDTLS, sc.UseDTLS = true, true
	ch := &blobHandler{want: []mint.ExtensionType{et}, send: map[mint.HandshakeType]map[mint.ExtensionType][]byte{}}
	sh := &blobHandler{want: []mint.ExtensionType{et}, send: map[mint.HandshakeType]map[mint.ExtensionType][]byte{}}
	var chain []*x509.Certificate
	switch which {
	case "ch":
		ch.send[mint.HandshakeTypeClientHello] = map[mint.ExtensionType][]byte{et: blob}
	case "ee":
		ch.send[mint.HandshakeTypeClientHello] = map[mint.ExtensionType][]byte{et: {1}}
		sh.send[mint.HandshakeTypeEncryptedExtensions] = map[mint.ExtensionType][]byte{et: blob}
	case "cert":
		who := id("client")
		chain = append(chain, who.chain...)
		for i := 0; i < n; i++ {
			chain = append(chain, id("p384").chain[0])
		}
		cc.Certificates = []*mint.Certificate{{Chain: chain, PrivateKey: who.key}}
		sc.RequireClientAuth = true
	}
	cc.ExtensionHandler, sc.ExtensionHandler = ch, sh
	p := NewPair(cc, sc)
	reorder := func(ds [][]byte, keep int) (out [][]byte) {
		out = append(out, ds[:keep]...)
		ds = ds[keep:]
		k := len(perm)
		for _, i := range perm {
			if i < len(ds) {
				out = append(out, ds[i])
				if dup {
					out = append(out, ds[i])
				}
			}
		}
		if k < len(ds) {
			out = append(out, ds[k:]...)
		}
		return
	}
	cr, sr := hsBlocked, hsBlocked
	flightC, flightS := 0, 0
	for i := 0; i < 40; i++ {
		cr = p.C.Step()
		if out := p.C.W.take(); len(out) > 0 {
			if flightC == 0 && which == "ch" || flightC == 1 && which == "cert" {
				out = reorder(out, 0)
				c.States(1)
			}
			flightC++
			for _, d := range out {
				p.S.W.feed(d)
				sr = p.S.Step()
				c.Transitions(1)
			}
		}
		if out := p.S.W.take(); len(out) > 0 {
			if flightS == 0 && which == "ee" {
				out = reorder(out, 1)
				c.States(1)
			}
			flightS++
			for _, d := range out {
				p.C.W.feed(d)
				cr = p.C.Step()
				c.Transitions(1)
			}
		}
	}
	if cr != hsDone || sr != hsDone {
		c.Fail("own", "the handshake does not complete: %v (%v), %v (%v)", cr, p.C.Fail, sr, p.S.Fail)
	}
	switch which {
	case "ch":
		if !bytes.Equal(sh.got[mint.HandshakeTypeClientHello][et], blob) {
			c.Fail("altered", "the server saw another extension")
		}
	case "ee":
		if !bytes.Equal(ch.got[mint.HandshakeTypeEncryptedExtensions][et], blob) {
			c.Fail("altered", "the client saw another extension")
		}
	case "cert":
		got := p.S.C.ConnectionState().PeerCertificates
		if len(got) != len(chain) {
			c.Fail("altered", "%d certificates of %d", len(got), len(chain))
		}
		for i := range got {
			if !got[i].Equal(chain[i]) {
				c.Fail("altered", "certificate %d", i)
			}
		}
	}
	d := &driven{p: p, c: cr, s: sr}
	if err := d.echo(nil); err != nil {
		c.Fail("data", "%v", err)
	}
	c.Traces(1)
	c.Outcome("own")
}

func c17OwnCases(x *Ctx, cs *Cases) {
	for _, which := range []string{"ch", "ee", "cert"} {
		max, stride := 3000, x.Pick(29, 3)
		if which == "cert" {
			max, stride = 8, 1
		}
		sizes := map[int]bool{}
		for n := 0; n <= max; n += stride {
			sizes[n] = true
		}
		if which != "cert" {
			// around every multiple of the fragment length
			for n := 900; n < max; n++ {
				if r := n % 1188; r > 900 || r < 40 {
					sizes[n] = true
				}
			}
		}
		for n := 0; n <= max; n++ {
			if !sizes[n] {
				continue
			}
			n, which := n, which
			add := func(perm []int, dup bool) {
				cs.Add(fmt.Sprintf("own/%s/%d/%v/dup=%v", which, n, perm, dup), func(c *Case) { c17Own(c, which, n, perm, dup) })
			}
			add(nil, false)
			add([]int{3, 2, 1, 0}, true)
			if n%29 == 0 || which == "cert" || x.Thorough() && n%7 == 0 {
				permute(x.Pick(4, 5), func(idx []int) {
					add(append([]int{}, idx...), false)
				})
				add([]int{1, 0}, true)
				add([]int{7, 6, 5, 4, 3, 2, 1, 0}, true)
			}
		}
	}
}
