package vharness

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/bifurcation/mint"
)

// The model: a protocol automaton written from RFC 8446 appendix A, with the
// state of the handshake variant folded in.  next returns the successor state
// and whether the message is legal there.
type c03Variant struct {
	name                               string
	server                             bool // mint is the server
	psk, early, reject, cr, hrr, empty bool
	suite                              uint16
	dtls                               bool
}

var c03Alphabet = []string{"CH", "HRR", "SH", "NST", "EOED", "EE", "CERT", "CERT0", "CR", "CV", "FIN", "KU", "KUR", "HELLOREQ", "MHASH", "T3", "T99", "APP", "RT0", "RT24", "FATAL"}

func (v c03Variant) next(st, m string) (string, bool) {
	t := map[string]map[string]string{}
	add := func(s, m, n string) {
		if t[s] == nil {
			t[s] = map[string]string{}
		}
		t[s][m] = n
	}
	if !v.server {
		if v.hrr {
			add("START", "HRR", "WAIT_SH2")
			add("WAIT_SH2", "SH", "WAIT_EE")
		} else {
			add("START", "SH", "WAIT_EE")
		}
		switch {
		case v.psk && !v.reject:
			add("WAIT_EE", "EE", "WAIT_FIN")
		default:
			add("WAIT_EE", "EE", "WAIT_CERT_CR")
			add("WAIT_CERT_CR", "CERT", "WAIT_CV")
			add("WAIT_CERT_CR", "CR", "WAIT_CERT")
			add("WAIT_CERT", "CERT", "WAIT_CV")
			add("WAIT_CV", "CV", "WAIT_FIN")
		}
		add("WAIT_FIN", "FIN", "CONNECTED")
		add("CONNECTED", "NST", "CONNECTED")
	} else {
		if v.hrr {
			add("START", "CH", "WAIT_CH2")
			add("WAIT_CH2", "CH", "FLIGHT")
		} else {
			add("START", "CH", "FLIGHT")
		}
		if v.early && !v.reject {
			add("FLIGHT", "APP", "FLIGHT")
			add("FLIGHT", "EOED", "FLIGHT2")
		} else {
			t["FLIGHT2"] = t["FLIGHT"]
		}
		f := "FLIGHT"
		if v.early && !v.reject {
			f = "FLIGHT2"
		}
		if v.cr && !v.psk {
			add(f, "CERT", "WAIT_CV")
			add(f, "CERT0", "WAIT_FIN")
			add("WAIT_CV", "CV", "WAIT_FIN")
		} else {
			add(f, "FIN", "CONNECTED")
		}
		add("WAIT_FIN", "FIN", "CONNECTED")
	}
	add("CONNECTED", "KU", "CONNECTED")
	add("CONNECTED", "KUR", "CONNECTED")
	add("CONNECTED", "APP", "CONNECTED")
	n, ok := t[st][m]
	return n, ok
}

type c03Run struct {
	v    c03Variant
	e    *End
	p    *Puppet
	nCH  int
	cr   bool
	psks []byte
	data int
	exp  []byte
}

func (v c03Variant) start(c *Case) *c03Run {
	r := &c03Run{v: v}
	if v.server {
		cfg := serverCfg("p256")
		cfg.UseDTLS = v.dtls
		cfg.RequireClientAuth = v.cr
		cfg.AllowEarlyData = v.early && !v.reject
		if v.hrr {
			cfg.RequireCookie = true
			cfg.CookieProtector = fixedProtector()
		}
		if v.psk {
			cfg.PSKs = &mint.PSKMapCache{hexOf([]byte("psk-id")): mintPSK(0x1301, []byte("psk-id"), thePSK, false)}
		}
		r.e = NewEnd(cfg, false)
		r.p = newPuppet(true, r.e)
		r.e.Step()
	} else {
		cfg := clientCfg()
		cfg.UseDTLS = v.dtls
		cfg.Certificates = mintCerts("client")
		if v.psk {
			withClientPSK(cfg, 0x1301, thePSK)
			cfg.AllowEarlyData = v.early
		}
		r.e = NewEnd(cfg, true)
		r.p = newPuppet(false, r.e)
		r.e.Step()
		r.p.RecvCH()
		if v.psk && !v.reject {
			r.p.UsePSK(thePSK, 0x1301, false)
		}
	}
	p := r.p
	p.suite = suiteTable[0]
	p.cHS, p.sHS = p.suite.zeros(), p.suite.zeros()
	p.master, p.resM = p.suite.zeros(), p.suite.zeros()
	return r
}

// send makes the puppet send m as well formed and as correctly protected and
// authenticated as it can be at this place.
func (r *c03Run) send(m string) {
	p := r.p
	v := r.v
	switch m {
	case "CH":
		if !v.server || r.nCH > 1 || r.nCH == 1 && !v.hrr {
			if v.server {
				p.SendRaw(p.frame(hCH, p.CHRaw[p.hsHdr():]))
			} else {
				p.SendRaw(p.frame(hCH, (&CHello{Version: 0x0303, Random: randBytes(32), Suites: []uint16{0x1301}, Comp: []byte{0}, Exts: p.CH.Exts}).marshal(p.dtls)))
			}
			return
		}
		o := defaultCH()
		o.Suites = []uint16{v.suite}
		if v.psk || v.early {
			o.PSKIDs = []pskID{{[]byte("psk-id"), 0}}
			o.PSKKeys = [][]byte{thePSK}
			o.PSKSuites = []uint16{0x1301}
			o.PSKRes = []bool{false}
			o.Early = v.early && r.nCH == 0
		}
		if r.nCH == 1 {
			o.Cookie = r.cookie()
		}
		r.nCH++
		p.SendCH(o)
	case "HRR":
		if !v.server && v.hrr && p.hello1 == nil && p.SH == nil {
			p.SendHRR(v.suite, hrrExts([]byte("cookie")))
		} else {
			sh := &SHello{Version: 0x0303, Random: hrrRandom, Suite: v.suite, Exts: hrrExts([]byte("cookie2"))}
			p.SendRaw(p.frame(hSH, sh.marshal()))
		}
	case "SH":
		if v.server || p.SH != nil {
			sh := &SHello{Version: 0x0303, Random: randBytes(32), Suite: v.suite}
			sh.Exts.set(xVersions, []byte{3, 4})
			p.SendRaw(p.frame(hSH, sh.marshal()))
			return
		}
		psk := v.psk && !v.reject
		p.SendSH(p.DefaultSH(v.suite, gX25519, psk), gX25519)
	case "NST":
		t := &ticket{Lifetime: 100, AgeAdd: 5, Nonce: []byte{1}, Ticket: []byte("ticket")}
		if p.resM == nil {
			p.resM = p.suite.zeros()
		}
		p.SendNST(t)
	case "EOED":
		if v.server && p.out != nil && p.out.epoch == 1 {
			p.SendEOEDIfNeeded()
		} else {
			p.SendMsg(hEOED, nil)
		}
	case "EE":
		var e Exts
		if v.early && !v.reject && !v.server {
			e.set(xEarly, []byte{})
		}
		p.SendEE(e)
	case "CERT":
		if v.server {
			p.SendCert(id("client").raws())
		} else {
			p.SendCert(id("p256").raws())
		}
	case "CERT0":
		p.SendCert(nil)
	case "CR":
		r.cr = true
		p.SendCR([]uint16{0x0403, 0x0804})
	case "CV":
		who := "p256"
		if v.server {
			who = "client"
		}
		p.SendCV(id(who).key, 0x0403)
	case "FIN":
		if v.server {
			p.SendClientFin()
		} else {
			p.SendServerFin()
		}
	case "KU", "KUR":
		body := []byte{0}
		if m == "KUR" {
			body[0] = 1
		}
		p.SendRaw(p.frame(hKU, body))
		if r.e.Connected() {
			p.setOut(p.out.next())
		}
	case "HELLOREQ":
		p.SendMsg(0, nil)
	case "MHASH":
		p.SendMsg(hMHash, p.suite.zeros())
	case "T3":
		p.SendMsg(3, []byte{3, 3, 0})
	case "T99":
		p.SendMsg(99, []byte("x"))
	case "APP":
		r.data++
		b := []byte(fmt.Sprintf("data%d", r.data))
		r.exp = append(r.exp, b...)
		p.SendApp(b)
	case "RT0":
		p.SendRecord(0, []byte{1, 2, 3})
	case "RT24":
		p.SendRecord(24, []byte{1, 2, 3})
	case "FATAL":
		p.SendAlert(2, 40)
	}
}

func (p *Puppet) hsHdr() int {
	if p.dtls {
		return 12
	}
	return 4
}

func (r *c03Run) cookie() []byte {
	_, ck := r.p.RecvSH()
	return ck
}

// react lets mint process what was sent: progress, completion or failure.
func (r *c03Run) react(c *Case) (failed bool) {
	if r.e.Connected() {
		got, err := r.e.ReadAll(64)
		if err != nil {
			return true
		}
		if !bytes.HasSuffix(r.exp, got) {
			c.Fail("data", "read %q, sent %q", got, r.exp)
		}
		return false
	}
	return r.e.Step() == hsFailed
}

// after performs what the puppet's own side does when mint answers.
func (r *c03Run) after(st string) {
	p := r.p
	switch {
	case r.v.server && st == "FLIGHT" && r.p.SH == nil, r.v.server && st == "FLIGHT" && r.v.hrr && p.EE == nil && bytes.Equal(p.SH.Random, hrrRandom):
		p.RecvSH()
		p.RecvServerFlight()
		if r.v.early && r.v.reject && p.out.epoch == 1 {
			p.setOut(newHalf(p.suite, p.cHS, 2))
		}
	case !r.v.server && st == "WAIT_SH2":
		p.RecvCH()
	case st == "CONNECTED" && !p.recvFin && !r.v.server:
		p.GotCR = r.cr
		p.RecvClientFlight()
	}
}

func c03Case(c *Case, v c03Variant, path []string, last string) {
	r := v.start(c)
	st := "START"
	for i, m := range path {
		n, ok := v.next(st, m)
		if !ok {
			panic("bad path")
		}
		r.send(m)
		if r.react(c) {
			c.Fail("order", "legal message %s (step %d of %v) in state %s made the handshake fail: %v", m, i, path, st, r.e.Fail)
		}
		st = n
		if (st == "CONNECTED") != r.e.Connected() {
			c.Fail("order", "after %v the model is in %s but connected=%v (%v)", path[:i+1], st, r.e.Connected(), r.e.C.GetHsState())
		}
		r.after(st)
	}
	if last == "" {
		if st == "CONNECTED" {
			c.Outcome("complete " + v.name)
			r.react(c)
			dataBothWays(c, r.e, r.p, "z")
		}
		return
	}
	if _, ok := v.next(st, last); ok {
		panic("last message is legal")
	}
	was := r.e.Connected()
	r.send(last)
	r.p.Flush()
	refused := r.react(c)
	if last == "CERT0" && !v.server && !refused && !was {
		// An empty list may be refused as late as the message that needs it.
		r.send("CV")
		refused = r.react(c)
	}
	if !refused {
		c.Fail("order", "after %v (state %s) the illegal message %s was not refused (mint state %v)", path, st, last, r.e.C.GetHsState())
	}
	c.Outcome("refused " + last)
	if !was && r.e.Connected() {
		c.Fail("order", "connected after illegal message %s", last)
	}
}

// c03Pair walks a legal path but sends the messages at i and i+1 together:
// in one record ("pack"), or the second still under the keys of the first
// ("stale"), or the first cut bytes of the second in the record of the first
// ("tail").  It is legal only if the keys do not change in between.  With
// "between" a record of the type second is between two parts of the message,
// which is never legal.
func c03Pair(c *Case, v c03Variant, path []string, i int, second, mode string, cut int, legal bool) {
	r := v.start(c)
	st := "START"
	for k := 0; k < len(path); k++ {
		m := path[k]
		if k == i {
			p := r.p
			p.coal, p.pack, p.freeze = mode == "pack", mode == "pack", mode == "stale"
			if mode == "tail" || mode == "between" {
				p.coal, p.capture, p.caps = false, true, nil
				r.send(m)
				if mode == "tail" {
					r.send(second)
				}
				p.capture = false
				caps := p.caps
				if len(caps) == 0 || mode == "tail" && len(caps) != 2 {
					panic("nothing captured")
				}
				first, rest, h := caps[0].raw[:len(caps[0].raw)/2], caps[0].raw[len(caps[0].raw)/2:], caps[0].h
				if cut > 0 && cut < len(caps[0].raw) {
					first, rest = caps[0].raw[:cut], caps[0].raw[cut:]
				}
				if mode == "tail" {
					if n := len(caps[1].raw); cut < 0 {
						cut += n
					}
					first = append(append([]byte{}, caps[0].raw...), caps[1].raw[:cut]...)
					rest, h = caps[1].raw[cut:], caps[1].h
				}
				p.emit(p.sealRecord(caps[0].h, rtHS, first, 0))
				if mode == "between" {
					switch second {
					case "APP":
						p.emit(p.sealRecord(h, rtApp, []byte("between"), 0))
					case "WARN":
						p.emit(p.sealRecord(h, rtAlert, []byte{1, 90}, 0))
					case "RT24":
						p.emit(p.sealRecord(h, 24, []byte{1, 2, 3}, 0))
					}
				}
				p.emit(p.sealRecord(h, rtHS, rest, 0))
			} else {
				r.send(m)
				r.send(second)
				p.pack, p.freeze = false, false
				p.Flush()
				p.coal = false
			}
			was := r.e.Connected()
			failed := r.react(c)
			if !failed && !was && r.e.Connected() {
				failed = r.react(c)
			}
			if !legal {
				if !failed {
					c.Fail("keychange", "after %v: %s and then %s (%s) was not refused (mint state %v)", path[:k], m, second, mode, r.e.C.GetHsState())
				}
				c.Outcome("refused " + mode + " " + m)
				return
			}
			if failed {
				c.Fail("keychange", "after %v: legal %s and %s in one record were refused: %v", path[:k], m, second, r.e.Fail)
			}
			st, _ = v.next(st, m)
			st, _ = v.next(st, second)
			k++
			r.after(st)
			continue
		}
		n, ok := v.next(st, m)
		if !ok {
			panic("bad path")
		}
		r.send(m)
		if r.react(c) {
			c.Fail("keychange", "legal message %s refused (path %v)", m, path)
		}
		st = n
		r.after(st)
	}
	if (st == "CONNECTED") != r.e.Connected() {
		c.Fail("keychange", "path %v with %d,%d in one record: model %s, mint %v", path, i, i+1, st, r.e.C.GetHsState())
	}
	if st == "CONNECTED" {
		r.react(c)
		dataBothWays(c, r.e, r.p, "z")
		c.Outcome("packed " + v.name)
	}
}

func c03Variants(th bool) []c03Variant {
	var vs []c03Variant
	for _, server := range []bool{false, true} {
		role := "client"
		if server {
			role = "server"
		}
		for _, k := range []string{"cert", "cert+CR", "psk", "psk+early", "psk+early-reject"} {
			for _, hrr := range []bool{false, true} {
				v := c03Variant{server: server, hrr: hrr, suite: 0x1301}
				v.psk = strings.HasPrefix(k, "psk")
				v.cr = strings.Contains(k, "CR")
				v.early = strings.Contains(k, "early")
				v.reject = strings.Contains(k, "reject")
				v.name = role + "/" + k
				if v.early && v.reject && server {
					// the server knows the key but does not allow early data
				}
				if hrr {
					v.name += "/hrr"
					if v.early || v.psk {
						continue
					}
				}
				vs = append(vs, v)
			}
		}
	}
	return vs
}

func init() {
	register("C03", "model_checking", func(x *Ctx) {
		x.Rule("the tree of all message sequences: every legal path of the RFC 8446 automaton (post-handshake part up to the depth bound) extended by every message of the alphabet; each legal step must make progress, each illegal one must fail at once; distinct = distinct refused messages and completed variants")
		x.Assume("TLS only: over DTLS unexpected datagrams may legitimately be dropped")
		post := x.Pick(2, 4)
		cs := &Cases{}
		states := map[string]bool{}
		trans := 0
		for _, v := range c03Variants(x.Thorough()) {
			v := v
			var walk func(st string, path []string, postN int)
			walk = func(st string, path []string, postN int) {
				states[v.name+"/"+st] = true
				p := append([]string{}, path...)
				cs.Add(v.name+"/"+strings.Join(p, ",")+"/", func(c *Case) { c.Traces(1); c03Case(c, v, p, "") })
				for _, m := range c03Alphabet {
					m := m
					if st == "START" && !v.server && (m == "HRR" && !v.hrr || m == "SH" && v.hrr) {
						continue // legal: the subject of the other variants
					}
					trans++
					n, ok := v.next(st, m)
					if !ok {
						cs.Add(v.name+"/"+strings.Join(p, ",")+"/"+m, func(c *Case) { c.Traces(1); c03Case(c, v, p, m) })
						continue
					}
					k := postN
					if st == "CONNECTED" || n == st {
						if k >= post {
							continue
						}
						k++
					}
					walk(n, append(append([]string{}, p...), m), k)
				}
			}
			walk("START", nil, 0)
			// Every complete legal path, with every adjacent pair of messages
			// sent in one record or with stale keys.
			var pairs func(st string, path []string, after int)
			pairs = func(st string, path []string, after int) {
				if after == x.Pick(2, 3) {
					p := append([]string{}, path...)
					for i := range p {
						i := i
						if p[i] == "APP" {
							continue
						}
						change := p[i] == "SH" || p[i] == "FIN" || p[i] == "KU" || p[i] == "KUR" || p[i] == "EOED" || p[i] == "CH"
						if i+1 < len(p) && p[i+1] != "APP" && !(p[i] == "CH") && p[i] != "HRR" {
							cs.Add(fmt.Sprintf("%s/pack%d/%s", v.name, i, strings.Join(p, ",")), func(c *Case) {
								c.Traces(1)
								c03Pair(c, v, p, i, p[i+1], "pack", 0, !change)
							})
						}
						if i+1 < len(p) && p[i+1] != "APP" && p[i] != "CH" && p[i] != "HRR" {
							for _, cut := range []int{1, 2, 3, 4, 5, -1} {
								cut := cut
								if p[i+1] == "EOED" && cut > 3 || p[i+1] == "KU" && cut > 4 || p[i+1] == "KUR" && cut > 4 {
									continue
								}
								cs.Add(fmt.Sprintf("%s/tail%d,%d/%s", v.name, i, cut, strings.Join(p, ",")), func(c *Case) {
									c.Traces(1)
									c03Pair(c, v, p, i, p[i+1], "tail", cut, !change)
								})
							}
						}
						for _, b := range []string{"APP", "WARN", "RT24"} {
							for _, cut := range []int{0, 1, 3, 4} {
								b, cut := b, cut
								cs.Add(fmt.Sprintf("%s/between%d,%s,%d/%s", v.name, i, b, cut, strings.Join(p, ",")), func(c *Case) {
									c.Traces(1)
									c03Pair(c, v, p, i, b, "between", cut, false)
								})
							}
						}
						if i+1 < len(p) && change && p[i] != "CH" {
							cs.Add(fmt.Sprintf("%s/stale%d/%s", v.name, i, strings.Join(p, ",")), func(c *Case) {
								c.Traces(1)
								c03Pair(c, v, p, i, p[i+1], "stale", 0, false)
							})
						}
					}
					return
				}
				for _, m := range c03Alphabet {
					n, ok := v.next(st, m)
					if !ok || n == st && st != "CONNECTED" && len(path) > 0 && path[len(path)-1] == m {
						continue
					}
					a := after
					if st == "CONNECTED" {
						a++
					}
					pairs(n, append(append([]string{}, path...), m), a)
				}
			}
			pairs("START", nil, 0)
			if v.server {
				for _, m := range c03Alphabet {
					m := m
					if v.hrr && m == "CH" || m == "APP" || m == "RT0" || m == "RT24" || m == "FATAL" || v.early || m == "EOED" || m == "FIN" || m == "CV" {
						continue
					}
					cs.Add(v.name+"/packCH/"+m, func(c *Case) { c.Traces(1); c03Pair(c, v, []string{"CH"}, 0, m, "pack", 0, false) })
				}
			}
		}
		x.states, x.transitions = int64(len(states)), int64(trans)
		x.Run(cs, 0)
	})
}
