package vharness

import (
	"bytes"
	"fmt"
	"time"

	"github.com/bifurcation/mint"
)

// ---- hostile and honest offers to a server ---------------------------------

type c12Offer struct{ kind, fault string }

var c12Keys = map[string][]byte{
	"ext": thePSK, "ext384": bytes.Repeat([]byte{0x33}, 48), "res": bytes.Repeat([]byte{0x77}, 32), "res384": bytes.Repeat([]byte{0x78}, 48),
	"extproto": bytes.Repeat([]byte{0x45}, 32), "unknown": bytes.Repeat([]byte{9}, 32), "near": bytes.Repeat([]byte{0x11}, 32), "prefix": bytes.Repeat([]byte{0x12}, 32), "huge": bytes.Repeat([]byte{8}, 32),
}

func c12ID(kind string) []byte {
	switch kind {
	case "near":
		return []byte("id-exT")
	case "prefix":
		return []byte("id-e")
	case "huge":
		return bytes.Repeat([]byte("h"), 5000)
	}
	return []byte("id-" + kind)
}

func c12Known(kind string) bool {
	return kind == "ext" || kind == "ext384" || kind == "res" || kind == "res384" || kind == "extproto"
}

func c12Suite(kind string) uint16 {
	if kind == "ext384" || kind == "res384" {
		return 0x1302
	}
	return 0x1301
}

const c12Age = 100 * time.Second

var c12Add = uint32(0xfffffff0)

func c12ServerCfg(dtls, cookie bool) *mint.Config {
	cfg := serverCfg("p256")
	cfg.UseDTLS = dtls
	m := mint.PSKMapCache{}
	for k, key := range c12Keys {
		if !c12Known(k) {
			continue
		}
		e := mintPSK(c12Suite(k), c12ID(k), key, k[:3] == "res")
		if k == "extproto" {
			e.NextProto = "h2"
		}
		e.TicketAgeAdd = c12Add
		e.ReceivedAt = realNow().Add(-c12Age)
		m.Put(hexOf(c12ID(k)), e)
	}
	cfg.PSKs = &m
	if cookie {
		cfg.RequireCookie = true
		cfg.CookieProtector = fixedProtector()
	}
	return cfg
}

type c12Run struct {
	offers []c12Offer
	suites []uint16
	modes  []int
	dtls   bool
	cookie bool
	sid    int
	late   bool // the PSK is offered in the second hello only
	age    int64
	cut    int // binders fewer (-) or more (+) than identities
	share  bool
}

func (r c12Run) String() string {
	return fmt.Sprintf("server/%v/%04x/modes%v/dtls=%v/cookie=%v/late=%v/sid%d/age%d/n%d/share=%v", r.offers, r.suites, r.modes, r.dtls, r.cookie, r.late, r.sid, r.age, r.cut, r.share)
}

// model: "resume" (index), "full", "fail", or "open" (either of full and fail).
func (r c12Run) model() (string, int) {
	for i, o := range r.offers {
		if !c12Known(o.kind) {
			continue
		}
		if o.kind[:3] == "res" {
			d := r.age
			if d > 9000 || d < -9000 {
				return "fail", i
			}
		}
		if o.fault != "ok" {
			return "fail", i
		}
		if !has16(r.suites, c12Suite(o.kind)) {
			return "open", i
		}
		ok := false
		for _, m := range r.modes {
			ok = ok || m == 0 || m == 1 && r.share
		}
		if !ok {
			if r.share {
				return "full", i
			}
			return "fail", i
		}
		return "resume", i
	}
	if !r.share {
		return "fail", -1
	}
	return "full", -1
}

func (r c12Run) do(c *Case) {
	cfg := c12ServerCfg(r.dtls, r.cookie)
	e := NewEnd(cfg, false)
	p := newPuppet(true, e)
	o := defaultCH()
	o.Suites = r.suites
	o.Modes = r.modes
	if !r.share {
		o.Shares = nil
		o.Groups = nil
	}
	if r.sid > 0 {
		o.SID = bytes.Repeat([]byte{0xd1}, r.sid)
	}
	arm := func(o *chOpts) {
		for _, f := range r.offers {
			id := pskID{c12ID(f.kind), 0}
			if f.kind[:3] == "res" {
				id.Age = uint32(int64(c12Age/time.Millisecond)+r.age) + c12Add
			} else if f.kind == "ext" && f.fault == "ok" {
				id.Age = 12345 // ignored for external keys
			}
			key := c12Keys[f.kind]
			res := f.kind[:3] == "res"
			suite := c12Suite(f.kind)
			switch f.fault {
			case "otherkey":
				key = append(append([]byte{}, key[:len(key)-1]...), key[len(key)-1]^1)
			case "emptykey":
				key = nil
			case "otherlabel":
				res = !res
			}
			n := 0
			switch f.fault {
			case "short": // the first bytes of the right binder
				n = suiteByID(suite).hlen - 1
				if n < 32 {
					n = 33 // not a binder at all otherwise
				}
			case "long":
				n = suiteByID(suite).hlen + 1
			case "longest":
				n = 255
			}
			o.bindLen = append(o.bindLen, n)
			o.PSKIDs = append(o.PSKIDs, id)
			o.PSKKeys = append(o.PSKKeys, key)
			o.PSKRes = append(o.PSKRes, res)
			o.PSKSuites = append(o.PSKSuites, suite)
		}
		o.mutBind = func(b [][]byte) {
			for i, f := range r.offers {
				n := len(b[i])
				switch f.fault {
				case "first":
					b[i][0] ^= 0x80
				case "last":
					b[i][n-1] ^= 1
				case "mid":
					b[i][n/2] ^= 0x10
				case "zero":
					b[i] = make([]byte, n)
				case "rotate":
					b[i] = append(append([]byte{}, b[i][1:]...), b[i][0])
				}
			}
			// binders of the same length may be exchanged
			for i := 0; i+1 < len(b); i++ {
				if r.offers[i].fault == "swap" && len(b[i]) == len(b[i+1]) {
					b[i], b[i+1] = b[i+1], b[i]
				}
			}
		}
	}
	if !r.late {
		arm(&o)
	}
	want, idx := r.model()
	first := r.suites[0] // selected by the retry
	if first == 0x1303 {
		first = r.suites[1]
	}
	if r.late && want == "resume" && c12Suite(r.offers[idx].kind) != first {
		// RFC 8446 4.1.4: such a key must not be offered after that retry
		want = "open"
	}
	build := func() *CHello {
		ch := p.BuildCH(o)
		if len(o.PSKIDs) > 0 && r.cut != 0 {
			x := &ch.Exts[len(ch.Exts)-1]
			ids, b := parsePSK(x.D)
			if r.cut < 0 {
				b = b[:len(b)+r.cut]
			} else {
				for i := 0; i < r.cut; i++ {
					b = append(b, make([]byte, 32))
				}
			}
			x.D = pskData(ids, b)
		}
		return ch
	}
	p.SendCHello(build())
	res := e.Step()
	if r.cookie && res == hsBlocked {
		again, cookie := p.RecvSH()
		if !again {
			c.Fail("retry", "no retry request")
		}
		o.Cookie = cookie
		if r.late {
			arm(&o)
		} else {
			o2 := o
			o2.PSKIDs, o2.PSKKeys, o2.PSKRes, o2.PSKSuites, o2.bindLen = nil, nil, nil, nil, nil
			o = o2
			arm(&o)
		}
		p.SendCHello(build())
		res = e.Step()
	}
	if r.cut != 0 {
		if res != hsFailed {
			c.Fail("count", "a hello with %+d binders was accepted", r.cut)
		}
		c.Outcome("count refused")
		return
	}
	if res == hsFailed {
		if want != "fail" && want != "open" {
			c.Fail("refused", "the handshake failed (%v), it has to %s", e.Fail, want)
		}
		if e.Connected() {
			c.Fail("connected", "connected in spite of a failure")
		}
		c.Outcome(fmt.Sprintf("%s failed %v", want, e.Fail))
		return
	}
	p.RecvSH()
	resumed := p.SH.Exts.has(xPSK)
	switch {
	case want == "fail":
		c.Fail("accepted", "the server went on (resumed=%v), it has to fail because of identity %d", resumed, idx)
	case want == "open" && resumed:
		c.Fail("resumed", "resumed with a key that does not fit the suite")
	case want != "open" && resumed != (want == "resume"):
		c.Fail("resumed", "resumed=%v, the handshake has to %s", resumed, want)
	case resumed && p.pskIndex != idx:
		c.Fail("index", "identity %d selected, want %d", p.pskIndex, idx)
	}
	p.RecvServerFlight()
	p.SendClientFlight(nil)
	if r := e.Step(); r != hsDone {
		c.Fail("complete", "server: %v %v", r, e.Fail)
	}
	cs := e.C.ConnectionState()
	if cs.UsingPSK != resumed {
		c.Fail("report", "the server reports UsingPSK=%v", cs.UsingPSK)
	}
	if resumed && uint16(cs.CipherSuite.Suite) != c12Suite(r.offers[idx].kind) {
		c.Fail("suite", "resumed with suite %04x", cs.CipherSuite.Suite)
	}
	dataBothWays(c, e, p, "12")
	c.Outcome(fmt.Sprintf("%s psk %v", want, resumed))
}

func c12Server(x *Ctx, cs *Cases) {
	add := func(r c12Run) { cs.Add(r.String(), func(c *Case) { c.Count(0); r.do(c) }) }
	both := []uint16{0x1301, 0x1302}
	kinds := []string{"ext", "extproto", "ext384", "res", "res384", "unknown", "near", "prefix", "huge"}
	faults := []string{"ok", "first", "last", "mid", "zero", "rotate", "otherkey", "emptykey", "otherlabel", "short", "long", "longest"}
	for _, dtls := range []bool{false, true} {
		for _, ck := range []int{0, 1, 2} {
			base := c12Run{suites: both, modes: []int{1, 0}, dtls: dtls, cookie: ck > 0, late: ck == 2, share: true}
			var offers [][]c12Offer
			for _, k := range kinds {
				for _, f := range faults {
					offers = append(offers, []c12Offer{{k, f}})
				}
			}
			one := offers
			for _, a := range one {
				for _, b := range one {
					if x.Thorough() || a[0].fault == "ok" || b[0].fault == "ok" {
						offers = append(offers, []c12Offer{a[0], b[0]})
					}
				}
				if len(a) == 1 {
					offers = append(offers, []c12Offer{{a[0].kind, "swap"}, {"ext", "swap"}})
				}
			}
			if x.Thorough() {
				for _, a := range kinds {
					for _, b := range kinds {
						for _, k := range one {
							offers = append(offers, []c12Offer{{a, "ok"}, {b, "ok"}, k[0]})
							offers = append(offers, []c12Offer{{a, "ok"}, k[0], {b, "ok"}})
						}
					}
				}
			}
			for _, o := range offers {
				hasBig := 0
				for _, f := range o {
					if f.kind == "huge" {
						hasBig++
					}
				}
				if hasBig > 1 || dtls && hasBig > 0 {
					continue
				}
				if len(o) > 1 && o[0].fault == "swap" && (c12Suite(o[0].kind) != 0x1301 || o[0].kind == "ext") {
					continue
				}
				r := base
				r.offers = o
				add(r)
				if len(o) <= 2 && !(len(o) == 2 && !x.Thorough()) {
					for _, m := range [][]int{nil, {0}, {1}, {0, 1}, {2}, {2, 1}, {2, 0}} {
						q := r
						q.modes = m
						add(q)
						q.share = false
						if ck == 0 {
							add(q)
						}
					}
					for _, s := range [][]uint16{{0x1302, 0x1301}, {0x1301}, {0x1302}, {0x1303, 0x1301}, {0x1303, 0x1302}} {
						q := r
						q.suites = s
						add(q)
					}
				}
				if len(o) == 1 {
					q := r
					q.sid = 32
					add(q)
				}
				for _, n := range []int{-1, -2, 1, 2} {
					if n+len(o) < 1 {
						continue
					}
					q := r
					q.cut = n
					if o[0].fault == "ok" {
						add(q)
					}
				}
			}
			for _, k := range []string{"res", "res384"} {
				for _, a := range []int64{-100000, -99000, -60000, -20000, -10000, -3000, -1000, 0, 1000, 3000, 12000, 20000, 60000, 3600000, 1 << 31, 1<<31 + 5000, 1<<32 - 60000, -200000} {
					for _, f := range []string{"ok", "last"} {
						r := base
						r.offers = []c12Offer{{k, f}}
						r.age = a
						add(r)
						r.offers = []c12Offer{{"unknown", "ok"}, {k, f}}
						add(r)
						r.offers = []c12Offer{{"ext", "ok"}, {k, f}}
						add(r)
					}
				}
			}
		}
	}
	// every bit of a binder
	for _, k := range []string{"ext", "res", "ext384"} {
		k := k
		n := 32
		if c12Suite(k) == 0x1302 {
			n = 48
		}
		for bit := 0; bit < n*8; bit++ {
			cs.Add(fmt.Sprintf("server/binderbit/%s/%d", k, bit), func(c *Case) {
				e := NewEnd(c12ServerCfg(false, false), false)
				p := newPuppet(true, e)
				o := defaultCH()
				o.PSKIDs = []pskID{{c12ID(k), uint32(c12Age/time.Millisecond) + c12Add}}
				o.PSKKeys, o.PSKSuites, o.PSKRes = [][]byte{c12Keys[k]}, []uint16{c12Suite(k)}, []bool{k == "res"}
				o.mutBind = func(b [][]byte) { b[0][bit/8] ^= 1 << (bit % 8) }
				p.SendCH(o)
				if r := e.Step(); r != hsFailed {
					c.Fail("accepted", "a binder with bit %d flipped: %v", bit, r)
				}
				c.Outcome("bit refused")
			})
		}
	}
	// a binder does not fit another hello
	for _, what := range []string{"random", "suites", "alpn", "sid", "share", "modes", "cookieonly"} {
		what := what
		for _, dtls := range []bool{false, true} {
			dtls := dtls
			cs.Add(fmt.Sprintf("server/replay/%s/dtls=%v", what, dtls), func(c *Case) {
				e := NewEnd(c12ServerCfg(dtls, false), false)
				p := newPuppet(true, e)
				o := defaultCH()
				o.ALPN = []string{"a"}
				o.PSKIDs = []pskID{{c12ID("ext"), 0}}
				o.PSKKeys, o.PSKSuites, o.PSKRes = [][]byte{c12Keys["ext"]}, []uint16{0x1301}, []bool{false}
				ch := p.BuildCH(o)
				switch what {
				case "random":
					ch.Random[7] ^= 1
				case "suites":
					ch.Suites = []uint16{0x1301}
				case "alpn":
					ch.Exts.set(xALPN, alpnData([]string{"b"}))
				case "sid":
					ch.SID = make([]byte, 32)
				case "share":
					ch.Exts.set(xKeyShare, sharesData([]share{{gX25519, newKE(gX25519).pub}}))
				case "modes":
					ch.Exts.set(xPSKModes, []byte{1, 0})
				case "cookieonly":
					w := &buf{}
					w.v16([]byte("x"))
					n := len(ch.Exts) - 1
					ch.Exts = append(ch.Exts[:n:n], Ext{xCookie, w.b}, ch.Exts[n])
				}
				p.SendCHello(ch)
				if r := e.Step(); r != hsFailed {
					c.Fail("accepted", "a binder made for another hello: %v", r)
				}
				c.Outcome("replay refused")
			})
		}
	}
}

// ---- tickets of real servers -----------------------------------------------

type c12Cfg struct {
	dtls   bool
	csu    []uint16
	ssu    []uint16
	calpn  []string
	salpn  []string
	cookie bool
	cr     bool
	modes  []int
	tlen   int
}

func (v c12Cfg) String() string {
	return fmt.Sprintf("dtls=%v/%04x/%04x/alpn%v%v/cookie=%v/cr=%v/modes%v/tlen%d", v.dtls, v.csu, v.ssu, v.calpn, v.salpn, v.cookie, v.cr, v.modes, v.tlen)
}

func (v c12Cfg) cfgs() (cc, sc *mint.Config) {
	cc, sc = clientCfg(), serverCfg("p256")
	cc.UseDTLS, sc.UseDTLS = v.dtls, v.dtls
	for _, s := range v.csu {
		cc.CipherSuites = append(cc.CipherSuites, mint.CipherSuite(s))
	}
	for _, s := range v.ssu {
		sc.CipherSuites = append(sc.CipherSuites, mint.CipherSuite(s))
	}
	cc.NextProtos, sc.NextProtos = v.calpn, v.salpn
	if v.cookie {
		sc.RequireCookie = true
		sc.CookieProtector = fixedProtector()
	}
	if v.cr {
		sc.RequireClientAuth = true
		cc.Certificates = mintCerts("client")
	}
	for _, m := range v.modes {
		cc.PSKModes = append(cc.PSKModes, mint.PSKKeyExchangeMode(m))
	}
	sc.SendSessionTickets = true
	sc.TicketLen = v.tlen
	return
}

// c12Chain: n sessions in a row with one pair of configurations, each of which
// but the first resumes the one before.
func c12Chain(c *Case, v c12Cfg, n int, plan string) {
	cc, sc := v.cfgs()
	scache := &mint.PSKMapCache{}
	ccache := &mint.PSKMapCache{}
	cc.PSKs, sc.PSKs = ccache, scache
	type ses struct {
		suite uint16
		alpn  string
	}
	var first ses
	var stock []mint.PreSharedKey
	for i := 0; i < n; i++ {
		// each session may use its own copy of the configuration
		cc2, sc2 := *cc, *sc
		d := &driven{p: NewPair(&cc2, &sc2)}
		wantPSK := i > 0
		switch plan[i%len(plan)] {
		case 'o': // the very first ticket again
			if len(stock) > 0 {
				ccache.Put(goodName, stock[0])
			}
		case 'f': // the server forgot
			*scache = mint.PSKMapCache{}
			wantPSK = false
		case 'a': // both sides remember a session of twenty minutes ago
			for _, m := range []*mint.PSKMapCache{ccache, scache} {
				for k, t := range *m {
					t.ReceivedAt = t.ReceivedAt.Add(-20 * time.Minute)
					m.Put(k, t)
				}
			}
		case 'g': // the client forgot
			*ccache = mint.PSKMapCache{}
			wantPSK = false
		}
		c.Transitions(1)
		d.run()
		if d.c != hsDone || d.s != hsDone {
			c.Fail("complete", "session %d (expected to resume: %v): client %v %v, server %v %v", i, wantPSK, d.c, d.p.C.Fail, d.s, d.p.S.Fail)
		}
		if err := d.agree(variant{}); err != nil {
			c.Fail("agree", "session %d: %v", i, err)
		}
		a := d.p.C.C.ConnectionState()
		if a.UsingPSK != wantPSK {
			c.Fail("resume", "session %d: resumed=%v, want %v", i, a.UsingPSK, wantPSK)
		}
		s := ses{uint16(a.CipherSuite.Suite), a.NextProto}
		if !wantPSK {
			first = s
			stock = nil
		} else if s != first {
			c.Fail("kept", "session %d: suite %04x protocol %q, the original session had %04x %q", i, s.suite, s.alpn, first.suite, first.alpn)
		}
		if err := d.echo(nil); err != nil {
			c.Fail("data", "session %d: %v", i, err)
		}
		// the ticket arrived with the first read
		ct, ok := ccache.Get(goodName)
		if !ok {
			c.Fail("ticket", "session %d: the client has no ticket", i)
		}
		st, ok := scache.Get(hexOf(ct.Identity))
		if !ok {
			c.Fail("ticket", "session %d: the server does not know the client's ticket", i)
		}
		if !bytes.Equal(ct.Key, st.Key) || ct.CipherSuite != st.CipherSuite || uint16(ct.CipherSuite) != s.suite || ct.NextProto != st.NextProto || ct.NextProto != s.alpn || ct.TicketAgeAdd != st.TicketAgeAdd || !ct.IsResumption || !st.IsResumption {
			c.Fail("ticket", "session %d: client and server remember different things: %+v %+v", i, ct, st)
		}
		for _, o := range stock {
			if bytes.Equal(o.Identity, ct.Identity) || bytes.Equal(o.Key, ct.Key) {
				c.Fail("fresh", "session %d: ticket or key repeats", i)
			}
		}
		stock = append(stock, ct)
		c.States(1)
	}
	c.Traces(1)
	c.Outcome(fmt.Sprint("chain ", first, plan))
}

// c12Wait: the ticket takes a while to get to the client, which resumes after
// some time with a hello that takes a while to get to the server.
func c12Wait(c *Case, v c12Cfg, early bool, wait, issue, hello time.Duration) {
	cc, sc := v.cfgs()
	cc.PSKs, sc.PSKs = &mint.PSKMapCache{}, &mint.PSKMapCache{}
	if early {
		cc.AllowEarlyData, sc.AllowEarlyData = true, true
		sc.EarlyDataLifetime = 1000
	}
	d := &driven{p: NewPair(cc, sc)}
	d.run()
	if d.c != hsDone || d.s != hsDone {
		c.Fail("complete", "first session: client %v %v, server %v %v", d.c, d.p.C.Fail, d.s, d.p.S.Fail)
	}
	time.Sleep(issue)
	if err := d.echo(nil); err != nil {
		c.Fail("data", "first session: %v", err)
	}
	time.Sleep(wait)
	first := true
	d = &driven{p: NewPair(cc, sc), early: early && !v.cookie}
	d.net = func(fromClient bool, n int, b []byte) [][]byte {
		if fromClient && first {
			first = false
			time.Sleep(hello)
		}
		return [][]byte{b}
	}
	d.run()
	c.Transitions(2)
	c.Traces(1)
	if late := issue + hello; late >= 10*time.Second {
		if d.c == hsDone || d.s == hsDone {
			c.Fail("late", "a ticket whose age is %v off: client %v, server %v", late, d.c, d.s)
		}
		c.Outcome("late")
		return
	}
	if d.c != hsDone || d.s != hsDone {
		c.Fail("complete", "second session: client %v %v, server %v %v", d.c, d.p.C.Fail, d.s, d.p.S.Fail)
	}
	if err := d.agree(variant{psk: true}); err != nil {
		c.Fail("agree", "second session: %v", err)
	}
	used := d.p.S.C.ConnectionState().UsingEarlyData
	if used != d.early {
		c.Fail("early", "early data used: %v, want %v", used, d.early)
	}
	var data []byte
	if used {
		data = earlyMsg
	}
	if err := d.echo(data); err != nil {
		c.Fail("data", "second session: %v", err)
	}
	c.Outcome(fmt.Sprint("waited ", used))
}

// c12Reconf: between two sessions both applications change what they support.
func c12Reconf(c *Case, v, w c12Cfg) {
	cc, sc := v.cfgs()
	c2, s2 := w.cfgs()
	cc.PSKs, sc.PSKs = &mint.PSKMapCache{}, &mint.PSKMapCache{}
	c2.PSKs, s2.PSKs = cc.PSKs, sc.PSKs
	d := &driven{p: NewPair(cc, sc)}
	d.run()
	if d.c != hsDone || d.s != hsDone {
		c.Fail("complete", "first session: client %v %v, server %v %v", d.c, d.p.C.Fail, d.s, d.p.S.Fail)
	}
	if err := d.echo(nil); err != nil {
		c.Fail("data", "first session: %v", err)
	}
	a := d.p.C.C.ConnectionState()
	suite, proto := uint16(a.CipherSuite.Suite), a.NextProto
	has := func(l []uint16, s uint16) bool { return l == nil || has16(l, s) }
	same := has(w.csu, suite) && has(w.ssu, suite)
	keep := proto == "" || hasStr(w.calpn, proto) && hasStr(w.salpn, proto)
	d = &driven{p: NewPair(c2, s2)}
	d.run()
	c.Transitions(2)
	c.Traces(1)
	if (d.c == hsDone) != (d.s == hsDone) {
		c.Fail("agree", "second session: client %v %v, server %v %v", d.c, d.p.C.Fail, d.s, d.p.S.Fail)
	}
	if d.c != hsDone {
		if same && keep {
			c.Fail("complete", "second session: client %v %v, server %v %v; suite %04x and protocol %q are still supported", d.c, d.p.C.Fail, d.s, d.p.S.Fail, suite, proto)
		}
		c.Outcome(fmt.Sprint("reconf failed ", same, keep))
		return
	}
	if err := d.agree(variant{}); err != nil {
		c.Fail("agree", "second session: %v", err)
	}
	a = d.p.C.C.ConnectionState()
	if same && keep && !a.UsingPSK {
		c.Fail("resume", "the second session was not resumed")
	}
	if a.UsingPSK && uint16(a.CipherSuite.Suite) != suite {
		c.Fail("kept", "resumed with suite %04x, the session had %04x", a.CipherSuite.Suite, suite)
	}
	want := proto
	if len(w.calpn) == 0 {
		want = ""
	}
	if a.UsingPSK && a.NextProto != want {
		c.Fail("kept", "resumed with protocol %q, the session had %q and the client offers %q", a.NextProto, proto, w.calpn)
	}
	if a.NextProto != "" && (!hasStr(w.calpn, a.NextProto) || !hasStr(w.salpn, a.NextProto)) {
		c.Fail("agree", "protocol %q is not supported by both", a.NextProto)
	}
	if err := d.echo(nil); err != nil {
		c.Fail("data", "second session: %v", err)
	}
	c.Outcome(fmt.Sprint("reconf resumed ", a.UsingPSK, same, keep))
}

func c12Reconfs(x *Ctx, cs *Cases) {
	for _, dtls := range []bool{false, true} {
		for _, ca := range [][]string{nil, {"a"}, {"b", "a"}} {
			for _, sa := range [][]string{nil, {"a", "b"}} {
				for _, ca2 := range [][]string{nil, {"a"}, {"b"}, {"a", "b"}, {"b", "a"}, {"c"}} {
					for _, sa2 := range [][]string{nil, {"a"}, {"b"}, {"b", "a"}} {
						for _, ck := range []bool{false, true} {
							v := c12Cfg{dtls: dtls, calpn: ca, salpn: sa, tlen: 16}
							w := c12Cfg{dtls: dtls, calpn: ca2, salpn: sa2, cookie: ck, tlen: 16}
							cs.Add("reconf/"+v.String()+"/"+w.String(), func(c *Case) { c12Reconf(c, v, w) })
						}
					}
				}
			}
		}
		sub := [][]uint16{nil, {0x1301}, {0x1302}, {0x1302, 0x1301}, {0x1301, 0x1302}}
		for _, cu := range sub[1:] {
			for _, cu2 := range sub {
				for _, su2 := range sub {
					for _, ck := range []bool{false, true} {
						v := c12Cfg{dtls: dtls, csu: cu, tlen: 16}
						w := c12Cfg{dtls: dtls, csu: cu2, ssu: su2, cookie: ck, tlen: 16}
						cs.Add("reconf/"+v.String()+"/"+w.String(), func(c *Case) { c12Reconf(c, v, w) })
					}
				}
			}
		}
	}
}

func c12Real(x *Ctx, cs *Cases) {
	c12Reconfs(x, cs)
	sub := [][]uint16{nil, {0x1301}, {0x1302}, {0x1302, 0x1301}, {0x1301, 0x1302}}
	alpns := [][2][]string{{nil, nil}, {{"a"}, {"a"}}, {{"a", "b"}, {"b", "a"}}, {{"a", "b"}, {"b"}}, {{"a"}, {"b"}}, {{"a"}, nil}, {nil, {"a"}}}
	var vs []c12Cfg
	for _, dtls := range []bool{false, true} {
		for _, su := range sub {
			for _, ss := range sub {
				if su != nil && ss != nil && !has16(su, ss[0]) && !has16(ss, su[0]) {
					continue
				}
				for _, al := range alpns {
					for _, ck := range []bool{false, true} {
						for _, m := range [][]int{nil, {0}, {1}} {
							if m != nil && !x.Thorough() && (su != nil || ss != nil) {
								continue
							}
							vs = append(vs, c12Cfg{dtls: dtls, csu: su, ssu: ss, calpn: al[0], salpn: al[1], cookie: ck, modes: m})
						}
					}
				}
			}
		}
		for _, tl := range []int{8, 16, 32, 255, 256, 1000, 3000, 17000, 60000} {
			vs = append(vs, c12Cfg{dtls: dtls, tlen: tl})
		}
		vs = append(vs, c12Cfg{dtls: dtls, cr: true}, c12Cfg{dtls: dtls, cr: true, cookie: true})
	}
	sec, day := time.Second, 24*time.Hour
	waits := []time.Duration{0, 1, 999 * time.Microsecond, time.Millisecond, 999 * time.Millisecond, sec, 4999 * time.Millisecond, 5001 * time.Millisecond, 20 * sec, 65535 * time.Millisecond, 65536 * time.Millisecond, 65537 * time.Millisecond, time.Hour, day, 7 * day}
	delays := []time.Duration{0, 1, time.Millisecond, 500 * time.Millisecond, 2400 * time.Millisecond, 4900 * time.Millisecond, 10 * sec, 15 * sec, time.Hour}
	for _, dtls := range []bool{false, true} {
		for _, cookie := range []bool{false, true} {
			for _, early := range []bool{false, true} {
				for _, suites := range [][]uint16{nil, {0x1302}} {
					v, early := c12Cfg{dtls: dtls, cookie: cookie, csu: suites, tlen: 32}, early
					for _, wait := range waits {
						for _, issue := range delays {
							for _, hello := range delays {
								wait, issue, hello := wait, issue, hello
								if late := issue + hello; late < 10*sec && late > 4950*time.Millisecond {
									continue
								}
								cs.Add(fmt.Sprintf("wait/%v/early=%v/%v/%v/%v", v, early, wait, issue, hello), func(c *Case) { c12Wait(c, v, early, wait, issue, hello) })
							}
						}
					}
				}
			}
		}
	}
	for _, v := range vs {
		v := v
		plans := []string{"rrrr", "rro", "rrfr", "rrgr", "rar"}
		if x.Thorough() {
			plans = nil
			for _, a := range "rofga" {
				for _, b := range "rofga" {
					for _, d := range "rofga" {
						plans = append(plans, "r"+string(a)+string(b)+string(d))
					}
				}
			}
		}
		for _, pl := range plans {
			pl := pl
			cs.Add("chain/"+v.String()+"/"+pl, func(c *Case) { c12Chain(c, v, len(pl), pl) })
		}
	}
}

// ---- tickets for a real client and from a real server, reference peer ---------

func c12Peer(x *Ctx, cs *Cases) {
	for _, dtls := range []bool{false, true} {
		for _, suite := range []uint16{0x1301, 0x1302} {
			for _, nonce := range []int{0, 1, 2, 8, 255} {
				for _, tl := range []int{1, 2, 32, 255, 256, 1000, 30000} {
					if dtls && tl > 1000 {
						continue
					}
					for _, add := range []uint32{0, 1, 0x80000000, 0xffffffff} {
						for _, alpn := range []string{"", "h2"} {
							for _, many := range []int{1, 2, 3} {
								if !x.Thorough() && many == 3 && nonce != 8 {
									continue
								}
								for _, old := range []time.Duration{0, 41 * time.Second, 100 * time.Hour} {
									if old != 0 && nonce != 8 {
										continue
									}
									cs.Add(fmt.Sprintf("client/dtls=%v/%04x/nonce%d/len%d/add%x/%q/%d/%v", dtls, suite, nonce, tl, add, alpn, many, old), func(c *Case) {
										c12Client(c, dtls, suite, nonce, tl, add, alpn, many, old)
									})
								}
							}
						}
					}
				}
			}
			for _, tl := range []int{0, 1, 16, 255, 1000} {
				for _, mode := range []int{0, 1} {
					for _, how := range []string{"ok", "otherkey", "otherage", "otherid", "otherlabel"} {
						cs.Add(fmt.Sprintf("issued/dtls=%v/%04x/len%d/mode%d/%s", dtls, suite, tl, mode, how), func(c *Case) {
							c12Issued(c, dtls, suite, tl, mode, how)
						})
					}
				}
			}
		}
	}
}

// c12Client: a real client resumes with a ticket of the reference server.
func c12Client(c *Case, dtls bool, suite uint16, nonce, tl int, add uint32, alpn string, many int, old time.Duration) {
	cache := &mint.PSKMapCache{}
	cfg := func() *mint.Config {
		cfg := clientCfg()
		cfg.UseDTLS = dtls
		cfg.PSKs = cache
		if alpn != "" {
			cfg.NextProtos = []string{"x", alpn}
		}
		return cfg
	}
	ee := Exts{}
	if alpn != "" {
		ee.set(xALPN, alpnData([]string{alpn}))
	}
	e := NewEnd(cfg(), true)
	p := newPuppet(false, e)
	e.Step()
	p.RecvCH()
	p.SendSH(p.DefaultSH(suite, gX25519, false), gX25519)
	p.SendEE(ee)
	p.sendAuth(defaultAuth("p256"))
	if r := e.Step(); r != hsDone {
		c.Fail("handshake", "client: %v %v", r, e.Fail)
	}
	p.RecvClientFlight()
	var last *ticket
	for i := 0; i < many; i++ {
		last = &ticket{Lifetime: 3600, AgeAdd: add, Nonce: bytes.Repeat([]byte{byte(i + 1)}, nonce), Ticket: bytes.Repeat([]byte{byte(0x40 + i)}, tl)}
		p.SendNST(last)
	}
	e.ReadAll(100)
	got := realNow()
	for k, t := range *cache {
		t.ReceivedAt = t.ReceivedAt.Add(-old)
		cache.Put(k, t)
	}
	// the next session
	e = NewEnd(cfg(), true)
	p = newPuppet(false, e)
	e.Step()
	p.RecvCH()
	ids, _ := parsePSK(p.CH.Exts.get(xPSK))
	if len(ids) != 1 || !bytes.Equal(ids[0].ID, last.Ticket) {
		c.Fail("offer", "the client does not offer the latest ticket")
	}
	age := int64(ids[0].Age-add) & 0xffffffff
	if passed := int64((realNow().Sub(got)+old)/time.Millisecond) + 1; age > passed || age < int64(old/time.Millisecond)-1 {
		c.Fail("age", "the ticket is %v and at most %d ms old, the client claims %d (%x with %x added)", old, passed, age, ids[0].Age, add)
	}
	p.UsePSK(last.PSK, suite, true)
	if err := p.BinderOK(); err != nil {
		c.Fail("binder", "%v", err)
	}
	if !has16(p.CH.Suites, suite) {
		c.Fail("suite", "the client resumes a %04x session but offers %04x", suite, p.CH.Suites)
	}
	p.SendSH(p.DefaultSH(suite, gX25519, true), gX25519)
	p.SendEE(ee)
	p.SendServerFin()
	if r := e.Step(); r != hsDone {
		c.Fail("resume", "client: %v %v", r, e.Fail)
	}
	p.RecvClientFlight()
	st := e.C.ConnectionState()
	if !st.UsingPSK || uint16(st.CipherSuite.Suite) != suite || st.NextProto != alpn {
		c.Fail("report", "%+v", st)
	}
	dataBothWays(c, e, p, "12")
	c.Outcome(fmt.Sprint("client ", dtls, suite, alpn))
}

// c12Issued: the reference client resumes with a ticket of a real server.
func c12Issued(c *Case, dtls bool, suite uint16, tl, mode int, how string) {
	cfg := serverCfg("p256")
	cfg.UseDTLS = dtls
	cfg.SendSessionTickets = true
	cfg.TicketLen = tl
	cfg.PSKs = &mint.PSKMapCache{}
	e := NewEnd(cfg, false)
	p := newPuppet(true, e)
	o := defaultCH()
	o.Suites = []uint16{suite}
	p.SendCH(o)
	e.Step()
	p.RecvSH()
	p.RecvServerFlight()
	p.SendClientFlight(nil)
	if r := e.Step(); r != hsDone {
		c.Fail("handshake", "server: %v %v", r, e.Fail)
	}
	p.Drain()
	if len(p.Tickets) != 1 {
		c.Fail("ticket", "%d tickets were sent", len(p.Tickets))
	}
	t := p.Tickets[0]
	if tl > 0 && len(t.Ticket) != tl {
		c.Fail("length", "the ticket has %d bytes, %d are configured", len(t.Ticket), tl)
	}
	cfg2 := *cfg
	e = NewEnd(&cfg2, false)
	p = newPuppet(true, e)
	o.Modes = []int{mode}
	key, id, age, res := t.PSK, t.Ticket, t.age(1), true
	fail := true
	switch how {
	case "ok":
		fail = false
	case "otherkey":
		key = append([]byte{}, key...)
		key[3] ^= 4
	case "otherage":
		age += 20000
	case "otherid":
		id = append(append([]byte{}, id...), 0)
		fail = false
	case "otherlabel":
		res = false
	}
	o.PSKIDs = []pskID{{id, age}}
	o.PSKKeys, o.PSKSuites, o.PSKRes = [][]byte{key}, []uint16{suite}, []bool{res}
	p.SendCH(o)
	r := e.Step()
	if (r == hsFailed) != fail {
		c.Fail("resume", "%s: %v %v", how, r, e.Fail)
	}
	if fail {
		c.Outcome("issued refused")
		return
	}
	p.RecvSH()
	if p.SH.Exts.has(xPSK) != (how == "ok") {
		c.Fail("resumed", "%s: resumed=%v", how, p.SH.Exts.has(xPSK))
	}
	if how == "ok" && (p.SH.Exts.get(xKeyShare) != nil) != (mode == 1) {
		c.Fail("mode", "psk mode %d: key share sent %v", mode, p.SH.Exts.get(xKeyShare) != nil)
	}
	p.RecvServerFlight()
	p.SendClientFlight(nil)
	if r := e.Step(); r != hsDone {
		c.Fail("complete", "server: %v %v", r, e.Fail)
	}
	dataBothWays(c, e, p, "12")
	c.Outcome("issued " + how)
}

func init() {
	register("C12", "model_checking", func(x *Ctx) {
		x.Rule("all lists of up to k identities (known, unknown, near-miss; external and resumption; both hashes) x binder faults x ticket ages x modes x suites x retry x transport offered to a real server and compared with a model of RFC 8446 4.2.11; all chains of sessions under a plan of remembering, forgetting and re-using tickets between real endpoints; every ticket form issued to a real client by the reference server and the reverse; distinct = outcome classes")
		x.Assume("ticket ages between 3 and 9 s off get no verdict (the tolerance is the implementation's)")
		cs := &Cases{}
		c12Server(x, cs)
		c12Real(x, cs)
		c12Peer(x, cs)
		x.Run(cs, 0)
	})
}
