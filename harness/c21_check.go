package vharness

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/bifurcation/mint"
)

// C21: the same history under every way of cutting and packing its bytes, with
// blocking and non-blocking calls.

// c21Pack decides how a peer packs one run of handshake messages under the same
// keys: given the ends of the messages it returns the ends of the records.
type c21Pack func(group int, ends []int) []int

func c21Plain(group int, ends []int) []int { return ends }

// c21Hist is one history: the subject and what its peer produces, phase by
// phase.  A phase runs when the subject has taken everything and is waiting.
type c21Hist struct {
	name   string
	dtls   bool
	client bool
	fails  bool // the subject is expected to fail; where is open
	groups bool // the packing applies
	make   func(c *Case, blocking bool, pk c21Pack) (*End, []func() []byte)
	mut    func(i int, rec []byte) []byte
	eof    bool
}

// c21Run is one execution.
type c21Run struct {
	c      *Case
	h      *c21Hist
	e      *End
	phases []func() []byte
	avail  []byte // produced and not yet delivered
	total  []byte // everything produced
	nrec   int
	own    int // writes made by the phases
	recs   int // complete records delivered
	parsed int // offset up to which recs counts
	off    int // bytes delivered
	data   []byte
	err    error
	over   bool // the subject has failed
	snaps  []string
	block  bool
	sum    int
	summed int
	polls  int
	ref    *c21Run
	plan   c21Plan
	end    bool // nothing more will come
}

// c21Plan: where delivery pauses.
type c21Plan struct {
	cuts  []int
	size  int  // every so many bytes
	rec   bool // after every record
	recs  []bool
	limit int // transport reads return at most this many bytes
}

func (p c21Plan) String() string {
	s := fmt.Sprintf("cuts=%v", p.cuts)
	if p.size > 0 {
		s = fmt.Sprintf("size=%d", p.size)
	}
	if p.rec {
		s = "records"
	}
	if p.recs != nil {
		s = "together="
		for _, b := range p.recs {
			s += map[bool]string{true: "+", false: "|"}[b]
		}
	}
	if p.limit > 0 {
		s += fmt.Sprintf(",limit=%d", p.limit)
	}
	return s
}

func (r *c21Run) recLen(b []byte) int {
	h := 5
	if r.h.dtls {
		if len(b) > 0 && b[0]&0xe0 == 0x20 {
			panic("short header")
		}
		h = 13
	}
	if len(b) < h {
		return -1
	}
	n := h + int(b[h-2])<<8 + int(b[h-1])
	if n > len(b) {
		return -1
	}
	return n
}

// produce runs the next phases until there is something to deliver.
func (r *c21Run) produce() bool {
	for len(r.avail) == 0 {
		if len(r.phases) == 0 {
			return false
		}
		f := r.phases[0]
		r.phases = r.phases[1:]
		before := r.e.W.writes
		b := f()
		r.own += r.e.W.writes - before
		if r.h.mut != nil {
			var out []byte
			for len(b) > 0 {
				n := r.recLen(b)
				if n < 0 {
					panic(peerError("the peer's output is not whole records"))
				}
				out = append(out, r.h.mut(r.nrec, b[:n:n])...)
				r.nrec++
				b = b[n:]
			}
			b = out
		}
		r.avail = append(r.avail, b...)
		r.total = append(r.total, b...)
	}
	return true
}

// chunk delivers the next piece.
func (r *c21Run) chunk() bool {
	if r.over || !r.produce() {
		if r.h.eof && !r.end {
			r.end = true
			r.e.W.eof = true
			return true
		}
		return false
	}
	n := len(r.avail)
	p := r.plan
	switch {
	case p.rec:
		if k := r.recLen(r.avail); k > 0 {
			n = k
		}
	case p.recs != nil:
		k := 0
		i := r.recs
		for {
			m := r.recLen(r.avail[k:])
			if m < 0 {
				k = len(r.avail)
				break
			}
			k += m
			together := i < len(p.recs) && p.recs[i]
			i++
			if k == len(r.avail) || !together {
				break
			}
		}
		n = k
	case p.size > 0:
		if p.size < n {
			n = p.size
		}
	default:
		for _, c := range p.cuts {
			if c > r.off && c < r.off+n {
				n = c - r.off
				break
			}
		}
	}
	r.e.W.feed(r.avail[:n])
	r.avail = r.avail[n:]
	r.off += n
	for {
		k := r.recLen(r.total[r.parsed:r.off])
		if k < 0 {
			break
		}
		r.parsed += k
		r.recs++
	}
	return true
}

func (r *c21Run) snap() string {
	st := r.e.C.ConnectionState()
	for ; r.summed < len(r.data); r.summed++ {
		r.sum += (r.summed + 1) * int(r.data[r.summed])
	}
	s := fmt.Sprintf("%v failed=%v/%v data=%d/%d err=%v writes=%d", st.HandshakeState, r.e.Failed, r.e.Fail, len(r.data), r.sum, r.err, r.e.W.writes-r.own)
	if r.e.Connected() {
		s += fmt.Sprintf(" %v %q psk=%v early=%v certs=%d", st.CipherSuite.Suite, st.NextProto, st.UsingPSK, st.UsingEarlyData, len(st.PeerCertificates))
	}
	return s
}

// settle calls the subject until it needs more input.
func (r *c21Run) settle() {
	e := r.e
	buf := make([]byte, 700)
	for i := 0; !r.over && i < 100000; i++ {
		r.polls = 0
		if !e.Connected() {
			switch e.Step() {
			case hsFailed:
				r.over = true
				return
			case hsBlocked:
				if e.W.pending() > 0 && !r.h.dtls {
					r.c.Fail("spurious", "Handshake would block with %d bytes waiting, after %d bytes (%d records)", e.W.pending(), r.off, r.recs)
				}
				if e.W.pending() == 0 {
					return
				}
			}
			continue
		}
		n, err := e.C.Read(buf)
		if n < 0 || n > len(buf) || n == 0 && err == nil {
			r.c.Fail("read", "Read returns %d, %v", n, err)
		}
		r.data = append(r.data, buf[:n]...)
		switch {
		case err == nil:
		case err == mint.AlertWouldBlock:
			if n != 0 {
				r.c.Fail("read", "Read returns %d bytes and would-block", n)
			}
			if e.W.pending() > 0 && !r.h.dtls {
				r.c.Fail("spurious", "Read would block with %d bytes waiting, after %d bytes (%d records)", e.W.pending(), r.off, r.recs)
			}
			if e.W.pending() == 0 {
				return
			}
		case err == errStall:
			return
		default:
			r.err = err
			r.over = true
		}
	}
	if !r.over {
		r.c.Fail("spin", "the subject makes no progress")
	}
}

func c21Do(c *Case, h *c21Hist, plan c21Plan, blocking bool, pk c21Pack, ref *c21Run) *c21Run {
	if pk == nil {
		pk = c21Plain
	}
	sort.Ints(plan.cuts)
	r := &c21Run{c: c, h: h, plan: plan, block: blocking, ref: ref}
	r.e, r.phases = h.make(c, blocking, pk)
	r.e.W.readMax = plan.limit
	if blocking {
		stalled := false
		r.e.W.onEmpty = func() bool {
			more := r.chunk()
			stalled = stalled || !more && !r.end
			return more && !r.end
		}
		a := r.e.C.Handshake()
		if a != mint.AlertNoAlert {
			r.e.Failed, r.e.Fail = true, a
			r.over = true
			if stalled && ref != nil {
				// still waiting when the harness gave up
				if a, b := r.e.C.ConnectionState().HandshakeState, ref.e.C.ConnectionState().HandshakeState; a != b || ref.over {
					c.Fail("outcome", "waits in %v; whole records: %v", a, ref.snap())
				}
				return r
			}
			if a == mint.AlertWouldBlock {
				c.Fail("blocking", "a blocking Handshake would block")
			}
		} else if !r.e.Connected() {
			c.Fail("blocking", "a blocking Handshake returns nothing in state %v", r.e.C.ConnectionState().HandshakeState)
		}
		r.settle()
	} else {
		r.e.W.onEmpty = func() bool {
			if r.polls++; r.polls > 60 {
				c.Fail("blocks", "a non-blocking call polls an empty transport")
			}
			return false
		}
		r.settle()
		r.snaps = append(r.snaps, r.snap())
		for r.chunk() {
			r.settle()
			s := r.snap()
			if plan.rec && r.off == r.parsed && !r.end {
				for len(r.snaps) <= r.recs {
					r.snaps = append(r.snaps, "")
				}
				r.snaps[r.recs] = s
			}
			if ref != nil && !r.over && !r.end && !(h.fails && (len(ref.snaps) <= r.recs || r.off != r.parsed)) {
				if r.recs >= len(ref.snaps) || ref.snaps[r.recs] != s && !(r.off == r.parsed && ref.snaps[r.recs] == "") {
					want := "(none)"
					if r.recs < len(ref.snaps) {
						want = ref.snaps[r.recs]
					}
					c.Fail("differs", "after %d bytes (%d complete records): %s\nwhole records: %s", r.off, r.recs, s, want)
				}
			}
		}
	}
	c.Transitions(r.off)
	c.Traces(1)
	if !h.fails {
		if r.over || !r.e.Connected() || len(r.phases) > 0 {
			c.Fail("failed", "%s", r.snap())
		}
	}
	if ref != nil {
		a, b := r.snap(), ref.snap()
		if a != b {
			c.Fail("outcome", "%s\nwhole records: %s", a, b)
		}
	}
	c.Outcome(fmt.Sprintf("%v %v %v %v", h.client, r.e.Connected(), r.e.Fail, r.err))
	return r
}

// ---- histories -----------------------------------------------------------

// c21Packed seals captured messages according to the packing.
func c21Packed(p *Puppet, pk c21Pack, group *int) []byte {
	var out []byte
	caps := p.caps
	p.caps = nil
	for i := 0; i < len(caps); {
		j := i
		var all []byte
		var ends []int
		for j < len(caps) && caps[j].h == caps[i].h {
			all = append(all, caps[j].raw...)
			ends = append(ends, len(all))
			j++
		}
		at := 0
		if p.dtls {
			for k := i; k < j; k++ {
				out = append(out, p.sealRecord(caps[i].h, rtHS, caps[k].raw, 0)...)
			}
		} else {
			for _, e := range pk(*group, ends) {
				if e > at && e <= len(all) {
					out = append(out, p.sealRecord(caps[i].h, rtHS, all[at:e], 0)...)
					at = e
				}
			}
			if at < len(all) {
				out = append(out, p.sealRecord(caps[i].h, rtHS, all[at:], 0)...)
			}
		}
		*group++
		i = j
	}
	return out
}

func c21Hists(dtls bool) (out []*c21Hist) {
	for _, kind := range []string{"cert", "psk", "retry", "mutual", "early"} {
		for _, client := range []bool{true, false} {
			kind, client := kind, client
			if kind == "early" && (client || dtls) {
				continue
			}
			h := &c21Hist{name: fmt.Sprintf("%s/%s", map[bool]string{true: "dtls", false: "tls"}[dtls], kind), dtls: dtls, client: client, groups: true}
			h.name += map[bool]string{true: "/client", false: "/server"}[client]
			h.make = func(c *Case, blocking bool, pk c21Pack) (*End, []func() []byte) {
				return c21Make(c, dtls, client, blocking, kind, pk, nil)
			}
			out = append(out, h)
		}
	}
	return
}

// c21Make builds a history between a real end and the reference peer.
func c21Make(c *Case, dtls, client, blocking bool, kind string, pk c21Pack, evil func(p *Puppet)) (*End, []func() []byte) {
	group := 0
	var e *End
	var p *Puppet
	step := func(f func()) func() []byte {
		return func() []byte {
			p.capture, p.hold = true, true
			p.held = nil
			f()
			if evil != nil {
				evil(p)
			}
			out := c21Packed(p, pk, &group)
			p.capture, p.hold = false, false
			out = append(out, p.held...)
			p.held = nil
			return out
		}
	}
	// what follows the handshake on both sides
	after := []func(){
		func() {
			p.capture = false
			p.SendApp([]byte("first"))
			p.SendApp(patBytes[0][:400])
			p.SendApp([]byte("x"))
		},
		func() {
			for _, m := range []string{"hello", "world"} {
				if n, err := e.C.Write([]byte(m)); n != 5 || err != nil {
					peerFail("%d %v", n, err)
				}
			}
			p.SendKU(0)
			p.capture = false
		},
		func() {
			p.Drain()
			if string(p.App) != "helloworld" {
				peerFail("the peer has %q", p.App)
			}
			p.SendApp([]byte("under new keys"))
			p.capture = false
			p.SendKU(1)
		},
		func() {
			p.Drain()
			p.capture = false
			p.SendApp([]byte("and newer ones"))
			if n, err := e.C.Write([]byte("end")); n != 3 || err != nil {
				peerFail("%d %v", n, err)
			}
		},
		func() {
			p.Drain()
			if string(p.App) != "helloworldend" {
				peerFail("the peer has %q", p.App)
			}
		},
	}
	var fs []func()
	if client {
		cfg := clientCfg()
		cfg.UseDTLS = dtls
		cfg.NonBlocking = !blocking
		cfg.NextProtos = []string{"h2"}
		cfg.Certificates = mintCerts("client")
		if kind == "psk" {
			withClientPSK(cfg, 0x1301, thePSK, mint.PSKModeDHEKE)
		}
		e = NewEnd(cfg, true)
		p = newPuppet(false, e)
		if kind == "retry" {
			fs = append(fs, func() { p.RecvCH(); p.SendHRR(0x1301, hrrExts([]byte("a cookie"))) })
		}
		fs = append(fs, func() {
			p.RecvCH()
			if kind == "psk" {
				p.UsePSK(thePSK, 0x1301, false)
				p.SendSH(p.DefaultSH(0x1301, gX25519, true), gX25519)
			} else {
				p.SendSH(p.DefaultSH(0x1301, gX25519, false), gX25519)
			}
			p.SendEE(Exts{{xALPN, alpnData([]string{"h2"})}})
			if kind == "psk" {
				p.SendServerFin()
				return
			}
			if kind == "mutual" {
				p.SendCR([]uint16{0x0403, 0x0804})
			}
			p.sendAuth(defaultAuth("p256"))
		}, func() {
			p.RecvClientFlight()
			p.SendNST(&ticket{Lifetime: 1000, AgeAdd: 7, Nonce: []byte{1}, Ticket: []byte("ticket one")})
			p.SendNST(&ticket{Lifetime: 1000, AgeAdd: 8, Nonce: []byte{2}, Ticket: bytes.Repeat([]byte("t"), 40)})
		})
	} else {
		cfg := serverCfg("p256")
		cfg.UseDTLS = dtls
		cfg.NonBlocking = !blocking
		cfg.NextProtos = []string{"h2"}
		cfg.SendSessionTickets = true
		cfg.RequireClientAuth = kind == "mutual"
		o := defaultCH()
		o.ALPN = []string{"h2"}
		if kind == "retry" {
			cfg.RequireCookie = true
			cfg.CookieProtector = fixedProtector()
		}
		if kind == "psk" || kind == "early" {
			cfg.PSKs = &mint.PSKMapCache{hexOf([]byte("psk-id")): mintPSK(0x1301, []byte("psk-id"), thePSK, false)}
			cfg.AllowEarlyData = true
			o.PSKIDs = []pskID{{[]byte("psk-id"), 0}}
			o.PSKKeys, o.PSKSuites, o.PSKRes = [][]byte{thePSK}, []uint16{0x1301}, []bool{false}
			o.Modes = []int{1}
			o.Early = kind == "early"
		}
		e = NewEnd(cfg, false)
		p = newPuppet(true, e)
		fs = append(fs, func() {
			p.SendCH(o)
			if kind == "early" {
				caps := p.caps
				p.caps = nil
				p.capture = false
				for _, m := range caps {
					p.emit(p.sealRecord(m.h, rtHS, m.raw, 0))
				}
				p.SendApp([]byte("early "))
				p.SendApp(patBytes[1][:300])
			}
		})
		if kind == "retry" {
			fs = append(fs, func() {
				_, cookie := p.RecvSH()
				o.Cookie = cookie
				p.SendCH(o)
			})
		}
		fs = append(fs, func() {
			p.RecvSH()
			p.RecvServerFlight()
			var who *ident
			if kind == "mutual" {
				who = id("client")
			}
			p.SendClientFlight(who)
		})
		after[0] = func() {
			p.Drain()
			p.capture = false
			p.SendApp([]byte("first"))
			p.SendApp(patBytes[0][:400])
			p.SendApp([]byte("x"))
		}
	}
	fs = append(fs, after...)
	var phases []func() []byte
	for _, f := range fs {
		phases = append(phases, step(f))
	}
	return e, phases
}

// c21Pair: the subject's peer is a real end.
func c21Pair(v variant, client bool) *c21Hist {
	h := &c21Hist{name: v.name + "/real/" + map[bool]string{true: "client", false: "server"}[client], dtls: v.dtls, client: client}
	h.make = func(c *Case, blocking bool, _ c21Pack) (*End, []func() []byte) {
		cc, sc := v.cfgs()
		if v.ticket {
			cc.PSKs = &mint.PSKMapCache{}
		}
		if client {
			cc.NonBlocking = !blocking
		} else {
			sc.NonBlocking = !blocking
		}
		pr := NewPair(cc, sc)
		e, o := pr.S, pr.C
		if client {
			e, o = o, e
		}
		out := func() (b []byte) {
			for _, w := range o.W.take() {
				b = append(b, w...)
			}
			return
		}
		var got []byte
		wrote := false
		read := func() {
			for i := 0; i < 3; i++ {
				for _, b := range e.W.take() {
					o.W.feed(b)
				}
				if !o.Connected() {
					if o.Step() == hsFailed && !h.fails {
						c.Fail("peer", "the other end: %v", o.Fail)
					}
					if v.early && !client && !wrote {
						wrote = true
						o.C.Write(earlyMsg)
					}
				}
				if o.Connected() {
					b, err := o.ReadAll(5000)
					if err != nil && !h.fails {
						c.Fail("peer", "the other end: %v", err)
					}
					got = append(got, b...)
				}
			}
		}
		var want []byte
		write := func(n int) {
			if e.Connected() {
				b := patBytes[1][len(want) : len(want)+n]
				if m, err := e.C.Write(b); m != n || err != nil {
					c.Fail("write", "%d %v", m, err)
				}
				want = append(want, b...)
			}
		}
		var ph []func() []byte
		pump := func() []byte { read(); return out() }
		for i := 0; i < 4; i++ {
			ph = append(ph, pump)
		}
		ph = append(ph, func() []byte {
			write(100)
			o.C.Write(patBytes[0][:600])
			o.C.SendKeyUpdate(true)
			o.C.Write(patBytes[0][600:700])
			return pump()
		}, func() []byte { write(17000); return pump() }, func() []byte {
			o.C.Write(patBytes[0][700:800])
			return pump()
		}, func() []byte {
			pump()
			if !bytes.Equal(got, want) && !h.fails {
				c.Fail("data", "the other end has %d of %d bytes", len(got), len(want))
			}
			return nil
		})
		return e, ph
	}
	return h
}

// c21Faulty lists failing versions of a history.
func c21Faulty(h *c21Hist, nrec int) (out []*c21Hist) {
	add := func(name string, eof bool, at int, f func(rec []byte) []byte) {
		g := *h
		g.name += fmt.Sprintf("/record%d-%s", at, name)
		g.fails = true
		g.eof = eof
		g.make = func(c *Case, blocking bool, pk c21Pack) (*End, []func() []byte) {
			e, ph := h.make(c, blocking, pk)
			for i := range ph {
				p := ph[i]
				ph[i] = func() (b []byte) {
					// the peer may not like what the subject does then
					was := c.failed
					if recovered(func() { b = p() }) != "" {
						if !was && (c.kind == "peer" || c.kind == "data") {
							c.failed = false
						}
						return nil
					}
					return b
				}
			}
			return e, ph
		}
		g.mut = func(i int, rec []byte) []byte {
			if i == at {
				return f(append([]byte{}, rec...))
			}
			if eof && i > at {
				return nil
			}
			return rec
		}
		out = append(out, &g)
	}
	for at := 0; at < nrec; at++ {
		add("last", false, at, func(r []byte) []byte { r[len(r)-1] ^= 1; return r })
		add("first", false, at, func(r []byte) []byte { r[5] ^= 0x40; return r })
		add("type", false, at, func(r []byte) []byte { r[0] = 99; return r })
		add("alert", false, at, func(r []byte) []byte { return append([]byte{21, 3, 3, 0, 2, 2, 40}, r...) })
		add("empty", false, at, func(r []byte) []byte { return append([]byte{r[0], 3, 3, 0, 0}, r...) })
		add("big", true, at, func(r []byte) []byte { r[3], r[4] = 0xff, 0xff; return r })
		add("drop", true, at, func(r []byte) []byte { return nil })
		add("cut1", true, at, func(r []byte) []byte { return r[:1] })
		add("cut5", true, at, func(r []byte) []byte { return r[:5] })
		add("cutlast", true, at, func(r []byte) []byte { return r[:len(r)-1] })
		add("end", true, at, func(r []byte) []byte { return r })
	}
	return
}

func init() {
	register("C21", "model_checking", func(x *Ctx) {
		x.Rule("for each history (handshake, data, tickets and key updates of a real end, against the reference peer and against a real end; also histories with a fault): every cut of the byte stream, pairs of cuts, every chunk size, every limit on a transport read, every packing of a run of messages into records (every single cut, pairs, sizes, subsets of message ends), every packing of records into datagrams, blocking and non-blocking; the state after every chunk must be that of the whole records delivered so far, and the outcome that of record-by-record delivery")
		cs := &Cases{}
		probe := func(h *c21Hist) *c21Run {
			var r *c21Run
			recovered(func() { r = c21Do(&Case{rerun: true}, h, c21Plan{rec: true}, false, nil, nil) })
			return r
		}
		refOf := func(c *Case, h *c21Hist) *c21Run {
			return c21Do(c, h, c21Plan{rec: true}, false, nil, nil)
		}
		one := func(h *c21Hist, plan c21Plan, blocking bool, ref *c21Run) {
			cs.Add(fmt.Sprintf("%s/blocking=%v/%v", h.name, blocking, plan), func(c *Case) {
				c21Do(c, h, c21Plan{append([]int{}, plan.cuts...), plan.size, plan.rec, plan.recs, plan.limit}, blocking, nil, ref)
			})
		}
		var hists []*c21Hist
		for _, d := range []bool{false, true} {
			hists = append(hists, c21Hists(d)...)
		}
		names := []string{"tls/cert-cr-cookie", "tls/psk-early-alpn", "tls/psk-early-rejected", "dtls/cert-cr", "dtls/psk-cookie"}
		if x.Thorough() {
			names = nil
			for _, d := range []bool{false, true} {
				for _, v := range hsVariants(d) {
					names = append(names, v.name)
				}
			}
		}
		for _, n := range names {
			v := variantByName(n)
			v.ticket = true
			hists = append(hists, c21Pair(v, true), c21Pair(v, false))
		}
		for _, h := range hists {
			h := h
			ref := probe(h)
			if ref == nil {
				cs.Add(h.name+"/reference", func(c *Case) { refOf(c, h) })
				continue
			}
			one(h, c21Plan{rec: true}, true, ref)
			one(h, c21Plan{}, true, ref)
			one(h, c21Plan{}, false, ref)
			if h.dtls {
				// every grouping of consecutive records of a phase
				n := len(ref.snaps)
				if n > 16 {
					n = 16
				}
				for m := 0; m < 1<<uint(n); m++ {
					if !x.Thorough() && n > 10 && m%17 != 0 && m >= 1024 {
						continue
					}
					b := make([]bool, n)
					for i := range b {
						b[i] = m>>uint(i)&1 == 1
					}
					one(h, c21Plan{recs: b}, false, ref)
					if m%8 == 0 {
						one(h, c21Plan{recs: b}, true, ref)
					}
				}
				continue
			}
			total := len(ref.total)
			for k := 1; k < total; k++ {
				one(h, c21Plan{cuts: []int{k}}, false, ref)
				if x.Thorough() || k%7 == 0 {
					one(h, c21Plan{cuts: []int{k}}, true, ref)
				}
			}
			for n := 1; n <= 300; n++ {
				if !x.Thorough() && n > 64 && n%16 > 1 {
					continue
				}
				for _, b := range []bool{false, true} {
					one(h, c21Plan{size: n}, b, ref)
					one(h, c21Plan{limit: n}, b, ref)
					if n < 10 {
						one(h, c21Plan{size: 7, limit: n}, b, ref)
						one(h, c21Plan{rec: true, limit: n}, b, ref)
					}
				}
			}
			var near []int
			for at := 0; at < total; {
				n := ref.recLen(ref.total[at:])
				for _, d := range []int{1, 4, 5, 6, 9, n / 2, n - 1, n} {
					near = append(near, at+d)
				}
				at += n
			}
			for i := range near {
				for j := i + 1; j < len(near); j++ {
					if near[j] < total && (x.Thorough() || (i+j)%3 == 0) {
						one(h, c21Plan{cuts: []int{near[i], near[j]}}, false, ref)
						if x.Thorough() {
							one(h, c21Plan{cuts: []int{near[i], near[j]}}, true, ref)
						}
					}
				}
			}
			if x.Thorough() && (h.name == "tls/psk/client" || h.name == "tls/psk/server") {
				for i := 1; i < 900 && i < total; i++ {
					for j := i + 1; j < 900 && j < total; j++ {
						one(h, c21Plan{cuts: []int{i, j}}, false, ref)
					}
				}
			}
			// packing
			if h.groups {
				pack := func(name string, pk c21Pack) {
					for _, plan := range []c21Plan{{}, {size: 1}} {
						for _, b := range []bool{false, true} {
							plan, b := plan, b
							if plan.size == 1 && b {
								plan = c21Plan{size: 11}
							}
							cs.Add(fmt.Sprintf("%s/blocking=%v/%v/%s", h.name, b, plan, name), func(c *Case) {
								c21Do(c, h, plan, b, pk, nil)
							})
						}
					}
				}
				var ends [][]int
				recovered(func() {
					c21Do(&Case{rerun: true}, h, c21Plan{}, false, func(g int, e []int) []int { ends = append(ends, e); return e }, nil)
				})
				for g, e := range ends {
					g, e := g, e
					last := e[len(e)-1]
					for k := 1; k < last; k++ {
						k := k
						pack(fmt.Sprintf("group%d-cut%d", g, k), func(i int, e []int) []int {
							if i == g {
								return []int{k, e[len(e)-1]}
							}
							return e
						})
					}
					var near []int
					at := 0
					for _, k := range e {
						for _, d := range []int{1, 3, 4, 5, k - at - 1, k - at} {
							near = append(near, at+d)
						}
						at = k
					}
					for i := range near {
						for j := i + 1; j < len(near); j++ {
							a, b := near[i], near[j]
							if a >= b {
								continue
							}
							pack(fmt.Sprintf("group%d-cuts%d-%d", g, a, b), func(i int, e []int) []int {
								if i == g {
									return []int{a, b, e[len(e)-1]}
								}
								return e
							})
						}
					}
					for m := 0; m < 1<<uint(len(e)-1); m++ {
						m := m
						pack(fmt.Sprintf("group%d-ends%b", g, m), func(i int, e []int) (out []int) {
							if i != g {
								return e
							}
							for j, k := range e {
								if j == len(e)-1 || m>>uint(j)&1 == 1 {
									out = append(out, k)
								}
							}
							return
						})
					}
				}
				for n := 1; n < 300; n++ {
					n := n
					if !x.Thorough() && n > 40 && n%16 > 1 {
						continue
					}
					pack(fmt.Sprintf("size%d", n), func(i int, e []int) (out []int) {
						for k := n; k < e[len(e)-1]; k += n {
							out = append(out, k)
						}
						return append(out, e[len(e)-1])
					})
				}
			}
			// failures
			if h.name == "tls/cert/client" || h.name == "tls/psk/server" || h.name == "tls/mutual/server" || x.Thorough() {
				for _, g := range c21Faulty(h, len(ref.snaps)-1) {
					g := g
					gref := probe(g)
					if gref == nil {
						cs.Add(g.name+"/reference", func(c *Case) { refOf(c, g) })
						continue
					}
					plans := []c21Plan{{}, {size: 1}, {size: 2}, {size: 3}, {size: 4}, {size: 5}, {size: 6}, {size: 7}, {size: 50}, {limit: 1}, {limit: 6}, {rec: true, limit: 3}}
					for _, plan := range plans {
						one(g, plan, false, gref)
						one(g, plan, true, gref)
					}
					one(g, c21Plan{rec: true}, true, gref)
				}
			}
		}
		x.Run(cs, 0)
	})
}
