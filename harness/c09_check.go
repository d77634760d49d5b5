package vharness

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"

	"github.com/bifurcation/mint"
)

// ---- what an endpoint wrote, and under which key and nonce ----------------

type c09Key struct {
	half int
	seq  uint64
}

// c09Audit keeps everything an endpoint handed to its transport, also what an
// injected fault then kept back.
type c09Audit struct {
	c      *Case
	e      *End
	dtls   bool
	log    [][]byte
	early  []*Half // early data keys, one per ClientHello
	faulty bool
	n      int
}

func (a *c09Audit) hook(e *End, fault func(n int, b []byte) (bool, int, error)) {
	a.e, a.dtls = e, e.W.dgram
	e.W.onWrite = func(n int, b []byte) (bool, int, error) {
		a.log = append(a.log, append([]byte{}, b...))
		a.n++
		if fault != nil {
			return fault(n, b)
		}
		return false, 0, nil
	}
}

func (a *c09Audit) hello(p *Puppet) {
	if p.psk != nil && !p.isClient {
		s := p.pskSuite
		a.early = append(a.early, newHalf(s, p.EarlySecret(), 1))
	}
}

// judge finds the key and nonce of every protected record.
func (a *c09Audit) judge(p *Puppet, gens int) {
	c := a.c
	halves := append([]*Half{}, a.early...)
	s := p.suite
	add := func(sec []byte, epoch uint16, n int) {
		if sec == nil || s == nil {
			return
		}
		h := newHalf(s, sec, epoch)
		for i := 0; i <= n; i++ {
			halves = append(halves, h)
			h = h.next()
		}
	}
	if p.isClient {
		add(p.sHS, 2, 0)
		add(p.sAP, 3, gens)
	} else {
		add(p.cHS, 2, 0)
		add(p.cAP, 3, gens)
	}
	hl := 5
	if a.dtls {
		hl = 13
	}
	var recs [][]byte
	if a.dtls || a.faulty {
		for _, b := range a.log {
			for len(b) >= hl {
				n := int(b[hl-2])<<8 | int(b[hl-1])
				if len(b) < hl+n {
					break
				}
				recs = append(recs, b[:hl+n])
				b = b[hl+n:]
			}
		}
	} else {
		b := bytes.Join(a.log, nil)
		for len(b) >= hl {
			n := int(b[hl-2])<<8 | int(b[hl-1])
			if len(b) < hl+n {
				break
			}
			recs = append(recs, b[:hl+n])
			b = b[hl+n:]
		}
		if len(b) > 0 {
			c.Fail("torn", "%d bytes after the last whole record", len(b))
		}
	}
	seen := map[c09Key][]byte{}
	next := make([]uint64, len(halves))
	last := 0
	for i, raw := range recs {
		if raw[0] != rtApp {
			continue
		}
		c.States(1)
		try := func(h int, seq uint64) ([]byte, bool) {
			pt, err := halves[h].aead.Open(nil, halves[h].nonce(seq), raw[hl:], raw[:hl])
			return pt, err == nil
		}
		found := false
		var k c09Key
		var pt []byte
		if a.dtls {
			seq := binary.BigEndian.Uint64(raw[3:11])
			for h := range halves {
				if b, ok := try(h, seq); ok {
					found, k, pt = true, c09Key{h, seq}, b
				}
			}
		} else {
			for _, h := range append([]int{last}, seqInts(len(halves))...) {
				if b, ok := try(h, next[h]); ok {
					found, k, pt = true, c09Key{h, next[h]}, b
					break
				}
			}
			for h := 0; h < len(halves) && !found; h++ {
				for q := uint64(0); q < uint64(len(recs)+8) && !found; q++ {
					if b, ok := try(h, q); ok {
						found, k, pt = true, c09Key{h, q}, b
					}
				}
			}
		}
		if !found {
			if !a.faulty {
				c.Fail("unknown-key", "record %d of %d (%d bytes) is not protected under any key and nonce of this connection", i, len(recs), len(raw))
			}
			continue
		}
		if prev, dup := seen[k]; dup {
			handshake := false
			for j := len(pt) - 1; j >= 0; j-- {
				if pt[j] != 0 {
					handshake = pt[j] == rtHS
					break
				}
			}
			if !bytes.Equal(prev, raw) || (!a.faulty && !(a.dtls && handshake)) {
				c.Fail("reuse", "records of %d and %d bytes are protected under the same key (%d) and nonce (sequence number %d)", len(prev), len(raw), k.half, k.seq&(1<<48-1))
			}
		}
		seen[k] = raw
		last = k.half
		next[k.half] = k.seq + 1
	}
	c.Traces(1)
}

func seqInts(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// guard runs f; what the reference peer cannot make sense of ends it quietly,
// as only the records count here.
func c09Guard(c *Case, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(peerError); ok {
				return
			}
			panic(r)
		}
	}()
	f()
}

// ---- operations -----------------------------------------------------------

var c09Ops = []string{"w", "W", "u", "U", "pu", "pU", "pA", "pN", "bad", "warn", "hs"}

// c09Do performs one operation; calls after a failure go on regardless.
func c09Do(o string, e *End, p *Puppet, n *int) {
	pat := patBytes[0]
	w := func(k int) {
		e.C.Write(pat[*n : *n+k])
		*n += k
	}
	read := func() {
		if !e.Connected() {
			e.Step()
			return
		}
		buf := make([]byte, 4096)
		for i := 0; i < 6; i++ {
			if _, err := e.C.Read(buf); err != nil && !(e.W.dgram && e.W.pending() > 0) {
				break
			}
		}
	}
	switch o {
	case "w":
		w(7)
	case "W":
		w(33000)
	case "u":
		e.C.SendKeyUpdate(false)
	case "U":
		e.C.SendKeyUpdate(true)
	case "pu", "pU":
		p.SendKU(map[string]int{"pu": 0, "pU": 1}[o])
		read()
	case "pA":
		p.SendApp([]byte("some data"))
		read()
	case "pN":
		p.SendNST(&ticket{Lifetime: 100, AgeAdd: 7, Nonce: []byte{byte(*n)}, Ticket: []byte(fmt.Sprint("ticket", *n))})
		*n++
		read()
	case "bad": // a record that is not protected as it should be
		if e.W.dgram {
			// an unknown record type inside a correctly protected record
			p.SendRecord(30, []byte("x"))
		} else {
			e.W.feed([]byte{23, 3, 3, 0, 20, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20})
		}
		read()
	case "hs": // a handshake message that does not belong here
		p.SendRaw(p.frame(hFin, make([]byte, 32)))
		read()
		if e.Connected() {
			e.C.Handshake()
		}
	case "warn":
		p.SendAlert(1, 0)
		read()
	case "close":
		e.C.Close()
	}
}

func c09Session(c *Case, o c23Opt, ops []string, fault func(base int) func(n int, b []byte) (bool, int, error)) {
	a := &c09Audit{c: c}
	var f func(n int, b []byte) (bool, int, error)
	o.poke = func(stage string, e *End, p *Puppet) {
		switch stage {
		case "start":
			a.hook(e, func(n int, b []byte) (bool, int, error) {
				if f != nil {
					return f(n, b)
				}
				return false, 0, nil
			})
			e.W.zombie = true
		case "hello", "hello2":
			a.hello(p)
		}
	}
	e, p := c23Hs(c, o)
	if fault != nil {
		f = fault(e.W.writes)
		a.faulty = true
	}
	k := 0
	for _, op := range ops {
		c09Do(op, e, p, &k)
	}
	c09Do("w", e, p, &k)
	c09Do("u", e, p, &k)
	c09Do("w", e, p, &k)
	a.judge(p, 2*len(ops)+4)
	c.Transitions(len(ops))
}

// c09Poked performs operations at a stage in the middle of a handshake.
func c09Poked(c *Case, o c23Opt, at map[string][]string) {
	a := &c09Audit{c: c}
	var ee *End
	var pp *Puppet
	k := 0
	o.poke = func(stage string, e *End, p *Puppet) {
		ee, pp = e, p
		switch stage {
		case "start":
			a.hook(e, nil)
			e.W.zombie = true
		case "hello", "hello2":
			a.hello(p)
		}
		for _, op := range at[stage] {
			if op != "nop" {
				if op == "step" {
					e.Step()
				} else {
					c09Do(op, e, p, &k)
				}
			}
		}
	}
	ok := false
	c09Guard(c, func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(caseAbort); is {
					// the handshake did not complete: no longer relevant
					c.failed, c.kind, c.detail = false, "", ""
					return
				}
				panic(r)
			}
		}()
		c23Hs(c, o)
		ok = true
	})
	for i := 0; i < 2; i++ {
		c09Do("w", ee, pp, &k)
		if ee.Connected() {
			c09Do("u", ee, pp, &k)
		}
	}
	c.Outcome(fmt.Sprintf("poked/%v", ok))
	a.judge(pp, 8)
}

// c09Many sends n records under one key.
func c09Many(c *Case, o c23Opt, n int) {
	e, p := c23Hs(c, o)
	p.Drain()
	h := p.in
	hl := p.hdrLen()
	top := h.seq
	b := []byte{1}
	for i := 0; i < n; i++ {
		if m, err := e.C.Write(b); m != 1 || err != nil {
			c.Fail("write", "%d: %d, %v", i, m, err)
		}
		for _, raw := range e.W.take() {
			seq := top
			if o.dtls {
				seq = binary.BigEndian.Uint64(raw[3:11])
				if ep := uint16(seq >> 48); ep != h.epoch {
					c.Fail("epoch", "record %d: epoch %d where %d is in use", i, ep, h.epoch)
				}
				if i > 0 && seq < top {
					c.Fail("reuse", "record %d: sequence number %x was already used", i, seq)
				}
				top = seq
			}
			if _, err := h.aead.Open(nil, h.nonce(seq), raw[hl:], raw[:hl]); err != nil {
				for q := uint64(0); q < top; q++ {
					if _, err := h.aead.Open(nil, h.nonce(q), raw[hl:], raw[:hl]); err == nil {
						c.Fail("reuse", "record %d is protected under the nonce of sequence number %d, which was already used", i, q)
					}
				}
				c.Fail("unknown-key", "record %d does not open under the current key and sequence number %d", i, seq)
			}
			top++
		}
		if i%65536 == 0 {
			c.States(0)
		}
	}
	c.States(n)
	c.Traces(1)
}

// c09Updates replaces the keys n times with a record before and after each.
func c09Updates(c *Case, o c23Opt, n int) {
	e, p := c23Hs(c, o)
	p.Drain()
	keys := map[string]int{string(append(append([]byte{}, p.in.key...), p.in.iv...)): -1}
	for i := 0; i < n; i++ {
		if i < 300 || i%977 == 0 || i > n-20 {
			e.C.Write([]byte{byte(i)})
		}
		if err := e.C.SendKeyUpdate(false); err != nil {
			// an endpoint may refuse to run out of epochs
			if o.dtls && i > 60000 {
				c.Outcome("refused")
				break
			}
			c.Fail("update", "update %d: %v", i, err)
		}
		p.Drain()
		if o.dtls {
			var nums []uint64
			for _, r := range p.Recs {
				if r.ct == rtHS {
					nums = append(nums, r.seq)
				}
			}
			p.SendRecord(rtAck, c18Ack(nums...))
			e.ReadAll(10)
		}
		p.Recs = nil
		p.App = nil
		k := string(append(append([]byte{}, p.in.key...), p.in.iv...))
		if j, dup := keys[k]; dup {
			c.Fail("reuse", "generation %d has the keys of generation %d", i, j)
		}
		if n < 5000 {
			keys[k] = i
		}
		if i%4096 == 0 {
			c.States(0)
		}
	}
	c.Transitions(n)
}

// c09Headers watches a DTLS endpoint whose keys are unknown: within an epoch a
// sequence number belongs to one record.
func c09Headers(c *Case, w *Wire) {
	seen := map[uint64][]byte{}
	w.afterOut = func(d []byte) {
		for len(d) >= 13 {
			n := int(d[11])<<8 | int(d[12])
			if len(d) < 13+n {
				return
			}
			raw := d[:13+n]
			d = d[13+n:]
			seq := binary.BigEndian.Uint64(raw[3:11])
			if seq>>48 == 0 {
				continue
			}
			if prev, ok := seen[seq]; ok && !bytes.Equal(prev, raw) {
				c.Fail("reuse", "two different records carry epoch %d and sequence number %d", seq>>48, seq&(1<<48-1))
			}
			seen[seq] = append([]byte{}, raw...)
		}
	}
}

// ---- freshness ------------------------------------------------------------

type c09Fresh struct {
	mu   sync.Mutex
	seen map[string]string
}

var c09Global = &c09Fresh{seen: map[string]string{}}

// c09Run is one family of connections.
type c09Run struct {
	c    *Case
	id   string
	vals map[string][][]byte
}

var c09Runs int

func newC09Run(c *Case) *c09Run {
	c09Global.mu.Lock()
	defer c09Global.mu.Unlock()
	c09Runs++
	return &c09Run{c: c, id: fmt.Sprintf("%s run %d", c.Name, c09Runs), vals: map[string][][]byte{}}
}

func (r *c09Run) add(kind string, v []byte) {
	g := c09Global
	g.mu.Lock()
	k := strings.SplitN(kind, "/", 2)[0] + string(v)
	at, dup := g.seen[k]
	me := fmt.Sprintf("%s, value %d", r.id, len(r.vals[kind]))
	g.seen[k] = me
	g.mu.Unlock()
	if dup {
		r.c.Fail("repeat", "%s %s occurred before: %s and %s", kind, clip(hexOf(v), 64), clip(at, 100), clip(me, 100))
	}
	r.vals[kind] = append(r.vals[kind], append([]byte{}, v...))
	r.c.States(1)
}

// spread checks that the values of a kind vary in every byte that should.
func (r *c09Run) spread() {
	for kind, vs := range r.vals {
		skip := 0
		switch {
		case strings.HasPrefix(kind, "share/") && !strings.HasSuffix(kind, "/29"):
			skip = 3 // form byte, and P-521's short first bytes
			if strings.HasSuffix(kind, "/25") {
				continue
			}
		case strings.HasPrefix(kind, "nonce"):
			continue
		}
		if len(vs) < 48 {
			continue
		}
		for i := skip; i < len(vs[0]); i++ {
			d := map[byte]bool{}
			for _, v := range vs {
				if len(v) != len(vs[0]) {
					r.c.Fail("length", "%s values of %d and %d bytes", kind, len(v), len(vs[0]))
				}
				d[v[i]] = true
			}
			if len(d) < 12 {
				r.c.Fail("constant", "byte %d of %s takes only %d values in %d uses", i, kind, len(d), len(vs))
			}
		}
		r.c.Outcome(kind)
	}
}

func (r *c09Run) ch(h *CHello) {
	r.add("random", h.Random)
	r.shares(h)
}

func (r *c09Run) shares(h *CHello) {
	for _, s := range parseShares(h.Exts.get(xKeyShare)) {
		if len(s.Pub) >= 32 {
			r.add(fmt.Sprintf("share/%d", s.Group), s.Pub)
		}
	}
}

func (r *c09Run) sh(b []byte, s *SHello) {
	r.add("random", s.Random)
}

// c09Conns makes n connections of a kind, sharing what share says.
func c09Conns(c *Case, r *c09Run, n int, client, dtls bool, share string, groups []uint16, retry bool, resume bool) {
	base := clientCfg()
	if !client {
		base = serverCfg("p256")
		base.SendSessionTickets = true
		base.CookieProtector = newProtector()
		base.RequireCookie = retry
		base.PSKs = &mint.PSKMapCache{}
	}
	base.UseDTLS = dtls
	base.Groups = nil
	for _, g := range groups {
		base.Groups = append(base.Groups, mint.NamedGroup(g))
	}
	if client && resume {
		base.PSKs = &mint.PSKMapCache{}
	}
	var last *ticket
	fixed := defaultCH()
	var same *CHello
	var ke map[uint16]*refKE
	for i := 0; i < n; i++ {
		cfg := base
		switch share {
		case "clone":
			cfg = base.Clone()
		case "own":
			x := *base.Clone()
			cfg = &x
		}
		e := NewEnd(cfg, client)
		if client {
			p := newPuppet(false, e)
			e.Step()
			p.RecvCH()
			r.ch(p.CH)
			if last != nil && p.CH.Exts.has(xPSK) {
				p.UsePSK(last.PSK, last.Suite, true)
			}
			use := p.psk != nil
			if retry {
				// another group if there is one
				want := groups[len(groups)-1]
				x := hrrExts([]byte("cookie"))
				first := parseShares(p.CH.Exts.get(xKeyShare))
				asked := false
				if len(groups) > 1 && len(first) < len(groups) {
					for _, s := range first {
						asked = asked || s.Group == want
					}
					if asked = !asked; asked {
						x.set(xKeyShare, []byte{byte(want >> 8), byte(want)})
					}
				}
				p.SendHRR(0x1301, x)
				e.Step()
				p.RecvCH()
				if asked {
					r.shares(p.CH)
				}
				if use {
					p.UsePSK(last.PSK, last.Suite, true)
				}
			}
			sh := parseShares(p.CH.Exts.get(xKeyShare))
			g := sh[len(sh)-1].Group
			p.SendSH(p.DefaultSH(0x1301, g, use), g)
			p.SendEE(nil)
			if use {
				p.SendServerFin()
			} else {
				p.sendAuth(defaultAuth("p256"))
			}
			if e.Step() != hsDone {
				c.Fail("handshake", "client %v", e.Fail)
			}
			p.RecvClientFlight()
			r.add("keys", p.cAP)
			if resume {
				last = &ticket{Lifetime: 1000, AgeAdd: 7, Nonce: []byte{1}, Ticket: []byte(fmt.Sprint("t", i))}
				last.Suite = 0x1301
				last.PSK = p.suite.expandLabel(p.resM, "resumption", last.Nonce, p.suite.hlen)
				p.SendNST(last)
				e.ReadAll(10)
			}
			continue
		}
		p := newPuppet(true, e)
		o := fixed
		o.Groups, o.Shares = groups, groups[:1]
		if resume && last != nil {
			o.PSKIDs = []pskID{{last.Ticket, last.age(0)}}
			o.PSKKeys = [][]byte{last.PSK}
			o.PSKSuites = []uint16{last.Suite}
			o.PSKRes = []bool{true}
		}
		if !resume {
			// byte for byte the same ClientHello each time
			if same == nil {
				p.ke = map[uint16]*refKE{}
				same = p.BuildCH(o)
				ke = p.ke
			}
			p.ke = ke
			x := *same
			x.Exts = append(Exts{}, same.Exts...)
			p.SendCHello(&x)
		} else {
			p.SendCH(o)
		}
		e.Step()
		again, cookie := p.RecvSH()
		if again != retry {
			c.Fail("retry", "retry %v", again)
		}
		if retry {
			r.add("cookie", cookie)
			o.Cookie = cookie
			if !resume {
				x := *same
				x.Exts = append(Exts{}, same.Exts...)
				var ck buf
				ck.v16(cookie)
				x.Exts.set(xCookie, ck.b)
				p.SendCHello(&x)
			} else {
				p.SendCH(o)
			}
			e.Step()
			p.RecvSH()
		}
		r.add("random", p.SH.Random)
		if d := p.SH.Exts.get(xKeyShare); len(d) > 4 {
			r.add(fmt.Sprintf("share/%d", p.Group), d[4:])
		}
		p.RecvServerFlight()
		p.SendClientFlight(nil)
		if e.Step() != hsDone {
			c.Fail("handshake", "server %v", e.Fail)
		}
		p.Drain()
		r.add("keys", p.sAP)
		if len(p.Tickets) == 0 {
			c.Fail("ticket", "none")
		}
		for _, t := range p.Tickets {
			r.add("ticket", t.Ticket)
			r.add("nonce", t.Nonce)
			r.add("resumption key", t.PSK)
		}
		last = p.Tickets[len(p.Tickets)-1]
	}
}

// c09Child runs the same connections from the start of a new process.
func c09Child(c *Case) []string {
	bin, err := os.Executable()
	if err != nil {
		c.Fail("harness", "%v", err)
	}
	cmd := exec.Command(bin, "-test.run", "^TestCheck$", "-test.timeout", "100s")
	cmd.Env = append(os.Environ(), "VERIF_C09_CHILD=1")
	out, err := cmd.Output()
	var vals []string
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "FRESH ") {
			vals = append(vals, l)
		}
	}
	if len(vals) < 20 {
		c.Fail("harness", "the child printed %d values: %v %s", len(vals), err, clip(string(out), 500))
	}
	return vals
}

// c09ChildMain prints what a new process considers fresh.
func c09ChildMain() {
	c := &Case{Ctx: &Ctx{}, Name: "child", rerun: true}
	r := newC09Run(c)
	for _, client := range []bool{true, false} {
		c09Conns(c, r, 3, client, false, "shared", []uint16{gX25519, gP256}, true, false)
	}
	for kind, vs := range r.vals {
		for _, v := range vs {
			fmt.Printf("FRESH %s %s\n", kind, hexOf(v))
		}
	}
}

func c09Act(a netAct) string { return naNames[a] }

var errC09 = errors.New("transport: injected failure")

func init() {
	register("C09", "model_checking", func(x *Ctx) {
		x.Rule("every record an endpoint hands to its transport is attributed to one key and nonce by opening it with the reference key schedule, over all sequences of operations (writes, key updates of either side, tickets, alerts, violations, transport failures) after and in the middle of every handshake variant and over DTLS loss patterns in virtual time; hello randoms, key shares, tickets, nonces and cookies are collected over families of connections, two processes and two identical virtual clocks and must never repeat")
		x.Assume("a value drawn from 256 bits or more does not repeat by chance")
		cs := &Cases{}

		// 1. all operation sequences after a handshake
		depth := x.Pick(4, 5)
		var rec func(o c23Opt, cur []string)
		rec = func(o c23Opt, cur []string) {
			if len(cur) == depth {
				ops := append([]string{}, cur...)
				cs.Add(fmt.Sprintf("ops/%v/%s", o, strings.Join(ops, ",")), func(c *Case) { c09Session(c, o, ops, nil) })
				return
			}
			for _, op := range c09Ops {
				if (op == "pN" && !o.client) || (op == "W" && len(cur) > 0 && cur[len(cur)-1] == "W") {
					continue
				}
				rec(o, append(cur, op))
			}
		}
		for _, dtls := range []bool{false, true} {
			for _, client := range []bool{true, false} {
				rec(c23Opt{dtls: dtls, client: client, suite: 0x1301, group: gX25519, mode: "psk"}, nil)
			}
		}

		// 2. one transport failure of each kind at each write
		for _, dtls := range []bool{false, true} {
			for _, client := range []bool{true, false} {
				o := c23Opt{dtls: dtls, client: client, suite: 0x1302, group: gX25519, mode: "psk"}
				var seqs [][]string
				al := []string{"w", "W", "u", "U", "pU", "bad"}
				var mk func(cur []string)
				mk = func(cur []string) {
					if len(cur) == 4 {
						seqs = append(seqs, append([]string{}, cur...))
						return
					}
					for _, op := range al {
						mk(append(cur, op))
					}
				}
				mk(nil)
				for _, ops := range seqs {
					for at := 0; at < 5; at++ {
						for kind := 0; kind < 4; kind++ {
							o, ops, at, kind := o, ops, at, kind
							cs.Add(fmt.Sprintf("fault/%v/%s/%d/%d", o, strings.Join(ops, ","), at, kind), func(c *Case) {
								c09Session(c, o, ops, func(base int) func(n int, b []byte) (bool, int, error) {
									return func(n int, b []byte) (bool, int, error) {
										if n-base == at || (kind == 3 && n-base > at && n-base < at+3) {
											switch kind {
											case 0:
												return true, 0, errC09
											case 1:
												return true, len(b) / 2, errC09
											case 2:
												return true, len(b), errC09
											case 3:
												return true, 0, nil
											}
										}
										return false, 0, nil
									}
								})
							})
						}
					}
				}
			}
		}

		// 3. operations in the middle of every handshake
		stages := map[bool][]string{true: {"hello", "hello2", "sh", "ee", "done"}, false: {"hrr", "sh", "flight", "done"}}
		inner := [][]string{{"w"}, {"w", "w"}, {"u"}, {"bad"}, {"step", "w"}, {"step", "bad"}, {"w", "step", "w"}, {"step", "u", "w"}, {"bad", "w", "bad", "w"}, {"close", "w"}, {"hs", "w"}, {"warn", "w"}}
		var hs []c23Opt
		for _, dtls := range []bool{false, true} {
			for _, client := range []bool{true, false} {
				for _, suite := range []uint16{0x1301, 0x1302} {
					for _, mode := range []string{"cert", "psk", "psk-ke", "ticket", "ticket-ke"} {
						for _, retry := range []bool{false, true} {
							for _, cr := range []bool{false, true} {
								for _, early := range []string{"", "accept", "reject"} {
									if cr && mode != "cert" {
										continue
									}
									if early != "" && (mode == "cert" || dtls) {
										continue
									}
									if early == "accept" && retry {
										continue
									}
									hs = append(hs, c23Opt{dtls: dtls, client: client, suite: suite, group: gX25519, mode: mode, retry: retry, cr: cr, early: early})
								}
							}
						}
					}
				}
			}
		}
		for _, o := range hs {
			if o.suite == 0x1302 && !x.Thorough() {
				continue
			}
			st := stages[o.client]
			for i, s1 := range st {
				for _, a := range inner {
					o, s1, a := o, s1, a
					cs.Add(fmt.Sprintf("mid/%v/%s=%s", o, s1, strings.Join(a, ",")), func(c *Case) { c09Poked(c, o, map[string][]string{s1: a}) })
					for _, s2 := range st[i+1:] {
						for _, b := range inner {
							s2, b := s2, b
							cs.Add(fmt.Sprintf("mid/%v/%s=%s/%s=%s", o, s1, strings.Join(a, ","), s2, strings.Join(b, ",")), func(c *Case) {
								c09Poked(c, o, map[string][]string{s1: a, s2: b})
							})
						}
					}
				}
			}
		}
		// and after each of them
		for _, o := range hs {
			for _, a := range c09Ops {
				for _, b := range c09Ops {
					if !o.client && (a == "pN" || b == "pN") {
						continue
					}
					o, a, b := o, a, b
					cs.Add(fmt.Sprintf("after/%v/%s,%s", o, a, b), func(c *Case) { c09Session(c, o, []string{a, b}, nil) })
				}
			}
		}

		// 4. many records under a key, many keys
		for _, dtls := range []bool{false, true} {
			for _, client := range []bool{true, false} {
				o := c23Opt{dtls: dtls, client: client, suite: 0x1301, group: gX25519, mode: "psk"}
				n := x.Pick(140000, 1<<24+70000)
				cs.Add(fmt.Sprintf("many/%v", o), func(c *Case) { c09Many(c, o, n) })
				cs.Add(fmt.Sprintf("updates/%v", o), func(c *Case) { c09Updates(c, o, x.Pick(1500, 3000)) })
				cs.Add(fmt.Sprintf("updates-long/%v", o), func(c *Case) { c09Updates(c, o, 65600) })
			}
		}

		// 5. DTLS retransmissions
		for _, v := range c18Variants(x) {
			n := 18
			acts := []netAct{naDrop, naDup, naSwap, naLate}
			v := v
			for i := 0; i < n; i++ {
				for _, a := range acts {
					for j := i; j < n; j++ {
						for _, b := range acts {
							if i == j && a != b {
								continue
							}
							i, j, a, b := i, j, a, b
							cs.AddReal(fmt.Sprintf("net/%s/%d%s/%d%s", v.name, i, c09Act(a), j, c09Act(b)), func(c *Case) {
								c.onPair = func(p *Pair) {
									c09Headers(c, p.C.W)
									c09Headers(c, p.S.W)
								}
								c18Case(c, v, func(k int, _ bool, _ int) netAct {
									if k == i {
										return a
									}
									if k == j {
										return b
									}
									return naOK
								}, 0, 0)
							})
							if i < 8 && j < 8 {
								for _, ops := range [][]c18Op{{{0, 1}}, {{1, 1}}, {{0, 0}, {0, 1}}, {{1, 1}, {0, 0}}} {
									ops := ops
									cs.AddReal(fmt.Sprintf("netops/%s/%v/%d%s/%d%s", v.name, ops, i, c09Act(a), j, c09Act(b)), func(c *Case) {
										c.onPair = func(p *Pair) {
											c09Headers(c, p.C.W)
											c09Headers(c, p.S.W)
										}
										c18CaseOps(c, v, func(k int, _ bool, _ int) netAct {
											if k == i {
												return a
											}
											if k == j {
												return b
											}
											return naOK
										}, 0, 0, ops)
									})
								}
							}
						}
					}
				}
			}
		}

		// 6. freshness
		for _, client := range []bool{true, false} {
			for _, dtls := range []bool{false, true} {
				for _, share := range []string{"shared", "clone", "own"} {
					for _, retry := range []bool{false, true} {
						for _, resume := range []bool{false, true} {
							for gi, groups := range [][]uint16{{gX25519, gP256}, {gP256, gX25519}, {gX25519}, {gP384}, {gP521}, {gFF2048}} {
								if gi > 1 && (share != "shared" || dtls) {
									continue
								}
								n := x.Pick(64, 512)
								if groups[0] == gFF2048 {
									n = x.Pick(6, 40)
								}
								client, dtls, share, retry, resume, groups := client, dtls, share, retry, resume, groups
								cs.Add(fmt.Sprintf("fresh/client=%v/dtls=%v/%s/retry=%v/resume=%v/%v", client, dtls, share, retry, resume, groups), func(c *Case) {
									r := newC09Run(c)
									c09Conns(c, r, n, client, dtls, share, groups, retry, resume)
									r.spread()
								})
							}
						}
					}
				}
			}
		}
		for k := 0; k < 4; k++ {
			cs.AddReal(fmt.Sprintf("clock/%d", k), func(c *Case) {
				r := newC09Run(c)
				bubble(func() {
					for _, client := range []bool{true, false} {
						c09Conns(c, r, 8, client, false, "shared", []uint16{gX25519, gP256}, true, false)
					}
				})
			})
		}
		cs.Add("process", func(c *Case) {
			seen := map[string]bool{}
			for i := 0; i < 2; i++ {
				for _, v := range c09Child(c) {
					if seen[v] {
						c.Fail("repeat", "two processes drew the same value: %s", clip(v, 100))
					}
					seen[v] = true
				}
			}
		})
		cs.Add("cookie-token", func(c *Case) {
			r := newC09Run(c)
			cp := newProtector()
			for i := 0; i < 400; i++ {
				t, err := cp.NewToken([]byte("the same data every time"))
				if err != nil {
					c.Fail("cookie", "%v", err)
				}
				r.add("token", t)
			}
			r.spread()
		})
		x.Run(cs, 0)
	})
}
