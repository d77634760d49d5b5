package vharness

import (
	"bytes"
	"crypto/x509"
	"fmt"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/bifurcation/mint"
)

// C18: DTLS handshakes over a network that loses, repeats and reorders
// datagrams, in virtual time.

// bubble runs f in virtual time.
func bubble(f func()) {
	var p interface{}
	synctest.Test(theT, func(*testing.T) {
		defer func() { p = recover() }()
		f()
	})
	if p != nil {
		panic(p)
	}
}

// netAct is what happens to one datagram.
type netAct int

const (
	naOK    netAct = iota
	naDrop         // lost
	naDup          // arrives twice
	naSwap         // arrives after the one behind it
	naAgain        // arrives, and once more much later
	naLate         // arrives after the retransmission timeout
)

var naNames = []string{"ok", "drop", "dup", "swap", "again", "late"}

type c18Dgram struct {
	at   time.Time
	seq  int
	to   int // 0 client, 1 server
	data []byte
}

type c18Sim struct {
	c     *Case
	p     *Pair
	act   func(n int, fromClient bool, k int) netAct // n-th datagram, k-th of its direction
	drive time.Duration                              // how long an application waits beyond the timer
	q     []c18Dgram
	n     int
	k     [2]int
	seq   int
	done  [2]bool
	log   []string
	sent  [2]int // datagrams sent
	// unanswered: the end has sent a flight and heard nothing since
	waiting [2]bool
	devs    int
	lastDev time.Time
}

func (s *c18Sim) end(i int) *End {
	if i == 0 {
		return s.p.C
	}
	return s.p.S
}

func (s *c18Sim) collect(i int) bool {
	moved := false
	for _, b := range s.end(i).W.take() {
		moved = true
		s.sent[i]++
		a := s.act(s.n, i == 0, s.k[i])
		if len(s.log) < 400 {
			s.log = append(s.log, fmt.Sprintf("%v #%d %s type %d len %d: %s", time.Since(c18Zero(s)).Round(time.Millisecond), s.n, []string{"c>s", "s>c"}[i], b[0], len(b), naNames[a]))
		}
		s.n++
		s.k[i]++
		now := time.Now()
		put := func(at time.Time, bump int) {
			s.seq += 10
			s.q = append(s.q, c18Dgram{at, s.seq + bump, 1 - i, b})
		}
		if a != naOK {
			s.devs++
			s.lastDev = now
		}
		switch a {
		case naOK:
			put(now, 0)
		case naDrop:
		case naDup:
			put(now, 0)
			put(now, 0)
		case naSwap:
			put(now, 15)
		case naAgain:
			put(now, 0)
			put(now.Add(130*time.Millisecond), 0)
		case naLate:
			put(now.Add(130*time.Millisecond), 0)
		}
	}
	return moved
}

// c18Zero is the start of virtual time.
func c18Zero(s *c18Sim) time.Time { return time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC) }

// poke lets the application of an end run.
func (s *c18Sim) poke(i int) {
	e := s.end(i)
	if !s.done[i] {
		switch e.Step() {
		case hsFailed:
			s.fail("failed", "%s fails with %v", []string{"the client", "the server"}[i], e.Fail)
		case hsDone:
			s.done[i] = true
		}
	}
	if s.done[i] {
		buf := make([]byte, 100)
		for k := 0; k < 1000; k++ {
			w := e.W.pending()
			n, err := e.C.Read(buf)
			if n != 0 || err != mint.AlertWouldBlock {
				s.fail("read", "%s reads %d bytes, error %v", []string{"the client", "the server"}[i], n, err)
			}
			if w == 0 {
				break
			}
		}
	}
}

func (s *c18Sim) fail(kind, f string, a ...interface{}) {
	l := s.log
	if len(l) > 60 {
		l = append(append([]string{}, l[:45]...), l[len(l)-15:]...)
	}
	s.c.Fail(kind, "%s\n%s", fmt.Sprintf(f, a...), strings.Join(l, "\n"))
}

// flight lets an end run and notes whether it has sent a flight that it must
// now see answered (and not just an ACK).
func (s *c18Sim) flight(i int) {
	e := s.end(i)
	before := e.C.ConnectionState().HandshakeState
	s.poke(i)
	after := e.C.ConnectionState().HandshakeState
	if s.collect(i) && before != after {
		switch {
		case i == 0 && (after == mint.StateClientWaitSH || after == mint.StateClientConnected):
			s.waiting[i] = true
		case i == 1 && before == mint.StateServerStart:
			s.waiting[i] = true
		}
	}
}

// deliver hands over everything that is due; an end runs after each datagram.
func (s *c18Sim) deliver() bool {
	sort.SliceStable(s.q, func(a, b int) bool {
		if !s.q[a].at.Equal(s.q[b].at) {
			return s.q[a].at.Before(s.q[b].at)
		}
		return s.q[a].seq < s.q[b].seq
	})
	if len(s.q) == 0 || s.q[0].at.After(time.Now()) {
		return false
	}
	d := s.q[0]
	s.q = s.q[1:]
	s.end(d.to).W.feed(d.data)
	s.waiting[d.to] = false
	s.flight(d.to)
	s.c.Transitions(1)
	return true
}

// timers gives the earliest timer of the ends.
func (s *c18Sim) timers() (bool, time.Duration) {
	any, min := false, time.Duration(0)
	for i := 0; i < 2; i++ {
		ok, d := s.end(i).C.GetDTLSTimeout()
		if s.waiting[i] {
			if !ok || d > 100*time.Millisecond {
				s.fail("no timer", "the %s has an unanswered flight and no timer within its timeout (%v %v)", []string{"client", "server"}[i], ok, d)
			}
		}
		if ok && (!any || d < min) {
			any, min = true, d
		}
	}
	return any, min
}

func (s *c18Sim) run() {
	start := time.Now()
	s.flight(0)
	s.poke(1)
	finished := time.Time{}
	for round := 0; ; round++ {
		for s.deliver() {
		}
		if s.done[0] && s.done[1] && finished.IsZero() {
			finished = time.Now()
		}
		ok, d := s.timers()
		if ok && d < 0 {
			d = 0
		}
		if !ok && len(s.q) == 0 {
			if !finished.IsZero() {
				break
			}
			s.fail("stuck", "nothing is in flight, no timer is set, and the handshake is incomplete (client %v, server %v)",
				s.p.C.C.ConnectionState().HandshakeState, s.p.S.C.ConnectionState().HandshakeState)
		}
		if len(s.q) > 0 {
			if left := time.Until(s.q[0].at); !ok || left < d+time.Millisecond+s.drive {
				time.Sleep(left)
				continue
			}
		}
		if !finished.IsZero() && time.Since(finished) > 3*time.Second && time.Since(s.lastDev) > 3*time.Second {
			s.fail("chatter", "still retransmitting 3 s after completion and the last deviation")
		}
		if finished.IsZero() && time.Since(start) > time.Duration(5+s.devs)*2*time.Second {
			s.fail("incomplete", "no completion within %v (client %v, server %v)", time.Since(c18Zero(s)),
				s.p.C.C.ConnectionState().HandshakeState, s.p.S.C.ConnectionState().HandshakeState)
		}
		time.Sleep(d + time.Millisecond + s.drive)
		for i := 0; i < 2; i++ {
			s.flight(i)
		}
	}
	s.c.States(s.n)
}

func (s *c18Sim) verify(v variant) {
	d := &driven{p: s.p, c: hsDone, s: hsDone}
	if err := d.agree(v); err != nil {
		s.fail("disagree", "%v", err)
	}
	if err := d.echo(nil); err != nil {
		s.fail("data", "%v", err)
	}
}

func c18Variants(x *Ctx) (out []variant) {
	for _, n := range []string{"dtls/cert", "dtls/cert-cookie", "dtls/cert-cr", "dtls/psk-dhe"} {
		out = append(out, variantByName(n))
	}
	t := variantByName("dtls/cert")
	t.name, t.ticket = "dtls/cert-ticket", true
	out = append(out, t)
	if x.Thorough() {
		for _, n := range []string{"dtls/cert-cr-cookie", "dtls/psk-ke", "dtls/psk-cookie", "dtls/cert-p256-1302"} {
			out = append(out, variantByName(n))
		}
		t := variantByName("dtls/cert-cr-cookie")
		t.name, t.ticket = "dtls/cert-cr-cookie-ticket", true
		out = append(out, t)
	}
	return
}

func c18Case(c *Case, v variant, act func(n int, fromClient bool, k int) netAct, drive time.Duration, big int) {
	c18CaseOps(c, v, act, drive, big, nil)
}

// c18Op is something an application does after the handshake.
type c18Op struct{ who, req int }

func (o c18Op) String() string { return []string{"c", "s"}[o.who] + []string{"ku", "kur"}[o.req] }

// c18CaseOps numbers the datagrams for act from the end of the handshake if
// there are operations.
func c18CaseOps(c *Case, v variant, act func(n int, fromClient bool, k int) netAct, drive time.Duration, big int, ops []c18Op) {
	bubble(func() {
		cc, sc := v.cfgs()
		if v.ticket {
			cc.PSKs = &mint.PSKMapCache{}
		}
		if big > 0 {
			h := &blobHandler{send: map[mint.HandshakeType]map[mint.ExtensionType][]byte{mint.HandshakeTypeClientHello: {0xfe01: bytes.Repeat([]byte{7}, big)},
				mint.HandshakeTypeEncryptedExtensions: {0xfe01: bytes.Repeat([]byte{9}, big)}}}
			cc.ExtensionHandler, sc.ExtensionHandler = h, h
		}
		s := &c18Sim{c: c, p: NewPair(cc, sc), act: act, drive: drive}
		if c.onPair != nil {
			c.onPair(s.p)
		}
		if len(ops) > 0 {
			s.act = func(int, bool, int) netAct { return naOK }
		}
		s.run()
		if len(ops) > 0 {
			base := s.n
			s.act = func(n int, fc bool, k int) netAct { return act(n-base, fc, k) }
			for _, o := range ops {
				if err := s.end(o.who).C.SendKeyUpdate(o.req == 1); err != nil {
					s.fail("update", "%v", err)
				}
				s.collect(o.who)
			}
			s.run()
		}
		s.verify(v)
		c.Traces(1)
		c.Outcome(fmt.Sprintf("%d datagrams", s.n))
	})
}

// c18Frag is a fragment of a handshake message that mint sent.
type c18Frag struct {
	msg, off, n int
	rec         uint64
}

// c18Collect reads everything mint has sent and returns the fragments in it.
func c18Collect(c *Case, p *Puppet, from int, seen map[uint64]bool) (out []c18Frag) {
	for {
		_, _, _, ok := p.nextMsg()
		if !ok {
			break
		}
	}
	for _, r := range p.Recs[from:] {
		if seen[r.seq] {
			c.Fail("number reused", "record number %x is used twice", r.seq)
		}
		seen[r.seq] = true
		if r.ct != rtHS {
			continue
		}
		q := &rd{b: r.data}
		q.u8()
		q.u24()
		f := c18Frag{rec: r.seq}
		f.msg, f.off, f.n = q.u16(), q.u24(), q.u24()
		out = append(out, f)
	}
	return
}

func c18Ack(nums ...uint64) []byte {
	b := &buf{}
	b.u16(8 * len(nums))
	for _, n := range nums {
		b.u32(uint32(n >> 32))
		b.u32(uint32(n))
	}
	return b.b
}

// c18AckCase acknowledges part of a flight, in one or several records, naming
// the first transmission or a later one.
func c18AckCase(c *Case, kind string, n int, rounds []int, late int, echo bool) {
	bubble(func() {
		var e *End
		var p *Puppet
		var drive func()
		blob := func(t mint.HandshakeType) *blobHandler {
			if n == 0 {
				return nil
			}
			return &blobHandler{send: map[mint.HandshakeType]map[mint.ExtensionType][]byte{t: {0xfe01: bytes.Repeat([]byte{7}, n)}}}
		}
		from := 0
		switch kind {
		case "server", "tickets":
			cfg := serverCfg("p256")
			cfg.UseDTLS = true
			cfg.RequireClientAuth = true
			cfg.SendSessionTickets = kind == "tickets"
			if h := blob(mint.HandshakeTypeEncryptedExtensions); h != nil {
				cfg.ExtensionHandler = h
			}
			e = NewEnd(cfg, false)
			p = newPuppet(true, e)
			o := defaultCH()
			if n > 0 {
				o.mut = func(ch *CHello) { ch.Exts.set(0xfe01, []byte{1}) }
			}
			p.SendCH(o)
			e.Step()
			p.RecvSH()
			p.RecvServerFlight()
		case "client":
			cfg := clientCfg()
			cfg.UseDTLS = true
			cfg.Certificates = mintCerts("client")
			if n > 0 {
				who := id("client")
				chain := append([]*x509.Certificate{}, who.chain...)
				for i := 0; i < 5; i++ {
					chain = append(chain, id("p384").chain[0])
				}
				cfg.Certificates = []*mint.Certificate{{Chain: chain, PrivateKey: who.key}}
			}
			e = NewEnd(cfg, true)
			p = newPuppet(false, e)
			e.Step()
			p.RecvCH()
			p.SendSH(p.DefaultSH(0x1301, gX25519, false), gX25519)
			p.SendEE(nil)
			p.SendCR([]uint16{0x0403})
			p.sendAuth(defaultAuth("p256"))
			from = len(p.Recs)
			for e.Step() == hsBlocked && e.W.pending() > 0 {
			}
			if !e.Connected() {
				c.Fail("handshake", "%v", e.Fail)
			}
			p.RecvClientFlight()
		}
		drive = func() {
			for i := 0; i < 50; i++ {
				w := e.W.pending()
				var err error
				if !e.Connected() {
					if r := e.Step(); r == hsFailed {
						c.Fail("failed", "the handshake fails: %v", e.Fail)
					}
				}
				if e.Connected() {
					if _, err = e.C.Read(make([]byte, 10)); err != mint.AlertWouldBlock {
						c.Fail("read", "Read returns %v", err)
					}
				}
				if w == 0 {
					break
				}
			}
		}
		if kind == "tickets" {
			c18Collect(c, p, 0, map[uint64]bool{})
			from = len(p.Recs)
			p.SendClientFlight(id("client"))
			drive()
			if !e.Connected() {
				c.Fail("handshake", "%v", e.Fail)
			}
			// two key updates follow the ticket
			for i := 0; i < 2; i++ {
				if err := e.C.SendKeyUpdate(false); err != nil {
					c.Fail("update", "%v", err)
				}
			}
			p.Drain()
		}
		seen := map[uint64]bool{}
		all := c18Collect(c, p, from, seen)
		key := func(f c18Frag) [2]int { return [2]int{f.msg, f.off} }
		acked := map[[2]int]bool{}
		names := map[[2]int][]uint64{} // every record number of a fragment
		for _, f := range all {
			if _, ok := names[key(f)]; ok && kind != "tickets" {
				c.Fail("sent twice", "fragment %v", f)
			}
			names[key(f)] = append(names[key(f)], f.rec)
		}
		var order [][2]int
		for _, f := range all {
			known := false
			for _, k := range order {
				known = known || k == key(f)
			}
			if !known {
				order = append(order, key(f))
			}
		}
		tick := func(what string, wantAll bool) {
			from := len(p.Recs)
			time.Sleep(101 * time.Millisecond)
			drive()
			c.Transitions(1)
			got := map[[2]int]bool{}
			for _, f := range c18Collect(c, p, from, seen) {
				got[key(f)] = true
				names[key(f)] = append(names[key(f)], f.rec)
				if acked[key(f)] {
					c.Fail("acked", "%s: fragment %v is sent again although it was acknowledged", what, f)
				}
			}
			for _, k := range order {
				if !acked[k] && !got[k] {
					c.Fail("lost", "%s: fragment %v was not acknowledged and is not sent again", what, k)
				}
			}
		}
		for i := 0; i < late; i++ {
			tick("before the ACK", true)
		}
		for _, set := range rounds {
			from := len(p.Recs)
			var nums []uint64
			for i, k := range order {
				if set&(1<<i) != 0 {
					v := names[k]
					if late == 2 {
						nums = append(nums, v[len(v)-1]) // the last transmission
					} else {
						nums = append(nums, v[0])
					}
					acked[k] = true
				}
			}
			p.SendRecord(rtAck, c18Ack(nums...))
			drive()
			for _, f := range c18Collect(c, p, from, seen) {
				names[key(f)] = append(names[key(f)], f.rec)
				if acked[key(f)] {
					c.Fail("acked", "fragment %v is sent again although it was acknowledged", f)
				}
			}
			tick("after the ACK", true)
			tick("later", true)
		}
		if len(acked) == len(order) {
			if ok, d := e.C.GetDTLSTimeout(); ok && kind != "server" {
				c.Fail("timer", "everything is acknowledged and a timer is set (%v)", d)
			}
		}
		if kind == "server" {
			p.SendClientFlight(id("client"))
			drive()
			if !e.Connected() {
				c.Fail("incomplete", "%v %v", e.Fail, e.C.ConnectionState().HandshakeState)
			}
			from := len(p.Recs)
			p.Drain()
			for i := 0; i < 5; i++ {
				time.Sleep(101 * time.Millisecond)
				drive()
			}
			if fs := c18Collect(c, p, from, seen); len(fs) > 0 {
				c.Fail("chatter", "%v after completion", fs)
			}
		} else if echo {
			p.Drain()
		}
		dataBothWays(c, e, p, "x")
		c.Outcome(fmt.Sprintf("ack %s/%d %d fragments", kind, n, len(order)))
		c.Traces(1)
	})
}

func c18AckCases(x *Ctx, cs *Cases) {
	for _, kind := range []string{"server", "client", "tickets"} {
		for _, n := range []int{0, 2500} {
			if kind == "tickets" && n > 0 {
				continue
			}
			// fragments of the flight: SH EE CR Cert CV Fin; Cert CV Fin; NST KU KU
			frags := map[string]int{"server": 6, "client": 3, "tickets": 3}[kind]
			if n > 0 {
				frags += 2
			}
			for late := 0; late <= 2; late++ {
				for set := 0; set < 1<<frags; set++ {
					kind, n, late, set := kind, n, late, set
					cs.Add(fmt.Sprintf("ack/%s/%d/late%d/%b", kind, n, late, set), func(c *Case) {
						c18AckCase(c, kind, n, []int{set}, late, true)
					})
					step := 1
					if frags > 5 {
						step = x.Pick(9, 1)
					}
					for set2 := 0; set2 < 1<<frags; set2 += step {
						if set&set2 != 0 {
							continue
						}
						set2 := set2
						cs.Add(fmt.Sprintf("ack/%s/%d/late%d/%b+%b", kind, n, late, set, set2), func(c *Case) {
							c18AckCase(c, kind, n, []int{set, set2}, late, true)
						})
					}
				}
			}
		}
	}
}

func init() {
	register("C18", "fault_enumeration", func(x *Ctx) {
		x.Rule("complete DTLS handshakes of two real endpoints in virtual time over a network that applies every combination of up to k deviations (loss, duplicate, swap with the next, late repeat, late arrival) to the first n datagrams")
		x.Assume("an application calls its connection whenever a datagram arrives and when the advertised timer expires")
		cs := &Cases{}
		for _, v := range c18Variants(x) {
			v := v
			n := 22
			acts := []netAct{naDrop, naDup, naSwap, naAgain, naLate}
			var rec func(from int, chosen map[int]netAct, k int)
			add := func(chosen map[int]netAct) {
				m := map[int]netAct{}
				name := ""
				for i := 0; i < n; i++ {
					if a, ok := chosen[i]; ok {
						m[i] = a
						name += fmt.Sprintf("/%d%s", i, naNames[a])
					}
				}
				cs.Add(v.name+"/dev"+name, func(c *Case) {
					c18Case(c, v, func(n int, _ bool, _ int) netAct { return m[n] }, 0, 0)
				})
			}
			rec = func(from int, chosen map[int]netAct, k int) {
				add(chosen)
				if k == 0 {
					return
				}
				for i := from; i < n; i++ {
					for _, a := range acts {
						chosen[i] = a
						rec(i+1, chosen, k-1)
					}
					delete(chosen, i)
				}
			}
			rec(0, map[int]netAct{}, x.Pick(2, 3))
		}
		cert := variantByName("dtls/cert")
		cr := variantByName("dtls/cert-cr-cookie")
		ticket := cert
		ticket.ticket = true
		// three losses or late arrivals
		if !x.Thorough() {
			for _, v := range []variant{cert, cr} {
				for i := 0; i < 22; i++ {
					for j := i + 1; j < 22; j++ {
						for k := j + 1; k < 22; k++ {
							for late := 0; late < 8; late++ {
								v, i, j, k, late := v, i, j, k, late
								cs.Add(fmt.Sprintf("%s/three/%d/%d/%d/%d", v.name, i, j, k, late), func(c *Case) {
									c18Case(c, v, func(n int, _ bool, _ int) netAct {
										for b, at := range []int{i, j, k} {
											if n == at {
												if late&(1<<b) != 0 {
													return naLate
												}
												return naDrop
											}
										}
										return naOK
									}, 0, 0)
								})
							}
						}
					}
				}
			}
		}
		for _, v := range []variant{cert, cr, ticket} {
			for _, big := range []int{0, 1100, 2500} {
				v, big := v, big
				name := fmt.Sprintf("%s/big%d/ticket=%v", v.name, big, v.ticket)
				// every set of losses among the first datagrams of a direction
				for dir := 0; dir < 2; dir++ {
					n := x.Pick(9, 14)
					for set := 0; set < 1<<n; set++ {
						dir, set := dir, set
						cs.Add(fmt.Sprintf("%s/losses/%d/%b", name, dir, set), func(c *Case) {
							c18Case(c, v, func(_ int, fc bool, k int) netAct {
								if fc == (dir == 0) && k < n && set&(1<<k) != 0 {
									return naDrop
								}
								return naOK
							}, 0, big)
						})
					}
				}
				// bursts in both directions, applications that are late
				for a := 0; a < 16; a++ {
					for b := 0; b < 16; b++ {
						for _, drive := range []time.Duration{0, 40 * time.Millisecond, 250 * time.Millisecond} {
							a, b, drive := a, b, drive
							cs.Add(fmt.Sprintf("%s/bursts/%d/%d/%v", name, a, b, drive), func(c *Case) {
								c18Case(c, v, func(_ int, fc bool, k int) netAct {
									if fc && k < a || !fc && k < b {
										return naDrop
									}
									return naOK
								}, drive, big)
							})
							cs.Add(fmt.Sprintf("%s/windows/%d/%d/%v", name, a, b, drive), func(c *Case) {
								c18Case(c, v, func(n int, fc bool, k int) netAct {
									if n >= a && n < a+b {
										return naDrop
									}
									return naOK
								}, drive, big)
							})
							if b < 2 {
								continue
							}
							// a network that treats every b-th datagram alike
							for _, act := range []netAct{naDrop, naDup, naSwap, naAgain, naLate} {
								act := act
								cs.Add(fmt.Sprintf("%s/every/%d/%d/%v/%s", name, a, b, drive, naNames[act]), func(c *Case) {
									c18Case(c, v, func(n int, fc bool, k int) netAct {
										if n < 60 && n%b == a%b {
											return act
										}
										return naOK
									}, drive, big)
								})
							}
						}
					}
				}
				// two deviations in a handshake of many fragments
				if big > 0 {
					acts := []netAct{naDrop, naDup, naSwap, naAgain, naLate}
					for i := 0; i < x.Pick(20, 34); i++ {
						for j := i + 1; j < x.Pick(20, 34); j++ {
							for _, a := range acts {
								for _, b := range acts {
									i, j, a, b := i, j, a, b
									cs.Add(fmt.Sprintf("%s/two/%d%s/%d%s", name, i, naNames[a], j, naNames[b]), func(c *Case) {
										c18Case(c, v, func(n int, _ bool, _ int) netAct {
											switch n {
											case i:
												return a
											case j:
												return b
											}
											return naOK
										}, 0, big)
									})
								}
							}
						}
					}
				}
			}
		}
		// key updates after the handshake
		opset := []c18Op{{0, 0}, {0, 1}, {1, 0}, {1, 1}}
		var seqs [][]c18Op
		for _, a := range opset {
			seqs = append(seqs, []c18Op{a})
			for _, b := range opset {
				seqs = append(seqs, []c18Op{a, b})
				if x.Thorough() {
					for _, d := range opset {
						seqs = append(seqs, []c18Op{a, b, d})
					}
				}
			}
		}
		for _, ops := range seqs {
			n := x.Pick(8, 10)
			acts := []netAct{naOK, naDrop, naDup, naSwap, naAgain, naLate}
			for i := 0; i < n; i++ {
				for j := i + 1; j < n; j++ {
					for _, a := range acts {
						for _, b := range acts {
							ops, i, j, a, b := ops, i, j, a, b
							cs.Add(fmt.Sprintf("updates/%v/%d%s/%d%s", ops, i, naNames[a], j, naNames[b]), func(c *Case) {
								c18CaseOps(c, ticket, func(n int, _ bool, _ int) netAct {
									switch n {
									case i:
										return a
									case j:
										return b
									}
									return naOK
								}, 0, 0, ops)
							})
						}
					}
				}
			}
		}
		c18AckCases(x, cs)
		x.Run(cs, 0)
	})
}
