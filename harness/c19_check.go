//go:build vsched

package vharness

import (
	"bytes"
	"fmt"

	"github.com/bifurcation/mint"
	"github.com/bifurcation/mint/vsched"
)

// c19Scen is a connection that is read, written and updated at once.  in is what
// its peer has sent: a (data), k/K (a key update that asks for none/one), t (a
// ticket), x (an ACK of nothing), o (a handshake record of an epoch that is
// over), c/w/f (alerts: close_notify, warning, fatal), b (a broken record).
type c19Scen struct {
	dtls, client bool
	in           string
	writes       []int
	updates      string // k/K
	close        bool   // a thread closes the connection
	buf          int
}

func (s c19Scen) String() string {
	d := "tls"
	if s.dtls {
		d = "dtls"
	}
	r := "server"
	if s.client {
		r = "client"
	}
	return fmt.Sprintf("%s-%s/in=%s/out=%v/up=%s/close=%v", d, r, s.in, s.writes, s.updates, s.close)
}

func c19Msg(i, n int) []byte {
	b := make([]byte, n)
	for j := range b {
		b[j] = byte(i*31 + j*7 + j>>8)
	}
	return b
}

func (s c19Scen) build(c *Case) (threads []func(), check func(ex *vsched.Exec)) {
	e, p := c23Hs(c, c23Opt{dtls: s.dtls, client: s.client, suite: 0x1301, group: gX25519, mode: "psk-ke"})
	e.ReadAll(100)
	p.Drain()
	e.W.take()
	p.Recs, p.App, p.KUs, p.Alerts, p.Acks = nil, nil, nil, nil, nil
	var sent []byte
	asked, over := 0, false
	for i, ev := range s.in {
		switch ev {
		case 'a':
			m := c19Msg(100+i, 9+i)
			p.SendApp(m)
			if !over {
				sent = append(sent, m...)
			}
		case 'k':
			p.SendKU(0)
		case 'K':
			p.SendKU(1)
			if !over {
				asked++
			}
		case 't':
			p.SendNST(&ticket{Lifetime: 100, AgeAdd: 7, Nonce: []byte{byte(i)}, Ticket: []byte(fmt.Sprint("ticket", i))})
		case 'x':
			p.SendRecord(rtAck, c18Ack(uint64(i)|1<<50))
		case 'o':
			// the last message before these, again, in a record of the first epoch
			if s.client {
				p.emit(append([]byte{22, 0xfe, 0xfd, 0, 0, 0, 0, 0, 0, 1, byte(i), 0, 16}, hsFrag(hSH, 4, 0, 0, make([]byte, 4))...))
			} else {
				p.emit(append([]byte{22, 0xfe, 0xfd, 0, 0, 0, 0, 0, 0, 1, byte(i), 0, 16}, hsFrag(hCH, 4, 0, 0, make([]byte, 4))...))
			}
		case 'c':
			p.SendAlert(1, 0)
			over = true
		case 'w':
			p.SendAlert(1, 90)
		case 'f':
			p.SendAlert(2, 40)
			over = true
		case 'b':
			r := p.sealRecord(p.out, rtApp, []byte("broken"), 0)
			r[len(r)-1] ^= 1
			p.emit(r)
			if !s.dtls {
				over = true
			}
		}
	}
	hook := func(n int, b []byte) (bool, int, error) { vsched.Point(); return false, 0, nil }
	e.W.onWrite = hook
	e.W.onRead = func(int) (bool, int, error) { vsched.Point(); return false, 0, nil }

	var got []byte
	var readErr, writeErr, upErr error
	wrote, updated := 0, 0
	if s.in != "" {
		threads = append(threads, func() {
			buf := make([]byte, 4096)
			if s.buf > 0 {
				buf = buf[:s.buf]
			}
			for readErr == nil {
				n, err := e.C.Read(buf)
				got = append(got, buf[:n]...)
				if err == mint.AlertWouldBlock && e.W.pending() == 0 {
					return
				}
				if err != nil && err != mint.AlertWouldBlock {
					readErr = err
				}
				if s.dtls {
					e.C.GetDTLSTimeout()
				}
			}
		})
	}
	if len(s.writes) > 0 {
		threads = append(threads, func() {
			for i, n := range s.writes {
				m := c19Msg(i, n)
				k, err := e.C.Write(m)
				if err != nil {
					writeErr = err
					return
				}
				if k != n {
					writeErr = fmt.Errorf("%d bytes written", k)
					return
				}
				wrote++
			}
		})
	}
	if s.updates != "" {
		threads = append(threads, func() {
			for _, u := range s.updates {
				if err := e.C.SendKeyUpdate(u == 'K'); err != nil {
					upErr = err
					return
				}
				updated++
			}
		})
	}
	if s.close {
		threads = append(threads, func() { e.C.Close() })
	}
	check = func(ex *vsched.Exec) {
		e.W.onWrite, e.W.onRead = nil, nil
		var all []byte
		for i, n := range s.writes {
			all = append(all, c19Msg(i, n)...)
		}
		drain := func() {
			msg := ""
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(peerError); !ok {
							panic(r)
						}
						msg = fmt.Sprint(r)
					}
				}()
				p.Drain()
			}()
			if msg != "" {
				c.Fail("undecipherable", "what the connection sent: %s", msg)
			}
		}
		drain()
		seen := map[string]bool{}
		for _, r := range p.Recs {
			if r.key == nil {
				continue
			}
			k := fmt.Sprint(r.key.epoch, "/", r.seq)
			if seen[k] {
				c.Fail("nonce", "two records of epoch %d have the number %d", r.key.epoch, r.seq)
			}
			seen[k] = true
		}
		if over || s.close {
			// Calls may fail, but what was sent is what was to be sent.
			if !bytes.HasPrefix(all, p.App) {
				c.Fail("data", "the peer got %s", diff(p.App, all))
			}
			n := 0
			for i := 0; i < wrote; i++ {
				n += s.writes[i]
			}
			if len(p.App) < n {
				c.Fail("data", "%d bytes were written, %d have been sent", n, len(p.App))
			}
			if !bytes.HasPrefix(sent, got) || (over && !s.close && len(got) != len(sent)) {
				c.Fail("data", "read %s", diff(got, sent))
			}
			if over && !s.close && readErr == nil {
				c.Fail("status", "an alert or a broken record went unnoticed")
			}
			c.Outcome(fmt.Sprintf("%v/%v/%v", readErr, writeErr != nil, upErr != nil))
			return
		}
		if readErr != nil || writeErr != nil || upErr != nil {
			c.Fail("error", "read: %v, write: %v, update: %v", readErr, writeErr, upErr)
		}
		if !bytes.Equal(got, sent) {
			c.Fail("data", "read %s", diff(got, sent))
		}
		if !bytes.Equal(p.App, all) {
			c.Fail("data", "the peer got %s", diff(p.App, all))
		}
		if len(p.Alerts) > 0 {
			c.Fail("alert", "the connection sent alerts %v", p.Alerts)
		}
		lo := updated
		if asked > 0 {
			lo++
		}
		if len(p.KUs) < lo || len(p.KUs) > updated+asked {
			c.Fail("updates", "%d key updates sent after %d calls and %d requests", len(p.KUs), updated, asked)
		}
		want := 0
		for _, u := range s.updates {
			if u == 'K' {
				want++
			}
		}
		n := 0
		for _, u := range p.KUs {
			n += u
		}
		if n != want {
			c.Fail("updates", "%d key updates ask for one, not %d", n, want)
		}
		// and the connection goes on
		for i := 0; i < 2; i++ {
			p.App = nil
			p.SendApp([]byte("ping"))
			b, err := e.ReadAll(100)
			if err != nil || string(b) != "ping" {
				c.Fail("after", "then read %q (%v)", b, err)
			}
			if k, err := e.C.Write([]byte("pong")); k != 4 || err != nil {
				c.Fail("after", "then wrote %d (%v)", k, err)
			}
			drain()
			if string(p.App) != "pong" {
				c.Fail("after", "then the peer got %q", p.App)
			}
			k := len(p.KUs)
			p.SendKU(1)
			if b, err := e.ReadAll(100); err != nil || len(b) > 0 {
				c.Fail("after", "then read %q (%v)", b, err)
			}
			drain()
			if len(p.KUs) != k+1 {
				c.Fail("after", "then a key update was not answered")
			}
		}
		c.Outcome("as in order")
	}
	return
}

func diff(got, want []byte) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("%d bytes, not the %d, different from byte %d", len(got), len(want), i)
}

// c19Pair: two ends that are each read, written and updated.
type c19Pair struct {
	dtls bool
	w    [2][]int
	up   [2]string
}

func (s c19Pair) String() string {
	return fmt.Sprintf("pair/dtls=%v/%v%v/%s-%s", s.dtls, s.w[0], s.w[1], s.up[0], s.up[1])
}

func (s c19Pair) build(c *Case) (threads []func(), check func(ex *vsched.Exec)) {
	v := variant{dtls: s.dtls, psk: true, modes: []mint.PSKKeyExchangeMode{mint.PSKModeKE}}
	cc, sc := v.cfgs()
	cc.UseDTLS, sc.UseDTLS = s.dtls, s.dtls
	d := &driven{p: NewPair(cc, sc)}
	d.run()
	if d.c != hsDone || d.s != hsDone {
		c.Fail("handshake", "%v %v", d.c, d.s)
	}
	if err := d.echo(nil); err != nil {
		c.Fail("handshake", "%v", err)
	}
	d.shuttle()
	ends := []*End{d.p.C, d.p.S}
	var got [2][]byte
	var errs [6]error
	finished := 0
	writers := 0
	for i := range ends {
		e, o := ends[i], ends[1-i]
		e.W.afterOut = func(b []byte) {
			vsched.Point()
			for _, b := range e.W.take() {
				o.W.feed(b)
			}
		}
		if len(s.w[i]) > 0 {
			writers++
		}
		if s.up[i] != "" {
			writers++
		}
	}
	for i := range ends {
		i, e := i, ends[i]
		threads = append(threads, func() {
			buf := make([]byte, 100)
			for {
				n, err := e.C.Read(buf)
				got[i] = append(got[i], buf[:n]...)
				if err == mint.AlertWouldBlock {
					if e.W.pending() > 0 {
						continue
					}
					if c19Done(&finished, writers) {
						return
					}
					vsched.Wait(func() bool { return c19Pending(e.W) || c19Done(&finished, writers) })
					continue
				}
				if err != nil {
					errs[i] = err
					return
				}
			}
		})
		if len(s.w[i]) > 0 {
			threads = append(threads, func() {
				for j, n := range s.w[i] {
					if k, err := e.C.Write(c19Msg(10*i+j, n)); err != nil || k != n {
						errs[2+i] = fmt.Errorf("wrote %d: %v", k, err)
						break
					}
				}
				c19Finish(&finished)
			})
		}
		if s.up[i] != "" {
			threads = append(threads, func() {
				for _, u := range s.up[i] {
					if err := e.C.SendKeyUpdate(u == 'K'); err != nil {
						errs[4+i] = err
						break
					}
				}
				c19Finish(&finished)
			})
		}
	}
	check = func(ex *vsched.Exec) {
		for i, e := range ends {
			e.W.afterOut = nil
			_ = i
		}
		for r := 0; r < 4; r++ {
			d.shuttle()
			for i, e := range ends {
				b, err := e.ReadAll(100)
				got[i] = append(got[i], b...)
				if err != nil {
					errs[i] = err
				}
			}
		}
		for i, err := range errs {
			if err != nil {
				c.Fail("error", "%s: %v", []string{"client read", "server read", "client write", "server write", "client update", "server update"}[i], err)
			}
		}
		for i := range ends {
			var all []byte
			for j, n := range s.w[1-i] {
				all = append(all, c19Msg(10*(1-i)+j, n)...)
			}
			if !bytes.Equal(got[i], all) {
				c.Fail("data", "end %d read %s", i, diff(got[i], all))
			}
		}
		for r := 0; r < 2; r++ {
			if err := d.echo(nil); err != nil {
				c.Fail("after", "%v", err)
			}
			for _, e := range ends {
				if err := e.C.SendKeyUpdate(true); err != nil {
					c.Fail("after", "%v", err)
				}
				for k := 0; k < 3; k++ {
					d.shuttle()
					for _, e := range ends {
						if b, err := e.ReadAll(10); err != nil || len(b) > 0 {
							c.Fail("after", "read %q (%v)", b, err)
						}
					}
				}
			}
		}
		c.Outcome("as in order")
	}
	return
}

//go:norace
func c19Done(n *int, w int) bool { return *n == w }

//go:norace
func c19Finish(n *int) { *n++ }

//go:norace
func c19Pending(w *Wire) bool { return len(w.in) > 0 || len(w.inPkts) > 0 }

func init() {
	register("C19", "model_checking", func(x *Ctx) {
		x.Rule("every schedule, up to a bound of preemptions at statements, locks and transport calls, of the threads that read, write, update and close one established connection of a reference peer that has sent data, key updates, tickets, acknowledgements and alerts, and of two real ends that do so at once: the bytes, the records, the keys and what follows are those of some order; the schedules with fewer preemptions are judged by the race detector as well")
		x.Assume("the scheduler is sequentially consistent; statements of mint's sources, its locks and the transport calls are its switching points")
		var scens []scen
		add := func(s c19Scen, bound, deep, parts int) {
			scens = append(scens, scen{name: s.String(), build: s.build, bound: bound, deep: deep, parts: parts})
		}
		for _, dtls := range []bool{false, true} {
			for _, client := range []bool{true, false} {
				b := c19Scen{dtls: dtls, client: client}
				mk := func(in string, w []int, up string) c19Scen {
					s := b
					s.in, s.writes, s.updates = in, w, up
					return s
				}
				two := 2
				if dtls && !client {
					two = 1
				}
				add(mk("Ka", []int{5}, ""), two, 3, 24)
				add(mk("aKa", []int{5, 7}, ""), 1, 2, 8)
				add(mk("K", nil, "k"), two, 3, 24)
				add(mk("Ka", nil, "k"), 1, 2, 8)
				add(mk("aK", nil, "K"), 1, 3, 24)
				add(mk("", []int{5}, "K"), 2, 3, 24)
				add(mk("", []int{5, 20000}, "kK"), 1, 2, 8)
				add(mk("kK", nil, "k"), 1, 3, 8)
				add(mk("aKka", []int{5}, "K"), 1, 2, 8)
				add(mk("KKa", []int{5, 5}, "k"), 1, 2, 8)
				add(mk("aa", []int{5, 16400}, "Kk"), 1, 2, 8)
				if client {
					add(mk("tKt", []int{5}, "k"), 1, 2, 8)
				}
				if dtls {
					add(mk("xKx", []int{5}, "k"), 1, 2, 8)
					add(mk("xoK", nil, "kk"), 1, 2, 8)
					add(mk("oa", []int{5, 6}, ""), 1, 2, 8)
				}
				for _, in := range []string{"ac", "awK", "f", "aKb", "ba"} {
					if in == "f" || !dtls || in == "ac" {
						add(mk(in, []int{5, 6}, "k"), 1, 2, 8)
					}
				}
				s := mk("aK", []int{5, 6}, "")
				s.close = true
				add(s, 1, 2, 8)
				s.updates = "k"
				s.writes = []int{3}
				add(s, 1, 2, 8)
				s = mk("aaa", []int{1}, "")
				s.buf = 4
				add(s, 1, 2, 8)
			}
			for _, s := range []c19Pair{
				{dtls, [2][]int{{5}, {6}}, [2]string{"K", ""}},
				{dtls, [2][]int{{5}, {}}, [2]string{"K", "K"}},
				{dtls, [2][]int{{5, 6}, {7, 8}}, [2]string{"", ""}},
				{dtls, [2][]int{{}, {6}}, [2]string{"Kk", "K"}},
			} {
				scens = append(scens, scen{name: s.String(), build: s.build, bound: 1, deep: 2, parts: 24, delay: true})
			}
		}
		concurrent(x, scens)
	})
}
