package vharness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"

	"github.com/bifurcation/mint"
)

// C25: every transport call of a history fails in every way.

type faultKind int

const (
	rErr      faultKind = iota // read fails once
	rErrEver                   // reads fail from now on
	rTimeout                   // read times out once
	rEOF                       // end of the stream
	rZero                      // nothing now
	rShort                     // one byte
	rDataErr                   // data along with an error that persists
	rDataEOF                   // data along with the end
	rTrunc                     // a part of the datagram
	wErr                       // write fails once, nothing sent
	wErrEver                   // writes fail from now on
	wTimeout                   // write times out
	wHalf                      // half is written, with an error
	wHalfEver                  // half is written, with an error, then nothing
	wSentErr                   // everything is written and an error reported
	nFaults
	// at counts bytes
	cutEOF  // the stream ends
	cutErr  // reads fail from now on
	cutSent // writes fail from now on
)

var faultNames = []string{"read-error", "read-error-forever", "read-timeout", "eof", "read-nothing", "read-one-byte", "data+error", "data+eof", "truncated-datagram",
	"write-error", "write-error-forever", "write-timeout", "half-written", "half-written-forever", "written+error", "", "eof-after-bytes", "error-after-bytes", "write-error-after-bytes"}

func (k faultKind) write() bool { return k >= wErr && k <= nFaults || k == cutSent }

// harmless faults lose nothing.
func (k faultKind) harmless() bool { return k == rZero || k == rShort }

var errInjected = errors.New("transport: injected failure")

type fault struct {
	at   int
	kind faultKind
}

func (f fault) String() string { return fmt.Sprintf("%d-%s", f.at, faultNames[f.kind]) }

// inject arms a transport; *hit counts error returns of the transport.
func inject(w *Wire, fs []fault, hit *int, in, out *[]byte) {
	dead := map[bool]error{}
	var cut, sent *fault
	for i := range fs {
		if fs[i].kind == cutSent {
			sent = &fs[i]
		} else if fs[i].kind > nFaults {
			cut = &fs[i]
		}
	}
	w.readHook = func(n int, b []byte) (bool, int, error) {
		if cut != nil {
			rem := cut.at - len(*in)
			if rem <= 0 {
				*hit++
				if cut.kind == cutEOF {
					return true, 0, io.EOF
				}
				return true, 0, errInjected
			}
			if rem < len(b) {
				b = b[:rem]
			}
		}
		h, m, err := injectRead(w, fs, hit, dead, n, b)
		if !h {
			m, err = w.read(b)
		}
		*in = append(*in, b[:m]...)
		return true, m, err
	}
	w.onWrite = func(n int, b []byte) (bool, int, error) {
		if sent != nil {
			rem := sent.at - len(*out)
			if rem < len(b) {
				*hit++
				if rem > 0 && w.closed == 0 {
					w.outs = append(w.outs, append([]byte{}, b[:rem]...))
				}
				*out = append(*out, b[:rem]...)
				return true, rem, errInjected
			}
		}
		h, m, err := injectWrite(w, fs, hit, dead, n, b)
		if !h && w.closed == 0 {
			*out = append(*out, b...)
		}
		return h, m, err
	}
}

func injectRead(w *Wire, fs []fault, hit *int, dead map[bool]error, n int, b []byte) (bool, int, error) {
	if e := dead[false]; e != nil {
		*hit++
		return true, 0, e
	}
	for _, f := range fs {
		if f.at != n || f.kind.write() {
			continue
		}
		switch f.kind {
		case rErr:
			*hit++
			return true, 0, errInjected
		case rErrEver:
			*hit++
			dead[false] = errInjected
			return true, 0, errInjected
		case rTimeout:
			*hit++
			return true, 0, os.ErrDeadlineExceeded
		case rEOF:
			*hit++
			dead[false] = io.EOF
			return true, 0, io.EOF
		case rZero:
			return true, 0, nil
		case rShort:
			if len(b) > 1 && !w.dgram {
				m, err := w.read(b[:1])
				return true, m, err
			}
		case rDataErr, rDataEOF:
			m, err := w.read(b)
			dead[false] = map[bool]error{true: errInjected, false: io.EOF}[f.kind == rDataErr]
			if err == nil {
				err = dead[false]
			}
			if m == 0 {
				*hit++
			}
			return true, m, err
		case rTrunc:
			m, err := w.read(b)
			return true, m / 2, err
		}
	}
	return false, 0, nil
}

func injectWrite(w *Wire, fs []fault, hit *int, dead map[bool]error, n int, b []byte) (bool, int, error) {
	if e := dead[true]; e != nil {
		*hit++
		return true, 0, e
	}
	for _, f := range fs {
		if f.at != n || !f.kind.write() {
			continue
		}
		*hit++
		put := func(b []byte) {
			if w.closed == 0 {
				w.outs = append(w.outs, append([]byte{}, b...))
			}
		}
		switch f.kind {
		case wErr:
			return true, 0, errInjected
		case wErrEver:
			dead[true] = errInjected
			return true, 0, errInjected
		case wTimeout:
			return true, 0, os.ErrDeadlineExceeded
		case wHalf:
			put(b[:len(b)/2])
			return true, len(b) / 2, errInjected
		case wHalfEver:
			dead[true] = errInjected
			put(b[:len(b)/2])
			return true, len(b) / 2, errInjected
		case wSentErr:
			put(b)
			return true, len(b), errInjected
		}
	}
	return false, 0, nil
}

var _ net.Conn = (*Wire)(nil)

// c25Run is one history with faults at one end.
type c25Run struct {
	c        *Case
	d        *driven
	e        *End // the end with the faults
	hit      int
	in, out  []byte // what the transport delivered and took
	blocking bool
	fs       []fault
	sent     [2][]c25Sent // per writer (0: client): everything given to Write
	failedW  [2]bool      // a Write has reported an error
	got      [2][]byte    // per reader
	readErr  [2]error     // last error of a reader that is not would-block
	calls    []string
	dtls     bool
	accept   bool
}

// c25Sent is one call of Write: n bytes are reported as written.
type c25Sent struct {
	b []byte
	n int
}

func (r *c25Run) all(i int) (b []byte) {
	for _, m := range r.sent[i] {
		b = append(b, m.b...)
	}
	return
}

// isPrefix reports whether got may be the start of what the calls have sent:
// of a Write that failed at least n bytes and perhaps more.
func isPrefix(got []byte, ms []c25Sent) bool {
	for i, m := range ms {
		if len(got) <= len(m.b) && bytes.HasPrefix(m.b, got) {
			return true
		}
		if m.n < len(m.b) {
			if len(got) < m.n || !bytes.Equal(got[:m.n], m.b[:m.n]) {
				return false
			}
			for k := m.n; k <= len(got) && k < len(m.b); k++ {
				if k > m.n && got[k-1] != m.b[k-1] {
					break
				}
				if isPrefix(got[k:], ms[i+1:]) {
					return true
				}
			}
		}
		if !bytes.HasPrefix(got, m.b) {
			return false
		}
		got = got[len(m.b):]
	}
	return len(got) == 0
}

func wholeRecords(b []byte) bool {
	for len(b) >= 5 && len(b) >= 5+int(b[3])<<8+int(b[4]) {
		b = b[5+int(b[3])<<8+int(b[4]):]
	}
	return len(b) == 0
}

func (r *c25Run) note(f string, a ...interface{}) { r.calls = append(r.calls, fmt.Sprintf(f, a...)) }

func (r *c25Run) fail(kind, f string, a ...interface{}) {
	l := r.calls
	if len(l) > 40 {
		l = l[len(l)-40:]
	}
	r.c.Fail(kind, "%s\n%v", fmt.Sprintf(f, a...), l)
}

// around requires that a call during which the transport failed reports it.
func (r *c25Run) around(e *End, what string, f func() error) error {
	before := r.hit
	err := f()
	if len(r.calls) < 500 {
		r.note("%s: %v", what, err)
	}
	if e == r.e && r.hit != before && err == nil {
		r.fail("unreported", "the transport failed during %s, which reports success", what)
	}
	return err
}

func (r *c25Run) up(i int) bool { return r.end(i).Connected() && !r.end(i).Failed }

func (r *c25Run) end(i int) *End {
	if i == 0 {
		return r.d.p.C
	}
	return r.d.p.S
}

// step drives one end's handshake.
func (r *c25Run) step(i int) hsResult {
	e := r.end(i)
	for k := 0; k < 200; k++ {
		var a mint.Alert
		r.around(e, []string{"client", "server"}[i]+" Handshake", func() error {
			a = e.C.Handshake()
			if a == mint.AlertNoAlert {
				return nil
			}
			return a
		})
		switch a {
		case mint.AlertNoAlert:
			if e.Connected() {
				return hsDone
			}
			if r.blocking && e == r.e {
				r.fail("blocking", "a blocking Handshake returns without a result in state %v", e.C.ConnectionState().HandshakeState)
			}
			continue
		case mint.AlertStatelessRetry:
			continue
		case mint.AlertWouldBlock:
			return hsBlocked
		}
		if !e.Failed {
			e.Failed, e.Fail = true, a
		} else if e.Fail != a {
			r.fail("changed", "a failed handshake reports %v and then %v", e.Fail, a)
		}
		return hsFailed
	}
	panic("Handshake makes no progress")
}

func (r *c25Run) handshake() {
	d := r.d
	other := 0
	if r.e == d.p.C {
		other = 1
	}
	if r.blocking {
		peerMoves := func() bool {
			for k := 0; k < 20; k++ {
				m := d.shuttle()
				if r.step(other) == hsDone && !d.shuttle() && !m {
					break
				}
				d.shuttle()
				if r.e.W.pending() > 0 {
					return true
				}
				if !m {
					break
				}
			}
			return r.e.W.pending() > 0
		}
		r.e.W.onEmpty = peerMoves
		if other == 0 {
			r.step(0)
			d.shuttle()
		}
		res := r.step(1 - other)
		r.e.W.onEmpty = nil
		r.set(1-other, res)
		for k := 0; k < 10; k++ {
			m := d.shuttle()
			res := r.step(other)
			r.set(other, res)
			if !m && !d.shuttle() {
				break
			}
		}
		// the retransmissions of a retry are not needed
		return
	}
	wrote := false
	for k := 0; k < 100; k++ {
		if d.c == hsBlocked {
			d.c = r.step(0)
		}
		if d.early && !wrote && d.c != hsFailed {
			wrote = true
			r.write(0, earlyMsg)
			if !r.accept {
				r.sent[0] = nil // to be ignored by the server
			}
		}
		m := d.shuttle()
		if d.s == hsBlocked {
			d.s = r.step(1)
		}
		if !d.shuttle() && !m && k > 5 {
			break
		}
	}
}

func (r *c25Run) set(i int, res hsResult) {
	if i == 0 {
		r.d.c = res
	} else {
		r.d.s = res
	}
}

func (r *c25Run) write(i int, b []byte) {
	e := r.end(i)
	r.around(e, fmt.Sprintf("%s Write(%d)", []string{"client", "server"}[i], len(b)), func() error {
		n, err := e.C.Write(b)
		if n < 0 || n > len(b) || err == nil && n != len(b) {
			r.fail("count", "Write of %d bytes returns %d, %v", len(b), n, err)
		}
		if err != nil {
			r.failedW[i] = true
			// whether the rest arrives is open
		}
		r.sent[i] = append(r.sent[i], c25Sent{b, n})
		return err
	})
	r.d.shuttle()
}

func (r *c25Run) update(i int, req bool) {
	e := r.end(i)
	r.around(e, "SendKeyUpdate", func() error {
		err := e.C.SendKeyUpdate(req)
		if err != nil {
			r.failedW[i] = true
		}
		return err
	})
	r.d.shuttle()
}

func (r *c25Run) read(i int) {
	e := r.end(i)
	buf := make([]byte, 1000)
	wb := 0
	for k := 0; k < 300; k++ {
		w := e.W.pending()
		var n int
		err := r.around(e, []string{"client", "server"}[i]+" Read", func() error {
			var err error
			n, err = e.C.Read(buf)
			return err
		})
		r.got[i] = append(r.got[i], buf[:n]...)
		r.check(i)
		r.d.shuttle()
		if err == nil {
			if n == 0 {
				r.fail("empty", "Read returns 0 bytes and no error")
			}
			continue
		}
		if err == mint.AlertWouldBlock || errors.Is(err, os.ErrDeadlineExceeded) {
			if wb++; wb < 4 || e.W.pending() < w {
				continue
			}
			return
		}
		if err == errStall {
			return
		}
		r.readErr[i] = err
		if e == r.e && err == io.EOF && !r.dtls && !wholeRecords(r.in) {
			r.fail("truncated", "the stream ends inside a record and Read reports an orderly end")
		}
		if k > 3 {
			return
		}
	}
	panic("Read makes no progress")
}

// check: what a reader got is a prefix of what the other end sent.
func (r *c25Run) check(i int) {
	if !r.dtls {
		if !isPrefix(r.got[i], r.sent[1-i]) {
			all := r.all(1 - i)
			k := 0
			for k < len(all) && k < len(r.got[i]) && all[k] == r.got[i][k] {
				k++
			}
			r.fail("corrupt", "the %s has read %d bytes, of which only the first %d are what was sent (%d)", []string{"client", "server"}[i], len(r.got[i]), k, len(all))
		}
		return
	}
	// records may be lost
	var recs [][]byte
	for _, s := range r.sent[1-i] {
		m := s.b
		for len(m) > 16384 {
			recs = append(recs, m[:16384])
			m = m[16384:]
		}
		recs = append(recs, m)
	}
	got := r.got[i]
	for _, m := range recs {
		if len(got) > 0 && len(got) < len(m) && bytes.HasPrefix(m, got) {
			got = nil
		}
		if len(got) > 0 && bytes.HasPrefix(got, m) {
			got = got[len(m):]
		}
	}
	if len(got) > 0 {
		r.fail("corrupt", "the %s has read data that was not sent", []string{"client", "server"}[i])
	}
}

func c25Msg(i, k, n int) []byte {
	b := make([]byte, n)
	for j := range b {
		b[j] = byte(i*50+k*13) + byte(j) + byte(j>>8)*3
	}
	return b
}

func (r *c25Run) data() {
	k := 0
	both := func() {
		// completed ends may have to be told
		for i := 0; i < 2; i++ {
			if r.up(i) {
				r.read(i)
			}
		}
	}
	wr := func(i, n int) {
		k++
		if r.up(i) {
			r.write(i, c25Msg(i, k, n))
		}
	}
	wr(0, 10)
	both()
	wr(1, 40000)
	both()
	for i := 0; i < 2; i++ {
		if r.up(i) {
			r.update(i, i == 0)
			wr(i, 33)
		}
	}
	both()
	wr(0, 16385)
	wr(1, 5)
	both()
	both()
}

// c25Do runs a history; with count it reports the transport calls made.
func c25Do(c *Case, v variant, client, blocking bool, fs []fault) (reads, writes int, in, out []byte) {
	cc, sc := v.cfgs()
	if v.ticket {
		cc.PSKs = &mint.PSKMapCache{}
	}
	if client {
		cc.NonBlocking = !blocking
	} else {
		sc.NonBlocking = !blocking
	}
	d := &driven{p: NewPair(cc, sc), early: v.early && !blocking}
	r := &c25Run{c: c, d: d, blocking: blocking, fs: fs, dtls: v.dtls, accept: v.accept}
	r.e = d.p.S
	if client {
		r.e = d.p.C
	}
	inject(r.e.W, fs, &r.hit, &r.in, &r.out)
	r.handshake()
	if d.c == hsDone && d.s == hsDone {
		if err := d.agree(v); err != nil {
			r.fail("disagree", "%v", err)
		}
	}
	if !(blocking && (d.c != hsDone || d.s != hsDone)) {
		r.data()
	}
	harmless := true
	for _, f := range fs {
		harmless = harmless && f.kind.harmless() && !(v.dtls && f.kind == rTrunc)
	}
	if harmless {
		if d.c != hsDone || d.s != hsDone {
			r.fail("handshake", "does not complete: %v (%v) %v (%v)", d.c, d.p.C.Fail, d.s, d.p.S.Fail)
		}
		for i := 0; i < 2; i++ {
			if want := r.all(1 - i); len(r.got[i]) != len(want) || len(want) == 0 {
				r.fail("lost", "the %s has read %d of %d bytes", []string{"client", "server"}[i], len(r.got[i]), len(want))
			}
			if r.readErr[i] != nil {
				r.fail("error", "the %s reports %v", []string{"client", "server"}[i], r.readErr[i])
			}
		}
	}
	// what Write reports as written has been handed to the transport
	only, w := true, 0
	if r.e == d.p.S {
		w = 1
	}
	for _, f := range fs {
		only = only && f.kind.write()
	}
	if only && r.up(1-w) {
		min := 0
		for _, m := range r.sent[w] {
			min += m.n
			if m.n < len(m.b) {
				break
			}
		}
		if len(r.got[1-w]) < min {
			r.fail("overstated", "the %s's first writes report %d bytes as written, the peer has got %d", []string{"client", "server"}[w], min, len(r.got[1-w]))
		}
	}
	// failed handshakes stay failed
	for i := 0; i < 2; i++ {
		e := r.end(i)
		if e.Failed {
			if r.step(i) != hsFailed {
				r.fail("recovered", "a failed handshake goes on")
			}
			if n, err := e.C.Write([]byte("x")); err == nil || n != 0 {
				r.fail("write", "Write on a failed handshake: %d %v", n, err)
			}
			if n, err := e.C.Read(make([]byte, 10)); err == nil || n != 0 {
				r.fail("read", "Read on a failed handshake: %d %v", n, err)
			}
		}
	}
	c.Transitions(len(r.calls))
	c.Traces(1)
	c.Outcome(fmt.Sprintf("client %v server %v delivered %v %v", d.c, d.s, len(r.got[0]) == 40000+33+5, len(r.got[1]) == 10+33+16385 || len(r.got[1]) == 10+33+16385+len(earlyMsg)))
	return r.e.W.reads, r.e.W.writes, r.in, r.out
}

func c25Variants(x *Ctx) (out []variant) {
	names := []string{"tls/cert-cr", "tls/cert-cookie", "tls/psk-dhe", "tls/psk-early", "tls/psk-early-rejected", "dtls/cert-cr", "dtls/cert-cookie", "dtls/psk-dhe"}
	if x.Thorough() {
		names = nil
		for _, d := range []bool{false, true} {
			for _, v := range hsVariants(d) {
				names = append(names, v.name)
			}
		}
	}
	for _, n := range names {
		out = append(out, variantByName(n))
	}
	for _, n := range []string{"tls/cert", "dtls/cert"} {
		v := variantByName(n)
		v.name += "-ticket"
		v.ticket = true
		out = append(out, v)
	}
	return
}

func init() {
	register("C25", "fault_enumeration", func(x *Ctx) {
		x.Rule("for each handshake variant, role and mode: every transport read and write of a complete history (handshake, data both ways, key updates) fails in every way; pairs of faults; the transport's end after every byte")
		cs := &Cases{}
		for _, v := range c25Variants(x) {
			for _, client := range []bool{true, false} {
				for _, blocking := range []bool{false, true} {
					v, client, blocking := v, client, blocking
					name := fmt.Sprintf("%s/client=%v/blocking=%v", v.name, client, blocking)
					var nr, nw int
					var in, out []byte
					func() {
						defer func() { recover() }()
						nr, nw, in, out = c25Do(&Case{rerun: true}, v, client, blocking, nil)
					}()
					cs.Add(name+"/none", func(c *Case) { c25Do(c, v, client, blocking, nil) })
					add := func(fs ...fault) {
						cs.Add(fmt.Sprintf("%s/%v", name, fs), func(c *Case) { c25Do(c, v, client, blocking, fs) })
					}
					var all []fault
					for k := faultKind(0); k < nFaults; k++ {
						if k == rTrunc && !v.dtls || k == rShort && v.dtls {
							continue
						}
						n := nr
						if k.write() {
							n = nw
						}
						for at := 0; at < n+3; at++ {
							f := fault{at, k}
							add(f)
							all = append(all, f)
						}
					}
					// the end after every byte of the handshake, and about the
					// ends of the records that follow
					if !v.dtls && (x.Thorough() || v.name == "tls/cert-cr" || v.name == "tls/psk-early" || v.name == "tls/cert-ticket") {
						for _, k := range []faultKind{cutEOF, cutErr, cutSent} {
							b := in
							if k == cutSent {
								b = out
							}
							for at, end := 0, 0; at < len(b); {
								end = at + 5 + int(b[at+3])<<8 + int(b[at+4])
								for j := at; j < end; j++ {
									if end-at < 2000 || j-at < 30 || end-j < 30 {
										add(fault{j, k})
									}
								}
								at = end
							}
						}
					}
					pairs := x.Thorough() || v.name == "tls/cert-ticket" || v.name == "dtls/cert-ticket"
					if !pairs {
						continue
					}
					for i, a := range all {
						if !x.Thorough() && a.kind != rTimeout && a.kind != rZero && a.kind != wErr && a.kind != rErr && a.kind != wHalf {
							continue
						}
						for j, b := range all {
							if j <= i || a.kind.write() == b.kind.write() && a.at == b.at {
								continue
							}
							if b.kind == rShort || b.kind == rTrunc || (i+j)%x.Pick(5, 1) != 0 {
								continue
							}
							if x.Thorough() && !(v.ticket || v.name == "tls/cert-cr" || v.name == "dtls/cert-cookie") && (i+j)%7 != 0 {
								continue
							}
							add(a, b)
						}
					}
				}
			}
		}
		x.Run(cs, 0)
	})
}
