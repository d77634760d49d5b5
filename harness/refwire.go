package vharness

// Independent wire encodings (RFC 8446 section 4), builders and parsers.

import (
	"encoding/binary"
	"fmt"
)

type buf struct{ b []byte }

func (w *buf) u8(v int)  { w.b = append(w.b, byte(v)) }
func (w *buf) u16(v int) { w.b = append(w.b, byte(v>>8), byte(v)) }
func (w *buf) u24(v int) { w.b = append(w.b, byte(v>>16), byte(v>>8), byte(v)) }
func (w *buf) u32(v uint32) {
	w.b = append(w.b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}
func (w *buf) raw(p []byte) { w.b = append(w.b, p...) }
func (w *buf) v8(p []byte)  { w.u8(len(p)); w.raw(p) }
func (w *buf) v16(p []byte) { w.u16(len(p)); w.raw(p) }
func (w *buf) v24(p []byte) { w.u24(len(p)); w.raw(p) }

type rd struct {
	b   []byte
	bad bool
}

func (r *rd) take(n int) []byte {
	if r.bad || n > len(r.b) {
		r.bad = true
		return make([]byte, min(n, 1<<16))
	}
	v := r.b[:n]
	r.b = r.b[n:]
	return v
}
func (r *rd) u8() int     { return int(r.take(1)[0]) }
func (r *rd) u16() int    { return int(binary.BigEndian.Uint16(r.take(2))) }
func (r *rd) u24() int    { p := r.take(3); return int(p[0])<<16 | int(p[1])<<8 | int(p[2]) }
func (r *rd) u32() uint32 { return binary.BigEndian.Uint32(r.take(4)) }
func (r *rd) v8() []byte  { return r.take(r.u8()) }
func (r *rd) v16() []byte { return r.take(r.u16()) }
func (r *rd) v24() []byte { return r.take(r.u24()) }

type Ext struct {
	T uint16
	D []byte
}

type Exts []Ext

func (e Exts) get(t uint16) []byte {
	for _, x := range e {
		if x.T == t {
			if x.D == nil {
				return []byte{}
			}
			return x.D
		}
	}
	return nil
}
func (e Exts) has(t uint16) bool { return e.get(t) != nil }
func (e *Exts) set(t uint16, d []byte) {
	for i := range *e {
		if (*e)[i].T == t {
			(*e)[i].D = d
			return
		}
	}
	*e = append(*e, Ext{t, d})
}
func (e *Exts) del(t uint16) {
	var n Exts
	for _, x := range *e {
		if x.T != t {
			n = append(n, x)
		}
	}
	*e = n
}
func (e Exts) marshal() []byte {
	w := &buf{}
	for _, x := range e {
		w.u16(int(x.T))
		w.v16(x.D)
	}
	o := &buf{}
	o.v16(w.b)
	return o.b
}
func (r *rd) exts() Exts {
	in := &rd{b: r.v16()}
	var e Exts
	for len(in.b) > 0 && !in.bad {
		t := in.u16()
		d := in.v16()
		e = append(e, Ext{uint16(t), append([]byte{}, d...)})
	}
	if in.bad {
		r.bad = true
	}
	return e
}

const (
	xSNI      = 0
	xGroups   = 10
	xSigAlgs  = 13
	xALPN     = 16
	xPSK      = 41
	xEarly    = 42
	xVersions = 43
	xCookie   = 44
	xPSKModes = 45
	xTicketED = 46
	xKeyShare = 51
)

const (
	hCH    = 1
	hSH    = 2
	hNST   = 4
	hEOED  = 5
	hEE    = 8
	hCert  = 11
	hCR    = 13
	hCV    = 15
	hFin   = 20
	hKU    = 24
	hMHash = 254
)

const (
	rtCCS   = 20
	rtAlert = 21
	rtHS    = 22
	rtApp   = 23
	rtAck   = 25
)

type CHello struct {
	Version uint16
	Random  []byte
	SID     []byte
	Suites  []uint16
	Comp    []byte
	Exts    Exts
}

func (c *CHello) marshal(dtls bool) []byte {
	w := &buf{}
	w.u16(int(c.Version))
	w.raw(c.Random)
	w.v8(c.SID)
	if dtls {
		w.u8(0)
	}
	s := &buf{}
	for _, x := range c.Suites {
		s.u16(int(x))
	}
	w.v16(s.b)
	w.v8(c.Comp)
	w.raw(c.Exts.marshal())
	return w.b
}

func parseCH(body []byte, dtls bool) (*CHello, error) {
	r := &rd{b: body}
	c := &CHello{}
	c.Version = uint16(r.u16())
	c.Random = append([]byte{}, r.take(32)...)
	c.SID = append([]byte{}, r.v8()...)
	if dtls {
		if r.u8() != 0 {
			return nil, fmt.Errorf("cookie not empty")
		}
	}
	s := &rd{b: r.v16()}
	for len(s.b) > 0 && !s.bad {
		c.Suites = append(c.Suites, uint16(s.u16()))
	}
	c.Comp = append([]byte{}, r.v8()...)
	c.Exts = r.exts()
	if r.bad || s.bad || len(r.b) != 0 {
		return nil, fmt.Errorf("malformed ClientHello")
	}
	return c, nil
}

type SHello struct {
	Version uint16
	Random  []byte
	SID     []byte
	Suite   uint16
	Comp    int
	Exts    Exts
	Trail   []byte
}

func (s *SHello) marshal() []byte {
	w := &buf{}
	w.u16(int(s.Version))
	w.raw(s.Random)
	w.v8(s.SID)
	w.u16(int(s.Suite))
	w.u8(s.Comp)
	w.raw(s.Exts.marshal())
	w.raw(s.Trail)
	return w.b
}

func parseSH(body []byte) (*SHello, error) {
	r := &rd{b: body}
	s := &SHello{}
	s.Version = uint16(r.u16())
	s.Random = append([]byte{}, r.take(32)...)
	s.SID = append([]byte{}, r.v8()...)
	s.Suite = uint16(r.u16())
	s.Comp = r.u8()
	s.Exts = r.exts()
	if r.bad || len(r.b) != 0 {
		return nil, fmt.Errorf("malformed ServerHello")
	}
	return s, nil
}

var hrrRandom = []byte{
	0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91,
	0xc2, 0xa2, 0x11, 0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
}

func xSNIData(name string) []byte {
	in := &buf{}
	in.u8(0)
	in.v16([]byte(name))
	w := &buf{}
	w.v16(in.b)
	return w.b
}

func u16list(head int, v []uint16) []byte {
	in := &buf{}
	for _, x := range v {
		in.u16(int(x))
	}
	w := &buf{}
	if head == 1 {
		w.v8(in.b)
	} else {
		w.v16(in.b)
	}
	return w.b
}

func parseU16list(head int, d []byte) []uint16 {
	r := &rd{b: d}
	var in []byte
	if head == 1 {
		in = r.v8()
	} else {
		in = r.v16()
	}
	var out []uint16
	q := &rd{b: in}
	for len(q.b) > 0 && !q.bad {
		out = append(out, uint16(q.u16()))
	}
	return out
}

type share struct {
	Group uint16
	Pub   []byte
}

func sharesData(s []share) []byte {
	in := &buf{}
	for _, x := range s {
		in.u16(int(x.Group))
		in.v16(x.Pub)
	}
	w := &buf{}
	w.v16(in.b)
	return w.b
}

func parseShares(d []byte) []share {
	r := &rd{b: d}
	q := &rd{b: r.v16()}
	var out []share
	for len(q.b) > 0 && !q.bad {
		g := uint16(q.u16())
		out = append(out, share{g, append([]byte{}, q.v16()...)})
	}
	return out
}

func alpnData(p []string) []byte {
	in := &buf{}
	for _, x := range p {
		in.v8([]byte(x))
	}
	w := &buf{}
	w.v16(in.b)
	return w.b
}

func parseALPN(d []byte) []string {
	r := &rd{b: d}
	q := &rd{b: r.v16()}
	var out []string
	for len(q.b) > 0 && !q.bad {
		out = append(out, string(q.v8()))
	}
	return out
}

type pskID struct {
	ID  []byte
	Age uint32
}

func pskData(ids []pskID, binders [][]byte) []byte {
	i := &buf{}
	for _, x := range ids {
		i.v16(x.ID)
		i.u32(x.Age)
	}
	b := &buf{}
	for _, x := range binders {
		b.v8(x)
	}
	w := &buf{}
	w.v16(i.b)
	w.v16(b.b)
	return w.b
}

func bindersLen(binders [][]byte) int {
	n := 2
	for _, b := range binders {
		n += 1 + len(b)
	}
	return n
}

func parsePSK(d []byte) (ids []pskID, binders [][]byte) {
	r := &rd{b: d}
	q := &rd{b: r.v16()}
	for len(q.b) > 0 && !q.bad {
		i := append([]byte{}, q.v16()...)
		ids = append(ids, pskID{i, q.u32()})
	}
	q = &rd{b: r.v16()}
	for len(q.b) > 0 && !q.bad {
		binders = append(binders, append([]byte{}, q.v8()...))
	}
	return
}

func certBody(ctx []byte, chain [][]byte) []byte {
	in := &buf{}
	for _, c := range chain {
		in.v24(c)
		in.u16(0)
	}
	w := &buf{}
	w.v8(ctx)
	w.v24(in.b)
	return w.b
}

func parseCert(body []byte) (ctx []byte, chain [][]byte, err error) {
	r := &rd{b: body}
	ctx = append([]byte{}, r.v8()...)
	q := &rd{b: r.v24()}
	for len(q.b) > 0 && !q.bad {
		chain = append(chain, append([]byte{}, q.v24()...))
		q.v16()
	}
	if r.bad || q.bad || len(r.b) > 0 {
		err = fmt.Errorf("malformed Certificate")
	}
	return
}

func cvBody(scheme uint16, sig []byte) []byte {
	w := &buf{}
	w.u16(int(scheme))
	w.v16(sig)
	return w.b
}

type ticket struct {
	Lifetime, AgeAdd uint32
	Nonce, Ticket    []byte
	Exts             Exts
	PSK              []byte // derived
	Suite            uint16
}

func (t *ticket) marshal() []byte {
	w := &buf{}
	w.u32(t.Lifetime)
	w.u32(t.AgeAdd)
	w.v8(t.Nonce)
	w.v16(t.Ticket)
	w.raw(t.Exts.marshal())
	return w.b
}

func parseNST(body []byte) (*ticket, error) {
	r := &rd{b: body}
	t := &ticket{}
	t.Lifetime = r.u32()
	t.AgeAdd = r.u32()
	t.Nonce = append([]byte{}, r.v8()...)
	t.Ticket = append([]byte{}, r.v16()...)
	t.Exts = r.exts()
	if r.bad || len(r.b) > 0 {
		return nil, fmt.Errorf("malformed NewSessionTicket")
	}
	return t, nil
}

// hsMsg frames a TLS handshake message.
func hsMsg(t int, body []byte) []byte {
	w := &buf{}
	w.u8(t)
	w.v24(body)
	return w.b
}

// hsFrag frames a DTLS handshake fragment.
func hsFrag(t int, total int, seq int, off int, frag []byte) []byte {
	w := &buf{}
	w.u8(t)
	w.u24(total)
	w.u16(seq)
	w.u24(off)
	w.u24(len(frag))
	w.raw(frag)
	return w.b
}
