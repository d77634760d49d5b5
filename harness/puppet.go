package vharness

// Puppet: the harness's own TLS 1.3 / mint-DTLS endpoint, talking to one real
// mint connection over its Wire.  It follows RFC 8446 by default; every
// message can be altered, reordered or forged by the checks.

import (
	"bytes"
	"crypto"
	"crypto/rand"
	"encoding/binary"
	"fmt"
	"time"
)

// peerError unwinds a case because the mint end sent something the reference
// endpoint cannot accept.
type peerError string

func peerFail(format string, args ...interface{}) {
	panic(peerError(fmt.Sprintf(format, args...)))
}

type rec struct {
	ct   int
	data []byte
	enc  bool
	raw  []byte
	key  *Half
	seq  uint64
}

type alertRec struct {
	Level, Desc int
	Enc         bool
}

type Puppet struct {
	isClient bool
	dtls     bool
	W        *Wire

	rx       []byte
	pkts     [][]byte
	in, out  *Half
	inByEp   map[uint16]*Half
	clearOut uint64
	hsIn     []byte
	fragBuf  []byte
	msgIn    int
	msgOut   int
	suite    *refSuite
	T        []byte // transcript

	Alerts  []alertRec
	App     []byte
	Early   []byte
	Acks    []rec
	Recs    []rec                   // everything mint sent, in order
	record  func(raw []byte) []byte // optional tampering with outgoing records
	hold    bool                    // queue outgoing bytes instead of feeding
	held    []byte
	coal    bool // several handshake messages per record until Flush
	coalB   []byte
	coalH   *Half // the protection of the messages in coalB
	pack    bool  // messages are coalesced even across a change of keys
	freeze  bool  // the outgoing keys do not change
	capture bool  // handshake messages go to caps instead of the wire
	caps    []capMsg
	cookie  []byte

	CH                           *CHello
	CHRaw                        []byte
	SH                           *SHello
	psk                          []byte
	pskSuite                     *refSuite
	resumption                   bool
	ke                           map[uint16]*refKE
	dh                           []byte
	early, hs, master            []byte
	cE, cHS, sHS, cAP, sAP, expM []byte
	resM                         []byte
	earlyAccepted                bool
	hello1                       []byte // message_hash || HRR after a retry
	Tickets                      []*ticket
	KUs                          []int
	pskKeys                      [][]byte
	pskSuites                    []uint16
	pskIndex                     int
	PeerChain                    [][]byte
	PeerScheme                   uint16
	CRSchemes                    []uint16
	GotCR                        bool
	CROnWire                     []byte
	EE                           Exts
	Group                        uint16
	recvFin                      bool
	noAutoApp                    bool
	mutMsg                       func(i int, raw []byte) []byte       // of outgoing handshake messages
	mutInner                     func(i, ct int, inner []byte) []byte // of the content of protected records
	nMsg, nInner                 int
	nilEarly                     bool // the early secret is the empty string (forger's guess)
}

func newPuppet(isClient bool, e *End) *Puppet {
	return &Puppet{isClient: isClient, dtls: e.Cfg.UseDTLS, W: e.W, ke: map[uint16]*refKE{}, inByEp: map[uint16]*Half{}}
}

// ---- records -----------------------------------------------------------

func (p *Puppet) sealRecord(h *Half, ct int, data []byte, pad int) []byte {
	ver := 0x0303
	if h == nil && p.isClient && !p.dtls {
		ver = 0x0301
	}
	if p.dtls {
		ver = 0xfefd
	}
	w := &buf{}
	if h == nil {
		w.u8(ct)
		w.u16(ver)
		if p.dtls {
			var s [8]byte
			binary.BigEndian.PutUint64(s[:], p.clearOut)
			w.raw(s[:])
			p.clearOut++
		}
		w.v16(data)
		return w.b
	}
	seq := h.seq
	if p.dtls {
		seq |= uint64(h.epoch) << 48
	}
	h.seq++
	inner := append(append([]byte{}, data...), byte(ct))
	inner = append(inner, make([]byte, pad)...)
	if p.mutInner != nil {
		inner = p.mutInner(p.nInner, ct, inner)
	}
	p.nInner++
	return p.sealInner(h, seq, rtApp, ver, inner)
}

func (p *Puppet) sealInner(h *Half, seq uint64, outer, ver int, inner []byte) []byte {
	w := &buf{}
	w.u8(outer)
	w.u16(ver)
	if p.dtls {
		var s [8]byte
		binary.BigEndian.PutUint64(s[:], seq)
		w.raw(s[:])
	}
	w.u16(len(inner) + 16)
	hdr := append([]byte{}, w.b...)
	return append(hdr, h.aead.Seal(nil, h.nonce(seq), inner, hdr)...)
}

func (p *Puppet) emit(raw []byte) {
	if p.record != nil {
		raw = p.record(raw)
		if raw == nil {
			return
		}
	}
	if p.hold {
		p.held = append(p.held, raw...)
		return
	}
	p.W.feed(raw)
}

func (p *Puppet) SendRecord(ct int, data []byte) { p.emit(p.sealRecord(p.out, ct, data, 0)) }
func (p *Puppet) SendApp(b []byte)               { p.SendRecord(rtApp, b) }
func (p *Puppet) SendAlert(level, desc int)      { p.SendRecord(rtAlert, []byte{byte(level), byte(desc)}) }

func (p *Puppet) hdrLen() int {
	if p.dtls {
		return 13
	}
	return 5
}

// readRecord returns the next record mint sent, decrypted under the current
// inbound state.
func (p *Puppet) readRecord() (rec, bool) {
	for _, o := range p.W.take() {
		if p.dtls {
			p.pkts = append(p.pkts, o)
		} else {
			p.rx = append(p.rx, o...)
		}
	}
	var raw []byte
	hl := p.hdrLen()
	if p.dtls && len(p.rx) == 0 && len(p.pkts) > 0 {
		p.rx = p.pkts[0]
		p.pkts = p.pkts[1:]
	}
	if len(p.rx) < hl {
		if len(p.rx) > 0 && p.dtls {
			peerFail("datagram with a truncated record")
		}
		return rec{}, false
	}
	n := int(p.rx[hl-2])<<8 | int(p.rx[hl-1])
	if len(p.rx) < hl+n {
		if p.dtls {
			peerFail("datagram with a truncated record")
		}
		return rec{}, false
	}
	raw = append([]byte{}, p.rx[:hl+n]...)
	p.rx = p.rx[hl+n:]
	if n > 16384+256 {
		peerFail("record of %d bytes exceeds the protocol limit", n)
	}
	h := p.in
	var seq uint64
	if p.dtls {
		if raw[1] != 0xfe {
			peerFail("record version %02x%02x", raw[1], raw[2])
		}
		seq = binary.BigEndian.Uint64(raw[3:11])
		ep := uint16(seq >> 48)
		if ep == 0 {
			h = nil
		} else {
			h = p.inByEp[ep]
			if h == nil {
				peerFail("record in unknown epoch %d", ep)
			}
		}
	} else {
		if raw[1] != 3 {
			peerFail("record version %02x%02x", raw[1], raw[2])
		}
	}
	r := rec{ct: int(raw[0]), raw: raw, key: h}
	if h == nil {
		r.data = raw[hl:]
		r.seq = seq
	} else {
		if raw[0] != rtApp {
			peerFail("cleartext record of type %d where a protected one is required", raw[0])
		}
		if !p.dtls {
			seq = h.seq
		}
		h.seq++
		pt, err := h.aead.Open(nil, h.nonce(seq), raw[hl:], raw[:hl])
		if err != nil {
			peerFail("record (type %d, %d bytes, seq %x) does not decrypt under the expected keys", raw[0], n, seq)
		}
		i := len(pt) - 1
		for i >= 0 && pt[i] == 0 {
			i--
		}
		if i < 0 {
			peerFail("protected record without content type")
		}
		r.ct = int(pt[i])
		r.data = pt[:i]
		r.enc = true
		r.seq = seq
	}
	if len(r.data) > 16384 {
		peerFail("plaintext of %d bytes exceeds the protocol limit", len(r.data))
	}
	p.Recs = append(p.Recs, r)
	return r, true
}

// nextMsg returns the next handshake message from mint, recording alerts,
// application data and ACKs on the way; ok is false when nothing more came.
func (p *Puppet) nextMsg() (t int, body []byte, raw []byte, ok bool) {
	for {
		if !p.dtls && len(p.hsIn) >= 4 {
			n := int(p.hsIn[1])<<16 | int(p.hsIn[2])<<8 | int(p.hsIn[3])
			if len(p.hsIn) >= 4+n {
				raw = append([]byte{}, p.hsIn[:4+n]...)
				p.hsIn = p.hsIn[4+n:]
				return int(raw[0]), raw[4:], raw, true
			}
		}
		r, got := p.readRecord()
		if !got {
			return 0, nil, nil, false
		}
		switch r.ct {
		case rtHS:
			if !p.dtls {
				if len(r.data) == 0 {
					peerFail("empty handshake record")
				}
				p.hsIn = append(p.hsIn, r.data...)
				continue
			}
			d := r.data
			if len(d) < 12 {
				peerFail("short DTLS handshake fragment")
			}
			q := &rd{b: d}
			ht := q.u8()
			total := q.u24()
			seq := q.u16()
			off := q.u24()
			fl := q.u24()
			if fl != len(q.b) {
				peerFail("DTLS fragment length mismatch")
			}
			if seq < p.msgIn {
				continue // retransmission
			}
			if seq != p.msgIn {
				peerFail("DTLS message sequence %d, expected %d", seq, p.msgIn)
			}
			if off > len(p.fragBuf) {
				peerFail("DTLS fragment gap")
			}
			if off+fl > len(p.fragBuf) {
				p.fragBuf = append(p.fragBuf[:off], q.b...)
			}
			if len(p.fragBuf) < total {
				continue
			}
			b := p.fragBuf
			p.fragBuf = nil
			p.msgIn++
			return ht, b, hsFrag(ht, total, seq, 0, b), true
		case rtAlert:
			if len(r.data) != 2 {
				peerFail("alert of %d bytes", len(r.data))
			}
			p.Alerts = append(p.Alerts, alertRec{int(r.data[0]), int(r.data[1]), r.enc})
		case rtApp:
			if !r.enc {
				peerFail("application data in the clear")
			}
			if r.key.epoch == 1 {
				p.Early = append(p.Early, r.data...)
			} else {
				p.App = append(p.App, r.data...)
			}
		case rtAck:
			p.Acks = append(p.Acks, r)
		default:
			peerFail("record of unknown type %d", r.ct)
		}
	}
}

// Drain processes everything mint sent after the handshake: tickets, key
// updates, alerts and data.
func (p *Puppet) Drain() {
	for {
		t, body, _, ok := p.nextMsg()
		if !ok {
			return
		}
		switch t {
		case hNST:
			tk, err := parseNST(body)
			if err != nil {
				peerFail("%v", err)
			}
			tk.Suite = p.suite.id
			tk.PSK = p.suite.expandLabel(p.resM, "resumption", tk.Nonce, p.suite.hlen)
			p.Tickets = append(p.Tickets, tk)
		case hKU:
			if len(body) != 1 || body[0] > 1 {
				peerFail("malformed KeyUpdate %x", body)
			}
			p.KUs = append(p.KUs, int(body[0]))
			p.setIn(p.in.next())
		default:
			peerFail("post-handshake message of type %d", t)
		}
	}
}

func (p *Puppet) setIn(h *Half) {
	if len(p.hsIn) > 0 {
		peerFail("handshake data left across a key change")
	}
	p.in = h
	if h != nil {
		p.inByEp[h.epoch] = h
	}
}

func (p *Puppet) expect(t int) ([]byte, []byte) {
	got, body, raw, ok := p.nextMsg()
	if !ok {
		peerFail("expected handshake message %d, got nothing (alerts %v)", t, p.Alerts)
	}
	if got != t {
		peerFail("expected handshake message %d, got %d", t, got)
	}
	return body, raw
}

// frame returns the bytes of a handshake message as they enter transcript and
// (unfragmented) record.
func (p *Puppet) frame(t int, body []byte) []byte {
	if !p.dtls {
		return hsMsg(t, body)
	}
	b := hsFrag(t, len(body), p.msgOut, 0, body)
	p.msgOut++
	return b
}

// SendMsg sends a handshake message under the current keys and adds it to the
// transcript.
func (p *Puppet) SendMsg(t int, body []byte) []byte {
	raw := p.frame(t, body)
	if p.mutMsg != nil {
		raw = p.mutMsg(p.nMsg, raw)
	}
	p.nMsg++
	p.T = append(p.T, raw...)
	p.SendRaw(raw)
	return raw
}

// capMsg is a handshake message that was captured instead of sent.
type capMsg struct {
	raw []byte
	h   *Half
}

func (p *Puppet) SendRaw(raw []byte) {
	if p.capture {
		p.caps = append(p.caps, capMsg{append([]byte{}, raw...), p.out})
		return
	}
	if p.coal && !p.dtls {
		if len(p.coalB) == 0 {
			p.coalH = p.out
		}
		p.coalB = append(p.coalB, raw...)
		return
	}
	if p.dtls {
		p.SendRecord(rtHS, raw)
		return
	}
	for len(raw) > 16384 {
		p.SendRecord(rtHS, raw[:16384])
		raw = raw[16384:]
	}
	p.SendRecord(rtHS, raw)
}

// Flush emits coalesced handshake messages.
func (p *Puppet) Flush() {
	if len(p.coalB) > 0 {
		b := p.coalB
		p.coalB = nil
		p.emit(p.sealRecord(p.coalH, rtHS, b, 0))
	}
}

func (p *Puppet) setOut(h *Half) {
	if p.freeze {
		return
	}
	if !p.pack {
		p.Flush()
	}
	p.out = h
}

// ---- key schedule ------------------------------------------------------

func (p *Puppet) startSchedule() {
	s := p.suite
	ikm := p.psk
	if ikm == nil {
		ikm = s.zeros()
	}
	p.early = s.extract(s.zeros(), ikm)
	if p.nilEarly {
		p.early = nil
	}
	dh := p.dh
	if dh == nil {
		dh = s.zeros()
	}
	p.hs = s.extract(s.derive(p.early, "derived", nil), dh)
	p.cHS = s.derive(p.hs, "c hs traffic", p.T)
	p.sHS = s.derive(p.hs, "s hs traffic", p.T)
	p.master = s.extract(s.derive(p.hs, "derived", nil), s.zeros())
}

func (p *Puppet) appSchedule() {
	s := p.suite
	p.cAP = s.derive(p.master, "c ap traffic", p.T)
	p.sAP = s.derive(p.master, "s ap traffic", p.T)
	p.expM = s.derive(p.master, "exp master", p.T)
}

func (p *Puppet) finishSchedule() { p.resM = p.suite.derive(p.master, "res master", p.T) }

func (p *Puppet) Export(label string, ctx []byte, n int) []byte {
	return p.suite.exporter(p.expM, label, ctx, n)
}

func binderFor(s *refSuite, psk []byte, resumption bool, trunc []byte) []byte {
	early := s.extract(s.zeros(), psk)
	l := "ext binder"
	if resumption {
		l = "res binder"
	}
	return s.finished(s.derive(early, l, nil), trunc)
}

// ---- server puppet -----------------------------------------------------

// RecvCH reads the client's hello.
func (p *Puppet) RecvCH() *CHello {
	body, raw := p.expect(hCH)
	ch, err := parseCH(body, p.dtls)
	if err != nil {
		peerFail("%v", err)
	}
	p.CH = ch
	p.CHRaw = raw
	p.T = append(append([]byte{}, p.hello1...), raw...)
	return ch
}

// UsePSK checks the client's first offered identity against k and arms it.
func (p *Puppet) UsePSK(psk []byte, suite uint16, resumption bool) {
	p.psk = psk
	p.pskSuite = suiteByID(suite)
	p.resumption = resumption
}

// BinderOK verifies the client's first binder.
func (p *Puppet) BinderOK() error {
	d := p.CH.Exts.get(xPSK)
	if d == nil {
		return fmt.Errorf("no pre_shared_key offered")
	}
	if p.CH.Exts[len(p.CH.Exts)-1].T != xPSK {
		return fmt.Errorf("pre_shared_key is not the last extension")
	}
	_, binders := parsePSK(d)
	if len(binders) == 0 {
		return fmt.Errorf("no binder")
	}
	raw := p.CHRaw
	if p.dtls {
		// mint computes binders over the TLS framing even in DTLS mode
		b := raw[12:]
		raw = hsMsg(hCH, b)
	}
	trunc := append(append([]byte{}, p.hello1...), raw[:len(raw)-bindersLen(binders)]...)
	want := binderFor(p.pskSuite, p.psk, p.resumption, trunc)
	if !bytes.Equal(want, binders[0]) {
		return fmt.Errorf("binder mismatch")
	}
	return nil
}

func (p *Puppet) EarlySecret() []byte {
	s := p.pskSuite
	return s.derive(s.extract(s.zeros(), p.psk), "c e traffic", p.CHRaw)
}

// DefaultSH builds the ServerHello a well-behaved server would send.
func (p *Puppet) DefaultSH(suite uint16, group uint16, usePSK bool) *SHello {
	sh := &SHello{Version: 0x0303, Random: randBytes(32), SID: p.CH.SID, Suite: suite}
	sh.Exts.set(xVersions, []byte{3, 4})
	if group != 0 {
		k := p.ke[group]
		if k == nil {
			k = newKE(group)
			p.ke[group] = k
		}
		w := &buf{}
		w.u16(int(group))
		w.v16(k.pub)
		sh.Exts.set(xKeyShare, w.b)
	}
	if usePSK {
		sh.Exts.set(xPSK, []byte{0, 0})
	}
	return sh
}

func (p *Puppet) clientShare(group uint16) []byte {
	for _, s := range parseShares(p.CH.Exts.get(xKeyShare)) {
		if s.Group == group {
			return s.Pub
		}
	}
	return nil
}

// SendSH sends the hello and installs handshake keys; group 0 means no DH.
func (p *Puppet) SendSH(sh *SHello, group uint16) {
	p.SH = sh
	p.Group = group
	p.SendMsg(hSH, sh.marshal())
	if !p.pack {
		p.Flush()
	}
	p.suite = suiteByID(sh.Suite)
	if p.suite == nil {
		p.suite = suiteTable[0]
	}
	if group != 0 {
		pub := p.clientShare(group)
		if pub == nil {
			p.dh = p.suite.zeros()
		} else {
			dh, err := p.ke[group].shared(pub)
			if err != nil {
				peerFail("client key share for group %d is invalid: %v", group, err)
			}
			p.dh = dh
		}
	} else {
		p.dh = nil
	}
	if !sh.Exts.has(xPSK) {
		p.psk = nil
	}
	p.startSchedule()
	p.setOut(newHalf(p.suite, p.sHS, 2))
	if p.CH.Exts.has(xEarly) && p.pskSuite != nil && p.psk != nil {
		p.setIn(newHalf(p.pskSuite, p.EarlySecret(), 1))
	} else {
		p.setIn(newHalf(p.suite, p.cHS, 2))
	}
}

// SendHRR sends a retry and folds the first hello.
func (p *Puppet) SendHRR(suite uint16, exts Exts) {
	sh := &SHello{Version: 0x0303, Random: hrrRandom, SID: p.CH.SID, Suite: suite, Exts: exts}
	s := suiteByID(suite)
	if s == nil {
		s = suiteTable[0]
	}
	p.hello1 = hsMsg(hMHash, s.sum(p.CHRaw))
	raw := p.SendMsg(hSH, sh.marshal())
	p.hello1 = append(p.hello1, raw...)
}

func hrrExts(cookie []byte) Exts {
	e := Exts{{xVersions, []byte{3, 4}}}
	w := &buf{}
	w.v16(cookie)
	e.set(xCookie, w.b)
	return e
}

func (p *Puppet) SendEE(e Exts) {
	p.earlyAccepted = e.has(xEarly)
	p.EE = e
	p.SendMsg(hEE, e.marshal())
	if !p.earlyAccepted && p.in != nil && p.in.epoch == 1 {
		// rejected early data: the client switches to handshake keys
	}
}

func (p *Puppet) SendCR(schemes []uint16) {
	w := &buf{}
	w.u8(0)
	var e Exts
	e.set(xSigAlgs, u16list(2, schemes))
	w.raw(e.marshal())
	p.GotCR = true
	p.SendMsg(hCR, w.b)
}

func (i *ident) raws() [][]byte {
	var o [][]byte
	for _, c := range i.chain {
		o = append(o, c.Raw)
	}
	return o
}

func (p *Puppet) SendCert(chain [][]byte) { p.SendMsg(hCert, certBody(nil, chain)) }

func defaultScheme(i *ident) uint16 {
	switch i.name {
	case "p384":
		return 0x0503
	case "p521":
		return 0x0603
	case "rsa", "clientRSA":
		return 0x0804
	}
	return 0x0403
}

// mint signs and verifies with the server context in both roles.
func (p *Puppet) SendCV(key crypto.Signer, scheme uint16) {
	p.SendMsg(hCV, cvBody(scheme, refSign(key, scheme, cvInput(serverCVContext, p.suite.sum(p.T)))))
}

func (p *Puppet) finData(server bool) []byte {
	sec := p.cHS
	if server {
		sec = p.sHS
	}
	return p.suite.finished(sec, p.T)
}

// SendServerFin sends Finished and moves the outbound side to application keys.
func (p *Puppet) SendServerFin() {
	p.SendServerFinData(p.finData(true))
}

func (p *Puppet) SendServerFinData(d []byte) {
	p.SendMsg(hFin, d)
	p.appSchedule()
	p.setOut(newHalf(p.suite, p.sAP, 3))
}

// RecvClientFlight reads the client's second flight and verifies it.
func (p *Puppet) RecvClientFlight() {
	if p.in.epoch == 1 && !p.earlyAccepted {
		// skip: early data records under the early keys come first
		p.skipEarly()
	}
	if p.earlyAccepted {
		_, raw := p.expect(hEOED)
		p.T = append(p.T, raw...)
		p.setIn(newHalf(p.suite, p.cHS, 2))
	}
	if p.GotCR {
		body, raw := p.expect(hCert)
		_, chain, err := parseCert(body)
		if err != nil {
			peerFail("%v", err)
		}
		p.T = append(p.T, raw...)
		p.PeerChain = chain
		if len(chain) > 0 {
			h := p.suite.sum(p.T)
			body, raw := p.expect(hCV)
			p.checkCV(body, chain[0], h)
			p.T = append(p.T, raw...)
		}
	}
	body, raw := p.expect(hFin)
	if !bytes.Equal(body, p.finData(false)) {
		peerFail("client Finished is wrong")
	}
	p.T = append(p.T, raw...)
	p.finishSchedule()
	p.setIn(newHalf(p.suite, p.cAP, 3))
	p.recvFin = true
}

// skipEarly reads early records that were rejected until one opens under the
// handshake keys; here the puppet knows both keys, so it just switches.
func (p *Puppet) skipEarly() {
	for {
		for _, o := range p.W.take() {
			p.rx = append(p.rx, o...)
		}
		if len(p.rx) < 5 {
			break
		}
		n := int(p.rx[3])<<8 | int(p.rx[4])
		if len(p.rx) < 5+n {
			break
		}
		if _, err := p.in.aead.Open(nil, p.in.nonce(p.in.seq), p.rx[5:5+n], p.rx[:5]); err != nil {
			break
		}
		p.in.seq++
		p.rx = p.rx[5+n:]
	}
	p.setIn(newHalf(p.suite, p.cHS, 2))
}

func (p *Puppet) checkCV(body []byte, leafRaw []byte, th []byte) {
	r := &rd{b: body}
	scheme := uint16(r.u16())
	sig := r.v16()
	if r.bad || len(r.b) > 0 {
		peerFail("malformed CertificateVerify")
	}
	leaf, err := parseLeaf(leafRaw)
	if err != nil {
		peerFail("%v", err)
	}
	if err := refVerify(leaf.PublicKey, scheme, cvInput(serverCVContext, th), sig); err != nil {
		peerFail("CertificateVerify does not verify: %v", err)
	}
	p.PeerScheme = scheme
}

// SendNST issues a ticket the client can use.
func (p *Puppet) SendNST(t *ticket) {
	t.Suite = p.suite.id
	t.PSK = p.suite.expandLabel(p.resM, "resumption", t.Nonce, p.suite.hlen)
	p.SendRaw(p.frame(hNST, t.marshal()))
}

// SendKU sends a key update and moves to the next generation.
func (p *Puppet) SendKU(req int) {
	p.SendRaw(p.frame(hKU, []byte{byte(req)}))
	p.setOut(p.out.next())
}

// ---- client puppet -----------------------------------------------------

type chOpts struct {
	Suites    []uint16
	Groups    []uint16 // supported_groups
	Shares    []uint16 // key shares sent
	Schemes   []uint16
	SNI       string
	ALPN      []string
	Modes     []int
	PSKIDs    []pskID
	PSKKeys   [][]byte
	PSKSuites []uint16
	PSKRes    []bool
	Early     bool
	Cookie    []byte
	SID       []byte
	mut       func(ch *CHello) // before binders
	mutBind   func(b [][]byte)
	bindLen   []int // lengths of the binders (cut or zero-filled), 0: the hash's
}

func defaultCH() chOpts {
	return chOpts{Suites: []uint16{0x1301, 0x1302}, Groups: []uint16{gX25519, gP256}, Shares: []uint16{gX25519},
		Schemes: []uint16{0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806}, SNI: goodName, Modes: []int{1, 0}}
}

func randBytes(n int) []byte {
	b := make([]byte, n)
	must(rand.Read(b))
	return b
}

func (p *Puppet) BuildCH(o chOpts) *CHello {
	ch := &CHello{Version: 0x0303, Random: randBytes(32), SID: o.SID, Suites: o.Suites, Comp: []byte{0}}
	if p.dtls {
		ch.Version = 0xfefd
	}
	ch.Exts.set(xVersions, u16list(1, []uint16{0x0304}))
	if o.SNI != "" {
		ch.Exts.set(xSNI, xSNIData(o.SNI))
	}
	if o.Groups != nil {
		ch.Exts.set(xGroups, u16list(2, o.Groups))
	}
	if o.Shares != nil {
		var sh []share
		for _, g := range o.Shares {
			k := p.ke[g]
			if k == nil {
				k = newKE(g)
				p.ke[g] = k
			}
			sh = append(sh, share{g, k.pub})
		}
		ch.Exts.set(xKeyShare, sharesData(sh))
	}
	if o.Schemes != nil {
		ch.Exts.set(xSigAlgs, u16list(2, o.Schemes))
	}
	if o.ALPN != nil {
		ch.Exts.set(xALPN, alpnData(o.ALPN))
	}
	if o.Cookie != nil {
		w := &buf{}
		w.v16(o.Cookie)
		ch.Exts.set(xCookie, w.b)
	}
	if o.Modes != nil {
		w := &buf{}
		var m []byte
		for _, x := range o.Modes {
			m = append(m, byte(x))
		}
		w.v8(m)
		ch.Exts.set(xPSKModes, w.b)
	}
	if o.Early {
		ch.Exts.set(xEarly, []byte{})
	}
	if o.mut != nil {
		o.mut(ch)
	}
	if o.PSKIDs != nil {
		binders := make([][]byte, len(o.PSKIDs))
		for i := range binders {
			n := suiteByID(o.PSKSuites[i]).hlen
			if o.bindLen != nil && o.bindLen[i] > 0 {
				n = o.bindLen[i]
			}
			binders[i] = make([]byte, n)
		}
		ch.Exts = append(ch.Exts, Ext{xPSK, pskData(o.PSKIDs, binders)})
		raw := hsMsg(hCH, ch.marshal(p.dtls))
		trunc := append(append([]byte{}, p.hello1...), raw[:len(raw)-bindersLen(binders)]...)
		for i := range binders {
			copy(binders[i], binderFor(suiteByID(o.PSKSuites[i]), o.PSKKeys[i], o.PSKRes[i], trunc))
		}
		if o.mutBind != nil {
			o.mutBind(binders)
		}
		ch.Exts[len(ch.Exts)-1].D = pskData(o.PSKIDs, binders)
		p.psk = o.PSKKeys[0]
		p.pskSuite = suiteByID(o.PSKSuites[0])
		p.pskKeys, p.pskSuites = o.PSKKeys, o.PSKSuites
	}
	return ch
}

// SendCH sends a hello; early data keys are installed when offered.
func (p *Puppet) SendCH(o chOpts) *CHello {
	ch := p.BuildCH(o)
	p.SendCHello(ch)
	if o.Early && o.PSKIDs != nil {
		p.setOut(newHalf(p.pskSuite, p.EarlySecret(), 1))
	}
	return ch
}

func (p *Puppet) SendCHello(ch *CHello) {
	p.CH = ch
	p.T = append([]byte{}, p.hello1...)
	p.CHRaw = p.SendMsg(hCH, ch.marshal(p.dtls))
	if !p.pack {
		p.Flush()
	}
}

// RecvSH reads the server's hello.  It returns true for a retry, whose cookie
// is then in the result.
func (p *Puppet) RecvSH() (retry bool, cookie []byte) {
	body, raw := p.expect(hSH)
	sh, err := parseSH(body)
	if err != nil {
		peerFail("%v", err)
	}
	p.SH = sh
	p.suite = suiteByID(sh.Suite)
	if p.suite == nil {
		peerFail("unknown suite %04x selected", sh.Suite)
	}
	if sh.Version != 0x0303 {
		peerFail("ServerHello legacy version %04x", sh.Version)
	}
	if !bytes.Equal(sh.Exts.get(xVersions), []byte{3, 4}) {
		peerFail("ServerHello supported_versions %x", sh.Exts.get(xVersions))
	}
	if !bytes.Equal(sh.SID, p.CH.SID) {
		peerFail("session id not echoed")
	}
	if sh.Comp != 0 {
		peerFail("compression method %d", sh.Comp)
	}
	seen := map[uint16]bool{}
	for _, e := range sh.Exts {
		if seen[e.T] {
			peerFail("duplicate extension %d in ServerHello", e.T)
		}
		seen[e.T] = true
	}
	if bytes.Equal(sh.Random, hrrRandom) {
		p.hello1 = append(hsMsg(hMHash, p.suite.sum(p.CHRaw)), raw...)
		if d := sh.Exts.get(xCookie); d != nil {
			r := &rd{b: d}
			cookie = append([]byte{}, r.v16()...)
		}
		return true, cookie
	}
	p.T = append(p.T, raw...)
	if d := sh.Exts.get(xKeyShare); d != nil {
		r := &rd{b: d}
		g := uint16(r.u16())
		pub := r.v16()
		if r.bad || len(r.b) > 0 {
			peerFail("malformed key_share")
		}
		k := p.ke[g]
		if k == nil || p.clientShare(g) == nil {
			peerFail("server selected group %d which was not offered", g)
		}
		dh, err := k.shared(pub)
		if err != nil {
			peerFail("server key share invalid: %v", err)
		}
		p.dh = dh
		p.Group = g
	} else {
		p.dh = nil
	}
	if d := sh.Exts.get(xPSK); d != nil {
		if len(d) != 2 {
			peerFail("malformed pre_shared_key")
		}
		ids, _ := parsePSK(p.CH.Exts.get(xPSK))
		if int(d[0])<<8|int(d[1]) >= len(ids) {
			peerFail("server selected pre-shared key %x of %d offered", d, len(ids))
		}
		if i := int(d[0])<<8 | int(d[1]); i < len(p.pskKeys) {
			p.psk, p.pskSuite = p.pskKeys[i], suiteByID(p.pskSuites[i])
			p.pskIndex = i
			if p.pskSuite != p.suite && p.pskSuite.hlen != p.suite.hlen {
				peerFail("suite %04x selected with a pre-shared key of suite %04x", sh.Suite, p.pskSuites[i])
			}
		}
	} else {
		p.psk = nil
	}
	if p.psk == nil && p.dh == nil {
		peerFail("server selected neither key exchange nor pre-shared key")
	}
	p.startSchedule()
	p.setIn(newHalf(p.suite, p.sHS, 2))
	if p.out == nil || p.out.epoch != 1 {
		p.setOut(newHalf(p.suite, p.cHS, 2))
	}
	return false, nil
}

// RecvServerFlight reads EncryptedExtensions .. Finished and verifies it.
func (p *Puppet) RecvServerFlight() {
	body, raw := p.expect(hEE)
	r := &rd{b: body}
	p.EE = r.exts()
	if r.bad || len(r.b) > 0 {
		peerFail("malformed EncryptedExtensions")
	}
	p.T = append(p.T, raw...)
	p.earlyAccepted = p.EE.has(xEarly)
	if p.earlyAccepted && !p.CH.Exts.has(xEarly) {
		peerFail("early data accepted though not offered")
	}
	if p.psk == nil {
		t, body, raw, ok := p.nextMsg()
		if ok && t == hCR {
			p.GotCR = true
			q := &rd{b: body}
			ctx := q.v8()
			e := q.exts()
			if q.bad || len(q.b) > 0 || len(ctx) != 0 {
				peerFail("malformed CertificateRequest")
			}
			p.CRSchemes = parseU16list(2, e.get(xSigAlgs))
			p.T = append(p.T, raw...)
			t, body, raw, ok = p.nextMsg()
		}
		if !ok || t != hCert {
			peerFail("expected Certificate, got %d (%v)", t, ok)
		}
		ctx, chain, err := parseCert(body)
		if err != nil || len(ctx) != 0 || len(chain) == 0 {
			peerFail("bad server Certificate (%v, %d entries)", err, len(chain))
		}
		p.PeerChain = chain
		p.T = append(p.T, raw...)
		h := p.suite.sum(p.T)
		body, raw = p.expect(hCV)
		p.checkCV(body, chain[0], h)
		offered := false
		for _, s := range parseU16list(2, p.CH.Exts.get(xSigAlgs)) {
			offered = offered || s == p.PeerScheme
		}
		if !offered {
			peerFail("server signed with scheme %04x which was not offered", p.PeerScheme)
		}
		p.T = append(p.T, raw...)
	}
	want := p.finData(true)
	body, raw = p.expect(hFin)
	if !bytes.Equal(body, want) {
		peerFail("server Finished is wrong")
	}
	p.T = append(p.T, raw...)
	p.appSchedule()
	p.setIn(newHalf(p.suite, p.sAP, 3))
}

// SendClientFlight answers with EndOfEarlyData, certificate and Finished.
func (p *Puppet) SendClientFlight(who *ident) {
	p.SendEOEDIfNeeded()
	if p.GotCR {
		if who == nil {
			p.SendCert(nil)
		} else {
			p.SendCert(who.raws())
			p.SendCV(who.key, defaultScheme(who))
		}
	}
	p.SendClientFin()
}

func (p *Puppet) SendEOEDIfNeeded() {
	if p.earlyAccepted {
		p.SendMsg(hEOED, nil)
	}
	if p.out.epoch == 1 {
		p.setOut(newHalf(p.suite, p.cHS, 2))
	}
}

func (p *Puppet) SendClientFin() { p.SendClientFinData(p.finData(false)) }

func (p *Puppet) SendClientFinData(d []byte) {
	p.SendMsg(hFin, d)
	p.finishSchedule()
	p.setOut(newHalf(p.suite, p.cAP, 3))
}

// ticketAge returns the obfuscated age for a ticket of this many milliseconds.
func (t *ticket) age(ms uint32) uint32 { return ms + t.AgeAdd }

var _ = time.Now

func (p *Puppet) suiteOr(id uint16) *refSuite {
	if p.suite != nil {
		return p.suite
	}
	return suiteByID(id)
}
