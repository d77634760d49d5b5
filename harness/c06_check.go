package vharness

import (
	"bytes"
	"encoding/binary"
	"fmt"

	"github.com/bifurcation/mint"
)

// ---- the client against a server that selects anything -------------------

type c06Offer struct {
	dtls    bool
	suites  []uint16
	groups  []uint16
	psk     bool
	modes   []uint16
	alpn    []string
	schemes []uint16
	early   bool
}

type c06Sel struct {
	version string // hex of the supported_versions body; "-" absent
	suite   uint16
	group   uint16 // 0: no key_share
	share   string // "", "trail", "short", "long", "empty", "zero"
	psk     int    // -1: absent
	alpn    string // "-" absent, otherwise comma-separated; "!" the empty list
	scheme  uint16
	early   bool
	retry   bool   // a retry with a cookie precedes
	retryS  uint16 // suite of the retry
	legacy  uint16 // the version field of the hello itself, 0: the honest one
}

func (o c06Offer) def() c06Sel {
	s := c06Sel{version: "0304", suite: o.suites[0], group: o.groups[0], psk: -1, alpn: "-", scheme: 0x0403}
	if o.psk {
		s.suite = 0x1301
		s.psk = 0
		if !has16(o.modes, 1) {
			s.group = 0
		}
	}
	return s
}

func (o c06Offer) offered() []uint16 {
	if o.psk {
		return []uint16{0x1301}
	}
	return o.suites
}

// legal: may the client go on with the selection?
func (o c06Offer) legal(s c06Sel) (bool, string) {
	if s.version != "0304" || s.legacy != 0 {
		return false, "version"
	}
	if !has16(o.offered(), s.suite) || s.retry && !has16(o.offered(), s.retryS) {
		return false, "suite"
	}
	if s.retry && s.retryS != s.suite {
		return false, "suite changed after the retry"
	}
	if s.group != 0 && (!has16(o.groups, s.group) || s.share != "") {
		return false, "group"
	}
	if s.psk >= 0 {
		if !o.psk || s.psk != 0 {
			return false, "psk"
		}
		m := uint16(0)
		if s.group != 0 {
			m = 1
		}
		if !has16(o.modes, m) {
			return false, "mode"
		}
	} else {
		if s.group == 0 {
			return false, "no key exchange"
		}
		if !has16(o.schemes, s.scheme) {
			return false, "scheme"
		}
	}
	if s.alpn != "-" && !hasStr(o.alpn, s.alpn) {
		return false, "protocol"
	}
	if s.early && (!o.early || !o.psk || s.psk != 0) {
		return false, "early data"
	}
	return true, ""
}

func unhex16(s string) (o []byte) {
	for i := 0; i+1 < len(s); i += 2 {
		var v byte
		fmt.Sscanf(s[i:i+2], "%02x", &v)
		o = append(o, v)
	}
	return
}

func c06Client(c *Case, o c06Offer, s c06Sel) {
	ok, why := o.legal(s)
	cfg := clientCfg()
	cfg.UseDTLS = o.dtls
	cfg.CipherSuites, cfg.Groups, cfg.SignatureSchemes = suitesOf(o.suites), groupsOf(o.groups), schemesOf(o.schemes)
	cfg.NextProtos, cfg.PSKModes = o.alpn, modesOf(o.modes)
	cfg.AllowEarlyData = o.early
	if o.psk {
		cfg.PSKs = &mint.PSKMapCache{goodName: mintPSK(0x1301, []byte("psk-id"), thePSK, false)}
	}
	e := NewEnd(cfg, true)
	p := newPuppet(false, e)
	e.Step()
	ch := p.RecvCH()
	if got := ch.Suites; fmt.Sprint(got) != fmt.Sprint(o.offered()) {
		c.Fail("offer", "suites offered %04x, want %04x", got, o.offered())
	}
	if s.retry {
		p.SendHRR(s.retryS, hrrExts([]byte("cookie")))
		if r := e.Step(); r == hsFailed {
			if ok {
				c.Fail("refused", "a legal retry was refused: %v", e.Fail)
			}
			c.Outcome("refused: " + why)
			return
		} else if r == hsDone {
			c.Fail("completed", "the handshake completed on a retry")
		}
		if !has16(o.offered(), s.retryS) {
			c.Fail("accepted", "a retry with suite %04x was accepted", s.retryS)
		}
		ch2 := p.RecvCH()
		for _, x := range []uint16{xGroups, xSigAlgs, xALPN, xVersions, xSNI, xPSKModes} {
			if !bytes.Equal(ch.Exts.get(x), ch2.Exts.get(x)) {
				c.Fail("offer", "extension %d changed after the retry: %x, then %x", x, ch.Exts.get(x), ch2.Exts.get(x))
			}
		}
	}
	if o.psk {
		p.UsePSK(thePSK, 0x1301, false)
	}
	sh := p.DefaultSH(s.suite, s.group, false)
	if s.legacy != 0 {
		sh.Version = s.legacy
	}
	if s.version == "-" {
		sh.Exts.del(xVersions)
	} else {
		sh.Exts.set(xVersions, unhex16(s.version))
	}
	if s.psk >= 0 {
		sh.Exts.set(xPSK, []byte{byte(s.psk >> 8), byte(s.psk)})
	}
	if s.group != 0 {
		d := append([]byte{}, sh.Exts.get(xKeyShare)...)
		pub := d[4:]
		switch s.share {
		case "trail":
			d = append(d, 0)
		case "short":
			pub = pub[:len(pub)-1]
		case "long":
			pub = append(append([]byte{}, pub...), 0)
		case "empty":
			pub = nil
		case "zero":
			pub = make([]byte, len(pub))
		case "badpoint":
			pub = append([]byte{}, pub...)
			pub[len(pub)-1] ^= 1
		}
		if s.share != "trail" {
			d = d[:2]
			d = binary.BigEndian.AppendUint16(d, uint16(len(pub)))
			d = append(d, pub...)
		}
		sh.Exts.set(xKeyShare, d)
	}
	p.SendSH(sh, s.group)
	if s.psk < 0 {
		p.psk = nil
	}
	var ee Exts
	if s.alpn == "!" {
		ee.set(xALPN, []byte{0, 0})
	} else if s.alpn != "-" {
		ee.set(xALPN, alpnData(splitComma(s.alpn)))
	}
	if s.early {
		ee.set(xEarly, []byte{})
	}
	p.SendEE(ee)
	if s.psk < 0 {
		i := id(c06Signer(s.scheme))
		p.SendCert(i.raws())
		p.SendCV(i.key, s.scheme)
	}
	p.SendServerFin()
	got := finishClient(c, e, p)
	if ok {
		c.Outcome("completes")
	} else {
		c.Outcome("refused: " + why)
	}
	if got != ok {
		c.Fail(map[bool]string{true: "accepted", false: "refused"}[got], "client completed=%v (%v) with the selection %+v of the offer %+v (%s)", got, e.Fail, s, o, why)
	}
	if !got {
		return
	}
	cs := e.C.ConnectionState()
	wantProto := s.alpn
	if wantProto == "-" {
		wantProto = ""
	}
	if uint16(cs.CipherSuite.Suite) != s.suite || cs.UsingPSK != (s.psk >= 0) || cs.NextProto != wantProto {
		c.Fail("state", "reported suite %04x psk %v protocol %q", uint16(cs.CipherSuite.Suite), cs.UsingPSK, cs.NextProto)
	}
	p.RecvClientFlight()
	dataBothWays(c, e, p, "x")
}

// c06CR: the client answers a certificate request only with a scheme it lists.
func c06CR(c *Case, dtls bool, schemes []uint16, certs []string) {
	cfg := clientCfg()
	cfg.UseDTLS = dtls
	cfg.Certificates = mintCerts(certs...)
	e := NewEnd(cfg, true)
	p := newPuppet(false, e)
	e.Step()
	p.RecvCH()
	p.SendSH(p.DefaultSH(0x1301, gX25519, false), gX25519)
	p.SendEE(nil)
	p.SendCR(schemes)
	p.SendCert(id("p256").raws())
	p.SendCV(id("p256").key, 0x0403)
	p.SendServerFin()
	fits := false
	for _, n := range certs {
		for _, s := range schemes {
			fits = fits || c05Fits(s, id(n))
		}
	}
	if !finishClient(c, e, p) {
		c.Outcome("cr refused")
		if len(schemes) > 0 {
			c.Fail("refused", "the client refused a request with schemes %04x (%v)", schemes, e.Fail)
		}
		return
	}
	p.RecvClientFlight() // verifies the signature
	if len(p.PeerChain) == 0 {
		c.Outcome("cr: no certificate")
		if fits {
			c.Fail("refused", "the client sent no certificate though one of %v fits %04x", certs, schemes)
		}
		return
	}
	c.Outcome(fmt.Sprintf("cr %04x", p.PeerScheme))
	if !has16(schemes, p.PeerScheme) {
		c.Fail("selected", "the client signed with %04x, requested %04x", p.PeerScheme, schemes)
	}
}

func splitComma(s string) (o []string) {
	cur := ""
	for _, r := range s {
		if r == ',' {
			o = append(o, cur)
			cur = ""
		} else {
			cur += string(r)
		}
	}
	return append(o, cur)
}

func c06Signer(scheme uint16) string {
	switch scheme {
	case 0x0403:
		return "p256"
	case 0x0503:
		return "p384"
	case 0x0603:
		return "p521"
	}
	return "rsa"
}

// ---- the server against a client that offers anything --------------------

type c06Hello struct {
	dtls     bool
	versions []uint16 // nil: no extension
	suites   []uint16
	groups   []uint16 // nil: no extension
	shares   []uint16 // nil: no extension
	schemes  []uint16
	alpn     []string
	psk      string // "", "known", "unknown", "unknown+known", "known+unknown"
	modes    []int  // nil: no extension
	early    bool
	cookie   bool // the server demands a cookie
}

func c06HelloDef(psk string) c06Hello {
	return c06Hello{versions: []uint16{0x0304}, suites: []uint16{0x1301, 0x1302}, groups: []uint16{gX25519, gP256}, shares: []uint16{gX25519},
		schemes: []uint16{0x0403, 0x0804}, psk: psk, modes: []int{1, 0}}
}

var c06SSuites = []uint16{0x1302, 0x1301}
var c06SGroups = []uint16{gX25519, gP256}
var c06SALPN = []string{"b", "a"}

func c06Server(c *Case, k c06Hello) {
	names := []string{"p256", "rsa"}
	cfg := serverCfg(names...)
	cfg.UseDTLS = k.dtls
	cfg.CipherSuites, cfg.Groups, cfg.NextProtos = suitesOf(c06SSuites), groupsOf(c06SGroups), c06SALPN
	cfg.PSKs = &mint.PSKMapCache{hexOf([]byte("psk-id")): mintPSK(0x1301, []byte("psk-id"), thePSK, false)}
	cfg.AllowEarlyData = true
	if k.cookie {
		cfg.RequireCookie = true
		cfg.CookieProtector = fixedProtector()
	}
	e := NewEnd(cfg, false)
	p := newPuppet(true, e)
	o := defaultCH()
	o.Suites, o.Groups, o.Shares, o.Schemes, o.ALPN, o.Modes, o.Early = k.suites, k.groups, k.shares, k.schemes, k.alpn, k.modes, k.early
	known := -1
	switch k.psk {
	case "known":
		o.PSKIDs, known = []pskID{{[]byte("psk-id"), 0}}, 0
	case "unknown":
		o.PSKIDs = []pskID{{[]byte("other"), 0}}
	case "unknown+known":
		o.PSKIDs, known = []pskID{{[]byte("other"), 0}, {[]byte("psk-id"), 0}}, 1
	case "known+unknown":
		o.PSKIDs, known = []pskID{{[]byte("psk-id"), 0}, {[]byte("other"), 0}}, 0
	}
	for range o.PSKIDs {
		o.PSKKeys = append(o.PSKKeys, thePSK)
		o.PSKSuites = append(o.PSKSuites, 0x1301)
		o.PSKRes = append(o.PSKRes, false)
	}
	o.mut = func(ch *CHello) {
		if k.versions == nil {
			ch.Exts.del(xVersions)
		} else {
			ch.Exts.set(xVersions, u16list(1, k.versions))
		}
	}
	send := func() bool {
		p.SendCH(o)
		r := e.Step()
		return r != hsFailed
	}
	alive := send()
	// what an acceptable answer looks like
	vOK := has16(k.versions, 0x0304)
	var share uint16
	for _, g := range k.shares {
		if has16(c06SGroups, g) {
			share = g
		}
	}
	suite := firstCommon16(k.suites, c06SSuites)
	hasMode := func(m int) bool {
		for _, x := range k.modes {
			if x == m {
				return true
			}
		}
		return false
	}
	pskOK := known >= 0 && has16(k.suites, 0x1301) && (hasMode(0) || hasMode(1) && share != 0)
	certOK := share != 0 && suite != 0 && (has16(k.schemes, 0x0403) || has16(k.schemes, 0x0804) || has16(k.schemes, 0x0805) || has16(k.schemes, 0x0806))
	possible := vOK && (pskOK || certOK)
	if !alive {
		c.Outcome(fmt.Sprintf("refused possible=%v", possible))
		if possible && c06Clear(k) {
			c.Fail("refused", "the server refused the hello %+v (%v)", k, e.Fail)
		}
		return
	}
	if k.cookie && vOK {
		retry, cookie := p.RecvSH()
		if !retry {
			c.Fail("retry", "no retry was sent")
		}
		if !has16(k.suites, p.SH.Suite) {
			c.Fail("selected", "the retry selects suite %04x", p.SH.Suite)
		}
		if len(p.SH.Exts) != 2 || cookie == nil {
			c.Fail("retry", "the retry carries %v", p.SH.Exts)
		}
		o.Cookie = cookie
		o.Early = false
		if !send() {
			c.Outcome(fmt.Sprintf("refused after retry possible=%v", possible))
			if possible && c06Clear(k) {
				c.Fail("refused", "the server refused the second hello %+v (%v)", k, e.Fail)
			}
			return
		}
	}
	if !possible {
		c.Fail("accepted", "the server answered a hello that leaves nothing acceptable: %+v", k)
	}
	retry, _ := p.RecvSH() // checks the version, the group, the identity, the session id
	if retry && k.dtls && k.cookie {
		retry, _ = p.RecvSH()
	}
	if retry {
		c.Fail("retry", "an unexpected retry")
	}
	if !has16(k.suites, p.SH.Suite) {
		c.Fail("selected", "suite %04x was not offered", p.SH.Suite)
	}
	if d := p.SH.Exts.get(xKeyShare); d != nil {
		g := uint16(d[0])<<8 | uint16(d[1])
		if !has16(k.shares, g) {
			c.Fail("selected", "group %d was not offered", g)
		}
	}
	if d := p.SH.Exts.get(xPSK); d != nil {
		if int(d[0])<<8|int(d[1]) != known {
			c.Fail("selected", "identity %x selected; the known one is %d", d, known)
		}
		if p.dh == nil && !hasMode(0) || p.dh != nil && !hasMode(1) {
			c.Fail("selected", "key exchange mode (dh=%v) not among %v", p.dh != nil, k.modes)
		}
		if p.SH.Suite != 0x1301 {
			c.Fail("selected", "the key belongs to suite 1301, selected %04x", p.SH.Suite)
		}
	}
	p.RecvServerFlight() // checks the scheme and early data
	for _, x := range p.EE {
		switch x.T {
		case xALPN:
			l := parseALPN(x.D)
			if len(l) != 1 || !hasStr(k.alpn, l[0]) {
				c.Fail("selected", "protocols %q of %q", l, k.alpn)
			}
		case xEarly:
			if p.psk == nil || known != 0 {
				c.Fail("selected", "early data accepted without the first pre-shared key")
			}
		case xGroups, xSNI:
		default:
			c.Fail("selected", "EncryptedExtensions carries extension %d", x.T)
		}
	}
	p.SendClientFlight(nil)
	if r := e.Step(); r != hsDone {
		c.Fail("refused", "after the client's flight the server is %v (%v)", r, e.Fail)
	}
	c.Outcome(fmt.Sprintf("completes psk=%v dh=%v suite=%04x alpn=%v early=%v", p.psk != nil, p.dh != nil, p.SH.Suite, p.EE.has(xALPN), p.earlyAccepted))
	dataBothWays(c, e, p, "x")
}

// c06Clear: the hello is one that RFC 8446 allows a client to send; the server
// has no reason of its own to refuse it.
func c06Clear(k c06Hello) bool {
	for _, g := range k.shares {
		if !has16(k.groups, g) {
			return false
		}
	}
	if k.psk != "" && k.modes == nil || k.groups == nil != (k.shares == nil) {
		return false
	}
	if len(k.versions) == 0 || len(k.suites) == 0 || k.shares != nil && k.schemes == nil {
		return false
	}
	if k.groups != nil && len(k.groups) == 0 || k.schemes != nil && len(k.schemes) == 0 {
		return false // malformed: these lists have a minimum length
	}
	if k.psk == "" && k.early || k.modes != nil && len(k.modes) == 0 {
		return false
	}
	if k.psk == "unknown+known" && k.early {
		return false
	}
	if k.psk != "" && !has16(k.suites, 0x1301) {
		return false // RFC 8446 4.2.11: a suite compatible with the key must be offered
	}
	return true
}

func init() {
	register("C06", "exploration", func(x *Ctx) {
		x.Rule("client: every combination of at most k selections departing from an honest one (version, suite, group, share, pre-shared key, protocol, signature scheme, early data, retry) for every offer of the list; server: every hello with at most k offer lists departing from the default; distinct = distinct outcomes and reasons")
		cs := &Cases{}
		k := x.Pick(2, 3)
		all := []uint16{0x0804, 0x0805, 0x0806, 0x0403, 0x0503, 0x0603}
		offers := []c06Offer{}
		for _, dtls := range []bool{false, true} {
			for _, su := range [][]uint16{{0x1301, 0x1302}, {0x1301}} {
				for _, gr := range [][]uint16{{gX25519}, {gP256, gX25519}} {
					for _, al := range [][]string{nil, {"a"}, {"b", "a"}} {
						offers = append(offers, c06Offer{dtls: dtls, suites: su, groups: gr, alpn: al, schemes: all, modes: []uint16{0, 1}})
						for _, m := range [][]uint16{{0}, {1}, {1, 0}} {
							if dtls && len(al) == 1 {
								continue
							}
							of := c06Offer{dtls: dtls, suites: su, groups: gr, alpn: al, schemes: all, psk: true, modes: m}
							offers = append(offers, of)
							if !dtls {
								of.early = true
								offers = append(offers, of)
							}
						}
					}
				}
			}
			offers = append(offers, c06Offer{dtls: dtls, suites: []uint16{0x1302}, groups: []uint16{gP256}, schemes: []uint16{0x0804, 0x0403}, modes: []uint16{1}},
				c06Offer{dtls: dtls, suites: []uint16{0x1301}, groups: []uint16{gP384}, schemes: []uint16{0x0403}, modes: []uint16{1}})
		}
		versions := []string{"0304", "-", "", "03", "0303", "0305", "0300", "7f16", "7f1c", "0000", "ffff", "03040304", "030403", "03030304", "020304", "04030304"}
		suites := []uint16{0x1301, 0x1302, 0x1303, 0x1304, 0x0000, 0x00ff, 0xc02f, 0x1300, 0xffff}
		groups := []uint16{0, gX25519, gP256, gP384, gP521}
		shares := []string{"", "trail", "short", "long", "empty", "zero", "badpoint"}
		psks := []int{-1, 0, 1, 2, 256, 65535}
		alpns := []string{"-", "a", "b", "c", "!", "a,b", "b,a", "A", "aa"}
		schemes := []uint16{0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806}
		for _, o := range offers {
			d := o.def()
			type dim func(s c06Sel) []c06Sel
			dims := []dim{
				func(s c06Sel) (l []c06Sel) {
					for _, v := range versions {
						if v != d.version {
							t := s
							t.version = v
							l = append(l, t)
						}
					}
					return
				},
				func(s c06Sel) (l []c06Sel) {
					for _, v := range []uint16{0x0300, 0x0301, 0x0302, 0x0304, 0x7f16, 0xfefc, 0xfeff, 0xffff, 1} {
						t := s
						t.legacy = v
						l = append(l, t)
					}
					return
				},
				func(s c06Sel) (l []c06Sel) {
					for _, v := range suites {
						if v != d.suite {
							t := s
							t.suite = v
							l = append(l, t)
						}
					}
					return
				},
				func(s c06Sel) (l []c06Sel) {
					for _, v := range groups {
						if v != d.group {
							t := s
							t.group = v
							l = append(l, t)
						}
					}
					return
				},
				func(s c06Sel) (l []c06Sel) {
					for _, v := range shares[1:] {
						if v == "badpoint" && s.group == gX25519 {
							continue // every string is a point
						}
						if s.group == 0 {
							continue
						}
						t := s
						t.share = v
						l = append(l, t)
					}
					return
				},
				func(s c06Sel) (l []c06Sel) {
					for _, v := range psks {
						if v != d.psk {
							t := s
							t.psk = v
							l = append(l, t)
						}
					}
					return
				},
				func(s c06Sel) (l []c06Sel) {
					for _, v := range alpns[1:] {
						t := s
						t.alpn = v
						l = append(l, t)
					}
					return
				},
				func(s c06Sel) (l []c06Sel) {
					if s.psk >= 0 {
						return
					}
					for _, v := range schemes[1:] {
						t := s
						t.scheme = v
						l = append(l, t)
					}
					return
				},
				func(s c06Sel) (l []c06Sel) {
					s.early = true
					return []c06Sel{s}
				},
				func(s c06Sel) (l []c06Sel) {
					if o.early {
						return // early data and a retry: see the known issue of the implementation
					}
					for _, v := range suites {
						t := s
						t.retry, t.retryS = true, v
						l = append(l, t)
					}
					return
				},
			}
			var rec func(s c06Sel, from, left int)
			rec = func(s c06Sel, from, left int) {
				cs.Add(fmt.Sprintf("client/%+v/%+v", o, s), func(c *Case) {
					c.Traces(1)
					c06Client(c, o, s)
				})
				if left == 0 {
					return
				}
				for i := from; i < len(dims); i++ {
					for _, t := range dims[i](s) {
						rec(t, i+1, left-1)
					}
				}
			}
			kk := k
			if x.Thorough() && (len(o.groups) > 1 || o.dtls) {
				kk = 2
			}
			rec(d, 0, kk)
		}
		for _, dtls := range []bool{false, true} {
			for _, sch := range upTo(3, append([]uint16{0x0807, 0x0000}, []uint16{0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806}...)) {
				if len(sch) > x.Pick(2, 3) {
					continue
				}
				for _, certs := range [][]string{nil, {"client"}, {"p256"}, {"p384"}, {"p521"}, {"rsa"}, {"p384", "p256"}, {"rsa", "p521", "client"}} {
					cs.Add(fmt.Sprintf("cr/%v/%04x/%v", dtls, sch, certs), func(c *Case) {
						c.Traces(1)
						c06CR(c, dtls, sch, certs)
					})
				}
			}
		}
		// the server
		vers := [][]uint16{nil, {}, {0x0303}, {0x0303, 0x0304}, {0x0304, 0x0303}, {0x7f16}, {0x0305, 0x7f1c, 0x0304}, {0x0000}, {0x0400, 0x0303}}
		sus := nonEmpty(ordered([]uint16{0x1301, 0x1302, 0x1303, 0xc02f}))
		if !x.Thorough() {
			sus = append(nonEmpty(ordered([]uint16{0x1301, 0x1302, 0x1303})), []uint16{0xc02f}, []uint16{0x00ff, 0x1302}, []uint16{})
		}
		gl := ordered([]uint16{gX25519, gP256, gP384})
		for _, u := range []uint16{0x0a0a, 0x001e, 0x11ec} {
			gl = append(gl, []uint16{u}, []uint16{u, gX25519}, []uint16{gX25519, u}, []uint16{u, gP384}, []uint16{gP256, u, gX25519})
		}
		al := append(ordered([]string{"a", "b", "c"}), []string{"A"}, []string{"aa", "b"})
		ml := [][]int{nil, {}, {0}, {1}, {0, 1}, {2}, {7, 255}, {2, 1}, {2, 0}, {255, 1, 0}}
		scl := [][]uint16{nil, {}, {0x0403}, {0x0804}, {0x0503}, {0x0603, 0x0805}, {0x0806}, {0x0000, 0x0807}, {0x0807, 0x0403}, {0x0503, 0x0804}}
		type hdim func(k c06Hello) []c06Hello
		for _, base := range []c06Hello{c06HelloDef(""), c06HelloDef("known")} {
			for _, dtls := range []bool{false, true} {
				base.dtls = dtls
				hdims := []hdim{
					func(k c06Hello) (l []c06Hello) {
						for _, v := range vers {
							k.versions = v
							l = append(l, k)
						}
						return
					},
					func(k c06Hello) (l []c06Hello) {
						for _, v := range sus {
							k.suites = v
							l = append(l, k)
						}
						return
					},
					func(k c06Hello) (l []c06Hello) {
						for _, v := range append(gl, nil) {
							k.groups = v
							l = append(l, k)
						}
						return
					},
					func(k c06Hello) (l []c06Hello) {
						for _, v := range append(gl, nil) {
							k.shares = v
							l = append(l, k)
						}
						return
					},
					func(k c06Hello) (l []c06Hello) {
						for _, v := range scl {
							k.schemes = v
							l = append(l, k)
						}
						return
					},
					func(k c06Hello) (l []c06Hello) {
						for _, v := range al {
							k.alpn = v
							l = append(l, k)
						}
						return
					},
					func(k c06Hello) (l []c06Hello) {
						for _, v := range []string{"", "known", "unknown", "unknown+known", "known+unknown"} {
							k.psk = v
							l = append(l, k)
						}
						return
					},
					func(k c06Hello) (l []c06Hello) {
						for _, v := range ml {
							k.modes = v
							l = append(l, k)
						}
						return
					},
					func(k c06Hello) (l []c06Hello) {
						if k.dtls {
							return
						}
						k.early = true
						return []c06Hello{k}
					},
					func(k c06Hello) (l []c06Hello) {
						if k.early {
							return
						}
						k.cookie = true
						return []c06Hello{k}
					},
				}
				var rec func(h c06Hello, from, left int)
				rec = func(h c06Hello, from, left int) {
					cs.Add(fmt.Sprintf("server/%+v", h), func(c *Case) {
						c.Traces(1)
						c06Server(c, h)
					})
					if left == 0 {
						return
					}
					for i := from; i < len(hdims); i++ {
						for _, t := range hdims[i](h) {
							rec(t, i+1, left-1)
						}
					}
				}
				rec(base, 0, k)
			}
		}
		c06Retries(cs, x.Pick(2, 3))
		x.Run(cs, 0)
	})
}

// upTo lists the ordered sub-lists of l of at most n elements.
func upTo[T comparable](n int, l []T) (out [][]T) {
	var rec func(cur []T)
	rec = func(cur []T) {
		out = append(out, append([]T{}, cur...))
		if len(cur) == n {
			return
		}
		for _, x := range l {
			used := false
			for _, y := range cur {
				used = used || x == y
			}
			if !used {
				rec(append(cur, x))
			}
		}
	}
	rec(nil)
	return
}

// c06RetryExts asks a client to retry with the given extensions. The retry
// is legal if it names the version, carries a cookie and nothing else that
// the client's hello did not ask for: every group has been given a share
// already, so a retry has nothing to say about them.
func c06RetryExts(c *Case, dtls, handler, versions, cookie bool, bad []Ext, unknown int, front bool) {
	cfg := clientCfg()
	cfg.UseDTLS = dtls
	cfg.NextProtos = []string{"h2"}
	if handler {
		h := &c27Handler{types: c27Types, failAt: -1, send: map[mint.HandshakeType][]blobExt{}}
		for i := 0; i < unknown; i++ {
			h.send[mint.HandshakeTypeClientHello] = append(h.send[mint.HandshakeTypeClientHello], blobExt{c27Types[i], c27Body(i, 1)})
		}
		cfg.ExtensionHandler = h
	}
	e := NewEnd(cfg, true)
	p := newPuppet(false, e)
	e.Step()
	p.RecvCH()
	exts := hrrExts([]byte("cookie"))
	if !versions {
		exts.del(xVersions)
	}
	if !cookie {
		exts.del(xCookie)
	}
	for _, b := range bad {
		exts = append(exts, b)
	}
	for i := 0; i < unknown; i++ {
		u := Ext{uint16(c27Types[i]), c27Body(i, 2)}
		if front {
			exts = append(Exts{u}, exts...)
		} else {
			exts = append(exts, u)
		}
	}
	p.SendHRR(0x1301, exts)
	r := e.Step()
	if !versions || !cookie || len(bad) > 0 || unknown > 0 && !handler {
		if r != hsFailed {
			c.Fail("accepted", "a retry with extensions %v was accepted", exts)
		}
		c.Outcome("refused")
		return
	}
	if r == hsFailed {
		c.Fail("refused", "a legal retry was refused: %v", e.Fail)
	}
	if got := p.RecvCH().Exts.get(xCookie); !bytes.HasSuffix(got, []byte("cookie")) {
		c.Fail("cookie", "the second hello carries the cookie %x", got)
	}
	p.SendSH(p.DefaultSH(0x1301, gX25519, false), gX25519)
	p.SendEE(Exts{{xALPN, alpnData([]string{"h2"})}})
	p.sendAuth(defaultAuth("p256"))
	for e.Step() == hsBlocked && e.W.pending() > 0 {
	}
	if !e.Connected() {
		c.Fail("refused", "after a legal retry: %v", e.Fail)
	}
	c.Outcome("completed")
}

func c06Retries(cs *Cases, most int) {
	forbidden := []Ext{
		{xKeyShare, []byte{0, 24}}, {xKeyShare, []byte{0, 29}}, {xPSK, []byte{0, 0}}, {xEarly, nil}, {xSNI, nil},
		{xALPN, alpnData([]string{"h2"})}, {xGroups, u16list(2, []uint16{29})}, {xSigAlgs, u16list(2, []uint16{0x0403})},
		{xPSKModes, []byte{1, 1}}, {xVersions, []byte{3, 4}}, {xCookie, []byte{0, 1, 'x'}},
	}
	var sets [][]Ext
	var rec func(cur []Ext, from int)
	rec = func(cur []Ext, from int) {
		sets = append(sets, append([]Ext{}, cur...))
		if len(cur) == most {
			return
		}
		for i := from; i < len(forbidden); i++ {
			rec(append(cur, forbidden[i]), i+1)
		}
	}
	rec(nil, 0)
	for _, dtls := range []bool{false, true} {
		for _, handler := range []bool{false, true} {
			for base := 0; base < 4; base++ {
				for _, bad := range sets {
					for unknown := 0; unknown <= 2; unknown++ {
						for _, front := range []bool{false, true} {
							if front && unknown == 0 {
								continue
							}
							versions, cookie := base&1 == 0, base&2 == 0
							if !versions && hasExt(bad, xVersions) || !cookie && hasExt(bad, xCookie) {
								continue // there is one after all
							}
							cs.Add(fmt.Sprintf("hrr/dtls=%v/handler=%v/versions=%v/cookie=%v/bad%x/unknown%d/front=%v", dtls, handler, versions, cookie, bad, unknown, front), func(c *Case) {
								c.Traces(1)
								c06RetryExts(c, dtls, handler, versions, cookie, bad, unknown, front)
							})
						}
					}
				}
			}
		}
	}
}

func hasExt(l []Ext, t uint16) bool {
	for _, e := range l {
		if e.T == t {
			return true
		}
	}
	return false
}
