package vharness

import (
	"bytes"
	"fmt"

	"github.com/bifurcation/mint"
)

// c05Cfg is one pair of configurations and what an independent reading of the
// protocol says must come of it.
type c05Cfg struct {
	dtls           bool
	cSuites        []uint16
	sSuites        []uint16
	cGroups        []uint16
	sGroups        []uint16
	cALPN, sALPN   []string
	cSchemes       []uint16
	sCerts         []string
	name           string // requested server name
	psk            string // "", "same", "unknown", "wrongkey"
	pskSuite       uint16
	cModes, sModes []uint16
	cookie         bool // the server demands a cookie first
}

type c05Want struct {
	ok      bool
	suite   uint16
	group   uint16 // 0: no key exchange
	psk     bool
	alpn    string
	certs   []string // acceptable certificates
	why     string
	skipped bool // outside the property's domain
}

func has16(l []uint16, v uint16) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func hasStr(l []string, v string) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

func firstCommon16(a, b []uint16) uint16 {
	for _, x := range a {
		if has16(b, x) {
			return x
		}
	}
	return 0
}

func (k c05Cfg) want() (w c05Want) {
	offered := k.cSuites
	if k.psk != "" {
		// a client with a pre-shared key offers the suites of its hash only
		offered = nil
		for _, s := range k.cSuites {
			if suiteByID(s).hlen == suiteByID(k.pskSuite).hlen {
				offered = append(offered, s)
			}
		}
	}
	if len(offered) == 0 && k.psk != "" {
		// the key cannot be used
		offered = k.cSuites
		k.psk = ""
	}
	if len(offered) == 0 {
		w.why = "no suite to offer"
		return
	}
	group := firstCommon16(k.cGroups, k.sGroups)
	modes := []uint16{}
	for _, m := range k.cModes {
		if has16(k.sModes, m) {
			modes = append(modes, m)
		}
	}
	if k.psk == "wrongkey" {
		w.why = "binder"
		return
	}
	usable := k.psk == "same" && has16(offered, k.pskSuite) && (has16(modes, 0) || has16(modes, 1) && group != 0)
	if usable {
		if !has16(k.sSuites, k.pskSuite) {
			w.skipped = true
			return
		}
		w.ok, w.psk, w.suite = true, true, k.pskSuite
		if has16(modes, 1) {
			w.group = group
		}
	} else {
		w.suite = firstCommon16(offered, k.sSuites)
		w.group = group
		if w.suite == 0 || group == 0 {
			w.why = "no common suite or group"
			return
		}
		for _, c := range k.sCerts {
			if !hasStr(id(c).chain[0].DNSNames, k.name) {
				continue
			}
			for _, s := range k.cSchemes {
				if c05Fits(s, id(c)) {
					w.certs = append(w.certs, c)
					break
				}
			}
		}
		if len(w.certs) == 0 {
			w.why = "no certificate"
			return
		}
		w.ok = true
	}
	for _, p := range k.cALPN {
		if hasStr(k.sALPN, p) {
			w.alpn = p
			break
		}
	}
	if w.psk {
		w.alpn = "" // the protocol of an external key is fixed: none
	}
	return
}

// c05Fits: can the key sign with the scheme (TLS 1.3 signatures only).
func c05Fits(s uint16, i *ident) bool {
	switch s {
	case 0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806:
		return schemeFits(s, i.key)
	}
	return false
}

func suitesOf(l []uint16) (o []mint.CipherSuite) {
	for _, x := range l {
		o = append(o, mint.CipherSuite(x))
	}
	return
}
func groupsOf(l []uint16) (o []mint.NamedGroup) {
	for _, x := range l {
		o = append(o, mint.NamedGroup(x))
	}
	return
}
func schemesOf(l []uint16) (o []mint.SignatureScheme) {
	for _, x := range l {
		o = append(o, mint.SignatureScheme(x))
	}
	return
}
func modesOf(l []uint16) (o []mint.PSKKeyExchangeMode) {
	for _, x := range l {
		o = append(o, mint.PSKKeyExchangeMode(x))
	}
	return
}

func (k c05Cfg) run(c *Case) {
	w := k.want()
	if w.skipped {
		return
	}
	cc := clientCfg()
	cc.UseDTLS = k.dtls
	cc.ServerName = k.name
	cc.CipherSuites, cc.Groups, cc.SignatureSchemes = suitesOf(k.cSuites), groupsOf(k.cGroups), schemesOf(k.cSchemes)
	cc.NextProtos, cc.PSKModes = k.cALPN, modesOf(k.cModes)
	sc := serverCfg()
	sc.UseDTLS = k.dtls
	sc.Certificates = mintCerts(k.sCerts...)
	sc.CipherSuites, sc.Groups = suitesOf(k.sSuites), groupsOf(k.sGroups)
	sc.NextProtos, sc.PSKModes = k.sALPN, modesOf(k.sModes)
	if k.cookie {
		sc.RequireCookie = true
		sc.CookieProtector = fixedProtector()
	}
	if k.psk != "" {
		cc.PSKs = &mint.PSKMapCache{k.name: mintPSK(k.pskSuite, []byte("psk-id"), thePSK, false)}
		switch k.psk {
		case "same":
			sc.PSKs = &mint.PSKMapCache{hexOf([]byte("psk-id")): mintPSK(k.pskSuite, []byte("psk-id"), thePSK, false)}
		case "wrongkey":
			sc.PSKs = &mint.PSKMapCache{hexOf([]byte("psk-id")): mintPSK(k.pskSuite, []byte("psk-id"), wrongPSK, false)}
		case "unknown":
			sc.PSKs = &mint.PSKMapCache{hexOf([]byte("other")): mintPSK(k.pskSuite, []byte("other"), thePSK, false)}
		}
	}
	var sh *SHello
	d := &driven{p: NewPair(cc, sc)}
	d.net = func(fromClient bool, n int, b []byte) [][]byte {
		if !fromClient && b[0] == 22 && sh == nil {
			h := 9
			if k.dtls {
				h = 25
			}
			end := len(b)
			if !k.dtls {
				end = 5 + int(b[3])<<8 + int(b[4])
			}
			if b[h-4] == 2 || k.dtls && b[13] == 2 {
				if h, err := parseSH(b[h:end]); err == nil && !bytes.Equal(h.Random, hrrRandom) {
					sh = h
				}
			}
		}
		return [][]byte{b}
	}
	d.run()
	c.Traces(1)
	if !w.ok {
		c.Outcome("fails: " + w.why)
		if d.c == hsDone || d.s == hsDone {
			c.Fail("completed", "there is no agreement (%s) but client=%v server=%v", w.why, d.c, d.s)
		}
		if d.c != hsFailed && d.s != hsFailed {
			c.Fail("stuck", "there is no agreement (%s) but nobody noticed: client=%v server=%v", w.why, d.c, d.s)
		}
		return
	}
	c.Outcome(fmt.Sprintf("suite %x group %d psk %v alpn %q", w.suite, w.group, w.psk, w.alpn))
	if d.c != hsDone || d.s != hsDone {
		c.Fail("failed", "an agreement exists (%+v) but client=%v (%v) server=%v (%v)", w, d.c, d.p.C.Fail, d.s, d.p.S.Fail)
	}
	if err := d.agree(variant{psk: w.psk}); err != nil {
		c.Fail("agree", "%v", err)
	}
	cs := d.p.C.C.ConnectionState()
	if uint16(cs.CipherSuite.Suite) != w.suite {
		c.Fail("suite", "cipher suite %v, want %x", cs.CipherSuite.Suite, w.suite)
	}
	if cs.NextProto != w.alpn {
		c.Fail("alpn", "protocol %q, want %q", cs.NextProto, w.alpn)
	}
	if cs.UsingPSK != w.psk {
		c.Fail("psk", "using PSK %v, want %v", cs.UsingPSK, w.psk)
	}
	if sh == nil {
		c.Fail("wire", "no server hello seen")
	}
	var g uint16
	if e := sh.Exts.get(51); e != nil {
		g = uint16(e[0])<<8 | uint16(e[1])
	}
	if g != w.group {
		c.Fail("group", "key exchange in group %d, want %d", g, w.group)
	}
	if !w.psk {
		ok := false
		for _, n := range w.certs {
			if len(cs.PeerCertificates) > 0 && cs.PeerCertificates[0].Equal(id(n).chain[0]) {
				ok = true
			}
		}
		if !ok {
			c.Fail("cert", "the server presented another certificate than one of %v", w.certs)
		}
	} else if len(cs.PeerCertificates) != 0 {
		c.Fail("cert", "certificates reported in a resumed session")
	}
	if err := d.echo(nil); err != nil {
		c.Fail("data", "%v", err)
	}
}

// ordered lists all ordered sub-lists of l (including the empty one).
func ordered[T comparable](l []T) (out [][]T) {
	var rec func(cur []T)
	rec = func(cur []T) {
		out = append(out, append([]T{}, cur...))
		for _, x := range l {
			used := false
			for _, y := range cur {
				used = used || x == y
			}
			if !used {
				rec(append(cur, x))
			}
		}
	}
	rec(nil)
	return
}

func nonEmpty[T any](l [][]T) (o [][]T) {
	for _, x := range l {
		if len(x) > 0 {
			o = append(o, x)
		}
	}
	return
}

func c05Base() c05Cfg {
	return c05Cfg{cSuites: []uint16{0x1301, 0x1302}, sSuites: []uint16{0x1301, 0x1302}, cGroups: []uint16{gX25519}, sGroups: []uint16{gX25519},
		cSchemes: []uint16{0x0804, 0x0805, 0x0806, 0x0403, 0x0503, 0x0603}, sCerts: []string{"p256"}, name: goodName,
		cModes: []uint16{0, 1}, sModes: []uint16{0, 1}, pskSuite: 0x1301}
}

func init() {
	register("C05", "exploration", func(x *Ctx) {
		x.Rule("the product of all ordered sub-lists of the suites, groups, protocols, schemes, key-exchange modes and certificate sets of both sides, dimension pair by dimension pair, plus a full product over reduced lists; distinct = distinct agreed outcomes and reasons for failure")
		cs := &Cases{}
		add := func(k c05Cfg) {
			cs.Add(fmt.Sprintf("%+v", k), func(c *Case) { k.run(c) })
		}
		suites := nonEmpty(ordered([]uint16{0x1301, 0x1302}))
		groups := nonEmpty(ordered([]uint16{gX25519, gP256, gP384}))
		alpns := ordered([]string{"a", "b", "c"})
		modes := nonEmpty(ordered([]uint16{0, 1}))
		for _, dtls := range []bool{false, true} {
			// suites x psk
			for _, a := range suites {
				for _, b := range suites {
					for _, psk := range []string{"", "same", "unknown", "wrongkey"} {
						for _, ps := range []uint16{0x1301, 0x1302} {
							for _, m := range modes {
								for _, sm := range modes {
									k := c05Base()
									k.dtls, k.cSuites, k.sSuites, k.psk, k.pskSuite, k.cModes, k.sModes = dtls, a, b, psk, ps, m, sm
									add(k)
									k.sGroups = []uint16{gP256}
									add(k)
									k.sGroups, k.cookie = k.cGroups, true
									add(k)
								}
							}
						}
					}
				}
			}
			// groups
			for _, a := range groups {
				for _, b := range groups {
					k := c05Base()
					k.dtls, k.cGroups, k.sGroups = dtls, a, b
					add(k)
					k.psk = "same"
					add(k)
					for _, m := range modes {
						k.cModes = m
						add(k)
					}
				}
			}
			// protocols
			for _, a := range alpns {
				for _, b := range alpns {
					k := c05Base()
					k.dtls, k.cALPN, k.sALPN = dtls, a, b
					add(k)
				}
			}
			// certificates and schemes
			certs := [][]string{}
			pool := []string{"p256", "p384", "p521", "rsa", "wrongName", "wild", "alt", "both"}
			for _, a := range pool {
				certs = append(certs, []string{a})
				for _, b := range pool {
					if a != b {
						certs = append(certs, []string{a, b})
					}
				}
			}
			all := []uint16{0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806, 0x0401, 0x0501, 0x0201}
			schemes := [][]uint16{all, {0x0804, 0x0805, 0x0806, 0x0403, 0x0503, 0x0603}}
			for i, s := range all {
				schemes = append(schemes, []uint16{s})
				for _, t := range all[:x.Pick(5, 9)] {
					if t != s && (i < 6 || x.Thorough()) {
						schemes = append(schemes, []uint16{s, t})
					}
				}
			}
			for _, ce := range certs {
				for _, sch := range schemes {
					for _, name := range []string{goodName, "alt.example"} {
						k := c05Base()
						k.dtls, k.sCerts, k.cSchemes, k.name = dtls, ce, sch, name
						if dtls && !x.Thorough() && (name != goodName || len(sch) > 1 && len(ce) > 1) {
							continue
						}
						if has16(sch, 0x0401) || has16(sch, 0x0501) || has16(sch, 0x0201) {
							ok := false
							for _, s := range sch {
								ok = ok || s != 0x0401 && s != 0x0501 && s != 0x0201
							}
							if hasStr(ce, "rsa") && !ok {
								continue // PKCS1 in TLS 1.3: mint allows it on request
							}
							if hasStr(ce, "rsa") {
								continue
							}
						}
						add(k)
					}
				}
			}
			// everything, over reduced lists
			su := [][]uint16{{0x1301}, {0x1302, 0x1301}}
			gr := [][]uint16{{gX25519}, {gP256, gX25519}, {gP256}}
			al := [][]string{nil, {"a", "b"}, {"b"}}
			ce := [][]string{{"p256"}, {"rsa"}, {"alt", "p384"}}
			sch := [][]uint16{{0x0403, 0x0804}, {0x0503}}
			mo := [][]uint16{{0, 1}, {1}}
			for _, a := range su {
				for _, b := range su {
					for _, g := range gr {
						for _, h := range gr {
							for _, p := range al {
								for _, q := range al {
									for _, cert := range ce {
										for _, s := range sch {
											for _, m := range mo {
												for _, psk := range []string{"", "same", "unknown"} {
													k := c05Base()
													k.dtls, k.cSuites, k.sSuites, k.cGroups, k.sGroups, k.cALPN, k.sALPN = dtls, a, b, g, h, p, q
													k.sCerts, k.cSchemes, k.cModes, k.psk = cert, s, m, psk
													if psk == "" && len(m) == 1 || dtls && !x.Thorough() && (len(p) == 1 || len(q) == 1) {
														continue
													}
													add(k)
												}
											}
										}
									}
								}
							}
						}
					}
				}
			}
			// every group on its own, also the slow ones
			slow := []uint16{gX25519, gP256, gP384, gP521, gFF2048}
			if x.Thorough() {
				slow = append(slow, gFF2048+1, gFF2048+2)
			}
			for _, g := range slow {
				for _, h := range slow {
					k := c05Base()
					k.dtls, k.cGroups, k.sGroups = dtls, []uint16{g}, []uint16{h}
					add(k)
					if g != h {
						k.cGroups = []uint16{g, h}
						add(k)
					}
				}
			}
		}
		x.Run(cs, 0)
	})
}
