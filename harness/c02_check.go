package vharness

import (
	"fmt"

	"github.com/bifurcation/mint"
)

type clientPlan struct {
	authPlan
	empty   bool // present no certificate
	extraCV bool // a CertificateVerify although no certificate was presented
}

// c02 drives one client behaviour against the real server.
func c02(c *Case, a clientPlan, schemes []mint.SignatureScheme, suite uint16, cb cbMode, dtls bool) {
	cfg := serverCfg("p256")
	cfg.UseDTLS = dtls
	cfg.RequireClientAuth = true
	cfg.SignatureSchemes = schemes
	var seen [][]byte
	var nch, calls int
	cfg.VerifyPeerCertificate = callback(cb, &seen, &nch, &calls)
	e := NewEnd(cfg, false)
	p := newPuppet(true, e)
	o := defaultCH()
	o.Suites = []uint16{suite}
	p.SendCH(o)
	e.Step()
	p.RecvSH()
	p.RecvServerFlight()
	if !p.GotCR {
		c.Fail("request", "the server did not ask for a certificate")
	}
	asked := map[uint16]bool{}
	for _, s := range p.CRSchemes {
		asked[s] = true
	}
	if len(schemes) > 0 && len(asked) != len(schemes) {
		c.Fail("request", "the server asked for schemes %x, configured %x", p.CRSchemes, schemes)
	}
	var chain [][]byte
	if !a.empty {
		chain = id(a.chain).raws()
	}
	switch a.extra {
	case "prependOther":
		chain = append(append([][]byte{}, id("selfSigned").raws()...), chain...)
	case "appendOther":
		chain = append(append([][]byte{}, chain...), id("selfSigned").raws()...)
	}
	p.SendCert(chain)
	if !a.dropCV && !a.empty || a.extraCV {
		p.SendMsg(hCV, cvBody(a.scheme, mutBytes(refSign(id(a.signer).key, a.scheme, p.cvInputFor(a.signOver, "client")), a.sigMut)))
	}
	p.SendClientFinData(p.finWith(a.fin, false))
	r := e.Step()
	got := r == hsDone
	if !got && e.Connected() {
		c.Fail("state", "Handshake reported %v/%v but the state is connected", r, e.Fail)
	}
	var want bool
	if a.empty {
		want = !a.extraCV && a.fin == "right"
	} else {
		want = !a.dropCV && (a.extra == "" || a.extra == "appendOther") && a.signer == a.chain && a.signOver == "right" && a.sigMut == "none" &&
			asked[a.scheme] && schemeFits(a.scheme, id(a.signer).key) && a.fin == "right" && cb != cbReject
	}
	c.Outcome(fmt.Sprintf("empty=%v complete=%v alert=%v", a.empty, got, e.Fail))
	if got != want {
		c.Fail("client-auth", "server completed=%v (alert %v), but a client doing %v empty=%v cb=%d must give %v", got, e.Fail, a.authPlan, a.empty, cb, want)
	}
	if !got {
		return
	}
	st := e.C.ConnectionState()
	if !sameChain(chain, st.PeerCertificates) {
		c.Fail("state", "server reports %d peer certificates, the client presented %d", len(st.PeerCertificates), len(chain))
	}
	if len(st.VerifiedChains) != 0 {
		c.Fail("state", "verified chains reported though none were verified")
	}
	wantCalls := 0
	if !a.empty && cb != cbNone {
		wantCalls = 1
	}
	if calls != wantCalls || wantCalls == 1 && (len(seen) != len(chain) || string(seen[0]) != string(chain[0])) {
		c.Fail("callback", "callback called %d times (%d certificates)", calls, len(seen))
	}
	dataBothWays(c, e, p, "x")
}

// c02Pair: a real client with several certificates against a real server.
func c02Pair(c *Case, certs []string, schemes []mint.SignatureScheme, cb cbMode, dtls bool) {
	cc, sc := clientCfg(), serverCfg("p256")
	cc.UseDTLS, sc.UseDTLS = dtls, dtls
	cc.Certificates = mintCerts(certs...)
	sc.RequireClientAuth = true
	sc.SignatureSchemes = schemes
	var seen [][]byte
	var nch, calls int
	sc.VerifyPeerCertificate = callback(cb, &seen, &nch, &calls)
	exp := ""
	list := sc.SignatureSchemes
	if list == nil {
		list = []mint.SignatureScheme{0x0804, 0x0805, 0x0806, 0x0403, 0x0503, 0x0603}
	}
	for _, n := range certs {
		for _, s := range list {
			if exp == "" && schemeFits(uint16(s), id(n).key) {
				exp = n
			}
		}
	}
	p := NewPair(cc, sc)
	rc, rs := p.Run()
	if exp != "" && cb == cbReject {
		if rs == hsDone {
			c.Fail("client-auth", "server completed with a rejected certificate")
		}
		c.Outcome("pair rejected")
		return
	}
	if rc != hsDone || rs != hsDone {
		c.Fail("client-auth", "handshake with certificates %v did not complete: %v %v %v %v", certs, rc, rs, p.C.Fail, p.S.Fail)
	}
	st := p.S.C.ConnectionState()
	c.Outcome("pair reported=" + exp)
	if exp == "" {
		if len(st.PeerCertificates) != 0 || calls != 0 {
			c.Fail("state", "identity reported for an anonymous client")
		}
		return
	}
	if !sameChain(id(exp).raws(), st.PeerCertificates) {
		c.Fail("state", "reported identity is not %s", exp)
	}
}

func init() {
	register("C02", "model_checking", func(x *Ctx) {
		x.Rule("one execution of the real server per client behaviour; every combination of at most k deviations from an honest client-authentication flight over the listed domains, plus all client certificate lists against all scheme lists for real clients; distinct = (certificate presented, outcome, alert) classes")
		x.Assume("the reference signer and the Go standard library's crypto are correct")
		cs := &Cases{}
		maxDev := x.Pick(2, 4)
		chains := []string{"client", "clientRSA", "p256", "p384", "p521", "rsa", "inter", "selfSigned", "untrusted"}
		add := func(a clientPlan, schemes []mint.SignatureScheme, suite uint16, cb cbMode, dtls bool) {
			cs.Add(fmt.Sprintf("cert/%v/empty=%v/cv+=%v/schemes=%x/suite=%04x/cb=%d/dtls=%v", a.authPlan, a.empty, a.extraCV, schemes, suite, cb, dtls), func(c *Case) {
				c.States(4)
				c.Transitions(3)
				c.Traces(1)
				c02(c, a, schemes, suite, cb, dtls)
			})
		}
		schemeSets := [][]mint.SignatureScheme{nil, {0x0804}, {0x0403}, {0x0503, 0x0806}}
		for _, ch := range chains {
			def := clientPlan{authPlan: defaultAuth(ch)}
			for _, signer := range append([]string{ch}, chains...) {
				if signer != ch && id(signer).key == id(ch).key {
					continue
				}
				for _, sch := range allSchemes {
					for _, over := range signOvers {
						if over == "clientContext" {
							// RFC 8446 prescribes this context for clients while mint uses the
							// server's; either is a proof, so neither verdict is demanded.
							continue
						}
						for _, sm := range sigMuts {
							for _, fin := range append([]string{"serverKey"}, finMuts...) {
								if fin == "clientKey" {
									continue
								}
								for _, cb := range []cbMode{cbNone, cbAccept, cbReject} {
									for si, set := range schemeSets {
										d := 0
										for _, b := range []bool{signer != ch, sch != defaultScheme(id(signer)), over != "right", sm != "none", fin != "right", cb != cbAccept, si != 0} {
											if b {
												d++
											}
										}
										if d > maxDev {
											continue
										}
										a := def
										a.signer, a.scheme, a.signOver, a.sigMut, a.fin = signer, sch, over, sm, fin
										add(a, set, 0x1301, cb, false)
										if d <= 1 {
											add(a, set, 0x1302, cb, false)
											add(a, set, 0x1301, cb, true)
										}
									}
								}
							}
						}
					}
				}
			}
			for _, dtls := range []bool{false, true} {
				for _, cb := range []cbMode{cbNone, cbAccept, cbReject} {
					a := def
					a.dropCV = true
					add(a, nil, 0x1301, cb, dtls)
					a = def
					a.extra = "prependOther"
					if ch != "selfSigned" {
						add(a, nil, 0x1301, cb, dtls)
					}
					a.extra = "appendOther"
					add(a, nil, 0x1301, cb, dtls)
					a = def
					a.empty = true
					add(a, nil, 0x1301, cb, dtls)
					for _, f := range finMuts {
						if f != "clientKey" {
							a.fin = f
							add(a, nil, 0x1301, cb, dtls)
						}
					}
					a = def
					a.empty, a.extraCV = true, true
					add(a, nil, 0x1301, cb, dtls)
				}
			}
		}
		// Real clients: every list of at most two (thorough: three) certificates.
		names := []string{"client", "clientRSA", "p384", "p521"}
		lists := [][]string{{}}
		for _, a := range names {
			lists = append(lists, []string{a})
			for _, b := range names {
				if a != b {
					lists = append(lists, []string{a, b})
					if x.Thorough() {
						for _, d := range names {
							if d != a && d != b {
								lists = append(lists, []string{a, b, d})
							}
						}
					}
				}
			}
		}
		sets := [][]mint.SignatureScheme{nil, {0x0804}, {0x0805}, {0x0806}, {0x0403}, {0x0503}, {0x0603}, {0x0603, 0x0804}, {0x0403, 0x0503}, {0x0806, 0x0503, 0x0403}}
		for _, l := range lists {
			for _, set := range sets {
				for _, cb := range []cbMode{cbNone, cbAccept, cbReject} {
					for _, dtls := range []bool{false, true} {
						l, set, cb, dtls := l, set, cb, dtls
						cs.Add(fmt.Sprintf("pair/%v/%x/cb=%d/dtls=%v", l, set, cb, dtls), func(c *Case) {
							c.States(8)
							c.Transitions(7)
							c.Traces(1)
							c02Pair(c, l, set, cb, dtls)
						})
					}
				}
			}
		}
		x.Run(cs, 0)
	})
}
