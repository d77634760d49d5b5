package vharness

import (
	"bytes"
	"crypto"
	"crypto/x509"
	"errors"
	"fmt"

	"github.com/bifurcation/mint"
)

// mintPSK is a pre-shared key in mint's form.
func mintPSK(suite uint16, ident, key []byte, resumption bool) mint.PreSharedKey {
	return mint.PreSharedKey{CipherSuite: mint.CipherSuite(suite), IsResumption: resumption, Identity: ident, Key: key,
		ReceivedAt: realNow(), ExpiresAt: realNow().AddDate(1, 0, 0), TicketAgeAdd: 7}
}

var thePSK = bytes.Repeat([]byte{0x5a}, 32)
var wrongPSK = bytes.Repeat([]byte{0xa5}, 32)

// withClientPSK arms a client configuration with an external PSK.
func withClientPSK(cfg *mint.Config, suite uint16, key []byte, modes ...mint.PSKKeyExchangeMode) *mint.Config {
	cfg.PSKs = &mint.PSKMapCache{goodName: mintPSK(suite, []byte("psk-id"), key, false)}
	if len(modes) > 0 {
		cfg.PSKModes = modes
	}
	return cfg
}

// ktype is what a scheme has to match.
func schemeFits(scheme uint16, key crypto.Signer) bool {
	return refVerify(key.Public(), scheme, []byte("x"), refSign(key, scheme, []byte("x"))) == nil
}

var allSchemes = []uint16{0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806, 0x0401, 0x0501, 0x0601, 0x0201, 0x0203, 0x0807, 0x0000, 0xffff}
var defaultOffered = map[uint16]bool{0x0403: true, 0x0503: true, 0x0603: true, 0x0804: true, 0x0805: true, 0x0806: true}

// authPlan is everything a server can choose in its authentication flight.
type authPlan struct {
	chain    string // identity whose chain is presented
	signer   string // identity whose key signs
	scheme   uint16
	signOver string // what the signature covers
	sigMut   string
	fin      string
	dropCV   bool
	extra    string // another chain appended / prepended
}

var chainNames = []string{"p256", "p384", "p521", "rsa", "inter", "interMissing", "wrongName", "expired", "notYet", "untrusted", "selfSigned", "clientOnly",
	"inter2", "interFull", "rogue3", "rogueMix", "leafIssued"}
var chainValid = map[string]bool{"p256": true, "p384": true, "p521": true, "rsa": true, "inter": true, "inter2": true, "interFull": true}
var signOvers = []string{"right", "beforeCert", "clientContext", "noContext", "emptyHash", "otherHandshake", "withFinished"}
var sigMuts = []string{"none", "flipFirst", "flipMid", "flipLast", "empty", "trailing", "truncated", "zero"}
var finMuts = []string{"right", "flipFirst", "flipLast", "empty", "truncated", "extended", "zeros", "clientKey", "wrongTranscript"}

func mutBytes(b []byte, how string) []byte {
	b = append([]byte{}, b...)
	switch how {
	case "flipFirst":
		b[0] ^= 1
	case "flipMid":
		b[len(b)/2] ^= 0x10
	case "flipLast":
		b[len(b)-1] ^= 1
	case "empty":
		return []byte{}
	case "trailing", "extended":
		return append(b, 0)
	case "truncated":
		return b[:len(b)-1]
	case "zero", "zeros":
		return make([]byte, len(b))
	}
	return b
}

func (p *Puppet) cvInputFor(over string, role string) []byte {
	th := p.suite.sum(p.T)
	switch over {
	case "beforeCert":
		th = p.suite.sum(p.T[:len(p.T)-7])
	case "clientContext":
		return cvInput(clientCVContext, th)
	case "noContext":
		return th
	case "emptyHash":
		th = p.suite.sum()
	case "otherHandshake":
		t := append([]byte{}, p.T...)
		t[20] ^= 1 // another hello random
		th = p.suite.sum(t)
	case "withFinished":
		th = p.suite.sum(p.T, hsMsg(hFin, p.finData(true)))
	}
	return cvInput(serverCVContext, th)
}

func (p *Puppet) finWith(how string, server bool) []byte {
	switch how {
	case "clientKey":
		return p.suite.finished(p.cHS, p.T)
	case "serverKey":
		return p.suite.finished(p.sHS, p.T)
	case "wrongTranscript":
		return p.suite.finished(map[bool][]byte{true: p.sHS, false: p.cHS}[server], p.T[:len(p.T)-1])
	}
	return mutBytes(p.finData(server), how)
}

// sendAuth sends Certificate, CertificateVerify and Finished as planned.
func (p *Puppet) sendAuth(a authPlan) {
	chain := id(a.chain).raws()
	switch a.extra {
	case "appendGood":
		chain = append(chain, id("p256").raws()...)
	case "prependOwn":
		chain = append(append([][]byte{}, id("selfSigned").raws()...), chain...)
	case "none":
		chain = nil
	}
	p.SendMsg(hCert, certBody(nil, chain))
	if !a.dropCV {
		sig := mutBytes(refSign(id(a.signer).key, a.scheme, p.cvInputFor(a.signOver, "server")), a.sigMut)
		p.SendMsg(hCV, cvBody(a.scheme, sig))
	}
	p.SendServerFinData(p.finWith(a.fin, true))
}

func (a authPlan) String() string {
	return fmt.Sprintf("%s/%s/%04x/%s/%s/%s/cv=%v/%s", a.chain, a.signer, a.scheme, a.signOver, a.sigMut, a.fin, !a.dropCV, a.extra)
}

// proves reports whether the plan proves possession of the leaf key.
func (a authPlan) proves() bool {
	return !a.dropCV && a.extra == "" && a.signer == a.chain && a.signOver == "right" && a.sigMut == "none" &&
		defaultOffered[a.scheme] && schemeFits(a.scheme, id(a.signer).key)
}

func defaultAuth(name string) authPlan {
	return authPlan{chain: name, signer: name, scheme: defaultScheme(id(name)), signOver: "right", sigMut: "none", fin: "right"}
}

// finishClient drives the client after the server's flight and reports whether
// it completed; when it did, data must flow both ways.
func finishClient(c *Case, e *End, p *Puppet) bool {
	if r := e.Step(); r != hsDone {
		if e.Connected() {
			c.Fail("state", "Handshake reported %v/%v but the state is connected", r, e.Fail)
		}
		return false
	}
	return true
}

func dataBothWays(c *Case, e *End, p *Puppet, tag string) {
	n, err := e.C.Write([]byte("from-mint-" + tag))
	if err != nil || n != len(tag)+10 {
		c.Fail("data", "Write: %d %v", n, err)
	}
	p.Drain()
	if !bytes.HasSuffix(p.App, []byte("from-mint-"+tag)) {
		c.Fail("data", "peer received %q", p.App)
	}
	p.SendApp([]byte("to-mint-" + tag))
	got, err := e.ReadAll(64)
	if err != nil || string(got) != "to-mint-"+tag {
		c.Fail("data", "mint received %q, %v", got, err)
	}
}

type cbMode int

const (
	cbNone cbMode = iota
	cbAccept
	cbReject
)

func callback(m cbMode, seen *[][]byte, chains *int, calls *int) func([][]byte, [][]*x509.Certificate) error {
	if m == cbNone {
		return nil
	}
	return func(raw [][]byte, ch [][]*x509.Certificate) error {
		*calls++
		*seen = raw
		*chains = len(ch)
		if m == cbReject {
			return errors.New("rejected by application")
		}
		return nil
	}
}

func sameChain(a [][]byte, b []*x509.Certificate) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !bytes.Equal(a[i], b[i].Raw) {
			return false
		}
	}
	return true
}

func c01Cert(c *Case, a authPlan, insecure bool, cb cbMode, pskOffered bool, dtls bool) {
	cfg := clientCfg()
	cfg.UseDTLS = dtls
	cfg.InsecureSkipVerify = insecure
	var seen [][]byte
	var nch, calls int
	cfg.VerifyPeerCertificate = callback(cb, &seen, &nch, &calls)
	if pskOffered {
		withClientPSK(cfg, 0x1301, thePSK)
	}
	e := NewEnd(cfg, true)
	p := newPuppet(false, e)
	e.Step()
	p.RecvCH()
	p.SendSH(p.DefaultSH(0x1301, gX25519, false), gX25519)
	p.SendEE(nil)
	p.sendAuth(a)
	want := a.proves() && a.fin == "right" && (insecure || chainValid[a.chain]) && cb != cbReject
	got := finishClient(c, e, p)
	c.Outcome(fmt.Sprintf("cert complete=%v alert=%v", got, e.Fail))
	if got != want {
		c.Fail("auth", "client completed=%v (alert %v), but a server doing %v (insecure=%v callback=%d) must give %v", got, e.Fail, a, insecure, cb, want)
	}
	if got {
		st := e.C.ConnectionState()
		if !sameChain(id(a.chain).raws(), st.PeerCertificates) || st.UsingPSK {
			c.Fail("state", "reported certificates %d, psk %v", len(st.PeerCertificates), st.UsingPSK)
		}
		if !insecure && len(st.VerifiedChains) == 0 || insecure && len(st.VerifiedChains) != 0 {
			c.Fail("state", "verified chains %d with insecure=%v", len(st.VerifiedChains), insecure)
		}
		if cb != cbNone && (calls != 1 || (nch > 0) == insecure || len(seen) != len(id(a.chain).raws())) {
			c.Fail("callback", "called %d times, %d certs, %d chains", calls, len(seen), nch)
		}
		p.RecvClientFlight()
		dataBothWays(c, e, p, "x")
	}
}

// c01PSK: the server claims a pre-shared key.
func c01PSK(c *Case, offered bool, resumption bool, modes []mint.PSKKeyExchangeMode, sel int, withDH bool, key string, fin string, suite uint16, sendCert bool) {
	cfg := clientCfg()
	if offered {
		cfg.PSKs = &mint.PSKMapCache{goodName: mintPSK(0x1301, []byte("psk-id"), thePSK, resumption)}
	}
	cfg.PSKModes = modes
	e := NewEnd(cfg, true)
	p := newPuppet(false, e)
	e.Step()
	p.RecvCH()
	var k []byte
	switch key {
	case "right":
		k = thePSK
	case "wrong":
		k = wrongPSK
	case "zeros":
		k = make([]byte, 32)
	case "empty":
		k = []byte{}
	case "noextract": // the early secret itself is the empty string
		k = nil
	}
	p.UsePSK(k, 0x1301, resumption)
	p.psk = k
	g := uint16(0)
	if withDH {
		g = gX25519
	}
	sh := p.DefaultSH(suite, g, false)
	if sel >= 0 {
		sh.Exts.set(xPSK, []byte{byte(sel >> 8), byte(sel)})
	}
	if key == "noextract" {
		p.nilEarly = true
	}
	p.SendSH(sh, g)
	p.SendEE(nil)
	if sendCert {
		a := defaultAuth("p256")
		a.fin = fin
		p.sendAuth(a)
	} else {
		p.SendServerFinData(p.finWith(fin, true))
	}
	dhe, ke := false, false
	for _, m := range modes {
		dhe = dhe || m == mint.PSKModeDHEKE
		ke = ke || m == mint.PSKModeKE
	}
	want := offered && sel == 0 && key == "right" && fin == "right" && suite == 0x1301 && !sendCert && (withDH && dhe || !withDH && ke)
	if sendCert && sel < 0 && withDH && fin == "right" && key != "noextract" && (suite == 0x1301 || !offered) {
		want = true
	}
	got := finishClient(c, e, p)
	c.Outcome(fmt.Sprintf("psk complete=%v alert=%v", got, e.Fail))
	if got != want {
		c.Fail("psk-auth", "client completed=%v (alert %v), want %v", got, e.Fail, want)
	}
	if got {
		if st := e.C.ConnectionState(); st.UsingPSK == sendCert {
			c.Fail("state", "UsingPSK=%v", st.UsingPSK)
		}
		p.RecvClientFlight()
		dataBothWays(c, e, p, "x")
	}
}

func init() {
	register("C01", "model_checking", func(x *Ctx) {
		x.Rule("one execution of the real client per server behaviour; every combination of at most k deviations from an honest authentication flight over the listed domains; distinct = distinct (outcome, alert) classes")
		x.Assume("the reference signer, verifier and certificate generator (Go standard library crypto) are correct")
		cs := &Cases{}
		maxDev := x.Pick(2, 4)
		add := func(a authPlan, insecure bool, cb cbMode, psk, dtls bool) {
			cs.Add(fmt.Sprintf("cert/%v/insecure=%v/cb=%d/psk=%v/dtls=%v", a, insecure, cb, psk, dtls), func(c *Case) {
				c.States(6)
				c.Transitions(5)
				c.Traces(1)
				c01Cert(c, a, insecure, cb, psk, dtls)
			})
		}
		for _, chain := range chainNames {
			d0 := 0
			if !chainValid[chain] {
				d0 = 1
			}
			def := defaultAuth(chain)
			for _, signer := range []string{chain, "p256", "p384", "rsa", "client"} {
				if signer == def.signer && signer != chain {
					continue
				}
				if signer == chain && signer != def.signer {
					continue
				}
				d1 := d0
				if signer != chain {
					d1++
				}
				for _, sch := range allSchemes {
					d2 := d1
					if sch != defaultScheme(id(signer)) {
						d2++
					}
					for _, over := range signOvers {
						for _, sm := range sigMuts {
							for _, fin := range finMuts {
								d3 := d2
								for _, b := range []bool{over != "right", sm != "none", fin != "right"} {
									if b {
										d3++
									}
								}
								for _, insecure := range []bool{false, true} {
									for _, cb := range []cbMode{cbNone, cbAccept, cbReject} {
										d4 := d3
										if cb != cbAccept {
											d4++
										}
										if d4 > maxDev {
											continue
										}
										a := def
										a.signer, a.scheme, a.signOver, a.sigMut, a.fin = signer, sch, over, sm, fin
										add(a, insecure, cb, false, false)
									}
								}
							}
						}
					}
				}
			}
			for _, insecure := range []bool{false, true} {
				for _, dtls := range []bool{false, true} {
					a := def
					a.dropCV = true
					add(a, insecure, cbNone, false, dtls)
					for _, ex := range []string{"none", "appendGood", "prependOwn"} {
						if ex == "appendGood" || ex == "prependOwn" && chain == "selfSigned" {
							continue
						}
						b := def
						b.extra = ex
						add(b, insecure, cbNone, false, dtls)
						b.dropCV = true
						add(b, insecure, cbNone, false, dtls)
					}
					add(def, insecure, cbReject, true, dtls)
					add(def, insecure, cbAccept, true, dtls)
					for _, f := range finMuts[1:] {
						d := def
						d.fin = f
						add(d, insecure, cbNone, true, dtls)
					}
					if dtls {
						for _, sm := range sigMuts {
							d := def
							d.sigMut = sm
							add(d, insecure, cbNone, false, dtls)
						}
					}
				}
			}
		}
		m := [][]mint.PSKKeyExchangeMode{{mint.PSKModeKE}, {mint.PSKModeDHEKE}, {mint.PSKModeKE, mint.PSKModeDHEKE}}
		for _, offered := range []bool{false, true} {
			for _, res := range []bool{false, true} {
				for mi, modes := range m {
					for _, sel := range []int{-1, 0, 1, 255, 256, 65535} {
						for _, dh := range []bool{false, true} {
							for _, key := range []string{"right", "wrong", "zeros", "empty", "noextract"} {
								for _, fin := range []string{"right", "flipLast", "clientKey", "zeros", "empty"} {
									for _, suite := range []uint16{0x1301, 0x1302} {
										for _, cert := range []bool{false, true} {
											offered, res, modes, sel, dh, key, fin, suite, cert := offered, res, modes, sel, dh, key, fin, suite, cert
											if !x.Thorough() && cert && fin != "right" {
												continue
											}
											cs.Add(fmt.Sprintf("psk/offered=%v/res=%v/modes=%d/sel=%d/dh=%v/key=%s/fin=%s/suite=%04x/cert=%v", offered, res, mi, sel, dh, key, fin, suite, cert), func(c *Case) {
												c.States(5)
												c.Transitions(4)
												c.Traces(1)
												c01PSK(c, offered, res, modes, sel, dh, key, fin, suite, cert)
											})
										}
									}
								}
							}
						}
					}
				}
			}
		}
		x.Run(cs, 0)
	})
}
