package vharness

import (
	"bytes"
	"fmt"

	"github.com/bifurcation/mint"
)

// variant is one kind of handshake between two mint ends.
type variant struct {
	name   string
	dtls   bool
	cr     bool
	psk    bool
	modes  []mint.PSKKeyExchangeMode
	early  bool // the client offers and writes early data
	accept bool // the server allows it
	cookie bool
	alpn   bool
	suite  uint16
	group  mint.NamedGroup
	who    string // server identity
	ticket bool
	stless bool // the server behind a cookie is non-blocking and stateless
}

func (v variant) cfgs() (cc, sc *mint.Config) {
	who := v.who
	if who == "" {
		who = "p256"
	}
	cc, sc = clientCfg(), serverCfg(who)
	cc.UseDTLS, sc.UseDTLS = v.dtls, v.dtls
	if v.group != 0 {
		cc.Groups, sc.Groups = []mint.NamedGroup{v.group}, []mint.NamedGroup{v.group}
	}
	suite := v.suite
	if suite == 0 {
		suite = 0x1301
	} else {
		cc.CipherSuites = []mint.CipherSuite{mint.CipherSuite(suite)}
	}
	if v.cr {
		sc.RequireClientAuth = true
		cc.Certificates = mintCerts("client")
	}
	if v.psk {
		withClientPSK(cc, suite, thePSK, v.modes...)
		if len(v.modes) > 0 {
			sc.PSKModes = v.modes
		}
		sc.PSKs = &mint.PSKMapCache{hexOf([]byte("psk-id")): mintPSK(suite, []byte("psk-id"), thePSK, false)}
	}
	cc.AllowEarlyData = v.early
	sc.AllowEarlyData = v.accept
	if v.cookie {
		sc.RequireCookie = true
		sc.CookieProtector = fixedProtector()
	}
	if v.alpn {
		cc.NextProtos = []string{"h2", "http/1.1"}
		sc.NextProtos = []string{"http/1.1", "h2"}
	}
	sc.SendSessionTickets = v.ticket
	return
}

// hsVariants lists the handshake variants of one transport.
func hsVariants(dtls bool) []variant {
	dhe := []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE}
	ke := []mint.PSKKeyExchangeMode{mint.PSKModeKE}
	vs := []variant{
		{name: "cert"},
		{name: "cert-p256-1302", suite: 0x1302, group: mint.P256, who: "p384"},
		{name: "cert-rsa", who: "rsa"},
		{name: "cert-alpn", alpn: true},
		{name: "cert-cr", cr: true},
		{name: "cert-cookie", cookie: true},
		{name: "cert-cr-cookie", cr: true, cookie: true, alpn: true},
		{name: "psk-dhe", psk: true, modes: dhe},
		{name: "psk-ke", psk: true, modes: ke},
		{name: "psk-alpn", psk: true, alpn: true},
		{name: "psk-cookie", psk: true, cookie: true},
	}
	if !dtls {
		vs = append(vs,
			variant{name: "psk-early", psk: true, early: true, accept: true},
			variant{name: "psk-early-alpn", psk: true, early: true, accept: true, alpn: true},
			variant{name: "psk-early-rejected", psk: true, early: true})
	}
	for i := range vs {
		vs[i].dtls = dtls
		if dtls {
			vs[i].name = "dtls/" + vs[i].name
		} else {
			vs[i].name = "tls/" + vs[i].name
		}
	}
	return vs
}

func variantByName(n string) variant {
	for _, d := range []bool{false, true} {
		for _, v := range hsVariants(d) {
			if v.name == n {
				return v
			}
		}
	}
	panic("no variant " + n)
}

var earlyMsg = []byte("early bird")

// drive runs a pair to quiescence with net deciding what arrives for each
// transport write (nil: faithful network).  Writes are numbered per direction.
type driven struct {
	p        *Pair
	c, s     hsResult
	nC, nS   int
	net      func(fromClient bool, n int, b []byte) [][]byte
	early    bool
	earlyErr error
	cPump    func()
}

func (d *driven) shuttle() bool {
	moved := false
	for _, dir := range []bool{true, false} {
		src, dst := d.p.C, d.p.S
		if !dir {
			src, dst = dst, src
		}
		for _, b := range src.W.take() {
			moved = true
			n := &d.nC
			if !dir {
				n = &d.nS
			}
			out := [][]byte{b}
			if d.net != nil {
				out = d.net(dir, *n, b)
			}
			*n++
			for _, o := range out {
				dst.W.feed(o)
			}
		}
	}
	return moved
}

func (d *driven) run() {
	wrote := false
	for i := 0; i < 200; i++ {
		if d.c == hsBlocked {
			d.c = d.p.C.Step()
		}
		if d.early && !wrote {
			wrote = true
			_, d.earlyErr = d.p.C.C.Write(earlyMsg)
		}
		m := d.shuttle()
		if d.s == hsBlocked {
			d.s = d.p.S.Step()
		}
		if !d.shuttle() && !m {
			return
		}
	}
	panic("pair does not quiesce")
}

func runVariant(v variant, net func(fromClient bool, n int, b []byte) [][]byte) *driven {
	cc, sc := v.cfgs()
	d := &driven{p: NewPair(cc, sc), net: net, early: v.early}
	d.run()
	return d
}

// agree compares what two completed ends report.
func (d *driven) agree(v variant) error {
	a, b := d.p.C.C.ConnectionState(), d.p.S.C.ConnectionState()
	if a.CipherSuite.Suite != b.CipherSuite.Suite {
		return fmt.Errorf("cipher suites differ: %v %v", a.CipherSuite.Suite, b.CipherSuite.Suite)
	}
	if a.NextProto != b.NextProto {
		return fmt.Errorf("protocols differ: %q %q", a.NextProto, b.NextProto)
	}
	if a.UsingPSK != b.UsingPSK {
		return fmt.Errorf("PSK use differs: %v %v", a.UsingPSK, b.UsingPSK)
	}
	if a.UsingEarlyData != b.UsingEarlyData {
		return fmt.Errorf("early data use differs: %v %v", a.UsingEarlyData, b.UsingEarlyData)
	}
	for _, l := range []string{"x", "EXPORTER-test"} {
		x, e1 := d.p.C.C.ComputeExporter(l, []byte("ctx"), 40)
		y, e2 := d.p.S.C.ComputeExporter(l, []byte("ctx"), 40)
		if e1 != nil || e2 != nil || !bytes.Equal(x, y) {
			return fmt.Errorf("exported keys differ: %x %x %v %v", x, y, e1, e2)
		}
	}
	if v.psk && !a.UsingPSK {
		return fmt.Errorf("the pre-shared key was not used")
	}
	return nil
}

// echo sends data both ways over two completed ends and checks it.
func (d *driven) echo(early []byte) error {
	for i, dir := range []bool{true, false} {
		src, dst := d.p.C, d.p.S
		if !dir {
			src, dst = dst, src
		}
		msg := []byte(fmt.Sprintf("message %d", i))
		if n, err := src.C.Write(msg); n != len(msg) || err != nil {
			return fmt.Errorf("write: %d %v", n, err)
		}
		d.shuttle()
		got, err := dst.ReadAll(100)
		want := msg
		if dir {
			want = append(append([]byte{}, early...), msg...)
		}
		if err != nil || !bytes.Equal(got, want) {
			return fmt.Errorf("read %q (%v), want %q", got, err, want)
		}
	}
	return nil
}
