//go:build vsched

package vharness

import (
	"bytes"
	"crypto/x509"
	"fmt"
	"reflect"
	"strings"

	"github.com/bifurcation/mint"
	"github.com/bifurcation/mint/vsched"
)

// A c20Kind is one connection on a shared configuration, in one role, with a
// peer of its own.
type c20Kind struct {
	name   string
	client bool // the role of the shared configuration
	peer   func(p *mint.Config)
	forget bool // the peer has no tickets
	stop   int  // the peer goes away after so many transport writes of ours
	tamper int  // the peer's write of this number (from 1) is damaged
	early  bool
	clone  bool // runs on a clone
	block  bool // blocking, as a server
}

func c20Kinds() (clients, servers []c20Kind) {
	x := []mint.NamedGroup{mint.X25519}
	add := func(name string, f func(p *mint.Config), m func(k *c20Kind)) {
		for _, client := range []bool{true, false} {
			k := c20Kind{name: name, client: client, peer: f}
			if m != nil {
				m(&k)
			}
			if client {
				clients = append(clients, k)
			} else {
				servers = append(servers, k)
			}
		}
	}
	_ = x
	add("plain", func(p *mint.Config) {}, nil)
	add("1302", func(p *mint.Config) { p.CipherSuites = []mint.CipherSuite{0x1302} }, nil)
	add("p384", func(p *mint.Config) { p.Groups = []mint.NamedGroup{mint.P384} }, nil)
	add("alpn", func(p *mint.Config) { p.NextProtos = []string{"http/1.1"} }, nil)
	add("alpn2", func(p *mint.Config) { p.NextProtos = []string{"h2", "http/1.1"} }, nil)
	add("auth", func(p *mint.Config) { p.RequireClientAuth = true }, nil)
	add("early", func(p *mint.Config) { p.AllowEarlyData = true; p.EarlyDataLifetime = 1000 }, func(k *c20Kind) { k.early = true })
	add("forget", func(p *mint.Config) {}, func(k *c20Kind) { k.forget = true })
	add("ke", func(p *mint.Config) { p.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeKE} }, nil)
	add("stop1", func(p *mint.Config) {}, func(k *c20Kind) { k.stop = 1 })
	add("tamper", func(p *mint.Config) {}, func(k *c20Kind) { k.tamper = 2 })
	add("nosuite", func(p *mint.Config) { p.CipherSuites = []mint.CipherSuite{0x1303} }, nil)
	add("clone", func(p *mint.Config) {}, func(k *c20Kind) { k.clone = true })
	clients = append(clients,
		c20Kind{name: "cookie", client: true, peer: func(p *mint.Config) { p.RequireCookie = true; p.CookieProtector = fixedProtector() }},
		c20Kind{name: "wrongname", client: true, peer: func(p *mint.Config) { p.Certificates = mintCerts("wrongName") }},
		c20Kind{name: "rsa", client: true, peer: func(p *mint.Config) { p.Certificates = mintCerts("rsa") }},
	)
	servers = append(servers,
		c20Kind{name: "rsa", peer: func(p *mint.Config) { p.SignatureSchemes = []mint.SignatureScheme{mint.RSA_PSS_SHA256} }},
		c20Kind{name: "cert", peer: func(p *mint.Config) { p.Certificates = mintCerts("client") }},
		c20Kind{name: "noscheme", peer: func(p *mint.Config) { p.SignatureSchemes = []mint.SignatureScheme{mint.ECDSA_P521_SHA512} }},
	)
	return
}

// roomy makes slices whose arrays go on beyond them: nobody may write there.
func roomy[T any](l ...T) []T { return append(make([]T, 0, len(l)+4), l...) }

func c20Config(name string, dtls bool) *mint.Config {
	cfg := &mint.Config{ServerName: goodName, RootCAs: thePKI().pool, Time: nowFixed, NonBlocking: true, UseDTLS: dtls,
		Certificates: mintCerts("p256", "rsa"), SendSessionTickets: true, TicketLifetime: 1000}
	switch name {
	case "bare":
		cfg.Groups = roomy(mint.X25519)
	case "defaults":
	case "full":
		cfg.CipherSuites = roomy(mint.TLS_AES_128_GCM_SHA256, mint.TLS_AES_256_GCM_SHA384)
		cfg.Groups = roomy(mint.X25519, mint.P384)
		cfg.SignatureSchemes = roomy(mint.ECDSA_P256_SHA256, mint.RSA_PSS_SHA256, mint.ECDSA_P384_SHA384)
		cfg.NextProtos = roomy("http/1.1", "h2")
		cfg.PSKModes = roomy(mint.PSKModeDHEKE, mint.PSKModeKE)
		cfg.AllowEarlyData = true
		cfg.EarlyDataLifetime = 1000
		cfg.TicketLen = 20
		cfg.PSKs = &mint.PSKMapCache{}
	case "psk":
		cfg.Groups = roomy(mint.X25519, mint.P256)
		cfg.CipherSuites = roomy(mint.TLS_AES_128_GCM_SHA256, mint.TLS_AES_256_GCM_SHA384)
		cfg.PSKs = &mint.PSKMapCache{
			goodName:                mintPSK(0x1302, []byte("psk-id"), thePSK, false),
			hexOf([]byte("psk-id")): mintPSK(0x1302, []byte("psk-id"), thePSK, false)}
	case "strict":
		cfg.Groups = roomy(mint.X25519, mint.P256)
		cfg.RequireClientAuth = true
		cfg.RequireCookie = true
		cfg.CookieProtector = fixedProtector()
	case "cookie-default":
		cfg.Groups = roomy(mint.X25519)
		cfg.RequireCookie = true
		cfg.NonBlocking = false
	}
	return cfg
}

// stores: the tickets a configuration, or its peers, have.
func c20Copy(s mint.PreSharedKeyCache) mint.PreSharedKeyCache {
	if s == nil || reflect.ValueOf(s).IsNil() {
		return nil
	}
	m, ok := s.(*mint.PSKMapCache)
	if !ok {
		panic(fmt.Sprintf("PSK cache of type %T", s))
	}
	n := mint.PSKMapCache{}
	for k, v := range *m {
		n[k] = v
	}
	return &n
}

func c20Peer(k c20Kind, dtls bool, store mint.PreSharedKeyCache) *mint.Config {
	var p *mint.Config
	if k.client {
		p = serverCfg("p256")
		p.Groups = []mint.NamedGroup{mint.X25519, mint.P384, mint.P256}
		p.SendSessionTickets = true
		p.TicketLifetime = 1000
	} else {
		p = clientCfg()
	}
	p.UseDTLS = dtls
	p.PSKs = store
	if k.forget {
		p.PSKs = &mint.PSKMapCache{}
	}
	k.peer(p)
	return p
}

func c20Norm(w *strings.Builder, b []byte, dtls bool) {
	hl, mh := 5, 4
	if dtls {
		hl, mh = 13, 12
	}
	if len(b) < hl+mh || b[0] != 22 || (b[hl] != 1 && b[hl] != 2) || (dtls && (b[3] != 0 || b[4] != 0)) {
		return
	}
	n := int(b[hl-2])<<8 | int(b[hl-1])
	if len(b) < hl+n || n < mh {
		return
	}
	body := b[hl+mh : hl+n]
	exts := func(l Exts) {
		for _, x := range l {
			fmt.Fprintf(w, " %d", x.T)
			switch x.T {
			case xKeyShare:
				d := x.D
				if b[hl] == 1 && len(d) >= 2 {
					d = d[2:]
				}
				for len(d) >= 2 {
					fmt.Fprintf(w, "(%x)", d[:2])
					if len(d) < 4 {
						break
					}
					m := 4 + int(d[2])<<8 + int(d[3])
					if m > len(d) {
						break
					}
					d = d[m:]
				}
			case xPSK:
				if b[hl] == 2 {
					fmt.Fprintf(w, "=%x", x.D)
				} else {
					fmt.Fprintf(w, "[%d]", len(x.D))
				}
			case xCookie:
				// random
			default:
				fmt.Fprintf(w, "=%x", x.D)
			}
		}
	}
	if b[hl] == 1 {
		ch, err := parseCH(body, dtls)
		if err != nil {
			fmt.Fprintf(w, "CH? %v\n", err)
			return
		}
		fmt.Fprintf(w, "CH %x sid=%d %x", ch.Version, len(ch.SID), ch.Suites)
		exts(ch.Exts)
	} else {
		sh, err := parseSH(body)
		if err != nil {
			fmt.Fprintf(w, "SH? %v\n", err)
			return
		}
		fmt.Fprintf(w, "SH %x %x", sh.Version, sh.Suite)
		exts(sh.Exts)
	}
	fmt.Fprintln(w)
}

// c20Conn runs a connection of kind k on cfg and tells all there is to see.
func c20Conn(k c20Kind, cfg *mint.Config, peer *mint.Config) string {
	w := &strings.Builder{}
	dtls := cfg.UseDTLS
	if k.clone {
		cfg = cfg.Clone()
	}
	ours, theirs := NewEnd(cfg, k.client), NewEnd(peer, !k.client)
	wrote, peerWrote := 0, 0
	gone := false
	shuttle := func() bool {
		moved := false
		for _, b := range ours.W.take() {
			moved = true
			if wrote++; k.stop > 0 && wrote > k.stop {
				gone = true
			}
			if wrote < 4 {
				c20Norm(w, b, dtls)
			}
			if !gone {
				theirs.W.feed(b)
			}
		}
		for _, b := range theirs.W.take() {
			moved = true
			if peerWrote++; peerWrote < 4 {
				c20Norm(w, b, dtls)
			}
			if gone {
				continue
			}
			if peerWrote == k.tamper {
				b = append([]byte{}, b...)
				b[len(b)-1] ^= 4
			}
			ours.W.feed(b)
		}
		return moved
	}
	var r, pr hsResult
	early := false
	step := func(e *End, res *hsResult) {
		if *res == hsBlocked {
			*res = e.Step()
		}
		if e.IsClient && k.early && !early && e.C.Writable() && !e.Connected() {
			early = true
			_, err := e.C.Write(earlyMsg)
			fmt.Fprintf(w, "early write: %v\n", err)
		}
	}
	if !cfg.NonBlocking {
		ours.W.onEmpty = func() bool {
			a := shuttle()
			step(theirs, &pr)
			return shuttle() || a
		}
	}
	for i := 0; i < 60; i++ {
		step(ours, &r)
		m := shuttle()
		step(theirs, &pr)
		if !shuttle() && !m && i > 2 {
			break
		}
	}
	ours.W.onEmpty = nil
	fmt.Fprintf(w, "results %v %v %v %v, retries %d %d\n", r, ours.Fail, pr, theirs.Fail, ours.Retries, theirs.Retries)
	for _, e := range []*End{ours, theirs} {
		s := e.C.ConnectionState()
		var leaf []byte
		if len(s.PeerCertificates) > 0 {
			leaf = s.PeerCertificates[0].SerialNumber.Bytes()
		}
		fmt.Fprintf(w, "state %v suite %x alpn %q psk %v early %v certs %d %x chains %d\n", s.HandshakeState, s.CipherSuite.Suite, s.NextProto, s.UsingPSK, s.UsingEarlyData, len(s.PeerCertificates), leaf, len(s.VerifiedChains))
	}
	if r == hsDone && pr == hsDone {
		a, e1 := ours.C.ComputeExporter("x", nil, 32)
		b, e2 := theirs.C.ComputeExporter("x", nil, 32)
		fmt.Fprintf(w, "exporters agree: %v\n", e1 == nil && e2 == nil && bytes.Equal(a, b))
		for i, e := range []*End{ours, theirs} {
			o := []*End{theirs, ours}[i]
			_, err := e.C.Write([]byte("data"))
			shuttle()
			buf := make([]byte, 100)
			got := ""
			for j := 0; j < 10 && o.W.pending()+9-j > 0; j++ {
				if o == ours && !cfg.NonBlocking && o.W.pending() == 0 && got != "" {
					break
				}
				n, err := o.C.Read(buf)
				got += string(buf[:n])
				if strings.HasSuffix(got, "data") {
					break
				}
				if err != nil && err != mint.AlertWouldBlock {
					fmt.Fprintf(w, "read error %v\n", err)
					break
				}
			}
			fmt.Fprintf(w, "wrote %v, read %q\n", err, got)
			shuttle()
		}
	}
	return w.String()
}

// ---- what a configuration says ----------------------------------------------

type c20Snap map[string]interface{}

// c20Fields takes down the exported fields of a configuration.
func c20Fields(cfg *mint.Config) c20Snap {
	s := c20Snap{}
	v := reflect.ValueOf(cfg).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.PkgPath != "" {
			continue
		}
		x := v.Field(i)
		switch x.Kind() {
		case reflect.Func:
			s[f.Name] = x.Pointer()
		case reflect.Slice:
			c := reflect.MakeSlice(x.Type(), x.Len(), x.Len())
			reflect.Copy(c, x)
			s[f.Name] = c.Interface()
			// and what lies beyond it
			for j := x.Len(); j < x.Cap() && j < x.Len()+16; j++ {
				if !x.Slice(0, j+1).Index(j).IsZero() {
					s[f.Name+" beyond"] = x.Slice(0, j+1).Index(j).Interface()
				}
			}
			if f.Name == "Certificates" {
				var l []mint.Certificate
				for _, p := range cfg.Certificates {
					l = append(l, mint.Certificate{Chain: append([]*x509.Certificate{}, p.Chain...), PrivateKey: p.PrivateKey})
				}
				s["Certificates content"] = l
			}
		case reflect.Interface:
			if x.IsNil() {
				s[f.Name] = nil
			} else {
				s[f.Name] = fmt.Sprintf("%T %p", x.Interface(), x.Interface())
			}
		default:
			s[f.Name] = x.Interface()
		}
	}
	return s
}

// c20Changed compares two snapshots: the zero values of the first may have been
// filled in if fill is set.
func c20Changed(a, b c20Snap, fill bool) string {
	for k, y := range b {
		x, had := a[k]
		if reflect.DeepEqual(x, y) {
			continue
		}
		if fill && had && (x == nil || reflect.ValueOf(x).IsZero() || (reflect.ValueOf(x).Kind() == reflect.Slice && reflect.ValueOf(x).Len() == 0)) {
			continue
		}
		return fmt.Sprintf("%s was %v and is %v", k, x, y)
	}
	return ""
}

func c20First(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			x := "(nothing)"
			if i < len(lb) {
				x = lb[i]
			}
			return fmt.Sprintf("%q, not %q", la[i], x)
		}
	}
	return "less"
}

func c20History(c *Case, conf string, dtls bool, kinds []c20Kind) {
	cfg := c20Config(conf, dtls)
	before := c20Fields(cfg)
	var filled c20Snap
	stores := map[bool]mint.PreSharedKeyCache{true: &mint.PSKMapCache{}, false: &mint.PSKMapCache{}}
	if conf == "psk" {
		for _, b := range []bool{true, false} {
			stores[b] = c20Copy(cfg.PSKs)
		}
	}
	for i, k := range kinds {
		own := c20Config(conf, dtls)
		own.PSKs = c20Copy(cfg.PSKs)
		if filled != nil {
			if own.PSKs == nil && cfg.PSKs != nil {
				c.Fail("harness", "store")
			}
		}
		want := c20Conn(k, own, c20Peer(k, dtls, c20Copy(stores[k.client])))
		got := c20Conn(k, cfg, c20Peer(k, dtls, stores[k.client]))
		if got != want {
			c.Fail("affected", "connection %d (%s) of %v, on a shared configuration: %s", i, k.name, kindNames(kinds), c20First(got, want))
		}
		now := c20Fields(cfg)
		if d := c20Changed(before, now, true); d != "" {
			c.Fail("config", "after connection %d of %v: %s", i, kindNames(kinds), d)
		}
		if filled != nil && !k.clone && filled["PSKs"] != nil {
			if d := c20Changed(filled, now, false); d != "" {
				c.Fail("config", "after connection %d of %v: %s", i, kindNames(kinds), d)
			}
		}
		if !k.clone {
			filled = now
		}
		c.Outcome(got[:strings.Index(got+"results", "results")] + conf)
		c.States(1)
		c.Transitions(1)
	}
	// a clone is the same
	if d := c20Changed(c20Fields(cfg), c20Fields(cfg.Clone()), false); d != "" {
		c.Fail("clone", "the clone differs: %s", d)
	}
	c.Traces(1)
}

func kindNames(l []c20Kind) (n []string) {
	for _, k := range l {
		r := "server"
		if k.client {
			r = "client"
		}
		n = append(n, r+":"+k.name)
	}
	return
}

// ---- at once ------------------------------------------------------------

func c20Scen(conf string, dtls bool, pre []c20Kind, kinds ...c20Kind) scen {
	name := fmt.Sprintf("%s/dtls=%v/%v/%v", conf, dtls, kindNames(pre), kindNames(kinds))
	// What each may show: as alone, or as after any of the others.
	type peers map[bool]mint.PreSharedKeyCache
	setup := func() (*mint.Config, peers) {
		cfg := c20Config(conf, dtls)
		st := peers{true: &mint.PSKMapCache{}, false: &mint.PSKMapCache{}}
		if conf == "psk" {
			st[true], st[false] = c20Copy(cfg.PSKs), c20Copy(cfg.PSKs)
		}
		for _, k := range pre {
			c20Conn(k, cfg, c20Peer(k, dtls, st[k.client]))
		}
		return cfg, st
	}
	var allowed []map[string]bool
	prepare := func() {
		l := make([]map[string]bool, len(kinds))
		for i, k := range kinds {
			l[i] = map[string]bool{}
			for j := -1; j < 2*len(kinds)+1; j++ {
				cfg, st := setup()
				own := c20Config(conf, dtls)
				n := j
				if j >= len(kinds) {
					// some other has got as far as filling in the defaults before
					cfg.Init(k.client)
					n = j - len(kinds) - 1
				}
				if n == i {
					continue
				}
				if n >= 0 {
					c20Conn(kinds[n], cfg, c20Peer(kinds[n], dtls, c20Copy(st[kinds[n].client])))
				}
				own.PSKs = c20Copy(cfg.PSKs)
				l[i][c20Conn(k, own, c20Peer(k, dtls, c20Copy(st[k.client])))] = true
			}
		}
		allowed = l
	}
	ready := make(chan bool, 1)
	ready <- true
	build := func(c *Case) (threads []func(), check func(ex *vsched.Exec)) {
		<-ready
		if allowed == nil {
			prepare()
		}
		ready <- true
		cfg, st := setup()
		before := c20Fields(cfg)
		got := make([]string, len(kinds))
		for i, k := range kinds {
			i, k := i, k
			peer := c20Peer(k, dtls, c20Copy(st[k.client]))
			threads = append(threads, func() { got[i] = c20Conn(k, cfg, peer) })
		}
		check = func(ex *vsched.Exec) {
			for i := range kinds {
				if !allowed[i][got[i]] {
					for w := range allowed[i] {
						c.Fail("affected", "%s among %v: %s", kinds[i].name, kindNames(kinds), c20First(got[i], w))
					}
				}
			}
			if d := c20Changed(before, c20Fields(cfg), true); d != "" {
				c.Fail("config", "%s", d)
			}
			c.Outcome("as alone")
		}
		return
	}
	return scen{name: name, build: build, bound: 1, deep: 2, parts: 4}
}

func init() {
	register("C20", "model_checking", func(x *Ctx) {
		x.Rule("all sequences of connections of different kinds (roles, suites, groups with and without retry, protocols, client authentication, cookies, resumption, early data, clones, failures at several points, abandonment) on one configuration object: each is compared, message by message as far as they are in the clear, and in results, alerts, reported state and data, with the same connection on a copy of its own; and every schedule, up to a bound of preemptions where shared things are touched, of two such connections at once, judged the same way and by the race detector; the configuration stays what it was but for defaults")
		clients, servers := c20Kinds()
		both := append(append([]c20Kind{}, clients...), servers...)
		cs := &Cases{}
		addAll := func(conf string, dtls bool, kinds []c20Kind, n int) {
			for i := range kinds {
				for j := range kinds {
					i, j := i, j
					cs.Add(fmt.Sprintf("history/%s/dtls=%v/%d/%v", conf, dtls, n, kindNames([]c20Kind{kinds[i], kinds[j]})), func(c *Case) {
						if n == 2 {
							c20History(c, conf, dtls, []c20Kind{kinds[i], kinds[j]})
							return
						}
						for k := range kinds {
							if n == 3 {
								c20History(c, conf, dtls, []c20Kind{kinds[i], kinds[j], kinds[k]})
								c.Count(1)
								continue
							}
							for l := range kinds {
								c20History(c, conf, dtls, []c20Kind{kinds[i], kinds[j], kinds[k], kinds[l]})
								c.Count(1)
							}
						}
					})
				}
			}
		}
		for _, dtls := range []bool{false, true} {
			for _, conf := range []string{"bare", "full", "psk", "strict"} {
				n := 3
				if dtls && !x.Thorough() {
					n = 2
				}
				addAll(conf, dtls, clients, n)
				addAll(conf, dtls, servers, n)
				addAll(conf, dtls, both, x.Pick(2, 3))
			}
			addAll("defaults", dtls, both, 2)
		}
		pick := func(l []c20Kind, names ...string) (o []c20Kind) {
			for _, n := range names {
				for _, k := range l {
					if k.name == n {
						o = append(o, k)
					}
				}
			}
			return
		}
		var scens []scen
		for _, dtls := range []bool{false, true} {
			for _, conf := range []string{"bare", "full", "psk", "strict"} {
				if dtls && conf != "full" && !x.Thorough() {
					continue
				}
				cl := pick(clients, "plain", "1302", "p384", "alpn", "tamper", "early", "clone")
				sv := pick(servers, "plain", "1302", "p384", "alpn", "rsa", "early", "clone")
				for _, l := range [][]c20Kind{cl, sv} {
					for i := range l {
						for j := i; j < len(l); j++ {
							if i > 0 && j != i && (i+j)%3 != 0 && !x.Thorough() {
								continue
							}
							scens = append(scens, c20Scen(conf, dtls, nil, l[i], l[j]))
						}
					}
					p := pick(l, "plain")
					scens = append(scens, c20Scen(conf, dtls, p, pick(l, "plain")[0], pick(l, "plain")[0]))
					scens = append(scens, c20Scen(conf, dtls, p, pick(l, "early")[0], pick(l, "1302")[0]))
				}
				scens = append(scens, c20Scen(conf, dtls, nil, cl[0], sv[0]), c20Scen(conf, dtls, nil, cl[1], sv[3]))
			}
		}
		// servers that make up their own cookie protection
		for _, l := range [][2]string{{"plain", "plain"}, {"1302", "plain"}, {"clone", "plain"}, {"p384", "alpn"}} {
			scens = append(scens, c20Scen("cookie-default", false, nil, pick(servers, l[0])[0], pick(servers, l[1])[0]))
		}
		if !isChild() {
			x.Run(cs, 0)
		}
		concurrent(x, scens)
	})
}
