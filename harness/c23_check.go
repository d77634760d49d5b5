package vharness

import (
	"bytes"
	"crypto"
	"fmt"
	"math/big"
	"time"

	"github.com/bifurcation/mint"
)

// C23: keys and exported secrets follow the key schedule.

type c23Opt struct {
	dtls, client bool
	suite, group uint16
	mode         string // "cert", "psk" (with DH), "psk-ke", "ticket", "ticket-ke"
	retry, cr    bool
	early        string // "", "accept", "reject"
	psk          []byte
	idLen        int                // of the PSK identity, if it is not the usual one
	pick         func(k int) *refKE // the reference peer's share
	poke         func(stage string, e *End, p *Puppet)
	chMut        func(ch *CHello)
	blocking     bool
}

func (o c23Opt) String() string {
	s := fmt.Sprintf("dtls=%v/client=%v/%04x/g%d/%s/retry=%v/cr=%v/early=%s/psk%d", o.dtls, o.client, o.suite, o.group, o.mode, o.retry, o.cr, o.early, len(o.psk))
	if o.idLen > 0 {
		s += fmt.Sprintf("/id%d", o.idLen)
	}
	return s
}

func (o c23Opt) ident() []byte {
	if o.idLen > 0 {
		return bytes.Repeat(patBytes[0][:16], o.idLen/16+1)[:o.idLen]
	}
	return []byte("psk-id")
}

func (o c23Opt) usesPSK() bool { return o.mode != "cert" }
func (o c23Opt) res() bool     { return o.mode == "ticket" || o.mode == "ticket-ke" }
func (o c23Opt) dh() bool      { return o.mode != "psk-ke" && o.mode != "ticket-ke" }
func (o c23Opt) modes() []mint.PSKKeyExchangeMode {
	if o.dh() {
		return []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE}
	}
	return []mint.PSKKeyExchangeMode{mint.PSKModeKE}
}

var c23Resume = []byte("resumption pre-shared key")

// c23Hs runs the handshake of a real end with the reference peer, which
// verifies Finished, binders and signatures and decrypts everything with keys
// of its own schedule.
func c23Hs(c *Case, o c23Opt) (e *End, p *Puppet) {
	key := o.psk
	if key == nil {
		key = thePSK
	}
	early := []byte("early data of the client")
	poke := func(stage string) {
		if o.poke != nil {
			o.poke(stage, e, p)
		}
	}
	if o.client {
		cfg := clientCfg()
		cfg.UseDTLS = o.dtls
		cfg.CipherSuites = []mint.CipherSuite{mint.CipherSuite(o.suite)}
		cfg.Groups = []mint.NamedGroup{mint.NamedGroup(o.group)}
		cfg.AllowEarlyData = o.early != ""
		if o.cr {
			cfg.Certificates = mintCerts("client")
		}
		if o.usesPSK() {
			cfg.PSKs = &mint.PSKMapCache{goodName: mintPSK(o.suite, o.ident(), key, o.res())}
			cfg.PSKModes = o.modes()
		}
		e = NewEnd(cfg, true)
		p = newPuppet(false, e)
		poke("start")
		e.Step()
		if o.early != "" {
			if n, err := e.C.Write(early); n != len(early) || err != nil {
				c.Fail("early", "%d %v", n, err)
			}
		}
		p.RecvCH()
		binder := func() {
			if !o.usesPSK() {
				return
			}
			p.UsePSK(key, o.suite, o.res())
			if err := p.BinderOK(); err != nil {
				c.Fail("binder", "%v", err)
			}
		}
		binder()
		poke("hello")
		if o.retry {
			p.SendHRR(o.suite, hrrExts([]byte("cookie")))
			e.Step()
			for len(p.rx) > 5 && p.rx[0] == rtApp { // early data a retry makes void
				n := int(p.rx[3])<<8 | int(p.rx[4])
				p.rx = p.rx[5+n:]
			}
			p.RecvCH()
			binder()
			poke("hello2")
		}
		group := o.group
		if !o.dh() {
			group = 0
		}
		if o.pick != nil {
			p.ke[group] = o.pick(0)
		}
		p.SendSH(p.DefaultSH(o.suite, group, o.usesPSK()), group)
		poke("sh")
		var ee Exts
		if o.early == "accept" {
			ee.set(xEarly, nil)
		}
		p.SendEE(ee)
		poke("ee")
		if !o.usesPSK() {
			if o.cr {
				p.SendCR([]uint16{0x0403})
			}
			p.sendAuth(defaultAuth("p256"))
		} else {
			p.SendServerFin()
		}
		if r := e.Step(); r != hsDone {
			c.Fail("handshake", "client %v %v", r, e.Fail)
		}
		poke("done")
		p.earlyAccepted = o.early == "accept"
		if o.early == "reject" && !o.retry {
			p.skipEarly()
		}
		p.RecvClientFlight()
		if o.early == "accept" && !bytes.Equal(p.Early, early) && o.poke == nil {
			c.Fail("early", "the server received %q", p.Early)
		}
	} else {
		cfg := serverCfg("p256")
		cfg.UseDTLS = o.dtls
		cfg.CipherSuites = []mint.CipherSuite{mint.CipherSuite(o.suite)}
		cfg.Groups = []mint.NamedGroup{mint.NamedGroup(o.group)}
		cfg.AllowEarlyData = o.early == "accept"
		cfg.RequireClientAuth = o.cr
		cfg.RequireCookie = o.retry
		cfg.CookieProtector = fixedProtector()
		cfg.SendSessionTickets = true
		if o.usesPSK() {
			cfg.PSKs = &mint.PSKMapCache{hexOf(o.ident()): mintPSK(o.suite, o.ident(), key, o.res())}
			cfg.PSKModes = o.modes()
		}
		e = NewEnd(cfg, false)
		p = newPuppet(true, e)
		poke("start")
		h := defaultCH()
		h.mut = o.chMut
		h.Suites = []uint16{o.suite}
		h.Groups, h.Shares = []uint16{o.group}, []uint16{o.group}
		if o.pick != nil {
			p.ke[o.group] = o.pick(0)
		}
		if o.usesPSK() {
			h.PSKIDs = []pskID{{o.ident(), 7}}
			h.PSKKeys = [][]byte{key}
			h.PSKSuites = []uint16{o.suite}
			h.PSKRes = []bool{o.res()}
			h.Modes = []int{1}
			if !o.dh() {
				h.Modes = []int{0}
			}
			h.Early = o.early != ""
		}
		p.SendCH(h)
		if o.early != "" {
			p.SendApp(early)
		}
		e.Step()
		if o.retry {
			var retry bool
			retry, h.Cookie = p.RecvSH()
			if !retry {
				c.Fail("retry", "no retry")
			}
			poke("hrr")
			h.Early = false
			p.out = nil
			p.SendCH(h)
			e.Step()
		}
		p.RecvSH()
		if p.Group != 0 != o.dh() || (p.psk != nil) != o.usesPSK() {
			c.Fail("mode", "group %d psk %v", p.Group, p.psk != nil)
		}
		poke("sh")
		p.RecvServerFlight()
		poke("flight")
		p.earlyAccepted = o.early == "accept"
		if o.cr && o.mode == "cert" {
			p.SendClientFlight(id("client"))
		} else {
			p.SendClientFlight(nil)
		}
		if r := e.Step(); r != hsDone {
			c.Fail("handshake", "server %v %v", r, e.Fail)
		}
		poke("done")
		p.Drain()
		if o.early == "accept" {
			got, err := e.ReadAll(100)
			if !bytes.Equal(got, early) || err != nil {
				c.Fail("early", "the server read %q, %v", got, err)
			}
		}
	}
	return
}

// c23Labels x c23Contexts x c23Lengths is the grid of exporter inputs.
var c23Labels = func() (out []string) {
	out = []string{"a", "b", "ab", "EXPORTER-Channel-Binding", "EXPORTER-Channel-Bindinh", "exporter", "derived", "c ap traffic", "tls13 a", "\x00", "\xff\xfe"}
	for _, n := range []int{31, 32, 63, 64, 121, 122, 248, 249} {
		out = append(out, string(bytes.Repeat([]byte{'L'}, n)))
	}
	return
}()

func c23Contexts() (out [][]byte) {
	for _, n := range []int{1, 2, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 191, 192, 207, 208, 223, 224, 255, 256, 257, 1000, 70000} {
		out = append(out, bytes.Repeat([]byte{0}, n), patBytes[0][:n])
	}
	return append(out, []byte{})
}

func c23Export(c *Case, e *End, ref func(string, []byte, int) []byte, hlen int, thorough bool) {
	lens := []int{1, 16, hlen - 1, hlen, hlen + 1, 2 * hlen, 255, 256, 257, 1000}
	if thorough {
		lens = append(lens, 2, 3, 8, 12, 20, 31, 32, 33, 47, 48, 49, 63, 64, 65, 100, 128, 2*hlen+1, 255*hlen-1, 255*hlen)
	}
	seen := map[string]string{}
	n := 0
	ask := func(l string, ctx []byte, k int) {
		n++
		got, err := e.C.ComputeExporter(l, ctx, k)
		if err != nil {
			c.Fail("export", "ComputeExporter(%q, %d bytes, %d): %v", l, len(ctx), k, err)
		}
		if len(got) != k {
			c.Fail("length", "ComputeExporter(%q, %d bytes, %d) gives %d bytes", l, len(ctx), k, len(got))
		}
		if ref != nil && !bytes.Equal(got, ref(l, ctx, k)) {
			c.Fail("value", "ComputeExporter(%q, %d bytes, %d) is not what RFC 8446 7.5 gives", l, len(ctx), k)
		}
		if k >= 16 {
			id := fmt.Sprintf("%q/%x/%d", l, ctx, k)
			if len(id) > 200 {
				id = id[:200] + fmt.Sprint(len(ctx))
			}
			if o, dup := seen[string(got[:16])]; dup && o != id {
				c.Fail("independent", "exports for %s and %s begin alike", o, id)
			}
			seen[string(got[:16])] = id
		}
	}
	for _, l := range c23Labels {
		for _, k := range lens {
			ask(l, nil, k)
			ask(l, []byte("context"), k)
		}
	}
	for _, ctx := range c23Contexts() {
		ask("label", ctx, 32)
		ask("label", ctx, hlen)
	}
	if k, err := e.C.ComputeExporter("label", nil, 0); err != nil || len(k) != 0 {
		c.Fail("zero", "%x %v", k, err)
	}
	a, _ := e.C.ComputeExporter("label", nil, 32)
	b, _ := e.C.ComputeExporter("label", []byte{}, 32)
	if !bytes.Equal(a, b) {
		c.Fail("nil", "an absent context differs from an empty one")
	}
	// what cannot be served is refused
	for _, bad := range []struct {
		l string
		k int
	}{{"label", -1}, {"label", -1 << 40}, {"label", 255*hlen + 1}, {"label", 65535}, {"label", 65536}, {"label", 65536 + 32}, {string(make([]byte, 250)), 32}, {string(make([]byte, 256)), 32}, {string(make([]byte, 1000)), 32}} {
		if k, err := e.C.ComputeExporter(bad.l, nil, bad.k); err == nil {
			c.Fail("range", "ComputeExporter with a label of %d bytes and length %d gives %d bytes", len(bad.l), bad.k, len(k))
		}
	}
	c.Count(n)
}

// c23Run is one handshake with everything derived from it.
func c23Run(c *Case, o c23Opt, deep bool) {
	e, p := c23Hs(c, o)
	ask := func() {
		for _, l := range []string{"a", "EXPORTER-x"} {
			for _, ctx := range [][]byte{nil, []byte("ctx"), patBytes[1][:300]} {
				got, err := e.C.ComputeExporter(l, ctx, 40)
				if err != nil || !bytes.Equal(got, p.Export(l, ctx, 40)) {
					c.Fail("export", "ComputeExporter(%q, %d bytes, 40) = %x, %v", l, len(ctx), got, err)
				}
			}
		}
	}
	ask()
	dataBothWays(c, e, p, "0")
	// three generations of keys in each direction
	for g := 1; g <= 3; g++ {
		if err := e.C.SendKeyUpdate(false); err != nil {
			c.Fail("update", "%v", err)
		}
		p.Drain()
		dataBothWays(c, e, p, fmt.Sprint("a", g))
		p.SendKU(0)
		dataBothWays(c, e, p, fmt.Sprint("b", g))
		p.SendKU(1)
		dataBothWays(c, e, p, fmt.Sprint("c", g))
	}
	ask()
	p.Drain()
	if len(p.KUs) != 6 {
		c.Fail("updates", "%v", p.KUs)
	}
	c.Outcome(fmt.Sprintf("%04x %s", o.suite, o.mode))
	c.Traces(1)
	// the tickets of this connection
	if o.client {
		cache := mint.PSKMapCache{}
		for i, nonce := range [][]byte{{}, {0}, {0, 1, 2, 3, 4, 5, 6, 7}, bytes.Repeat([]byte{0xee}, 255)} {
			e.Cfg.PSKs = &cache
			_ = i
			tk := &ticket{Lifetime: 1000, AgeAdd: 99, Nonce: nonce, Ticket: []byte(fmt.Sprint("ticket-", i))}
			p.SendNST(tk)
			e.ReadAll(10)
			psk, ok := cache.Get(goodName)
			want := p.suite.expandLabel(p.resM, "resumption", nonce, p.suite.hlen)
			if !ok {
				// the configuration's cache was fixed when the connection began
				break
			}
			if !bytes.Equal(psk.Key, want) || !bytes.Equal(psk.Identity, tk.Ticket) {
				c.Fail("resumption", "the ticket's key is not the one RFC 8446 4.6.1 gives")
			}
		}
		return
	}
	if len(p.Tickets) == 0 {
		c.Fail("ticket", "none")
	}
	if !deep {
		return
	}
	tk := p.Tickets[0]
	e2 := NewEnd(e.Cfg, false)
	p2 := newPuppet(true, e2)
	h := defaultCH()
	h.Suites = []uint16{o.suite}
	h.Groups, h.Shares = []uint16{o.group}, []uint16{o.group}
	h.PSKIDs = []pskID{{tk.Ticket, tk.age(0)}}
	h.PSKKeys, h.PSKSuites, h.PSKRes = [][]byte{tk.PSK}, []uint16{tk.Suite}, []bool{true}
	e2.Cfg.RequireCookie = false
	p2.SendCH(h)
	e2.Step()
	p2.RecvSH()
	if p2.psk == nil {
		c.Fail("resumption", "the server does not accept the binder made with the ticket's key")
	}
	p2.RecvServerFlight()
	p2.SendClientFlight(nil)
	if r := e2.Step(); r != hsDone {
		c.Fail("resumption", "%v %v", r, e2.Fail)
	}
	dataBothWays(c, e2, p2, "resumed")
}

// c23Chain: a real client resumes with the tickets of the reference server.
func c23Chain(c *Case, dtls bool, suite uint16, nonce []byte, ke bool) {
	cfg := clientCfg()
	cfg.UseDTLS = dtls
	cfg.CipherSuites = []mint.CipherSuite{mint.CipherSuite(suite)}
	cfg.PSKs = &mint.PSKMapCache{}
	var tk *ticket
	for gen := 0; gen < 4; gen++ {
		e := NewEnd(cfg, true)
		p := newPuppet(false, e)
		e.Step()
		p.RecvCH()
		group := uint16(gX25519)
		if tk != nil {
			p.UsePSK(tk.PSK, suite, true)
			if err := p.BinderOK(); err != nil {
				c.Fail("binder", "generation %d: %v", gen, err)
			}
			if ke {
				group = 0
			}
		}
		p.SendSH(p.DefaultSH(suite, group, tk != nil), group)
		p.SendEE(nil)
		if tk == nil {
			p.sendAuth(defaultAuth("p256"))
		} else {
			p.SendServerFin()
		}
		if r := e.Step(); r != hsDone {
			c.Fail("handshake", "generation %d: %v %v", gen, r, e.Fail)
		}
		p.RecvClientFlight()
		dataBothWays(c, e, p, "chain")
		tk = &ticket{Lifetime: 1000, AgeAdd: 0xfffffff0, Nonce: nonce, Ticket: []byte(fmt.Sprint("ticket-", gen))}
		tk.PSK = p.suite.expandLabel(p.resM, "resumption", nonce, p.suite.hlen)
		p.SendNST(tk)
		e.ReadAll(10)
	}
	c.Traces(1)
}

// c23Seek finds a key share whose secret with pub has the wanted form.
func c23Seek(group uint16, pub []byte, form string) *refKE {
	fits := func(k *refKE) bool {
		z, err := k.shared(pub)
		if err != nil {
			return false
		}
		switch form {
		case "zero-first":
			if group == gP521 {
				return z[0] == 0 && z[1] == 0
			}
			return z[0] == 0
		case "zero-last":
			return z[len(z)-1] == 0
		case "zero-pub":
			if group == gX25519 {
				return k.pub[0] == 0
			}
			if group == gP521 {
				return k.pub[1] == 0 && k.pub[2] == 0
			}
			if group == gFF2048 {
				return k.pub[0] == 0
			}
			return k.pub[1] == 0
		}
		return true
	}
	if group == gFF2048 {
		// powers in sequence: x, x+1, ... cost one multiplication each
		m := ff2048()
		k := newKE(group)
		y := new(big.Int).SetBytes(pub)
		X := new(big.Int).SetBytes(k.pub)
		Z := new(big.Int).Exp(y, k.ff, m)
		for i := 0; i < 20000; i++ {
			z := Z.FillBytes(make([]byte, 256))
			pb := X.FillBytes(make([]byte, 256))
			if form == "zero-first" && z[0] == 0 || form == "zero-last" && z[255] == 0 || form == "zero-pub" && pb[0] == 0 {
				k.pub = pb
				return k
			}
			k.ff.Add(k.ff, big.NewInt(1))
			X.Mul(X, big.NewInt(2)).Mod(X, m)
			Z.Mul(Z, y).Mod(Z, m)
		}
		return nil
	}
	for i := 0; i < 20000; i++ {
		if k := newKE(group); fits(k) {
			return k
		}
	}
	return nil
}

func c23Zero(c *Case, dtls bool, suite, group uint16, form string) {
	cfg := clientCfg()
	cfg.UseDTLS = dtls
	cfg.CipherSuites = []mint.CipherSuite{mint.CipherSuite(suite)}
	cfg.Groups = []mint.NamedGroup{mint.NamedGroup(group)}
	e := NewEnd(cfg, true)
	p := newPuppet(false, e)
	e.Step()
	p.RecvCH()
	k := c23Seek(group, p.clientShare(group), form)
	if k == nil {
		c.Outcome("not found")
		return
	}
	p.ke[group] = k
	p.SendSH(p.DefaultSH(suite, group, false), group)
	p.SendEE(nil)
	p.sendAuth(defaultAuth("p256"))
	if r := e.Step(); r != hsDone {
		c.Fail("handshake", "%v %v with shared secret %x...", r, e.Fail, p.dh[:4])
	}
	p.RecvClientFlight()
	dataBothWays(c, e, p, "z")
	c.Outcome(form)
	c.Traces(1)
}

// c23ZeroServer makes real servers agree until leading zeros were seen.
func c23ZeroServer(c *Case, group uint16, n int) {
	cfg := serverCfg("p256")
	cfg.Groups = []mint.NamedGroup{mint.NamedGroup(group)}
	first, last, pub, seen := 0, 0, 0, 0
	k := newKE(group)
	for i := 0; i < n && (first == 0 || last == 0 || pub == 0); i++ {
		e := NewEnd(cfg, false)
		p := newPuppet(true, e)
		p.ke[group] = k
		h := defaultCH()
		h.Groups, h.Shares = []uint16{group}, []uint16{group}
		p.SendCH(h)
		e.Step()
		p.RecvSH()
		p.RecvServerFlight() // verifies Finished with the reference secret
		seen++
		if p.dh[0] == 0 {
			first++
		}
		if p.dh[len(p.dh)-1] == 0 {
			last++
		}
		d := p.SH.Exts.get(xKeyShare)
		if d[4] == 0 || len(d) > 5 && d[4] == 4 && d[5] == 0 {
			pub++
		}
	}
	c.Count(seen)
	c.Outcome(fmt.Sprintf("server g%d", group))
	c.Traces(seen)
}

// c23HKDF compares the exported HKDF functions with the reference on a grid.
func c23HKDF(c *Case, suite uint16, thorough bool) {
	s := suiteByID(suite)
	hash := crypto.SHA256
	if s.hlen == 48 {
		hash = crypto.SHA384
	}
	var data [][]byte
	for _, n := range []int{0, 1, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 200, 255} {
		data = append(data, append([]byte{}, patBytes[0][:n]...), make([]byte, n))
	}
	n := 0
	for _, a := range data {
		for _, b := range data {
			n++
			if got := mint.HkdfExtract(hash, a, b); !bytes.Equal(got, s.extract(a, b)) {
				c.Fail("extract", "HkdfExtract(%x, %x)", a, b)
			}
			for _, l := range []int{0, 1, s.hlen - 1, s.hlen, s.hlen + 1, 3 * s.hlen, 255} {
				n++
				if got := mint.HkdfExpand(hash, a, b, l); !bytes.Equal(got, s.expand(a, b, l)) {
					c.Fail("expand", "HkdfExpand(%x, %x, %d)", a, b, l)
				}
				for _, label := range []string{"key", "iv", "derived", string(patBytes[1][:100])} {
					n++
					if got := mint.HkdfExpandLabel(hash, a, label, b, l); !bytes.Equal(got, s.expandLabel(a, label, b, l)) {
						c.Fail("expandLabel", "HkdfExpandLabel(%x, %q, %x, %d)", a, label, b, l)
					}
				}
			}
		}
	}
	if !bytes.Equal(mint.HkdfExtract(hash, nil, []byte("ikm")), s.extract(make([]byte, s.hlen), []byte("ikm"))) {
		c.Fail("extract", "nil salt")
	}
	if got := mint.HkdfExpand(hash, []byte("prk"), nil, 255*s.hlen); !bytes.Equal(got, s.expand([]byte("prk"), nil, 255*s.hlen)) {
		c.Fail("expand", "longest output")
	}
	c.Count(n)
}

// c23Agree: both real ends of any handshake export the same.
func c23Agree(c *Case, v variant, thorough bool) {
	d := runVariant(v, nil)
	if err := d.agree(v); err != nil {
		c.Fail("agree", "%v", err)
	}
	hlen := 32
	if v.suite == 0x1302 {
		hlen = 48
	}
	c23Export(c, d.p.C, func(l string, ctx []byte, n int) []byte {
		k, err := d.p.S.C.ComputeExporter(l, ctx, n)
		if err != nil {
			c.Fail("export", "server: %v", err)
		}
		return k
	}, hlen, thorough)
	other := runVariant(v, nil)
	for _, l := range c23Labels {
		a, _ := d.p.C.C.ComputeExporter(l, nil, 32)
		b, _ := other.p.C.C.ComputeExporter(l, nil, 32)
		if bytes.Equal(a, b) {
			c.Fail("independent", "two connections export the same secret for %q", l)
		}
	}
	c.Traces(2)
}

func init() {
	register("C23", "exploration", func(x *Ctx) {
		x.Rule("the product of role, transport, suite, group, PSK mode, retry, client authentication and early data, each as a full handshake with an independent implementation of the key schedule, three key updates each way, exporters and tickets; shared secrets and shares with leading and trailing zero bytes in every group; the grid of exporter labels, contexts and lengths; the grid of inputs of the exported HKDF functions")
		x.Assume("DTLS: mint's draft schedule (TLS labels, 12-byte headers in the transcript)")
		cs := &Cases{}
		_ = time.Now
		for _, dtls := range []bool{false, true} {
			for _, client := range []bool{true, false} {
				for _, suite := range []uint16{0x1301, 0x1302} {
					for _, group := range []uint16{gX25519, gP256, gP384, gP521, gFF2048} {
						for _, mode := range []string{"cert", "psk", "psk-ke", "ticket", "ticket-ke"} {
							for _, retry := range []bool{false, true} {
								for _, cr := range []bool{false, true} {
									for _, early := range []string{"", "accept", "reject"} {
										o := c23Opt{dtls: dtls, client: client, suite: suite, group: group, mode: mode, retry: retry, cr: cr, early: early}
										if early != "" && (dtls || retry || !o.usesPSK()) {
											continue
										}
										if group != gX25519 && !o.dh() {
											continue
										}
										if cr && o.usesPSK() && client {
											continue
										}
										cs.Add("hs/"+o.String(), func(c *Case) { c23Run(c, o, true) })
										if group == gX25519 && o.usesPSK() && !cr {
											for _, n := range []int{1, 2, 15, 16, 31, 32, 33, 47, 48, 49, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 20000} {
												if dtls && n > 1000 {
													continue
												}
												o := o
												o.idLen = n
												cs.Add("hs/"+o.String(), func(c *Case) { c23Run(c, o, false) })
											}
										}
										if group == gX25519 && o.usesPSK() && !o.res() && !cr {
											for _, n := range []int{1, 16, 31, 33, 48, 64, 65, 128, 129, 255} {
												o := o
												o.psk = patBytes[0][:n]
												cs.Add("hs/"+o.String(), func(c *Case) { c23Run(c, o, false) })
											}
										}
									}
								}
							}
						}
						for _, form := range []string{"zero-first", "zero-last", "zero-pub"} {
							for i := 0; i < x.Pick(1, 10); i++ {
								suite, group, form := suite, group, form
								if client {
									cs.Add(fmt.Sprintf("zeros/dtls=%v/%04x/g%d/%s/%d", dtls, suite, group, form, i), func(c *Case) { c23Zero(c, dtls, suite, group, form) })
								}
							}
						}
					}
					if client {
						for _, ke := range []bool{false, true} {
							for _, nonce := range [][]byte{{}, {0}, {1, 2, 3, 4, 5, 6, 7, 8}, bytes.Repeat([]byte{7}, 255)} {
								dtls, suite, ke, nonce := dtls, suite, ke, nonce
								cs.Add(fmt.Sprintf("chain/dtls=%v/%04x/ke=%v/nonce%d", dtls, suite, ke, len(nonce)), func(c *Case) { c23Chain(c, dtls, suite, nonce, ke) })
							}
						}
					}
				}
			}
			for _, v := range hsVariants(dtls) {
				v := v
				cs.Add("agree/"+v.name, func(c *Case) { c23Agree(c, v, x.Thorough()) })
			}
			for _, suite := range []uint16{0x1301, 0x1302} {
				for _, client := range []bool{true, false} {
					o := c23Opt{dtls: dtls, client: client, suite: suite, group: gX25519, mode: "cert"}
					cs.Add("grid/"+o.String(), func(c *Case) {
						e, p := c23Hs(c, o)
						c23Export(c, e, p.Export, suiteByID(o.suite).hlen, x.Thorough())
						c.Traces(1)
					})
				}
			}
		}
		for _, g := range []uint16{gX25519, gP256, gP384, gP521, gFF2048} {
			g := g
			n := x.Pick(400, 3000)
			if g == gP384 || g == gP521 || g == gFF2048 {
				n = x.Pick(150, 2000)
			}
			for k := 0; k < 4; k++ {
				cs.Add(fmt.Sprintf("natural/g%d/%d", g, k), func(c *Case) { c23ZeroServer(c, g, n) })
			}
		}
		for _, suite := range []uint16{0x1301, 0x1302} {
			suite := suite
			cs.Add(fmt.Sprintf("hkdf/%04x", suite), func(c *Case) { c23HKDF(c, suite, x.Thorough()) })
		}
		x.Run(cs, 0)
	})
}
