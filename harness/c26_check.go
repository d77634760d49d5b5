package vharness

import (
	"bytes"
	"crypto/x509"
	"errors"
	"fmt"
	"io"
	"net"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/bifurcation/mint"
)

// C26: cloning, defaulting, dialling and listening, over every public setting.

type c26Handler struct{ n int }

func (h *c26Handler) Send(mint.HandshakeType, *mint.ExtensionList) error    { return nil }
func (h *c26Handler) Receive(mint.HandshakeType, *mint.ExtensionList) error { return nil }

type c26Cookies struct{ n int }

func (h *c26Cookies) Generate(*mint.Conn) ([]byte, error) { return []byte("cookie"), nil }
func (h *c26Cookies) Validate(*mint.Conn, []byte) bool    { return true }

// c26Layers counts the record layers it is asked for.
type c26Layers struct{ n int }

func (f *c26Layers) NewLayer(conn io.ReadWriter, dir mint.Direction) mint.RecordLayer {
	f.n++
	return mint.NewRecordLayerTLS(conn, dir)
}

var c26Pool = x509.NewCertPool()

// c26Values gives values other than the zero value for a type.
func c26Values(t reflect.Type) (out []reflect.Value) {
	add := func(vs ...interface{}) {
		for _, v := range vs {
			out = append(out, reflect.ValueOf(v).Convert(t))
		}
	}
	switch t {
	case reflect.TypeOf((*mint.CookieHandler)(nil)).Elem():
		add(&c26Cookies{})
		return
	case reflect.TypeOf((*mint.CookieProtector)(nil)).Elem():
		add(fixedProtector())
		return
	case reflect.TypeOf((*mint.AppExtensionHandler)(nil)).Elem():
		add(&c26Handler{})
		return
	case reflect.TypeOf((*mint.PreSharedKeyCache)(nil)).Elem():
		add(&mint.PSKMapCache{}, &mint.PSKMapCache{"a": mint.PreSharedKey{}})
		return
	case reflect.TypeOf((*mint.RecordLayerFactory)(nil)).Elem():
		add(&c26Layers{})
		return
	case reflect.TypeOf((*x509.CertPool)(nil)):
		add(x509.NewCertPool(), c26Pool)
		return
	case reflect.TypeOf((func() time.Time)(nil)):
		add(nowFixed, realNow)
		return
	}
	switch t.Kind() {
	case reflect.Bool:
		add(true)
	case reflect.String:
		add("name.example", "x")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		add(1, 17, 100)
	case reflect.Slice:
		es := c26Values(t.Elem())
		if len(es) == 0 {
			return
		}
		one := reflect.Append(reflect.MakeSlice(t, 0, 1), es[0])
		two := reflect.Append(reflect.MakeSlice(t, 0, 4), es[len(es)-1], es[0])
		out = append(out, one, two, reflect.MakeSlice(t, 0, 0))
	case reflect.Ptr:
		out = append(out, reflect.New(t.Elem()))
	case reflect.Func:
		out = append(out, reflect.MakeFunc(t, func([]reflect.Value) (r []reflect.Value) {
			for i := 0; i < t.NumOut(); i++ {
				r = append(r, reflect.Zero(t.Out(i)))
			}
			return
		}))
	}
	return
}

var c26Type = reflect.TypeOf(mint.Config{})

// c26Fields lists the public settings.
func c26Fields() (out []int) {
	for i := 0; i < c26Type.NumField(); i++ {
		if c26Type.Field(i).PkgPath == "" && len(c26Values(c26Type.Field(i).Type)) > 0 {
			out = append(out, i)
		}
	}
	return
}

// c26Same compares two values of a setting; containers must be shared or equal.
func c26Same(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.Func:
		return a.Pointer() == b.Pointer()
	case reflect.Interface, reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		return a.Interface() == b.Interface()
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !c26Same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// c26Snap keeps the settings of a configuration, with slices copied.
func c26Snap(cfg *mint.Config) map[string]reflect.Value {
	m := map[string]reflect.Value{}
	v := reflect.ValueOf(cfg).Elem()
	for i := 0; i < v.NumField(); i++ {
		if c26Type.Field(i).PkgPath != "" {
			continue
		}
		f := v.Field(i)
		cp := reflect.New(f.Type()).Elem()
		if f.Kind() == reflect.Slice && !f.IsNil() {
			cp.Set(reflect.AppendSlice(reflect.MakeSlice(f.Type(), 0, f.Len()), f))
		} else {
			cp.Set(f)
		}
		m[c26Type.Field(i).Name] = cp
	}
	return m
}

func c26Diff(a, b map[string]reflect.Value) (out []string) {
	for n := range a {
		if !c26Same(a[n], b[n]) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return
}

func c26Show(m map[string]reflect.Value, names []string) string {
	s := ""
	for _, n := range names {
		if m[n].Kind() == reflect.Func {
			s += fmt.Sprintf(" %s(nil=%v)", n, m[n].IsNil())
			continue
		}
		s += fmt.Sprintf(" %s=%.100v", n, m[n].Interface())
	}
	return s
}

// c26Set is one assignment of settings: field and index of the value.
type c26Set []struct{ f, v int }

func (s c26Set) cfg() *mint.Config {
	c := &mint.Config{}
	for _, x := range s {
		f := reflect.ValueOf(c).Elem().Field(x.f)
		f.Set(c26Values(f.Type())[x.v])
	}
	return c
}

func (s c26Set) String() string {
	n := ""
	for _, x := range s {
		n += fmt.Sprintf("%s.%d,", c26Type.Field(x.f).Name, x.v)
	}
	return n
}

func c26Sets(x *Ctx) (out []c26Set) {
	fs := c26Fields()
	out = append(out, nil)
	type fv = struct{ f, v int }
	nv := func(f int) int { return len(c26Values(c26Type.Field(f).Type)) }
	for i, a := range fs {
		for v := 0; v < nv(a); v++ {
			out = append(out, c26Set{fv{a, v}})
			for _, b := range fs[i+1:] {
				for w := 0; w < nv(b); w++ {
					out = append(out, c26Set{fv{a, v}, fv{b, w}})
				}
			}
		}
	}
	// all of them, all but one, all but two
	all := func(skip ...int) {
		for v := 0; v < 3; v++ {
			var s c26Set
		next:
			for _, f := range fs {
				for _, k := range skip {
					if k == f {
						continue next
					}
				}
				s = append(s, fv{f, v % nv(f)})
			}
			out = append(out, s)
		}
	}
	all()
	for i, a := range fs {
		all(a)
		for _, b := range fs[i+1:] {
			all(a, b)
			if x.Thorough() {
				for _, c := range fs {
					if c > b {
						all(a, b, c)
						out = append(out, c26Set{fv{a, 0}, fv{b, 0}, fv{c, 0}})
					}
				}
			}
		}
	}
	return
}

func c26Clone(c *Case, s c26Set) {
	cfg := s.cfg()
	before := c26Snap(cfg)
	cl := cfg.Clone()
	if cl == cfg {
		c.Fail("same", "Clone returns the configuration itself")
	}
	check := func(what string, m map[string]reflect.Value, want map[string]reflect.Value) {
		if d := c26Diff(want, m); len(d) > 0 {
			c.Fail("clone", "%s: %v differ: %s instead of %s", what, d, c26Show(m, d), c26Show(want, d))
		}
	}
	check("the original after Clone", c26Snap(cfg), before)
	check("the clone", c26Snap(cl), before)
	check("a clone of the clone", c26Snap(cl.Clone()), before)
	// the two are independent
	v := reflect.ValueOf(cl).Elem()
	for i := 0; i < v.NumField(); i++ {
		if c26Type.Field(i).PkgPath == "" {
			v.Field(i).Set(reflect.Zero(v.Field(i).Type()))
		}
	}
	check("the original after the clone was changed", c26Snap(cfg), before)
	cl2 := cfg.Clone()
	for _, client := range []bool{true, false} {
		if err := cl2.Init(client); err != nil {
			c.Fail("init", "%v", err)
		}
		check("the original after the clone was initialised", c26Snap(cfg), before)
	}
	c.Traces(1)
	c.Outcome("cloned")
}

// c26Defaults are the settings that are filled in.
func c26Defaults() map[string]interface{} {
	return map[string]interface{}{
		"CipherSuites":     []mint.CipherSuite{mint.TLS_AES_128_GCM_SHA256, mint.TLS_AES_256_GCM_SHA384},
		"Groups":           []mint.NamedGroup{mint.P256, mint.P384, mint.FFDHE2048, mint.X25519},
		"SignatureSchemes": []mint.SignatureScheme{mint.RSA_PSS_SHA256, mint.RSA_PSS_SHA384, mint.RSA_PSS_SHA512, mint.ECDSA_P256_SHA256, mint.ECDSA_P384_SHA384, mint.ECDSA_P521_SHA512},
		"PSKModes":         []mint.PSKKeyExchangeMode{mint.PSKModeKE, mint.PSKModeDHEKE},
	}
}

func c26Empty(v reflect.Value) bool {
	if v.Kind() == reflect.Slice {
		return v.Len() == 0
	}
	return v.IsZero()
}

func c26Init(c *Case, s c26Set, client bool) {
	cfg := s.cfg()
	before := c26Snap(cfg)
	if err := cfg.Init(client); err != nil {
		c.Fail("init", "%v", err)
	}
	after := c26Snap(cfg)
	c26Filled(c, before, after, false)
	again := c26Snap(cfg)
	if err := cfg.Init(client); err != nil {
		c.Fail("init", "again: %v", err)
	}
	if d := c26Diff(again, c26Snap(cfg)); len(d) > 0 {
		c.Fail("init", "a second Init changes %v", d)
	}
	c.Traces(1)
	c.Outcome("initialised")
}

// c26Filled checks that nothing but empty settings was filled, with defaults.
func c26Filled(c *Case, before, after map[string]reflect.Value, used bool) {
	defs := c26Defaults()
	for n, b := range before {
		a := after[n]
		def, has := defs[n]
		switch {
		case !c26Empty(b):
			if !c26Same(a, b) {
				c.Fail("overwritten", "%s was set and is changed: %s, was %s", n, c26Show(after, []string{n}), c26Show(before, []string{n}))
			}
		case has:
			if !reflect.DeepEqual(a.Interface(), def) {
				c.Fail("default", "%s was empty and is %v, the default is %v", n, a.Interface(), def)
			}
		case n == "TicketLen":
			if a.Int() <= 0 {
				c.Fail("default", "TicketLen is %d", a.Int())
			}
		case n == "PSKs":
			if a.IsNil() || a.Interface().(mint.PreSharedKeyCache).Size() != 0 && !used {
				c.Fail("default", "PSKs are %v", a.Interface())
			}
		case n == "CookieProtector" && used:
		default:
			if !c26Empty(a) {
				c.Fail("invented", "%s was empty and is %s", n, c26Show(after, []string{n}))
			}
		}
	}
}

// c26Use: a handshake, in whatever way it ends, only fills in defaults.
func c26Use(c *Case, s c26Set, client, blocking bool) {
	cfg := s.cfg()
	cfg.NonBlocking = !blocking
	cfg.UseDTLS = cfg.UseDTLS && cfg.RecordLayer == nil
	for i := range cfg.Certificates {
		if len(cfg.Certificates[i].Chain) == 0 {
			cfg.Certificates[i] = id("p256").mint()
		}
	}
	before := c26Snap(cfg)
	pc, ps := clientCfg(), serverCfg("p256", "rsa")
	pc.UseDTLS, ps.UseDTLS = cfg.UseDTLS, cfg.UseDTLS
	var p *Pair
	var e, o *End
	if client {
		p = NewPair(cfg, ps)
		e, o = p.C, p.S
	} else {
		p = NewPair(pc, cfg)
		e, o = p.S, p.C
	}
	if blocking {
		e.W.onEmpty = func() bool {
			for i := 0; i < 3; i++ {
				o.Step()
				if p.shuttle(); e.W.pending() > 0 {
					return true
				}
			}
			return false
		}
		if !client {
			o.Step()
			p.shuttle()
		}
		e.C.Handshake()
	} else {
		p.Run()
	}
	c26Filled(c, before, c26Snap(cfg), true)
	c.Traces(1)
	c.Outcome(fmt.Sprintf("used: %v", e.Connected()))
}

// ---- dialling ------------------------------------------------------------

// c26Hello captures what a dialled peer receives first.
func c26HelloOf(b []byte, dtls bool) (s string, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("not a hello: %v", r)
		}
	}()
	h := 5
	if dtls {
		h = 13
	}
	if len(b) < h || b[0] != 22 {
		return "", fmt.Errorf("not a handshake record: %x", b[:min(len(b), 20)])
	}
	n := int(b[h-2])<<8 + int(b[h-1])
	if len(b) < h+n {
		return "", fmt.Errorf("short record")
	}
	body := b[h : h+n]
	k := 4
	if dtls {
		k = 12
	}
	if body[0] != 1 || int(body[1])<<16+int(body[2])<<8+int(body[3]) != len(body)-k {
		return "", fmt.Errorf("not a whole client hello")
	}
	ch, err := parseCH(body[k:], dtls)
	if err != nil {
		return "", err
	}
	s = fmt.Sprintf("record %x version %x suites %x comp %x sid %d cookie %v", b[1:3], ch.Version, ch.Suites, ch.Comp, len(ch.SID), ch.Exts.has(xCookie))
	for _, x := range ch.Exts {
		switch x.T {
		case xKeyShare:
			for _, k := range parseShares(x.D) {
				s += fmt.Sprintf(" share %x/%d", k.Group, len(k.Pub))
			}
		case xPSK:
			ids, binders := parsePSK(x.D)
			for i := range ids {
				s += fmt.Sprintf(" psk %x/%d", ids[i].ID, len(binders[i]))
			}
		default:
			s += fmt.Sprintf(" %d=%x", x.T, x.D)
		}
	}
	return s, nil
}

// c26Expect is the hello of a configuration with every setting copied by hand.
func c26Expect(cfg *mint.Config, name string, dtls bool) (string, error) {
	cp := &mint.Config{}
	s, d := reflect.ValueOf(cfg).Elem(), reflect.ValueOf(cp).Elem()
	for i := 0; i < s.NumField(); i++ {
		if c26Type.Field(i).PkgPath == "" {
			d.Field(i).Set(s.Field(i))
		}
	}
	if cp.ServerName == "" {
		cp.ServerName = name
	}
	cp.UseDTLS = dtls
	cp.NonBlocking = true
	e := NewEnd(cp, true)
	e.C.Handshake()
	return c26HelloOf(bytes.Join(e.W.take(), nil), dtls)
}

// c26Server accepts one peer, keeps its first flight and ends it.
type c26Server struct {
	addr string
	got  chan []byte
	eof  chan bool
	stop func()
}

func c26Stream(network, addr string, reply []byte) (*c26Server, error) {
	l, err := net.Listen(network, addr)
	if err != nil {
		return nil, err
	}
	s := &c26Server{addr: l.Addr().String(), got: make(chan []byte, 1), eof: make(chan bool, 1), stop: func() { l.Close() }}
	go func() {
		conn, err := l.Accept()
		if err != nil {
			return
		}
		defer conn.Close()
		conn.SetDeadline(time.Now().Add(60 * time.Second))
		buf := make([]byte, 20000)
		n := 0
		for {
			m, err := conn.Read(buf[n:])
			n += m
			if err != nil || n >= 5 && n >= 5+int(buf[3])<<8+int(buf[4]) {
				break
			}
		}
		s.got <- buf[:n]
		conn.Write(reply)
		for {
			if _, err := conn.Read(buf); err != nil {
				s.eof <- !errors.Is(err, errTimeoutNet)
				return
			}
		}
	}()
	return s, nil
}

var errTimeoutNet = errors.New("unused")

func c26Packet(network, addr string, reply []byte) (*c26Server, error) {
	l, err := net.ListenPacket(network, addr)
	if err != nil {
		return nil, err
	}
	s := &c26Server{addr: l.LocalAddr().String(), got: make(chan []byte, 1), eof: make(chan bool, 1), stop: func() { l.Close() }}
	go func() {
		l.SetDeadline(time.Now().Add(60 * time.Second))
		buf := make([]byte, 20000)
		n, a, err := l.ReadFrom(buf)
		if err != nil {
			return
		}
		s.got <- append([]byte{}, buf[:n]...)
		if reply != nil {
			l.WriteTo(reply, a)
		}
	}()
	return s, nil
}

type c26Dial struct {
	network string
	listen  string // address to listen on
	host    string // as dialled
}

func c26Dials() []c26Dial {
	return []c26Dial{
		{"tcp", "127.0.0.1:0", "127.0.0.1"},
		{"tcp4", "127.0.0.1:0", "127.0.0.1"},
		{"tcp", "127.0.0.1:0", "localhost"},
		{"tcp4", "127.0.0.1:0", "localhost"},
		{"tcp", "127.0.0.1:0", "127.0.0.2"}, // another loopback address
		{"tcp", "[::1]:0", "[::1]"},
		{"tcp6", "[::1]:0", "[::1]"},
		{"udp", "127.0.0.1:0", "127.0.0.1"},
		{"udp4", "127.0.0.1:0", "127.0.0.1"},
		{"udp", "127.0.0.1:0", "localhost"},
		{"udp6", "[::1]:0", "[::1]"},
		{"unix", "", ""},
	}
}

func c26DialOne(c *Case, d c26Dial, cfg *mint.Config, timeout time.Duration, deadline bool) {
	udp := strings.HasPrefix(d.network, "udp")
	alert := []byte{21, 3, 3, 0, 2, 2, 40}
	if udp {
		alert = []byte{21, 0xfe, 0xfd, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2, 2, 40}
	}
	var s *c26Server
	var err error
	listen := d.listen
	if d.host == "127.0.0.2" {
		listen = "127.0.0.2:0"
	}
	if udp {
		s, err = c26Packet(d.network, listen, alert)
	} else {
		s, err = c26Stream(d.network, listen, alert)
	}
	if err != nil {
		c.Outcome("not available: " + d.network + " " + d.listen)
		return
	}
	defer s.stop()
	addr := s.addr
	if d.host != "" {
		addr = d.host + addr[strings.LastIndex(addr, ":"):]
	}
	dialer := &net.Dialer{}
	if timeout != 0 {
		if deadline {
			dialer.Deadline = time.Now().Add(timeout)
		} else {
			dialer.Timeout = timeout
		}
	}
	var before map[string]reflect.Value
	if cfg != nil {
		before = c26Snap(cfg)
	}
	conn, err := mint.DialWithDialer(dialer, d.network, addr, cfg)
	if cfg != nil {
		if diff := c26Diff(before, c26Snap(cfg)); len(diff) > 0 {
			c.Fail("modified", "Dial changed %v of the configuration it was given", diff)
		}
		if cfg.NonBlocking {
			if conn != nil || err == nil {
				c.Fail("nonblocking", "Dial with a non-blocking configuration: %v", err)
			}
			c.Outcome("refused")
			return
		}
	}
	if err == nil || conn != nil {
		c.Fail("success", "Dial reports %v, %v although the peer refused", conn, err)
	}
	if err == nil || fmt.Sprint(err) == "" {
		c.Fail("error", "%v", err)
	}
	var hello []byte
	select {
	case hello = <-s.got:
	default:
		if strings.Contains(err.Error(), "lookup") || strings.Contains(err.Error(), "refused") || strings.Contains(err.Error(), "unreachable") {
			c.Outcome("no route: " + d.host)
			return
		}
		select {
		case hello = <-s.got:
		case <-time.After(20 * time.Second):
			c.Fail("silent", "the peer got nothing; Dial reports %v", err)
		}
	}
	name := d.host
	if d.host == "" {
		name = "" // whatever a path gives
	}
	if cfg == nil {
		cfg = &mint.Config{}
	}
	got, gerr := c26HelloOf(hello, udp)
	if gerr != nil {
		c.Fail("hello", "over %s: %v (Dial reports %v)", d.network, gerr, err)
	}
	want, werr := c26Expect(cfg, name, udp)
	alt := want
	if strings.HasPrefix(name, "[") {
		alt, _ = c26Expect(cfg, strings.Trim(name, "[]"), udp)
	}
	if d.network == "unix" && cfg.ServerName == "" {
		c.Outcome("unix")
		return
	}
	if werr != nil || got != want && got != alt {
		c.Fail("hello", "dialling %s %s sends\n%s\nand the configuration gives\n%s (%v)", d.network, addr, got, want, werr)
	}
	if !udp {
		select {
		case <-s.eof:
		case <-time.After(20 * time.Second):
			c.Fail("open", "Dial has failed and leaves the connection open")
		}
	}
	c.Traces(1)
	c.Outcome(fmt.Sprintf("%s dtls=%v named=%v", d.network, udp, cfg.ServerName != ""))
}

// c26Settings are configurations with settings that show in a hello.
func c26DialCfgs() map[string]func() *mint.Config {
	m := map[string]func(c *mint.Config){
		"empty":     func(c *mint.Config) {},
		"name":      func(c *mint.Config) { c.ServerName = "given.example" },
		"dtls":      func(c *mint.Config) { c.UseDTLS = true },
		"dtls+name": func(c *mint.Config) { c.UseDTLS = true; c.ServerName = "given.example" },
		"suites":    func(c *mint.Config) { c.CipherSuites = []mint.CipherSuite{mint.TLS_AES_256_GCM_SHA384} },
		"groups":    func(c *mint.Config) { c.Groups = []mint.NamedGroup{mint.X25519, mint.P384} },
		"schemes":   func(c *mint.Config) { c.SignatureSchemes = []mint.SignatureScheme{mint.ECDSA_P384_SHA384} },
		"protocols": func(c *mint.Config) { c.NextProtos = []string{"h2", "x"} },
		"modes":     func(c *mint.Config) { c.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE} },
		"psk":       func(c *mint.Config) { c.ServerName = goodName; withClientPSK(c, 0x1301, thePSK, mint.PSKModeDHEKE) },
		"psk-early": func(c *mint.Config) {
			c.ServerName = goodName
			withClientPSK(c, 0x1301, thePSK)
			c.AllowEarlyData = true
		},
		"extensions": func(c *mint.Config) { c.ExtensionHandler = &c26Ext{} },
		"layers":     func(c *mint.Config) { c.RecordLayer = &c26Layers{} },
		"insecure":   func(c *mint.Config) { c.InsecureSkipVerify = true },
		"nonblock":   func(c *mint.Config) { c.NonBlocking = true },
		"server": func(c *mint.Config) {
			c.SendSessionTickets, c.RequireCookie, c.RequireClientAuth = true, true, true
			c.Certificates = mintCerts("p256")
		},
	}
	out := map[string]func() *mint.Config{}
	for n, f := range m {
		f := f
		out[n] = func() *mint.Config { c := &mint.Config{}; f(c); return c }
	}
	for _, a := range []string{"name", "suites", "groups", "protocols"} {
		for _, b := range []string{"dtls", "psk", "extensions", "schemes", "modes"} {
			f, g := m[a], m[b]
			out[a+"+"+b] = func() *mint.Config { c := &mint.Config{}; f(c); g(c); return c }
		}
	}
	return out
}

type c26Ext struct{}

func (h *c26Ext) Send(t mint.HandshakeType, el *mint.ExtensionList) error {
	return el.Add(&blobExt{t: 0xfe11, data: []byte("blob")})
}
func (h *c26Ext) Receive(mint.HandshakeType, *mint.ExtensionList) error { return nil }

// c26Silent: the timeout of the dialer covers the handshake.
func c26Silent(c *Case, network string, deadline bool) {
	var s *c26Server
	var err error
	if network == "udp" {
		s, err = c26Packet("udp", "127.0.0.1:0", nil)
	} else {
		s, err = c26Stream("tcp", "127.0.0.1:0", nil)
	}
	if err != nil {
		return
	}
	defer s.stop()
	d := &net.Dialer{Timeout: 150 * time.Millisecond}
	if deadline {
		d = &net.Dialer{Deadline: time.Now().Add(150 * time.Millisecond)}
	}
	type res struct {
		c *mint.Conn
		e error
	}
	ch := make(chan res, 1)
	go func() {
		conn, err := mint.DialWithDialer(d, network, s.addr, &mint.Config{ServerName: "x"})
		ch <- res{conn, err}
	}()
	select {
	case r := <-ch:
		if r.e == nil || r.c != nil {
			c.Fail("timeout", "Dial reports success")
		}
		if te, ok := r.e.(net.Error); !ok || !te.Timeout() {
			c.Fail("timeout", "Dial reports %v, which is not a timeout", r.e)
		}
	case <-time.After(20 * time.Second):
		c.Fail("timeout", "Dial does not return")
	}
	c.Outcome("timeout")
}

// c26Full dials a real listener and exchanges data.
func c26Full(c *Case, name string, ccfg, scfg *mint.Config, wantOK bool, check func(cl, sv *mint.Conn)) {
	l, err := mint.Listen("tcp", "127.0.0.1:0", scfg)
	if err != nil {
		c.Fail("listen", "%v", err)
	}
	defer l.Close()
	type res struct {
		c net.Conn
		e error
	}
	ch := make(chan res, 1)
	go func() {
		conn, err := l.Accept()
		if err == nil {
			buf := make([]byte, 10)
			var n int
			n, err = conn.Read(buf)
			if err == nil {
				_, err = conn.Write(buf[:n])
			}
		}
		ch <- res{conn, err}
	}()
	before, sbefore := c26Snap(ccfg), c26Snap(scfg)
	cl, err := mint.DialWithDialer(&net.Dialer{Timeout: 60 * time.Second}, "tcp", l.Addr().String(), ccfg)
	if d := c26Diff(before, c26Snap(ccfg)); len(d) > 0 {
		c.Fail("modified", "Dial changed %v", d)
	}
	if !wantOK {
		if err == nil {
			c.Fail("setting", "%s: the handshake completes", name)
		}
		c.Outcome("refused " + name)
		return
	}
	if err != nil {
		c.Fail("setting", "%s: %v", name, err)
	}
	if _, err := cl.Write([]byte("hello")); err != nil {
		c.Fail("data", "%v", err)
	}
	buf := make([]byte, 10)
	n, err := cl.Read(buf)
	if err != nil || string(buf[:n]) != "hello" {
		c.Fail("data", "%q %v", buf[:n], err)
	}
	var r res
	select {
	case r = <-ch:
	case <-time.After(30 * time.Second):
		c.Fail("accept", "Accept has not returned")
	}
	if r.e != nil {
		c.Fail("accept", "%v", r.e)
	}
	c26Filled(c, sbefore, c26Snap(scfg), true)
	sv := r.c.(*mint.Conn)
	if sv.ConnectionState().HandshakeState != mint.StateServerConnected {
		c.Fail("accept", "Accept hands out a connection in state %v", sv.ConnectionState().HandshakeState)
	}
	if check != nil {
		check(cl, sv)
	}
	cl.Close()
	sv.Close()
	c.Traces(1)
	c.Outcome("completed " + name)
}

func c26Scenarios() map[string]func(c *Case) {
	base := func() (*mint.Config, *mint.Config) { return clientCfg(), serverCfg("p256") }
	run := func(name string, ok bool, f func(cc, sc *mint.Config) func(c *Case, cl, sv *mint.Conn)) func(c *Case) {
		return func(c *Case) {
			cc, sc := base()
			cc.NonBlocking, sc.NonBlocking = false, false
			g := f(cc, sc)
			c26Full(c, name, cc, sc, ok, func(cl, sv *mint.Conn) {
				if g != nil {
					g(c, cl, sv)
				}
			})
		}
	}
	type pair = func(c *Case, cl, sv *mint.Conn)
	return map[string]func(c *Case){
		"plain":         run("plain", true, func(cc, sc *mint.Config) pair { return nil }),
		"no-roots":      run("no-roots", false, func(cc, sc *mint.Config) pair { cc.RootCAs = x509.NewCertPool(); return nil }),
		"wrong-name":    run("wrong-name", false, func(cc, sc *mint.Config) pair { cc.ServerName = "other.example"; return nil }),
		"inferred-name": run("inferred-name", false, func(cc, sc *mint.Config) pair { cc.ServerName = ""; return nil }),
		"insecure": run("insecure", true, func(cc, sc *mint.Config) pair {
			cc.RootCAs = x509.NewCertPool()
			cc.InsecureSkipVerify = true
			return nil
		}),
		"time": run("time", false, func(cc, sc *mint.Config) pair {
			cc.Time = func() time.Time { return fixedNow.Add(-200 * 365 * 24 * time.Hour) }
			return nil
		}),
		"verify": run("verify", true, func(cc, sc *mint.Config) pair {
			n := 0
			cc.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { n++; return nil }
			return func(c *Case, cl, sv *mint.Conn) {
				if n != 1 {
					c.Fail("setting", "VerifyPeerCertificate was called %d times", n)
				}
			}
		}),
		"verify-fails": run("verify-fails", false, func(cc, sc *mint.Config) pair {
			cc.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { return errors.New("no") }
			return nil
		}),
		"client-certificate": run("client-certificate", true, func(cc, sc *mint.Config) pair {
			cc.Certificates = mintCerts("client")
			sc.RequireClientAuth = true
			return func(c *Case, cl, sv *mint.Conn) {
				if len(sv.ConnectionState().PeerCertificates) == 0 {
					c.Fail("setting", "the client's certificate was not sent")
				}
			}
		}),
		"tickets": run("tickets", true, func(cc, sc *mint.Config) pair {
			sc.SendSessionTickets = true
			cc.PSKs = &mint.PSKMapCache{}
			return func(c *Case, cl, sv *mint.Conn) {
				if cc.PSKs.Size() != 1 {
					c.Fail("setting", "%d tickets in the application's cache", cc.PSKs.Size())
				}
			}
		}),
		"no-tickets": run("no-tickets", true, func(cc, sc *mint.Config) pair {
			cc.PSKs = &mint.PSKMapCache{}
			return func(c *Case, cl, sv *mint.Conn) {
				if cc.PSKs.Size() != 0 {
					c.Fail("setting", "%d tickets in the application's cache", cc.PSKs.Size())
				}
			}
		}),
		"protocol": run("protocol", true, func(cc, sc *mint.Config) pair {
			cc.NextProtos, sc.NextProtos = []string{"a", "b"}, []string{"b"}
			return func(c *Case, cl, sv *mint.Conn) {
				if cl.ConnectionState().NextProto != "b" || sv.ConnectionState().NextProto != "b" {
					c.Fail("setting", "%q", cl.ConnectionState().NextProto)
				}
			}
		}),
		"cookie": run("cookie", true, func(cc, sc *mint.Config) pair { sc.RequireCookie = true; return nil }),
		"layers": run("layers", true, func(cc, sc *mint.Config) pair {
			a, b := &c26Layers{}, &c26Layers{}
			cc.RecordLayer, sc.RecordLayer = a, b
			return func(c *Case, cl, sv *mint.Conn) {
				if a.n == 0 || b.n == 0 {
					c.Fail("setting", "the record layer factory was not used (client %d, server %d)", a.n, b.n)
				}
			}
		}),
		"psk": run("psk", true, func(cc, sc *mint.Config) pair {
			withClientPSK(cc, 0x1301, thePSK, mint.PSKModeDHEKE)
			sc.PSKs = &mint.PSKMapCache{hexOf([]byte("psk-id")): mintPSK(0x1301, []byte("psk-id"), thePSK, false)}
			return func(c *Case, cl, sv *mint.Conn) {
				if !cl.ConnectionState().UsingPSK {
					c.Fail("setting", "the key was not used")
				}
			}
		}),
		"suite": run("suite", true, func(cc, sc *mint.Config) pair {
			cc.CipherSuites = []mint.CipherSuite{mint.TLS_AES_256_GCM_SHA384}
			return func(c *Case, cl, sv *mint.Conn) {
				if cl.ConnectionState().CipherSuite.Suite != mint.TLS_AES_256_GCM_SHA384 {
					c.Fail("setting", "%v", cl.ConnectionState().CipherSuite.Suite)
				}
			}
		}),
		"suite-none": run("suite-none", false, func(cc, sc *mint.Config) pair {
			cc.CipherSuites = []mint.CipherSuite{mint.TLS_AES_256_GCM_SHA384}
			sc.CipherSuites = []mint.CipherSuite{mint.TLS_AES_128_GCM_SHA256}
			return nil
		}),
		"group-none": run("group-none", false, func(cc, sc *mint.Config) pair {
			cc.Groups, sc.Groups = []mint.NamedGroup{mint.P256}, []mint.NamedGroup{mint.X25519}
			return nil
		}),
		"scheme-none": run("scheme-none", false, func(cc, sc *mint.Config) pair {
			cc.SignatureSchemes = []mint.SignatureScheme{mint.RSA_PSS_SHA256}
			return nil
		}),
	}
}

// ---- listening -----------------------------------------------------------

type c26Inner struct {
	mu     sync.Mutex
	conns  []net.Conn
	errs   []error
	closed int
}

func (l *c26Inner) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.conns) == 0 {
		return nil, errStall
	}
	c, e := l.conns[0], l.errs[0]
	l.conns, l.errs = l.conns[1:], l.errs[1:]
	return c, e
}
func (l *c26Inner) Close() error   { l.closed++; return nil }
func (l *c26Inner) Addr() net.Addr { return strAddr("inner") }

// c26Client is a client behind a transport handed to a listener, with a fault.
type c26Client struct {
	e *End
	w *Wire
	r c25Run
}

func c26NewClient(v variant, fs []fault) *c26Client {
	cc, _ := v.cfgs()
	k := &c26Client{e: NewEnd(cc, true), w: &Wire{dgram: v.dtls, block: true}}
	inject(k.w, fs, &k.r.hit, &k.r.in, &k.r.out)
	dead := 0
	k.w.onEmpty = func() bool {
		for i := 0; i < 4; i++ {
			for _, b := range k.w.take() {
				k.e.W.feed(b)
			}
			k.e.Step()
			out := k.e.W.take()
			for _, b := range out {
				k.w.feed(b)
			}
			if len(out) > 0 {
				return true
			}
		}
		dead++
		return false
	}
	return k
}

func c26Listen(c *Case, v variant, plans [][]fault) {
	_, sc := v.cfgs()
	sc.NonBlocking = false
	inner := &c26Inner{}
	var ks []*c26Client
	for _, fs := range plans {
		k := c26NewClient(v, fs)
		ks = append(ks, k)
		inner.conns = append(inner.conns, k.w)
		inner.errs = append(inner.errs, nil)
	}
	inner.conns = append(inner.conns, nil)
	inner.errs = append(inner.errs, errInjected)
	l, err := mint.NewListener(inner, sc)
	if err != nil {
		c.Fail("listen", "%v", err)
	}
	for i, k := range ks {
		conn, err := l.Accept()
		if err == nil {
			sv, ok := conn.(*mint.Conn)
			if !ok || sv == nil {
				c.Fail("accept", "Accept hands out %T", conn)
			}
			if st := sv.ConnectionState().HandshakeState; st != mint.StateServerConnected {
				c.Fail("accept", "connection %d is handed out in state %v", i, st)
			}
			if a := sv.Handshake(); a != mint.AlertNoAlert {
				c.Fail("accept", "connection %d is handed out and its handshake reports %v", i, a)
			}
			for _, b := range k.w.take() {
				k.e.W.feed(b)
			}
			if k.e.Step() == hsDone && len(plans[i]) == 0 {
				if _, err := k.e.C.Write([]byte("to the server")); err != nil {
					c.Fail("data", "%v", err)
				}
				buf := make([]byte, 100)
				n, err := conn.Read(buf)
				if err != nil || string(buf[:n]) != "to the server" {
					c.Fail("data", "%q %v", buf[:n], err)
				}
				if _, err := conn.Write([]byte("to the client")); err != nil {
					c.Fail("data", "%v", err)
				}
				for _, b := range k.w.take() {
					k.e.W.feed(b)
				}
				got, err := k.e.ReadAll(100)
				if err != nil || string(got) != "to the client" {
					c.Fail("data", "%q %v", got, err)
				}
			}
		} else {
			if fmt.Sprint(err) == "" {
				c.Fail("accept", "an empty error")
			}
			if len(plans[i]) == 0 {
				c.Fail("accept", "connection %d fails with %v", i, err)
			}
			if a, ok := err.(mint.Alert); ok && a == mint.AlertNoAlert {
				c.Fail("accept", "the error is 'no alert'")
			}
		}
		if k.r.hit > 0 && err == nil && len(plans[i]) > 0 && plans[i][0].kind != wSentErr {
			// an error of the transport was met and Accept reports success:
			// only if it came after the handshake
			if !k.e.Connected() {
				c.Fail("accept", "the transport failed and the client did not complete, and Accept reports success")
			}
		}
		c.Outcome(fmt.Sprintf("accept ok=%v", err == nil))
	}
	if _, err := l.Accept(); err != errInjected {
		c.Fail("accept", "the inner listener failed and Accept reports %v", err)
	}
	if l.Addr() != inner.Addr() {
		c.Fail("addr", "%v", l.Addr())
	}
	l.Close()
	if inner.closed != 1 {
		c.Fail("close", "the inner listener was closed %d times", inner.closed)
	}
	c.Traces(len(plans))
}

func c26ListenArgs(c *Case) {
	ok := func(what string, cfg *mint.Config, want bool) {
		l, err := mint.Listen("tcp", "127.0.0.1:0", cfg)
		if err == nil {
			l.Close()
		}
		if want != (err == nil) || (l == nil) != (err != nil) {
			c.Fail("listen", "%s: %v", what, err)
		}
	}
	good := func() *mint.Config { s := serverCfg("p256"); s.NonBlocking = false; return s }
	ok("nil", nil, false)
	ok("empty", &mint.Config{}, false)
	ok("good", good(), true)
	g := good()
	g.NonBlocking = true
	ok("non-blocking", g, false)
	g = good()
	g.Certificates[0].PrivateKey = nil
	ok("no key", g, false)
	g = good()
	g.Certificates[0].Chain = nil
	ok("no chain", g, false)
	g = good()
	g.Certificates = nil
	g.PSKs = &mint.PSKMapCache{}
	ok("no keys", g, false)
	g.PSKs.Put("x", mint.PreSharedKey{})
	ok("a key", g, true)
	if _, err := mint.Listen("tcp", "127.0.0.1:99999", good()); err == nil {
		c.Fail("listen", "a bad address is accepted")
	}
	if _, err := mint.NewListener(&c26Inner{}, &mint.Config{NonBlocking: true}); err == nil {
		c.Fail("listen", "a non-blocking configuration is accepted")
	}
	for i, w := range []struct {
		cfg    mint.Config
		client bool
	}{{mint.Config{}, false}, {mint.Config{ServerName: "x"}, true}} {
		if got := w.cfg.ValidForClient(); got != w.client {
			c.Fail("valid", "%d: %v", i, got)
		}
	}
	c.Outcome("arguments")
}

func init() {
	register("C26", "exploration", func(x *Ctx) {
		x.Rule("every public field with each of its values alone, every pair of fields, all fields, all but one and all but two: cloned, initialised for either role, and used for a handshake in either role and mode; dialling over every network and address form with every kind of setting, timeouts and refusals; a listener whose clients meet a transport failure at every call")
		x.Assume("the loopback network works; an address family that is missing is skipped")
		cs := &Cases{}
		if n := c26Type.NumField(); n > 0 {
			for i := 0; i < n; i++ {
				f := c26Type.Field(i)
				if f.PkgPath == "" && len(c26Values(f.Type)) == 0 {
					x.Note("unset field "+f.Name, f.Type.String())
				}
			}
		}
		for _, s := range c26Sets(x) {
			s := s
			cs.Add("clone/"+s.String(), func(c *Case) { c26Clone(c, s) })
			for _, client := range []bool{true, false} {
				client := client
				cs.Add(fmt.Sprintf("init/client=%v/%s", client, s), func(c *Case) { c26Init(c, s, client) })
				if len(s) > 4 && !x.Thorough() {
					continue
				}
				for _, blocking := range []bool{true, false} {
					blocking := blocking
					cs.Add(fmt.Sprintf("use/client=%v/blocking=%v/%s", client, blocking, s), func(c *Case) { c26Use(c, s, client, blocking) })
				}
			}
		}
		for _, d := range c26Dials() {
			for n, f := range c26DialCfgs() {
				for _, t := range []time.Duration{0, time.Minute} {
					for _, dl := range []bool{false, true} {
						if t == 0 && dl {
							continue
						}
						d, f, t, dl := d, f, t, dl
						cs.Add(fmt.Sprintf("dial/%s/%s%s/%s/timeout=%v/deadline=%v", d.network, d.listen, d.host, n, t, dl), func(c *Case) { c26DialOne(c, d, f(), t, dl) })
					}
				}
			}
			d := d
			cs.Add(fmt.Sprintf("dial/%s/%s%s/nil", d.network, d.listen, d.host), func(c *Case) { c26DialOne(c, d, nil, 0, false) })
		}
		for _, n := range []string{"tcp", "udp"} {
			for _, dl := range []bool{false, true} {
				n, dl := n, dl
				cs.Add(fmt.Sprintf("silent/%s/%v", n, dl), func(c *Case) { c26Silent(c, n, dl) })
			}
		}
		for n, f := range c26Scenarios() {
			cs.Add("full/"+n, f)
		}
		cs.Add("listen/arguments", c26ListenArgs)
		for _, n := range []string{"tls/cert", "tls/cert-cr", "tls/cert-cookie", "tls/psk-dhe", "dtls/cert"} {
			v := variantByName(n)
			cs.Add("accept/"+n+"/none", func(c *Case) { c26Listen(c, v, [][]fault{nil, nil, nil}) })
			for k := faultKind(0); k < nFaults; k++ {
				for at := 0; at < 14; at++ {
					if k == rTrunc && !v.dtls || k == rShort || k == rZero {
						continue
					}
					fs := []fault{{at, k}}
					cs.Add(fmt.Sprintf("accept/%s/%v", n, fs), func(c *Case) { c26Listen(c, v, [][]fault{fs, nil, fs, nil}) })
				}
			}
			if !v.dtls {
				for at := 0; at < 700; at += x.Pick(3, 1) {
					for _, k := range []faultKind{cutEOF, cutErr} {
						fs := []fault{{at, k}}
						cs.Add(fmt.Sprintf("accept/%s/%v", n, fs), func(c *Case) { c26Listen(c, v, [][]fault{fs, nil}) })
					}
				}
			}
		}
		x.Run(cs, 0)
	})
}
