package vharness

// Independent TLS 1.3 building blocks, written from RFC 8446 / RFC 5869 /
// RFC 7919 on the standard library only.  Nothing here calls mint.

import (
	"bytes"
	"crypto"
	"crypto/aes"
	"crypto/cipher"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"fmt"
	"hash"
	"math/big"
	"sync"
	"time"
)

type refSuite struct {
	id     uint16
	newH   func() hash.Hash
	hlen   int
	keyLen int
}

var suiteTable = []*refSuite{
	{0x1301, sha256.New, 32, 16},
	{0x1302, sha512.New384, 48, 32},
}

func suiteByID(id uint16) *refSuite {
	for _, s := range suiteTable {
		if s.id == id {
			return s
		}
	}
	return nil
}

func (s *refSuite) sum(parts ...[]byte) []byte {
	h := s.newH()
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func (s *refSuite) mac(key []byte, parts ...[]byte) []byte {
	h := hmac.New(s.newH, key)
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

func (s *refSuite) zeros() []byte { return make([]byte, s.hlen) }

// extract is HKDF-Extract.
func (s *refSuite) extract(salt, ikm []byte) []byte { return s.mac(salt, ikm) }

// expand is HKDF-Expand.
func (s *refSuite) expand(prk, info []byte, n int) []byte {
	var out, t []byte
	for i := 1; len(out) < n; i++ {
		t = s.mac(prk, t, info, []byte{byte(i)})
		out = append(out, t...)
	}
	return out[:n]
}

func (s *refSuite) expandLabel(secret []byte, label string, ctx []byte, n int) []byte {
	l := "tls13 " + label
	info := []byte{byte(n >> 8), byte(n), byte(len(l))}
	info = append(info, l...)
	info = append(info, byte(len(ctx)))
	info = append(info, ctx...)
	return s.expand(secret, info, n)
}

func (s *refSuite) derive(secret []byte, label string, transcript []byte) []byte {
	return s.expandLabel(secret, label, s.sum(transcript), s.hlen)
}

func (s *refSuite) finished(secret, transcript []byte) []byte {
	return s.mac(s.expandLabel(secret, "finished", nil, s.hlen), s.sum(transcript))
}

func (s *refSuite) exporter(expMaster []byte, label string, ctx []byte, n int) []byte {
	return s.expandLabel(s.expandLabel(expMaster, label, s.sum(), s.hlen), "exporter", s.sum(ctx), n)
}

// Half is one direction's protection state.
type Half struct {
	suite  *refSuite
	secret []byte
	key    []byte
	iv     []byte
	seq    uint64
	epoch  uint16
	aead   cipher.AEAD
}

func newHalf(s *refSuite, secret []byte, epoch uint16) *Half {
	h := &Half{suite: s, secret: secret, epoch: epoch}
	h.key = s.expandLabel(secret, "key", nil, s.keyLen)
	h.iv = s.expandLabel(secret, "iv", nil, 12)
	b, err := aes.NewCipher(h.key)
	if err != nil {
		panic(err)
	}
	h.aead, err = cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return h
}

// next returns the following key generation (RFC 8446 7.2).
func (h *Half) next() *Half {
	return newHalf(h.suite, h.suite.expandLabel(h.secret, "traffic upd", nil, h.suite.hlen), h.epoch+1)
}

func (h *Half) nonce(seq uint64) []byte {
	n := append([]byte{}, h.iv...)
	var s [8]byte
	binary.BigEndian.PutUint64(s[:], seq)
	for i := 0; i < 8; i++ {
		n[4+i] ^= s[i]
	}
	return n
}

// ---- key exchange ------------------------------------------------------

const (
	gP256   = 23
	gP384   = 24
	gP521   = 25
	gX25519 = 29
	gFF2048 = 256
)

var ff2048 = sync.OnceValue(func() *big.Int {
	// RFC 7919 A.1: p = 2^2048 - 2^1984 + {[2^1918 * e] + 560316} * 2^64 - 1
	e := bigE(2200)
	t := new(big.Int).Rsh(e, 2200-1918)
	t.Add(t, big.NewInt(560316))
	t.Lsh(t, 64)
	p := new(big.Int).Lsh(big.NewInt(1), 2048)
	p.Sub(p, new(big.Int).Lsh(big.NewInt(1), 1984))
	p.Add(p, t)
	p.Sub(p, big.NewInt(1))
	return p
})

// bigE returns floor(e * 2^bits) up to rounding of the last few bits.
func bigE(bits uint) *big.Int {
	one := new(big.Int).Lsh(big.NewInt(1), bits+64)
	sum := new(big.Int)
	term := new(big.Int).Set(one)
	for i := int64(1); term.Sign() > 0; i++ {
		sum.Add(sum, term)
		term.Div(term, big.NewInt(i))
	}
	return sum.Rsh(sum, 64)
}

type refKE struct {
	group uint16
	pub   []byte
	ec    *ecdh.PrivateKey
	ff    *big.Int
}

func curveOf(g uint16) ecdh.Curve {
	switch g {
	case gP256:
		return ecdh.P256()
	case gP384:
		return ecdh.P384()
	case gP521:
		return ecdh.P521()
	case gX25519:
		return ecdh.X25519()
	}
	return nil
}

func newKE(g uint16) *refKE {
	if c := curveOf(g); c != nil {
		k, err := c.GenerateKey(rand.Reader)
		if err != nil {
			panic(err)
		}
		return &refKE{group: g, pub: k.PublicKey().Bytes(), ec: k}
	}
	if g == gFF2048 {
		x, err := rand.Int(rand.Reader, new(big.Int).Lsh(big.NewInt(1), 256))
		if err != nil {
			panic(err)
		}
		x.Add(x, big.NewInt(2))
		return &refKE{group: g, ff: x, pub: new(big.Int).Exp(big.NewInt(2), x, ff2048()).FillBytes(make([]byte, 256))}
	}
	// groups no implementation here knows: their shares are opaque
	if n, ok := map[uint16]int{0x0a0a: 1, 0x001e: 56, 0x11ec: 1216}[g]; ok {
		return &refKE{group: g, pub: bytes.Repeat([]byte{9}, n)}
	}
	panic(fmt.Sprintf("no reference key exchange for group %d", g))
}

func (k *refKE) shared(peer []byte) ([]byte, error) {
	if k.ec != nil {
		p, err := curveOf(k.group).NewPublicKey(peer)
		if err != nil {
			return nil, err
		}
		return k.ec.ECDH(p)
	}
	y := new(big.Int).SetBytes(peer)
	return new(big.Int).Exp(y, k.ff, ff2048()).FillBytes(make([]byte, 256)), nil
}

func groupShareLen(g uint16) int {
	switch g {
	case gP256:
		return 65
	case gP384:
		return 97
	case gP521:
		return 133
	case gX25519:
		return 32
	case gFF2048:
		return 256
	}
	return 0
}

// ---- certificates ------------------------------------------------------

const goodName = "example.com"

type ident struct {
	name  string
	key   crypto.Signer
	cert  *x509.Certificate
	chain []*x509.Certificate
}

var fixedNow = time.Date(2030, 6, 1, 12, 0, 0, 0, time.UTC)

type pki struct {
	caKey    *ecdsa.PrivateKey
	ca       *x509.Certificate
	inter    *x509.Certificate
	interKey *ecdsa.PrivateKey
	otherCA  *x509.Certificate
	otherKey *ecdsa.PrivateKey
	pool     *x509.CertPool
	ids      map[string]*ident
	serial   int64
	mu       sync.Mutex
}

var thePKI = sync.OnceValue(newPKI)

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func (p *pki) makeCA(cn string, parent *x509.Certificate, parentKey crypto.Signer) (*x509.Certificate, *ecdsa.PrivateKey) {
	k := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	p.serial++
	t := &x509.Certificate{
		SerialNumber: big.NewInt(p.serial), Subject: pkix.Name{CommonName: cn},
		NotBefore: time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2090, 1, 1, 0, 0, 0, 0, time.UTC),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature,
	}
	if parent == nil {
		parent, parentKey = t, k
	}
	der := must(x509.CreateCertificate(rand.Reader, t, parent, k.Public(), parentKey))
	return must(x509.ParseCertificate(der)), k
}

type leafOpt struct {
	names     []string
	notAfter  time.Time
	notBefore time.Time
	eku       []x509.ExtKeyUsage
	parent    *x509.Certificate
	parentKey crypto.Signer
	extra     []*x509.Certificate
	self      bool
	pad       int
}

func (p *pki) leaf(name string, key crypto.Signer, o leafOpt) *ident {
	p.serial++
	if o.notAfter.IsZero() {
		o.notAfter = time.Date(2080, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	if o.notBefore.IsZero() {
		o.notBefore = time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	if o.eku == nil {
		o.eku = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}
	}
	cn := name
	for len(cn) < o.pad {
		cn += "-padding"
	}
	t := &x509.Certificate{
		SerialNumber: big.NewInt(p.serial), Subject: pkix.Name{CommonName: cn},
		NotBefore: o.notBefore, NotAfter: o.notAfter, DNSNames: o.names,
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: o.eku, BasicConstraintsValid: true,
	}
	parent, pk := o.parent, o.parentKey
	if parent == nil {
		parent, pk = p.ca, p.caKey
	}
	if o.self {
		parent, pk = t, key
	}
	der := must(x509.CreateCertificate(rand.Reader, t, parent, key.Public(), pk))
	c := must(x509.ParseCertificate(der))
	id := &ident{name: name, key: key, cert: c, chain: append([]*x509.Certificate{c}, o.extra...)}
	p.ids[name] = id
	return id
}

func newPKI() *pki {
	p := &pki{ids: map[string]*ident{}}
	p.ca, p.caKey = p.makeCA("verif root", nil, nil)
	p.inter, p.interKey = p.makeCA("verif intermediate", p.ca, p.caKey)
	p.otherCA, p.otherKey = p.makeCA("unrelated root", nil, nil)
	p.pool = x509.NewCertPool()
	p.pool.AddCert(p.ca)
	ec := func(c elliptic.Curve) crypto.Signer { return must(ecdsa.GenerateKey(c, rand.Reader)) }
	good := []string{goodName}
	p256 := ec(elliptic.P256())
	p.leaf("p256", p256, leafOpt{names: good})
	p.leaf("p384", ec(elliptic.P384()), leafOpt{names: good})
	p.leaf("p521", ec(elliptic.P521()), leafOpt{names: good})
	p.leaf("rsa", must(rsa.GenerateKey(rand.Reader, 2048)), leafOpt{names: good})
	p.leaf("inter", ec(elliptic.P256()), leafOpt{names: good, parent: p.inter, parentKey: p.interKey, extra: []*x509.Certificate{p.inter}})
	// longer chains
	sub, subKey := p.makeCA("verif second intermediate", p.inter, p.interKey)
	rogue, rogueKey := p.makeCA("verif intermediate", p.otherCA, p.otherKey) // the name of the real one
	list := func(l ...*x509.Certificate) []*x509.Certificate { return l }
	p.leaf("inter2", ec(elliptic.P256()), leafOpt{names: good, parent: sub, parentKey: subKey, extra: list(sub, p.inter)})
	p.leaf("interFull", ec(elliptic.P256()), leafOpt{names: good, parent: sub, parentKey: subKey, extra: list(p.ca, p.inter, sub)})
	p.leaf("rogue3", ec(elliptic.P256()), leafOpt{names: good, parent: rogue, parentKey: rogueKey, extra: list(rogue, p.otherCA)})
	p.leaf("rogueMix", ec(elliptic.P256()), leafOpt{names: good, parent: rogue, parentKey: rogueKey, extra: list(rogue, p.otherCA, p.inter, p.ca)})
	p.leaf("leafIssued", ec(elliptic.P256()), leafOpt{names: good, parent: p.ids["p256"].cert, parentKey: p256, extra: list(p.ids["p256"].cert)})
	p.leaf("interMissing", ec(elliptic.P256()), leafOpt{names: good, parent: p.inter, parentKey: p.interKey})
	p.leaf("wrongName", ec(elliptic.P256()), leafOpt{names: []string{"other.example"}})
	p.leaf("expired", ec(elliptic.P256()), leafOpt{names: good, notAfter: fixedNow.Add(-time.Hour)})
	p.leaf("notYet", ec(elliptic.P256()), leafOpt{names: good, notBefore: fixedNow.Add(time.Hour)})
	p.leaf("untrusted", ec(elliptic.P256()), leafOpt{names: good, parent: p.otherCA, parentKey: p.otherKey, extra: []*x509.Certificate{p.otherCA}})
	p.leaf("selfSigned", ec(elliptic.P256()), leafOpt{names: good, self: true})
	p.leaf("clientOnly", ec(elliptic.P256()), leafOpt{names: good, eku: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}})
	p.leaf("client", ec(elliptic.P256()), leafOpt{names: []string{"client.example"}})
	p.leaf("client2", ec(elliptic.P256()), leafOpt{names: []string{"client2.example"}})
	p.leaf("wild", ec(elliptic.P256()), leafOpt{names: []string{"*.other.example"}})
	p.leaf("alt", ec(elliptic.P256()), leafOpt{names: []string{"alt.example"}})
	p.leaf("both", ec(elliptic.P256()), leafOpt{names: []string{"alt.example", goodName}})
	p.leaf("clientRSA", p.ids["rsa"].key, leafOpt{names: []string{"client.example"}})
	p.leaf("big", ec(elliptic.P256()), leafOpt{names: append([]string{}, good...), pad: 3000})
	return p
}

func id(name string) *ident {
	i := thePKI().ids[name]
	if i == nil {
		panic("no identity " + name)
	}
	return i
}

// ---- signatures --------------------------------------------------------

func schemeHash(s uint16) crypto.Hash {
	switch s {
	case 0x0403, 0x0401, 0x0804:
		return crypto.SHA256
	case 0x0503, 0x0501, 0x0805:
		return crypto.SHA384
	case 0x0603, 0x0601, 0x0806:
		return crypto.SHA512
	case 0x0201, 0x0203:
		return crypto.SHA1
	}
	return 0
}

// refSign signs msg; what the scheme demands, or as near as the key allows.
func refSign(key crypto.Signer, scheme uint16, msg []byte) []byte {
	h := schemeHash(scheme)
	if h == 0 {
		h = crypto.SHA256
	}
	hh := h.New()
	hh.Write(msg)
	d := hh.Sum(nil)
	switch key.(type) {
	case *rsa.PrivateKey:
		if scheme&0xff00 == 0x0800 {
			return must(key.Sign(rand.Reader, d, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash, Hash: h}))
		}
		return must(key.Sign(rand.Reader, d, h))
	}
	return must(key.Sign(rand.Reader, d, h))
}

func refVerify(pub crypto.PublicKey, scheme uint16, msg, sig []byte) error {
	h := schemeHash(scheme)
	if h == 0 || h == crypto.SHA1 {
		return fmt.Errorf("scheme %04x not acceptable", scheme)
	}
	hh := h.New()
	hh.Write(msg)
	d := hh.Sum(nil)
	switch k := pub.(type) {
	case *rsa.PublicKey:
		if scheme&0xff00 == 0x0800 {
			return rsa.VerifyPSS(k, h, d, sig, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash, Hash: h})
		}
		if scheme&0xff == 1 {
			return rsa.VerifyPKCS1v15(k, h, d, sig)
		}
	case *ecdsa.PublicKey:
		want := map[uint16]elliptic.Curve{0x0403: elliptic.P256(), 0x0503: elliptic.P384(), 0x0603: elliptic.P521()}[scheme]
		if want == nil || want != k.Curve {
			return fmt.Errorf("scheme %04x does not fit the key", scheme)
		}
		if !ecdsa.VerifyASN1(k, d, sig) {
			return fmt.Errorf("bad ECDSA signature")
		}
		return nil
	}
	return fmt.Errorf("scheme %04x does not fit the key", scheme)
}

func cvInput(context string, transcriptHash []byte) []byte {
	b := bytes.Repeat([]byte{0x20}, 64)
	b = append(b, context...)
	b = append(b, 0)
	return append(b, transcriptHash...)
}

const (
	serverCVContext = "TLS 1.3, server CertificateVerify"
	clientCVContext = "TLS 1.3, client CertificateVerify"
)
