package vharness

import (
	"crypto/x509"
	"encoding/hex"
	"fmt"
	"sync"
	"time"

	"github.com/bifurcation/mint"
)

func parseLeaf(raw []byte) (*x509.Certificate, error) { return x509.ParseCertificate(raw) }

func (i *ident) mint() *mint.Certificate {
	return &mint.Certificate{Chain: i.chain, PrivateKey: i.key}
}

func mintCerts(names ...string) []*mint.Certificate {
	var o []*mint.Certificate
	for _, n := range names {
		o = append(o, id(n).mint())
	}
	return o
}

func realNow() time.Time { return time.Now() }

func nowFixed() time.Time { return fixedNow }

// clientCfg and serverCfg are the baseline non-blocking configurations.
func clientCfg() *mint.Config {
	return &mint.Config{
		ServerName: goodName, RootCAs: thePKI().pool, Time: nowFixed, NonBlocking: true,
		Groups: []mint.NamedGroup{mint.X25519},
	}
}

func serverCfg(ids ...string) *mint.Config {
	if len(ids) == 0 {
		ids = []string{"p256"}
	}
	return &mint.Config{
		ServerName: goodName, Certificates: mintCerts(ids...), NonBlocking: true,
		Groups: []mint.NamedGroup{mint.X25519},
	}
}

func recovered(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}

var protOnce sync.Once
var protShared mint.CookieProtector

// fixedProtector is one cookie key shared by all cases of a run.
func fixedProtector() mint.CookieProtector {
	protOnce.Do(func() { protShared = newProtector() })
	return protShared
}

func newProtector() mint.CookieProtector {
	p, err := mint.NewDefaultCookieProtector()
	if err != nil {
		panic(err)
	}
	return p
}

func hexOf(b []byte) string { return hex.EncodeToString(b) }

// blobExt is an application extension with arbitrary content.
type blobExt struct {
	t    mint.ExtensionType
	data []byte
}

func (b *blobExt) Type() mint.ExtensionType { return b.t }
func (b *blobExt) Marshal() ([]byte, error) { return b.data, nil }
func (b *blobExt) Unmarshal(d []byte) (int, error) {
	b.data = append([]byte{}, d...)
	return len(d), nil
}

// blobHandler sends blobs and records those it finds.
type blobHandler struct {
	send map[mint.HandshakeType]map[mint.ExtensionType][]byte
	want []mint.ExtensionType
	got  map[mint.HandshakeType]map[mint.ExtensionType][]byte
	log  []string
	errS map[mint.HandshakeType]error // what Send returns
	errR map[mint.HandshakeType]error // what Receive returns
}

func (h *blobHandler) Send(t mint.HandshakeType, el *mint.ExtensionList) error {
	h.log = append(h.log, fmt.Sprintf("send%d", t))
	if err := h.errS[t]; err != nil {
		return err
	}
	for et, d := range h.send[t] {
		if err := el.Add(&blobExt{et, d}); err != nil {
			return err
		}
	}
	return nil
}

func (h *blobHandler) Receive(t mint.HandshakeType, el *mint.ExtensionList) error {
	h.log = append(h.log, fmt.Sprintf("recv%d", t))
	for _, et := range h.want {
		b := &blobExt{t: et}
		ok, err := el.Find(b)
		if err != nil {
			return err
		}
		if ok {
			if h.got == nil {
				h.got = map[mint.HandshakeType]map[mint.ExtensionType][]byte{}
			}
			if h.got[t] == nil {
				h.got[t] = map[mint.ExtensionType][]byte{}
			}
			h.got[t][et] = b.data
		}
	}
	return h.errR[t]
}
