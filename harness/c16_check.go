package vharness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"

	"github.com/bifurcation/mint"
)

// C16: message and extension bodies against grammars written from RFC 8446.

// A gram reads one construct off the front of d: how much, and whether it can.
type gram func(d []byte) (int, bool)

func gU(n int) gram {
	return func(d []byte) (int, bool) { return n, len(d) >= n }
}

func gSeq(gs ...gram) gram {
	return func(d []byte) (int, bool) {
		n := 0
		for _, g := range gs {
			k, ok := g(d[n:])
			if !ok {
				return 0, false
			}
			n += k
		}
		return n, true
	}
}

// gVec is a vector with an h-byte length between min and max; el, if any, must
// fill it exactly.
func gVec(h, min, max int, el gram) gram {
	return func(d []byte) (int, bool) {
		if len(d) < h {
			return 0, false
		}
		l := 0
		for _, b := range d[:h] {
			l = l<<8 | int(b)
		}
		if l < min || l > max || len(d) < h+l {
			return 0, false
		}
		if el != nil {
			for b := d[h : h+l]; len(b) > 0; {
				k, ok := el(b)
				if !ok || k == 0 {
					return 0, false
				}
				b = b[k:]
			}
		}
		return h + l, true
	}
}

func gIf(g gram, f func(d []byte) bool) gram {
	return func(d []byte) (int, bool) {
		n, ok := g(d)
		if !ok || !f(d[:n]) {
			return 0, false
		}
		return n, true
	}
}

func gExact(b ...byte) gram {
	return func(d []byte) (int, bool) { return len(b), bytes.HasPrefix(d, b) }
}

const c16M2, c16M3 = 1<<16 - 1, 1<<24 - 1

var gExts = gVec(2, 0, c16M2, gSeq(gU(2), gVec(2, 0, c16M2, nil)))

type c16Body interface {
	Marshal() ([]byte, error)
	Unmarshal([]byte) (int, error)
}

type c16Val struct {
	v    c16Body // as the library's type (a pointer)
	wire []byte  // its encoding; nil: it cannot be encoded
}

type c16Type struct {
	name   string
	fresh  func() c16Body
	strict gram // must be accepted
	loose  gram // may be accepted; nil: the same
	vals   []c16Val
	opaque func(v c16Val) (from, to int) // part whose content other rules govern
	code   int                           // code point; -1: not checked
	first  bool                          // what only the loose grammar takes is not kept whole
}

func c16w(f func(w *buf)) []byte {
	w := &buf{b: []byte{}}
	f(w)
	return w.b
}

func seq(n int, from byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = from + byte(i)
	}
	return b
}

var c16ExtLists = []struct {
	l mint.ExtensionList
	w []byte
}{
	{mint.ExtensionList{}, []byte{0, 0}},
	{mint.ExtensionList{{ExtensionType: 0x1a1a, ExtensionData: []byte{}}}, []byte{0, 4, 0x1a, 0x1a, 0, 0}},
	{mint.ExtensionList{{ExtensionType: 0xff02, ExtensionData: []byte{7}}, {ExtensionType: 3, ExtensionData: []byte{1, 2, 3}}}, []byte{0, 12, 0xff, 2, 0, 1, 7, 0, 3, 0, 3, 1, 2, 3}},
	{mint.ExtensionList{{ExtensionType: 1, ExtensionData: seq(300, 9)}}, c16w(func(w *buf) { w.u16(304); w.u16(1); w.v16(seq(300, 9)) })},
}

func c16Arr32(from byte) (a [32]byte) {
	copy(a[:], seq(32, from))
	return
}

func c16Types() []*c16Type {
	var ts []*c16Type
	add := func(t *c16Type) *c16Type { ts = append(ts, t); return t }
	u16el := gU(2)

	// messages
	for _, dtls := range []bool{false, true} {
		dtls := dtls
		ver := uint16(0x0303)
		if dtls {
			ver = 0xfefd
		}
		gs := []gram{gU(34), gVec(1, 0, 32, nil)}
		if dtls {
			gs[0] = gSeq(gExact(0xfe, 0xfd), gU(32))
			gs = append(gs, gExact(0))
		}
		gs = append(gs, gVec(2, 2, c16M2, u16el), gExact(1, 0), gExts)
		t := add(&c16Type{name: fmt.Sprintf("ClientHello/dtls=%v", dtls), code: 1, strict: gSeq(gs...),
			fresh: func() c16Body {
				if dtls {
					return &mint.ClientHelloBody{LegacyVersion: 0xfefd}
				}
				return &mint.ClientHelloBody{}
			}})
		if dtls {
			// another version in the datagram form has no verdict
			gs2 := append([]gram{gU(34)}, gs[1:]...)
			t.loose = gSeq(gs2...)
			t.first = true
		}
		for _, sid := range []int{0, 1, 31, 32, 33} {
			for _, ns := range []int{0, 1, 2, 3, 127, 128} {
				for _, e := range c16ExtLists {
					v := &mint.ClientHelloBody{LegacyVersion: ver, Random: c16Arr32(byte(ns)), LegacySessionID: seq(sid, 0x50), Extensions: e.l}
					w := &buf{}
					w.u16(int(ver))
					w.raw(seq(32, byte(ns)))
					w.v8(seq(sid, 0x50))
					if dtls {
						w.u8(0)
					}
					w.u16(2 * ns)
					for i := 0; i < ns; i++ {
						v.CipherSuites = append(v.CipherSuites, mint.CipherSuite(0x1301+i*7))
						w.u16(0x1301 + i*7)
					}
					w.raw([]byte{1, 0})
					w.raw(e.w)
					if sid > 32 || ns == 0 {
						w.b = nil
					}
					t.vals = append(t.vals, c16Val{v, w.b})
				}
			}
		}
	}
	sh := add(&c16Type{name: "ServerHello", code: 2, fresh: func() c16Body { return &mint.ServerHelloBody{} },
		strict: gSeq(gU(34), gVec(1, 0, 32, nil), gU(3), gExts)})
	for _, ver := range []uint16{0x0303, 0xfefd, 0x0301} {
		for _, sid := range []int{0, 1, 32, 33} {
			for _, comp := range []byte{0, 1} {
				for _, e := range c16ExtLists {
					w := &buf{}
					w.u16(int(ver))
					w.raw(seq(32, 3))
					w.v8(seq(sid, 0x51))
					w.u16(0x1302)
					w.u8(int(comp))
					w.raw(e.w)
					if sid > 32 {
						w.b = nil
					}
					sh.vals = append(sh.vals, c16Val{&mint.ServerHelloBody{Version: ver, Random: c16Arr32(3), LegacySessionID: seq(sid, 0x51), CipherSuite: 0x1302, LegacyCompressionMethod: comp, Extensions: e.l}, w.b})
				}
			}
		}
	}
	for _, n := range []int{0, 1, 32, 48, 64} {
		n := n
		t := add(&c16Type{name: fmt.Sprintf("Finished/%d", n), code: 20, fresh: func() c16Body { return &mint.FinishedBody{VerifyDataLen: n} }, strict: gU(n)})
		t.vals = append(t.vals, c16Val{&mint.FinishedBody{VerifyDataLen: n, VerifyData: seq(n, 0x20)}, seq(n, 0x20)},
			c16Val{&mint.FinishedBody{VerifyDataLen: n + 1, VerifyData: seq(n, 0x20)}, nil})
		if n > 0 {
			t.vals = append(t.vals, c16Val{&mint.FinishedBody{VerifyDataLen: n - 1, VerifyData: seq(n, 0x20)}, nil})
		}
	}
	ee := add(&c16Type{name: "EncryptedExtensions", code: 8, fresh: func() c16Body { return &mint.EncryptedExtensionsBody{} }, strict: gExts})
	for _, e := range c16ExtLists {
		ee.vals = append(ee.vals, c16Val{&mint.EncryptedExtensionsBody{Extensions: e.l}, e.w})
	}
	crt := add(&c16Type{name: "Certificate", code: 11, fresh: func() c16Body { return &mint.CertificateBody{} }, strict: func([]byte) (int, bool) { return 0, false },
		loose: gSeq(gVec(1, 0, 255, nil), gVec(3, 0, c16M3, gSeq(gVec(3, 1, c16M3, nil), gExts)))})
	leafs := []string{"p256", "p384", "rsa"}
	for _, ctx := range []int{0, 1, 255, 256} {
		for n := 0; n <= 3; n++ {
			for ei := range c16ExtLists {
				v := &mint.CertificateBody{CertificateRequestContext: seq(ctx, 1)}
				list := &buf{b: []byte{}}
				for i := 0; i < n; i++ {
					ch := id(leafs[i]).chain[0]
					e := c16ExtLists[(ei+i)%len(c16ExtLists)]
					v.CertificateList = append(v.CertificateList, mint.CertificateEntry{CertData: ch, Extensions: e.l})
					list.v24(ch.Raw)
					list.raw(e.w)
				}
				w := &buf{}
				w.v8(seq(ctx, 1))
				w.v24(list.b)
				if ctx > 255 {
					w.b = nil
				}
				crt.vals = append(crt.vals, c16Val{v, w.b})
			}
		}
	}
	cv := add(&c16Type{name: "CertificateVerify", code: 15, fresh: func() c16Body { return &mint.CertificateVerifyBody{} }, strict: gSeq(gU(2), gVec(2, 0, c16M2, nil))})
	for _, n := range []int{0, 1, 71, 256, 65535, 65536} {
		w := c16w(func(w *buf) { w.u16(0x0804); w.v16(seq(n, 2)) })
		if n > 65535 {
			w = nil
		}
		cv.vals = append(cv.vals, c16Val{&mint.CertificateVerifyBody{Algorithm: 0x0804, Signature: seq(n, 2)}, w})
	}
	cr := add(&c16Type{name: "CertificateRequest", code: 13, fresh: func() c16Body { return &mint.CertificateRequestBody{} },
		strict: gSeq(gVec(1, 0, 255, nil), gVec(2, 2, c16M2, gSeq(gU(2), gVec(2, 0, c16M2, nil)))), loose: gSeq(gVec(1, 0, 255, nil), gExts)})
	for _, ctx := range []int{0, 1, 255, 256} {
		for _, e := range c16ExtLists[1:] {
			w := c16w(func(w *buf) { w.v8(seq(ctx, 1)); w.raw(e.w) })
			if ctx > 255 {
				w = nil
			}
			cr.vals = append(cr.vals, c16Val{&mint.CertificateRequestBody{CertificateRequestContext: seq(ctx, 1), Extensions: e.l}, w})
		}
	}
	nst := add(&c16Type{name: "NewSessionTicket", code: 4, fresh: func() c16Body { return &mint.NewSessionTicketBody{} },
		strict: gSeq(gU(8), gVec(1, 0, 255, nil), gVec(2, 1, c16M2, nil), gExts)})
	for _, nonce := range []int{0, 1, 16, 255, 256} {
		for _, tk := range []int{0, 1, 16, 256, 65535, 65536} {
			for _, e := range c16ExtLists {
				w := &buf{}
				w.u32(0x01020304)
				w.u32(0xfffefdfc)
				w.v8(seq(nonce, 1))
				w.v16(seq(tk, 5))
				w.raw(e.w)
				if nonce > 255 || tk == 0 || tk > 65535 {
					w.b = nil
				}
				nst.vals = append(nst.vals, c16Val{&mint.NewSessionTicketBody{TicketLifetime: 0x01020304, TicketAgeAdd: 0xfffefdfc, TicketNonce: seq(nonce, 1), Ticket: seq(tk, 5), Extensions: e.l}, w.b})
			}
		}
	}
	ku := add(&c16Type{name: "KeyUpdate", code: 24, fresh: func() c16Body { return &mint.KeyUpdateBody{} }, strict: gIf(gU(1), func(d []byte) bool { return d[0] < 2 }), loose: gU(1)})
	for _, v := range []byte{0, 1} {
		ku.vals = append(ku.vals, c16Val{&mint.KeyUpdateBody{KeyUpdateRequest: mint.KeyUpdateRequest(v)}, []byte{v}})
	}
	eoed := add(&c16Type{name: "EndOfEarlyData", code: 5, fresh: func() c16Body { return &mint.EndOfEarlyDataBody{} }, strict: gU(0)})
	eoed.vals = []c16Val{{&mint.EndOfEarlyDataBody{}, []byte{}}}

	// extensions
	ext := add(&c16Type{name: "Extension", code: -1, fresh: func() c16Body { return &mint.Extension{} }, strict: gSeq(gU(2), gVec(2, 0, c16M2, nil))})
	for _, n := range []int{0, 1, 255, 256, 65535, 65536} {
		w := c16w(func(w *buf) { w.u16(0x1a2b); w.v16(seq(n, 1)) })
		if n > 65535 {
			w = nil
		}
		ext.vals = append(ext.vals, c16Val{&mint.Extension{ExtensionType: 0x1a2b, ExtensionData: seq(n, 1)}, w})
	}
	el := add(&c16Type{name: "ExtensionList", code: -1, fresh: func() c16Body { return &mint.ExtensionList{} }, strict: gExts})
	for i := range c16ExtLists {
		l := append(mint.ExtensionList{}, c16ExtLists[i].l...)
		el.vals = append(el.vals, c16Val{&l, c16ExtLists[i].w})
	}
	big := mint.ExtensionList{{ExtensionType: 1, ExtensionData: make([]byte, 65535)}}
	fits := mint.ExtensionList{{ExtensionType: 1, ExtensionData: make([]byte, 65531)}}
	el.vals = append(el.vals, c16Val{&big, nil}, c16Val{&fits, c16w(func(w *buf) { w.u16(65535); w.u16(1); w.v16(make([]byte, 65531)) })})

	sni := add(&c16Type{name: "ServerName", code: 0, first: true, fresh: func() c16Body { return new(mint.ServerNameExtension) },
		strict: gIf(gVec(2, 1, c16M2, gSeq(gU(1), gVec(2, 1, c16M2, nil))), func(d []byte) bool {
			return d[2] == 0 && len(d) == 5+int(binary.BigEndian.Uint16(d[3:]))
		}),
		// more than one name: RFC 6066 leaves it to the receiver
		loose: gIf(gVec(2, 1, c16M2, gSeq(gU(1), gVec(2, 1, c16M2, nil))), func(d []byte) bool { return d[2] == 0 })})
	for _, n := range []int{0, 1, 2, 11, 255, 256, 65530, 65532, 65533} {
		s := mint.ServerNameExtension(bytes.Repeat([]byte("x"), n))
		w := c16w(func(w *buf) { w.u16(n + 3); w.u8(0); w.v16([]byte(s)) })
		if n == 0 || n > 65532 {
			w = nil
		}
		sni.vals = append(sni.vals, c16Val{&s, w})
	}
	sizes := map[uint16]int{29: 32, 23: 65, 24: 97, 25: 133, 256: 256, 257: 384, 258: 512, 259: 768, 260: 1024}
	shareOK := func(d []byte) bool {
		n, known := sizes[binary.BigEndian.Uint16(d)]
		return !known || len(d) == 4+n
	}
	gShare := gSeq(gU(2), gVec(2, 1, c16M2, nil))
	ksCH := add(&c16Type{name: "KeyShare/ClientHello", code: 51, fresh: func() c16Body { return &mint.KeyShareExtension{HandshakeType: 1} },
		strict: gVec(2, 0, c16M2, gIf(gShare, shareOK))})
	ksSH := add(&c16Type{name: "KeyShare/ServerHello", code: 51, fresh: func() c16Body { return &mint.KeyShareExtension{HandshakeType: 2} },
		strict: gIf(gShare, func(d []byte) bool { return shareOK(d) && sizes[binary.BigEndian.Uint16(d)] != 0 }), loose: gIf(gShare, shareOK)})
	ksHRR := add(&c16Type{name: "KeyShare/HelloRetryRequest", code: 51, fresh: func() c16Body { return &mint.KeyShareExtension{HandshakeType: 6} }, strict: gU(2)})
	type sh1 struct {
		g uint16
		n int
	}
	var one []sh1
	for _, g := range []uint16{29, 23, 24, 25, 256, 257, 258, 259, 260} {
		one = append(one, sh1{g, sizes[g]}, sh1{g, sizes[g] - 1}, sh1{g, sizes[g] + 1})
	}
	one = append(one, sh1{0x0a0a, 1}, sh1{0x001e, 56}, sh1{29, 0}, sh1{23, 32}, sh1{29, 65})
	mk := func(l ...sh1) (e []mint.KeyShareEntry, w []byte, ok bool) {
		b := &buf{b: []byte{}}
		ok = true
		for i, s := range l {
			e = append(e, mint.KeyShareEntry{Group: mint.NamedGroup(s.g), KeyExchange: seq(s.n, byte(4+i))})
			b.u16(int(s.g))
			b.v16(seq(s.n, byte(4+i)))
			n, known := sizes[s.g]
			ok = ok && s.n > 0 && (!known || s.n == n)
		}
		return e, b.b, ok
	}
	pushKS := func(l ...sh1) {
		e, w, ok := mk(l...)
		var full []byte
		if ok {
			full = c16w(func(b *buf) { b.v16(w) })
		}
		ksCH.vals = append(ksCH.vals, c16Val{&mint.KeyShareExtension{HandshakeType: 1, Shares: e}, full})
		if len(l) != 1 || !ok {
			w = nil
		}
		if len(l) == 1 && sizes[l[0].g] == 0 {
			return // a server cannot pick a group nobody knows: no verdict
		}
		ksSH.vals = append(ksSH.vals, c16Val{&mint.KeyShareExtension{HandshakeType: 2, Shares: e}, w})
	}
	pushKS()
	for i, a := range one {
		pushKS(a)
		pushKS(a, one[(i+5)%len(one)])
		pushKS(one[(i*3)%len(one)], a, one[0])
	}
	for _, g := range []uint16{0, 29, 23, 0xffff} {
		ksHRR.vals = append(ksHRR.vals, c16Val{&mint.KeyShareExtension{HandshakeType: 6, SelectedGroup: mint.NamedGroup(g)}, c16w(func(w *buf) { w.u16(int(g)) })})
	}
	e1, _, _ := mk(sh1{29, 32})
	ksHRR.vals = append(ksHRR.vals, c16Val{&mint.KeyShareExtension{HandshakeType: 6, SelectedGroup: 29, Shares: e1}, nil})
	for _, ht := range []mint.HandshakeType{0, 8, 11, 13} {
		ht := ht
		t := add(&c16Type{name: fmt.Sprintf("KeyShare/type%d", ht), code: -1, fresh: func() c16Body { return &mint.KeyShareExtension{HandshakeType: ht} }, strict: func([]byte) (int, bool) { return 0, false }})
		t.vals = append(t.vals, c16Val{&mint.KeyShareExtension{HandshakeType: ht, SelectedGroup: 29, Shares: e1}, nil})
	}

	list16 := func(name string, code, h, min, max, nmin int, mk func(v []uint16) c16Body) {
		t := add(&c16Type{name: name, code: code, fresh: func() c16Body { return mk(nil) }, strict: gVec(h, min, max, gU(2))})
		for _, n := range []int{0, 1, 2, 3, 126, 127, 128, 32767, 32768} {
			v := make([]uint16, n)
			for i := range v {
				v[i] = uint16(0x0203 + i*257)
			}
			w := &buf{}
			if h == 1 {
				w.u8(2 * n)
			} else {
				w.u16(2 * n)
			}
			for _, x := range v {
				w.u16(int(x))
			}
			if n < nmin || 2*n > max {
				w.b = nil
			}
			t.vals = append(t.vals, c16Val{mk(v), w.b})
		}
	}
	list16("SupportedGroups", 10, 2, 2, c16M2, 1, func(v []uint16) c16Body {
		e := &mint.SupportedGroupsExtension{}
		for _, x := range v {
			e.Groups = append(e.Groups, mint.NamedGroup(x))
		}
		return e
	})
	list16("SignatureAlgorithms", 13, 2, 2, c16M2, 1, func(v []uint16) c16Body {
		e := &mint.SignatureAlgorithmsExtension{}
		for _, x := range v {
			e.Algorithms = append(e.Algorithms, mint.SignatureScheme(x))
		}
		return e
	})
	list16("SupportedVersions/ClientHello", 43, 1, 2, 254, 1, func(v []uint16) c16Body {
		return &mint.SupportedVersionsExtension{HandshakeType: 1, Versions: v}
	})
	for _, ht := range []mint.HandshakeType{2, 6} {
		ht := ht
		t := add(&c16Type{name: fmt.Sprintf("SupportedVersions/%d", ht), code: 43, fresh: func() c16Body { return &mint.SupportedVersionsExtension{HandshakeType: ht} }, strict: gU(2)})
		for _, v := range [][]uint16{{0x0304}, {0x0303}, {0xfffe}} {
			t.vals = append(t.vals, c16Val{&mint.SupportedVersionsExtension{HandshakeType: ht, Versions: v}, be(uint64(v[0]), 2)})
		}
		for _, v := range [][]uint16{nil, {}, {0x0304, 0x0303}} {
			t.vals = append(t.vals, c16Val{&mint.SupportedVersionsExtension{HandshakeType: ht, Versions: v}, nil})
		}
	}
	for _, ht := range []mint.HandshakeType{0, 8, 13} {
		ht := ht
		t := add(&c16Type{name: fmt.Sprintf("SupportedVersions/type%d", ht), code: -1, fresh: func() c16Body { return &mint.SupportedVersionsExtension{HandshakeType: ht} }, strict: func([]byte) (int, bool) { return 0, false }})
		t.vals = append(t.vals, c16Val{&mint.SupportedVersionsExtension{HandshakeType: ht, Versions: []uint16{0x0304}}, nil})
	}

	pskCH := add(&c16Type{name: "PreSharedKey/ClientHello", code: 41, fresh: func() c16Body { return &mint.PreSharedKeyExtension{HandshakeType: 1} },
		strict: gIf(gSeq(gVec(2, 7, c16M2, gSeq(gVec(2, 1, c16M2, nil), gU(4))), gVec(2, 33, c16M2, gVec(1, 32, 255, nil))), func(d []byte) bool {
			n := int(binary.BigEndian.Uint16(d))
			ids, bs := 0, 0
			for b := d[2 : 2+n]; len(b) > 0; ids++ {
				b = b[6+int(binary.BigEndian.Uint16(b)):]
			}
			for b := d[4+n:]; len(b) > 0; bs++ {
				b = b[1+int(b[0]):]
			}
			return ids == bs
		})})
	for _, ids := range [][]int{{}, {0}, {1}, {32}, {300}, {1, 2}, {5, 1, 7}, {65529}, {65530}} {
		for _, bs := range [][]int{{}, {31}, {32}, {48}, {255}, {256}, {32, 48}, {48, 32, 33}, {31, 48}, {48, 1}, {0, 48}, {32, 31, 33}, {48, 31, 0}} {
			if len(ids) != len(bs) {
				continue
			}
			v := &mint.PreSharedKeyExtension{HandshakeType: 1}
			wi, wb := &buf{}, &buf{}
			ok := len(ids) > 0
			for i, n := range ids {
				v.Identities = append(v.Identities, mint.PSKIdentity{Identity: seq(n, byte(i)), ObfuscatedTicketAge: uint32(0x01020304 * (i + 1))})
				wi.v16(seq(n, byte(i)))
				wi.u32(uint32(0x01020304 * (i + 1)))
				ok = ok && n > 0
			}
			for i, n := range bs {
				v.Binders = append(v.Binders, mint.PSKBinderEntry{Binder: seq(n, byte(0x40+i))})
				wb.v8(seq(n, byte(0x40+i)))
				ok = ok && n >= 32 && n < 256
			}
			w := c16w(func(w *buf) { w.v16(wi.b); w.v16(wb.b) })
			if !ok || len(wi.b) > 65535 {
				w = nil
			}
			pskCH.vals = append(pskCH.vals, c16Val{v, w})
		}
	}
	pskSH := add(&c16Type{name: "PreSharedKey/ServerHello", code: 41, fresh: func() c16Body { return &mint.PreSharedKeyExtension{HandshakeType: 2} }, strict: gU(2)})
	for _, n := range []uint16{0, 1, 0x0102, 0xffff} {
		pskSH.vals = append(pskSH.vals, c16Val{&mint.PreSharedKeyExtension{HandshakeType: 2, SelectedIdentity: n}, be(uint64(n), 2)})
	}
	pskSH.vals = append(pskSH.vals, c16Val{&mint.PreSharedKeyExtension{HandshakeType: 2, Identities: []mint.PSKIdentity{{Identity: []byte{1}}}}, nil},
		c16Val{&mint.PreSharedKeyExtension{HandshakeType: 2, Binders: []mint.PSKBinderEntry{{Binder: seq(32, 1)}}}, nil})
	for _, ht := range []mint.HandshakeType{0, 6, 8} {
		ht := ht
		t := add(&c16Type{name: fmt.Sprintf("PreSharedKey/type%d", ht), code: -1, fresh: func() c16Body { return &mint.PreSharedKeyExtension{HandshakeType: ht} }, strict: func([]byte) (int, bool) { return 0, false }})
		t.vals = append(t.vals, c16Val{&mint.PreSharedKeyExtension{HandshakeType: ht}, nil})
	}
	modes := add(&c16Type{name: "PSKKeyExchangeModes", code: 45, fresh: func() c16Body { return &mint.PSKKeyExchangeModesExtension{} }, strict: gVec(1, 1, 255, nil)})
	for _, l := range [][]byte{{}, {0}, {1}, {1, 0}, {0, 1, 7}, seq(255, 0), seq(256, 0)} {
		v := &mint.PSKKeyExchangeModesExtension{}
		for _, m := range l {
			v.KEModes = append(v.KEModes, mint.PSKKeyExchangeMode(m))
		}
		w := append([]byte{byte(len(l))}, l...)
		if len(l) == 0 || len(l) > 255 {
			w = nil
		}
		modes.vals = append(modes.vals, c16Val{v, w})
	}
	ed := add(&c16Type{name: "EarlyData", code: 42, fresh: func() c16Body { return &mint.EarlyDataExtension{} }, strict: gU(0)})
	ed.vals = []c16Val{{&mint.EarlyDataExtension{}, []byte{}}}
	tedi := add(&c16Type{name: "TicketEarlyDataInfo", code: -1, fresh: func() c16Body { return &mint.TicketEarlyDataInfoExtension{} }, strict: gU(4)})
	for _, n := range []uint32{0, 1, 0x01020304, 1<<32 - 1} {
		tedi.vals = append(tedi.vals, c16Val{&mint.TicketEarlyDataInfoExtension{MaxEarlyDataSize: n}, be(uint64(n), 4)})
	}
	alpn := add(&c16Type{name: "ALPN", code: 16, fresh: func() c16Body { return &mint.ALPNExtension{} }, strict: gVec(2, 2, c16M2, gVec(1, 1, 255, nil))})
	for _, l := range [][]int{{}, {0}, {1}, {2}, {255}, {256}, {1, 2}, {2, 8, 1}, {3, 0}} {
		v := &mint.ALPNExtension{}
		w := &buf{}
		ok := len(l) > 0
		for i, n := range l {
			v.Protocols = append(v.Protocols, string(seq(n, byte('a'+i))))
			w.v8(seq(n, byte('a'+i)))
			ok = ok && n > 0 && n < 256
		}
		b := c16w(func(x *buf) { x.v16(w.b) })
		if !ok {
			b = nil
		}
		alpn.vals = append(alpn.vals, c16Val{v, b})
	}
	ck := add(&c16Type{name: "Cookie", code: 44, fresh: func() c16Body { return &mint.CookieExtension{} }, strict: gVec(2, 1, c16M2, nil)})
	for _, n := range []int{0, 1, 2, 255, 256, 65535, 65536} {
		w := c16w(func(w *buf) { w.v16(seq(n, 1)) })
		if n == 0 || n > 65535 {
			w = nil
		}
		ck.vals = append(ck.vals, c16Val{&mint.CookieExtension{Cookie: seq(n, 1)}, w})
	}
	return ts
}

func c16Parse(c *Case, t *c16Type, b c16Body, d []byte) (n int, err error) {
	if m := recovered(func() { n, err = b.Unmarshal(d) }); m != "" {
		c.Fail("panic", "%s: Unmarshal(%x) panics: %s", t.name, c16Clip(d), m)
	}
	return
}

func c16Make(c *Case, t *c16Type, b c16Body) (w []byte, err error) {
	if m := recovered(func() { w, err = b.Marshal() }); m != "" {
		c.Fail("panic", "%s: Marshal(%.200v) panics: %s", t.name, b, m)
	}
	return
}

func c16Clip(d []byte) []byte {
	if len(d) > 160 {
		return d[:160]
	}
	return d
}

// c16Try parses one byte string; used is a body that has parsed something else.
func c16Try(c *Case, t *c16Type, d []byte, used c16Body) {
	loose := t.loose
	if loose == nil {
		loose = t.strict
	}
	sn, must := t.strict(d)
	ln, may := loose(d)
	b := t.fresh()
	keep := append([]byte{}, d...)
	n, err := c16Parse(c, t, b, d)
	if !bytes.Equal(keep, d) {
		c.Fail("input", "%s: Unmarshal changed its input", t.name)
	}
	if err != nil {
		if must {
			c.Fail("refused", "%s: Unmarshal(%x): %v, though it is well formed", t.name, c16Clip(d), err)
		}
		return
	}
	if !may {
		c.Fail("accepted", "%s: Unmarshal(%x) accepts it (%d bytes), though it is not well formed", t.name, c16Clip(d), n)
	}
	want := ln
	if must {
		want = sn
	}
	if n != want {
		c.Fail("consumed", "%s: Unmarshal(%x) reports %d bytes, want %d", t.name, c16Clip(d), n, want)
	}
	for i := range d {
		d[i] ^= 0x55
	}
	w, err := c16Make(c, t, b)
	copy(d, keep)
	if !must && t.loose != nil && t.first {
		return
	}
	if must || t.loose != nil {
		if err != nil && !must {
			return
		}
		if err != nil || !bytes.Equal(w, d[:n]) {
			c.Fail("reencode", "%s: %x parses but encodes again as %x (%v)", t.name, c16Clip(d[:n]), c16Clip(w), err)
		}
	}
	if used != nil {
		if _, err := c16Parse(c, t, used, d); err != nil {
			c.Fail("used", "%s: a body that was used before refuses %x: %v", t.name, c16Clip(d), err)
		}
		w2, err := c16Make(c, t, used)
		if err != nil || !bytes.Equal(w, w2) {
			c.Fail("used", "%s: a body that was used before gives %x after parsing %x (%v)", t.name, c16Clip(w2), c16Clip(d), err)
		}
	}
}

// c16Same compares bodies, nil and empty lists being the same.
func c16Same(a, b c16Body) bool {
	return c16Eq(reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem())
}

func c16Eq(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !c16Eq(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !c16Eq(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		// certificates
		return bytes.Equal(a.Elem().FieldByName("Raw").Bytes(), b.Elem().FieldByName("Raw").Bytes())
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

func init() { register("C16", "exploration", checkC16) }

func checkC16(x *Ctx) {
	cs := &Cases{}
	x.Rule("every handshake message body and extension body over boundary domains of every field, encoded and compared with the wire format, parsed back and compared with the value, also into a body used before; every truncation, every single-byte change and several extensions of each encoding, pairs of changes of short ones, every resizing of what a byte may be the length of that one or two others make up for, and every short byte string over a boundary alphabet, against grammars written from the standard; every list of up to three (thorough: four) good, malformed, repeated and unknown extensions looked up by Find and Parse with every set of targets; every sequence of Add against a model")
	x.Assume("limits of the standard that mint does not enforce (fewest extensions of a CertificateRequest, request values of a key update, server names after the first) get no verdict")
	for _, t := range c16Types() {
		t := t
		var used []byte
		for _, v := range t.vals {
			if len(v.wire) > len(used) && len(v.wire) < 2000 {
				used = v.wire
			}
		}
		isCert := t.name == "Certificate"
		for vi, v := range t.vals {
			v := v
			cs.Add(fmt.Sprintf("body/%s/%d", t.name, vi), func(c *Case) {
				if t.code >= 0 {
					code := -1
					switch b := v.v.(type) {
					case mint.HandshakeMessageBody:
						code = int(b.Type())
					case mint.ExtensionBody:
						code = int(b.Type())
					}
					if code != t.code {
						c.Fail("code", "%s: code point %d, want %d", t.name, code, t.code)
					}
				}
				w, err := c16Make(c, t, v.v)
				if (err == nil) != (v.wire != nil) {
					c.Fail("encode", "%s: Marshal(%.200v): error %v, want encoded=%v", t.name, v.v, err, v.wire != nil)
				}
				if err != nil {
					c.Outcome("not encodable")
					return
				}
				if !bytes.Equal(w, v.wire) {
					c.Fail("bytes", "%s: Marshal(%.200v) = %x, want %x", t.name, v.v, c16Clip(w), c16Clip(v.wire))
				}
				c.Outcome(t.name)
				// the encoding belongs to the caller
				for i := range w {
					w[i] ^= 0xff
				}
				if w2, _ := c16Make(c, t, v.v); !bytes.Equal(w2, v.wire) {
					c.Fail("aliased", "%s: changing an encoding changes the body it came from", t.name)
				}
				b := t.fresh()
				n, err := c16Parse(c, t, b, v.wire)
				if err != nil || n != len(v.wire) || !c16Same(b, v.v) {
					c.Fail("roundtrip", "%s: %x parses as %.300v (%d bytes, %v), want %.300v", t.name, c16Clip(v.wire), b, n, err, v.v)
				}
				dirty := func() c16Body {
					u := t.fresh()
					u.Unmarshal(used)
					return u
				}
				if len(v.wire) > 8000 {
					for _, d := range [][]byte{v.wire[:len(v.wire)-1], append(append([]byte{}, v.wire...), 0)} {
						c16Try(c, t, append([]byte{}, d...), dirty())
					}
					return
				}
				k := 0
				step := func(i int) bool { // positions worth every change
					return len(v.wire) < 420 && !isCert || i < 60 || i > len(v.wire)-40 || i%41 == 0
				}
				for i := 0; i <= len(v.wire); i++ {
					c16Try(c, t, append([]byte{}, v.wire[:i]...), dirty())
					k++
					if i == len(v.wire) || !step(i) {
						continue
					}
					for m := 1; m < 256; m++ {
						if len(v.wire) > 100 && !x.Thorough() && m&(m-1) != 0 && m&(m+1) != 0 {
							continue // single bits and low runs only
						}
						d := append([]byte{}, v.wire...)
						d[i] ^= byte(m)
						if m&7 == 0 || len(d) < 100 {
							c16Try(c, t, d, dirty())
						} else {
							c16Try(c, t, d, nil)
						}
						k++
					}
					// a byte more, a byte less
					d := append(append(append([]byte{}, v.wire[:i]...), 0x01), v.wire[i:]...)
					c16Try(c, t, d, nil)
					d = append(append([]byte{}, v.wire[:i]...), v.wire[i+1:]...)
					c16Try(c, t, d, nil)
					k += 2
				}
				for _, tail := range [][]byte{{0}, {1}, {0, 0}, {0xff}, {0, 1, 2}, v.wire} {
					c16Try(c, t, append(append([]byte{}, v.wire...), tail...), dirty())
					k++
				}
				if n := len(v.wire); n <= x.Pick(24, 48) {
					for i := 0; i < n; i++ {
						for j := i + 1; j < n; j++ {
							for _, a := range []byte{0, 1, 2, 0x7f, 0xff} {
								for _, b := range []byte{0, 1, 2, 0x7f, 0xff} {
									d := append([]byte{}, v.wire...)
									d[i], d[j] = a, b
									c16Try(c, t, d, nil)
									d = append([]byte{}, v.wire...)
									d[i], d[j] = d[i]+a-1, d[j]+b-1
									c16Try(c, t, d, nil)
									k += 2
								}
							}
						}
					}
				}
				if n := len(v.wire); n <= x.Pick(72, 130) {
					k += c16Coherent(v.wire, func(d []byte) { c16Try(c, t, d, nil) })
				}
				c.Count(k)
			})
		}
		if isCert {
			continue
		}
		cs.Add("short/"+t.name, func(c *Case) {
			alpha := []byte{0, 1, 2, 3, 4, 5, 7, 0x1d, 0x20, 0xff}
			n := 0
			var rec func(d []byte)
			rec = func(d []byte) {
				c16Try(c, t, append([]byte{}, d...), nil)
				n++
				if len(d) < x.Pick(4, 6) {
					for _, a := range alpha {
						rec(append(d, a))
					}
				}
			}
			rec(nil)
			c.Count(n)
		})
	}
	c16Truncated(x, cs)
	c16Lists(x, cs)
	x.Run(cs, 0)
}

// c16Coherent gives f every change of d in which what follows one byte gets
// longer or shorter along with that byte, taken for a length, and another byte
// makes up for it: as the length of what is around it, or as that of something
// next to it.
func c16Coherent(d []byte, f func(d []byte)) (k int) {
	resize := func(d []byte, i, n int) []byte {
		if i+1-n > len(d) || n < 0 && int(d[i]) < -n || n > 0 && int(d[i])+n > 255 {
			return nil
		}
		e := append([]byte{}, d[:i+1]...)
		e[i] += byte(n)
		if n > 0 {
			return append(append(e, make([]byte, n)...), d[i+1:]...)
		}
		return append(e, d[i+1-n:]...)
	}
	for i := range d {
		for _, n := range []int{-1, -int(d[i]), 1} {
			if n == 0 || n < -64 || n == -1 && d[i] == 1 {
				continue
			}
			e := resize(d, i, n)
			if e == nil {
				continue
			}
			for j := range e {
				if j < i && int(e[j])+n >= 0 && int(e[j])+n < 256 {
					g := append([]byte{}, e...)
					g[j] += byte(n)
					f(g)
					k++
					// and one more that is around both
					for l := 0; l < j && len(d) <= 40; l++ {
						if int(g[l])+n >= 0 && int(g[l])+n < 256 {
							h := append([]byte{}, g...)
							h[l] += byte(n)
							f(h)
							k++
						}
					}
				}
				if j != i {
					if g := resize(e, j, -n); g != nil {
						f(g)
						k++
					}
				}
			}
		}
	}
	return k
}

// c16Truncated: the part of a hello that binders cover is everything but the
// list of binders.
func c16Truncated(x *Ctx, cs *Cases) {
	for _, dtls := range []bool{false, true} {
		for _, ids := range []int{0, 1, 2, 3} {
			for _, bl := range []int{32, 48, 255} {
				for _, before := range []int{0, 1, 2} {
					for _, after := range []bool{false, true} {
						dtls, ids, bl, before, after := dtls, ids, bl, before, after
						cs.Add(fmt.Sprintf("truncated/dtls=%v/%d/%d/%d/%v", dtls, ids, bl, before, after), func(c *Case) {
							ch := &mint.ClientHelloBody{LegacyVersion: 0x0303, Random: c16Arr32(1), LegacySessionID: seq(ids, 1), CipherSuites: []mint.CipherSuite{0x1301}}
							if dtls {
								ch.LegacyVersion = 0xfefd
							}
							for i := 0; i < before; i++ {
								ch.Extensions = append(ch.Extensions, mint.Extension{ExtensionType: mint.ExtensionType(0x1a1a + i), ExtensionData: seq(i*5, 1)})
							}
							psk := &mint.PreSharedKeyExtension{HandshakeType: 1}
							n := 2
							for i := 0; i < ids; i++ {
								psk.Identities = append(psk.Identities, mint.PSKIdentity{Identity: seq(i+1, 9)})
								psk.Binders = append(psk.Binders, mint.PSKBinderEntry{Binder: seq(bl, byte(i))})
								n += 1 + bl
							}
							ok := ids > 0 && !after
							if ids > 0 {
								if err := ch.Extensions.Add(psk); err != nil {
									c.Fail("add", "%v", err)
								}
							}
							if after {
								ch.Extensions = append(ch.Extensions, mint.Extension{ExtensionType: 0x2a2a, ExtensionData: []byte{}})
							}
							var got []byte
							var err error
							if p := recovered(func() { got, err = ch.Truncated() }); p != "" {
								c.Fail("panic", "Truncated: %s", p)
							}
							if (err == nil) != ok {
								c.Fail("truncated", "error %v, want ok=%v", err, ok)
							}
							if !ok {
								return
							}
							body, _ := ch.Marshal()
							full := hsMsg(1, body)
							if !bytes.Equal(got, full[:len(full)-n]) {
								c.Fail("truncated", "%d bytes of a %d-byte hello with %d bytes of binders", len(got), len(full), n)
							}
						})
					}
				}
			}
		}
	}
}

// lists of extensions
type c16Item struct {
	name  string
	typ   uint16
	data  []byte
	good  bool
	known int // index of the target that wants it; -1: none
}

var c16Targets = []struct {
	typ   uint16
	fresh func() mint.ExtensionBody
}{
	{16, func() mint.ExtensionBody { return &mint.ALPNExtension{} }},
	{44, func() mint.ExtensionBody { return &mint.CookieExtension{} }},
	{42, func() mint.ExtensionBody { return &mint.EarlyDataExtension{} }},
	{43, func() mint.ExtensionBody { return &mint.SupportedVersionsExtension{HandshakeType: 1} }},
}

func c16Lists(x *Ctx, cs *Cases) {
	items := []c16Item{
		{"alpn", 16, []byte{0, 2, 1, 'a'}, true, 0}, {"alpn2", 16, []byte{0, 3, 2, 'b', 'c'}, true, 0}, {"alpn-tail", 16, []byte{0, 2, 1, 'a', 0}, false, 0}, {"alpn-short", 16, []byte{0, 2, 1}, false, 0}, {"alpn-none", 16, []byte{}, false, 0},
		{"cookie", 44, []byte{0, 1, 9}, true, 1}, {"cookie-tail", 44, []byte{0, 1, 9, 9}, false, 1},
		{"early", 42, []byte{}, true, 2}, {"early-tail", 42, []byte{0}, false, 2},
		{"versions", 43, []byte{2, 3, 4}, true, 3}, {"versions-odd", 43, []byte{3, 3, 4, 3}, false, 3},
		{"unknown", 0x1a1a, []byte{1, 2}, true, -1}, {"unknown2", 0x2a2a, []byte{}, true, -1},
	}
	var run func(l []c16Item)
	one := func(l []c16Item) {
		var names []string
		var el mint.ExtensionList
		for _, it := range l {
			names = append(names, it.name)
			el = append(el, mint.Extension{ExtensionType: mint.ExtensionType(it.typ), ExtensionData: append([]byte{}, it.data...)})
		}
		l = append([]c16Item{}, l...)
		cs.Add("list/["+strings.Join(names, " ")+"]", func(c *Case) {
			// what is there, per target
			const absent, good, bad = 0, 1, 2
			var state [4]int
			var data [4][]byte
			for _, it := range l {
				if it.known < 0 {
					continue
				}
				switch {
				case !it.good || state[it.known] != absent:
					state[it.known] = bad
				default:
					state[it.known] = good
					data[it.known] = it.data
				}
			}
			for i, tg := range c16Targets {
				dst := tg.fresh()
				var found bool
				var err error
				if p := recovered(func() { found, err = el.Find(dst) }); p != "" {
					c.Fail("panic", "Find: %s", p)
				}
				if (err != nil) != (state[i] == bad) || err == nil && found != (state[i] == good) {
					c.Fail("find", "Find of type %d in %v: %v, %v; want state %d", tg.typ, names, found, err, state[i])
				}
				if state[i] == good {
					if w, err := dst.Marshal(); err != nil || !bytes.Equal(w, data[i]) {
						c.Fail("find", "Find of type %d in %v gives %x (%v), want %x", tg.typ, names, w, err, data[i])
					}
				}
			}
			for m := 0; m < 16; m++ {
				var dsts []mint.ExtensionBody
				var idx []int
				wantErr := false
				for i, tg := range c16Targets {
					if m>>uint(i)&1 == 1 {
						dsts = append(dsts, tg.fresh())
						idx = append(idx, i)
						wantErr = wantErr || state[i] == bad
					}
				}
				if m&5 == 5 { // another order
					for i, j := 0, len(dsts)-1; i < j; i, j = i+1, j-1 {
						dsts[i], dsts[j] = dsts[j], dsts[i]
						idx[i], idx[j] = idx[j], idx[i]
					}
				}
				var found map[mint.ExtensionType]bool
				var err error
				if p := recovered(func() { found, err = el.Parse(dsts) }); p != "" {
					c.Fail("panic", "Parse: %s", p)
				}
				if (err != nil) != wantErr {
					c.Fail("parse", "Parse of %v for set %b: error %v, want error=%v", names, m, err, wantErr)
				}
				if wantErr {
					continue
				}
				n := 0
				for j, i := range idx {
					if found[mint.ExtensionType(c16Targets[i].typ)] != (state[i] == good) {
						c.Fail("parse", "Parse of %v for set %b reports %v", names, m, found)
					}
					if state[i] == good {
						n++
						if w, err := dsts[j].Marshal(); err != nil || !bytes.Equal(w, data[i]) {
							c.Fail("parse", "Parse of %v gives %x (%v), want %x", names, w, err, data[i])
						}
					}
				}
				for k, v := range found {
					if v {
						n--
						_ = k
					}
				}
				if n != 0 {
					c.Fail("parse", "Parse of %v for set %b reports %v", names, m, found)
				}
			}
			c.Count(20)
		})
	}
	depth := x.Pick(3, 4)
	run = func(l []c16Item) {
		one(l)
		if len(l) < depth {
			for _, it := range items {
				run(append(l[:len(l):len(l)], it))
			}
		}
	}
	run(nil)
	// Add
	type op struct {
		name string
		b    mint.ExtensionBody
		typ  uint16
		data []byte // nil: cannot be encoded
	}
	sni, none := mint.ServerNameExtension("h"), mint.ServerNameExtension("")
	ops := []op{
		{"alpn", &mint.ALPNExtension{Protocols: []string{"a"}}, 16, []byte{0, 2, 1, 'a'}},
		{"alpn2", &mint.ALPNExtension{Protocols: []string{"b", "c"}}, 16, []byte{0, 4, 1, 'b', 1, 'c'}},
		{"alpn-bad", &mint.ALPNExtension{}, 16, nil},
		{"sni", &sni, 0, []byte{0, 4, 0, 0, 1, 'h'}},
		{"sni-bad", &none, 0, nil},
		{"early", &mint.EarlyDataExtension{}, 42, []byte{}},
		{"cookie", &mint.CookieExtension{Cookie: []byte{1}}, 44, []byte{0, 1, 1}},
	}
	var grow func(l []op)
	grow = func(l []op) {
		var names []string
		for _, o := range l {
			names = append(names, o.name)
		}
		l = append([]op{}, l...)
		cs.Add("add/["+strings.Join(names, " ")+"]", func(c *Case) {
			var el mint.ExtensionList
			var model []c16Item
			for _, o := range l {
				err := el.Add(o.b)
				if (err == nil) != (o.data != nil) {
					c.Fail("add", "Add(%s) in %v: %v", o.name, names, err)
				}
				if o.data == nil {
					continue
				}
				done := false
				for i := range model {
					if model[i].typ == o.typ {
						model[i].data = o.data
						done = true
					}
				}
				if !done {
					model = append(model, c16Item{typ: o.typ, data: o.data})
				}
			}
			w := &buf{b: []byte{}}
			for _, m := range model {
				w.u16(int(m.typ))
				w.v16(m.data)
			}
			want := c16w(func(b *buf) { b.v16(w.b) })
			got, err := el.Marshal()
			if err != nil || !bytes.Equal(got, want) {
				c.Fail("add", "%v gives %x (%v), want %x", names, got, err, want)
			}
		})
		if len(l) < x.Pick(4, 5) {
			for _, o := range ops {
				grow(append(l[:len(l):len(l)], o))
			}
		}
	}
	grow(nil)
}
