package vharness

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bifurcation/mint"
)

// quietly runs f, in which the outcome of a handshake does not matter, and
// tells if it came to its end.
func quietly(c *Case, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case peerError:
				c.Log("peer: %v", r)
			case caseAbort:
				c.failed, c.kind, c.detail = false, "", ""
			default:
				panic(r)
			}
		}
	}()
	f()
	return true
}

// c14After calls everything there is to call.
func c14After(e *End) {
	c := e.C
	buf := make([]byte, 2000)
	for k := 0; k < 2; k++ {
		for i := 0; i < 4; i++ {
			c.Read(buf)
		}
		e.Step()
		c.Write([]byte("data"))
		c.SendKeyUpdate(k == 0)
		c.Writable()
		c.ConnectionState()
		c.GetHsState()
		c.ComputeExporter("label", nil, 16)
		if e.W.dgram {
			c.GetDTLSTimeout()
		}
		if k == 0 {
			e.W.take()
			c.Close()
		}
	}
}

const c14NOps = 23

// c14Apply alters a message with a header of hl bytes; nil: nothing to do.
func c14Apply(raw []byte, hl, p, op int) []byte {
	if p >= len(raw) {
		return nil
	}
	b := append([]byte{}, raw...)
	fix := func(b []byte) []byte {
		n := len(b) - hl
		if n < 0 {
			return nil
		}
		b[1], b[2], b[3] = byte(n>>16), byte(n>>8), byte(n)
		if hl == 12 {
			b[9], b[10], b[11] = b[1], b[2], b[3]
		}
		return b
	}
	set := func(v byte) []byte {
		if b[p] == v {
			return nil
		}
		b[p] = v
		return b
	}
	body := p >= hl
	switch op {
	case 0, 1, 2, 3, 4:
		return set([]byte{0, 255, 128, 127, 1}[op])
	case 5:
		return set(b[p] ^ 1)
	case 6:
		return set(b[p] + 1)
	case 7:
		return set(b[p] - 1)
	case 8, 9, 10:
		if p+1 < len(b) {
			binary.BigEndian.PutUint16(b[p:], []uint16{0, 0xffff, 0x3fff}[op-8])
			return b
		}
	case 11, 12:
		if p+2 < len(b) {
			v := []byte{255, 0}[op-11]
			b[p], b[p+1], b[p+2] = v, v, v
			return b
		}
	case 13:
		if body {
			return fix(b[:p])
		}
	case 14:
		return b[:p]
	case 15:
		if body {
			return fix(append(b[:p], raw[p+1:]...))
		}
	case 16, 17:
		if body {
			return fix(append(append(append([]byte{}, raw[:p]...), []byte{0, 255}[op-16]), raw[p:]...))
		}
	case 18:
		if p == 0 {
			return fix(append(b, 0))
		}
	case 19:
		if p == 0 {
			return fix(append(b, make([]byte, 100)...))
		}
	case 20:
		if p == 0 {
			return fix(append(b, raw[hl:]...))
		}
	case 21:
		if p == 0 {
			return fix(append(b, make([]byte, 17000)...))
		}
	case 22:
		if body && p+8 <= len(raw) {
			return fix(append(b[:p], raw[p+8:]...))
		}
	}
	return nil
}

func c14Run(c *Case, o c23Opt, mut func(p *Puppet)) (done bool) {
	var e *End
	var p *Puppet
	poke := o.poke
	o.poke = func(stage string, ee *End, pp *Puppet) {
		e, p = ee, pp
		if stage == "start" {
			mut(p)
		}
		if poke != nil {
			poke(stage, ee, pp)
		}
	}
	done = quietly(c, func() { c23Hs(c, o) })
	c14After(e)
	c.Traces(1)
	if e != nil {
		c.Outcome(fmt.Sprintf("%v/%v/%v", e.C.ConnectionState().HandshakeState, e.Failed, e.W.closed > 0))
	}
	return
}

// c14Lens finds the length of every message the reference peer sends.
func c14Lens(c *Case, o c23Opt) (lens []int) {
	ok := c14Run(c, o, func(p *Puppet) {
		p.mutMsg = func(i int, raw []byte) []byte {
			lens = append(lens, len(raw))
			return raw
		}
	})
	if !ok {
		c.Fail("handshake", "the unaltered handshake does not complete")
	}
	return
}

// c14PSK is the first identity and its binder.
func c14PSK(d []byte) (id pskID, binder []byte) {
	n := int(d[2])<<8 + int(d[3])
	a := d[4+n:]
	id = pskID{d[4 : 4+n], uint32(a[0])<<24 + uint32(a[1])<<16 + uint32(a[2])<<8 + uint32(a[3])}
	rest := d[2+int(d[0])<<8+int(d[1])+2:]
	return id, rest[1 : 1+int(rest[0])]
}

func c14Opts() (out []c23Opt) {
	for _, dtls := range []bool{false, true} {
		for _, client := range []bool{true, false} {
			base := c23Opt{dtls: dtls, client: client, suite: 0x1301, group: gX25519}
			add := func(f func(o *c23Opt)) {
				o := base
				f(&o)
				out = append(out, o)
			}
			add(func(o *c23Opt) { o.mode = "cert" })
			add(func(o *c23Opt) { o.mode = "cert"; o.cr = true; o.group = gP256 })
			add(func(o *c23Opt) { o.mode = "cert"; o.retry = true })
			add(func(o *c23Opt) { o.mode = "psk" })
			add(func(o *c23Opt) { o.mode = "ticket-ke"; o.suite = 0x1302 })
			if !dtls {
				add(func(o *c23Opt) { o.mode = "ticket"; o.early = "accept" })
				add(func(o *c23Opt) { o.mode = "psk"; o.early = "reject" })
			}
		}
	}
	return
}

// ---- key exchange ---------------------------------------------------------

func c14BadShares(g uint16) (out [][]byte) {
	un := func(s string) []byte { b, _ := hex.DecodeString(s); return b }
	good := newKE(g).pub
	add := func(b []byte) { out = append(out, b) }
	for _, n := range []int{0, 1, 2, len(good) - 1, len(good) + 1, 2 * len(good)} {
		b := make([]byte, n)
		copy(b, good)
		add(b)
	}
	switch g {
	case gX25519:
		for _, s := range []string{
			"0000000000000000000000000000000000000000000000000000000000000000",
			"0100000000000000000000000000000000000000000000000000000000000000",
			"e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
			"5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
			"ecffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
			"edffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
			"eeffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff7f",
		} {
			add(un(s))
			b := un(s) // the top bit is to be ignored
			b[31] |= 0x80
			add(b)
		}
	case gP256, gP384, gP521:
		n := (len(good) - 1) / 2
		z := make([]byte, len(good))
		add(append([]byte{}, z...))
		z[0] = 4
		add(append([]byte{}, z...)) // (0, 0)
		add([]byte{0})              // infinity
		add([]byte{4})
		crv := map[uint16]elliptic.Curve{gP256: elliptic.P256(), gP384: elliptic.P384(), gP521: elliptic.P521()}[g]
		prm := crv.Params()
		for _, i := range []int{1, n, n + 1, 2 * n} { // off the curve
			for _, bit := range []byte{1, 0x10} {
				b := append([]byte{}, good...)
				b[i] ^= bit
				add(b)
			}
		}
		for _, f := range []byte{0, 1, 2, 3, 5, 6, 7, 0x44, 0xff} {
			b := append([]byte{}, good...)
			b[0] = f
			add(b)
			add(append([]byte{f}, good[1:1+n]...))
		}
		// coordinates that are not reduced, of an otherwise valid point
		x := new(big.Int).SetBytes(good[1 : 1+n])
		y := new(big.Int).SetBytes(good[1+n:])
		for _, k := range []int{0, 1} {
			xx, yy := new(big.Int).Set(x), new(big.Int).Set(y)
			if k == 0 {
				xx.Add(xx, prm.P)
			} else {
				yy.Add(yy, prm.P)
			}
			if len(xx.Bytes()) <= n && len(yy.Bytes()) <= n {
				add(append([]byte{4}, append(xx.FillBytes(make([]byte, n)), yy.FillBytes(make([]byte, n))...)...))
			}
		}
		// the point (0, sqrt(b)) is valid; (p, sqrt(b)) is its unreduced form
		if rt := new(big.Int).ModSqrt(prm.B, prm.P); rt != nil {
			add(append([]byte{4}, append(prm.P.FillBytes(make([]byte, n)), rt.FillBytes(make([]byte, n))...)...))
		}
		for _, v := range []*big.Int{prm.P, new(big.Int).Sub(prm.P, big.NewInt(1)), prm.N} {
			add(append([]byte{4}, append(v.FillBytes(make([]byte, n)), v.FillBytes(make([]byte, n))...)...))
		}
		// a point of the wrong curve, and of the twist
		for _, og := range []uint16{gP256, gP384, gP521} {
			if og != g {
				add(newKE(og).pub)
			}
		}
		for t := int64(1); ; t++ {
			// a point of y^2 = x^3 - 3x + b' with another b'
			xx, yy := big.NewInt(t), big.NewInt(t+1)
			if !crv.IsOnCurve(xx, yy) {
				add(append([]byte{4}, append(xx.FillBytes(make([]byte, n)), yy.FillBytes(make([]byte, n))...)...))
				if t > 3 {
					break
				}
			}
		}
		for i := range []int{0, 1, 2} {
			b := make([]byte, len(good))
			for j := range b {
				b[j] = []byte{0xff, 0x80, 0x01}[i]
			}
			b[0] = 4
			add(b)
		}
	case gFF2048:
		p := ff2048()
		one := big.NewInt(1)
		for _, v := range []*big.Int{big.NewInt(0), one, new(big.Int).Sub(p, one), p, new(big.Int).Add(p, one), new(big.Int).Add(p, big.NewInt(2)),
			new(big.Int).Sub(new(big.Int).Lsh(one, 2048), one)} {
			add(v.FillBytes(make([]byte, 256)))
			add(v.Bytes())
		}
	}
	return
}

// c14KE gives an endpoint a public value that is not one.
func c14KE(c *Case, client, dtls bool, g uint16, psk bool, bad []byte) {
	o := c23Opt{dtls: dtls, client: client, suite: 0x1301, group: g, mode: "cert"}
	if psk {
		o.mode = "psk"
	}
	var e *End
	var p *Puppet
	o.poke = func(stage string, ee *End, pp *Puppet) { e, p = ee, pp }
	// what the peer derives does not matter; it sends the value
	o.pick = func(int) *refKE {
		k := *newKE(g)
		k.pub = bad
		return &k
	}
	ok := quietly(c, func() { c23Hs(c, o) })
	if ok || e.Connected() {
		c.Fail("key-exchange", "the handshake completed with the public value %s of group %d", clip(hexOf(bad), 80), g)
	}
	if client {
		if !e.Failed {
			c.Fail("key-exchange", "the public value %s of group %d was not rejected (state %v)", clip(hexOf(bad), 80), g, e.C.GetHsState())
		}
	} else {
		for _, h := range p.Recs {
			if h.enc {
				c.Fail("key-exchange", "the server derived keys from the public value %s of group %d", clip(hexOf(bad), 80), g)
			}
		}
		if p.SH != nil && p.SH.Exts.has(xKeyShare) && !bytes.Equal(p.SH.Random, hrrRandom) {
			c.Fail("key-exchange", "the server selected the public value %s of group %d", clip(hexOf(bad), 80), g)
		}
		if !e.Failed && !(p.SH != nil) {
			c.Fail("key-exchange", "the public value %s of group %d was not rejected (state %v)", clip(hexOf(bad), 80), g, e.C.GetHsState())
		}
	}
	c14After(e)
	c.Traces(1)
}

// ---- resources ------------------------------------------------------------

// c14Heap measures how the live heap and the allocations grow while f feeds
// an endpoint n bytes.
func c14Heap(c *Case, what string, n int, keep *End, f func()) {
	limit := int64(12 << 20)
	if strings.HasPrefix(what, "a huge message") {
		limit = 64 << 20 // that is what such a message takes
	}
	var a, b runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	start := time.Now()
	f()
	took := time.Since(start)
	keep.W.in, keep.W.inPkts, keep.W.outs = nil, nil, nil // our own
	runtime.ReadMemStats(&b)
	total := int64(b.TotalAlloc - a.TotalAlloc)
	runtime.GC()
	runtime.ReadMemStats(&b)
	live := int64(b.HeapAlloc) - int64(a.HeapAlloc)
	runtime.KeepAlive(keep)
	if theT != nil && testing.Verbose() {
		fmt.Printf("HEAP %s %s: in %d live %d total %d %v\n", c.Name, what, n, live, total, took)
	}
	c.Log("%s: %d bytes in, %d live, %d allocated, %v", what, n, live, total, took)
	if live > limit {
		c.Fail("memory", "%s: %d bytes of input keep %d bytes of memory", what, n, live)
	}
	if total > 512<<20+int64(4000*n) {
		c.Fail("memory", "%s: %d bytes of input made it allocate %d bytes", what, n, total)
	}
	if took > 60*time.Second {
		c.Fail("slow", "%s: %d bytes of input took %v", what, n, took)
	}
}

func c14Resources(x *Ctx, cs *Cases) {
	for _, dtls := range []bool{false, true} {
		for _, client := range []bool{true, false} {
			dtls, client := dtls, client
			name := fmt.Sprintf("dtls=%v/client=%v", dtls, client)
			o := c23Opt{dtls: dtls, client: client, suite: 0x1301, group: gX25519, mode: "psk"}
			fresh := func() (*End, *Puppet) {
				cfg := serverCfg("p256")
				if client {
					cfg = clientCfg()
				}
				cfg.UseDTLS = dtls
				e := NewEnd(cfg, client)
				e.Step()
				return e, newPuppet(!client, e)
			}
			drive := func(e *End) {
				if !e.Connected() {
					e.Step()
					return
				}
				buf := make([]byte, 64)
				for i := 0; i < 1000 && e.W.pending() > 0; i++ {
					if _, err := e.C.Read(buf); err != nil && err != mint.AlertWouldBlock {
						return
					}
				}
			}
			// state: before anything, and connected
			for _, connected := range []bool{false, true} {
				connected := connected
				start := func(c *Case) (*End, *Puppet) {
					if connected {
						return c23Hs(c, o)
					}
					return fresh()
				}
				hsType := hCH
				if client {
					hsType = hSH
				}
				if connected {
					hsType = hKU
					if client {
						hsType = hNST
					}
				}
				nm := fmt.Sprintf("%s/connected=%v", name, connected)
				n := x.Pick(120000, 400000)
				if dtls {
					cs.Add("heap/claims/"+nm, func(c *Case) {
						e, p := start(c)
						fed := 0
						c14Heap(c, "fragments of huge messages", n*30, e, func() {
							for i := 0; i < n; i++ {
								p.SendRecord(rtHS, hsFrag(hsType, 0xffffff, (p.msgOut+i)&0xffff, 0xfffff0, []byte{1}))
								drive(e)
								e.W.take()
								if e.Failed || e.W.closed > 0 {
									break
								}
								fed += 30
							}
						})
					})
					cs.Add("heap/future/"+nm, func(c *Case) {
						e, p := start(c)
						c14Heap(c, "messages of the future", n*100, e, func() {
							for i := 0; i < n; i++ {
								p.SendRecord(rtHS, hsFrag(hsType, 70, (p.msgOut+1+i)&0xffff, 0, make([]byte, 70)))
								drive(e)
								e.W.take()
								if e.Failed || e.W.closed > 0 {
									break
								}
							}
						})
					})
					cs.Add("heap/pieces/"+nm, func(c *Case) {
						e, p := start(c)
						c14Heap(c, "one byte of a message at a time, again and again", n*30, e, func() {
							for i := 0; i < n/8; i++ {
								p.SendRecord(rtHS, hsFrag(hsType, 60000, p.msgOut, 2*(i%29000)+1, []byte{1}))
								drive(e)
								e.W.take()
								if e.Failed || e.W.closed > 0 {
									break
								}
							}
						})
					})
					cs.Add("heap/acks/"+nm, func(c *Case) {
						e, p := start(c)
						c14Heap(c, "acknowledgements", n*30, e, func() {
							for i := 0; i < n; i++ {
								p.SendRecord(rtAck, c18Ack(uint64(i), uint64(i)|1<<49))
								drive(e)
								e.W.take()
								if e.Failed || e.W.closed > 0 {
									break
								}
							}
						})
					})
					cs.Add("heap/old/"+nm, func(c *Case) {
						e, p := start(c)
						c14Heap(c, "records of another epoch", n*30, e, func() {
							for i := 0; i < n; i++ {
								r := append([]byte{22, 0xfe, 0xfd, 0, byte(i % 7), 0, 0, 0, 0, byte(i >> 8), byte(i), 0, 20}, hsFrag(hsType, 8, 0, 0, make([]byte, 8))...)
								p.emit(r)
								drive(e)
								e.W.take()
								if e.Failed || e.W.closed > 0 {
									break
								}
							}
						})
					})
				} else {
					cs.Add("heap/claim/"+nm, func(c *Case) {
						e, p := start(c)
						c14Heap(c, "a huge message in small records", n*10, e, func() {
							p.SendRecord(rtHS, []byte{byte(hsType), 255, 255, 255})
							for i := 0; i < n; i++ {
								p.SendRecord(rtHS, make([]byte, 5))
								drive(e)
								e.W.take()
								if e.Failed || e.W.closed > 0 {
									break
								}
							}
						})
					})
					cs.Add("heap/claim-big/"+nm, func(c *Case) {
						e, p := start(c)
						k := 1100
						c14Heap(c, "a huge message", k*16000, e, func() {
							p.SendRecord(rtHS, []byte{byte(hsType), 255, 255, 255})
							for i := 0; i < k; i++ {
								p.SendRecord(rtHS, make([]byte, 16000))
								drive(e)
								e.W.take()
								if e.Failed || e.W.closed > 0 {
									break
								}
							}
						})
					})
				}
				for _, ct := range []int{rtApp, rtHS, rtAlert, rtCCS, 99} {
					ct := ct
					cs.Add(fmt.Sprintf("heap/empty%d/%s", ct, nm), func(c *Case) {
						e, p := start(c)
						c14Heap(c, "empty records", n*30, e, func() {
							for k := 0; k < 4; k++ {
								for i := 0; i < n/4; i++ {
									p.SendRecord(ct, nil)
								}
								drive(e)
								e.W.take()
								if e.Failed || e.W.closed > 0 {
									break
								}
							}
						})
					})
				}
				cs.Add("heap/warnings/"+nm, func(c *Case) {
					e, p := start(c)
					c14Heap(c, "warnings", n*30, e, func() {
						for k := 0; k < 4; k++ {
							for i := 0; i < n/4; i++ {
								p.SendRecord(rtAlert, []byte{1, 90})
							}
							drive(e)
							e.W.take()
						}
					})
				})
			}
			for _, req := range []int{0, 1} {
				req := req
				cs.Add(fmt.Sprintf("heap/updates%d/%s", req, name), func(c *Case) {
					e, p := c23Hs(c, o)
					n := 66000
					if dtls && req == 1 {
						n = x.Pick(3000, 66000)
					}
					// the first is for what one connection needs anyway
					c14Heap(c, "key updates", n*40, e, func() {
						for i := 0; i < n; i++ {
							p.SendKU(req)
							for ep := range p.inByEp {
								if ep > 3 && ep+2 < p.in.epoch {
									delete(p.inByEp, ep)
								}
							}
							drive(e)
							if req == 1 {
								nums := []uint64{}
								if !quietly(c, func() { p.Drain() }) {
									break
								}
								for _, r := range p.Recs {
									if r.ct == rtHS {
										nums = append(nums, r.seq)
									}
								}
								if dtls {
									p.SendRecord(rtAck, c18Ack(nums...))
									drive(e)
								}
							} else {
								e.W.take()
							}
							p.Recs, p.Acks, p.KUs = nil, nil, nil
							if e.Failed || e.W.closed > 0 {
								break
							}
						}
					})
					c14After(e)
				})
			}
			if client {
				cs.Add("heap/tickets/"+name, func(c *Case) {
					e, p := c23Hs(c, o)
					n := 5000
					c14Heap(c, "tickets", n*100, e, func() {
						for i := 0; i < n; i++ {
							p.SendNST(&ticket{Lifetime: 100, AgeAdd: 7, Nonce: []byte{1}, Ticket: []byte(fmt.Sprint("ticket", i))})
							drive(e)
							e.W.take()
						}
					})
				})
			}
		}
	}
}

// c14Early floods a server with early data: whoever was given a ticket can.
func c14Early(x *Ctx, cs *Cases) {
	for _, dtls := range []bool{false, true} {
		for _, life := range []uint32{0, 100} {
			for _, reads := range []bool{false, true} {
				dtls, life, reads := dtls, life, reads
				cs.Add(fmt.Sprintf("heap/early/dtls=%v/announced=%d/reads=%v", dtls, life, reads), func(c *Case) {
					cfg := serverCfg("p256")
					cfg.UseDTLS, cfg.AllowEarlyData, cfg.EarlyDataLifetime = dtls, true, life
					key := []byte("a key for early data of 32 bytes")
					cfg.PSKs = &mint.PSKMapCache{hexOf([]byte("psk-id")): mintPSK(0x1301, []byte("psk-id"), key, true)}
					cfg.PSKModes = []mint.PSKKeyExchangeMode{mint.PSKModeDHEKE}
					e := NewEnd(cfg, false)
					p := newPuppet(true, e)
					h := defaultCH()
					h.PSKIDs, h.PSKKeys, h.PSKSuites, h.PSKRes = []pskID{{[]byte("psk-id"), 7}}, [][]byte{key}, []uint16{0x1301}, []bool{true}
					h.Modes, h.Early = []int{1}, true
					p.SendCH(h)
					if r := e.Step(); r != hsBlocked {
						c.Fail("handshake", "%v %v", r, e.Fail)
					}
					const size, batch, n = 16000, 32, 4096
					frag := bytes.Repeat([]byte{'e'}, size)
					buf := make([]byte, 1<<20)
					read := 0
					c14Heap(c, "early data", n*size, e, func() {
						for i := 0; i < n; i += batch {
							for k := 0; k < batch; k++ {
								p.SendApp(frag)
							}
							if e.Step() != hsBlocked || e.W.closed > 0 {
								break
							}
							for reads {
								m, err := e.C.Read(buf)
								read += m
								if err != nil || m == 0 {
									break
								}
							}
							e.W.take()
						}
					})
					if reads && !dtls && read != n*size {
						c.Fail("read", "of %d bytes of early data %d were read as they came", n*size, read)
					}
					c14After(e)
				})
			}
		}
	}
}

// ---- raw records ----------------------------------------------------------

func c14Raw(dtls bool, client bool) (out [][]byte) {
	seq := 0
	mk := func(ct, ver int, body []byte, claim int) {
		w := &buf{}
		w.u8(ct)
		w.u16(ver)
		if dtls {
			w.raw([]byte{0, 0, 0, 0, 0, 0, 0, byte(seq)})
		}
		w.u16(claim)
		w.raw(body)
		out = append(out, w.b)
	}
	ver := 0x0303
	if dtls {
		ver = 0xfefd
	}
	hs := func(t int, total int, body []byte) []byte {
		if dtls {
			return hsFrag(t, total, 0, 0, body)
		}
		return append([]byte{byte(t), byte(total >> 16), byte(total >> 8), byte(total)}, body...)
	}
	for _, ct := range []int{0, 20, 21, 22, 23, 24, 25, 26, 255} {
		for _, b := range [][]byte{nil, {0}, {1}, {1, 0}, {2, 40}, {2, 0, 2, 0}, make([]byte, 17), bytes.Repeat([]byte{255}, 40)} {
			mk(ct, ver, b, len(b))
		}
	}
	for _, t := range []int{0, 1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254, 255} {
		for _, b := range [][]byte{nil, {0}, make([]byte, 40)} {
			mk(22, ver, hs(t, len(b), b), len(hs(t, len(b), b)))
			mk(22, ver, hs(t, 0xffffff, b), len(hs(t, len(b), b)))
		}
	}
	for _, v := range []int{0, 0x0300, 0x0301, 0x0304, 0xfeff, 0xfefd, 0xffff} {
		mk(22, v, hs(1, 0, nil), len(hs(1, 0, nil)))
	}
	mk(22, ver, nil, 0xffff)
	mk(22, ver, nil, 16385)
	mk(22, ver, make([]byte, 16385), 16385)
	mk(23, ver, make([]byte, 16384+256), 16384+256)
	mk(23, ver, make([]byte, 16384+257), 16384+257)
	if dtls {
		for _, h := range []string{"16fefd0000ffffffffffff0000", "16fefd0001000000000000000c010000000000000000000000", "17fefdffff000000000001001100000000000000000000000000000000ff",
			"2e000000", "ff", "", "16fe", "16fefd00000000000000000100", "3c", "20ffff"} {
			b, _ := hex.DecodeString(h)
			out = append(out, b)
		}
		// fragments
		for _, f := range [][3]int{{10, 11, 0}, {10, 5, 6}, {0, 0, 1}, {0, 1, 0}, {10, 0xffffff, 1}, {0xffffff, 0xffffff, 0}, {0xffffff, 0xfffffe, 2}, {10, 10, 0}, {10, 3, 4}, {20, 3, 4}} {
			b := hsFrag(1, f[0], 0, f[1], make([]byte, f[2]))
			mk(22, ver, b, len(b))
			b = hsFrag(1, f[0], 0, f[1], make([]byte, 4))
			b[11] = byte(f[2])
			mk(22, ver, b, len(b))
		}
	}
	return
}

func c14RawRun(c *Case, client, dtls, blocking bool, recs ...[]byte) {
	cfg := serverCfg("p256")
	if client {
		cfg = clientCfg()
	}
	cfg.UseDTLS = dtls
	cfg.NonBlocking = !blocking
	e := NewEnd(cfg, client)
	e.W.block = blocking
	if !blocking {
		e.Step()
	}
	for _, r := range recs {
		e.W.feed(r)
		if !blocking {
			e.Step()
		}
	}
	if blocking {
		e.W.eof = len(recs)%2 == 0
		if a := e.C.Handshake(); a == mint.AlertNoAlert && e.Connected() {
			c.Fail("connected", "garbage completed a handshake")
		}
	}
	if e.Connected() {
		c.Fail("connected", "garbage completed a handshake")
	}
	c14After(e)
}

// ---- certificates ---------------------------------------------------------

var c14Keys = sync.OnceValue(func() map[string]*ident {
	p := thePKI()
	out := map[string]*ident{}
	for _, n := range []string{"p256", "p384", "p521", "rsa"} {
		out[n] = id(n)
	}
	good := []string{goodName}
	mk := func(n string, k crypto.Signer) {
		q := *p
		q.ids = map[string]*ident{}
		out[n] = q.leaf(n, k, leafOpt{names: good})
	}
	mk("ed25519", ed25519.NewKeyFromSeed(make([]byte, 32)))
	mk("p224", must(ecdsa.GenerateKey(elliptic.P224(), rand.Reader)))
	mk("rsa1024", must(rsa.GenerateKey(rand.Reader, 1024)))
	return out
})

// c14Auth authenticates with any certificate, scheme and signature.
func c14Auth(c *Case, client, dtls, verify bool, chain [][]byte, scheme int, sig []byte) {
	if client { // a real client
		cfg := clientCfg()
		cfg.UseDTLS = dtls
		cfg.InsecureSkipVerify = !verify
		e := NewEnd(cfg, true)
		p := newPuppet(false, e)
		ok := quietly(c, func() {
			e.Step()
			p.RecvCH()
			p.SendSH(p.DefaultSH(0x1301, gX25519, false), gX25519)
			p.SendEE(nil)
			p.SendMsg(hCert, certBody(nil, chain))
			e.Step()
			p.SendMsg(hCV, cvBody(uint16(scheme), sig))
			e.Step()
			p.SendServerFin()
			e.Step()
		})
		_ = ok
		if e.Connected() {
			c.Fail("auth", "completed with a made-up signature %s under scheme %04x", clip(hexOf(sig), 60), scheme)
		}
		c14After(e)
		return
	}
	cfg := serverCfg("p256")
	cfg.UseDTLS = dtls
	cfg.RequireClientAuth = true
	e := NewEnd(cfg, false)
	p := newPuppet(true, e)
	quietly(c, func() {
		p.SendCH(defaultCH())
		e.Step()
		p.RecvSH()
		p.RecvServerFlight()
		p.SendMsg(hCert, certBody(nil, chain))
		e.Step()
		p.SendMsg(hCV, cvBody(uint16(scheme), sig))
		e.Step()
		p.SendClientFin()
		e.Step()
	})
	if e.Connected() && len(chain) > 0 {
		c.Fail("auth", "completed with a made-up signature %s under scheme %04x", clip(hexOf(sig), 60), scheme)
	}
	c14After(e)
}

// ---- connected ------------------------------------------------------------

// c14Post gives a connected endpoint one altered message, in one or two records.
func c14Post(c *Case, o c23Opt, raw []byte, split int) {
	e, p := c23Hs(c, o)
	if split > 0 && split < len(raw) && !o.dtls {
		p.SendRecord(rtHS, raw[:split])
		e.C.Read(make([]byte, 10))
		raw = raw[split:]
	}
	if o.dtls && len(raw) > 6 {
		binary.BigEndian.PutUint16(raw[4:], uint16(p.msgOut))
	}
	p.SendRaw(raw)
	e.ReadAll(100)
	c14After(e)
}

func init() {
	register("C14", "exploration", func(x *Ctx) {
		x.Rule("every message of every handshake variant with every byte set to boundary values, every 16- and 24-bit window set to its extremes, cut, shortened, lengthened and doubled at every position, correctly protected and in the transcript; every record header byte, content type and inner plaintext form; all sequences of hostile cleartext records; invalid public values of every group; every certificate, scheme and signature form; floods; and after each of them every call of the interface: no panic, no endless loop, bounded memory")
		cs := &Cases{}
		heap := &Cases{}
		c14Resources(x, heap)
		c14Early(x, heap)

		// 1. every message of every variant
		lens := map[string][]int{}
		base := &Cases{}
		var mu sync.Mutex
		for _, o := range c14Opts() {
			o := o
			base.Add("lens/"+o.String(), func(c *Case) {
				l := c14Lens(c, o)
				mu.Lock()
				lens[o.String()] = l
				mu.Unlock()
			})
		}
		f := x.filter
		x.filter = ""
		x.Run(base, 0)
		x.filter = f
		for _, o := range c14Opts() {
			hl := 4
			if o.dtls {
				hl = 12
			}
			for i, n := range lens[o.String()] {
				for pos := 0; pos < n+2; pos++ {
					o, i, pos := o, i, pos
					cs.Add(fmt.Sprintf("msg/%v/%d/%d", o, i, pos), func(c *Case) {
						for op := 0; op < c14NOps; op++ {
							did := false
							c.Log("operation %d", op)
							c14Run(c, o, func(p *Puppet) {
								p.mutMsg = func(k int, raw []byte) []byte {
									if k == i {
										if m := c14Apply(raw, hl, pos, op); m != nil {
											did = true
											return m
										}
									}
									return raw
								}
							})
							if did {
								c.Count(1)
							} else if pos > 0 && op >= 18 && op <= 21 {
								op = 21
							}
						}
					})
				}
			}
			// extensions of a ClientHello under a correct binder
			if !o.client {
				for pos := 0; pos < 130; pos++ {
					for _, second := range []bool{false, true} {
						if second && !o.retry {
							continue
						}
						o, pos, second := o, pos, second
						cs.Add(fmt.Sprintf("bound/%v/%d/%v", o, pos, second), func(c *Case) {
							for op := 0; op < 18; op++ {
								oo := o
								count := 0
								oo.chMut = func(ch *CHello) {
									count++
									if second && count == 1 {
										return
									}
									ch.Exts.set(xALPN, alpnData([]string{"h2", "http/1.1"}))
									at := pos
									for j := range ch.Exts {
										d := ch.Exts[j].D
										if at < len(d) {
											m := append([]byte{}, d...)
											switch op {
											case 13:
												m = m[:at]
											case 15:
												m = append(m[:at], d[at+1:]...)
											case 16, 17:
												m = append(append(append([]byte{}, d[:at]...), []byte{0, 255}[op-16]), d[at:]...)
											case 14:
												m = append(m, make([]byte, 1+at*100)...)
											default:
												if m = c14Apply(m, 0, at, op); m == nil {
													return
												}
											}
											ch.Exts[j].D = m
											return
										}
										at -= len(d)
									}
								}
								c14Run(c, oo, func(*Puppet) {})
								c.Count(1)
							}
						})
					}
				}
			}
		}
		// pairs of alterations of the short messages
		step := x.Pick(31, 2)
		for _, o := range c14Opts() {
			if o.mode == "cert" && o.cr || (o.dtls && !x.Thorough()) {
				continue
			}
			hl := 4
			if o.dtls {
				hl = 12
			}
			for i, n := range lens[o.String()] {
				if n > 260 {
					continue
				}
				for a := 0; a < n; a += 1 {
					o, i, a, n := o, i, a, n
					cs.Add(fmt.Sprintf("pair/%v/%d/%d", o, i, a), func(c *Case) {
						for b := a + 1 + a%step; b < n; b += step {
							for _, ops := range [][2]int{{5, 5}, {0, 0}, {1, 1}, {7, 6}, {6, 7}, {7, 15}, {0, 13}} {
								c14Run(c, o, func(p *Puppet) {
									p.mutMsg = func(k int, raw []byte) []byte {
										if k == i {
											if m := c14Apply(raw, hl, a, ops[0]); m != nil {
												raw = m
											}
											if m := c14Apply(raw, hl, b, ops[1]); m != nil {
												raw = m
											}
										}
										return raw
									}
								})
								c.Count(1)
							}
						}
					})
				}
			}
		}

		// 2. records
		for _, o := range c14Opts() {
			hl := 5
			if o.dtls {
				hl = 13
			}
			for i := 0; i < 8; i++ {
				for pos := 0; pos < hl; pos++ {
					o, i, pos := o, i, pos
					cs.Add(fmt.Sprintf("header/%v/%d/%d", o, i, pos), func(c *Case) {
						for v := 0; v < 256; v++ {
							if !x.Thorough() && v > 6 && (v < 18 || v > 30) && v < 252 && v&(v-1) != 0 && v&(v+1) != 0 {
								continue
							}
							k := 0
							c14Run(c, o, func(p *Puppet) {
								p.record = func(raw []byte) []byte {
									if k == i && len(raw) > pos {
										raw = append([]byte{}, raw...)
										raw[pos] = byte(v)
									}
									k++
									return raw
								}
							})
							c.Count(1)
						}
					})
				}
				o, i := o, i
				cs.Add(fmt.Sprintf("cut/%v/%d", o, i), func(c *Case) {
					for cut := 0; cut < 60; cut++ {
						for _, fix := range []bool{false, true} {
							k := 0
							c14Run(c, o, func(p *Puppet) {
								p.record = func(raw []byte) []byte {
									k++
									if k-1 != i || cut >= len(raw) {
										return raw
									}
									n := cut
									if cut >= 30 {
										n = len(raw) - (cut - 29)
									}
									if n < 0 {
										n = 0
									}
									raw = append([]byte{}, raw[:n]...)
									if fix && n >= hl {
										binary.BigEndian.PutUint16(raw[hl-2:], uint16(n-hl))
									}
									return raw
								}
							})
							c.Count(1)
						}
					}
				})
				cs.Add(fmt.Sprintf("inner/%v/%d", o, i), func(c *Case) {
					var forms [][]byte
					for t := 0; t < 256; t++ {
						if !x.Thorough() && o.mode != "psk" && t > 30 && t < 252 {
							continue
						}
						for _, b := range [][]byte{nil, {0}, {1, 0}, {0, 0}, {24, 0, 0, 1, 2}, {1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}} {
							forms = append(forms, append(append([]byte{}, b...), byte(t)))
						}
					}
					forms = append(forms, nil)
					for _, n := range []int{1, 2, 17, 100, 16384, 16385, 16386, 16640, 17000} {
						forms = append(forms, make([]byte, n))
						b := make([]byte, n)
						b[n-1] = 22
						forms = append(forms, b)
						b = make([]byte, n)
						b[n-1] = 23
						forms = append(forms, b)
						b = make([]byte, n)
						b[0] = 23
						forms = append(forms, b)
					}
					for _, fm := range forms {
						c14Run(c, o, func(p *Puppet) {
							p.mutInner = func(k, ct int, inner []byte) []byte {
								if k == i {
									return fm
								}
								return inner
							}
						})
						c.Count(1)
					}
				})
			}
		}
		// all sequences of hostile records
		for _, dtls := range []bool{false, true} {
			for _, client := range []bool{true, false} {
				raws := c14Raw(dtls, client)
				for i := range raws {
					dtls, client, i := dtls, client, i
					cs.Add(fmt.Sprintf("raw/dtls=%v/client=%v/%d", dtls, client, i), func(c *Case) {
						c14RawRun(c, client, dtls, true, raws[i])
						c14RawRun(c, client, dtls, false, raws[i])
						for j := range raws {
							c14RawRun(c, client, dtls, true, raws[i], raws[j])
							c14RawRun(c, client, dtls, false, raws[i], raws[j])
							c.Count(2)
							if x.Thorough() {
								for k := range raws {
									c14RawRun(c, client, dtls, false, raws[i], raws[j], raws[k])
								}
								c.Count(len(raws))
							}
						}
					})
				}
			}
		}

		// 3. key exchange
		for _, g := range []uint16{gX25519, gP256, gP384, gP521, gFF2048} {
			for i, bad := range c14BadShares(g) {
				for _, dtls := range []bool{false, true} {
					for _, client := range []bool{true, false} {
						for _, psk := range []bool{false, true} {
							g, i, bad, dtls, client, psk := g, i, bad, dtls, client, psk
							cs.Add(fmt.Sprintf("share/%d/%d/dtls=%v/client=%v/psk=%v", g, i, dtls, client, psk), func(c *Case) { c14KE(c, client, dtls, g, psk, bad) })
						}
					}
				}
			}
		}

		// 4. certificates and signatures
		schemes := []int{0, 0x0101, 0x0201, 0x0203, 0x0401, 0x0501, 0x0601, 0x0402, 0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806, 0x0807, 0x0808, 0x0809, 0x080a, 0x080b, 0x0420, 0xfefe, 0xffff}
		sigs := [][]byte{nil, {0}, {0x30}, {0x30, 0}, {0x30, 6, 2, 1, 0, 2, 1, 0}, {0x30, 6, 2, 1, 1, 2, 1, 1}, {0x30, 8, 2, 2, 0xff, 0xff, 2, 2, 0xff, 0xff}, {0x30, 0x80, 2, 1, 1, 2, 1, 1, 0, 0},
			make([]byte, 32), make([]byte, 64), make([]byte, 127), make([]byte, 128), make([]byte, 255), make([]byte, 256), make([]byte, 257), bytes.Repeat([]byte{255}, 256), bytes.Repeat([]byte{255}, 128), make([]byte, 16000)}
		for name := range c14Keys() {
			for _, client := range []bool{true, false} {
				for _, dtls := range []bool{false, true} {
					name, client, dtls := name, client, dtls
					for _, s := range schemes {
						s := s
						cs.Add(fmt.Sprintf("auth/%s/client=%v/dtls=%v/%04x", name, client, dtls, s), func(c *Case) {
							for _, sig := range sigs {
								for _, verify := range []bool{true, false} {
									c14Auth(c, client, dtls, verify, c14Keys()[name].raws(), s, sig)
									c.Count(1)
								}
							}
						})
					}
				}
			}
		}
		good := id("p256").raws()[0]
		chains := map[string][][]byte{"none": nil, "empty": {{}}, "empty-second": {good, {}}, "garbage": {{1, 2, 3}}, "garbage-second": {good, {0x30, 0x80}}, "half": {good[:len(good)/2]},
			"trailing": {append(append([]byte{}, good...), 0)}, "twice": {good, good}, "zeros": {make([]byte, 60000)}}
		var many [][]byte
		for i := 0; i < 400; i++ {
			many = append(many, good)
		}
		chains["many"] = many
		chains["many-empty"] = make([][]byte, 5000)
		for n, ch := range chains {
			for _, client := range []bool{true, false} {
				for _, dtls := range []bool{false, true} {
					n, ch, client, dtls := n, ch, client, dtls
					cs.Add(fmt.Sprintf("chain/%s/client=%v/dtls=%v", n, client, dtls), func(c *Case) {
						for _, verify := range []bool{true, false} {
							c14Auth(c, client, dtls, verify, ch, 0x0403, []byte{1, 2, 3})
						}
					})
				}
			}
		}

		// 5. connected
		for _, dtls := range []bool{false, true} {
			for _, client := range []bool{true, false} {
				o := c23Opt{dtls: dtls, client: client, suite: 0x1301, group: gX25519, mode: "psk-ke"}
				hl := 4
				if dtls {
					hl = 12
				}
				frame := func(t int, b []byte) []byte {
					if dtls {
						return hsFrag(t, len(b), 0, 0, b)
					}
					return hsMsg(t, b)
				}
				tk := (&ticket{Lifetime: 100, AgeAdd: 7, Nonce: []byte{1, 2, 3}, Ticket: []byte("a ticket of some length"), Exts: Exts{{xEarly, []byte{0, 0, 0, 1}}, {0x1234, []byte{1}}}}).marshal()
				bodies := map[string][]byte{"nst": frame(hNST, tk), "ku": frame(hKU, []byte{1}), "ku0": frame(hKU, []byte{0})}
				for t := 0; t < 256; t++ {
					dtls, client, t := dtls, client, t
					cs.Add(fmt.Sprintf("post-type/dtls=%v/client=%v/%d", dtls, client, t), func(c *Case) {
						for _, n := range []int{0, 1, 2, 4, 32, 200, 16000, 20000} {
							if dtls && n > 16000 {
								continue
							}
							for _, fill := range []byte{0, 1, 255} {
								c14Post(c, o, frame(t, bytes.Repeat([]byte{fill}, n)), 0)
								c.Count(1)
							}
						}
					})
				}
				for name, raw := range bodies {
					for pos := range raw {
						name, raw, pos := name, raw, pos
						cs.Add(fmt.Sprintf("post/dtls=%v/client=%v/%s/%d", o.dtls, o.client, name, pos), func(c *Case) {
							for op := 0; op < c14NOps; op++ {
								if m := c14Apply(raw, hl, pos, op); m != nil {
									for _, split := range []int{0, 1, 3, 5, 9} {
										c14Post(c, o, append([]byte{}, m...), split)
										c.Count(1)
									}
								}
							}
							c14Post(c, o, append([]byte{}, raw...), pos)
						})
					}
				}
				cs.Add(fmt.Sprintf("post-inner/dtls=%v/client=%v", dtls, client), func(c *Case) {
					for t := 0; t < 256; t++ {
						for _, b := range [][]byte{nil, {0}, {1}, {1, 0}, {2, 0}, {0, 0}, {2, 40, 0}, {0, 8, 0, 3, 0, 0, 0, 0, 0, 0}, {0, 7, 0, 0, 0, 0, 0, 0, 0}, {255, 255}, make([]byte, 16384), make([]byte, 16385)} {
							for _, pad := range []int{0, 1, 255} {
								e, p := c23Hs(c, o)
								p.emit(p.sealRecord(p.out, t, b, pad))
								e.ReadAll(50)
								c14After(e)
								c.Count(1)
							}
						}
					}
				})
				// alerts of every level and description, before and after
				cs.Add(fmt.Sprintf("post-alerts/dtls=%v/client=%v", dtls, client), func(c *Case) {
					for lv := 0; lv < 4; lv++ {
						for d := 0; d < 256; d++ {
							e, p := c23Hs(c, o)
							p.SendAlert(lv, d)
							p.SendApp([]byte("more"))
							e.ReadAll(50)
							c14After(e)
							c.Count(1)
						}
					}
				})
			}
		}
		// lists of identities and of binders that do not fit together
		for _, o := range c14Opts() {
			if o.client || !strings.HasPrefix(o.mode, "psk") && !strings.HasPrefix(o.mode, "ticket") {
				continue
			}
			o := o
			cs.Add(fmt.Sprintf("psk-list/%v", o), func(c *Case) {
				for ids := 0; ids < 4; ids++ {
					for known := -1; known < ids; known++ {
						for n := 0; n < 5; n++ {
							for _, size := range []int{0, 1, 31, 32, 33, 48, 64, 255} {
								for right := -1; right < n; right++ {
									c14Run(c, o, func(p *Puppet) {
										p.mutMsg = func(k int, raw []byte) []byte {
											if k != 0 || len(p.CH.Exts) == 0 {
												return raw
											}
											last := &p.CH.Exts[len(p.CH.Exts)-1]
											if last.T != xPSK {
												return raw
											}
											id, binder := c14PSK(last.D)
											var l []pskID
											for i := 0; i < ids; i++ {
												if l = append(l, pskID{[]byte{byte(i)}, 0}); i == known {
													l[i] = id
												}
											}
											var b [][]byte
											for i := 0; i < n; i++ {
												if b = append(b, make([]byte, size)); i == right {
													b[i] = binder
												}
											}
											last.D = pskData(l, b)
											return p.frame(hCH, p.CH.marshal(p.dtls))
										}
									})
									c.Count(1)
								}
							}
						}
					}
				}
			})
		}
		// cookies, whatever the server is configured for
		for _, dtls := range []bool{false, true} {
			for _, require := range []bool{false, true} {
				for _, handler := range []int{-1, 0, 1, 2} {
					for _, protector := range []bool{false, true} {
						for _, blocking := range []bool{false, true} {
							if require && !protector && !blocking {
								continue // refused as a configuration
							}
							dtls, require, handler, protector, blocking := dtls, require, handler, protector, blocking
							cs.Add(fmt.Sprintf("cookie/dtls=%v/require=%v/handler=%d/protector=%v/blocking=%v", dtls, require, handler, protector, blocking), func(c *Case) {
								mk := func(require, blocking bool) (*End, *Puppet) {
									cfg := serverCfg("p256")
									cfg.UseDTLS, cfg.RequireCookie, cfg.NonBlocking = dtls, require, !blocking
									if protector {
										cfg.CookieProtector = fixedProtector()
									}
									if handler >= 0 {
										cfg.CookieHandler = &c13Handler{gen: [][]byte{nil, {}, []byte("app")}[handler], valid: true}
									}
									e := NewEnd(cfg, false)
									return e, newPuppet(true, e)
								}
								cookies := [][]byte{{}, {0}, make([]byte, 31), make([]byte, 32), make([]byte, 33), make([]byte, 64), patBytes[0][:1000]}
								if protector {
									e, p := mk(true, false)
									o := defaultCH()
									p.SendCH(o)
									e.Step()
									if retry, ck := p.RecvSH(); retry {
										cookies = append(cookies, ck, ck[:len(ck)-1], append(append([]byte{}, ck...), 0))
									}
								}
								for _, ck := range cookies {
									for _, first := range []bool{false, true} {
										e, p := mk(require, blocking)
										if first {
											p.SendCH(defaultCH())
											if !blocking {
												e.Step()
											}
										}
										o := defaultCH()
										o.Cookie = ck
										p.SendCH(o)
										e.W.block = blocking
										e.Step()
										if !e.Connected() {
											c14After(e)
										}
										c.Count(1)
									}
								}
							})
						}
					}
				}
			}
		}
		// tickets that do not fit into a hello, offered later
		for _, dtls := range []bool{false, true} {
			for _, n := range []int{0, 1, 65400, 65450, 65489, 65490, 65500, 65535} {
				for _, nonce := range []int{0, 1, 255} {
					dtls, n, nonce := dtls, n, nonce
					cs.Add(fmt.Sprintf("ticket/dtls=%v/%d/%d", dtls, n, nonce), func(c *Case) {
						cfg := clientCfg()
						cfg.UseDTLS = dtls
						cfg.PSKs = &mint.PSKMapCache{}
						for k := 0; k < 2; k++ {
							e := NewEnd(cfg, true)
							p := newPuppet(false, e)
							quietly(c, func() {
								e.Step()
								p.RecvCH()
								p.SendSH(p.DefaultSH(0x1301, gX25519, false), gX25519)
								p.SendEE(nil)
								p.sendAuth(defaultAuth("p256"))
								e.Step()
								p.RecvClientFlight()
								p.SendNST(&ticket{Lifetime: 0xffffffff, AgeAdd: 0xffffffff, Nonce: make([]byte, nonce), Ticket: make([]byte, n)})
								e.ReadAll(10)
							})
							c14After(e)
						}
					})
				}
			}
		}
		// what is small comes first, in case time runs out
		few, bulk := &Cases{}, &Cases{}
		for _, nc := range cs.L {
			to := few
			for _, f := range []string{"msg/", "bound/", "pair/", "header/", "cut/", "inner/"} {
				if strings.HasPrefix(nc.Name, f) {
					to = bulk
				}
			}
			to.L = append(to.L, nc)
		}
		x.Run(few, 0)
		x.Run(heap, 1)
		x.Run(bulk, 0)
	})
}
