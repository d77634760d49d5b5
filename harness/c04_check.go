package vharness

import (
	"bytes"
	"fmt"
)

// tlsRecords splits a stream write into its records.
func tlsRecords(b []byte) [][]byte {
	var o [][]byte
	for len(b) >= 5 {
		n := 5 + int(b[3])<<8 + int(b[4])
		if n > len(b) {
			n = len(b)
		}
		o = append(o, b[:n])
		b = b[n:]
	}
	if len(b) > 0 {
		o = append(o, b)
	}
	return o
}

// hsTrace is what crossed the wire in one honest run.
type hsTrace struct {
	recs [2][][]byte // [0] from the client, [1] from the server: records
	over [2][]bool   // the record was sent when both ends had completed, or repeats one
}

func dirOf(fromClient bool) int {
	if fromClient {
		return 0
	}
	return 1
}

// byRecord applies f to every record of the handshake, numbered per direction.
func byRecord(dtls bool, f func(dir, n int, r []byte) [][]byte) func(bool, int, []byte) [][]byte {
	var cnt [2]int
	return func(fromClient bool, _ int, b []byte) [][]byte {
		d := dirOf(fromClient)
		recs := [][]byte{b}
		if !dtls {
			recs = tlsRecords(b)
		}
		var out [][]byte
		for _, r := range recs {
			out = append(out, f(d, cnt[d], r)...)
			cnt[d]++
		}
		return out
	}
}

func c04Trace(v variant) *hsTrace {
	t := &hsTrace{}
	cc, sc := v.cfgs()
	d := &driven{p: NewPair(cc, sc), early: v.early}
	d.net = byRecord(v.dtls, func(dir, n int, r []byte) [][]byte {
		t.recs[dir] = append(t.recs[dir], append([]byte{}, r...))
		again := false
		if v.dtls && r[0] == 22 && r[3] == 0 && r[4] == 0 {
			for _, o := range t.recs[dir][:n] {
				again = again || o[0] == 22 && o[3] == 0 && o[4] == 0 && bytes.Equal(o[13:], r[13:])
			}
		}
		t.over[dir] = append(t.over[dir], again || dir == 1 && d.p.S.Connected() && d.p.C.Connected())
		return [][]byte{r}
	})
	d.run()
	if d.c != hsDone || d.s != hsDone {
		return nil // reported by the honest cases
	}
	return t
}

// c04Verdict checks what two ends concluded about a handshake that was
// modified before either could have completed (early) or after the client's
// last input (late).
func c04Verdict(c *Case, v variant, d *driven, clientMayComplete bool, what string) {
	both := d.c == hsDone && d.s == hsDone
	switch {
	case both:
		c.Fail("both", "%s: both ends completed", what)
	case d.s == hsDone && !clientMayComplete:
		c.Fail("server", "%s: the server completed", what)
	case d.c == hsDone && !clientMayComplete:
		c.Fail("client", "%s: the client completed", what)
	}
	// Whatever is delivered to an application now is wrong.
	if d.p.S.Connected() {
		if got, _ := d.p.S.ReadAll(100); len(got) > 0 {
			c.Fail("data", "%s: the server delivered %q", what, got)
		}
	}
	c.Outcome(fmt.Sprintf("c=%v s=%v", d.c, d.s))
}

// tampered says whether byte off of record r is authenticated content.
func c04Authenticated(v variant, r []byte, off int) bool {
	if v.dtls {
		if off >= 1 && off < 11 {
			return false // version, epoch, sequence number of a (cleartext) record
		}
		return true
	}
	if (off == 1 || off == 2) && r[0] != 23 {
		return false
	}
	return true
}

func init() {
	register("C04", "model_checking", func(x *Ctx) {
		x.Rule("per handshake variant: every byte of every record of both flights under each mask; every drop, duplication, swap, truncation, extension and insertion of a record; every splice with the flight of another handshake; every structural edit of the cleartext hellos; distinct = distinct outcome pairs and edits")
		cs := &Cases{}
		masks := []byte{0x01, 0x80}
		if x.Thorough() {
			masks = []byte{0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff}
		}
		for _, dtls := range []bool{false, true} {
			for _, v := range hsVariants(dtls) {
				v := v
				cs.Add(v.name+"/honest", func(c *Case) {
					d := runVariant(v, nil)
					if d.c != hsDone || d.s != hsDone {
						c.Fail("honest", "client %v (%v), server %v (%v)", d.c, d.p.C.Fail, d.s, d.p.S.Fail)
					}
					if err := d.agree(v); err != nil {
						c.Fail("agree", "%v", err)
					}
					var early []byte
					if v.early {
						if d.earlyErr != nil {
							c.Fail("honest", "early write: %v", d.earlyErr)
						}
						if v.accept {
							early = earlyMsg
						}
					}
					if err := d.echo(early); err != nil {
						c.Fail("agree", "%v", err)
					}
				})
				t := c04Trace(v)
				if t == nil {
					continue
				}
				// Which records can no longer stop the client: those the
				// client sends after the server's last record.
				late := func(dir, n int) bool {
					if dir == 1 {
						return false
					}
					hellos := 1
					if v.cookie {
						hellos = 2
					}
					return n >= hellos
				}
				skipRec := func(dir, n int) bool {
					// Rejected early data is skipped whatever it is.
					return v.early && !v.accept && dir == 0 && n == 1 || t.over[dir][n]
				}
				run := func(c *Case, lateOK bool, what string, f func(dir, n int, r []byte) [][]byte) *driven {
					c.Traces(1)
					hit := false
					d := runVariant(v, byRecord(v.dtls, func(dir, n int, r []byte) [][]byte {
						o := f(dir, n, r)
						if len(o) != 1 || !bytes.Equal(o[0], r) {
							hit = true
						}
						return o
					}))
					if !hit {
						return nil
					}
					c04Verdict(c, v, d, lateOK, what)
					return d
				}
				for dir := 0; dir < 2; dir++ {
					for n, r := range t.recs[dir] {
						dir, n := dir, n
						if skipRec(dir, n) {
							continue
						}
						for off := 0; off < len(r); off++ {
							off := off
							if !c04Authenticated(v, r, off) {
								continue
							}
							for _, m := range masks {
								m := m
								if !x.Thorough() && m != masks[off%len(masks)] {
									continue
								}
								cs.Add(fmt.Sprintf("%s/byte/%d.%d.%d.%02x", v.name, dir, n, off, m), func(c *Case) {
									run(c, late(dir, n) || dir == 0 && (off == 3 || off == 4) && !v.dtls, fmt.Sprintf("byte %d of record %d xor %#x", off, n, m), func(d2, n2 int, r []byte) [][]byte {
										if d2 == dir && n2 == n && off < len(r) {
											r = append([]byte{}, r...)
											r[off] ^= m
										}
										return [][]byte{r}
									})
								})
							}
						}
						// truncation at every length (record length fixed up) for cleartext, raw cut otherwise
						step := 1
						if r[0] == 23 && !x.Thorough() {
							step = 7
						}
						hl := 5
						if v.dtls {
							hl = 13
						}
						for l := hl; l < len(r); l += step {
							l := l
							cs.Add(fmt.Sprintf("%s/trunc/%d.%d.%d", v.name, dir, n, l), func(c *Case) {
								run(c, late(dir, n), fmt.Sprintf("record %d cut to %d", n, l), func(d2, n2 int, r []byte) [][]byte {
									if d2 == dir && n2 == n && l < len(r) {
										r = append([]byte{}, r[:l]...)
										r[hl-2], r[hl-1] = byte((l-hl)>>8), byte(l-hl)
									}
									return [][]byte{r}
								})
							})
						}
						for e := 1; e <= 3; e++ {
							e := e
							cs.Add(fmt.Sprintf("%s/extend/%d.%d.%d", v.name, dir, n, e), func(c *Case) {
								run(c, late(dir, n) || dir == 0, fmt.Sprintf("record %d extended by %d", n, e), func(d2, n2 int, r []byte) [][]byte {
									if d2 == dir && n2 == n {
										r = append(append([]byte{}, r...), make([]byte, e)...)
										l := len(r) - hl
										r[hl-2], r[hl-1] = byte(l>>8), byte(l)
									}
									return [][]byte{r}
								})
							})
						}
						cs.Add(fmt.Sprintf("%s/drop/%d.%d", v.name, dir, n), func(c *Case) {
							run(c, late(dir, n), fmt.Sprintf("record %d dropped", n), func(d2, n2 int, r []byte) [][]byte {
								if d2 == dir && n2 == n {
									return nil
								}
								return [][]byte{r}
							})
						})
						cs.Add(fmt.Sprintf("%s/reflect/%d.%d", v.name, dir, n), func(c *Case) {
							// The record is replaced by the last record seen in
							// the other direction.
							var last [2][]byte
							run(c, late(dir, n), fmt.Sprintf("record %d replaced by one of the other direction", n), func(d2, n2 int, r []byte) [][]byte {
								last[d2] = r
								if d2 == dir && n2 == n && last[1-dir] != nil {
									return [][]byte{last[1-dir]}
								}
								return [][]byte{r}
							})
						})
						cs.Add(fmt.Sprintf("%s/splice/%d.%d", v.name, dir, n), func(c *Case) {
							// The record is replaced by the same record of
							// another handshake between the same parties.
							t2 := c04Trace(v)
							run(c, late(dir, n), fmt.Sprintf("record %d taken from another handshake", n), func(d2, n2 int, r []byte) [][]byte {
								if d2 == dir && n2 == n && n < len(t2.recs[dir]) {
									return [][]byte{t2.recs[dir][n]}
								}
								return [][]byte{r}
							})
						})
						if !v.dtls {
							cs.Add(fmt.Sprintf("%s/dup/%d.%d", v.name, dir, n), func(c *Case) {
								last := n == len(t.recs[dir])-1
								d := runVariant(v, byRecord(v.dtls, func(d2, n2 int, r []byte) [][]byte {
									if d2 == dir && n2 == n {
										return [][]byte{r, r}
									}
									return [][]byte{r}
								}))
								if last {
									// After the last record the handshake is
									// over; the copy must break the connection.
									e := d.p.C
									if dir == 0 {
										e = d.p.S
									}
									if e.Connected() {
										if _, err := e.ReadAll(100); err == nil {
											c.Fail("dup", "a repeated final record went unnoticed")
										}
									}
									return
								}
								c04Verdict(c, v, d, late(dir, n) || dir == 0, fmt.Sprintf("record %d duplicated", n))
							})
							cs.Add(fmt.Sprintf("%s/swap/%d.%d", v.name, dir, n), func(c *Case) {
								if n+1 >= len(t.recs[dir]) || skipRec(dir, n+1) {
									return
								}
								var held []byte
								run(c, late(dir, n), fmt.Sprintf("records %d and %d swapped", n, n+1), func(d2, n2 int, r []byte) [][]byte {
									if d2 == dir && n2 == n {
										held = r
										return nil
									}
									if d2 == dir && n2 == n+1 && held != nil {
										return [][]byte{r, held}
									}
									return [][]byte{r}
								})
							})
							for k, ins := range [][]byte{{22, 3, 3, 0, 4, 0, 0, 0, 0}, {22, 3, 3, 0, 4, 20, 0, 0, 0}, {21, 3, 3, 0, 2, 2, 40}, {23, 3, 3, 0, 1, 0}, {22, 3, 3, 0, 6, 8, 0, 0, 2, 0, 0}} {
								k, ins := k, ins
								cs.Add(fmt.Sprintf("%s/insert%d/%d.%d", v.name, k, dir, n), func(c *Case) {
									if v.early && !v.accept && dir == 0 && n > 0 {
										return // skipped with the early data
									}
									run(c, late(dir, n), fmt.Sprintf("record inserted before %d", n), func(d2, n2 int, r []byte) [][]byte {
										if d2 == dir && n2 == n {
											return [][]byte{ins, r}
										}
										return [][]byte{r}
									})
								})
							}
						}
					}
				}
				// Structural edits of the cleartext hellos.
				for _, ed := range c04Edits() {
					ed := ed
					cs.Add(v.name+"/edit/"+ed.name, func(c *Case) {
						c.Traces(1)
						hit := false
						seen := [2]int{}
						d := runVariant(v, byRecord(v.dtls, func(dir, n int, r []byte) [][]byte {
							if r[0] == 22 && !(n < len(t.over[dir]) && t.over[dir][n]) {
								if o := ed.apply(v.dtls, dir, seen[dir], r); o != nil && !bytes.Equal(o, r) {
									hit = true
									r = o
								}
								seen[dir]++
							}
							return [][]byte{r}
						}))
						if !hit {
							return
						}
						c.Outcome("edit " + ed.name)
						c04Verdict(c, v, d, false, "hello edited: "+ed.name)
					})
				}
			}
		}
		c04Puppet(x, cs)
		x.Run(cs, 0)
	})
}

type c04Edit struct {
	name  string
	apply func(dtls bool, dir, n int, r []byte) []byte
}

func c04Rebuild(dtls bool, r []byte, t int, body []byte) []byte {
	hl, hh := 5, 4
	if dtls {
		hl, hh = 13, 12
	}
	o := append([]byte{}, r[:hl]...)
	h := append([]byte{}, r[hl:hl+hh]...)
	h[1], h[2], h[3] = byte(len(body)>>16), byte(len(body)>>8), byte(len(body))
	if dtls {
		copy(h[9:12], h[1:4])
	}
	h[0] = byte(t)
	l := hh + len(body)
	o[hl-2], o[hl-1] = byte(l>>8), byte(l)
	return append(append(o, h...), body...)
}

func c04Edits() []c04Edit {
	var out []c04Edit
	edCH := func(name string, n int, f func(ch *CHello) bool) {
		out = append(out, c04Edit{fmt.Sprintf("ch%d-%s", n, name), func(dtls bool, dir, k int, r []byte) []byte {
			if dir != 0 || k != n {
				return nil
			}
			h := 9
			if dtls {
				h = 25
			}
			if len(r) < h {
				return nil
			}
			ch, err := parseCH(r[h:], dtls)
			if err != nil || !f(ch) {
				return nil
			}
			return c04Rebuild(dtls, r, hCH, ch.marshal(dtls))
		}})
	}
	edSH := func(name string, n int, f func(sh *SHello) bool) {
		out = append(out, c04Edit{fmt.Sprintf("sh%d-%s", n, name), func(dtls bool, dir, k int, r []byte) []byte {
			if dir != 1 || k != n {
				return nil
			}
			h := 9
			if dtls {
				h = 25
			}
			sh, err := parseSH(r[h:])
			if err != nil || !f(sh) {
				return nil
			}
			return c04Rebuild(dtls, r, hSH, sh.marshal())
		}})
	}
	for n := 0; n < 2; n++ {
		for _, x := range []uint16{0, 10, 13, 16, 41, 42, 43, 44, 45, 51} {
			x := x
			edCH(fmt.Sprintf("del%d", x), n, func(ch *CHello) bool {
				if !ch.Exts.has(x) {
					return false
				}
				ch.Exts.del(x)
				return true
			})
			edSH(fmt.Sprintf("del%d", x), n, func(sh *SHello) bool {
				if !sh.Exts.has(x) {
					return false
				}
				sh.Exts.del(x)
				return true
			})
		}
		edCH("reverse-suites", n, func(ch *CHello) bool {
			for i, j := 0, len(ch.Suites)-1; i < j; i, j = i+1, j-1 {
				ch.Suites[i], ch.Suites[j] = ch.Suites[j], ch.Suites[i]
			}
			return true
		})
		edCH("first-suite-only", n, func(ch *CHello) bool { ch.Suites = ch.Suites[:1]; return true })
		edCH("add-suite", n, func(ch *CHello) bool { ch.Suites = append(ch.Suites, 0x1305); return true })
		edCH("sid", n, func(ch *CHello) bool { ch.SID = bytes.Repeat([]byte{7}, 32); return true })
		edCH("random", n, func(ch *CHello) bool { ch.Random = bytes.Repeat([]byte{7}, 32); return true })
		edCH("unknown-ext", n, func(ch *CHello) bool {
			ch.Exts = append(Exts{{0xfafa, []byte("grease")}}, ch.Exts...)
			return true
		})
		edCH("swap-exts", n, func(ch *CHello) bool {
			if len(ch.Exts) < 3 {
				return false
			}
			ch.Exts[0], ch.Exts[1] = ch.Exts[1], ch.Exts[0]
			return true
		})
		edCH("alpn", n, func(ch *CHello) bool {
			if !ch.Exts.has(16) {
				return false
			}
			ch.Exts.set(16, alpnData([]string{"http/1.1"}))
			return true
		})
		edCH("schemes", n, func(ch *CHello) bool {
			d := ch.Exts.get(13)
			l := parseU16list(2, d)
			if len(l) < 2 {
				return false
			}
			for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
				l[i], l[j] = l[j], l[i]
			}
			ch.Exts.set(13, u16list(2, l))
			return true
		})
		edCH("modes", n, func(ch *CHello) bool {
			if !ch.Exts.has(45) {
				return false
			}
			ch.Exts.set(45, []byte{1, 0})
			return true
		})
		edCH("cookie", n, func(ch *CHello) bool {
			if !ch.Exts.has(44) {
				return false
			}
			d := append([]byte{}, ch.Exts.get(44)...)
			d[len(d)-1] ^= 1
			ch.Exts.set(44, d)
			return true
		})
		edCH("share", n, func(ch *CHello) bool {
			ch.Exts.set(51, sharesData([]share{{gX25519, newKE(gX25519).pub}}))
			return true
		})
		edCH("drop-early", n, func(ch *CHello) bool {
			if !ch.Exts.has(42) {
				return false
			}
			ch.Exts.del(42)
			return true
		})
		edSH("suite", n, func(sh *SHello) bool { sh.Suite ^= 3; return true })
		edSH("random", n, func(sh *SHello) bool { sh.Random = bytes.Repeat([]byte{7}, 32); return true })
		edSH("sid", n, func(sh *SHello) bool { sh.SID = bytes.Repeat([]byte{7}, 32); return true })
		edSH("share", n, func(sh *SHello) bool {
			if !sh.Exts.has(51) {
				return false
			}
			w := &buf{}
			w.u16(gX25519)
			w.v16(newKE(gX25519).pub)
			sh.Exts.set(51, w.b)
			return true
		})
		edSH("unknown-ext", n, func(sh *SHello) bool { sh.Exts.set(0xfafa, []byte("x")); return true })
		edSH("swap-exts", n, func(sh *SHello) bool {
			if len(sh.Exts) < 2 {
				return false
			}
			sh.Exts[0], sh.Exts[1] = sh.Exts[1], sh.Exts[0]
			return true
		})
		edSH("cookie", n, func(sh *SHello) bool {
			if !sh.Exts.has(44) {
				return false
			}
			d := append([]byte{}, sh.Exts.get(44)...)
			d[len(d)-1] ^= 1
			sh.Exts.set(44, d)
			return true
		})
		edSH("hrr", n, func(sh *SHello) bool {
			sh.Random = hrrRandom
			sh.Exts = hrrExts([]byte("injected"))
			return true
		})
	}
	return out
}

// c04Puppet: an attacker who knows the traffic keys (the independent peer)
// but presents a transcript other than mint's.
func c04Puppet(x *Ctx, cs *Cases) {
	var paths func(v c03Variant, st string, path []string, out *[][]string)
	paths = func(v c03Variant, st string, path []string, out *[][]string) {
		for _, m := range c03Alphabet {
			n, ok := v.next(st, m)
			if !ok || n == st {
				continue
			}
			p := append(append([]string{}, path...), m)
			if n == "CONNECTED" {
				*out = append(*out, p)
				continue
			}
			paths(v, n, p, out)
		}
	}
	for _, v := range c03Variants(true) {
		for _, dtls := range []bool{false, true} {
			v := v
			v.dtls = dtls
			if dtls && (v.early || v.hrr) {
				continue
			}
			var ps [][]string
			paths(v, "START", nil, &ps)
			for _, path := range ps {
				path := path
				for alt := 0; alt < 80; alt++ {
					alt := alt
					nm := fmt.Sprintf("fin/%s/dtls=%v/%v/%d", v.name, dtls, path, alt)
					cs.Add(nm, func(c *Case) { c04Fin(c, v, path, alt) })
				}
			}
		}
	}
}

// splitMsgs cuts a transcript into its handshake messages.
func splitMsgs(t []byte, dtls bool) (o [][]byte) {
	for len(t) >= 4 {
		h := 4
		if dtls && t[0] != hMHash {
			h = 12
		}
		n := h + int(t[1])<<16 + int(t[2])<<8 + int(t[3])
		o = append(o, t[:n])
		t = t[n:]
	}
	return
}

// altTranscripts lists the transcripts other than msgs itself: one message
// missing, changed at either end, repeated, swapped with its neighbour, or
// everything from it on missing; and one message too many.
func altTranscripts(msgs [][]byte) (o [][]byte, names []string) {
	add := func(n string, l ...[]byte) { o = append(o, bytes.Join(l, nil)); names = append(names, n) }
	for i := range msgs {
		pre, post := bytes.Join(msgs[:i], nil), bytes.Join(msgs[i+1:], nil)
		m := msgs[i]
		last := append([]byte{}, m...)
		last[len(last)-1] ^= 1
		first := append([]byte{}, m...)
		first[0] ^= 1
		add(fmt.Sprintf("without %d", i), pre, post)
		add(fmt.Sprintf("last byte of %d", i), pre, last, post)
		add(fmt.Sprintf("first byte of %d", i), pre, first, post)
		add(fmt.Sprintf("twice %d", i), pre, m, m, post)
		add(fmt.Sprintf("up to %d", i), pre)
		if i+1 < len(msgs) {
			add(fmt.Sprintf("swapped %d", i), pre, msgs[i+1], m, bytes.Join(msgs[i+2:], nil))
		}
	}
	all := bytes.Join(msgs, nil)
	add("extra", all, []byte{8, 0, 0, 2, 0, 0})
	add("empty")
	return
}

func c04Fin(c *Case, v c03Variant, path []string, alt int) {
	r := v.start(c)
	st := "START"
	for _, m := range path[:len(path)-1] {
		r.send(m)
		if r.react(c) {
			c.Fail("honest", "legal message %s of %v refused: %v", m, path, r.e.Fail)
		}
		st, _ = v.next(st, m)
		r.after(st)
	}
	p := r.p
	ts, names := altTranscripts(splitMsgs(p.T, v.dtls))
	key := p.sHS
	if v.server {
		key = p.cHS
	}
	var fin []byte
	var what string
	good := p.finData(!v.server)
	if alt < len(ts) {
		fin, what = p.suite.finished(key, ts[alt]), "Finished over the transcript "+names[alt]
	} else {
		switch alt - len(ts) {
		case 0:
			fin, what = p.suite.finished(map[bool][]byte{true: p.sHS, false: p.cHS}[v.server], p.T), "Finished under the other side's key"
		case 1:
			fin, what = p.suite.mac(key, p.suite.sum(p.T)), "MAC under the traffic secret itself"
		case 2:
			fin, what = p.suite.sum(p.T), "the transcript hash itself"
		case 3:
			fin, what = []byte{}, "empty Finished"
		case 4:
			fin, what = good[:len(good)-1], "truncated Finished"
		case 5:
			fin, what = append(append([]byte{}, good...), 0), "extended Finished"
		case 6:
			fin, what = make([]byte, len(good)), "zero Finished"
		case 7:
			fin, what = good[:1], "one byte of Finished"
		default:
			i := alt - len(ts) - 8
			bits := []int{0, 1, len(good) / 2, len(good) - 2, len(good) - 1}
			if i >= len(bits) {
				return
			}
			fin = append([]byte{}, good...)
			fin[bits[i]] ^= 1 << uint(i)
			what = fmt.Sprintf("Finished with byte %d changed", bits[i])
		}
	}
	c.Traces(1)
	c.Outcome("fin " + what)
	if v.server {
		p.SendClientFinData(fin)
	} else {
		p.SendServerFinData(fin)
	}
	res := r.e.Step()
	if r.e.Connected() {
		c.Fail("finished", "%s after %v: mint completed", what, path)
	}
	if res != hsFailed {
		c.Fail("finished", "%s after %v: mint did not fail (%v)", what, path, res)
	}
}
