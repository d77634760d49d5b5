package vharness

import "fmt"

func init() {
	register("C07", "model_checking", func(x *Ctx) {
		x.Rule("all operation sequences of the stated depth over the alphabets (writes of 0, 1, 300, 2^14, 2^14+1 and 40000 bytes, single reads into buffers of several sizes, draining reads, key updates with and without request, by either side; with the reference peer also padded and empty records and tickets), every step compared with a two-stream model; distinct = distinct variants and depths")
		cs := &Cases{}
		k := x.Pick(3, 4)
		both := func(ops ...sop) (out []sop) {
			for _, w := range []byte{'c', 's'} {
				for _, o := range ops {
					o.who = w
					out = append(out, o)
				}
			}
			return
		}
		full := both(sop{0, 'W', 0, 0}, sop{0, 'W', 1, 0}, sop{0, 'W', 300, 0}, sop{0, 'W', 16384, 0}, sop{0, 'W', 16385, 0}, sop{0, 'W', 40000, 0},
			sop{0, 'R', 0, 0}, sop{0, 'R', 1, 0}, sop{0, 'R', 16384, 0}, sop{0, 'D', 0, 0}, sop{0, 'U', 0, 0}, sop{0, 'U', 1, 0})
		small := both(sop{0, 'W', 3, 0}, sop{0, 'W', 16385, 0}, sop{0, 'R', 2, 0}, sop{0, 'D', 0, 0}, sop{0, 'U', 1, 0})
		sizes := []sop{}
		for _, n := range []int{0, 1, 2, 255, 256, 257, 1023, 1400, 8191, 16127, 16128, 16366, 16367, 16368, 16369, 16382, 16383, 16384, 16385, 16386, 32767, 32768, 32769, 49151, 49152, 49153, 65535, 65536, 100000} {
			sizes = append(sizes, sop{'c', 'W', n, 0}, sop{'s', 'W', n, 0})
		}
		pair := func(v variant, set string, seqs [][]sop) {
			for _, s := range seqs {
				cs.Add(fmt.Sprintf("pair/%s/%s/%v", v.name, set, s), func(c *Case) {
					d := runVariant(v, nil)
					if d.c != hsDone || d.s != hsDone {
						c.Fail("handshake", "%v %v", d.p.C.Fail, d.p.S.Fail)
					}
					c.States(len(s) + 1)
					c.Transitions(len(s))
					c.Traces(1)
					c.Outcome(v.name + set)
					sessPair(c, d, s, nil)
				})
			}
		}
		for _, dtls := range []bool{false, true} {
			for _, v := range append(hsVariants(dtls), variant{name: fmt.Sprintf("ticket dtls=%v", dtls), dtls: dtls, ticket: true}) {
				if v.early {
					continue // see C11
				}
				pair(v, "sizes", sequences(sizes, 1))
				pair(v, "small", sequences(small, k))
				switch v.name {
				case "tls/cert", "dtls/cert", "tls/cert-p256-1302":
					pair(v, "full", sequences(full, k))
					pair(v, "small", sequences(small, k+1))
					if v.name == "tls/cert" {
						pair(v, "small", sequences(small, k+2))
					}
				}
			}
			for _, isClient := range []bool{true, false} {
				for _, suite := range []uint16{0x1301, 0x1302} {
					al := []sop{{'c', 'W', 1, 0}, {'c', 'W', 16385, 0}, {'c', 'W', 0, 0}, {'c', 'R', 1, 0}, {'c', 'D', 0, 0}, {'c', 'U', 1, 0},
						{'p', 'A', 0, 0}, {'p', 'A', 0, 9}, {'p', 'A', 1, 0}, {'p', 'A', 16384, 0}, {'p', 'A', 16383, 1}, {'p', 'A', 5, 16379}, {'p', 'U', 0, 0}, {'p', 'U', 1, 0}}
					if isClient {
						al = append(al, sop{'p', 'N', 0, 0})
					}
					for _, s := range sequences(al, k) {
						cs.Add(fmt.Sprintf("peer/client=%v/dtls=%v/%04x/%v", isClient, dtls, suite, s), func(c *Case) {
							c.States(len(s) + 1)
							c.Transitions(len(s))
							c.Traces(1)
							c.Outcome(fmt.Sprint("peer", isClient, dtls, suite))
							newSessPeer(c, isClient, dtls, suite).run(s)
						})
					}
				}
			}
		}
		x.Run(cs, 0)
	})
}
