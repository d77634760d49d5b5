package vharness

import "fmt"

func init() {
	register("C10", "model_checking", func(x *Ctx) {
		x.Rule("all sequences of the stated depth of write, read, update and update-with-request events of a real endpoint and its peer (an independent implementation of the key schedule, or another real endpoint), records delivered before or after crossing ones; every record must open under exactly the generation announced; distinct = roles, suites and transports")
		cs := &Cases{}
		k := x.Pick(4, 6)
		for _, dtls := range []bool{false, true} {
			for _, isClient := range []bool{true, false} {
				for _, suite := range []uint16{0x1301, 0x1302} {
					kk := k
					if x.Thorough() && (dtls || suite == 0x1302) {
						kk--
					}
					al := []sop{{'c', 'W', 3, 0}, {'c', 'D', 0, 0}, {'c', 'R', 2, 0}, {'c', 'U', 0, 0}, {'c', 'U', 1, 0},
						{'p', 'A', 3, 0}, {'p', 'U', 0, 0}, {'p', 'U', 1, 0}}
					for _, s := range sequences(al, kk) {
						cs.Add(fmt.Sprintf("peer/client=%v/dtls=%v/%04x/%v", isClient, dtls, suite, s), func(c *Case) {
							c.States(len(s) + 1)
							c.Transitions(len(s))
							c.Traces(1)
							c.Outcome(fmt.Sprint("peer", isClient, dtls, suite))
							newSessPeer(c, isClient, dtls, suite).run(s)
						})
					}
					// long runs of updates
					for _, n := range []int{1, 2, 10, 64, 300} {
						for _, unit := range [][]sop{{{'c', 'U', 0, 0}}, {{'c', 'U', 1, 0}}, {{'p', 'U', 0, 0}}, {{'p', 'U', 1, 0}}, {{'p', 'U', 1, 0}, {'c', 'U', 1, 0}, {'c', 'W', 1, 0}},
							{{'p', 'U', 1, 0}, {'p', 'A', 1, 0}, {'c', 'D', 0, 0}}} {
							if dtls && n > 64 {
								continue
							}
							var s []sop
							for i := 0; i < n; i++ {
								s = append(s, unit...)
							}
							cs.Add(fmt.Sprintf("long/client=%v/dtls=%v/%04x/%d x %v", isClient, dtls, suite, n, unit), func(c *Case) {
								c.Traces(1)
								c.States(len(s))
								c.Transitions(len(s))
								newSessPeer(c, isClient, dtls, suite).run(s)
							})
						}
					}
				}
			}
			// two real ends
			al := []sop{{'c', 'W', 2, 0}, {'c', 'D', 0, 0}, {'c', 'U', 0, 0}, {'c', 'U', 1, 0}, {'s', 'W', 2, 0}, {'s', 'D', 0, 0}, {'s', 'U', 0, 0}, {'s', 'U', 1, 0}}
			for _, vn := range []string{"cert", "cert-p256-1302", "psk-ke", "cert-cr"} {
				v := variant{}
				for _, y := range hsVariants(dtls) {
					if y.name == "tls/"+vn || y.name == "dtls/"+vn {
						v = y
					}
				}
				kk := k
				if vn != "cert" || dtls {
					kk = k - 1
				}
				for _, s := range sequences(al, kk) {
					cs.Add(fmt.Sprintf("pair/%s/%v", v.name, s), func(c *Case) {
						d := runVariant(v, nil)
						c.States(len(s) + 1)
						c.Transitions(len(s))
						c.Traces(1)
						c.Outcome(v.name)
						sessPair(c, d, s, nil)
					})
				}
			}
			// not before the handshake is complete
			for _, v := range hsVariants(dtls) {
				for step := 0; step < 12; step++ {
					for _, who := range []bool{true, false} {
						cs.Add(fmt.Sprintf("early/%s/%d/%v", v.name, step, who), func(c *Case) { c10Early(c, v, step, who) })
					}
				}
			}
		}
		x.Run(cs, 0)
	})
}

// c10Early asks for a key update while the handshake is under way: it must be
// refused and must not disturb the handshake.
func c10Early(c *Case, v variant, at int, client bool) {
	cc, sc := v.cfgs()
	d := &driven{p: NewPair(cc, sc), early: v.early}
	n := 0
	try := func() {
		if n == at {
			e, r := d.p.S, d.s
			if client {
				e, r = d.p.C, d.c
			}
			before := len(e.W.outs)
			err := e.C.SendKeyUpdate(true)
			if r != hsDone {
				c.Outcome("refused")
				if err == nil || len(e.W.outs) != before {
					c.Fail("early-update", "SendKeyUpdate before completion: %v, %d writes", err, len(e.W.outs)-before)
				}
			} else if err != nil {
				c.Fail("update", "%v", err)
			}
		}
		n++
	}
	wrote := false
	for i := 0; i < 50; i++ {
		try()
		if d.c == hsBlocked {
			d.c = d.p.C.Step()
		}
		try()
		if d.early && !wrote {
			wrote = true
			d.p.C.C.Write(earlyMsg)
		}
		m := d.shuttle()
		try()
		if d.s == hsBlocked {
			d.s = d.p.S.Step()
		}
		if !d.shuttle() && !m {
			break
		}
	}
	if d.c != hsDone || d.s != hsDone {
		c.Fail("handshake", "client %v (%v) server %v (%v)", d.c, d.p.C.Fail, d.s, d.p.S.Fail)
	}
	c.Traces(1)
	var early []byte
	if v.early && v.accept {
		early = earlyMsg
	}
	if err := d.echo(early); err != nil {
		c.Fail("data", "%v", err)
	}
}
