package vharness

import "bytes"

func init() {
	register("SMOKE", "exploration", func(x *Ctx) {
		cs := &Cases{}
		for _, dtls := range []bool{false, true} {
			dtls := dtls
			n := map[bool]string{false: "tls", true: "dtls"}[dtls]
			cs.Add("pair/"+n, func(c *Case) {
				cc, sc := clientCfg(), serverCfg()
				cc.UseDTLS, sc.UseDTLS = dtls, dtls
				p := NewPair(cc, sc)
				a, b := p.Run()
				if a != hsDone || b != hsDone {
					c.Fail("hs", "%v %v %v %v", a, b, p.C.Fail, p.S.Fail)
				}
			})
			cs.Add("pserver/"+n, func(c *Case) {
				cc := clientCfg()
				cc.UseDTLS = dtls
				e := NewEnd(cc, true)
				p := newPuppet(false, e)
				e.Step()
				p.RecvCH()
				p.SendSH(p.DefaultSH(0x1301, gX25519, false), gX25519)
				p.SendEE(nil)
				p.SendCert(id("p256").raws())
				p.SendCV(id("p256").key, 0x0403)
				p.SendServerFin()
				if r := e.Step(); r != hsDone {
					c.Fail("hs", "%v %v", r, e.Fail)
				}
				p.RecvClientFlight()
				e.C.Write([]byte("hello"))
				p.Drain()
				p.SendApp([]byte("world"))
				got, err := e.ReadAll(100)
				if string(got) != "world" || err != nil || string(p.App) != "hello" {
					c.Fail("data", "%q %v %q", got, err, p.App)
				}
			})
			cs.Add("pclient/"+n, func(c *Case) {
				sc := serverCfg()
				sc.UseDTLS = dtls
				sc.SendSessionTickets = true
				e := NewEnd(sc, false)
				p := newPuppet(true, e)
				p.SendCH(defaultCH())
				e.Step()
				p.RecvSH()
				p.RecvServerFlight()
				p.SendClientFlight(nil)
				if r := e.Step(); r != hsDone {
					c.Fail("hs", "%v %v", r, e.Fail)
				}
				p.Drain()
				p.SendApp([]byte("world"))
				got, err := e.ReadAll(100)
				if string(got) != "world" || err != nil {
					c.Fail("data", "%q %v %q", got, err, p.App)
				}
				ex, _ := e.C.ComputeExporter("foo", nil, 20)
				if !bytes.Equal(ex, p.Export("foo", nil, 20)) {
					c.Fail("exporter", "bad")
				}
				// resume
				if len(p.Tickets) != 1 {
					c.Fail("ticket", "%d", len(p.Tickets))
				}
				tk := p.Tickets[0]
				e = NewEnd(sc, false)
				p = newPuppet(true, e)
				o := defaultCH()
				o.PSKIDs = []pskID{{tk.Ticket, tk.age(0)}}
				o.PSKKeys = [][]byte{tk.PSK}
				o.PSKSuites = []uint16{tk.Suite}
				o.PSKRes = []bool{true}
				p.SendCH(o)
				e.Step()
				p.RecvSH()
				p.RecvServerFlight()
				p.SendClientFlight(nil)
				if r := e.Step(); r != hsDone {
					c.Fail("hs", "%v %v", r, e.Fail)
				}
				if !e.C.ConnectionState().UsingPSK {
					c.Fail("psk", "not resumed")
				}
			})
		}
		x.Run(cs, 1)
	})
}
