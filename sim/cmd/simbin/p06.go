package main

// genClients: connections come and go under clients that share them.
func genP06(g *Rng, tier string, c *Case) {
	genNet(g, c)
	nc := 2 + g.N(5)
	c.P["keys"] = int64(2 + g.N(4))
	c.P["shared"] = int64(g.Pick(1, 1))
	m := kvMix{set: 4, get: 4, exists: 1, del: 1, upd: 5, view: 2, think: 3, scan: g.N(2), txmax: 5, big: g.P(1, 3), tag: g.P(1, 4)}
	for i := 0; i < nc; i++ {
		ops := genKVOps(g, m, 4+g.N(12), int(c.P["keys"]))
		for j := range ops {
			if ops[j].K == "think" && g.P(1, 2) {
				ops[j].A = g.N64(20_000_000_000)
			}
		}
		c.Clients = append(c.Clients, ops)
	}
	w := int64(20_000_000)
	if g.P(1, 2) {
		w = 10_000_000_000
	}
	genNetFaults(g, c, 1+g.N(5), w)
	if g.P(1, 3) {
		genRestarts(g, c, w)
	}
}

func genRestarts(g *Rng, c *Case, w int64) {
	n := 1 + g.N(3)
	for i := 0; i < n; i++ {
		f := Fault{K: "srv-crash", At: 1_000_000 + g.N64(w)}
		if g.P(1, 2) {
			f.Dur = g.N64(8_000_000_000)
		}
		c.Faults = append(c.Faults, f)
	}
}

func genP08(g *Rng, tier string, c *Case) {
	genNet(g, c)
	nc := 1 + g.N(5)
	c.P["keys"] = int64(2 + g.N(4))
	c.P["shared"] = int64(g.Pick(2, 1))
	if g.P(1, 4) {
		c.P["leveldb"] = 1
	}
	m := kvMix{set: 5, get: 4, exists: 1, del: 2, upd: 5, view: 2, think: 2, scan: 1, txmax: 5, big: g.P(1, 3)}
	if c.P["leveldb"] != 0 {
		m.upd, m.view = 0, 0
	}
	for i := 0; i < nc; i++ {
		c.Clients = append(c.Clients, genKVOps(g, m, 4+g.N(14), int(c.P["keys"])))
	}
	w := int64(5_000_000)
	if g.P(1, 4) {
		w = 8_000_000_000
	}
	n := 1 + g.N(3)
	for i := 0; i < n; i++ {
		f := Fault{K: "srv-restart", At: 1 + g.N64(w)}
		if g.P(1, 2) {
			f.Dur = g.N64(4_000_000_000)
		}
		if g.P(1, 4) {
			f.Arg = g.N64(8)
		}
		c.Faults = append(c.Faults, f)
	}
	if g.P(1, 4) {
		genNetFaults(g, c, 1+g.N(2), w)
	}
}

func init() {
	register("P06", "clients", 1, &Scenario{Gen: genP06, Run: runKV})
	register("P08", "restart", 1, &Scenario{Gen: genP08, Run: runKV})
}
