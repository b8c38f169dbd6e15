package main

// genScanMix generates scan-heavy clients.
func genP03(local, lvl bool) func(g *Rng, tier string, c *Case) {
	return func(g *Rng, tier string, c *Case) {
		genNet(g, c)
		if local {
			c.P["local"] = 1
		}
		if lvl {
			c.P["leveldb"] = 1
		}
		c.P["keys"] = int64(3 + g.N(10))
		if g.P(1, 3) {
			c.P["static"] = int64([]int{3, 30, 999, 1000, 1001, 1100}[g.N(6)])
			c.P["statpfx"] = g.N64(5)
		}
		m := kvMix{set: 6, get: 1, del: 3, scan: 8, upd: 2, view: 3, think: 1, txmax: 6, big: g.P(1, 4), tag: !lvl, bad: lvl}
		if lvl {
			m.upd, m.view = 0, 0
		}
		nc := 1 + g.N(4)
		for i := 0; i < nc; i++ {
			c.Clients = append(c.Clients, genKVOps(g, m, 4+g.N(10), int(c.P["keys"])))
		}
		if !local && g.P(1, 4) {
			genNetFaults(g, c, 1+g.N(3), 20_000_000)
		}
	}
}

func init() {
	register("P03", "remote", 3, &Scenario{Gen: genP03(false, false), Run: runKV})
	register("P03", "badger", 3, &Scenario{Gen: genP03(true, false), Run: runKV})
	register("P03", "leveldb", 2, &Scenario{Gen: genP03(true, true), Run: runKV})
	register("P03", "remote-leveldb", 1, &Scenario{Gen: genP03(false, true), Run: runKV})
}
