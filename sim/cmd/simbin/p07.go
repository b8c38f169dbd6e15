package main

import (
	"time"

	"github.com/zhiqiangxu/mondis"
)

// genP07 draws storage failures below a healthy network.
func genP07(lvl bool) func(g *Rng, tier string, c *Case) {
	return func(g *Rng, tier string, c *Case) {
		genNet(g, c)
		nc := 1 + g.N(4)
		c.P["keys"] = int64(2 + g.N(4))
		c.P["shared"] = int64(g.Pick(2, 1))
		c.P["kvfaults"], c.P["strict"] = 1, 1
		m := kvMix{set: 5, get: 4, exists: 3, del: 3, upd: 8, view: 4, think: 1, scan: 2, txmax: 6, big: g.P(1, 4), cont: g.P(2, 3), bad: !lvl && g.P(1, 3)}
		if lvl {
			c.P["leveldb"] = 1
			m.upd, m.view = 0, 0
		}
		for i := 0; i < nc; i++ {
			c.Clients = append(c.Clients, genKVOps(g, m, 4+g.N(12), int(c.P["keys"])))
		}
		span := int64(5 + g.N(30))
		genKVFaults(g, c, 2+g.N(8), span)
		for i := g.N(3); i > 0 && !lvl; i-- {
			c.Faults = append(c.Faults, Fault{K: "kv-big", At: 1 + g.N64(span), Arg: int64([]int{kvSet, kvDel}[g.N(2)]), Dur: 1 + g.N64(3)})
		}
		if !lvl && g.P(1, 60) {
			genTooBig(g, c)
		}
	}
}

// genDisk draws failures of the disk below a store that is used directly.
func genDisk(lvl bool) func(g *Rng, tier string, c *Case) {
	return func(g *Rng, tier string, c *Case) {
		c.P["keys"] = int64(2 + g.N(5))
		c.P["local"] = 1
		m := kvMix{set: 8, get: 4, exists: 2, del: 3, upd: 5, view: 1, think: 1, scan: 3, txmax: 5, big: g.P(2, 3), batch: 3}
		if lvl {
			c.P["leveldb"] = 1
			m.upd, m.view = 0, 0
		}
		if lvl && g.P(1, 2) {
			// most of the data is in tables when the disk fails
			c.P["tables"] = 1 + g.N64(3)
			m.get, m.exists, m.scan = 8, 4, 6
		}
		c.P["nc"] = int64(1 + g.N(3))
		for i := int64(0); i < c.P["nc"]; i++ {
			c.Clients = append(c.Clients, genKVOps(g, m, 4+g.N(10), int(c.P["keys"])))
		}
		for i := 0; i < 1+g.N(3); i++ {
			f := Fault{K: "disk-err", At: 1 + g.N64(14), Dur: 1 + g.N64(3), Arg: g.N64(5)}
			if c.P["tables"] != 0 && g.P(2, 3) {
				f.Arg = 4
				f.At = 1 + g.N64(8)
			}
			c.Faults = append(c.Faults, f)
		}
		if !lvl {
			// Badger itself does not survive failing tables and manifests, see DESIGN.md
			for i := range c.Faults {
				c.Faults[i].Arg = 5
			}
		}
	}
}

// runDisk lets the disk fail under a store; what was acknowledged must be
// there when a healthy disk is back.
func runDisk(r *Run) {
	keys := genKeys(NewRng(mix(r.C.Seed, 99)), int(r.C.P["keys"]))
	h := &kvHist{}
	r.LoadX(h)
	h.r, h.keys = r, keys
	d := NewDisk(r)
	cu := &Cluster{r: r}
	if r.Stage == 1 {
		cu = r.OpenLocal()
		fc := &kvClient{r: r, h: h, cu: cu, id: 1000, c: localClient{cu.kv}}
		fc.step(Op{K: "scan", S: ",", B: 1000})
		for i := range keys {
			fc.step(Op{K: "get", A: int64(i)})
		}
		h.check(nil)
		r.Call("close", time.Minute, func() { cu.closeStore() })
		return
	}
	for j := int64(0); j < r.C.P["tables"]; j++ {
		// opening the store again puts what is in the log into a table
		cu = r.OpenLocal()
		fc := &kvClient{r: r, h: h, cu: cu, id: 900 + int(j), c: localClient{cu.kv}}
		for i := range keys {
			if o := (Op{K: "set", A: int64(i)}); r.Rng.P(3, 4) {
				if r.Rng.P(1, 4) {
					o.D = 5000
				}
				fc.step(o)
			} else if r.Rng.P(1, 2) {
				fc.step(Op{K: "del", A: int64(i)})
			}
		}
		r.Call("close", time.Minute, func() { cu.closeStore() })
		cu = &Cluster{r: r}
	}
	cu.kv = NewFaultKV(r, r.provider())
	if r.C.P["open"] != 0 {
		d.Arm()
	}
	if err := cu.kv.Open(mondis.KVOption{Dir: r.Dir}); err != nil {
		if d.nerr == 0 {
			r.openFailed("open", err)
		}
		r.Cov("open-refused-on-disk-error")
		r.Restart()
	}
	r.St.Opened++
	if r.C.P["open"] == 0 {
		d.Arm()
	}
	grp := NewGroup()
	for i := range r.C.Clients {
		k, ops := &kvClient{r: r, h: h, cu: cu, id: i, c: localClient{cu.kv}, disk: d}, r.C.Clients[i]
		grp.Go(func() { k.run(ops) })
	}
	if !grp.Wait(10 * time.Minute) {
		r.FailHang("hang:client", "an operation did not return within 10 minutes of simulated time")
	}
	// closing may fail with a disk error, but it must return
	r.Call("close", 10*time.Minute, func() { cu.kv.Close() })
	d.Disarm()
	r.Restart()
}

func init() {
	register("P07", "remote", 6, &Scenario{Gen: genP07(false), Run: runKV})
	register("P07", "remote-leveldb", 1, &Scenario{Gen: genP07(true), Run: runKV})
	register("P07", "disk-badger", 2, &Scenario{Gen: genDisk(false), Run: runDisk})
	register("P07", "disk-leveldb", 2, &Scenario{Gen: genDisk(true), Run: runDisk})
}
