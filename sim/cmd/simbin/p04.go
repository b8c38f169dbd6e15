package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis"
)

// txJSON is the persisted form of a kvTx.
type txJSON struct {
	Name     string             `json:"n"`
	Client   int                `json:"c"`
	Inv      int64              `json:"i"`
	LastRead int64              `json:"l"`
	Ret      int64              `json:"r"`
	St       string             `json:"s"`
	Obs      []obsJSON          `json:"o,omitempty"`
	Own      map[string]*string `json:"w,omitempty"`
	Keys     map[string]string  `json:"k,omitempty"`
	Update   bool               `json:"u,omitempty"`
}
type obsJSON struct {
	K string `json:"k"`
	V string `json:"v"`
	A bool   `json:"a,omitempty"`
	S bool   `json:"s,omitempty"`
}

// JSON would mangle keys that are not UTF-8.
func enc(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if c := s[i]; c < 32 || c > 126 || c == '%' {
			fmt.Fprintf(&b, "%%%02x", c)
		} else {
			b.WriteByte(c)
		}
	}
	return b.String()
}
func dec(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			var c int
			fmt.Sscanf(s[i+1:i+3], "%02x", &c)
			b.WriteByte(byte(c))
			i += 2
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func (h *kvHist) MarshalJSON() ([]byte, error) {
	var l []txJSON
	for _, t := range h.txs {
		j := txJSON{Name: t.name, Client: t.client, Inv: t.inv, LastRead: t.lastRead, Ret: t.ret, St: t.st, Update: t.update, Own: map[string]*string{}}
		for _, o := range t.obs {
			j.Obs = append(j.Obs, obsJSON{enc(o.k), enc(o.v), o.absent, o.scan})
		}
		for k, v := range t.own {
			if v != nil {
				e := enc(*v)
				v = &e
			}
			j.Own[enc(k)] = v
		}
		l = append(l, j)
	}
	return json.Marshal(l)
}

func (h *kvHist) UnmarshalJSON(b []byte) error {
	var l []txJSON
	if err := json.Unmarshal(b, &l); err != nil {
		return err
	}
	for _, j := range l {
		t := &kvTx{name: j.Name, client: j.Client, inv: j.Inv, lastRead: j.LastRead, ret: j.Ret, st: j.St, update: j.Update, own: map[string]*string{}}
		for _, o := range j.Obs {
			t.obs = append(t.obs, kvObs{k: dec(o.K), v: dec(o.V), absent: o.A, scan: o.S})
		}
		for k, v := range j.Own {
			if v != nil {
				e := dec(*v)
				v = &e
			}
			t.own[dec(k)] = v
		}
		h.txs = append(h.txs, t)
	}
	return nil
}

// LoadX decodes what earlier stages of this run persisted.
func (r *Run) LoadX(x interface{}) {
	r.X = x
	if len(r.St.X) > 0 {
		if err := json.Unmarshal(r.St.X, x); err != nil {
			panic("simbin: cannot decode the persisted state: " + err.Error())
		}
	}
}

// Restart ends this stage: the next one starts from what is on disk.
func (r *Run) Restart() {
	r.Cov("restart-after-clean-close")
	r.St.Cov["fault:process-crash"]--
	r.Crash()
}

// genP04 draws the workload of one crash-recovery run: every stage but the
// last ends with a crash (or a clean close), the last one looks at the store.
func genP04(kind string) func(g *Rng, tier string, c *Case) {
	return func(g *Rng, tier string, c *Case) {
		c.P["keys"] = int64(2 + g.N(6))
		m := kvMix{set: 6, get: 2, exists: 1, del: 3, scan: 1, upd: 5, view: 1, think: 1, txmax: 5, big: g.P(1, 2), tag: true, batch: 3}
		switch kind {
		case "badger":
			c.P["local"] = 1
		case "leveldb":
			c.P["local"], c.P["leveldb"] = 1, 1
			m.upd, m.view, m.tag = 0, 0, false
		case "remote":
			genNet(g, c)
			m.batch = 0
		}
		if g.P(1, 8) {
			// writes of the value log are often torn
			c.P["torn"] = 1
			m.big = true
		}
		stages := 1 + g.N(4)
		c.P["stages"] = int64(stages)
		nc := 1 + g.N(3)
		c.P["nc"] = int64(nc)
		for s := 0; s < stages; s++ {
			for i := 0; i < nc; i++ {
				c.Clients = append(c.Clients, genKVOps(g, m, 2+g.N(9), int(c.P["keys"])))
			}
			switch g.Pick(4, 3, 2, 1) {
			case 0, 1:
				k := "disk-crash"
				if kind != "leveldb" && g.P(1, 2) {
					k = "disk-power"
				}
				span := int64(12)
				if s > 0 || g.P(1, 2) {
					span = 40
				}
				c.Faults = append(c.Faults, Fault{K: k, At: 1 + g.N64(span), T: int64(s)})
			case 2:
				c.Faults = append(c.Faults, Fault{K: "kill", At: g.N64(3_000_000), T: int64(s)})
			case 3:
				// closed in good order
			}
			c.Faults = append(c.Faults, Fault{K: "kill", At: int64(time.Hour), T: int64(s)})
		}
	}
}

// runP04 runs one stage.
func runP04(r *Run) {
	keys := genKeys(NewRng(mix(r.C.Seed, 99)), int(r.C.P["keys"]))
	h := &kvHist{}
	r.LoadX(h)
	h.r, h.keys = r, keys
	NewNet(r)
	d := NewDisk(r)
	last := r.Stage >= int(r.C.P["stages"])
	if !last {
		d.Arm()
	}
	local := r.C.P["local"] != 0
	var cu *Cluster
	open := func() {
		if local {
			cu = r.OpenLocal()
		} else {
			cu = r.StartServer()
		}
	}
	if last {
		open()
	} else {
		for _, f := range r.C.Faults {
			if f.K == "kill" && f.T == int64(r.Stage) {
				at := f.At
				go func() {
					time.Sleep(time.Duration(at))
					d.Crash()
				}()
			}
		}
		open()
	}
	newClient := func() mondis.Client {
		if local {
			return localClient{cu.kv}
		}
		return cu.Client()
	}
	look := func(id int) {
		fc := &kvClient{r: r, h: h, cu: cu, id: id, c: newClient()}
		fc.step(Op{K: "scan", S: ",", B: 1000})
		for i := range keys {
			fc.step(Op{K: "get", A: int64(i)})
		}
	}
	nc := int(r.C.P["nc"])
	if last {
		d.Disarm()
		look(1000)
		h.check(nil)
		r.Call("close", time.Minute, func() { cu.closeStore() })
		return
	}
	if r.Stage > 0 && r.Rng.P(1, 2) {
		look(900 + r.Stage)
	}
	grp := NewGroup()
	for i := 0; i < nc; i++ {
		j := r.Stage*nc + i
		if j >= len(r.C.Clients) {
			break
		}
		k, ops := &kvClient{r: r, h: h, cu: cu, id: j, c: newClient()}, r.C.Clients[j]
		grp.Go(func() { k.run(ops) })
	}
	if !grp.Wait(10 * time.Minute) {
		r.FailHang("hang:client", "a client operation did not return within 10 minutes of simulated time")
	}
	if r.Rng.P(1, 2) {
		// a clean close; a crash may still hit it
		r.Call("close", 10*time.Minute, func() { cu.closeStore() })
		if d.crashAt == 0 || r.Rng.P(1, 2) {
			r.Restart()
		}
	}
	d.Crash()
}

func (cu *Cluster) closeStore() {
	var err error
	if cu.srv != nil {
		err = cu.srv.Stop()
	} else {
		err = cu.kv.Close()
	}
	if err != nil {
		cu.r.Fail("close", "closing the store failed: %v", err)
	}
}

func init() {
	register("P04", "badger", 4, &Scenario{Gen: genP04("badger"), Run: runP04})
	register("P04", "leveldb", 2, &Scenario{Gen: genP04("leveldb"), Run: runP04})
	register("P04", "remote", 2, &Scenario{Gen: genP04("remote"), Run: runP04})
}
