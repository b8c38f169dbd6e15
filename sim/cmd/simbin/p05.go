package main

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis"
)

// ttlWrite is one write of a key that only one client writes.
type ttlWrite struct {
	K   int    `json:"k"`
	Val string `json:"v"`
	Del bool   `json:"d,omitempty"`
	TTL int64  `json:"ttl,omitempty"`
	Tag byte   `json:"tag,omitempty"`
	Inv int64  `json:"i"`
	Ret int64  `json:"r"`
	W1  int64  `json:"w1"` // earliest and latest wall clock of the call
	W2  int64  `json:"w2"`
	St  string `json:"s"`
}

type wallJump struct {
	Seq    int64 `json:"q"`
	Before int64 `json:"b"`
	After  int64 `json:"a"`
}

type ttlHist struct {
	Writes []*ttlWrite `json:"w"`
	Jumps  []wallJump  `json:"j"`
	r      *Run
	keys   []string
}

func wallNow() int64 { return time.Now().UnixNano() }

func (h *ttlHist) jump(d int64) {
	b := wallNow()
	runtime.SimWall(d)
	h.Jumps = append(h.Jumps, wallJump{h.r.tick(), b, wallNow()})
	h.r.Cov("fault:clock-jump")
	h.r.Tracef("FAULT clock jumps by %v", time.Duration(d))
}

// span returns the earliest and latest reading of the clock since the event
// with number seq, when it read w.
func (h *ttlHist) span(seq, w int64) (int64, int64) {
	lo, hi := w, wallNow()
	if lo > hi {
		lo, hi = hi, lo
	}
	for _, j := range h.Jumps {
		if j.Seq > seq {
			for _, x := range []int64{j.Before, j.After} {
				if x < lo {
					lo = x
				}
				if x > hi {
					hi = x
				}
			}
		}
	}
	return lo, hi
}

func floorSec(ns int64) int64 { return int64(math.Floor(float64(ns/1000) / 1e6)) }

// expiry is the range of expiry times the write may have got.
func (w *ttlWrite) expiry() (uint64, uint64) {
	if w.TTL == 0 {
		return 0, 0
	}
	return uint64((w.W1 + w.TTL) / 1e9), uint64((w.W2 + w.TTL) / 1e9)
}

type ttlClient struct {
	h    *ttlHist
	id   int
	nc   int
	seq  int
	c    mondis.Client
	r    *Run
	cu   *Cluster
	base int64
}

// begin and done bracket a call.
type ttlCall struct{ seq, wall int64 }

func (k *ttlClient) begin() ttlCall { return ttlCall{k.r.tick(), wallNow()} }

func (w *ttlWrite) describe(h *ttlHist) string {
	lo, hi := w.expiry()
	return fmt.Sprintf("write of key %q: value %q (deleted: %v) ttl %v tag %d at %d..%d (expiry %d..%d) %s", h.keys[w.K], w.Val, w.Del, time.Duration(w.TTL), w.Tag, w.W1, w.W2, lo, hi, w.St)
}

// judge checks one observation of key i: c0 is when the snapshot was taken at
// the earliest, c1 when the read started, own the write of the same
// transaction.
func (k *ttlClient) judge(what string, i int, c0, c1 ttlCall, snapEnd int64, own *ttlWrite, found, exists bool, v []byte, m mondis.VMetaResp) {
	h := k.h
	end := k.r.tick()
	if snapEnd == 0 {
		snapEnd = end
	}
	r1, r2 := h.span(c1.seq, c1.wall)
	_ = r2
	var cand []*ttlWrite
	initial := own == nil
	if own != nil {
		cand = append(cand, own)
	} else {
		for _, w := range h.Writes {
			if w.K != i || w.St == "none" || w.Inv > snapEnd {
				continue
			}
			if w.St == "ok" && w.Ret < c0.seq {
				cand = cand[:0]
				initial = false
			}
			cand = append(cand, w)
		}
	}
	desc := func() string {
		s := fmt.Sprintf("clock %d..%d;", r1, r2)
		for _, w := range cand {
			s += " " + w.describe(h) + ";"
		}
		return s
	}
	k.r.Cov("ttl-observations")
	if !found {
		if initial {
			return
		}
		for _, w := range cand {
			if w.Del {
				return
			}
			if w.TTL != 0 {
				_, hi := h.span(w.Inv, w.W1)
				if lo, _ := w.expiry(); uint64(floorSec(hi)) >= lo {
					k.r.Cov("ttl-expired-seen")
					return
				}
			}
		}
		k.r.FailD("lost-value", desc(), "client %d: %s: key %q is absent although no deletion and no expiry explains it; %s", k.id, what, h.keys[i], desc())
		return
	}
	kind, why := "expired-visible", ""
	for _, w := range cand {
		if w.Del {
			continue
		}
		lo, hi := w.expiry()
		if exists {
			if w.TTL == 0 || uint64(floorSec(r1)) < hi {
				return
			}
			continue
		}
		if w.Val != string(v) {
			if kind == "expired-visible" && len(cand) == 1 {
				kind = "wrong-value"
			}
			continue
		}
		// several writes may have written the same value
		if m.Tag != w.Tag {
			kind, why = "wrong-tag", fmt.Sprintf("has tag %d instead of %d", m.Tag, w.Tag)
			continue
		}
		if m.ExpiresAt < lo || m.ExpiresAt > hi {
			kind, why = "wrong-expiry", fmt.Sprintf("expires at %d instead of %d..%d", m.ExpiresAt, lo, hi)
			continue
		}
		if w.TTL != 0 && uint64(floorSec(r1)) >= m.ExpiresAt {
			continue
		}
		if w.TTL != 0 {
			k.r.Cov("ttl-live-seen")
		}
		return
	}
	if why != "" {
		k.r.FailD(kind, desc(), "client %d: %s: key %q %s; %s", k.id, what, h.keys[i], why, desc())
	}
	k.r.FailD(kind, desc(), "client %d: %s: key %q has value %q (expires at %d), which is expired, deleted or overwritten; %s", k.id, what, h.keys[i], v, m.ExpiresAt, desc())
}

func (k *ttlClient) fail(what string, err error) {
	k.r.Fail("unexpected-error:"+what, "client %d: %s failed with %q although nothing failed", k.id, what, err)
}

// mine maps an operand to a key this client owns.
func (k *ttlClient) mine(a int64) (int, bool) {
	n := len(k.h.keys)
	own := 0
	for i := 0; i < n; i++ {
		if i%k.nc == k.id%k.nc {
			own++
		}
	}
	if own == 0 {
		return 0, false
	}
	return int(a)%own*k.nc + k.id%k.nc, true
}

// newWrite prepares a write of key i; its clock span is filled in by setDone.
func (k *ttlClient) newWrite(op Op, i int) (*ttlWrite, []byte, *mondis.VMetaReq) {
	w := &ttlWrite{K: i, St: "maybe", Del: op.K != "set"}
	if op.K == "set" {
		k.seq++
		w.Val = fmt.Sprintf("v%d.%d.%d", k.r.Stage, k.id, k.seq)
		if pad := int(op.D >> 1); pad > 0 {
			w.Val += "." + strings.Repeat("p", pad)
		}
		if op.S != "" {
			w.Val = op.S // written again and again
		}
		if op.S == "-" {
			w.Val = ""
		}
		w.TTL, w.Tag = op.C, byte(op.B)
	}
	c := k.begin()
	w.Inv, w.W1 = c.seq, c.wall
	w.W2 = math.MaxInt64 / 4
	var m *mondis.VMetaReq
	if w.TTL != 0 || w.Tag != 0 || op.D&1 != 0 {
		m = &mondis.VMetaReq{TTL: time.Duration(w.TTL), Tag: w.Tag}
	}
	k.h.Writes = append(k.h.Writes, w)
	return w, []byte(w.Val), m
}

func (k *ttlClient) wrote(w *ttlWrite) { w.W1, w.W2 = k.h.span(w.Inv, w.W1) }

func (k *ttlClient) run(ops []Op) {
	for _, op := range ops {
		k.step(op)
	}
}

func (k *ttlClient) step(op Op) {
	h, r := k.h, k.r
	r.Cov("op:" + op.K)
	switch op.K {
	case "think":
		sleepNs(op.A)
	case "set", "del":
		i, ok := k.mine(op.A)
		if !ok {
			return
		}
		w, v, m := k.newWrite(op, i)
		var err error
		if op.K == "set" {
			err = k.c.Set([]byte(h.keys[i]), v, m)
		} else {
			err = k.c.Delete([]byte(h.keys[i]))
		}
		if err != nil {
			k.fail(op.K, err)
		}
		k.wrote(w)
		w.Ret, w.St = r.tick(), "ok"
		r.Tracef("c%d %s", k.id, w.describe(h))
	case "get", "exists", "scan":
		k.look(k.c, op, nil, nil, 0)
	case "upd", "view":
		own := map[int]*ttlWrite{}
		c := k.begin()
		first := &c // the snapshot may be as old as this
		var snapEnd int64
		var mineW []*ttlWrite
		fn := func(x mondis.Txn) error {
			for _, s := range op.Sub {
				switch s.K {
				case "think":
					sleepNs(s.A)
				case "set", "del":
					i, ok := k.mine(s.A)
					if !ok {
						continue
					}
					w, v, m := k.newWrite(s, i)
					var err error
					if s.K == "set" {
						err = x.Set([]byte(h.keys[i]), v, m)
					} else {
						err = x.Delete([]byte(h.keys[i]))
					}
					if err != nil {
						k.fail("txn-"+s.K, err)
					}
					k.wrote(w)
					if o := own[i]; o != nil {
						o.St = "none"
					}
					own[i] = w
					mineW = append(mineW, w)
					if snapEnd == 0 {
						snapEnd = r.tick()
					}
				default:
					k.look(x, s, own, first, snapEnd)
					if snapEnd == 0 {
						snapEnd = r.tick()
					}
				}
			}
			if op.C == 1 {
				return errAbort
			}
			return nil
		}
		var err error
		if op.K == "upd" {
			err = k.c.Update(fn)
		} else {
			err = k.c.View(fn)
		}
		st := "ok"
		switch {
		case op.C == 1:
			if errClass(err) != "abort" {
				k.fail("abort", err)
			}
			st = "none"
		case err == nil:
		case errClass(err) == "srv" && bytes.Contains([]byte(err.Error()), []byte("Transaction Conflict")):
			r.Cov("txn-conflict")
			st = "none"
		default:
			k.fail("commit", err)
		}
		for _, w := range mineW {
			if w.St == "maybe" {
				w.St, w.Ret = st, r.tick()
			}
		}
	}
}

// look reads through x; first is the first call of the transaction.
func (k *ttlClient) look(x mondis.KVOP, op Op, own map[int]*ttlWrite, first *ttlCall, snapEnd int64) {
	h := k.h
	c1 := k.begin()
	c0 := c1
	if first != nil {
		c0 = *first
	}
	i := int(op.A) % len(h.keys)
	what := op.K
	if first != nil {
		what = "txn-" + op.K
	}
	switch op.K {
	case "get":
		v, m, err := x.Get([]byte(h.keys[i]))
		cl := errClass(err)
		if cl != "ok" && cl != "nf" {
			k.fail(what, err)
		}
		k.judge(what, i, c0, c1, snapEnd, own[i], err == nil, false, v, m)
	case "exists":
		ok, err := x.Exists([]byte(h.keys[i]))
		if err != nil {
			k.fail(what, err)
		}
		k.judge(what, i, c0, c1, snapEnd, own[i], ok, true, nil, mondis.VMetaResp{})
	case "scan":
		o := mondis.ScanOption{Limit: 1000}
		o.Reverse = op.B&1 != 0
		es, err := x.Scan(o)
		if err != nil {
			k.fail(what, err)
		}
		for i, key := range h.keys {
			found := false
			for _, e := range es {
				if string(e.Key) == key {
					k.judge(what, i, c0, c1, snapEnd, own[i], true, false, e.Value, e.Meta)
					found = true
				}
			}
			if !found {
				k.judge(what, i, c0, c1, snapEnd, own[i], false, false, nil, mondis.VMetaResp{})
			}
		}
	}
}

func genTTLOps(g *Rng, n, nkeys int) []Op {
	var ops []Op
	same := g.P(1, 4)
	set := func() Op {
		o := Op{K: "set", A: g.N64(int64(nkeys))}
		if g.P(3, 4) {
			o.C = []int64{1, 1e6, 300e6, 999e6, 1000e6, 1001e6, 1500e6, 2000e6, 3500e6, 10e9, 60e9, 3600e9, 86400e9 * 365, 86400e9 * 365 * 150}[g.N(14)]
			if g.P(1, 3) {
				o.C = 1 + g.N64(5e9)
			}
			if g.P(1, 16) {
				o.C = -[]int64{1, 1e6, 999e6, 1000e6, 5e9, 3600e9}[g.N(6)]
			}
		}
		if g.P(1, 2) {
			o.B = 1 + g.N64(255)
		}
		o.D = g.N64(2)
		if same {
			o.S = []string{"s", "t"}[g.Pick(3, 1)]
		}
		if g.P(1, 12) {
			o.S = "-" // nothing
		}
		if g.P(1, 3) {
			// beyond the size from which Badger keeps values apart from keys
			o.D |= []int64{24, 25, 26, 27, 60, 200, 3000}[g.N(7)] << 1
		}
		return o
	}
	think := func() Op {
		d := g.N64(3e9)
		switch g.N(6) {
		case 0:
			d = g.N64(1e6)
		case 1:
			d = g.N64(60e9)
		case 2:
			d = g.N64(1e9)
		}
		return Op{K: "think", A: d}
	}
	for i := 0; i < n; i++ {
		switch g.Pick(6, 1, 4, 2, 2, 3, 2, 5) {
		case 0:
			ops = append(ops, set())
		case 1:
			ops = append(ops, Op{K: "del", A: g.N64(int64(nkeys))})
		case 2:
			ops = append(ops, Op{K: "get", A: g.N64(int64(nkeys))})
		case 3:
			ops = append(ops, Op{K: "exists", A: g.N64(int64(nkeys))})
		case 4:
			ops = append(ops, Op{K: "scan", B: g.N64(2)})
		case 5, 6:
			o := Op{K: "upd"}
			if g.P(1, 3) {
				o.K = "view"
			}
			for j := 0; j < 1+g.N(5); j++ {
				w := 4
				if o.K == "view" {
					w = 0
				}
				switch g.Pick(w, w/4, 3, 1, 1, 2) {
				case 0:
					o.Sub = append(o.Sub, set())
				case 1:
					o.Sub = append(o.Sub, Op{K: "del", A: g.N64(int64(nkeys))})
				case 2:
					o.Sub = append(o.Sub, Op{K: "get", A: g.N64(int64(nkeys))})
				case 3:
					o.Sub = append(o.Sub, Op{K: "exists", A: g.N64(int64(nkeys))})
				case 4:
					o.Sub = append(o.Sub, Op{K: "scan", B: g.N64(2)})
				case 5:
					o.Sub = append(o.Sub, think())
				}
			}
			if g.P(1, 8) {
				o.C = 1
			}
			ops = append(ops, o)
		case 7:
			ops = append(ops, think())
		}
	}
	return ops
}

func genP05(local bool) func(g *Rng, tier string, c *Case) {
	return func(g *Rng, tier string, c *Case) {
		genNet(g, c)
		if local {
			c.P["local"] = 1
		}
		c.P["keys"] = int64(1 + g.N(4))
		nc := 1 + g.N(3)
		c.P["nc"] = int64(nc)
		stages := g.Pick(3, 2, 1)
		c.P["stages"] = int64(stages)
		for s := 0; s <= stages; s++ {
			for i := 0; i < nc; i++ {
				c.Clients = append(c.Clients, genTTLOps(g, 5+g.N(10), int(c.P["keys"])))
			}
			if s < stages && g.P(1, 2) {
				c.Faults = append(c.Faults, Fault{K: "kill", At: g.N64(10e9), T: int64(s)})
			}
			if g.P(1, 4) {
				f := Fault{K: "clock-jump", At: g.N64(5e9), T: int64(s), Arg: 1 + g.N64(4e9)}
				if g.P(1, 2) {
					f.Arg = -f.Arg
				} else if g.P(1, 2) {
					f.Arg = g.N64(4000e9)
				}
				c.Faults = append(c.Faults, f)
			}
		}
		c.P["down"] = []int64{0, 1e8, 2e9, 100e9}[g.N(4)]
	}
}

func runP05(r *Run) {
	keys := genKeys(NewRng(mix(r.C.Seed, 99)), int(r.C.P["keys"]))
	h := &ttlHist{}
	r.LoadX(h)
	h.r, h.keys = r, keys
	if r.Stage > 0 {
		// the time the process was down
		runtime.SimWall(r.C.P["down"])
	}
	NewNet(r)
	last := r.Stage >= int(r.C.P["stages"])
	var cu *Cluster
	var newClient func() mondis.Client
	if r.C.P["local"] != 0 {
		cu = r.OpenLocal()
		newClient = func() mondis.Client { return localClient{cu.kv} }
	} else {
		cu = r.StartServer()
		newClient = cu.Client
	}
	for _, f := range r.C.Faults {
		f := f
		if f.T != int64(r.Stage) {
			continue
		}
		switch f.K {
		case "kill":
			go func() {
				time.Sleep(time.Duration(f.At))
				r.Crash()
			}()
		case "clock-jump":
			go func() {
				time.Sleep(time.Duration(f.At))
				h.jump(f.Arg)
			}()
		}
	}
	nc := int(r.C.P["nc"])
	grp := NewGroup()
	for i := 0; i < nc; i++ {
		j := r.Stage*nc + i
		if j >= len(r.C.Clients) {
			break
		}
		k, ops := &ttlClient{r: r, h: h, cu: cu, id: i, nc: nc, c: newClient()}, r.C.Clients[j]
		grp.Go(func() { k.run(ops) })
	}
	if !grp.Wait(4 * time.Hour) {
		r.FailHang("hang:client", "a client operation did not return within 4 hours of simulated time")
	}
	k := &ttlClient{r: r, h: h, cu: cu, id: nc, nc: nc, c: newClient()}
	k.look(k.c, Op{K: "scan"}, nil, nil, 0)
	for i := range keys {
		k.look(k.c, Op{K: "get", A: int64(i)}, nil, nil, 0)
	}
	if !last {
		r.Call("close", time.Minute, func() { cu.closeStore() })
		r.Restart()
	}
}

func init() {
	register("P05", "remote", 3, &Scenario{Gen: genP05(false), Run: runP05, MaxTime: 24 * time.Hour})
	register("P05", "local", 3, &Scenario{Gen: genP05(true), Run: runP05, MaxTime: 24 * time.Hour})
}
