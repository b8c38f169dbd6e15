package main

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis"
)

// gTx is one attempt of a transaction in a history over a reference model.
type gTx struct {
	C    int      `json:"c"`
	Inv  int64    `json:"i"`
	Last int64    `json:"l"` // last operation returned
	Ret  int64    `json:"r"`
	St   string   `json:"s"` // ok, none, maybe
	Upd  bool     `json:"u,omitempty"`
	Ops  []Op     `json:"o,omitempty"`
	Res  []string `json:"e,omitempty"`
	Errs string   `json:"m,omitempty"`
}

func (t *gTx) String() string {
	s := fmt.Sprintf("transaction of client %d [%d..%d] %s:", t.C, t.Inv, t.Ret, t.St)
	for i, o := range t.Ops {
		s += fmt.Sprintf("\n    %s key=%d field=%d prefix=%d n=%d %s", o.K, o.A, o.B, o.C, o.D, short(qv(o.S)))
		if i < len(t.Res) {
			s += " -> " + t.Res[i]
		}
	}
	return s
}

// GModel is a reference model that operations change in place.
type GModel interface {
	GState
	Clone() GModel
	// Apply executes one operation; it reports whether res is a result it may have.
	Apply(o Op, res string) bool
}

// gHist is a history of transactions over a reference model.
type gHist struct {
	Txs  []*gTx `json:"t"`
	r    *Run
	cu   *Cluster
	init func() GModel
	// exec returns what runs operations of one transaction
	exec func(tx mondis.ProviderTxn) func(o Op) (string, error)
	// scan tells the operations that read by iterating
	scan func(k string) bool
	// step runs one element of a client, by default as a transaction
	step func(id int, o Op) bool
}

// txn runs one transaction; it returns false if it has to be retried.
func (h *gHist) txn(id int, o Op) bool {
	r := h.r
	rec := &gTx{C: id, Inv: r.tick(), St: "none", Upd: o.K == "upd"}
	h.Txs = append(h.Txs, rec)
	tx := h.cu.kv.NewTransaction(rec.Upd)
	ft := tx.(*faultTxn)
	defer func() {
		rec.Ret = r.tick()
	}()
	defer tx.Discard()
	exec := h.exec(tx)
	for _, so := range o.Sub {
		if so.K == "think" {
			time.Sleep(time.Duration(so.D))
			continue
		}
		ft.hit = nil
		h.cu.kv.FailNth(so.F)
		res, err := exec(so)
		h.cu.kv.FailNth(0)
		r.Tracef("c%d %s key=%d field=%d prefix=%d n=%d %s -> %s %v", id, so.K, so.A, so.B, so.C, so.D, short(qv(so.S)), short(res), err)
		r.Cov("op:" + so.K)
		if ft.hit != nil {
			if err == nil {
				r.Fail("swallowed-error", "%s reported success (%s) although the storage failed a %s: %v", so.K, res, kvNames[ft.hit.kind], ft.hit.err)
			}
			if err != ft.hit.err && !strings.Contains(err.Error(), ft.hit.err.Error()) {
				r.Fail("swallowed-error", "%s reported %q although the storage failed a %s with %q", so.K, err, kvNames[ft.hit.kind], ft.hit.err)
			}
			return true
		}
		rec.Last = r.tick()
		rec.Ops = append(rec.Ops, so)
		rec.Res = append(rec.Res, res)
		if o.C == 2 {
			runtime.Gosched()
		}
	}
	if !rec.Upd || o.C == 1 {
		return true
	}
	rec.St = "maybe"
	ft.hit = nil
	err := tx.Commit()
	switch {
	case err == nil:
		rec.St = "ok"
	case ft.hit != nil:
		rec.St = "none"
	case strings.Contains(err.Error(), "Transaction Conflict"):
		rec.St = "none"
		r.Cov("txn-conflicts")
		return false
	default:
		r.Fail("unexpected-error:commit", "committing failed: %v", err)
	}
	return true
}

// check decides whether the whole history is explained by the model.
func (h *gHist) check() {
	var ops []GOp
	for _, t := range h.Txs {
		t := t
		replay := func(scans, effects bool) func(GState) (GState, bool) {
			return func(s GState) (GState, bool) {
				m := s.(GModel).Clone()
				for i, o := range t.Ops {
					if !m.Apply(o, t.Res[i]) && (scans || !h.scan(o.K)) {
						return s, false
					}
				}
				if !effects {
					return s, true
				}
				return m, true
			}
		}
		scans := false
		for _, o := range t.Ops {
			scans = scans || h.scan(o.K)
		}
		if t.Last == 0 {
			continue
		}
		if t.St == "none" || scans {
			ops = append(ops, GOp{Inv: t.Inv, Ret: t.Last, Ref: t, Apply: replay(true, false)})
		}
		if t.St != "none" {
			ret := t.Ret
			if t.St == "maybe" {
				ret = 0
			}
			ops = append(ops, GOp{Inv: t.Inv, Ret: ret, Opt: t.St == "maybe", Ref: t, Apply: replay(false, true)})
		}
	}
	ok, done, stuck := LinearizableG(ops, h.init(), 200_000)
	if !done {
		h.r.Cov("linearizability-undecided")
		return
	}
	h.r.CovN("history-ops", int64(len(ops)))
	if ok {
		return
	}
	t := ops[stuck].Ref.(*gTx)
	d := ""
	for _, x := range h.Txs {
		d += x.String() + "\n"
	}
	what := "?"
	if len(t.Ops) > 0 {
		what = t.Ops[len(t.Ops)-1].K
	}
	h.r.FailD("not-serializable", d, "no serial order of the transactions explains their results; the search never gets past the %s (… %s)", strings.Split(t.String(), "\n")[0], what)
}

// run executes the clients of the case, with its faults and crash, and then
// looks at everything without faults and judges the history.
func (h *gHist) run(what string, look func() []Op) {
	r := h.r
	if h.step == nil {
		h.step = h.txn
	}
	h.cu = r.OpenLocal()
	if r.Stage == 0 {
		if at := r.C.P["crash"]; at > 0 {
			n := int64(0)
			h.cu.kv.onOp = func(int64) {
				if n++; n == at {
					r.Crash()
				}
			}
		}
		h.cu.kv.Arm()
		grp := NewGroup()
		for i := range r.C.Clients {
			i := i
			grp.Go(func() {
				for _, o := range r.C.Clients[i] {
					for k := 0; !h.step(i, o) && k < 20; k++ {
					}
				}
			})
		}
		if !grp.Wait(10 * time.Minute) {
			r.FailHang("hang:"+what, "a "+what+" operation did not return within 10 minutes of simulated time")
		}
		if r.C.P["crash"] > 0 {
			r.Crash()
		}
	}
	h.cu.kv.Disarm()
	// look at everything
	for _, upd := range []bool{false, true} {
		o := Op{K: "view"}
		if upd {
			o.K = "upd"
		}
		o.Sub = look()
		h.txn(999, o)
	}
	if h.cu.kv.OpenTx != 0 {
		r.Fail("txn-leak", "%d transactions were left open", h.cu.kv.OpenTx)
	}
	h.check()
	r.Call("close", time.Minute, func() { h.cu.closeStore() })
}
