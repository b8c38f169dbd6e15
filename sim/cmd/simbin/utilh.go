package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/util"
)

// ---- the transaction helpers ----

// flatModel is a plain key-value store.
type flatModel map[string]string

func (m flatModel) Clone() GModel { return flatModel(cpMap(m)) }
func (m flatModel) Key() string   { return toJSON(m) }
func (m flatModel) Apply(o Op, res string) bool {
	k := flatKey(o)
	switch o.K {
	case "get":
		v, ok := m[k]
		if !ok {
			return res == stNF
		}
		return res == qv(v)
	case "set":
		m[k] = o.S
		return res == "ok"
	case "del":
		delete(m, k)
		return res == "ok"
	}
	panic("simbin: unknown operation " + o.K)
}

func flatKey(o Op) string { return fmt.Sprint("u", o.A) }

func flatExec(tx mondis.ProviderTxn) func(o Op) (string, error) {
	return func(o Op) (res string, err error) {
		k := []byte(flatKey(o))
		switch o.K {
		case "get":
			var v []byte
			v, _, err = tx.Get(k)
			res = qv(string(v))
		case "set":
			res, err = "ok", tx.Set(k, []byte(o.S), nil)
		case "del":
			res, err = "ok", tx.Delete(k)
		}
		if err == kv.ErrKeyNotFound {
			return stNF, nil
		}
		return
	}
}

type utilHist struct {
	gHist
	rng *Rng
}

var errOfCaller = errors.New("error of the caller")

// outcome of the function given to a helper
const (
	fnOK = iota
	fnErr
	fnPanic
)

// call runs one helper; it returns false if it is to be retried.
func (h *utilHist) call(id int, o Op) bool {
	r := h.r
	view := o.K == "view"
	rec := &gTx{C: id, Inv: r.tick(), St: "none", Upd: !view}
	h.Txs = append(h.Txs, rec)
	defer func() { rec.Ret = r.tick() }()
	var ft *faultTxn
	var fnRes error
	calls, cancels, callbacks := 0, 0, 0
	body := func(tx mondis.ProviderTxn) error {
		calls++
		ft = tx.(*faultTxn)
		exec := h.exec(tx)
		for _, so := range o.Sub {
			if so.K == "think" {
				time.Sleep(time.Duration(so.D))
				continue
			}
			res, err := exec(so)
			if err != nil {
				if ft.hit == nil || err != ft.hit.err {
					r.Fail("unexpected-error:"+so.K, "%s failed: %v", so.K, err)
				}
				fnRes = err
				return err
			}
			rec.Last = r.tick()
			rec.Ops = append(rec.Ops, so)
			rec.Res = append(rec.Res, res)
		}
		switch o.C {
		case fnErr:
			fnRes = errOfCaller
			return errOfCaller
		case fnPanic:
			panic(errOfCaller)
		}
		if !view {
			rec.St = "maybe"
			ft.hit = nil
		} else if o.B%2 == 0 && tx.Set([]byte("u0"), []byte("no"), nil) == nil {
			r.Fail("view-writes", "a transaction of RunInNewTxn accepted a write")
		}
		return nil
	}
	var err error
	panicked := false
	func() {
		defer func() {
			if x := recover(); x != nil {
				if x != errOfCaller {
					panic(x)
				}
				panicked = true
			}
		}()
		switch o.K {
		case "run":
			err = util.RunInNewUpdateTxn(h.cu.kv, body)
		case "cancel":
			err = util.RunInNewUpdateTxnWithCancel(h.cu.kv, body, func() { cancels++ })
		case "callback":
			var cb func()
			if o.B%4 > 0 {
				cb = func() { callbacks++ }
			}
			err = util.RunInNewUpdateTxnWithCallback(h.cu.kv, body, cb)
			if (err == nil) != (callbacks == 1) && cb != nil && !panicked || callbacks > 1 {
				r.Fail("callback", "the callback after the commit was called %d times, the outcome was %v", callbacks, err)
			}
		case "view":
			err = util.RunInNewTxn(h.cu.kv, body)
		}
	}()
	r.Cov("op:" + o.K)
	r.Tracef("c%d %s %v -> %v panicked %v", id, o.K, rec, err, panicked)
	if calls != 1 {
		r.Fail("called-again", "the function of the transaction was called %d times", calls)
	}
	if panicked != (o.C == fnPanic && fnRes == nil) {
		r.Fail("panic-lost", "the function panicked, but the helper returned %v", err)
	}
	if !ft.done {
		r.Fail("txn-leak", "%s left its transaction open", o.K)
	}
	if panicked {
		return true
	}
	committing := fnRes == nil && !view
	if o.K == "cancel" {
		want := 0
		if committing && err != nil {
			want = 1
		}
		if cancels != want {
			r.Fail("cancel-function", "the cancel function was called %d times, the commit was reached: %v, the outcome was %v", cancels, committing, err)
		}
	}
	switch {
	case fnRes != nil:
		if err != fnRes {
			r.Fail("error-lost", "the function failed with %v, but the helper returned %v", fnRes, err)
		}
	case view:
		if err != nil {
			r.Fail("unexpected-error:view", "RunInNewTxn failed: %v", err)
		}
	case err == nil && ft.hit != nil:
		r.Fail("swallowed-error", "%s reported success although the storage failed the commit", o.K)
	case err == nil:
		rec.St = "ok"
	case ft.hit != nil && err == ft.hit.err:
		rec.St = "none"
	case strings.Contains(err.Error(), "Transaction Conflict"):
		rec.St = "none"
		r.Cov("txn-conflicts")
		return false
	default:
		r.Fail("unexpected-error:commit", "%s failed: %v", o.K, err)
	}
	return true
}

// big writes more than fits into one transaction.
func (h *utilHist) big(id int, o Op) bool {
	r := h.r
	var rec *gTx
	var cur mondis.ProviderTxn
	var segs []*gTx
	lastTooBig := r.tick() // the next transaction begins after this
	begin := func(tx mondis.ProviderTxn) {
		if rec != nil {
			// the one before was committed
			rec.St = "ok"
			rec.Ret = r.tick()
		}
		cur = tx
		rec = &gTx{C: id, Inv: lastTooBig, St: "none", Upd: true}
		segs = append(segs, rec)
		h.Txs = append(h.Txs, rec)
	}
	first := h.cu.kv.NewTransaction(true)
	begin(first)
	next, calls := 0, 0
	var last error
	final, err := util.TryCommitWhenTxnTooBig(h.cu.kv, first, func(tx mondis.ProviderTxn) error {
		calls++
		if tx != cur {
			begin(tx)
		} else if calls > 1 {
			r.Fail("txn-reused", "the function was called again with a transaction that had been committed")
		}
		ft := tx.(*faultTxn)
		if ft.done {
			r.Fail("txn-reused", "the function was called with a finished transaction")
		}
		exec := h.exec(tx)
		for next < len(o.Sub) {
			so := o.Sub[next]
			if so.K == "think" {
				time.Sleep(time.Duration(so.D))
				next++
				continue
			}
			res, err := exec(so)
			if err != nil {
				if ft.hit == nil || err != ft.hit.err {
					r.Fail("unexpected-error:"+so.K, "%s failed: %v", so.K, err)
				}
				ft.hit = nil
				if err == kv.ErrTxnTooBig {
					rec.St = "maybe"
					lastTooBig = r.tick()
					if rec.Last == 0 {
						rec.Last = r.tick()
					}
				}
				last = err
				return err
			}
			next++
			rec.Last = r.tick()
			rec.Ops = append(rec.Ops, so)
			rec.Res = append(rec.Res, res)
		}
		last = nil
		if o.C == fnErr {
			last = errOfCaller
		}
		if o.D > 0 && int64(calls) < o.D {
			last = kv.ErrTxnTooBig
			rec.Last = r.tick()
			rec.St = "maybe"
			lastTooBig = rec.Last
		}
		return last
	})
	rec.St = "none"
	r.Cov("op:big")
	r.CovN("too-big-segments", int64(len(segs)-1))
	r.Tracef("c%d big: %d of %d operations, %d calls, %d transactions -> %v", id, next, len(o.Sub), calls, len(segs), err)
	if final == nil {
		r.Fail("txn-lost", "TryCommitWhenTxnTooBig returned no transaction (%v)", err)
	}
	ft := final.(*faultTxn)
	committed := func(err error) bool {
		switch {
		case ft.hit != nil && err == ft.hit.err, strings.Contains(err.Error(), "Transaction Conflict"):
			r.Cov("txn-conflicts")
			return true
		}
		return false
	}
	redo := false
	switch {
	case err == nil:
		if last != nil || next != len(o.Sub) {
			r.Fail("error-lost", "the function failed with %v, but TryCommitWhenTxnTooBig succeeded", last)
		}
	case last != kv.ErrTxnTooBig:
		if err != last {
			r.Fail("error-lost", "the function failed with %v, but TryCommitWhenTxnTooBig returned %v", last, err)
		}
	case err == kv.ErrTxnTooBig:
		if calls < 5 {
			r.Fail("gave-up", "TryCommitWhenTxnTooBig gave up after %d tries", calls)
		}
		if calls > 1000 {
			r.Fail("no-progress", "TryCommitWhenTxnTooBig tried %d times", calls)
		}
		r.Cov("big-gave-up")
	default:
		// an intermediate commit failed
		if !committed(err) {
			r.Fail("unexpected-error:commit", "TryCommitWhenTxnTooBig failed: %v", err)
		}
		redo = true
	}
	if final != cur {
		// a new transaction that the function has not seen
		r.Fail("wrong-transaction", "TryCommitWhenTxnTooBig did not return the transaction of the last call")
	}
	if err == nil && ft.done {
		r.Fail("txn-finished", "TryCommitWhenTxnTooBig succeeded, but its transaction is already finished")
	}
	if err == nil && o.B%4 > 0 {
		ft.hit = nil
		rec.St = "maybe"
		err := final.Commit()
		switch {
		case err == nil:
			rec.St = "ok"
		case committed(err):
			rec.St = "none"
			redo = true
		default:
			r.Fail("unexpected-error:commit", "committing failed: %v", err)
		}
	}
	final.Discard()
	rec.Ret = r.tick()
	return !redo
}

func genUtil(crash bool) func(g *Rng, tier string, c *Case) {
	return func(g *Rng, tier string, c *Case) {
		nc := 1 + g.N(3)
		n := 3 + g.N(8)
		if tier == "thorough" && g.P(1, 3) {
			n += g.N(16)
		}
		keys := int64(1 + g.N(6))
		tok := 0
		step := func(view bool) Op {
			o := Op{K: []string{"get", "set", "set", "del"}[g.N(4)], A: g.N64(keys)}
			if view {
				o.K = "get"
			}
			if o.K == "set" {
				tok++
				o.S = fmt.Sprint("t", tok)
			}
			if g.P(1, 10) {
				o = Op{K: "think", D: g.N64(2_000_000)}
			}
			return o
		}
		for i := 0; i < nc; i++ {
			var ops []Op
			for j := 0; j < n; j++ {
				o := Op{K: []string{"run", "cancel", "callback", "view", "big"}[g.Pick(2, 2, 2, 1, 4)], B: g.N64(8)}
				o.C = int64(g.Pick(6, 1, 1))
				m := 1 + g.N(5)
				if o.K == "big" {
					m += g.N(8)
					if g.P(1, 12) {
						o.D = []int64{2, 3, 60, 1 << 40}[g.N(4)]
					}
				}
				for ; m > 0; m-- {
					o.Sub = append(o.Sub, step(o.K == "view"))
				}
				ops = append(ops, o)
			}
			c.Clients = append(c.Clients, ops)
		}
		if g.P(3, 4) {
			for k := 1 + g.N(8); k > 0; k-- {
				f := Fault{K: "kv-big", At: 1 + g.N64(int64(nc*n*4)), Arg: []int64{kvSet, kvDel}[g.Pick(3, 1)], Dur: 1}
				if g.P(1, 4) {
					f.Dur = 1 + g.N64(3)
				}
				c.Faults = append(c.Faults, f)
			}
		}
		if g.P(1, 2) {
			genKVFaults(g, c, 1+g.N(4), int64(nc*n*3))
		}
		if crash {
			c.P["crash"] = 1 + g.N64(int64(nc*n*6))
		}
	}
}

func runUtil(r *Run) {
	h := &utilHist{}
	r.LoadX(&h.gHist)
	h.r = r
	h.init, h.scan, h.exec = func() GModel { return flatModel{} }, func(string) bool { return false }, flatExec
	h.step = func(i int, o Op) bool {
		if o.K == "big" {
			return h.big(i, o)
		}
		return h.call(i, o)
	}
	h.run("helper", func() (ops []Op) {
		for a := int64(0); a < 6; a++ {
			ops = append(ops, Op{K: "get", A: a})
		}
		return
	})
}

func init() {
	register("P18", "helpers", 4, &Scenario{Gen: genUtil(false), Run: runUtil})
	register("P18", "helpers-crash", 1, &Scenario{Gen: genUtil(true), Run: runUtil})
}
