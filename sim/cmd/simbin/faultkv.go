package main

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
)

// FaultKV is the storage-provider seam: the real provider behind injected
// errors and delays.  An injected error always means that the operation was
// not applied.
type FaultKV struct {
	mondis.KVDB
	r      *Run
	rng    *Rng
	plan   []Fault // "kv-err": operation class Arg fails at its At-th call, Dur times; "kv-slow"
	counts map[int64]int64
	armed  bool
	Hits   int64
	OpenTx int // transactions neither committed nor discarded
	onOp   func(kind int64)
	dead   bool             // the process this store belonged to is gone
	late   map[uint64]int64 // goroutines that learn later of what they commit
	inj    []*injection
	nth    map[uint64]int64 // calls that goroutines make until one fails

	openErr, closeErr error
	closed            int
}

// Open fails as planned, without touching the store.
func (f *FaultKV) Open(o mondis.KVOption) error {
	if f.openErr != nil {
		f.r.Cov("fault:kv-open")
		return f.openErr
	}
	return f.KVDB.Open(o)
}

// Close closes the store and may then report a failure.
func (f *FaultKV) Close() error {
	err := f.KVDB.Close()
	f.closed++
	if err == nil && f.closeErr != nil {
		f.r.Cov("fault:kv-close")
		err = f.closeErr
	}
	return err
}

// operation classes
const (
	kvSet = iota
	kvGet
	kvDel
	kvExists
	kvScan
	kvCommit
	kvNOps
	kvAny // every operation
)

var kvNames = []string{"set", "get", "delete", "exists", "scan", "commit"}

// injection is one injected storage failure.
type injection struct {
	n        int
	kind     int64
	seq      int64
	key      string
	err      error
	reported bool
	g        uint64 // the goroutine it hit
}

func NewFaultKV(r *Run, db mondis.KVDB) *FaultKV {
	f := &FaultKV{KVDB: db, r: r, counts: map[int64]int64{}, late: map[uint64]int64{}, nth: map[uint64]int64{}, rng: NewRng(mix(r.C.Seed, 53000+uint64(r.Stage)))}
	for _, x := range r.C.Faults {
		if x.K == "kv-err" || x.K == "kv-slow" || x.K == "kv-big" {
			f.plan = append(f.plan, x)
		}
	}
	return f
}

func (f *FaultKV) Arm()    { f.armed = true; f.counts = map[int64]int64{} }
func (f *FaultKV) Disarm() { f.armed = false }

// FailNth makes the n-th call of the running goroutine fail, none if n is zero.
func (f *FaultKV) FailNth(n int64) {
	if g := runtime.SimGoid(); n > 0 {
		f.nth[g] = n
	} else {
		delete(f.nth, g)
	}
}

// genFailNth makes operations of the clients fail in the middle.
func genFailNth(g *Rng, clients [][]Op) {
	n := 2 + g.N(20)
	var gen func(ops []Op)
	gen = func(ops []Op) {
		for i := range ops {
			if g.P(1, n) {
				ops[i].F = 1 + g.N64(1<<g.N(4))
			}
			gen(ops[i].Sub)
		}
	}
	for _, ops := range clients {
		gen(ops)
	}
}

// genKVFaults draws storage faults over the first span calls of each class.
func genKVFaults(g *Rng, c *Case, n int, span int64) {
	for i := 0; i < n; i++ {
		f := Fault{K: "kv-err", At: 1 + g.N64(span), Arg: g.N64(kvNOps), Dur: 1}
		if g.P(1, 6) {
			// nothing works for a while
			f.Arg, f.At, f.Dur = kvAny, 1+g.N64(span*3), 2+g.N64(12)
			if g.P(1, 3) {
				// or everything takes its time
				f.K, f.Dur, f.T = "kv-slow", 5+g.N64(60), 1+g.N64(50_000_000)
			}
			c.Faults = append(c.Faults, f)
			continue
		}
		if g.P(1, 4) {
			f.Dur = 1 + g.N64(4)
		}
		if g.P(1, 5) {
			f.K = "kv-slow"
			f.T = 1 + g.N64(50_000_000)
		}
		c.Faults = append(c.Faults, f)
	}
}

// claim attributes an error that a client saw since event inv to the injected
// failure behind it; it reports false if there is none.
func (f *FaultKV) claim(inv int64, err error) bool {
	for _, i := range f.inj {
		if i.seq < inv || i.reported {
			continue
		}
		// the error for a transaction that is too big keeps its identity
		if i.err == err || i.err != kv.ErrTxnTooBig && strings.HasSuffix(err.Error(), i.err.Error()) {
			i.reported = true
			return true
		}
	}
	return false
}

// mine returns the last failure injected into this goroutine since event inv.
func (f *FaultKV) mine(inv int64) *injection {
	g := runtime.SimGoid()
	for i := len(f.inj) - 1; i >= 0 && f.inj[i].seq > inv; i-- {
		if f.inj[i].g == g {
			return f.inj[i]
		}
	}
	return nil
}

func (f *FaultKV) pre(kind int64, key []byte) error { return f.pre2(kind, key, false) }

// pre is the same for an operation of a transaction.
func (t *faultTxn) pre(kind int64, key []byte) error {
	err := t.f.pre2(kind, key, kind != kvCommit)
	if err != nil {
		t.hit = t.f.inj[len(t.f.inj)-1]
	}
	return err
}

func (f *FaultKV) pre2(kind int64, key []byte, inTxn bool) error {
	if f.dead {
		f.gone()
	}
	if f.onOp != nil {
		f.onOp(kind)
	}
	if !f.armed {
		return nil
	}
	f.counts[kind]++
	f.counts[kvAny]++
	if g := runtime.SimGoid(); f.nth[g] > 0 {
		f.nth[g]--
		if f.nth[g] == 0 {
			return f.inject("kv-op", kind, key)
		}
	}
	for _, p := range f.plan {
		n := f.counts[p.Arg]
		if (p.Arg == kind || p.Arg == kvAny) && n >= p.At && n < p.At+p.Dur {
			if p.K == "kv-slow" {
				f.r.Cov("fault:kv-slow")
				d := p.T
				if p.Dur > 4 {
					d = f.rng.N64(p.T) >> f.rng.N(12) // a slow phase
					if f.rng.P(1, 2) {
						continue
					}
				}
				if kind == kvCommit && f.rng.P(1, 2) {
					f.late[runtime.SimGoid()] = d
					continue
				}
				time.Sleep(time.Duration(d))
				continue
			}
			if p.K == "kv-big" && (!inTxn || kind != kvSet && kind != kvDel) {
				continue
			}
			return f.inject(p.K, kind, key)
		}
	}
	return nil
}

func (f *FaultKV) inject(k string, kind int64, key []byte) error {
	f.Hits++
	f.r.Cov("fault:" + k + "-" + kvNames[kind])
	f.r.Tracef("FAULT storage error on %s #%d", kvNames[kind], f.counts[kind])
	in := &injection{n: len(f.inj) + 1, kind: kind, seq: f.r.tick(), key: string(key), g: runtime.SimGoid()}
	in.err = fmt.Errorf("simulated storage failure #%d", in.n)
	if k == "kv-big" {
		in.err = kv.ErrTxnTooBig
	}
	f.inj = append(f.inj, in)
	return in.err
}

func (f *FaultKV) Set(k, v []byte, meta *mondis.VMetaReq) error {
	if err := f.pre(kvSet, k); err != nil {
		return err
	}
	return f.KVDB.Set(k, v, meta)
}
func (f *FaultKV) Exists(k []byte) (bool, error) {
	if err := f.pre(kvExists, k); err != nil {
		return false, err
	}
	return f.KVDB.Exists(k)
}
func (f *FaultKV) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	if err := f.pre(kvGet, k); err != nil {
		return nil, mondis.VMetaResp{}, err
	}
	return f.KVDB.Get(k)
}
func (f *FaultKV) Delete(key []byte) error {
	if err := f.pre(kvDel, key); err != nil {
		return err
	}
	return f.KVDB.Delete(key)
}
func (f *FaultKV) Scan(o mondis.ProviderScanOption, fn func(key []byte, value []byte, meta mondis.VMetaResp) bool) error {
	return faultScan(f, f.pre, f.KVDB, o, fn)
}

func faultScan(f *FaultKV, pre func(int64, []byte) error, db mondis.ProviderKVOP, o mondis.ProviderScanOption, fn func(key []byte, value []byte, meta mondis.VMetaResp) bool) error {
	if err := pre(kvScan, nil); err != nil {
		// fail after a random number of entries
		n := f.rng.N(4)
		if n > 0 {
			db.Scan(o, func(k, v []byte, m mondis.VMetaResp) bool {
				n--
				return fn(k, v, m) && n > 0
			})
		}
		return err
	}
	return db.Scan(o, fn)
}

// gone blocks for ever: a dead process does nothing more.
func (f *FaultKV) gone() { <-make(chan struct{}) }

func (f *FaultKV) NewTransaction(update bool) mondis.ProviderTxn {
	if f.dead {
		f.gone()
	}
	f.OpenTx++
	return &faultTxn{ProviderTxn: f.KVDB.NewTransaction(update), f: f}
}

type faultTxn struct {
	mondis.ProviderTxn
	f    *FaultKV
	done bool
	hit  *injection // the last failure injected into this transaction
}

func (t *faultTxn) Set(k, v []byte, meta *mondis.VMetaReq) error {
	if err := t.pre(kvSet, k); err != nil {
		return err
	}
	return t.ProviderTxn.Set(k, v, meta)
}
func (t *faultTxn) Exists(k []byte) (bool, error) {
	if err := t.pre(kvExists, k); err != nil {
		return false, err
	}
	return t.ProviderTxn.Exists(k)
}
func (t *faultTxn) Get(k []byte) ([]byte, mondis.VMetaResp, error) {
	if err := t.pre(kvGet, k); err != nil {
		return nil, mondis.VMetaResp{}, err
	}
	return t.ProviderTxn.Get(k)
}
func (t *faultTxn) Delete(key []byte) error {
	if err := t.pre(kvDel, key); err != nil {
		return err
	}
	return t.ProviderTxn.Delete(key)
}
func (t *faultTxn) Scan(o mondis.ProviderScanOption, fn func(key []byte, value []byte, meta mondis.VMetaResp) bool) error {
	return faultScan(t.f, t.pre, t.ProviderTxn, o, fn)
}
func (t *faultTxn) finish() {
	if !t.done {
		t.done = true
		t.f.OpenTx--
	}
}
func (t *faultTxn) Commit() error {
	if err := t.pre(kvCommit, nil); err != nil {
		t.ProviderTxn.Discard()
		t.finish()
		return err
	}
	err := t.ProviderTxn.Commit()
	t.finish()
	if g := runtime.SimGoid(); t.f.late[g] > 0 {
		d := t.f.late[g]
		delete(t.f.late, g)
		time.Sleep(time.Duration(d))
	}
	return err
}
func (t *faultTxn) Discard() {
	if t.f.dead {
		t.f.gone()
	}
	t.ProviderTxn.Discard()
	t.finish()
}
