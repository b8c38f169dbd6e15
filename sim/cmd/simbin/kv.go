package main

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/client"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/provider"
	"github.com/zhiqiangxu/mondis/server"
	"github.com/zhiqiangxu/qrpc"
)

// Cluster is one mondis server with its clients, all inside this process.
type Cluster struct {
	r     *Run
	net   *Net
	kv    *FaultKV
	srv   server.KVServer
	cl    []mondis.Client
	srvN  int
	ended chan error
	dir   string
	gen   int
	down  bool
}

const simServerAddr = "10.0.0.1:6380"

// StartServer opens the store and starts serving.
func (r *Run) StartServer() *Cluster {
	cu := &Cluster{r: r, net: r.net, dir: r.Dir}
	if cu.net == nil {
		cu.net = NewNet(r)
	}
	cu.boot(r.provider())
	return cu
}

// provider is the storage provider the case asks for.
func (r *Run) provider() mondis.KVDB {
	if r.C.P["leveldb"] != 0 {
		return provider.NewLevelDB()
	}
	return provider.NewBadger()
}

// OpenLocal opens the store without a server in front of it.
func (r *Run) OpenLocal() *Cluster {
	cu := &Cluster{r: r, net: r.net}
	cu.kv = NewFaultKV(r, r.provider())
	if err := cu.kv.Open(mondis.KVOption{Dir: r.Dir}); err != nil {
		r.openFailed("open", err)
	}
	r.St.Opened++
	return cu
}

// openFailed reports that the store did not open.
func (r *Run) openFailed(kind string, err error) {
	switch {
	case r.St.Cov["fault:torn-write"] > 0 && strings.Contains(err.Error(), "Value log truncate required"):
		kind = "open-after-torn-value-log-write"
	case r.St.Opened == 0 && r.Stage > 0:
		kind = "open-after-crash-in-first-creation"
	}
	r.Fail(kind, "opening the store failed: %v", err)
}

func (cu *Cluster) boot(p mondis.KVDB) {
	cu.kv = NewFaultKV(cu.r, p)
	cu.srv = server.New(simServerAddr, cu.kv, server.Option{}, mondis.KVOption{Dir: cu.dir})
	cu.ended = make(chan error, 1)
	cu.srvN++
	srv, ended := cu.srv, cu.ended
	go func() { ended <- srv.Start() }()
	for i := 0; ; i++ {
		l := cu.net.lns[simServerAddr]
		if l != nil && !l.closed {
			break
		}
		select {
		case err := <-cu.ended:
			cu.r.openFailed("server-start", err)
		default:
		}
		if i > 4000 {
			cu.r.FailHang("hang:server-start", "the server did not start listening within 40 s of simulated time")
		}
		time.Sleep(10 * time.Millisecond)
	}
	cu.r.St.Opened++
}

// Client connects one more client.
func (cu *Cluster) Client() mondis.Client {
	c := client.New(simServerAddr, client.Option{QrpcConfig: qrpc.ConnectionConfig{OverlayNetwork: cu.net.OverlayNetwork}})
	cu.cl = append(cu.cl, c)
	cu.ready(c, 60*time.Second)
	return c
}

// ready waits until c has a working connection.
func (cu *Cluster) ready(c mondis.Client, d time.Duration) bool {
	end := nowNs() + int64(d)
	for {
		_, err := c.Exists([]byte("~probe"))
		if err == nil || errClass(err) == "srv" {
			return true
		}
		if nowNs() > end {
			return false
		}
		time.Sleep(50 * time.Millisecond)
	}
}

// errClass tells what the caller learns from an error: "ok", "nf" (key not
// found), "srv" (the server reports a failure), "big" (transaction too big),
// "ro", "abort" (the caller's own) or "net" (unknown outcome).
func errClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == kv.ErrKeyNotFound:
		return "nf"
	case err == kv.ErrTxnTooBig:
		return "big"
	case err == client.ErrMutateForROTxn:
		return "ro"
	case errors.Is(err, errAbort), errors.Is(err, errPanic):
		return "abort"
	case strings.HasPrefix(err.Error(), "pbError "):
		return "srv"
	}
	return "net"
}

var errAbort = errors.New("simulated application abort")
var errPanic = errors.New("simulated application panic")

// ---- histories of transactions over a fixed universe of keys ----

type kvObs struct {
	k, v   string
	absent bool
	scan   bool
}

type kvTx struct {
	name     string
	client   int
	inv      int64
	lastRead int64
	ret      int64
	st       string // ok, none (no effect), maybe
	obs      []kvObs
	own      map[string]*string // nil pointer: deleted
	update   bool
	err      error
	long     int // writes of the long key
}

type kvHist struct {
	r    *Run
	st   static
	keys []string
	txs  []*kvTx
}

func (h *kvHist) begin(c int, name string, update bool) *kvTx {
	t := &kvTx{name: name, client: c, inv: h.r.tick(), own: map[string]*string{}, update: update, st: "maybe"}
	h.txs = append(h.txs, t)
	return t
}

func (t *kvTx) end(h *kvHist, st string, err error) {
	t.ret = h.r.tick()
	t.st = st
	t.err = err
	if h.r.verb {
		rs := runtime.SimRandState()
		defer runtime.SimSetRandState(rs)
		h.r.Tracef("c%d %s -> %s %v [%d,%d] %s", t.client, t.name, st, err, t.inv, t.ret, t.describe())
	}
}

func (t *kvTx) describe() string {
	var b strings.Builder
	for _, o := range t.obs {
		if o.absent {
			fmt.Fprintf(&b, " %s=absent", o.k)
		} else {
			fmt.Fprintf(&b, " %s=%s", o.k, short(o.v))
		}
	}
	ks := make([]string, 0)
	for k := range t.own {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if v := t.own[k]; v == nil {
			fmt.Fprintf(&b, " delete(%s)", k)
		} else {
			fmt.Fprintf(&b, " %s:=%s", k, short(*v))
		}
	}
	return b.String()
}

// read records that key k was seen with value v (found) or absent.
func (h *kvHist) read(t *kvTx, k string, v string, found bool) {
	if w, ok := t.own[k]; ok {
		switch {
		case w == nil && found:
			h.r.Fail("own-write", "%s by client %d: key %.80q deleted earlier in the same transaction is read back as %q", t.name, t.client, k, short(v))
		case w != nil && !found:
			h.r.Fail("own-write", "%s by client %d: key %.80q written earlier in the same transaction as %q is not found", t.name, t.client, k, short(*w))
		case w != nil && *w != v:
			h.r.Fail("own-write", "%s by client %d: key %.80q written earlier in the same transaction as %q is read back as %q", t.name, t.client, k, short(*w), short(v))
		}
		return
	}
	t.obs = append(t.obs, kvObs{k: k, v: v, absent: !found})
	t.lastRead = h.r.tick()
}

func (t *kvTx) write(k, v string) { t.own[k] = &v }
func (t *kvTx) remove(k string)   { t.own[k] = nil }

// inScan tells whether key k is within the range of a scan.
func inScan(k []byte, o mondis.ScanOption) bool {
	if !bytes.HasPrefix(k, o.Prefix) {
		return false
	}
	if len(o.Offset) == 0 {
		return true
	}
	if o.Reverse {
		return bytes.Compare(k, o.Offset) <= 0
	}
	return bytes.Compare(k, o.Offset) >= 0
}

// scan checks the shape of a scan result and records what it observed.
func (h *kvHist) scan(t *kvTx, o mondis.ScanOption, es []mondis.Entry) {
	name := fmt.Sprintf("%s by client %d: scan(reverse=%v prefix=%q offset=%q limit=%d)", t.name, t.client, o.Reverse, o.Prefix, o.Offset, o.Limit)
	lim := o.Limit
	if lim > mondis.MaxEntry {
		lim = mondis.MaxEntry
	}
	if lim <= 0 {
		if len(es) > 0 {
			h.r.Fail("scan-limit", "%s returned %d entries", name, len(es))
		}
		return
	}
	if len(es) > lim {
		h.r.Fail("scan-limit", "%s returned %d entries", name, len(es))
	}
	known := map[string]bool{}
	for _, k := range h.keys {
		known[k] = true
	}
	got := map[string]string{}
	full := len(es) >= lim
	var last []byte
	if full {
		last = es[len(es)-1].Key
	}
	limKey := last
	last = nil
	for i, e := range es {
		if i > 0 {
			c := bytes.Compare(last, e.Key)
			if c == 0 {
				h.r.Fail("scan-duplicate", "%s returned key %.80q twice", name, e.Key)
			}
			if (c > 0) != o.Reverse {
				h.r.Fail("scan-order", "%s returned %q after %q", name, e.Key, last)
			}
		}
		last = e.Key
		if !inScan(e.Key, o) {
			h.r.Fail("scan-range", "%s returned key %.80q", name, e.Key)
		}
	}
	for _, e := range h.st.split(h.r, name, o, lim, es) {
		if !known[string(e.Key)] {
			h.r.Fail("scan-foreign", "%s returned key %.80q, which nobody ever wrote", name, e.Key)
		}
		got[string(e.Key)] = valStr(e.Value, e.Meta)
	}
	last = limKey
	if full && lim >= mondis.MaxEntry {
		h.r.Cov("scan-of-1000-entries")
	}
	if full {
		h.r.Cov("scan-cut-off")
	}
	n := 0
	for _, k := range h.keys {
		if !inScan([]byte(k), o) {
			continue
		}
		if full {
			c := bytes.Compare([]byte(k), last)
			if (c > 0 && !o.Reverse) || (c < 0 && o.Reverse) {
				continue // beyond the limit
			}
		}
		v, ok := got[k]
		if !ok {
			if w, own := t.own[k]; own && w != nil {
				h.r.Fail("own-write", "%s misses key %.80q written earlier in the same transaction", name, k)
			}
		}
		h.read(t, k, v, ok)
		if len(t.obs) > 0 && !ok {
			if ob := &t.obs[len(t.obs)-1]; ob.k == k {
				ob.scan = true
			}
		}
		n++
	}
	h.r.CovN("scan-keys-judged", int64(n))
}

func valStr(v []byte, m mondis.VMetaResp) string {
	return fmt.Sprintf("%s|%d|%d", v, m.Tag, m.ExpiresAt)
}

// check decides strict serializability of the history.
func (h *kvHist) check(init map[string]string) {
	kid := map[string]int{}
	for i, k := range h.keys {
		kid[k] = i
	}
	in := NewIntern()
	st0 := make([]int, len(h.keys))
	for k, v := range init {
		st0[kid[k]] = in.ID(v)
	}
	var ops []LOp
	for _, t := range h.txs {
		var all, point []LRW
		hasScan := false
		for _, o := range t.obs {
			v := 0
			if !o.absent {
				v = in.ID(o.v)
				if o.v == presentVal {
					v = anyVal
				}
			}
			all = append(all, LRW{kid[o.k], v})
			if o.scan {
				hasScan = true // the absence of a key within a scan
			} else {
				point = append(point, LRW{kid[o.k], v})
			}
		}
		var wr []LRW
		for k, v := range t.own {
			if v == nil {
				wr = append(wr, LRW{kid[k], 0})
			} else {
				wr = append(wr, LRW{kid[k], in.ID(*v)})
			}
		}
		sort.Slice(wr, func(a, b int) bool { return wr[a].K < wr[b].K })
		effect := t.st != "none" && len(wr) > 0
		if len(all) > 0 && (!effect || hasScan || t.st == "maybe") {
			ops = append(ops, LOp{Inv: t.inv, Ret: t.lastRead, Reads: all, Ref: t})
		}
		if effect {
			op := LOp{Inv: t.inv, Ret: t.ret, Reads: point, Writes: wr, Ref: t}
			if t.st == "maybe" {
				op.Opt, op.Ret = true, 0
			}
			ops = append(ops, op)
		}
	}
	h.r.CovN("history-ops", int64(len(ops)))
	// Keys that no transaction connects are independent of each other.
	for _, grp := range splitOps(ops, len(h.keys)) {
		ok, done, stuck := Linearizable(grp, len(h.keys), st0, 300000)
		if !done {
			h.r.Cov("checker-budget-exceeded")
			continue
		}
		if !ok {
			t := grp[stuck].Ref.(*kvTx)
			h.r.FailD("not-linearizable", h.dump(grp), "no order of the %d operations of this history that respects real time explains what they observed; the search never got past client %d %s%s", len(grp), t.client, t.name, t.describe())
		}
	}
	h.r.Cov("histories-checked")
}

// splitOps partitions the operations into groups over disjoint sets of keys.
func splitOps(ops []LOp, nkeys int) [][]LOp {
	p := make([]int, nkeys)
	for i := range p {
		p[i] = i
	}
	var find func(int) int
	find = func(x int) int {
		if p[x] != x {
			p[x] = find(p[x])
		}
		return p[x]
	}
	for _, o := range ops {
		f := -1
		for _, l := range [][]LRW{o.Reads, o.Writes} {
			for _, x := range l {
				if f < 0 {
					f = find(x.K)
				} else {
					p[find(x.K)] = f
				}
			}
		}
	}
	m := map[int][]LOp{}
	var ks []int
	for _, o := range ops {
		k := 0
		if len(o.Reads) > 0 {
			k = find(o.Reads[0].K)
		} else if len(o.Writes) > 0 {
			k = find(o.Writes[0].K)
		}
		if m[k] == nil {
			ks = append(ks, k)
		}
		m[k] = append(m[k], o)
	}
	sort.Ints(ks)
	var out [][]LOp
	for _, k := range ks {
		out = append(out, m[k])
	}
	return out
}

func (h *kvHist) dump(ops []LOp) string {
	var b strings.Builder
	done := map[*kvTx]bool{}
	for _, o := range ops {
		t := o.Ref.(*kvTx)
		if done[t] {
			continue
		}
		done[t] = true
		fmt.Fprintf(&b, "[%d,%d] client %d %s -> %s%s\n", t.inv, t.ret, t.client, t.name, t.st, t.describe())
		if b.Len() > 12000 {
			break
		}
	}
	return b.String()
}

// ---- the interpreter of simulated clients ----

type kvClient struct {
	r   *Run
	h   *kvHist
	cu  *Cluster
	id  int
	c   mondis.Client
	seq int
	pad int64
	// tolerate: storage and network failures are expected
	faulty bool
	// meta: values carry tags
	reconn time.Duration
	disk   *Disk // a failing disk: errors are expected once it failed
}

func (k *kvClient) val(op Op) []byte {
	k.seq++
	s := fmt.Sprintf("v%d.%d", k.id, k.seq)
	if op.D < 0 {
		return []byte{}
	}
	if op.D > 0 {
		s += ":" + strings.Repeat([]string{"x", "\x00", "\xff\x80"}[op.D%3], int(op.D))[:op.D]
	}
	return []byte(s)
}

func (k *kvClient) key(op Op) string { return k.h.keys[int(op.A)%len(k.h.keys)] }

func (k *kvClient) scanOpt(op Op) mondis.ScanOption {
	o := mondis.ScanOption{Limit: int(op.B)}
	o.Reverse = op.C&1 != 0
	parts := strings.SplitN(op.S, ",", 2)
	if parts[0] != "" {
		o.Prefix = []byte(parts[0])
	}
	if len(parts) > 1 && parts[1] != "" {
		o.Offset = []byte(parts[1])
	}
	if k.r.C.P["leveldb"] != 0 {
		o.Reverse = false // not offered by this provider
	}
	return o
}

// lost is called after an operation with an unknown outcome: it waits until
// the client has a connection again.
func (k *kvClient) lost(err error) {
	k.r.Cov("client-saw-connection-loss")
	if !k.cu.ready(k.c, 5*time.Minute) {
		k.r.FailHang("no-reconnect", "client %d had no working connection 5 minutes (simulated) after it lost one (%v)", k.id, err)
	}
}

func (k *kvClient) unexpected(what string, err error) {
	k.r.Fail("unexpected-error:"+what, "client %d: %s failed with %q although neither storage nor network failed", k.id, what, err)
}

// longKey is the length of a key that no transaction takes 160 times.
const longKey = 64_900

// genTooBig adds a transaction that really is too big for Badger.
func genTooBig(g *Rng, c *Case) {
	c.P["netseg"], c.P["netwin"], c.P["longkey"] = 0, 0, 1
	o := Op{K: "upd", C: g.N64(2)}
	n := 155 + g.N(9)
	dels := g.P(1, 3)
	carry := int64(2 * g.Pick(1, 5))
	for j := 0; j < n; j++ {
		s := Op{K: "set", A: c.P["keys"], C: carry}
		if dels && g.P(1, 2) || g.P(1, 20) {
			s.K = "del"
		}
		o.Sub = append(o.Sub, s)
		if j%40 == 39 {
			o.Sub = append(o.Sub, Op{K: "set", A: g.N64(4), C: carry}, Op{K: "get", A: c.P["keys"]})
		}
	}
	i := g.N(len(c.Clients))
	c.Clients[i] = append(c.Clients[i], o)
}

// claim tells whether the error is that of an injected storage failure that
// nobody reported yet.
func (k *kvClient) claim(inv int64, err error) bool {
	return k.faulty && (k.cu.kv.claim(inv, err) || k.cu.gen > 0)
}

func (k *kvClient) run(ops []Op) {
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 16<<10)
			buf = buf[:runtime.Stack(buf, false)]
			k.r.FailD("client-panic", string(buf), "client %d panicked: %v", k.id, e)
		}
	}()
	for _, op := range ops {
		k.step(op)
	}
}

func (k *kvClient) step(op Op) {
	r, h := k.r, k.h
	switch op.K {
	case "think":
		sleepNs(op.A)
		return
	case "upd", "view":
		k.txn(op)
		return
	case "bad":
		if err := k.bad(k.c, op, false); err != nil {
			if len(r.C.Faults) == 0 {
				k.unexpected("bad", err)
			}
			k.lost(err)
		}
		return
	}
	key := ""
	if op.K != "scan" {
		key = k.key(op)
	}
	t := h.begin(k.id, op.K, false)
	var err error
	switch op.K {
	case "batch":
		wb := k.cu.kv.WriteBatch()
		for _, s := range op.Sub {
			key := k.key(s)
			if s.K == "del" {
				t.remove(key)
				err = wb.Delete([]byte(key))
			} else {
				v := k.val(s)
				t.write(key, valStr(v, mondis.VMetaResp{}))
				err = wb.Set([]byte(key), v)
			}
			if err != nil {
				break
			}
		}
		if err == nil {
			err = localErr(wb.Commit())
		}
		wb.Discard()
	case "set":
		v := k.val(op)
		var m *mondis.VMetaReq
		ms := mondis.VMetaResp{}
		if op.B > 0 {
			m = &mondis.VMetaReq{Tag: byte(op.B)}
			ms.Tag = byte(op.B)
		}
		t.write(key, valStr(v, ms))
		kb := []byte(key)
		err = k.c.Set(kb, v, m)
		scribble(err, kb, v)
	case "del":
		t.remove(key)
		kb := []byte(key)
		err = k.c.Delete(kb)
		scribble(err, kb)
	case "get":
		var v []byte
		var m mondis.VMetaResp
		v, m, err = k.c.Get([]byte(key))
		if err == nil {
			h.read(t, key, valStr(v, m), true)
			scribble(nil, v)
		} else if errClass(err) == "nf" {
			h.read(t, key, "", false)
		}
	case "exists":
		var ok bool
		ok, err = k.c.Exists([]byte(key))
		if err == nil {
			k.exists(t, key, ok)
		}
	case "scan":
		o := k.scanOpt(op)
		var es []mondis.Entry
		es, err = k.c.Scan(o)
		if err == nil {
			h.scan(t, o, es)
		}
	}
	r.Cov("op:" + op.K)
	switch errClass(err) {
	case "ok", "nf":
		if err != nil && op.K != "get" {
			k.unexpected(op.K, err)
		}
		t.end(h, "ok", err)
	case "srv":
		if k.disk != nil && k.disk.nerr > 0 {
			r.Cov("op-failed-on-disk-error")
			t.end(h, "maybe", err)
			if len(t.own) == 0 {
				t.st = "none"
			}
			return
		}
		if !k.claim(t.inv, err) {
			k.unexpected(op.K, err)
		}
		r.Cov("op-refused-by-server")
		t.end(h, "none", err)
	case "net":
		t.end(h, "maybe", err)
		if len(t.own) == 0 {
			t.st = "none"
		}
		if len(r.C.Faults) == 0 {
			k.unexpected(op.K, err)
		}
		k.lost(err)
	default:
		k.unexpected(op.K, err)
	}
}

// bad makes a request that no store accepts, which must not have any effect.
// It returns the error of a lost connection.
func (k *kvClient) bad(x mondis.KVOP, op Op, ro bool) error {
	var err error
	found, write := false, false
	key := []byte{}
	if k.r.C.P["leveldb"] != 0 {
		// LevelDB has nothing against empty keys
		key = []byte(k.key(op))
		if op.A&3 < 2 {
			err = x.Set(key, []byte("bad"), &mondis.VMetaReq{Tag: byte(op.A)})
		} else {
			_, err = x.Scan(mondis.ScanOption{ProviderScanOption: mondis.ProviderScanOption{Reverse: true}, Limit: 3})
		}
		cl := errClass(err)
		k.r.Cov("op:bad-leveldb-" + cl)
		if cl == "ok" {
			k.r.Fail("bad-accepted", "client %d: operation %d, which LevelDB does not offer, succeeded", k.id, op.A&3)
		}
		if cl == "net" {
			return err
		}
		return nil
	}
	if op.A&3 < 2 {
		switch op.A >> 2 {
		case 1:
			key = bytes.Repeat([]byte("k"), 65001) // too long for Badger
		case 2:
			key = []byte("!badger!x") // reserved by Badger
		}
	}
	switch op.A & 3 {
	case 0:
		write = true
		err = x.Set(key, []byte("bad"), nil)
	case 1:
		write = true
		err = x.Delete(key)
	case 2:
		_, _, err = x.Get(key)
		found = err == nil
	case 3:
		found, err = x.Exists(key)
	}
	cl := errClass(err)
	k.r.Cov("op:bad-" + cl)
	switch {
	case found, cl == "ok", cl == "ro" != (ro && write):
		k.r.Fail("bad-accepted", "client %d: operation %d on the key %.20q returned %v, found %v", k.id, op.A&3, key, err, found)
	case cl == "net":
		return err
	}
	if err != nil {
		k.claim(0, err)
	}
	return nil
}

const presentVal = "*present*"

// exists records an observation that carries no value: only presence.
func (k *kvClient) exists(t *kvTx, key string, ok bool) {
	if !ok {
		k.h.read(t, key, "", false)
		return
	}
	if w, own := t.own[key]; own {
		if w == nil {
			k.h.r.Fail("own-write", "%s by client %d: key %.80q deleted earlier in the same transaction is reported to exist", t.name, t.client, key)
		}
		return
	}
	t.obs = append(t.obs, kvObs{k: key, v: presentVal})
	t.lastRead = k.r.tick()
}

func (k *kvClient) txn(op Op) {
	r, h := k.r, k.h
	update := op.K == "upd"
	t := h.begin(k.id, op.K, update)
	reached, sawErr, began, lost := false, "", false, false
	var lastOp int64
	fn := func(x mondis.Txn) error {
		for _, s := range op.Sub {
			if s.K == "think" {
				sleepNs(s.A)
				continue
			}
			if s.K == "bad" {
				if err := k.bad(x, s, !update); err != nil {
					if len(r.C.Faults) == 0 {
						k.unexpected("txn-bad", err)
					}
					return err
				}
				continue
			}
			key := ""
			if s.K != "scan" {
				key = k.key(s)
			}
			var err error
			opInv := r.tick()
			switch s.K {
			case "set":
				v := k.val(s)
				var m *mondis.VMetaReq
				ms := mondis.VMetaResp{}
				if s.B > 0 {
					m = &mondis.VMetaReq{Tag: byte(s.B)}
					ms.Tag = byte(s.B)
				}
				kb := []byte(key)
				err = x.Set(kb, v, m)
				if err == nil {
					if !update {
						r.Fail("ro-write", "client %d: Set inside a read-only transaction succeeded", k.id)
					}
					t.write(key, valStr(v, ms))
					scribble(nil, kb, v)
				}
			case "del":
				kb := []byte(key)
				err = x.Delete(kb)
				scribble(err, kb)
				if err == nil {
					if !update {
						r.Fail("ro-write", "client %d: Delete inside a read-only transaction succeeded", k.id)
					}
					t.remove(key)
				}
			case "get":
				v, m, e := x.Get([]byte(key))
				err = e
				if e == nil {
					h.read(t, key, valStr(v, m), true)
					scribble(nil, v)
				} else if errClass(e) == "nf" {
					h.read(t, key, "", false)
					err = nil
				}
			case "exists":
				ok, e := x.Exists([]byte(key))
				err = e
				if e == nil {
					k.exists(t, key, ok)
				}
			case "scan":
				o := k.scanOpt(s)
				es, e := x.Scan(o)
				err = e
				if e == nil {
					h.scan(t, o, es)
				}
			}
			r.Cov("txop:" + s.K)
			if len(key) == longKey && (s.K == "set" || s.K == "del") {
				t.long++
			}
			if err == nil && s.K == "scan" && s.B <= 0 {
				continue // needs no request
			}
			if err == nil {
				if lost {
					r.Fail("txn-resumed", "client %d: %s inside a transaction succeeded although an earlier operation had lost the connection", k.id, s.K)
				}
				began = true
				continue
			}
			cl := errClass(err)
			sawErr = cl
			switch cl {
			case "ro":
				if update {
					k.unexpected("txn-"+s.K, err)
				}
				sawErr = ""
				continue
			case "srv", "big":
				if k.disk != nil && k.disk.nerr > 0 || k.claim(opInv, err) {
				} else if cl == "big" && (s.K == "set" || s.K == "del") && t.long > 140 {
					r.Cov("txn-really-too-big")
				} else {
					k.unexpected("txn-"+s.K, err)
				}
				if s.C&2 != 0 {
					continue // carry on and commit the rest
				}
			case "net":
				if len(r.C.Faults) == 0 {
					k.unexpected("txn-"+s.K, err)
				}
				if s.C&4 != 0 {
					// an application that does not notice
					// (a transaction starts with its first successful operation)
					lost = began
					r.Cov("txn-goes-on-after-loss")
					continue
				}
			default:
				k.unexpected("txn-"+s.K, err)
			}
			return err
		}
		if op.C == 1 {
			return errAbort
		}
		if op.C == 2 {
			panic(errPanic)
		}
		reached = true
		lastOp = r.tick()
		return nil
	}
	// a function that panics, in an application that recovers, has not
	// committed and must leave nothing behind
	call := func() (err error) {
		defer func() {
			if e := recover(); e != nil {
				if e != any(errPanic) {
					panic(e)
				}
				r.Cov("txn-function-panics")
				err = errPanic
			}
		}()
		if update {
			return k.c.Update(fn)
		}
		return k.c.View(fn)
	}
	err := call()
	r.Cov("op:" + op.K)
	cl := errClass(err)
	if !update || !reached {
		if reached && err != nil {
			k.unexpected(op.K, err)
		}
		if !reached && err == nil {
			r.Fail("error-swallowed", "client %d: %s returned no error although its function returned one", k.id, op.K)
		}
		t.end(h, "none", err)
		if cl == "net" {
			r.Cov("txn-lost-before-commit")
			k.lost(err)
		} else {
			r.Cov("txn-not-committed")
		}
		return
	}
	if lost {
		if err == nil {
			r.Fail("txn-resumed", "client %d: a transaction that had lost its connection was committed", k.id)
		}
		if cl != "net" {
			k.unexpected("commit", err)
		}
		t.end(h, "none", err)
		k.lost(err)
		return
	}
	switch cl {
	case "ok":
		r.Cov("txn-committed")
		t.end(h, "ok", nil)
	case "srv":
		if strings.Contains(err.Error(), "Transaction Conflict") {
			r.Cov("txn-conflict")
		} else if k.disk != nil && k.disk.nerr > 0 {
			t.end(h, "maybe", err)
			return
		} else if !k.claim(lastOp, err) {
			k.unexpected("commit", err)
		} else {
			r.Cov("txn-commit-refused")
		}
		t.end(h, "none", err)
	case "net":
		if len(r.C.Faults) == 0 {
			k.unexpected("commit", err)
		}
		r.Cov("txn-commit-unknown")
		t.end(h, "maybe", err)
		k.lost(err)
	default:
		k.unexpected("commit", err)
	}
	_ = sawErr
}

// ---- generators ----

var kvKeyPool = []string{"a", "a\x00", "aa", "ab", "abc", "b", "ba", "b\xff", "b\xff\xff", "c", "\xff", "\xff\xff", "m", "ma", "mz", strings.Repeat("z", 300), strings.Repeat("z", 300) + "\x00", strings.Repeat("z", 299)}

func genKeys(g *Rng, n int) []string {
	p := append([]string(nil), kvKeyPool...)
	for i := range p {
		j := i + g.N(len(p)-i)
		p[i], p[j] = p[j], p[i]
	}
	if n > len(p) {
		n = len(p)
	}
	ks := p[:n]
	sort.Strings(ks)
	return ks
}

func genScan(g *Rng, c int64) Op {
	pre := []string{"", "", "a", "b", "ab", "b\xff", "\xff", "m", "zz", strings.Repeat("z", 300)}[g.N(10)]
	off := ""
	if g.P(1, 2) {
		off = append(kvKeyPool, "0", "a!", "bzz", "n", "\xff\xff\xff")[g.N(len(kvKeyPool)+5)]
	}
	o := Op{K: "scan", S: pre + "," + off, B: int64([]int{1, 2, 3, 5, 100, 1000, 1001, 5000, 1, 2, 4, 7, 3, 5, 0, -1}[g.N(16)]), C: c}
	if g.P(1, 3) {
		o.C |= 1
	}
	return o
}

// kvMix weighs the operations of generated clients.
type kvMix struct {
	set, get, exists, del, scan, upd, view, think int
	txmax                                         int
	big                                           bool
	tag                                           bool
	cont                                          bool
	batch                                         int // atomic batches, local backends only
	bad                                           bool
	idle                                          bool // transactions that do nothing for long
}

func genKVOps(g *Rng, m kvMix, n, nkeys int) []Op {
	val := func(o Op) Op {
		switch {
		case g.P(1, 20):
			o.D = -1 // an empty value
		case m.big && g.P(1, 36):
			o.D = int64([]int{255, 256, 4096, 65535, 65536, 70000, 300000}[g.N(7)])
			if g.P(1, 20) {
				o.D = 1<<20 + g.N64(3<<20)
			}
		case m.big && g.P(1, 6):
			o.D = g.N64(3000)
		}
		if m.tag && g.P(1, 4) {
			o.B = 1 + g.N64(255)
		}
		return o
	}
	var ops []Op
	for i := 0; i < n; i++ {
		a := g.N64(int64(nkeys))
		if m.bad && g.P(1, 16) {
			ops = append(ops, Op{K: "bad", A: g.N64(12)})
		}
		switch g.Pick(m.set, m.get, m.exists, m.del, m.scan, m.upd, m.view, m.think, m.batch) {
		case 0:
			ops = append(ops, val(Op{K: "set", A: a}))
		case 1:
			ops = append(ops, Op{K: "get", A: a})
		case 2:
			ops = append(ops, Op{K: "exists", A: a})
		case 3:
			ops = append(ops, Op{K: "del", A: a})
		case 4:
			ops = append(ops, genScan(g, 0))
		case 5, 6:
			o := Op{K: "upd"}
			deaf := g.P(1, 4) // goes on whatever happens
			view := g.P(m.view, m.view+m.upd)
			if view {
				o.K = "view"
			}
			k := 1 + g.N(m.txmax)
			if m.txmax > 1 && g.P(1, 10) {
				k += g.N(20)
			}
			for j := 0; j < k; j++ {
				b := g.N64(int64(nkeys))
				w := 4
				if view {
					w = 0
					if g.P(1, 12) {
						w = 2
					}
				}
				sc := 0
				if m.scan > 0 {
					sc = 2
				}
				var s Op
				switch g.Pick(w, 4, 1, w/2, sc, 1) {
				case 0:
					s = val(Op{K: "set", A: b})
				case 1:
					s = Op{K: "get", A: b}
				case 2:
					s = Op{K: "exists", A: b}
				case 3:
					s = Op{K: "del", A: b}
				case 4:
					s = genScan(g, 0)
				case 5:
					s = Op{K: "think", A: g.N64(300_000)}
					if m.idle && g.P(1, 6) {
						s.A = g.N64(60_000_000_000)
					}
				}
				if m.bad && g.P(1, 12) {
					s = Op{K: "bad", A: g.N64(12)}
				}
				if m.cont && g.P(1, 2) {
					s.C |= 2
				}
				if deaf {
					s.C |= 4
				}
				o.Sub = append(o.Sub, s)
			}
			if g.P(1, 6) {
				o.C = 1 + g.N64(5)/4
			}
			ops = append(ops, o)
		case 7:
			ops = append(ops, Op{K: "think", A: g.N64(500_000)})
		case 8:
			o := Op{K: "batch"}
			nb := 1 + g.N(5)
			if g.P(1, 4) {
				nb = 5 + g.N(30)
			}
			for j := 0; j < nb; j++ {
				b := g.N64(int64(nkeys))
				if g.P(1, 4) {
					o.Sub = append(o.Sub, Op{K: "del", A: b})
				} else {
					s := val(Op{K: "set", A: b})
					s.B = 0
					o.Sub = append(o.Sub, s)
				}
			}
			ops = append(ops, o)
		}
	}
	return ops
}

// runKV runs the clients of the case against one server and judges the
// history they produced.
func runKV(r *Run) {
	nk := int(r.C.P["keys"])
	g := NewRng(mix(r.C.Seed, 99))
	keys := genKeys(g, nk)
	if r.C.P["longkey"] != 0 {
		keys = append(keys, strings.Repeat("\xff", longKey))
	}
	h := &kvHist{r: r, keys: keys}
	h.st = static{prefix: []string{"a", "b", "k", "ab", "\xff"}[r.C.P["statpfx"]%5], n: int(r.C.P["static"])}
	NewNet(r)
	var cu *Cluster
	local := r.C.P["local"] != 0
	if local {
		cu = r.OpenLocal()
	} else {
		cu = r.StartServer()
	}
	h.st.load(r, cu.kv.KVDB)
	newClient := func() mondis.Client {
		if local {
			return localClient{cu.kv}
		}
		return cu.Client()
	}
	var lastFault int64
	for _, f := range r.C.Faults {
		lastFault = max64(lastFault, f.At+f.Dur)
	}
	shared := r.C.P["shared"] != 0
	grp := NewGroup()
	var cs []*kvClient
	var c0 mondis.Client
	honest, raw := splitRaw(r.C.Clients)
	for i := range honest {
		var c mondis.Client
		if shared && c0 != nil {
			c = c0
		} else {
			c = newClient()
			c0 = c
		}
		cs = append(cs, &kvClient{r: r, h: h, cu: cu, id: i, c: c, faulty: r.C.P["kvfaults"] != 0})
	}
	cu.net.schedule()
	restarts := cu.scheduleRestarts()
	cu.kv.Arm()
	for i := range cs {
		k, ops := cs[i], honest[i]
		grp.Go(func() { k.run(ops) })
	}
	for i, ops := range raw {
		k := &rawClient{r: r, h: h, cu: cu, id: 100 + i, mute: r.C.P[fmt.Sprintf("mute%d", i)] != 0}
		ops := ops
		grp.Go(func() { k.run(ops) })
	}
	bound := time.Duration(lastFault) + 10*time.Minute
	if !grp.Wait(bound) {
		r.FailHang("hang:client", "a client operation had not returned %v of simulated time after the start, long after the last fault", bound)
	}
	if !restarts.Wait(bound) {
		r.FailHang("hang:server-restart", "restarting the server did not finish within %v of simulated time", bound)
	}
	cu.kv.Disarm()
	// A last look at everything, by a fresh client.
	fc := &kvClient{r: r, h: h, cu: cu, id: len(cs), c: newClient()}
	for i := range keys {
		fc.step(Op{K: "get", A: int64(i)})
	}
	if r.C.P["strict"] != 0 {
		for _, in := range cu.kv.inj {
			if !in.reported {
				r.Fail("swallowed-error", "the storage failed a %s of key %.80q (%v) but no client was told", kvNames[in.kind], in.key, in.err)
			}
		}
		r.CovN("storage-failures-reported", int64(len(cu.kv.inj)))
	}
	// Every transaction must be finished once its client is done with it.
	for i := 0; cu.kv.OpenTx > 0; i++ {
		if i > 600 {
			r.FailHang("txn-leak", "%d server-side transactions are still open 60 s (simulated) after every client finished", cu.kv.OpenTx)
		}
		time.Sleep(100 * time.Millisecond)
	}
	h.check(nil)
}

func init() {
	register("P01", "clients", 1, &Scenario{
		Gen: func(g *Rng, tier string, c *Case) {
			genNet(g, c)
			nc := 2 + g.N(4)
			c.P["keys"] = int64(1 + g.N(5))
			c.P["shared"] = int64(g.Pick(3, 1))
			m := kvMix{set: 5, get: 6, exists: 2, del: 2, think: 1, scan: 1, txmax: 1, big: true, bad: true, tag: g.P(1, 2)}
			if g.P(1, 4) {
				c.P["leveldb"] = 1
				m.tag = false
			}
			if g.P(1, 2) {
				m.scan = 0
			}
			for i := 0; i < nc; i++ {
				c.Clients = append(c.Clients, genKVOps(g, m, 4+g.N(14), int(c.P["keys"])))
			}
			if g.P(3, 5) {
				genNetFaults(g, c, 1+g.N(4), 20_000_000)
			}
		},
		Run: runKV,
	})
	register("P02", "clients", 1, &Scenario{
		Gen: func(g *Rng, tier string, c *Case) {
			genNet(g, c)
			nc := 2 + g.N(4)
			c.P["keys"] = int64(2 + g.N(4))
			c.P["shared"] = int64(g.Pick(3, 1))
			m := kvMix{set: 1, get: 1, del: 1, upd: 8, view: 3, think: 1, scan: g.N(2), txmax: 6, big: g.P(1, 3), bad: g.P(1, 2), tag: g.P(1, 2), idle: g.P(1, 8)}
			for i := 0; i < nc; i++ {
				c.Clients = append(c.Clients, genKVOps(g, m, 3+g.N(8), int(c.P["keys"])))
			}
			if g.P(2, 5) {
				genNetFaults(g, c, 1+g.N(3), 20_000_000)
			}
			if g.P(1, 4) {
				c.P["kvfaults"] = 1
				genKVFaults(g, c, 1+g.N(4), 20)
			}
			if g.P(1, 200) {
				genTooBig(g, c)
			}
		},
		Run: runKV,
	})
}
