package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/zhiqiangxu/mondis/document/config"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/domain"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/document/txn"
	"github.com/zhiqiangxu/mondis/kv"
)

// ---- transactions against a changing schema ----

// verInfo is what one schema version changed.
type verInfo struct {
	touched []int64 // collections
	db      string
	def     *model.DBInfo
}

// schUpd is one publication of a schema cache.
type schUpd struct {
	inv, ret int64
	ver      int64 // version of the new cache
	base     int64 // diffs are known for versions above this one
}

type cacheHist struct {
	r    *Run
	cu   *Cluster
	h    *schema.Handle
	vers []verInfo // version v is vers[v-1]
	upds []*schUpd
	txs  []*schTx
	cur  *schema.MetaCache
	// somebody deletes documents of others
	delall bool
}

type schTx struct {
	c          int
	begin      [2]int64
	start      int64 // version, 0 if there was no cache
	refs       []int64
	commit     [2]int64
	err        error
	key        string
	update     bool
	cancels    int // registered
	cancelled  []int
	injected   *injection
	discarded  bool
	onlyCheck  bool
	checkOK    bool
	checkTried bool
}

func (t *schTx) String() string {
	return fmt.Sprintf("client %d began [%d..%d] at version %d, refers to %v, committed [%d..%d]: %v", t.c, t.begin[0], t.begin[1], t.start, t.refs, t.commit[0], t.commit[1], t.err)
}

func (h *cacheHist) dbAt(v int64) *model.DBInfo {
	x := h.vers[v-1]
	return x.def
}

// newVersion defines one more schema version.
func (h *cacheHist) newVersion(touched []int64) *model.SchemaDiff {
	v := int64(len(h.vers) + 1)
	name := fmt.Sprint("v", v)
	d := &model.DBInfo{ID: v, Name: name, Collections: map[string]*model.CollectionInfo{}}
	for i := int64(0); i < v%3; i++ {
		c := &model.CollectionInfo{ID: 1000*v + i, Name: fmt.Sprint("c", i), Indices: map[string]*model.IndexInfo{}}
		if i == 1 {
			c.Indices["x"] = &model.IndexInfo{ID: 1000*v + 500, Name: "x", Columns: []string{"col"}}
			c.IndexOrder = []string{"x"}
		}
		d.Collections[c.Name] = c
		d.CollectionOrder = append(d.CollectionOrder, c.Name)
	}
	h.vers = append(h.vers, verInfo{touched: touched, db: name, def: d.Clone()})
	raw, _ := json.Marshal(d)
	return &model.SchemaDiff{Version: v, Type: model.ActionCreateSchema, CollectionIDs: touched, RawArg: raw}
}

func (h *cacheHist) publish(c *schema.MetaCache, base, impatient int64) {
	for impatient > 0 {
		impatient--
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(impatient)*time.Microsecond)
		u := &schUpd{inv: h.r.tick(), ver: c.Version(), base: base}
		h.upds = append(h.upds, u)
		err := h.h.Update(ctx, c)
		cancel()
		u.ret = h.r.tick()
		if err == nil {
			h.cur = c
			h.r.Cov("published")
			return
		}
		h.r.Cov("updates-given-up")
		h.upds = h.upds[:len(h.upds)-1]
		if err != context.DeadlineExceeded {
			h.r.Fail("unexpected-error:update", "Handle.Update failed: %v", err)
		}
		if h.h.Get() == c {
			h.r.Fail("unexpected-error:update", "Handle.Update reported %v although it published the cache", err)
		}
	}
	u := &schUpd{inv: h.r.tick(), ver: c.Version(), base: base}
	h.upds = append(h.upds, u)
	err := h.h.Update(context.Background(), c)
	u.ret = h.r.tick()
	if err != nil {
		h.r.Fail("unexpected-error:update", "Handle.Update failed: %v", err)
	}
	h.cur = c
	h.r.Cov("published")
}

// writer changes the schema.
func (h *cacheHist) writer(ops []Op) {
	base := int64(0)
	for _, o := range ops {
		switch o.K {
		case "think":
			time.Sleep(time.Duration(o.D))
		case "change":
			// some versions at once
			var diffs []*model.SchemaDiff
			for i, s := range o.Sub {
				n := int64(1)
				if i == 0 {
					n += o.A // many that touch nothing
				}
				for ; n > 0; n-- {
					var l []int64
					if n == 1 {
						l = opIDs(s)
					}
					diffs = append(diffs, h.newVersion(l))
				}
			}
			c := h.h.Get().Clone()
			if err := c.ApplyDiffs(diffs); err != nil {
				h.r.Fail("unexpected-error:apply", "applying the diffs of versions %d..%d to version %d failed: %v", diffs[0].Version, len(h.vers), h.h.Get().Version(), err)
			}
			time.Sleep(time.Duration(o.D)) // checks go on meanwhile
			h.publish(c, base, o.C)
			h.r.CovN("versions", int64(len(diffs)))
		case "abandon":
			// a change that is prepared and never published
			c := h.h.Get().Clone()
			var diffs []*model.SchemaDiff
			for i, s := range o.Sub {
				v := c.Version() + 1 + int64(i)
				raw, _ := json.Marshal(&model.DBInfo{ID: v, Name: fmt.Sprint("gone", v)})
				diffs = append(diffs, &model.SchemaDiff{Version: v, Type: model.ActionCreateSchema, CollectionIDs: opIDs(s), RawArg: raw})
			}
			if err := c.ApplyDiffs(diffs); err != nil {
				h.r.Fail("unexpected-error:apply", "applying %d diffs to a clone of version %d failed: %v", len(diffs), h.h.Get().Version(), err)
			}
			h.r.Cov("abandoned-changes")
		case "wrong":
			// diffs that do not follow are refused
			c := h.h.Get()
			if c == nil {
				continue
			}
			var diffs []*model.SchemaDiff
			for _, v := range wrongDiffs[o.A%int64(len(wrongDiffs))] {
				diffs = append(diffs, &model.SchemaDiff{Version: c.Version() + v, Type: model.ActionCreateSchema, RawArg: []byte(fmt.Sprintf(`{"Name":"wrong%d"}`, len(diffs)))})
			}
			d := diffs[len(diffs)-1]
			switch o.B {
			case 1:
				d.Type = 99
			case 2:
				d.RawArg = []byte(`{"Name":`)
			case 3:
				d.RawArg = []byte(`{"Name":"v1"}`)
			}
			if err := c.Clone().ApplyDiffs(diffs); err == nil {
				h.r.Fail("gap-accepted", "diffs that do not follow were applied to version %d: %s", c.Version(), toJSON(diffs))
			}
			h.r.Cov("refused-diffs")
		case "full":
			for _, s := range o.Sub {
				h.newVersion(opIDs(s))
			}
			var l []*model.DBInfo
			for _, v := range h.vers {
				l = append(l, v.def.Clone())
			}
			base = int64(len(h.vers))
			h.publish(schema.NewMetaCache(base, l), base, o.C)
			h.r.Cov("full-loads")
		}
	}
}

// wrongDiffs are the versions of diffs, relative to the cache; the first ones follow,
// but have a diff that cannot be applied.
var wrongDiffs = [][]int64{{1}, {1, 2}, {2}, {0}, {1, 3}, {1, 1}, {1, 2, 2}, {2, 1}, {1, 2, 4, 5}, {-1, 0, 1}}

// collIDs are the ids of the collections. The last ones really exist, in the
// databases of versions 1, 2 and 4.
var collIDs = [12]int64{1, 257, 65537, 1<<32 + 1, 2, 3, 1 << 40, math.MaxInt64, 1000, 2000, 2001, 4000}

const collReal = 8 // the first that exists

// dmlOp refers to an existing collection by an operation on its documents. It
// tells whether the transaction can go on.
func (h *cacheHist) dmlOp(x *txn.Txn, t *schTx, cid, did int64, o Op) bool {
	r := h.r
	db, n := fmt.Sprint("v", cid/1000), fmt.Sprint("c", cid%1000)
	sees := x.StartMetaCache() != nil && x.StartMetaCache().CheckCollectionExists(db, n)
	if h.h.Get() == nil || x.StartMetaCache() == nil {
		return true // nothing works before the first load
	}
	d, err := dml.NewDB(db, h.cu.kv, h.h)
	var c *dml.Collection
	if err == nil {
		c, err = d.Collection(n)
	}
	if err != nil {
		if sees || !errors.Is(err, dml.ErrDBNotExists) && !errors.Is(err, dml.ErrCollectionNotExists) {
			r.Fail("unexpected-error:collection", "opening collection %s.%s failed: %v", db, n, err)
		}
		return true
	}
	inv := r.tick()
	var ds []doc
	k := o.C
	if !t.update {
		k = k % 6
	}
	switch k {
	case 0:
		var g doc
		err = c.GetOne(did, &g, x)
	case 1:
		err = c.GetMany(nil, &ds, x)
	case 2:
		err = c.GetAll(&ds, x)
	case 3:
		_, _, err = c.GetDidRange(x)
	case 4:
		_, err = c.Count(x)
	case 5:
		_, err = c.GetIndices(x)
	case 6:
		_, err = c.InsertOne(makeDoc(t.key), x)
	case 7:
		err = c.InsertOneManaged(did, makeDoc(t.key), x)
	case 8:
		_, err = c.UpdateOne(did, makeDoc(t.key), x)
	case 9:
		_, err = c.UpsertOne(did, makeDoc(t.key), x)
	case 10:
		err = c.DeleteOne(did, x)
	case 11:
		_, err = c.DeleteAll(x)
		h.delall = true
	}
	r.Tracef("document operation %d on %d: %v", k, cid, err)
	switch {
	case h.cu.kv.mine(inv) != nil:
		return false
	case !sees:
		if !errors.Is(err, dml.ErrCollectionNotExists) {
			r.Fail("missing-collection", "a document operation on a collection that did not exist yet when its transaction began reported %v", err)
		}
		return true
	case err == nil, errors.Is(err, dml.ErrDocNotFound), errors.Is(err, dml.ErrDocExists):
		t.refs = append(t.refs, cid)
		r.Cov("document-operations")
		return true
	}
	r.Fail("unexpected-error:document", "a document operation failed: %v", err)
	return false
}

func opIDs(o Op) (l []int64) {
	for i, id := range collIDs {
		if o.A&(1<<i) != 0 {
			l = append(l, id)
		}
	}
	return
}

// checkContent compares a cache with the version it claims to be.
func (h *cacheHist) checkContent(when string, c *schema.MetaCache) {
	if c == nil {
		return
	}
	v := c.Version()
	if v < 1 || v > int64(len(h.vers)) {
		h.r.Fail("cache-of-no-version", "%s the cache claims to be of version %d of %d", when, v, len(h.vers))
	}
	step := int64(1)
	if len(h.vers) > 40 {
		step = int64(len(h.vers)) / 20
	}
	look := func(w int64) {
		if w < 1 || w > int64(len(h.vers)) {
			return
		}
		d := h.dbAt(w)
		if got := c.CheckDBExists(d.Name); got != (w <= v) {
			h.r.Fail("wrong-content", "%s the cache of version %d says that the database of version %d exists: %v", when, v, w, got)
		}
		if c.CheckCollectionExists(d.Name, "nope") || c.CollectionInfo(d.Name, "nope") != nil || c.CheckIndexExists(d.Name, "c1", "nope") || c.CheckIndexExists(d.Name, "nope", "x") {
			h.r.Fail("wrong-content", "%s the cache has a collection or index that nobody made", when)
		}
		for n, ci := range d.Collections {
			got := c.CollectionInfo(d.Name, n)
			if c.CheckCollectionExists(d.Name, n) != (w <= v) || (got != nil) != (w <= v) || got != nil && toJSON(got.Clone()) != toJSON(ci.Clone()) {
				h.r.Fail("wrong-content", "%s the cache of version %d shows collection %s.%s as %s", when, v, d.Name, n, toJSON(got))
			}
			if c.CheckIndexExists(d.Name, n, "x") != (w <= v && ci.Indices["x"] != nil) {
				h.r.Fail("wrong-content", "%s the cache of version %d is wrong about index %s.%s.x", when, v, d.Name, n)
			}
		}
	}
	for w := int64(1); w <= int64(len(h.vers)); w += step {
		look(w)
	}
	look(v)
	look(v + 1)
	if c.CheckDBExists(fmt.Sprint("gone", v)) || c.CheckDBExists(fmt.Sprint("gone", v+1)) {
		h.r.Fail("wrong-content", "%s the cache of version %d shows a change that was never published", when, v)
	}
}

// client runs transactions.
func (h *cacheHist) client(id int, ops []Op) {
	r := h.r
	for n, o := range ops {
		switch o.K {
		case "think":
			time.Sleep(time.Duration(o.D))
		case "txn":
			t := &schTx{c: id, key: fmt.Sprintf("k%d.%d", id, n), update: o.B != 0}
			t.begin[0] = r.tick()
			x := txn.NewTxn(h.h, t.update, h.cu.kv)
			t.begin[1] = r.tick()
			c := x.StartMetaCache()
			if c != nil {
				t.start = c.Version()
			}
			h.checkContent("at its start", c)
			h.txs = append(h.txs, t)
			for i, s := range o.Sub {
				l := opIDs(s)
				if s.C >= 0 {
					// some by what is done with them
					var rest []int64
					for _, cid := range l {
						if cid < 1000 || cid > 9999 {
							rest = append(rest, cid)
						} else if !t.discarded && !h.dmlOp(x, t, cid, int64(id)*1000+int64(n), s) {
							t.discarded = true
						}
					}
					l = rest
				}
				t.refs = append(t.refs, l...)
				x.ReferredCollections(l...)
				if t.discarded {
					break
				}
				if t.update && s.B%2 == 1 {
					k := t.cancels
					t.cancels++
					t.cancelled = append(t.cancelled, 0)
					x.AddCancelFunc(func() { t.cancelled[k]++ })
				}
				if i == 0 && t.update {
					if err := x.Set([]byte(t.key), []byte("x"), nil); err != nil {
						t.discarded = true
						if h.cu.kv.mine(t.begin[0]) == nil {
							r.Fail("unexpected-error:set", "Set failed: %v", err)
						}
						break
					}
				}
				time.Sleep(time.Duration(s.D))
			}
			h.checkContent("at its end", c)
			if !t.discarded {
				t.commit[0] = r.tick()
				t.err = x.Commit()
				t.commit[1] = r.tick()
				t.injected = h.cu.kv.mine(t.commit[0])
				r.Tracef("%v", t)
			}
			x.Discard()
			r.Cov("op:txn")
		case "check":
			t := &schTx{c: id, onlyCheck: true, refs: opIDs(o), update: true}
			t.begin[0] = r.tick()
			c := h.h.Get()
			t.begin[1] = r.tick()
			if c != nil {
				t.start = c.Version()
			}
			time.Sleep(time.Duration(o.D))
			refs := map[int64]struct{}{}
			for _, i := range t.refs {
				refs[i] = struct{}{}
			}
			ctx := context.Background()
			if o.C > 0 {
				var cancel func()
				ctx, cancel = context.WithTimeout(ctx, time.Duration(o.C-1)*time.Microsecond)
				defer cancel()
			}
			t.commit[0] = r.tick()
			ok, err := h.h.Check(ctx, c, refs)
			t.commit[1] = r.tick()
			if o.C > 0 && err == context.DeadlineExceeded {
				r.Cov("checks-given-up")
				continue
			}
			h.txs = append(h.txs, t)
			if err != nil {
				r.Fail("unexpected-error:check", "Handle.Check failed: %v", err)
			}
			if !ok {
				t.err = txn.ErrDDLConflict
			}
			r.Tracef("check %v", t)
			r.Cov("op:check")
		}
	}
}

// judge decides every commit.
func (h *cacheHist) judge() {
	r := h.r
	d := ""
	for _, u := range h.upds {
		d += fmt.Sprintf("version %d published [%d..%d], diffs above %d\n", u.ver, u.inv, u.ret, u.base)
	}
	for _, t := range h.txs {
		d += t.String() + "\n"
	}
	// at returns the versions that were current at some instant of [a, b]
	at := func(a, b int64) (l []*schUpd) {
		lo := &schUpd{}
		for _, u := range h.upds {
			if u.ret <= a {
				lo = u
			} else if u.inv < b {
				l = append(l, u)
			}
		}
		return append(l, lo)
	}
	touches := func(from, to int64, refs []int64) bool {
		for v := from + 1; v <= to; v++ {
			for _, c := range h.vers[v-1].touched {
				for _, x := range refs {
					if c == x {
						return true
					}
				}
			}
		}
		return false
	}
	view := h.cu.kv.NewTransaction(false)
	defer view.Discard()
	for _, t := range h.txs {
		good := false
		for _, u := range at(t.begin[0], t.begin[1]) {
			good = good || u.ver == t.start
		}
		if !good {
			r.FailD("stale-start", d, "a transaction started with the schema of version %d, which was not the current one: %v", t.start, t)
		}
		if !t.onlyCheck && t.update {
			_, _, err := view.Get([]byte(t.key))
			if err != nil && err != kv.ErrKeyNotFound {
				r.Fail("unexpected-error:get", "Get failed: %v", err)
			}
			if done := !t.discarded && t.err == nil; done != (err == nil) {
				r.FailD("wrong-effect", d, "the write of a transaction is there: %v; %v", err == nil, t)
			}
			for i, n := range t.cancelled {
				want := 0
				if t.err != nil {
					want = 1
				}
				if n != want && !t.discarded {
					r.FailD("cancel-function", d, "cancel function %d was called %d times: %v", i, n, t)
				}
			}
		}
		if t.discarded {
			continue
		}
		if !t.update {
			if t.err != nil {
				r.FailD("unexpected-error:commit", d, "the commit of a read-only transaction failed: %v", t.err)
			}
			continue
		}
		if t.err != nil && t.err != txn.ErrDDLConflict {
			if h.delall && strings.Contains(t.err.Error(), "Transaction Conflict") {
				r.Cov("txn-conflicts")
			} else if in := t.injected; in == nil || !strings.Contains(t.err.Error(), in.err.Error()) {
				r.FailD("unexpected-error:commit", d, "the commit failed without a reason: %v", t.err)
			}
		}
		may, must := false, true // conflict
		for _, u := range at(t.commit[0], t.commit[1]) {
			if u.ver < t.start {
				continue
			}
			// a transaction may be refused without a reason when the diffs
			// since its start are not known any more
			forgotten := u.ver != t.start && (t.start == 0 || t.start < u.base || u.ver-t.start > 100)
			conflict := touches(t.start, u.ver, t.refs)
			may = may || conflict || forgotten
			must = must && conflict
		}
		if t.err == txn.ErrDDLConflict {
			r.Cov("ddl-conflicts")
			if !may {
				r.FailD("conflict-without-change", d, "a transaction was refused although no schema change since its start touches its collections: %v", t)
			}
		} else if must {
			r.FailD("missed-ddl-conflict", d, "a transaction committed although the schema of its collections has changed since its start: %v", t)
		}
	}
}

func genCache(g *Rng, tier string, c *Case) {
	real := g.P(1, 2)
	ids := func() int64 {
		n := int64(0)
		for k := g.N(3); k > 0; k-- {
			if n |= 1 << g.N(8); real {
				n |= 1 << (collReal + g.N(4))
			}
		}
		return n
	}
	subs := func(n int) (l []Op) {
		for i := 0; i < n; i++ {
			o := Op{K: "ids", A: ids(), B: g.N64(2), D: g.N64(3_000_000), C: -1}
			if real {
				o.C = g.N64(12)
			}
			l = append(l, o)
		}
		return
	}
	n := 3 + g.N(8)
	if tier == "thorough" && g.P(1, 3) {
		n += g.N(20)
	}
	var w []Op
	// a domain always loads everything at first
	if g.P(1, 2) {
		w = append(w, Op{K: "think", D: g.N64(3_000_000)})
	}
	w = append(w, Op{K: "full", Sub: subs(1 + g.N(3))})
	for i := 0; i < n; i++ {
		switch g.Pick(6, 1, 1, 6, 2) {
		case 0:
			o := Op{K: "change", Sub: subs(1 + g.N(3))}
			if g.P(1, 5) {
				o.A = 90 + g.N64(20)
			}
			if g.P(1, 3) {
				o.D = g.N64(2_000_000)
			}
			if g.P(1, 4) {
				o.C = 1 + g.N64(4)
			}
			w = append(w, o)
		case 1:
			w = append(w, Op{K: "full", Sub: subs(1 + g.N(2))})
		case 2:
			o := Op{K: "wrong", A: g.N64(int64(len(wrongDiffs)))}
			if o.A < 2 {
				o.B = 1 + g.N64(3)
			}
			w = append(w, o)
		case 3:
			w = append(w, Op{K: "think", D: g.N64(2_000_000)})
		case 4:
			w = append(w, Op{K: "abandon", Sub: subs(1 + g.N(3))})
		}
	}
	c.Clients = append(c.Clients, w)
	for i := 1 + g.N(3); i > 0; i-- {
		var ops []Op
		for j := 0; j < n; j++ {
			switch g.Pick(6, 3, 1) {
			case 0:
				o := Op{K: "txn", B: 1, Sub: subs(1 + g.N(3))}
				if g.P(1, 8) {
					o.B = 0
				}
				ops = append(ops, o)
			case 1:
				o := Op{K: "check", A: ids(), D: g.N64(4_000_000)}
				if g.P(1, 4) {
					o.C = 1 + g.N64(4)
				}
				ops = append(ops, o)
			case 2:
				ops = append(ops, Op{K: "think", D: g.N64(4_000_000)})
			}
		}
		c.Clients = append(c.Clients, ops)
	}
	if g.P(1, 3) {
		genKVFaults(g, c, 1+g.N(3), int64(n*3))
	}
}

func runCache(r *Run) {
	h := &cacheHist{r: r, cu: r.OpenLocal(), h: schema.NewHandle()}
	for _, c := range collIDs[collReal:] {
		if err := dml.CreateSequence(h.cu.kv, c/1000, c, 0); err != nil {
			r.Fail("unexpected-error:sequence", "creating the sequence of collection %d failed: %v", c, err)
		}
	}
	h.cu.kv.Arm()
	grp := NewGroup()
	for i := range r.C.Clients {
		i := i
		grp.Go(func() {
			if i == 0 {
				h.writer(r.C.Clients[0])
			} else {
				h.client(i, r.C.Clients[i])
			}
		})
	}
	if !grp.Wait(10 * time.Minute) {
		r.FailHang("hang:schema", "a schema check or update did not return within 10 minutes of simulated time")
	}
	h.cu.kv.Disarm()
	h.judge()
	h.checkContent("at last", h.h.Get())
	if h.cu.kv.OpenTx != 0 {
		r.Fail("txn-leak", "%d transactions were left open", h.cu.kv.OpenTx)
	}
}

// ---- a domain that follows the schema changes of other servers ----

type folObs struct {
	inv, ret int64
	now      time.Time
	ver      int64
}

type folHist struct {
	cacheHist
	do     *domain.Domain
	commit []time.Time // when version v became visible: commit[v-1]
	seq    [][2]int64
	obs    []folObs
	gid    int64
	mu     sync.Mutex
	stall  time.Duration // for how long changes kept the domain waiting
}

// change makes n schema changes in one transaction, as another server would.
func (h *folHist) change(n int64, lost bool) {
	r := h.r
	must := func(what string, err error) {
		if err != nil {
			r.Fail("unexpected-error:other-server", "%s failed: %v", what, err)
		}
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	t := h.cu.kv.KVDB.NewTransaction(true)
	defer t.Discard()
	m := meta.NewMeta(t)
	inv := r.tick()
	for ; n > 0; n-- {
		d := h.newVersion(nil)
		db := h.dbAt(d.Version)
		for _, c := range db.Collections {
			d.CollectionIDs = append(d.CollectionIDs, c.ID)
		}
		sort.Slice(d.CollectionIDs, func(i, j int) bool { return d.CollectionIDs[i] < d.CollectionIDs[j] })
		must("CreateDatabase", m.CreateDatabase(db))
		for _, c := range db.Collections {
			must("CreateCollection", m.CreateCollection(db.ID, c))
		}
		v, err := m.GenSchemaVersion()
		must("GenSchemaVersion", err)
		if v != d.Version {
			r.Fail("unexpected-error:other-server", "GenSchemaVersion said %d after %d changes", v, len(h.vers)-1)
		}
		if !lost {
			must("SetSchemaDiff", m.SetSchemaDiff(d))
		}
	}
	must("Commit", t.Commit())
	for len(h.commit) < len(h.vers) {
		h.commit = append(h.commit, time.Now())
		h.seq = append(h.seq, [2]int64{inv, r.tick()})
	}
	r.Cov("foreign-changes")
}

func (h *folHist) look() *schema.MetaCache {
	for v := len(h.vers); v > 0; v-- {
		inv := h.r.tick()
		now := time.Now()
		db, err := h.do.DB(h.vers[v-1].db)
		if err != nil {
			continue
		}
		t := db.Txn(false)
		c := t.StartMetaCache()
		t.Discard()
		h.checkContent("after a reload", c)
		h.obs = append(h.obs, folObs{inv: inv, ret: h.r.tick(), now: now, ver: c.Version()})
		h.r.Cov("op:look")
		return c
	}
	return nil
}

func genFollow(g *Rng, tier string, c *Case) {
	lease := 50_000_000 + g.N64(1_000_000_000)
	c.P["lease"] = lease
	c.P["first"] = 1 + g.N64(3)
	n := 4 + g.N(10)
	var w []Op
	for i := 0; i < n; i++ {
		w = append(w, Op{K: "think", D: g.N64(lease)})
		o := Op{K: "change", A: 1 + g.N64(3)}
		switch g.Pick(6, 1, 1) {
		case 1:
			o.B = 1 // the diff is lost
		case 2:
			o.A = []int64{99, 100, 101, 102, 150}[g.N(5)]
		}
		w = append(w, o)
	}
	c.Clients = append(c.Clients, w)
	if g.P(1, 2) {
		// changes that become visible while the domain is reading the catalog
		for i := 1 + g.N(4); i > 0; i-- {
			f := Fault{K: "foreign", At: 1 + g.N64(20), T: int64(g.N(2)), Arg: 1 + g.N64(3)}
			if g.P(1, 3) {
				f.At = 1 + g.N64(int64(n)*8)
			}
			if g.P(1, 8) {
				f.Arg = 99 + g.N64(4)
			}
			c.Faults = append(c.Faults, f)
		}
	}
	for i := 1 + g.N(2); i > 0; i-- {
		var ops []Op
		for j := 0; j < 2*n; j++ {
			ops = append(ops, Op{K: "think", D: g.N64(lease)}, Op{K: "look"})
		}
		c.Clients = append(c.Clients, ops)
	}
	if g.P(1, 2) {
		genKVFaults(g, c, 1+g.N(6), int64(n*12))
		if g.P(1, 3) {
			c.Faults = append(c.Faults, Fault{K: "kv-err", At: 1 + g.N64(int64(n*6)), Arg: kvGet, Dur: 3 + g.N64(20)})
		}
	}
}

func runFollow(r *Run) {
	h := &folHist{}
	h.r, h.cu = r, r.OpenLocal()
	lease := time.Duration(r.C.P["lease"])
	config.Load().Lease = lease
	h.change(r.C.P["first"], false)
	n := int64(0)
	h.cu.kv.onOp = func(int64) {
		n++
		for _, f := range r.C.Faults {
			if f.K == "foreign" && f.At == n {
				r.Cov("fault:foreign-change-in-reload")
				t := time.Now()
				h.change(f.Arg, f.T == 1)
				h.stall += time.Since(t)
			}
		}
	}
	h.do = domain.NewDomain(h.cu.kv)
	if err := h.do.Init(); err != nil {
		r.Fail("unexpected-error:init", "Init failed: %v", err)
	}
	h.cu.kv.Arm()
	grp := NewGroup()
	for i := range r.C.Clients {
		i := i
		grp.Go(func() {
			for _, o := range r.C.Clients[i] {
				switch o.K {
				case "think":
					time.Sleep(time.Duration(o.D))
				case "change":
					h.change(o.A, o.B == 1)
				case "look":
					h.look()
				}
			}
		})
	}
	if !grp.Wait(10 * time.Minute) {
		r.FailHang("hang:follow", "the workload did not finish within 10 minutes of simulated time")
	}
	quiet := h.cu.kv.Hits == 0 && r.St.Cov["fault:kv-slow"] == 0
	h.cu.kv.Disarm()
	h.cu.kv.onOp = nil
	time.Sleep(lease + h.stall + 300*time.Millisecond + time.Duration(len(h.vers))*time.Millisecond)
	if c := h.look(); c == nil || c.Version() != int64(len(h.vers)) {
		v := int64(0)
		if c != nil {
			v = c.Version()
		}
		r.Fail("stale-cache", "a lease after the last change the schema cache is at version %d, the store at %d", v, len(h.vers))
	}
	for i, x := range h.obs {
		if h.seq[x.ver-1][0] > x.ret {
			r.Fail("cache-of-no-version", "the cache showed version %d before it existed", x.ver)
		}
		for _, y := range h.obs[:i] {
			if y.ret < x.inv && y.ver > x.ver {
				r.Fail("cache-goes-back", "the cache went from version %d back to version %d", y.ver, x.ver)
			}
		}
		if !quiet || x.ver == int64(len(h.vers)) {
			continue
		}
		// the next version has to be younger than the lease
		if age := x.now.Sub(h.commit[x.ver]); age > lease+h.stall+300*time.Millisecond+time.Duration(len(h.vers))*time.Millisecond {
			r.Fail("stale-cache", "the cache showed version %d, but version %d had been there for %v, and the lease is %v", x.ver, x.ver+1, age, lease)
		}
	}
}

func init() {
	register("P15", "handle", 3, &Scenario{Gen: genCache, Run: runCache})
	register("P15", "follow", 1, &Scenario{Gen: genFollow, Run: runFollow})
}
