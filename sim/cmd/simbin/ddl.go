package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/config"
	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/domain"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
)

// ---- creation of databases by concurrent callers ----

type ddlCall struct {
	C   int    `json:"c"`
	Inv int64  `json:"i"`
	Ret int64  `json:"r"`
	Op  Op     `json:"o"`
	St  string `json:"s"` // run, ok, none, maybe
	Err string `json:"e,omitempty"`
	Job int64  `json:"j,omitempty"`
}

// ddlObs is what one look at the schema cache saw.
type ddlObs struct {
	Inv, Ret int64
	Ver      int64
	DBs      map[string]string
}

type ddlHist struct {
	Calls []*ddlCall `json:"c"`
	Obs   []ddlObs   `json:"o"`
	Docs  int64      `json:"d"`
	r     *Run
	cu    *Cluster
	do    *domain.Domain
	dids  map[string]bool
	slow  bool // the storage may be slow
}

var (
	ddlDBs   = []string{"d0", "d1", "d0\x00", "d 3", "D1", "d4", "<é&\u2028\">", "d6", strings.Repeat("d", 300)}
	ddlColls = []string{"a", "b", "a_in", "é", "c", "a\x00", "\ufffd", strings.Repeat("a", 400), "z"}
	ddlIdx   = []string{"i", "j", "i\x00'"}
)

// wantDB is the definition of the database an operation asks for.
func wantDB(o Op) string {
	var cs []string
	for _, c := range o.Sub {
		var is []string
		for _, i := range c.Sub {
			is = append(is, fmt.Sprintf("%s%v%v", i.S, idxCols(i), i.C == 1))
		}
		cs = append(cs, c.S+fmt.Sprint(is))
	}
	return fmt.Sprint(cs)
}

func idxCols(i Op) (l []string) {
	if i.B == -2 {
		return []string{"col0", "c\xff"} // cannot be stored
	}
	for k := int64(0); k <= i.B%3; k++ {
		l = append(l, fmt.Sprintf("col%d", (i.B/3+k)%4))
	}
	return
}

// gotColl is the definition of a stored collection.
func gotColl(ci *model.CollectionInfo) string {
	var is []string
	for _, n := range ci.IndexOrder {
		ii := ci.Indices[n]
		if ii == nil || ii.Name != n {
			return "index " + n + " is missing"
		}
		if ii.State != ci.State {
			return "index " + n + " is not public"
		}
		is = append(is, fmt.Sprintf("%s%v%v", ii.Name, ii.Columns, ii.Unique))
	}
	if len(ci.Indices) != len(ci.IndexOrder) {
		return fmt.Sprintf("%d indices, %d in order", len(ci.Indices), len(ci.IndexOrder))
	}
	return ci.Name + fmt.Sprint(is)
}

func gotDB(di *model.DBInfo) string {
	var cs []string
	for _, n := range di.CollectionOrder {
		ci := di.Collections[n]
		if ci == nil || ci.Name != n {
			return "collection " + n + " is missing"
		}
		if ci.State != di.State {
			return "collection " + n + " is not public"
		}
		cs = append(cs, gotColl(ci))
	}
	if len(di.Collections) != len(di.CollectionOrder) {
		return fmt.Sprintf("%d collections, %d in order", len(di.Collections), len(di.CollectionOrder))
	}
	return fmt.Sprint(cs)
}

// sortedDef forgets the order of the collections, which the cache does not tell.
func sortedDef(def string) string {
	def = strings.TrimSuffix(strings.TrimPrefix(def, "["), "]")
	var l []string
	depth, last := 0, 0
	for i, c := range def {
		switch c {
		case '[':
			depth++
		case ']':
			if depth--; depth == 0 {
				l = append(l, strings.TrimSpace(def[last:i+1]))
				last = i + 1
			}
		}
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

func ddlInput(o Op) (in ddl.CreateSchemaInput) {
	in.DB = o.S
	for _, c := range o.Sub {
		if c.A == 0 {
			in.Collections = append(in.Collections, c.S)
		}
		for _, i := range c.Sub {
			if in.Indices == nil {
				in.Indices = map[string][]ddl.IndexInfo{}
			}
			in.Indices[c.S] = append(in.Indices[c.S], ddl.IndexInfo{Name: i.S, Columns: idxCols(i), Unique: i.C == 1})
		}
	}
	return
}

func genDDLOp(g *Rng, names int) Op {
	o := Op{K: "create", S: ddlDBs[g.N(names)]}
	cs := append([]string(nil), ddlColls[:8]...)
	nc, ni, ix := g.N(4), 3, ddlIdx[:3]
	if g.P(1, 12) {
		// a large one
		nc += g.N(30)
		ni += g.N(15)
		for len(cs) < nc {
			cs = append(cs, fmt.Sprint("k", len(cs)))
		}
		for len(ix) < ni {
			ix = append(ix[:len(ix):len(ix)], fmt.Sprint("x", len(ix)))
		}
	}
	for n := nc; n > 0; n-- {
		k := g.N(len(cs))
		c := Op{S: cs[k]}
		cs = append(cs[:k], cs[k+1:]...)
		is := append([]string(nil), ix...)
		for m := g.N(ni); m > 0 && g.P(2, 3); m-- {
			k := g.N(len(is))
			c.Sub = append(c.Sub, Op{S: is[k], B: g.N64(12), C: int64(g.N(2))})
			is = append(is[:k], is[k+1:]...)
		}
		o.Sub = append(o.Sub, c)
	}
	if g.P(1, 8) {
		o.D = 1 + g.N64(3_000_000_000)
	}
	if len(o.Sub) > 0 && g.P(1, 12) {
		// cannot be created as asked for
		c := &o.Sub[g.N(len(o.Sub))]
		switch g.N(12) {
		case 4:
			o.S = ""
		case 5:
			c.S = ""
		case 6:
			c.Sub = append(c.Sub, Op{B: 1})
		case 7:
			// no columns
			c.Sub = append(c.Sub, Op{S: "w", B: -1})
		case 0:
			o.Sub = append(o.Sub, *c)
		case 1:
			c.Sub = append(c.Sub, Op{S: "i"}, Op{S: "i", B: 1})
		case 2:
			o.Sub = append(o.Sub, Op{S: "y", A: 1, Sub: []Op{{S: "i"}}})
		case 3:
			c.Sub = append(c.Sub, Op{S: "i\xff"})
		case 8:
			o.S += "\xff"
		case 9:
			c.S += "\xff"
		case 10:
			c.Sub = append(c.Sub, Op{S: "w", B: -2})
		case 11:
			c.Sub = append(c.Sub, Op{S: "\xc3", B: 1})
		}
		o.C = 1
	}
	return o
}

// genDDL: kind is "", "faults" or "crash".
func genDDL(kind string) func(g *Rng, tier string, c *Case) {
	return func(g *Rng, tier string, c *Case) {
		nc := 1 + g.N(4)
		n := 2 + g.N(5)
		if tier == "thorough" && g.P(1, 3) {
			n += g.N(8)
		}
		names := 1 + g.N(len(ddlDBs))
		many := g.P(1, 60)
		c.P["names"] = int64(names)
		for i := 0; i < nc; i++ {
			var ops []Op
			for j := 0; j < n; j++ {
				switch g.Pick(5, 2, 2, 2) {
				case 0:
					o := genDDLOp(g, names)
					if many && o.C == 0 {
						// and many others
						for k := g.N(25); k > 0; k-- {
							x := genDDLOp(g, 1)
							if x.C == 0 {
								x.S = fmt.Sprint("n", g.N(40))
								x.Sub = x.Sub[:g.N(2)*len(x.Sub)]
								ops = append(ops, x)
							}
						}
					}
					ops = append(ops, o)
				case 1:
					ops = append(ops, Op{K: "use", A: g.N64(8)})
				case 2:
					ops = append(ops, Op{K: "view"})
				case 3:
					o := Op{K: "think", D: g.N64(5_000_000)}
					if g.P(1, 2) {
						o.D = g.N64(3_000_000_000)
					}
					ops = append(ops, o)
				}
			}
			c.Clients = append(c.Clients, ops)
		}
		flood := g.P(1, 600)
		if flood {
			// more than the queue holds
			c.Clients = append(c.Clients, []Op{{K: "flood", A: 95 + g.N64(30)}})
		}
		// somebody keeps watching the cache
		var ops []Op
		for j := 0; j < 10; j++ {
			ops = append(ops, Op{K: "think", D: g.N64(1_500_000_000)}, Op{K: "view"})
		}
		c.Clients = append(c.Clients, ops)
		if g.P(1, 4) {
			c.P["lease"] = 50_000_000 + g.N64(2_000_000_000)
			if g.P(1, 2) {
				// reloads nearly all the time
				l := 3_000_000 + g.N64(30_000_000)
				c.P["lease"] = l
				for i := g.N(4); i > 0; i-- {
					c.Faults = append(c.Faults, Fault{K: "kv-slow", At: 1 + g.N64(int64(nc*n*20)), Arg: kvAny, Dur: 5 + g.N64(100), T: l * (1 + g.N64(60))})
				}
				for _, ops := range c.Clients {
					for i := range ops {
						if ops[i].K == "think" {
							ops[i].D %= l * 100
						}
					}
				}
				c.Clients = append(c.Clients, []Op{{K: "watch", A: 50 + g.N64(300), B: g.N64(1 << 30), D: 1 + g.N64(1<<(10+g.N64(14)))}})
			}
		}
		if flood {
			c.P["lease"] = 300_000_000 + g.N64(300_000_000)
		}
		if g.P(1, 4) {
			// slow storage
			for i := 1 + g.N(3); i > 0; i-- {
				c.Faults = append(c.Faults, Fault{K: "kv-slow", At: 1 + g.N64(int64(nc*n*20)), Arg: kvAny, Dur: 5 + g.N64(200), T: 1 + g.N64(1<<(15+g.N64(12)))})
			}
		}
		if kind == "faults" || kind == "crash" && g.P(1, 2) {
			genKVFaults(g, c, 1+g.N(6), int64(nc*n*10))
			if g.P(1, 4) {
				// the storage fails for a while
				c.Faults = append(c.Faults, Fault{K: "kv-err", At: 1 + g.N64(int64(nc*n*5)), Arg: g.N64(kvNOps), Dur: 3 + g.N64(20)})
			}
		}
		if kind == "crash" {
			if g.P(1, 3) {
				// the storage fails when the domain starts
				for i := 1 + g.N(3); i > 0; i-- {
					f := Fault{K: "kv-err", At: 1 + g.N64(20), Arg: g.N64(kvNOps), Dur: 1 + g.N64(2)}
					if g.P(1, 3) {
						f.Arg = kvAny
					}
					c.Faults = append(c.Faults, f)
				}
			}
			c.P["crash"] = 1 + g.N64(int64(nc*n*25))
			if g.P(1, 4) {
				// also while it recovers
				c.P["crash2"] = 1 + g.N64(60)
			}
		}
	}
}

// addNames makes the names that operations use known.
func addNames(ops []Op) {
	add := func(l *[]string, s string) {
		for _, x := range *l {
			if x == s {
				return
			}
		}
		*l = append(*l, s)
	}
	for _, o := range ops {
		if o.K != "create" || o.C != 0 {
			continue
		}
		add(&ddlDBs, o.S)
		for _, x := range o.Sub {
			add(&ddlColls, x.S)
			for _, i := range x.Sub {
				add(&ddlIdx, i.S)
			}
		}
	}
}

// create runs one CreateSchema.
func (h *ddlHist) create(id int, o Op) *ddlCall {
	r := h.r
	in := ddlInput(o)
	ctx, limited := context.Background(), o.D > 0
	if limited {
		var cancel func()
		ctx, cancel = context.WithTimeout(ctx, time.Duration(o.D))
		defer cancel()
	}
	x := &ddlCall{C: id, Inv: r.tick(), Op: o, St: "run"}
	if o.C != 0 {
		ctx, cancel := context.WithTimeout(ctx, time.Minute)
		defer cancel()
		if _, err := h.do.DDL().CreateSchema(ctx, in); err == nil {
			r.Fail("impossible-schema", "CreateSchema reported success although nobody can create what was asked for: %+v", in)
		}
		r.Cov("op:create-impossible")
		return x
	}
	addNames([]Op{o})
	h.Calls = append(h.Calls, x)
	start := time.Now()
	job, err := h.do.DDL().CreateSchema(ctx, in)
	if late := time.Since(start) - time.Duration(o.D); limited && late > 2*time.Second && !h.slow {
		r.Fail("deadline-ignored", "CreateSchema with a deadline of %v returned (%v) %v after it", time.Duration(o.D), err, late)
	}
	x.Ret = r.tick()
	if job != nil {
		x.Job = job.ID
	}
	r.Tracef("c%d create %s %s -> %v", id, o.S, wantDB(o), err)
	r.Cov("op:create")
	switch {
	case err == nil:
		x.St = "ok"
		r.Cov("created")
		// it can be used at once
		for _, v := range []func(){func() { h.look(o.S, wantDB(o)) }, func() { h.use(o) }} {
			v()
		}
		return x
	case errors.Is(err, context.DeadlineExceeded):
		x.St = "maybe"
		if !limited {
			r.Fail("unexpected-error:create", "CreateSchema without a deadline reported %v", err)
		}
		r.Cov("create-timed-out")
	default:
		x.St, x.Err = "none", err.Error()
		switch {
		case strings.Contains(x.Err, "already exists"):
			r.Cov("create-refused")
		case errors.Is(err, ddl.ErrJobsInQueueExceeded):
			n := 0
			for _, y := range h.Calls {
				if y != x && y.St != "none" {
					n++
				}
			}
			if n < 100 {
				r.Fail("refused-without-reason", "creating database %s was refused as there were too many jobs, but only %d calls can have made one", o.S, n)
			}
			r.Cov("create-queue-full")
		case strings.Contains(x.Err, "Transaction Conflict"):
			r.Cov("txn-conflicts")
		case h.cu.kv.injectedErr(err):
			r.Cov("create-failed")
		default:
			r.Fail("unexpected-error:create", "creating database %s failed although nothing is wrong: %v", o.S, err)
		}
	}
	return x
}

// injectedErr tells whether err comes from an injected failure.
func (f *FaultKV) injectedErr(err error) bool {
	for _, i := range f.inj {
		if i.err == err || strings.Contains(err.Error(), i.err.Error()) {
			return true
		}
	}
	return false
}

// cacheDefs reads the definitions of all databases out of one schema cache.
func (h *ddlHist) cacheDefs() (ver int64, dbs map[string]string, infos map[string]*model.CollectionInfo) {
	dbs, infos = map[string]string{}, map[string]*model.CollectionInfo{}
	for _, n := range ddlDBs {
		db, err := h.do.DB(n)
		if err != nil {
			continue
		}
		t := db.Txn(false)
		mc := t.StartMetaCache()
		ver = mc.Version()
		for _, n := range ddlDBs {
			if !mc.CheckDBExists(n) {
				continue
			}
			var cs []string
			for _, cn := range ddlColls {
				ci := mc.CollectionInfo(n, cn)
				if (ci != nil) != mc.CheckCollectionExists(n, cn) {
					h.r.Fail("cache-inconsistent", "the cache contradicts itself on collection %s of database %s", cn, n)
				}
				if ci == nil {
					continue
				}
				infos[n+"."+cn] = ci
				cs = append(cs, gotColl(ci))
				for _, in := range ddlIdx {
					if mc.CheckIndexExists(n, cn, in) != (ci.Indices[in] != nil) {
						h.r.Fail("cache-inconsistent", "the cache contradicts itself on index %s of collection %s of database %s", in, cn, n)
					}
				}
			}
			sort.Strings(cs)
			dbs[n] = fmt.Sprint(cs)
		}
		t.Discard()
		return
	}
	return
}

// view records what the schema cache shows.
func (h *ddlHist) view() {
	x := ddlObs{Inv: h.r.tick()}
	x.Ver, x.DBs, _ = h.cacheDefs()
	x.Ret = h.r.tick()
	h.Obs = append(h.Obs, x)
	h.r.Cov("op:view")
}

// watch looks often whether the schema cache goes back.
func (h *ddlHist) watch(o Op) {
	var db *dml.DB
	last := int64(0)
	g := NewRng(uint64(o.B))
	for i := int64(0); i < o.A; i++ {
		time.Sleep(time.Duration(g.N64(o.D)))
		for k := 0; db == nil && k < len(ddlDBs); k++ {
			db, _ = h.do.DB(ddlDBs[k])
		}
		if db == nil {
			continue
		}
		t := db.Txn(false)
		v := t.StartMetaCache().Version()
		t.Discard()
		if v < last {
			h.r.Fail("cache-goes-back", "the schema cache went from version %d back to version %d", last, v)
		}
		last = v
	}
	h.r.Cov("op:watch")
}

// look checks that the cache shows a database.
func (h *ddlHist) look(db, def string) {
	_, dbs, _ := h.cacheDefs()
	if got, ok := dbs[db]; !ok || got != sortedDef(def) {
		h.r.Fail("created-but-not-visible", "database %s was created as %s, but afterwards the cache shows %q (%v)", db, sortedDef(def), got, ok)
	}
}

// use inserts a document into every collection of a database that exists.
func (h *ddlHist) use(o Op) {
	r := h.r
	inv := r.tick()
	db, err := h.do.DB(o.S)
	if err != nil {
		r.Fail("created-but-not-visible", "database %s was created, but: %v", o.S, err)
	}
	if _, err := db.Collection("nope"); !errors.Is(err, dml.ErrCollectionNotExists) {
		r.Fail("phantom-collection", "opening a collection that does not exist in database %s reported %v", o.S, err)
	}
	for _, c := range o.Sub {
		col, err := db.Collection(c.S)
		if err != nil {
			r.Fail("created-but-not-visible", "collection %s.%s was created, but: %v", o.S, c.S, err)
		}
		if o.K == "create" {
			var want []string
			for _, i := range c.Sub {
				want = append(want, fmt.Sprintf("%q%q%v", i.S, idxCols(i), i.C == 1))
			}
			h.indices(o.S+"."+c.S, col, want)
		}
		h.Docs++
		tok := fmt.Sprint("t", h.Docs)
		did, err := col.InsertOne(makeDoc(tok), nil)
		if err != nil {
			if in := h.cu.kv.mine(inv); in != nil && strings.Contains(err.Error(), in.err.Error()) {
				continue
			}
			if strings.Contains(err.Error(), "Transaction Conflict") {
				continue
			}
			r.Fail("unexpected-error:insert", "inserting into the new collection %s.%s failed: %v", o.S, c.S, err)
		}
		k := fmt.Sprint(o.S, ".", c.S, ".", did)
		if h.dids[k] {
			r.Fail("id-reused", "document id %s was given out twice", k)
		}
		h.dids[k] = true
		var d doc
		err = col.GetOne(did, &d, nil)
		if in := h.cu.kv.mine(inv); err != nil && in != nil && strings.Contains(err.Error(), in.err.Error()) {
			continue
		}
		if err != nil || d.T != tok || !d.intact() {
			r.Fail("document-lost", "document %s of the new collection %s.%s is %v, %v", tok, o.S, c.S, d, err)
		}
		r.Cov("documents")
	}
}

// indices checks what a collection says about its indices, and that it tells only copies.
func (h *ddlHist) indices(n string, col *dml.Collection, want []string) {
	r := h.r
	l, err := col.GetIndices(nil)
	if err != nil {
		r.Fail("wrong-indices", "listing the indices of the existing collection %s failed: %v", n, err)
	}
	var got []string
	for _, i := range l {
		got = append(got, fmt.Sprintf("%q%q%v", i.Name, i.Columns, i.Unique))
		if _, err := col.Index(i.Name); err != nil {
			r.Fail("wrong-indices", "collection %s lists the index %s, but opening it failed: %v", n, i.Name, err)
		}
	}
	sort.Strings(got)
	sort.Strings(want)
	if fmt.Sprint(got) != fmt.Sprint(want) {
		r.Fail("wrong-indices", "collection %s was created with the indices %s, but lists %s", n, want, got)
	}
	if _, err := col.Index("nope"); !errors.Is(err, dml.ErrIndexNotExists) {
		r.Fail("wrong-indices", "opening an index that does not exist in collection %s reported %v", n, err)
	}
	for _, i := range l {
		i.Name, i.Unique, i.ID = "scribbled", !i.Unique, -1
		for k := range i.Columns {
			i.Columns[k] = "scribbled"
		}
	}
	r.Cov("op:indices")
}

func (h *ddlHist) client(id int, ops []Op) {
	for _, o := range ops {
		switch o.K {
		case "think":
			time.Sleep(time.Duration(o.D))
		case "view":
			h.view()
		case "watch":
			h.watch(o)
		case "create":
			h.create(id, o)
		case "flood":
			for i := int64(0); i < o.A; i++ {
				h.create(id, Op{K: "create", S: fmt.Sprint("f", i), D: 1})
				if i > 90 {
					h.queueBound()
				}
			}
		case "use":
			var l []Op
			for _, x := range h.Calls {
				if x.St == "ok" {
					l = append(l, x.Op)
				}
			}
			if len(l) > 0 {
				h.use(l[int(o.A)%len(l)])
			}
		}
	}
}

// queueBound checks that calls are refused once the queue is full.
func (h *ddlHist) queueBound() {
	t := h.cu.kv.NewTransaction(false)
	defer t.Discard()
	n, err := meta.NewMeta(t).DDLJobQueueLen()
	if err == nil && n > 101 {
		h.r.Fail("queue-overfull", "%d DDL jobs are queued, but a full queue holds 101", n)
	}
	h.r.Cov("queue-measured")
}

// ddlState is everything the store says about databases and jobs.
type ddlState struct {
	dbs     []*model.DBInfo
	colls   map[int64][]*model.CollectionInfo
	queue   []*model.Job
	history []*model.Job
	ver     int64
	gid     int64
	diffs   []*model.SchemaDiff
}

func (h *ddlHist) load() (s ddlState) {
	t := h.cu.kv.NewTransaction(false)
	defer t.Discard()
	m := meta.NewMeta(t)
	must := func(what string, err error) {
		if err != nil && !(what == "global id" && strings.Contains(err.Error(), "not found")) {
			h.r.Fail("catalog-unreadable", "reading the %s failed: %v", what, err)
		}
	}
	var err error
	s.dbs, err = m.ListDatabases()
	must("databases", err)
	s.colls = map[int64][]*model.CollectionInfo{}
	for _, d := range s.dbs {
		s.colls[d.ID], err = m.ListCollections(d.ID)
		must("collections", err)
	}
	s.queue, err = m.GetAllDDLJobsInQueue()
	must("job queue", err)
	s.history, err = m.GetAllHistoryDDLJobs()
	must("job history", err)
	s.ver, err = m.GetSchemaVersion()
	must("schema version", err)
	s.gid, err = m.GetGlobalID()
	must("global id", err)
	for v := int64(1); v <= s.ver; v++ {
		d, err := m.GetSchemaDiff(v)
		must("schema diff", err)
		s.diffs = append(s.diffs, d)
	}
	return
}

// quiesce waits until every job has been worked off.
func (h *ddlHist) quiesce() ddlState {
	for i := 0; ; i++ {
		s := h.load()
		if len(s.queue) == 0 {
			return s
		}
		if i > 600 {
			b, _ := json.Marshal(s.queue[0])
			h.r.FailHang("ddl-queue-stuck", "the queue of DDL jobs was not worked off within 5 minutes of simulated time: %d jobs, the first is %s", len(s.queue), b)
		}
		time.Sleep(500 * time.Millisecond)
	}
}

// check judges the whole history at its end.
func (h *ddlHist) check() {
	r := h.r
	s := h.quiesce()
	// the cache follows within the tick of the worker
	time.Sleep(3 * time.Second)
	d := ""
	for _, x := range h.Calls {
		d += fmt.Sprintf("client %d [%d..%d] create %s %s -> %s %s job %d\n", x.C, x.Inv, x.Ret, x.Op.S, wantDB(x.Op), x.St, x.Err, x.Job)
	}
	fail := func(kind, f string, a ...interface{}) { r.FailD(kind, d, f, a...) }
	by := map[string]*model.DBInfo{}
	for _, x := range s.dbs {
		if by[x.Name] != nil {
			fail("created-twice", "database %s exists twice", x.Name)
		}
		by[x.Name] = x
		var l []string
		for _, c := range s.colls[x.ID] {
			l = append(l, gotColl(c))
		}
		sort.Strings(l)
		if fmt.Sprint(l) != sortedDef(gotDB(x)) {
			fail("half-created", "database %s is defined as %s, but its collections are %s", x.Name, gotDB(x), l)
		}
	}
	// who created what
	for _, n := range ddlDBs {
		var ok, maybe []*ddlCall
		for _, x := range h.Calls {
			if x.Op.S == n && x.St == "ok" {
				ok = append(ok, x)
			}
			if x.Op.S == n && (x.St == "maybe" || x.St == "run") {
				maybe = append(maybe, x)
			}
		}
		if len(ok) > 1 {
			fail("created-twice", "creating database %s succeeded %d times", n, len(ok))
		}
		db := by[n]
		if len(ok) == 1 && db == nil {
			fail("created-but-lost", "database %s was created but does not exist", n)
		}
		if db != nil {
			got := gotDB(db)
			fits := false
			for _, x := range append(ok, maybe...) {
				fits = fits || wantDB(x.Op) == got && !(len(ok) == 1 && x.St != "ok")
			}
			if !fits {
				fail("wrong-database", "database %s is %s, which no caller that may have succeeded asked for", n, got)
			}
		}
		// a refusal needs somebody who came first
		for _, x := range h.Calls {
			if x.Op.S != n || x.St != "none" || !strings.Contains(x.Err, "already exists") {
				continue
			}
			if db == nil {
				fail("refused-without-reason", "creating database %s was refused as existing, but it does not exist", n)
			}
			first := false
			for _, y := range append(ok, maybe...) {
				first = first || y.Inv < x.Ret
			}
			if !first {
				fail("refused-without-reason", "creating database %s was refused before anybody had created it", n)
			}
		}
	}
	// global ids are unique
	ids := map[int64]string{}
	id := func(n int64, what string) {
		if n <= 0 || n > s.gid {
			fail("bad-id", "%s has the id %d, outside of 1..%d", what, n, s.gid)
		}
		if w, ok := ids[n]; ok {
			fail("id-used-twice", "id %d belongs to %s and to %s", n, w, what)
		}
		ids[n] = what
	}
	for _, x := range s.dbs {
		id(x.ID, "database "+x.Name)
		for _, c := range x.Collections {
			id(c.ID, "collection "+x.Name+"."+c.Name)
			for _, i := range c.Indices {
				id(i.ID, "index "+x.Name+"."+c.Name+"."+i.Name)
			}
		}
	}
	synced := 0
	hist := map[int64]*model.Job{}
	for _, j := range s.history {
		id(j.ID, fmt.Sprint("job ", j.ID))
		hist[j.ID] = j
		if j.IsSynced() {
			synced++
		} else if j.Error == nil {
			fail("job-without-outcome", "job %d is finished in state %s without an error", j.ID, j.State)
		}
	}
	if synced != len(s.dbs) {
		fail("jobs-and-databases", "%d jobs have succeeded, but there are %d databases", synced, len(s.dbs))
	}
	if len(s.history) > len(h.Calls) {
		fail("job-repeated", "%d jobs came out of %d calls", len(s.history), len(h.Calls))
	}
	for _, x := range h.Calls {
		if x.St == "ok" && (hist[x.Job] == nil || !hist[x.Job].IsSynced()) {
			fail("job-lost", "creating database %s succeeded, but its job %d is not in the history as such", x.Op.S, x.Job)
		}
	}
	// the schema version counts the databases, and each version tells which
	if s.ver != int64(len(s.dbs)) {
		fail("schema-version", "the schema version is %d, but there are %d databases", s.ver, len(s.dbs))
	}
	at := map[string]int64{}
	for i, df := range s.diffs {
		if df == nil || df.Version != int64(i+1) || df.Type != model.ActionCreateSchema {
			fail("schema-diff", "the schema diff of version %d is missing or wrong: %v", i+1, df)
		}
		var di model.DBInfo
		if err := df.DecodeArg(&di); err != nil {
			fail("schema-diff", "the schema diff of version %d cannot be decoded: %v", i+1, err)
		}
		db := by[di.Name]
		if db == nil || at[di.Name] != 0 || toJSON(db.Clone()) != toJSON(di.Clone()) {
			fail("schema-diff", "the schema diff of version %d says %s, but the database is %s", i+1, toJSON(di), toJSON(db))
		}
		at[di.Name] = int64(i + 1)
		want := map[int64]bool{}
		for _, c := range di.Collections {
			want[c.ID] = true
		}
		for _, c := range df.CollectionIDs {
			if !want[c] {
				fail("schema-diff", "the schema diff of version %d names the wrong collections", i+1)
			}
			delete(want, c)
		}
		if len(want) > 0 {
			fail("schema-diff", "the schema diff of version %d does not name all collections", i+1)
		}
	}
	// the cache shows the same
	ver, dbs, infos := h.cacheDefs()
	if ver != s.ver && len(s.dbs) > 0 {
		fail("stale-cache", "the schema cache stays at version %d, the store is at %d", ver, s.ver)
	}
	if len(dbs) != len(s.dbs) {
		fail("stale-cache", "the schema cache shows %d databases, the store has %d", len(dbs), len(s.dbs))
	}
	for _, x := range s.dbs {
		if dbs[x.Name] != sortedDef(gotDB(x)) {
			fail("stale-cache", "the schema cache shows database %s as %s, the store has %s", x.Name, dbs[x.Name], gotDB(x))
		}
		for _, c := range x.Collections {
			if a, b := toJSON(infos[x.Name+"."+c.Name].Clone()), toJSON(c.Clone()); a != b {
				fail("stale-cache", "the schema cache has %s where the store has %s", a, b)
			}
		}
	}
	// what was seen on the way: complete databases, in the order of the versions
	h.Obs = append(h.Obs, ddlObs{Inv: r.tick(), Ret: r.tick(), Ver: ver, DBs: dbs})
	for i, x := range h.Obs {
		for n, def := range x.DBs {
			if by[n] == nil || sortedDef(gotDB(by[n])) != def {
				fail("half-visible", "the cache showed database %s as %s", n, def)
			}
		}
		for n, v := range at {
			if _, ok := x.DBs[n]; ok != (v <= x.Ver) {
				fail("half-visible", "the cache of version %d shows database %s of version %d: %v", x.Ver, n, v, ok)
			}
		}
		for _, y := range h.Obs[:i] {
			if y.Ret < x.Inv && y.Ver > x.Ver || x.Ret < y.Inv && x.Ver > y.Ver {
				fail("cache-goes-back", "the cache went from version %d back to version %d", y.Ver, x.Ver)
			}
		}
		for _, y := range h.Calls {
			if y.St == "ok" && y.Ret < x.Inv && x.Ver < at[y.Op.S] {
				fail("created-but-not-visible", "database %s had been created in version %d, but the cache showed version %d", y.Op.S, at[y.Op.S], x.Ver)
			}
		}
	}
	r.CovN("databases", int64(len(s.dbs)))
	r.CovN("jobs", int64(len(s.history)))
	// every database can still be used
	for _, x := range s.dbs {
		o := Op{S: x.Name}
		for n := range x.Collections {
			o.Sub = append(o.Sub, Op{S: n})
		}
		sort.Slice(o.Sub, func(i, j int) bool { return o.Sub[i].S < o.Sub[j].S })
		h.use(o)
		db, _ := h.do.DB(x.Name)
		for _, c := range o.Sub {
			if col, err := db.Collection(c.S); err == nil {
				var want []string
				for _, i := range x.Collections[c.S].Indices {
					want = append(want, fmt.Sprintf("%q%q%v", i.Name, i.Columns, i.Unique))
				}
				h.indices(x.Name+"."+c.S, col, want)
			}
		}
	}
}

func toJSON(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// init opens the domain, which a failing storage may delay.
func (h *ddlHist) init() {
	h.do = domain.NewDomain(h.cu.kv)
	t := h.cu.kv.KVDB.NewTransaction(false)
	want, err := meta.NewMeta(t).GetSchemaVersion()
	if err != nil {
		h.r.Fail("catalog-unreadable", "reading the schema version failed: %v", err)
	}
	t.Discard()
	for i := 0; ; i++ {
		inv := h.r.tick()
		err := h.do.Init()
		if err == nil {
			if want > 0 {
				if got, _, _ := h.cacheDefs(); got < want {
					h.r.Fail("stale-cache", "Domain.Init succeeded, but the schema cache is at version %d, and the store was at %d before", got, want)
				}
			}
			return
		}
		in := h.cu.kv.mine(inv)
		if in == nil || !strings.Contains(err.Error(), in.err.Error()) {
			h.r.Fail("unexpected-error:init", "Domain.Init failed at attempt %d: %v (injected: %v)", i+1, err, in)
		}
		h.r.Cov("init-failed")
		if h.r.C.P["newdomain"] == 1 {
			h.do = domain.NewDomain(h.cu.kv)
		}
		time.Sleep(100 * time.Millisecond)
	}
}

func runDDL(r *Run) {
	h := &ddlHist{dids: map[string]bool{}}
	r.LoadX(h)
	h.r = r
	for _, f := range r.C.Faults {
		h.slow = h.slow || f.K == "kv-slow"
	}
	for _, ops := range r.C.Clients {
		addNames(ops)
	}
	for _, x := range h.Calls {
		addNames([]Op{x.Op})
	}
	config.Load().Lease = time.Duration(r.C.P["lease"])
	h.cu = r.OpenLocal()
	crashAt := func(at int64) {
		if at > 0 {
			n := int64(0)
			h.cu.kv.onOp = func(int64) {
				if n++; n == at {
					for _, x := range h.Calls {
						if x.Ret == 0 {
							x.Ret = r.tick()
						}
					}
					r.Crash()
				}
			}
		}
	}
	switch r.Stage {
	case 0:
		crashAt(r.C.P["crash"])
	case 1:
		crashAt(r.C.P["crash2"])
	}
	h.cu.kv.Arm()
	h.init()
	if r.Stage == 0 {
		grp := NewGroup()
		for i := range r.C.Clients {
			i := i
			grp.Go(func() { h.client(i, r.C.Clients[i]) })
		}
		if !grp.Wait(30 * time.Minute) {
			r.FailHang("hang:create-schema", "CreateSchema did not return within 30 minutes of simulated time")
		}
	}
	if r.C.P["crash"] > 0 && r.Stage == 0 {
		r.Crash()
	}
	h.cu.kv.Disarm()
	h.cu.kv.onOp = nil
	if r.Stage > 0 {
		// life goes on after the restart
		h.quiesce()
		g := NewRng(mix(r.C.Seed, 977))
		grp := NewGroup()
		for i := 0; i < 2; i++ {
			o := genDDLOp(g, int(r.C.P["names"]))
			o.D = 0
			grp.Go(func() { h.create(900, o) })
		}
		if !grp.Wait(10 * time.Minute) {
			r.FailHang("hang:create-schema", "CreateSchema did not return within 10 minutes of simulated time after a restart")
		}
	}
	h.check()
	h.settleDDL()
}

// settleDDL checks that no transaction stays open.
func (h *ddlHist) settleDDL() {
	for i := 0; h.cu.kv.OpenTx != 0; i++ {
		if i > 200 {
			h.r.Fail("txn-leak", "%d transactions were left open", h.cu.kv.OpenTx)
		}
		time.Sleep(7 * time.Millisecond)
	}
}

// runAddIndex: adding an index must not stop the DDL worker.
func runAddIndex(r *Run) {
	h := &ddlHist{dids: map[string]bool{}, r: r}
	h.cu = r.OpenLocal()
	h.init()
	g := NewRng(mix(r.C.Seed, 978))
	o := genDDLOp(g, 1)
	for o.C != 0 {
		o = genDDLOp(g, 1)
	}
	o.S, o.D, o.Sub = "d0", 0, append(o.Sub, Op{S: "z"})
	h.create(0, o)
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	_, err := h.do.DDL().AddIndex(ctx, ddl.AddIndexInput{DB: "d0", Collection: "z", IndexInfo: ddl.IndexInfo{Name: "new", Columns: []string{"c"}}})
	r.Tracef("AddIndex: %v", err)
	db, _ := h.do.DB("d0")
	if c, cerr := db.Collection("z"); err == nil {
		l, lerr := c.GetIndices(nil)
		if cerr != nil || lerr != nil || len(l) != 1 || l[0].Name != "new" {
			r.Fail("add-index-without-index", "AddIndex succeeded, but the indices are %v (%v, %v)", l, cerr, lerr)
		}
	}
	done := false
	go func() {
		for !done {
			_, err := h.do.DDL().CreateSchema(context.Background(), ddl.CreateSchemaInput{DB: "d1"})
			done = err == nil
		}
	}()
	for i := 0; !done; i++ {
		if i > 300 {
			r.Fail("ddl-wedged-by-add-index", "AddIndex (%v) stops the DDL worker: a CreateSchema after it has not returned for 5 minutes of simulated time", err)
		}
		time.Sleep(time.Second)
	}
}

var _ mondis.KVDB

func init() {
	register("P13", "schemas", 40, &Scenario{Gen: genDDL(""), Run: runDDL, MaxSteps: 20_000_000})
	register("P13", "add-index", 1, &Scenario{Gen: func(g *Rng, tier string, c *Case) {}, Run: runAddIndex})
	register("P14", "schemas-faults", 3, &Scenario{Gen: genDDL("faults"), Run: runDDL, MaxSteps: 20_000_000})
	register("P14", "schemas-crash", 4, &Scenario{Gen: genDDL("crash"), Run: runDDL, MaxSteps: 20_000_000})
}
