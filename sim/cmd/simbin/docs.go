package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/domain"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/txn"
	"github.com/zhiqiangxu/mondis/kv/memcomparable"
	"github.com/zhiqiangxu/mondis/util"
	"go.mongodb.org/mongo-driver/bson"
)

// ---- reference model of collections of documents ----

type docModel struct {
	docs []map[int64]string  // collection -> id -> token
	pend map[int][][]int64   // transaction -> what each of its DeleteAll calls saw
	idx  []map[string]string // collection -> index name -> definition
	key  string
}

func newDocModel(n int) *docModel {
	m := &docModel{pend: map[int][][]int64{}}
	for i := 0; i < n; i++ {
		m.docs = append(m.docs, map[int64]string{})
		m.idx = append(m.idx, map[string]string{})
	}
	return m
}

func (m *docModel) ids(c int) (l []int64) {
	for d := range m.docs[c] {
		l = append(l, d)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return
}

func (m *docModel) Key() string {
	if m.key == "" {
		var b bytes.Buffer
		for c := range m.docs {
			for _, d := range m.ids(c) {
				fmt.Fprintf(&b, "%d=%s,", d, m.docs[c][d])
			}
			fmt.Fprintf(&b, "%v|", m.idx[c])
		}
		var ts []int
		for t := range m.pend {
			ts = append(ts, t)
		}
		sort.Ints(ts)
		for _, t := range ts {
			fmt.Fprintf(&b, "p%d%v", t, m.pend[t])
		}
		b.WriteByte('.')
		m.key = b.String()
	}
	return m.key
}

func (m *docModel) clone() *docModel {
	c := newDocModel(len(m.docs))
	for i, x := range m.docs {
		for d, v := range x {
			c.docs[i][d] = v
		}
		for d, v := range m.idx[i] {
			c.idx[i][d] = v
		}
	}
	for t, l := range m.pend {
		c.pend[t] = l
	}
	return c
}

func docScan(k string) bool { return k == "all" || k == "count" || k == "range" || k == "delall" }

// apply runs one operation in the model. For DeleteAll, dels is what it
// deletes (nil: everything it finds); it returns what it found.
func (m *docModel) apply(o Op, res string, dels []int64) (ok bool, saw []int64) {
	d := m.docs[o.A]
	cur, have := d[o.D]
	if unencodable(o) {
		return res == "unencodable", nil
	}
	switch o.K {
	case "ins":
		var did int64
		if n, _ := fmt.Sscanf(res, "did:%d", &did); n != 1 || did <= 0 {
			return false, nil
		}
		if _, ok := d[did]; ok {
			return false, nil
		}
		d[did] = o.S
		return true, nil
	case "insm":
		if have {
			return res == "exists", nil
		}
		d[o.D] = o.S
		return res == "ok", nil
	case "upd":
		if have {
			d[o.D] = o.S
		}
		return res == strconv.FormatBool(have), nil
	case "ups":
		d[o.D] = o.S
		return res == strconv.FormatBool(!have), nil
	case "del":
		delete(d, o.D)
		return res == "ok", nil
	case "get":
		if !have {
			return res == "nf", nil
		}
		if o.C == 4 {
			return res == "undecodable", nil
		}
		return res == cur, nil
	case "getm":
		var l []string
		for _, s := range o.Sub {
			v, ok := d[s.D]
			if !ok {
				return res == "nf", nil
			}
			if o.C == 4 {
				return res == "undecodable", nil
			}
			l = append(l, v)
		}
		return res == fmt.Sprint(l), nil
	case "all":
		var l []string
		for _, i := range m.ids(int(o.A)) {
			l = append(l, d[i])
		}
		if o.C == 4 && len(l) > 0 {
			return res == "undecodable", nil
		}
		return res == fmt.Sprint(l), nil
	case "count":
		return res == strconv.Itoa(len(d)), nil
	case "range":
		ids := m.ids(int(o.A))
		if len(ids) == 0 {
			return res == "0 0", nil
		}
		return res == fmt.Sprint(ids[0], ids[len(ids)-1]), nil
	case "delall":
		if dels == nil {
			dels = append([]int64{}, m.ids(int(o.A))...)
		}
		for _, i := range dels {
			delete(d, i)
		}
		return res == strconv.Itoa(len(dels)), dels
	case "cidx":
		def := indexDef(o)
		_, dup := m.idx[o.A][o.S]
		for _, x := range m.idx[o.A] {
			dup = dup || indexCols(x) == indexCols(def)
		}
		if dup {
			return res == "dup", nil
		}
		m.idx[o.A][o.S] = def
		return res == "ok", nil
	case "didx":
		_, have := m.idx[o.A][o.S]
		delete(m.idx[o.A], o.S)
		return res == strconv.FormatBool(have), nil
	case "bad":
		return res == "refused", nil
	case "lidx":
		return res == fmt.Sprint(docIndices(o.A)), nil
	case "gidx":
		var l []string
		for n, x := range m.idx[o.A] {
			l = append(l, n+":"+x)
		}
		sort.Strings(l)
		return res == fmt.Sprint(l), nil
	}
	panic("simbin: unknown document operation " + o.K)
}

// indexDef is the definition of an index as text: name or -name for a
// descending column, and ! for a unique index. indexCols is what must differ
// between the indexes of a collection.
func indexDef(o Op) string {
	var l []string
	cols := []string{"a", "bb", "b", "a.b", "é"}
	for n, k := o.B, 0; k < 1+int(o.B%3); k++ {
		n /= 3
		c := cols[n%int64(len(cols))]
		n /= int64(len(cols))
		if n%2 == 1 && o.B%3 > 0 {
			c = "-" + c
		}
		n /= 2
		dup := false
		for _, x := range l {
			dup = dup || strings.TrimPrefix(x, "-") == strings.TrimPrefix(c, "-")
		}
		if !dup {
			l = append(l, c)
		}
	}
	if len(l) == 1 {
		l[0] = strings.TrimPrefix(l[0], "-")
	}
	s := strings.Join(l, ",")
	if o.C == 1 {
		s += "!"
	}
	return s
}

func indexCols(def string) string {
	l := strings.Split(strings.TrimSuffix(def, "!"), ",")
	sort.Strings(l)
	return strings.Join(l, ",")
}

func toIndex(o Op) document.IndexDefinition {
	def := indexDef(o)
	d := document.IndexDefinition{Name: o.S, Option: document.IndexOption{Unique: strings.HasSuffix(def, "!")}}
	for _, c := range strings.Split(strings.TrimSuffix(def, "!"), ",") {
		d.Fields = append(d.Fields, document.IndexField{Name: strings.TrimPrefix(c, "-"), Desc: c[0] == '-'})
	}
	return d
}

func fromIndex(d document.IndexDefinition) string {
	s := ""
	for i, f := range d.Fields {
		if i > 0 {
			s += ","
		}
		if f.Desc {
			s += "-"
		}
		s += f.Name
	}
	if d.Option.Unique {
		s += "!"
	}
	return d.Name + ":" + s
}

func isIndexOp(k string) bool { return k == "cidx" || k == "didx" || k == "gidx" || k == "bad" }

// unencodable tells whether an operation stores what cannot be stored.
func unencodable(o Op) bool {
	switch o.K {
	case "ins", "insm", "upd", "ups":
		return o.C == 5
	}
	return false
}

// docIndices are the indices that collection c of a database with schemas has.
func docIndices(c int64) (l []string) {
	for i := int64(0); i < c%3; i++ {
		l = append(l, fmt.Sprintf("i%d[x%d]", i, c))
	}
	return
}

// ---- the two document layers behind one face ----

type docTxn interface {
	Commit() error
	Discard()
}

type docAPI interface {
	begin(update bool) docTxn
	// wrap runs f in a transaction by the n-th helper for that
	wrap(n int64, update bool, f func(docTxn) error) error
	exec(t docTxn, o Op) (res string, err error)
	// sees tells whether collection c exists for a transaction
	sees(t docTxn, c int64) bool
}

type doc struct {
	T string         `bson:"t"`
	N int64          `bson:"n"`
	S string         `bson:"s"`
	O map[string]int `bson:"o,omitempty"`
	L []string       `bson:"l,omitempty"`
	P *int64         `bson:"p,omitempty"`
}

func makeDoc(tok string) doc {
	h := mix(uint64(len(tok)), 7)
	for i := 0; i < len(tok); i++ {
		h = mix(h, uint64(tok[i]))
	}
	d := doc{T: tok, N: int64(h)}
	d.S = strings.Repeat("é\x00", int(h%7)*int(h%5))
	if h>>8%16 == 0 {
		d.S += strings.Repeat("x", int(h>>16%70_000))
	}
	// not every document has every field
	if h>>32%3 == 0 {
		d.O = map[string]int{fmt.Sprint("k", h>>34%3): int(h >> 40 % 1000)}
	}
	if h>>33%4 == 0 {
		d.L = strings.Split(tok+",l", ",")[:1+h>>36%2]
	}
	if h>>35%4 == 0 {
		d.P = &d.N
	}
	return d
}

func (d doc) m() (m bson.M) {
	b, err := bson.Marshal(d)
	if err == nil {
		err = bson.Unmarshal(b, &m)
	}
	if err != nil {
		panic(err)
	}
	return
}

func docOf(m bson.M) (d doc) {
	b, err := bson.Marshal(m)
	if err == nil {
		err = bson.Unmarshal(b, &d)
	}
	if err != nil || len(m) != len(d.m()) {
		return doc{}
	}
	return
}

func docsOf(ms []bson.M) (ds []doc) {
	for _, m := range ms {
		ds = append(ds, docOf(m))
		for k := range m {
			delete(m, k) // the caller's
		}
	}
	return
}

// otherDoc is what no document can be read into.
type otherDoc struct {
	T int64 `bson:"t"`
}

// readDocs reads documents into elements of several types.
func readDocs(form int64, read func(slicePtr interface{}) error) (string, error) {
	switch form {
	case 1:
		var gs []bson.M
		err := read(&gs)
		return docRes(docsOf(gs)), err
	case 2:
		var gs []*doc
		err := read(&gs)
		var ds []doc
		for _, g := range gs {
			ds = append(ds, *g)
		}
		return docRes(ds), err
	case 3:
		var gs []bson.D
		err := read(&gs)
		var ms []bson.M
		for _, g := range gs {
			ms = append(ms, g.Map())
		}
		return docRes(docsOf(ms)), err
	case 4:
		var gs []otherDoc
		err := read(&gs)
		if err != nil && strings.Contains(err.Error(), "cannot decode string") {
			return "undecodable", err
		}
		return fmt.Sprint(gs), err
	}
	var gs []doc
	err := read(&gs)
	return docRes(gs), err
}

// given is a document in one of the forms in which it can be stored.
func given(form int64, d doc) interface{} {
	switch form {
	case 1:
		return d.m()
	case 2:
		return &d
	case 3:
		var l bson.D
		for k, v := range d.m() {
			l = append(l, bson.E{Key: k, Value: v})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].Key < l[j].Key })
		return l
	case 5:
		return bson.M{"t": d.T, "x": make(chan int)}
	}
	return d
}

func (d doc) intact() bool { return reflect.DeepEqual(d, makeDoc(d.T)) }

// docRes checks that the documents are intact and lists their tokens.
func docRes(ds []doc) string {
	var l []string
	for _, d := range ds {
		if !d.intact() {
			return "corrupt:" + fmt.Sprintf("%q", d)
		}
		l = append(l, d.T)
	}
	return fmt.Sprint(l)
}

func docRes1(d doc) string {
	s := docRes([]doc{d})
	return strings.TrimSuffix(strings.TrimPrefix(s, "["), "]")
}

func didList(o Op) (l []int64) {
	for _, s := range o.Sub {
		l = append(l, s.D)
	}
	return
}

// domainAPI is the document database with schemas.
type domainAPI struct {
	do    *domain.Domain
	names [][2]string
	colls []*dml.Collection
	dbs   []*dml.DB
}

func (a *domainAPI) coll(c int64) (*dml.Collection, *dml.DB, error) {
	if a.colls[c] == nil {
		db, err := a.do.DB(a.names[c][0])
		if err != nil {
			return nil, nil, err
		}
		col, err := db.Collection(a.names[c][1])
		if err != nil {
			return nil, nil, err
		}
		a.colls[c], a.dbs[c] = col, db
	}
	return a.colls[c], a.dbs[c], nil
}

func (a *domainAPI) begin(update bool) docTxn { return a.dbs[0].Txn(update) }

func (a *domainAPI) wrap(n int64, update bool, f func(docTxn) error) error {
	g := func(t *txn.Txn) error { return f(t) }
	switch {
	case n == 1 && update:
		return a.dbs[0].RunInNewUpdateTxn(g)
	case n == 1:
		return a.dbs[0].RunInNewTxn(g)
	case update:
		return a.colls[0].RunInNewUpdateTxn(g)
	}
	return a.colls[0].RunInNewTxn(g)
}

func (a *domainAPI) sees(t docTxn, c int64) bool {
	return t.(*txn.Txn).StartMetaCache().CheckCollectionExists(a.names[c][0], a.names[c][1])
}

func (a *domainAPI) exec(dt docTxn, o Op) (res string, err error) {
	c, _, err := a.coll(o.A)
	if err != nil {
		return
	}
	var t *txn.Txn
	if dt != nil {
		t = dt.(*txn.Txn)
	}
	d := given(o.C, makeDoc(o.S))
	res = "ok"
	switch o.K {
	case "ins":
		var did int64
		did, err = c.InsertOne(d, t)
		res = fmt.Sprintf("did:%d", did)
	case "insm":
		err = c.InsertOneManaged(o.D, d, t)
		if err == dml.ErrDocExists {
			return "exists", nil
		}
	case "upd":
		var ok bool
		ok, err = c.UpdateOne(o.D, d, t)
		res = strconv.FormatBool(ok)
	case "ups":
		var ok bool
		ok, err = c.UpsertOne(o.D, d, t)
		res = strconv.FormatBool(ok)
	case "del":
		err = c.DeleteOne(o.D, t)
	case "get":
		if o.C == 4 {
			var g otherDoc
			err = c.GetOne(o.D, &g, t)
			if err != nil && strings.Contains(err.Error(), "cannot decode string") {
				return "undecodable", err
			}
			res = fmt.Sprint(g)
		} else if o.C != 0 {
			var g bson.M
			err = c.GetOne(o.D, &g, t)
			res = docRes1(docOf(g))
		} else {
			var g doc
			err = c.GetOne(o.D, &g, t)
			res = docRes1(g)
		}
	case "getm":
		res, err = readDocs(o.C, func(p interface{}) error { return c.GetMany(didList(o), p, t) })
	case "all":
		res, err = readDocs(o.C, func(p interface{}) error { return c.GetAll(p, t) })
	case "lidx":
		l, e := c.GetIndices(t)
		var ns []string
		for _, i := range l {
			ns = append(ns, i.Name+fmt.Sprint(i.Columns))
			i.Name, i.Columns[0] = "scribble", "scribble"
		}
		sort.Strings(ns)
		res, err = fmt.Sprint(ns), e
	case "count":
		var n int
		n, err = c.Count(t)
		res = strconv.Itoa(n)
	case "range":
		var lo, hi int64
		lo, hi, err = c.GetDidRange(t)
		res = fmt.Sprint(lo, hi)
	case "delall":
		var n int
		n, err = c.DeleteAll(t)
		res = strconv.Itoa(n)
	}
	if err == dml.ErrDocNotFound {
		return "nf", nil
	}
	if err != nil && unencodable(o) && strings.Contains(err.Error(), "no encoder found") {
		return "unencodable", err
	}
	return
}

// legacyAPI is the document database without schemas.
type legacyAPI struct {
	kv    mondis.KVDB
	db    *document.DB
	names []string
	iids  map[int64]string // ids of the indexes created in this process
}

func (a *legacyAPI) wrap(n int64, update bool, f func(docTxn) error) error {
	g := func(t mondis.ProviderTxn) error { return f(t) }
	if update {
		return util.RunInNewUpdateTxn(a.kv, g)
	}
	return util.RunInNewTxn(a.kv, g)
}

func (a *legacyAPI) begin(update bool) docTxn    { return a.kv.NewTransaction(update) }
func (a *legacyAPI) sees(t docTxn, c int64) bool { return true }

func (a *legacyAPI) exec(dt docTxn, o Op) (res string, err error) {
	c, err := a.db.Collection(a.names[o.A])
	if err != nil {
		return
	}
	var t mondis.ProviderTxn
	if dt != nil {
		t = dt.(mondis.ProviderTxn)
	}
	if isIndexOp(o.K) {
		return a.execIndex(c, o)
	}
	d := makeDoc(o.S).m()
	if unencodable(o) {
		d["x"] = make(chan int)
	}
	res = "ok"
	switch o.K {
	case "ins":
		var did int64
		did, err = c.InsertOne(d, t)
		res = fmt.Sprintf("did:%d", did)
	case "insm":
		err = c.InsertOneManaged(o.D, d, t)
		if err == document.ErrDocIDExists {
			return "exists", nil
		}
	case "upd":
		var ok bool
		ok, err = c.UpdateOne(o.D, d, t)
		res = strconv.FormatBool(ok)
	case "ups":
		var ok bool
		ok, err = c.UpsertOne(o.D, d, t)
		res = strconv.FormatBool(ok)
	case "del":
		err = c.DeleteOne(o.D, t)
	case "get":
		var g bson.M
		g, err = c.GetOne(o.D, t)
		res = docRes1(docOf(g))
	case "getm":
		var gs []bson.M
		gs, err = c.GetMany(didList(o), t)
		res = docRes(docsOf(gs))
	case "count":
		var n int
		n, err = c.Count(t)
		res = strconv.Itoa(n)
	case "delall":
		var n int
		n, err = c.DeleteAll(t)
		res = strconv.Itoa(n)
	}
	if err == document.ErrDocNotFound {
		return "nf", nil
	}
	if err != nil && unencodable(o) && strings.Contains(err.Error(), "no encoder found") {
		return "unencodable", err
	}
	return
}

func (a *legacyAPI) execIndex(c *document.Collection, o Op) (res string, err error) {
	switch o.K {
	case "cidx":
		var iid int64
		def := toIndex(o)
		iid, err = c.CreateIndex(def)
		for i := range def.Fields {
			def.Fields[i].Name = "scribbled"
		}
		if err != nil && strings.Contains(err.Error(), "already exists") {
			return "dup", nil
		}
		if err == nil {
			if was, ok := a.iids[iid]; ok {
				return fmt.Sprintf("index id %d given out twice (%s)", iid, was), nil
			}
			a.iids[iid] = o.S
		}
		res = "ok"
	case "bad":
		accepted := false
		switch o.B {
		case 0, 1, 2:
			_, err = a.db.Collection([]string{"", "collection", "index"}[o.B])
			accepted = err == nil
		case 3:
			_, err = c.CreateIndex(document.IndexDefinition{Fields: []document.IndexField{{Name: "q"}}})
			accepted = err == nil
		case 4:
			_, err = c.CreateIndex(document.IndexDefinition{Name: "q"})
			accepted = err == nil
		default:
			accepted, err = c.DropIndex("")
		}
		if !accepted {
			return "refused", err
		}
		res = fmt.Sprint("accepted ", o.B)
	case "didx":
		var ok bool
		ok, err = c.DropIndex(o.S)
		res = strconv.FormatBool(ok)
	case "gidx":
		var l []string
		for _, d := range c.GetIndexes() {
			l = append(l, fromIndex(d))
			for i := range d.Fields {
				d.Fields[i].Name = "scribble"
			}
		}
		sort.Strings(l)
		res = fmt.Sprint(l)
	}
	return
}

// ---- running ----

type docHist struct {
	Txs           []*gTx            `json:"t"`
	Dids          [][]int64         `json:"d"` // automatic ids of committed insertions per collection
	hint          map[string]int64  // ids found in the store by token
	closing, shut bool              // the database is being, was closed
	closeNow      chan struct{}     // closed right before the operation during which Close is called
	busy          map[uint64]string // what runs on each goroutine
	r             *Run
	cu            *Cluster
	api           docAPI
	lgcy          bool
}

var docIDs = []int64{0, -1, -2, 1000001, 1000002, 1 << 40, math.MaxInt64, math.MinInt64, 65536, 65792, 1 << 32, 1<<32 + 65536, -256, -1 << 32}

// docNames are names of collections.
var docNames = [][]string{
	{"a", "b", "index2"},
	{"a", "ab", "a\x00"},
	{"index\x00", "collectio", "collections"},
	{"12345678", "1234567", "123456789"},
	{" ", "\xff\xff", "é"},
	{strings.Repeat("n", 300), "n", "N"},
	{"_d", "_cn2ida", "s_a"},
}

// resolve fixes the document ids of an operation.
func (h *docHist) resolve(o Op, rec *gTx) Op {
	if isIndexOp(o.K) {
		return o
	}
	dids := append([]int64(nil), h.Dids[o.A]...)
	for i, x := range rec.Ops {
		if x.K == "ins" && x.A == o.A && i < len(rec.Res) && !unencodable(x) {
			dids = append(dids, didOf(rec.Res[i]))
		}
	}
	pick := func(n int64) int64 {
		k := int64(len(docIDs))
		if l := dids; n%2 == 0 && len(l) > 0 {
			// one of the latest automatic ids
			return l[len(l)-1-int(n/2)%min(len(l), 6)]
		}
		return docIDs[((n/2)%min(k, h.r.C.P["managed"])+h.r.C.P["moff"])%k]
	}
	if o.K == "insm" {
		o.B |= 1 // ids of its own, not automatic ones
	}
	o.D = pick(o.B)
	var sub []Op
	for _, s := range o.Sub {
		sub = append(sub, Op{D: pick(s.B)})
	}
	o.Sub = sub
	return o
}

func didOf(res string) (did int64) {
	fmt.Sscanf(res, "did:%d", &did)
	return
}

// learn notes the automatic ids of a transaction that committed.
func (h *docHist) learn(rec *gTx) {
	for i, o := range rec.Ops {
		if o.K == "ins" && !unencodable(o) {
			h.Dids[o.A] = append(h.Dids[o.A], didOf(rec.Res[i]))
		}
	}
}

// scanStore finds the ids of the documents in the store itself: the only way to
// learn the id of a document whose insertion was cut off by a crash.
func (h *docHist) scanStore() {
	h.hint = map[string]int64{}
	t := h.cu.kv.NewTransaction(false)
	defer t.Discard()
	t.Scan(mondis.ProviderScanOption{}, func(k, v []byte, _ mondis.VMetaResp) bool {
		var m bson.M
		if len(k) < 8 || bson.Unmarshal(v, &m) != nil {
			return true
		}
		if d := docOf(m); d.T != "" {
			_, h.hint[d.T], _ = memcomparable.DecodeInt64(k[len(k)-8:])
		}
		return true
	})
}

var errAborted = errors.New("aborted")

func (h *docHist) noCollErr(err error) bool {
	return err == dml.ErrCollectionNotExists || err == dml.ErrDBNotExists
}

// one runs a transaction (or a single operation outside of one); it returns
// false if that has to be retried.
func (h *docHist) one(id int, o Op) bool {
	r := h.r
	shut := h.shut
	auto := o.K != "upd" && o.K != "view"
	rec := &gTx{C: id, Inv: r.tick(), St: "none", Upd: o.K == "upd" || auto}
	h.Txs = append(h.Txs, rec)
	defer func() { rec.Ret = r.tick() }()
	subs := o.Sub
	var t docTxn
	wrapped := !auto && o.B > 0
	if auto {
		subs = []Op{o.Sub[0]}
		rec.St = "maybe"
	} else if !wrapped {
		t = h.api.begin(rec.Upd)
		defer t.Discard()
	}
	fail := func(what string, inv int64, err error) (retry bool) {
		in := h.cu.kv.mine(inv)
		switch {
		case in != nil && err == nil:
			r.Fail("swallowed-error", "%s reported success although the storage failed a %s: %v", what, kvNames[in.kind], in.err)
		case in != nil && (strings.Contains(err.Error(), "cannot decode string") || strings.Contains(err.Error(), "no encoder found")):
			return false // also failed
		case in != nil && !strings.Contains(err.Error(), in.err.Error()):
			r.Fail("swallowed-error", "%s reported %q although the storage failed a %s with %q", what, err, kvNames[in.kind], in.err)
		case in != nil:
			rec.Errs = err.Error()
			return false
		case strings.Contains(err.Error(), "Transaction Conflict"):
			r.Cov("txn-conflicts")
			return true
		}
		r.Fail("unexpected-error:"+strings.Fields(what)[0], "%s failed although nothing is wrong: %v", what, err)
		return false
	}
	// finished tells that all operations were done, result what to return otherwise
	body := func() (finished, result bool) {
		for _, so := range subs {
			if so.K == "think" {
				time.Sleep(time.Duration(so.D))
				continue
			}
			so = h.resolve(so, rec)
			inv := r.tick()
			seesBefore := t == nil || h.api.sees(t, so.A)
			if auto {
				rec.Ops = []Op{so}
			}
			g := runtime.SimGoid()
			h.busy[g] = so.K
			if h.closeNow != nil && len(h.Txs) >= int(r.C.P["close"]) {
				close(h.closeNow)
				h.closeNow = nil
			}
			h.cu.kv.FailNth(so.F)
			res, err := h.api.exec(t, so)
			h.cu.kv.FailNth(0)
			delete(h.busy, g)
			if err != nil && (res == "undecodable" || res == "unencodable" || res == "refused") && h.cu.kv.mine(inv) == nil {
				if !strings.Contains(err.Error(), " already clos") {
					err = nil // the caller's own fault
				}
			}
			r.Tracef("c%d %s coll=%d id=%d %s -> %s %v", id, so.K, so.A, so.D, so.S, short(res), err)
			r.Cov("op:" + so.K)
			if h.closing && err != nil && strings.Contains(err.Error(), " already clos") && h.cu.kv.mine(inv) == nil {
				if auto {
					rec.St, rec.Ops = "none", nil
				}
				r.Cov("op-on-closed-db")
				return false, true
			}
			if shut && so.K != "gidx" && so.K != "bad" && res != "unencodable" {
				r.Fail("closed-db", "%s succeeded (%q, %v) although it was called after the document database was closed", so.K, res, err)
			}
			if strings.HasPrefix(res, "corrupt:") && err == nil {
				r.Fail("corrupt-document", "%s of collection %d returned the wrong document %s", so.K, so.A, res)
			}
			if !seesBefore && res != "unencodable" {
				if !h.noCollErr(err) && h.cu.kv.mine(inv) == nil {
					r.Fail("missing-collection", "%s on a collection that did not exist yet when its transaction began returned %q %v", so.K, res, err)
				}
				r.Cov("op-on-missing-collection")
				r.Cov("missing:" + so.K)
				return false, true
			}
			if err != nil || h.cu.kv.mine(inv) != nil {
				if h.noCollErr(err) && h.cu.kv.mine(inv) == nil && so.A >= r.C.P["colls"] {
					// not created yet
					r.Cov("op-on-missing-collection")
					rec.St, rec.Ops = "none", rec.Ops[:0]
					return false, true
				}
				if auto {
					rec.St, rec.Ops = "none", nil
				}
				retry := fail(so.K+" of a document", inv, err)
				if !auto && !retry && o.C == 2 && so.K != "delall" {
					// it had no effect, go on with the others
					r.Cov("txn-continued-after-failure")
					continue
				}
				return false, !retry
			}
			rec.Last = r.tick()
			if auto {
				rec.Res = []string{res}
				rec.St = "ok"
			} else {
				rec.Ops = append(rec.Ops, so)
				rec.Res = append(rec.Res, res)
			}
		}
		return true, true
	}
	if wrapped {
		done, result := false, false
		var inv int64
		err := func() (err error) {
			defer func() {
				if e := recover(); e != nil {
					if e != any(errPanic) {
						panic(e)
					}
					// the application recovers; nothing was committed
					r.Cov("txn-function-panics")
					err = errAborted
				}
			}()
			return h.api.wrap(o.B, rec.Upd, func(x docTxn) error {
				t = x
				done, result = body()
				if !done || o.C == 1 {
					return errAborted
				}
				if o.C == 3 {
					panic(errPanic)
				}
				rec.St, inv = "maybe", r.tick()
				return nil
			})
		}()
		r.Cov("txn-by-helper")
		if inv == 0 {
			if err != errAborted {
				r.Fail("lost-error", "a helper that runs a function in a transaction reported %v instead of the error of the function", err)
			}
			return result
		}
		if err == nil && h.cu.kv.mine(inv) == nil {
			rec.St = "ok"
			if rec.Upd {
				h.learn(rec)
			}
			return true
		}
		rec.St = "none"
		return !fail("commit", inv, err)
	}
	if done, result := body(); !done {
		return result
	}
	if auto {
		h.learn(rec)
	}
	if !auto && o.C == 1 {
		t.Discard() // and once more
	}
	if auto || !rec.Upd || o.C == 1 {
		return true
	}
	rec.St = "maybe"
	inv := r.tick()
	err := t.Commit()
	if err == nil && h.cu.kv.mine(inv) == nil {
		rec.St = "ok"
		h.learn(rec)
		return true
	}
	rec.St = "none"
	return !fail("commit", inv, err)
}

// check decides whether the whole history is explained by the model.
func (h *docHist) check(ncoll int) {
	var ops []GOp
	for n, t := range h.Txs {
		t, n := t, n
		if t.Last == 0 && t.St != "maybe" || len(t.Ops) == 0 {
			continue
		}
		scans, dels := false, false
		for _, o := range t.Ops {
			scans = scans || docScan(o.K)
			dels = dels || o.K == "delall"
		}
		maybe := t.St == "maybe"
		snap := func(s GState) (GState, bool) {
			m := s.(*docModel).clone()
			var saw [][]int64
			for i, o := range t.Ops {
				if i >= len(t.Res) {
					// a single operation whose result is unknown
					if o.K == "delall" {
						saw = append(saw, append([]int64{}, m.ids(int(o.A))...))
					}
					break
				}
				ok, d := m.apply(o, t.Res[i], nil)
				if !ok {
					return s, false
				}
				if o.K == "delall" {
					saw = append(saw, d)
				}
			}
			if t.St == "none" || !dels {
				return s, true
			}
			m = s.(*docModel).clone()
			m.pend[n] = saw
			return m, true
		}
		commit := func(s GState) (GState, bool) {
			m := s.(*docModel).clone()
			saw := m.pend[n]
			if dels && saw == nil {
				return s, false
			}
			delete(m.pend, n)
			for i, o := range t.Ops {
				if i >= len(t.Res) {
					// unknown result: one that fits
					if o.K == "ins" {
						return s, false // its id is unknown; handled by the caller
					}
					for _, res := range []string{"ok", "true", "false", "exists", "dup"} {
						c := m.clone()
						if ok, _ := c.apply(o, res, nil); ok {
							m = c
							break
						}
					}
					if o.K == "delall" {
						for _, d := range saw[0] {
							delete(m.docs[o.A], d)
						}
					}
					break
				}
				var d []int64
				if o.K == "delall" {
					d, saw = saw[0], saw[1:]
				}
				ok, _ := m.apply(o, t.Res[i], d)
				if !ok && !docScan(o.K) {
					return s, false
				}
			}
			m.key = ""
			return m, true
		}
		last := t.Last
		if last == 0 {
			last = t.Ret
		}
		if t.St == "none" || scans {
			x := GOp{Inv: t.Inv, Ret: last, Opt: maybe, Ref: t, Apply: snap}
			if maybe {
				x.Ret = t.Ret
			}
			ops = append(ops, x)
		}
		if t.St != "none" {
			if maybe && len(t.Res) < len(t.Ops) && t.Ops[len(t.Ops)-1].K == "ins" {
				// an insertion cut off by the crash: any unknown id may carry it
				tok := t.Ops[0].S
				did, found := h.hint[tok]
				if found {
					ops = append(ops, GOp{Inv: t.Inv, Ret: t.Ret, Opt: true, Ref: t, Apply: func(s GState) (GState, bool) {
						m := s.(*docModel).clone()
						ok, _ := m.apply(t.Ops[0], fmt.Sprintf("did:%d", did), nil)
						return m, ok
					}})
				}
				continue
			}
			ops = append(ops, GOp{Inv: t.Inv, Ret: t.Ret, Opt: maybe, Ref: t, Apply: commit})
		}
	}
	d := ""
	for _, x := range h.Txs {
		d += x.String() + "\n"
	}
	// an automatic id that was committed once is never used again
	seen := map[string]*gTx{}
	for _, t := range h.Txs {
		for i, o := range t.Ops {
			if o.K == "ins" && i < len(t.Res) && t.St == "ok" && !unencodable(o) {
				k := fmt.Sprint(o.A, " ", t.Res[i])
				if seen[k] != nil {
					h.r.FailD("id-reused", d, "the automatic document id %s of collection %d was used twice", t.Res[i], o.A)
				}
				seen[k] = t
			}
		}
	}
	ok, done, stuck := LinearizableG(ops, newDocModel(ncoll), 100_000)
	h.r.CovN("history-ops", int64(len(ops)))
	if !done {
		h.r.Cov("linearizability-undecided")
		return
	}
	if !ok {
		h.r.FailD("not-serializable", d, "no serial order of the document transactions explains their results; the search never gets past the %s", ops[stuck].Ref.(*gTx))
	}
}

func genDocs(legacy, crash bool) func(g *Rng, tier string, c *Case) {
	return func(g *Rng, tier string, c *Case) {
		nc := 1 + g.N(4)
		n := 3 + g.N(9)
		if tier == "thorough" && g.P(1, 3) {
			n += g.N(15)
		}
		colls := 1 + g.N(3)
		c.P["colls"] = int64(colls)
		if g.P(1, 200) {
			// a large collection
			c.P["fill"] = []int64{60, 300, 1001, 1100}[g.N(4)]
			nc, n = 1+g.N(2), 3+g.N(3)
		}
		c.P["managed"] = int64(1 + g.N(8))
		c.P["moff"] = g.N64(int64(len(docIDs)))
		if g.P(1, 2) {
			c.P["names"] = g.N64(int64(len(docNames)))
		}
		if g.P(1, 3) {
			// identifiers that need more than one byte
			c.P["bump"] = []int64{200, 250, 253, 254, 255, 65530, 1<<32 - 3}[g.N(7)]
		}
		if g.P(1, 8) {
			// near the end of a lease of document ids
			c.P["burn"] = 980 + g.N64(20)
		}
		late := 0
		if !legacy && g.P(1, 3) {
			late = 1 + g.N(2)
		}
		c.P["late"] = int64(late)
		kinds := []string{"ins", "insm", "upd", "ups", "del", "get", "getm", "count", "delall", "all", "range", "think"}
		w := []int{5, 4, 4, 4, 3, 5, 2, 2, 1, 2, 2, 1}
		if !legacy {
			kinds, w = append(kinds, "lidx"), append(w, g.N(2))
		}
		if legacy {
			w[9], w[10] = 0, 0
			kinds = append(kinds, "cidx", "didx", "gidx")
			x := []int{0, 1, 2, 4, 15}[g.N(5)]
			w = append(w, x, x, x)
			if g.P(1, 8) {
				c.P["bad"] = 1
			}
			if g.P(1, 4) {
				c.P["close"] = 1 + g.N64(int64(nc*n*3))
				c.P["closers"] = int64(1 + g.Pick(3, 1, 1))
				c.P["closenow"] = int64(g.N(2))
			}
			c.P["reopen"] = int64(g.N(2))
			c.P["armopen"] = int64(g.Pick(2, 1))
		}
		names := []string{"i", "j", "k"}
		defs := int64(1000)
		if g.P(1, 3) {
			swarm(g, w)
			w[5]++ // always something to read
		} else if legacy && g.P(1, 5) {
			// nothing but a few indexes
			names, defs = names[:1+g.N(3)], 1+g.N64(3)
			for i := range w[:len(w)-3] {
				w[i] = 0
			}
			w[0], w[11], w[12], w[13], w[14] = 1, 1, 5, 4, 5
			c.P["idx"] = 1
		}
		tok := 0
		gen := func(ro bool) Op {
			for {
				o := Op{K: kinds[g.Pick(w...)], A: int64(g.N(colls)), B: int64(g.N(24))}
				if late > 0 && g.P(1, 3) {
					o.A = int64(colls + g.N(late))
				}
				switch o.K {
				case "cidx", "didx":
					o.S = names[g.N(len(names))]
					o.C = int64(g.N(2))
					o.B = g.N64(3 * 10 * 10)
					if g.P(1, 3) {
						o.B = 2 + 3*g.N64(1000)
					}
					if defs < 1000 && g.P(4, 5) {
						o.B = g.N64(defs)*7 + 1
					}
					if c.P["bad"] == 1 && g.P(1, 3) {
						o = Op{K: "bad", A: o.A, B: g.N64(6)}
					}
				case "get", "all":
					if !legacy {
						o.C = int64(g.Pick(5, 3, 1, 1, 1))
					}
				case "ins", "insm", "upd", "ups":
					if !legacy {
						o.C = int64(g.Pick(3, 1, 1, 1))
					}
					tok++
					o.S = fmt.Sprintf("t%d", tok)
					if g.P(1, 40) {
						o.C = 5
					}
				case "getm":
					if !legacy {
						o.C = int64(g.Pick(5, 3, 1, 1, 1))
					}
					for k := g.N(4); k >= 0; k-- {
						o.Sub = append(o.Sub, Op{B: int64(g.N(24))})
					}
				case "think":
					o.D = g.N64(2_000_000)
					if g.P(1, 4) {
						o.D = g.N64(600_000_000)
					}
				}
				if ro && (o.S != "" || isIndexOp(o.K) || o.K == "del" || o.K == "delall") {
					continue
				}
				return o
			}
		}
		for i := 0; i < nc; i++ {
			var ops []Op
			for j := 0; j < n; j++ {
				o := Op{K: []string{"upd", "view", "auto"}[g.Pick(4, 1, 4)], C: int64(g.Pick(6, 1, 1))}
				if o.K != "auto" && g.P(1, 6) {
					o.B = 1 + g.N64(2)
					if g.P(1, 6) {
						o.C = 3
					}
				}
				m := 1 + g.N(5)
				if o.K == "auto" {
					m = 1
				}
				if c.P["idx"] != 0 && g.P(5, 6) {
					o.K, m = "auto", 1
				}
				for k := 0; k < m; k++ {
					so := gen(o.K == "view")
					for o.K == "auto" && so.K == "think" {
						so = gen(false)
					}
					for k := 0; o.K != "auto" && isIndexOp(so.K); k++ {
						if so = gen(o.K == "view"); k > 30 {
							so = Op{K: "count"}
						}
					}
					o.Sub = append(o.Sub, so)
				}
				ops = append(ops, o)
			}
			c.Clients = append(c.Clients, ops)
		}
		if late > 0 {
			c.Clients = append(c.Clients, []Op{{K: "late", D: g.N64(3_000_000)}})
			for k := g.N(3); k > 0; k-- {
				// a transaction that is older than the collection it uses
				var ops []Op
				for j := 1 + g.N(3); j > 0; j-- {
					so := Op{K: "count"}
					for so = gen(false); so.K == "think"; so = gen(false) {
					}
					so.A = int64(colls + g.N(late))
					ops = append(ops, Op{K: "upd", B: g.N64(3), Sub: []Op{{K: "count"}, {K: "think", D: g.N64(1 << (20 + g.N64(13)))}, so}})
				}
				c.Clients = append(c.Clients, ops)
			}
		}
		if g.P(1, 5) {
			genFailNth(g, c.Clients)
		}
		if g.P(1, 2) {
			genKVFaults(g, c, 1+g.N(4), int64(nc*n*2))
			if c.P["idx"] != 0 {
				c.Faults = nil
				for k := 1 + g.N(4); k > 0; k-- {
					c.Faults = append(c.Faults, Fault{K: "kv-err", At: 1 + g.N64(int64(nc*n)), Arg: int64([]int{kvSet, kvGet, kvDel, kvExists, kvCommit, kvCommit, kvCommit}[g.N(7)]), Dur: 1})
				}
			}
			if g.P(1, 4) {
				c.Faults = append(c.Faults, Fault{K: "kv-big", At: 1 + g.N64(int64(nc*n)), Arg: kvSet, Dur: 1})
			}
		}
		if crash {
			c.P["crash"] = 1 + g.N64(int64(nc*n*5))
		}
	}
}

// settle waits until no transaction is open any more.
func (cu *Cluster) settle() {
	for i := 0; cu.kv.OpenTx != 0; i++ {
		if i > 200 {
			cu.r.Fail("txn-leak", "%d transactions were left open", cu.kv.OpenTx)
		}
		time.Sleep(7 * time.Millisecond)
	}
}

func runDocs(legacy bool) func(r *Run) {
	return func(r *Run) {
		colls, late := int(r.C.P["colls"]), int(r.C.P["late"])
		h := &docHist{}
		r.LoadX(h)
		h.r, h.lgcy, h.busy = r, legacy, map[uint64]string{}
		for len(h.Dids) < colls+late {
			h.Dids = append(h.Dids, nil)
		}
		h.cu = r.OpenLocal()
		var da *domainAPI
		var la *legacyAPI
		nm := docNames[r.C.P["names"]]
		if n := r.C.P["bump"]; n > 0 && r.Stage == 0 {
			h.bump(n)
		}
		if legacy {
			if r.C.P["armopen"] == 1 {
				h.cu.kv.Arm()
			}
			la = &legacyAPI{kv: h.cu.kv, db: document.NewDB(h.cu.kv), names: nm, iids: map[int64]string{}}
			h.api = la
		} else {
			da = &domainAPI{do: domain.NewDomain(h.cu.kv)}
			nm = append([]string(nil), nm...)
			for i := range nm {
				nm[i] = strings.ToValidUTF8(nm[i], "\ufffd")
			}
			for i := 0; i < colls; i++ {
				db := "d"
				if i == 2 {
					db = "e"
				}
				da.names = append(da.names, [2]string{db, nm[i]})
			}
			for i := 0; i < late; i++ {
				da.names = append(da.names, [2]string{"late", nm[i]})
			}
			da.colls, da.dbs = make([]*dml.Collection, len(da.names)), make([]*dml.DB, len(da.names))
			h.api = da
			if err := da.do.Init(); err != nil {
				r.Fail("unexpected-error:domain", "Domain.Init failed: %v", err)
			}
			if r.Stage == 0 {
				r.Call("create-schema", 5*time.Minute, func() {
					h.create(da, "d", nm[:min(colls, 2)], 0)
					if colls > 2 {
						h.create(da, "e", nm[2:], 2)
					}
				})
			}
			for i := 0; i < colls; i++ {
				if _, _, err := da.coll(int64(i)); err != nil {
					r.Fail("collection-missing", "collection %v: %v", da.names[i], err)
				}
			}
		}
		if n := r.C.P["burn"]; n > 0 && r.Stage == 0 {
			h.burn(n, colls)
		}
		if n := r.C.P["fill"]; n > 0 && r.Stage == 0 {
			o := Op{K: "upd"}
			for ; n > 0; n-- {
				o.Sub = append(o.Sub, Op{K: "ins", S: fmt.Sprint("f", n)})
			}
			h.one(999, o)
		}
		if r.Stage == 0 {
			if at := r.C.P["crash"]; at > 0 {
				n := int64(0)
				h.cu.kv.onOp = func(int64) {
					if n++; n == at {
						for _, t := range h.Txs {
							if t.Ret == 0 {
								t.Ret = r.tick()
							}
						}
						r.Crash()
					}
				}
			}
			if !h.cu.kv.armed {
				h.cu.kv.Arm()
			}
			grp := NewGroup()
			if at := r.C.P["close"]; at > 0 {
				var now chan struct{}
				if r.C.P["closenow"] != 0 {
					now = make(chan struct{})
					h.closeNow = now
				}
				for i := int64(0); i < r.C.P["closers"]; i++ {
					grp.Go(func() {
						if now != nil {
							select {
							case <-now:
							case <-time.After(10 * time.Second):
							}
						}
						for k := 0; len(h.Txs) < int(at) && k < 1000; k++ {
							time.Sleep(time.Microsecond)
						}
						h.closing = true
						g := runtime.SimGoid()
						h.busy[g] = "Close"
						la.db.Close()
						delete(h.busy, g)
						h.shut = true
						r.Cov("closed-db-under-load")
					})
				}
				h.watchClosed()
			}
			for i := range r.C.Clients {
				i := i
				grp.Go(func() {
					for _, o := range r.C.Clients[i] {
						if o.K == "late" {
							time.Sleep(time.Duration(o.D))
							h.createLate(da, nm[:late], colls)
							continue
						}
						for k := 0; !h.one(i, o) && k < 20; k++ {
						}
					}
				})
			}
			if !grp.Wait(20 * time.Minute) {
				r.FailHang("hang:document", "a document operation did not return within 20 minutes of simulated time")
			}
			if r.C.P["crash"] > 0 {
				r.Crash()
			}
		}
		h.cu.kv.Disarm()
		if legacy && (h.shut || r.C.P["reopen"] == 1) {
			r.Call("close-db", time.Minute, func() { la.db.Close() })
			h.closing, h.shut = false, false
			la.db = document.NewDB(h.cu.kv)
			r.Cov("reopened-db")
		}
		h.scanStore()
		h.final(colls, late)
		h.check(colls + late)
		h.cu.settle()
		if legacy {
			r.Call("close-db", time.Minute, func() { la.db.Close() })
			if _, err := la.exec(nil, Op{K: "count"}); err == nil {
				r.Fail("closed-db", "a closed document database still serves operations")
			}
			r.Call("close", time.Minute, func() { h.cu.closeStore() })
		}
	}
}

// watchClosed makes sure that a closed database leaves the storage alone.
func (h *docHist) watchClosed() {
	was := h.cu.kv.onOp
	h.cu.kv.onOp = func(kind int64) {
		if was != nil {
			was(kind)
		}
		if k, ok := h.busy[runtime.SimGoid()]; ok && h.shut {
			h.r.Fail("closed-db", "%s makes a %s on the storage although Close has returned", k, kvNames[kind])
		}
	}
}

// bump makes the identifiers of collections start higher.
func (h *docHist) bump(n int64) {
	var err error
	if h.lgcy {
		for _, kw := range []string{"collection", "index"} {
			if _, e := document.NewSequence(h.cu.kv, []byte(kw), uint64(n)); e != nil {
				err = e
			}
		}
	} else {
		t := h.cu.kv.NewTransaction(true)
		defer t.Discard()
		_, _, err = meta.NewMeta(t).GenGlobalIDs(int(n))
		if err == nil {
			err = t.Commit()
		}
	}
	if err != nil {
		h.r.Fail("unexpected-error:sequence", "taking %d identifiers failed: %v", n, err)
	}
}

// burn uses up automatic document ids.
func (h *docHist) burn(n int64, colls int) {
	defer func(a bool) { h.cu.kv.armed = a }(h.cu.kv.armed)
	h.cu.kv.armed = false
	h.r.Call("burn", time.Minute, func() {
		for i := 0; i < colls; i++ {
			var err error
			if h.lgcy {
				var c *document.Collection
				a := h.api.(*legacyAPI)
				if c, err = a.db.Collection(a.names[i]); err == nil {
					t := h.cu.kv.NewTransaction(true)
					for j := int64(0); j < n && err == nil; j++ {
						_, err = c.InsertOne(bson.M{"x": 1}, t)
					}
					t.Discard()
				}
			} else {
				a := h.api.(*domainAPI)
				t := a.begin(false).(*txn.Txn)
				_, err = dml.GetSequence(t.StartMetaCache().CollectionInfo(a.names[i][0], a.names[i][1]).ID).NextN(n)
				t.Discard()
			}
			if err != nil {
				h.r.Fail("unexpected-error:sequence", "taking %d document ids failed: %v", n, err)
			}
		}
	})
}

// final reads everything in one transaction.
func (h *docHist) final(colls, late int) {
	for _, upd := range []string{"view", "upd"} {
		o := Op{K: upd}
		for c := 0; c < colls+late; c++ {
			if c >= colls {
				if _, _, err := h.api.(*domainAPI).coll(int64(c)); err != nil {
					continue
				}
			}
			ks := []string{"count"}
			if !h.lgcy {
				ks = []string{"count", "all", "range"}
			} else if upd == "upd" {
				h.one(999, Op{K: "auto", Sub: []Op{{K: "gidx", A: int64(c)}}})
				h.one(999, Op{K: "auto", Sub: []Op{{K: "ins", A: int64(c), S: fmt.Sprint("z", c)}}})
				h.one(999, Op{K: "auto", Sub: []Op{{K: "insm", A: int64(c), B: 1, S: fmt.Sprint("y", c)}}})
			}
			for _, k := range ks {
				o.Sub = append(o.Sub, Op{K: k, A: int64(c)})
			}
			for i := range docIDs {
				o.Sub = append(o.Sub, Op{K: "get", A: int64(c), B: int64(2*i + 1)})
			}
			for i := 0; i < min(6, len(h.Dids[c])); i++ {
				o.Sub = append(o.Sub, Op{K: "get", A: int64(c), B: int64(2 * i)})
			}
		}
		h.one(999, o)
	}
}

// docSchema is a database whose collections are numbered from first on.
func docSchema(db string, colls []string, first int) ddl.CreateSchemaInput {
	in := ddl.CreateSchemaInput{DB: db, Collections: colls, Indices: map[string][]ddl.IndexInfo{}}
	for i, n := range colls {
		for k := range docIndices(int64(first + i)) {
			in.Indices[n] = append(in.Indices[n], ddl.IndexInfo{Name: fmt.Sprint("i", k), Columns: []string{fmt.Sprint("x", first+i)}})
		}
	}
	return in
}

// create creates a database, which must succeed.
func (h *docHist) create(a *domainAPI, db string, colls []string, first int) {
	for k := 0; ; k++ {
		_, err := a.do.DDL().CreateSchema(context.Background(), docSchema(db, colls, first))
		if err == nil {
			return
		}
		if k > 20 || !strings.Contains(err.Error(), "Transaction Conflict") {
			h.r.Fail("unexpected-error:create-schema", "creating database %s failed: %v", db, err)
		}
	}
}

// createLate creates a database while others work; storage failures may hit it.
func (h *docHist) createLate(a *domainAPI, colls []string, first int) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	for k := 0; k < 10; k++ {
		_, err := a.do.DDL().CreateSchema(ctx, docSchema("late", colls, first))
		h.r.Tracef("late schema: %v", err)
		if err == nil || ctx.Err() != nil {
			return
		}
		time.Sleep(time.Second)
	}
}

func init() {
	register("P12", "documents", 4, &Scenario{Gen: genDocs(false, false), Run: runDocs(false)})
	register("P12", "documents-crash", 2, &Scenario{Gen: genDocs(false, true), Run: runDocs(false)})
	register("P17", "legacy", 4, &Scenario{Gen: genDocs(true, false), Run: runDocs(true)})
	register("P17", "legacy-crash", 2, &Scenario{Gen: genDocs(true, true), Run: runDocs(true)})
}
