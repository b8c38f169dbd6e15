package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/meta/sequence"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/util/osc"
)

// ---- reference model of the catalog and the job queues ----

// catModel is the content of the catalog: kind -> id -> value.
type catModel struct {
	num   map[string]int64 // gid, ver, boot
	set   map[string]bool  // which of them exist
	diff  map[int64]string
	db    map[int64]string
	coll  map[int64]map[int64]string
	queue [2][]string
	hist  map[int64]string
	reorg map[int64][2]string
	seq   map[[2]int64]int64 // leases of document ids
	key   string
}

func newCatModel() *catModel {
	return &catModel{num: map[string]int64{}, set: map[string]bool{}, diff: map[int64]string{}, db: map[int64]string{},
		coll: map[int64]map[int64]string{}, hist: map[int64]string{}, reorg: map[int64][2]string{}, seq: map[[2]int64]int64{}}
}

func cpMap[K comparable, V any](m map[K]V) map[K]V {
	c := make(map[K]V, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (m *catModel) Clone() GModel {
	c := newCatModel()
	c.num, c.set, c.diff, c.db, c.hist, c.reorg, c.seq = cpMap(m.num), cpMap(m.set), cpMap(m.diff), cpMap(m.db), cpMap(m.hist), cpMap(m.reorg), cpMap(m.seq)
	for k, v := range m.coll {
		c.coll[k] = cpMap(v)
	}
	for i := range m.queue {
		c.queue[i] = append([]string(nil), m.queue[i]...)
	}
	return c
}

func (m *catModel) Key() string {
	if m.key == "" {
		// json prints maps sorted by key
		m.key = toJSON([]interface{}{m.num, m.set, m.diff, m.db, m.coll, m.queue, m.hist, m.reorg, fmt.Sprint(m.seq)})
	}
	return m.key
}

const (
	catNoDB   = "<no db>"
	catDB     = "<db exists>"
	catNoColl = "<no collection>"
	catColl   = "<collection exists>"
	catNoJob  = "<no job>"
	catNil    = "<nil>"
)

func sortedVals(m map[int64]string) string {
	var l []string
	for _, v := range m {
		l = append(l, v)
	}
	sort.Strings(l)
	return qlist(l)
}

func (m *catModel) inc(what string, n int64) int64 {
	m.num[what] += n
	m.set[what] = true
	return m.num[what]
}

func (m *catModel) Apply(o Op, res string) bool {
	m.key = ""
	str := func(n int64) string { return strconv.FormatInt(n, 10) }
	q := &m.queue[int(o.C)%2]
	at := func() int {
		i := o.B
		if i < 0 {
			i += int64(len(*q))
		}
		if i < 0 || i >= int64(len(*q)) {
			return -1
		}
		return int(i)
	}
	switch o.K {
	case "gid":
		if !m.set["gid"] {
			return res == stNF || res == "0"
		}
		return res == str(m.num["gid"])
	case "gengid":
		return res == str(m.inc("gid", 1))
	case "gengids":
		s := m.num["gid"]
		e := m.inc("gid", o.B)
		return res == str(s)+".."+str(e)
	case "ver":
		return res == str(m.num["ver"])
	case "genver":
		return res == str(m.inc("ver", 1))
	case "boot":
		return res == str(m.num["boot"])
	case "setboot":
		m.num["boot"] = o.B
		return res == "ok"
	case "diff":
		v, ok := m.diff[o.A]
		if !ok {
			v = catNil
		}
		return res == v
	case "setdiff":
		m.diff[o.A] = wantDiff(o)
		return res == "ok"
	case "mkdb":
		if _, ok := m.db[o.A]; ok {
			return res == catDB
		}
		m.db[o.A] = wantDBInfo(o)
		return res == "ok"
	case "updb":
		if _, ok := m.db[o.A]; !ok {
			return res == catNoDB
		}
		m.db[o.A] = wantDBInfo(o)
		return res == "ok"
	case "getdb":
		v, ok := m.db[o.A]
		if !ok {
			v = catNoDB
		}
		return res == v
	case "dropdb":
		if _, ok := m.db[o.A]; !ok {
			return res == catNoDB
		}
		delete(m.db, o.A)
		delete(m.coll, o.A)
		for k := range m.seq {
			if k[0] == o.A {
				delete(m.seq, k)
			}
		}
		return res == "ok"
	case "lsdb":
		return res == sortedVals(m.db)
	case "mkcoll", "upcoll", "getcoll", "dropcoll", "lscoll":
		if _, ok := m.db[o.A]; !ok {
			return res == catNoDB
		}
		cs := m.coll[o.A]
		if cs == nil {
			cs = map[int64]string{}
		}
		v, ok := cs[o.B]
		switch o.K {
		case "lscoll":
			return res == sortedVals(cs)
		case "mkcoll":
			if ok {
				return res == catColl
			}
			cs[o.B] = wantColl(o)
		case "upcoll", "dropcoll":
			if !ok {
				return res == catNoColl
			}
			cs[o.B] = wantColl(o)
			if o.K == "dropcoll" {
				delete(cs, o.B)
				if o.D%2 == 0 {
					delete(m.seq, [2]int64{o.A, o.B})
				}
			}
		case "getcoll":
			if !ok {
				v = catNoColl
			}
			return res == v
		}
		m.coll[o.A] = cs
		if len(cs) == 0 {
			delete(m.coll, o.A)
		}
		return res == "ok"
	case "seqnext":
		k := [2]int64{o.A, o.B}
		n := m.seq[k]
		m.seq[k] = n + seqBW(o)
		return res == str(n+1)
	case "enq":
		*q = append(*q, wantJob(o))
		return res == "ok"
	case "enqb":
		for _, x := range catBulk(o) {
			*q = append(*q, wantJob(x))
		}
		return res == "ok"
	case "haddb":
		for _, x := range catBulk(o) {
			m.hist[x.A] = wantJob(x)
		}
		return res == "ok"
	case "deq":
		if len(*q) == 0 {
			return res == catNil
		}
		v := (*q)[0]
		*q = (*q)[1:]
		return res == v
	case "qlen":
		return res == strconv.Itoa(len(*q))
	case "qall":
		// the queue in either direction
		l := append([]string(nil), *q...)
		if res == qlist(l) {
			return true
		}
		for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		return res == qlist(l)
	case "qget":
		if i := at(); i >= 0 {
			return res == (*q)[i]
		}
		return res == catNil
	case "qset":
		i := at()
		if i < 0 {
			return res == catNoJob
		}
		(*q)[i] = wantJob(o)
		return res == "ok"
	case "hadd":
		m.hist[o.A] = wantJob(o)
		return res == "ok"
	case "hget":
		v, ok := m.hist[o.A]
		if !ok {
			v = catNil
		}
		return res == v
	case "hall":
		return res == sortedVals(m.hist)
	case "hlast":
		var ids []int64
		for id := range m.hist {
			ids = append(ids, id)
		}
		sort.Slice(ids, func(i, j int) bool { return ids[i] > ids[j] })
		var l []string
		for i, id := range ids {
			if int64(i) < o.B {
				l = append(l, m.hist[id])
			}
		}
		return res == qlist(l)
	case "rstart":
		x := m.reorg[o.A]
		x[0] = str(o.B)
		m.reorg[o.A] = x
		return res == "ok"
	case "rset":
		m.reorg[o.A] = [2]string{str(o.B), str(o.D)}
		return res == "ok"
	case "rdel":
		delete(m.reorg, o.A)
		return res == "ok"
	case "rget":
		x := m.reorg[o.A]
		if x[0] == "" || x[1] == "" {
			return res == stNF
		}
		return res == x[0]+".."+x[1]
	}
	panic("simbin: unknown catalog operation " + o.K)
}

// isCatScan tells the operations that read by iterating.
func isCatScan(k string) bool { return k == "lsdb" || k == "lscoll" || k == "hall" || k == "hlast" }

// txKV is a store all of whose transactions are tx.
type txKV struct {
	mondis.KVDB
	tx mondis.ProviderTxn
}

type txPart struct{ mondis.ProviderTxn }

func (k txKV) NewTransaction(bool) mondis.ProviderTxn { return txPart{k.tx} }
func (txPart) Commit() error                          { return nil }
func (txPart) Discard()                               {}

// ---- values ----

// seqBW is the number of document ids a sequence leases.
func seqBW(o Op) int64 {
	if o.D%5 == 0 {
		return 1000
	}
	return 1 + o.D%5
}

// catBulk is a series of jobs.
func catBulk(o Op) (l []Op) {
	for i := int64(0); i < 2+o.D*o.B; i++ {
		x := o
		x.A = o.A + i*(1+o.C*83)
		x.D += i
		l = append(l, x)
	}
	return
}

func catDBInfo(o Op) *model.DBInfo {
	d := &model.DBInfo{ID: o.A, Name: o.S, State: osc.SchemaState(o.D % 5)}
	if o.D%2 == 1 {
		d.Collections = map[string]*model.CollectionInfo{}
		for i := int64(0); i < o.D%4; i++ {
			c := catColInfo(Op{B: i, S: o.S + strconv.FormatInt(i, 10), D: o.D + i})
			d.Collections[c.Name] = c
			d.CollectionOrder = append(d.CollectionOrder, c.Name)
		}
	}
	return d
}

func catColInfo(o Op) *model.CollectionInfo {
	c := &model.CollectionInfo{ID: o.B, Name: o.S, State: osc.SchemaState(o.D % 5)}
	if o.D%3 == 1 {
		c.Indices = map[string]*model.IndexInfo{}
		for i := int64(0); i < o.D%4; i++ {
			x := &model.IndexInfo{ID: o.D + i, Name: "x" + strconv.FormatInt(i, 10), Columns: []string{o.S, "é\x00<&>"}, Unique: i%2 == 0, State: osc.SchemaState(i)}
			if i == 2 {
				x.JobRedundant = &model.IndexInfoRedundant{Collection: o.S, DB: "d", CID: o.B}
			}
			c.Indices[x.Name] = x
			c.IndexOrder = append(c.IndexOrder, x.Name)
		}
	}
	return c
}

func catJob(o Op) *model.Job {
	j := &model.Job{ID: o.A, Type: model.ActionType(o.D % 9), State: model.JobState(o.D % 8), ErrorCount: o.D % 3,
		SchemaState: osc.SchemaState(o.D % 5), StartTS: uint64(o.D) << 40, DependencyID: o.D % 7, Arg: map[string]string{"arg": o.S}}
	if o.D%3 == 0 {
		j.Error = errors.New("failed: " + o.S)
	}
	return j
}

func catDiff(o Op) *model.SchemaDiff {
	d := &model.SchemaDiff{Version: o.A, Type: model.ActionType(o.D % 9), Arg: map[string]string{"arg": o.S}}
	n, base := o.D%3, o.D
	if o.D > 50 {
		n, base = o.D*3-150, o.D<<34
	}
	for i := int64(0); i < n; i++ {
		d.CollectionIDs = append(d.CollectionIDs, base+i)
	}
	return d
}

func wantDBInfo(o Op) string { return toJSON(catDBInfo(o)) }
func wantColl(o Op) string   { return toJSON(catColInfo(o)) }
func wantJob(o Op) string {
	j := catJob(o)
	raw, _ := json.Marshal(j.Arg)
	return jobString(j, raw)
}
func wantDiff(o Op) string {
	d := catDiff(o)
	raw, _ := json.Marshal(d.Arg)
	return diffString(d, raw)
}
func jobString(j *model.Job, raw []byte) string {
	if j == nil {
		return catNil
	}
	return fmt.Sprint("job ", j.ID, " ", j.Type, " ", j.State, " ", j.Error, " ", j.ErrorCount, " ", j.SchemaState, " ", j.StartTS, " ", j.DependencyID, " ", string(raw))
}
func diffString(d *model.SchemaDiff, raw []byte) string {
	if d == nil {
		return catNil
	}
	return fmt.Sprint("diff ", d.Version, " ", d.Type, " ", d.CollectionIDs, " ", string(raw))
}
func gotJob(j *model.Job) string {
	if j == nil {
		return catNil
	}
	return jobString(j, j.RawArg)
}

// ---- running operations ----

func catExec(t mondis.ProviderTxn, o Op) (res string, err error) {
	keys := []meta.JobListKeyType{meta.DefaultJobListKey, meta.AddIndexJobListKey}
	lk := keys[int(o.C)%2]
	m := meta.NewMeta(t)
	var ks []meta.JobListKeyType
	if o.C%2 == 1 {
		// name the other queue in one of two ways
		if o.C > 1 {
			m = meta.NewMeta(t, lk)
		} else {
			ks = append(ks, lk)
		}
	}
	var n, e int64
	num := func() { res = strconv.FormatInt(n, 10) }
	jobs := func(l []*model.Job, sorted bool) {
		var s []string
		for _, j := range l {
			s = append(s, gotJob(j))
		}
		if sorted {
			sort.Strings(s)
		}
		res = qlist(s)
	}
	var l []*model.Job
	var j *model.Job
	switch o.K {
	case "gid":
		n, err = m.GetGlobalID()
		num()
	case "gengid":
		n, err = m.GenGlobalID()
		num()
	case "gengids":
		n, e, err = m.GenGlobalIDs(int(o.B))
		res = fmt.Sprintf("%d..%d", n, e)
	case "ver":
		n, err = m.GetSchemaVersion()
		num()
	case "genver":
		n, err = m.GenSchemaVersion()
		num()
	case "boot":
		n, err = m.GetBootstrapVersion()
		num()
	case "setboot":
		err = m.FinishBootstrap(o.B)
	case "diff":
		var d *model.SchemaDiff
		if d, err = m.GetSchemaDiff(o.A); d != nil {
			res = diffString(d, d.RawArg)
		} else {
			res = catNil
		}
	case "setdiff":
		err = m.SetSchemaDiff(catDiff(o))
	case "mkdb":
		err = m.CreateDatabase(catDBInfo(o))
	case "updb":
		err = m.UpdateDatabase(catDBInfo(o))
	case "getdb":
		var d *model.DBInfo
		d, err = m.GetDatabase(o.A)
		res = toJSON(d)
	case "dropdb":
		err = m.DropDatabase(o.A)
	case "lsdb":
		var l []*model.DBInfo
		var s []string
		l, err = m.ListDatabases()
		for _, d := range l {
			s = append(s, toJSON(d))
		}
		sort.Strings(s)
		res = qlist(s)
	case "mkcoll":
		err = m.CreateCollection(o.A, catColInfo(o))
	case "upcoll":
		err = m.UpdateCollection(o.A, catColInfo(o))
	case "getcoll":
		var c *model.CollectionInfo
		c, err = m.GetCollection(o.A, o.B)
		res = toJSON(c)
	case "dropcoll":
		err = m.DropCollection(o.A, o.B, o.D%2 == 0)
	case "lscoll":
		var l []*model.CollectionInfo
		var s []string
		l, err = m.ListCollections(o.A)
		for _, c := range l {
			s = append(s, toJSON(c))
		}
		sort.Strings(s)
		res = qlist(s)
	case "seqnext":
		var s *sequence.Hash
		bw := seqBW(o)
		if bw == 1000 {
			bw = 0 // the default
		}
		if s, err = meta.NewDocIDSequence(txKV{tx: t}, o.A, o.B, bw); err == nil {
			n, err = s.Next()
			num()
		}
	case "enq":
		err = m.EnQueueDDLJob(catJob(o), ks...)
	case "enqb":
		for _, x := range catBulk(o) {
			if err = m.EnQueueDDLJob(catJob(x), ks...); err != nil {
				break
			}
		}
	case "haddb":
		for _, x := range catBulk(o) {
			if err = m.AddHistoryDDLJob(catJob(x)); err != nil {
				break
			}
		}
	case "deq":
		if ks != nil {
			m = meta.NewMeta(t, lk)
		}
		j, err = m.DeQueueDDLJob()
		res = gotJob(j)
	case "qlen":
		n, err = m.DDLJobQueueLen(ks...)
		num()
	case "qall":
		l, err = m.GetAllDDLJobsInQueue(ks...)
		jobs(l, false)
	case "qget":
		j, err = m.GetDDLJobByIdx(o.B, ks...)
		res = gotJob(j)
	case "qset":
		err = m.UpdateDDLJob(o.B, catJob(o), ks...)
	case "hadd":
		err = m.AddHistoryDDLJob(catJob(o))
	case "hget":
		j, err = m.GetHistoryDDLJob(o.A)
		res = gotJob(j)
	case "hall":
		l, err = m.GetAllHistoryDDLJobs()
		jobs(l, true)
	case "hlast":
		l, err = m.GetLastNHistoryDDLJobs(int(o.B))
		jobs(l, false)
	case "rstart":
		err = m.UpdateDDLReorgStartHandle(reorgJob(o), o.B)
	case "rset":
		err = m.UpdateDDLReorgHandle(reorgJob(o), o.B, o.D, o.C)
	case "rdel":
		err = m.RemoveDDLReorgHandle(reorgJob(o))
	case "rget":
		n, e, err = m.GetDDLReorgHandle(reorgJob(o))
		res = fmt.Sprintf("%d..%d", n, e)
	}
	switch {
	case err == nil && res == "":
		res = "ok"
	case err == nil:
	case err == kv.ErrKeyNotFound:
		res = stNF
	case err == meta.ErrDBExists:
		res = catDB
	case err == meta.ErrDBNotExists:
		res = catNoDB
	case err == meta.ErrCollectionExists:
		res = catColl
	case err == meta.ErrCollectionNotExists:
		res = catNoColl
	case err == meta.ErrJobNotExists:
		res = catNoJob
	default:
		res = stErr
	}
	return
}

var catReadOnly = map[string]bool{"gid": true, "ver": true, "boot": true, "diff": true, "getdb": true, "lsdb": true, "getcoll": true,
	"lscoll": true, "qlen": true, "qall": true, "qget": true, "hget": true, "hall": true, "hlast": true, "rget": true}

var catGroups = [][]string{
	{"gid", "gengid", "gengids", "gengid", "gengids"},
	{"ver", "genver", "diff", "setdiff", "boot", "setboot"},
	{"mkdb", "mkdb", "updb", "getdb", "dropdb", "lsdb", "mkcoll", "mkcoll", "mkcoll", "upcoll", "getcoll", "dropcoll", "dropcoll", "lscoll", "lscoll", "seqnext", "seqnext"},
	{"enq", "enq", "enq", "deq", "deq", "qlen", "qall", "qget", "qset", "enqb"},
	{"hadd", "hadd", "hget", "hall", "hlast", "haddb"},
	{"rstart", "rset", "rdel", "rget", "rget"},
}

var (
	catDBIDs   = []int64{1, 2, 10, 11, 257, 1<<32 + 1}
	catCollIDs = []int64{1, 2, 10, 257, 1<<40 + 1}
	catDiffIDs = []int64{10, 11, 255, 256, 257, 1<<32 + 1}
)

// catJobIDs are ids whose bytes and whose digits need an order.
var catJobIDs = []int64{1, 2, 9, 10, 255, 256, 1000, 65536, 1<<32 + 1, 1<<32 + 9}

// reorgJob is a job at some point of its life; its id alone says where its
// handles are.
func reorgJob(o Op) *model.Job {
	return &model.Job{ID: o.A, Type: model.ActionType(o.C % 9), State: model.JobState(o.D % 8), ErrorCount: o.C, StartTS: uint64(o.B),
		SchemaState: osc.SchemaState(o.D % 5), DependencyID: o.D % 7}
}

func genCatOp(g *Rng, focus int, view bool) Op {
	for {
		k := focus
		if g.P(1, 4) {
			k = g.N(len(catGroups))
		}
		grp := catGroups[k]
		o := Op{K: grp[g.N(len(grp))], A: 1 + g.N64(3), B: g.N64(4), C: g.N64(4), D: g.N64(60), S: fmt.Sprint("n", g.N(100))}
		if view && !catReadOnly[o.K] {
			continue
		}
		switch o.K {
		case "hadd", "hget", "rstart", "rset", "rdel", "rget":
			o.A = catJobIDs[g.N(len(catJobIDs))]
		case "mkdb", "updb", "getdb", "dropdb", "mkcoll", "upcoll", "getcoll", "dropcoll", "lscoll", "seqnext":
			o.A = catDBIDs[g.N(len(catDBIDs))]
			o.B = catCollIDs[g.N(len(catCollIDs))]
			if g.P(1, 2) {
				o.A = catDBIDs[0]
			}
			if g.P(1, 2) {
				o.B = catCollIDs[0]
			}
			if g.P(1, 4) {
				o.A, o.B = catDBIDs[0], catCollIDs[0]
			}
		case "diff", "setdiff":
			if g.P(1, 3) {
				o.A = catDiffIDs[g.N(len(catDiffIDs))]
			}
		case "qget", "qset":
			o.B = g.N64(6) - 2
			if g.P(1, 4) {
				o.B = g.N64(300) - 150
			}
		case "hlast":
			if g.P(1, 3) {
				o.B = g.N64(200)
			}
		case "enqb", "haddb":
			if !g.P(1, 8) {
				continue
			}
			o.B = g.N64(3)
		case "gengids":
			o.B = 1 + g.N64(5)
			if g.P(1, 4) {
				o.B = []int64{253, 256, 65535, 1 << 33}[g.N(4)]
			}
		}
		if g.P(1, 16) {
			o.S += []string{"\u2028<&>\"\\", strings.Repeat("n", 300), "\x00", strings.Repeat("é", 3000)}[g.N(4)]
		}
		if (o.K == "rstart" || o.K == "rset") && g.P(1, 3) {
			o.B, o.D = -o.B, 1<<40
		}
		return o
	}
}

func genCat(crash bool) func(g *Rng, tier string, c *Case) {
	return func(g *Rng, tier string, c *Case) {
		nc := 1 + g.N(3)
		n := 3 + g.N(10)
		if tier == "thorough" && g.P(1, 3) {
			n += g.N(20)
		}
		focus := g.N(len(catGroups))
		gen := func(f int, view bool) Op { return genCatOp(g, f, view) }
		if g.P(1, 4) {
			// few kinds of operations that all meet in one place
			kinds := map[string]bool{}
			for k := 2 + g.N(3); k > 0; k-- {
				kinds[genCatOp(g, focus, false).K] = true
			}
			one := genCatOp(g, focus, false)
			gen = func(f int, view bool) Op {
				for {
					if o := genCatOp(g, f, false); kinds[o.K] && g.P(2, 3) || g.P(1, 30) {
						switch o.K {
						case "mkcoll", "upcoll", "getcoll", "dropcoll", "seqnext":
							if one.B > 0 {
								o.B = one.B
							}
						}
						o.A, o.C = one.A, one.C
						if !view || catReadOnly[o.K] {
							return o
						}
					}
				}
			}
		}
		for i := 0; i < nc; i++ {
			var ops []Op
			for j := 0; j < n; j++ {
				o := Op{K: "upd", C: int64(g.Pick(6, 1, 2))}
				if g.P(1, 4) {
					o.K = "view"
				}
				if g.P(1, 5) {
					focus = g.N(len(catGroups))
				}
				for k := 1 + g.N(5); k > 0; k-- {
					o.Sub = append(o.Sub, gen(focus, o.K == "view"))
				}
				ops = append(ops, o)
			}
			c.Clients = append(c.Clients, ops)
		}
		if g.P(1, 6) || focus == 2 && g.P(2, 3) {
			// there is something to work on from the start
			o := Op{K: "upd"}
			for _, a := range catDBIDs[:1+g.N(len(catDBIDs))] {
				o.Sub = append(o.Sub, Op{K: "mkdb", A: a, S: "first"})
				for _, b := range catCollIDs[:g.N(1+len(catCollIDs))] {
					o.Sub = append(o.Sub, Op{K: "mkcoll", A: a, B: b, S: "first"})
				}
			}
			first := g.N(nc)
			for i := range c.Clients {
				x := o
				if i != first {
					x = Op{K: "view", Sub: []Op{{K: "think", D: g.N64(2_000_000)}}}
				}
				c.Clients[i] = append([]Op{x}, c.Clients[i]...)
			}
		}
		if g.P(1, 3) {
			genFailNth(g, c.Clients)
		}
		if g.P(1, 2) {
			genKVFaults(g, c, 1+g.N(4), int64(nc*n*4))
		}
		if crash {
			c.P["crash"] = 1 + g.N64(int64(nc*n*8))
		}
	}
}

func runCat(r *Run) {
	h := &gHist{}
	r.LoadX(h)
	h.r = r
	h.init, h.scan = func() GModel { return newCatModel() }, isCatScan
	h.exec = func(tx mondis.ProviderTxn) func(o Op) (string, error) {
		return func(o Op) (string, error) { return catExec(tx, o) }
	}
	h.run("catalog", func() (ops []Op) {
		for _, k := range []string{"gid", "ver", "boot", "lsdb", "hall"} {
			ops = append(ops, Op{K: k})
		}
		ops = append(ops, Op{K: "hlast", B: 1000})
		for _, a := range catDiffIDs {
			ops = append(ops, Op{K: "diff", A: a})
		}
		for _, a := range catDBIDs {
			ops = append(ops, Op{K: "lscoll", A: a}, Op{K: "diff", A: a}, Op{K: "getdb", A: a})
			for _, b := range catCollIDs {
				ops = append(ops, Op{K: "getcoll", A: a, B: b})
			}
		}
		for _, a := range catJobIDs {
			ops = append(ops, Op{K: "rget", A: a}, Op{K: "hget", A: a})
		}
		for c := int64(0); c < 2; c++ {
			ops = append(ops, Op{K: "qlen", C: c}, Op{K: "qall", C: c}, Op{K: "qget", C: c})
		}
		return
	})
}

func init() {
	register("P16", "catalog", 4, &Scenario{Gen: genCat(false), Run: runCat})
	register("P16", "catalog-crash", 1, &Scenario{Gen: genCat(true), Run: runCat})
}
