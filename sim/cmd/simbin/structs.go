package main

import (
	"bytes"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/structure"
)

// ---- reference model of lists, hashes and strings ----

type stHash map[string]string

// stModel is the content of the structure layer; keys are prefix+"|"+key.
type stModel struct {
	str  map[string]string
	list map[string][]string
	hash map[string]stHash
	key  string
	t    *stTables
}

func newStModel(t *stTables) *stModel {
	return &stModel{t: t, str: map[string]string{}, list: map[string][]string{}, hash: map[string]stHash{}}
}

func (m *stModel) Key() string {
	if m.key != "" {
		return m.key
	}
	var b bytes.Buffer
	for _, k := range sortedKeys(m.str) {
		fmt.Fprintf(&b, "s%d:%s%d:%s", len(k), k, len(m.str[k]), m.str[k])
	}
	var ks []string
	for k := range m.list {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "l%d:%s", len(k), k)
		for _, v := range m.list[k] {
			fmt.Fprintf(&b, "%d:%s", len(v), v)
		}
	}
	ks = ks[:0]
	for k := range m.hash {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "h%d:%s", len(k), k)
		for _, f := range sortedKeys(m.hash[k]) {
			fmt.Fprintf(&b, "%d:%s%d:%s", len(f), f, len(m.hash[k][f]), m.hash[k][f])
		}
	}
	b.WriteByte('.')
	m.key = b.String()
	return m.key
}

func (m *stModel) Clone() GModel {
	c := newStModel(m.t)
	for k, v := range m.str {
		c.str[k] = v
	}
	for k, v := range m.list {
		c.list[k] = append([]string(nil), v...)
	}
	for k, v := range m.hash {
		h := stHash{}
		for f, x := range v {
			h[f] = x
		}
		c.hash[k] = h
	}
	return c
}

const (
	stNF  = "<not found>"
	stErr = "<error>"
)

func qv(s string) string { return strconv.Quote(s) }
func qlist(l []string) string {
	var q []string
	for _, s := range l {
		q = append(q, qv(s))
	}
	return "[" + strings.Join(q, " ") + "]"
}

// isScan tells the operations that read by iterating, whose phantoms Badger's
// conflict detection does not see.
func isScan(k string) bool { return k == "hkeys" || k == "hgetn" || k == "hgetall" || k == "hdesc" }

func splitVals(s string) []string {
	if s == "," {
		return nil
	}
	return strings.Split(s, ",")
}

// apply executes one operation in the model; it reports whether res is a
// result it may have.
func (m *stModel) Apply(o Op, res string) bool {
	t := m.t
	key := t.prefix(o.C) + "|" + t.key(o.A)
	field := t.field(o.B)
	m.key = ""
	num := func(old string, ok bool) (int64, bool) {
		if !ok {
			return 0, true
		}
		n, err := strconv.ParseInt(old, 10, 64)
		return n, err == nil
	}
	at := func(l []string, i int64) int64 {
		if i < 0 {
			i += int64(len(l))
		}
		if i < 0 || i >= int64(len(l)) {
			return -1
		}
		return i
	}
	switch o.K {
	case "set":
		m.str[key] = o.S
		return res == "ok"
	case "seti":
		m.str[key] = strconv.FormatInt(o.D, 10)
		return res == "ok"
	case "get":
		v, ok := m.str[key]
		if !ok {
			return res == stNF
		}
		return res == qv(v)
	case "geti":
		v, ok := m.str[key]
		if !ok {
			return res == stNF
		}
		n, good := num(v, true)
		if !good {
			return res == stErr
		}
		return res == strconv.FormatInt(n, 10)
	case "clear":
		delete(m.str, key)
		return res == "ok"
	case "inc":
		v, ok := m.str[key]
		n, good := num(v, ok)
		if !good && !(v == "" && res != stErr) {
			return res == stErr
		}
		n += o.D
		m.str[key] = strconv.FormatInt(n, 10)
		return res == m.str[key]
	case "hset":
		h := m.hash[key]
		if h == nil {
			h = stHash{}
			m.hash[key] = h
		}
		h[field] = o.S
		return res == "ok"
	case "hseti":
		h := m.hash[key]
		if h == nil {
			h = stHash{}
			m.hash[key] = h
		}
		h[field] = strconv.FormatInt(o.D, 10)
		return res == "ok"
	case "hget", "hgeti":
		v, ok := m.hash[key][field]
		if !ok {
			return res == stNF
		}
		if o.K == "hget" {
			return res == qv(v)
		}
		n, good := num(v, true)
		if !good {
			return res == stErr
		}
		return res == strconv.FormatInt(n, 10)
	case "hinc":
		v, ok := m.hash[key][field]
		n, good := num(v, ok)
		if !good && !(v == "" && res != stErr) {
			return res == stErr
		}
		n += o.D
		h := m.hash[key]
		if h == nil {
			h = stHash{}
			m.hash[key] = h
		}
		h[field] = strconv.FormatInt(n, 10)
		return res == h[field]
	case "hdel":
		h := m.hash[key]
		for _, f := range t.fields(o) {
			delete(h, f)
		}
		if len(h) == 0 {
			delete(m.hash, key)
		}
		return res == "ok"
	case "hfill":
		h := m.hash[key]
		if h == nil {
			h = stHash{}
			m.hash[key] = h
		}
		for i := int64(0); i < o.D; i++ {
			h[fillField(i)] = o.S
		}
		return res == "ok"
	case "hdrop":
		h := m.hash[key]
		for i := int64(0); i < o.D; i++ {
			delete(h, fillField(i))
		}
		if len(h) == 0 {
			delete(m.hash, key)
		}
		return res == "ok"
	case "hclear":
		delete(m.hash, key)
		return res == "ok"
	case "hlen":
		return res == strconv.Itoa(len(m.hash[key]))
	case "hkeys":
		return res == qlist(sortedKeys(m.hash[key]))
	case "hgetall", "hgetn", "hdesc":
		var l []string
		h := m.hash[key]
		fs := sortedKeys(h)
		if o.K == "hdesc" {
			for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
				fs[i], fs[j] = fs[j], fs[i]
			}
		}
		for _, f := range fs {
			if o.K != "hgetall" && int64(len(l)) >= 2*o.D {
				break
			}
			l = append(l, f, h[f])
		}
		return res == qlist(l)
	case "lpush":
		l := m.list[key]
		for _, v := range splitVals(o.S) {
			l = append([]string{v}, l...)
		}
		if len(l) > 0 {
			m.list[key] = l
		}
		return res == "ok"
	case "rpush":
		if l := append(append([]string(nil), m.list[key]...), splitVals(o.S)...); len(l) > 0 {
			m.list[key] = l
		}
		return res == "ok"
	case "lpop", "rpop":
		l := m.list[key]
		if len(l) == 0 {
			return res == stNF
		}
		var v string
		if o.K == "lpop" {
			v, l = l[0], l[1:]
		} else {
			v, l = l[len(l)-1], l[:len(l)-1]
		}
		if len(l) == 0 {
			delete(m.list, key)
		} else {
			m.list[key] = l
		}
		return res == qv(v)
	case "llen":
		return res == strconv.Itoa(len(m.list[key]))
	case "lgetall":
		l := m.list[key]
		var rev []string
		for i := len(l) - 1; i >= 0; i-- {
			rev = append(rev, l[i])
		}
		return res == qlist(rev)
	case "lindex":
		l := m.list[key]
		i := at(l, o.D)
		if i < 0 {
			// nothing is there: a missing list, or an index outside of it
			return res == stNF || (len(l) > 0 && res == qv(""))
		}
		return res == qv(l[i])
	case "lset":
		l := m.list[key]
		i := at(l, o.D)
		if i < 0 {
			return res == stNF
		}
		l = append([]string(nil), l...)
		l[i] = o.S
		m.list[key] = l
		return res == "ok"
	case "lclear":
		delete(m.list, key)
		return res == "ok"
	}
	panic("simbin: unknown structure operation " + o.K)
}

// ---- the names used by a run ----

type stTables struct{ pre, ks, fs []string }

var (
	stPrefixes = [][]string{{"p"}, {"p", "q"}, {""}, {"m\x00", "m\x01"}, {"ns:a:", "ns:b:"}}
	stKeyPool  = []string{"", "a", "a\x00", "ab", "k\xff", "12345678", "123456789", "\x00", "\xff\xff", "list", "s", "H", "1234567812345678", "1234567812345678\x00", "12345678\xff", strings.Repeat("k", 300)}
	stFldPool  = []string{"12345678\x00", "1234567812345678", "12345678\xff", strings.Repeat("f", 200), "", "f", "f\x00", "fa", "\xff", "\xff\xff\xff\xff\xff\xff\xff\xff\xff", "12345678", "1234567", "123456789", "\x00\x00", "h", "z"}
)

func newStTables(g *Rng) *stTables {
	t := &stTables{pre: stPrefixes[g.N(len(stPrefixes))]}
	pick := func(pool []string, n int) (out []string) {
		p := append([]string(nil), pool...)
		for len(out) < n {
			i := g.N(len(p))
			out = append(out, p[i])
			p = append(p[:i], p[i+1:]...)
		}
		return
	}
	t.ks = pick(stKeyPool, 1+g.N(3))
	t.fs = pick(stFldPool, 2+g.N(5))
	return t
}

// fillField names the i-th field of a bulk of them.
func fillField(i int64) string { return "n" + strconv.FormatInt(i*7919%1000, 10) }

func (t *stTables) prefix(i int64) string { return t.pre[int(i)%len(t.pre)] }
func (t *stTables) key(i int64) string    { return t.ks[int(i)%len(t.ks)] }
func (t *stTables) field(i int64) string  { return t.fs[int(i)%len(t.fs)] }
func (t *stTables) fields(o Op) (l []string) {
	for i := int64(0); i < o.D; i++ {
		l = append(l, t.field(o.B+i*i))
	}
	return
}

func genStructOp(g *Rng, lists bool, bal int) (o Op) {
	o = Op{A: int64(g.N(8)), B: int64(g.N(16)), C: int64(g.Pick(4, 1))}
	if g.P(1, 4) {
		o.C += 4 // through a structure of its own
	}
	val := func() string {
		switch g.N(8) {
		case 0:
			return ""
		case 1:
			return strconv.Itoa(g.N(100) - 50)
		case 2:
			return "\x00\xff" + strconv.Itoa(g.N(100))
		case 3:
			return strings.Repeat("x", 1+g.N(3000))
		default:
			return "v" + strconv.Itoa(g.N(1000))
		}
	}
	if g.P(1, 10) {
		lists = !lists
	}
	if lists {
		push := 4 + bal
		switch g.Pick(push, push, 3, 3, 2, 3, 3, 3, 1) {
		case 0, 1:
			o.K = []string{"lpush", "rpush"}[g.N(2)]
			o.S = val()
			for g.P(1, 3) {
				o.S += "," + val()
			}
			if g.P(1, 25) {
				o.S = "," // nothing
			} else if g.P(1, 40) {
				for n := 8 + g.N(280); n > 0; n-- {
					o.S += "," + strconv.Itoa(n)
				}
			}
		case 2:
			o.K = "lpop"
		case 3:
			o.K = "rpop"
		case 4:
			o.K = "llen"
		case 5:
			o.K = "lgetall"
		case 6:
			o.K = "lindex"
			o.D = int64(g.N(9) - 4)
			if g.P(1, 6) {
				o.D = int64(g.N(500) - 250)
			}
			if g.P(1, 12) {
				o.D = []int64{1 << 40, -(1 << 40), 1 << 62}[g.N(3)]
			}
		case 7:
			o.K = "lset"
			o.D = int64(g.N(9) - 4)
			if g.P(1, 6) {
				o.D = int64(g.N(500) - 250)
			}
			o.S = val()
		case 8:
			o.K = "lclear"
		}
		return o
	}
	if g.P(1, 60) {
		o.K, o.D, o.S = []string{"hfill", "hfill", "hdrop"}[g.N(3)], int64(1+g.N(260)), strconv.Itoa(g.N(100))
		return o
	}
	defer func() {
		switch o.K {
		case "seti", "inc", "hseti", "hinc":
			if g.P(1, 20) {
				o.D = []int64{1<<63 - 1, -1 << 63, 1 << 32, -1 << 31, 0}[g.N(5)]
			}
		case "hgetn", "hdesc":
			if g.P(1, 8) {
				o.D = int64(90 + g.N(200))
			}
		}
	}()
	switch g.Pick(2, 2, 2, 2, 2, 1, 5, 2, 3, 2, 3, 3, 1, 3, 2, 2, 2, 2) {
	case 0:
		o.K, o.S = "set", val()
	case 1:
		o.K, o.D = "seti", int64(g.N(2000)-1000)
	case 2:
		o.K = "get"
	case 3:
		o.K = "geti"
	case 4:
		o.K, o.D = "inc", int64(g.N(20)-6)
	case 5:
		o.K = "clear"
	case 6:
		o.K, o.S = "hset", val()
	case 7:
		o.K, o.D = "hseti", int64(g.N(2000)-1000)
	case 8:
		o.K = "hget"
	case 9:
		o.K = "hgeti"
	case 10:
		o.K, o.D = "hinc", int64(g.N(20)-6)
	case 11:
		o.K, o.D = "hdel", int64(g.N(4))
	case 12:
		o.K = "hclear"
	case 13:
		o.K = "hlen"
	case 14:
		o.K = "hkeys"
	case 15:
		o.K, o.D = "hgetn", int64(g.N(5)-1)
	case 16:
		o.K = "hgetall"
	case 17:
		o.K, o.D = "hdesc", int64(g.N(5)-1)
	}
	return o
}

// ---- running operations ----

// stExec runs one operation against the real code.
func stExec(t *stTables, tx *structure.TxStructure, o Op) (res string, err error) {
	key, field := []byte(t.key(o.A)), []byte(t.field(o.B))
	var v []byte
	var n int64
	var keys [][]byte
	var pairs []structure.HashPair
	num := func() {
		if err == nil {
			res = strconv.FormatInt(n, 10)
		}
	}
	vals := func() (l [][]byte) {
		for _, s := range splitVals(o.S) {
			l = append(l, []byte(s))
		}
		return
	}
	switch o.K {
	case "set":
		err = tx.Set(key, []byte(o.S))
	case "seti":
		err = tx.SetInt64(key, o.D)
	case "get":
		v, err = tx.Get(key)
		res = qv(string(v))
	case "geti":
		n, err = tx.GetInt64(key)
		num()
	case "clear":
		err = tx.Clear(key)
	case "inc":
		n, err = tx.Inc(key, o.D)
		num()
	case "hset":
		err = tx.HSet(key, field, []byte(o.S))
	case "hseti":
		err = tx.HSetInt64(key, field, o.D)
	case "hget":
		v, err = tx.HGet(key, field)
		res = qv(string(v))
	case "hgeti":
		n, err = tx.HGetInt64(key, field)
		num()
	case "hinc":
		n, err = tx.HInc(key, field, o.D)
		num()
	case "hdel":
		var fs [][]byte
		for _, f := range t.fields(o) {
			fs = append(fs, []byte(f))
		}
		err = tx.HDel(key, fs...)
	case "hfill":
		for i := int64(0); i < o.D && err == nil; i++ {
			err = tx.HSet(key, []byte(fillField(i)), []byte(o.S))
		}
	case "hdrop":
		var fs [][]byte
		for i := int64(0); i < o.D; i++ {
			fs = append(fs, []byte(fillField(i)))
		}
		err = tx.HDel(key, fs...)
	case "hclear":
		err = tx.HClear(key)
	case "hlen":
		n, err = tx.HLen(key)
		num()
	case "hkeys":
		keys, err = tx.HKeys(key)
	case "hgetn":
		pairs, err = tx.HGetN(key, int(o.D))
	case "hgetall":
		pairs, err = tx.HGetAll(key)
	case "hdesc":
		pairs, err = tx.HGetNDesc(key, int(o.D))
	case "lpush":
		err = tx.LPush(key, vals()...)
	case "rpush":
		err = tx.RPush(key, vals()...)
	case "lpop":
		v, err = tx.LPop(key)
		res = qv(string(v))
	case "rpop":
		v, err = tx.RPop(key)
		res = qv(string(v))
	case "llen":
		n, err = tx.LLen(key)
		num()
	case "lgetall":
		keys, err = tx.LGetAll(key)
	case "lindex":
		v, err = tx.LIndex(key, o.D)
		res = qv(string(v))
	case "lset":
		err = tx.LSet(key, o.D, []byte(o.S))
	case "lclear":
		err = tx.LClear(key)
	}
	defer func() {
		// what was passed in belongs to the caller again, and so does what came back
		scribble(nil, key, field, v)
		scribble(nil, keys...)
		for _, p := range pairs {
			scribble(nil, p.Field, p.Value)
		}
	}()
	switch o.K {
	case "hkeys", "lgetall":
		var l []string
		for _, k := range keys {
			l = append(l, string(k))
		}
		res = qlist(l)
	case "hgetn", "hgetall", "hdesc":
		var l []string
		for _, p := range pairs {
			l = append(l, string(p.Field), string(p.Value))
		}
		res = qlist(l)
	}
	switch {
	case err == kv.ErrKeyNotFound:
		return stNF, err
	case err != nil:
		return stErr, err
	case res == "":
		res = "ok"
	}
	return
}

func genStruct(lists bool, crash bool) func(g *Rng, tier string, c *Case) {
	return func(g *Rng, tier string, c *Case) {
		nc := 1 + g.N(3)
		n := 3 + g.N(10)
		if tier == "thorough" && g.P(1, 3) {
			n += g.N(20)
		}
		bal := g.N(4)
		gen := func() Op { return genStructOp(g, lists, bal) }
		if g.P(1, 4) {
			// few kinds of operations that all meet in one place
			kinds := map[string]bool{}
			for k := 2 + g.N(3); k > 0; k-- {
				kinds[gen().K] = true
			}
			one := gen()
			gen = func() Op {
				for {
					o := genStructOp(g, lists, bal)
					if kinds[o.K] || g.P(1, 100) {
						o.A, o.C = one.A, one.C
						if g.P(3, 4) {
							o.B = one.B
						}
						return o
					}
				}
			}
		}
		for i := 0; i < nc; i++ {
			var ops []Op
			for j := 0; j < n; j++ {
				o := Op{K: "upd", C: int64(g.Pick(6, 1, 2))}
				if g.P(1, 4) {
					o.K = "view"
				}
				for k := 1 + g.N(5); k > 0; k-- {
					so := gen()
					if o.K == "view" {
						for !stReadOnly(so.K) {
							so = genStructOp(g, lists, bal)
						}
					}
					o.Sub = append(o.Sub, so)
				}
				ops = append(ops, o)
			}
			c.Clients = append(c.Clients, ops)
		}
		if g.P(1, 3) {
			genFailNth(g, c.Clients)
		}
		if g.P(1, 2) {
			genKVFaults(g, c, 1+g.N(4), int64(nc*n*4))
		}
		if crash {
			c.P["crash"] = 1 + g.N64(int64(nc*n*8))
		}
	}
}

func stReadOnly(k string) bool {
	switch k {
	case "get", "geti", "hget", "hgeti", "hlen", "hkeys", "hgetn", "hgetall", "hdesc", "llen", "lgetall", "lindex":
		return true
	}
	return false
}

func runStruct(r *Run) {
	t := newStTables(NewRng(mix(r.C.Seed, 99)))
	h := &gHist{}
	r.LoadX(h)
	h.r = r
	h.init, h.scan = func() GModel { return newStModel(t) }, isScan
	h.exec = func(tx mondis.ProviderTxn) func(o Op) (string, error) {
		ts := map[string]*structure.TxStructure{}
		return func(o Op) (string, error) {
			p := t.prefix(o.C)
			x := ts[p]
			if x == nil || o.C >= 4 {
				pre := []byte(p)
				x = structure.New(tx, pre)
			}
			if ts[p] == nil {
				ts[p] = x
			}
			return stExec(t, x, o)
		}
	}
	h.run("structure", func() (ops []Op) {
		for p := range t.pre {
			for k := range t.ks {
				b := Op{A: int64(k), C: int64(p)}
				for _, op := range []string{"get", "hlen", "hgetall", "hkeys", "llen", "lgetall"} {
					b.K = op
					ops = append(ops, b)
				}
				b.D = 1000
				b.K = "hdesc"
				ops = append(ops, b)
				b.K = "hgetn"
				ops = append(ops, b)
			}
		}
		return
	})
}

func init() {
	register("P09", "lists", 4, &Scenario{Gen: genStruct(true, false), Run: runStruct})
	register("P09", "lists-crash", 1, &Scenario{Gen: genStruct(true, true), Run: runStruct})
	register("P10", "hashes", 4, &Scenario{Gen: genStruct(false, false), Run: runStruct})
	register("P10", "hashes-crash", 1, &Scenario{Gen: genStruct(false, true), Run: runStruct})
}
