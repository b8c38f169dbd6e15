package main

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/document/config"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/keyspace"
	"github.com/zhiqiangxu/mondis/document/meta/sequence"
	"github.com/zhiqiangxu/mondis/structure"
)

// sequencer is what the three kinds of sequences have in common.
type sequencer interface {
	Next() (int64, error)
	ReleaseRemaining() error
}

type fullSequencer interface {
	sequencer
	NextN(n int64) ([]sequence.IDRange, error)
	ReNew() error
	Clear() error
	Close(bool) error
	PutBack(...int64)
}

type legacySeq struct{ *document.Sequence }

func (l legacySeq) Next() (int64, error) {
	v, err := l.Sequence.Next()
	return int64(v), err
}

// seqRec is one call on a sequence.
type seqRec struct {
	C    int        `json:"c"`
	Inst int        `json:"o"` // the sequence object
	K    string     `json:"k"`
	N    int64      `json:"n,omitempty"`
	R    [][2]int64 `json:"r,omitempty"` // numbers (from, to], in order
	St   string     `json:"s"`
	Inv  int64      `json:"i"`
	Ret  int64      `json:"e"`
	Errs string     `json:"m,omitempty"`
}

func (s *seqRec) String() string {
	return fmt.Sprintf("client %d object %d [%d..%d] %s(%d) -> %s %v %s", s.C, s.Inst, s.Inv, s.Ret, s.K, s.N, s.St, s.R, s.Errs)
}

type seqHist struct {
	Recs  []*seqRec `json:"r"`
	Insts int       `json:"n"`
	r     *Run
	cu    *Cluster
	objs  []sequencer // current object of each slot
	ids   []int
	// sequences of other keys, each with one object
	others [2]sequencer
	Other  [2]int64 `json:"o"` // the highest number each handed out
}

// seqState is the model of a sequence used through one object at a time.
type seqState struct {
	hi  int64   // the highest number handed out
	put []int64 // numbers given back
	gap bool    // some numbers were abandoned: the next one may be any higher one
	rel bool    // nothing was taken since the rest was returned
}

func (s *seqState) Key() string { return fmt.Sprintf("%d %v %v %v", s.hi, s.put, s.gap, s.rel) }

func (s *seqState) step(c *seqRec) (GState, bool) {
	n := &seqState{hi: s.hi, put: append([]int64(nil), s.put...), gap: s.gap, rel: s.rel}
	// what was under way in a crash may have taken effect
	if c.St != "ok" && c.K != "putback" && !(c.K == "clear" && c.St == "maybe") {
		switch {
		case c.St == "closed":
		case c.St == "err" && c.K != "new" && c.K != "close" && c.K != "close-keep":
			// nothing happened: the lease is still there
		default:
			n.gap, n.rel = true, false
		}
		return n, true
	}
	switch c.K {
	case "next", "nextn":
		if c.K == "next" && len(n.put) > 0 {
			// has to be one of those that were given back
			if j := sort.Search(len(n.put), func(j int) bool { return n.put[j] >= c.R[0][1] }); j == len(n.put) || n.put[j] != c.R[0][1] {
				return s, false
			}
		}
		for i, x := range c.R {
			if c.K == "next" || x[1]-x[0] == 1 {
				// may be one that was given back
				if j := sort.Search(len(n.put), func(j int) bool { return n.put[j] >= x[1] }); j < len(n.put) && n.put[j] == x[1] {
					n.put = append(n.put[:j], n.put[j+1:]...)
					continue
				}
			}
			if x[0] < n.hi || (x[0] > n.hi && !n.gap && i == 0) || (i > 0 && x[0] != n.hi && !n.gap) {
				return s, false
			}
			n.hi = x[1]
			n.gap, n.rel = false, false
		}
	case "release":
		n.rel = true
	case "renew":
		n.gap, n.rel = true, false
	case "close-keep", "restart":
		n.gap = n.gap || !n.rel
	case "clear":
		n.hi, n.put, n.gap, n.rel = 0, nil, false, true
	case "putback":
		n.put = append(n.put, c.N)
		sort.Slice(n.put, func(a, b int) bool { return n.put[a] < n.put[b] })
	case "new", "close":
		// numbers given back die with the object
		n.put, n.rel = nil, c.K == "close"
	}
	if c.K == "close-keep" || c.K == "restart" {
		n.put = nil
	}
	return n, true
}

func (h *seqHist) kind() int64 { return h.r.C.P["kind"] }

// open creates a sequence object.
func (h *seqHist) open() (sequencer, error) {
	bw := h.r.C.P["bw"]
	switch h.kind() {
	case 0:
		s, err := sequence.NewString(h.cu.kv, []byte("seq"), bw)
		return s, err
	case 1:
		s, err := sequence.NewHash(h.cu.kv, []byte("hash"), []byte("seq"), bw)
		return s, err
	}
	if h.kind() == 3 {
		// the document ids of a collection
		if dml.GetSequence(seqCID) != nil {
			config.Load().Lease = 1
			err := dml.DropSequenceIfExists(seqCID)
			config.Load().Lease = 0
			if err != nil {
				return nil, err
			}
		} else if err := dml.DropSequenceIfExists(seqCID); err != nil {
			return nil, err
		}
		if err := dml.CreateSequence(h.cu.kv, 1, seqCID, bw); err != nil {
			return nil, err
		}
		if err := dml.CreateSequence(h.cu.kv, 1, seqCID, bw); err != dml.ErrSequenceAlreadyExists {
			h.r.Fail("sequence-registry", "a second sequence was created for a collection: %v", err)
		}
		return droppedSeq{dml.GetSequence(seqCID)}, nil
	}
	s, err := document.NewSequence(h.cu.kv, []byte("seq"), uint64(bw))
	return legacySeq{s}, err
}

const seqCID = 1<<32 + 7

// droppedSeq is closed by dropping it.
type droppedSeq struct{ *sequence.Hash }

func (d droppedSeq) Close(release bool) error {
	if dml.GetSequence(seqCID) != d.Hash {
		return sequence.ErrSequenceClosed
	}
	if !release {
		config.Load().Lease = 1
		defer func() { config.Load().Lease = 0 }()
	}
	err := dml.DropSequence(seqCID)
	if dml.GetSequence(seqCID) != nil {
		panic("a dropped sequence is still there")
	}
	return err
}

// openOthers opens the sequences whose names are close to that of the first.
func (h *seqHist) openOthers() {
	for i := range h.others {
		for k := 0; ; k++ {
			var s sequencer
			var err error
			switch n := h.r.C.P["okind"] + int64(i); n % 5 {
			case 0:
				s, err = sequence.NewString(h.cu.kv, []byte("seq\x00"), 3)
			case 1:
				s, err = sequence.NewHash(h.cu.kv, []byte("hash"), []byte("seq\x00"), 2)
			case 2:
				s, err = sequence.NewHash(h.cu.kv, []byte("hash\x00"), []byte("seq"), 4)
			case 3:
				s, err = sequence.NewString(h.cu.kv, []byte("hash"), 2)
			case 4:
				var l *document.Sequence
				l, err = document.NewSequence(h.cu.kv, []byte("se"), 2)
				s = legacySeq{l}
			}
			if err == nil {
				h.others[i] = s
				break
			}
			if k > 50 {
				h.r.Fail("unexpected-error:sequence", "no other sequence object can be created: %v", err)
			}
			time.Sleep(time.Millisecond)
		}
	}
}

// other takes a number from another sequence.
func (h *seqHist) other(i int) {
	lo := h.Other[i]
	v, err := h.others[i].Next()
	h.r.Cov("op:other")
	if err != nil {
		for _, f := range h.cu.kv.inj {
			if strings.Contains(err.Error(), f.err.Error()) {
				return
			}
		}
		h.r.Fail("unexpected-error:sequence", "Next of the only object of another sequence failed: %v", err)
	}
	if v <= lo {
		h.r.Fail("sequence", "another sequence handed out %d although it had already handed out %d before", v, lo)
	}
	if v > h.Other[i] {
		h.Other[i] = v
	}
}

func (h *seqHist) begin(id, slot int, k string, n int64) *seqRec {
	c := &seqRec{C: id, Inst: h.ids[slot], K: k, N: n, St: "maybe", Inv: h.r.tick()}
	h.Recs = append(h.Recs, c)
	return c
}

func (h *seqHist) end(c *seqRec, err error) {
	c.Ret = h.r.tick()
	switch {
	case err == nil:
		c.St = "ok"
	case err == sequence.ErrSequenceClosed:
		c.St = "closed"
	default:
		c.St = "err"
		c.Errs = err.Error()
		h.r.Cov("seq-errors")
	}
	h.r.Cov("op:" + c.K)
	h.r.Tracef("%s", c)
	if err == nil {
		if in := h.cu.kv.mine(c.Inv); in != nil {
			h.r.Fail("swallowed-error", "%s reported success although the storage failed a %s: %v", c.K, kvNames[in.kind], in.err)
		}
		return
	}
	for _, i := range h.cu.kv.inj {
		if strings.Contains(err.Error(), i.err.Error()) {
			return
		}
	}
	if err != sequence.ErrSequenceClosed && !strings.Contains(err.Error(), "Transaction Conflict") {
		h.r.Fail("unexpected-error:sequence", "%s failed although nothing is wrong with the storage: %v", c.K, err)
	}
	if h.r.C.P["multi"] == 0 && c.St == "err" {
		h.r.Fail("unexpected-error:sequence", "%s of the only user of the sequence failed: %v", c.K, err)
	}
}

// renewSlot puts a new object into a slot.
func (h *seqHist) renewSlot(id, slot int) {
	for k := 0; ; k++ {
		h.Insts++
		h.ids[slot] = h.Insts
		c := h.begin(id, slot, "new", 0)
		s, err := h.open()
		h.end(c, err)
		if err == nil {
			h.objs[slot] = s
			return
		}
		if k > 50 {
			h.r.Fail("unexpected-error:sequence", "no sequence object can be created any more: %v", err)
		}
		time.Sleep(time.Millisecond)
	}
}

func (h *seqHist) run(id, slot int, ops []Op) {
	var mine []int64 // numbers this client got from the current object and did not give back
	inst := 0
	for _, o := range ops {
		s := h.objs[slot]
		if inst != h.ids[slot] {
			inst, mine = h.ids[slot], nil
		}
		got := func(c *seqRec) {
			if h.ids[slot] == inst {
				for _, x := range c.R {
					for v := x[0] + 1; v <= x[1]; v++ {
						mine = append(mine, v)
					}
				}
			}
		}
		f, full := s.(fullSequencer)
		switch k := o.K; {
		case k == "think":
			time.Sleep(time.Duration(o.D))
		case k == "other":
			h.other(int(o.D))
		case k == "next" || !full && k != "release" && k != "new":
			c := h.begin(id, slot, "next", 0)
			v, err := s.Next()
			if err == nil {
				c.R = [][2]int64{{v - 1, v}}
			}
			h.end(c, err)
			got(c)
		case k == "release":
			c := h.begin(id, slot, k, 0)
			h.end(c, s.ReleaseRemaining())
		case k == "new":
			// the object is forgotten without being closed; nobody else may use it any more
			if h.r.C.P["multi"] != 0 || len(h.r.C.Clients) == 1 {
				c := h.begin(id, slot, "close-keep", 0)
				h.end(c, nil)
				h.renewSlot(id, slot)
			}
		case k == "nextn":
			c := h.begin(id, slot, k, o.D)
			rs, err := f.NextN(o.D)
			n := int64(0)
			for _, x := range rs {
				c.R = append(c.R, [2]int64{x.Start, x.End})
				if x.End <= x.Start {
					h.r.Fail("sequence-count", "NextN(%d) returned the range %+v", o.D, x)
				}
				n += x.End - x.Start
			}
			if err == nil && n != o.D {
				h.r.Fail("sequence-count", "NextN(%d) returned %d numbers: %+v", o.D, n, rs)
			}
			h.end(c, err)
			if err == nil {
				got(c)
			}
		case k == "renew":
			c := h.begin(id, slot, k, 0)
			h.end(c, f.ReNew())
		case k == "clear":
			c := h.begin(id, slot, k, 0)
			h.end(c, f.Clear())
			mine = nil // numbers from before must not be given back any more
		case k == "putback":
			if len(mine) > 0 && h.r.C.P["noput"] == 0 {
				var vs []int64
				var cs []*seqRec
				for n := o.C; n >= 0 && len(mine) > 0; n-- {
					i := int(o.D) % len(mine)
					v := mine[i]
					mine = append(mine[:i], mine[i+1:]...)
					vs = append(vs, v)
					cs = append(cs, h.begin(id, slot, k, v))
				}
				f.PutBack(vs...)
				for i := range vs {
					vs[i] = -1 // the slice is the caller's
				}
				for _, c := range cs {
					h.end(c, nil)
				}
			}
		case k == "close" || k == "close-keep":
			c := h.begin(id, slot, k, 0)
			err := f.Close(k == "close")
			h.end(c, err)
			if err != sequence.ErrSequenceClosed {
				h.renewSlot(id, slot)
			}
		}
	}
}

// check judges the numbers.
func (h *seqHist) check() {
	d := ""
	for _, c := range h.Recs {
		d += c.String() + "\n"
	}
	if h.r.C.P["multi"] == 0 {
		var ops []GOp
		for _, c := range h.Recs {
			c := c
			ops = append(ops, GOp{Inv: c.Inv, Ret: c.Ret, Opt: c.St == "maybe", Ref: c, Apply: func(s GState) (GState, bool) { return s.(*seqState).step(c) }})
		}
		ok, done, stuck := LinearizableG(ops, &seqState{}, 200_000)
		h.r.CovN("history-ops", int64(len(ops)))
		if !done {
			h.r.Cov("linearizability-undecided")
			return
		}
		if !ok {
			h.r.FailD("sequence", d, "no order of the calls explains the numbers of the sequence; the search never gets past %s", ops[stuck].Ref.(*seqRec))
		}
		return
	}
	// several objects: all numbers differ, except those given back
	type use struct{ got, put int }
	seen := map[int64]*use{}
	last := map[int]int64{}
	for _, c := range h.Recs {
		if c.St != "ok" {
			continue
		}
		for _, x := range c.R {
			for v := x[0] + 1; v <= x[1]; v++ {
				u := seen[v]
				if u == nil {
					u = &use{}
					seen[v] = u
				}
				u.got++
				if u.got > u.put+1 || v <= 0 {
					h.r.FailD("sequence", d, "%s: the number %d was handed out before", c, v)
				}
				if u.put == 0 {
					if v <= last[c.Inst] {
						h.r.FailD("sequence", d, "%s: the number %d is lower than an earlier one", c, v)
					}
					last[c.Inst] = v
				}
			}
		}
		if c.K == "putback" && seen[c.N] != nil {
			seen[c.N].put++
		}
	}
	h.r.CovN("history-ops", int64(len(h.Recs)))
}

func genSeq(multi, crash bool) func(g *Rng, tier string, c *Case) {
	return func(g *Rng, tier string, c *Case) {
		c.P["kind"] = int64(g.Pick(4, 4, 2, 1))
		c.P["bw"] = []int64{1, 2, 3, 5, 10, 1000}[g.N(6)]
		c.P["okind"] = g.N64(5)
		nc := 1 + g.N(4)
		if multi {
			nc = 2 + g.N(3)
			c.P["multi"] = 1
		}
		if c.P["kind"] == 3 {
			// collections have one sequence, dropped by one goroutine
			if nc = 1; multi {
				c.P["kind"] = 1
				nc = 2
			}
		}
		stages := 1
		if crash {
			stages = 2 + g.N(3)
			for i := 0; i < stages-1; i++ {
				c.Faults = append(c.Faults, Fault{K: "crash", At: 1 + g.N64(60), T: int64(i)})
			}
		}
		c.P["stages"], c.P["nc"] = int64(stages), int64(nc)
		w := []int{10, 5, 2, 2, 1, 3, 2, 2, 2, 1, 1}
		if multi {
			w[4] = 0 // clearing starts all over, whatever others have leased
		}
		if g.P(1, 2) {
			w[4] = 0
		}
		if nc > 1 && w[4] > 0 {
			// numbers must not be given back to a sequence that another
			// client may have cleared
			c.P["noput"] = 1
		}
		n := 4 + g.N(14)
		for i := 0; i < nc*stages; i++ {
			var ops []Op
			for j := 0; j < n; j++ {
				o := Op{K: []string{"next", "nextn", "renew", "release", "clear", "putback", "close", "close-keep", "think", "new", "other"}[g.Pick(w...)]}
				switch o.K {
				case "nextn":
					o.D = 1 + g.N64(2*c.P["bw"]+3)
					if o.D > 30 && g.P(3, 4) {
						o.D = 1 + g.N64(30)
					}
				case "putback":
					o.D = g.N64(100)
					if g.P(1, 3) {
						o.C = 1 + g.N64(3)
					}
				case "other":
					o.D = g.N64(2)
				case "think":
					o.D = g.N64(100_000)
				}
				ops = append(ops, o)
			}
			c.Clients = append(c.Clients, ops)
		}
		if g.P(1, 2) {
			genKVFaults(g, c, 1+g.N(4), int64(nc*n))
		}
	}
}

func runSeq(r *Run) {
	h := &seqHist{}
	r.LoadX(h)
	h.r = r
	h.cu = r.OpenLocal()
	nc, last := int(r.C.P["nc"]), r.Stage == int(r.C.P["stages"])-1
	slots := 1
	if r.C.P["multi"] != 0 {
		slots = nc
	}
	h.objs, h.ids = make([]sequencer, slots), make([]int, slots)
	guard := func(set bool) {
		// other data next to the sequence
		tx := h.cu.kv.NewTransaction(set)
		defer tx.Discard()
		s := structure.New(tx, keyspace.MetaPrefixBytes)
		if set {
			if s.HSet([]byte("hash"), []byte("other"), []byte("x")) != nil || s.HSet([]byte("seq"), []byte("seq"), []byte("y")) != nil || s.Set([]byte("seq2"), []byte("z")) != nil || tx.Commit() != nil {
				r.Fail("unexpected-error:guard", "writing next to the sequence failed")
			}
			return
		}
		a, e1 := s.HGet([]byte("hash"), []byte("other"))
		b, e2 := s.HGet([]byte("seq"), []byte("seq"))
		c, e3 := s.Get([]byte("seq2"))
		if e1 != nil || e2 != nil || e3 != nil || !bytes.Equal(a, []byte("x")) || string(b) != "y" || string(c) != "z" {
			r.Fail("sequence-damage", "the sequence changed data next to it: %q %v, %q %v, %q %v", a, e1, b, e2, c, e3)
		}
	}
	if r.Stage == 0 {
		guard(true)
	} else {
		for _, c := range h.Recs {
			if c.St == "maybe" && c.Ret == 0 {
				// died in the crash: it cannot take effect afterwards
				c.Ret = r.tick()
			}
		}
		c := &seqRec{C: 999, K: "restart", St: "ok", Inv: r.tick()}
		c.Ret = r.tick()
		h.Recs = append(h.Recs, c)
	}
	for i := range h.objs {
		h.renewSlot(900, i)
	}
	h.openOthers()
	if !last {
		for _, f := range r.C.Faults {
			if f.K == "crash" && f.T == int64(r.Stage) {
				n, at := int64(0), f.At
				h.cu.kv.onOp = func(int64) {
					if n++; n == at {
						r.Crash()
					}
				}
			}
		}
	}
	h.cu.kv.Arm()
	grp := NewGroup()
	for i := 0; i < nc; i++ {
		i, j := i, r.Stage*nc+i
		if j < len(r.C.Clients) {
			grp.Go(func() { h.run(i, i%slots, r.C.Clients[j]) })
		}
	}
	if !grp.Wait(10 * time.Minute) {
		r.FailHang("hang:sequence", "a call of a sequence did not return within 10 minutes of simulated time")
	}
	h.cu.kv.Disarm()
	h.cu.kv.onOp = nil
	if !last {
		r.Crash()
	}
	for i := range h.objs {
		h.run(800, i, []Op{{K: "next"}, {K: "next"}})
	}
	h.other(0)
	h.other(1)
	guard(false)
	if h.cu.kv.OpenTx != 0 {
		r.Fail("txn-leak", "%d transactions were left open", h.cu.kv.OpenTx)
	}
	h.check()
	r.Call("close", time.Minute, func() { h.cu.closeStore() })
}

var _ mondis.KVDB = (*FaultKV)(nil)

func init() {
	register("P11", "shared", 4, &Scenario{Gen: genSeq(false, false), Run: runSeq})
	register("P11", "several", 2, &Scenario{Gen: genSeq(true, false), Run: runSeq})
	register("P11", "crash", 3, &Scenario{Gen: genSeq(false, true), Run: runSeq})
	register("P11", "several-crash", 1, &Scenario{Gen: genSeq(true, true), Run: runSeq})
}
