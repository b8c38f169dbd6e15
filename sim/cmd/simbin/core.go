package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"mondissim/simcase"
)

type (
	Case  = simcase.Case
	Op    = simcase.Op
	Fault = simcase.Fault
)

// ---- randomness of the case generator and of the harness ----

type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}
func (r *Rng) N64(n int64) int64   { return int64(r.U64() % uint64(n)) }
func (r *Rng) P(num, den int) bool { return r.N(den) < num }
func (r *Rng) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	k := r.N(t)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return 0
}

// ---- state that survives a simulated crash ----

type State struct {
	Stage  int              `json:"stage"`
	Seq    int64            `json:"seq"`
	Hist   []*Ev            `json:"hist,omitempty"`
	Cov    map[string]int64 `json:"cov"`
	Steps  uint64           `json:"steps"`
	Choice uint64           `json:"choice"`
	Preem  uint64           `json:"preem"`
	Hash   uint64           `json:"hash"`
	VTime  int64            `json:"vtime"`
	Wall   int64            `json:"wall"` // the clock at the end of the stage
	Trace  []string         `json:"trace,omitempty"`
	Opened int              `json:"opened"`      // how often the store was opened successfully
	X      json.RawMessage  `json:"x,omitempty"` // scenario specific
}

// Ev is one operation of a recorded history.
type Ev struct {
	C    int    `json:"c"`
	K    string `json:"k"`
	Key  string `json:"key,omitempty"`
	V    string `json:"v,omitempty"`   // argument
	R    string `json:"r,omitempty"`   // result
	St   string `json:"st"`            // ok, fail (no effect), maybe (unknown), nf (not found)
	Inv  int64  `json:"inv"`           // logical time of invocation
	Ret  int64  `json:"ret"`           // logical time of return, 0 while pending
	TI   int64  `json:"ti,omitempty"`  // virtual time of invocation
	TR   int64  `json:"tr,omitempty"`  // virtual time of return
	Sub  []*Ev  `json:"sub,omitempty"` // operations of a transaction
	N    int64  `json:"n,omitempty"`
	Errs string `json:"errs,omitempty"`
}

// Run is one stage of a simulated execution.
type Run struct {
	C        *Case
	Rng      *Rng // harness-side random choices, independent of the schedule
	Work     string
	Dir      string // data directory of the system under test
	St       *State
	Stage    int
	X        interface{} // scenario state persisted as St.X
	verb     bool
	net      *Net
	disk     *Disk
	start    int64
	faultsOn bool
}

type Scenario struct {
	Gen      func(g *Rng, tier string, c *Case)
	Run      func(r *Run)
	MaxSteps uint64
	MaxTime  time.Duration
}

// props lists the scenarios that decide each property.
var props = map[string][]*variant{}

type variant struct {
	name   string
	weight int
	sc     *Scenario
}

func register(prop, name string, weight int, sc *Scenario) {
	props[prop] = append(props[prop], &variant{name, weight, sc})
}

func find(prop, name string) *Scenario {
	for _, v := range props[prop] {
		if v.name == name {
			return v.sc
		}
	}
	return nil
}

func nowNs() int64 { return time.Since(t0).Nanoseconds() }

var t0 time.Time

func (r *Run) tick() int64 { r.St.Seq++; return r.St.Seq }

// Begin records the invocation of an operation.
func (r *Run) Begin(e *Ev) *Ev {
	e.Inv = r.tick()
	e.TI = nowNs()
	e.St = "maybe"
	r.St.Hist = append(r.St.Hist, e)
	return e
}

// End records its return.
func (r *Run) End(e *Ev, st string) {
	e.Ret = r.tick()
	e.TR = nowNs()
	e.St = st
	if r.verb {
		r.Tracef("op c%d %s key=%q v=%q -> %s r=%q err=%s", e.C, e.K, short(e.Key), short(e.V), st, short(e.R), e.Errs)
	}
}

func short(s string) string {
	if len(s) > 40 {
		return s[:20] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func (r *Run) Cov(k string)           { r.St.Cov[k]++ }
func (r *Run) CovN(k string, n int64) { r.St.Cov[k] += n }
func (r *Run) Tracef(f string, a ...interface{}) {
	if r.verb {
		// formatting must not change the run
		rs := runtime.SimRandState()
		defer runtime.SimSetRandState(rs)
		r.St.Trace = append(r.St.Trace, fmt.Sprintf("%12.6fms ", float64(nowNs())/1e6)+fmt.Sprintf(f, a...))
	}
}

func (r *Run) result(outcome string, v *simcase.Violation) *simcase.Result {
	r.fold()
	return &simcase.Result{Outcome: outcome, Viol: v, Steps: r.St.Steps, Choices: r.St.Choice, Preempt: r.St.Preem, Hash: r.St.Hash, VTime: r.St.VTime, Cov: r.St.Cov, Trace: r.St.Trace, Case: r.C}
}

func (r *Run) fold() {
	s, c, p, h, vt := runtime.SimStats()
	r.St.Steps += s
	r.St.Choice += c
	r.St.Preem += p
	r.St.Hash = r.St.Hash*0x100000001b3 ^ h
	r.St.VTime += vt
	r.St.Wall = time.Now().UnixNano()
}

func rawWrite(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err != nil {
		b = []byte(`{"outcome":"inconclusive","viol":{"kind":"harness","msg":` + strconv.Quote(err.Error()) + `}}`)
	}
	syscall.SimHook = nil
	if err := os.WriteFile(path, b, 0o644); err != nil {
		println("simbin: cannot write", path, err.Error())
		syscall.Exit(3)
	}
}

// Fail reports a violation and ends the whole run.
func (r *Run) Fail(kind, f string, a ...interface{}) {
	r.FailD(kind, "", f, a...)
}

func (r *Run) FailD(kind, detail, f string, a ...interface{}) {
	runtime.SimQuiet()
	msg := fmt.Sprintf(f, a...)
	r.Tracef("VIOLATION %s: %s", kind, msg)
	rawWrite(filepath.Join(r.Work, "result.json"), r.result("violation", &simcase.Violation{Kind: kind, Msg: msg, Detail: detail}))
	syscall.Exit(0)
}

// Finish ends the run successfully.
func (r *Run) Finish() {
	runtime.SimQuiet()
	rawWrite(filepath.Join(r.Work, "result.json"), r.result("ok", nil))
	syscall.Exit(0)
}

// Crash ends this stage as if the process had been killed right now.
func (r *Run) Crash() {
	runtime.SimQuiet() // nothing else may run any more
	r.Cov("fault:process-crash")
	r.Tracef("CRASH of the process (stage %d)", r.Stage)
	r.fold()
	r.St.Stage++
	r.saveX()
	rawWrite(filepath.Join(r.Work, "state.json"), r.St)
	syscall.Exit(77)
}

func (r *Run) saveX() {
	if r.X != nil {
		b, err := json.Marshal(r.X)
		if err == nil {
			r.St.X = b
		}
	}
}

// Go starts fn as a client goroutine of a group.
type Group struct {
	n    int
	done chan int
}

func NewGroup() *Group { return &Group{done: make(chan int, 1024)} }
func (g *Group) Go(fn func()) {
	g.n++
	id := g.n
	go func() {
		fn()
		g.done <- id
	}()
}

// Wait waits for the whole group, at most d of virtual time.
func (g *Group) Wait(d time.Duration) bool {
	tm := time.NewTimer(d)
	defer tm.Stop()
	for i := 0; i < g.n; i++ {
		select {
		case <-g.done:
		case <-tm.C:
			return false
		}
	}
	g.n = 0
	return true
}

// Stacks returns the stacks of all goroutines that are inside mondis code.
func Stacks() string {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "zhiqiangxu/mondis") || strings.Contains(g, "zhiqiangxu/qrpc") {
			out = append(out, g)
		}
	}
	s := strings.Join(out, "\n\n")
	if len(s) > 60000 {
		s = s[:60000]
	}
	return s
}

// FailHang reports that something never returned. The kind names the place in
// the transport library that is known to wedge, when that is the reason.
func (r *Run) FailHang(kind, f string, a ...interface{}) {
	st := Stacks()
	for _, g := range strings.Split(st, "\n\n") {
		ls := strings.Split(g, "\n")
		if len(ls) > 3 && strings.Contains(ls[0], "[chan receive") && strings.Contains(ls[1], "qrpc.(*defaultFrameReader).ReadFrame") && strings.Contains(g, "qrpc.(*Connection).readFrames") {
			kind = "hang:qrpc-client-reader-waits-for-stream"
		}
		if len(ls) > 3 && strings.Contains(ls[0], "[chan receive") && strings.Contains(ls[1], "qrpc.(*defaultFrameReader).ReadFrame") && strings.Contains(g, "qrpc.(*serveconn).readFrames") {
			if kind != "hang:qrpc-client-reader-waits-for-stream" {
				kind = "hang:qrpc-server-reader-waits-for-stream"
			}
		}
	}
	if strings.HasPrefix(kind, "hang:qrpc-") && !r.netFaulted() {
		kind += "-without-any-fault"
	}
	r.FailD(kind, st, f, a...)
}

// netFaulted tells whether any connection was disturbed in this run.
func (r *Run) netFaulted() bool {
	for k, n := range r.St.Cov {
		if n > 0 && (strings.HasPrefix(k, "fault:net-") || k == "fault:server-crash" || k == "restart-of-server") {
			return true
		}
	}
	return false
}

// Call runs fn and reports a hang if it does not return within d.
func (r *Run) Call(what string, d time.Duration, fn func()) {
	g := NewGroup()
	g.Go(fn)
	if !g.Wait(d) {
		r.FailHang("hang:"+what, "%s did not return within %v of simulated time", what, d)
	}
}

func sleepNs(n int64) {
	if n > 0 {
		time.Sleep(time.Duration(n))
	}
}

func genSched(g *Rng) simcase.Sched {
	s := simcase.Sched{MaxRand: 1 << 62}
	s.Policy = uint32(g.Pick(1, 6, 5, 2))
	s.Epoch = uint32(2 + g.N(9))
	s.PointP = []uint32{0, 100, 1000, 6000, 20000}[g.N(5)]
	s.Tick = []int64{200, 1000, 5000, 20000}[g.N(4)]
	return s
}

func mix(a, b uint64) uint64 {
	r := Rng{s: a*0x9e3779b97f4a7c15 ^ b}
	return r.U64()
}

func genCase(prop string, seed uint64, tier string) *Case {
	c := &Case{Prop: prop, Seed: seed, P: map[string]int64{}}
	g := NewRng(mix(seed, 77))
	c.Sched = genSched(g)
	var ws []int
	for _, v := range props[prop] {
		ws = append(ws, v.weight)
	}
	if only := os.Getenv("SIM_SCEN"); only != "" {
		c.Scen = only
	} else {
		c.Scen = props[prop][g.Pick(ws...)].name
	}
	find(prop, c.Scen).Gen(g, tier, c)
	return c
}

func sortedKeys(m map[string]string) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// main: simbin run PROP SEED TIER WORK   |  simbin case FILE WORK [verbose]
//
//	simbin gen PROP SEED TIER
func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: simbin run|case|gen|list ...")
		os.Exit(3)
	}
	var c *Case
	var work string
	verb := false
	// start the goroutines that the runtime starts with the first file, so
	// that all modes look the same to the run
	os.ReadFile("/dev/null")
	fmt.Sprintf("%d %s", 1, strconv.Quote("x"))
	runtime.Gosched()
	switch os.Args[1] {
	case "list":
		var ks []string
		for k, vs := range props {
			for _, v := range vs {
				ks = append(ks, k+" "+v.name)
			}
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
		return
	case "gen":
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		b, _ := json.MarshalIndent(genCase(os.Args[2], seed, os.Args[4]), "", " ")
		os.Stdout.Write(b)
		return
	case "run":
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		if len(props[os.Args[2]]) == 0 {
			println("no property", os.Args[2])
			os.Exit(3)
		}
		c = genCase(os.Args[2], seed, os.Args[4])
		work = os.Args[5]
	case "case":
		b, err := os.ReadFile(os.Args[2])
		if err == nil {
			c = &Case{}
			err = json.Unmarshal(b, c)
		}
		if err != nil {
			println("simbin:", err.Error())
			os.Exit(3)
		}
		if c.P == nil {
			c.P = map[string]int64{}
		}
		work = os.Args[3]
		verb = len(os.Args) > 4
		if len(props[c.Prop]) > 0 {
			genCase(c.Prop, c.Seed, "quick") // fills the same lazily filled caches as generating the case
		}
	}
	// Encode and decode the case in every mode: caches that packages fill
	// lazily must be in the same state when the run starts.
	b, err := json.Marshal(c)
	if err == nil {
		c = &Case{P: map[string]int64{}}
		err = json.Unmarshal(b, c)
	}
	if err != nil {
		println("simbin: case:", err.Error())
		os.Exit(3)
	}
	sc := find(c.Prop, c.Scen)
	if sc == nil {
		println("no scenario", c.Prop, c.Scen)
		os.Exit(3)
	}
	st := &State{Cov: map[string]int64{}}
	if b, err := os.ReadFile(filepath.Join(work, "state.json")); err == nil {
		if err := json.Unmarshal(b, st); err != nil {
			println("simbin: state:", err.Error())
			os.Exit(3)
		}
	}
	r := &Run{C: c, St: st, Stage: st.Stage, Work: work, Dir: filepath.Join(work, "data"), verb: verb}
	r.Rng = NewRng(mix(c.Seed, 1000+uint64(st.Stage)))
	if err := os.MkdirAll(r.Dir, 0o755); err != nil {
		println("simbin:", err.Error())
		os.Exit(3)
	}
	maxSteps, maxTime := sc.MaxSteps, sc.MaxTime
	if maxSteps == 0 {
		maxSteps = 3_000_000
	}
	if maxTime == 0 {
		maxTime = 6 * time.Hour
	}
	runtime.SimStart(runtime.SimConfig{Seed: mix(c.Seed, 5000+uint64(st.Stage)), Policy: c.Sched.Policy, Epoch: c.Sched.Epoch, PointP: c.Sched.PointP, MaxRand: c.Sched.MaxRand, MaxSteps: maxSteps, MaxTime: int64(maxTime), Tick: c.Sched.Tick})
	if st.Wall != 0 {
		runtime.SimWall(st.Wall - time.Now().UnixNano())
	}
	t0 = time.Now()
	sc.Run(r)
	r.Finish()
}

// swarm drops some of the kinds a case may draw from, so that the remaining
// ones meet more often.
func swarm(g *Rng, w []int) {
	old := append([]int(nil), w...)
	sum := 0
	for i := range w {
		if g.P(1, 2) {
			w[i] = 0
		}
		sum += w[i]
	}
	if sum == 0 {
		copy(w, old)
	}
}
