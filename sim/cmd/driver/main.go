// Command driver builds the simulator from the current tree and searches for
// violations of one property by seeded simulation, or replays a recorded one.
package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"mondissim/build"
	"mondissim/simcase"
)

const (
	runTimeout = 60 * time.Second // a run takes milliseconds
	runMemory  = 3 << 30          // bytes
	maxStages  = 40
)

type outcome struct {
	res    *simcase.Result
	stderr string
	wall   time.Duration
	err    string // the harness itself failed
}

type driver struct {
	root string // /verif
	work string
	bin  string
	prop string
	tier string
	seed uint64
}

func fatal(code int, f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	cleanup()
	os.Exit(code)
}

var cleanupDir string

func cleanup() {
	if cleanupDir != "" {
		os.RemoveAll(cleanupDir)
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: driver check PROP TIER | replay FILE | build OUT")
		os.Exit(3)
	}
	root, err := filepath.Abs(os.Getenv("VERIF_ROOT"))
	if err != nil || os.Getenv("VERIF_ROOT") == "" {
		fmt.Fprintln(os.Stderr, "VERIF_ROOT is not set")
		os.Exit(3)
	}
	base := "/dev/shm"
	if st, err := os.Stat(base); err != nil || !st.IsDir() || unwritable(base) {
		base = os.TempDir()
	}
	d := &driver{root: root}
	d.work, err = os.MkdirTemp(base, "mondis-sim-")
	if err != nil {
		fatal(3, "driver: %v", err)
	}
	cleanupDir = d.work
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM)
	go func() { <-sig; fatal(3, "interrupted") }()

	d.bin = filepath.Join(d.work, "simbin")
	if os.Args[1] == "build" {
		d.bin = os.Args[2]
	}
	repo := "/repo"
	if r := os.Getenv("SIM_REPO"); r != "" {
		repo = r // development only
	}
	t0 := time.Now()
	if pre := os.Getenv("SIM_BIN"); pre != "" {
		d.bin = pre // development only: an already built simulator
	} else if err := build.Sim(filepath.Join(root, "sim"), repo, filepath.Join(d.work, "build"), d.bin); err != nil {
		fatal(3, "driver: the simulator does not build from the current tree: %v", err)
	}
	buildWall := time.Since(t0)
	code := 0
	switch os.Args[1] {
	case "build":
	case "check":
		d.prop, d.tier = os.Args[2], os.Args[3]
		d.seed = 1
		if s := os.Getenv("VERIF_SEED"); s != "" {
			n, err := strconv.ParseInt(s, 10, 64)
			if err != nil {
				fatal(3, "driver: VERIF_SEED: %v", err)
			}
			d.seed = uint64(n)
		}
		code = d.check(buildWall)
	case "replay":
		code = d.replay(os.Args[2])
	default:
		code = 3
	}
	cleanup()
	os.Exit(code)
}

func unwritable(dir string) bool {
	f, err := os.CreateTemp(dir, "probe-")
	if err != nil {
		return true
	}
	f.Close()
	os.Remove(f.Name())
	return false
}

// exec runs all the stages of one simulated execution.
func (d *driver) exec(work string, args func(work string) []string) *outcome {
	os.RemoveAll(work)
	if err := os.MkdirAll(work, 0o755); err != nil {
		return &outcome{err: err.Error()}
	}
	defer os.RemoveAll(work)
	t0 := time.Now()
	o := &outcome{}
	for stage := 0; ; stage++ {
		ctx, cancel := context.WithTimeout(context.Background(), runTimeout)
		cmd := exec.CommandContext(ctx, d.bin, args(work)...)
		cmd.Env = []string{"GOMAXPROCS=1", "GOGC=off", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=all", "PATH=" + os.Getenv("PATH"), "HOME=/nonexistent", "SIM_SCEN=" + os.Getenv("SIM_SCEN")}
		var eb bytes.Buffer
		cmd.Stderr = &limited{w: &eb, n: 1 << 20}
		cmd.Stdout = cmd.Stderr
		cmd.Dir = work
		big := false
		err := cmd.Start()
		if err == nil {
			ended := make(chan struct{})
			watched := make(chan struct{})
			go func() {
				defer close(watched)
				for {
					select {
					case <-ended:
						return
					case <-time.After(300 * time.Millisecond):
						if rss(cmd.Process.Pid) > runMemory {
							big = true
							cancel()
							return
						}
					}
				}
			}()
			err = cmd.Wait()
			close(ended)
			<-watched
		}
		timedOut := ctx.Err() != nil
		cancel()
		o.stderr = eb.String()
		o.wall = time.Since(t0)
		if timedOut {
			// the simulator was never asked to schedule anything else for that
			// long; the search reports it only if the same seed does it again
			v := &simcase.Violation{Kind: "no-progress:loop", Msg: fmt.Sprintf("the run did not end within %v of real time: some goroutine loops without end", runTimeout)}
			if big {
				v.Kind, v.Msg = "no-progress:memory", fmt.Sprintf("the run took more than %d MiB of memory: something grows without end", runMemory>>20)
			}
			o.res = &simcase.Result{Outcome: "violation", Viol: v, Cov: map[string]int64{}}
			return o
		}
		code := 0
		if err != nil {
			ee, ok := err.(*exec.ExitError)
			if !ok {
				o.err = err.Error()
				return o
			}
			code = ee.ExitCode()
			if code < 0 {
				o.err = "killed: " + err.Error()
				return o
			}
		}
		if code == 77 && stage < maxStages {
			continue
		}
		b, rerr := os.ReadFile(filepath.Join(work, "result.json"))
		if rerr == nil {
			o.res = &simcase.Result{}
			if err := json.Unmarshal(b, o.res); err != nil {
				o.err = "result: " + err.Error()
			}
			if code == 0 {
				d.serverPanic(o)
				return o
			}
		}
		o.res = classify(code, o.stderr, o.res)
		if o.res == nil {
			o.err = fmt.Sprintf("simulator exit %d: %s", code, tail(o.stderr, 800))
		}
		return o
	}
}

// rss is the resident memory of our own child process.
func rss(pid int) int64 {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

type limited struct {
	w *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	k := len(p)
	if k > l.n {
		p = p[:l.n]
	}
	l.n -= len(p)
	l.w.Write(p)
	return k, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

var mondisFrame = regexp.MustCompile(`github\.com/zhiqiangxu/mondis/[^\s(]*(\(\*?[A-Za-z0-9_]+\))?[^\s(]*`)
var anyFrame = regexp.MustCompile(`(?m)^(github\.com/[^\s(]+|main)\.(\(\*?[A-Za-z0-9_]+\))?[^\s(]*`)

// firstFrame names the innermost function of a trace, preferring mondis code.
func firstFrame(s string) string {
	if m := mondisFrame.FindString(s); m != "" {
		return strings.TrimPrefix(m, "github.com/zhiqiangxu/mondis/")
	}
	if m := anyFrame.FindString(s); m != "" {
		return m
	}
	return "unknown"
}

// serverPanic turns panics that the transport library recovered from into
// violations: the server never panics while it handles a request.
func (d *driver) serverPanic(o *outcome) {
	if o.res == nil || o.res.Outcome != "ok" {
		return
	}
	i := strings.Index(o.stderr, "handleRequestPanic")
	if i < 0 {
		i = strings.Index(o.stderr, "connection panic")
	}
	if i < 0 {
		return
	}
	s := strings.NewReplacer(`\n`, "\n", `\t`, "\t").Replace(o.stderr[i:])
	if len(s) > 6000 {
		s = s[:6000]
	}
	o.res.Outcome = "violation"
	o.res.Viol = &simcase.Violation{Kind: "server-panic:" + firstFrame(s), Msg: "a request handler of the server panicked", Detail: s}
}

func classify(code int, stderr string, res *simcase.Result) *simcase.Result {
	if res == nil {
		res = &simcase.Result{Cov: map[string]int64{}}
	}
	v := &simcase.Violation{}
	switch {
	case code == 97:
		v.Kind, v.Msg = "no-progress:steps", "the run exceeded its step limit without coming to rest"
	case code == 98:
		v.Kind, v.Msg = "no-progress:time", "the run exceeded its limit of simulated time without coming to rest"
	case code == 2 && strings.Contains(stderr, "all goroutines are asleep"):
		v.Kind, v.Msg = "deadlock:"+deadlockSite(stderr), "every goroutine is blocked for ever"
	case code == 2 && (strings.Contains(stderr, "panic:") || strings.Contains(stderr, "fatal error:")):
		i := strings.Index(stderr, "panic:")
		if i < 0 {
			i = strings.Index(stderr, "fatal error:")
		}
		s := stderr[i:]
		line := s
		if j := strings.IndexByte(s, '\n'); j > 0 {
			line = s[:j]
		}
		blk := s
		if j := strings.Index(s, "\n\ngoroutine "); j > 0 {
			if k := strings.Index(s[j+2:], "\n\n"); k > 0 {
				blk = s[:j+2+k]
			}
		}
		if strings.Contains(line, "simulator:") {
			return nil
		}
		v.Kind, v.Msg = "panic:"+firstFrame(blk), "the process died: "+line
	default:
		return nil
	}
	if len(stderr) > 12000 {
		stderr = stderr[:6000] + "\n...\n" + tail(stderr, 6000)
	}
	v.Detail = stderr
	res.Outcome, res.Viol = "violation", v
	return res
}

func deadlockSite(s string) string {
	for _, g := range strings.Split(s, "\n\n") {
		if strings.HasPrefix(g, "goroutine ") && mondisFrame.MatchString(g) {
			return firstFrame(g)
		}
	}
	return "unknown"
}

func (d *driver) seedOf(i uint64) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", d.prop, d.seed, i)
	return h.Sum64() >> 1
}

// ---- known findings ----

type known struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`           // regular expression over the violation kind
	Msg      string `json:"msg,omitempty"`  // regular expression over its message
	Scen     string `json:"scen,omitempty"` // scenario
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"` // a fixed entry suppresses nothing
	kre, mre *regexp.Regexp
}

func (d *driver) loadKnown() []*known {
	b, err := os.ReadFile(filepath.Join(d.root, "known-findings.jsonl"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		fatal(3, "driver: %v", err)
	}
	var out []*known
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		k := &known{}
		if err := json.Unmarshal([]byte(l), k); err != nil {
			fatal(3, "driver: known-findings: %v: %s", err, l)
		}
		if k.Fixed != "" || k.Property != d.prop {
			continue
		}
		k.kre = regexp.MustCompile("^(?:" + k.Kind + ")$")
		k.mre = regexp.MustCompile(k.Msg)
		out = append(out, k)
	}
	return out
}

func (k *known) match(c *simcase.Case, v *simcase.Violation) bool {
	return k.kre.MatchString(v.Kind) && k.mre.MatchString(v.Msg) && (k.Scen == "" || k.Scen == c.Scen)
}

// ---- the search ----

type stats struct {
	mu                                         sync.Mutex
	runs, ok, incon, replays, mismatch, knownN int64
	steps, choices, preempt, maxSteps          uint64
	vtime                                      int64
	cov                                        map[string]int64
	scen                                       map[string]int64
	hashes                                     map[uint64]bool
	nontrivial                                 map[uint64]bool
	pol                                        map[string]int64
	errs                                       []string
	samples                                    []interface{}
}

func (d *driver) check(buildWall time.Duration) int {
	budget := 50 * time.Second
	if d.tier == "thorough" {
		budget = 600 * time.Second
	}
	if b := os.Getenv("SIM_BUDGET"); b != "" {
		n, _ := strconv.Atoi(b)
		budget = time.Duration(n) * time.Second
	}
	t0 := time.Now()
	knowns := d.loadKnown()
	hit := map[*known]int64{}
	st := &stats{cov: map[string]int64{}, scen: map[string]int64{}, hashes: map[uint64]bool{}, nontrivial: map[uint64]bool{}, pol: map[string]int64{}}
	var (
		next  uint64
		stop  bool
		found *outcome
		fcase *simcase.Case
		unrep int64
	)
	nw := runtime.NumCPU()
	if nw > 16 {
		nw = 16
	}
	deadline := t0.Add(budget)
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			work := filepath.Join(d.work, fmt.Sprintf("w%d", w))
			for {
				st.mu.Lock()
				if stop || time.Now().After(deadline) {
					st.mu.Unlock()
					return
				}
				i := next
				next++
				st.mu.Unlock()
				seed := d.seedOf(i)
				run := func(wk string) []string { return []string{"run", d.prop, fmt.Sprint(seed), d.tier, wk} }
				o := d.exec(work, run)
				again := i%53 == 7
				if o.err == "" && o.res.Outcome == "violation" {
					again = true
				}
				var o2 *outcome
				if again && o.err == "" {
					// from the case file, as a replay does
					c := o.res.Case
					if c == nil {
						c = d.gen(seed)
					}
					o2 = d.runCase(c, fmt.Sprintf("w%d", w), false)
				}
				st.mu.Lock()
				st.add(d, o, seed)
				if o2 != nil {
					st.replays++
					if o2.err != "" || o2.res.Outcome != o.res.Outcome || o2.res.Hash != o.res.Hash && o.res.Hash != 0 {
						st.mismatch++
						st.note(fmt.Sprintf("seed %d: replay differs: %s %x / %s", seed, o.res.Outcome, o.res.Hash, o2.brief()))
					}
				}
				if o.err == "" && o.res.Outcome == "violation" {
					c := o.res.Case
					if c == nil {
						c = d.gen(seed)
					}
					var kn *known
					for _, k := range knowns {
						if k.match(c, o.res.Viol) {
							kn = k
						}
					}
					switch {
					case kn != nil:
						hit[kn]++
						st.knownN++
					case o2 == nil || o2.err != "" || o2.res.Outcome != "violation" || o2.res.Viol.Kind != o.res.Viol.Kind:
						unrep++
						st.note(fmt.Sprintf("seed %d: %s did not reproduce (%s)", seed, o.res.Viol.Kind, o2.brief()))
					case !stop:
						stop = true
						found, fcase = o, c
					}
				}
				st.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	searchWall := time.Since(t0)
	code := 0
	replay := ""
	if found != nil {
		fmt.Printf("violation found with seed %d after %d runs (%.1f s): %s: %s\n", fcase.Seed, st.runs, searchWall.Seconds(), found.res.Viol.Kind, oneLine(found.res.Viol.Msg))
		min, mo, tried := d.minimise(fcase, found)
		replay = d.writeReplay(min, mo, fcase, tried)
		code = 1
	}
	for _, k := range knowns {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met %d times in this run)\n", d.prop, k.What, hit[k])
	}
	d.evidence(st, buildWall, searchWall, time.Since(t0)+buildWall, nw, unrep, code, replay, knowns, hit)
	if code == 0 && st.ok == 0 && st.knownN == 0 {
		fmt.Fprintf(os.Stderr, "driver: not a single run completed: %v\n", st.errs)
		return 3
	}
	fmt.Printf("property=%s tier=%s seed=%d runs=%d ok=%d known=%d inconclusive=%d distinct-interleavings=%d simulated=%.1fs wall=%.1fs replay-checked=%d mismatches=%d\n",
		d.prop, d.tier, d.seed, st.runs, st.ok, st.knownN, st.incon, len(st.hashes), float64(st.vtime)/1e9, time.Since(t0).Seconds(), st.replays, st.mismatch)
	for _, e := range st.errs {
		fmt.Println("note:", oneLine(e))
	}
	if code == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, replay)
	}
	return code
}

func oneLine(s string) string {
	s = strings.Map(func(r rune) rune {
		if r == '\n' || r < 32 {
			return ' '
		}
		return r
	}, s)
	if len(s) > 700 {
		s = s[:700]
	}
	return s
}

func (o *outcome) brief() string {
	if o == nil {
		return "not run"
	}
	if o.err != "" {
		return "error " + o.err
	}
	s := fmt.Sprintf("%s %x", o.res.Outcome, o.res.Hash)
	if o.res.Viol != nil {
		s += " " + o.res.Viol.Kind
	}
	return s
}

func (st *stats) note(s string) {
	if len(st.errs) < 12 {
		st.errs = append(st.errs, s)
	}
}

func (st *stats) add(d *driver, o *outcome, seed uint64) {
	st.runs++
	if o.err != "" {
		st.incon++
		st.note(fmt.Sprintf("seed %d: %s", seed, o.err))
		return
	}
	r := o.res
	if r.Outcome == "ok" {
		st.ok++
	}
	if r.Outcome == "inconclusive" {
		st.incon++
		if r.Viol != nil {
			st.note(fmt.Sprintf("seed %d: inconclusive: %s", seed, r.Viol.Msg))
		}
	}
	st.steps += r.Steps
	st.choices += r.Choices
	st.preempt += r.Preempt
	if r.Steps > st.maxSteps {
		st.maxSteps = r.Steps
	}
	st.vtime += r.VTime
	for k, v := range r.Cov {
		st.cov[k] += v
	}
	if r.Hash != 0 {
		st.hashes[r.Hash] = true
		if r.Choices > 50 && r.Outcome == "ok" {
			st.nontrivial[r.Hash] = true
		}
	}
	if r.Case != nil {
		st.scen[r.Case.Scen]++
		st.pol[[]string{"fifo", "uniform", "priority-epochs", "lifo-biased"}[r.Case.Sched.Policy&3]]++
		if len(st.samples) < 3 && r.Outcome == "ok" && r.Choices > 50 {
			st.samples = append(st.samples, map[string]interface{}{"seed": seed, "case": r.Case, "steps": r.Steps, "scheduling_choices": r.Choices, "preemptions": r.Preempt, "interleaving_hash": fmt.Sprintf("%016x", r.Hash), "simulated_ms": float64(r.VTime) / 1e6, "what_happened": r.Cov})
		}
	}
}

func (d *driver) gen(seed uint64) *simcase.Case {
	b, err := exec.Command(d.bin, "gen", d.prop, fmt.Sprint(seed), d.tier).Output()
	c := &simcase.Case{Prop: d.prop, Seed: seed}
	if err == nil {
		json.Unmarshal(b, c)
	}
	return c
}

// ---- minimisation ----

func (d *driver) runCase(c *simcase.Case, slot string, verbose bool) *outcome {
	f := filepath.Join(d.work, "case-"+slot+".json")
	b, _ := json.Marshal(c)
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return &outcome{err: err.Error()}
	}
	return d.exec(filepath.Join(d.work, "m"+slot), func(wk string) []string {
		a := []string{"case", f, wk}
		if verbose {
			a = append(a, "verbose")
		}
		return a
	})
}

func clone(c *simcase.Case) *simcase.Case {
	b, _ := json.Marshal(c)
	x := &simcase.Case{}
	json.Unmarshal(b, x)
	return x
}

// minimise shrinks the case while the same kind of violation still occurs.
func (d *driver) minimise(c *simcase.Case, o *outcome) (*simcase.Case, *outcome, int) {
	budget := 40 * time.Second
	if b := os.Getenv("SIM_MINIMISE"); b != "" {
		n, _ := strconv.Atoi(b)
		budget = time.Duration(n) * time.Second
	}
	deadline := time.Now().Add(budget)
	kind := o.res.Viol.Kind
	best, bo := clone(c), o
	if kind == "no-progress:loop" || kind == "no-progress:memory" {
		return best, bo, 0 // every attempt would take minutes
	}
	tried := 0
	// try runs the candidates concurrently and keeps the first that still fails.
	try := func(cs []*simcase.Case) bool {
		n := runtime.NumCPU()
		for i := 0; i < len(cs) && time.Now().Before(deadline); i += n {
			j := i + n
			if j > len(cs) {
				j = len(cs)
			}
			outs := make([]*outcome, j-i)
			var wg sync.WaitGroup
			for k := i; k < j; k++ {
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					outs[k-i] = d.runCase(cs[k], fmt.Sprint(k-i), false)
				}()
			}
			wg.Wait()
			tried += j - i
			for k := i; k < j; k++ {
				x := outs[k-i]
				if x.err == "" && x.res.Outcome == "violation" && x.res.Viol.Kind == kind {
					best, bo = cs[k], x
					return true
				}
			}
		}
		return false
	}
	if !try([]*simcase.Case{clone(c)}) {
		return best, bo, tried // the recorded case is what reproduces it
	}
	for progress := true; progress && time.Now().Before(deadline); {
		progress = false
		// whole clients
		for again := true; again; {
			var cs []*simcase.Case
			for i := range best.Clients {
				if len(best.Clients[i]) == 0 {
					continue
				}
				x := clone(best)
				x.Clients[i] = nil
				cs = append(cs, x)
			}
			for i := range best.Faults {
				x := clone(best)
				x.Faults = append(x.Faults[:i:i], x.Faults[i+1:]...)
				cs = append(cs, x)
			}
			again = try(cs)
			progress = progress || again
		}
		// halves, quarters, ... single operations
		for size := maxOps(best); size >= 1; size /= 2 {
			for again := true; again; {
				var cs []*simcase.Case
				for i := range best.Clients {
					for a := 0; a < len(best.Clients[i]); a += size {
						b := a + size
						if b > len(best.Clients[i]) {
							b = len(best.Clients[i])
						}
						x := clone(best)
						x.Clients[i] = append(x.Clients[i][:a:a], x.Clients[i][b:]...)
						cs = append(cs, x)
					}
				}
				again = try(cs)
				progress = progress || again
			}
		}
		// operations of transactions
		for again := true; again; {
			var cs []*simcase.Case
			for i := range best.Clients {
				for j := range best.Clients[i] {
					for k := range best.Clients[i][j].Sub {
						x := clone(best)
						s := x.Clients[i][j].Sub
						x.Clients[i][j].Sub = append(s[:k:k], s[k+1:]...)
						cs = append(cs, x)
					}
				}
			}
			again = try(cs)
			progress = progress || again
		}
		// simpler scheduling
		var cs []*simcase.Case
		for _, f := range []func(*simcase.Sched) bool{
			func(s *simcase.Sched) bool { x := s.MaxRand != 0; s.MaxRand = 0; return x },
			func(s *simcase.Sched) bool { x := s.PointP != 0; s.PointP = 0; return x },
			func(s *simcase.Sched) bool { x := s.Policy != 0; s.Policy = 0; return x },
		} {
			x := clone(best)
			if f(&x.Sched) {
				cs = append(cs, x)
			}
		}
		for _, p := range []string{"netdelay", "netseg", "netwin"} {
			if best.P[p] != 0 {
				x := clone(best)
				x.P[p] = 0
				cs = append(cs, x)
			}
		}
		if try(cs) {
			progress = true
		}
	}
	// the shortest random prefix of the schedule: first-in first-out afterwards
	if best.Sched.MaxRand != 0 && bo.res.Choices > 0 {
		lo, hi := uint64(0), bo.res.Choices
		for lo < hi && time.Now().Before(deadline.Add(10*time.Second)) {
			mid := (lo + hi) / 2
			x := clone(best)
			x.Sched.MaxRand = mid
			before := deadline
			deadline = time.Now().Add(runTimeout)
			if try([]*simcase.Case{x}) {
				hi = mid
			} else {
				lo = mid + 1
			}
			deadline = before
		}
	}
	return best, bo, tried
}

func maxOps(c *simcase.Case) int {
	m := 1
	for _, x := range c.Clients {
		if len(x) > m {
			m = len(x)
		}
	}
	return (m + 1) / 2
}

type replayFile struct {
	Property  string             `json:"property"`
	Seed      uint64             `json:"seed"`
	Violation *simcase.Violation `json:"violation"`
	Hash      string             `json:"interleaving_hash"`
	How       string             `json:"how_to_replay"`
	Minimised string             `json:"minimised"`
	Case      *simcase.Case      `json:"case"`
	Trace     []string           `json:"trace"`
}

func ops(c *simcase.Case) int {
	n := 0
	for _, x := range c.Clients {
		n += len(x)
	}
	return n
}

func (d *driver) writeReplay(c *simcase.Case, o *outcome, orig *simcase.Case, tried int) string {
	dir := filepath.Join(d.root, "evidence", "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", d.prop, c.Seed))
	v := d.runCase(c, "trace", true)
	var trace []string
	if v.res != nil {
		trace = v.res.Trace
	}
	if len(trace) > 1500 {
		trace = append(trace[:200:200], trace[len(trace)-1300:]...)
	}
	rf := replayFile{Property: d.prop, Seed: c.Seed, Violation: o.res.Viol, Hash: fmt.Sprintf("%016x", o.res.Hash),
		How:       "./run.sh replay " + path,
		Minimised: fmt.Sprintf("%d operations and %d faults, down from %d and %d, after %d simulated runs; scheduling is random for the first %d choices and first-in first-out afterwards", ops(c), len(c.Faults), ops(orig), len(orig.Faults), tried, minU(c.Sched.MaxRand, o.res.Choices)),
		Case:      c, Trace: trace}
	b, _ := json.MarshalIndent(rf, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
	}
	fmt.Printf("minimised to %s\n", rf.Minimised)
	return path
}

func minU(a, b uint64) uint64 {
	if a < b {
		return a
	}
	return b
}

func (d *driver) replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(3, "driver: %v", err)
	}
	rf := &replayFile{}
	if err := json.Unmarshal(b, rf); err != nil || rf.Case == nil {
		fatal(3, "driver: %s is not a replay file (%v)", file, err)
	}
	o := d.runCase(rf.Case, "replay", false)
	v := d.runCase(rf.Case, "replayv", true)
	if o.err != "" {
		fatal(3, "driver: %s", o.err)
	}
	if v.res != nil {
		for _, l := range v.res.Trace {
			fmt.Println(l)
		}
	}
	fmt.Printf("outcome=%s interleaving=%016x (recorded %s)\n", o.res.Outcome, o.res.Hash, rf.Hash)
	if o.res.Outcome == "violation" {
		fmt.Printf("%s: %s\n", o.res.Viol.Kind, o.res.Viol.Msg)
		if o.res.Viol.Detail != "" {
			fmt.Println(o.res.Viol.Detail)
		}
		same := rf.Violation != nil && rf.Violation.Kind == o.res.Viol.Kind && rf.Violation.Msg == o.res.Viol.Msg
		fmt.Printf("identical to the recorded violation: %v\n", same)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
		return 1
	}
	fmt.Println("the recorded violation does not occur on this tree")
	return 0
}

// ---- evidence ----

func (d *driver) evidence(st *stats, buildWall, searchWall, wall time.Duration, nw int, unrep int64, code int, replay string, knowns []*known, hit map[*known]int64) {
	faults, events := map[string]int64{}, map[string]int64{}
	var nf int64
	for k, v := range st.cov {
		if strings.HasPrefix(k, "fault:") {
			faults[strings.TrimPrefix(k, "fault:")] = v
			nf += v
		} else {
			events[k] = v
		}
	}
	perHour := 0.0
	if searchWall > 0 {
		perHour = float64(st.runs) / searchWall.Hours()
	}
	var kf []map[string]interface{}
	for _, k := range knowns {
		kf = append(kf, map[string]interface{}{"what": k.What, "met": hit[k]})
	}
	cov := map[string]interface{}{
		"evaluations":            st.runs,
		"distinct_nontrivial":    len(st.nontrivial),
		"rule":                   "One evaluation is one complete simulated execution of a case generated from a seed (operations, faults and schedule). Distinct: the hash over the sequence of (goroutine dispatched, number runnable) of all its stages differs. Non-trivial: it finished, its oracle was evaluated, and more than 50 scheduling decisions had two or more runnable goroutines.",
		"samples":                st.samples,
		"completed_and_judged":   st.ok,
		"inconclusive":           st.incon,
		"runs_per_hour":          int64(perHour),
		"seeds":                  fmt.Sprintf("%d seeds derived from VERIF_SEED=%d", st.runs, d.seed),
		"seeds_per_hour":         int64(perHour),
		"simulated_seconds":      float64(st.vtime) / 1e9,
		"search_wall_s":          searchWall.Seconds(),
		"build_wall_s":           buildWall.Seconds(),
		"workers":                nw,
		"distinct_interleavings": len(st.hashes),
		"dispatches":             st.steps,
		"scheduling_choices":     st.choices,
		"forced_preemptions":     st.preempt,
		"schedulers":             st.pol,
		"scenarios":              st.scen,
		"faults_injected":        faults,
		"faults_total":           nf,
		"events":                 events,
		"replays_checked":        st.replays,
		"replay_mismatches":      st.mismatch,
		"not_reproduced":         unrep,
		"notes":                  st.errs,
		"known_findings":         kf,
		"components":             components[d.prop],
	}
	if replay != "" {
		cov["replay_file"] = replay
	}
	if cov["components"] == nil || components[d.prop] == nil {
		cov["components"] = components["*"]
	}
	ev := map[string]interface{}{
		"property": d.prop, "tier": d.tier, "seed": int64(d.seed), "level": "exploration",
		"coverage": cov,
		"assumptions": []string{
			"One goroutine runs at a time; interleavings are explored at channel, lock, select and timer operations and between the statements of mondis itself, not within single instructions or statements, and the memory model is sequentially consistent.",
			"The transport is a reliable byte stream as TCP is: its faults are delay, fragmentation, back-pressure, stall, partition, refusal and abrupt loss of the connection; bytes are never dropped, duplicated or reordered within a connection.",
			"Sampling: a clean batch is evidence about the schedules and faults drawn, not proof.",
		},
		"wall_s":     wall.Seconds(),
		"violations": code,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Join(d.root, "evidence"), 0o755)
		err = os.WriteFile(filepath.Join(d.root, "evidence", d.prop+".json"), b, 0o644)
	}
	if err != nil {
		fatal(3, "driver: evidence: %v", err)
	}
}

var components = map[string]map[string]string{
	"*": {
		"real": "all of mondis as in the working tree, badger 1.6.0, goleveldb, qrpc, protobuf, the Go runtime and standard library (recompiled with the scheduler, clock, randomness, network and file system calls behind the simulator)",
		"stub": "TCP (in-memory byte streams), wall and monotonic clock (virtual), goroutine scheduler choice, random numbers, outcome and ordering of file system calls (files live on a memory file system); injected storage errors come from a wrapper around the real provider",
	},
}

func init() { _ = sort.Strings }
