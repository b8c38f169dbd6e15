// Package build generates the simulation overlay of the Go standard library
// and of the mondis sources, and builds the simulator binary with it.
package build

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// patch is one exact-text edit of a standard library file.
type patch struct {
	file string
	old  string
	new  string
}

// stdPatches puts every source of nondeterminism of the Go runtime and standard
// library behind the simulator.  All of them are inert until runtime.SimStart
// (or the corresponding hook variable) is used.
var stdPatches = []patch{
	// No sysmon thread: no wall-clock-driven preemption, no P retaking.
	{"runtime/proc.go", `const haveSysmon = GOARCH != "wasm"`, `const haveSysmon = false`},

	// All runnable goroutines sit in one global queue, and the simulator's
	// PRNG picks which of them runs next.
	{"runtime/proc.go", "func runqput(pp *p, gp *g, next bool) {\n",
		"func runqput(pp *p, gp *g, next bool) {\n\tif zsim.on {\n\t\tlock(&sched.lock)\n\t\tglobrunqput(gp)\n\t\tunlock(&sched.lock)\n\t\treturn\n\t}\n"},
	{"runtime/proc.go", "func runqputbatch(pp *p, q *gQueue) {\n\tif q.empty() {\n\t\treturn\n\t}\n",
		"func runqputbatch(pp *p, q *gQueue) {\n\tif q.empty() {\n\t\treturn\n\t}\n\tif zsim.on {\n\t\tlock(&sched.lock)\n\t\tglobrunqputbatch(q)\n\t\tunlock(&sched.lock)\n\t\treturn\n\t}\n"},
	{"runtime/proc.go", "\tif sched.runq.size == 0 {\n\t\treturn nil\n\t}\n\n\treturn sched.runq.pop()\n",
		"\tif sched.runq.size == 0 {\n\t\treturn nil\n\t}\n\n\tif zsim.on {\n\t\treturn zsimPick()\n\t}\n\treturn sched.runq.pop()\n"},
	{"runtime/proc.go", "\tn = min(n, sched.runq.size, sched.runq.size/gomaxprocs+1)\n",
		"\tif zsim.on {\n\t\tgp = zsimPick()\n\t\treturn\n\t}\n\tn = min(n, sched.runq.size, sched.runq.size/gomaxprocs+1)\n"},

	// Virtual time: refuse to run past the horizon of the run.
	{"runtime/proc.go", "\t\t\tfaketime = when\n", "\t\t\tfaketime = when\n\t\t\tzsimTimeCheck()\n"},
	{"runtime/time_fake.go", "\treturn faketime / 1e9, int32(faketime % 1e9), faketime\n",
		"\tw := faketime + zsim.wall\n\treturn w / 1e9, int32(w % 1e9), faketime\n"},
	{"runtime/time_fake.go", "\tif !(fd == 1 || fd == 2) {\n", "\tif true {\n"},

	// Deterministic randomness.
	{"runtime/rand.go", "func randinit() {\n", "func randinit() {\n\tstartupRand = zsimStartup[:]\n"},
	{"runtime/rand.go", "\tmp := getg().m\n\tc := &mp.chacha8\n", "\tif zsim.on {\n\t\treturn zsimRand()\n\t}\n\tmp := getg().m\n\tc := &mp.chacha8\n"},
	{"runtime/select.go", "\t\tj := cheaprandn(uint32(norder + 1))\n",
		"\t\tvar j uint32\n\t\tif zsim.on {\n\t\t\tj = uint32(zsimSelect() % uint64(norder+1))\n\t\t} else {\n\t\t\tj = cheaprandn(uint32(norder + 1))\n\t\t}\n"},
	{"runtime/select.go", "func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n",
		"func selectgo(cas0 *scase, order0 *uint16, pc0 *uintptr, nsends, nrecvs int, block bool) (int, bool) {\n\tzsimPoint()\n"},

	// Preemption points: channel operations, mutexes, allocations.
	{"runtime/chan.go", "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n",
		"func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n\tif block {\n\t\tzsimPoint()\n\t}\n"},
	{"runtime/chan.go", "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n",
		"func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n\tif block {\n\t\tzsimPoint()\n\t}\n"},
	// (not internal/sync: the locks sync.Map takes depend on hashes of addresses)
	{"sync/mutex.go", "\tm.mu.Lock()\n", "\truntime_zsimPoint()\n\tm.mu.Lock()\n"},
	{"sync/mutex.go", "\tm.mu.Unlock()\n", "\tm.mu.Unlock()\n\truntime_zsimPoint()\n"},
	{"sync/rwmutex.go", "func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\truntime_zsimPoint()\n"},
	{"sync/rwmutex.go", "\t\trw.rUnlockSlow(r)\n\t}\n", "\t\trw.rUnlockSlow(r)\n\t}\n\truntime_zsimPoint()\n"},
	{"sync/runtime.go", "func runtime_Semrelease(s *uint32, handoff bool, skipframes int)\n",
		"func runtime_Semrelease(s *uint32, handoff bool, skipframes int)\n\n//go:linkname runtime_zsimPoint\nfunc runtime_zsimPoint()\n"},

	// Network: in-memory transport.
	{"net/dial.go", "func Listen(network, address string) (Listener, error) {\n",
		"func Listen(network, address string) (Listener, error) {\n\tif SimListen != nil {\n\t\treturn SimListen(network, address)\n\t}\n"},
	{"net/dial.go", "func DialTimeout(network, address string, timeout time.Duration) (Conn, error) {\n",
		"func DialTimeout(network, address string, timeout time.Duration) (Conn, error) {\n\tif SimDial != nil {\n\t\treturn SimDial(network, address, timeout)\n\t}\n"},

	// Disk: every file system call of package os.
	{"syscall/syscall_unix.go", "func Read(fd int, p []byte) (n int, err error) {\n", "func Read(fd int, p []byte) (n int, err error) {\n" + hookN("SimRead", "fd", `""`, "p", "-1", "0")},
	{"syscall/syscall_unix.go", "func Write(fd int, p []byte) (n int, err error) {\n", "func Write(fd int, p []byte) (n int, err error) {\n" + hookN("SimWrite", "fd", `""`, "p", "-1", "0")},
	{"syscall/syscall_unix.go", "func Pread(fd int, p []byte, offset int64) (n int, err error) {\n", "func Pread(fd int, p []byte, offset int64) (n int, err error) {\n" + hookN("SimRead", "fd", `""`, "p", "offset", "0")},
	{"syscall/syscall_unix.go", "func Pwrite(fd int, p []byte, offset int64) (n int, err error) {\n", "func Pwrite(fd int, p []byte, offset int64) (n int, err error) {\n" + hookN("SimWrite", "fd", `""`, "p", "offset", "0")},
	{"syscall/zsyscall_linux_amd64.go", "func Fsync(fd int) (err error) {\n", "func Fsync(fd int) (err error) {\n" + hookE("SimFsync", "fd", `""`, "0")},
	{"syscall/zsyscall_linux_amd64.go", "func Fdatasync(fd int) (err error) {\n", "func Fdatasync(fd int) (err error) {\n" + hookE("SimFsync", "fd", `""`, "0")},
	{"syscall/zsyscall_linux_amd64.go", "func Ftruncate(fd int, length int64) (err error) {\n", "func Ftruncate(fd int, length int64) (err error) {\n" + hookE("SimTruncate", "fd", `""`, "length")},
	{"syscall/syscall_linux.go", "func Rename(oldpath string, newpath string) (err error) {\n", "func Rename(oldpath string, newpath string) (err error) {\n\tif SimHook != nil {\n\t\tif _, err, ok := SimHook(SimRename, -1, oldpath, []byte(newpath), 0, 0); ok {\n\t\t\treturn err\n\t\t}\n\t}\n"},
	{"syscall/syscall_linux.go", "func Unlink(path string) error {\n", "func Unlink(path string) error {\n\tif SimHook != nil {\n\t\tif _, err, ok := SimHook(SimUnlink, -1, path, nil, 0, 0); ok {\n\t\t\treturn err\n\t\t}\n\t}\n"},
	{"syscall/syscall_linux.go", "func Open(path string, mode int, perm uint32) (fd int, err error) {\n",
		"func Open(path string, mode int, perm uint32) (fd int, err error) {\n\tif SimHook != nil {\n\t\tn, err, ok := SimHook(SimOpen, -1, path, nil, int64(mode), int(perm))\n\t\tif ok {\n\t\t\treturn n, err\n\t\t}\n\t}\n"},
}

func hookN(op, fd, path, p, off, flags string) string {
	return fmt.Sprintf("\tif SimHook != nil && fd > 2 {\n\t\tif n, err, ok := SimHook(%s, %s, %s, %s, %s, %s); ok {\n\t\t\treturn n, err\n\t\t}\n\t}\n", op, fd, path, p, off, flags)
}

func hookE(op, fd, path, off string) string {
	return fmt.Sprintf("\tif SimHook != nil {\n\t\tif _, err, ok := SimHook(%s, %s, %s, nil, %s, 0); ok {\n\t\t\treturn err\n\t\t}\n\t}\n", op, fd, path, off)
}

// stdNew lists files added to the standard library.
var stdNew = map[string]string{
	"runtime/zsim.go": runtimeZsim,
	"net/zsim.go":     "package net\n\nimport \"time\"\n\nvar SimListen func(network, address string) (Listener, error)\nvar SimDial func(network, address string, timeout time.Duration) (Conn, error)\n",
	"syscall/zsim.go": syscallZsim,
}

const syscallZsim = `package syscall

const (
	SimRead = iota
	SimWrite
	SimFsync
	SimTruncate
	SimRename
	SimUnlink
	SimOpen
)

// SimHook, when set, sees every file system call of package os first.
var SimHook func(op int, fd int, path string, p []byte, off int64, flags int) (n int, err error, handled bool)

func SimRawOpen(path string, mode int, perm uint32) (fd int, err error) {
	return openat(_AT_FDCWD, path, mode|O_LARGEFILE, perm)
}
func SimRawRead(fd int, p []byte) (int, error)               { return read(fd, p) }
func SimRawWrite(fd int, p []byte) (int, error)              { return write(fd, p) }
func SimRawPread(fd int, p []byte, off int64) (int, error)   { return pread(fd, p, off) }
func SimRawPwrite(fd int, p []byte, off int64) (int, error)  { return pwrite(fd, p, off) }
`

const runtimeZsim = `package runtime

import "unsafe"

// zsim is the simulator's scheduler state.
var zsim struct {
	on       bool
	policy   uint32
	srng     uint64 // scheduling choices
	prng     uint64 // preemption choices
	vrng     uint64 // values handed to the program
	selrng   uint64 // select
	steps    uint64 // goroutine dispatches
	choices  uint64 // dispatches with more than one runnable goroutine
	preempts uint64
	maxRand  uint64 // choices after which scheduling is FIFO
	maxSteps uint64
	maxTime  int64
	hash     uint64
	tick     int64
	wall     int64
	pointP   uint32 // probability of a yield at a point, out of 1<<16
	epoch    uint32 // log2 of the priority epoch
	base     uint64
}

var zsimStartup = [16]byte{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}

//go:nosplit
func zsimNext(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func zsimMix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func zsimRand() uint64 { return zsimNext(&zsim.vrng) }

//go:nosplit
func zsimSelect() uint64 { return zsimNext(&zsim.selrng) }

// SimConfig configures a simulated execution.
type SimConfig struct {
	Seed     uint64
	Policy   uint32 // 0 fifo, 1 uniform, 2 priority epochs, 3 lifo-biased
	Epoch    uint32
	PointP   uint32
	MaxRand  uint64
	MaxSteps uint64
	MaxTime  int64
	Tick     int64
}

// SimStart switches the simulator on. It must be called from the main
// goroutine before the system under test is started.
func SimStart(c SimConfig) {
	zsim.policy = c.Policy
	zsim.srng = zsimMix(c.Seed ^ 0x1111)
	zsim.prng = zsimMix(c.Seed ^ 0x2222)
	zsim.vrng = zsimMix(c.Seed ^ 0x3333)
	zsim.selrng = zsimMix(c.Seed ^ 0x4444)
	zsim.base = zsimMix(c.Seed ^ 0x5555)
	zsim.epoch = c.Epoch
	zsim.pointP = c.PointP
	zsim.maxRand = c.MaxRand
	zsim.maxSteps = c.MaxSteps
	zsim.maxTime = c.MaxTime
	zsim.tick = c.Tick
	zsim.hash = 0xcbf29ce484222325
	zsim.on = true
	Gosched()
}

// SimStats reports dispatches, choices, preemptions, trace hash and virtual
// nanoseconds elapsed.
func SimStats() (steps, choices, preempts, hash uint64, vtime int64) {
	return zsim.steps, zsim.choices, zsim.preempts, zsim.hash, faketime - 1257894000000000000
}

// SimWall shifts the wall clock (not the monotonic clock).
func SimWall(d int64) { zsim.wall += d }

// SimQuiet makes the scheduler FIFO and stops preemption from now on.
func SimQuiet() { zsim.maxRand = 0; zsim.pointP = 0 }

// SimRandState and SimSetRandState save and restore the state of the random
// numbers the runtime hands out (map iteration and the like).
func SimRandState() uint64     { return zsim.vrng }
func SimSetRandState(s uint64) { zsim.vrng = s }

// SimGoid identifies the calling goroutine.
func SimGoid() uint64 { return uint64(getg().goid) }

// SimPoint is a potential preemption point.
func SimPoint() { zsimPoint() }

func zsimPoint() {
	if !zsim.on || zsim.pointP == 0 {
		return
	}
	if uint32(zsimNext(&zsim.prng)&0xffff) >= zsim.pointP {
		return
	}
	gp := getg()
	mp := gp.m
	if gp == mp.g0 || gp == mp.gsignal || mp.locks != 0 || mp.mallocing != 0 || mp.preemptoff != "" || mp.curg != gp {
		return
	}
	if zsim.choices >= zsim.maxRand {
		return
	}
	zsim.preempts++
	Gosched()
}

//go:linkname sync_zsimPoint sync.runtime_zsimPoint
func sync_zsimPoint() { zsimPoint() }

//go:nowritebarrierrec
func zsimPick() *g {
	n := sched.runq.size
	zsim.steps++
	faketime += zsim.tick
	if zsim.steps > zsim.maxSteps {
		zsimDie("SIM-STEP-LIMIT\n", 97)
	}
	k := int32(0)
	if n > 1 {
		zsim.choices++
		if zsim.choices <= zsim.maxRand {
			r := zsimNext(&zsim.srng)
			switch zsim.policy {
			case 1:
				k = int32(r % uint64(n))
			case 2:
				if r&7 == 0 {
					k = int32((r >> 3) % uint64(n))
				} else {
					ep := zsim.choices >> zsim.epoch
					var best uint64
					i := int32(0)
					for gp := sched.runq.head.ptr(); gp != nil; gp = gp.schedlink.ptr() {
						p := zsimMix(zsim.base ^ gp.goid*0x9e3779b97f4a7c15 ^ ep<<40)
						if i == 0 || p > best {
							best = p
							k = i
						}
						i++
					}
				}
			case 3:
				if r&3 != 0 {
					k = n - 1
				} else {
					k = int32((r >> 3) % uint64(n))
				}
			}
		}
	}
	var prev *g
	gp := sched.runq.head.ptr()
	for i := int32(0); i < k; i++ {
		prev = gp
		gp = gp.schedlink.ptr()
	}
	if prev == nil {
		gp = sched.runq.pop()
	} else {
		prev.schedlink = gp.schedlink
		if gp.schedlink == 0 {
			sched.runq.tail.set(prev)
		}
		sched.runq.size--
		gp.schedlink = 0
	}
	zsim.hash = (zsim.hash ^ (gp.goid<<8 | uint64(uint8(n)))) * 0x100000001b3
	return gp
}

func zsimTimeCheck() {
	if zsim.on && faketime-1257894000000000000 > zsim.maxTime {
		zsimDie("SIM-TIME-LIMIT\n", 98)
	}
}

func zsimDie(s string, code int32) {
	write1(2, unsafe.Pointer(unsafe.StringData(s)), int32(len(s)))
	exit(code)
}
`

// WriteStd writes the patched standard library files under dir and adds them
// to the overlay map.
func WriteStd(goroot, dir string, overlay map[string]string) error {
	byFile := map[string][]patch{}
	for _, p := range stdPatches {
		byFile[p.file] = append(byFile[p.file], p)
	}
	put := func(rel, body string) error {
		dst := filepath.Join(dir, "std", strings.ReplaceAll(rel, "/", "__"))
		if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
			return err
		}
		if err := writeIfChanged(dst, []byte(body)); err != nil {
			return err
		}
		overlay[filepath.Join(goroot, "src", rel)] = dst
		return nil
	}
	for f, ps := range byFile {
		b, err := os.ReadFile(filepath.Join(goroot, "src", f))
		if err != nil {
			return err
		}
		s := string(b)
		for _, p := range ps {
			if strings.Count(s, p.old) != 1 {
				return fmt.Errorf("std patch for %s: %d matches of %q", f, strings.Count(s, p.old), p.old)
			}
			s = strings.Replace(s, p.old, p.new, 1)
		}
		if err := put(f, s); err != nil {
			return err
		}
	}
	for f, s := range stdNew {
		if err := put(f, s); err != nil {
			return err
		}
	}
	return nil
}

func writeIfChanged(path string, b []byte) error {
	if old, err := os.ReadFile(path); err == nil && string(old) == string(b) {
		return nil
	}
	return os.WriteFile(path, b, 0o644)
}

// WriteOverlay writes the overlay file itself.
func WriteOverlay(path string, overlay map[string]string) error {
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err != nil {
		return err
	}
	return writeIfChanged(path, b)
}
