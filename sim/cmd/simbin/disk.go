package main

import (
	"runtime"
	"strings"
	"syscall"
)

// Disk is the simulated disk: it sees every file system call of package os
// below the data directory and decides which of them fail, tear or crash.
type Disk struct {
	r       *Run
	rng     *Rng
	fds     map[int]*dfile
	ops     int64 // mutating operations so far
	crashAt int64 // crash during this mutating operation (0: never)
	power   bool  // the crash loses what was not synced
	errs    []diskErr
	nerr    int64
	log     []undo
	sizes   map[string]int64
	dead    bool
	Reads   int64
	from    int64
}

type dfile struct {
	path string
	sync bool
	app  bool
}

type diskErr struct {
	at   int64 // first mutating operation that fails
	n    int64 // how many fail
	mode int64 // 0 EIO, 1 ENOSPC, 2 short write, 3 fsync EIO, 4 read EIO, 5 EIO of value log writes
}

type undo struct {
	path string
	off  int64
	old  []byte
	neu  []byte
	size int64 // size before
	trun bool
}

func NewDisk(r *Run) *Disk {
	d := &Disk{r: r, rng: NewRng(mix(r.C.Seed, 47000+uint64(r.Stage))), fds: map[int]*dfile{}}
	r.disk = d
	syscall.SimHook = d.hook
	return d
}

// Arm schedules the disk faults of this stage: operation counts are relative
// to now.
func (d *Disk) Arm() {
	d.from = d.ops
	for _, f := range d.r.C.Faults {
		if f.T != int64(d.r.Stage) {
			continue
		}
		switch f.K {
		case "disk-crash":
			d.crashAt = d.ops + f.At
		case "disk-power":
			d.crashAt = d.ops + f.At
			d.power = true
		case "disk-err":
			e := diskErr{at: d.ops + f.At, n: f.Dur, mode: f.Arg}
			if f.Arg == 4 {
				e.at = d.Reads + f.At
			}
			d.errs = append(d.errs, e)
		}
	}
}

func (d *Disk) Disarm() { d.crashAt = 0; d.errs = nil }

const oDSYNC = 0x1000

func (d *Disk) hook(op int, fd int, path string, p []byte, off int64, flags int) (int, error, bool) {
	switch op {
	case syscall.SimOpen:
		if !strings.HasPrefix(path, d.r.Dir) {
			n, err := syscall.SimRawOpen(path, int(off), uint32(flags))
			if err == nil {
				delete(d.fds, n)
			}
			return n, err, true
		}
		mode := int(off)
		if mode&(syscall.O_CREAT|syscall.O_TRUNC) != 0 {
			if e := d.mutate("open", 0, fd, path, nil, 0); e != nil {
				return -1, e, true
			}
		}
		n, err := syscall.SimRawOpen(path, mode, uint32(flags))
		if err == nil {
			d.fds[n] = &dfile{path: path, sync: mode&oDSYNC != 0, app: mode&syscall.O_APPEND != 0}
		}
		return n, err, true
	case syscall.SimRename:
		if !strings.HasPrefix(path, d.r.Dir) {
			return 0, nil, false
		}
		if e := d.mutate("rename", 0, fd, path, nil, 0); e != nil {
			return 0, e, true
		}
		for i := range d.log {
			if d.log[i].path == path {
				d.log[i].path = string(p)
			}
		}
		for _, f := range d.fds {
			if f.path == path {
				f.path = string(p)
			}
		}
		return 0, nil, false
	case syscall.SimUnlink:
		if !strings.HasPrefix(path, d.r.Dir) {
			return 0, nil, false
		}
		if e := d.mutate("unlink", 0, fd, path, nil, 0); e != nil {
			return 0, e, true
		}
		return 0, nil, false
	}
	f := d.fds[fd]
	if f == nil {
		return 0, nil, false
	}
	switch op {
	case syscall.SimRead:
		d.Reads++
		for _, e := range d.errs {
			if e.mode == 4 && d.Reads >= e.at && d.Reads < e.at+e.n {
				d.nerr++
				d.r.Cov("fault:disk-read-eio")
				return 0, syscall.EIO, true
			}
		}
		return 0, nil, false
	case syscall.SimWrite:
		if e := d.mutate("write", len(p), fd, f.path, p, off); e != nil {
			if e == errShort {
				n, err := d.rawWrite(fd, f, p[:len(p)/2], off)
				if err == nil {
					err = syscall.ENOSPC
				}
				return n, err, true
			}
			return -1, e, true
		}
		n, err := d.rawWrite(fd, f, p, off)
		return n, err, true
	case syscall.SimFsync:
		if e := d.mutate("fsync", 0, fd, f.path, nil, 0); e != nil {
			return 0, e, true
		}
		d.synced(f.path)
		return 0, nil, true // /dev/shm: nothing to flush
	case syscall.SimTruncate:
		if e := d.mutate("truncate", 0, fd, f.path, nil, off); e != nil {
			return 0, e, true
		}
		return 0, nil, false
	}
	return 0, nil, false
}

func (d *Disk) rawWrite(fd int, f *dfile, p []byte, off int64) (int, error) {
	if !f.sync && d.crashAt != 0 && d.power {
		d.note(fd, f, p, off)
	}
	if off >= 0 {
		return syscall.SimRawPwrite(fd, p, off)
	}
	return syscall.SimRawWrite(fd, p)
}

// note remembers what a write that was not synced replaces.
func (d *Disk) note(fd int, f *dfile, p []byte, off int64) {
	size, _ := syscall.Seek(fd, 0, 1)
	var st syscall.Stat_t
	syscall.Fstat(fd, &st)
	if off < 0 {
		off = size
		if f.app {
			off = st.Size
		}
	}
	u := undo{path: f.path, off: off, size: st.Size, neu: append([]byte(nil), p...)}
	if off < st.Size {
		n := int64(len(p))
		if off+n > st.Size {
			n = st.Size - off
		}
		u.old = make([]byte, n)
		rfd, err := syscall.SimRawOpen(f.path, syscall.O_RDONLY, 0)
		if err == nil {
			syscall.SimRawPread(rfd, u.old, off)
			syscall.Close(rfd)
		}
	}
	d.log = append(d.log, u)
}

func (d *Disk) synced(path string) {
	out := d.log[:0]
	for _, u := range d.log {
		if u.path != path {
			out = append(out, u)
		}
	}
	d.log = out
}

type shortErr struct{}

func (shortErr) Error() string { return "short" }

var errShort error = shortErr{}

// mutate counts a mutating operation and applies the fault planned for it.
func (d *Disk) mutate(kind string, n int, fd int, path string, p []byte, off int64) error {
	d.ops++
	if d.r.verb {
		d.r.Tracef("disk #%d %s %s len=%d", d.ops, kind, strings.TrimPrefix(path, d.r.Dir), n)
	}
	if d.crashAt != 0 && d.ops >= d.crashAt {
		if kind == "write" && n > 0 {
			// a prefix of the write reaches the file: for value logs mostly
			// nothing or all of it, see DESIGN.md
			k := d.rng.N(n + 1)
			if strings.HasSuffix(path, ".vlog") && !d.rng.P(1, []int{12, 2}[d.r.C.P["torn"]]) {
				k = d.rng.N(2) * n
			}
			if f := d.fds[fd]; f != nil && k > 0 {
				d.rawWrite(fd, f, p[:k], off)
				if k < n {
					d.r.Cov("fault:torn-write")
				}
			}
		}
		d.r.Cov("crash-in:" + kind)
		d.Crash()
	}
	for _, e := range d.errs {
		if d.ops >= e.at && d.ops < e.at+e.n {
			switch {
			case e.mode == 0, e.mode == 5 && kind == "write" && strings.HasSuffix(path, ".vlog"):
				d.nerr++
				d.r.Cov("fault:disk-eio")
				return syscall.EIO
			case e.mode == 1 && (kind == "write" || kind == "open"):
				d.nerr++
				d.r.Cov("fault:disk-enospc")
				return syscall.ENOSPC
			case e.mode == 2 && kind == "write" && n > 1:
				d.nerr++
				d.r.Cov("fault:short-write")
				return errShort
			case e.mode == 3 && kind == "fsync":
				d.nerr++
				d.r.Cov("fault:fsync-error")
				return syscall.EIO
			}
		}
	}
	return nil
}

// Crash kills the simulated process; with power set, writes that were never
// synced may be lost.
func (d *Disk) Crash() {
	runtime.SimQuiet()
	syscall.SimHook = nil
	if d.power {
		d.r.Cov("fault:power-loss")
		lost := 0
		for i := len(d.log) - 1; i >= 0; i-- {
			u := d.log[i]
			fd, err := syscall.SimRawOpen(u.path, syscall.O_RDWR, 0)
			if err != nil {
				continue
			}
			if len(u.old) > 0 {
				syscall.SimRawPwrite(fd, u.old, u.off)
			}
			syscall.Ftruncate(fd, u.size)
			syscall.Close(fd)
		}
		for _, u := range d.log {
			k := len(u.neu)
			switch d.rng.N(3) {
			case 0:
				k = 0
				lost++
			case 1:
				k = d.rng.N(k + 1)
				lost++
			}
			if k == 0 {
				continue
			}
			fd, err := syscall.SimRawOpen(u.path, syscall.O_RDWR, 0)
			if err != nil {
				continue
			}
			syscall.SimRawPwrite(fd, u.neu[:k], u.off)
			syscall.Close(fd)
		}
		d.r.CovN("fault:lost-write", int64(lost))
	}
	d.r.Crash()
}
