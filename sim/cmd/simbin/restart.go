package main

import (
	"errors"
	"os"
	"path/filepath"
	"sort"
	"syscall"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/server"
)

// scheduleRestarts starts the crashes and restarts of the server.
func (cu *Cluster) scheduleRestarts() *Group {
	var fs []Fault
	for _, f := range cu.r.C.Faults {
		if f.K == "srv-crash" || f.K == "srv-restart" {
			fs = append(fs, f)
		}
	}
	grp := NewGroup()
	if len(fs) == 0 || cu.srv == nil {
		return grp
	}
	sort.SliceStable(fs, func(i, j int) bool { return fs[i].At < fs[j].At })
	grp.Go(func() {
		for _, f := range fs {
			if d := f.At - nowNs(); d > 0 {
				time.Sleep(time.Duration(d))
			}
			if f.K == "srv-crash" {
				cu.crashServer(time.Duration(f.Dur))
			} else {
				cu.restartServer(f)
			}
		}
	})
	return grp
}

// crashServer kills the server alone: its clients go on. Whatever the dead
// server still does reaches neither the network nor the disk of its successor.
func (cu *Cluster) crashServer(down time.Duration) {
	r := cu.r
	r.Cov("fault:server-crash")
	r.Tracef("FAULT the server is killed")
	cu.kv.dead = true
	if l := cu.net.lns[simServerAddr]; l != nil {
		l.Close()
	}
	for _, c := range cu.net.conns {
		if !c.rst {
			c.reset()
		}
	}
	cu.gen++
	dir := filepath.Join(r.Work, "data", "gen"+string(rune('0'+cu.gen)))
	copyDir(cu.dir, dir)
	cu.dir = dir
	cu.down = true
	sleepNs(int64(down))
	cu.boot(r.provider())
	cu.down = false
}

// restartServer stops the server in good order and starts a new one. Bits of
// f.Arg: 1: closing the store fails, 2: a server is started whose store cannot
// be opened, 4: a server is started whose address is taken.
func (cu *Cluster) restartServer(f Fault) {
	r := cu.r
	r.Cov("restart-of-server")
	r.Tracef("FAULT the server is stopped")
	cu.down = true
	if f.Arg&1 != 0 {
		cu.kv.closeErr = errors.New("sim: closing failed")
	}
	cu.stopServer()
	r.Tracef("the server has stopped")
	sleepNs(f.Dur)
	if f.Arg&2 != 0 {
		cu.failToStart("whose store cannot be opened", func(kv *FaultKV) error {
			kv.openErr = errors.New("sim: opening failed")
			return kv.openErr
		})
	}
	if f.Arg&4 != 0 {
		l, err := cu.net.Listen("tcp", simServerAddr)
		if err != nil {
			panic(err)
		}
		cu.failToStart("whose address is taken", func(kv *FaultKV) error { return syscall.EADDRINUSE })
		l.Close()
	}
	cu.boot(r.provider())
	cu.down = false
}

// failToStart starts a server that cannot work and must say so.
func (cu *Cluster) failToStart(what string, prep func(kv *FaultKV) error) {
	r := cu.r
	kv := NewFaultKV(r, r.provider())
	want := prep(kv)
	srv := server.New(simServerAddr, kv, server.Option{}, mondis.KVOption{Dir: cu.dir})
	var err error
	r.Call("server-start-failing", time.Minute, func() { err = srv.Start() })
	r.Cov("server-failed-to-start")
	if !errors.Is(err, want) {
		r.Fail("start-error", "Start of a server %s returned %v instead of %v", what, err, want)
	}
	if kv.openErr != nil {
		if l := cu.net.lns[simServerAddr]; l != nil && !l.closed {
			r.Fail("start-error", "a server %s listens", what)
		}
		return
	}
	r.Call("server-stop", 2*time.Minute, func() { err = srv.Stop() })
	if err != nil || kv.closed == 0 {
		r.Fail("server-stop", "Stop of a server %s: %v; its store was closed %d times", what, err, kv.closed)
	}
}

// stopServer stops the server and waits until it is gone.
func (cu *Cluster) stopServer() {
	r := cu.r
	var err error
	srv, ended := cu.srv, cu.ended
	r.Call("server-stop", 2*time.Minute, func() { err = srv.Stop() })
	if want := cu.kv.closeErr; !errors.Is(err, want) {
		r.Fail("server-stop", "Stop returned %v although closing the store returned %v", err, want)
	}
	if cu.kv.closed == 0 {
		r.Fail("server-stop", "the stopped server did not close its store")
	}
	r.Call("server-start-return", time.Minute, func() { <-ended })
	if l := cu.net.lns[simServerAddr]; l != nil && !l.closed {
		r.Fail("server-stop", "the stopped server still listens")
	}
}

// copyDir copies the files of a directory as they are now.
func copyDir(from, to string) {
	hook := syscall.SimHook
	syscall.SimHook = nil
	defer func() { syscall.SimHook = hook }()
	if err := os.MkdirAll(to, 0o755); err != nil {
		panic(err)
	}
	es, err := os.ReadDir(from)
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		if e.IsDir() || e.Name() == "LOCK" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, e.Name()))
		if err == nil {
			err = os.WriteFile(filepath.Join(to, e.Name()), b, 0o644)
		}
		if err != nil {
			panic(err)
		}
	}
}
