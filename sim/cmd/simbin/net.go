package main

import (
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"

	"github.com/zhiqiangxu/qrpc"
)

// Net is the simulated network: an in-memory byte-stream transport whose
// delays, fragmentation and failures are decided by the run's PRNG.
//
// The simulator runs one goroutine at a time and never preempts harness code,
// so this file needs no locks.
type Net struct {
	r         *Run
	rng       *Rng
	lns       map[string]*simListener
	conns     []*simConn // client ends, in creation order
	stall     int64      // no delivery before this virtual time
	part      int64      // dials time out before this virtual time
	refuse    int64      // dials refused before this virtual time
	slowTill  int64
	slowMax   int64
	baseDelay int64
	maxSeg    int
	bytes     int64
	cuts      []int64 // reset the writing connection at these byte counts
	window    int
}

func NewNet(r *Run) *Net {
	n := &Net{r: r, rng: NewRng(mix(r.C.Seed, 31000+uint64(r.Stage))), lns: map[string]*simListener{}, window: 1 << 16}
	n.baseDelay = r.C.P["netdelay"]
	n.maxSeg = int(r.C.P["netseg"])
	if w := r.C.P["netwin"]; w > 0 {
		n.window = int(w)
	}
	r.net = n
	net.SimListen = n.Listen
	net.SimDial = func(network, addr string, d time.Duration) (net.Conn, error) { return n.Dial(addr) }
	return n
}

// genNet chooses the parameters of the simulated network.
func genNet(g *Rng, c *Case) {
	c.P["netdelay"] = []int64{0, 1000, 20_000, 300_000}[g.N(4)]
	c.P["netseg"] = []int64{0, 0, 1, 7, 64}[g.N(5)]
	c.P["netwin"] = []int64{0, 0, 64, 4096}[g.N(4)]
}

// schedule starts the injection of the network faults of the case.
func (n *Net) schedule() {
	for _, f := range n.r.C.Faults {
		f := f
		switch f.K {
		case "net-cut":
			n.cuts = append(n.cuts, n.bytes+f.At)
		case "net-reset", "net-stall", "net-partition", "net-refuse", "net-slow":
			go func() {
				sleepNs(f.At)
				n.inject(f)
			}()
		}
	}
}

func (n *Net) inject(f Fault) {
	now := nowNs()
	n.r.Cov("fault:" + f.K)
	n.r.Tracef("FAULT %s arg=%d dur=%v", f.K, f.Arg, time.Duration(f.Dur))
	switch f.K {
	case "net-reset":
		live := n.live()
		if f.T < 0 {
			for _, c := range live {
				c.reset()
			}
		} else if len(live) > 0 {
			live[int(f.T)%len(live)].reset()
		}
	case "net-stall":
		n.stall = max64(n.stall, now+f.Dur)
	case "net-partition":
		n.stall = max64(n.stall, now+f.Dur)
		n.part = max64(n.part, now+f.Dur)
	case "net-refuse":
		n.refuse = max64(n.refuse, now+f.Dur)
	case "net-slow":
		n.slowTill = max64(n.slowTill, now+f.Dur)
		n.slowMax = f.Arg
	}
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (n *Net) live() []*simConn {
	var out []*simConn
	for _, c := range n.conns {
		if !c.rst && !c.closed {
			out = append(out, c)
		}
	}
	return out
}

// genNetFaults draws network faults within the window of virtual time.
func genNetFaults(g *Rng, c *Case, n int, window int64) {
	for i := 0; i < n; i++ {
		f := Fault{At: g.N64(window)}
		switch g.Pick(4, 5, 2, 2, 1, 1) {
		case 0:
			f.K = "net-reset"
			f.T = int64(g.N(5)) - 1
		case 1:
			f.K = "net-cut"
			f.At = 1 + g.N64(6000)
		case 2:
			f.K = "net-stall"
			f.Dur = 1 + g.N64(window)
		case 3:
			f.K = "net-partition"
			f.Dur = 1 + g.N64(4_000_000_000)
		case 4:
			f.K = "net-refuse"
			f.Dur = 1 + g.N64(5_000_000_000)
		case 5:
			f.K = "net-slow"
			f.Dur = 1 + g.N64(window)
			f.Arg = 1 + g.N64(3_000_000)
		}
		c.Faults = append(c.Faults, f)
	}
}

// ---- waiting ----

type waitq struct{ ws []chan struct{} }

func (q *waitq) wake() {
	for _, w := range q.ws {
		close(w)
	}
	q.ws = nil
}

// wait blocks until woken or until virtual time t (0 = forever).
func (q *waitq) wait(t int64) {
	w := make(chan struct{})
	q.ws = append(q.ws, w)
	if t == 0 {
		<-w
		return
	}
	d := t - nowNs()
	if d < 0 {
		d = 0
	}
	tm := time.NewTimer(time.Duration(d))
	select {
	case <-w:
	case <-tm.C:
		for i, x := range q.ws {
			if x == w {
				q.ws = append(q.ws[:i:i], q.ws[i+1:]...)
				break
			}
		}
	}
	tm.Stop()
}

// ---- listener ----

type simListener struct {
	n      *Net
	addr   string
	q      []*simConn
	closed bool
	wq     waitq
}

func (n *Net) Listen(network, addr string) (net.Listener, error) {
	if l := n.lns[addr]; l != nil && !l.closed {
		return nil, &net.OpError{Op: "listen", Net: network, Addr: simAddr(addr), Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
	}
	l := &simListener{n: n, addr: addr}
	n.lns[addr] = l
	return l, nil
}

func (l *simListener) Accept() (net.Conn, error) {
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: simAddr(l.addr), Err: net.ErrClosed}
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			return c, nil
		}
		l.wq.wait(0)
	}
}

func (l *simListener) Close() error {
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: simAddr(l.addr), Err: net.ErrClosed}
	}
	l.closed = true
	for _, c := range l.q {
		c.reset()
	}
	l.q = nil
	l.wq.wake()
	return nil
}
func (l *simListener) Addr() net.Addr { return simAddr(l.addr) }

type simAddr string

func (a simAddr) Network() string { return "tcp" }
func (a simAddr) String() string  { return string(a) }

// ---- connections ----

type segment struct {
	b  []byte
	at int64
}

type simConn struct {
	n        *Net
	id       int
	server   bool
	peer     *simConn
	in       []segment // towards this end
	inBytes  int
	lastAt   int64
	eof      bool // peer closed
	eofAt    int64
	rst      bool
	closed   bool
	rdl, wdl time.Time
	wq       waitq // state of this end changed
}

func (n *Net) Dial(addr string) (net.Conn, error) {
	derr := func(e error) error {
		return &net.OpError{Op: "dial", Net: "tcp", Addr: simAddr(addr), Err: e}
	}
	sleepNs(n.delay())
	now := nowNs()
	if n.part > now {
		// connection attempts into a partition time out
		sleepNs(n.part - now + 1)
		n.r.Cov("fault:dial-timeout")
		return nil, derr(os.ErrDeadlineExceeded)
	}
	if n.refuse > now {
		n.r.Cov("fault:dial-refused")
		return nil, derr(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	l := n.lns[addr]
	if l == nil || l.closed {
		return nil, derr(os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	id := len(n.conns)
	a := &simConn{n: n, id: id}
	b := &simConn{n: n, id: id, server: true, peer: a}
	a.peer = b
	n.conns = append(n.conns, a)
	l.q = append(l.q, b)
	l.wq.wake()
	n.r.Cov("net:connect")
	return a, nil
}

// OverlayNetwork is the client's own seam for replacing the transport.
func (n *Net) OverlayNetwork(addr string, _ qrpc.DialConfig) (net.Conn, error) { return n.Dial(addr) }

func (n *Net) delay() int64 {
	d := int64(0)
	if n.baseDelay > 0 {
		d = n.rng.N64(n.baseDelay) + 1
	}
	if nowNs() < n.slowTill && n.slowMax > 0 {
		d += n.rng.N64(n.slowMax)
	}
	return d
}

func (c *simConn) err(op string, e error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.LocalAddr(), Addr: c.RemoteAddr(), Err: e}
}

// reset aborts the connection at both ends; undelivered data is lost.
func (c *simConn) reset() {
	for _, e := range []*simConn{c, c.peer} {
		e.rst = true
		e.in = nil
		e.inBytes = 0
		e.wq.wake()
	}
}

func (c *simConn) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for {
		if c.closed {
			return 0, c.err("read", net.ErrClosed)
		}
		now := nowNs()
		if !c.rdl.IsZero() && !time.Now().Before(c.rdl) {
			return 0, c.err("read", os.ErrDeadlineExceeded)
		}
		next := int64(0)
		if len(c.in) > 0 {
			at := max64(c.in[0].at, c.n.stall)
			if at <= now {
				s := &c.in[0]
				m := copy(p, s.b)
				if k := c.n.maxSeg; k > 0 {
					if q := 1 + c.n.rng.N(k*4); q < m {
						m = q
					}
				}
				s.b = s.b[m:]
				if len(s.b) == 0 {
					c.in = c.in[1:]
				}
				c.inBytes -= m
				c.peer.wq.wake()
				return m, nil
			}
			next = at
		} else if c.rst {
			return 0, c.err("read", os.NewSyscallError("read", syscall.ECONNRESET))
		} else if c.eof {
			at := max64(c.eofAt, c.n.stall)
			if at <= now {
				return 0, io.EOF
			}
			next = at
		}
		if !c.rdl.IsZero() {
			d := now + int64(c.rdl.Sub(time.Now()))
			if next == 0 || d < next {
				next = d
			}
		}
		if next != 0 && next <= now {
			next = now + 1
		}
		c.wq.wait(next)
	}
}

func (c *simConn) Write(p []byte) (int, error) {
	total := 0
	for {
		if c.closed {
			return total, c.err("write", net.ErrClosed)
		}
		if c.rst {
			return total, c.err("write", os.NewSyscallError("write", syscall.ECONNRESET))
		}
		if c.peer.closed {
			c.reset()
			return total, c.err("write", os.NewSyscallError("write", syscall.EPIPE))
		}
		if len(p) == 0 {
			return total, nil
		}
		if !c.wdl.IsZero() && !time.Now().Before(c.wdl) {
			return total, c.err("write", os.ErrDeadlineExceeded)
		}
		room := c.n.window - c.peer.inBytes
		if room <= 0 {
			next := int64(0)
			if !c.wdl.IsZero() {
				next = nowNs() + int64(c.wdl.Sub(time.Now()))
				if next <= nowNs() {
					next = nowNs() + 1
				}
			}
			c.wq.wait(next)
			continue
		}
		m := len(p)
		if m > room {
			m = room
		}
		cut := false
		for i, at := range c.n.cuts {
			if at > c.n.bytes && at <= c.n.bytes+int64(m) {
				m = int(at - c.n.bytes)
				cut = true
				c.n.cuts = append(c.n.cuts[:i:i], c.n.cuts[i+1:]...)
				break
			}
		}
		at := max64(nowNs()+c.n.delay(), c.peer.lastAt)
		c.peer.lastAt = at
		b := make([]byte, m)
		copy(b, p[:m])
		c.peer.in = append(c.peer.in, segment{b: b, at: at})
		c.peer.inBytes += m
		c.n.bytes += int64(m)
		p = p[m:]
		total += m
		c.peer.wq.wake()
		if cut {
			// The bytes up to the cut are delivered, then the connection dies.
			c.n.r.Cov("fault:net-cut")
			c.n.r.Tracef("FAULT net-cut conn %d after %d bytes", c.id, c.n.bytes)
			keep := c.peer.in
			kb := c.peer.inBytes
			c.reset()
			c.peer.in, c.peer.inBytes = keep, kb
			c.peer.wq.wake()
		}
	}
}

func (c *simConn) Close() error {
	if c.closed {
		return c.err("close", net.ErrClosed)
	}
	c.closed = true
	if len(c.in) > 0 {
		c.reset()
	} else {
		c.peer.eof = true
		c.peer.eofAt = max64(nowNs()+c.n.delay(), c.peer.lastAt)
	}
	c.wq.wake()
	c.peer.wq.wake()
	return nil
}

func (c *simConn) LocalAddr() net.Addr {
	if c.server {
		return simAddr("sim-server:1")
	}
	return simAddr("sim-client:1")
}
func (c *simConn) RemoteAddr() net.Addr { return c.peer.LocalAddr() }
func (c *simConn) SetDeadline(t time.Time) error {
	c.rdl, c.wdl = t, t
	c.wq.wake()
	return nil
}
func (c *simConn) SetReadDeadline(t time.Time) error  { c.rdl = t; c.wq.wake(); return nil }
func (c *simConn) SetWriteDeadline(t time.Time) error { c.wdl = t; c.wq.wake(); return nil }

func (c *simConn) SetKeepAlive(bool) error                { return nil }
func (c *simConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *simConn) SetWriteBuffer(int) error               { return nil }
func (c *simConn) SetReadBuffer(int) error                { return nil }
func (c *simConn) SetNoDelay(bool) error                  { return nil }

var errUnused = errors.New("unused")
