package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/pb"
	"github.com/zhiqiangxu/mondis/server"
	"github.com/zhiqiangxu/qrpc"
)

// rawClient speaks to the server without the client library: any frames, in
// any order, valid or not. Its operations are
//
//	conn  (re)connect
//	one   a frame of its own (A: command, B: flags, C: request id shift, S: payload, D: groups begun behind it)
//	open  a frame that begins a stream in slot D
//	more  a frame of the stream in slot D
//	rst   cancels the stream in slot D
//	bytes S, which need not be a frame
//	cut   closes the connection
//	think
//
// Every frame with C&1 waits for its response before going on.
type rawClient struct {
	r     *Run
	h     *kvHist
	cu    *Cluster
	id    int
	mute  bool // never reads
	c     net.Conn
	next  uint64
	last  uint64 // id of the last frame of its own
	resp  map[uint64][]rawFrame
	eof   bool
	wq    waitq
	slots map[int64]*rawStream
}

type rawFrame struct {
	cmd     qrpc.Cmd
	flags   qrpc.FrameFlag
	payload []byte
}

type rawStream struct {
	id   uint64
	t    *kvTx
	bad  bool // a malformed or ending frame was sent: nothing may take effect any more
	over bool
	n    int  // responses to expect so far
	upd  bool // may write
}

func (k *rawClient) connect() {
	k.cut()
	for i := 0; i < 600; i++ {
		c, err := k.cu.net.Dial(simServerAddr)
		if err == nil {
			k.c = c
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if k.c == nil {
		return
	}
	k.r.Cov("raw:connect")
	k.next = 1
	k.last, k.eof = 0, false
	k.resp = map[uint64][]rawFrame{}
	k.slots = map[int64]*rawStream{}
	if k.mute {
		return
	}
	c, resp := k.c, k.resp
	go func() {
		for {
			var hd [16]byte
			_, err := io.ReadFull(c, hd[:])
			var p []byte
			if err == nil {
				n := binary.BigEndian.Uint32(hd[:])
				if n < 12 || n > 64<<20 {
					k.r.Fail("server-garbage", "the server sent a frame of length %d", n)
				}
				p = make([]byte, n-12)
				_, err = io.ReadFull(c, p)
			}
			if k.c != c {
				return
			}
			if err != nil {
				k.eof = true
				k.wq.wake()
				return
			}
			id := binary.BigEndian.Uint64(hd[4:])
			cf := binary.BigEndian.Uint32(hd[12:])
			resp[id] = append(resp[id], rawFrame{cmd: qrpc.Cmd(cf & 0xffffff), flags: qrpc.FrameFlag(cf >> 24), payload: p})
			k.wq.wake()
		}
	}()
}

func (k *rawClient) cut() {
	if k.c != nil {
		k.c.Close()
		k.c = nil
		k.r.Cov("raw:cut")
	}
	// what was never committed is lost
	for _, s := range k.sorted() {
		k.end(s, "none")
	}
	k.slots = nil
}

func (k *rawClient) sorted() []*rawStream {
	var l []*rawStream
	for i := int64(0); i < 8; i++ {
		if s := k.slots[i]; s != nil {
			l = append(l, s)
		}
	}
	return l
}

func (k *rawClient) end(s *rawStream, st string) {
	if s.over {
		return
	}
	s.over = true
	if s.bad {
		st = "none"
	}
	s.t.end(k.h, st, nil)
}

// send writes one frame.
func (k *rawClient) send(id uint64, cmd qrpc.Cmd, flags qrpc.FrameFlag, payload string) bool {
	b := make([]byte, 16+len(payload))
	binary.BigEndian.PutUint32(b, uint32(12+len(payload)))
	binary.BigEndian.PutUint64(b[4:], id)
	binary.BigEndian.PutUint32(b[12:], uint32(cmd)&0xffffff|uint32(flags)<<24)
	copy(b[16:], payload)
	return k.write(b)
}

func (k *rawClient) write(b []byte) bool {
	k.c.SetWriteDeadline(time.Now().Add(5 * time.Second))
	_, err := k.c.Write(b)
	return err == nil
}

// await returns the n-th response to id, or nil if none comes.
func (k *rawClient) await(id uint64, n int, d time.Duration) *rawFrame {
	end := nowNs() + int64(d)
	for {
		if l := k.resp[id]; len(l) > n {
			return &l[n]
		}
		if k.eof || k.mute || nowNs() >= end {
			return nil
		}
		k.wq.wait(end)
	}
}

// parse tells what the server has to make of a payload.
func parse(cmd qrpc.Cmd, p string) (ok bool, key, val string, tag uint32, plain bool) {
	var m protoMsg
	switch cmd.Routing() {
	case server.SetCmd:
		if !protoRead(p, protoSet, &m) {
			return
		}
		plain = true
		if meta := m.m[3]; meta != nil {
			plain = meta.v[1] == 0
			tag = uint32(meta.v[2]) & 255
		}
		return true, m.b[1], m.b[2], tag, plain
	case server.DeleteCmd:
		return protoRead(p, protoKey, &m), m.b[1], "", 0, true
	case server.GetCmd, server.ExistsCmd:
		return protoRead(p, protoKey, &m), "", "", 0, true
	case server.ScanCmd:
		return protoRead(p, protoScan, &m), "", "", 0, true
	}
	return true, "", "", 0, true
}

// code is the verdict inside of a response.
func code(f *rawFrame) (int32, bool) {
	switch f.cmd {
	case server.SetRespCmd:
		var m pb.SetResponse
		err := m.Unmarshal(f.payload)
		return m.Code, err == nil
	case server.GetRespCmd:
		var m pb.GetResponse
		err := m.Unmarshal(f.payload)
		return m.Code, err == nil
	case server.ExistsRespCmd:
		var m pb.ExistsResponse
		err := m.Unmarshal(f.payload)
		return m.Code, err == nil
	case server.DeleteRespCmd:
		var m pb.DeleteResponse
		err := m.Unmarshal(f.payload)
		return m.Code, err == nil
	case server.ScanRespCmd:
		var m pb.ScanResponse
		err := m.Unmarshal(f.payload)
		return m.Code, err == nil
	case server.CommitRespCmd:
		var m pb.CommitResponse
		err := m.Unmarshal(f.payload)
		return m.Code, err == nil
	}
	return -1, false
}

// judge checks the response to one frame.
func (k *rawClient) judge(what string, cmd qrpc.Cmd, valid bool, f *rawFrame) {
	if f == nil || f.flags.IsRst() {
		return
	}
	c, ok := code(f)
	if !ok {
		return
	}
	k.r.Cov("raw:response-judged")
	if f.cmd == server.ScanRespCmd {
		var m pb.ScanResponse
		if m.Unmarshal(f.payload) == nil && len(m.Entries) > mondis.MaxEntry {
			k.r.Fail("scan-limit", "raw client %d: a scan was answered with %d entries", k.id, len(m.Entries))
		}
	}
	if !valid && c == server.CodeOK {
		k.r.Fail("malformed-accepted", "raw client %d: a malformed %s (command %d) was answered with success", k.id, what, cmd)
	}
	if valid && known(cmd) && c == server.CodeInvalidRequest {
		k.r.Fail("well-formed-refused", "raw client %d: a well-formed %s (command %d) was refused as malformed", k.id, what, cmd)
	}
	if f.cmd != cmd.Routing()+1 {
		k.r.Fail("wrong-response", "raw client %d: %s with command %d was answered with command %d", k.id, what, cmd, f.cmd)
	}
}

func known(cmd qrpc.Cmd) bool {
	switch cmd.Routing() {
	case server.SetCmd, server.GetCmd, server.ExistsCmd, server.DeleteCmd, server.ScanCmd:
		return true
	}
	return false
}

func (k *rawClient) note(t *kvTx, cmd qrpc.Cmd, key, val string, tag uint32) {
	for _, u := range k.h.keys {
		if u == key && key != "" {
			if cmd.Routing() == server.SetCmd {
				t.write(key, fmt.Sprintf("%s|%d|0", val, tag))
			} else {
				t.remove(key)
			}
			return
		}
	}
}

// skip tells whether a well-formed request is one that the others could not
// account for: a value that expires, or a key of which they do not know.
func (k *rawClient) skip(cmd qrpc.Cmd, key string, plain bool) bool {
	if !plain {
		return true
	}
	if cmd.Routing() != server.SetCmd || key == "" {
		return false
	}
	for _, u := range k.h.keys {
		if u == key {
			return false
		}
	}
	k.r.Cov("raw:foreign-key-skipped")
	return true
}

func (k *rawClient) run(ops []Op) {
	for _, op := range ops {
		if op.K == "think" {
			sleepNs(op.A)
			continue
		}
		if k.c == nil || op.K == "conn" {
			k.connect()
			if k.c == nil || op.K == "conn" {
				continue
			}
		}
		k.step(op)
	}
	k.cut()
}

const rawWait = 3 * time.Second

func (k *rawClient) step(op Op) {
	cmd, flags := qrpc.Cmd(op.A), qrpc.FrameFlag(op.B)
	switch op.K {
	case "cut":
		k.cut()
	case "bytes":
		k.write([]byte(op.S))
		k.r.Cov("raw:bytes")
	case "one":
		if op.D > 0 {
			// a payload of groups in groups in groups
			op.S += strings.Repeat("\x23", int(op.D))
			k.r.Cov("raw:nested-groups")
		}
		valid, key, val, tag, plain := parse(cmd, op.S)
		if valid && k.skip(cmd, key, plain) {
			return
		}
		id := k.next
		switch op.C >> 1 {
		case 0:
			k.last = id
		case 1:
			id++ // looks like one of the server's
		default:
			if k.last == 0 {
				return
			}
			id = k.last
		}
		k.next += 2
		t := k.h.begin(k.id, fmt.Sprintf("raw:%d", cmd), false)
		writes := valid && (cmd.Routing() == server.SetCmd || cmd.Routing() == server.DeleteCmd)
		if writes {
			k.note(t, cmd, key, val, tag)
		}
		st := "none"
		if writes {
			st = "maybe"
		}
		n := len(k.resp[id])
		k.send(id, cmd, flags, op.S)
		if valid {
			k.r.Cov("raw:frame")
		} else {
			k.r.Cov("raw:malformed-frame")
		}
		if op.C&1 != 0 {
			f := k.await(id, n, rawWait)
			k.judge("request", cmd, valid, f)
			if f != nil && !f.flags.IsRst() && writes && op.C>>1 == 0 {
				if c, ok := code(f); ok && c == server.CodeOK {
					st = "ok"
				}
			}
		}
		t.end(k.h, st, nil)
	case "open":
		if s := k.slots[op.D]; s != nil && !s.over {
			return
		}
		valid, key, val, tag, plain := parse(cmd, op.S)
		if valid && k.skip(cmd, key, plain) {
			return
		}
		s := &rawStream{id: k.next, bad: !valid || !known(cmd)}
		s.upd = cmd>>16 == 1 || cmd.Routing() == server.SetCmd || cmd.Routing() == server.DeleteCmd
		k.next += 2
		k.slots[op.D] = s
		s.t = k.h.begin(k.id, "raw-txn", true)
		if valid {
			k.note2(s, cmd, key, val, tag)
		}
		k.send(s.id, cmd, flags|qrpc.StreamFlag, op.S)
		k.r.Cov("raw:stream")
		k.reply(s, op, cmd, valid)
	case "more":
		s := k.slots[op.D]
		if s == nil || s.over {
			return
		}
		if op.C&1 == 0 && cmd == server.CommitCmd {
			// pipelined commits are fine
			k.r.Cov("raw:pipelined-commit")
		}
		if cmd == server.CommitCmd || cmd == server.DiscardCmd {
			st := "none"
			if cmd == server.CommitCmd {
				st = "maybe"
			}
			k.send(s.id, cmd, flags|qrpc.StreamFlag, op.S)
			f := (*rawFrame)(nil)
			if op.C&1 != 0 {
				f = k.await(s.id, s.n, rawWait)
			}
			if f != nil && f.cmd == server.CommitRespCmd && st == "maybe" {
				if c, ok := code(f); ok {
					if c == server.CodeOK && s.bad {
						k.r.Fail("malformed-accepted", "raw client %d: a transaction with a malformed frame was committed", k.id)
					}
					if c == server.CodeOK {
						st = "ok"
						k.r.Cov("raw:committed")
					} else {
						st = "none"
						k.r.Cov("raw:commit-refused")
					}
				}
			}
			k.end(s, st)
			return
		}
		valid, key, val, tag, plain := parse(cmd, op.S)
		if valid && k.skip(cmd, key, plain) {
			return
		}
		if known(cmd) && valid {
			k.note2(s, cmd, key, val, tag)
		}
		k.send(s.id, cmd, flags|qrpc.StreamFlag, op.S)
		if known(cmd) {
			k.reply(s, op, cmd, valid)
		} else {
			k.r.Cov("raw:unknown-command-in-stream")
		}
		if !valid {
			s.bad = true // goes on, but in vain
		}
		if flags&qrpc.StreamEndFlag != 0 {
			// done without having committed
			k.end(s, "none")
		}
	case "rst":
		s := k.slots[op.D]
		if s == nil {
			return
		}
		k.send(s.id, 0, qrpc.StreamRstFlag, "")
		k.r.Cov("raw:rst")
		k.end(s, "none")
	}
}

func (k *rawClient) note2(s *rawStream, cmd qrpc.Cmd, key, val string, tag uint32) {
	if c := cmd.Routing(); s.upd && (c == server.SetCmd || c == server.DeleteCmd) {
		k.note(s.t, cmd, key, val, tag)
	}
}

// reply accounts for the response to a frame of a stream.
func (k *rawClient) reply(s *rawStream, op Op, cmd qrpc.Cmd, valid bool) {
	if !valid {
		k.r.Cov("raw:malformed-frame")
	}
	if op.C&1 != 0 {
		k.judge("frame of a transaction", cmd, valid, k.await(s.id, s.n, rawWait))
	}
	s.n++
}

// splitRaw tells raw clients from those that use the client library.
func splitRaw(cl [][]Op) (honest, raw [][]Op) {
	for _, ops := range cl {
		isRaw := false
		for _, o := range ops {
			switch o.K {
			case "conn", "one", "open", "more", "rst", "bytes", "cut":
				isRaw = true
			}
		}
		if isRaw {
			raw = append(raw, ops)
		} else {
			honest = append(honest, ops)
		}
	}
	return
}

// ---- generator ----

func rawPayload(g *Rng, cmd qrpc.Cmd, key, val string) string {
	var b []byte
	switch cmd.Routing() {
	case server.SetCmd:
		m := pb.SetRequest{Key: []byte(key), Value: []byte(val)}
		if g.P(1, 4) {
			m.Meta = &pb.VMetaReq{Tag: uint32(g.N(300))}
		}
		b, _ = m.Marshal()
	case server.DeleteCmd:
		m := pb.DeleteRequest{Key: []byte(key)}
		b, _ = m.Marshal()
	case server.GetCmd:
		m := pb.GetRequest{Key: []byte(key)}
		b, _ = m.Marshal()
	case server.ExistsCmd:
		m := pb.ExistsRequest{Key: []byte(key)}
		b, _ = m.Marshal()
	case server.ScanCmd:
		m := pb.ScanRequest{Limit: int32([]int{0, 1, 3, 1000, 2000, -1, -1 << 31}[g.N(7)])}
		if g.P(2, 3) {
			m.ProviderScanOption = &pb.ProviderScanOption{Reverse: g.P(1, 3)}
			if g.P(1, 2) {
				m.ProviderScanOption.Prefix = []byte(key)
			}
			if g.P(1, 3) {
				m.ProviderScanOption.Offset = []byte(key)
			}
		}
		b, _ = m.Marshal()
	}
	if g.P(1, 5) {
		if g.P(2, 3) {
			x := genNasty(g)
			if g.P(1, 4) {
				// inside of the message in the request
				n := "\x1a"
				if cmd.Routing() == server.ScanCmd {
					n = "\x0a"
				}
				x = n + uv(uint64(len(x)), 1) + x
			}
			if g.P(1, 3) {
				x += string(b) // the good part comes behind it
			} else {
				x = string(b) + x
			}
			return x
		}
		switch g.N(4) {
		case 0: // cut short
			if len(b) > 1 {
				b = b[:1+g.N(len(b)-1)]
			}
		case 1: // a field that claims to be longer than the rest
			b = append(b, 0x0a, 0x7f, 'x')
		case 2: // no protobuf at all
			b = []byte(strings.Repeat("\xff", 1+g.N(12)))
		case 3:
			b = append(b, byte(g.N(256)), byte(g.N(256)), byte(g.N(256)))
		}
	}
	return string(b)
}

func genP19(g *Rng, tier string, c *Case) {
	genNet(g, c)
	nc := 1 + g.N(3)
	c.P["keys"] = int64(2 + g.N(4))
	m := kvMix{set: 4, get: 4, exists: 1, del: 1, upd: 4, view: 2, think: 2, scan: g.N(2), txmax: 4}
	for i := 0; i < nc; i++ {
		c.Clients = append(c.Clients, genKVOps(g, m, 4+g.N(10), int(c.P["keys"])))
	}
	keys := genKeys(NewRng(mix(c.Seed, 99)), int(c.P["keys"]))
	if g.P(1, 12) {
		c.P["static"] = 1010
		c.P["statpfx"] = int64(g.N(5))
	}
	nr := 1 + g.N(3)
	seq := 0
	for i := 0; i < nr; i++ {
		var ops []Op
		pl := func(cmd qrpc.Cmd) string {
			seq++
			key := keys[g.N(len(keys))]
			if g.P(1, 12) {
				key = ""
			}
			return rawPayload(g, cmd, key, fmt.Sprintf("r%d.%d", i, seq))
		}
		kv := []qrpc.Cmd{server.SetCmd, server.SetCmd, server.SetCmd, server.GetCmd, server.ExistsCmd, server.DeleteCmd, server.ScanCmd}
		n := 3 + g.N(12)
		for len(ops) < n {
			wait := int64(g.N(2))
			switch g.Pick(6, 3, 8, 3, 1, 1, 1, 1, 2) {
			case 0:
				cmd := kv[g.N(len(kv))]
				fl := []qrpc.FrameFlag{0, qrpc.NBFlag, qrpc.NBFlag, qrpc.StreamFlag | qrpc.StreamEndFlag}[g.N(4)]
				o := Op{K: "one", A: int64(cmd), B: int64(fl), C: wait, S: pl(cmd)}
				if g.P(1, 60) {
					o.D = int64([]int{100, 10_000, 1_000_000, 9_000_000}[g.Pick(2, 2, 2, 1)])
				}
				ops = append(ops, o)
			case 1, 2:
				// a transaction, perhaps interleaved with others
				slot := int64(g.N(3))
				cmd := kv[g.N(len(kv))]
				if g.P(2, 3) {
					cmd = qrpc.CmdWithOpaque(cmd, 1)
				}
				ops = append(ops, Op{K: "open", A: int64(cmd), C: wait, D: slot, S: pl(cmd)})
				for j := g.N(5); j > 0; j-- {
					cmd := kv[g.N(len(kv))]
					o := Op{K: "more", A: int64(cmd), C: int64(g.N(2)), D: slot, S: pl(cmd)}
					if g.P(1, 10) {
						o.A = int64([]qrpc.Cmd{server.SetRespCmd, server.DiscardRespCmd, server.CommitRespCmd, 77, 0xffff}[g.N(5)])
					}
					if g.P(1, 12) {
						o.B = int64(qrpc.StreamEndFlag)
					}
					ops = append(ops, o)
				}
				switch g.Pick(4, 1, 1, 1) {
				case 0:
					ops = append(ops, Op{K: "more", A: int64(server.CommitCmd), B: int64(qrpc.StreamEndFlag), C: int64(g.Pick(1, 3)), D: slot})
				case 1:
					ops = append(ops, Op{K: "more", A: int64(server.DiscardCmd), B: int64(qrpc.StreamEndFlag), C: int64(g.N(2)), D: slot})
				case 2:
					ops = append(ops, Op{K: "rst", D: slot})
				}
			case 3:
				ops = append(ops, Op{K: "think", A: g.N64(3_000_000)})
			case 4:
				// a command nobody registered
				ops = append(ops, Op{K: "one", A: int64([]qrpc.Cmd{server.SetRespCmd, server.CommitCmd, server.DiscardCmd, 99}[g.N(4)]), B: int64(qrpc.NBFlag), C: wait, S: pl(server.SetCmd)})
			case 5:
				b := make([]byte, 1+g.N(40))
				for j := range b {
					b[j] = byte(g.N(256))
				}
				if g.P(1, 2) && len(b) > 4 {
					copy(b, []byte{0, 0, 0, byte(g.N(20))})
				}
				ops = append(ops, Op{K: "bytes", S: string(b)}, Op{K: "think", A: g.N64(2_000_000)}, Op{K: "cut"})
			case 6:
				ops = append(ops, Op{K: "cut"})
			case 7:
				// request ids that are shared or look like the server's
				cmd := kv[g.N(len(kv))]
				ops = append(ops, Op{K: "one", A: int64(cmd), B: int64(qrpc.NBFlag), C: 2 * (1 + g.N64(2)), S: pl(cmd)})
			case 8:
				// flags no client uses
				cmd := kv[g.N(len(kv))]
				ops = append(ops, Op{K: "one", A: int64(cmd), B: int64(qrpc.NBFlag | []qrpc.FrameFlag{qrpc.PushFlag, qrpc.CodecFlag}[g.N(2)]), S: pl(cmd)})
			}
		}
		if g.P(1, 6) {
			c.P[fmt.Sprintf("mute%d", i)] = 1
		}
		c.Clients = append(c.Clients, ops)
	}
	if g.P(1, 4) {
		genNetFaults(g, c, 1+g.N(3), 20_000_000)
	}
}

func init() {
	register("P19", "raw", 1, &Scenario{Gen: genP19, Run: runKV})
}
