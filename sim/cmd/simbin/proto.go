package main

import (
	"encoding/binary"
	"strings"
)

// A reader of protocol buffer messages that shares nothing with the generated
// code under test. It tells which payloads are malformed and what the others
// mean.

type protoField struct {
	kind byte // 'v' varint, 'b' bytes, 'm' message
	sub  protoSpec
}

type protoSpec map[int32]protoField

var (
	protoKey  = protoSpec{1: {kind: 'b'}}
	protoSet  = protoSpec{1: {kind: 'b'}, 2: {kind: 'b'}, 3: {kind: 'm', sub: protoSpec{1: {kind: 'v'}, 2: {kind: 'v'}}}}
	protoScan = protoSpec{1: {kind: 'm', sub: protoSpec{1: {kind: 'v'}, 2: {kind: 'b'}, 3: {kind: 'b'}}}, 2: {kind: 'v'}}
)

type protoMsg struct {
	b map[int32]string
	v map[int32]uint64
	m map[int32]*protoMsg
}

func protoVarint(p *string) (v uint64, ok bool) {
	for i := 0; i < 10 && i < len(*p); i++ {
		c := (*p)[i]
		v |= uint64(c&0x7f) << (7 * uint(i))
		if c < 0x80 {
			*p = (*p)[i+1:]
			return v, true
		}
	}
	return 0, false
}

func protoTake(p *string, n uint64) (s string, ok bool) {
	if n > uint64(len(*p)) {
		return "", false
	}
	s, *p = (*p)[:n], (*p)[n:]
	return s, true
}

// protoSkip skips the rest of an unknown field whose tag was read.
func protoSkip(p *string, wt uint64) bool {
	depth := 0
	for {
		ok := true
		switch wt {
		case 0:
			_, ok = protoVarint(p)
		case 1:
			_, ok = protoTake(p, 8)
		case 2:
			var n uint64
			if n, ok = protoVarint(p); ok {
				_, ok = protoTake(p, n)
			}
		case 3:
			depth++
		case 4:
			depth--
		case 5:
			_, ok = protoTake(p, 4)
		default:
			return false
		}
		if !ok {
			return false
		}
		if depth == 0 {
			return true
		}
		if wt, ok = protoVarint(p); !ok {
			return false
		}
		wt &= 7
	}
}

// protoRead adds the fields in p to m; it returns false if p is malformed.
func protoRead(p string, spec protoSpec, m *protoMsg) bool {
	for p != "" {
		wire, ok := protoVarint(&p)
		if !ok {
			return false
		}
		num, wt := int32(wire>>3), wire&7
		if wt == 4 || num <= 0 {
			return false
		}
		f, is := spec[num]
		if !is {
			if !protoSkip(&p, wt) {
				return false
			}
			continue
		}
		if f.kind == 'v' {
			if wt != 0 {
				return false
			}
			v, ok := protoVarint(&p)
			if !ok {
				return false
			}
			if m.v == nil {
				m.v = map[int32]uint64{}
			}
			m.v[num] = v
			continue
		}
		if wt != 2 {
			return false
		}
		n, ok := protoVarint(&p)
		if !ok {
			return false
		}
		s, ok := protoTake(&p, n)
		if !ok {
			return false
		}
		if f.kind == 'b' {
			if m.b == nil {
				m.b = map[int32]string{}
			}
			m.b[num] = s
			continue
		}
		if m.m == nil {
			m.m = map[int32]*protoMsg{}
		}
		if m.m[num] == nil {
			m.m[num] = &protoMsg{}
		}
		if !protoRead(s, f.sub, m.m[num]) {
			return false
		}
	}
	return true
}

// uv encodes a number as a varint of at least n bytes.
func uv(v uint64, n int) string {
	b := binary.AppendUvarint(nil, v)
	for len(b) < n {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return string(b)
}

// genNasty makes something to add to a payload, mostly malformed.
func genNasty(g *Rng) string {
	// the known fields are 1, 2 and 3
	num := []uint64{1, 1, 1, 2, 3, 4, 9, 16, 1<<29 - 1, 1 << 29, 1 << 31, 1<<32 + 1, 0}[g.N(13)]
	wt := uint64(g.Pick(2, 1, 5, 2, 1, 1, 1, 1))
	tag := uv(num<<3|wt, 1+g.N(2)*g.N(11))
	huge := []uint64{1<<63 - 1, 1<<63 - 2 - uint64(g.N(40)), 1 << 63, 1<<64 - 1, 1<<64 - 1 - uint64(g.N(40)), 1<<62 + uint64(g.N(9)), 1 << 32, 1<<32 - 1, 1 << 31, 5, 127}
	h := huge[g.N(len(huge))]
	body := ""
	switch wt {
	case 0:
		body = uv(h, 1+g.N(12))
	case 1:
		body = strings.Repeat("\x01", 5+g.N(5))
	case 2:
		switch g.N(6) {
		case 0, 1, 2:
			body = uv(h, 1+g.N(2)*g.N(12)) + "x"
		case 3:
			// too long to be a number: what a lenient reader would make of it
			o := g.N(3)
			body = uv(uint64(3+o), 10+o) + "abc"
		case 4:
			// a message inside
			in := uv(uint64(1+g.N(4))<<3|uint64(g.N(6)), 1) + uv(h, 1)
			body = uv(uint64(len(in)+g.N(2)), 1) + in
		case 5:
			body = uv(0, 1+g.N(11))
		}
	case 3:
		// a group, perhaps with others inside, perhaps unfinished
		d := 1 + g.N(4)
		for i := 1; i < d; i++ {
			body += uv(uint64(1+g.N(4))<<3|3, 1)
		}
		switch g.N(4) {
		case 0:
			body += uv(uint64(1+g.N(4))<<3|2, 1) + uv(h, 1) + "x"
		case 1:
			body += uv(uint64(1+g.N(4))<<3, 1) + uv(h, 1)
		case 2:
			body += uv(uint64(1+g.N(4))<<3|5, 1) + "abcd"
		}
		for i := g.N(d + 2); i > 0; i-- {
			body += uv(uint64(1+g.N(4))<<3|4, 1)
		}
	case 5:
		body = strings.Repeat("\x02", 2+g.N(4))
	}
	if g.P(1, 6) {
		// a tag that does not fit what follows
		tag = uv(num<<3|uint64(g.N(8)), 1)
	}
	return tag + body
}
