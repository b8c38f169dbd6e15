package main

import "sort"

// LOp is one operation of a history to be linearised: it observes and then
// changes registers.  Register values are small integers, 0 = absent.
type LOp struct {
	Inv, Ret int64 // Ret 0: never returned
	Opt      bool  // may also never have taken effect
	Reads    []LRW
	Writes   []LRW
	Ref      interface{}
}

type LRW struct{ K, V int }

// anyVal in a read matches every present value.
const anyVal = -1

// Linearizable searches for a total order of the operations that respects
// real time and in which every operation observes the registers as the
// preceding ones left them.  It returns ok, and whether the search was
// completed within its budget; on failure, the index of the operation the
// search never got past.
func Linearizable(ops []LOp, nkeys int, init []int, budget int) (ok, done bool, stuck int) {
	const inf = int64(1) << 62
	n := len(ops)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(a, b int) bool { return ops[idx[a]].Inv < ops[idx[b]].Inv })
	o := make([]LOp, n)
	for i, j := range idx {
		o[i] = ops[j]
		if o[i].Ret == 0 {
			o[i].Ret = inf
		}
	}
	words := (n + 63) / 64
	type node struct {
		done  []uint64
		state []int
	}
	seen := map[string]bool{}
	key := func(nd *node) string {
		b := make([]byte, 0, words*8+nkeys*4)
		for _, w := range nd.done {
			for i := 0; i < 8; i++ {
				b = append(b, byte(w>>(8*i)))
			}
		}
		for _, v := range nd.state {
			b = append(b, byte(v), byte(v>>8), byte(v>>16))
		}
		return string(b)
	}
	start := &node{done: make([]uint64, words), state: append([]int(nil), init...)}
	for len(start.state) < nkeys {
		start.state = append(start.state, 0)
	}
	mandatory := 0
	for i := range o {
		if !o[i].Opt {
			mandatory++
		}
	}
	best := -1
	bestStuck := 0
	nodes := 0
	type frame struct {
		nd   *node
		left int // mandatory operations left
	}
	stack := []frame{{start, mandatory}}
	seen[key(start)] = true
	for len(stack) > 0 {
		f := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if f.left == 0 {
			return true, true, -1
		}
		nodes++
		if nodes > budget {
			return false, false, -1
		}
		// the earliest return among operations not yet placed bounds the candidates
		minRet := inf
		first := -1
		for i := range o {
			if f.nd.done[i>>6]&(1<<(uint(i)&63)) != 0 {
				continue
			}
			if first < 0 {
				first = i
			}
			if o[i].Inv > minRet {
				break
			}
			if !o[i].Opt && o[i].Ret < minRet {
				minRet = o[i].Ret
			}
		}
		if p := mandatory - f.left; p > best {
			best = p
			for i := range o {
				if f.nd.done[i>>6]&(1<<(uint(i)&63)) == 0 && !o[i].Opt && o[i].Ret == minRet {
					bestStuck = idx[i]
				}
			}
		}
		// push candidates in reverse so that the earliest is tried first
		for i := n - 1; i >= first && first >= 0; i-- {
			if f.nd.done[i>>6]&(1<<(uint(i)&63)) != 0 || o[i].Inv > minRet {
				continue
			}
			good := true
			for _, rd := range o[i].Reads {
				if v := f.nd.state[rd.K]; v != rd.V && (rd.V != anyVal || v == 0) {
					good = false
					break
				}
			}
			if !good {
				continue
			}
			nd := &node{done: append([]uint64(nil), f.nd.done...), state: f.nd.state}
			nd.done[i>>6] |= 1 << (uint(i) & 63)
			if len(o[i].Writes) > 0 {
				nd.state = append([]int(nil), f.nd.state...)
				for _, w := range o[i].Writes {
					nd.state[w.K] = w.V
				}
			}
			k := key(nd)
			if seen[k] {
				continue
			}
			seen[k] = true
			left := f.left
			if !o[i].Opt {
				left--
			}
			stack = append(stack, frame{nd, left})
		}
	}
	return false, true, bestStuck
}

// Intern maps values to the small integers of register states.
type Intern struct {
	m map[string]int
	s []string
}

func NewIntern() *Intern { return &Intern{m: map[string]int{}, s: []string{""}} }
func (t *Intern) ID(s string) int {
	if i, ok := t.m[s]; ok {
		return i
	}
	t.s = append(t.s, s)
	t.m[s] = len(t.s) - 1
	return len(t.s) - 1
}
