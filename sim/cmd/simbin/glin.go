package main

import (
	"encoding/binary"
	"sort"
)

// GOp is one operation of a history over an arbitrary reference model.
type GOp struct {
	Inv, Ret int64 // Ret 0: never returned
	Opt      bool  // may also never have taken effect
	Ref      interface{}
	// Apply returns the state after the operation, and whether the operation
	// may have produced what was observed.  It must not change s.
	Apply func(s GState) (GState, bool)
}

// GState is an immutable state of a reference model.
type GState interface{ Key() string }

// LinearizableG searches for a total order of the operations that respects
// real time and that the model explains.  It returns ok, whether the search
// finished within its budget, and on failure the operation it never got past.
func LinearizableG(ops []GOp, init GState, budget int) (ok, done bool, stuck int) {
	const inf = int64(1) << 62
	n := len(ops)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return ops[idx[a]].Inv < ops[idx[b]].Inv })
	o := make([]GOp, n)
	mandatory := 0
	for i, j := range idx {
		o[i] = ops[j]
		if o[i].Ret == 0 {
			o[i].Ret = inf
		}
		if !o[i].Opt {
			mandatory++
		}
	}
	type frame struct {
		done  []uint64
		state GState
		left  int
	}
	key := func(f frame) string {
		b := make([]byte, 8*len(f.done), 8*len(f.done)+64)
		for i, w := range f.done {
			binary.LittleEndian.PutUint64(b[8*i:], w)
		}
		return string(b) + f.state.Key()
	}
	start := frame{make([]uint64, (n+63)/64), init, mandatory}
	seen := map[string]bool{key(start): true}
	stack := []frame{start}
	best, bestStuck, nodes := -1, 0, 0
	for len(stack) > 0 {
		f := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if f.left == 0 {
			return true, true, -1
		}
		nodes++
		if nodes > budget {
			return false, false, -1
		}
		has := func(i int) bool { return f.done[i>>6]&(1<<(uint(i)&63)) != 0 }
		minRet := inf
		for i := range o {
			if has(i) {
				continue
			}
			if o[i].Inv > minRet {
				break
			}
			if !o[i].Opt && o[i].Ret < minRet {
				minRet = o[i].Ret
			}
		}
		if p := mandatory - f.left; p > best {
			best = p
			for i := range o {
				if !has(i) && !o[i].Opt && o[i].Ret == minRet {
					bestStuck = idx[i]
				}
			}
		}
		for i := n - 1; i >= 0; i-- {
			if has(i) || o[i].Inv > minRet {
				continue
			}
			s, good := o[i].Apply(f.state)
			if !good {
				continue
			}
			nf := frame{append([]uint64(nil), f.done...), s, f.left}
			nf.done[i>>6] |= 1 << (uint(i) & 63)
			if !o[i].Opt {
				nf.left--
			}
			k := key(nf)
			if seen[k] {
				continue
			}
			seen[k] = true
			stack = append(stack, nf)
		}
	}
	return false, true, bestStuck
}
