package main

import (
	"golang.org/x/tools/go/ssa"
)

// Joining branches (opt merge): the two sides of a branch are executed up to
// the block where they meet again; two states that differ in integers, booleans
// and 256-bit values only go on as one state.

type park struct {
	frame string
	depth int
	b     *ssa.BasicBlock
	list  []*State
}

var ipdomCache = map[*ssa.Function][]*ssa.BasicBlock{}

// ipdom: the nearest block every path from b to a return goes through.
func ipdom(b *ssa.BasicBlock) *ssa.BasicBlock {
	fn := b.Parent()
	if r, ok := ipdomCache[fn]; ok {
		return r[b.Index]
	}
	n := len(fn.Blocks)
	// blocks from which a return can be reached
	live := make([]bool, n)
	for ch := true; ch; {
		ch = false
		for _, c := range fn.Blocks {
			if live[c.Index] {
				continue
			}
			ok := false
			if k := len(c.Instrs); k > 0 {
				_, ok = c.Instrs[k-1].(*ssa.Return)
			}
			for _, s := range c.Succs {
				ok = ok || live[s.Index]
			}
			if ok {
				live[c.Index] = true
				ch = true
			}
		}
	}
	pd := make([]map[int]bool, n) // nil: all
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			c := fn.Blocks[i]
			if !live[i] {
				continue
			}
			var s map[int]bool
			first := true
			_, isRet := c.Instrs[len(c.Instrs)-1].(*ssa.Return)
			if isRet {
				s, first = map[int]bool{}, false
			}
			for _, q := range c.Succs {
				if !live[q.Index] || pd[q.Index] == nil {
					continue
				}
				if first {
					s, first = map[int]bool{}, false
					for k := range pd[q.Index] {
						s[k] = true
					}
					continue
				}
				for k := range s {
					if !pd[q.Index][k] {
						delete(s, k)
					}
				}
			}
			if first {
				continue
			}
			s[i] = true
			if pd[i] == nil || len(pd[i]) != len(s) {
				pd[i] = s
				ch = true
			}
		}
	}
	r := make([]*ssa.BasicBlock, n)
	for i := range r {
		// the strict postdominator with the most postdominators is the nearest
		for k := range pd[i] {
			if k != i && (r[i] == nil || len(pd[k]) > len(pd[r[i].Index])) {
				r[i] = fn.Blocks[k]
			}
		}
	}
	ipdomCache[fn] = r
	return r[b.Index]
}

// parked: the state has reached the block a branch is waiting for.
func (x *Exec) parked(st *State, f *Frame, b *ssa.BasicBlock) bool {
	if len(x.parks) == 0 {
		return false
	}
	p := x.parks[len(x.parks)-1]
	if p.b != b || p.depth != len(st.frames) || p.frame != f.path {
		return false
	}
	p.list = append(p.list, st)
	return true
}

// mergeBranch runs both sides of a branch to their meeting point.
func (x *Exec) mergeBranch(j *ssa.BasicBlock, c *Term, st, o *State, t, e *ssa.BasicBlock) {
	prefix := len(st.pc)
	for i := range st.pc {
		if i >= len(o.pc) || st.pc[i] != o.pc[i] {
			prefix = i
			break
		}
	}
	base := map[int]bool{}
	for id := range st.cells {
		base[id] = true
	}
	saved := x.work
	side := func(s *State, to *ssa.BasicBlock) []*State {
		p := &park{frame: s.top().path, depth: len(s.frames), b: j}
		x.parks = append(x.parks, p)
		x.work = nil
		x.pushAfter(s, func() bool { return x.goTo(s, s.top(), to) })
		x.runAll()
		x.parks = x.parks[:len(x.parks)-1]
		return p.list
	}
	a := side(st, t)
	b := side(o, e)
	x.work = saved
	for i := range a {
		for k := range b {
			if a[i] == nil || b[k] == nil {
				continue
			}
			if m := x.join(prefix, base, c, a[i], b[k]); m != nil {
				a[i], b[k] = m, nil
				break
			}
		}
	}
	for _, s := range append(a, b...) {
		if s == nil {
			continue
		}
		if li := loopsOf(j.Parent())[j]; li != nil {
			s := s
			x.pushAfter(s, func() bool { return x.atLoop(s, s.top(), li, s.top().prev) })
			continue
		}
		if x.parked(s, s.top(), j) { // an outer branch waits here too
			continue
		}
		x.work = append(x.work, s)
	}
}

// join makes one state of two, or returns nil.
func (x *Exec) join(prefix int, base map[int]bool, c *Term, a, b *State) *State {
	if len(a.frames) != len(b.frames) || len(a.heap) != len(b.heap) || len(a.pc) < prefix || len(b.pc) < prefix {
		return nil
	}
	for i := 0; i < prefix; i++ {
		if a.pc[i] != b.pc[i] {
			return nil
		}
	}
	for k, v := range a.heap {
		if b.heap[k] != v {
			return nil
		}
	}
	nc := Not(c)
	var facts []*Term
	seen := map[*Term]*Term{}
	ok := true
	mergeT := func(u, v *Term) *Term {
		if u == v {
			return u
		}
		if u.Sort != v.Sort || u.Sort.K == KArr {
			ok = false
			return nil
		}
		if u.Sort != SInt {
			return Ite(c, u, v)
		}
		k := Ite(c, u, v)
		if k.Op != OIte {
			return k
		}
		if m, ok := seen[k]; ok {
			return m
		}
		n := FreshInt("j", nil, nil)
		if u.lo != nil && v.lo != nil {
			n.lo = u.lo
			if v.lo.Cmp(u.lo) < 0 {
				n.lo = v.lo
			}
		}
		if u.hi != nil && v.hi != nil {
			n.hi = u.hi
			if v.hi.Cmp(u.hi) > 0 {
				n.hi = v.hi
			}
		}
		seen[k] = n
		facts = append(facts, Implies(c, Eq(n, u)), Implies(nc, Eq(n, v)))
		return n
	}
	var mergeV func(u, v Val) Val
	mergeV = func(u, v Val) Val {
		if !ok {
			return nil
		}
		if sameVal(u, v) {
			return u
		}
		switch p := u.(type) {
		case *Term:
			if q, is := v.(*Term); is {
				return mergeT(p, q)
			}
		case *IntV:
			if q, is := v.(*IntV); is {
				if t := mergeT(p.u(), q.u()); t != nil {
					return &IntV{U: t}
				}
				return nil
			}
		case *BigV:
			if q, is := v.(*BigV); is {
				if t := mergeT(p.T, q.T); t != nil {
					return &BigV{T: t}
				}
				return nil
			}
		case *StructV:
			if q, is := v.(*StructV); is && len(p.F) == len(q.F) {
				n := &StructV{T: p.T}
				for i := range p.F {
					n.F = append(n.F, mergeV(p.F[i], q.F[i]))
				}
				return n
			}
		}
		ok = false
		return nil
	}
	m := a.clone()
	for id := range base {
		u, ua := a.cells[id]
		v, va := b.cells[id]
		if ua != va {
			return nil
		}
		if !ua {
			continue
		}
		m.cells[id] = mergeV(u, v)
		if !ok {
			return nil
		}
	}
	for id, v := range b.cells {
		if _, in := m.cells[id]; !in {
			m.cells[id] = v
		}
	}
	for i, f := range m.frames {
		g := b.frames[i]
		if f.fn != g.fn || f.block != g.block || f.idx != g.idx || f.path != g.path || f.call != g.call {
			return nil
		}
		for r, u := range f.regs {
			v, in := g.regs[r]
			if !in {
				delete(f.regs, r)
				continue
			}
			n := mergeV(u, v)
			if !ok {
				// not used after the branches unless it is needed by both
				if _, phi := r.(*ssa.Phi); phi && i == len(m.frames)-1 {
					return nil
				}
				ok = true
				delete(f.regs, r)
				continue
			}
			f.regs[r] = n
		}
		for l, id := range f.locals {
			if g.locals[l] != id {
				delete(f.locals, l)
			}
		}
		var ord []*ssa.Alloc
		for _, l := range f.order {
			if _, in := f.locals[l]; in {
				ord = append(ord, l)
			}
		}
		f.order = ord
	}
	for k, v := range m.lets {
		if w, in := b.lets[k]; !in || !sameVal(v, w) {
			delete(m.lets, k)
		}
	}
	for k, n := range b.calls {
		if n > m.calls[k] {
			m.calls[k] = n
		}
	}
	if a.ctr != b.ctr {
		if a.ctr == nil || b.ctr == nil {
			return nil
		}
		m.ctr = mergeT(a.ctr, b.ctr)
	}
	for id := range b.konst {
		if !m.konst[id] {
			m.setKonst(id)
		}
	}
	for id, from := range b.shares {
		m.setShares(id, append(append([]int(nil), m.shares[id]...), from...))
	}
	inB := map[*Term]bool{}
	for _, p := range b.pc[prefix:] {
		inB[p] = true
	}
	inA := map[*Term]bool{}
	m.pc = a.pc[:prefix:prefix]
	for _, p := range a.pc[prefix:] {
		inA[p] = true
		if inB[p] {
			m.pc = append(m.pc, p)
		} else if q := Implies(c, p); q != True {
			m.pc = append(m.pc, q)
		}
	}
	for _, p := range b.pc[prefix:] {
		if !inA[p] {
			if q := Implies(nc, p); q != True {
				m.pc = append(m.pc, q)
			}
		}
	}
	for _, q := range facts {
		x.assume(m, q)
	}
	m.trace = append(a.trace[:len(a.trace)-0:len(a.trace)], "+")
	if b.steps > m.steps {
		m.steps = b.steps
	}
	return m
}
