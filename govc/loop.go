package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// leaves lists the scalar components of a value under stable names.
func (x *Exec) leaves(prefix string, v Val, out map[string]Val) {
	switch q := v.(type) {
	case *StructV:
		for i, f := range q.F {
			x.leaves(fmt.Sprintf("%s.%d", prefix, i), f, out)
		}
	case *ArrayV:
		for i, f := range q.E {
			x.leaves(fmt.Sprintf("%s.%d", prefix, i), f, out)
		}
	case *BlockV:
		for i, f := range q.F {
			out[fmt.Sprintf("%s.%d", prefix, i)] = f
		}
	case *MapBlk:
		out[prefix+".has"] = q.Has
		for i, f := range q.F {
			out[fmt.Sprintf("%s.%d", prefix, i)] = f
		}
	default:
		out[prefix] = v
	}
}

func (x *Exec) stateLeaves(st *State, only map[int]Val) map[string]Val {
	out := map[string]Val{}
	for id := range only {
		v, ok := st.cells[id]
		if !ok {
			continue
		}
		x.leaves(fmt.Sprintf("c%d", id), v, out)
	}
	for h, t := range st.heap {
		out["heap:"+h] = t
	}
	return out
}

// leafKey translates c<id>.path into the stable key used across restarts.
func (x *Exec) leafKey(l string) string {
	if strings.HasPrefix(l, "heap:") {
		return l
	}
	id := 0
	rest := ""
	if i := strings.IndexByte(l, '.'); i >= 0 {
		fmt.Sscanf(l[1:i], "%d", &id)
		rest = l[i:]
	} else {
		fmt.Sscanf(l[1:], "%d", &id)
	}
	return x.info[id].key + rest
}

func (x *Exec) havocVal(st *State, prefix, skey string, v Val, h map[string]bool) Val {
	switch q := v.(type) {
	case *StructV:
		z := &StructV{T: q.T}
		nf := len(q.F) - len(ghostsOf(q.T))
		for i, f := range q.F {
			if t, ok := f.(*Term); ok && i >= nf && t.Sort == SInt {
				// a mathematical integer without a machine range
				if h[fmt.Sprintf("%s.%d", skey, i)] {
					f = Fresh("hg", SInt)
				}
				z.F = append(z.F, f)
				continue
			}
			if t, ok := f.(*Term); ok && i >= nf && t.Sort == sortII && ghostsOf(q.T)[i-nf].Kind == "words" && h[fmt.Sprintf("%s.%d", skey, i)] {
				z.F = append(z.F, x.wordsArray(st, "hw"))
				continue
			}
			z.F = append(z.F, x.havocVal(st, fmt.Sprintf("%s.%d", prefix, i), fmt.Sprintf("%s.%d", skey, i), f, h))
		}
		return z
	case *ArrayV:
		z := &ArrayV{El: q.El}
		for i, f := range q.E {
			z.E = append(z.E, x.havocVal(st, fmt.Sprintf("%s.%d", prefix, i), fmt.Sprintf("%s.%d", skey, i), f, h))
		}
		return z
	case *BlockV:
		z := &BlockV{El: q.El, F: append([]*Term(nil), q.F...)}
		fs, _ := elemFields(q.El)
		for i := range q.F {
			if h[fmt.Sprintf("%s.%d", skey, i)] {
				z.F[i] = Fresh("hb", q.F[i].Sort)
				x.assume(st, rangeFact(z.F[i], fs[i]))
			}
		}
		return z
	case *MapBlk:
		z := q.copy()
		if h[skey+".has"] {
			z.Has = Fresh("has", sortIB)
			z.HasVer = x.nextVer()
		}
		for i := range q.F {
			if h[fmt.Sprintf("%s.%d", skey, i)] {
				z.F[i] = x.wordsArray(st, "hm")
				z.Ver[i] = x.nextVer()
			}
		}
		return z
	}
	if !h[skey] {
		return v
	}
	return x.havocLeaf(st, prefix, v)
}

func (x *Exec) havocLeaf(st *State, name string, v Val) Val {
	switch q := v.(type) {
	case *Term:
		if q.Sort == SInt {
			// keep the machine range
			bits, sg := 64, false
			if q.lo == nil || q.lo.Sign() < 0 {
				sg = true
			}
			lo, hi := rangeOf(bits, sg)
			if x.leafSigned[name] {
				lo, hi = rangeOf(bits, true)
			}
			return FreshInt("h", lo, hi)
		}
		return Fresh("h", q.Sort)
	case *IntV:
		return x.freshInt256("h")
	case *BigV:
		return &BigV{T: Fresh("h", SInt)}
	case *HPtr:
		return &HPtr{A: FreshInt("hp", nil, nil), T: q.T, Path: q.Path, Reg: q.Reg}
	case *SliceV:
		if q.Heap {
			return x.freshHeapSlice(st, "hs", q.El)
		}
	case NilV:
		return &OpaqueV{Name: "nil pointer changed by the loop"}
	case *StrV:
		return &StrV{Parts: []StrPart{{Kind: "opaque", T: Fresh("hstr", SInt)}}}
	case *OpaqueV:
		return &OpaqueV{T: q.T, Name: q.Name + "'"}
	case *MObj, *MInt, *MFld:
		return &OpaqueV{Name: "pointer into a map changed by the loop"}
	case *PtrV:
		bail("loop-carried pointer in word memory")
	}
	id := 0
	fmt.Sscanf(name[1:], "%d", &id)
	bail("havoc of %T in %s", v, x.info[id].name)
	return nil
}

func (x *Exec) atLoop(st *State, f *Frame, li *LoopInfo, prev *ssa.BasicBlock) bool {
	ord, ok := x.ord[loopKey{f.path, li.Header}]
	if !ok {
		ord = -1
	}
	spec := x.con.Loops[ord]
	back := li.Body[prev] && f.loops[li.Header] != nil
	pos := li.Pos
	if spec == nil || spec.Unroll {
		if spec == nil && x.con.Opts["unroll"] == "" {
			// plain unrolling: branch conditions must fold
		}
		return true
	}
	lk := loopKey{f.path, li.Header}
	lname := fmt.Sprintf("loop %d", ord)
	if spec.Cut != nil {
		return x.atCut(st, f, li, lk, spec, lname, pos, back)
	}
	if !back {
		x.dropDead(st, f, li.Header)
		x.genericEntry(st, lk)
		run := &LoopRun{spec: spec, ghosts: map[string]Val{}}
		f.loops[li.Header] = run
		for _, g := range spec.Ghost {
			run.ghosts[g.Name] = x.env(st).eval(g.Init)
		}
		x.checkInv(st, spec, lname+" entry", pos)
		entryCells := map[int]Val{}
		for id, v := range st.cells {
			entryCells[id] = v
		}
		entryHeap := map[string]*Term{}
		for k, v := range st.heap {
			entryHeap[k] = v
		}
		run.cells = entryCells
		run.heap = entryHeap
		run.ctr = st.ctr
		run.pc = append([]*Term(nil), st.pc...)
		run.shapes = map[string]bool{x.shape(st, entryCells): true}
		return x.openLoop(st, f, run, spec, lk, lname, pos)
	}
	// back edge
	run := f.loops[li.Header]
	x.genericise(st, run, lk)
	x.checkChanged(st, f, run, lk)
	e := x.env(st)
	x.hints(st, e, spec.Hints, lname+" back edge")
	ng := map[string]Val{}
	for _, g := range spec.Ghost {
		ng[g.Name] = e.eval(g.Next)
	}
	for k, v := range ng {
		run.ghosts[k] = v
	}
	x.checkInv(st, spec, lname+" preserved", pos)
	x.loopFrame(st, run, spec, lname, pos)
	e = x.env(st)
	if len(spec.Decr) > 0 {
		var lex *Term = False
		eq := True
		for i, d := range spec.Decr {
			n := e.term(d)
			var less *Term
			if n.Sort.K == KBV {
				less = BV2("bvult", n, run.decr[i])
			} else {
				less = And(Lt(n, run.decr[i]), Le(NumI(0), run.decr[i]))
			}
			lex = Or(lex, And(eq, less))
			eq = And(eq, Eq(n, run.decr[i]))
		}
		x.oblige(st, "decreases", lname+" terminates", pos, lex, nil)
	}
	// the same loop reached with its pointers arranged differently: every other
	// leaf is either unchanged since entry or havoced, so the arrangement is
	// verified as one more instance of the loop
	sh := x.shape(st, run.cells)
	if run.shapes[sh] {
		return false
	}
	run.shapes[sh] = true
	for id := range st.cells {
		if _, ok := run.cells[id]; !ok {
			delete(st.cells, id)
		}
	}
	st.pc = append([]*Term(nil), run.pc...)
	r2 := *run
	r2.ghosts = map[string]Val{}
	for k, v := range run.ghosts {
		r2.ghosts[k] = v
	}
	f.loops[li.Header] = &r2
	return x.openLoop(st, f, &r2, spec, lk, lname, pos)
}

// shape describes the word-memory pointers held in the given cells
func (x *Exec) shape(st *State, only map[int]Val) string {
	var ss []string
	for l, v := range x.stateLeaves(st, only) {
		switch v.(type) {
		case *FwdM, *FwdMO, *FwdV:
			id := 0
			fmt.Sscanf(l[1:], "%d", &id)
			if !isFwd(only[id]) {
				bail("an object that exists outside the loop moves inside it")
			}
		case *PtrV, *SliceV, *MapV, NilV:
			if q, ok := v.(*SliceV); ok && q.Heap {
				continue
			}
			if q, ok := v.(*PtrV); ok {
				if _, known := only[q.Cell]; !known {
					bail("loop carries a pointer to memory allocated inside the loop: %s in %s", x.info[q.Cell].name, x.leafKey(l))
				}
			}
			ss = append(ss, l+"="+shapeOf(v))
		}
	}
	sort.Strings(ss)
	return strings.Join(ss, ";")
}

func shapeOf(v Val) string {
	switch q := v.(type) {
	case *PtrV:
		return fmt.Sprintf("p%d%v%v.%d.%d", q.Cell, q.Path, q.Win, q.Off, q.N)
	case *MapV:
		return fmt.Sprintf("m%d", q.Cell)
	case *SliceV:
		if q.P == nil {
			return "s-nil"
		}
		return fmt.Sprintf("s%s:%d:%d:%d", shapeOf(q.P), q.Off, q.Len, q.Cap)
	}
	return "nil"
}

// openLoop havocs what the loop changes and assumes the invariant.
func (x *Exec) openLoop(st *State, f *Frame, run *LoopRun, spec *LoopSpec, lk loopKey, lname string, pos token.Pos) bool {
	h := x.havoc[lk]
	x.bumpCtrIfHeap(st)
	x.loopSharing(st, lk)
	var ids []int
	for id := range st.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		st.cells[id] = x.havocVal(st, fmt.Sprintf("c%d", id), x.info[id].key, st.cells[id], h)
	}
	x.havocHeapLoop(st, h, spec, run.heap)
	for _, t := range x.loopKeeps(st, run) {
		x.assume(st, t)
	}
	for _, g := range spec.Ghost {
		run.ghosts[g.Name] = x.havocGhost(st, g, run.ghosts[g.Name])
	}
	run.snap = x.stateLeaves(st, st.cells)
	e := x.env(st)
	for _, c := range spec.Inv {
		x.assume(st, e.boolE(c.E))
	}
	run.decr = nil
	for _, d := range spec.Decr {
		run.decr = append(run.decr, e.term(d))
	}
	if !x.feasible(st) {
		if x.con.Opts["loopdead"] == "" {
			x.oblige(st, "vacuity", lname+" invariant is satisfiable", pos, True, nil)
		}
		return false
	}
	return true
}

func (x *Exec) havocGhost(st *State, g *GhostVar, init Val) Val {
	if t, ok := init.(*Term); ok {
		return Fresh("g."+g.Name, t.Sort)
	}
	bail("ghost %s of type %T", g.Name, init)
	return nil
}

func (x *Exec) checkInv(st *State, spec *LoopSpec, where string, pos token.Pos) {
	e := x.env(st)
	for _, c := range spec.Inv {
		g := e.boolE(c.E)
		if len(c.Hints) > 0 {
			s2 := st.clone()
			e2 := *e
			e2.st = s2
			e2.names = map[string]Val{}
			for k, v := range e.names {
				e2.names[k] = v
			}
			x.hints(s2, &e2, c.Hints, clauseName(c))
			x.oblige(s2, "invariant", where+": "+clauseName(c), pos, e2.boolE(c.E), c.Opts)
		} else {
			x.oblige(st, "invariant", where+": "+clauseName(c), pos, g, c.Opts)
		}
		if c.Opts["assume"] != "" {
			x.assume(st, g)
		}
	}
}

// checkChanged: everything that differs from the header state must have been
// havoced there; otherwise the set grows and the function is run again.
func (x *Exec) checkChanged(st *State, f *Frame, run *LoopRun, lk loopKey) {
	now := x.stateLeaves(st, run.cells)
	grown := false
	for l, v := range run.snap {
		w, ok := now[l]
		if !ok {
			continue
		}
		if !sameVal(v, w) {
			if isShape(v) && isShape(w) {
				continue
			}
			k := x.leafKey(l)
			if x.havoc[lk] == nil {
				x.havoc[lk] = map[string]bool{}
			}
			if !x.havoc[lk][k] {
				x.havoc[lk][k] = true
				grown = true
			} else if strings.HasPrefix(l, "c") {
				// already havoced: fine
			}
		}
	}
	for l := range now {
		if strings.HasPrefix(l, "heap:") {
			if _, ok := run.snap[l]; !ok {
				// heap array first touched inside the loop: compare with its initial value
				name := strings.TrimPrefix(l, "heap:")
				if now[l].(*Term) != x.heapInit(name) {
					if x.havoc[lk] == nil {
						x.havoc[lk] = map[string]bool{}
					}
					if !x.havoc[lk][l] {
						x.havoc[lk][l] = true
						grown = true
					}
				}
			}
		}
	}
	if grown {
		panic(restart{})
	}
}

// atCut: a loop with a concrete counter, verified iteration by iteration
// with the invariant as the join point of all paths.
func (x *Exec) atCut(st *State, f *Frame, li *LoopInfo, lk loopKey, spec *LoopSpec, lname string, pos token.Pos, back bool) bool {
	if !back {
		run := &LoopRun{spec: spec, ghosts: map[string]Val{}, pc: append([]*Term(nil), st.pc...)}
		f.loops[li.Header] = run
		for _, g := range spec.Ghost {
			run.ghosts[g.Name] = x.env(st).eval(g.Init)
		}
		run.cells = map[int]Val{}
		for id, v := range st.cells {
			run.cells[id] = v
		}
		x.cutRuns++
		run.id = x.cutRuns
	}
	run := f.loops[li.Header]
	if back {
		e := x.env(st)
		x.hints(st, e, spec.Hints, lname+" back edge")
		ng := map[string]Val{}
		for _, g := range spec.Ghost {
			ng[g.Name] = e.eval(g.Next)
		}
		for k, v := range ng {
			run.ghosts[k] = v
		}
	}
	e := x.env(st)
	kt := e.term(spec.Cut)
	if !isConcrete(kt) {
		bail("%s: cut counter %s is not concrete", lname, kt)
	}
	kk := x.concrete(kt)
	x.checkInv(st, spec, fmt.Sprintf("%s at %d", lname, kk), pos)
	ck := fmt.Sprintf("%d:%d", run.id, kk)
	if prev, seen := x.cutSeen[ck]; seen {
		// later arrival: unhavoced state must agree with the first one
		now := x.stateLeaves(st, run.cells)
		x.growCut(prev.snap, now, lk)
		return false
	}
	h := x.havoc[lk]
	st.pc = append([]*Term(nil), run.pc...)
	var ids []int
	for id := range run.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if v, ok := st.cells[id]; ok {
			st.cells[id] = x.havocVal(st, fmt.Sprintf("c%d", id), x.info[id].key, v, h)
		}
	}
	for id := range st.cells {
		if _, ok := run.cells[id]; !ok {
			delete(st.cells, id)
		}
	}
	for _, g := range spec.Ghost {
		run.ghosts[g.Name] = x.havocGhost(st, g, run.ghosts[g.Name])
	}
	e = x.env(st)
	for _, c := range spec.Inv {
		x.assume(st, e.boolE(c.E))
	}
	now := x.stateLeaves(st, run.cells)
	x.cutSeen[ck] = &LoopRun{snap: now}
	// values that depend on the path so far but are not havoced: everything that
	// is not concrete must be equal to its value at loop entry
	if back {
		entry := map[string]Val{}
		for id, v := range run.cells {
			x.leaves(fmt.Sprintf("c%d", id), v, entry)
		}
		x.growCut2(entry, now, lk, h)
	}
	return true
}

func concreteVal(v Val) bool {
	t, ok := v.(*Term)
	return ok && (isConcrete(t) || t == True || t == False)
}

func (x *Exec) growCut(a, b map[string]Val, lk loopKey) {
	grown := false
	for l, v := range a {
		w, ok := b[l]
		if !ok || strings.HasPrefix(l, "heap:") {
			continue
		}
		k := x.leafKey(l)
		if x.havoc[lk][k] || sameVal(v, w) {
			continue
		}
		if x.havoc[lk] == nil {
			x.havoc[lk] = map[string]bool{}
		}
		x.havoc[lk][k] = true
		grown = true
	}
	if grown {
		panic(restart{})
	}
}

func (x *Exec) growCut2(a, b map[string]Val, lk loopKey, h map[string]bool) {
	grown := false
	for l, v := range a {
		w, ok := b[l]
		if !ok || strings.HasPrefix(l, "heap:") {
			continue
		}
		k := x.leafKey(l)
		if h[k] || sameVal(v, w) || concreteVal(w) {
			continue
		}
		if x.havoc[lk] == nil {
			x.havoc[lk] = map[string]bool{}
		}
		x.havoc[lk][k] = true
		grown = true
	}
	if grown {
		panic(restart{})
	}
}

func isShape(v Val) bool {
	switch q := v.(type) {
	case *PtrV, *MapV, NilV:
		return true
	case *SliceV:
		return !q.Heap
	}
	return false
}

// genericise: an object allocated in the loop body and held by one place that
// outlives the iteration is renamed to the object of that place.
func (x *Exec) genericise(st *State, run *LoopRun, lk loopKey) {
	byCell := map[int][]string{}
	for l, v := range x.stateLeaves(st, run.cells) {
		if q, ok := v.(*PtrV); ok {
			byCell[q.Cell] = append(byCell[q.Cell], l)
		}
	}
	grown := false
	note := func(m map[string]bool, k string) {
		if !m[k] {
			m[k] = true
			grown = true
		}
	}
	if x.loopKonst == nil {
		x.loopKonst = map[loopKey]map[string]bool{}
		x.loopShares = map[loopKey]map[string]map[string]bool{}
	}
	if x.loopKonst[lk] == nil {
		x.loopKonst[lk] = map[string]bool{}
		x.loopShares[lk] = map[string]map[string]bool{}
	}
	if x.havoc[lk] == nil {
		x.havoc[lk] = map[string]bool{}
	}
	sharing := func(c int, key string) {
		if st.konst[c] {
			note(x.loopKonst[lk], key)
		}
		for _, s := range st.shares[c] {
			if _, known := run.cells[s]; known {
				if x.loopShares[lk][key] == nil {
					x.loopShares[lk][key] = map[string]bool{}
				}
				note(x.loopShares[lk][key], x.info[s].key)
			}
		}
	}
	var cs []int
	for c := range byCell {
		if _, known := run.cells[c]; !known {
			if _, here := st.cells[c]; here {
				cs = append(cs, c)
			}
		}
	}
	sort.Ints(cs)
	type mv struct {
		id   int
		path []int
		g, c int
	}
	var mvs []mv
	for _, c := range cs {
		ls := byCell[c]
		if len(ls) != 1 {
			bail("loop carries two pointers to memory allocated inside the loop")
		}
		q := x.stateLeaves(st, run.cells)[ls[0]].(*PtrV)
		if _, isInt := st.cells[c].(*IntV); !isInt || len(q.Path) > 0 || q.Win {
			bail("loop carries a pointer to memory allocated inside the loop: %s in %s", x.info[c].name, x.leafKey(ls[0]))
		}
		key := fmt.Sprintf("gen:%s:%p:%s", lk.path, lk.header, x.leafKey(ls[0]))
		x.havoc[lk][key] = true
		g, ok := x.genCells[key]
		if !ok {
			g = x.newCell(st, key, x.info[c].name, x.info[c].T, nil)
			delete(st.cells, g)
			x.genCells[key] = g
		}
		for _, l := range byCell[g] {
			if l != ls[0] {
				bail("loop carries a second pointer to memory allocated inside the loop")
			}
		}
		sharing(c, key)
		m := mv{g: g, c: c}
		var parts = strings.Split(ls[0][1:], ".")
		fmt.Sscanf(parts[0], "%d", &m.id)
		for _, p := range parts[1:] {
			k := 0
			fmt.Sscanf(p, "%d", &k)
			m.path = append(m.path, k)
		}
		mvs = append(mvs, m)
	}
	vals := map[int]Val{}
	for _, m := range mvs {
		vals[m.g] = st.cells[m.c]
	}
	for _, m := range mvs {
		st.cells[m.g] = vals[m.g]
		st.cells[m.id] = x.setPath(st.cells[m.id], m.path, &PtrV{Cell: m.g})
		run.cells[m.g] = vals[m.g]
		delete(st.cells, m.c)
	}
	for c := range run.cells {
		if _, here := st.cells[c]; here && st.konst[c] {
			sharing(c, x.info[c].key)
		}
	}
	if grown {
		panic(restart{})
	}
}

// loopSharing: what any iteration marks as shared is shared from the start.
func (x *Exec) loopSharing(st *State, lk loopKey) {
	if len(x.loopKonst[lk]) == 0 && len(x.loopShares[lk]) == 0 {
		return
	}
	byKey := map[string][]int{}
	for id := range st.cells {
		byKey[x.info[id].key] = append(byKey[x.info[id].key], id)
	}
	for k := range x.loopKonst[lk] {
		for _, id := range byKey[k] {
			st.setKonst(id)
		}
	}
	for k, m := range x.loopShares[lk] {
		for _, id := range byKey[k] {
			from := append([]int(nil), st.shares[id]...)
			for s := range m {
				from = append(from, byKey[s]...)
			}
			sort.Ints(from)
			st.setShares(id, from)
		}
	}
}

// genericEntry: places whose objects the loop replaces start with the object
// of the place too, so that the loop is verified for one arrangement.
func (x *Exec) genericEntry(st *State, lk loopKey) {
	pre := fmt.Sprintf("gen:%s:%p:", lk.path, lk.header)
	var keys []string
	for k := range x.havoc[lk] {
		if strings.HasPrefix(k, pre) {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, key := range keys {
		leaf := strings.TrimPrefix(key, pre)
		all := x.stateLeaves(st, st.cells)
		at, n := "", 0
		for l := range all {
			if x.leafKey(l) == leaf {
				at = l
				n++
			}
		}
		if n != 1 {
			continue
		}
		q, ok := all[at].(*PtrV)
		if !ok || len(q.Path) > 0 || q.Win || x.info[q.Cell].param || x.info[q.Cell].konst {
			continue
		}
		c := q.Cell
		if _, isInt := st.cells[c].(*IntV); !isInt {
			continue
		}
		uses := 0
		for _, v := range all {
			if p, ok := v.(*PtrV); ok && p.Cell == c {
				uses++
			}
		}
		for _, s := range x.entryPtrs() {
			if s == c {
				uses++
			}
		}
		if uses != 1 {
			continue
		}
		g, ok := x.genCells[key]
		if !ok {
			g = x.newCell(st, key, x.info[c].name, x.info[c].T, nil)
			x.genCells[key] = g
		} else if _, live := st.cells[g]; live {
			continue
		}
		st.cells[g] = st.cells[c]
		var id int
		var path []int
		parts := strings.Split(at[1:], ".")
		fmt.Sscanf(parts[0], "%d", &id)
		for _, p := range parts[1:] {
			k := 0
			fmt.Sscanf(p, "%d", &k)
			path = append(path, k)
		}
		st.cells[id] = x.setPath(st.cells[id], path, &PtrV{Cell: g})
		delete(st.cells, c)
		sub := func(v Val) Val {
			if p, ok := v.(*PtrV); ok && p.Cell == c {
				r := *p
				r.Cell = g
				return &r
			}
			if t, ok := v.(*TupleV); ok {
				r := &TupleV{E: append([]Val(nil), t.E...)}
				for i, e := range r.E {
					if p, ok := e.(*PtrV); ok && p.Cell == c {
						r.E[i] = &PtrV{Cell: g, Path: p.Path}
					}
				}
				return r
			}
			return v
		}
		for _, f := range st.frames {
			for r, v := range f.regs {
				f.regs[r] = sub(v)
			}
		}
		for k, v := range st.lets {
			st.lets[k] = sub(v)
		}
		if st.konst[c] {
			st.setKonst(g)
		}
		if s, ok := st.shares[c]; ok {
			st.setShares(g, s)
		}
		for id, s := range st.shares {
			for _, o := range s {
				if o == c {
					st.setShares(id, append(append([]int(nil), s...), g))
					break
				}
			}
		}
	}
}

// entryPtrs: the objects that exist when the function is entered.
func (x *Exec) entryPtrs() []int {
	var r []int
	if x.entry != nil {
		for id := range x.entry.cells {
			r = append(r, id)
		}
	}
	return r
}

// dropDead removes local objects that are not used from block h on.
func (x *Exec) dropDead(st *State, f *Frame, h *ssa.BasicBlock) {
	reach := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		if reach[b] {
			return
		}
		reach[b] = true
		for _, s := range b.Succs {
			walk(s)
		}
	}
	walk(h)
	var dead func(v ssa.Value) bool
	dead = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch i := r.(type) {
			case *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !dead(i) {
					return false
				}
			case *ssa.Store:
				if i.Val == v || reach[i.Block()] {
					return false
				}
			case *ssa.UnOp:
				if reach[i.Block()] {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for a, id := range f.locals {
		c, here := st.cells[id]
		if !here || a.Heap || isFwd(c) || !dead(a) {
			continue
		}
		held := false
		for l, v := range x.stateLeaves(st, st.cells) {
			if p, ok := v.(*PtrV); ok && p.Cell == id && l != "" {
				held = true
			}
		}
		if !held {
			delete(st.cells, id)
		}
	}
}
