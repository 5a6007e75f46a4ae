package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) inlinable(g *ssa.Function) bool {
	if len(g.Blocks) == 0 {
		return false
	}
	c := x.db.Contracts[fnKey(g)]
	return c == nil
}

func (x *Exec) setResult(f *Frame, ci ssa.CallInstruction, v Val) {
	if r, ok := ci.(ssa.Value); ok && v != nil {
		f.regs[r] = v
	}
}

func (x *Exec) call(st *State, f *Frame, ci ssa.CallInstruction) bool {
	switch ci.(type) {
	case *ssa.Go, *ssa.Defer:
		bail("go/defer statement")
	}
	c := ci.Common()
	if c.IsInvoke() {
		return x.invoke(st, f, ci)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, f, ci, b)
	}
	var g *ssa.Function
	var binds []Val
	if s := c.StaticCallee(); s != nil {
		g = s
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			binds = x.val(st, f, mc).(*FuncV).Bind
		}
	} else {
		fv, ok := x.val(st, f, c.Value).(*FuncV)
		if !ok {
			bail("dynamic call")
		}
		g = fv.Fn
		binds = fv.Bind
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, f, a))
	}
	return x.callFn(st, f, ci, g, args, binds)
}

func (x *Exec) callFn(st *State, f *Frame, ci ssa.CallInstruction, g *ssa.Function, args, binds []Val) bool {
	k := fnKey(g)
	st.calls[k]++
	x.point(st, "before:", k, args, nil)
	if con := x.db.Contracts[k]; con != nil {
		r := x.callContract(st, f, con, g, args, ci.Pos())
		x.setResult(f, ci, r)
		x.point(st, "", k, args, r)
		return true
	}
	if r, ok := x.external(st, f, ci, g, k, args); ok {
		x.setResult(f, ci, r)
		return true
	}
	if len(g.Blocks) == 0 {
		bail("call of %s has no contract and no source", g)
	}
	if len(st.frames) > 12 {
		bail("inlining too deep at %s", g)
	}
	for _, fr := range st.frames {
		if fr.fn == g {
			bail("recursive call of %s without contract", g)
		}
	}
	nf := &Frame{fn: g, regs: map[ssa.Value]Val{}, locals: map[*ssa.Alloc]int{}, block: g.Blocks[0], call: ci, path: f.path + callID(ci), loops: map[*ssa.BasicBlock]*LoopRun{}}
	for i, p := range g.Params {
		nf.regs[p] = args[i]
	}
	for i, p := range g.FreeVars {
		nf.regs[p] = binds[i]
	}
	st.frames = append(st.frames, nf)
	return true
}

// point applies the proof hints attached to the n-th call of a function.
func (x *Exec) point(st *State, pre, k string, args []Val, res Val) {
	if len(x.con.Points) == 0 {
		return
	}
	n := st.calls[k]
	for _, key := range []string{pre + k, fmt.Sprintf("%s%s@%d", pre, k, n)} {
		if hs, ok := x.con.Points[key]; ok {
			e := x.env(st)
			for i, v := range args {
				e.names[fmt.Sprintf("$a%d", i+1)] = v
			}
			if t, ok := res.(*TupleV); ok {
				for i, v := range t.E {
					e.names[fmt.Sprintf("$%d", i+1)] = v
				}
			} else if res != nil {
				e.names["$1"] = res
			}
			x.hints(st, e, hs, "at "+key)
		}
	}
}

// checkCase: a contract proved only for some argument lengths applies only to those.
func (x *Exec) checkCase(st *State, con *Contract, args []Val, pos token.Pos) {
	if len(con.Cases) == 0 {
		return
	}
	for _, cs := range con.Cases {
		ok := true
		for i, p := range con.Params {
			k, has := cs[p]
			if !has {
				continue
			}
			switch q := args[i].(type) {
			case *SliceV:
				if q.Heap || q.Len != k {
					ok = false
				}
			case *Term:
				if q.Op == OTrue || q.Op == OFalse {
					if (q == True) != (k != 0) {
						ok = false
					}
				} else if !isConcrete(q) || x.concrete(q) != k {
					ok = false
				}
			default:
				ok = false
			}
		}
		if ok {
			x.used[con.Name+"@"+caseKey(cs)] = true
			return
		}
	}
	bail("contract %s is not proved for these argument lengths", con.Name)
}

func (x *Exec) snapshot(st *State) *Snapshot {
	s := &Snapshot{cells: make(map[int]Val, len(st.cells)), heap: make(map[string]*Term, len(st.heap)), ctr: st.ctr}
	for k, v := range st.cells {
		s.cells[k] = v
	}
	for k, v := range st.heap {
		s.heap[k] = v
	}
	return s
}

// env: environment for the function under verification (invariants, hints).
func (x *Exec) env(st *State) *Env {
	names := map[string]Val{}
	for k, v := range st.lets {
		names[k] = v
	}
	for _, f := range st.frames {
		var hs []*ssa.BasicBlock
		for h := range f.loops {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i].Index < hs[j].Index })
		for _, h := range hs {
			for n, v := range f.loops[h].ghosts {
				names[n] = v
			}
		}
	}
	return &Env{x: x, st: st, cells: st.cells, heap: st.heap, ctr: st.ctr, old: x.entry, vars: x.args, names: names, frame: st.frames, bv: x.bv}
}

func (x *Exec) callContract(st *State, f *Frame, con *Contract, g *ssa.Function, args []Val, pos token.Pos) Val {
	return x.callContractSig(st, f, con, g, g.Signature, args, pos)
}

func (x *Exec) callContractSig(st *State, f *Frame, con *Contract, g *ssa.Function, sig *types.Signature, args []Val, pos token.Pos) Val {
	if len(con.Cases) == 0 {
		x.used[con.Name] = true
	}
	if con.Trusted && con.Ground == "" {
		x.trusted["contract of "+con.Name+" is trusted"] = true
	}
	if len(con.Params) != len(args) {
		bail("contract %s: %d parameters, call has %d", con.Name, len(con.Params), len(args))
	}
	for i, a := range args {
		if q, ok := a.(*PtrV); ok && len(q.Path) == 0 && !q.Win {
			if n := x.fwd(st.cells, q); n != Val(q) {
				args = append([]Val(nil), args...)
				args[i] = n
			}
		}
	}
	pre := x.snapshot(st)
	vars := map[string]Val{}
	for i, p := range con.Params {
		vars[p] = args[i]
	}
	x.checkCase(st, con, args, pos)
	for i, p := range con.Params {
		if _, ok := args[i].(NilV); ok {
			if g != nil && con.Opts["nilok"] != p {
				x.oblige(st, "nil", "nil argument "+p+" of "+con.Name, pos, False, nil)
				panic(pathEnd{})
			}
		}
		if hp, ok := args[i].(*HPtr); ok && con.Opts["nilok"] != p {
			x.checkNilH(st, hp, pos)
		}
		_ = i
	}
	env := &Env{x: x, st: st, cells: st.cells, heap: st.heap, ctr: st.ctr, old: pre, vars: vars, bv: x.bv}
	for _, r := range con.Requires {
		if r.Opts["verifyonly"] != "" || x.encapsulated(r, g) {
			continue
		}
		t := env.boolE(r.E)
		lab := fmt.Sprintf("requires of %s: %s", con.Name, clauseName(r))
		if con.Mem == "heap" && !x.heap {
			bail("heap contract %s called from word memory", con.Name)
		}
		if x.con.Assumes[con.Name+"."+clauseName(r)] {
			x.trusted["assumed where "+x.con.Name+" calls it: requires of "+con.Name+" ["+clauseName(r)+"]"] = true
		} else {
			x.oblige(st, "requires", lab, pos, t, r.Opts)
		}
		x.assume(st, t)
	}
	if con.Opts["maypanic"] != "" && x.con.Opts["maypanic"] == "" {
		x.oblige(st, "panic", con.Name+" may panic", pos, False, nil)
	}
	if con.Panics != nil {
		t := env.boolE(con.Panics.E)
		if x.con.Opts["maypanic"] != "" {
			// nothing is claimed about the runs that panic
			x.noteMayPanic()
		} else if x.con.Panics != nil {
			// the caller may panic too, under its own condition
			if t != False {
				pt := x.env(st)
				pt.cells, pt.heap = x.entry.cells, x.entry.heap
				mine := pt.boolE(x.con.Panics.E)
				x.oblige(st, "panic", con.Name+" panics only when allowed", pos, Implies(t, mine), nil)
			}
		} else {
			x.oblige(st, "panic", con.Name+" does not panic", pos, Not(t), nil)
		}
		x.assume(st, Not(t))
	}
	// separation of modified slices/objects
	x.checkArgs(st, env, con, args, pos)
	if con.Opts["noalias"] != "" {
		x.checkSeparate(st, con, args, pos)
	}
	post := env.sub()
	// havoc
	type target struct {
		e    *Expr
		p    Val
		key  string
		done bool
	}
	var targets []*target
	for _, m := range con.Modifies {
		if m.Kind == "un" && m.Op == "#" {
			p := env.eval(m.Args[0])
			targets = append(targets, &target{e: m, p: p, key: m.String()})
			continue
		}
		if m.Kind == "call" && m.Op == "elems" { // elements of a slice
			p := env.eval(m.Args[0])
			targets = append(targets, &target{e: m, p: p, key: "val(" + m.Args[0].String() + ")"})
			continue
		}
		k := m.String()
		if m.Kind == "id" {
			k = "deref(" + k + ")"
		}
		targets = append(targets, &target{e: m, p: env.lvalue(m), key: k})
	}
	// whole objects and fields: new content right away
	for _, t := range targets {
		q, ok := t.p.(*PtrV)
		if !ok || q.Win || len(q.Path) == 0 && isUIntNamed(x.info[q.Cell].T) {
			continue
		}
		if x.isKonst(st, q.Cell) {
			x.oblige(st, "frame", con.Name+" writes to constant "+x.info[q.Cell].name, pos, False, nil)
			panic(pathEnd{})
		}
		if a, isArr := x.cellVal(st, q.Cell).(*ArrayV); isArr && a != nil && !x.heap {
			continue
		}
		x.havocObj(st, q, shortName(con.Name)+"."+t.key, args)
		t.done = true
	}
	// poison explicit targets
	poison := map[int]Val{}
	gone := map[int]bool{} // objects that whole-object updates have replaced
	for k, v := range st.cells {
		poison[k] = v
		if _, ok := v.(PoisonV); ok {
			gone[k] = true
		}
	}
	for _, t := range targets {
		if q, ok := t.p.(*PtrV); ok && !t.done {
			if x.isKonst(st, q.Cell) {
				x.oblige(st, "frame", con.Name+" writes to constant "+x.info[q.Cell].name, pos, False, nil)
				panic(pathEnd{})
			}
			poison[q.Cell] = PoisonV{}
		}
		if q, ok := t.p.(*SliceV); ok && q.P != nil {
			poison[q.P.Cell] = PoisonV{}
		}
	}
	// heap targets
	heapTargets := false
	for _, t := range targets {
		if q, ok := t.p.(*MInt); ok {
			x.mstore(st, q, x.freshInt256(con.Name+"."+t.key))
			poison[q.Cell] = st.cells[q.Cell]
		}
		if hp, ok := t.p.(*HPtr); ok {
			_ = hp
			heapTargets = true
			x.havocHPtr(st, hp, con.Name)
		}
	}
	if heapTargets || len(con.Fresh) > 0 || con.Opts["allocates"] != "" {
		if x.heap {
			x.bumpCtr(st)
		}
	}
	// results
	results := make([]Val, len(con.Results))
	if sig.Results().Len() != len(con.Results) && len(con.Results) > 0 {
		bail("contract %s: result count", con.Name)
	}
	used := map[*Clause]bool{}
	post.cells = poison
	post.heap = st.heap
	post.ctr = st.ctr
	// 1. pointer results equal to parameters
	for _, c := range con.Ensures {
		if c.E.Kind == "bin" && c.E.Op == "==" && c.E.Args[0].Kind == "id" {
			for i, rn := range con.Results {
				if results[i] == nil && c.E.Args[0].Op == rn {
					if c.E.Args[1].Kind == "id" {
						if v, ok := vars[c.E.Args[1].Op]; ok {
							if _, isT := v.(*Term); !isT {
								results[i] = v
								post.vars[rn] = v
								used[c] = true
							}
						}
					}
				}
			}
		}
	}
	// 2. fresh and shared pointers
	var sharedCells []int
	for _, fx := range con.Fresh {
		for i, rn := range con.Results {
			if fx.Kind == "id" && fx.Op == rn && results[i] == nil {
				t := sig.Results().At(i).Type().Underlying().(*types.Pointer).Elem()
				if x.heap {
					id := x.newCell(st, fmt.Sprintf("res:%s:%s:%d", con.Name, rn, pos), con.Name+"."+rn, t, PoisonV{})
					poison[id] = PoisonV{}
					results[i] = &PtrV{Cell: id}
				} else {
					id := x.newCell(st, fmt.Sprintf("res:%s:%s:%d", con.Name, rn, pos), con.Name+"."+rn, t, PoisonV{})
					poison[id] = PoisonV{}
					results[i] = &PtrV{Cell: id}
				}
				post.vars[rn] = results[i]
				targets = append(targets, &target{p: results[i], key: "#" + rn})
			}
		}
	}
	for _, fx := range con.Shared {
		for i, rn := range con.Results {
			if fx.Kind == "id" && fx.Op == rn && results[i] == nil {
				t := sig.Results().At(i).Type().Underlying().(*types.Pointer).Elem()
				if con.Mem == "heap" {
					a := FreshInt(con.Name+"."+rn, bigOne, nil)
					results[i] = &HPtr{A: a, T: t, RO: true}
				} else {
					id := x.newCell(st, fmt.Sprintf("shared:%s:%s:%d", con.Name, rn, pos), con.Name+"."+rn, t, PoisonV{})
					poison[id] = PoisonV{}
					results[i] = &PtrV{Cell: id}
					sharedCells = append(sharedCells, id)
				}
				post.vars[rn] = results[i]
				targets = append(targets, &target{p: results[i], key: "#" + rn})
			}
		}
	}
	post.heap = st.heap
	post.ctr = st.ctr
	// 3. definitional ensures
	progress := true
	for progress {
		progress = false
		for _, c := range con.Ensures {
			if used[c] || c.E.Kind != "bin" || c.E.Op != "==" && c.E.Op != "<==>" {
				continue
			}
			l := c.E.Args[0]
			ls := l.String()
			for _, t := range targets {
				if t.done || t.key != ls || t.p == nil {
					continue
				}
				if x.dependsPoison(post, c.E.Args[1]) {
					continue
				}
				v := post.term(c.E.Args[1])
				x.assignTarget(st, post, t.p, v, con.Name)
				t.done = true
				used[c] = true
				progress = true
			}
			for i, rn := range con.Results {
				if results[i] == nil && l.Kind == "id" && l.Op == rn {
					if x.dependsPoison(post, c.E.Args[1]) {
						continue
					}
					v := post.eval(c.E.Args[1])
					rt := sig.Results().At(i).Type()
					if tv, ok := v.(*Term); ok {
						v = x.typedResult(st, tv, rt)
					} else if isUIntNamed(rt) {
						v = x.toIntV(v)
					}
					results[i] = v
					post.vars[rn] = v
					used[c] = true
					progress = true
				}
			}
			// struct/array results: #r == E with r an Int value
			for i, rn := range con.Results {
				if results[i] == nil && ls == "#"+rn && isUIntNamed(sig.Results().At(i).Type()) {
					if x.dependsPoison(post, c.E.Args[1]) {
						continue
					}
					v := post.term(c.E.Args[1])
					iv := &IntV{U: x.named256(st, v)}
					results[i] = iv
					post.vars[rn] = iv
					used[c] = true
					progress = true
				}
			}
		}
	}
	// 4. remaining targets: havoc
	for _, t := range targets {
		if t.done || t.p == nil {
			continue
		}
		x.havocPtr(st, post, t.p, con.Name+"."+t.key)
	}
	for i, rn := range con.Results {
		if results[i] == nil {
			results[i] = x.freshOf(sig.Results().At(i).Type(), shortName(con.Name)+"."+rn, st)
			post.vars[rn] = results[i]
		}
	}
	for k, v := range poison {
		if _, ok := v.(PoisonV); !ok {
			st.cells[k] = v
		} else if _, ok := st.cells[k].(PoisonV); ok && !gone[k] {
			bail("contract %s leaves %s undefined", con.Name, x.info[k].name)
		}
	}
	if len(sharedCells) > 0 {
		// nothing that the shared result may denote is written from here on
		of := map[string]bool{}
		for _, n := range con.SharedOf {
			of[n] = true
		}
		var from []int
		for i, a := range args {
			if len(of) > 0 && !of[con.Params[i]] {
				continue
			}
			switch q := a.(type) {
			case *PtrV:
				from = append(from, q.Cell)
				from = append(from, st.shares[q.Cell]...)
			case *MInt:
				bail("result may be the value of a map entry")
			}
		}
		for _, id := range append(append([]int(nil), sharedCells...), from...) {
			st.setKonst(id)
		}
		for _, id := range sharedCells {
			st.setShares(id, from)
		}
	}
	post.cells = st.cells
	post.heap = st.heap
	for _, c := range con.Ensures {
		if used[c] || c.Opts["verifyonly"] != "" || x.encapsulated(c, g) {
			continue
		}
		x.assume(st, post.boolE(c.E))
	}
	if len(con.Results) == 0 {
		if sig.Results().Len() > 0 {
			bail("contract %s names no results", con.Name)
		}
		return nil
	}
	if len(results) == 1 {
		return results[0]
	}
	return &TupleV{E: results}
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}

func clauseName(c *Clause) string {
	if c.Label != "" {
		return c.Label
	}
	return c.Text
}

func (x *Exec) typedResult(st *State, v *Term, t types.Type) *Term {
	if bits, sg, ok := intInfo(t); ok {
		if v.Sort == SInt && !x.bv {
			lo, hi := rangeOf(bits, sg)
			if v.lo != nil && v.hi != nil && v.lo.Cmp(lo) >= 0 && v.hi.Cmp(hi) <= 0 {
				return v
			}
			n := FreshInt("r", lo, hi)
			x.assume(st, Eq(n, v))
			return n
		}
		if v.Sort == SInt && x.bv && v.Op == OConst {
			return BVc(v.K, bits)
		}
		if v.Sort.K == KBV && v.Sort.W != bits {
			if v.Sort.W > bits {
				return BVExtract(v, bits-1, 0)
			}
			return BVZext(v, bits)
		}
	}
	return v
}

func (x *Exec) dependsPoison(e *Env, ex *Expr) (dep bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(untranslatable); ok && (strings.Contains(u.msg, "depends on a value") || strings.Contains(u.msg, "unknown name") || strings.Contains(u.msg, "PoisonV")) {
				dep = true
				return
			}
			panic(r)
		}
	}()
	e.eval(ex)
	return false
}

var named = map[*Term]*Term{}

// named256: the value of a 256-bit object defined as E. When E is not
// obviously inside [0, 2^256) a variable with that range stands for it.
func (x *Exec) named256(st *State, v *Term) *Term {
	if v.Sort.K == KBV {
		if v.Sort.W != 256 {
			return BVZext(v, 256)
		}
		return v
	}
	if v.Sort != SInt {
		bail("named256 of %s", v)
	}
	if x.bv {
		if v.Op == OConst {
			return BVc(v.K, 256)
		}
		bail("integer value in bit-vector mode")
	}
	if w := x.dropWraps(st, v); w != v {
		x.assume(st, And(Le(Num(bigZero), w), Le(w, Num(bvMask(256)))))
		return w
	}
	if v.lo != nil && v.hi != nil && v.lo.Sign() >= 0 && v.hi.Cmp(B256) < 0 {
		if v.Op != OIte {
			return v
		}
	}
	n, ok := named[v]
	if !ok {
		n = FreshInt("v", bigZero, bvMask(256))
		if v.lo != nil {
			tighten(n, v.lo, nil)
		}
		if v.hi != nil {
			tighten(n, nil, v.hi)
		}
		named[v] = n
	}
	x.assume(st, Eq(n, v))
	return n
}

// dropWraps removes the multiple of 2^256 from a wrapped result when the path
// condition shows that nothing wraps.
func (x *Exec) dropWraps(st *State, v *Term) *Term {
	if v.Op == OIte || v.hasB {
		return v
	}
	v0 := v
	for _, m := range monos(v) {
		if len(m.Vs) != 1 || m.Vs[0].Op != ODivC || new(big.Int).Mod(m.C, B256).Sign() != 0 {
			continue
		}
		d := m.Vs[0]
		r := d.Args[0]
		k := new(big.Int).Sub(d.K, bigOne)
		if x.holdsQ(st, And(Le(Num(bigZero), r), Le(r, Num(k)))) {
			v = Sub(v, MulK(m.C, d))
		} else {
			return v0
		}
	}
	return v
}

func (x *Exec) assignTarget(st *State, post *Env, p Val, v *Term, why string) {
	switch q := p.(type) {
	case *PtrV:
		cur := st.cells[q.Cell]
		if _, po := cur.(PoisonV); po {
			// fresh result object
			if isUIntNamed(x.info[q.Cell].T) {
				iv := &IntV{U: x.named256(st, v)}
				st.cells[q.Cell] = iv
				post.cells[q.Cell] = iv
				return
			}
			if isBigNamed(x.info[q.Cell].T) {
				st.cells[q.Cell] = &BigV{T: v}
				post.cells[q.Cell] = st.cells[q.Cell]
				return
			}
			bail("fresh object of type %s", typeStr(x.info[q.Cell].T))
		}
		iv := &IntV{U: x.named256(st, v)}
		x.store(st, q, iv, token.NoPos)
		post.cells[q.Cell] = st.cells[q.Cell]
	case *HPtr:
		x.hstore(st, q, &IntV{U: x.named256(st, v)}, token.NoPos)
		post.heap = st.heap
	case *MInt:
		x.mstore(st, q, &IntV{U: x.named256(st, v)})
		post.cells[q.Cell] = st.cells[q.Cell]
	case *SliceV:
		// words of the value
		n := q.Len
		cur := x.getPath(x.cellVal(st, q.P.Cell), q.P.Path)
		lo, hi := bigZero, new(big.Int).Sub(pow2big(uint(64*n)), bigOne)
		t := v
		if !(t.lo != nil && t.lo.Sign() >= 0 && t.hi != nil && t.hi.Cmp(hi) <= 0) {
			t = FreshInt("q", lo, hi)
			x.assume(st, Eq(t, v))
		}
		var nv Val
		ws := make([]*Term, n)
		for i := 0; i < n; i++ {
			w := DivC(t, pow2big(uint(64*i)))
			if i < n-1 {
				w = ModC(w, B64)
			}
			ws[i] = w
		}
		switch a := cur.(type) {
		case *ArrayV:
			z := &ArrayV{El: a.El, E: append([]Val(nil), a.E...)}
			for i := range ws {
				z.E[q.Off+i] = ws[i]
			}
			nv = z
		case *IntV:
			z := &IntV{}
			for i := 0; i < 4; i++ {
				z.W[i] = a.w(i)
			}
			for i := range ws {
				z.W[q.Off+i] = ws[i]
			}
			nv = z
		default:
			bail("slice target %T", cur)
		}
		st.cells[q.P.Cell] = x.setPath(x.cellVal(st, q.P.Cell), q.P.Path, nv)
		post.cells[q.P.Cell] = st.cells[q.P.Cell]
	default:
		bail("assign to %T", p)
	}
}

func (x *Exec) havocPtr(st *State, post *Env, p Val, name string) {
	switch q := p.(type) {
	case *PtrV:
		if q.Win {
			x.store(st, q, x.freshInt256(name), token.NoPos)
		} else if _, po := st.cells[q.Cell].(PoisonV); po {
			st.cells[q.Cell] = x.freshOf(x.info[q.Cell].T, name, st)
		} else {
			old := x.getPath(x.cellVal(st, q.Cell), q.Path)
			st.cells[q.Cell] = x.setPath(x.cellVal(st, q.Cell), q.Path, x.freshLike(old, name, st))
		}
		post.cells[q.Cell] = st.cells[q.Cell]
	case *SliceV:
		a := x.getPath(x.cellVal(st, q.P.Cell), q.P.Path)
		switch y := a.(type) {
		case *ArrayV:
			z := &ArrayV{El: y.El, E: append([]Val(nil), y.E...)}
			for i := 0; i < q.Len; i++ {
				z.E[q.Off+i] = x.freshOf(y.El, name, st)
			}
			st.cells[q.P.Cell] = x.setPath(x.cellVal(st, q.P.Cell), q.P.Path, z)
		case *IntV:
			z := &IntV{}
			for i := range z.W {
				z.W[i] = y.w(i)
			}
			for i := 0; i < q.Len; i++ {
				z.W[q.Off+i] = x.freshOf(word64, name, st).(*Term)
			}
			st.cells[q.P.Cell] = x.setPath(x.cellVal(st, q.P.Cell), q.P.Path, z)
		case *BlockV:
			z := &BlockV{El: y.El}
			for _, f := range y.F {
				n := Fresh(name, f.Sort)
				k := BoundVar("k")
				out := Or(Lt(k, q.HOff), Le(Add(q.HOff, q.HLen), k))
				sel := Select(n, k)
				x.assume(st, Forall([]*Term{k}, Implies(out, Eq(sel, Select(f, k))), [][]*Term{{sel}}))
				z.F = append(z.F, n)
			}
			st.cells[q.P.Cell] = z
		default:
			bail("havoc slice of %T", a)
		}
		post.cells[q.P.Cell] = st.cells[q.P.Cell]
	case *HPtr:
		x.hstore(st, q, x.freshInt256(name), token.NoPos)
		post.heap = st.heap
	case *MInt: // new content already
		post.cells[q.Cell] = st.cells[q.Cell]
	default:
		bail("havoc of %T", p)
	}
}

func (x *Exec) freshLike(v Val, name string, st *State) Val {
	switch q := v.(type) {
	case *IntV:
		return x.freshInt256(name)
	case *ArrayV:
		z := &ArrayV{El: q.El}
		for i := range q.E {
			z.E = append(z.E, x.freshOf(q.El, fmt.Sprintf("%s.%d", name, i), st))
		}
		return z
	case *StructV:
		return x.freshOf(q.T, name, st)
	case *BigV:
		return &BigV{T: Fresh(name, SInt)}
	case *Term:
		if q.Sort == SInt {
			return Fresh(name, SInt)
		}
		return Fresh(name, q.Sort)
	}
	bail("havoc of %T", v)
	return nil
}

func (x *Exec) checkSeparate(st *State, con *Contract, args []Val, pos token.Pos) {
	seen := map[int]bool{}
	for i, a := range args {
		if p, ok := a.(*HPtr); ok {
			for j := 0; j < i; j++ {
				if q, ok := args[j].(*HPtr); ok {
					x.oblige(st, "requires", fmt.Sprintf("requires of %s: argument %s is separate", con.Name, con.Params[i]), pos, Not(Eq(p.A, q.A)), nil)
				}
			}
			continue
		}
		var c int
		switch q := a.(type) {
		case *PtrV:
			c = q.Cell
		case *SliceV:
			if q.Heap || q.P == nil {
				continue
			}
			c = q.P.Cell
		default:
			continue
		}
		if seen[c] {
			x.oblige(st, "requires", fmt.Sprintf("requires of %s: argument %s is separate", con.Name, con.Params[i]), pos, False, nil)
			panic(pathEnd{})
		}
		seen[c] = true
	}
}

// ---------------------------------------------------------------- return

func (x *Exec) ret(st *State, f *Frame, r *ssa.Return) bool {
	var vals []Val
	for _, v := range r.Results {
		vals = append(vals, x.val(st, f, v))
	}
	if len(st.frames) > 1 {
		// locals whose address is not taken are out of reach from here on
		for a, id := range f.locals {
			if !a.Heap {
				delete(st.cells, id)
			}
		}
		st.frames = st.frames[:len(st.frames)-1]
		c := st.top()
		if len(vals) == 1 {
			x.setResult(c, f.call, vals[0])
		} else if len(vals) > 1 {
			x.setResult(c, f.call, &TupleV{E: vals})
		}
		var rv Val
		if len(vals) == 1 {
			rv = vals[0]
		} else if len(vals) > 1 {
			rv = &TupleV{E: vals}
		}
		x.point(st, "", fnKey(f.fn), nil, rv)
		return true
	}
	x.exits++
	x.checkExit(st, vals, r.Pos())
	if keepExits {
		x.exitPcs = append(x.exitPcs, append([]*Term(nil), st.pc...))
	}
	return false
}

func (x *Exec) panicAt(st *State, i *ssa.Panic) {
	x.checkPanic(st, "panic is unreachable", i.Pos())
}

func (x *Exec) noteMayPanic() {
	x.trusted[x.con.Name+" may panic: nothing is claimed about the runs that do"] = true
}

func (x *Exec) checkPanic(st *State, what string, pos token.Pos) {
	if x.con.Opts["maypanic"] != "" {
		x.noteMayPanic()
		return
	}
	if x.con.Panics != nil {
		e := x.env(st)
		e.cells, e.heap = x.entry.cells, x.entry.heap
		e.frame = nil
		c := e.boolE(x.con.Panics.E)
		x.oblige(st, "panic", "panics only when the contract allows it", pos, c, x.con.Panics.Opts)
		return
	}
	x.oblige(st, "panic", what, pos, False, nil)
}

func (x *Exec) checkExit(st *State, vals []Val, pos token.Pos) {
	e := x.env(st)
	e.vars = map[string]Val{}
	for k, v := range x.args {
		e.vars[k] = v
	}
	if len(x.con.Results) > 0 {
		if len(x.con.Results) != len(vals) {
			bail("contract %s: result count", x.con.Name)
		}
		for i, n := range x.con.Results {
			e.vars[n] = vals[i]
		}
	}
	if x.con.Panics != nil {
		o := *e
		o.cells, o.heap = x.entry.cells, x.entry.heap
		o.frame = nil
		x.oblige(st, "panic", "panics whenever the contract says so", pos, Not(o.boolE(x.con.Panics.E)), x.con.Panics.Opts)
	}
	x.hints(st, e, x.con.Hints, "exit")
	freshCells := map[int]bool{}
	for _, fx := range x.con.Fresh {
		v := e.eval(fx)
		x.checkFresh(st, v, fx, pos)
		if q, ok := v.(*PtrV); ok {
			if freshCells[q.Cell] {
				x.oblige(st, "ensures", "fresh results are distinct", pos, False, nil)
			}
			freshCells[q.Cell] = true
		}
	}
	for _, fx := range x.con.Shared {
		v := e.eval(fx)
		if _, ok := v.(NilV); ok {
			x.oblige(st, "ensures", fx.String()+" is not nil", pos, False, nil)
		}
		if len(x.con.SharedOf) > 0 {
			of := map[int]bool{}
			for _, n := range x.con.SharedOf {
				if q, ok := x.args[n].(*PtrV); ok {
					of[q.Cell] = true
				}
			}
			q, ok := v.(*PtrV)
			if !ok {
				bail("shared result %T", v)
			}
			for _, c := range append([]int{q.Cell}, st.shares[q.Cell]...) {
				_, par := x.entry.cells[c]
				if par && !of[c] || x.info[c].konst || isFwd(st.cells[c]) {
					x.oblige(st, "ensures", fx.String()+" is a new object or one of "+strings.Join(x.con.SharedOf, ", "), pos, False, nil)
				}
			}
		}
	}
	for id, v := range x.entry.cells {
		if isFwd(st.cells[id]) && !isFwd(v) {
			x.oblige(st, "frame", x.info[id].name+" is not kept", pos, False, nil)
		}
	}
	for _, c := range x.con.Ensures {
		if c.Opts["assumed"] != "" {
			x.trusted["ensures of "+x.con.Name+" assumed: "+clauseName(c)] = true
			continue
		}
		g := e.boolE(c.E)
		if len(c.Hints) > 0 {
			s2 := st.clone()
			e2 := *e
			e2.st = s2
			e2.names = map[string]Val{}
			for k, v := range e.names {
				e2.names[k] = v
			}
			x.hints(s2, &e2, c.Hints, clauseName(c))
			g = e2.boolE(c.E)
			x.oblige(s2, "ensures", clauseName(c), pos, g, c.Opts)
		} else {
			x.oblige(st, "ensures", clauseName(c), pos, g, c.Opts)
		}
		if c.Opts["assume"] != "" {
			x.assume(st, g)
		}
	}
	x.checkFrame(st, e, pos)
	x.checkGraph(st, e, vals, pos)
}

func (x *Exec) checkFresh(st *State, v Val, fx *Expr, pos token.Pos) {
	switch q := v.(type) {
	case *PtrV:
		_, existed := x.entry.cells[q.Cell]
		x.oblige(st, "ensures", "fresh "+fx.String(), pos, Bool(!existed && !x.isKonst(st, q.Cell) && !isFwd(st.cells[q.Cell])), nil)
	case *HPtr:
		x.oblige(st, "ensures", "fresh "+fx.String(), pos, Le(x.entry.ctr, q.A), nil)
	case NilV:
		x.oblige(st, "ensures", "fresh "+fx.String(), pos, False, nil)
	default:
		bail("fresh %T", v)
	}
}

// encapsulated: a clause about the private representation of an abstract
// data type; it is of no concern outside the package of the type.
func (x *Exec) encapsulated(c *Clause, g *ssa.Function) bool {
	return c.Opts["adt"] != "" && x.fn != nil && g != nil && x.fn.Pkg != g.Pkg
}

// checkFrame: objects not named in modifies keep their content.
func (x *Exec) checkFrame(st *State, e *Env, pos token.Pos) {
	type lv struct {
		cell int
		path []int
	}
	var mods []lv
	oe := *e
	oe.cells, oe.heap = x.entry.cells, x.entry.heap
	oe.frame = nil
	for _, m := range x.con.Modifies {
		var v Val
		if m.Kind == "call" && m.Op == "elems" {
			v = oe.eval(m.Args[0])
		} else {
			v = oe.lvalue(m)
		}
		switch q := v.(type) {
		case *PtrV:
			if q.Win {
				mods = append(mods, lv{q.Cell, nil})
				break
			}
			mods = append(mods, lv{q.Cell, q.Path})
			if m.Kind != "un" && x.heap {
				// everything the object owns
				seen := map[int]string{}
				x.graph(x.entry.cells, x.getPath(x.entry.cells[q.Cell], q.Path), "", seen, nil)
				for c := range seen {
					mods = append(mods, lv{c, nil})
				}
			}
		case *SliceV:
			if q.P == nil {
				break
			}
			mods = append(mods, lv{q.P.Cell, nil})
			b0, ok0 := x.entry.cells[q.P.Cell].(*BlockV)
			b1, ok1 := st.cells[q.P.Cell].(*BlockV)
			if q.Heap && ok0 && ok1 && len(x.con.Modifies) == 1 {
				// the elements outside the slice stay
				for i := range b0.F {
					if b0.F[i] == b1.F[i] {
						continue
					}
					k := BoundVar("k")
					out := Or(Lt(k, q.HOff), Le(Add(q.HOff, q.HLen), k))
					x.oblige(st, "frame", "elements outside "+m.String()+" unchanged", pos, Forall([]*Term{k}, Implies(out, Eq(Select(b1.F[i], k), Select(b0.F[i], k))), nil), nil)
				}
			} else if q.Heap {
				bail("several modified objects beside the elements of a slice")
			}
		}
	}
	var cmp func(id int, path []int, name string, a, b Val)
	cmp = func(id int, path []int, name string, a, b Val) {
		below := false
		for _, m := range mods {
			if m.cell != id || len(m.path) > len(path) {
				if m.cell == id {
					below = true
				}
				continue
			}
			covered := true
			for i := range m.path {
				if m.path[i] != path[i] {
					covered = false
				}
			}
			if covered {
				return
			}
		}
		sa, ok1 := a.(*StructV)
		sb, ok2 := b.(*StructV)
		if ok1 && ok2 && (below || !sameVal(a, b)) {
			u := sa.T.Underlying().(*types.Struct)
			for i := range sa.F {
				n := name
				if i < u.NumFields() {
					n += "." + u.Field(i).Name()
				} else {
					n += "." + ghostsOf(sa.T)[i-u.NumFields()].Name
				}
				cmp(id, append(append([]int(nil), path...), i), n, sa.F[i], sb.F[i])
			}
			return
		}
		if sameVal(a, b) {
			x.oblige(st, "frame", name+" unchanged", pos, True, nil)
			return
		}
		x.oblige(st, "frame", name+" unchanged", pos, x.valEq(st, a, b), nil)
	}
	var ids []int
	for id := range x.entry.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		b, ok := st.cells[id]
		if !ok {
			continue
		}
		cmp(id, nil, x.info[id].name, x.entry.cells[id], b)
	}
	if x.heap {
		x.checkHeapFrame(st, &oe, pos)
	}
}

// ---------------------------------------------------------------- hints

func (x *Exec) hints(st *State, e *Env, hs []*Hint, where string) {
	if len(hs) == 0 {
		return
	}
	for _, h := range hs {
		if h.Kind != "when" && h.Kind != "set" && x.softSkip(e, h) {
			continue
		}
		switch h.Kind {
		case "assert":
			g := e.boolE(h.E)
			lab := h.Label
			if lab == "" {
				lab = h.E.String()
			}
			if len(h.By) > 0 {
				s2 := st.clone()
				e2 := *e
				e2.st = s2
				e2.names = map[string]Val{}
				for k, v := range e.names {
					e2.names[k] = v
				}
				x.hints(s2, &e2, h.By, lab)
				x.oblige(s2, "assert", where+": "+lab, token.NoPos, g, h.Opts)
			} else {
				x.oblige(st, "assert", where+": "+lab, token.NoPos, g, h.Opts)
			}
			x.assume(st, g)
		case "use":
			x.useLemma(st, e, h, where)
		case "let":
			if e.names == nil {
				e.names = map[string]Val{}
			}
			v := e.eval(h.E)
			e.names[h.Name] = v
			st.lets[h.Name] = v
		case "name":
			t := e.term(h.E)
			n := Fresh(h.Name, t.Sort)
			if t.Sort == SInt {
				n.lo, n.hi = t.lo, t.hi
			}
			x.assume(st, Eq(n, t))
			if e.names == nil {
				e.names = map[string]Val{}
			}
			e.names[h.Name] = n
			st.lets[h.Name] = n
		case "when":
			if x.softSkip(e, h) {
				continue
			}
			c := e.boolE(h.E)
			if c == False {
				continue
			}
			nc := Not(c)
			skip := false
			for _, p := range st.pc {
				if p == nc {
					skip = true // excluded on this path
				}
				if p == c {
					c = True
				}
			}
			if skip {
				continue
			}
			s2 := st.clone()
			x.assume(s2, c)
			e2 := *e
			e2.st = s2
			n0 := len(s2.pc)
			x.hints(s2, &e2, h.By, where)
			for _, t := range s2.pc[n0:] {
				x.assume(st, Implies(c, t))
			}
		case "set":
			x.setGhost(st, e, h)
			e.cells, e.heap = st.cells, st.heap
		case "drop":
			t := e.boolE(h.E)
			var pc []*Term
			for _, p := range st.pc {
				if p != t {
					pc = append(pc, p)
				}
			}
			st.pc = pc
		}
	}
}

// softSkip: a step that mentions a name that does not exist (any more) is
// left out; proof steps only ever help, they never weaken a goal.
func (x *Exec) softSkip(e *Env, h *Hint) (skip bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(untranslatable); ok && (strings.Contains(u.msg, "unknown name") || strings.Contains(u.msg, "symbolic index") || strings.Contains(u.msg, "path index")) {
				skip = true
				return
			}
			panic(r)
		}
	}()
	if h.E != nil {
		e.eval(h.E)
	}
	if h.Kind == "use" {
		for _, a := range h.Args {
			e.eval(a)
		}
	}
	return false
}

func (x *Exec) useLemma(st *State, e *Env, h *Hint, where string) {
	l := x.db.Lemmas[h.Name]
	if l == nil {
		bail("unknown lemma %s", h.Name)
	}
	if len(l.Params) != len(h.Args) {
		bail("lemma %s: argument count", h.Name)
	}
	le := &Env{x: x, st: st, cells: e.cells, heap: e.heap, ctr: e.ctr, old: e.old, vars: map[string]Val{}}
	for i, p := range l.Params {
		le.vars[p] = e.eval(h.Args[i])
		if _, ok := le.vars[p].(*Term); !ok {
			le.vars[p] = e.term(h.Args[i])
		}
	}
	x.used["lemma "+l.Name] = true
	if l.Axiom && l.Ground == "" {
		x.trusted["axiom "+l.Name] = true
	}
	for _, r := range l.Requires {
		t := le.boolE(r.E)
		x.oblige(st, "assert", where+": requires of lemma "+l.Name+": "+clauseName(r), token.NoPos, t, r.Opts)
		x.assume(st, t)
	}
	for _, r := range l.Ensures {
		x.assume(st, le.boolE(r.E))
	}
}

// ---------------------------------------------------------------- externals and builtins

func (x *Exec) builtin(st *State, f *Frame, ci ssa.CallInstruction, b *ssa.Builtin) bool {
	var args []Val
	for _, a := range ci.Common().Args {
		args = append(args, x.val(st, f, a))
	}
	switch b.Name() {
	case "len", "cap":
		switch q := args[0].(type) {
		case *SliceV:
			if q.Heap {
				if b.Name() == "len" {
					x.setResult(f, ci, q.HLen)
				} else {
					x.setResult(f, ci, q.HCap)
				}
			} else {
				n := q.Len
				if b.Name() == "cap" {
					n = q.Cap
				}
				x.setResult(f, ci, x.intConst(bi(int64(n)), types.Typ[types.Int]))
			}
		case *StrV:
			if len(q.Parts) == 0 || len(q.Parts) == 1 && q.Parts[0].Kind == "" {
				n := 0
				if len(q.Parts) == 1 {
					n = len(q.Parts[0].Lit)
				}
				x.setResult(f, ci, x.intConst(bi(int64(n)), types.Typ[types.Int]))
			} else {
				bail("len of symbolic string")
			}
		case *ArrayV:
			x.setResult(f, ci, x.intConst(bi(int64(len(q.E))), types.Typ[types.Int]))
		case *OpaqueV:
			x.setResult(f, ci, x.freshOf(types.Typ[types.Int], "len", st))
		default:
			bail("len of %T", args[0])
		}
	case "copy":
		d, ok1 := args[0].(*SliceV)
		s, ok2 := args[1].(*SliceV)
		if !ok1 || !ok2 || d.Heap && s.Heap {
			bail("copy of heap slices")
		}
		if d.Heap || s.Heap {
			x.copyFork(st, ci, d, s)
			return false
		}
		n := d.Len
		if s.Len < n {
			n = s.Len
		}
		src := x.getPath(x.cellVal(st, s.P.Cell), s.P.Path)
		var vals []Val
		for i := 0; i < n; i++ {
			vals = append(vals, x.getPath(src, []int{s.Off + i}))
		}
		for i := 0; i < n; i++ {
			x.store(st, &PtrV{Cell: d.P.Cell, Path: append(append([]int(nil), d.P.Path...), d.Off+i)}, vals[i], ci.Pos())
		}
		x.setResult(f, ci, x.intConst(bi(int64(n)), types.Typ[types.Int]))
	case "append":
		s, ok := args[0].(*SliceV)
		if !ok {
			bail("append to %T", args[0])
		}
		if s.Heap || x.heap {
			return x.happend(st, f, ci, args)
		}
		bail("append in word memory")
	case "print", "println":
	case "ssa:deferstack":
		x.setResult(f, ci, &OpaqueV{Name: "deferstack"})
	default:
		bail("builtin %s", b.Name())
	}
	return true
}

// copyFork copies between a slice of symbolic length and one of constant
// length, with one path for every number of elements copied.
func (x *Exec) copyFork(st *State, ci ssa.CallInstruction, d, s *SliceV) {
	c, h := d.Len, s
	if d.Heap {
		c, h = s.Len, d
	}
	if _, isS := elemFields(h.El); isS {
		bail("copy of structures")
	}
	for n := 0; n <= c; n++ {
		o := st.clone()
		k := NumI(int64(n))
		if n == c {
			x.assume(o, Le(k, h.HLen))
		} else {
			x.assume(o, Eq(h.HLen, k))
		}
		o.trace = append(o.trace, fmt.Sprintf("copy=%d", n))
		if !x.feasible(o) {
			continue
		}
		var vals []Val
		for i := 0; i < n; i++ {
			if s.Heap {
				vals = append(vals, x.eload(o, x.hindex(o, s, NumI(int64(i)), ci.Pos()).(*EPtr)))
			} else {
				vals = append(vals, x.getPath(x.getPath(x.cellVal(o, s.P.Cell), s.P.Path), []int{s.Off + i}))
			}
		}
		for i := 0; i < n; i++ {
			if d.Heap {
				x.estore(o, x.hindex(o, d, NumI(int64(i)), ci.Pos()).(*EPtr), vals[i], ci.Pos())
			} else {
				x.store(o, &PtrV{Cell: d.P.Cell, Path: append(append([]int(nil), d.P.Path...), d.Off+i)}, vals[i], ci.Pos())
			}
		}
		x.setResult(o.top(), ci, x.intConst(bi(int64(n)), types.Typ[types.Int]))
		x.work = append(x.work, o)
	}
}

// pure externals that only print or format; their results are arbitrary
var noEffect = map[string]bool{"fmt.Println": true, "fmt.Printf": true, "fmt.Print": true, "fmt.Sprintf": true, "fmt.Errorf": true, "errors.New": true, "fmt.Fprintf": true, "fmt.Sprint": true}

func (x *Exec) external(st *State, f *Frame, ci ssa.CallInstruction, g *ssa.Function, k string, args []Val) (Val, bool) {
	t := func(i int) *Term { return args[i].(*Term) }
	carryIn := func(c *Term) *Term {
		if c.lo != nil && c.lo.Sign() >= 0 && c.hi != nil && c.hi.Cmp(bigOne) <= 0 {
			return c
		}
		x.oblige(st, "requires", "carry input is 0 or 1", ci.Pos(), And(Le(NumI(0), c), Le(c, NumI(1))), nil)
		n := FreshInt("c", bigZero, bigOne)
		x.assume(st, Eq(n, c))
		return n
	}
	switch k {
	case "bits.Add64", "bits.Add":
		if x.bv {
			a, b, c := BVZext(t(0), 66), BVZext(t(1), 66), BVZext(t(2), 66)
			s := BV2("bvadd", BV2("bvadd", a, b), c)
			return &TupleV{E: []Val{BVExtract(s, 63, 0), BVZext(BVExtract(s, 64, 64), 64)}}, true
		}
		s := LinComb([]*big.Int{bigOne, bigOne, bigOne}, []*Term{t(0), t(1), carryIn(t(2))})
		return &TupleV{E: []Val{ModC(s, B64), DivC(s, B64)}}, true
	case "bits.Sub64", "bits.Sub":
		if x.bv {
			a, b, c := BVZext(t(0), 66), BVZext(t(1), 66), BVZext(t(2), 66)
			s := BV2("bvsub", BV2("bvsub", a, b), c)
			return &TupleV{E: []Val{BVExtract(s, 63, 0), BVZext(BVExtract(s, 64, 64), 64)}}, true
		}
		s := LinComb([]*big.Int{bigOne, bigM1, bigM1}, []*Term{t(0), t(1), carryIn(t(2))})
		return &TupleV{E: []Val{ModC(s, B64), Neg(DivC(s, B64))}}, true
	case "bits.Mul64", "bits.Mul":
		if x.bv {
			p := BV2("bvmul", BVZext(t(0), 128), BVZext(t(1), 128))
			return &TupleV{E: []Val{BVExtract(p, 127, 64), BVExtract(p, 63, 0)}}, true
		}
		p := Mul(t(0), t(1))
		return &TupleV{E: []Val{DivC(p, B64), ModC(p, B64)}}, true
	case "bits.Div64":
		if x.bv {
			n := BVConcat(t(0), t(1))
			d := BVZext(t(2), 128)
			x.oblige(st, "panic", "bits.Div64 quotient fits", ci.Pos(), BV2("bvult", t(0), t(2)), nil)
			return &TupleV{E: []Val{BVExtract(BV2("bvudiv", n, d), 63, 0), BVExtract(BV2("bvurem", n, d), 63, 0)}}, true
		}
		x.oblige(st, "panic", "bits.Div64 quotient fits", ci.Pos(), Lt(t(0), t(2)), nil)
		x.assume(st, Lt(t(0), t(2)))
		n := LinComb([]*big.Int{B64, bigOne}, []*Term{t(0), t(1)})
		q := FreshU64("q")
		r := FreshU64("r")
		x.assume(st, Eq(n, Add(Mul(q, t(2)), r)))
		x.assume(st, Lt(r, t(2)))
		return &TupleV{E: []Val{q, r}}, true
	case "bits.LeadingZeros64", "bits.LeadingZeros":
		if x.bv {
			return bvLZ(t(0)), true
		}
		return lzTerm(t(0)), true
	case "bits.Len64", "bits.Len":
		if x.bv {
			return BV2("bvsub", BVi(64, 64), bvLZ(t(0))), true
		}
		return Sub(NumI(64), lzTerm(t(0))), true
	case "bits.TrailingZeros64":
		if x.bv {
			r := BVi(64, 64)
			for i := 63; i >= 0; i-- {
				r = Ite(Eq(BVExtract(t(0), i, i), BVi(1, 1)), BVi(int64(i), 64), r)
			}
			return r, true
		}
	case "strconv.Itoa":
		return &StrV{Parts: []StrPart{{Kind: "itoa", T: t(0)}}}, true
	}
	if strings.HasPrefix(k, "big.") && g.Pkg != nil && g.Pkg.Pkg.Path() == "math/big" {
		if v, ok := x.bigCall(st, ci, g, k, args); ok {
			return v, true
		}
	}
	if strings.HasPrefix(k, "binary.bigEndian.") {
		return x.bigEndian(st, ci, strings.TrimPrefix(k, "binary.bigEndian."), args)
	}
	if noEffect[k] {
		x.trusted["external "+k+" has no effect on program state"] = true
		res := g.Signature.Results()
		if res.Len() == 0 {
			return nil, true
		}
		if res.Len() == 1 {
			return x.freshOf(res.At(0).Type(), "ext", st), true
		}
		var vs []Val
		for i := 0; i < res.Len(); i++ {
			vs = append(vs, x.freshOf(res.At(i).Type(), "ext", st))
		}
		return &TupleV{E: vs}, true
	}
	return nil, false
}

func bvLZ(a *Term) *Term {
	r := BVi(64, 64)
	for i := 0; i < 64; i++ {
		r = Ite(Eq(BVExtract(a, i, i), BVi(1, 1)), BVi(int64(63-i), 64), r)
	}
	return r
}

func (x *Exec) bigEndian(st *State, ci ssa.CallInstruction, m string, args []Val) (Val, bool) {
	s, ok := args[len(args)-1].(*SliceV)
	if strings.HasPrefix(m, "Put") {
		s, ok = args[len(args)-2].(*SliceV)
	}
	if !ok {
		return nil, false
	}
	n := map[string]int{"Uint64": 8, "Uint32": 4, "Uint16": 2, "PutUint64": 8, "PutUint32": 4, "PutUint16": 2}[m]
	if n == 0 {
		return nil, false
	}
	if s.Heap {
		if x.bv {
			return nil, false
		}
		g := Le(NumI(int64(n)), s.HLen)
		x.oblige(st, "bounds", "binary.BigEndian."+m+" has enough bytes", ci.Pos(), g, nil)
		x.assume(st, g)
	}
	if !s.Heap && s.Len < n {
		x.oblige(st, "bounds", "binary.BigEndian."+m+" needs enough bytes", ci.Pos(), False, nil)
		panic(pathEnd{})
	}
	if strings.HasPrefix(m, "Put") {
		v := args[len(args)-1].(*Term)
		for i := 0; i < n; i++ {
			var b *Term
			if x.bv {
				b = BVExtract(v, 8*(n-i)-1, 8*(n-i)-8)
			} else {
				b = ModC(DivC(v, pow2big(uint(8*(n-1-i)))), big.NewInt(256))
			}
			if s.Heap {
				x.estore(st, x.hindex(st, s, NumI(int64(i)), ci.Pos()).(*EPtr), b, ci.Pos())
				continue
			}
			x.store(st, &PtrV{Cell: s.P.Cell, Path: append(append([]int(nil), s.P.Path...), s.Off+i)}, b, ci.Pos())
		}
		return nil, true
	}
	var parts []*Term
	if s.Heap {
		for i := 0; i < n; i++ {
			parts = append(parts, x.eload(st, x.hindex(st, s, NumI(int64(i)), ci.Pos()).(*EPtr)).(*Term))
		}
	} else {
		arr := x.getPath(x.cellVal(st, s.P.Cell), s.P.Path)
		for i := 0; i < n; i++ {
			parts = append(parts, x.getPath(arr, []int{s.Off + i}).(*Term))
		}
	}
	if !x.bv {
		r := NumI(0)
		for _, p := range parts {
			r = Add(MulK(big.NewInt(256), r), p)
		}
		tighten(r, bigZero, bvMask(8*n))
		return r, true
	}
	return BVConcat(parts...), true
}
