package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	Func   string
	Label  string
	Kind   string // ensures, requires, invariant, bounds, overflow, nil, panic, frame, lemma, assert, decreases, vacuity
	Pos    string
	Pc     []*Term
	Goal   *Term
	Opts   map[string]string
	Status string
	Solver string
	Dur    time.Duration
	Model  map[string]*big.Int
	Out    string
	Path   string
}

type Frame struct {
	fn     *ssa.Function
	regs   map[ssa.Value]Val
	locals map[*ssa.Alloc]int
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	idx    int
	call   ssa.CallInstruction // in the caller
	path   string
	loops  map[*ssa.BasicBlock]*LoopRun
	order  []*ssa.Alloc // locals in order of creation
}

type LoopRun struct {
	ctr    *Term
	spec   *LoopSpec
	ghosts map[string]Val
	snap   map[string]Val // leaf values at header
	decr   []*Term
	iters  int
	pc     []*Term // at loop entry (cut)
	shapes map[string]bool
	cells  map[int]Val
	heap   map[string]*Term
	id     int
}

type State struct {
	cells  map[int]Val
	heap   map[string]*Term
	hlog   map[string]*hvar
	ctr    *Term
	pc     []*Term
	frames []*Frame
	trace  []string
	lets   map[string]Val
	calls  map[string]int
	steps  int
	konst  map[int]bool  // cells that must not be written (shared with a result)
	shares map[int][]int // cells that the object of a cell may be the same as
}

func (st *State) setKonst(id int) {
	n := map[int]bool{id: true}
	for k := range st.konst {
		n[k] = true
	}
	st.konst = n
}

func (st *State) setShares(id int, from []int) {
	n := map[int][]int{}
	for k, v := range st.shares {
		n[k] = v
	}
	seen := map[int]bool{}
	var l []int
	for _, c := range from {
		if !seen[c] {
			seen[c] = true
			l = append(l, c)
		}
	}
	n[id] = l
	st.shares = n
}

type CellInfo struct {
	key   string
	name  string
	T     types.Type
	konst bool
	param bool
}

type Snapshot struct {
	cells map[int]Val
	heap  map[string]*Term
	ctr   *Term
}

type Exec struct {
	prog       *Program
	db         *SpecDB
	fn         *ssa.Function
	con        *Contract
	name       string
	bv         bool
	heap       bool
	obls       []*Obligation
	info       []*CellInfo
	ord        map[loopKey]int
	havoc      map[loopKey]map[string]bool
	cutSeen    map[string]*LoopRun
	globs      map[*ssa.Global]int // explicit cell of the global variable
	gcells     map[int]Val         // contents of constant cells, shared
	caddr      map[string]*Term
	args       map[string]Val
	entry      *Snapshot
	caseS      string
	work       []*State
	parks      []*park
	paths      int
	exits      int
	exitPcs    [][]*Term
	steps      int
	trusted    map[string]bool
	used       map[string]bool
	curTop     *State
	deadline   time.Time
	seen       map[string]bool
	partition  string
	pend       []*Term
	cutRuns    int
	leafSigned map[string]bool
	tcells     map[*Term]int
	verc       int
	loopKonst  map[loopKey]map[string]bool
	loopShares map[loopKey]map[string]map[string]bool
	genCells   map[string]int
}

type restart struct{}

var word64 = types.Typ[types.Uint64]

// ---------------------------------------------------------------- types

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int32:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func rangeOf(bits int, signed bool) (lo, hi *big.Int) {
	if signed {
		h := pow2big(uint(bits - 1))
		return new(big.Int).Neg(h), new(big.Int).Sub(h, bigOne)
	}
	return bigZero, bvMask(bits)
}

func (x *Exec) intConst(k *big.Int, t types.Type) *Term {
	bits, _, _ := intInfo(t)
	if x.bv {
		return BVc(k, bits)
	}
	return Num(k)
}

func (x *Exec) freshOf(t types.Type, name string, st *State) Val {
	if bits, sg, ok := intInfo(t); ok {
		if x.bv {
			return Fresh(name, SBV(bits))
		}
		lo, hi := rangeOf(bits, sg)
		return FreshInt(name, lo, hi)
	}
	if isBoolT(t) {
		return Fresh(name, SBool)
	}
	if isStrT(t) {
		return &StrV{Parts: []StrPart{{Kind: "opaque", T: Fresh(name, SInt)}}}
	}
	if isUIntNamed(t) {
		return x.freshInt256(name)
	}
	if isBigNamed(t) && !x.bv {
		return &BigV{T: Fresh(name, SInt)}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			if tb := tableOf(t, u.Field(i).Type()); tb != nil {
				s.F = append(s.F, tb)
				continue
			}
			s.F = append(s.F, x.freshOf(u.Field(i).Type(), name+"."+u.Field(i).Name(), st))
		}
		for _, g := range ghostsOf(t) {
			s.F = append(s.F, x.freshGhost(st, g, name))
		}
		return s
	case *types.Array:
		if u.Len() > 64 {
			bail("large array %s", typeStr(t))
		}
		a := &ArrayV{El: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, x.freshOf(u.Elem(), fmt.Sprintf("%s.%d", name, i), st))
		}
		return a
	case *types.Pointer:
		if x.heap {
			if st == nil {
				bail("fresh pointer")
			}
			return x.freshPointee(st, u.Elem(), name)
		}
		bail("fresh pointer %s in word memory", typeStr(t))
	case *types.Slice:
		if x.heap {
			return x.freshHeapSlice(st, name, u.Elem())
		}
	case *types.Map:
		if x.heap {
			return x.freshMap(st, name, u)
		}
	}
	if m := x.ifaceModel(t); m != nil && x.heap && st != nil {
		return x.freshPointee(st, m, name)
	}
	return &OpaqueV{T: t, Name: name}
}

func (x *Exec) freshInt256(name string) *IntV {
	if x.bv {
		return &IntV{U: Fresh(name, SBV(256))}
	}
	if x.fn != nil && x.fn.Pkg != nil && x.fn.Pkg.Pkg.Name() != "uint256" {
		// outside the arithmetic package the words are of no interest
		return &IntV{U: FreshInt(name, bigZero, bvMask(256))}
	}
	v := &IntV{}
	for i := range v.W {
		v.W[i] = FreshU64(fmt.Sprintf("%s.%d", name, i))
	}
	return v
}

func (x *Exec) zeroOf(t types.Type) Val {
	if bits, _, ok := intInfo(t); ok {
		if x.bv {
			return BVi(0, bits)
		}
		return NumI(0)
	}
	if isBoolT(t) {
		return False
	}
	if isStrT(t) {
		return &StrV{}
	}
	if isUIntNamed(t) {
		if x.bv {
			return &IntV{U: BVi(0, 256)}
		}
		return &IntV{U: NumI(0)}
	}
	if isBigNamed(t) && !x.bv {
		return &BigV{T: NumI(0)}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := &StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, x.zeroOf(u.Field(i).Type()))
		}
		for _, g := range ghostsOf(t) {
			if x.curTop == nil {
				bail("ghost state")
			}
			s.F = append(s.F, x.freshGhost(x.curTop, g, "new"))
		}
		return s
	case *types.Array:
		if u.Len() > 64 {
			bail("large array %s", typeStr(t))
		}
		a := &ArrayV{El: u.Elem()}
		for i := int64(0); i < u.Len(); i++ {
			a.E = append(a.E, x.zeroOf(u.Elem()))
		}
		return a
	case *types.Pointer, *types.Interface, *types.Signature, *types.Chan:
		return NilV{}
	case *types.Map:
		return NilV{}
	case *types.Slice:
		return &SliceV{El: u.Elem(), Nil: true}
	}
	return &OpaqueV{T: t, Name: "zero"}
}

// ---------------------------------------------------------------- cells

func (x *Exec) newCell(st *State, key, name string, t types.Type, v Val) int {
	x.info = append(x.info, &CellInfo{key: key, name: name, T: t})
	id := len(x.info) - 1
	st.cells[id] = v
	return id
}

func (x *Exec) cellVal(st *State, id int) Val {
	if v, ok := st.cells[id]; ok {
		return v
	}
	if v, ok := x.gcells[id]; ok {
		return v
	}
	bail("no cell %d %s", id, x.info[id].key)
	return nil
}

func (x *Exec) getPath(v Val, path []int) Val {
	for _, i := range path {
		switch y := v.(type) {
		case *StructV:
			v = y.F[i]
		case *ArrayV:
			if i < 0 || i >= len(y.E) {
				bail("path index")
			}
			v = y.E[i]
		case *IntV:
			v = y.w(i)
		default:
			bail("path through %T", v)
		}
	}
	return v
}

func (x *Exec) setPath(v Val, path []int, n Val) Val {
	if len(path) == 0 {
		if iv, ok := v.(*IntV); ok {
			_ = iv
			return x.toIntV(n)
		}
		if av, ok := v.(*ArrayV); ok {
			if iv, ok := n.(*IntV); ok {
				if len(av.E) != 4 {
					bail("array/int size")
				}
				return &ArrayV{El: av.El, E: []Val{iv.w(0), iv.w(1), iv.w(2), iv.w(3)}}
			}
		}
		return n
	}
	i := path[0]
	switch y := v.(type) {
	case *StructV:
		z := &StructV{T: y.T, F: append([]Val(nil), y.F...)}
		z.F[i] = x.setPath(y.F[i], path[1:], n)
		return z
	case *ArrayV:
		z := &ArrayV{El: y.El, E: append([]Val(nil), y.E...)}
		z.E[i] = x.setPath(y.E[i], path[1:], n)
		return z
	case *IntV:
		z := &IntV{}
		for k := 0; k < 4; k++ {
			z.W[k] = y.w(k)
		}
		z.W[i] = n.(*Term)
		return z
	}
	bail("setPath through %T", v)
	return nil
}

func (x *Exec) toIntV(v Val) *IntV {
	switch y := v.(type) {
	case *IntV:
		return y
	case *ArrayV:
		if len(y.E) == 4 {
			r := &IntV{}
			for i := range r.W {
				r.W[i] = y.E[i].(*Term)
			}
			return r
		}
	}
	bail("not a 256-bit value: %T", v)
	return nil
}

func (x *Exec) load(st *State, p Val, pos token.Pos) Val {
	switch q := p.(type) {
	case *PtrV:
		cv := x.cellVal(st, q.Cell)
		if isFwd(cv) {
			return x.load(st, x.fwd(st.cells, q), pos)
		}
		if _, po := cv.(PoisonV); po {
			bail("read of an object that a call has replaced")
		}
		v := x.getPath(cv, q.Path)
		if q.Win {
			a := v.(*ArrayV)
			return &ArrayV{El: a.El, E: append([]Val(nil), a.E[q.Off:q.Off+q.N]...)}
		}
		return v
	case *HPtr:
		x.checkNilH(st, q, pos)
		return x.hload(st, q)
	case *EPtr:
		return x.eload(st, q)
	case *MInt:
		return x.mload(st.cells, q)
	case *MFld:
		return x.mfield(st.cells, q.Cell, q.Key, q.Field, q.Ver)
	case *TPtr:
		return x.tload(st, q)
	case NilV:
		x.oblige(st, "nil", "nil dereference", pos, False, nil)
		x.kill(st)
		panic(pathEnd{})
	case *BuiltinGlobal:
		return x.globalVal(st, q.G)
	}
	bail("load from %T", p)
	return nil
}

type pathEnd struct{}

func (x *Exec) kill(st *State) {}

func (x *Exec) store(st *State, p Val, v Val, pos token.Pos) {
	switch q := p.(type) {
	case *PtrV:
		ci := x.info[q.Cell]
		if ci.konst || st.konst[q.Cell] {
			x.oblige(st, "frame", "write to constant "+ci.name, pos, False, nil)
			panic(pathEnd{})
		}
		if cv := x.cellVal(st, q.Cell); isFwd(cv) {
			x.store(st, x.fwd(st.cells, q), v, pos)
			return
		} else if _, po := cv.(PoisonV); po {
			bail("write to an object that a call has replaced")
		}
		if q.Win {
			av := x.getPath(x.cellVal(st, q.Cell), q.Path).(*ArrayV)
			z := &ArrayV{El: av.El, E: append([]Val(nil), av.E...)}
			switch n := v.(type) {
			case *IntV:
				for i := 0; i < q.N; i++ {
					z.E[q.Off+i] = n.w(i)
				}
			case *ArrayV:
				copy(z.E[q.Off:], n.E)
			default:
				bail("store window %T", v)
			}
			st.cells[q.Cell] = x.setPath(x.cellVal(st, q.Cell), q.Path, z)
			return
		}
		st.cells[q.Cell] = x.setPath(x.cellVal(st, q.Cell), q.Path, v)
	case *HPtr:
		if q.RO {
			x.oblige(st, "frame", "write to a value that is part of another object", pos, False, nil)
			panic(pathEnd{})
		}
		x.checkNilH(st, q, pos)
		x.hstore(st, q, v, pos)
	case *EPtr:
		x.estore(st, q, v, pos)
	case *MInt:
		x.mstore(st, q, v)
	case *MFld:
		x.mstoreField(st, q, v, pos)
	case *TPtr:
		x.oblige(st, "frame", "write to the constant table "+q.Tab.D.Fun, pos, False, nil)
		panic(pathEnd{})
	case NilV:
		x.oblige(st, "nil", "nil dereference", pos, False, nil)
		panic(pathEnd{})
	case *BuiltinGlobal:
		bail("store to global %s", q.G.Name())
	default:
		bail("store to %T", p)
	}
}

// ---------------------------------------------------------------- obligations

func (x *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.prog.fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (x *Exec) oblige(st *State, kind, label string, pos token.Pos, goal *Term, opts map[string]string) {
	if goal == True {
		x.addObl(&Obligation{Func: x.name, Kind: kind, Label: label, Pos: x.posStr(pos), Goal: goal, Status: "unsat", Solver: "normaliser"}, st)
		return
	}
	for _, p := range st.pc {
		if p == goal {
			x.addObl(&Obligation{Func: x.name, Kind: kind, Label: label, Pos: x.posStr(pos), Goal: goal, Status: "unsat", Solver: "normaliser"}, st)
			return
		}
	}
	if goal.Op == OAnd && opts["whole"] == "" {
		for _, g := range goal.Args {
			x.oblige(st, kind, label, pos, g, opts)
		}
		return
	}
	if x.heap && x.con != nil && x.con.Panics != nil && (kind == "bounds" || kind == "nil" && !strings.HasPrefix(label, "nil argument") || label == "division by zero") {
		// a run-time panic where the contract allows one
		e := x.env(st)
		e.cells, e.heap = x.entry.cells, x.entry.heap
		e.frame = nil
		goal = Or(goal, e.boolE(x.con.Panics.E))
		label += " (unless the contract allows a panic)"
	}
	o := &Obligation{Func: x.name, Kind: kind, Label: label, Pos: x.posStr(pos), Goal: goal, Pc: append([]*Term(nil), st.pc...), Opts: opts}
	x.addObl(o, st)
}

func (x *Exec) addObl(o *Obligation, st *State) {
	o.Path = x.caseS + x.partition
	if len(st.trace) > 0 {
		o.Path += " " + strings.Join(st.trace, ";")
	}
	k := ""
	if o.Status == "" {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%s|%s|%d|", o.Kind, o.Label, o.Goal.Id)
		for _, p := range o.Pc {
			fmt.Fprintf(&sb, "%d,", p.Id)
		}
		k = sb.String()
		if x.seen[k] {
			return
		}
		x.seen[k] = true
	}
	x.obls = append(x.obls, o)
}

func (x *Exec) assume(st *State, t *Term) {
	if t == True {
		return
	}
	if t.Op == OAnd {
		for _, a := range t.Args {
			x.assume(st, a)
		}
		return
	}
	for _, p := range st.pc {
		if p == t {
			return
		}
	}
	st.pc = append(st.pc[:len(st.pc):len(st.pc)], t)
}

// ---------------------------------------------------------------- state copying

func (st *State) clone() *State {
	n := &State{cells: make(map[int]Val, len(st.cells)), heap: make(map[string]*Term, len(st.heap)), hlog: st.hlog, ctr: st.ctr,
		pc: st.pc[:len(st.pc):len(st.pc)], trace: st.trace[:len(st.trace):len(st.trace)], lets: map[string]Val{}, calls: map[string]int{}, steps: st.steps, konst: st.konst, shares: st.shares}
	for k, v := range st.cells {
		n.cells[k] = v
	}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.lets {
		n.lets[k] = v
	}
	for k, v := range st.calls {
		n.calls[k] = v
	}
	for _, f := range st.frames {
		g := *f
		g.regs = make(map[ssa.Value]Val, len(f.regs))
		for k, v := range f.regs {
			g.regs[k] = v
		}
		g.locals = make(map[*ssa.Alloc]int, len(f.locals))
		for k, v := range f.locals {
			g.locals[k] = v
		}
		g.order = f.order[:len(f.order):len(f.order)]
		g.loops = make(map[*ssa.BasicBlock]*LoopRun, len(f.loops))
		for k, v := range f.loops {
			w := *v
			w.ghosts = map[string]Val{}
			for n, t := range v.ghosts {
				w.ghosts[n] = t
			}
			g.loops[k] = &w
		}
		n.frames = append(n.frames, &g)
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// ---------------------------------------------------------------- running

const maxPaths = 6000

func (x *Exec) runAll() {
	for len(x.work) > 0 {
		st := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.paths++
		if x.paths > maxPaths {
			bail("more than %d paths", maxPaths)
		}
		if time.Now().After(x.deadline) {
			bail("symbolic execution time limit")
		}
		x.runPath(st)
	}
}

func (x *Exec) runPath(st *State) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathEnd); ok {
				return
			}
			panic(r)
		}
	}()
	for {
		f := st.top()
		x.curTop = st
		if f.idx >= len(f.block.Instrs) {
			bail("fell off block")
		}
		in := f.block.Instrs[f.idx]
		x.steps++
		st.steps++
		if st.steps > 60000 {
			bail("path too long (loop without invariant?)")
		}
		if x.steps%2000 == 0 && time.Now().After(x.deadline) {
			bail("symbolic execution time limit")
		}
		if !x.step(st, f, in) {
			return
		}
	}
}

func (x *Exec) val(st *State, f *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return &BuiltinGlobal{c}
	case *ssa.Function:
		return &FuncV{Fn: c}
	case *ssa.Builtin:
		return &OpaqueV{Name: c.Name()}
	}
	r, ok := f.regs[v]
	if !ok {
		bail("no value for %s in %s", v.Name(), f.fn)
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zeroOf(t)
	}
	if bits, sg, ok := intInfo(t); ok {
		_ = bits
		_ = sg
		k, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		if !ok {
			bail("const %s", c)
		}
		return x.intConst(k, t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return Bool(constant.BoolVal(c.Value))
	case constant.String:
		s := constant.StringVal(c.Value)
		if s == "" {
			return &StrV{}
		}
		return &StrV{Parts: []StrPart{{Lit: s}}}
	}
	return &OpaqueV{T: t, Name: c.Value.ExactString()}
}

func (x *Exec) term(st *State, f *Frame, v ssa.Value) *Term {
	r := x.val(st, f, v)
	t, ok := r.(*Term)
	if !ok {
		bail("scalar expected, got %T for %s", r, v)
	}
	return t
}

func (x *Exec) goTo(st *State, f *Frame, b *ssa.BasicBlock) bool {
	prev := f.block
	f.prev = prev
	f.block = b
	f.idx = 0
	// leaving loops
	for h := range f.loops {
		if !loopsOf(f.fn)[h].Body[b] {
			// the ghost variables keep their last values
			for n, v := range f.loops[h].ghosts {
				if st.lets == nil {
					st.lets = map[string]Val{}
				}
				st.lets[n] = v
			}
			delete(f.loops, h)
		}
	}
	// phis
	var phis []*ssa.Phi
	var vals []Val
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == prev {
				phis = append(phis, p)
				vals = append(vals, x.val(st, f, p.Edges[i]))
				break
			}
		}
		f.idx++
	}
	for i, p := range phis {
		f.regs[p] = vals[i]
	}
	if x.parked(st, f, b) {
		return false
	}
	if li := loopsOf(f.fn)[b]; li != nil {
		return x.atLoop(st, f, li, prev)
	}
	return true
}

func (x *Exec) step(st *State, f *Frame, in ssa.Instruction) bool {
	f.idx++
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		f.regs[i] = x.alloc(st, f, i)
	case *ssa.Store:
		x.store(st, x.val(st, f, i.Addr), x.val(st, f, i.Val), i.Pos())
	case *ssa.UnOp:
		f.regs[i] = x.unop(st, f, i)
	case *ssa.BinOp:
		f.regs[i] = x.binop(st, f, i.Op, x.val(st, f, i.X), x.val(st, f, i.Y), i.X.Type(), i.Y.Type(), i.Pos())
	case *ssa.FieldAddr:
		f.regs[i] = x.fieldAddr(st, x.val(st, f, i.X), i.Field, i.Pos())
	case *ssa.Field:
		s, ok := x.val(st, f, i.X).(*StructV)
		if !ok {
			bail("field of %T", x.val(st, f, i.X))
		}
		f.regs[i] = s.F[i.Field]
	case *ssa.IndexAddr:
		v, ok := x.indexAddr(st, f, x.val(st, f, i.X), x.val(st, f, i.Index), i.X.Type(), i.Pos())
		if !ok {
			return false
		}
		f.regs[i] = v
	case *ssa.Index:
		a := x.val(st, f, i.X)
		idx := x.concreteIndex(st, f, i.Index)
		switch y := a.(type) {
		case *ArrayV:
			if idx < 0 || idx >= len(y.E) {
				x.oblige(st, "bounds", "index out of range", i.Pos(), False, nil)
				return false
			}
			f.regs[i] = y.E[idx]
		case *IntV:
			f.regs[i] = y.w(idx)
		default:
			bail("index of %T", a)
		}
	case *ssa.ChangeType:
		f.regs[i] = x.val(st, f, i.X)
	case *ssa.Convert:
		f.regs[i] = x.convert(st, x.val(st, f, i.X), i.X.Type(), i.Type(), i.Pos())
	case *ssa.MakeInterface:
		f.regs[i] = &IfaceV{T: i.X.Type(), V: x.val(st, f, i.X)}
	case *ssa.ChangeInterface:
		f.regs[i] = x.val(st, f, i.X)
	case *ssa.Slice:
		if x.forkLow(st, f, i) {
			return false
		}
		v := x.slice(st, f, i)
		f.regs[i] = v
	case *ssa.SliceToArrayPointer:
		f.regs[i] = x.sliceToArr(st, x.val(st, f, i.X), i)
	case *ssa.MakeSlice:
		f.regs[i] = x.makeSlice(st, f, i)
	case *ssa.MakeMap:
		f.regs[i] = x.makeMap(st, f, i)
	case *ssa.Lookup:
		v, ok := x.lookup(st, f, i)
		if !ok {
			return false
		}
		f.regs[i] = v
	case *ssa.MapUpdate:
		x.mapUpdate(st, f, i)
	case *ssa.Range:
		f.regs[i] = x.rangeMap(st, f, i)
	case *ssa.Next:
		return x.nextMap(st, f, i)
	case *ssa.Extract:
		t, ok := x.val(st, f, i.Tuple).(*TupleV)
		if !ok {
			bail("extract from %T", x.val(st, f, i.Tuple))
		}
		f.regs[i] = t.E[i.Index]
	case *ssa.MakeClosure:
		fv := &FuncV{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			fv.Bind = append(fv.Bind, x.val(st, f, b))
		}
		f.regs[i] = fv
	case *ssa.RunDefers:
	case *ssa.Jump:
		return x.goTo(st, f, f.block.Succs[0])
	case *ssa.If:
		return x.branch(st, f, x.term(st, f, i.Cond), i)
	case *ssa.Return:
		return x.ret(st, f, i)
	case *ssa.Panic:
		x.panicAt(st, i)
		return false
	case ssa.CallInstruction:
		return x.call(st, f, i)
	default:
		bail("instruction %T", in)
	}
	return true
}

func (x *Exec) feasible(st *State) bool {
	return !infeasible(st.pc, 400*time.Millisecond)
}

func (x *Exec) branch(st *State, f *Frame, c *Term, i *ssa.If) bool {
	t, e := f.block.Succs[0], f.block.Succs[1]
	has := func(g *Term) bool {
		for _, p := range st.pc {
			if p == g {
				return true
			}
		}
		return false
	}
	nc := Not(c)
	if c == True || has(c) {
		return x.goTo(st, f, t)
	}
	if c == False || has(nc) {
		return x.goTo(st, f, e)
	}
	o := st.clone()
	x.assume(st, c)
	x.assume(o, nc)
	ln := x.posStr(i.Cond.Pos())
	if j := strings.LastIndex(ln, ":"); j >= 0 {
		ln = ln[j+1:]
	}
	st.trace = append(st.trace, ln+"T")
	o.trace = append(o.trace, ln+"F")
	fs, fo := feasiblePair(st.pc, o.pc, 250*time.Millisecond)
	if !fs && !fo {
		return false
	}
	if !fo {
		return x.goTo(st, f, t)
	}
	if !fs {
		// continue with o in place of st
		*st = *o
		return x.goTo(st, st.top(), e)
	}
	if x.con.Opts["merge"] != "" {
		if j := ipdom(f.block); j != nil {
			x.mergeBranch(j, c, st, o, t, e)
			return false
		}
	}
	x.pushAfter(o, func() bool { return x.goTo(o, o.top(), e) })
	return x.goTo(st, f, t)
}

// pushAfter performs the jump for a forked state and queues it.
func (x *Exec) pushAfter(o *State, jump func() bool) {
	ok := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(pathEnd); is {
					return
				}
				panic(r)
			}
		}()
		ok = jump()
	}()
	if ok {
		x.work = append(x.work, o)
	}
}

func (x *Exec) alloc(st *State, f *Frame, i *ssa.Alloc) Val {
	t := i.Type().Underlying().(*types.Pointer).Elem()
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() > 64 {
		bail("large local array")
	}
	id := x.newCell(st, f.path+fmt.Sprintf("|%p", i), i.Comment, t, x.zeroOf(t))
	f.locals[i] = id
	f.order = append(f.order, i)
	return &PtrV{Cell: id}
}

func (x *Exec) fieldAddr(st *State, p Val, field int, pos token.Pos) Val {
	switch q := p.(type) {
	case *PtrV:
		return &PtrV{Cell: q.Cell, Path: append(append([]int(nil), q.Path...), field)}
	case *MObj:
		return &MFld{Cell: q.Cell, Key: q.Key, Field: field, Ver: q.Ver}
	case *HPtr:
		x.checkNilH(st, q, pos)
		return &HPtr{A: q.A, T: q.T, Path: append(append([]int(nil), q.Path...), field), RO: q.RO, Reg: q.Reg}
	case *EPtr:
		return &EPtr{Cell: q.Cell, Idx: q.Idx, El: q.El, Path: append(append([]int(nil), q.Path...), field)}
	case NilV:
		x.oblige(st, "nil", "nil dereference", pos, False, nil)
		panic(pathEnd{})
	}
	bail("field address of %T", p)
	return nil
}

func (x *Exec) concreteIndex(st *State, f *Frame, v ssa.Value) int {
	t := x.term(st, f, v)
	return x.concrete(t)
}
func (x *Exec) concrete(t *Term) int {
	if t.Op == OConst && t.K.IsInt64() {
		return int(t.K.Int64())
	}
	if isBVc(t) {
		return int(signedOf(t.K, t.Sort.W).Int64())
	}
	bail("index is not concrete: %s", t)
	return 0
}
func isConcrete(t *Term) bool { return t.Op == OConst || isBVc(t) }

func (x *Exec) indexAddr(st *State, f *Frame, p Val, iv Val, pt types.Type, pos token.Pos) (Val, bool) {
	it := iv.(*Term)
	inb := func(n int) (int, bool) {
		if !isConcrete(it) {
			// fork over the possible indices
			if n <= 16 {
				x.oblige(st, "bounds", "index in range", pos, x.inRange(it, n), nil)
				for k := 0; k < n; k++ {
					eq := Eq(it, x.intConst(bi(int64(k)), types.Typ[types.Int]))
					if eq == False {
						continue
					}
					if eq == True {
						return k, true
					}
					o := st.clone()
					x.assume(o, eq)
					if !x.feasible(o) {
						continue
					}
					of := o.top()
					of.idx--
					// substitute: remember the value of the index register
					x.replaceTerm(o, it, x.intConst(bi(int64(k)), types.Typ[types.Int]))
					x.work = append(x.work, o)
				}
				return 0, false
			}
			bail("symbolic index %s", it)
		}
		k := x.concrete(it)
		if k < 0 || k >= n {
			x.oblige(st, "bounds", "index in range", pos, False, nil)
			return 0, false
		}
		return k, true
	}
	switch q := p.(type) {
	case *PtrV:
		if isFwd(st.cells[q.Cell]) {
			return x.indexAddr(st, f, x.fwd(st.cells, q), iv, pt, pos)
		}
		v := x.getPath(x.cellVal(st, q.Cell), q.Path)
		if tb, ok := v.(*TableV); ok {
			x.oblige(st, "bounds", "index in range", pos, And(Le(NumI(0), it), Lt(it, NumI(int64(tb.Len)))), nil)
			x.assume(st, And(Le(NumI(0), it), Lt(it, NumI(int64(tb.Len)))))
			return &TPtr{Tab: tb, Idx: it}, true
		}
		n := 0
		off := 0
		switch y := v.(type) {
		case *ArrayV:
			n = len(y.E)
		case *IntV:
			n = 4
		default:
			bail("index into %T", v)
		}
		if q.Win {
			n, off = q.N, q.Off
		}
		k, ok := inb(n)
		if !ok {
			return nil, false
		}
		return &PtrV{Cell: q.Cell, Path: append(append([]int(nil), q.Path...), k+off)}, true
	case *SliceV:
		if q.Heap {
			return x.hindex(st, q, it, pos), true
		}
		k, ok := inb(q.Len)
		if !ok {
			return nil, false
		}
		return &PtrV{Cell: q.P.Cell, Path: append(append([]int(nil), q.P.Path...), k+q.Off)}, true
	case *HPtr:
		// pointer to uint256.Int: word address
		k, ok := inb(4)
		if !ok {
			return nil, false
		}
		x.checkNilH(st, q, pos)
		return &HPtr{A: q.A, T: q.T, Path: append(append([]int(nil), q.Path...), k), RO: q.RO, Reg: q.Reg}, true
	case *MInt:
		k, ok := inb(4)
		if !ok {
			return nil, false
		}
		return &MInt{Cell: q.Cell, Key: q.Key, Field: q.Field, Ver: q.Ver, Path: []int{k}}, true
	case NilV:
		x.oblige(st, "nil", "nil dereference", pos, False, nil)
		return nil, false
	case *BuiltinGlobal:
		v := x.globalVal(st, q.G)
		_ = v
	}
	bail("index address of %T", p)
	return nil, false
}

func (x *Exec) inRange(it *Term, n int) *Term {
	if it.Sort == SInt {
		return And(Le(NumI(0), it), Lt(it, NumI(int64(n))))
	}
	return BV2("bvult", it, BVi(int64(n), it.Sort.W))
}

// replaceTerm substitutes a register/cell value that is exactly t by v.
func (x *Exec) replaceTerm(st *State, t, v *Term) {
	for _, f := range st.frames {
		for k, r := range f.regs {
			if r == Val(t) {
				f.regs[k] = v
			}
		}
	}
	for k, c := range st.cells {
		if c == Val(t) {
			st.cells[k] = v
		}
	}
}

func (x *Exec) unop(st *State, f *Frame, i *ssa.UnOp) Val {
	switch i.Op {
	case token.MUL:
		return x.load(st, x.val(st, f, i.X), i.Pos())
	case token.NOT:
		return Not(x.term(st, f, i.X))
	case token.SUB:
		t := x.term(st, f, i.X)
		if x.bv {
			return BVNeg(t)
		}
		return x.wrap(st, Neg(t), i.Type(), i.Pos())
	case token.XOR:
		t := x.term(st, f, i.X)
		bits, sg, _ := intInfo(i.Type())
		if x.bv {
			return BVNot(t)
		}
		if sg {
			return Sub(NumI(-1), t)
		}
		return Sub(Num(bvMask(bits)), t)
	}
	bail("unop %s", i.Op)
	return nil
}

func (x *Exec) wrap(st *State, t *Term, typ types.Type, pos token.Pos) *Term {
	bits, sg, ok := intInfo(typ)
	if !ok {
		bail("wrap %s", typeStr(typ))
	}
	if sg {
		lo, hi := rangeOf(bits, true)
		if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
			return t
		}
		if x.con.Opts["wrap"] != "" {
			return ModSigned(t, pow2big(uint(bits)))
		}
		x.oblige(st, "overflow", "signed arithmetic stays in range", pos, And(Le(Num(lo), t), Le(t, Num(hi))), nil)
		x.assume(st, And(Le(Num(lo), t), Le(t, Num(hi))))
		if t.Op != OConst {
			r := FreshInt("ov", lo, hi)
			_ = r
		}
		return t
	}
	return ModC(t, pow2big(uint(bits)))
}

type shlTag struct {
	a, s *Term
	kind string
}

var shTags = map[*Term]shlTag{}

func (x *Exec) binop(st *State, f *Frame, op token.Token, a, b Val, ta, tb types.Type, pos token.Pos) Val {
	// pointers, interfaces, structs, arrays, strings
	switch op {
	case token.EQL, token.NEQ:
		if _, ok := a.(*Term); !ok {
			e := x.valEq(st, a, b)
			if op == token.NEQ {
				e = Not(e)
			}
			return e
		}
		if _, ok := b.(*Term); !ok {
			e := x.valEq(st, a, b)
			if op == token.NEQ {
				e = Not(e)
			}
			return e
		}
	case token.ADD:
		if sa, ok := a.(*StrV); ok {
			sb := b.(*StrV)
			return strCat(sa, sb)
		}
	}
	p, ok1 := a.(*Term)
	q, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		bail("binop %s on %T,%T", op, a, b)
	}
	if p.Sort == SBool {
		switch op {
		case token.EQL:
			return Eq(p, q)
		case token.NEQ:
			return Not(Eq(p, q))
		case token.AND, token.LAND:
			return And(p, q)
		case token.OR, token.LOR:
			return Or(p, q)
		}
		bail("bool op %s", op)
	}
	bits, sg, ok := intInfo(ta)
	if !ok {
		bail("binop %s on %s", op, typeStr(ta))
	}
	if x.bv {
		return x.binopBV(st, op, p, q, bits, sg, tb, pos)
	}
	m := pow2big(uint(bits))
	switch op {
	case token.EQL:
		return x.eqInt(p, q)
	case token.NEQ:
		return Not(x.eqInt(p, q))
	case token.LSS:
		return Lt(p, q)
	case token.LEQ:
		return Le(p, q)
	case token.GTR:
		return Lt(q, p)
	case token.GEQ:
		return Le(q, p)
	case token.ADD:
		return x.wrap(st, Add(p, q), ta, pos)
	case token.SUB:
		return x.wrap(st, Sub(p, q), ta, pos)
	case token.MUL:
		return x.wrap(st, Mul(p, q), ta, pos)
	case token.QUO, token.REM:
		x.oblige(st, "panic", "division by zero", pos, Ne(q, NumI(0)), nil)
		x.assume(st, Ne(q, NumI(0)))
		var quo *Term
		nonneg := func(t *Term, strict bool) int { // 1 yes, -1 no, 0 open
			if t.lo != nil && (t.lo.Sign() > 0 || t.lo.Sign() == 0 && !strict) {
				return 1
			}
			if t.hi != nil && t.hi.Sign() < 0 {
				return -1
			}
			c := Le(NumI(0), t)
			if strict {
				c = Lt(NumI(0), t)
			}
			nc := Not(c)
			for _, f := range st.pc {
				if f == c {
					return 1
				}
				if f == nc {
					return -1
				}
			}
			return 0
		}
		// floor division by a positive divisor, truncated towards zero
		trunc := func(p, q *Term) *Term {
			if sg {
				switch nonneg(p, false) {
				case -1:
					return Neg(DivS(Neg(p), q))
				case 0:
					return Ite(Le(NumI(0), p), DivS(p, q), Neg(DivS(Neg(p), q)))
				}
			}
			return DivS(p, q)
		}
		switch {
		case !sg || nonneg(q, true) == 1:
			quo = trunc(p, q)
		case nonneg(q, true) == -1:
			quo = Neg(trunc(p, Neg(q)))
		default:
			quo = Ite(Lt(NumI(0), q), trunc(p, q), Neg(trunc(p, Neg(q))))
		}
		if sg && !(q.Op == OConst && q.K.Cmp(big.NewInt(-1)) != 0) && nonneg(q, true) != 1 {
			x.oblige(st, "overflow", "division stays in range", pos, Not(And(Eq(q, NumI(-1)), Eq(p, Num(new(big.Int).Neg(pow2big(uint(bits-1))))))), nil)
		}
		if op == token.QUO {
			return quo
		}
		return Sub(p, Mul(q, quo))
	case token.AND:
		return x.and64(st, p, q, bits, sg)
	case token.AND_NOT:
		if q.Op == OConst && !sg {
			return x.and64(st, p, Num(new(big.Int).Xor(q.K, bvMask(bits))), bits, sg)
		}
		return Sub(p, x.and64(st, p, q, bits, sg))
	case token.OR:
		return x.or64(st, p, q, bits, sg)
	case token.XOR:
		if q.Op == OConst && q.K.Cmp(bvMask(bits)) == 0 {
			return Sub(q, p)
		}
		if p.Op == OConst && q.Op == OConst {
			return Num(new(big.Int).Xor(p.K, q.K))
		}
		r := App("xor64", SInt, p, q)
		tighten(r, bigZero, bvMask(bits))
		if len(r.axioms) == 0 {
			r.axioms = append(r.axioms, Le(r, Add(p, q)), Le(Sub(p, q), r), Le(Sub(q, p), r))
		}
		return r
	case token.SHL, token.SHR:
		if _, ssg, _ := intInfo(tb); ssg && !(q.lo != nil && q.lo.Sign() >= 0) {
			x.oblige(st, "panic", "negative shift", pos, Le(NumI(0), q), nil)
		}
		if q.Op == OConst {
			if q.K.Cmp(bi(int64(bits))) >= 0 {
				if sg && op == token.SHR {
					return Ite(Lt(p, NumI(0)), NumI(-1), NumI(0))
				}
				return NumI(0)
			}
			k := pow2big(uint(q.K.Int64()))
			if op == token.SHL {
				if sg {
					return x.wrap(st, MulK(k, p), ta, pos)
				}
				return ModC(MulK(k, p), m)
			}
			return DivC(p, k)
		}
		if sg {
			bail("symbolic shift of a signed integer")
		}
		// symbolic shift count 0..64 (larger counts split off)
		if q.hi == nil || q.hi.Cmp(bi(64)) > 0 {
			small := Le(q, NumI(64))
			if !x.holds(st, small) {
				bail("symbolic shift count may exceed 64")
			}
			q = x.bounded(st, q, bigZero, bi(64))
		}
		if op == token.SHR {
			r := DivS(p, Pow2(q))
			tighten(r, bigZero, p.hi)
			shTags[r] = shlTag{p, q, "shr"}
			return r
		}
		P := Pow2(q)
		hi := DivS(p, Pow2(Sub(NumI(int64(bits)), q)))
		tighten(hi, bigZero, p.hi)
		r := Sub(Mul(p, P), MulK(m, hi))
		// definition of shl: p*2^q mod 2^bits; sound because 2^q * 2^(bits-q) = 2^bits
		if !r.hasB {
			tighten(r, bigZero, bvMask(bits))
		}
		shTags[r] = shlTag{p, q, "shl"}
		x.assume(st, Eq(Mul(P, Pow2(Sub(NumI(int64(bits)), q))), Num(m)))
		return r
	}
	bail("binop %s", op)
	return nil
}

// bounded returns an alias of t with known bounds (already proved or implied by pc)
func (x *Exec) bounded(st *State, t *Term, lo, hi *big.Int) *Term {
	v := FreshInt("b", lo, hi)
	x.assume(st, Eq(v, t))
	return v
}

func (x *Exec) holds(st *State, g *Term) bool {
	if g == True {
		return true
	}
	return infeasible(append(st.pc[:len(st.pc):len(st.pc)], Not(g)), 2*time.Second)
}

// holdsQ is holds with a short limit
func (x *Exec) holdsQ(st *State, g *Term) bool {
	if g == True {
		return true
	}
	if g == False {
		return false
	}
	return infeasible(append(st.pc[:len(st.pc):len(st.pc)], Not(g)), 250*time.Millisecond)
}

func (x *Exec) eqInt(p, q *Term) *Term {
	if q.Op == OConst && q.K.Sign() == 0 {
		if p.Op == OApp && p.Name == "or64" {
			var cs []*Term
			for _, a := range p.Args {
				cs = append(cs, Eq(a, NumI(0)))
			}
			return And(cs...)
		}
	}
	return Eq(p, q)
}

func (x *Exec) and64(st *State, p, q *Term, bits int, sg bool) *Term {
	if p.Op == OConst && q.Op == OConst {
		return Num(new(big.Int).And(p.K, q.K))
	}
	if p.Op == OConst {
		p, q = q, p
	}
	if q.Op == OConst && q.K.Sign() >= 0 {
		k := q.K
		if k.Sign() == 0 {
			return NumI(0)
		}
		if sg && (p.lo == nil || p.lo.Sign() < 0) {
			// two's complement: and with a non-negative mask depends on p mod 2^bits
			p = ModC(p, pow2big(uint(bits)))
		}
		k1 := new(big.Int).Add(k, bigOne)
		if k1.BitLen()-1 == int(k1.TrailingZeroBits()) {
			return ModC(p, k1)
		}
		// mask of consecutive ones
		tz := k.TrailingZeroBits()
		up := new(big.Int).Rsh(k, tz)
		up1 := new(big.Int).Add(up, bigOne)
		if up1.BitLen()-1 == int(up1.TrailingZeroBits()) {
			return MulK(pow2big(tz), ModC(DivC(p, pow2big(tz)), up1))
		}
	}
	if p == q {
		return p
	}
	if p.Id > q.Id {
		p, q = q, p
	}
	r := App("and64", SInt, p, q)
	if len(r.axioms) == 0 {
		h := bvMask(bits)
		if p.hi != nil && p.hi.Cmp(h) < 0 {
			h = p.hi
		}
		if q.hi != nil && q.hi.Cmp(h) < 0 {
			h = q.hi
		}
		if sg {
			bail("and of signed")
		}
		tighten(r, bigZero, h)
		r.axioms = append(r.axioms, Le(r, p), Le(r, q))
	}
	return r
}

func (x *Exec) or64(st *State, p, q *Term, bits int, sg bool) *Term {
	if p.Op == OConst && p.K.Sign() == 0 {
		return q
	}
	if q.Op == OConst && q.K.Sign() == 0 {
		return p
	}
	if p.Op == OConst && q.Op == OConst {
		return Num(new(big.Int).Or(p.K, q.K))
	}
	if sg {
		bail("or of signed")
	}
	// shl | shr with complementary counts: disjoint bits
	if tp, ok := shTags[p]; ok {
		if tq, ok := shTags[q]; ok && tp.kind != tq.kind {
			if c := Add(tp.s, tq.s); c.Op == OConst && c.K.Cmp(bi(int64(bits))) == 0 {
				r := Add(p, q)
				tighten(r, bigZero, bvMask(bits))
				return r
			}
		}
	}
	// disjoint by coefficients: one is a multiple of 2^k, the other below 2^k
	disj := func(a, b *Term) bool {
		if b.hi == nil || b.lo == nil || b.lo.Sign() < 0 {
			return false
		}
		k := pow2big(uint(b.hi.BitLen()))
		for _, m := range monos(a) {
			if new(big.Int).Mod(m.C, k).Sign() != 0 {
				return false
			}
		}
		return true
	}
	if disj(p, q) || disj(q, p) {
		r := Add(p, q)
		tighten(r, bigZero, bvMask(bits))
		return r
	}
	var args []*Term
	add := func(t *Term) {
		if t.Op == OApp && t.Name == "or64" {
			args = append(args, t.Args...)
		} else {
			args = append(args, t)
		}
	}
	add(p)
	add(q)
	if len(args) > 2 {
		// n-ary
		return x.orN(args, bits)
	}
	return x.orN(args, bits)
}

func (x *Exec) orN(args []*Term, bits int) *Term {
	r := intern(key(OApp, fmt.Sprintf("or64:%d", len(args)), nil, args), func() *Term {
		return &Term{Op: OApp, Sort: SInt, Name: "or64", Args: args}
	})
	if len(r.axioms) == 0 {
		h := bigZero
		sum := NumI(0)
		for _, a := range args {
			if a.hi == nil {
				h = bvMask(bits)
			} else if a.hi.BitLen() > h.BitLen() {
				h = bvMask(a.hi.BitLen())
			}
			sum = Add(sum, a)
			r.axioms = append(r.axioms, Le(a, r))
		}
		r.axioms = append(r.axioms, Le(r, sum))
		tighten(r, bigZero, h)
	}
	return r
}

func (x *Exec) binopBV(st *State, op token.Token, p, q *Term, bits int, sg bool, tb types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL:
		return Eq(p, q)
	case token.NEQ:
		return Not(Eq(p, q))
	case token.LSS, token.GEQ, token.GTR, token.LEQ:
		o := "bvult"
		if sg {
			o = "bvslt"
		}
		switch op {
		case token.LSS:
			return BV2(o, p, q)
		case token.GTR:
			return BV2(o, q, p)
		case token.GEQ:
			return Not(BV2(o, p, q))
		}
		return Not(BV2(o, q, p))
	case token.ADD:
		return BV2("bvadd", p, q)
	case token.SUB:
		return BV2("bvsub", p, q)
	case token.MUL:
		return BV2("bvmul", p, q)
	case token.AND:
		return BV2("bvand", p, q)
	case token.OR:
		return BV2("bvor", p, q)
	case token.XOR:
		return BV2("bvxor", p, q)
	case token.AND_NOT:
		return BV2("bvand", p, BVNot(q))
	case token.QUO, token.REM:
		x.oblige(st, "panic", "division by zero", pos, Not(Eq(q, BVi(0, q.Sort.W))), nil)
		o := map[bool]map[token.Token]string{true: {token.QUO: "bvsdiv", token.REM: "bvsrem"}, false: {token.QUO: "bvudiv", token.REM: "bvurem"}}[sg][op]
		return BV2(o, p, q)
	case token.SHL, token.SHR:
		_, qs, _ := intInfo(tb)
		if qs && !isBVc(q) {
			x.oblige(st, "panic", "negative shift", pos, Not(BV2("bvslt", q, BVi(0, q.Sort.W))), nil)
		}
		w := p.Sort.W
		var s *Term
		if q.Sort.W == w {
			s = q
		} else if q.Sort.W < w {
			s = BVZext(q, w)
		} else {
			big := Not(BV2("bvult", q, BVi(int64(w), q.Sort.W)))
			s = Ite(big, BVi(int64(w), w), BVExtract(q, w-1, 0))
		}
		if op == token.SHL {
			return BV2("bvshl", p, s)
		}
		if sg {
			return BV2("bvashr", p, s)
		}
		return BV2("bvlshr", p, s)
	}
	bail("binop %s", op)
	return nil
}

func strCat(a, b *StrV) *StrV {
	r := &StrV{Parts: append([]StrPart(nil), a.Parts...)}
	for _, p := range b.Parts {
		if n := len(r.Parts); n > 0 && p.Kind == "" && r.Parts[n-1].Kind == "" {
			r.Parts[n-1].Lit += p.Lit
			continue
		}
		r.Parts = append(r.Parts, p)
	}
	return r
}

// strTerm gives a string an Int identity; equal strings have equal identities.
func (x *Exec) strTerm(s *StrV) *Term {
	if len(s.Parts) == 0 {
		return strLit("")
	}
	if len(s.Parts) == 1 {
		p := s.Parts[0]
		switch p.Kind {
		case "":
			return strLit(p.Lit)
		case "itoa":
			return App("itoa", SInt, p.T)
		}
		return p.T
	}
	if len(s.Parts) == 3 && s.Parts[0].Kind == "itoa" && s.Parts[2].Kind == "itoa" && s.Parts[1].Kind == "" && s.Parts[1].Lit == "-" {
		// itoa(a) "-" itoa(b): injective, because a decimal integer is an optional '-'
		// followed by digits, so the first '-' after a digit is the separator
		r := App("poskey", SInt, s.Parts[0].T, s.Parts[2].T)
		x.trusted["strconv.Itoa is injective, and so is Itoa(a)+\"-\"+Itoa(b)"] = true
		return r
	}
	r := strLit("")
	for _, p := range s.Parts {
		r = App("strcat", SInt, r, x.strTerm(&StrV{Parts: []StrPart{p}}))
	}
	return r
}

var strIds = map[string]int64{}

var strMu sync.Mutex

func strLit(s string) *Term {
	strMu.Lock()
	defer strMu.Unlock()
	id, ok := strIds[s]
	if !ok {
		id = int64(len(strIds) + 1)
		strIds[s] = id
	}
	return NumI(-1000000 - id)
}

func (x *Exec) valEq(st *State, a, b Val) *Term {
	switch p := a.(type) {
	case *Term:
		if q, ok := b.(*Term); ok {
			return Eq(p, q)
		}
	case NilV:
		switch q := b.(type) {
		case NilV:
			return True
		case *HPtr:
			return Eq(q.A, NumI(0))
		case *SliceV:
			return x.valEq(st, b, a)
		case *MapV:
			return x.valEq(st, b, a)
		}
		return False
	case *PtrV:
		switch q := b.(type) {
		case *PtrV:
			return Bool(sameVal(p, q))
		case NilV:
			return False
		}
	case *HPtr:
		switch q := b.(type) {
		case *HPtr:
			return Eq(p.A, q.A)
		case NilV:
			return Eq(p.A, NumI(0))
		}
	case *SliceV:
		if _, ok := b.(NilV); ok {
			return x.sliceNil(p)
		}
		if q, ok := b.(*SliceV); ok && sameVal(p, q) {
			return True
		}
		if q, ok := b.(*SliceV); ok && p.Heap && q.Heap {
			return And(Bool(sameVal(p.P, q.P)), Eq(p.HOff, q.HOff), Eq(p.HLen, q.HLen), Eq(p.HCap, q.HCap))
		}
		if q, ok := b.(*SliceV); ok && (q.Nil || p.Nil) {
			if q.Nil {
				return x.sliceNil(p)
			}
			return x.sliceNil(q)
		}
	case *MapV:
		if _, ok := b.(NilV); ok {
			return False
		}
		if q, ok := b.(*MapV); ok && p.Cell == q.Cell && p.G == q.G {
			return True
		}
	case *MObj:
		if _, ok := b.(NilV); ok {
			return False
		}
	case *MInt:
		if _, ok := b.(NilV); ok {
			return False
		}
		if q, ok := b.(*MInt); ok {
			return And(Bool(p.Cell == q.Cell && p.Field == q.Field), Eq(p.Key, q.Key))
		}
	case *MapBlk:
		if q, ok := b.(*MapBlk); ok {
			// the same content
			k := BoundVar("k")
			pair := func(a, b *Term) *Term {
				if a == b {
					return True
				}
				s, t := Select(a, k), Select(b, k)
				if s.Sort == SBool {
					return And(Implies(s, t), Implies(t, s))
				}
				return Eq(s, t)
			}
			cs := []*Term{pair(p.Has, q.Has)}
			for i := range p.F {
				cs = append(cs, Implies(Select(p.Has, k), pair(p.F[i], q.F[i])))
			}
			return Forall([]*Term{k}, And(cs...), nil)
		}
	case *IfaceV:
		if _, ok := b.(NilV); ok {
			return False
		}
	case *OpaqueV:
		if _, ok := b.(NilV); ok {
			return App("isnil."+sanitize(p.Name), SBool)
		}
	case *IntV:
		if fw, ok := b.(*FwdV); ok {
			b = x.hload(st, fw.P)
		}
		q := x.toIntV(b)
		if p == q {
			return True
		}
		var cs []*Term
		for i := 0; i < 4; i++ {
			cs = append(cs, Eq(p.w(i), q.w(i)))
		}
		return And(cs...)
	case *ArrayV:
		if q, ok := b.(*IntV); ok {
			return x.valEq(st, q, a)
		}
		q := b.(*ArrayV)
		var cs []*Term
		for i := range p.E {
			cs = append(cs, x.valEq(st, p.E[i], q.E[i]))
		}
		return And(cs...)
	case *FwdV:
		return x.valEq(st, x.hload(st, p.P), b)
	case *BlockV:
		q, ok := b.(*BlockV)
		if !ok {
			return False
		}
		var cs []*Term
		for i := range p.F {
			cs = append(cs, Eq(p.F[i], q.F[i]))
		}
		return And(cs...)
	case *StructV:
		q := b.(*StructV)
		var cs []*Term
		for i := range p.F {
			cs = append(cs, x.valEq(st, p.F[i], q.F[i]))
		}
		return And(cs...)
	case *StrV:
		q := b.(*StrV)
		return Eq(x.strTerm(p), x.strTerm(q))
	}
	bail("comparison of %T and %T", a, b)
	return nil
}

func (x *Exec) sliceNil(s *SliceV) *Term {
	if s.Heap {
		bail("comparison of a slice with nil")
	}
	return Bool(s.Nil)
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	fb, fs, ok1 := intInfo(from)
	tb, ts, ok2 := intInfo(to)
	if ok1 && ok2 {
		t := v.(*Term)
		if x.bv {
			if tb <= fb {
				return BVExtract(t, tb-1, 0)
			}
			if fs {
				return BVSext(t, tb)
			}
			return BVZext(t, tb)
		}
		lo, hi := rangeOf(tb, ts)
		if t.lo != nil && t.hi != nil && t.lo.Cmp(lo) >= 0 && t.hi.Cmp(hi) <= 0 {
			return t
		}
		if ts {
			return ModSigned(t, pow2big(uint(tb)))
		}
		return ModC(t, pow2big(uint(tb)))
	}
	if _, ok := from.Underlying().(*types.Pointer); ok {
		return v
	}
	if isStrT(from) && isStrT(to) {
		return v
	}
	// conversions through floats and strings: opaque
	if _, _, ok := intInfo(to); ok && isFloatT(from) {
		return x.freshOf(to, "float2int", st)
	}
	if isFloatT(to) {
		return &OpaqueV{T: to, Name: "float"}
	}
	if s, ok := v.(*SliceV); ok {
		_ = s
		return &OpaqueV{T: to, Name: "conv"}
	}
	return &OpaqueV{T: to, Name: "conv"}
}

// ---------------------------------------------------------------- slices (explicit)

func (x *Exec) optInt(st *State, f *Frame, v ssa.Value, def int) int {
	if v == nil {
		return def
	}
	return x.concreteIndex(st, f, v)
}

// forkLow splits the path over every value of a symbolic lower slice bound
// when the sliced array has a fixed number of elements; the bound is first
// shown to be in range. It reports whether it has split the path.
func (x *Exec) forkLow(st *State, f *Frame, i *ssa.Slice) bool {
	if i.Low == nil || i.High != nil {
		return false
	}
	q, ok := x.val(st, f, i.X).(*PtrV)
	if !ok || q.Win {
		return false
	}
	a, ok := x.getPath(x.cellVal(st, q.Cell), q.Path).(*ArrayV)
	if !ok {
		return false
	}
	lo, ok := x.val(st, f, i.Low).(*Term)
	if !ok || isConcrete(lo) || lo.Sort != SInt {
		return false
	}
	n := len(a.E)
	x.oblige(st, "bounds", "slice bounds", i.Pos(), And(Le(NumI(0), lo), Le(lo, NumI(int64(n)))), nil)
	for k := 0; k <= n; k++ {
		o := st.clone()
		x.assume(o, Eq(lo, NumI(int64(k))))
		o.trace = append(o.trace, fmt.Sprintf("low=%d", k))
		if !x.feasible(o) {
			continue
		}
		g := o.top()
		g.regs[i.Low] = NumI(int64(k))
		g.regs[i] = x.slice(o, g, i)
		x.work = append(x.work, o)
	}
	return true
}

func (x *Exec) slice(st *State, f *Frame, i *ssa.Slice) Val {
	v := x.val(st, f, i.X)
	switch q := v.(type) {
	case *PtrV:
		cv := x.getPath(x.cellVal(st, q.Cell), q.Path)
		n := 4
		el := types.Type(word64)
		if a, ok := cv.(*ArrayV); ok {
			n = len(a.E)
			el = a.El
		}
		off := 0
		if q.Win {
			n, off = q.N, q.Off
		}
		lo, hi := x.optInt(st, f, i.Low, 0), x.optInt(st, f, i.High, n)
		if lo < 0 || hi < lo || hi > n {
			x.oblige(st, "bounds", "slice bounds", i.Pos(), False, nil)
			panic(pathEnd{})
		}
		if _, isS := el.Underlying().(*types.Struct); isS && x.heap && n == 0 && len(q.Path) == 0 && !isUIntNamed(el) {
			return x.hmake(st, el, NumI(0), NumI(0), i.Pos())
		}
		return &SliceV{P: &PtrV{Cell: q.Cell, Path: q.Path}, Off: off + lo, Len: hi - lo, Cap: n - lo, El: el}
	case *SliceV:
		if q.Heap {
			return x.hslice(st, f, q, i)
		}
		lo, hi := x.optInt(st, f, i.Low, 0), x.optInt(st, f, i.High, q.Len)
		if lo < 0 || hi < lo || hi > q.Cap {
			x.oblige(st, "bounds", "slice bounds", i.Pos(), False, nil)
			panic(pathEnd{})
		}
		return &SliceV{P: q.P, Off: q.Off + lo, Len: hi - lo, Cap: q.Cap - lo, El: q.El, Nil: q.Nil}
	case *HPtr:
		if h, ok := v.(*HPtr); ok {
			return x.hsliceArr(st, f, h, i)
		}
	case *StrV, *OpaqueV:
		return &OpaqueV{T: i.Type(), Name: "slice"}
	}
	bail("slice of %T", v)
	return nil
}

func (x *Exec) sliceToArr(st *State, v Val, i *ssa.SliceToArrayPointer) Val {
	q, ok := v.(*SliceV)
	if !ok || q.Heap {
		bail("slice to array pointer")
	}
	at := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if int(at.Len()) > q.Len {
		x.oblige(st, "bounds", "slice to array length", i.Pos(), False, nil)
		panic(pathEnd{})
	}
	return &PtrV{Cell: q.P.Cell, Path: q.P.Path, Win: true, Off: q.Off, N: int(at.Len())}
}

func (x *Exec) makeSlice(st *State, f *Frame, i *ssa.MakeSlice) Val {
	el := i.Type().Underlying().(*types.Slice).Elem()
	if ln, cp := x.term(st, f, i.Len), x.term(st, f, i.Cap); x.heap && (!isConcrete(ln) || !isConcrete(cp)) {
		return x.hmake(st, el, ln, cp, i.Pos())
	}
	n, c := x.concreteIndex(st, f, i.Len), x.concreteIndex(st, f, i.Cap)
	a := &ArrayV{El: el}
	for k := 0; k < c; k++ {
		a.E = append(a.E, x.zeroOf(el))
	}
	id := x.newCell(st, f.path+fmt.Sprintf("|%p", i), "make", types.NewArray(el, int64(c)), a)
	return &SliceV{P: &PtrV{Cell: id}, Len: n, Cap: c, El: el}
}

// ---------------------------------------------------------------- globals

func (x *Exec) globalVal(st *State, g *ssa.Global) Val {
	if x.prog.mutGlob[g] {
		bail("global %s is assigned outside initialisation", g.Name())
	}
	k := g.Pkg.Pkg.Name() + "." + g.Name()
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if isUIntPtr(t) {
		v, ok := groundConsts[k]
		if !ok {
			bail("global %s has no ground value", k)
		}
		x.trusted["package constant "+k+" keeps its initial value "+v.String()+" (evaluated from the current source at check time)"] = true
		id, ok := x.globs[g]
		if !ok {
			x.info = append(x.info, &CellInfo{key: "const:" + k, name: k, T: t.Underlying().(*types.Pointer).Elem(), konst: true})
			id = len(x.info) - 1
			x.globs[g] = id
			if x.bv {
				x.gcells[id] = &IntV{U: BVc(v, 256)}
			} else {
				x.gcells[id] = &IntV{U: Num(v)}
			}
		}
		return &PtrV{Cell: id}
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		return &MapV{G: g, T: m}
	}
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := pt.Elem().(*types.Named); ok && tableDecls[n.Obj().Pkg().Name()+"."+n.Obj().Name()] != nil {
			x.trusted["the table behind "+k+" keeps its initial content (evaluated from the current source at check time)"] = true
			id, ok := x.globs[g]
			if !ok {
				x.info = append(x.info, &CellInfo{key: "const:" + k, name: k, T: n, konst: true})
				id = len(x.info) - 1
				x.globs[g] = id
				x.gcells[id] = x.freshOf(n, k, st)
			}
			return &PtrV{Cell: id}
		}
	}
	return &OpaqueV{T: t, Name: "global " + k}
}

// groundConsts: values of package level *uint256.Int variables, evaluated by
// running the current source.
var groundConsts = map[string]*big.Int{}
var groundMaps = map[string]map[int64]int64{}
var constAddrs = map[string]int64{}
var constByAddr = map[int64]*big.Int{}

func constAddr(k string, v *big.Int) *Term {
	a, ok := constAddrs[k]
	if !ok {
		a = -int64(len(constAddrs)) - 10
		constAddrs[k] = a
		constByAddr[a] = v
	}
	return NumI(a)
}

func (x *Exec) lookup(st *State, f *Frame, i *ssa.Lookup) (Val, bool) {
	m := x.val(st, f, i.X)
	mv, ok := m.(*MapV)
	if !ok {
		bail("lookup in %T", m)
	}
	if mv.G != nil {
		k := mv.G.Pkg.Pkg.Name() + "." + mv.G.Name()
		tab, ok := groundMaps[k]
		if !ok {
			bail("global map %s", k)
		}
		x.trusted["package map "+k+" keeps its initial content (evaluated from the current source at check time)"] = true
		key := x.term(st, f, i.Index)
		var ks []int64
		for kk := range tab {
			ks = append(ks, kk)
		}
		sort.Slice(ks, func(a, b int) bool { return ks[a] < ks[b] })
		r := NumI(0)
		found := False
		for _, kk := range ks {
			r = Ite(Eq(key, NumI(kk)), NumI(tab[kk]), r)
			found = Or(found, Eq(key, NumI(kk)))
		}
		if i.CommaOk {
			return &TupleV{E: []Val{r, found}}, true
		}
		return r, true
	}
	return x.hlookup(st, f, mv, i)
}
