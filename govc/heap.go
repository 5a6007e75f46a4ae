package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// The memory of "mem heap" contracts.
//
//   - every object a parameter reaches through struct fields of pointer type is
//     an explicit cell of its own: the objects of one graph are separate, and
//     separate from those of the other parameters (callers have to show it);
//   - the elements of a slice of unknown length live in one explicit cell per
//     backing array, which holds one SMT array per field of the element type;
//   - elements of type *uint256.Int are references (positive integers) into the
//     array U of 256-bit values; references handed out are below ctr.

type hvar struct{}

// BlockV is the content of a backing array.
type BlockV struct {
	El types.Type
	F  []*Term // per field of a struct element, or one array
}

// EPtr points to (a field of) an element of a backing array.
type EPtr struct {
	Cell int
	Idx  *Term
	El   types.Type
	Path []int
}

// FwdV is the content of a cell whose object has moved to the array U.
type FwdV struct{ P *HPtr }

// ArrT is a whole SMT array as the value of a ghost field.

type GhostField struct {
	Name string
	Kind string // words, ints, set
}

var ghostFields = map[string][]GhostField{}

func ghostsOf(t types.Type) []GhostField {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		return ghostFields[n.Obj().Pkg().Name()+"."+n.Obj().Name()]
	}
	return nil
}

var (
	sortII = SArr(SInt)
	sortIB = SArr(SBool)
)

func elemFields(el types.Type) ([]types.Type, bool) {
	if isUIntNamed(el) {
		return []types.Type{el}, false
	}
	if s, ok := el.Underlying().(*types.Struct); ok {
		var r []types.Type
		for i := 0; i < s.NumFields(); i++ {
			r = append(r, s.Field(i).Type())
		}
		return r, true
	}
	return []types.Type{el}, false
}

func fieldSort(t types.Type) *Sort {
	if isBoolT(t) {
		return sortIB
	}
	if _, _, ok := intInfo(t); ok {
		return sortII
	}
	if isUIntPtr(t) || isUIntNamed(t) || isStrT(t) {
		return sortII
	}
	bail("slice element of type %s", typeStr(t))
	return nil
}

// rangeFact: every element of an integer array lies in the range of its type.
func rangeFact(a *Term, t types.Type) *Term {
	k := BoundVar("k")
	s := Select(a, k)
	if isUIntNamed(t) {
		return Forall([]*Term{k}, And(Le(NumI(0), s), Le(s, Num(bvMask(256)))), [][]*Term{{s}})
	}
	if bits, sg, ok := intInfo(t); ok {
		lo, hi := rangeOf(bits, sg)
		return Forall([]*Term{k}, And(Le(Num(lo), s), Le(s, Num(hi))), [][]*Term{{s}})
	}
	return True
}

var typU256 types.Type

func (x *Exec) uintType() types.Type {
	if typU256 == nil {
		for _, p := range x.prog.prog.AllPackages() {
			if p.Pkg.Name() == "uint256" {
				typU256 = p.Pkg.Scope().Lookup("Int").Type()
			}
		}
	}
	return typU256
}

func (x *Exec) wordsArray(st *State, name string) *Term {
	a := Fresh(name, sortII)
	x.assume(st, rangeFact(a, x.uintType()))
	return a
}

func (x *Exec) hinit(st *State) {
	if !x.heap {
		return
	}
	c := FreshInt("ctr", bigOne, nil)
	allocIndex[c] = len(allocIndex)
	st.ctr = c
	rs := map[string]bool{"U": true}
	sig := x.fn.Signature
	for _, p := range x.fn.Params {
		regions(p.Type(), rs, 0)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		regions(sig.Results().At(i).Type(), rs, 0)
	}
	for _, r := range sortedKeys(rs) {
		st.heap[r] = x.wordsArray(st, r)
	}
}

// The array U is split into regions, one per type of the elements that hold
// the references: a reference in an element of one type never equals one in an
// element of another type (keeping the same object in both is refused).
func regOf(el types.Type) string {
	if n, ok := el.(*types.Named); ok && n.Obj().Pkg() != nil {
		k := n.Obj().Pkg().Name() + "." + n.Obj().Name()
		if k == "tickdata.Tick" {
			return ""
		}
		return "U:" + k
	}
	return "U:elements"
}

func (q *HPtr) reg() string {
	if q.Reg == "" {
		return "U"
	}
	return q.Reg
}

func regName(r string) string {
	if r == "" {
		return "U"
	}
	return r
}

// regions collects the regions that values of this type can hold references into.
func regions(t types.Type, out map[string]bool, d int) {
	if t == nil || d > 8 || isUIntNamed(t) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			regions(u.Field(i).Type(), out, d+1)
		}
	case *types.Pointer:
		regions(u.Elem(), out, d+1)
	case *types.Slice:
		fs, _ := elemFields(u.Elem())
		for _, f := range fs {
			if isUIntPtr(f) {
				out[regName(regOf(u.Elem()))] = true
			}
		}
	}
}

func heapNames(m map[string]*Term) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (x *Exec) newCtr(st *State) {
	c := FreshInt("ctr", bigOne, nil)
	if b, k, ok := allocSplit(st.ctr); ok {
		allocParent[c] = AllocTag{b, k}
	}
	allocIndex[c] = len(allocIndex)
	x.assume(st, Le(st.ctr, c))
	st.ctr = c
}
func (x *Exec) bumpCtr(st *State) {
	if x.heap {
		x.newCtr(st)
	}
}
func (x *Exec) bumpCtrIfHeap(st *State) { x.bumpCtr(st) }

// freshBlock: a backing array of unknown content.
func (x *Exec) freshBlock(st *State, name string, el types.Type) (*SliceV, *BlockV) {
	fs, _ := elemFields(el)
	b := &BlockV{El: el}
	for i, t := range fs {
		a := Fresh(fmt.Sprintf("%s.%d", name, i), fieldSort(t))
		if f := rangeFact(a, t); f != True && st != nil {
			x.assume(st, f)
		}
		b.F = append(b.F, a)
	}
	id := x.newCell(st, "block:"+name, name, nil, b)
	return &SliceV{Heap: true, P: &PtrV{Cell: id}, HOff: NumI(0), El: el}, b
}

func (x *Exec) freshHeapSlice(st *State, name string, el types.Type) Val {
	s, _ := x.freshBlock(st, name, el)
	s.HLen = FreshInt(name+".len", bigZero, pow2big(48))
	s.HCap = FreshInt(name+".cap", bigZero, pow2big(48))
	x.assume(st, Le(s.HLen, s.HCap))
	return s
}

func (x *Exec) freshPointee(st *State, t types.Type, name string) Val {
	id := x.newCell(st, "obj:"+name, name, t, nil)
	st.cells[id] = x.freshOf(t, name, st)
	return &PtrV{Cell: id}
}

func (x *Exec) freshGhost(st *State, g GhostField, name string) Val {
	switch g.Kind {
	case "words":
		return x.wordsArray(st, name+"."+g.Name)
	case "set":
		return Fresh(name+"."+g.Name, sortIB)
	case "num":
		return Fresh(name+"."+g.Name, SInt)
	}
	return Fresh(name+"."+g.Name, sortII)
}

// ---------------------------------------------------------------- 256-bit values behind references

func (x *Exec) checkNilH(st *State, q *HPtr, pos token.Pos) {
	if q.A.Op == OConst && q.A.K.Sign() > 0 {
		return
	}
	if b, k, ok := allocSplit(q.A); ok && k >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		return
	}
	g := Not(Eq(q.A, NumI(0)))
	for _, p := range st.pc {
		if p == g {
			return
		}
	}
	x.oblige(st, "nil", "pointer is not nil", pos, g, nil)
	x.assume(st, g)
}

func (x *Exec) hload(st *State, q *HPtr) Val { return x.hloadIn(st, st.heap, q) }

func (x *Exec) hloadIn(st *State, heap map[string]*Term, q *HPtr) Val {
	u, ok := heap[q.reg()]
	if !ok || !isUIntNamed(q.T) {
		bail("reference to %s", typeStr(q.T))
	}
	s := Select(u, q.A)
	if !s.hasB {
		tighten(s, bigZero, bvMask(256))
	}
	v := &IntV{U: s}
	if len(q.Path) > 0 {
		return v.w(q.Path[0])
	}
	return v
}

func (x *Exec) hstore(st *State, q *HPtr, v Val, pos token.Pos) {
	if !isUIntNamed(q.T) {
		bail("reference to %s", typeStr(q.T))
	}
	var n *Term
	if len(q.Path) == 0 {
		n = x.toIntV(v).u()
	} else {
		old := x.hloadIn(st, st.heap, &HPtr{A: q.A, T: q.T, Reg: q.Reg}).(*IntV)
		iv := &IntV{}
		for i := range iv.W {
			iv.W[i] = old.w(i)
		}
		iv.W[q.Path[0]] = v.(*Term)
		n = iv.u()
	}
	st.heap[q.reg()] = Store(st.heap[q.reg()], q.A, n)
}

// ref returns the reference for a pointer that is stored in a backing array;
// an object in a cell of its own moves to the array U.
func (x *Exec) ref(st *State, v Val, reg string) *Term {
	other := func(q *HPtr) {
		if q.reg() != regName(reg) {
			x.oblige(st, "frame", "a value that is part of another object is kept", token.NoPos, False, nil)
			panic(pathEnd{})
		}
	}
	switch q := v.(type) {
	case NilV:
		return NumI(0)
	case *HPtr:
		if q.RO {
			x.oblige(st, "frame", "a value that is part of another object is kept", token.NoPos, False, nil)
			panic(pathEnd{})
		}
		if len(q.Path) == 0 {
			other(q)
			return q.A
		}
	case *PtrV:
		if len(q.Path) > 0 || q.Win {
			bail("reference to part of an object")
		}
		c := x.cellVal(st, q.Cell)
		if f, ok := c.(*FwdV); ok {
			other(f.P)
			return f.P.A
		}
		if x.isKonst(st, q.Cell) {
			bail("reference to constant %s kept", x.info[q.Cell].name)
		}
		iv, ok := c.(*IntV)
		if !ok {
			bail("reference to %T", c)
		}
		r := st.ctr
		rn := regName(reg)
		if st.heap[rn] == nil {
			bail("no region %s in this function", rn)
		}
		st.heap[rn] = Store(st.heap[rn], r, iv.u())
		st.ctr = Add(st.ctr, NumI(1))
		st.cells[q.Cell] = &FwdV{P: &HPtr{A: r, T: x.uintType(), Reg: reg}}
		return r
	}
	bail("reference to %T", v)
	return nil
}

// ---------------------------------------------------------------- backing arrays

func (x *Exec) blockOf(cells map[int]Val, gc map[int]Val, id int) *BlockV {
	b, ok := cells[id].(*BlockV)
	if !ok {
		bail("no backing array")
	}
	return b
}

func (x *Exec) elemAt(b *BlockV, idx *Term, path []int) Val {
	fs, isS := elemFields(b.El)
	one := func(i int) Val {
		s := Select(b.F[i], idx)
		t := fs[i]
		if isUIntPtr(t) {
			return &HPtr{A: s, T: t.Underlying().(*types.Pointer).Elem(), Reg: regOf(b.El)}
		}
		if isUIntNamed(t) {
			if !s.hasB {
				tighten(s, bigZero, bvMask(256))
			}
			return &IntV{U: s}
		}
		if isStrT(t) {
			return &StrV{Parts: []StrPart{{Kind: "opaque", T: s}}}
		}
		if bits, sg, ok := intInfo(t); ok && !s.hasB {
			lo, hi := rangeOf(bits, sg)
			tighten(s, lo, hi)
		}
		return s
	}
	if !isS {
		v := one(0)
		if len(path) > 0 {
			return x.getPath(v, path)
		}
		return v
	}
	if len(path) == 0 {
		z := &StructV{T: b.El}
		for i := range fs {
			z.F = append(z.F, one(i))
		}
		return z
	}
	return one(path[0])
}

func (x *Exec) eload(st *State, q *EPtr) Val {
	return x.elemAt(x.blockOf(st.cells, nil, q.Cell), q.Idx, q.Path)
}

func (x *Exec) scalarOf(st *State, v Val, t types.Type, reg string) *Term {
	if isUIntPtr(t) {
		return x.ref(st, v, reg)
	}
	if isUIntNamed(t) {
		return x.toIntV(v).u()
	}
	if s, ok := v.(*StrV); ok {
		return x.strTerm(s)
	}
	q, ok := v.(*Term)
	if !ok {
		bail("element %T", v)
	}
	return q
}

func (x *Exec) estore(st *State, q *EPtr, v Val, pos token.Pos) {
	b := x.blockOf(st.cells, nil, q.Cell)
	fs, isS := elemFields(b.El)
	n := &BlockV{El: b.El, F: append([]*Term(nil), b.F...)}
	if isS && len(q.Path) == 0 {
		s := v.(*StructV)
		for i := range fs {
			n.F[i] = Store(n.F[i], q.Idx, x.scalarOf(st, s.F[i], fs[i], regOf(b.El)))
		}
	} else {
		i := 0
		if isS {
			i = q.Path[0]
			if len(q.Path) > 1 {
				bail("store into part of an element")
			}
		} else if len(q.Path) > 0 {
			bail("store into part of an element")
		}
		n.F[i] = Store(n.F[i], q.Idx, x.scalarOf(st, v, fs[i], regOf(b.El)))
	}
	st.cells[q.Cell] = n
}

func (x *Exec) hindex(st *State, s *SliceV, i *Term, p token.Pos) Val {
	g := And(Le(NumI(0), i), Lt(i, s.HLen))
	x.oblige(st, "bounds", "index in range", p, g, nil)
	x.assume(st, g)
	return &EPtr{Cell: s.P.Cell, Idx: Add(s.HOff, i), El: s.El}
}

func (x *Exec) hloadElem(e *Env, s *SliceV, it *Term) Val {
	if s.P == nil {
		// nil slice in a contract: no element exists
		_, b := x.freshBlock(&State{cells: map[int]Val{}}, "none", s.El)
		return x.elemAt(b, it, nil)
	}
	b, ok := e.cells[s.P.Cell].(*BlockV)
	if !ok {
		if _, po := e.cells[s.P.Cell].(PoisonV); po {
			return PoisonV{}
		}
		bail("backing array not allocated in this state")
	}
	return x.elemAt(b, Add(s.HOff, it), nil)
}

func (x *Exec) hslice(st *State, f *Frame, q *SliceV, i *ssa.Slice) Val {
	lo, hi := NumI(0), q.HLen
	if i.Low != nil {
		lo = x.term(st, f, i.Low)
	}
	if i.High != nil {
		hi = x.term(st, f, i.High)
	}
	if i.Max != nil {
		bail("three-index slice")
	}
	g := And(Le(NumI(0), lo), Le(lo, hi), Le(hi, q.HCap))
	x.oblige(st, "bounds", "slice bounds", i.Pos(), g, nil)
	x.assume(st, g)
	return &SliceV{Heap: true, P: q.P, HOff: Add(q.HOff, lo), HLen: Sub(hi, lo), HCap: Sub(q.HCap, lo), El: q.El}
}

func (x *Exec) hsliceArr(st *State, f *Frame, q *HPtr, i *ssa.Slice) Val {
	bail("slice of a referenced object")
	return nil
}

func (x *Exec) hmake(st *State, el types.Type, n, c *Term, pos token.Pos) Val {
	g := And(Le(NumI(0), n), Le(n, c))
	x.oblige(st, "panic", "make: length is not negative", pos, g, nil)
	x.assume(st, g)
	s, b := x.freshBlock(st, "make", el)
	fs, _ := elemFields(el)
	for i := range b.F {
		k := BoundVar("k")
		z := NumI(0)
		if isBoolT(fs[i]) {
			z = False
		}
		if isStrT(fs[i]) {
			z = strLit("")
		}
		sel := Select(b.F[i], k)
		eq := Eq(sel, z)
		if z == False {
			eq = Not(sel)
		}
		x.assume(st, Forall([]*Term{k}, eq, [][]*Term{{sel}}))
	}
	s.HLen, s.HCap = n, c
	return s
}

// happend: append(dst, src...)
func (x *Exec) happend(st *State, f *Frame, ci ssa.CallInstruction, args []Val) bool {
	d := args[0].(*SliceV)
	s, ok := args[1].(*SliceV)
	if !ok {
		bail("append of %T", args[1])
	}
	el := d.El
	fs, isS := elemFields(el)
	// elements to append
	var slen *Term
	var expl []Val
	if s.Heap {
		slen = s.HLen
	} else {
		slen = NumI(int64(s.Len))
		if s.Len > 0 {
			arr := x.getPath(x.cellVal(st, s.P.Cell), s.P.Path).(*ArrayV)
			expl = arr.E[s.Off : s.Off+s.Len]
		}
	}
	// destination prefix
	var dlen, dcap *Term
	if d.Heap {
		dlen, dcap = d.HLen, d.HCap
	} else {
		dlen, dcap = NumI(int64(d.Len)), NumI(int64(d.Cap))
		if d.Len != d.Cap {
			bail("append to part of an array")
		}
	}
	if slen.Op == OConst && slen.K.Sign() == 0 {
		x.setResult(f, ci, d)
		return true
	}
	scal := make([][]*Term, len(expl))
	for i, v := range expl {
		for j, t := range fs {
			var c Val = v
			if isS {
				c = v.(*StructV).F[j]
			}
			scal[i] = append(scal[i], x.scalarOf(st, c, t, regOf(el)))
		}
	}
	var pre [][]*Term // explicit destination prefix
	if !d.Heap {
		for i := 0; i < d.Len; i++ {
			v := x.getPath(x.cellVal(st, d.P.Cell), append(append([]int(nil), d.P.Path...), d.Off+i))
			var r []*Term
			for j, t := range fs {
				c := v
				if isS {
					c = v.(*StructV).F[j]
				}
				r = append(r, x.scalarOf(st, c, t, regOf(el)))
			}
			pre = append(pre, r)
		}
	}
	n := Add(dlen, slen)
	var sb *BlockV
	if s.Heap {
		sb = x.blockOf(st.cells, nil, s.P.Cell)
	}
	build := func(w *State, base []*Term, off *Term) *BlockV {
		// base: contents outside the appended range (nil: unknown)
		b := &BlockV{El: el}
		for j, t := range fs {
			var a *Term
			if sb == nil && base != nil {
				a = base[j]
				for i := range scal {
					a = Store(a, Add(off, Add(dlen, NumI(int64(i)))), scal[i][j])
				}
				b.F = append(b.F, a)
				continue
			}
			a = Fresh("app", fieldSort(t))
			k := BoundVar("k")
			sel := Select(a, k)
			eq := func(u *Term) *Term {
				if sel.Sort == SBool {
					return And(Implies(sel, u), Implies(u, sel))
				}
				return Eq(sel, u)
			}
			rel := Sub(k, off)
			var body []*Term
			if base != nil {
				body = append(body, Implies(Not(And(Le(dlen, rel), Lt(rel, n))), eq(Select(base[j], k))))
			} else if d.Heap {
				db := x.blockOf(w.cells, nil, d.P.Cell)
				body = append(body, Implies(And(Le(NumI(0), k), Lt(k, dlen)), eq(Select(db.F[j], Add(d.HOff, k)))))
			} else {
				for i := range pre {
					x.assume(w, func() *Term {
						s0 := Select(a, NumI(int64(i)))
						if s0.Sort == SBool {
							return And(Implies(s0, pre[i][j]), Implies(pre[i][j], s0))
						}
						return Eq(s0, pre[i][j])
					}())
				}
			}
			if sb != nil {
				body = append(body, Implies(And(Le(dlen, rel), Lt(rel, n)), eq(Select(sb.F[j], Add(s.HOff, Sub(rel, dlen))))))
			}
			x.assume(w, Forall([]*Term{k}, And(body...), [][]*Term{{sel}}))
			if f := rangeFact(a, t); f != True {
				x.assume(w, f)
			}
			if sb == nil {
				for i := range scal {
					a = Store(a, Add(off, Add(dlen, NumI(int64(i)))), scal[i][j])
				}
			}
			b.F = append(b.F, a)
		}
		return b
	}
	if x.con.Opts["append"] != "" && d.Heap && x.onlyPlace(st, f, ci, d) {
		// whether the elements move cannot be observed: no other place has the array
		db := x.blockOf(st.cells, nil, d.P.Cell)
		b := build(st, db.F, d.HOff)
		c := FreshInt("cap", bigZero, pow2big(60))
		x.assume(st, Le(n, c))
		st.cells[d.P.Cell] = b
		x.setResult(f, ci, &SliceV{Heap: true, P: d.P, HOff: d.HOff, HLen: n, HCap: c, El: el})
		return true
	}
	// reallocation
	o := st.clone()
	inPlace := d.Heap
	fit := Le(n, dcap)
	if inPlace {
		x.assume(st, fit)
		inPlace = x.feasible(st)
	} else if d.Cap > 0 {
		// the result shares the array of dst only when nothing is appended
		g := Lt(dcap, n)
		x.assume(o, g)
		z := st.clone()
		x.assume(z, fit)
		if x.feasible(z) {
			z.trace = append(z.trace, "append-nothing")
			// n == dcap here: the same elements in a backing array of their own;
			// dst's array is not reachable otherwise when it is a literal
			base := build(z, nil, NumI(0))
			z.cells[d.P.Cell] = &OpaqueV{Name: "array shared by append"}
			s2, _ := x.freshBlock(z, "append", el)
			z.cells[s2.P.Cell] = base
			s2.HLen, s2.HCap = n, n
			x.setResult(z.top(), ci, s2)
			x.work = append(x.work, z)
		}
	}
	x.assume(o, Lt(dcap, n))
	if x.feasible(o) {
		b := build(o, nil, NumI(0))
		s2, _ := x.freshBlock(o, "append", el)
		o.cells[s2.P.Cell] = b
		s2.HLen = n
		s2.HCap = FreshInt("cap", bigZero, pow2big(60))
		x.assume(o, Le(n, s2.HCap))
		o.trace = append(o.trace, "append-moves")
		if !inPlace {
			*st = *o
			x.setResult(st.top(), ci, s2)
			return true
		}
		x.setResult(o.top(), ci, s2)
		x.work = append(x.work, o)
	}
	if !inPlace {
		return false
	}
	db := x.blockOf(st.cells, nil, d.P.Cell)
	b := build(st, db.F, d.HOff)
	st.cells[d.P.Cell] = b
	st.trace = append(st.trace, "append-fits")
	x.setResult(f, ci, &SliceV{Heap: true, P: d.P, HOff: d.HOff, HLen: n, HCap: d.HCap, El: el})
	return true
}

// onlyPlace: p = append(p, …) and no other place refers to the array of p.
func (x *Exec) onlyPlace(st *State, f *Frame, ci ssa.CallInstruction, d *SliceV) bool {
	v := ci.Value()
	ld, ok := ci.Common().Args[0].(*ssa.UnOp)
	if v == nil || !ok || ld.Op != token.MUL {
		return false
	}
	var to *ssa.Store
	after := false
	for _, i := range v.Block().Instrs {
		if i == ssa.Instruction(v) {
			after = true
			continue
		}
		if !after {
			continue
		}
		if s, is := i.(*ssa.Store); is {
			to = s
			break
		}
		switch i.(type) {
		case *ssa.DebugRef, *ssa.FieldAddr:
		default:
			return false
		}
	}
	if to == nil || to.Val != ssa.Value(v) {
		return false
	}
	for _, r := range *v.Referrers() {
		if _, dbg := r.(*ssa.DebugRef); !dbg && r != ssa.Instruction(to) {
			return false
		}
	}
	a, ok1 := f.regs[to.Addr].(*PtrV)
	if fa, is := to.Addr.(*ssa.FieldAddr); is && !ok1 {
		var p *PtrV
		if p, ok1 = f.regs[fa.X].(*PtrV); ok1 {
			z := *p
			z.Path = append(append([]int(nil), p.Path...), fa.Field)
			a = &z
		}
	}
	b, ok2 := f.regs[ld.X].(*PtrV)
	if !ok1 || !ok2 || shapeOf(a) != shapeOf(b) {
		return false
	}
	n := 0
	for _, w := range x.stateLeaves(st, st.cells) {
		for _, c := range cellsOf(w) {
			if c == d.P.Cell {
				n++
			}
		}
	}
	for _, fr := range st.frames {
		for r, w := range fr.regs {
			if q, is := w.(*SliceV); is && r != ssa.Value(ld) && q.P != nil && q.P.Cell == d.P.Cell {
				return false
			}
			if t, is := w.(*TupleV); is {
				for _, w := range t.E {
					if q, is := w.(*SliceV); is && q.P != nil && q.P.Cell == d.P.Cell {
						return false
					}
				}
			}
		}
	}
	if x.isKonst(st, d.P.Cell) || st.shares[d.P.Cell] != nil {
		return false
	}
	for c := range st.shares {
		for _, o := range st.shares[c] {
			if o == d.P.Cell {
				return false
			}
		}
	}
	return n == 1
}

// ---------------------------------------------------------------- contracts

// lvalue evaluates a modifies target to the pointer it designates.
func (e *Env) lvalue(m *Expr) Val {
	switch m.Kind {
	case "un":
		if m.Op == "#" {
			return e.eval(m.Args[0])
		}
	case "call":
		if m.Op == "deref" {
			return e.eval(m.Args[0])
		}
	case "id":
		return e.eval(m)
	case "field":
		b := e.eval(m.Args[0])
		if q, ok := b.(*PtrV); ok {
			d := e.deref(m, q)
			if s, ok := d.(*StructV); ok {
				return &PtrV{Cell: q.Cell, Path: append(append([]int(nil), q.Path...), fieldIndex(s.T, m.Op))}
			}
		}
	}
	e.fail(m, "not an object that can be modified")
	return nil
}

// reuseCells: the new object of a place takes the name of the old object of the
// same place, if nothing else refers to the old one; remaining references from
// registers are redirected to a poisoned object. This keeps the arrangement of
// objects the same in every iteration of a loop.
func (x *Exec) reuseCells(st *State, q *PtrV, ov, nv Val, content map[int]Val, args []Val) Val {
	busy := map[int]bool{}
	note := func(v Val) {
		m := map[string]Val{}
		x.leaves("", v, m)
		for _, w := range m {
			for _, c := range cellsOf(w) {
				busy[c] = true
			}
		}
	}
	for id, v := range st.cells {
		if _, in := content[id]; !in && id != q.Cell {
			note(v)
		}
	}
	for _, a := range args {
		note(a)
	}
	for _, v := range x.args {
		note(v)
	}
	for c := range st.shares {
		busy[c] = true
	}
	for c := range st.konst {
		busy[c] = true
	}
	for _, f := range st.frames {
		for _, c := range f.locals {
			busy[c] = true
		}
		for _, v := range f.regs {
			switch v.(type) {
			case *PtrV, *SliceV, *MapV:
			default:
				note(v)
			}
		}
	}
	for _, v := range st.lets {
		switch v.(type) {
		case *PtrV, *SliceV, *MapV:
		default:
			note(v)
		}
	}
	used := map[int]bool{}
	take := func(co, cn int) bool {
		if _, ok := content[co]; !ok || busy[co] || used[co] || co == q.Cell || x.isKonst(st, co) || x.info[co].param {
			return false
		}
		a, b := x.info[co].T, x.info[cn].T
		if a == nil || b == nil || !types.Identical(a, b) {
			return false
		}
		used[co] = true
		return true
	}
	var walk func(o, n Val) Val
	move := func(co, cn int) {
		c := st.cells[cn]
		delete(st.cells, cn)
		st.cells[co] = walk(content[co], c)
	}
	walk = func(o, n Val) Val {
		switch a := n.(type) {
		case *StructV:
			b, ok := o.(*StructV)
			if !ok || len(a.F) != len(b.F) {
				return n
			}
			z := &StructV{T: a.T}
			for i := range a.F {
				z.F = append(z.F, walk(b.F[i], a.F[i]))
			}
			return z
		case *PtrV:
			b, ok := o.(*PtrV)
			if !ok || len(a.Path) > 0 || len(b.Path) > 0 || a.Win || b.Win || !take(b.Cell, a.Cell) {
				return n
			}
			move(b.Cell, a.Cell)
			return &PtrV{Cell: b.Cell}
		case *SliceV:
			b, ok := o.(*SliceV)
			if !ok || !a.Heap || !b.Heap || a.P == nil || b.P == nil || len(a.P.Path) > 0 || len(b.P.Path) > 0 || !take(b.P.Cell, a.P.Cell) {
				return n
			}
			move(b.P.Cell, a.P.Cell)
			z := *a
			z.P = &PtrV{Cell: b.P.Cell}
			return &z
		case *MapV:
			b, ok := o.(*MapV)
			if !ok || a.G != nil || b.G != nil || !take(b.Cell, a.Cell) {
				return n
			}
			move(b.Cell, a.Cell)
			z := *a
			z.Cell = b.Cell
			return &z
		}
		return n
	}
	r := walk(ov, nv)
	if len(used) == 0 {
		return r
	}
	// stale references
	stale := -1
	redirect := func(v Val) Val {
		cs := cellsOf(v)
		if len(cs) != 1 || !used[cs[0]] {
			return v
		}
		if stale < 0 {
			stale = x.newCell(st, fmt.Sprintf("stale:%d", q.Cell), "stale", nil, PoisonV{})
			st.cells[stale] = PoisonV{}
		}
		switch a := v.(type) {
		case *PtrV:
			z := *a
			z.Cell = stale
			return &z
		case *SliceV:
			z := *a
			z.P = &PtrV{Cell: stale}
			return &z
		case *MapV:
			z := *a
			z.Cell = stale
			return &z
		}
		return v
	}
	for _, f := range st.frames {
		for k, v := range f.regs {
			f.regs[k] = redirect(v)
		}
	}
	for k, v := range st.lets {
		st.lets[k] = redirect(v)
	}
	return r
}

// cellsOf: the word-memory objects that a value refers to directly.
func cellsOf(v Val) []int {
	switch a := v.(type) {
	case *PtrV:
		return []int{a.Cell}
	case *SliceV:
		if a.P != nil {
			return []int{a.P.Cell}
		}
	case *MapV:
		if a.G == nil {
			return []int{a.Cell}
		}
	case *FwdM:
		return []int{a.P.Cell}
	case *FwdMO:
		return []int{a.P.Cell}
	case *MObj:
		return []int{a.Cell}
	case *MFld:
		return []int{a.Cell}
	case *MInt:
		return []int{a.Cell}
	case *IterP:
		return append(cellsOf(a.Map), a.Cell)
	case *TupleV:
		var r []int
		for _, e := range a.E {
			r = append(r, cellsOf(e)...)
		}
		return r
	}
	return nil
}

// hasHeap: values of this type can hold references into U.
func hasHeap(t types.Type, d int) bool {
	if t == nil || d > 6 || isUIntNamed(t) {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasHeap(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Pointer:
		return hasHeap(u.Elem(), d+1)
	case *types.Slice:
		return true
	}
	return false
}

func (x *Exec) isKonst(st *State, id int) bool { return x.info[id].konst || st.konst[id] }

func (x *Exec) havocU(st *State, rs map[string]bool) {
	for _, r := range sortedKeys(rs) {
		st.heap[r] = x.wordsArray(st, r)
	}
	x.newCtr(st)
}

func (x *Exec) havocHeapLoop(st *State, h map[string]bool, s *LoopSpec, entry map[string]*Term) {
	if !x.heap {
		return
	}
	for _, r := range heapNames(st.heap) {
		if h["heap:"+r] {
			st.heap[r] = x.wordsArray(st, r)
		}
	}
}

// loopKeeps: a loop leaves the values alone that exist when it starts, in the
// regions that the function does not modify.
func (x *Exec) loopKeeps(st *State, run *LoopRun) []*Term {
	if !x.heap || run.ctr == nil {
		return nil
	}
	e := x.env(st)
	e.cells, e.heap, e.frame = x.entry.cells, x.entry.heap, nil
	free := x.freeRegions(e)
	var out []*Term
	for _, r := range heapNames(st.heap) {
		if r == "U" || free[r] || st.heap[r] == run.heap[r] || run.heap[r] == nil {
			continue
		}
		k := BoundVar("k")
		a, b := Select(run.heap[r], k), Select(st.heap[r], k)
		out = append(out, Forall([]*Term{k}, Implies(And(Lt(NumI(0), k), Lt(k, run.ctr)), Eq(a, b)), [][]*Term{{a}, {b}}))
	}
	return out
}

func (x *Exec) loopFrame(st *State, run *LoopRun, s *LoopSpec, n string, pos token.Pos) {
	for _, t := range x.loopKeeps(st, run) {
		x.oblige(st, "frame", n+" leaves existing values alone", pos, t, nil)
	}
}

func (x *Exec) freeRegions(e *Env) map[string]bool {
	free := map[string]bool{}
	for _, m := range x.con.Modifies {
		if m.Kind == "un" || m.Kind == "call" && m.Op == "elems" {
			continue
		}
		if q, ok := e.lvalue(m).(*PtrV); ok {
			t := x.info[q.Cell].T
			if len(q.Path) > 0 {
				t = subType(t, q.Path)
			}
			regions(t, free, 0)
		}
	}
	return free
}

// reach lists the cells that a value reaches through pointers.
func (x *Exec) reach(cells map[int]Val, v Val, visit func(cell int, owner string), owner string) {
	switch q := v.(type) {
	case *PtrV:
		if _, ok := cells[q.Cell]; !ok {
			return // constant
		}
		visit(q.Cell, owner)
	case *SliceV:
		if q.P != nil {
			visit(q.P.Cell, owner)
		}
	case *MapV:
		if q.G == nil {
			visit(q.Cell, owner)
		}
	case *StructV:
		u := q.T.Underlying().(*types.Struct)
		for i, f := range q.F {
			n := owner
			if i < u.NumFields() {
				n += "." + u.Field(i).Name()
			}
			x.reach(cells, f, visit, n)
		}
	case *ArrayV:
		for i, f := range q.E {
			x.reach(cells, f, visit, fmt.Sprintf("%s[%d]", owner, i))
		}
	}
}

// graph returns every cell reachable from v, in order, with one owner each;
// dup is called when a cell is reached twice.
func (x *Exec) graph(cells map[int]Val, v Val, owner string, seen map[int]string, dup func(cell int, a, b string)) {
	var visit func(c int, o string)
	visit = func(c int, o string) {
		if p, ok := seen[c]; ok {
			if dup != nil {
				dup(c, p, o)
			}
			return
		}
		seen[c] = o
		x.reach(cells, cells[c], visit, o)
	}
	x.reach(cells, v, visit, owner)
}

// havocGraph replaces everything reachable from an object by fresh objects.
func (x *Exec) havocObj(st *State, q *PtrV, name string, args []Val) {
	t := x.info[q.Cell].T
	if len(q.Path) > 0 {
		if t = subType(t, q.Path); t == nil {
			root := x.info[q.Cell].T
			for _, i := range q.Path[:len(q.Path)-1] {
				root = subType(root, []int{i})
			}
			g := ghostsOf(root)[q.Path[len(q.Path)-1]-root.Underlying().(*types.Struct).NumFields()]
			st.cells[q.Cell] = x.setPath(x.cellVal(st, q.Cell), q.Path, x.freshGhost(st, g, name))
			return
		}
	}
	// what the object referred to so far may have been replaced
	old := map[int]string{}
	x.graph(st.cells, x.getPath(x.cellVal(st, q.Cell), q.Path), "", old, nil)
	nv := x.freshOf(t, name, st)
	var content map[int]Val
	if x.con.Opts["reuse"] != "" {
		content = map[int]Val{}
		for c := range old {
			content[c] = st.cells[c]
		}
	}
	ov := x.getPath(x.cellVal(st, q.Cell), q.Path)
	for c := range old {
		if c != q.Cell {
			st.cells[c] = PoisonV{}
		}
	}
	if content != nil {
		nv = x.reuseCells(st, q, ov, nv, content, args)
	}
	st.cells[q.Cell] = x.setPath(x.cellVal(st, q.Cell), q.Path, nv)
	if hasHeap(t, 0) {
		rs := map[string]bool{}
		regions(t, rs, 0)
		x.havocU(st, rs)
	}
}

func (x *Exec) checkHeapFrame(st *State, e *Env, pos token.Pos) {
	free := x.freeRegions(e)
	for _, r := range heapNames(st.heap) {
		if free[r] || st.heap[r] == x.entry.heap[r] {
			continue
		}
		k := BoundVar("k")
		a, b := Select(x.entry.heap[r], k), Select(st.heap[r], k)
		x.oblige(st, "frame", "referenced values unchanged", pos, Forall([]*Term{k}, Implies(And(Lt(NumI(0), k), Lt(k, x.entry.ctr)), Eq(a, b)), nil), nil)
	}
}

// checkGraph: at return the objects of the parameters and results are still
// separate from each other.
func (x *Exec) checkGraph(st *State, e *Env, vals []Val, pos token.Pos) {
	if !x.heap || x.con.Opts["shares"] != "" {
		return
	}
	seen := map[int]string{}
	dup := func(c int, a, b string) {
		x.oblige(st, "frame", a+" and "+b+" are separate objects", pos, False, nil)
	}
	walk := func(v Val, n string) {
		x.graph(st.cells, v, n, seen, dup)
	}
	for _, n := range x.con.Params {
		v := x.args[n]
		if q, ok := v.(*PtrV); ok {
			if _, has := seen[q.Cell]; has {
				continue // parameters that were allowed to be the same object
			}
		}
		walk(v, n)
	}
	for i, v := range vals {
		n := "result"
		if i < len(x.con.Results) {
			n = x.con.Results[i]
		}
		for _, f := range x.con.Fresh {
			if f.Kind == "id" && f.Op == n {
				walk(v, n)
			}
		}
	}
	// objects that may be the same as others
	may := map[int]int{}
	var ids []int
	for c := range seen {
		ids = append(ids, c)
	}
	sort.Ints(ids)
	for _, c := range ids {
		if isFwd(st.cells[c]) {
			x.oblige(st, "frame", seen[c]+" is not part of another object", pos, False, nil)
		}
		for _, s := range append([]int{c}, st.shares[c]...) {
			if o, ok := may[s]; ok && o != c {
				x.oblige(st, "frame", seen[o]+" and "+seen[c]+" are separate objects", pos, False, nil)
			}
			may[s] = c
		}
	}
	// package constants are not kept where they could be written
	for _, c := range ids {
		x.constRefs(st, st.cells[c], seen[c], pos)
	}
}

func (x *Exec) constRefs(st *State, v Val, owner string, pos token.Pos) {
	switch q := v.(type) {
	case *PtrV:
		if _, ok := st.cells[q.Cell]; !ok && x.info[q.Cell].konst {
			x.oblige(st, "frame", owner+" does not refer to the package constant "+x.info[q.Cell].name, pos, False, nil)
		}
	case *StructV:
		u := q.T.Underlying().(*types.Struct)
		for i, f := range q.F {
			if i < u.NumFields() {
				x.constRefs(st, f, owner+"."+u.Field(i).Name(), pos)
			}
		}
	}
}

// checkArgs: the objects a contract modifies are separate from everything else it is given.
func (x *Exec) checkArgs(st *State, env *Env, con *Contract, args []Val, pos token.Pos) {
	if con.Mem != "heap" {
		return
	}
	bad := func(a, b string) {
		x.oblige(st, "requires", fmt.Sprintf("requires of %s: %s and %s are separate objects", con.Name, a, b), pos, False, nil)
		panic(pathEnd{})
	}
	free := map[string]bool{}
	for _, m := range con.Modifies {
		if m.Kind == "un" || m.Kind == "call" && m.Op == "elems" {
			continue
		}
		if q, ok := env.lvalue(m).(*PtrV); ok {
			t := x.info[q.Cell].T
			if len(q.Path) > 0 {
				t = subType(t, q.Path)
			}
			regions(t, free, 0)
		}
	}
	for i, p := range con.Params {
		if q, ok := args[i].(*HPtr); ok && free[q.reg()] {
			bad("the modified object", p)
		}
	}
	own := map[int]string{}
	for i, p := range con.Params {
		mine := map[int]string{}
		x.graph(st.cells, args[i], p, mine, func(c int, a, b string) { bad(a, b) })
		for c, n := range mine {
			if o, ok := own[c]; ok {
				// shared between two arguments: fine while neither is modified
				if x.modifiesCell(env, con, c) {
					bad(o, n)
				}
				continue
			}
			own[c] = n
		}
	}
}

func (x *Exec) modifiesCell(env *Env, con *Contract, c int) bool {
	for _, m := range con.Modifies {
		if m.Kind == "call" && m.Op == "elems" {
			continue
		}
		v := env.lvalue(m)
		if q, ok := v.(*PtrV); ok {
			if q.Cell == c {
				return true
			}
			seen := map[int]string{}
			x.graph(env.cells, x.getPath(env.cells[q.Cell], q.Path), "", seen, nil)
			if _, ok := seen[c]; ok {
				return true
			}
		}
	}
	return false
}

func (x *Exec) havocHPtr(st *State, p *HPtr, why string)            {}
func (x *Exec) heapLocal(e *Env, f *Frame, name string) (Val, bool) { return nil, false }
func (x *Exec) specConst(n string, bv bool) (Val, bool)             { return nil, false }
func (x *Exec) heapArr(h map[string]*Term, n string) *Term          { return h[n] }
func (x *Exec) heapInit(n string) *Term                             { return nil }

// setGhost performs a ghost assignment  obj.field[k] = E  for all k.
func (x *Exec) setGhost(st *State, e *Env, h *Hint) {
	p, ok := e.lvalue(h.Args[0]).(*PtrV)
	if !ok {
		bail("set: not a ghost field")
	}
	cur := x.getPath(x.cellVal(st, p.Cell), p.Path).(*Term)
	if h.Name == "" {
		t := e.term(h.E)
		st.cells[p.Cell] = x.setPath(x.cellVal(st, p.Cell), p.Path, t)
		return
	}
	n := e.sub()
	b := BoundVar(h.Name)
	n.vars[h.Name] = b
	v := n.term(h.E)
	a := Fresh("ghost."+h.Args[0].Op, cur.Sort)
	s := Select(a, b)
	var body *Term
	if s.Sort == SBool {
		body = And(Implies(s, v), Implies(v, s))
	} else {
		g := ghostKind(x.info[p.Cell].T, p.Path)
		if g == "words" {
			in := And(Le(NumI(0), v), Le(v, Num(bvMask(256))))
			v = Ite(in, v, NumI(0))
		}
		body = Eq(s, v)
	}
	trig := [][]*Term{{s}}
	for _, g := range h.E.Trig {
		var ts []*Term
		for _, t := range g {
			ts = append(ts, n.term(t))
		}
		trig = append(trig, ts)
	}
	x.assume(st, Forall([]*Term{b}, body, trig))
	st.cells[p.Cell] = x.setPath(x.cellVal(st, p.Cell), p.Path, a)
}

func ghostKind(t types.Type, path []int) string {
	for i, k := range path {
		if i == len(path)-1 {
			gs := ghostsOf(t)
			s := t.Underlying().(*types.Struct)
			if k >= s.NumFields() {
				return gs[k-s.NumFields()].Kind
			}
			return ""
		}
		t = subType(t, []int{k})
	}
	return ""
}
