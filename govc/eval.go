package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type PoisonV struct{}

// Env evaluates contract expressions.
type Env struct {
	x     *Exec
	st    *State // path state (for heap tags and pc)
	cells map[int]Val
	heap  map[string]*Term
	ctr   *Term
	old   *Snapshot
	vars  map[string]Val
	frame []*Frame // for local variables, innermost last
	inOld bool
	bv    bool
	names map[string]Val // ghosts, lets
}

func (e *Env) sub() *Env {
	n := *e
	n.vars = map[string]Val{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	return &n
}

func (e *Env) fail(ex *Expr, f string, a ...interface{}) {
	bail("contract expression %s: %s", ex, fmt.Sprintf(f, a...))
}

func (e *Env) boolE(ex *Expr) *Term {
	t := e.term(ex)
	if t.Sort != SBool {
		e.fail(ex, "boolean expected")
	}
	return t
}

func (e *Env) term(ex *Expr) *Term {
	v := e.eval(ex)
	t, ok := v.(*Term)
	if !ok {
		switch q := v.(type) {
		case *HPtr:
			if len(q.Path) == 0 {
				return q.A
			}
		case NilV:
			return NumI(0)
		case *StrV:
			return e.x.strTerm(q)
		case PoisonV:
			e.fail(ex, "depends on a value that the call changes")
		}
		e.fail(ex, "scalar expected, got %T", v)
	}
	return t
}

func (e *Env) memState() (map[int]Val, map[string]*Term) {
	return e.cells, e.heap
}

// deref reads the object a pointer designates in the environment's memory.
func (e *Env) deref(ex *Expr, p Val) Val {
	switch q := p.(type) {
	case *PtrV:
		var v Val
		ok := false
		if v, ok = e.cells[q.Cell]; !ok {
			if v, ok = e.x.gcells[q.Cell]; !ok {
				// allocated later than this state
				e.fail(ex, "object not allocated in this state")
			}
		}
		if _, po := v.(PoisonV); po {
			return v
		}
		if isFwd(v) {
			return e.deref(ex, e.x.fwd(e.cells, q))
		}
		v = e.x.getPath(v, q.Path)
		if q.Win {
			a := v.(*ArrayV)
			return &ArrayV{El: a.El, E: a.E[q.Off : q.Off+q.N]}
		}
		return v
	case *HPtr:
		return e.x.hloadIn(e.st, e.heap, q)
	case *MInt:
		if _, po := e.cells[q.Cell].(PoisonV); po {
			return PoisonV{}
		}
		return e.x.mload(e.cells, q)
	case PoisonV:
		return q
	}
	e.fail(ex, "dereference of %T", p)
	return nil
}

func (e *Env) u256(ex *Expr, v Val) *Term {
	switch q := v.(type) {
	case *IntV:
		return q.u()
	case *ArrayV:
		return e.x.toIntV(q).u()
	case *BigV:
		return q.T
	case *PtrV, *HPtr, *MInt:
		d := e.deref(ex, q)
		if b, ok := d.(*BigV); ok {
			return b.T
		}
		if _, po := d.(PoisonV); po {
			e.fail(ex, "depends on a value that the call changes")
		}
		return e.x.toIntV(d).u()
	case *Term:
		return q
	case NilV:
		e.fail(ex, "nil")
	}
	e.fail(ex, "256-bit value expected, got %T", v)
	return nil
}

func (e *Env) lookup(name string) (Val, bool) {
	if v, ok := e.vars[name]; ok {
		return v, true
	}
	if v, ok := e.names[name]; ok {
		return v, true
	}
	if name == "visited" {
		for i := len(e.frame) - 1; i >= 0; i-- {
			for _, v := range e.frame[i].regs {
				if it, ok := v.(*IterP); ok {
					if c, ok := e.cells[it.Cell]; ok {
						return c, true
					}
				}
			}
		}
	}
	for i := len(e.frame) - 1; i >= 0; i-- {
		f := e.frame[i]
		for j := len(f.order) - 1; j >= 0; j-- {
			a := f.order[j]
			if a.Comment == name {
				id := f.locals[a]
				if v, ok := e.cells[id]; ok {
					return v, true
				}
			}
		}
		for r, v := range f.regs { // escaping locals (heap)
			if al, ok := r.(interface{ Name() string }); ok {
				_ = al
			}
			_ = v
		}
		if v, ok := e.x.heapLocal(e, f, name); ok {
			return v, true
		}
		// phis and named registers
		for r, v := range f.regs {
			if p, ok := r.(interface{ Name() string }); ok && p.Name() == name {
				return v, true
			}
		}
	}
	return nil, false
}

func (e *Env) eval(ex *Expr) Val {
	switch ex.Kind {
	case "num":
		return Num(ex.Num)
	case "bool":
		return Bool(ex.Op == "true")
	case "str":
		return &StrV{Parts: []StrPart{{Lit: ex.Op}}}
	case "id":
		if v, ok := e.lookup(ex.Op); ok {
			return v
		}
		if d, ok := e.x.db.Defines[ex.Op]; ok && len(d.Params) == 0 {
			n := *e
			n.vars = map[string]Val{}
			return n.eval(d.Body)
		}
		if v, ok := e.x.specConst(ex.Op, e.bv); ok {
			return v
		}
		e.fail(ex, "unknown name %q", ex.Op)
	case "un":
		switch ex.Op {
		case "!":
			return Not(e.boolE(ex.Args[0]))
		case "-":
			t := e.term(ex.Args[0])
			if t.Sort.K == KBV {
				e.fail(ex, "unary minus on bit-vectors")
			}
			return Neg(t)
		case "#":
			return e.u256(ex, e.eval(ex.Args[0]))
		}
	case "field":
		v := e.eval(ex.Args[0])
		if _, po := v.(PoisonV); po {
			return v
		}
		if o, ok := v.(*StructV); ok {
			return o.F[fieldIndex(o.T, ex.Op)]
		}
		if q, ok := v.(*PtrV); ok {
			v = e.x.fwd(e.cells, q)
		}
		if q, ok := v.(*MObj); ok {
			_, t := mapElem(mapBlk(e.cells, q.Cell).T)
			return e.x.mfield(e.cells, q.Cell, q.Key, fieldIndex(t, ex.Op), q.Ver)
		}
		var pt types.Type
		switch q := v.(type) {
		case *PtrV:
			// struct in a cell
			d := e.deref(ex, q)
			if _, po := d.(PoisonV); po {
				return d
			}
			if s, ok := d.(*StructV); ok {
				return s.F[fieldIndex(s.T, ex.Op)]
			}
		case *HPtr:
			pt = subType(q.T, q.Path)
			i := fieldIndex(pt, ex.Op)
			return e.x.hloadIn(e.st, e.heap, &HPtr{A: q.A, T: q.T, Reg: q.Reg, Path: append(append([]int(nil), q.Path...), i)})
		case *SliceV:
			switch ex.Op {
			case "cap":
				return q.HCap
			}
		}
		e.fail(ex, "field %s of %T", ex.Op, v)
	case "index":
		return e.index(ex)
	case "bin":
		return e.binE(ex)
	case "forall", "exists":
		n := e.sub()
		var bs []*Term
		for _, v := range ex.Vars {
			b := BoundVar(v)
			bs = append(bs, b)
			n.vars[v] = b
		}
		var trig [][]*Term
		body := n.boolE(ex.Args[0])
		for _, g := range ex.Trig {
			var ts []*Term
			for _, t := range g {
				if m, ok := n.eval(t).(*MInt); ok {
					ts = append(ts, n.u256(t, m))
					continue
				}
				ts = append(ts, n.term(t))
			}
			trig = append(trig, ts)
		}
		if ex.Kind == "exists" {
			return Not(Forall(bs, Not(body), trig))
		}
		return Forall(bs, body, trig)
	case "call":
		return e.callE(ex)
	}
	e.fail(ex, "cannot evaluate")
	return nil
}

func fieldIndex(t types.Type, name string) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		bail("field %s of %s", name, typeStr(t))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	for i, g := range ghostsOf(t) {
		if g.Name == name {
			return s.NumFields() + i
		}
	}
	bail("no field %s in %s", name, typeStr(t))
	return 0
}

func subType(t types.Type, path []int) types.Type {
	for _, i := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if i >= u.NumFields() {
				return nil // ghost field
			}
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		}
	}
	return t
}

func (e *Env) index(ex *Expr) Val {
	v := e.eval(ex.Args[0])
	it := e.term(ex.Args[1])
	if m, ok := v.(*MapV); ok && m.G == nil {
		if _, po := e.cells[m.Cell].(PoisonV); po {
			return PoisonV{}
		}
		return &MObj{Cell: m.Cell, Key: it, Ver: mapBlk(e.cells, m.Cell).HasVer}
	}
	if s, ok := v.(*SliceV); ok && (s.Heap || s.P == nil) {
		return e.x.hloadElem(e, s, it)
	}
	if a, ok := v.(*Term); ok && a.Sort.K == KArr {
		return Select(a, it)
	}
	if _, po := v.(PoisonV); po {
		return v
	}
	k := 0
	if isConcrete(it) {
		k = e.x.concrete(it)
	} else {
		e.fail(ex, "symbolic index %s", it)
	}
	switch q := v.(type) {
	case *PtrV:
		d := e.deref(ex, q)
		return e.x.getPath(d, []int{k})
	case *HPtr:
		d := e.deref(ex, q)
		return e.x.getPath(d, []int{k})
	case *IntV:
		return q.w(k)
	case *ArrayV:
		if k < 0 || k >= len(q.E) {
			e.fail(ex, "index")
		}
		return q.E[k]
	case *SliceV:
		d := e.deref(ex, q.P)
		return e.x.getPath(d, []int{k + q.Off})
	}
	e.fail(ex, "index of %T", v)
	return nil
}

func (e *Env) coerce(a, b *Term) (*Term, *Term) {
	if a.Sort.K == KBV && b.Sort == SInt && b.Op == OConst {
		return a, BVc(b.K, a.Sort.W)
	}
	if b.Sort.K == KBV && a.Sort == SInt && a.Op == OConst {
		return BVc(a.K, b.Sort.W), b
	}
	if a.Sort.K == KBV && b.Sort.K == KBV && a.Sort != b.Sort {
		if a.Sort.W < b.Sort.W {
			return BVZext(a, b.Sort.W), b
		}
		return a, BVZext(b, a.Sort.W)
	}
	return a, b
}

func (e *Env) binE(ex *Expr) Val {
	switch ex.Op {
	case "&&":
		a := e.boolE(ex.Args[0])
		if a == False {
			return False
		}
		return And(a, e.boolE(ex.Args[1]))
	case "||":
		a := e.boolE(ex.Args[0])
		if a == True {
			return True
		}
		return Or(a, e.boolE(ex.Args[1]))
	case "==>":
		a := e.boolE(ex.Args[0])
		if a == False {
			return True
		}
		return Implies(a, e.boolE(ex.Args[1]))
	case "<==>":
		a, b := e.boolE(ex.Args[0]), e.boolE(ex.Args[1])
		return And(Implies(a, b), Implies(b, a))
	case "==", "!=":
		a, b := e.eval(ex.Args[0]), e.eval(ex.Args[1])
		var r *Term
		ta, ok1 := a.(*Term)
		tb, ok2 := b.(*Term)
		if ok1 && ok2 {
			if ta.Sort == SBool || tb.Sort == SBool {
				if ta.Sort != tb.Sort {
					e.fail(ex, "comparison of bool and number")
				}
				r = And(Implies(ta, tb), Implies(tb, ta))
			} else {
				ta, tb = e.coerce(ta, tb)
				r = Eq(ta, tb)
			}
		} else {
			if ok1 && !ok2 {
				r = Eq(ta, e.term(ex.Args[1]))
			} else if ok2 && !ok1 {
				r = Eq(e.term(ex.Args[0]), tb)
			} else {
				r = e.x.valEq(e.st, a, b)
			}
		}
		if ex.Op == "!=" {
			return Not(r)
		}
		return r
	}
	a, b := e.term(ex.Args[0]), e.term(ex.Args[1])
	if ex.Op == "^" {
		if a.Op == OConst && b.Op == OConst {
			return Num(new(big.Int).Exp(a.K, b.K, nil))
		}
		if a.Op == OConst && a.K.Cmp(bi(2)) == 0 {
			return Pow2(b)
		}
		if b.Op == OConst && b.K.IsInt64() && b.K.Int64() < 10 {
			r := NumI(1)
			for i := int64(0); i < b.K.Int64(); i++ {
				r = Mul(r, a)
			}
			return r
		}
		return App("ipow", SInt, a, b)
	}
	a, b = e.coerce(a, b)
	if a.Sort.K == KBV {
		switch ex.Op {
		case "<":
			return BV2("bvult", a, b)
		case "<=":
			return Not(BV2("bvult", b, a))
		case ">":
			return BV2("bvult", b, a)
		case ">=":
			return Not(BV2("bvult", a, b))
		}
		e.fail(ex, "operator %s is not available on bit-vectors", ex.Op)
	}
	switch ex.Op {
	case "<":
		return Lt(a, b)
	case "<=":
		return Le(a, b)
	case ">":
		return Lt(b, a)
	case ">=":
		return Le(b, a)
	case "+":
		return Add(a, b)
	case "-":
		return Sub(a, b)
	case "*":
		return Mul(a, b)
	case "/":
		if b.Op == OConst && b.K.Sign() > 0 {
			return DivC(a, b.K)
		}
		return DivS(a, b)
	case "%":
		if b.Op == OConst && b.K.Sign() > 0 {
			return ModC(a, b.K)
		}
		return Sub(a, Mul(b, DivS(a, b)))
	}
	e.fail(ex, "operator %s", ex.Op)
	return nil
}

var c255 = pow2big(255)

func (e *Env) callE(ex *Expr) Val {
	x := e.x
	arg := func(i int) *Term {
		if i >= len(ex.Args) {
			e.fail(ex, "missing argument")
		}
		return e.term(ex.Args[i])
	}
	bv256 := func(t *Term) *Term {
		if t.Sort.K == KBV {
			return t
		}
		if t.Op == OConst && e.bv {
			return BVc(t.K, 256)
		}
		return t
	}
	two := func() (*Term, *Term, bool) {
		a, b := arg(0), arg(1)
		a, b = e.coerce(a, b)
		if e.bv {
			a, b = bv256(a), bv256(b)
		}
		return a, b, a.Sort.K == KBV
	}
	switch ex.Op {
	case "old":
		n := *e
		if e.old == nil {
			e.fail(ex, "old() is not available here")
		}
		n.cells, n.heap, n.ctr = e.old.cells, e.old.heap, e.old.ctr
		n.inOld = true
		return n.eval(ex.Args[0])
	case "ite":
		c := e.boolE(ex.Args[0])
		if c == True {
			return e.eval(ex.Args[1])
		}
		if c == False {
			return e.eval(ex.Args[2])
		}
		a, b := arg(1), arg(2)
		a, b = e.coerce(a, b)
		return Ite(c, a, b)
	case "min":
		a, b := arg(0), arg(1)
		return e.pick(Le(a, b), a, b)
	case "max":
		a, b := arg(0), arg(1)
		return e.pick(Le(b, a), a, b)
	case "pick":
		c := e.boolE(ex.Args[0])
		a, b := e.term(ex.Args[1]), e.term(ex.Args[2])
		a, b = e.coerce(a, b)
		return e.pick(c, a, b)
	case "abs":
		a := arg(0)
		return Ite(Le(NumI(0), a), a, Neg(a))
	case "b2i":
		c := e.boolE(ex.Args[0])
		return Ite(c, NumI(1), NumI(0))
	case "add256", "sub256", "mul256":
		a, b, bv := two()
		if bv {
			return BV2("bv"+ex.Op[:3], a, b)
		}
		switch ex.Op {
		case "add256":
			return ModC(Add(a, b), B256)
		case "sub256":
			return ModC(Sub(a, b), B256)
		}
		return ModC(Mul(a, b), B256)
	case "neg256":
		a := bv256(arg(0))
		if a.Sort.K == KBV {
			return BVNeg(a)
		}
		return ModC(Neg(a), B256)
	case "bnot":
		a := bv256(arg(0))
		if a.Sort.K == KBV {
			return BVNot(a)
		}
		return Sub(Num(bvMask(256)), a)
	case "band", "bor", "bxor":
		a, b, bv := two()
		if bv {
			return BV2("bv"+ex.Op[1:], a, b)
		}
		if ex.Op == "band" {
			if a.Op == OConst {
				a, b = b, a
			}
			if b.Op == OConst {
				k1 := new(big.Int).Add(b.K, bigOne)
				if k1.BitLen()-1 == int(k1.TrailingZeroBits()) {
					return ModC(a, k1)
				}
			}
		}
		if ex.Op == "bxor" {
			if b.Op == OConst && b.K.Cmp(bvMask(256)) == 0 {
				return Sub(b, a)
			}
			if a.Op == OConst && a.K.Cmp(bvMask(256)) == 0 {
				return Sub(a, b)
			}
		}
		if a.Id > b.Id {
			a, b = b, a
		}
		r := App(ex.Op+"256", SInt, a, b)
		tighten(r, bigZero, bvMask(256))
		if len(r.axioms) == 0 {
			switch ex.Op {
			case "band":
				r.axioms = append(r.axioms, Le(r, a), Le(r, b))
			case "bor":
				r.axioms = append(r.axioms, Le(a, r), Le(b, r), Le(r, Add(a, b)))
			}
		}
		return r
	case "shl", "shr", "sar":
		a, n := arg(0), arg(1)
		if e.bv {
			a = bv256(a)
		}
		if a.Sort.K == KBV {
			if n.Sort == SInt {
				if n.Op != OConst {
					e.fail(ex, "shift count")
				}
				n = BVc(n.K, 256)
			}
			n = BVZext(n, 256)
			o := map[string]string{"shl": "bvshl", "shr": "bvlshr", "sar": "bvashr"}[ex.Op]
			return BV2(o, a, n)
		}
		switch ex.Op {
		case "shl":
			if n.Op == OConst {
				if n.K.Cmp(bi(256)) >= 0 {
					return NumI(0)
				}
				return ModC(MulK(pow2big(uint(n.K.Int64())), a), B256)
			}
			return Ite(Lt(n, NumI(256)), ModC(Mul(a, Pow2(n)), B256), NumI(0))
		case "shr":
			if n.Op == OConst {
				if n.K.Cmp(bi(256)) >= 0 {
					return NumI(0)
				}
				return DivC(a, pow2big(uint(n.K.Int64())))
			}
			return Ite(Lt(n, NumI(256)), DivS(a, Pow2(n)), NumI(0))
		}
		s := Ite(Lt(a, Num(c255)), a, Sub(a, Num(B256)))
		if n.Op == OConst {
			if n.K.Cmp(bi(256)) >= 0 {
				return Ite(Lt(a, Num(c255)), NumI(0), Num(bvMask(256)))
			}
			return ModC(DivC(s, pow2big(uint(n.K.Int64()))), B256)
		}
		e.fail(ex, "symbolic arithmetic shift")
	case "ltp2": // a < 2^n
		a, n := arg(0), arg(1)
		if e.bv {
			a = bv256(a)
		}
		if a.Sort.K == KBV {
			if n.Sort == SInt {
				n = BVc(n.K, 256)
			}
			return Eq(BV2("bvlshr", a, BVZext(n, a.Sort.W)), BVi(0, a.Sort.W))
		}
		return Lt(a, Pow2(n))
	case "slt":
		a, b, bv := two()
		if bv {
			return BV2("bvslt", a, b)
		}
		sa := Ite(Lt(a, Num(c255)), a, Sub(a, Num(B256)))
		sb := Ite(Lt(b, Num(c255)), b, Sub(b, Num(B256)))
		return Lt(sa, sb)
	case "isneg":
		a := bv256(arg(0))
		if a.Sort.K == KBV {
			return BV2("bvslt", a, BVi(0, a.Sort.W))
		}
		return Le(Num(c255), a)
	case "sgn": // two's complement value
		a := arg(0)
		if a.Sort.K == KBV {
			e.fail(ex, "sgn on bit-vectors")
		}
		return Ite(Lt(a, Num(c255)), a, Sub(a, Num(B256)))
	case "word":
		a, i := arg(0), x.concrete(arg(1))
		if a.Sort.K == KBV {
			return BVWord(a, i)
		}
		return ModC(DivC(a, pow2big(uint(64*i))), B64)
	case "byte": // byte i (0 = most significant) of a 256-bit value
		a := arg(0)
		if it := arg(1); a.Sort.K != KBV && it.Sort == SInt && !isConcrete(it) {
			r := NumI(0)
			for k := 31; k >= 0; k-- {
				r = Ite(Eq(it, NumI(int64(k))), ModC(DivC(a, pow2big(uint(248-8*k))), bi(256)), r)
			}
			return r
		}
		i := x.concrete(arg(1))
		if a.Sort.K == KBV {
			return BVExtract(a, 255-8*i, 248-8*i)
		}
		return ModC(DivC(a, pow2big(uint(248-8*i))), bi(256))
	case "u256": // widen a machine word to 256 bits
		a := arg(0)
		if a.Sort.K == KBV {
			return BVZext(a, 256)
		}
		return a
	case "s256": // sign-extend a machine word to 256 bits
		a := arg(0)
		if a.Sort.K == KBV {
			return BVSext(a, 256)
		}
		return ModC(a, B256)
	case "lessone": // a-1 for a >= 1
		a := arg(0)
		if a.Sort.K == KBV {
			return BV2("bvsub", a, BVi(1, a.Sort.W))
		}
		return Sub(a, NumI(1))
	case "times8": // 8*a for small a >= 0
		a := arg(0)
		if a.Sort.K == KBV {
			return BV2("bvshl", a, BVi(3, a.Sort.W))
		}
		return MulK(bi(8), a)
	case "lo64":
		a := arg(0)
		if a.Sort.K == KBV {
			return BVExtract(a, 63, 0)
		}
		return ModC(a, B64)
	case "val":
		return e.sliceVal(ex, e.eval(ex.Args[0]))
	case "vals": // vals(s, a, b): value of s[a:b]
		v := e.eval(ex.Args[0])
		lo, hi := x.concrete(arg(1)), x.concrete(arg(2))
		if q, ok := v.(*SliceV); ok && !q.Heap {
			if hi > q.Len {
				hi = q.Len
			}
			if lo >= hi {
				return NumI(0)
			}
			return e.sliceVal(ex, &SliceV{P: q.P, Off: q.Off + lo, Len: hi - lo, Cap: hi - lo, El: q.El})
		}
		e.fail(ex, "vals of %T", v)
	case "len":
		v := e.eval(ex.Args[0])
		switch q := v.(type) {
		case *SliceV:
			if q.Heap {
				return q.HLen
			}
			return NumI(int64(q.Len))
		case *ArrayV:
			return NumI(int64(len(q.E)))
		}
		e.fail(ex, "len of %T", v)
	case "cap":
		v := e.eval(ex.Args[0])
		if q, ok := v.(*SliceV); ok {
			if q.Heap {
				return q.HCap
			}
			return NumI(int64(q.Cap))
		}
	case "deref":
		return e.deref(ex, e.eval(ex.Args[0]))
	case "addr": // address of a heap pointer / map as a number
		return e.term(ex.Args[0])
	case "isnil":
		return x.valEq(e.st, e.eval(ex.Args[0]), NilV{})
	case "U": // content of the 256-bit heap cell at an address
		v := e.eval(ex.Args[0])
		if q, ok := v.(*HPtr); ok {
			return x.hloadIn(e.st, e.heap, &HPtr{A: q.A, T: x.uintType(), Reg: q.Reg}).(*IntV).u()
		}
		a := arg(0)
		return x.hloadIn(e.st, e.heap, &HPtr{A: a, T: x.uintType()}).(*IntV).u()
	case "at": // at("T.f", addr): raw heap array access
		h := ex.Args[0].Op
		return Select(x.heapArr(e.heap, h), arg(1))
	case "elem": // elem(slice, i, "field")
	case "ctr":
		return e.ctr
	case "allocated":
		a := arg(0)
		return And(Le(NumI(1), a), Lt(a, e.ctr))
	case "strid":
		return e.term(ex.Args[0])
	case "poskey":
		return App("poskey", SInt, arg(0), arg(1))
	case "haskey": // haskey(map, key)
		m, ok := e.eval(ex.Args[0]).(*MapV)
		if !ok {
			e.fail(ex, "not a map")
		}
		if _, po := e.cells[m.Cell].(PoisonV); po {
			e.fail(ex, "depends on a value that the call changes")
		}
		return Select(mapBlk(e.cells, m.Cell).Has, arg(1))
	case "lz":
		return lzTerm(arg(0))
	}
	if d, ok := x.db.Defines[ex.Op]; ok {
		n := *e
		n.vars = map[string]Val{}
		if len(d.Params) != len(ex.Args) {
			e.fail(ex, "argument count of %s", ex.Op)
		}
		for i, p := range d.Params {
			// bound by value in the caller's state; memory reads inside use the current state
			n.vars[p] = e.eval(ex.Args[i])
		}
		n.frame = nil
		n.names = nil
		if strings.HasPrefix(d.Name, "_") {
			n.frame, n.names = e.frame, e.names
		}
		return n.eval(d.Body)
	}
	if fd, ok := x.db.Funs[ex.Op]; ok {
		if fd.Args != len(ex.Args) {
			e.fail(ex, "argument count of %s", ex.Op)
		}
		var as []*Term
		for i := range ex.Args {
			a := arg(i)
			if a.Sort == SBool {
				a = Ite(a, NumI(1), NumI(0))
			}
			as = append(as, a)
		}
		s := SInt
		if fd.Ret == "bool" {
			s = SBool
		}
		r := App(ex.Op, s, as...)
		if s == SInt && fd.Lo != nil {
			tighten(r, e.term(fd.Lo).K, e.term(fd.Hi).K)
		}
		return r
	}
	e.fail(ex, "unknown function %s", ex.Op)
	return nil
}

func (e *Env) sliceVal(ex *Expr, v Val) *Term {
	var els []Val
	switch q := v.(type) {
	case *SliceV:
		if q.Heap {
			e.fail(ex, "val of heap slice")
		}
		if q.P == nil {
			return NumI(0)
		}
		d := e.deref(ex, q.P)
		switch a := d.(type) {
		case *ArrayV:
			els = a.E[q.Off : q.Off+q.Len]
		case *IntV:
			for i := q.Off; i < q.Off+q.Len; i++ {
				els = append(els, a.w(i))
			}
		case PoisonV:
			e.fail(ex, "depends on a value that the call changes")
		}
	case *ArrayV:
		els = q.E
	case *PtrV:
		d := e.deref(ex, q)
		if a, ok := d.(*ArrayV); ok {
			els = a.E
		} else if iv, ok := d.(*IntV); ok {
			return iv.u()
		}
	case *IntV:
		return q.u()
	default:
		e.fail(ex, "val of %T", v)
	}
	var cs []*big.Int
	var ts []*Term
	for i, w := range els {
		cs = append(cs, pow2big(uint(64*i)))
		ts = append(ts, w.(*Term))
	}
	return LinComb(cs, ts)
}

// lzTerm: number of leading zeros of a 64-bit word, integer theory.
func lzTerm(a *Term) *Term {
	if a.Op == OConst {
		return NumI(int64(64 - a.K.BitLen()))
	}
	l := App("lz64", SInt, a)
	tighten(l, bigZero, bi(64))
	if len(l.axioms) == 0 {
		l.axioms = append(l.axioms, Eq(NumI(0), NumI(0)))
		P := Pow2(l)
		l.axioms = append(l.axioms,
			Implies(Lt(NumI(0), a), And(Lt(l, NumI(64)), Le(MulK(B64, NumI(1)), MulK(bi(2), Mul(a, P))), Lt(Mul(a, P), Num(B64)))),
			Implies(Eq(a, NumI(0)), Eq(l, NumI(64))))
	}
	return l
}

// pick is a conditional resolved by the current path condition when possible
func (e *Env) pick(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if e.st != nil && e.x != nil {
		if e.x.holdsQ(e.st, c) {
			return a
		}
		if e.x.holdsQ(e.st, Not(c)) {
			return b
		}
	}
	return Ite(c, a, b)
}
