package main

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// BigV is the content of a math/big.Int: a mathematical integer. The methods
// of math/big are not verified; their documented meaning is assumed.
type BigV struct{ T *Term }

func isBigNamed(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Int" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "math/big"
}

func (x *Exec) bigVal(st *State, v Val, pos token.Pos) *Term {
	switch v.(type) {
	case *PtrV:
		if b, ok := x.load(st, v, pos).(*BigV); ok {
			return b.T
		}
	case NilV:
		x.oblige(st, "nil", "nil *big.Int", pos, False, nil)
		panic(pathEnd{})
	}
	bail("not a big.Int: %T", v)
	return nil
}

// bigCall: the methods of math/big.Int that the repository uses.
func (x *Exec) bigCall(st *State, ci ssa.CallInstruction, g *ssa.Function, k string, args []Val) (Val, bool) {
	pos := ci.Pos()
	if x.bv {
		return nil, false
	}
	use := func() { x.trusted["external "+k+" has its documented meaning"] = true }
	val := func(i int) *Term { return x.bigVal(st, args[i], pos) }
	set := func(t *Term) (Val, bool) {
		use()
		x.store(st, args[0], &BigV{T: t}, pos)
		return args[0], true
	}
	switch k {
	case "big.NewInt":
		use()
		id := x.newCell(st, "big:"+callID(ci), "big", g.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem(), &BigV{T: args[0].(*Term)})
		return &PtrV{Cell: id}, true
	case "big.Int.Add":
		return set(Add(val(1), val(2)))
	case "big.Int.Sub":
		return set(Sub(val(1), val(2)))
	case "big.Int.Mul":
		return set(Mul(val(1), val(2)))
	case "big.Int.Neg":
		return set(Neg(val(1)))
	case "big.Int.Set":
		return set(val(1))
	case "big.Int.Abs":
		v := val(1)
		return set(Ite(Lt(v, NumI(0)), Neg(v), v))
	case "big.Int.SetInt64", "big.Int.SetUint64":
		return set(args[1].(*Term))
	case "big.Int.Div": // Euclidean division
		n, d := val(1), val(2)
		x.oblige(st, "panic", "division by zero", pos, Ne(d, NumI(0)), nil)
		x.assume(st, Ne(d, NumI(0)))
		if x.holdsQ(st, Lt(NumI(0), d)) {
			if d.Op == OConst {
				return set(DivC(n, d.K))
			}
			return set(DivS(n, d))
		}
		q, r := Fresh("bq", SInt), Fresh("br", SInt)
		x.assume(st, Eq(n, Add(Mul(q, d), r)))
		x.assume(st, Le(NumI(0), r))
		x.assume(st, Lt(r, Ite(Lt(d, NumI(0)), Neg(d), d)))
		return set(q)
	case "big.Int.Sqrt":
		n := val(1)
		g := Le(NumI(0), n)
		x.oblige(st, "panic", "square root of a negative number", pos, g, nil)
		x.assume(st, g)
		r := FreshInt("bsqrt", bigZero, nil)
		r1 := Add(r, NumI(1))
		x.assume(st, Le(Mul(r, r), n))
		x.assume(st, Lt(n, Mul(r1, r1)))
		return set(r)
	case "big.Int.Sign":
		use()
		n := val(0)
		return Ite(Lt(n, NumI(0)), NumI(-1), Ite(Eq(n, NumI(0)), NumI(0), NumI(1))), true
	case "big.Int.Cmp":
		use()
		a, b := val(0), val(1)
		return Ite(Lt(a, b), NumI(-1), Ite(Eq(a, b), NumI(0), NumI(1))), true
	case "big.Int.SetBits":
		s, ok := args[1].(*SliceV)
		if !ok || s.Heap {
			return nil, false
		}
		arr := x.getPath(x.cellVal(st, s.P.Cell), s.P.Path)
		t := NumI(0)
		for i := s.Len - 1; i >= 0; i-- {
			t = Add(MulK(B64, t), x.getPath(arr, []int{s.Off + i}).(*Term))
		}
		// the number shares the array from here on: it must stay as it is
		st.setKonst(s.P.Cell)
		return set(t)
	case "big.Int.Bits":
		use()
		n := val(0)
		a := Ite(Lt(n, NumI(0)), Neg(n), n)
		el := g.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		s, b := x.freshBlock(st, "bits", el)
		s.HLen = FreshInt("bits.len", bigZero, pow2big(48))
		s.HCap = s.HLen
		for i := 0; i <= 5; i++ {
			// more than i words exactly when the number has them
			x.assume(st, Eq(b2t(Lt(NumI(int64(i)), s.HLen)), b2t(Le(Num(pow2big(uint(64*i))), a))))
			if i < 5 {
				x.assume(st, Implies(Lt(NumI(int64(i)), s.HLen), Eq(Select(b.F[0], NumI(int64(i))), ModC(DivC(a, pow2big(uint(64*i))), B64))))
			}
		}
		st.setKonst(s.P.Cell)
		return s, true
	}
	return nil, false
}

func b2t(c *Term) *Term { return Ite(c, NumI(1), NumI(0)) }

var _ = big.NewInt
