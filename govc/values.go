package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type StructV struct {
	T types.Type
	F []Val
}
type ArrayV struct {
	El types.Type
	E  []Val
}

// IntV is the content of a uint256.Int: four words, or one 256-bit value.
type IntV struct {
	W [4]*Term
	U *Term
}
type PtrV struct { // pointer into an explicit cell
	Cell int
	Path []int
	Win  bool // window of an array: elements Off..Off+N-1 at Path
	Off  int
	N    int
}
type NilV struct{}
type HPtr struct { // pointer into the heap
	A    *Term
	T    types.Type // root pointee type
	Path []int
	RO   bool   // part of another object: must not be written
	Reg  string // region, U when empty
}
type SliceV struct {
	// explicit
	P        *PtrV // pointer to the array (nil for nil slice / heap)
	Off, Len int
	Cap      int
	// heap
	Heap             bool // elements in a backing array of unknown length: P is its cell
	HOff, HLen, HCap *Term
	El               types.Type
	Nil              bool
}
type TupleV struct{ E []Val }
type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
}
type StrV struct { // symbolic string: flattened concatenation
	Parts []StrPart
}
type StrPart struct {
	Lit  string
	Kind string // "" literal, "itoa", "opaque"
	T    *Term
}
type OpaqueV struct {
	T    types.Type
	Name string
}
type IfaceV struct {
	T types.Type
	V Val
}
type BuiltinGlobal struct{ G *ssa.Global } // address of a global

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case *StructV:
		y, ok := b.(*StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameVal(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case *IntV:
		y, ok := b.(*IntV)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		return x.u() == y.u()
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok || x.Cell != y.Cell || len(x.Path) != len(y.Path) || x.Win != y.Win || x.Off != y.Off {
			return false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
		return true
	case *BlockV:
		y, ok := b.(*BlockV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if x.F[i] != y.F[i] {
				return false
			}
		}
		return true
	case *BigV:
		y, ok := b.(*BigV)
		return ok && x.T == y.T
	case *FwdV:
		y, ok := b.(*FwdV)
		return ok && x.P.A == y.P.A
	case *HPtr:
		y, ok := b.(*HPtr)
		if !ok || x.A != y.A || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
		return true
	case *SliceV:
		y, ok := b.(*SliceV)
		if !ok {
			return false
		}
		if x.Heap != y.Heap {
			return false
		}
		if x.Heap {
			return sameVal(x.P, y.P) && x.HOff == y.HOff && x.HLen == y.HLen && x.HCap == y.HCap
		}
		if (x.P == nil) != (y.P == nil) {
			return false
		}
		return (x.P == nil || sameVal(x.P, y.P)) && x.Off == y.Off && x.Len == y.Len && x.Cap == y.Cap
	case NilV:
		_, ok := b.(NilV)
		return ok
	case *StrV:
		y, ok := b.(*StrV)
		if !ok || len(x.Parts) != len(y.Parts) {
			return false
		}
		for i := range x.Parts {
			if x.Parts[i] != y.Parts[i] {
				return false
			}
		}
		return true
	case *MapV:
		y, ok := b.(*MapV)
		return ok && x.Cell == y.Cell && x.G == y.G
	case *MapBlk:
		y, ok := b.(*MapBlk)
		if !ok || x.Has != y.Has || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if x.F[i] != y.F[i] {
				return false
			}
		}
		return true
	case *MObj:
		y, ok := b.(*MObj)
		return ok && x.Cell == y.Cell && x.Key == y.Key && x.Ver == y.Ver
	case *MInt:
		y, ok := b.(*MInt)
		return ok && x.Cell == y.Cell && x.Key == y.Key && x.Field == y.Field && x.Ver == y.Ver && len(x.Path) == len(y.Path)
	case *IterP:
		y, ok := b.(*IterP)
		return ok && x.Cell == y.Cell
	case PoisonV:
		_, ok := b.(PoisonV)
		return ok
	case *IfaceV:
		y, ok := b.(*IfaceV)
		return ok && sameVal(x.V, y.V)
	case *FuncV:
		y, ok := b.(*FuncV)
		return ok && x.Fn == y.Fn && len(x.Bind) == 0 && len(y.Bind) == 0
	}
	return a == b
}

func (v *IntV) u() *Term {
	if v.U == nil {
		if v.W[0].Sort == SInt {
			cs := []*big.Int{bigOne, B64, pow2big(128), pow2big(192)}
			v.U = LinComb(cs, v.W[:])
			if !v.U.hasB {
				tighten(v.U, bigZero, new(big.Int).Sub(B256, bigOne))
			}
		} else {
			v.U = joinWords(v.W)
		}
	}
	return v.U
}

func joinWords(w [4]*Term) *Term {
	// recognise the words of one value
	if w[0].Op == OBV && len(w[0].Args) == 1 {
		x := w[0].Args[0]
		if x.Sort.K == KBV && x.Sort.W == 256 {
			ok := true
			for i := 0; i < 4; i++ {
				if BVWord(x, i) != w[i] {
					ok = false
				}
			}
			if ok {
				return x
			}
		}
	}
	return BVConcat(w[3], w[2], w[1], w[0])
}

func (v *IntV) w(i int) *Term {
	if v.W[i] == nil {
		if v.U.Sort == SInt {
			x := DivC(v.U, pow2big(uint(64*i)))
			if i < 3 {
				x = ModC(x, B64)
			}
			v.W[i] = x
		} else {
			v.W[i] = BVWord(v.U, i)
		}
	}
	return v.W[i]
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

type untranslatable struct{ msg string }

func bail(f string, a ...interface{}) { panic(untranslatable{fmt.Sprintf(f, a...)}) }
