package main

// Hash-consed terms. Integer terms are kept in polynomial normal form over
// atoms; machine arithmetic is expressed by elimination (r = e - 2^64*div(e,2^64)),
// so that carries telescope by normalisation.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type SortKind int

const (
	KBool SortKind = iota
	KInt
	KBV
	KArr
)

type Sort struct {
	K  SortKind
	W  int
	El *Sort
}

var (
	SBool = &Sort{K: KBool}
	SInt  = &Sort{K: KInt}
)
var bvSorts = map[int]*Sort{}

func SBV(w int) *Sort {
	s := bvSorts[w]
	if s == nil {
		s = &Sort{K: KBV, W: w}
		bvSorts[w] = s
	}
	return s
}

var arrSorts = map[*Sort]*Sort{}

func SArr(el *Sort) *Sort {
	s := arrSorts[el]
	if s == nil {
		s = &Sort{K: KArr, El: el}
		arrSorts[el] = s
	}
	return s
}
func (s *Sort) SMT() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KInt:
		return "Int"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	}
	return "(Array Int " + s.El.SMT() + ")"
}

type Op int

const (
	OConst Op = iota // integer constant K
	OPoly            // polynomial
	OVar             // named variable of any sort
	OBoundVar
	OTrue
	OFalse
	ONot
	OAnd
	OOr
	OLe   // args[0] <= 0
	OEq   // args[0] == 0 (Int)
	OGEq  // generic equality (non Int)
	OIte  // cond, a, b
	OSel  // array, index
	OSto  // array, index, value
	OApp  // uninterpreted
	OPow2 // 2^e
	ODivC // floor(args[0] / K), K>0 constant
	ODivS // floor(args[0] / args[1])
	OForall
	OBV // bit-vector op with Name; K for constants
)

type Mono struct {
	C  *big.Int
	Vs []*Term // sorted by id, repeated for powers
}

type Term struct {
	Id   int
	Op   Op
	Sort *Sort
	Args []*Term
	K    *big.Int
	Name string
	P    []Mono // OPoly
	// quantifier
	Bound []*Term
	Trig  [][]*Term

	lo, hi *big.Int // for Int terms, nil = unbounded
	axioms []*Term  // defining facts, emitted when the atom occurs
	hasB   bool     // contains bound variables
	addrOf *AllocTag
	lazyAx func() []*Term
	axDone bool
}

// AllocTag: the (pointer valued) atom is < Base+Off where Base is an allocation
// counter atom.
type AllocTag struct {
	Base *Term
	Off  int64
}

var (
	table   = map[string]*Term{}
	nextId  = 1
	freshN  = map[string]int{}
	bigOne  = big.NewInt(1)
	bigZero = big.NewInt(0)
)

func bi(x int64) *big.Int { return big.NewInt(x) }
func pow2big(n uint) *big.Int {
	return new(big.Int).Lsh(bigOne, n)
}

var (
	B64    = pow2big(64)
	B256   = pow2big(256)
	maxU64 = new(big.Int).Sub(B64, bigOne)
)

func key(op Op, name string, k *big.Int, args []*Term) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|", op, name)
	if k != nil {
		sb.WriteString(k.Text(62))
	}
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.Id)
	}
	return sb.String()
}

func intern(k string, mk func() *Term) *Term {
	if t, ok := table[k]; ok {
		return t
	}
	t := mk()
	t.Id = nextId
	nextId++
	table[k] = t
	for _, a := range t.Args {
		if a.hasB {
			t.hasB = true
		}
	}
	for _, m := range t.P {
		for _, v := range m.Vs {
			if v.hasB {
				t.hasB = true
			}
		}
	}
	if t.Op == OBoundVar {
		t.hasB = true
	}
	if t.Op == OForall {
		t.hasB = false
		bs := map[*Term]bool{}
		for _, b := range t.Bound {
			bs[b] = true
		}
		t.hasB = freeBound(t.Args[0], bs)
	}
	return t
}

func freeBound(t *Term, bs map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] || !t.hasB {
			return false
		}
		seen[t] = true
		if t.Op == OBoundVar {
			return !bs[t]
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		for _, m := range t.P {
			for _, v := range m.Vs {
				if rec(v) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

var (
	True  = intern("T", func() *Term { return &Term{Op: OTrue, Sort: SBool} })
	False = intern("F", func() *Term { return &Term{Op: OFalse, Sort: SBool} })
)

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

func Num(k *big.Int) *Term {
	return intern(key(OConst, "", k, nil), func() *Term {
		kk := new(big.Int).Set(k)
		return &Term{Op: OConst, Sort: SInt, K: kk, lo: kk, hi: kk}
	})
}
func NumI(k int64) *Term { return Num(big.NewInt(k)) }

func Var(name string, s *Sort) *Term {
	return intern("V|"+name, func() *Term { return &Term{Op: OVar, Sort: s, Name: name} })
}

func Fresh(prefix string, s *Sort) *Term {
	prefix = sanitize(prefix)
	freshN[prefix]++
	return Var(fmt.Sprintf("%s!%d", prefix, freshN[prefix]), s)
}
func FreshInt(prefix string, lo, hi *big.Int) *Term {
	t := Fresh(prefix, SInt)
	t.lo, t.hi = lo, hi
	return t
}
func FreshU64(prefix string) *Term { return FreshInt(prefix, bigZero, maxU64) }

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func BoundVar(name string) *Term {
	freshN["?"+name]++
	n := fmt.Sprintf("%s?%d", sanitize(name), freshN["?"+name])
	return intern("BV|"+n, func() *Term { return &Term{Op: OBoundVar, Sort: SInt, Name: n} })
}

// ---------------------------------------------------------------- polynomials

func monos(t *Term) []Mono {
	switch t.Op {
	case OConst:
		if t.K.Sign() == 0 {
			return nil
		}
		return []Mono{{C: t.K}}
	case OPoly:
		return t.P
	}
	if t.Sort != SInt {
		panic("monos: not an Int: " + t.String())
	}
	return []Mono{{C: bigOne, Vs: []*Term{t}}}
}

func vsKey(vs []*Term) string {
	var sb strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&sb, "%d.", v.Id)
	}
	return sb.String()
}

func mkPoly(ms map[string]*Mono) *Term {
	var ks []string
	for k, m := range ms {
		if m.C.Sign() != 0 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return NumI(0)
	}
	if len(ks) == 1 {
		m := ms[ks[0]]
		if len(m.Vs) == 0 {
			return Num(m.C)
		}
		if len(m.Vs) == 1 && m.C.Cmp(bigOne) == 0 {
			return m.Vs[0]
		}
	}
	sort.Strings(ks)
	var sb strings.Builder
	sb.WriteString("P")
	for _, k := range ks {
		sb.WriteString(ms[k].C.Text(62))
		sb.WriteByte('*')
		sb.WriteString(k)
		sb.WriteByte('+')
	}
	return intern(sb.String(), func() *Term {
		t := &Term{Op: OPoly, Sort: SInt}
		for _, k := range ks {
			t.P = append(t.P, *ms[k])
		}
		t.lo, t.hi = polyBounds(t.P)
		return t
	})
}

func addB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	return new(big.Int).Add(a, b)
}

func monoVarBounds(vs []*Term) (lo, hi *big.Int) {
	lo, hi = bigOne, bigOne
	for i := 0; i < len(vs); {
		j := i
		for j < len(vs) && vs[j] == vs[i] {
			j++
		}
		n := j - i
		l, h := vs[i].lo, vs[i].hi
		// power n
		var pl, ph *big.Int
		if n == 1 {
			pl, ph = l, h
		} else {
			if l != nil && l.Sign() >= 0 {
				pl = new(big.Int).Exp(l, bi(int64(n)), nil)
				if h != nil {
					ph = new(big.Int).Exp(h, bi(int64(n)), nil)
				}
			} else if n%2 == 0 {
				pl = bigZero
				if l != nil && h != nil {
					m := new(big.Int).Abs(l)
					if m.Cmp(new(big.Int).Abs(h)) < 0 {
						m = new(big.Int).Abs(h)
					}
					ph = new(big.Int).Exp(m, bi(int64(n)), nil)
				}
			}
		}
		lo, hi = mulBounds(lo, hi, pl, ph)
		i = j
	}
	return
}

func mulBounds(al, ah, bl, bh *big.Int) (lo, hi *big.Int) {
	nonneg := func(x *big.Int) bool { return x != nil && x.Sign() >= 0 }
	if al != nil && ah != nil && bl != nil && bh != nil {
		c := []*big.Int{new(big.Int).Mul(al, bl), new(big.Int).Mul(al, bh), new(big.Int).Mul(ah, bl), new(big.Int).Mul(ah, bh)}
		lo, hi = c[0], c[0]
		for _, x := range c[1:] {
			if x.Cmp(lo) < 0 {
				lo = x
			}
			if x.Cmp(hi) > 0 {
				hi = x
			}
		}
		return
	}
	if nonneg(al) && nonneg(bl) {
		lo = new(big.Int).Mul(al, bl)
		if ah != nil && bh != nil {
			hi = new(big.Int).Mul(ah, bh)
		}
		return
	}
	return nil, nil
}

func polyBounds(ms []Mono) (lo, hi *big.Int) {
	lo, hi = bigZero, bigZero
	for _, m := range ms {
		l, h := monoVarBounds(m.Vs)
		if m.C.Sign() < 0 {
			l, h = h, l
		}
		if l != nil {
			l = new(big.Int).Mul(l, m.C)
		}
		if h != nil {
			h = new(big.Int).Mul(h, m.C)
		}
		lo, hi = addB(lo, l), addB(hi, h)
	}
	return
}

func addMono(acc map[string]*Mono, c *big.Int, vs []*Term) {
	k := vsKey(vs)
	if m, ok := acc[k]; ok {
		m.C = new(big.Int).Add(m.C, c)
	} else {
		acc[k] = &Mono{C: c, Vs: vs}
	}
}

func tighten(t *Term, lo, hi *big.Int) *Term {
	if t.Op == OConst {
		return t
	}
	if lo != nil && (t.lo == nil || lo.Cmp(t.lo) > 0) {
		t.lo = lo
	}
	if hi != nil && (t.hi == nil || hi.Cmp(t.hi) < 0) {
		t.hi = hi
	}
	return t
}

func LinComb(cs []*big.Int, ts []*Term) *Term {
	acc := map[string]*Mono{}
	for i, t := range ts {
		if cs[i].Sign() == 0 {
			continue
		}
		for _, m := range monos(t) {
			addMono(acc, new(big.Int).Mul(cs[i], m.C), m.Vs)
		}
	}
	r := mkPoly(acc)
	// compositional bounds
	lo, hi := bigZero, bigZero
	for i, t := range ts {
		l, h := t.lo, t.hi
		if cs[i].Sign() < 0 {
			l, h = h, l
		}
		if cs[i].Sign() == 0 {
			continue
		}
		if l != nil {
			l = new(big.Int).Mul(l, cs[i])
		}
		if h != nil {
			h = new(big.Int).Mul(h, cs[i])
		}
		lo, hi = addB(lo, l), addB(hi, h)
	}
	if !r.hasB {
		tighten(r, lo, hi)
	}
	return r
}

var bigM1 = big.NewInt(-1)

func Add(a, b *Term) *Term { return LinComb([]*big.Int{bigOne, bigOne}, []*Term{a, b}) }
func Sub(a, b *Term) *Term { return LinComb([]*big.Int{bigOne, bigM1}, []*Term{a, b}) }
func Neg(a *Term) *Term    { return LinComb([]*big.Int{bigM1}, []*Term{a}) }
func AddI(a *Term, k int64) *Term {
	return Add(a, NumI(k))
}
func MulK(k *big.Int, a *Term) *Term { return LinComb([]*big.Int{k}, []*Term{a}) }

func mergeVs(a, b []*Term) (vs []*Term, scale *big.Int) {
	scale = bigOne
	var pow *Term
	add := func(xs []*Term) {
		for _, v := range xs {
			if v.Op == OPow2 {
				if v.Args[0].lo == nil || v.Args[0].lo.Sign() < 0 {
					vs = append(vs, v)
				} else if pow == nil {
					pow = v
				} else {
					p := Pow2(Add(pow.Args[0], v.Args[0]))
					if p.Op == OConst {
						scale = new(big.Int).Mul(scale, p.K)
						pow = nil
					} else if p.Op == OPow2 {
						pow = p
					} else { // const * pow2
						scale = new(big.Int).Mul(scale, p.P[0].C)
						pow = p.P[0].Vs[0]
					}
				}
			} else {
				vs = append(vs, v)
			}
		}
	}
	add(a)
	add(b)
	if pow != nil {
		vs = append(vs, pow)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Id < vs[j].Id })
	return
}

func Mul(a, b *Term) *Term {
	if a.Op == OConst {
		return MulK(a.K, b)
	}
	if b.Op == OConst {
		return MulK(b.K, a)
	}
	acc := map[string]*Mono{}
	for _, x := range monos(a) {
		for _, y := range monos(b) {
			vs, sc := mergeVs(x.Vs, y.Vs)
			c := new(big.Int).Mul(x.C, y.C)
			c.Mul(c, sc)
			addMono(acc, c, vs)
		}
	}
	r := mkPoly(acc)
	lo, hi := mulBounds(a.lo, a.hi, b.lo, b.hi)
	if !r.hasB {
		tighten(r, lo, hi)
	}
	return r
}

// Pow2(e) with constant parts of the exponent pulled out.
func Pow2(e *Term) *Term {
	if e.Op == OConst {
		if e.K.Sign() < 0 {
			// undefined: keep opaque
			return App("pow2neg", SInt, e)
		}
		return Num(pow2big(uint(e.K.Int64())))
	}
	// the atom 2^base always has an exponent that is either known to be
	// non-negative with minimum 0, or not known to be non-negative at all
	k := bigZero
	base := e
	if e.lo != nil && e.lo.Sign() > 0 {
		k = e.lo
		base = Sub(e, Num(k))
	}
	p := intern(key(OPow2, "", nil, []*Term{base}), func() *Term {
		t := &Term{Op: OPow2, Sort: SInt, Args: []*Term{base}}
		t.lo = bigOne
		if base.hi != nil && base.hi.Cmp(bi(2000)) < 0 && base.hi.Sign() >= 0 {
			t.hi = pow2big(uint(base.hi.Int64()))
		}
		if base.lo != nil && base.lo.Sign() > 0 {
			t.lo = pow2big(uint(base.lo.Int64()))
		} else if base.lo == nil || base.lo.Sign() < 0 {
			t.lo = nil // exponent possibly negative: nothing known here
			t.lo = bigZero
		}
		return t
	})
	if k.Sign() == 0 {
		return p
	}
	return MulK(pow2big(uint(k.Int64())), p)
}

// splitByC splits p = c*q + r, coefficient-wise, symmetric remainders.
func splitByC(p *Term, c *big.Int) (q, r *Term) {
	qa, ra := map[string]*Mono{}, map[string]*Mono{}
	half := new(big.Int).Rsh(c, 1)
	for _, m := range monos(p) {
		b := new(big.Int).Mod(m.C, c)
		if len(m.Vs) > 0 && b.Cmp(half) > 0 {
			b.Sub(b, c)
		}
		a := new(big.Int).Sub(m.C, b)
		a.Div(a, c)
		if a.Sign() != 0 {
			addMono(qa, a, m.Vs)
		}
		if b.Sign() != 0 {
			addMono(ra, b, m.Vs)
		}
	}
	return mkPoly(qa), mkPoly(ra)
}

func divFloor(a, b *big.Int) *big.Int {
	q, m := new(big.Int).DivMod(a, b, new(big.Int))
	_ = m
	return q // Euclidean; b>0 so floor
}

// DivC = floor(p/c), c > 0
func DivC(p *Term, c *big.Int) *Term {
	if c.Sign() <= 0 {
		panic("DivC")
	}
	if c.Cmp(bigOne) == 0 {
		return p
	}
	if p.Op == OConst {
		return Num(divFloor(p.K, c))
	}
	// whole-term bounds first (keeps compositional bounds)
	if p.lo != nil && p.hi != nil {
		l, h := divFloor(p.lo, c), divFloor(p.hi, c)
		if l.Cmp(h) == 0 {
			return Num(l)
		}
	}
	q, r := splitByC(p, c)
	if q.Op == OConst && q.K.Sign() == 0 {
		r = p
	}
	if r.lo != nil && r.hi != nil {
		l, h := divFloor(r.lo, c), divFloor(r.hi, c)
		if l.Cmp(h) == 0 {
			return Add(q, Num(l))
		}
	}
	// common factor cancel: (g*x)/(g*c')
	g := new(big.Int).Set(c)
	for _, m := range monos(r) {
		g.GCD(nil, nil, g, new(big.Int).Abs(m.C))
	}
	if g.Cmp(bigOne) > 0 {
		acc := map[string]*Mono{}
		for _, m := range monos(r) {
			addMono(acc, new(big.Int).Div(m.C, g), m.Vs)
		}
		r2 := mkPoly(acc)
		if r2.Op == OPoly {
			tightenDiv(r2, r, g)
		}
		return Add(q, DivC(r2, new(big.Int).Div(c, g)))
	}
	// nested: div(div(x,a),c) = div(x,a*c)
	if r.Op == ODivC {
		return Add(q, DivC(r.Args[0], new(big.Int).Mul(r.K, c)))
	}
	d := intern(key(ODivC, "", c, []*Term{r}), func() *Term {
		t := &Term{Op: ODivC, Sort: SInt, Args: []*Term{r}, K: c}
		return t
	})
	if r.lo != nil {
		tighten(d, divFloor(r.lo, c), nil)
	}
	if r.hi != nil {
		tighten(d, nil, divFloor(r.hi, c))
	}
	if len(d.axioms) == 0 && !d.hasB {
		rem := LinComb([]*big.Int{bigOne, new(big.Int).Neg(c)}, []*Term{r, d})
		d.axioms = append(d.axioms, leRaw(Neg(rem)), leRaw(Sub(rem, Num(new(big.Int).Sub(c, bigOne)))))
		tighten(rem, bigZero, new(big.Int).Sub(c, bigOne))
	}
	res := Add(q, d)
	if p.lo != nil {
		tighten(res, divFloor(p.lo, c), nil)
	}
	if p.hi != nil {
		tighten(res, nil, divFloor(p.hi, c))
	}
	return res
}

func tightenDiv(r2, r *Term, g *big.Int) {
	var l, h *big.Int
	if r.lo != nil {
		l = new(big.Int).Neg(divFloor(new(big.Int).Neg(r.lo), g))
	}
	if r.hi != nil {
		h = divFloor(r.hi, g)
	}
	tighten(r2, l, h)
}

func ModC(p *Term, c *big.Int) *Term {
	if p.Op == OConst {
		return Num(new(big.Int).Mod(p.K, c))
	}
	if p.lo != nil && p.hi != nil && p.lo.Sign() >= 0 && p.hi.Cmp(c) < 0 {
		return p
	}
	q, r := splitByC(p, c)
	if q.Op == OConst && q.K.Sign() == 0 {
		r = p
	}
	d := DivC(r, c)
	res := LinComb([]*big.Int{bigOne, new(big.Int).Neg(c)}, []*Term{r, d})
	if !res.hasB {
		tighten(res, bigZero, new(big.Int).Sub(c, bigOne))
	}
	return res
}

// ModSym reduces p modulo c into the signed range [-c/2, c/2).
func ModSigned(p *Term, c *big.Int) *Term {
	half := new(big.Int).Rsh(c, 1)
	if p.lo != nil && p.hi != nil && p.lo.Cmp(new(big.Int).Neg(half)) >= 0 && p.hi.Cmp(half) < 0 {
		return p
	}
	return Sub(ModC(Add(p, Num(half)), c), Num(half))
}

// DivS = floor(n/d) for symbolic d (meaningful when d != 0)
func DivS(n, d *Term) *Term {
	if d.Op == OConst {
		if d.K.Sign() > 0 {
			return DivC(n, d.K)
		}
		if d.K.Sign() < 0 {
			return DivC(Neg(n), new(big.Int).Neg(d.K))
		}
	}
	if n.Op == OConst && n.K.Sign() == 0 {
		return n
	}
	if n == d {
		// only valid for d != 0; DivS is used under d>0
	}
	t := intern(key(ODivS, "", nil, []*Term{n, d}), func() *Term {
		return &Term{Op: ODivS, Sort: SInt, Args: []*Term{n, d}}
	})
	if len(t.axioms) == 0 && !t.hasB {
		dq := Mul(d, t)
		pos := Le(NumI(1), d)
		t.axioms = append(t.axioms,
			Implies(pos, And(Le(dq, n), Lt(n, Add(dq, d)))),
			Implies(And(pos, Le(NumI(0), n)), And(Le(NumI(0), t), Le(t, n))),
		)
		if n.lo != nil && n.lo.Sign() >= 0 && d.lo != nil && d.lo.Sign() > 0 {
			tighten(t, divFloor(n.lo, bigMax(d.hi, d.lo, n.hi)), n.hi)
			if n.hi != nil {
				tighten(t, nil, divFloor(n.hi, d.lo))
			}
		}
	}
	return t
}

func bigMax(hi, lo, nhi *big.Int) *big.Int {
	if hi != nil {
		return hi
	}
	if nhi != nil {
		return new(big.Int).Add(nhi, bigOne)
	}
	return new(big.Int).Add(B256, B256)
}

// ---------------------------------------------------------------- booleans

func leRaw(p *Term) *Term { // p <= 0 with gcd tightening, no evaluation
	if p.Op == OConst {
		return Bool(p.K.Sign() <= 0)
	}
	g := new(big.Int)
	k := bigZero
	for _, m := range monos(p) {
		if len(m.Vs) == 0 {
			k = m.C
			continue
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(m.C))
	}
	if g.Cmp(bigOne) > 0 {
		// g*q + k <= 0  <=> q <= floor(-k/g)
		acc := map[string]*Mono{}
		for _, m := range monos(p) {
			if len(m.Vs) > 0 {
				addMono(acc, new(big.Int).Div(m.C, g), m.Vs)
			}
		}
		nk := divFloor(new(big.Int).Neg(k), g)
		if nk.Sign() != 0 {
			addMono(acc, new(big.Int).Neg(nk), nil)
		}
		p = mkPoly(acc)
	}
	return intern(key(OLe, "", nil, []*Term{p}), func() *Term {
		return &Term{Op: OLe, Sort: SBool, Args: []*Term{p}}
	})
}

func Le0(p *Term) *Term {
	if p.hi != nil && p.hi.Sign() <= 0 {
		return True
	}
	if p.lo != nil && p.lo.Sign() > 0 {
		return False
	}
	return leRaw(p)
}
func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Le0(AddI(Sub(a, b), 1)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort == SInt {
		if b.Sort != SInt {
			panic("Eq sorts: " + a.String() + " vs " + b.String())
		}
		p := Sub(a, b)
		if p.Op == OConst {
			return Bool(p.K.Sign() == 0)
		}
		if p.lo != nil && p.lo.Sign() > 0 || p.hi != nil && p.hi.Sign() < 0 {
			return False
		}
		// normalise sign & gcd
		g := new(big.Int)
		k := bigZero
		for _, m := range monos(p) {
			if len(m.Vs) == 0 {
				k = m.C
				continue
			}
			g.GCD(nil, nil, g, new(big.Int).Abs(m.C))
		}
		if g.Cmp(bigOne) > 0 {
			if new(big.Int).Mod(k, g).Sign() != 0 {
				return False
			}
		}
		first := monos(p)[0].C
		if len(monos(p)[0].Vs) == 0 {
			first = monos(p)[1].C
		}
		if g.Cmp(bigOne) > 0 || first.Sign() < 0 {
			if first.Sign() < 0 {
				g = new(big.Int).Neg(g)
			}
			acc := map[string]*Mono{}
			for _, m := range monos(p) {
				addMono(acc, new(big.Int).Quo(m.C, g), m.Vs)
			}
			p = mkPoly(acc)
		}
		return intern(key(OEq, "", nil, []*Term{p}), func() *Term {
			return &Term{Op: OEq, Sort: SBool, Args: []*Term{p}}
		})
	}
	if a.Sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	}
	if a.Sort.K == KBV && a.Op == OBV && b.Op == OBV && a.Name == "c" && b.Name == "c" {
		return Bool(a.K.Cmp(b.K) == 0)
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sort mismatch %s:%s vs %s:%s", a, a.Sort.SMT(), b, b.Sort.SMT()))
	}
	if a.Id > b.Id {
		a, b = b, a
	}
	return intern(key(OGEq, "", nil, []*Term{a, b}), func() *Term {
		return &Term{Op: OGEq, Sort: SBool, Args: []*Term{a, b}}
	})
}
func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Not(a *Term) *Term {
	switch a.Op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.Args[0]
	case OLe: // !(p<=0) == p>=1 == 1-p<=0
		return Le0(AddI(Neg(a.Args[0]), 1))
	}
	return intern(key(ONot, "", nil, []*Term{a}), func() *Term {
		return &Term{Op: ONot, Sort: SBool, Args: []*Term{a}}
	})
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == False {
			return false
		}
		if t == True || seen[t] {
			return true
		}
		if t.Op == OAnd {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	for _, t := range out {
		if seen[Not(t)] {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(key(OAnd, "", nil, out), func() *Term {
		return &Term{Op: OAnd, Sort: SBool, Args: out}
	})
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == True {
			return false
		}
		if t == False || seen[t] {
			return true
		}
		if t.Op == OOr {
			for _, x := range t.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return True
		}
	}
	for _, t := range out {
		if seen[Not(t)] {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(key(OOr, "", nil, out), func() *Term {
		return &Term{Op: OOr, Sort: SBool, Args: out}
	})
}
func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
		return And(Implies(c, a), Or(c, b))
	}
	if c.Op == ONot {
		c, a, b = c.Args[0], b, a
	}
	t := intern(key(OIte, "", nil, []*Term{c, a, b}), func() *Term {
		return &Term{Op: OIte, Sort: a.Sort, Args: []*Term{c, a, b}}
	})
	if a.Sort == SInt && !t.hasB {
		if a.lo != nil && b.lo != nil {
			l := a.lo
			if b.lo.Cmp(l) < 0 {
				l = b.lo
			}
			tighten(t, l, nil)
		}
		if a.hi != nil && b.hi != nil {
			h := a.hi
			if b.hi.Cmp(h) > 0 {
				h = b.hi
			}
			tighten(t, nil, h)
		}
	}
	return t
}

func App(name string, s *Sort, args ...*Term) *Term {
	return intern(key(OApp, name+":"+s.SMT(), nil, args), func() *Term {
		return &Term{Op: OApp, Sort: s, Name: name, Args: args}
	})
}

func Forall(bound []*Term, body *Term, trig [][]*Term) *Term {
	if body == True {
		return True
	}
	if len(bound) == 0 {
		return body
	}
	all := append([]*Term{body}, bound...)
	n := ""
	for _, tr := range trig {
		n += "{"
		for _, x := range tr {
			n += fmt.Sprintf("%d,", x.Id)
		}
		n += "}"
	}
	return intern(key(OForall, n, nil, all), func() *Term {
		return &Term{Op: OForall, Sort: SBool, Args: []*Term{body}, Bound: bound, Trig: trig}
	})
}

// ---------------------------------------------------------------- arrays

// distinct reports whether two address/index terms are certainly different.
func distinct(a, b *Term) bool {
	d := Sub(a, b)
	if d.Op == OConst {
		return d.K.Sign() != 0
	}
	if d.lo != nil && d.lo.Sign() > 0 || d.hi != nil && d.hi.Sign() < 0 {
		return true
	}
	return allocLess(a, b) || allocLess(b, a)
}

// allocSplit: t = base + k where base is an allocation counter
func allocSplit(t *Term) (base *Term, k int64, ok bool) {
	ms := monos(t)
	for _, m := range ms {
		if len(m.Vs) == 0 {
			if !m.C.IsInt64() {
				return nil, 0, false
			}
			k = m.C.Int64()
			continue
		}
		if base != nil || len(m.Vs) != 1 || m.C.Cmp(bigOne) != 0 {
			return nil, 0, false
		}
		base = m.Vs[0]
	}
	if base == nil {
		return nil, 0, false
	}
	_, isCtr := allocIndex[base]
	return base, k, isCtr
}

// allocation counters in creation order; allocIndex[c] = position; each is >=
// the previous one + the offset recorded in allocGE.
var allocIndex = map[*Term]int{}
var allocParent = map[*Term]AllocTag{} // counter >= parent.Base+parent.Off

func ctrGE(c *Term, ck int64, d *Term, dk int64) bool { // c+ck >= d+dk certainly
	for {
		if c == d {
			return ck >= dk
		}
		p, ok := allocParent[c]
		if !ok {
			return false
		}
		// c >= p.Base+p.Off
		ck += p.Off
		c = p.Base
	}
}

func allocLess(a, b *Term) bool {
	// a is a tagged atom with a < tag.Base+tag.Off, b = ctr + k, ctr+k >= tag.Base+tag.Off
	bb, bk, ok := allocSplit(b)
	if !ok {
		return false
	}
	if a.Op == OConst && a.K.Sign() <= 0 {
		return true // addresses handed out are > 0
	}
	if a.addrOf != nil {
		return ctrGE(bb, bk, a.addrOf.Base, a.addrOf.Off)
	}
	if ab, ak, ok := allocSplit(a); ok {
		// a = ab+ak < bb+bk ?
		return ctrGE(bb, bk, ab, ak+1)
	}
	return false
}

func Select(a, i *Term) *Term {
	for a.Op == OSto {
		if a.Args[1] == i {
			return a.Args[2]
		}
		if !distinct(a.Args[1], i) {
			break
		}
		a = a.Args[0]
	}
	if a.Op == OIte {
		// push select into ite only if it simplifies on both sides
		x, y := Select(a.Args[1], i), Select(a.Args[2], i)
		return Ite(a.Args[0], x, y)
	}
	return intern(key(OSel, "", nil, []*Term{a, i}), func() *Term {
		return &Term{Op: OSel, Sort: a.Sort.El, Args: []*Term{a, i}}
	})
}

func Store(a, i, v *Term) *Term {
	if a.Op == OSto && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == OSel && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	if v.Sort != a.Sort.El {
		panic("Store sort")
	}
	return intern(key(OSto, "", nil, []*Term{a, i, v}), func() *Term {
		return &Term{Op: OSto, Sort: a.Sort, Args: []*Term{a, i, v}}
	})
}

// ---------------------------------------------------------------- printing

func (t *Term) String() string { return tstr(t, 0) }

func tstr(t *Term, d int) string {
	if d > 12 {
		return fmt.Sprintf("#%d", t.Id)
	}
	args := func() string {
		var s []string
		for _, a := range t.Args {
			s = append(s, tstr(a, d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case OConst:
		return prettyNum(t.K)
	case OPoly:
		var s []string
		for _, m := range t.P {
			var f []string
			if m.C.Cmp(bigOne) != 0 || len(m.Vs) == 0 {
				f = append(f, prettyNum(m.C))
			}
			for _, v := range m.Vs {
				f = append(f, tstr(v, d+1))
			}
			s = append(s, strings.Join(f, "*"))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case OVar, OBoundVar:
		return t.Name
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case ONot:
		return "!" + args()
	case OAnd:
		return "and(" + args() + ")"
	case OOr:
		return "or(" + args() + ")"
	case OLe:
		return "[" + args() + " <= 0]"
	case OEq:
		return "[" + args() + " == 0]"
	case OGEq:
		return "eq(" + args() + ")"
	case OIte:
		return "ite(" + args() + ")"
	case OSel:
		return "sel(" + args() + ")"
	case OSto:
		return "sto(" + args() + ")"
	case OApp:
		return t.Name + "(" + args() + ")"
	case OPow2:
		return "2^(" + args() + ")"
	case ODivC:
		return "div(" + args() + ", " + prettyNum(t.K) + ")"
	case ODivS:
		return "div(" + args() + ")"
	case OForall:
		return "forall(" + args() + ")"
	case OBV:
		if t.Name == "c" {
			return fmt.Sprintf("0x%s'%d", t.K.Text(16), t.Sort.W)
		}
		return t.Name + "(" + args() + ")"
	}
	return "?"
}

func prettyNum(k *big.Int) string {
	a := new(big.Int).Abs(k)
	if a.BitLen() > 40 {
		if tz := a.TrailingZeroBits(); int(tz) == a.BitLen()-1 {
			s := fmt.Sprintf("2^%d", tz)
			if k.Sign() < 0 {
				s = "-" + s
			}
			return s
		}
		b := new(big.Int).Add(a, bigOne)
		if tz := b.TrailingZeroBits(); int(tz) == b.BitLen()-1 {
			s := fmt.Sprintf("(2^%d-1)", tz)
			if k.Sign() < 0 {
				s = "-" + s
			}
			return s
		}
	}
	return k.String()
}
