package main

import (
	"fmt"
	"math/big"
	"strings"
)

func bvMask(w int) *big.Int { return new(big.Int).Sub(pow2big(uint(w)), bigOne) }

func BVc(k *big.Int, w int) *Term {
	kk := new(big.Int).And(k, bvMask(w))
	if k.Sign() < 0 {
		kk = new(big.Int).Mod(k, pow2big(uint(w)))
	}
	return intern(key(OBV, fmt.Sprintf("c%d", w), kk, nil), func() *Term {
		return &Term{Op: OBV, Sort: SBV(w), Name: "c", K: kk}
	})
}
func BVi(k int64, w int) *Term { return BVc(bi(k), w) }
func isBVc(t *Term) bool       { return t.Op == OBV && t.Name == "c" }

func bvn(name string, s *Sort, args ...*Term) *Term {
	return intern(key(OBV, name+":"+s.SMT(), nil, args), func() *Term {
		return &Term{Op: OBV, Sort: s, Name: name, Args: args}
	})
}

func signedOf(k *big.Int, w int) *big.Int {
	if k.Bit(w-1) == 1 {
		return new(big.Int).Sub(k, pow2big(uint(w)))
	}
	return k
}

// BV2 builds a binary bit-vector operation with constant folding.
func BV2(op string, a, b *Term) *Term {
	w := a.Sort.W
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("bv sort mismatch in %s: %s vs %s", op, a.Sort.SMT(), b.Sort.SMT()))
	}
	if isBVc(a) && isBVc(b) {
		x, y := a.K, b.K
		switch op {
		case "bvadd":
			return BVc(new(big.Int).Add(x, y), w)
		case "bvsub":
			return BVc(new(big.Int).Mod(new(big.Int).Sub(x, y), pow2big(uint(w))), w)
		case "bvmul":
			return BVc(new(big.Int).Mul(x, y), w)
		case "bvand":
			return BVc(new(big.Int).And(x, y), w)
		case "bvor":
			return BVc(new(big.Int).Or(x, y), w)
		case "bvxor":
			return BVc(new(big.Int).Xor(x, y), w)
		case "bvshl":
			if y.Cmp(bi(int64(w))) >= 0 {
				return BVi(0, w)
			}
			return BVc(new(big.Int).Lsh(x, uint(y.Int64())), w)
		case "bvlshr":
			if y.Cmp(bi(int64(w))) >= 0 {
				return BVi(0, w)
			}
			return BVc(new(big.Int).Rsh(x, uint(y.Int64())), w)
		case "bvashr":
			n := uint(w)
			if y.Cmp(bi(int64(w))) < 0 {
				n = uint(y.Int64())
			}
			return BVc(new(big.Int).Rsh(signedOf(x, w), n), w)
		case "bvudiv":
			if y.Sign() > 0 {
				return BVc(new(big.Int).Div(x, y), w)
			}
		case "bvurem":
			if y.Sign() > 0 {
				return BVc(new(big.Int).Mod(x, y), w)
			}
		case "bvsdiv":
			if y.Sign() != 0 {
				return BVc(new(big.Int).Quo(signedOf(x, w), signedOf(y, w)), w)
			}
		case "bvsrem":
			if y.Sign() != 0 {
				return BVc(new(big.Int).Rem(signedOf(x, w), signedOf(y, w)), w)
			}
		case "bvult":
			return Bool(x.Cmp(y) < 0)
		case "bvule":
			return Bool(x.Cmp(y) <= 0)
		case "bvslt":
			return Bool(signedOf(x, w).Cmp(signedOf(y, w)) < 0)
		case "bvsle":
			return Bool(signedOf(x, w).Cmp(signedOf(y, w)) <= 0)
		}
	}
	isZ := func(t *Term) bool { return isBVc(t) && t.K.Sign() == 0 }
	isOnes := func(t *Term) bool { return isBVc(t) && t.K.Cmp(bvMask(w)) == 0 }
	switch op {
	case "bvadd", "bvor", "bvxor":
		if isZ(a) {
			return b
		}
		if isZ(b) {
			return a
		}
	case "bvsub", "bvshl", "bvlshr", "bvashr":
		if isZ(b) {
			return a
		}
	case "bvand":
		if isZ(a) || isOnes(b) {
			return a
		}
		if isZ(b) || isOnes(a) {
			return b
		}
	case "bvult", "bvslt":
		if a == b {
			return False
		}
		return bvn(op, SBool, a, b)
	case "bvule", "bvsle":
		if a == b {
			return True
		}
		return bvn(op, SBool, a, b)
	}
	return bvn(op, a.Sort, a, b)
}
func BVNot(a *Term) *Term {
	if isBVc(a) {
		return BVc(new(big.Int).Xor(a.K, bvMask(a.Sort.W)), a.Sort.W)
	}
	return bvn("bvnot", a.Sort, a)
}
func BVNeg(a *Term) *Term { return BV2("bvsub", BVi(0, a.Sort.W), a) }
func BVExtract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == a.Sort.W-1 {
		return a
	}
	if isBVc(a) {
		return BVc(new(big.Int).Rsh(a.K, uint(lo)), hi-lo+1)
	}
	if a.Op == OBV && a.Name == "concat" {
		lw := a.Args[1].Sort.W
		if hi < lw {
			return BVExtract(a.Args[1], hi, lo)
		}
		if lo >= lw {
			return BVExtract(a.Args[0], hi-lw, lo-lw)
		}
	}
	if a.Op == OBV && strings.HasPrefix(a.Name, "(_ extract") {
		var h2, l2 int
		fmt.Sscanf(a.Name, "(_ extract %d %d)", &h2, &l2)
		return BVExtract(a.Args[0], hi+l2, lo+l2)
	}
	if a.Op == OBV && strings.HasPrefix(a.Name, "(_ zero_extend") {
		in := a.Args[0]
		if hi < in.Sort.W {
			return BVExtract(in, hi, lo)
		}
		if lo >= in.Sort.W {
			return BVi(0, hi-lo+1)
		}
	}
	return intern(key(OBV, fmt.Sprintf("extract%d.%d", hi, lo), nil, []*Term{a}), func() *Term {
		return &Term{Op: OBV, Sort: SBV(hi - lo + 1), Name: fmt.Sprintf("(_ extract %d %d)", hi, lo), Args: []*Term{a}}
	})
}
func BVZext(a *Term, w int) *Term {
	if a.Sort.W == w {
		return a
	}
	if a.Sort.W > w {
		return BVExtract(a, w-1, 0)
	}
	if isBVc(a) {
		return BVc(a.K, w)
	}
	return intern(key(OBV, fmt.Sprintf("zext%d", w), nil, []*Term{a}), func() *Term {
		return &Term{Op: OBV, Sort: SBV(w), Name: fmt.Sprintf("(_ zero_extend %d)", w-a.Sort.W), Args: []*Term{a}}
	})
}
func BVSext(a *Term, w int) *Term {
	if a.Sort.W >= w {
		return BVZext(a, w)
	}
	if isBVc(a) {
		return BVc(signedOf(a.K, a.Sort.W), w)
	}
	return intern(key(OBV, fmt.Sprintf("sext%d", w), nil, []*Term{a}), func() *Term {
		return &Term{Op: OBV, Sort: SBV(w), Name: fmt.Sprintf("(_ sign_extend %d)", w-a.Sort.W), Args: []*Term{a}}
	})
}
func BVConcat(parts ...*Term) *Term { // most significant first
	r := parts[0]
	for _, p := range parts[1:] {
		w := r.Sort.W + p.Sort.W
		if isBVc(r) && isBVc(p) {
			k := new(big.Int).Lsh(r.K, uint(p.Sort.W))
			r = BVc(k.Or(k, p.K), w)
			continue
		}
		r = bvn("concat", SBV(w), r, p)
	}
	return r
}
func BVWord(x *Term, i int) *Term { // 64-bit word i of a 256-bit vector
	return BVExtract(x, 64*i+63, 64*i)
}
