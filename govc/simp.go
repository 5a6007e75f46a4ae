package main

// Simplification under the path condition: an if-then-else whose condition is
// one of the assumed literals (or the negation of one) is replaced by the
// branch that applies. Every rewrite is an equality under the assumptions.

type iteRewriter struct {
	lits map[*Term]bool
	memo map[*Term]*Term
}

func simplifyUnder(pc []*Term, goal *Term) ([]*Term, *Term) {
	r := &iteRewriter{lits: map[*Term]bool{}, memo: map[*Term]*Term{}}
	for _, p := range pc {
		switch p.Op {
		case OLe, OEq, OGEq, ONot, OVar, OSel, OApp:
			r.lits[p] = true
		}
	}
	out := make([]*Term, 0, len(pc))
	changed := false
	for _, p := range pc {
		if r.lits[p] && !hasIte(p, r) {
			out = append(out, p)
			continue
		}
		q := r.rw(p)
		if q != p {
			changed = true
		}
		out = append(out, q)
	}
	g := goal
	if goal != nil {
		g = r.rw(goal)
	}
	if !changed && g == goal {
		return pc, goal
	}
	return out, g
}

func hasIte(t *Term, r *iteRewriter) bool { return r.rw(t) != t }

func (r *iteRewriter) rw(t *Term) *Term {
	if u, ok := r.memo[t]; ok {
		return u
	}
	u := r.rw1(t)
	r.memo[t] = u
	return u
}

func (r *iteRewriter) rw1(t *Term) *Term {
	args := func() ([]*Term, bool) {
		ch := false
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = r.rw(a)
			if as[i] != a {
				ch = true
			}
		}
		return as, ch
	}
	switch t.Op {
	case OIte:
		c := t.Args[0]
		if r.lits[c] {
			return r.rw(t.Args[1])
		}
		if r.lits[Not(c)] {
			return r.rw(t.Args[2])
		}
		if as, ch := args(); ch {
			return Ite(as[0], as[1], as[2])
		}
	case OPoly:
		ch := false
		for _, m := range t.P {
			for _, v := range m.Vs {
				if r.rw(v) != v {
					ch = true
				}
			}
		}
		if !ch {
			return t
		}
		s := NumI(0)
		for _, m := range t.P {
			p := Num(m.C)
			for _, v := range m.Vs {
				p = Mul(p, r.rw(v))
			}
			s = Add(s, p)
		}
		return s
	case ONot:
		if as, ch := args(); ch {
			return Not(as[0])
		}
	case OAnd:
		if as, ch := args(); ch {
			return And(as...)
		}
	case OOr:
		if as, ch := args(); ch {
			return Or(as...)
		}
	case OLe:
		if as, ch := args(); ch {
			return Le0(as[0])
		}
	case OEq:
		if as, ch := args(); ch {
			return Eq(as[0], NumI(0))
		}
	case OGEq:
		if as, ch := args(); ch {
			return Eq(as[0], as[1])
		}
	case OSel:
		if as, ch := args(); ch {
			return Select(as[0], as[1])
		}
	case OSto:
		if as, ch := args(); ch {
			return Store(as[0], as[1], as[2])
		}
	case OPow2:
		if as, ch := args(); ch {
			return Pow2(as[0])
		}
	case ODivC:
		if as, ch := args(); ch {
			return DivC(as[0], t.K)
		}
	case ODivS:
		if as, ch := args(); ch {
			return DivS(as[0], as[1])
		}
	case OForall:
		b := r.rw(t.Args[0])
		var tr [][]*Term
		ch := b != t.Args[0]
		for _, g := range t.Trig {
			var ng []*Term
			for _, x := range g {
				y := r.rw(x)
				if y.Op != x.Op {
					return t
				}
				if y != x {
					ch = true
				}
				ng = append(ng, y)
			}
			tr = append(tr, ng)
		}
		if ch {
			return Forall(t.Bound, b, tr)
		}
	}
	return t
}

var quantMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if v, ok := quantMemo[t]; ok {
		return v
	}
	r := t.Op == OForall
	for _, a := range t.Args {
		r = r || hasQuant(a)
	}
	for _, m := range t.P {
		for _, v := range m.Vs {
			r = r || hasQuant(v)
		}
	}
	quantMemo[t] = r
	return r
}

// groundOnly leaves out quantified assumptions (used for the path feasibility
// queries: fewer assumptions only keep more paths).
func groundOnly(pc []*Term) []*Term {
	var out []*Term
	for _, p := range pc {
		if !hasQuant(p) {
			out = append(out, p)
		}
	}
	return out
}
