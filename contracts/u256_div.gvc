// division by a normalised word (Moeller-Granlund) and Knuth's algorithm D
define _recip(v, d) = v*d + d*W <= W*W - 1 && W*W - 1 < v*d + d*W + d

func uint256.reciprocal2by1(d) (r)
  requires d >= 2^63
  ensures r*d + d*W <= W*W - 1
  ensures W*W - 1 < r*d + d*W + d

func uint256.udivrem2by1(uh, ul, d, reciprocal) (quot, rem)
  requires d >= 2^63
  requires uh < d
  requires reciprocal*d + d*W <= W*W - 1
  requires W*W - 1 < reciprocal*d + d*W + d
  ensures quot*d + rem == uh*W + ul
  ensures rem < d
  exit {
    let v = reciprocal
    let p = v*uh + uh*W + ul
    let k = W*W - v*d - d*W
    use mul_le2(uh, d-1, W+v, W+v)
    assert p < W*W
    name q1 = p / W
    name q0 = p % W
    assert p == W*q1 + q0 && 0 <= q0 && q0 < W && 0 <= q1 && q1 < W
    assert ql == q0
    let rt = uh*W + ul - (q1+1)*d
    assert [ident] W*rt == uh*k + ul*(W-d) + q0*d - d*W by { assert d*p == d*W*q1 + d*q0 }
    use mul_nonneg(uh, k)
    use mul_nonneg(ul, W-d)
    use mul_nonneg(q0, d)
    assert [lo] W*(rt + d) >= 0
    assert [lo2] rt >= 0 - d
    use mul_lt(q0, W, W-d)
    assert [lo3] W*(rt + W) > W*q0
    assert [lo4] rt + W > q0
    use mul_le2(uh, d-1, k, d)
    use mul_le2(ul, W-1, W-d, W-d)
    assert [up] W*rt <= (W-d)*(W-d) + q0*d - W
    when q0 <= W-d { use mul_le(q0, W-d, d); assert [c1] W*rt < W*(W-d); assert rt < W-d }
    when q0 > W-d { use mul_le(W-d, q0, W-d); assert [c2] W*rt < W*q0; assert rt < q0 }
  }

func uint256.udivremKnuth(quot, u, d)
  opt noalias
   cases quot=4, u=3, d=2
   cases quot=4, u=4, d=2
   cases quot=4, u=5, d=2
   cases quot=4, u=4, d=3
   cases quot=4, u=5, d=3
   cases quot=4, u=5, d=4
   cases quot=5, u=3, d=2
   cases quot=5, u=4, d=2
   cases quot=5, u=5, d=2
   cases quot=5, u=6, d=2
   cases quot=5, u=7, d=2
   cases quot=5, u=4, d=3
   cases quot=5, u=5, d=3
   cases quot=5, u=6, d=3
   cases quot=5, u=7, d=3
   cases quot=5, u=8, d=3
   cases quot=5, u=5, d=4
   cases quot=5, u=6, d=4
   cases quot=5, u=7, d=4
   cases quot=5, u=8, d=4
   cases quot=5, u=9, d=4
   cases quot=8, u=3, d=2
   cases quot=8, u=4, d=2
   cases quot=8, u=5, d=2
   cases quot=8, u=6, d=2
   cases quot=8, u=7, d=2
   cases quot=8, u=8, d=2
   cases quot=8, u=9, d=2
   cases quot=8, u=4, d=3
   cases quot=8, u=5, d=3
   cases quot=8, u=6, d=3
   cases quot=8, u=7, d=3
   cases quot=8, u=8, d=3
   cases quot=8, u=9, d=3
   cases quot=8, u=5, d=4
   cases quot=8, u=6, d=4
   cases quot=8, u=7, d=4
   cases quot=8, u=8, d=4
   cases quot=8, u=9, d=4
  requires d[len(d)-1] >= 2^63
  requires val(quot) == 0
  requires val(u) < val(d) * 2^(64*(len(u)-len(d)))
  modifies elems(quot), elems(u)
  ensures old(val(u)) == val(quot)*val(d) + val(u)
  ensures val(u) < val(d)
  at uint256.udivrem2by1 { name qh0 = $1 }
  before uint256.subMulTo {
    let n = len(d)
    let D = val(d)
    let Dr = vals(d, 0, n-2)
    let B1 = 2^(64*(n-1))
    let B2 = 2^(64*(n-2))
    let U = vals(u, j, j+n+1)
    assert [U] U < D*W
    when u2 >= dh {
      assert [A1] U < (qhat+1)*D
      assert [B1] (qhat-1)*D <= U
    }
    when u2 < dh {
      use mul_nonneg(qh0, dl)
      use mul_nonneg(qh0, Dr)
      use mul_le(Dr, B2, qh0)
      use mul_le(dl*B2 + Dr, B1, qh0)
      assert [A2] U < (qhat+1)*D
      assert [B2] (qhat-1)*D <= U
    }
  }
  loop 1
    cut j
    invariant old(val(u)) == val(quot)*val(d) + val(u)
    invariant val(u) < val(d) * 2^(64*(j+1))
    invariant vals(quot, 0, j+1) == 0

func uint256.udivremBy1(quot, u, d) (rem)
  opt noalias
  cases quot=4, u=2
  cases quot=4, u=3
  cases quot=4, u=4
  cases quot=4, u=5
  cases quot=5, u=2
  cases quot=5, u=3
  cases quot=5, u=4
  cases quot=5, u=5
  cases quot=5, u=6
  cases quot=8, u=2
  cases quot=8, u=3
  cases quot=8, u=4
  cases quot=8, u=5
  cases quot=8, u=6
  cases quot=8, u=7
  cases quot=8, u=8
  cases quot=8, u=9
  requires d >= 2^63
  requires val(quot) == 0
  requires val(u) < d * 2^(64*(len(u)-1))
  modifies elems(quot)
  ensures val(u) == val(quot)*d + rem
  ensures rem < d

func uint256.Udivrem(quot, u, d) (rem)
  opt noalias
  cases quot=4, u=4
  cases quot=5, u=5
  cases quot=5, u=8
  cases quot=8, u=8
  requires val(quot) == 0
  requires #d > 0
  requires len(quot) >= len(u) || val(u) < #d * 2^(64*(len(quot)-1))
  modifies elems(quot)
  ensures val(u) == val(quot)*#d + #rem
  ensures #rem < #d
  before uint256.udivremBy1 {
    let P = 2^shift
    let n = dLen
    use pow2_add(shift, 64 - shift)
    assert [dh] d[n-1] * P < W && d[n-1]*P >= 2^63
    use cancel_lt(d[n-1], 2^(64-shift), P)
    use div_small(d[n-1], 2^(64-shift))
    assert [dn] val(dn) == P * #d
    assert [un] val(un) == P * val(u)
    
  }
  before uint256.udivremKnuth {
    let P = 2^shift
    let n = dLen
    use pow2_add(shift, 64 - shift)
    assert [dh] d[n-1] * P < W && d[n-1]*P >= 2^63
    use cancel_lt(d[n-1], 2^(64-shift), P)
    use div_small(d[n-1], 2^(64-shift))
    assert [dn] val(dn) == P * #d
    assert [un] val(un) == P * val(u)
    name w0 = dn[0]
    name w1 = dn[1]
    name w2 = dn[2]
    name w3 = dn[3]
    assert [dn1] val(dn) < 2^(64*n)
    assert [dn2] val(dn) >= 2^63 * 2^(64*(n-1))
    assert [ul] val(u) < 2^(64*uLen)
    use mul_lt(val(u), 2^(64*uLen), P)
  }
  exit {
    let P = 2^shift
    let X = val(u) - val(quot)*#d
    use pow2_add(shift, 64 - shift)
    when dLen == 1 {
      assert [r1] r == P * X
      assert [r2] #rem == r / P
      name y1 = X - #rem
      assert P*y1 == r - P*(r/P)
      use cancel_zero(P, y1, P*y1)
    }
    when dLen != 1 {
      assert [un2] val(un) == P * X
      assert [un3] vals(un, dLen, len(un)) == 0
      name y = X - #rem
      use mul_eq(y, X - #rem, P)
      assert [py] P*y == un[0] - P*(un[0]/P)
      use cancel_zero(P, y, P*y)
    }
    use cancel_lt(X, #d, P)
  }
