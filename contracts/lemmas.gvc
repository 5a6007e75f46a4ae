lemma mul_nonneg(a, b)
  requires 0 <= a && 0 <= b
  ensures 0 <= a*b
lemma mul_le(a, b, c)
  requires a <= b && 0 <= c
  ensures a*c <= b*c
  proof { use mul_nonneg(b-a, c) }
lemma mul_le2(a, b, c, d)
  requires 0 <= a && a <= b && 0 <= c && c <= d
  ensures a*c <= b*d
  proof { use mul_le(a, b, c); use mul_le(c, d, b) }
lemma mul_lt(a, b, c)
  requires a < b && 0 < c
  ensures a*c < b*c
  proof { use mul_le(a+1, b, c) }
lemma cancel_lt(a, b, c)
  requires 0 < c && a*c < b*c
  ensures a < b
  proof { assert !(b <= a) by { when b <= a { use mul_le(b, a, c) } } }
lemma cancel_le(a, b, c)
  requires 0 < c && a*c < b*c + c
  ensures a <= b
  proof { use cancel_lt(a, b+1, c) }
axiom pow2_add(a, b)
  requires 0 <= a && 0 <= b
  ensures 2^(a+b) == 2^a * 2^b
lemma div_small(a, b)
  requires 0 <= a && a < b
  ensures a / b == 0
  proof {
    let q = a / b
    assert 0 <= q
    when q >= 1 { use mul_le(1, q, b) }
  }
lemma cancel_zero(p, y, t)
  requires 0 < p && p*y == t && 0 <= t && t < p
  ensures y == 0
  proof {
    when y >= 1 { use mul_le(1, y, p) }
    when y <= 0-1 { use mul_le(y, 0-1, p) }
  }
lemma mul_eq(a, b, c)
  requires a == b
  ensures a*c == b*c
lemma div_unique(a, b, q, r)
  requires 0 < b && a == q*b + r && 0 <= r && r < b
  ensures a / b == q
  ensures a % b == r
  proof {
    let k = a / b
    assert k*b <= a && a < k*b + b
    use cancel_lt(k, q+1, b)
    use cancel_lt(q, k+1, b)
    assert k == q
  }
lemma div_cong(a, b, c, d)
  requires a == c && b == d && b > 0 && a >= 0
  ensures a / b == c / d
  ensures a % b == c % d
  proof {
    let q = a / b
    let r = a % b
    assert q*b <= a && a < q*b + b
    use mul_eq(b, d, q)
    use div_unique(c, d, q, r)
  }
axiom pow2_mono(a, b)
  requires 0 <= a && a <= b
  ensures 2^a <= 2^b
axiom ipow_zero(b)
  requires 0 <= b
  ensures b ^ 0 == 1
axiom ipow_half(b, e, k)
  requires 0 <= b && 0 <= k && (e == 2*k || e == 2*k + 1)
  ensures e == 2*k ==> b ^ e == (b*b) ^ k
  ensures e == 2*k + 1 ==> b ^ e == b * ((b*b) ^ k)
axiom ipow_mod(a, b, e)
  requires 0 <= a && 0 <= b && 0 <= e && a % 2^256 == b % 2^256
  ensures (a ^ e) % 2^256 == (b ^ e) % 2^256
lemma mod_mul(a, b, c, d)
  requires a % 2^256 == c % 2^256 && b % 2^256 == d % 2^256
  ensures (a*b) % 2^256 == (c*d) % 2^256
  proof {
    name i = a / 2^256 - c / 2^256
    name j = b / 2^256 - d / 2^256
    assert a == c + 2^256*i
    assert b == d + 2^256*j
    use mul_eq(a, c + 2^256*i, b)
    use mul_eq(b, d + 2^256*j, c)
    name k = i*b + c*j
    assert a*b == c*d + 2^256*k
  }
// floor and ceiling division
define cdiv(a, b) = a/b + b2i(a % b > 0)
lemma div_def(a, b)
  requires 0 < b
  ensures (a/b)*b <= a
  ensures a < (a/b)*b + b
  ensures a % b == a - (a/b)*b
lemma div_nonneg(a, b)
  requires 0 <= a && 0 < b
  ensures 0 <= a/b
  ensures a/b <= a
  proof {
    name q = a/b
    assert q*b <= a && a < q*b + b
    when q < 0 { use mul_le(q, 0-1, b) }
    when q >= 0 { use mul_le(1, b, q) }
  }
lemma cdiv_def(a, b)
  requires 0 < b
  ensures a <= cdiv(a,b)*b
  ensures cdiv(a,b)*b < a + b
  proof {
    name q = a/b
    assert q*b <= a && a < q*b + b
    assert a % b == a - q*b
  }
lemma cdiv_unique(a, b, q)
  requires 0 < b && a <= q*b && q*b < a + b
  ensures cdiv(a, b) == q
  proof {
    use cdiv_def(a, b)
    name c = cdiv(a, b)
    use mul_eq(c, cdiv(a, b), b)
    use cancel_lt(c, q+1, b)
    use cancel_lt(q, c+1, b)
  }
lemma div_div(a, b, c)
  requires 0 <= a && 0 < b && 0 < c
  ensures (a/b)/c == a/(b*c)
  proof {
    name q = a/b
    name r = a - q*b
    assert 0 <= r && r < b by { use div_def(a, b); use mul_eq(q, a/b, b) }
    use div_nonneg(a, b)
    name k = q/c
    name s = q - k*c
    assert 0 <= s && s < c by { use div_def(q, c); use mul_eq(k, q/c, c) }
    use mul_eq(q, k*c + s, b)
    use mul_nonneg(s, b)
    use mul_le(s, c-1, b)
    use mul_lt(0, b, c)
    use div_unique(a, b*c, k, s*b + r)
    use mul_eq(k, q/c, 1)
    assert (a/b)/c == k by { use div_cong(a/b, c, q, c) }
  }
lemma cdiv_cdiv(a, b, c)
  requires 0 <= a && 0 < b && 0 < c
  ensures cdiv(cdiv(a, b), c) == cdiv(a, b*c)
  proof {
    name q = cdiv(a, b)
    name k = cdiv(q, c)
    use cdiv_def(a, b)
    use mul_eq(q, cdiv(a,b), b)
    use cdiv_def(q, c)
    use mul_eq(k, cdiv(q,c), c)
    use mul_le(q, k*c, b)
    use mul_lt(0, b, c)
    use mul_le(k*c - c + 1, q, b)
    use cdiv_unique(a, b*c, k)
    use cdiv_unique(cdiv(a,b), c, k)
  }
// monotonicity
lemma div_mono(a, c, b)
  requires a <= c && 0 < b
  ensures a/b <= c/b
  proof {
    use div_def(a, b)
    use div_def(c, b)
    use cancel_lt(a/b, c/b + 1, b)
  }
lemma cdiv_mono(a, c, b)
  requires a <= c && 0 < b
  ensures cdiv(a,b) <= cdiv(c,b)
  proof {
    use cdiv_def(a, b)
    use cdiv_def(c, b)
    name p = cdiv(a, b)
    name q = cdiv(c, b)
    use mul_eq(p, cdiv(a,b), b)
    use mul_eq(q, cdiv(c,b), b)
    use cancel_lt(p, q + 1, b)
  }
lemma div_le_cdiv(a, b)
  requires 0 < b
  ensures a/b <= cdiv(a,b)
  ensures cdiv(a,b) <= a/b + 1
// x <= a/b  <=>  x*b <= a     and    cdiv(a,b) <= x  <=>  a <= x*b
lemma div_ge(x, a, b)
  requires 0 < b && x*b <= a
  ensures x <= a/b
  proof { use div_def(a, b); use cancel_lt(x, a/b + 1, b) }
lemma div_lt(x, a, b)
  requires 0 < b && a < x*b
  ensures a/b < x
  proof { use div_def(a, b); use cancel_lt(a/b, x, b) }
lemma cdiv_le(x, a, b)
  requires 0 < b && a <= x*b
  ensures cdiv(a,b) <= x
  proof { use cdiv_def(a, b); name q = cdiv(a,b); use mul_eq(q, cdiv(a,b), b); use cancel_lt(q, x + 1, b) }
lemma cdiv_ge(x, a, b)
  requires 0 < b && (x-1)*b < a
  ensures x <= cdiv(a,b)
  proof { use cdiv_def(a, b); name q = cdiv(a,b); use mul_eq(q, cdiv(a,b), b); use cancel_lt(x - 1, q, b) }
