// Package strategy: liquidity providers that hold two amounts and mint
// positions in their own copy of the pool.

// credit0, credit1: the amounts credited by the last burning; burned: the number of
// positions it closed; val0, val1: what the last valuation found the positions worth
foreach T in TwoIntervalAroundPriceStrategy FillUpStrategy BollingerBandsStrategy BollingerBandsFillUpStrategy IntervalAroundAverageStrategy V2Strategy VolatilitySizedIntervalStrategy ConstantIntervalStrategy IntervalAroundPriceStrategy LimitOrderStrategy
ghost strategy.@T@
  field credit0: num
  field credit1: num
  field burned: num
  field val0: num
  field val1: num
end foreach
// held0, held1: the holdings between the swap and the mint; bought: what the swap paid out
ghost strategy.IntervalAroundPriceAndSwapStrategy
  field credit0: num
  field credit1: num
  field burned: num
  field val0: num
  field val1: num
  field held0: num
  field held1: num
  field bought: num

define s_word(s) = #(s.Amount0) < 2^256 && #(s.Amount1) < 2^256
define s_fee(p) = p.Fee == 500 || p.Fee == 3000 || p.Fee == 10000
define s_recs(s) = forall i {s.Positions[i].amount} {s.Positions[i].tickLower} {s.Positions[i].tickUpper} :: 0 <= i && i < len(s.Positions) ==> allocated(s.Positions[i].amount) && #(s.Positions[i].amount) < 2^128 && p_valid(s.Positions[i].tickLower, s.Positions[i].tickUpper)
define s_ok(s) = pool_ok(s.Pool) && s_recs(s)

// the liquidity that the holdings pay for in [sqrtAt(lo), sqrtAt(up)]
// (a name for the formula, so that it can occur in conditions on the pool)
fun s_liq(P, lo, up, x0, x1): int
axiom s_liq_def(P, lo, up, x0, x1)
  ensures s_liq(P, lo, up, x0, x1) == liqfor(P, sqrtAt(lo), sqrtAt(up), x0, x1)
// it can be computed without a quotient that does not fit in 256 bits
define s_computable(P, a, b, x0, x1) = (P <= a ==> liq0fits(a, b, x0)) && (a < P && P < b ==> liq0fits(P, b, x0) && liq1fits(a, P, x1)) && (P >= b ==> liq1fits(a, b, x1))
// and the pool has room for it
define s_room(p, L, lo, up) = L < 2^128 && (L > 0 ==> p_fits(p, L, lo, up) && (haskey(p.Positions, pkey(lo, up)) ==> #(p.Positions[pkey(lo, up)].Liquidity) + L < 2^128))
define s_fits(p, lo, up, x0, x1) = s_computable(#(p.SqrtRatioX96), sqrtAt(lo), sqrtAt(up), x0, x1) && s_room(p, s_liq(#(p.SqrtRatioX96), lo, up, x0, x1), lo, up)

// the liquidity a mint in [lo, up] buys (of the state at the start)
define s_got(s, lo, up) = old(s_liq(#(s.Pool.SqrtRatioX96), lo, up, #(s.Amount0), #(s.Amount1)))
define s_same_core(s) = s.Pool.Token0 == old(s.Pool.Token0) && s.Pool.Token1 == old(s.Pool.Token1) && #(s.Pool.SqrtRatioX96) == old(#(s.Pool.SqrtRatioX96)) && s.Pool.TickCurrent == old(s.Pool.TickCurrent) && s.Pool.TickSpacing == old(s.Pool.TickSpacing) && s.Pool.Fee == old(s.Pool.Fee)
// what the pool charges for L in [lo, up]
define charge0o(p, L, lo, up) = pay0(old(p.TickCurrent), old(#(p.SqrtRatioX96)), L, lo, up)
define charge1o(p, L, lo, up) = pay1(old(p.TickCurrent), old(#(p.SqrtRatioX96)), L, lo, up)
lemma pay_nothing(T, P, lo, up)
  requires lo < up && 0 - 887272 <= lo && up <= 887272 && 0 < P
  requires T < up ==> P <= sqrtAt(up)
  ensures pay0(T, P, 0, lo, up) == 0 && pay1(T, P, 0, lo, up) == 0
  proof {
    use pay0_def(T, P, 0, lo, up)
    use pay1_def(T, P, 0, lo, up)
    use sqrtAt_mono(lo, up)
  }

// the charge never exceeds the holdings that the liquidity was computed from
lemma charge_affordable(T, P, L, lo, up, x0, x1)
  requires 0 <= L && lo < up && 0 - 887272 <= lo && up <= 887272 && 0 < P && 0 <= x0 && 0 <= x1
  requires 0 - 887272 <= T && T < 887272 && sqrtAt(T) <= P && P <= sqrtAt(T + 1)
  requires P < max(sqrtAt(lo), sqrtAt(up)) ==> amt0up(L, max(P, min(sqrtAt(lo), sqrtAt(up))), max(sqrtAt(lo), sqrtAt(up))) <= x0
  requires P > min(sqrtAt(lo), sqrtAt(up)) ==> amt1up(L, min(sqrtAt(lo), sqrtAt(up)), min(P, max(sqrtAt(lo), sqrtAt(up)))) <= x1
  ensures [c0] pay0(T, P, L, lo, up) <= x0
  ensures [c1] pay1(T, P, L, lo, up) <= x1
  ensures [n0] 0 <= pay0(T, P, L, lo, up)
  ensures [n1] 0 <= pay1(T, P, L, lo, up)
  proof {
    use sqrtAt_mono(lo, up)
    use pay0_def(T, P, L, lo, up)
    use pay1_def(T, P, L, lo, up)
    name a = sqrtAt(lo)
    name b = sqrtAt(up)
    when T < lo {
      use sqrtAt_mono_le(T + 1, lo)
      use mul_nonneg(L, b - a)
      use mul_lt(0, a, b)
      use cdiv_ge(0, L*2^96*(b - a), b*a)
    }
    when T >= lo && T < up {
      use sqrtAt_mono_le(lo, T)
      use sqrtAt_mono_le(T + 1, up)
      use mul_nonneg(L, b - P)
      use mul_nonneg(L, P - a)
      use mul_lt(0, P, b)
      use cdiv_ge(0, L*2^96*(b - P), b*P)
      use cdiv_ge(0, L*(P - a), 2^96)
      when P == b { use mul_eq(L, L, b - P); assert L * (b - P) == 0; use cdiv_le(0, L*2^96*(b - P), b*P) }
      when P == a { assert L * (P - a) == 0; use cdiv_le(0, L*(P - a), 2^96) }
    }
    when T >= up {
      use sqrtAt_mono_le(up, T)
      use mul_nonneg(L, b - a)
      use cdiv_ge(0, L*(b - a), 2^96)
    }
  }

// the same from what GetLiquidityForAmount promises about its arguments
lemma charge_affordable_at(T, P, L, lo, up, x0, x1, Q, A, B, y0, y1)
  requires Q == P && A == sqrtAt(lo) && B == sqrtAt(up) && y0 == x0 && y1 == x1
  requires 0 <= L && lo < up && 0 - 887272 <= lo && up <= 887272 && 0 < P && 0 <= x0 && 0 <= x1
  requires 0 - 887272 <= T && T < 887272 && sqrtAt(T) <= P && P <= sqrtAt(T + 1)
  requires Q < max(A, B) ==> amt0up(L, max(Q, min(A, B)), max(A, B)) <= y0
  requires Q > min(A, B) ==> amt1up(L, min(A, B), min(Q, max(A, B))) <= y1
  ensures [c0] pay0(T, P, L, lo, up) <= x0
  ensures [c1] pay1(T, P, L, lo, up) <= x1
  ensures [n0] 0 <= pay0(T, P, L, lo, up)
  ensures [n1] 0 <= pay1(T, P, L, lo, up)
  proof {
    use charge_affordable(T, P, L, lo, up, x0, x1)
  }

// less liquidity costs no more
lemma pay_mono(T, P, L, M, lo, up)
  requires 0 <= L && L <= M && lo < up && 0 - 887272 <= lo && up <= 887272 && 0 < P
  requires T < up ==> P <= sqrtAt(up)
  requires lo <= T ==> sqrtAt(lo) <= P
  ensures [c0] pay0(T, P, L, lo, up) <= pay0(T, P, M, lo, up)
  ensures [c1] pay1(T, P, L, lo, up) <= pay1(T, P, M, lo, up)
  ensures [n0] 0 <= pay0(T, P, L, lo, up)
  ensures [n1] 0 <= pay1(T, P, L, lo, up)
  proof {
    use sqrtAt_mono(lo, up)
    use pay0_def(T, P, L, lo, up)
    use pay1_def(T, P, L, lo, up)
    use pay0_def(T, P, M, lo, up)
    use pay1_def(T, P, M, lo, up)
    name a = sqrtAt(lo)
    name b = sqrtAt(up)
    when T < lo { use amt0up_mono(L, M, a, b); use amt0up_mono(0, L, a, b) }
    when T >= lo && T < up {
      use amt0up_mono(L, M, P, b)
      use amt0up_mono(0, L, P, b)
      use amt1up_mono(L, M, a, P)
      use amt1up_mono(0, L, a, P)
    }
    when T >= up { use amt1up_mono(L, M, a, b); use amt1up_mono(0, L, a, b) }
  }

// the records of the positions that were there before are kept
define s_kept(s) = forall i {s.Positions[i].tickLower} {s.Positions[i].tickUpper} {s.Positions[i].amount} :: 0 <= i && i < old(len(s.Positions)) ==> s.Positions[i].tickLower == old(s.Positions[i].tickLower) && s.Positions[i].tickUpper == old(s.Positions[i].tickUpper) && #(s.Positions[i].amount) == old(#(s.Positions[i].amount))
define s_sp(fee) = ite(fee == 500, 10, ite(fee == 3000, 60, 200))

foreach T in TwoIntervalAroundPriceStrategy FillUpStrategy BollingerBandsStrategy BollingerBandsFillUpStrategy IntervalAroundAverageStrategy V2Strategy VolatilitySizedIntervalStrategy LimitOrderStrategy
func strategy.@T@.mintPosition(s, tickLower, tickUpper) ()
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool)
  requires s_ok(s)
  requires [order] tickLower < tickUpper
  requires [range] 0 - 887272 <= tickLower && tickUpper <= 887272
  requires [fits] s_fits(s.Pool, tickLower, tickUpper, #(s.Amount0), #(s.Amount1))
  ensures [rep] s_ok(s)
  ensures [skip] s_got(s, tickLower, tickUpper) == 0 ==> len(s.Positions) == old(len(s.Positions)) && #(s.Amount0) == old(#(s.Amount0)) && #(s.Amount1) == old(#(s.Amount1)) && p_same_positions(s.Pool)
  ensures [record] s_got(s, tickLower, tickUpper) > 0 ==> len(s.Positions) == old(len(s.Positions)) + 1 && s.Positions[old(len(s.Positions))].tickLower == tickLower && s.Positions[old(len(s.Positions))].tickUpper == tickUpper && #(s.Positions[old(len(s.Positions))].amount) == s_got(s, tickLower, tickUpper)
  ensures [length] s_got(s, tickLower, tickUpper) >= 0 && old(len(s.Positions)) <= len(s.Positions) && len(s.Positions) <= old(len(s.Positions)) + 1
  ensures [others] s_kept(s)
  ensures [pay0] #(s.Amount0) == old(#(s.Amount0)) - charge0o(s.Pool, s_got(s, tickLower, tickUpper), tickLower, tickUpper)
  ensures [pay1] #(s.Amount1) == old(#(s.Amount1)) - charge1o(s.Pool, s_got(s, tickLower, tickUpper), tickLower, tickUpper)
  ensures [never0] #(s.Amount0) <= old(#(s.Amount0))
  ensures [never1] #(s.Amount1) <= old(#(s.Amount1))
  ensures [core] s_same_core(s)
  at tickmath.TickMath.GetSqrtRatioAtTick@2 { use sqrtAt_mono(tickLower, tickUpper) }
  at liquidity_amounts.GetLiquidityForAmount {
    use s_liq_def(#(s.Pool.SqrtRatioX96), tickLower, tickUpper, #(s.Amount0), #(s.Amount1))
    let got = #$1
    let T = s.Pool.TickCurrent
    let P = #(s.Pool.SqrtRatioX96)
    let g = s_liq(#(s.Pool.SqrtRatioX96), tickLower, tickUpper, #(s.Amount0), #(s.Amount1))
    let x0 = #(s.Amount0)
    let x1 = #(s.Amount1)
    assert [got] got == g
    use charge_affordable_at(T, P, got, tickLower, tickUpper, #(s.Amount0), #(s.Amount1), #$a1, #$a2, #$a3, #$a4, #$a5)
    when T < tickUpper { use sqrtAt_mono_le(T + 1, tickUpper) }
    when tickLower <= T { use sqrtAt_mono_le(tickLower, T) }
    when got == 0 { use pay_nothing(T, P, tickLower, tickUpper) }
  }
  at pool.Pool.MintStrategy {
    assert [c0] #$1 == pay0(T, P, got, tickLower, tickUpper)
    assert [c1] #$2 == pay1(T, P, got, tickLower, tickUpper)
    assert [charge0] #$1 == pay0(T, P, g, tickLower, tickUpper)
    assert [charge1] #$2 == pay1(T, P, g, tickLower, tickUpper)
    assert [affordable0] #$1 <= x0 && #(s.Amount0) == x0
    assert [affordable1] #$2 <= x1 && #(s.Amount1) == x1
  }
end foreach

// Burning
foreach T in TwoIntervalAroundPriceStrategy FillUpStrategy BollingerBandsStrategy BollingerBandsFillUpStrategy IntervalAroundAverageStrategy V2Strategy VolatilitySizedIntervalStrategy ConstantIntervalStrategy IntervalAroundPriceStrategy IntervalAroundPriceAndSwapStrategy LimitOrderStrategy
func strategy.@T@.BurnAll(s) (r0, r1)
  mem heap
  opt maypanic
  opt reuse
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.credit0, s.credit1, s.burned
  assumes pool.Pool.BurnStrategy.covers, pool.Pool.BurnStrategy.position
  fresh r0, r1
  requires s_ok(s)
  ensures [rep] s_ok(s)
  ensures [closed] s.burned == old(len(s.Positions)) && len(s.Positions) == 0
  ensures [credit0] #(s.Amount0) == (old(#(s.Amount0)) + s.credit0) % 2^256
  ensures [credit1] #(s.Amount1) == (old(#(s.Amount1)) + s.credit1) % 2^256
  ensures [returned] #r0 == #(s.Amount0) && #r1 == #(s.Amount1)
  ensures [core] s_same_core(s)
  entry {
    set s.credit0 = 0
    set s.credit1 = 0
    set s.burned = 0
  }
  loop 1
    invariant s_ok(s) && s_same_core(s)
    invariant -1 <= rangeindex && rangeindex < len(s.Positions)
    invariant s.burned == rangeindex + 1
    invariant 0 <= s.credit0 && 0 <= s.credit1
    invariant #(s.Amount0) == (old(#(s.Amount0)) + s.credit0) % 2^256
    invariant #(s.Amount1) == (old(#(s.Amount1)) + s.credit1) % 2^256
    decreases len(s.Positions) - rangeindex
  before pool.Pool.BurnStrategy {
    assert [whole] $a2 == s.Positions[rangeindex].tickLower && $a3 == s.Positions[rangeindex].tickUpper && #$a4 == #(s.Positions[rangeindex].amount)
  }
  at pool.Pool.BurnStrategy {
    name w0 = #(s.Pool.Positions[pkey($a2, $a3)].TokensOwed0)
    name w1 = #(s.Pool.Positions[pkey($a2, $a3)].TokensOwed1)
  }
  at pool.Pool.CollectStrategy {
    assert [same] $a2 == s.Positions[rangeindex].tickLower && $a3 == s.Positions[rangeindex].tickUpper
    assert [all0] #$1 == w0
    assert [all1] #$2 == w1
    set s.credit0 = s.credit0 + w0
    set s.credit1 = s.credit1 + w1
    set s.burned = s.burned + 1
  }
end foreach

// Valuation
foreach T in TwoIntervalAroundPriceStrategy FillUpStrategy BollingerBandsStrategy BollingerBandsFillUpStrategy IntervalAroundAverageStrategy V2Strategy VolatilitySizedIntervalStrategy ConstantIntervalStrategy IntervalAroundPriceStrategy IntervalAroundPriceAndSwapStrategy LimitOrderStrategy
func strategy.@T@.GetAmounts(s) (r0, r1)
  mem heap
  opt maypanic
  modifies s.val0, s.val1
  fresh r0, r1
  requires s_ok(s)
  ensures [value0] #r0 == (s.val0 + #(s.Amount0)) % 2^256
  ensures [value1] #r1 == (s.val1 + #(s.Amount1)) % 2^256
  entry {
    set s.val0 = 0
    set s.val1 = 0
  }
  loop 1
    invariant -1 <= rangeindex && rangeindex < len(s.Positions)
    invariant 0 <= s.val0 && 0 <= s.val1
    invariant #amount0 == s.val0 % 2^256
    invariant #amount1 == s.val1 % 2^256
    decreases len(s.Positions) - rangeindex
  before liquidity_amounts.GetAmountsForLiquidity {
    assert [lower] #$a2 == sqrtAt(s.Positions[rangeindex].tickLower)
    assert [upper] #$a3 == sqrtAt(s.Positions[rangeindex].tickUpper)
    assert [price] #$a1 == #(s.Pool.SqrtRatioX96)
    assert [liquidity] #$a4 == #(s.Positions[rangeindex].amount)
  }
  at liquidity_amounts.GetAmountsForLiquidity {
    set s.val0 = s.val0 + #$1
    set s.val1 = s.val1 + #$2
  }
end foreach

// Opening and rebalancing

func strategy.FillUpStrategy.setPositions(s) ()
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool)
  assumes strategy.FillUpStrategy.mintPosition.fits, strategy.FillUpStrategy.mintPosition.range
  requires s_ok(s)
  requires [width] s_fee(s.Pool) && s_sp(s.Pool.Fee) <= s.IntervalWidth && s.IntervalWidth <= 1000000
  ensures [rep] s_ok(s)
  ensures [never0] #(s.Amount0) <= old(#(s.Amount0))
  ensures [never1] #(s.Amount1) <= old(#(s.Amount1))
  ensures [others] old(len(s.Positions)) <= len(s.Positions) && s_kept(s)
  ensures [core] s_same_core(s)

func strategy.FillUpStrategy.Init(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool)
  fresh r0, r1
  requires s_ok(s)
  requires [width] s_fee(s.Pool) && s_sp(s.Pool.Fee) <= s.IntervalWidth && s.IntervalWidth <= 1000000
  ensures [rep] s_ok(s)
  ensures [returned] #r0 == old(#(s.Amount0)) && #r1 == old(#(s.Amount1))
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [others] old(len(s.Positions)) <= len(s.Positions) && s_kept(s)
  ensures [core] s_same_core(s)

func strategy.FillUpStrategy.Rebalance(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.credit0, s.credit1, s.burned
  fresh r0, r1
  requires s_ok(s)
  requires [width] s_fee(s.Pool) && s_sp(s.Pool.Fee) <= s.IntervalWidth && s.IntervalWidth <= 1000000
  ensures [rep] s_ok(s)
  ensures [closed] s.burned == old(len(s.Positions))
  ensures [returned] #r0 == (old(#(s.Amount0)) + s.credit0) % 2^256 && #r1 == (old(#(s.Amount1)) + s.credit1) % 2^256
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [core] s_same_core(s)

// half the liquidity that the holdings pay for
define s_half(s, lo, up) = s_got(s, lo, up) / 2
func strategy.LimitOrderStrategy.mintHalf(s, tickLower, tickUpper) ()
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool)
  requires s_ok(s)
  requires [order] tickLower < tickUpper
  requires [range] 0 - 887272 <= tickLower && tickUpper <= 887272
  requires [fits] s_computable(#(s.Pool.SqrtRatioX96), sqrtAt(tickLower), sqrtAt(tickUpper), #(s.Amount0), #(s.Amount1)) && s_room(s.Pool, s_liq(#(s.Pool.SqrtRatioX96), tickLower, tickUpper, #(s.Amount0), #(s.Amount1)) / 2, tickLower, tickUpper)
  ensures [rep] s_ok(s)
  ensures [skip] s_half(s, tickLower, tickUpper) == 0 ==> len(s.Positions) == old(len(s.Positions)) && #(s.Amount0) == old(#(s.Amount0)) && #(s.Amount1) == old(#(s.Amount1)) && p_same_positions(s.Pool)
  ensures [record] s_half(s, tickLower, tickUpper) > 0 ==> len(s.Positions) == old(len(s.Positions)) + 1 && s.Positions[old(len(s.Positions))].tickLower == tickLower && s.Positions[old(len(s.Positions))].tickUpper == tickUpper && #(s.Positions[old(len(s.Positions))].amount) == s_half(s, tickLower, tickUpper)
  ensures [length] s_half(s, tickLower, tickUpper) >= 0 && old(len(s.Positions)) <= len(s.Positions) && len(s.Positions) <= old(len(s.Positions)) + 1
  ensures [others] s_kept(s)
  ensures [pay0] #(s.Amount0) == old(#(s.Amount0)) - charge0o(s.Pool, s_half(s, tickLower, tickUpper), tickLower, tickUpper)
  ensures [pay1] #(s.Amount1) == old(#(s.Amount1)) - charge1o(s.Pool, s_half(s, tickLower, tickUpper), tickLower, tickUpper)
  ensures [never0] #(s.Amount0) <= old(#(s.Amount0))
  ensures [never1] #(s.Amount1) <= old(#(s.Amount1))
  ensures [core] s_same_core(s)
  at tickmath.TickMath.GetSqrtRatioAtTick@2 { use sqrtAt_mono(tickLower, tickUpper) }
  at liquidity_amounts.GetLiquidityForAmount {
    use s_liq_def(#(s.Pool.SqrtRatioX96), tickLower, tickUpper, #(s.Amount0), #(s.Amount1))
    let full = #$1
    let T = s.Pool.TickCurrent
    let P = #(s.Pool.SqrtRatioX96)
    let x0 = #(s.Amount0)
    let x1 = #(s.Amount1)
    let g = s_liq(#(s.Pool.SqrtRatioX96), tickLower, tickUpper, #(s.Amount0), #(s.Amount1)) / 2
    let a = sqrtAt(tickLower)
    let b = sqrtAt(tickUpper)
    use charge_affordable_at(T, P, full, tickLower, tickUpper, x0, x1, #$a1, #$a2, #$a3, #$a4, #$a5)
    when T < tickUpper { use sqrtAt_mono_le(T + 1, tickUpper) }
    when tickLower <= T { use sqrtAt_mono_le(tickLower, T) }
    assert [full] full == s_got(s, tickLower, tickUpper)
  }
  at uint256.Int.Div {
    let got = #$1
    assert [half] got == full / 2
    assert [got] got == g
    assert [less] 0 <= got && got <= full
    use pay_mono(T, P, got, full, tickLower, tickUpper)
    when got == 0 { use pay_nothing(T, P, tickLower, tickUpper) }
  }
  at pool.Pool.MintStrategy {
    assert [c0] #$1 == pay0(T, P, got, tickLower, tickUpper)
    assert [c1] #$2 == pay1(T, P, got, tickLower, tickUpper)
    assert [charge0] #$1 == pay0(T, P, g, tickLower, tickUpper)
    assert [charge1] #$2 == pay1(T, P, g, tickLower, tickUpper)
    assert [affordable0] #$1 <= x0 && #(s.Amount0) == x0
    assert [affordable1] #$2 <= x1 && #(s.Amount1) == x1
  }

func strategy.LimitOrderStrategy.setPositions(s) ()
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.CurrentLimitTick, s.Direction
  assumes strategy.LimitOrderStrategy.mintPosition.fits, strategy.LimitOrderStrategy.mintPosition.range, strategy.LimitOrderStrategy.mintHalf.fits, strategy.LimitOrderStrategy.mintHalf.range
  requires s_ok(s)
  requires [width] s_fee(s.Pool) && s_sp(s.Pool.Fee) <= s.IntervalWidth && s.IntervalWidth <= 1000000
  ensures [rep] s_ok(s)
  ensures [never0] #(s.Amount0) <= old(#(s.Amount0))
  ensures [never1] #(s.Amount1) <= old(#(s.Amount1))
  ensures [others] old(len(s.Positions)) <= len(s.Positions) && s_kept(s)
  ensures [core] s_same_core(s)

func strategy.LimitOrderStrategy.Init(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.CurrentLimitTick, s.Direction
  fresh r0, r1
  requires s_ok(s)
  requires [width] s_fee(s.Pool) && s_sp(s.Pool.Fee) <= s.IntervalWidth && s.IntervalWidth <= 1000000
  ensures [rep] s_ok(s)
  ensures [returned] #r0 == old(#(s.Amount0)) && #r1 == old(#(s.Amount1))
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [others] old(len(s.Positions)) <= len(s.Positions) && s_kept(s)
  ensures [core] s_same_core(s)

func strategy.LimitOrderStrategy.Rebalance(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.credit0, s.credit1, s.burned, s.CurrentLimitTick, s.Direction
  fresh r0, r1
  requires s_ok(s)
  requires [width] s_fee(s.Pool) && s_sp(s.Pool.Fee) <= s.IntervalWidth && s.IntervalWidth <= 1000000
  ensures [rep] s_ok(s)
  ensures [closed] s.burned == old(len(s.Positions))
  ensures [returned] #r0 == (old(#(s.Amount0)) + s.credit0) % 2^256 && #r1 == (old(#(s.Amount1)) + s.credit1) % 2^256
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [core] s_same_core(s)

func strategy.TwoIntervalAroundPriceStrategy.Init(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool)
  assumes strategy.TwoIntervalAroundPriceStrategy.mintPosition.fits, strategy.TwoIntervalAroundPriceStrategy.mintPosition.range
  fresh r0, r1
  requires s_ok(s)
  requires [width] s_fee(s.Pool) && s_sp(s.Pool.Fee) <= s.a && s.a <= 1000000 && 0 < s.b && s.b <= 1000000
  ensures [rep] s_ok(s)
  ensures [returned] #r0 == old(#(s.Amount0)) && #r1 == old(#(s.Amount1))
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [others] old(len(s.Positions)) <= len(s.Positions) && s_kept(s)
  ensures [core] s_same_core(s)

func strategy.TwoIntervalAroundPriceStrategy.Rebalance(s) (r0, r1)
  mem heap
  opt maypanic
  opt reuse
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.credit0, s.credit1, s.burned
  assumes strategy.TwoIntervalAroundPriceStrategy.mintPosition.fits, strategy.TwoIntervalAroundPriceStrategy.mintPosition.range, pool.Pool.BurnStrategy.covers, pool.Pool.BurnStrategy.position
  fresh r0, r1
  requires s_ok(s)
  requires [width] s_fee(s.Pool) && s_sp(s.Pool.Fee) <= s.a && s.a <= 1000000 && 0 < s.b && s.b <= 1000000
  ensures [rep] s_ok(s)
  ensures [closed] s.burned == old(len(s.Positions))
  ensures [returned] #r0 == (old(#(s.Amount0)) + s.credit0) % 2^256 && #r1 == (old(#(s.Amount1)) + s.credit1) % 2^256
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [core] s_same_core(s)
  entry {
    set s.credit0 = 0
    set s.credit1 = 0
    set s.burned = 0
  }
  loop 1
    invariant s_ok(s) && s_same_core(s)
    invariant -1 <= rangeindex && rangeindex < len(s.Positions)
    invariant s.burned == rangeindex + 1
    invariant 0 <= s.credit0 && 0 <= s.credit1
    invariant #(s.Amount0) == (old(#(s.Amount0)) + s.credit0) % 2^256
    invariant #(s.Amount1) == (old(#(s.Amount1)) + s.credit1) % 2^256
    decreases len(s.Positions) - rangeindex
  before pool.Pool.BurnStrategy {
    assert [whole] $a2 == s.Positions[rangeindex].tickLower && $a3 == s.Positions[rangeindex].tickUpper && #$a4 == #(s.Positions[rangeindex].amount)
  }
  at pool.Pool.BurnStrategy {
    name w0 = #(s.Pool.Positions[pkey($a2, $a3)].TokensOwed0)
    name w1 = #(s.Pool.Positions[pkey($a2, $a3)].TokensOwed1)
  }
  at pool.Pool.CollectStrategy {
    assert [same] $a2 == s.Positions[rangeindex].tickLower && $a3 == s.Positions[rangeindex].tickUpper
    assert [all0] #$1 == w0
    assert [all1] #$2 == w1
    set s.credit0 = s.credit0 + w0
    set s.credit1 = s.credit1 + w1
    set s.burned = s.burned + 1
  }

func strategy.V2Strategy.Init(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool)
  assumes strategy.V2Strategy.mintPosition.fits
  fresh r0, r1
  requires s_ok(s)
  ensures [rep] s_ok(s)
  ensures [returned] #r0 == old(#(s.Amount0)) && #r1 == old(#(s.Amount1))
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [others] old(len(s.Positions)) <= len(s.Positions) && s_kept(s)
  ensures [core] s_same_core(s)

func strategy.BollingerBandsStrategy.Init(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.PriceHistory.tot, s.PriceHistory.dev
  assumes strategy.BollingerBandsStrategy.mintPosition.fits, strategy.BollingerBandsStrategy.mintPosition.order
  fresh r0, r1
  requires s_ok(s)
  ensures [rep] s_ok(s)
  ensures [returned] #r0 == old(#(s.Amount0)) && #r1 == old(#(s.Amount1))
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [others] old(len(s.Positions)) <= len(s.Positions) && s_kept(s)
  ensures [core] s_same_core(s)

func strategy.BollingerBandsStrategy.Rebalance(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.credit0, s.credit1, s.burned, s.PriceHistory.tot, s.PriceHistory.dev
  assumes strategy.BollingerBandsStrategy.mintPosition.fits, strategy.BollingerBandsStrategy.mintPosition.order
  fresh r0, r1
  requires s_ok(s)
  ensures [rep] s_ok(s)
  ensures [closed] s.burned == old(len(s.Positions))
  ensures [returned] #r0 == (old(#(s.Amount0)) + s.credit0) % 2^256 && #r1 == (old(#(s.Amount1)) + s.credit1) % 2^256
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [core] s_same_core(s)

func strategy.VolatilitySizedIntervalStrategy.Init(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.PriceHistory.tot, s.PriceHistory.dev
  assumes strategy.VolatilitySizedIntervalStrategy.mintPosition.fits, strategy.VolatilitySizedIntervalStrategy.mintPosition.order
  fresh r0, r1
  requires s_ok(s)
  ensures [rep] s_ok(s)
  ensures [returned] #r0 == old(#(s.Amount0)) && #r1 == old(#(s.Amount1))
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [others] old(len(s.Positions)) <= len(s.Positions) && s_kept(s)
  ensures [core] s_same_core(s)

func strategy.VolatilitySizedIntervalStrategy.Rebalance(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.credit0, s.credit1, s.burned, s.PriceHistory.tot, s.PriceHistory.dev
  assumes strategy.VolatilitySizedIntervalStrategy.mintPosition.fits, strategy.VolatilitySizedIntervalStrategy.mintPosition.order
  fresh r0, r1
  requires s_ok(s)
  ensures [rep] s_ok(s)
  ensures [closed] s.burned == old(len(s.Positions))
  ensures [returned] #r0 == (old(#(s.Amount0)) + s.credit0) % 2^256 && #r1 == (old(#(s.Amount1)) + s.credit1) % 2^256
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [core] s_same_core(s)

func strategy.BollingerBandsFillUpStrategy.Init(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.PriceHistory.tot, s.PriceHistory.dev
  assumes strategy.BollingerBandsFillUpStrategy.mintPosition.fits, strategy.BollingerBandsFillUpStrategy.mintPosition.order
  fresh r0, r1
  requires s_ok(s)
  requires [fee] s_fee(s.Pool)
  ensures [rep] s_ok(s)
  ensures [returned] #r0 == old(#(s.Amount0)) && #r1 == old(#(s.Amount1))
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [others] old(len(s.Positions)) <= len(s.Positions) && s_kept(s)
  ensures [core] s_same_core(s)

func strategy.BollingerBandsFillUpStrategy.Rebalance(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.credit0, s.credit1, s.burned, s.PriceHistory.tot, s.PriceHistory.dev
  assumes strategy.BollingerBandsFillUpStrategy.mintPosition.fits, strategy.BollingerBandsFillUpStrategy.mintPosition.order, strategy.BollingerBandsFillUpStrategy.mintPosition.range
  fresh r0, r1
  requires s_ok(s)
  requires [fee] s_fee(s.Pool)
  ensures [rep] s_ok(s)
  ensures [closed] s.burned == old(len(s.Positions))
  ensures [returned] #r0 == (old(#(s.Amount0)) + s.credit0) % 2^256 && #r1 == (old(#(s.Amount1)) + s.credit1) % 2^256
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [core] s_same_core(s)

func strategy.IntervalAroundAverageStrategy.Init(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.PriceHistory.tot
  assumes strategy.IntervalAroundAverageStrategy.mintPosition.fits, strategy.IntervalAroundAverageStrategy.mintPosition.range
  fresh r0, r1
  requires s_ok(s)
  requires [width] s_fee(s.Pool) && s_sp(s.Pool.Fee) <= s.IntervalWidth && s.IntervalWidth <= 1000000
  ensures [rep] s_ok(s)
  ensures [returned] #r0 == old(#(s.Amount0)) && #r1 == old(#(s.Amount1))
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [others] old(len(s.Positions)) <= len(s.Positions) && s_kept(s)
  ensures [core] s_same_core(s)

func strategy.IntervalAroundAverageStrategy.Rebalance(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.credit0, s.credit1, s.burned, s.PriceHistory.tot
  assumes strategy.IntervalAroundAverageStrategy.mintPosition.fits, strategy.IntervalAroundAverageStrategy.mintPosition.range
  fresh r0, r1
  requires s_ok(s)
  requires [width] s_fee(s.Pool) && s_sp(s.Pool.Fee) <= s.IntervalWidth && s.IntervalWidth <= 1000000
  ensures [rep] s_ok(s)
  ensures [closed] s.burned == old(len(s.Positions))
  ensures [returned] #r0 == (old(#(s.Amount0)) + s.credit0) % 2^256 && #r1 == (old(#(s.Amount1)) + s.credit1) % 2^256
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [core] s_same_core(s)

// Strategies that mint inside Init and Rebalance. Their Init does not skip a mint of
// nothing (the pool then panics), their Rebalance does.
// the interval of ConstantInterval is kept from Init
define s_widthConstantIntervalStrategy(s) = s.tickLower < s.tickUpper
define s_widthIntervalAroundPriceStrategy(s) = s_fee(s.Pool) && s_sp(s.Pool.Fee) <= s.IntervalWidth && s.IntervalWidth <= 1000000

func strategy.ConstantIntervalStrategy.Init(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.tickLower, s.tickUpper
  assumes tickmath.TickMath.GetSqrtRatioAtTick.range, liquidity_amounts.GetLiquidityForAmount.fits.below, liquidity_amounts.GetLiquidityForAmount.fits.in, liquidity_amounts.GetLiquidityForAmount.fits.above, pool.Pool.MintStrategy.fits, pool.Pool.MintStrategy.posfits
  fresh r0, r1
  requires s_ok(s)
  requires [width] s_fee(s.Pool) && s_sp(s.Pool.Fee) <= s.IntervalWidth && s.IntervalWidth <= 1000000
  ensures [rep] s_ok(s)
  ensures [returned] #r0 == old(#(s.Amount0)) && #r1 == old(#(s.Amount1))
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [length] len(s.Positions) == old(len(s.Positions)) + 1
  ensures [others] s_kept(s)
  ensures [kept] s.tickLower < s.tickUpper
  ensures [core] s_same_core(s)
  at tickmath.TickMath.GetSqrtRatioAtTick@2 { use sqrtAt_mono(tickLower, tickUpper) }
  at liquidity_amounts.GetLiquidityForAmount {
    let got = #$1
    let T = s.Pool.TickCurrent
    let P = #(s.Pool.SqrtRatioX96)
    let x0 = #(s.Amount0)
    let x1 = #(s.Amount1)
    use charge_affordable_at(T, P, got, tickLower, tickUpper, #(s.Amount0), #(s.Amount1), #$a1, #$a2, #$a3, #$a4, #$a5)
    when T < tickUpper { use sqrtAt_mono_le(T + 1, tickUpper) }
    when tickLower <= T { use sqrtAt_mono_le(tickLower, T) }
    when got == 0 { use pay_nothing(T, P, tickLower, tickUpper) }
  }
  at pool.Pool.MintStrategy {
    assert [whole] $a2 == tickLower && $a3 == tickUpper && #$a4 == got
    assert [c0] #$1 == pay0(T, P, got, tickLower, tickUpper)
    assert [c1] #$2 == pay1(T, P, got, tickLower, tickUpper)
    assert [affordable0] #$1 <= x0 && #(s.Amount0) == x0
    assert [affordable1] #$2 <= x1 && #(s.Amount1) == x1
  }

func strategy.IntervalAroundPriceStrategy.Init(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool)
  assumes tickmath.TickMath.GetSqrtRatioAtTick.range, liquidity_amounts.GetLiquidityForAmount.fits.below, liquidity_amounts.GetLiquidityForAmount.fits.in, liquidity_amounts.GetLiquidityForAmount.fits.above, pool.Pool.MintStrategy.fits, pool.Pool.MintStrategy.posfits
  fresh r0, r1
  requires s_ok(s)
  requires [width] s_fee(s.Pool) && s_sp(s.Pool.Fee) <= s.IntervalWidth && s.IntervalWidth <= 1000000
  ensures [rep] s_ok(s)
  ensures [returned] #r0 == old(#(s.Amount0)) && #r1 == old(#(s.Amount1))
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [length] len(s.Positions) == old(len(s.Positions)) + 1
  ensures [others] s_kept(s)
  ensures [core] s_same_core(s)
  at tickmath.TickMath.GetSqrtRatioAtTick@2 { use sqrtAt_mono(tickLower, tickUpper) }
  at liquidity_amounts.GetLiquidityForAmount {
    let got = #$1
    let T = s.Pool.TickCurrent
    let P = #(s.Pool.SqrtRatioX96)
    let x0 = #(s.Amount0)
    let x1 = #(s.Amount1)
    use charge_affordable_at(T, P, got, tickLower, tickUpper, #(s.Amount0), #(s.Amount1), #$a1, #$a2, #$a3, #$a4, #$a5)
    when T < tickUpper { use sqrtAt_mono_le(T + 1, tickUpper) }
    when tickLower <= T { use sqrtAt_mono_le(tickLower, T) }
    when got == 0 { use pay_nothing(T, P, tickLower, tickUpper) }
  }
  at pool.Pool.MintStrategy {
    assert [whole] $a2 == tickLower && $a3 == tickUpper && #$a4 == got
    assert [c0] #$1 == pay0(T, P, got, tickLower, tickUpper)
    assert [c1] #$2 == pay1(T, P, got, tickLower, tickUpper)
    assert [affordable0] #$1 <= x0 && #(s.Amount0) == x0
    assert [affordable1] #$2 <= x1 && #(s.Amount1) == x1
  }

foreach T in ConstantIntervalStrategy IntervalAroundPriceStrategy
func strategy.@T@.Rebalance(s) (r0, r1)
  mem heap
  opt maypanic
  opt reuse
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.credit0, s.credit1, s.burned
  assumes tickmath.TickMath.GetSqrtRatioAtTick.range, liquidity_amounts.GetLiquidityForAmount.fits.below, liquidity_amounts.GetLiquidityForAmount.fits.in, liquidity_amounts.GetLiquidityForAmount.fits.above, pool.Pool.MintStrategy.fits, pool.Pool.MintStrategy.posfits, pool.Pool.BurnStrategy.covers, pool.Pool.BurnStrategy.position
  fresh r0, r1
  requires s_ok(s)
  requires [width] s_width@T@(s)
  ensures [rep] s_ok(s)
  ensures [closed] s.burned == old(len(s.Positions)) && len(s.Positions) <= 1
  ensures [returned] #r0 == (old(#(s.Amount0)) + s.credit0) % 2^256 && #r1 == (old(#(s.Amount1)) + s.credit1) % 2^256
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [core] s_same_core(s)
  entry {
    set s.credit0 = 0
    set s.credit1 = 0
    set s.burned = 0
  }
  loop 1
    invariant s_ok(s) && s_same_core(s)
    invariant -1 <= rangeindex && rangeindex < len(s.Positions)
    invariant s.burned == rangeindex + 1
    invariant 0 <= s.credit0 && 0 <= s.credit1
    invariant #(s.Amount0) == (old(#(s.Amount0)) + s.credit0) % 2^256
    invariant #(s.Amount1) == (old(#(s.Amount1)) + s.credit1) % 2^256
    decreases len(s.Positions) - rangeindex
  before pool.Pool.BurnStrategy {
    assert [whole] $a2 == s.Positions[rangeindex].tickLower && $a3 == s.Positions[rangeindex].tickUpper && #$a4 == #(s.Positions[rangeindex].amount)
  }
  at pool.Pool.BurnStrategy {
    name w0 = #(s.Pool.Positions[pkey($a2, $a3)].TokensOwed0)
    name w1 = #(s.Pool.Positions[pkey($a2, $a3)].TokensOwed1)
  }
  at pool.Pool.CollectStrategy {
    assert [same] $a2 == s.Positions[rangeindex].tickLower && $a3 == s.Positions[rangeindex].tickUpper
    assert [all0] #$1 == w0
    assert [all1] #$2 == w1
    set s.credit0 = s.credit0 + w0
    set s.credit1 = s.credit1 + w1
    set s.burned = s.burned + 1
  }
  at tickmath.TickMath.GetSqrtRatioAtTick@2 { use sqrtAt_mono(tickLower, tickUpper) }
  at liquidity_amounts.GetLiquidityForAmount {
    let got = #$1
    let T = s.Pool.TickCurrent
    let P = #(s.Pool.SqrtRatioX96)
    let x0 = #(s.Amount0)
    let x1 = #(s.Amount1)
    use charge_affordable_at(T, P, got, tickLower, tickUpper, #(s.Amount0), #(s.Amount1), #$a1, #$a2, #$a3, #$a4, #$a5)
    when T < tickUpper { use sqrtAt_mono_le(T + 1, tickUpper) }
    when tickLower <= T { use sqrtAt_mono_le(tickLower, T) }
    when got == 0 { use pay_nothing(T, P, tickLower, tickUpper) }
  }
  at pool.Pool.MintStrategy {
    assert [valid] p_valid(tickLower, tickUpper) && got < 2^128
    assert [bought] $a2 == tickLower && $a3 == tickUpper && #$a4 == got
    assert [c0] #$1 == pay0(T, P, got, tickLower, tickUpper)
    assert [c1] #$2 == pay1(T, P, got, tickLower, tickUpper)
    assert [affordable0] #$1 <= x0 && #(s.Amount0) == x0
    assert [affordable1] #$2 <= x1 && #(s.Amount1) == x1
  }
end foreach

// Swap half of what one interval leaves over, then mint
// held0, held1: the holdings after the swap; bought: what the swap paid out
define s_swapped(s) = (s.held0 == old(#(s.Amount0)) && s.held1 == old(#(s.Amount1)))
  || (2 * (old(#(s.Amount0)) - s.held0) <= old(#(s.Amount0)) && s.held0 <= old(#(s.Amount0)) && s.held1 == (old(#(s.Amount1)) + s.bought) % 2^256)
  || (2 * (old(#(s.Amount1)) - s.held1) <= old(#(s.Amount1)) && s.held1 <= old(#(s.Amount1)) && s.held0 == (old(#(s.Amount0)) + s.bought) % 2^256)
lemma sub_neg(y, a, s)
  requires a == neg256(s) && 0 <= y && y < 2^256
  ensures sub256(y, a) == (y + s) % 2^256

func strategy.IntervalAroundPriceAndSwapStrategy.mintPosition(s, tickLower, tickUpper) ()
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.held0, s.held1, s.bought
  assumes liquidity_amounts.GetLiquidityForAmount.fits.below, liquidity_amounts.GetLiquidityForAmount.fits.in, liquidity_amounts.GetLiquidityForAmount.fits.above, liquidity_amounts.GetAmountsForLiquidity.small, pool.Pool.MintStrategy.fits, pool.Pool.MintStrategy.posfits, pool.Pool.ExactInputSwap.amount, pool.Pool.ExactInputSwap.hasticks
  requires s_ok(s)
  requires [tokens] s.Pool.Token0 != s.Pool.Token1
  requires [order] tickLower < tickUpper
  requires [range] 0 - 887272 <= tickLower && tickUpper <= 887272
  ensures [rep] s_ok(s)
  ensures [swap] s_swapped(s)
  ensures [never0] #(s.Amount0) <= s.held0
  ensures [never1] #(s.Amount1) <= s.held1
  ensures [record] len(s.Positions) == old(len(s.Positions)) + 1 && s.Positions[old(len(s.Positions))].tickLower == tickLower && s.Positions[old(len(s.Positions))].tickUpper == tickUpper
  ensures [others] s_kept(s)
  ensures [core] s.Pool.Token0 == old(s.Pool.Token0) && s.Pool.Token1 == old(s.Pool.Token1) && s.Pool.Fee == old(s.Pool.Fee)
  at tickmath.TickMath.GetSqrtRatioAtTick@2 {
    use sqrtAt_mono(tickLower, tickUpper)
    let a = sqrtAt(tickLower)
    let b = sqrtAt(tickUpper)
  }
  at liquidity_amounts.GetLiquidityForAmount@1 {
    let full = #$1
    let P0 = #(s.Pool.SqrtRatioX96)
    let y0 = #(s.Amount0)
    let y1 = #(s.Amount1)
    set s.held0 = #(s.Amount0)
    set s.held1 = #(s.Amount1)
  }
  at liquidity_amounts.GetAmountsForLiquidity {
    when P0 <= a {
      assert [f0] amt0up(full, a, b) <= y0
      assert [g0] #$1 == am0(a, b, full)
      use worth_le_charge(full, a, b)
    }
    when a < P0 && P0 < b {
      assert [f0] amt0up(full, P0, b) <= y0
      assert [f1] amt1up(full, a, P0) <= y1
      assert [g0] #$1 == am0(P0, b, full)
      assert [g1] #$2 == am1(a, P0, full)
      use worth_le_charge(full, P0, b)
      use worth_le_charge(full, a, P0)
    }
    when P0 >= b {
      assert [f1] amt1up(full, a, b) <= y1
      assert [g1] #$2 == am1(a, b, full)
      use worth_le_charge(full, a, b)
    }
    assert [worth0] #$1 <= y0
    assert [worth1] #$2 <= y1
  }
  at pool.Pool.ExactInputSwap {
    let z = $a3 == s.Pool.Token0
    assert [token] $a3 == s.Pool.Token0 || $a3 == s.Pool.Token1
    assert [sold0] z ==> 2 * #$1 <= y0 && #$1 >= 0
    assert [sold1] !z ==> 2 * #$2 <= y1 && #$2 >= 0
    assert [got0] z ==> #$2 == neg256(s.Pool.sout)
    assert [got1] !z ==> #$1 == neg256(s.Pool.sout)
    when z { use sub_neg(y1, #$2, s.Pool.sout) }
    when !z { use sub_neg(y0, #$1, s.Pool.sout) }
    set s.bought = s.Pool.sout
    set s.held0 = ite(z, y0 - #$1, (y0 + s.Pool.sout) % 2^256)
    set s.held1 = ite(z, (y1 + s.Pool.sout) % 2^256, y1 - #$2)
  }
  at liquidity_amounts.GetLiquidityForAmount@2 {
    let got = #$1
    let T = s.Pool.TickCurrent
    let P = #(s.Pool.SqrtRatioX96)
    let x0 = #(s.Amount0)
    let x1 = #(s.Amount1)
    assert [held] x0 == s.held0 && x1 == s.held1
    use charge_affordable_at(T, P, got, tickLower, tickUpper, #(s.Amount0), #(s.Amount1), #$a1, #$a2, #$a3, #$a4, #$a5)
    when T < tickUpper { use sqrtAt_mono_le(T + 1, tickUpper) }
    when tickLower <= T { use sqrtAt_mono_le(tickLower, T) }
    when got == 0 { use pay_nothing(T, P, tickLower, tickUpper) }
  }
  at pool.Pool.MintStrategy {
    assert [valid] p_valid(tickLower, tickUpper) && got < 2^128
    assert [bought] $a2 == tickLower && $a3 == tickUpper && #$a4 == got
    assert [c0] #$1 == pay0(T, P, got, tickLower, tickUpper)
    assert [c1] #$2 == pay1(T, P, got, tickLower, tickUpper)
    assert [affordable0] #$1 <= x0 && #(s.Amount0) == x0
    assert [affordable1] #$2 <= x1 && #(s.Amount1) == x1
  }

func strategy.IntervalAroundPriceAndSwapStrategy.Init(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.held0, s.held1, s.bought
  assumes strategy.IntervalAroundPriceAndSwapStrategy.mintPosition.range
  fresh r0, r1
  requires s_ok(s)
  requires [tokens] s.Pool.Token0 != s.Pool.Token1
  requires [width] s_fee(s.Pool) && s_sp(s.Pool.Fee) <= s.IntervalWidth && s.IntervalWidth <= 1000000
  ensures [rep] s_ok(s)
  ensures [returned] #r0 == old(#(s.Amount0)) && #r1 == old(#(s.Amount1))
  ensures [swap] s_swapped(s)
  ensures [never0] #(s.Amount0) <= s.held0
  ensures [never1] #(s.Amount1) <= s.held1
  ensures [others] len(s.Positions) == old(len(s.Positions)) + 1 && s_kept(s)

func strategy.IntervalAroundPriceAndSwapStrategy.Rebalance(s) (r0, r1)
  mem heap
  opt maypanic
  opt reuse
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.credit0, s.credit1, s.burned, s.held0, s.held1, s.bought
  assumes strategy.IntervalAroundPriceAndSwapStrategy.mintPosition.range, pool.Pool.BurnStrategy.covers, pool.Pool.BurnStrategy.position
  fresh r0, r1
  requires s_ok(s)
  requires [tokens] s.Pool.Token0 != s.Pool.Token1
  requires [width] s_fee(s.Pool) && s_sp(s.Pool.Fee) <= s.IntervalWidth && s.IntervalWidth <= 1000000
  ensures [rep] s_ok(s)
  ensures [closed] s.burned == old(len(s.Positions)) && len(s.Positions) == 1
  ensures [returned] #r0 == (old(#(s.Amount0)) + s.credit0) % 2^256 && #r1 == (old(#(s.Amount1)) + s.credit1) % 2^256
  ensures [swap] s.held0 <= #r0 && 2 * (#r0 - s.held0) <= #r0 || s.held1 <= #r1 && 2 * (#r1 - s.held1) <= #r1
  ensures [never0] #(s.Amount0) <= s.held0
  ensures [never1] #(s.Amount1) <= s.held1
  entry {
    set s.credit0 = 0
    set s.credit1 = 0
    set s.burned = 0
  }
  loop 1
    invariant s_ok(s) && s_same_core(s)
    invariant -1 <= rangeindex && rangeindex < len(s.Positions)
    invariant s.burned == rangeindex + 1
    invariant 0 <= s.credit0 && 0 <= s.credit1
    invariant #(s.Amount0) == (old(#(s.Amount0)) + s.credit0) % 2^256
    invariant #(s.Amount1) == (old(#(s.Amount1)) + s.credit1) % 2^256
    decreases len(s.Positions) - rangeindex
  before pool.Pool.BurnStrategy {
    assert [whole] $a2 == s.Positions[rangeindex].tickLower && $a3 == s.Positions[rangeindex].tickUpper && #$a4 == #(s.Positions[rangeindex].amount)
  }
  at pool.Pool.BurnStrategy {
    name w0 = #(s.Pool.Positions[pkey($a2, $a3)].TokensOwed0)
    name w1 = #(s.Pool.Positions[pkey($a2, $a3)].TokensOwed1)
  }
  at pool.Pool.CollectStrategy {
    assert [same] $a2 == s.Positions[rangeindex].tickLower && $a3 == s.Positions[rangeindex].tickUpper
    assert [all0] #$1 == w0
    assert [all1] #$2 == w1
    set s.credit0 = s.credit0 + w0
    set s.credit1 = s.credit1 + w1
    set s.burned = s.burned + 1
  }

func strategy.V2Strategy.Rebalance(s) (r0, r1)
  mem heap
  opt maypanic
  modifies #(s.Amount0), #(s.Amount1), s.Positions, deref(s.Pool), s.credit0, s.credit1, s.burned
  assumes strategy.V2Strategy.mintPosition.fits
  fresh r0, r1
  requires s_ok(s)
  ensures [rep] s_ok(s)
  ensures [closed] s.burned == old(len(s.Positions)) && len(s.Positions) <= 1
  ensures [returned] #r0 == (old(#(s.Amount0)) + s.credit0) % 2^256 && #r1 == (old(#(s.Amount1)) + s.credit1) % 2^256
  ensures [never0] #(s.Amount0) <= #r0
  ensures [never1] #(s.Amount1) <= #r1
  ensures [core] s_same_core(s)

// Strategy without positions
func strategy.NoProvisionStrategy.Init(s) (r0, r1)
  mem heap
  fresh r0, r1
  ensures [returned] #r0 == #(s.Amount0) && #r1 == #(s.Amount1)
func strategy.NoProvisionStrategy.BurnAll(s) (r0, r1)
  mem heap
  fresh r0, r1
  ensures [returned] #r0 == #(s.Amount0) && #r1 == #(s.Amount1)
func strategy.NoProvisionStrategy.GetAmounts(s) (r0, r1)
  mem heap
  fresh r0, r1
  ensures [value] #r0 == #(s.Amount0) && #r1 == #(s.Amount1)

// Construction: own copies of the amounts and of the pool, and no positions
define s_copy(n, p) = n.Token0 == p.Token0 && n.Token1 == p.Token1 && n.Fee == p.Fee && n.TickCurrent == p.TickCurrent && #(n.SqrtRatioX96) == #(p.SqrtRatioX96) && #(n.Liquidity) == #(p.Liquidity)
foreach T in V2Strategy
func strategy.New@T@(amount0, amount1, pool) (r)
  mem heap
  fresh r
  requires pool_ok(pool)
  ensures [rep] s_ok(r)
  ensures [amounts] #(r.Amount0) == #amount0 && #(r.Amount1) == #amount1
  ensures [pool] s_copy(r.Pool, pool)
  ensures [empty] len(r.Positions) == 0
end foreach
func strategy.NewNoProvisionStrategy(amount0, amount1, pool) (r)
  mem heap
  fresh r
  requires pool_ok(pool)
  ensures [rep] pool_ok(r.Pool)
  ensures [amounts] #(r.Amount0) == #amount0 && #(r.Amount1) == #amount1
  ensures [pool] s_copy(r.Pool, pool)
func strategy.NewTwoIntervalAroundPriceStrategy(amount0, amount1, pool, a, b) (r)
  mem heap
  fresh r
  requires pool_ok(pool)
  ensures [rep] s_ok(r)
  ensures [amounts] #(r.Amount0) == #amount0 && #(r.Amount1) == #amount1
  ensures [pool] s_copy(r.Pool, pool)
  ensures [empty] len(r.Positions) == 0
  ensures [widths] r.a == a && r.b == b
foreach T in ConstantIntervalStrategy IntervalAroundPriceStrategy IntervalAroundPriceAndSwapStrategy FillUpStrategy LimitOrderStrategy
func strategy.New@T@(amount0, amount1, pool, intervalWidth) (r)
  mem heap
  fresh r
  requires pool_ok(pool)
  ensures [rep] s_ok(r)
  ensures [amounts] #(r.Amount0) == #amount0 && #(r.Amount1) == #amount1
  ensures [pool] s_copy(r.Pool, pool)
  ensures [empty] len(r.Positions) == 0
  ensures [width] r.IntervalWidth == intervalWidth
end foreach
foreach T in BollingerBandsStrategy BollingerBandsFillUpStrategy VolatilitySizedIntervalStrategy
func strategy.New@T@(amount0, amount1, pool, amountAverageSnapshots, multiplier) (r)
  mem heap
  fresh r
  requires pool_ok(pool)
  requires 1 <= amountAverageSnapshots && amountAverageSnapshots <= 2^24 && 0 <= multiplier
  ensures [rep] s_ok(r)
  ensures [amounts] #(r.Amount0) == #amount0 && #(r.Amount1) == #amount1
  ensures [pool] s_copy(r.Pool, pool)
  ensures [empty] len(r.Positions) == 0
  ensures [multiplier] #(r.MultiplierX10) == multiplier
end foreach
func strategy.NewIntervalAroundAverageStrategy(amount0, amount1, pool, intervalWidth, amountAverageSnapshots) (r)
  mem heap
  fresh r
  requires pool_ok(pool)
  requires 1 <= amountAverageSnapshots && amountAverageSnapshots <= 2^24
  ensures [rep] s_ok(r)
  ensures [amounts] #(r.Amount0) == #amount0 && #(r.Amount1) == #amount1
  ensures [pool] s_copy(r.Pool, pool)
  ensures [empty] len(r.Positions) == 0
  ensures [width] r.IntervalWidth == intervalWidth
