// liquidity_amounts: largest liquidity for given amounts and the amounts a liquidity is worth
define liq0(a, b, x) = (x * ((max(a,b) * min(a,b)) / 2^96)) / (max(a,b) - min(a,b))
define liq1(a, b, x) = (x * 2^96) / (max(a,b) - min(a,b))
define am0(a, b, L) = ((L * 2^96 * (max(a,b) - min(a,b))) / max(a,b)) / min(a,b)
define am1(a, b, L) = (L * (max(a,b) - min(a,b))) / 2^96
define liq0fits(a, b, x) = x * ((max(a,b) * min(a,b)) / 2^96) < (max(a,b) - min(a,b)) * T256
define liq1fits(a, b, x) = x * 2^96 < (max(a,b) - min(a,b)) * T256

func liquidity_amounts.getLiquidityForAmount0(sqrtRatioAX96, sqrtRatioBX96, amount0) (r)
  opt alias = pure
  requires #sqrtRatioAX96 < 2^160 && #sqrtRatioBX96 < 2^160 && #sqrtRatioAX96 != #sqrtRatioBX96
  requires liq0fits(#sqrtRatioAX96, #sqrtRatioBX96, #amount0)
  fresh r
  ensures #r == liq0(#sqrtRatioAX96, #sqrtRatioBX96, #amount0)

func liquidity_amounts.getLiquidityForAmount1(sqrtRatioAX96, sqrtRatioBX96, amount1) (r)
  opt alias = pure
  requires #sqrtRatioAX96 != #sqrtRatioBX96
  requires liq1fits(#sqrtRatioAX96, #sqrtRatioBX96, #amount1)
  fresh r
  ensures #r == liq1(#sqrtRatioAX96, #sqrtRatioBX96, #amount1)

func liquidity_amounts.getAmount0ForLiquidity(sqrtRatioAX96, sqrtRatioBX96, liquidity) (r)
  opt alias = pure
  requires 0 < #sqrtRatioAX96 && 0 < #sqrtRatioBX96
  requires #liquidity < 2^160
  fresh r
  ensures #r == am0(#sqrtRatioAX96, #sqrtRatioBX96, #liquidity)

func liquidity_amounts.getAmount1ForLiquidity(sqrtRatioAX96, sqrtRatioBX96, liquidity) (r)
  opt alias = pure
  requires #sqrtRatioAX96 < 2^160 && #sqrtRatioBX96 < 2^160
  requires #liquidity < 2^160
  fresh r
  ensures #r == am1(#sqrtRatioAX96, #sqrtRatioBX96, #liquidity)

// the amounts a deposit of the computed liquidity is charged never exceed the given amounts
lemma liq0_affordable(a, b, x)
  requires 0 < a && a < b && 0 <= x
  ensures amt0up(liq0(a, b, x), a, b) <= x
  ensures 0 <= liq0(a, b, x)
  proof {
    use mul_lt(0, a, b)
    name I = (b*a) / 2^96
    use div_def(b*a, 2^96)
    use div_nonneg(b*a, 2^96)
    use mul_nonneg(x, I)
    name L = (x*I) / (b - a)
    use div_def(x*I, b - a)
    use div_nonneg(x*I, b - a)
    use mul_eq(L, (x*I)/(b-a), b - a)
    assert L*(b - a) <= x*I
    use mul_le(I*2^96, a*b, x)
    use cdiv_le(x, L*2^96*(b-a), b*a)
  }
lemma liq1_affordable(a, b, x)
  requires 0 <= a && a < b && 0 <= x
  ensures amt1up(liq1(a, b, x), a, b) <= x
  ensures 0 <= liq1(a, b, x)
  proof {
    name L = (x*2^96) / (b - a)
    use div_def(x*2^96, b - a)
    use div_nonneg(x*2^96, b - a)
    use mul_eq(L, (x*2^96)/(b-a), b - a)
    use cdiv_le(x, L*(b-a), 2^96)
  }
lemma amt0up_mono(L, M, a, b)
  requires 0 < a && a <= b && 0 <= L && L <= M
  ensures amt0up(L, a, b) <= amt0up(M, a, b)
  proof { use mul_lt(0, a, b); use mul_le(L, M, b - a); use mul_nonneg(L, b - a); use cdiv_mono(L*2^96*(b-a), M*2^96*(b-a), b*a) }
lemma amt1up_mono(L, M, a, b)
  requires 0 <= a && a <= b && 0 <= L && L <= M
  ensures amt1up(L, a, b) <= amt1up(M, a, b)
  proof { use mul_le(L, M, b - a); use mul_nonneg(L, b - a); use cdiv_mono(L*(b-a), M*(b-a), 2^96) }

define liqlo(A, B) = min(A, B)
define liqhi(A, B) = max(A, B)
define liqfor(P, a, b, x0, x1) = pick(P <= a, liq0(a, b, x0), pick(P < b, min(liq0(P, b, x0), liq1(a, P, x1)), liq1(a, b, x1)))

func liquidity_amounts.GetLiquidityForAmount(sqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, amount0, amount1) (r)
  opt alias = pure
  requires [prices] #sqrtRatioX96 < 2^160 && #sqrtRatioAX96 < 2^160 && #sqrtRatioBX96 < 2^160
  requires [interval] #sqrtRatioAX96 > 0 && #sqrtRatioBX96 > 0 && #sqrtRatioAX96 != #sqrtRatioBX96
  requires [fits.below] #sqrtRatioX96 <= min(#sqrtRatioAX96, #sqrtRatioBX96) ==> liq0fits(#sqrtRatioAX96, #sqrtRatioBX96, #amount0)
  requires [fits.in] min(#sqrtRatioAX96, #sqrtRatioBX96) < #sqrtRatioX96 && #sqrtRatioX96 < max(#sqrtRatioAX96, #sqrtRatioBX96) ==> liq0fits(#sqrtRatioX96, max(#sqrtRatioAX96, #sqrtRatioBX96), #amount0) && liq1fits(min(#sqrtRatioAX96, #sqrtRatioBX96), #sqrtRatioX96, #amount1)
  requires [fits.above] #sqrtRatioX96 >= max(#sqrtRatioAX96, #sqrtRatioBX96) ==> liq1fits(#sqrtRatioAX96, #sqrtRatioBX96, #amount1)
  fresh r
  ensures [value] #sqrtRatioAX96 < #sqrtRatioBX96 ==> #r == liqfor(#sqrtRatioX96, #sqrtRatioAX96, #sqrtRatioBX96, #amount0, #amount1)
  ensures [value.swapped] #sqrtRatioAX96 > #sqrtRatioBX96 ==> #r == liqfor(#sqrtRatioX96, #sqrtRatioBX96, #sqrtRatioAX96, #amount0, #amount1)
  ensures [affordable0] #sqrtRatioX96 < max(#sqrtRatioAX96, #sqrtRatioBX96) ==> amt0up(#r, max(#sqrtRatioX96, min(#sqrtRatioAX96, #sqrtRatioBX96)), max(#sqrtRatioAX96, #sqrtRatioBX96)) <= #amount0
  ensures [affordable1] #sqrtRatioX96 > min(#sqrtRatioAX96, #sqrtRatioBX96) ==> amt1up(#r, min(#sqrtRatioAX96, #sqrtRatioBX96), min(#sqrtRatioX96, max(#sqrtRatioAX96, #sqrtRatioBX96))) <= #amount1
  exit {
    let a = min(#sqrtRatioAX96, #sqrtRatioBX96)
    let b = max(#sqrtRatioAX96, #sqrtRatioBX96)
    let P = #sqrtRatioX96
    when P <= a { use liq0_affordable(a, b, #amount0) }
    when P >= b { use liq1_affordable(a, b, #amount1) }
    when a < P && P < b {
      use liq0_affordable(P, b, #amount0)
      use liq1_affordable(a, P, #amount1)
      use amt0up_mono(#r, liq0(P, b, #amount0), P, b)
      use amt1up_mono(#r, liq1(a, P, #amount1), a, P)
    }
  }

func liquidity_amounts.GetAmountsForLiquidity(sqrtRatioX96, sqrtRatioAX96, sqrtRatioBX96, liquidity) (r0, r1)
  opt alias = pure
  requires #sqrtRatioX96 < 2^160 && #sqrtRatioAX96 < 2^160 && #sqrtRatioBX96 < 2^160
  requires #sqrtRatioAX96 > 0 && #sqrtRatioBX96 > 0
  requires [small] #liquidity < 2^160
  fresh r0, r1
  ensures [amount0.in] #sqrtRatioX96 > min(#sqrtRatioAX96, #sqrtRatioBX96) && #sqrtRatioX96 < max(#sqrtRatioAX96, #sqrtRatioBX96) ==> #r0 == am0(#sqrtRatioX96, max(#sqrtRatioAX96, #sqrtRatioBX96), #liquidity)
  ensures [amount0.below] #sqrtRatioX96 <= min(#sqrtRatioAX96, #sqrtRatioBX96) ==> #r0 == am0(#sqrtRatioAX96, #sqrtRatioBX96, #liquidity)
  ensures [amount0.above] #sqrtRatioX96 > min(#sqrtRatioAX96, #sqrtRatioBX96) && #sqrtRatioX96 >= max(#sqrtRatioAX96, #sqrtRatioBX96) ==> #r0 == 0
  ensures [amount1.in] #sqrtRatioX96 > min(#sqrtRatioAX96, #sqrtRatioBX96) && #sqrtRatioX96 < max(#sqrtRatioAX96, #sqrtRatioBX96) ==> #r1 == am1(min(#sqrtRatioAX96, #sqrtRatioBX96), #sqrtRatioX96, #liquidity)
  ensures [amount1.below] #sqrtRatioX96 <= min(#sqrtRatioAX96, #sqrtRatioBX96) ==> #r1 == 0
  ensures [amount1.above] #sqrtRatioX96 > min(#sqrtRatioAX96, #sqrtRatioBX96) && #sqrtRatioX96 >= max(#sqrtRatioAX96, #sqrtRatioBX96) ==> #r1 == am1(#sqrtRatioAX96, #sqrtRatioBX96, #liquidity)

// what a liquidity is worth never exceeds what was charged for it
lemma worth_le_charge(L, a, b)
  requires 0 < a && a < b && 0 <= L
  ensures am0(a, b, L) <= amt0up(L, a, b)
  ensures am1(a, b, L) <= amt1up(L, a, b)
  proof {
    use mul_lt(0, a, b)
    use mul_nonneg(L, b - a)
    use div_div(L*2^96*(b-a), b, a)
    use div_le_cdiv(L*2^96*(b-a), b*a)
    use div_le_cdiv(L*(b-a), 2^96)
  }
