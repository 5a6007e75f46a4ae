// sqrtprice_math: token amounts between two sqrt prices and the next price after an amount
define _n1(L) = L * 2^96
define amt0n(L, a, b) = L * 2^96 * (max(a,b) - min(a,b))
define amt0down(L, a, b) = amt0n(L, a, b) / (max(a,b) * min(a,b))
define amt0up(L, a, b) = cdiv(amt0n(L, a, b), max(a,b) * min(a,b))
define amt1down(L, a, b) = (L * (max(a,b) - min(a,b))) / 2^96
define amt1up(L, a, b) = cdiv(L * (max(a,b) - min(a,b)), 2^96)

func sqrtprice_math.GetAmount0Delta(sqrtRatioAX96, sqrtRatioBX96, liquidity, roundUp) (r)
  opt alias = pure
  requires 0 < #sqrtRatioAX96 && 0 < #sqrtRatioBX96
  requires #liquidity < 2^160
  fresh r
  ensures [down] !roundUp ==> #r == amt0down(#liquidity, #sqrtRatioAX96, #sqrtRatioBX96)
  ensures [up] roundUp ==> #r == amt0up(#liquidity, #sqrtRatioAX96, #sqrtRatioBX96)
  at uint256.Int.Sub {
    let hi = max(#sqrtRatioAX96, #sqrtRatioBX96)
    let lo = min(#sqrtRatioAX96, #sqrtRatioBX96)
    let N = #liquidity * 2^96 * (hi - lo)
    use mul_nonneg(#liquidity, hi - lo)
    use mul_le2(#liquidity * 2^96, T256 - 2^96, hi - lo, hi)
    use div_div(N, hi, lo)
    use cdiv_cdiv(N, hi, lo)
    use cdiv_le(T256 - 2^96, N, hi)
    use cdiv_ge(0, N, hi)
    use mul_le(1, lo, T256 - 1)
  }

func sqrtprice_math.GetAmount1Delta(sqrtRatioAX96, sqrtRatioBX96, liquidity, roundUp) (r)
  opt alias = pure
  requires #sqrtRatioAX96 < 2^160 && #sqrtRatioBX96 < 2^160
  requires #liquidity < 2^160
  fresh r
  ensures [down] !roundUp ==> #r == amt1down(#liquidity, #sqrtRatioAX96, #sqrtRatioBX96)
  ensures [up] roundUp ==> #r == amt1up(#liquidity, #sqrtRatioAX96, #sqrtRatioBX96)
  at uint256.Int.Sub {
    let hi = max(#sqrtRatioAX96, #sqrtRatioBX96)
    let lo = min(#sqrtRatioAX96, #sqrtRatioBX96)
    use mul_nonneg(#liquidity, hi - lo)
    use mul_le2(#liquidity, 2^160, hi - lo, 2^160)
  }

// signed liquidity: a removal pays out rounded down, an addition charges rounded up
func sqrtprice_math.GetAmount0DeltaRounded(sqrtRatioAX96, sqrtRatioBX96, liquidity) (r)
  opt alias = pure
  requires 0 < #sqrtRatioAX96 && 0 < #sqrtRatioBX96
  requires #liquidity < 2^128 || T256 - #liquidity < 2^128
  fresh r
  ensures [charge] !isneg(#liquidity) ==> #r == amt0up(#liquidity, #sqrtRatioAX96, #sqrtRatioBX96)
  ensures [payout] isneg(#liquidity) ==> #r == neg256(amt0down(neg256(#liquidity), #sqrtRatioAX96, #sqrtRatioBX96))

func sqrtprice_math.GetAmount1DeltaRounded(sqrtRatioAX96, sqrtRatioBX96, liquidity) (r)
  opt alias = pure
  requires #sqrtRatioAX96 < 2^160 && #sqrtRatioBX96 < 2^160
  requires #liquidity < 2^128 || T256 - #liquidity < 2^128
  fresh r
  ensures [charge] !isneg(#liquidity) ==> #r == amt1up(#liquidity, #sqrtRatioAX96, #sqrtRatioBX96)
  ensures [payout] isneg(#liquidity) ==> #r == neg256(amt1down(neg256(#liquidity), #sqrtRatioAX96, #sqrtRatioBX96))

// next price after adding or removing an amount; every result rounds in the
// pool's favour
define nx0add(P, L, A) = ite(A == 0, P, ite(A*P < T256 && L*2^96 + A*P < T256, cdiv(L*2^96*P, L*2^96 + A*P), cdiv(L*2^96, (L*2^96)/P + A)))
define nx0sub(P, L, A) = ite(A == 0, P, cdiv(L*2^96*P, L*2^96 - A*P))

func sqrtprice_math.getNextSqrtPriceFromAmount0RoundingUp(sqrtPX96, liquidity, amount, add) (r)
  opt alias = pure
  requires 0 < #sqrtPX96 && #sqrtPX96 < 2^160
  requires 0 < #liquidity && #liquidity < 2^128
  requires add ==> #amount < 2^255
  requires !add ==> #amount * #sqrtPX96 < #liquidity * 2^96
  requires !add ==> #liquidity*2^96*#sqrtPX96 <= (#liquidity*2^96 - #amount*#sqrtPX96) * (2^160 - 1)
  shared r of (sqrtPX96)
  ensures [add] add ==> #r == nx0add(#sqrtPX96, #liquidity, #amount)
  ensures [sub] !add ==> #r == nx0sub(#sqrtPX96, #liquidity, #amount)

define nx1add(P, L, A) = P + (A*2^96)/L
define nx1sub(P, L, A) = P - cdiv(A*2^96, L)

func sqrtprice_math.getNextSqrtPriceFromAmount1RoundingDown(sqrtPX96, liquidity, amount, add) (r)
  opt alias = pure
  requires #sqrtPX96 < 2^160
  requires 0 < #liquidity && #liquidity < 2^128
  requires add ==> nx1add(#sqrtPX96, #liquidity, #amount) < T256
  requires !add ==> cdiv(#amount*2^96, #liquidity) <= #sqrtPX96
  fresh r
  ensures [add] add ==> #r == nx1add(#sqrtPX96, #liquidity, #amount)
  ensures [sub] !add ==> #r == nx1sub(#sqrtPX96, #liquidity, #amount)

define nonpos(a) = a == 0 || isneg(a)

func sqrtprice_math.GetNextSqrtPriceFromInput(sqrtPX96, liquidity, amountIn, zeroForOne) (r)
  opt alias = pure
  panics_if nonpos(#sqrtPX96) || nonpos(#liquidity)
  requires #sqrtPX96 < 2^160
  requires #liquidity < 2^128
  requires zeroForOne ==> #amountIn < 2^255
  requires !zeroForOne && #liquidity > 0 ==> nx1add(#sqrtPX96, #liquidity, #amountIn) < T256
  shared r of (sqrtPX96)
  ensures [zeroForOne] zeroForOne ==> #r == nx0add(#sqrtPX96, #liquidity, #amountIn)
  ensures [oneForZero] !zeroForOne ==> #r == nx1add(#sqrtPX96, #liquidity, #amountIn)

func sqrtprice_math.GetNextSqrtPriceFromOutput(sqrtPX96, liquidity, amountOut, zeroForOne) (r)
  opt alias = pure
  panics_if nonpos(#sqrtPX96) || nonpos(#liquidity)
  requires #sqrtPX96 < 2^160
  requires #liquidity < 2^128
  requires zeroForOne && #liquidity > 0 ==> cdiv(#amountOut*2^96, #liquidity) <= #sqrtPX96
  requires !zeroForOne ==> #amountOut * #sqrtPX96 < #liquidity * 2^96
  requires !zeroForOne ==> #liquidity*2^96*#sqrtPX96 <= (#liquidity*2^96 - #amountOut*#sqrtPX96) * (2^160 - 1)
  shared r of (sqrtPX96)
  ensures [zeroForOne] zeroForOne ==> #r == nx1sub(#sqrtPX96, #liquidity, #amountOut)
  ensures [oneForZero] !zeroForOne ==> #r == nx0sub(#sqrtPX96, #liquidity, #amountOut)
