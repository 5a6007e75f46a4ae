// Package pool: liquidity, swaps and fees of one pool.
//
// lo[k] / up[k]: liquidity of the ranges that start / end at tick k, as the
// history of mints and burns has left it.
ghost pool.Pool
  field lo: words
  field up: words
  // of the last swap: input without fees, fees, output (modulo 2^256) and the
  // growth of the fees per unit of liquidity, summed over its steps
  field sin: num
  field sfee: num
  field sout: num
  field sgrow: num
  field sspread: num
  field sactive: num
  // growth of the input token when the last swap crossed tick k
  field gx: words
  // and what the liquidity curve gives for its price moves, step by step
  field scin: num
  field scout: num

define MINSQ = 4295128739
define MAXSQ = 1461446703485210103287273052203988822378723970342

// what every operation on a pool keeps
define p_ticks(p) = (forall k {p.lo[k]} {p.up[k]} {p.TickData.has[k]} :: p.TickData.has[k] ==> p.TickData.gross[k] == p.lo[k] + p.up[k] && 0 - 887272 <= k && k <= 887272)
  && (forall k {p.lo[k]} {p.up[k]} {p.TickData.has[k]} :: !p.TickData.has[k] ==> p.lo[k] == 0 && p.up[k] == 0)
  && (forall k {p.lo[k]} {p.up[k]} :: p.TickData.L[k] == p.TickData.L[k - 1] + p.lo[k] - p.up[k])
define p_small(p) = (forall k {p.TickData.L[k]} :: p.TickData.L[k] < 2^128) && (forall k {p.lo[k]} :: p.lo[k] < 2^128) && (forall k {p.up[k]} :: p.up[k] < 2^128)
define p_active(p) = #(p.Liquidity) == p.TickData.L[p.TickCurrent]
define p_price(p) = 0 - 887272 <= p.TickCurrent && p.TickCurrent < 887272 && sqrtAt(p.TickCurrent) <= #(p.SqrtRatioX96) && #(p.SqrtRatioX96) <= sqrtAt(p.TickCurrent + 1) && #(p.SqrtRatioX96) < MAXSQ
define p_fee(p) = 0 <= p.Fee && p.Fee < 1000000
define pool_ok(p) = p_ticks(p) && p_small(p) && p_active(p) && p_price(p) && p_fee(p)

define p_same_ticks(p) = (forall k {p.TickData.has[k]} :: p.TickData.has[k] == old(p.TickData.has[k]))
   && (forall k {p.TickData.L[k]} :: p.TickData.L[k] == old(p.TickData.L[k]))
   && (forall k {p.TickData.gross[k]} :: p.TickData.gross[k] == old(p.TickData.gross[k]))
   && (forall k {p.TickData.fo0[k]} :: p.TickData.fo0[k] == old(p.TickData.fo0[k]))
   && (forall k {p.TickData.fo1[k]} :: p.TickData.fo1[k] == old(p.TickData.fo1[k]))

define p_same_core(p) = p.Token0 == old(p.Token0) && p.Token1 == old(p.Token1) && #(p.SqrtRatioX96) == old(#(p.SqrtRatioX96)) && p.TickCurrent == old(p.TickCurrent) && p.TickSpacing == old(p.TickSpacing) && p.Fee == old(p.Fee) && p.TickData.tickSpacing == old(p.TickData.tickSpacing)
define p_same_growth(p) = #(p.FeeGrowthGlobal0X128) == old(#(p.FeeGrowthGlobal0X128)) && #(p.FeeGrowthGlobal1X128) == old(#(p.FeeGrowthGlobal1X128))
define p_same_liquidity(p) = #(p.Liquidity) == old(#(p.Liquidity))
define p_same_terms(p, k) = #(p.Positions[k].Liquidity) == old(#(p.Positions[k].Liquidity))
   && #(p.Positions[k].FeeGrowthInside0LastX128) == old(#(p.Positions[k].FeeGrowthInside0LastX128)) && #(p.Positions[k].FeeGrowthInside1LastX128) == old(#(p.Positions[k].FeeGrowthInside1LastX128))
define p_same_owed(p, k) = #(p.Positions[k].TokensOwed0) == old(#(p.Positions[k].TokensOwed0)) && #(p.Positions[k].TokensOwed1) == old(#(p.Positions[k].TokensOwed1))
define p_same_other(p, key) = forall k {haskey(p.Positions, k)} {p.Positions[k].Liquidity} {p.Positions[k].TokensOwed0} {p.Positions[k].TokensOwed1} {p.Positions[k].FeeGrowthInside0LastX128} {p.Positions[k].FeeGrowthInside1LastX128} :: k != key ==> haskey(p.Positions, k) == old(haskey(p.Positions, k)) && p_same_terms(p, k) && p_same_owed(p, k)
define p_same_positions(p) = forall k {haskey(p.Positions, k)} {p.Positions[k].Liquidity} {p.Positions[k].TokensOwed0} {p.Positions[k].TokensOwed1} {p.Positions[k].FeeGrowthInside0LastX128} {p.Positions[k].FeeGrowthInside1LastX128} :: haskey(p.Positions, k) == old(haskey(p.Positions, k)) && p_same_terms(p, k) && p_same_owed(p, k)

func position.Info.Clone(i) (r)
  mem heap
  fresh r
  ensures [liquidity] #(r.Liquidity) == #(i.Liquidity)
  ensures [last] #(r.FeeGrowthInside0LastX128) == #(i.FeeGrowthInside0LastX128) && #(r.FeeGrowthInside1LastX128) == #(i.FeeGrowthInside1LastX128)
  ensures [owed] #(r.TokensOwed0) == #(i.TokensOwed0) && #(r.TokensOwed1) == #(i.TokensOwed1)

func pool.NewPool(token0, token1, fee, sqrtRatioX96) (p)
  mem heap
  opt shares
  fresh p
  requires fee == 500 || fee == 3000 || fee == 10000
  panics_if #sqrtRatioX96 < MINSQ || #sqrtRatioX96 >= MAXSQ
  ensures [rep] pool_ok(p)
  ensures [fee] p.Fee == fee
  ensures [price] #(p.SqrtRatioX96) == #sqrtRatioX96 && sqrtAt(p.TickCurrent) <= #sqrtRatioX96 && #sqrtRatioX96 < sqrtAt(p.TickCurrent + 1)
  ensures [spacing] p.TickSpacing == ite(fee == 500, 10, ite(fee == 3000, 60, 200)) && p.TickData.tickSpacing == p.TickSpacing
  ensures [empty] #(p.Liquidity) == 0 && #(p.FeeGrowthGlobal0X128) == 0 && #(p.FeeGrowthGlobal1X128) == 0
  ensures [noticks] forall k {p.TickData.has[k]} :: !p.TickData.has[k]
  ensures [nopositions] forall k {haskey(p.Positions, k)} :: !haskey(p.Positions, k)
  exit {
    set p.lo[k] = 0
    set p.up[k] = 0
  }

// Collect pays out everything a position is owed and changes nothing else
func pool.Pool.CollectStrategy(p, tickLower, tickUpper) (amount0, amount1)
  mem heap
  modifies p
  fresh amount0, amount1
  panics_if !haskey(p.Positions, poskey(tickLower, tickUpper))
  requires pool_ok(p)
  ensures [rep] pool_ok(p)
  ensures [all] #amount0 == old(#(p.Positions[poskey(tickLower, tickUpper)].TokensOwed0)) && #amount1 == old(#(p.Positions[poskey(tickLower, tickUpper)].TokensOwed1))
  ensures [zero] #(p.Positions[poskey(tickLower, tickUpper)].TokensOwed0) == 0 && #(p.Positions[poskey(tickLower, tickUpper)].TokensOwed1) == 0
  ensures [same] haskey(p.Positions, poskey(tickLower, tickUpper)) && p_same_terms(p, poskey(tickLower, tickUpper)) && p_same_other(p, poskey(tickLower, tickUpper))
  ensures [core] p_same_core(p) && p_same_growth(p) && p_same_liquidity(p) && p_same_ticks(p)

func pool.Pool.Flash(p, amount0, amount1)
  mem heap
  modifies p
  requires pool_ok(p)
  requires [amounts] #amount0 < 2^128 && #amount1 < 2^128
  panics_if #(p.Liquidity) == 0
  ensures [rep] pool_ok(p)
  ensures [grow0] #(p.FeeGrowthGlobal0X128) == wadd(old(#(p.FeeGrowthGlobal0X128)), (cdiv(#amount0 * p.Fee, 1000000) * 2^128) / #(p.Liquidity))
  ensures [grow1] #(p.FeeGrowthGlobal1X128) == wadd(old(#(p.FeeGrowthGlobal1X128)), (cdiv(#amount1 * p.Fee, 1000000) * 2^128) / #(p.Liquidity))
  ensures [core] p_same_core(p) && p_same_liquidity(p) && p_same_ticks(p) && p_same_positions(p)
  at fullmath.MulDivRoundingUp@1 { name f0 = #$1; assert [f0] f0 == cdiv(#amount0 * p.Fee, 1000000) }
  at fullmath.MulDivRoundingUp@2 { name f1 = #$1; assert [f1] f1 == cdiv(#amount1 * p.Fee, 1000000) }
  at fullmath.MulDiv@1 { use div_cong(#$a1 * #$a2, #$a3, cdiv(#amount0 * p.Fee, 1000000) * 2^128, #(p.Liquidity)) }
  at fullmath.MulDiv@2 { use div_cong(#$a1 * #$a2, #$a3, cdiv(#amount1 * p.Fee, 1000000) * 2^128, #(p.Liquidity)) }

// what minting a (a burn: -a) on [lower, upper) does to the ticks
define p_moved(p, d, lower, upper) = forall k {p.TickData.L[k]} :: p.TickData.L[k] == ite(lower <= k && k < upper, wadd(old(p.TickData.L[k]), d), old(p.TickData.L[k]))
define p_gross(p, d, lower, upper) = forall k {p.TickData.gross[k]} :: p.TickData.has[k] ==> p.TickData.gross[k] == ite(k == lower || k == upper, wadd(ite(old(p.TickData.has[k]), old(p.TickData.gross[k]), 0), d), old(p.TickData.gross[k]))
define p_valid(lower, upper) = lower < upper && 0 - 887272 <= lower && upper <= 887272
define p_fits(p, a, lower, upper) = (forall k {p.TickData.L[k]} :: lower <= k && k < upper ==> p.TickData.L[k] + a < 2^128) && p.lo[lower] + a < 2^128 && p.up[upper] + a < 2^128
define p_covers(p, a, lower, upper) = (forall k {p.TickData.L[k]} :: lower <= k && k < upper ==> p.TickData.L[k] >= a) && p.lo[lower] >= a && p.up[upper] >= a

func pool.Pool.Mint(p, tickLower, tickUpper, amount)
  mem heap
  modifies p
  requires pool_ok(p)
  requires [fits] sgn(#amount) > 0 && p_valid(tickLower, tickUpper) ==> p_fits(p, #amount, tickLower, tickUpper)
  panics_if sgn(#amount) <= 0 || !p_valid(tickLower, tickUpper)
  ensures [rep] pool_ok(p)
  ensures [active] #(p.Liquidity) == ite(tickLower <= p.TickCurrent && p.TickCurrent < tickUpper, old(#(p.Liquidity)) + #amount, old(#(p.Liquidity)))
  ensures [L] p_moved(p, #amount, tickLower, tickUpper)
  ensures [gross] p_gross(p, #amount, tickLower, tickUpper)
  ensures [has] forall k {p.TickData.has[k]} :: p.TickData.has[k] == (k == tickLower || k == tickUpper || old(p.TickData.has[k]))
  ensures [same] p_same_core(p) && p_same_growth(p) && p_same_positions(p)
  at tickdata.TickData.UpdateTick@2 {
    set p.lo[k] = ite(k == tickLower, p.lo[k] + #amount, p.lo[k])
    set p.up[k] = ite(k == tickUpper, p.up[k] + #amount, p.up[k])
  }

// Burn: the caller must not burn more than was minted on the range
func pool.Pool.Burn(p, tickLower, tickUpper, amount)
  mem heap
  modifies p
  requires pool_ok(p)
  requires [covers] p_valid(tickLower, tickUpper) ==> #amount < 2^128 && p_covers(p, #amount, tickLower, tickUpper)
  panics_if !p_valid(tickLower, tickUpper)
  ensures [rep] pool_ok(p)
  ensures [active] #(p.Liquidity) == ite(tickLower <= p.TickCurrent && p.TickCurrent < tickUpper, old(#(p.Liquidity)) - #amount, old(#(p.Liquidity)))
  ensures [L] p_moved(p, neg256(#amount), tickLower, tickUpper)
  ensures [gross] p_gross(p, neg256(#amount), tickLower, tickUpper)
  ensures [has] forall k {p.TickData.has[k]} :: k != tickLower && k != tickUpper ==> p.TickData.has[k] == old(p.TickData.has[k])
  ensures [cleared] #amount > 0 ==> p.TickData.has[tickLower] == (p.TickData.gross[tickLower] != 0) && p.TickData.has[tickUpper] == (p.TickData.gross[tickUpper] != 0)
  ensures [same] p_same_core(p) && p_same_growth(p) && p_same_positions(p)
  at tickdata.TickData.UpdateTick@2 {
    set p.lo[k] = ite(k == tickLower, p.lo[k] - #amount, p.lo[k])
    set p.up[k] = ite(k == tickUpper, p.up[k] - #amount, p.up[k])
  }

// fees a position earns between two observations of the growth inside its range
define fee_due(inside, last, liq) = (wsub(inside, last) * liq) / 2^128
define pkey(lower, upper) = poskey(lower, upper)
define inside0(p, lower, upper) = fg_inside(#(p.FeeGrowthGlobal0X128), p.TickData.fo0[lower], p.TickData.fo0[upper], lower, upper, p.TickCurrent)
define inside1(p, lower, upper) = fg_inside(#(p.FeeGrowthGlobal1X128), p.TickData.fo1[lower], p.TickData.fo1[upper], lower, upper, p.TickCurrent)
define was(p, key, v) = ite(old(haskey(p.Positions, key)), v, 0)

// what a position of L in [lo, up] costs at tick T and square root price P
// (names for the formulas, so that clients need not repeat them)
fun pay0(T, P, L, lo, up): int
axiom pay0_def(T, P, L, lo, up)
  ensures pay0(T, P, L, lo, up) == ite(T >= up, 0, amt0up(L, ite(T < lo, sqrtAt(lo), P), sqrtAt(up)))
fun pay1(T, P, L, lo, up): int
axiom pay1_def(T, P, L, lo, up)
  ensures pay1(T, P, L, lo, up) == ite(T < lo, 0, amt1up(L, sqrtAt(lo), ite(T < up, P, sqrtAt(up))))

func pool.Pool.MintStrategy(p, tickLower, tickUpper, amount) (amount0, amount1)
  mem heap
  modifies p
  fresh amount0, amount1
  requires pool_ok(p)
  requires [fits] sgn(#amount) > 0 && p_valid(tickLower, tickUpper) ==> p_fits(p, #amount, tickLower, tickUpper)
  requires [posfits] sgn(#amount) > 0 && haskey(p.Positions, pkey(tickLower, tickUpper)) ==> #(p.Positions[pkey(tickLower, tickUpper)].Liquidity) + #amount < 2^128
  panics_if sgn(#amount) <= 0 || !p_valid(tickLower, tickUpper)
  ensures [rep] pool_ok(p)
  ensures [active] #(p.Liquidity) == ite(tickLower <= p.TickCurrent && p.TickCurrent < tickUpper, old(#(p.Liquidity)) + #amount, old(#(p.Liquidity)))
  ensures [L] p_moved(p, #amount, tickLower, tickUpper)
  ensures [gross] p_gross(p, #amount, tickLower, tickUpper)
  ensures [has] forall k {p.TickData.has[k]} :: p.TickData.has[k] == (k == tickLower || k == tickUpper || old(p.TickData.has[k]))
  ensures [same] p_same_core(p) && p_same_growth(p) && p_same_other(p, pkey(tickLower, tickUpper))
  ensures [haspos] haskey(p.Positions, pkey(tickLower, tickUpper))
  ensures [posliq] #(p.Positions[pkey(tickLower, tickUpper)].Liquidity) == was(p, pkey(tickLower, tickUpper), old(#(p.Positions[pkey(tickLower, tickUpper)].Liquidity))) + #amount
  ensures [poslast] #(p.Positions[pkey(tickLower, tickUpper)].FeeGrowthInside0LastX128) == inside0(p, tickLower, tickUpper) && #(p.Positions[pkey(tickLower, tickUpper)].FeeGrowthInside1LastX128) == inside1(p, tickLower, tickUpper)
  ensures [posfee0] #(p.Positions[pkey(tickLower, tickUpper)].TokensOwed0) == ite(old(haskey(p.Positions, pkey(tickLower, tickUpper))), wadd(old(#(p.Positions[pkey(tickLower, tickUpper)].TokensOwed0)), fee_due(inside0(p, tickLower, tickUpper), old(#(p.Positions[pkey(tickLower, tickUpper)].FeeGrowthInside0LastX128)), old(#(p.Positions[pkey(tickLower, tickUpper)].Liquidity)))), 0)
  ensures [posfee1] #(p.Positions[pkey(tickLower, tickUpper)].TokensOwed1) == ite(old(haskey(p.Positions, pkey(tickLower, tickUpper))), wadd(old(#(p.Positions[pkey(tickLower, tickUpper)].TokensOwed1)), fee_due(inside1(p, tickLower, tickUpper), old(#(p.Positions[pkey(tickLower, tickUpper)].FeeGrowthInside1LastX128)), old(#(p.Positions[pkey(tickLower, tickUpper)].Liquidity)))), 0)
  ensures [amount0] #amount0 == ite(p.TickCurrent >= tickUpper, 0, amt0up(#amount, ite(p.TickCurrent < tickLower, sqrtAt(tickLower), #(p.SqrtRatioX96)), sqrtAt(tickUpper)))
  ensures [amount1] #amount1 == ite(p.TickCurrent < tickLower, 0, amt1up(#amount, sqrtAt(tickLower), ite(p.TickCurrent < tickUpper, #(p.SqrtRatioX96), sqrtAt(tickUpper))))
  ensures [pay0] #amount0 == pay0(p.TickCurrent, #(p.SqrtRatioX96), #amount, tickLower, tickUpper) by { use pay0_def(p.TickCurrent, #(p.SqrtRatioX96), #amount, tickLower, tickUpper) }
  ensures [pay1] #amount1 == pay1(p.TickCurrent, #(p.SqrtRatioX96), #amount, tickLower, tickUpper) by { use pay1_def(p.TickCurrent, #(p.SqrtRatioX96), #amount, tickLower, tickUpper) }
  at tickdata.TickData.UpdateTick@2 {
    set p.lo[k] = ite(k == tickLower, p.lo[k] + #amount, p.lo[k])
    set p.up[k] = ite(k == tickUpper, p.up[k] + #amount, p.up[k])
  }

func pool.Pool.BurnStrategy(p, tickLower, tickUpper, amount) (amount0, amount1)
  mem heap
  modifies p
  fresh amount0, amount1
  requires pool_ok(p)
  requires [covers] p_valid(tickLower, tickUpper) ==> #amount < 2^128 && p_covers(p, #amount, tickLower, tickUpper)
  requires [position] haskey(p.Positions, pkey(tickLower, tickUpper)) && #amount <= #(p.Positions[pkey(tickLower, tickUpper)].Liquidity) && #(p.Positions[pkey(tickLower, tickUpper)].Liquidity) < 2^128
  panics_if !p_valid(tickLower, tickUpper) || #amount == 0 && !(p.TickData.has[tickLower] && p.TickData.has[tickUpper])
  ensures [rep] pool_ok(p)
  ensures [active] #(p.Liquidity) == ite(tickLower <= p.TickCurrent && p.TickCurrent < tickUpper, old(#(p.Liquidity)) - #amount, old(#(p.Liquidity)))
  ensures [L] p_moved(p, neg256(#amount), tickLower, tickUpper)
  ensures [gross] p_gross(p, neg256(#amount), tickLower, tickUpper)
  ensures [has] forall k {p.TickData.has[k]} :: k != tickLower && k != tickUpper ==> p.TickData.has[k] == old(p.TickData.has[k])
  ensures [cleared] #amount > 0 ==> p.TickData.has[tickLower] == (p.TickData.gross[tickLower] != 0) && p.TickData.has[tickUpper] == (p.TickData.gross[tickUpper] != 0)
  ensures [same] p_same_core(p) && p_same_growth(p) && p_same_other(p, pkey(tickLower, tickUpper))
  ensures [haspos] haskey(p.Positions, pkey(tickLower, tickUpper))
  ensures [posliq] #(p.Positions[pkey(tickLower, tickUpper)].Liquidity) == old(#(p.Positions[pkey(tickLower, tickUpper)].Liquidity)) - #amount
  ensures [poslast] #(p.Positions[pkey(tickLower, tickUpper)].FeeGrowthInside0LastX128) == inside0(p, tickLower, tickUpper) && #(p.Positions[pkey(tickLower, tickUpper)].FeeGrowthInside1LastX128) == inside1(p, tickLower, tickUpper)
  ensures [owed0] #(p.Positions[pkey(tickLower, tickUpper)].TokensOwed0) == wadd(wadd(old(#(p.Positions[pkey(tickLower, tickUpper)].TokensOwed0)), fee_due(inside0(p, tickLower, tickUpper), old(#(p.Positions[pkey(tickLower, tickUpper)].FeeGrowthInside0LastX128)), old(#(p.Positions[pkey(tickLower, tickUpper)].Liquidity)))), #amount0)
  ensures [owed1] #(p.Positions[pkey(tickLower, tickUpper)].TokensOwed1) == wadd(wadd(old(#(p.Positions[pkey(tickLower, tickUpper)].TokensOwed1)), fee_due(inside1(p, tickLower, tickUpper), old(#(p.Positions[pkey(tickLower, tickUpper)].FeeGrowthInside1LastX128)), old(#(p.Positions[pkey(tickLower, tickUpper)].Liquidity)))), #amount1)
  ensures [amount0] #amount0 == ite(p.TickCurrent >= tickUpper || #amount == 0, 0, amt0down(#amount, ite(p.TickCurrent < tickLower, sqrtAt(tickLower), #(p.SqrtRatioX96)), sqrtAt(tickUpper)))
  ensures [amount1] #amount1 == ite(p.TickCurrent < tickLower || #amount == 0, 0, amt1down(#amount, sqrtAt(tickLower), ite(p.TickCurrent < tickUpper, #(p.SqrtRatioX96), sqrtAt(tickUpper))))
  at tickdata.TickData.UpdateTick@2 {
    set p.lo[k] = ite(k == tickLower, p.lo[k] - #amount, p.lo[k])
    set p.up[k] = ite(k == tickUpper, p.up[k] - #amount, p.up[k])
  }
  at tickdata.TickData.GetFeeGrowthInside {
    name g0 = #$1
    name g1 = #$2
  }
  exit {
    let last0 = old(#(p.Positions[pkey(tickLower, tickUpper)].FeeGrowthInside0LastX128))
    let last1 = old(#(p.Positions[pkey(tickLower, tickUpper)].FeeGrowthInside1LastX128))
    let liq = old(#(p.Positions[pkey(tickLower, tickUpper)].Liquidity))
    assert [g0] g0 == inside0(p, tickLower, tickUpper)
    assert [g1] g1 == inside1(p, tickLower, tickUpper)
    use mul_eq(wsub(g0, last0), wsub(inside0(p, tickLower, tickUpper), last0), liq)
    use mul_eq(wsub(g1, last1), wsub(inside1(p, tickLower, tickUpper), last1), liq)
  }

// tick and price agree; the price of the next tick is allowed after a crossing
define at_tick(P, tick) = 0 - 887272 <= tick && tick < 887272 && sqrtAt(tick) <= P && P <= sqrtAt(tick + 1)

func pool.Pool.Clone(p) (n)
  mem heap
  fresh n
  requires pool_ok(p)
  ensures [rep] pool_ok(n)
  ensures [core] n.Token0 == p.Token0 && n.Token1 == p.Token1 && n.Fee == p.Fee && n.TickSpacing == p.TickSpacing && n.TickCurrent == p.TickCurrent && n.TickData.tickSpacing == p.TickData.tickSpacing
  ensures [values] #(n.SqrtRatioX96) == #(p.SqrtRatioX96) && #(n.Liquidity) == #(p.Liquidity) && #(n.FeeGrowthGlobal0X128) == #(p.FeeGrowthGlobal0X128) && #(n.FeeGrowthGlobal1X128) == #(p.FeeGrowthGlobal1X128)
  ensures [has] forall k {n.TickData.has[k]} :: n.TickData.has[k] == p.TickData.has[k]
  ensures [L] forall k {n.TickData.L[k]} :: n.TickData.L[k] == p.TickData.L[k]
  ensures [gross] forall k {n.TickData.gross[k]} :: n.TickData.gross[k] == p.TickData.gross[k]
  ensures [fo] forall k {n.TickData.fo0[k]} {n.TickData.fo1[k]} :: n.TickData.fo0[k] == p.TickData.fo0[k] && n.TickData.fo1[k] == p.TickData.fo1[k]
  ensures [haspos] forall k {haskey(n.Positions, k)} :: haskey(n.Positions, k) == haskey(p.Positions, k)
  ensures [pos] forall k {n.Positions[k].Liquidity} {n.Positions[k].FeeGrowthInside0LastX128} {n.Positions[k].FeeGrowthInside1LastX128} {n.Positions[k].TokensOwed0} {n.Positions[k].TokensOwed1} :: haskey(p.Positions, k) ==>
      #(n.Positions[k].Liquidity) == #(p.Positions[k].Liquidity) && #(n.Positions[k].FeeGrowthInside0LastX128) == #(p.Positions[k].FeeGrowthInside0LastX128) && #(n.Positions[k].FeeGrowthInside1LastX128) == #(p.Positions[k].FeeGrowthInside1LastX128)
   && #(n.Positions[k].TokensOwed0) == #(p.Positions[k].TokensOwed0) && #(n.Positions[k].TokensOwed1) == #(p.Positions[k].TokensOwed1)
  loop 1
    invariant [keys] forall k {haskey(positions, k)} :: haskey(positions, k) == visited[k]
    invariant [vis] forall k {visited[k]} :: visited[k] ==> haskey(p.Positions, k)
    invariant [vals] forall k {positions[k].Liquidity} {positions[k].FeeGrowthInside0LastX128} {positions[k].FeeGrowthInside1LastX128} {positions[k].TokensOwed0} {positions[k].TokensOwed1} :: visited[k] ==>
      #(positions[k].Liquidity) == #(p.Positions[k].Liquidity) && #(positions[k].FeeGrowthInside0LastX128) == #(p.Positions[k].FeeGrowthInside0LastX128) && #(positions[k].FeeGrowthInside1LastX128) == #(p.Positions[k].FeeGrowthInside1LastX128)
   && #(positions[k].TokensOwed0) == #(p.Positions[k].TokensOwed0) && #(positions[k].TokensOwed1) == #(p.Positions[k].TokensOwed1)
  exit {
    set n.lo = p.lo
    set n.up = p.up
  }

define limit_of(z, x) = ite(x == 0, ite(z, MINSQ + 1, MAXSQ - 1), x)
define limit_ok(z, lim, price) = ite(z, lim < price && lim > MINSQ, lim > price && lim < MAXSQ)

// what a step can take in, and the fee on it
lemma in_bound0(L, a, b)
  requires MINSQ <= a && a <= b && 0 <= L
  ensures cdiv(L * 2^96 * (b - a), b * a) <= L * 2^64
  proof {
    use mul_nonneg(L, a)
    use mul_nonneg(L, b)
    use mul_le(2^32, a, L * b)
    use mul_lt(0, a, b)
    assert [n] L * 2^96 * (b - a) <= (L * 2^64) * (b * a)
    use cdiv_le(L * 2^64, L * 2^96 * (b - a), b * a)
  }
lemma in_bound1(L, a, b)
  requires 0 <= a && a <= b && b < 2^160 && 0 <= L
  ensures cdiv(L * (b - a), 2^96) <= L * 2^64
  proof {
    use mul_le(b - a, 2^160, L)
    use cdiv_le(L * 2^64, L * (b - a), 2^96)
  }
lemma fee_bound(I, f, L)
  requires 0 <= I && I <= L * 2^64 && 0 <= f && f < 1000000 && 1 <= L
  ensures cdiv(I * f, 1000000 - f) < L * 2^128
  proof {
    use mul_le(f, 1000000, I)
    let q = L * 2^64 * 1000000
    use mul_le(1, 1000000 - f, q)
    use cdiv_le(q, I * f, 1000000 - f)
  }

lemma no_move(L, P, X)
  requires 0 < P && 0 <= L && X == P
  ensures amt0up(L, X, P) == 0 && amt1up(L, P, X) == 0 && amt0down(L, P, X) == 0 && amt1down(L, X, P) == 0
  proof {
    use mul_eq(X - P, 0, L)
    use mul_lt(0, P, X)
    use cdiv_unique(L * 2^96 * (P - X), X * P, 0)
    use cdiv_unique(L * (X - P), 2^96, 0)
    use div_unique(L * 2^96 * (X - P), P * X, 0, 0)
    use div_unique(L * (P - X), 2^96, 0, 0)
  }

define curve_in(z, L, a, b) = ite(z, amt0up(L, b, a), amt1up(L, a, b))
define curve_out(z, L, a, b) = ite(z, amt1down(L, b, a), amt0down(L, a, b))

// the initialised ticks a price move from tick a to tick b passes
define crossed(p, down, k, a, b) = p.TickData.has[k] && ite(down, b < k && k <= a, a < k && k <= b)

// the price moves towards the limit and never past it
define sw_limit(p, z, amt, lim, a0, a1) = ite(z, limit_of(true, lim) <= #(p.SqrtRatioX96) && #(p.SqrtRatioX96) <= old(#(p.SqrtRatioX96)), old(#(p.SqrtRatioX96)) <= #(p.SqrtRatioX96) && #(p.SqrtRatioX96) <= limit_of(false, lim))
// and the swap ends at the limit or with the whole amount swapped
define sw_done(p, z, amt, lim, a0, a1) = #(p.SqrtRatioX96) == limit_of(z, lim) || pick(z == !isneg(amt), a0, a1) == amt
define sw_in(p, z, amt, lim, a0, a1) = !isneg(amt) ==> pick(z, a0, a1) == p.sin + p.sfee && p.sin + p.sfee <= amt && pick(z, a1, a0) == neg256(p.sout)
define sw_out(p, z, amt, lim, a0, a1) = isneg(amt) ==> neg256(pick(z, a1, a0)) == p.sout && p.sout <= neg256(amt) && pick(z, a0, a1) == (p.sin + p.sfee) % 2^256
// every step takes and gives what the liquidity at its tick is worth between its prices; the last output may be cut to the amount asked for
define sw_curve(p, z, amt, lim, a0, a1) = p.sin == p.scin && ite(isneg(amt), p.sout <= p.scout, p.sout == p.scout)
// fees: at least the pool's rate, credited to the liquidity active at each step
define sw_rate(p, z, amt, lim, a0, a1) = p.sfee * (1000000 - p.Fee) >= p.sin * p.Fee && p.sin >= 0 && p.sfee >= 0
define sw_growth(p, z, amt, lim, a0, a1) = #(p.FeeGrowthGlobal0X128) == ite(z, wadd(old(#(p.FeeGrowthGlobal0X128)), p.sgrow), old(#(p.FeeGrowthGlobal0X128))) && #(p.FeeGrowthGlobal1X128) == ite(z, old(#(p.FeeGrowthGlobal1X128)), wadd(old(#(p.FeeGrowthGlobal1X128)), p.sgrow))
define sw_spread(p, z, amt, lim, a0, a1) = p.sspread <= p.sfee * 2^128 && p.sfee * 2^128 <= p.sspread + p.sactive
// ticks
define sw_has(p, z, amt, lim, a0, a1) = forall k {p.TickData.has[k]} :: p.TickData.has[k] == old(p.TickData.has[k])
define sw_L(p, z, amt, lim, a0, a1) = forall k {p.TickData.L[k]} :: p.TickData.L[k] == old(p.TickData.L[k])
define sw_gross(p, z, amt, lim, a0, a1) = forall k {p.TickData.gross[k]} :: p.TickData.gross[k] == old(p.TickData.gross[k])
define sw_len(p, z, amt, lim, a0, a1) = len(p.TickData.ticks) == old(len(p.TickData.ticks))
define sw_crossed0(p, z, amt, lim, a0, a1) = forall k {p.TickData.fo0[k]} :: p.TickData.fo0[k] == old(p.TickData.fo0[k]) || crossed(p, z, k, old(p.TickCurrent), p.TickCurrent)
define sw_crossed02(p, z, amt, lim, a0, a1) = !z ==> forall k {p.TickData.fo0[k]} :: crossed(p, z, k, old(p.TickCurrent), p.TickCurrent) ==> p.TickData.fo0[k] == wsub(#(p.FeeGrowthGlobal0X128), old(p.TickData.fo0[k]))
define sw_crossed1(p, z, amt, lim, a0, a1) = forall k {p.TickData.fo1[k]} :: p.TickData.fo1[k] == old(p.TickData.fo1[k]) || crossed(p, z, k, old(p.TickCurrent), p.TickCurrent)
define sw_crossed12(p, z, amt, lim, a0, a1) = z ==> forall k {p.TickData.fo1[k]} :: crossed(p, z, k, old(p.TickCurrent), p.TickCurrent) ==> p.TickData.fo1[k] == wsub(#(p.FeeGrowthGlobal1X128), old(p.TickData.fo1[k]))
// a = g - b modulo 2^256
define flipped(a, b, g) = a + b == g || a + b == g + 2^256
define sw_crossed01(p, z, amt, lim, a0, a1) = z ==> forall k {p.TickData.fo0[k]} :: crossed(p, z, k, old(p.TickCurrent), p.TickCurrent) ==> flipped(p.TickData.fo0[k], old(p.TickData.fo0[k]), p.gx[k])
define sw_crossed11(p, z, amt, lim, a0, a1) = !z ==> forall k {p.TickData.fo1[k]} :: crossed(p, z, k, old(p.TickCurrent), p.TickCurrent) ==> flipped(p.TickData.fo1[k], old(p.TickData.fo1[k]), p.gx[k])
define sw_same(p, z, amt, lim, a0, a1) = p.Token0 == old(p.Token0) && p.Token1 == old(p.Token1) && p.Fee == old(p.Fee) && p.TickSpacing == old(p.TickSpacing) && p.TickData.tickSpacing == old(p.TickData.tickSpacing) && p_same_positions(p)

func pool.Pool.swap(p, zeroForOne, amountSpecified, sqrtPriceLimitX96In) (amount0, amount1)
  opt merge
  mem heap
  modifies p
  fresh amount0, amount1
  requires pool_ok(p)
  requires [hasticks] len(p.TickData.ticks) > 0
  requires [amount] #amountSpecified < 2^128 || isneg(#amountSpecified) && neg256(#amountSpecified) < 2^128
  panics_if #amountSpecified == 0 || !limit_ok(zeroForOne, limit_of(zeroForOne, #sqrtPriceLimitX96In), #(p.SqrtRatioX96))
  ensures [rep] pool_ok(p)
  ensures [limit] sw_limit(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [done] sw_done(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [in] sw_in(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [out] sw_out(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [curve] sw_curve(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [rate] sw_rate(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [growth] sw_growth(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [spread] sw_spread(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [has] sw_has(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [L] sw_L(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [gross] sw_gross(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [len] sw_len(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [crossed0] sw_crossed0(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [crossed0] sw_crossed02(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [crossed0] sw_crossed01(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [crossed1] sw_crossed1(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [crossed1] sw_crossed12(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [crossed1] sw_crossed11(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  ensures [same] sw_same(p, zeroForOne, #amountSpecified, #sqrtPriceLimitX96In, #amount0, #amount1)
  at tickmath.TickMath.GetSqrtRatioAtTick {
    name nx = $a2
    name tick0 = state.tick
    use sqrtAt_ends()
    when zeroForOne { use sqrtAt_mono_le(nx, tick0) }
    when !zeroForOne { use sqrtAt_mono_le(tick0 + 1, nx) }
    when nx > 0 - 887272 { use sqrtAt_mono_le(nx - 1, nx) }
    when nx < 887272 { use sqrtAt_mono_le(nx, nx + 1) }
    // no tick at nx: the liquidity on both sides is the same
    assert [flat] (p.TickData.has[nx] || p.lo[nx] == 0 && p.up[nx] == 0) && p.TickData.L[nx] == p.TickData.L[nx - 1] + p.lo[nx] - p.up[nx]
  }
  at swapmath.ComputeSwapStep {
    name stepL = #$a3
    let SL = #$a3
    let P0 = #$a1
    let P1 = #$1
    assert [dir] ite(zeroForOne, P0 >= #$a2, P0 < #$a2 || P0 == P1)
    when P0 == P1 { use no_move(SL, P0, P1) }
    // the step runs on the liquidity of the ticks recorded at its start
    assert [liquidity] stepL == p.TickData.L[state.tick]
    name cin = curve_in(zeroForOne, SL, P0, P1)
    name cout = curve_out(zeroForOne, SL, P0, P1)
    assert [cin] #$2 == cin
    assert [cout] ite(exactInput, #$3 == cout, #$3 <= cout)
    name stepfee = #$4
    use cdiv_def(#$2 * p.Fee, 1000000 - p.Fee)
    name stepgrow = ite(stepL > 0, (stepfee * 2^128) / stepL, 0)
    when stepL > 0 { use div_def(stepfee * 2^128, stepL) }
  }
  before fullmath.MulDiv {
    name P = #(step.sqrtPriceStartX96)
    name X = #(state.sqrtPriceX96)
    when isneg(#amountSpecified) {
      when zeroForOne { use in_bound0(#$a3, X, P) }
      when !zeroForOne { use in_bound1(#$a3, P, X) }
      use fee_bound(#(step.amountIn), p.Fee, #$a3)
    }
  }
  at tickdata.TickData.Cross {
    // the growth including this step's fee
    name gval = wadd(old(ite(zeroForOne, #(p.FeeGrowthGlobal0X128), #(p.FeeGrowthGlobal1X128))), wadd(sgrow, stepgrow))
    assert [gval] ite(zeroForOne, #$a3, #$a4) == gval
    assert [c0] zeroForOne ==> p.TickData.fo0[nx] == wsub(gval, old(p.TickData.fo0[nx]))
    assert [c1] !zeroForOne ==> p.TickData.fo1[nx] == wsub(gval, old(p.TickData.fo1[nx]))
    set p.gx[k] = ite(k == nx, gval, p.gx[k])
    assert [gxn] ite(zeroForOne, flipped(p.TickData.fo0[nx], old(p.TickData.fo0[nx]), p.gx[nx]), flipped(p.TickData.fo1[nx], old(p.TickData.fo1[nx]), p.gx[nx]))
    assert [gx0] zeroForOne ==> forall k {p.TickData.fo0[k]} :: crossed(p, zeroForOne, k, old(p.TickCurrent), nx - 1) ==> flipped(p.TickData.fo0[k], old(p.TickData.fo0[k]), p.gx[k])
    assert [gx1] !zeroForOne ==> forall k {p.TickData.fo1[k]} :: crossed(p, zeroForOne, k, old(p.TickCurrent), nx) ==> flipped(p.TickData.fo1[k], old(p.TickData.fo1[k]), p.gx[k])
  }
  at tickmath.TickMath.GetTickAtSqrtRatio {
    name nt = $1
    when zeroForOne && nt > tick0 { use sqrtAt_mono_le(tick0 + 1, nt) }
    when zeroForOne && nt < nx { use sqrtAt_mono_le(nt + 1, nx) }
    when !zeroForOne && nt < tick0 { use sqrtAt_mono_le(nt + 1, tick0) }
    when !zeroForOne && nt >= nx { use sqrtAt_mono_le(nx, nt) }
  }
  loop 1
    invariant [at] at_tick(#(state.sqrtPriceX96), state.tick)
    invariant [limit] ite(zeroForOne, #sqrtPriceLimitX96 <= #(state.sqrtPriceX96) && #(state.sqrtPriceX96) <= old(#(p.SqrtRatioX96)), old(#(p.SqrtRatioX96)) <= #(state.sqrtPriceX96) && #(state.sqrtPriceX96) <= #sqrtPriceLimitX96)
    invariant [liq] #(state.liquidity) == p.TickData.L[state.tick]
    invariant [spacing] p.TickData.tickSpacing == old(p.TickData.tickSpacing) && len(p.TickData.ticks) == old(len(p.TickData.ticks))
    invariant [has] forall k {p.TickData.has[k]} :: p.TickData.has[k] == old(p.TickData.has[k])
    invariant [L] forall k {p.TickData.L[k]} :: p.TickData.L[k] == old(p.TickData.L[k])
    invariant [gross] forall k {p.TickData.gross[k]} :: p.TickData.gross[k] == old(p.TickData.gross[k])
    ghost sin = 0 => sin + #(step.amountIn)
    ghost sfee = 0 => sfee + #(step.feeAmount)
    ghost sout = 0 => wadd(sout, #(step.amountOut))
    ghost sgrow = 0 => wadd(sgrow, stepgrow)
    ghost sspread = 0 => sspread + ite(stepL > 0, stepgrow * stepL, 0)
    ghost sactive = 0 => sactive + stepL
    ghost scin = 0 => scin + cin
    ghost scout = 0 => ite(exactInput, wadd(scout, cout), scout + cout)
    invariant [curve.in] sin == scin
    invariant [curve.out] ite(exactInput, sout == scout, sout <= scout)
    invariant [rate] sfee * (1000000 - p.Fee) >= sin * p.Fee && sin >= 0 && sfee >= 0
    invariant [spread] sspread <= sfee * 2^128 && sfee * 2^128 <= sspread + sactive
    invariant [paid.in] exactInput ==> #amountSpecified - #(state.amountSpecifiedRemainingI) == sin + sfee && #(state.amountCalculatedI) == neg256(sout)
    invariant [paid.out] !exactInput ==> neg256(#amountSpecified) - neg256(#(state.amountSpecifiedRemainingI)) == sout && #(state.amountCalculatedI) == (sin + sfee) % 2^256
    invariant [growth] #(state.feeGrowthGlobalX128) == wadd(old(ite(zeroForOne, #(p.FeeGrowthGlobal0X128), #(p.FeeGrowthGlobal1X128))), sgrow) && 0 <= sgrow && sgrow < 2^256
    invariant [crossed0] forall k {p.TickData.fo0[k]} :: p.TickData.fo0[k] == old(p.TickData.fo0[k]) || crossed(p, zeroForOne, k, old(p.TickCurrent), state.tick)
    invariant [crossed0] !zeroForOne ==> forall k {p.TickData.fo0[k]} :: crossed(p, zeroForOne, k, old(p.TickCurrent), state.tick) ==> p.TickData.fo0[k] == wsub(old(#(p.FeeGrowthGlobal0X128)), old(p.TickData.fo0[k]))
    invariant [crossed1] forall k {p.TickData.fo1[k]} :: p.TickData.fo1[k] == old(p.TickData.fo1[k]) || crossed(p, zeroForOne, k, old(p.TickCurrent), state.tick)
    invariant [crossed1] zeroForOne ==> forall k {p.TickData.fo1[k]} :: crossed(p, zeroForOne, k, old(p.TickCurrent), state.tick) ==> p.TickData.fo1[k] == wsub(old(#(p.FeeGrowthGlobal1X128)), old(p.TickData.fo1[k]))
    invariant [gx] forall k {p.gx[k]} :: 0 <= p.gx[k] && p.gx[k] < 2^256
    invariant [gx0] zeroForOne ==> forall k {p.TickData.fo0[k]} :: crossed(p, zeroForOne, k, old(p.TickCurrent), state.tick) ==> flipped(p.TickData.fo0[k], old(p.TickData.fo0[k]), p.gx[k])
    invariant [gx1] !zeroForOne ==> forall k {p.TickData.fo1[k]} :: crossed(p, zeroForOne, k, old(p.TickCurrent), state.tick) ==> flipped(p.TickData.fo1[k], old(p.TickData.fo1[k]), p.gx[k])
    invariant [tickdir] ite(zeroForOne, state.tick <= old(p.TickCurrent), state.tick >= old(p.TickCurrent))
    invariant [rem.in] exactInput ==> #(state.amountSpecifiedRemainingI) <= #amountSpecified
    invariant [rem.out] !exactInput ==> neg256(#(state.amountSpecifiedRemainingI)) <= neg256(#amountSpecified)
    decreases ite(#(state.amountSpecifiedRemainingI) == 0 || #(state.sqrtPriceX96) == #sqrtPriceLimitX96, 0, ite(zeroForOne, 887273 + state.tick, 887273 - state.tick))
  exit {
    set p.sin = sin
    set p.sfee = sfee
    set p.sout = sout
    set p.sgrow = sgrow
    set p.sspread = sspread
    set p.sactive = sactive
    set p.scin = scin
    set p.scout = scout
  }

func pool.Pool.ExactInputSwap(p, inputAmount, token, sqrtPriceLimitX96) (amount0, amount1)
  mem heap
  modifies p
  fresh amount0, amount1
  requires pool_ok(p)
  requires [hasticks] len(p.TickData.ticks) > 0
  requires [amount] #inputAmount < 2^128
  panics_if #inputAmount == 0 || !limit_ok(token == p.Token0, limit_of(token == p.Token0, #sqrtPriceLimitX96), #(p.SqrtRatioX96))
  ensures [rep] pool_ok(p)
  ensures [limit] sw_limit(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [done] sw_done(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [in] sw_in(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [out] sw_out(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [curve] sw_curve(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [rate] sw_rate(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [growth] sw_growth(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [spread] sw_spread(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [has] sw_has(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [L] sw_L(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [gross] sw_gross(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [len] sw_len(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [crossed0] sw_crossed0(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [crossed0] sw_crossed02(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [crossed0] sw_crossed01(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [crossed1] sw_crossed1(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [crossed1] sw_crossed12(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [crossed1] sw_crossed11(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [same] sw_same(p, token == old(p.Token0), #inputAmount, #sqrtPriceLimitX96, #amount0, #amount1)

func pool.Pool.ExactOutputSwap(p, outputAmount, token, sqrtPriceLimitX96) (amount0, amount1)
  mem heap
  modifies p
  fresh amount0, amount1
  requires pool_ok(p)
  requires [hasticks] len(p.TickData.ticks) > 0
  requires [amount] #outputAmount < 2^128
  panics_if #outputAmount == 0 || !limit_ok(token == p.Token1, limit_of(token == p.Token1, #sqrtPriceLimitX96), #(p.SqrtRatioX96))
  ensures [rep] pool_ok(p)
  ensures [limit] sw_limit(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [done] sw_done(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [in] sw_in(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [out] sw_out(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [curve] sw_curve(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [rate] sw_rate(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [growth] sw_growth(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [spread] sw_spread(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [has] sw_has(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [L] sw_L(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [gross] sw_gross(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [len] sw_len(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [crossed0] sw_crossed0(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [crossed0] sw_crossed02(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [crossed0] sw_crossed01(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [crossed1] sw_crossed1(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [crossed1] sw_crossed12(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [crossed1] sw_crossed11(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
  ensures [same] sw_same(p, token == old(p.Token1), neg256(#outputAmount), #sqrtPriceLimitX96, #amount0, #amount1)
