// Package tickdata: the sorted list of initialised ticks.
//
// Abstract content of a TickData (ghost fields):
//   has[k]    tick k is in the list
//   L[k]      sum of the net liquidity of the ticks <= k, modulo 2^256: the
//             liquidity that is active between tick k and tick k+1
//   gross[k], fo0[k], fo1[k]   gross liquidity and fee growth outside of tick k
//   pos[k]    position of tick k in the list
//   own[r]    the slot (4*tick+field) that owns reference r
ghost tickdata.TickData
  field has: set
  field L: words
  field net: words
  field gross: words
  field fo0: words
  field fo1: words
  field pos: ints
  field own: ints

define wadd(a, b) = ite(a + b < 2^256, a + b, a + b - 2^256)
define wsub(a, b) = ite(b <= a, a - b, a - b + 2^256)

define td_sorted(t) = forall i, j {t.ticks[i].Index, t.ticks[j].Index} :: 0 <= i && i < j && j < len(t.ticks) ==> t.ticks[i].Index < t.ticks[j].Index
define td_small(t) = forall i {t.ticks[i].Index} :: 0 <= i && i < len(t.ticks) ==> -2^31 < t.ticks[i].Index && t.ticks[i].Index < 2^31
define td_has(t) = (forall k {t.has[k]} :: t.has[k] ==> 0 <= t.pos[k] && t.pos[k] < len(t.ticks) && t.ticks[t.pos[k]].Index == k)
   && (forall i {t.ticks[i].Index} :: 0 <= i && i < len(t.ticks) ==> t.has[t.ticks[i].Index])
define td_refs(t) = forall i {t.ticks[i].Index} {t.ticks[i].LiquidityNet} {t.ticks[i].LiquidityGross} {t.ticks[i].FeeGrowthOutside0X128} {t.ticks[i].FeeGrowthOutside1X128} :: 0 <= i && i < len(t.ticks) ==>
     allocated(t.ticks[i].LiquidityNet) && t.own[addr(t.ticks[i].LiquidityNet)] == 4 * t.ticks[i].Index
  && allocated(t.ticks[i].LiquidityGross) && t.own[addr(t.ticks[i].LiquidityGross)] == 4 * t.ticks[i].Index + 1
  && allocated(t.ticks[i].FeeGrowthOutside0X128) && t.own[addr(t.ticks[i].FeeGrowthOutside0X128)] == 4 * t.ticks[i].Index + 2
  && allocated(t.ticks[i].FeeGrowthOutside1X128) && t.own[addr(t.ticks[i].FeeGrowthOutside1X128)] == 4 * t.ticks[i].Index + 3
define td_vals(t) = (forall i {t.ticks[i].LiquidityNet} :: 0 <= i && i < len(t.ticks) ==>
#(t.ticks[i].LiquidityNet) == t.net[t.ticks[i].Index])
  && (forall i {t.ticks[i].LiquidityGross} :: 0 <= i && i < len(t.ticks) ==> #(t.ticks[i].LiquidityGross) == t.gross[t.ticks[i].Index])
  && (forall i {t.ticks[i].FeeGrowthOutside0X128} :: 0 <= i && i < len(t.ticks) ==> #(t.ticks[i].FeeGrowthOutside0X128) == t.fo0[t.ticks[i].Index])
  && (forall i {t.ticks[i].FeeGrowthOutside1X128} :: 0 <= i && i < len(t.ticks) ==> #(t.ticks[i].FeeGrowthOutside1X128) == t.fo1[t.ticks[i].Index])
// L is constant between neighbouring ticks and 0 below the first one
define td_prof(t) = (forall k {t.L[k]} :: len(t.ticks) == 0 || k < t.ticks[0].Index ==> t.L[k] == 0)
  && (forall i, k {t.ticks[i].Index, t.L[k]} :: 0 <= i && i < len(t.ticks) && t.ticks[i].Index <= k && (i == len(t.ticks) - 1 || k < t.ticks[i+1].Index) ==> t.L[k] == t.L[t.ticks[i].Index])
define td_net(t) = forall k {t.net[k]} :: t.has[k] ==> t.net[k] == wsub(t.L[k], t.L[k - 1])
define td_ok(t) = td_net(t) && t.tickSpacing > 0 && t.tickSpacing < 2^20 && td_sorted(t) && td_small(t) && td_has(t) && td_refs(t) && td_vals(t) && td_prof(t)

func tickdata.NewTickData(tickSpacing) (t)
  mem heap
  fresh t
  requires tickSpacing > 0 && tickSpacing < 2^20
  ensures t.tickSpacing == tickSpacing
  ensures forall k {t.has[k]} :: !t.has[k]
  ensures forall k {t.L[k]} :: t.L[k] == 0
  ensures [rep] td_ok(t) with adt
  exit {
    set t.has[k] = false
    set t.L[k] = 0
  }

func tickdata.TickData.binarySearch(t, tick) (res)
  mem heap
  requires td_sorted(t)
  panics_if len(t.ticks) == 0 || tick < t.ticks[0].Index
  ensures [range] 0 <= res && res < len(t.ticks)
  ensures [below] t.ticks[res].Index <= tick
  ensures [above] res == len(t.ticks) - 1 || t.ticks[res+1].Index > tick
  loop 1
    invariant 0 <= l && l <= r && r < len(t.ticks)
    invariant t.ticks[l].Index <= tick
    invariant r == len(t.ticks) - 1 || t.ticks[r+1].Index > tick
    decreases r - l

func tickdata.TickData.binarySearch2(t, tick) (res, found)
  mem heap
  requires td_sorted(t)
  ensures [found] found ==> 0 <= res && res < len(t.ticks) && t.ticks[res].Index == tick
  ensures [append] !found && res == -2 ==> len(t.ticks) == 0 || t.ticks[len(t.ticks)-1].Index < tick
  ensures [prepend] !found && res == -1 ==> len(t.ticks) > 0 && tick < t.ticks[0].Index
  ensures [insert] !found && res != -1 && res != -2 ==> 1 <= res && res < len(t.ticks) && t.ticks[res-1].Index < tick && tick < t.ticks[res].Index
  loop 1
    invariant 0 <= l && l <= r && r < len(t.ticks)
    invariant tick <= t.ticks[r].Index
    invariant l == 0 || t.ticks[l-1].Index < tick
    decreases r - l

func tickdata.TickData.Cross(t, tick, feeGrowthGlobal0X128, feeGrowthGlobal1X128) (net)
  mem heap
  modifies t
  shared net
  panics_if !t.has[tick]
  requires td_ok(t) with adt
  ensures [rep] td_ok(t) with adt
  ensures [net] #net == wsub(t.L[tick], t.L[tick - 1])
  ensures [len] len(t.ticks) == old(len(t.ticks))
  ensures [spacing] t.tickSpacing == old(t.tickSpacing)
  ensures [has] forall k {t.has[k]} :: t.has[k] == old(t.has[k])
  ensures [L] forall k {t.L[k]} :: t.L[k] == old(t.L[k])
  ensures [gross] forall k {t.gross[k]} :: t.gross[k] == old(t.gross[k])
  ensures [fo0] forall k {t.fo0[k]} :: t.fo0[k] == ite(k == tick, wsub(#feeGrowthGlobal0X128, old(t.fo0[k])), old(t.fo0[k]))
  ensures [fo1] forall k {t.fo1[k]} :: t.fo1[k] == ite(k == tick, wsub(#feeGrowthGlobal1X128, old(t.fo1[k])), old(t.fo1[k]))
  exit {
    set t.fo0[k] = ite(k == tick, wsub(#feeGrowthGlobal0X128, old(t.fo0[k])), old(t.fo0[k]))
    set t.fo1[k] = ite(k == tick, wsub(#feeGrowthGlobal1X128, old(t.fo1[k])), old(t.fo1[k]))
  }

define fg_below(g, fo, lower, cur) = ite(cur >= lower, fo, wsub(g, fo))
define fg_above(g, fo, upper, cur) = ite(cur < upper, fo, wsub(g, fo))
define fg_inside(g, fol, fou, lower, upper, cur) = wsub(wsub(g, fg_below(g, fol, lower, cur)), fg_above(g, fou, upper, cur))

func tickdata.TickData.GetFeeGrowthInside(t, tickLower, tickUpper, tickCurrent, feeGrowthGlobal0X128, feeGrowthGlobal1X128) (in0, in1)
  mem heap
  fresh in0
  fresh in1
  panics_if !t.has[tickLower] || !t.has[tickUpper]
  requires td_ok(t) with adt
  ensures [in0] #in0 == fg_inside(#feeGrowthGlobal0X128, t.fo0[tickLower], t.fo0[tickUpper], tickLower, tickUpper, tickCurrent)
  ensures [in1] #in1 == fg_inside(#feeGrowthGlobal1X128, t.fo1[tickLower], t.fo1[tickUpper], tickLower, tickUpper, tickCurrent)

define wordmin(tick, s) = s * 256 * ((tick / s) / 256)
define wordmax(tick, s) = s * (256 * ((tick / s + 1) / 256) + 255)

// Go's division truncates; a/b in a contract is the floor
lemma trunc_neg(a, b)
  requires b > 0
  ensures ((0 - a) / b) * b == 0 - a ==> a / b == 0 - (0 - a) / b
  ensures ((0 - a) / b) * b != 0 - a ==> a / b == 0 - (0 - a) / b - 1
  proof {
    use div_def(a, b)
    use div_def(0 - a, b)
    let q = (0 - a) / b
    when q * b == 0 - a {
      use div_unique(a, b, 0 - q, 0)
    }
    when q * b != 0 - a {
      use div_unique(a, b, 0 - q - 1, a + q * b + b)
    }
  }

lemma wordmax_gt(tick, s)
  requires s > 0
  ensures wordmax(tick, s) > tick
  proof {
    let c = tick / s
    use div_def(tick, s)
    let q = 256 * ((c + 1) / 256) + 255
    assert c + 1 <= q
    use mul_le(c + 1, q, s)
  }

lemma wordmin_le(tick, s)
  requires s > 0
  ensures wordmin(tick, s) <= tick
  proof {
    let c = tick / s
    use div_def(tick, s)
    let q = 256 * (c / 256)
    assert q <= c
    use mul_le(q, c, s)
  }

func tickdata.TickData.NextInitializedTickWithinOneWord(t, tick, lte) (next, init)
  mem heap
  panics_if len(t.ticks) == 0
  requires td_ok(t) with adt
  requires -2^31 < tick && tick < 2^31
  ensures [init] init == t.has[next]
  ensures [lte] lte ==> next <= tick
  ensures [lteword] lte ==> next >= wordmin(tick, t.tickSpacing)
  ensures [gt] !lte ==> next > tick
  ensures [gtword] !lte ==> next <= wordmax(tick, t.tickSpacing)
  ensures [word] !init ==> next == ite(lte, wordmin(tick, t.tickSpacing), wordmax(tick, t.tickSpacing))
  ensures [nonebelow] lte ==> forall k {t.has[k]} :: next < k && k <= tick ==> !t.has[k]
  ensures [noneabove] !lte ==> forall k {t.has[k]} :: tick < k && k < next ==> !t.has[k]
  ensures [Lbelow] lte ==> forall k {t.L[k]} :: next <= k && k <= tick ==> t.L[k] == t.L[tick]
  ensures [Labove] !lte ==> forall k {t.L[k]} :: tick <= k && k < next ==> t.L[k] == t.L[tick]
  exit {
    when tick < 0 {
      let q = (0 - tick) / t.tickSpacing
      use trunc_neg(tick, t.tickSpacing)
      when q * t.tickSpacing != 0 - tick {
        when lte { use mul_eq((0 - q - 1) / 256, (tick / t.tickSpacing) / 256, t.tickSpacing) }
        when !lte { use mul_eq((0 - q) / 256, (tick / t.tickSpacing + 1) / 256, t.tickSpacing) }
      }
      when q * t.tickSpacing == 0 - tick {
        when lte { use mul_eq((0 - q) / 256, (tick / t.tickSpacing) / 256, t.tickSpacing) }
        when !lte { use mul_eq((0 - q + 1) / 256, (tick / t.tickSpacing + 1) / 256, t.tickSpacing) }
      }
    }
    when !lte { use wordmax_gt(tick, t.tickSpacing) }
    when lte { use wordmin_le(tick, t.tickSpacing) }
  }

func tickdata.TickData.Clone(t) (n)
  mem heap
  fresh n
  requires td_ok(t) with adt
  ensures [rep] td_ok(n) with adt
  ensures [spacing] n.tickSpacing == t.tickSpacing
  ensures [len] len(n.ticks) == len(t.ticks)
  ensures [has] forall k {n.has[k]} :: n.has[k] == t.has[k]
  ensures [L] forall k {n.L[k]} :: n.L[k] == t.L[k]
  ensures [gross] forall k {n.gross[k]} :: n.gross[k] == t.gross[k]
  ensures [fo0] forall k {n.fo0[k]} :: n.fo0[k] == t.fo0[k]
  ensures [fo1] forall k {n.fo1[k]} :: n.fo1[k] == t.fo1[k]
  // no tick value is shared with the original
  ensures [deep] forall i {n.ticks[i].LiquidityNet} {n.ticks[i].LiquidityGross} {n.ticks[i].FeeGrowthOutside0X128} {n.ticks[i].FeeGrowthOutside1X128} :: 0 <= i && i < len(n.ticks) ==>
       addr(n.ticks[i].LiquidityNet) >= old(ctr()) && addr(n.ticks[i].LiquidityGross) >= old(ctr())
    && addr(n.ticks[i].FeeGrowthOutside0X128) >= old(ctr()) && addr(n.ticks[i].FeeGrowthOutside1X128) >= old(ctr()) with adt
  loop 1
    invariant 0 - 1 <= rangeindex && rangeindex < len(t.ticks)
    invariant len(newTickData.ticks) == len(t.ticks)
    invariant [frame] forall r {U(r)} :: r < old(ctr()) ==> U(r) == old(U(r))
    invariant [ctr] ctr() >= old(ctr())
    invariant [idx] forall j {newTickData.ticks[j].Index} :: 0 <= j && j <= rangeindex ==> newTickData.ticks[j].Index == t.ticks[j].Index
    invariant [val] forall j {newTickData.ticks[j].LiquidityNet} {newTickData.ticks[j].LiquidityGross} {newTickData.ticks[j].FeeGrowthOutside0X128} {newTickData.ticks[j].FeeGrowthOutside1X128} :: 0 <= j && j <= rangeindex ==>
        #(newTickData.ticks[j].LiquidityNet) == #(t.ticks[j].LiquidityNet) && #(newTickData.ticks[j].LiquidityGross) == #(t.ticks[j].LiquidityGross)
     && #(newTickData.ticks[j].FeeGrowthOutside0X128) == #(t.ticks[j].FeeGrowthOutside0X128) && #(newTickData.ticks[j].FeeGrowthOutside1X128) == #(t.ticks[j].FeeGrowthOutside1X128)
    invariant [refs] forall j {newTickData.ticks[j].LiquidityNet} {newTickData.ticks[j].LiquidityGross} {newTickData.ticks[j].FeeGrowthOutside0X128} {newTickData.ticks[j].FeeGrowthOutside1X128} :: 0 <= j && j <= rangeindex ==>
        allocated(newTickData.ticks[j].LiquidityNet) && newTickData.own[addr(newTickData.ticks[j].LiquidityNet)] == 4 * t.ticks[j].Index
     && allocated(newTickData.ticks[j].LiquidityGross) && newTickData.own[addr(newTickData.ticks[j].LiquidityGross)] == 4 * t.ticks[j].Index + 1
     && allocated(newTickData.ticks[j].FeeGrowthOutside0X128) && newTickData.own[addr(newTickData.ticks[j].FeeGrowthOutside0X128)] == 4 * t.ticks[j].Index + 2
     && allocated(newTickData.ticks[j].FeeGrowthOutside1X128) && newTickData.own[addr(newTickData.ticks[j].FeeGrowthOutside1X128)] == 4 * t.ticks[j].Index + 3
    invariant [deep] forall j {newTickData.ticks[j].LiquidityNet} {newTickData.ticks[j].LiquidityGross} {newTickData.ticks[j].FeeGrowthOutside0X128} {newTickData.ticks[j].FeeGrowthOutside1X128} :: 0 <= j && j <= rangeindex ==>
        addr(newTickData.ticks[j].LiquidityNet) >= old(ctr()) && addr(newTickData.ticks[j].LiquidityGross) >= old(ctr())
     && addr(newTickData.ticks[j].FeeGrowthOutside0X128) >= old(ctr()) && addr(newTickData.ticks[j].FeeGrowthOutside1X128) >= old(ctr())
    back {
      set newTickData.own[r] = ite(r == addr(newTickData.ticks[rangeindex].LiquidityNet), 4 * t.ticks[rangeindex].Index,
        ite(r == addr(newTickData.ticks[rangeindex].LiquidityGross), 4 * t.ticks[rangeindex].Index + 1,
        ite(r == addr(newTickData.ticks[rangeindex].FeeGrowthOutside0X128), 4 * t.ticks[rangeindex].Index + 2,
        ite(r == addr(newTickData.ticks[rangeindex].FeeGrowthOutside1X128), 4 * t.ticks[rangeindex].Index + 3, newTickData.own[r]))))
    }
  exit {
    set n.has = t.has
    set n.L = t.L
    set n.net = t.net
    set n.gross = t.gross
    set n.fo0 = t.fo0
    set n.fo1 = t.fo1
    set n.pos = t.pos
  }

// adding the signed amount delta at the lower end of a range, removing it at the upper end
define shiftL(l, d, upper) = ite(upper, wsub(l, d), wadd(l, d))

func tickdata.TickData.UpdateTick(t, index, tickCurrent, liquidityDelta, feeGrowthGlobal0X128, feeGrowthGlobal1X128, upper) (emptied)
  mem heap
  modifies t
  requires td_ok(t) with adt
  requires -2^31 < index && index < 2^31
  ensures [rep] td_ok(t) with adt
  ensures [spacing] t.tickSpacing == old(t.tickSpacing)
  ensures [len] len(t.ticks) == old(len(t.ticks)) + ite(old(t.has[index]), 0, 1)
  ensures [emptied] emptied == (old(t.has[index]) && t.gross[index] == 0)
  ensures [has] forall k {t.has[k]} :: t.has[k] == (k == index || old(t.has[k]))
  ensures [L] forall k {t.L[k]} :: t.L[k] == ite(k >= index, shiftL(old(t.L[k]), #liquidityDelta, upper), old(t.L[k]))
  ensures [gross] forall k {t.gross[k]} :: t.gross[k] == ite(k == index, ite(old(t.has[k]), wadd(old(t.gross[k]), #liquidityDelta), #liquidityDelta), old(t.gross[k]))
  ensures [fo0] forall k {t.fo0[k]} :: t.fo0[k] == ite(k == index && !old(t.has[k]), ite(index <= tickCurrent, #feeGrowthGlobal0X128, 0), old(t.fo0[k]))
  ensures [fo1] forall k {t.fo1[k]} :: t.fo1[k] == ite(k == index && !old(t.has[k]), ite(index <= tickCurrent, #feeGrowthGlobal1X128, 0), old(t.fo1[k]))
  at tickdata.TickData.binarySearch2 {
    let slot = ite($1 == 0 - 2, len(t.ticks), ite($1 == 0 - 1, 0, $1))
    assert [isnew] !$2 ==> !t.has[index] && t.L[index] == t.L[index - 1]
    assert [isold] $2 ==> t.has[index] && t.pos[index] == slot
    set t.L[k] = ite(k >= index, shiftL(old(t.L[k]), #liquidityDelta, upper), old(t.L[k]))
    set t.net[k] = ite(k == index, shiftL(ite(old(t.has[k]), old(t.net[k]), 0), #liquidityDelta, upper), old(t.net[k]))
    set t.gross[k] = ite(k == index, ite(old(t.has[k]), wadd(old(t.gross[k]), #liquidityDelta), #liquidityDelta), old(t.gross[k]))
    set t.fo0[k] = ite(k == index && !old(t.has[k]), ite(index <= tickCurrent, #feeGrowthGlobal0X128, 0), old(t.fo0[k]))
    set t.fo1[k] = ite(k == index && !old(t.has[k]), ite(index <= tickCurrent, #feeGrowthGlobal1X128, 0), old(t.fo1[k]))
    set t.pos[k] = ite(old(t.has[index]), old(t.pos[k]), ite(k == index, slot, ite(old(t.pos[k]) > slot - 1, old(t.pos[k]) + 1, old(t.pos[k]))))
    set t.has[k] = k == index || old(t.has[k])
  }
  exit {
    set t.own[r] = ite(old(t.has[index]), old(t.own[r]),
      ite(r == addr(t.ticks[slot].LiquidityNet), 4 * index,
      ite(r == addr(t.ticks[slot].LiquidityGross), 4 * index + 1,
      ite(r == addr(t.ticks[slot].FeeGrowthOutside0X128), 4 * index + 2,
      ite(r == addr(t.ticks[slot].FeeGrowthOutside1X128), 4 * index + 3, old(t.own[r]))))))
  }

func tickdata.TickData.ClearTick(t, index)
  mem heap
  modifies t
  requires td_ok(t) with adt
  requires t.has[index] ==> t.L[index] == t.L[index - 1]
  ensures [rep] td_ok(t) with adt
  ensures [spacing] t.tickSpacing == old(t.tickSpacing)
  ensures [len] len(t.ticks) == old(len(t.ticks)) - ite(old(t.has[index]), 1, 0)
  ensures [has] forall k {t.has[k]} :: t.has[k] == (k != index && old(t.has[k]))
  ensures [L] forall k {t.L[k]} :: t.L[k] == old(t.L[k])
  ensures [gross] forall k {t.gross[k]} :: t.gross[k] == old(t.gross[k])
  ensures [fo0] forall k {t.fo0[k]} :: t.fo0[k] == old(t.fo0[k])
  ensures [fo1] forall k {t.fo1[k]} :: t.fo1[k] == old(t.fo1[k])
  exit {
    set t.pos[k] = ite(old(t.has[index]) && old(t.pos[k]) > old(t.pos[index]), old(t.pos[k]) - 1, old(t.pos[k]))
    set t.has[k] = k != index && old(t.has[k])
  }
