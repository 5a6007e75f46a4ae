// Package executor: the timeline of a simulation.

// Any strategy, as the executor sees it: it owns a pool, and whatever it does leaves
// that pool valid (C20 and C24 prove it of each strategy).
interface strategy.Strategy
  field Pool: pool.Pool

// What happened, as the calls happen:
//   n        transactions executed           start   the one at which Init ran, or -1
//   op[i]    what transaction i did to the pool: 1 Mint, 2 Burn, 3/4 swap of token0/1, 5 Flash
//   price, snap, reb   the transactions before which a price was recorded, the holdings
//            were valued, the strategy rebalanced
//   pdue, sdue, rdue   the times from which these were due
//   usd[j]   the value that entry j of the results must have
//   marks    valuations between Init and the end
//   closed   calls of BurnAll
ghost executor.Execution
  field n: num
  field start: num
  field inits: num
  field closed: num
  field op: ints
  field price: set
  field snap: set
  field reb: set
  field pdue: ints
  field sdue: ints
  field rdue: ints
  field usd: ints
  field marks: num

func strategy.Strategy.GetPool(s) (r)
  trusted
  mem heap
  ensures r == s.Pool

func strategy.Strategy.Init(s) (r0, r1)
  trusted
  mem heap
  opt maypanic
  modifies deref(s.Pool)
  fresh r0, r1
  requires pool_ok(s.Pool)
  ensures pool_ok(s.Pool)

func strategy.Strategy.Rebalance(s) (r0, r1)
  trusted
  mem heap
  opt maypanic
  modifies deref(s.Pool)
  fresh r0, r1
  requires pool_ok(s.Pool)
  ensures pool_ok(s.Pool)

func strategy.Strategy.BurnAll(s) (r0, r1)
  trusted
  mem heap
  opt maypanic
  modifies deref(s.Pool)
  fresh r0, r1
  requires pool_ok(s.Pool)
  ensures pool_ok(s.Pool)

func strategy.Strategy.GetAmounts(s) (r0, r1)
  trusted
  mem heap
  opt maypanic
  fresh r0, r1
  requires pool_ok(s.Pool)
  ensures pool_ok(s.Pool)

func strategy.Strategy.MakeSnapshot(s) ()
  trusted
  mem heap
  opt maypanic
  requires pool_ok(s.Pool)
  ensures pool_ok(s.Pool)

fun usd(a0, a1, P): int
axiom usd_def(a0, a1, P)
  ensures usd(a0, a1, P) == (a0 + (a1 * 2^192) / (P * P)) % 2^256

// what both amounts are worth in token 0 at the square root price P
func executor.valueIn0(amount0, amount1, x96) (r)
  fresh r
  requires [price] #x96 > 0
  requires [fits] ite(#x96 < 2^128, #amount1 * 2^192 < 2^256 * (#x96)^2, #amount1 * 2^192 < 2^256 * #x96)
  ensures [value] #r == usd(#amount0, #amount1, #x96)
  exit {
    use usd_def(#amount0, #amount1, #x96)
    use div_div(#amount1 * 2^192, #x96, #x96)
  }

define x_ts(e) = forall i {e.Transactions[i].Timestamp} :: 0 <= i && i < len(e.Transactions) ==> 0 - 2^50 <= e.Transactions[i].Timestamp && e.Transactions[i].Timestamp <= 2^50
define x_kind(e, i) = ite(strid(e.Transactions[i].Type) == strid("Mint"), 1, ite(strid(e.Transactions[i].Type) == strid("Burn"), 2, ite(strid(e.Transactions[i].Type) == strid("Swap"), ite(sgn(#(e.Transactions[i].Amount0)) > 0, 3, ite(sgn(#(e.Transactions[i].Amount1)) > 0, 4, 0)), ite(strid(e.Transactions[i].Type) == strid("Flash"), 5, 0))))
define x_amounts(e) = forall i {e.Transactions[i].Amount} {e.Transactions[i].Amount0} {e.Transactions[i].Amount1} :: 0 <= i && i < len(e.Transactions) ==> ((strid(e.Transactions[i].Type) == strid("Mint") || strid(e.Transactions[i].Type) == strid("Burn")) ==> allocated(e.Transactions[i].Amount)) && ((strid(e.Transactions[i].Type) == strid("Swap") || strid(e.Transactions[i].Type) == strid("Flash")) ==> allocated(e.Transactions[i].Amount0) && allocated(e.Transactions[i].Amount1))

define x_applied(e, n) = forall i {e.op[i]} :: 0 <= i && i < n ==> e.op[i] == x_kind(e, i)
define x_started(e, n) = ite(e.start < 0, e.start == 0 - 1 && (forall i {e.Transactions[i].Timestamp} :: 0 <= i && i < n ==> e.Transactions[i].Timestamp < e.StartTime), e.start < n && e.Transactions[e.start].Timestamp >= e.StartTime && (forall i {e.Transactions[i].Timestamp} :: 0 <= i && i < e.start ==> e.Transactions[i].Timestamp < e.StartTime)) && e.inits == ite(e.start < 0, 0, 1)
define x_inside(e, n) = forall i {e.Transactions[i].Timestamp} :: 0 <= i && i < n ==> e.Transactions[i].Timestamp <= e.EndTime
// a price is recorded before each transaction later than the time due, which then moves on by the interval
define x_prices(e, n) = e.pdue[0] == 0 && (forall i {e.price[i]} {e.pdue[i]} :: 0 <= i && i < n ==> e.price[i] == (e.Transactions[i].Timestamp > e.pdue[i]) && e.pdue[i + 1] == e.pdue[i] + ite(e.price[i], e.PricesSnapshotsInterval, 0))
define x_snaps(e, n) = (e.start >= 0 ==> e.sdue[e.start] == e.Transactions[e.start].Timestamp + e.SnapShotInterval) && (forall i {e.snap[i]} {e.sdue[i]} :: 0 <= i && i < n ==> e.snap[i] == (0 <= e.start && e.start <= i && e.Transactions[i].Timestamp >= e.sdue[i]) && (0 <= e.start && e.start <= i ==> e.sdue[i + 1] == e.sdue[i] + ite(e.snap[i], e.SnapShotInterval, 0)))
define x_rebs(e, n) = (e.start >= 0 ==> e.rdue[e.start] == e.Transactions[e.start].Timestamp + e.UpdateInterval) && (forall i {e.reb[i]} {e.rdue[i]} :: 0 <= i && i < n ==> e.reb[i] == (0 <= e.start && e.start <= i && e.Transactions[i].Timestamp >= e.rdue[i]) && (0 <= e.start && e.start <= i ==> e.rdue[i + 1] == e.rdue[i] + ite(e.reb[i], e.UpdateInterval, 0)))
define x_values(e, from) = forall j {e.AmountUSDSnapshots[j]} :: from <= j && j < len(e.AmountUSDSnapshots) ==> allocated(e.AmountUSDSnapshots[j]) && #(e.AmountUSDSnapshots[j]) == e.usd[j]
define x_old(e, n) = forall j {e.AmountUSDSnapshots[j]} :: 0 <= j && j < n ==> allocated(e.AmountUSDSnapshots[j]) && #(e.AmountUSDSnapshots[j]) == old(#(e.AmountUSDSnapshots[j]))

func executor.Execution.Run(e) ()
  mem heap
  opt maypanic
  opt reuse
  opt append
  modifies deref(e.Strategy.Pool), e.AmountUSDSnapshots, e.n, e.start, e.inits, e.closed, e.marks, e.op, e.price, e.snap, e.reb, e.pdue, e.sdue, e.rdue, e.usd
  assumes executor.valueIn0.fits, pool.Pool.Mint.fits, pool.Pool.Burn.covers, pool.Pool.ExactInputSwap.amount, pool.Pool.ExactInputSwap.hasticks, pool.Pool.Flash.amounts
  requires pool_ok(e.Strategy.Pool)
  requires [times] x_ts(e)
  requires [amounts] x_amounts(e)
  requires [intervals] 0 <= e.UpdateInterval && e.UpdateInterval <= 2^40 && 0 <= e.SnapShotInterval && e.SnapShotInterval <= 2^40 && 0 <= e.PricesSnapshotsInterval && e.PricesSnapshotsInterval <= 2^40
  requires [results] forall j {e.AmountUSDSnapshots[j]} :: 0 <= j && j < len(e.AmountUSDSnapshots) ==> allocated(e.AmountUSDSnapshots[j])
  ensures [rep] pool_ok(e.Strategy.Pool)
  ensures [stop] 0 <= e.n && e.n <= len(e.Transactions) && x_inside(e, e.n) && (e.n < len(e.Transactions) ==> e.Transactions[e.n].Timestamp > e.EndTime)
  ensures [start] x_started(e, e.n)
  ensures [applied] x_applied(e, e.n)
  ensures [prices] x_prices(e, e.n)
  ensures [snapshots] x_snaps(e, e.n)
  ensures [rebalances] x_rebs(e, e.n)
  ensures [values] x_values(e, old(len(e.AmountUSDSnapshots)))
  ensures [kept] x_old(e, old(len(e.AmountUSDSnapshots)))
  ensures [count] len(e.AmountUSDSnapshots) == old(len(e.AmountUSDSnapshots)) + e.inits + e.marks + 1
  ensures [closed] e.closed == 1
  entry {
    set e.n = 0
    set e.start = 0 - 1
    set e.inits = 0
    set e.closed = 0
    set e.marks = 0
    set e.op[i] = 0
    set e.price[i] = false
    set e.snap[i] = false
    set e.reb[i] = false
    set e.pdue[i] = 0
    set e.sdue[i] = 0
    set e.rdue[i] = 0
  }
  loop 1
    invariant -1 <= rangeindex && rangeindex < len(e.Transactions) && e.n == rangeindex + 1
    invariant pool_ok(e.Strategy.Pool)
    invariant x_inside(e, rangeindex + 1)
    invariant x_started(e, rangeindex + 1)
    invariant x_applied(e, rangeindex + 1) && (forall i {e.op[i]} {e.price[i]} {e.snap[i]} {e.reb[i]} :: i > rangeindex ==> e.op[i] == 0 && !e.price[i] && !e.snap[i] && !e.reb[i])
    invariant x_prices(e, rangeindex + 1) && nextPriceSnapshot == e.pdue[rangeindex + 1] && 0 <= nextPriceSnapshot && nextPriceSnapshot <= 2^51
    invariant started == (e.start >= 0)
    invariant x_snaps(e, rangeindex + 1) && ite(started, nextSnapshot == e.sdue[rangeindex + 1] && 0 - 2^51 <= nextSnapshot && nextSnapshot <= 2^51, nextSnapshot == 2^63 - 1)
    invariant x_rebs(e, rangeindex + 1) && ite(started, nextUpdate == e.rdue[rangeindex + 1] && 0 - 2^51 <= nextUpdate && nextUpdate <= 2^51, nextUpdate == 2^63 - 1)
    invariant x_values(e, old(len(e.AmountUSDSnapshots))) && x_old(e, old(len(e.AmountUSDSnapshots)))
    invariant 0 <= e.marks && len(e.AmountUSDSnapshots) == old(len(e.AmountUSDSnapshots)) + e.inits + e.marks
    invariant e.closed == 0
    decreases len(e.Transactions) - rangeindex
    back {
      set e.n = e.n + 1
      set e.pdue[i] = ite(i == rangeindex + 1, nextPriceSnapshot, e.pdue[i])
      set e.sdue[i] = ite(i == rangeindex + 1, nextSnapshot, e.sdue[i])
      set e.rdue[i] = ite(i == rangeindex + 1, nextUpdate, e.rdue[i])
    }
  at strategy.Strategy.Init {
    assert [once] e.inits == 0 && e.start < 0 && e.op[rangeindex] == 0
    set e.inits = e.inits + 1
    set e.start = rangeindex
    set e.sdue[i] = ite(i == rangeindex, e.Transactions[rangeindex].Timestamp + e.SnapShotInterval, e.sdue[i])
    set e.rdue[i] = ite(i == rangeindex, e.Transactions[rangeindex].Timestamp + e.UpdateInterval, e.rdue[i])
    set e.usd[j] = ite(j == len(e.AmountUSDSnapshots), usd(#$1, #$2, #(e.Strategy.Pool.SqrtRatioX96)), e.usd[j])
  }
  at strategy.Strategy.MakeSnapshot {
    assert [once] !e.price[rangeindex]
    assert [order] !e.snap[rangeindex] && !e.reb[rangeindex] && e.op[rangeindex] == 0
    set e.price[i] = ite(i == rangeindex, true, e.price[i])
  }
  at strategy.Strategy.GetAmounts {
    assert [once] !e.snap[rangeindex]
    assert [order] !e.reb[rangeindex] && e.op[rangeindex] == 0
    set e.snap[i] = ite(i == rangeindex, true, e.snap[i])
    set e.marks = e.marks + 1
    set e.usd[j] = ite(j == len(e.AmountUSDSnapshots), usd(#$1, #$2, #(e.Strategy.Pool.SqrtRatioX96)), e.usd[j])
  }
  at strategy.Strategy.Rebalance {
    assert [once] !e.reb[rangeindex]
    assert [order] e.op[rangeindex] == 0
    set e.reb[i] = ite(i == rangeindex, true, e.reb[i])
  }
  at strategy.Strategy.BurnAll {
    assert [once] e.closed == 0
    set e.closed = e.closed + 1
    set e.usd[j] = ite(j == len(e.AmountUSDSnapshots), usd(#$1, #$2, #(e.Strategy.Pool.SqrtRatioX96)), e.usd[j])
  }
  at pool.Pool.Mint {
    assert [once] e.op[rangeindex] == 0 && e.closed == 0
    assert [args] $a1 == e.Strategy.Pool && $a2 == e.Transactions[rangeindex].TickLower && $a3 == e.Transactions[rangeindex].TickUpper && #$a4 == #(e.Transactions[rangeindex].Amount)
    set e.op[i] = ite(i == rangeindex, 1, e.op[i])
  }
  at pool.Pool.Burn {
    assert [once] e.op[rangeindex] == 0 && e.closed == 0
    assert [args] $a1 == e.Strategy.Pool && $a2 == e.Transactions[rangeindex].TickLower && $a3 == e.Transactions[rangeindex].TickUpper && #$a4 == #(e.Transactions[rangeindex].Amount)
    set e.op[i] = ite(i == rangeindex, 2, e.op[i])
  }
  at pool.Pool.ExactInputSwap {
    assert [once] e.op[rangeindex] == 0 && e.closed == 0
    assert [args] $a1 == e.Strategy.Pool && #$a4 == 0 && ite(sgn(#(e.Transactions[rangeindex].Amount0)) > 0, #$a2 == #(e.Transactions[rangeindex].Amount0) && strid($a3) == strid(e.Strategy.Pool.Token0), #$a2 == #(e.Transactions[rangeindex].Amount1) && strid($a3) == strid(e.Strategy.Pool.Token1))
    set e.op[i] = ite(i == rangeindex, ite(sgn(#(e.Transactions[rangeindex].Amount0)) > 0, 3, 4), e.op[i])
  }
  at pool.Pool.Flash {
    assert [once] e.op[rangeindex] == 0 && e.closed == 0
    assert [args] $a1 == e.Strategy.Pool && #$a2 == #(e.Transactions[rangeindex].Amount0) && #$a3 == #(e.Transactions[rangeindex].Amount1)
    set e.op[i] = ite(i == rangeindex, 5, e.op[i])
  }

// an execution holds what it was given; no value is recorded yet
// (it shares the strategy and the transactions with its caller: no function under contract calls it)
func executor.CreateExecution(strategy, startTime, endTime, updateInterval, snapShotInterval, priceSnapshotInterval, transactions) (e)
  mem heap
  opt shares
  fresh e
  requires [some] len(transactions) > 0 && updateInterval > 0
  requires [later] transactions[len(transactions) - 1].Timestamp >= startTime
  requires [range] 0 - 2^50 <= startTime && transactions[len(transactions) - 1].Timestamp <= 2^50
  ensures [strategy] e.Strategy == strategy
  ensures [times] e.StartTime == startTime && e.EndTime == endTime
  ensures [intervals] e.UpdateInterval == updateInterval && e.SnapShotInterval == snapShotInterval && e.PricesSnapshotsInterval == priceSnapshotInterval
  ensures [empty] len(e.AmountUSDSnapshots) == 0
  ensures [all] len(e.Transactions) == len(transactions) && (forall i {e.Transactions[i].Timestamp} :: 0 <= i && i < len(transactions) ==> e.Transactions[i].Timestamp == transactions[i].Timestamp && strid(e.Transactions[i].Type) == strid(transactions[i].Type))
