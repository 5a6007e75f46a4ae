// Package prices: a window of the most recent prices and its statistics.
//   tot[k], dev[k]   sum of the first k values / squared deviations of the
//                    window, as the last Average / Volatility computed them
ghost prices.Prices
  field tot: ints
  field dev: ints

define pr_vals(p) = forall i {p.prices[i]} :: 0 <= i && i < p.length ==> allocated(p.prices[i]) && #(p.prices[i]) < 2^230
define pr_ok(p) = 1 <= p.length && p.length <= 2^24 && len(p.prices) == p.length && 0 <= p.index && p.index < p.length && pr_vals(p)

func prices.NewPrices(length) (p)
  mem heap
  fresh p
  requires 1 <= length && length <= 2^24
  ensures [rep] pr_ok(p) with adt
  ensures [size] p.length == length && p.index == 0
  ensures [zero] forall i {p.prices[i]} :: 0 <= i && i < length ==> #(p.prices[i]) == 0
  loop 1
    invariant 0 <= i && i <= length
    invariant forall k {prices[k]} :: 0 <= k && k < i ==> allocated(prices[k]) && #(prices[k]) == 0
    decreases length - i

// Add squares the price and overwrites the oldest value of the window
func prices.Prices.Add(p, price) ()
  mem heap
  modifies p
  requires pr_ok(p) with adt
  panics_if #price * #price >= 2^230
  ensures [rep] pr_ok(p) with adt
  ensures [size] p.length == old(p.length)
  ensures [next] p.index == ite(old(p.index) == p.length - 1, 0, old(p.index) + 1)
  ensures [new] #(p.prices[old(p.index)]) == #price * #price
  ensures [rest] forall i {p.prices[i]} :: 0 <= i && i < p.length && i != old(p.index) ==> #(p.prices[i]) == old(#(p.prices[i]))

// Average: the floor of the mean of the window
func prices.Prices.Average(p) (r)
  mem heap
  fresh r
  modifies p.tot
  requires pr_ok(p) with adt
  ensures [first] p.tot[0] == 0
  ensures [sum] forall k {p.tot[k]} :: 0 < k && k <= p.length ==> p.tot[k] == p.tot[k-1] + #(p.prices[k-1])
  ensures [range] 0 <= p.tot[p.length] && p.tot[p.length] < p.length * 2^230
  ensures [mean] #r == p.tot[p.length] / p.length
  ensures [small] #r < 2^230
  entry {
    set p.tot[k] = 0
  }
  loop 1
    invariant -1 <= rangeindex && rangeindex < p.length
    invariant #sum == p.tot[rangeindex + 1] && p.tot[0] == 0
    invariant 0 <= #sum && #sum <= (rangeindex + 1) * 2^230 - (rangeindex + 1)
    invariant forall k {p.tot[k]} :: 0 < k && k <= rangeindex + 1 ==> p.tot[k] == p.tot[k-1] + #(p.prices[k-1])
    decreases p.length - rangeindex
    back {
      set p.tot[k] = ite(k == rangeindex + 1, #sum, p.tot[k])
    }

// Volatility: the floor of the square root of the sample variance
func prices.Prices.Volatility(p) (r)
  mem heap
  fresh r
  modifies p.tot
  modifies p.dev
  requires pr_ok(p) with adt
  panics_if p.length == 1
  ensures [mean] p.tot[0] == 0 && (forall k {p.tot[k]} :: 0 < k && k <= p.length ==> p.tot[k] == p.tot[k-1] + #(p.prices[k-1]))
  ensures [first] p.dev[0] == 0
  ensures [sum] forall k {p.dev[k]} :: 0 < k && k <= p.length ==> p.dev[k] == p.dev[k-1] + (#(p.prices[k-1]) - p.tot[p.length] / p.length)^2
  ensures [root] (#r)^2 <= p.dev[p.length] / (p.length - 1) && p.dev[p.length] / (p.length - 1) < (#r + 1)^2
  ensures [small] #r < 2^243
  entry {
    set p.dev[k] = 0
  }
  loop 1
    invariant -1 <= rangeindex && rangeindex < p.length
    invariant #sum == p.dev[rangeindex + 1] && p.dev[0] == 0
    invariant 0 <= #sum && #sum <= (rangeindex + 1) * 2^460
    invariant forall k {p.dev[k]} :: 0 < k && k <= rangeindex + 1 ==> p.dev[k] == p.dev[k-1] + (#(p.prices[k-1]) - #avg)^2
    decreases p.length - rangeindex
    back {
      name d = #(p.prices[rangeindex]) - #avg
      name a = #diff
      assert [abs] a == ite(d < 0, -d, d)
      assert [square] a * a == d * d
      assert [sum] #sum == p.dev[rangeindex] + d * d
      set p.dev[k] = ite(k == rangeindex + 1, #sum, p.dev[k])
    }
