// Package tickmath: the table of square-root prices and its inverse.
//
// sqrtAt(k) is entry k of the table the package initialiser fills; the ground
// facts are evaluated for every entry of the table of the current source.
fun sqrtAt(k): int in [4295128739, 1461446703485210103287273052203988822378723970342]
table tickmath.TickMath sqrtAt -887272

axiom sqrtAt_mono(i, j)
  ground tickmath.table
  requires -887272 <= i && i < j && j <= 887272
  ensures sqrtAt(i) < sqrtAt(j)

axiom sqrtAt_ends()
  ground tickmath.ends
  ensures sqrtAt(-887272) == 4295128739
  ensures sqrtAt(887272) == 1461446703485210103287273052203988822378723970342

// every entry is the value Uniswap V3 defines
axiom sqrtAt_canonical()
  ground tickmath.canonical
  ensures true

// and within 2^-60 (relative) plus one unit of 1.0001^(k/2) * 2^96
axiom sqrtAt_accuracy()
  ground tickmath.accuracy
  ensures true

lemma sqrtAt_mono_le(i, j)
  requires -887272 <= i && i <= j && j <= 887272
  ensures sqrtAt(i) <= sqrtAt(j)
  proof {
    when i < j { use sqrtAt_mono(i, j) }
    when i >= j { assert i == j }
  }

// the tick of a price is unique
lemma tick_unique(a, b, x)
  requires -887272 <= a && a < 887272 && -887272 <= b && b < 887272
  requires sqrtAt(a) <= x && x < sqrtAt(a + 1)
  requires sqrtAt(b) <= x && x < sqrtAt(b + 1)
  ensures a == b
  proof {
    when a < b { use sqrtAt_mono_le(a + 1, b) }
    when a > b { use sqrtAt_mono_le(b + 1, a) }
  }

func tickmath.TickMath.GetSqrtRatioAtTick(t, tick) (r)
  mem heap
  fresh r
  requires [range] -887272 <= tick && tick <= 887272
  ensures [value] #r == sqrtAt(tick)

func tickmath.TickMath.GetTickAtSqrtRatio(t, sqrtRatioX96) (tick)
  mem heap
  panics_if #sqrtRatioX96 < 4295128739 || #sqrtRatioX96 >= 1461446703485210103287273052203988822378723970342
  ensures [range] -887272 <= tick && tick < 887272
  ensures [lower] sqrtAt(tick) <= #sqrtRatioX96
  ensures [upper] #sqrtRatioX96 < sqrtAt(tick + 1)
  loop 1
    invariant 0 <= l && l <= r && r <= 1774544
    invariant sqrtAt(l - 887272) <= #sqrtRatioX96
    invariant r == 1774544 || #sqrtRatioX96 < sqrtAt(r - 887271)
    decreases r - l
  entry {
    use sqrtAt_ends()
  }

// nearest multiple of the spacing (ties away from zero), next multiple above, below
define nearest(i, u) = ite(i >= 0, ((2 * i + u) / (2 * u)) * u, 0 - ((0 - 2 * i + u) / (2 * u)) * u)

func tickmath.Round(ix, iunit) (r)
  ground tickmath.round
  requires (iunit == 10 || iunit == 60 || iunit == 200) && -4194304 <= ix && ix <= 4194304
  ensures [value] r == nearest(ix, iunit)

func tickmath.Ceil(ix, iunit) (r)
  ground tickmath.ceil
  requires (iunit == 10 || iunit == 60 || iunit == 200) && -4194304 <= ix && ix <= 4194304
  ensures [value] r == 0 - ((0 - ix) / iunit) * iunit

func tickmath.Floor(ix, iunit) (r)
  ground tickmath.floor
  requires (iunit == 10 || iunit == 60 || iunit == 200) && -4194304 <= ix && ix <= 4194304
  ensures [value] r == (ix / iunit) * iunit
