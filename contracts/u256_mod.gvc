// uint256: division and remainder
func uint256.Int.Div(z, x, y) (r)
  modifies #z
  ensures r == z
  ensures #z == ite(old(#y) == 0, 0, old(#x) / old(#y))
  at uint256.Udivrem { use div_unique(#x, #y, val(quot), #$1) }
  exit {
    when old(#x) < old(#y) { use div_unique(old(#x), old(#y), 0, old(#x)) }
    when old(#x) == old(#y) && old(#y) > 0 { use div_unique(old(#x), old(#y), 1, 0) }
  }

func uint256.Int.Mod(z, x, y) (r)
  modifies #z
  ensures r == z
  ensures #z == ite(old(#y) == 0, 0, old(#x) % old(#y))
  at uint256.Udivrem { use div_unique(#x, #y, val(quot), #$1) }
  exit {
    when old(#x) < old(#y) { use div_unique(old(#x), old(#y), 0, old(#x)) }
    when old(#x) == old(#y) && old(#y) > 0 { use div_unique(old(#x), old(#y), 1, 0) }
    when old(#x) < 2^64 && old(#y) < old(#x) && old(#y) > 0 { use div_cong(lo64(old(#x)), lo64(old(#y)), old(#x), old(#y)) }
  }

func uint256.Int.SDiv(z, n, d) (r)
  modifies #z
  ensures r == z
  ensures #z == ite(old(#d) == 0, 0, ite(isneg(old(#n)) == isneg(old(#d)), abs256(old(#n)) / abs256(old(#d)), neg256(abs256(old(#n)) / abs256(old(#d)))))

func uint256.Int.SMod(z, x, y) (r)
  modifies #z
  ensures r == z
  ensures #z == ite(old(#y) == 0, 0, ite(isneg(old(#x)), neg256(abs256(old(#x)) % abs256(old(#y))), abs256(old(#x)) % abs256(old(#y))))
  exit {
    let x1 = old(#x)
    let y1 = old(#y)
    let nx = neg256(x1)
    let ny = neg256(y1)
    when isneg(x1) && isneg(y1) { use div_cong(nx, ny, abs256(x1), abs256(y1)) }
    when isneg(x1) && !isneg(y1) && y1 > 0 { use div_cong(nx, y1, abs256(x1), abs256(y1)) }
    when !isneg(x1) && isneg(y1) { use div_cong(x1, ny, abs256(x1), abs256(y1)) }
    when !isneg(x1) && !isneg(y1) && y1 > 0 { use div_cong(x1, y1, abs256(x1), abs256(y1)) }
  }

func uint256.Int.AddMod(z, x, y, m) (r)
  modifies #z
  ensures r == z
  ensures #z == ite(old(#m) == 0, 0, (old(#x) + old(#y)) % old(#m))
  before uint256.Int.Mod { use div_cong(#z, old(#m), old(#x) + old(#y), old(#m)) }
  at uint256.Udivrem { use div_unique(old(#x) + old(#y), old(#m), val(quot), #$1) }
  exit {
    let X = old(#x)
    let Y = old(#y)
    let M = old(#m)
    when M > 0 && X + Y < M { use div_unique(X + Y, M, 0, X + Y) }
    when M > 0 && X + Y >= M && X + Y - M < M { use div_unique(X + Y, M, 1, X + Y - M) }
    when M > 0 && X + Y - 2*M >= 0 && X + Y - 2*M < M { use div_unique(X + Y, M, 2, X + Y - 2*M) }
    when M > 0 && X + Y - 3*M >= 0 && X + Y - 3*M < M { use div_unique(X + Y, M, 3, X + Y - 3*M) }
  }

func uint256.Int.MulMod(z, x, y, m) (r)
  requires #m < 2^192
  modifies #z
  ensures r == z
  ensures #z == ite(old(#m) == 0, 0, (old(#x) * old(#y)) % old(#m))
  at uint256.Umul { use mul_nonneg(#x, #y) }
  before uint256.Int.Mod { use div_cong(#pl, old(#m), old(#x) * old(#y), old(#m)) }
  at uint256.Udivrem { use div_unique(old(#x) * old(#y), old(#m), val(quot), #$1) }
