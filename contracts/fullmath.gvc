// fullmath: floor and ceiling of a*b/denominator with a 512-bit intermediate product

func fullmath.MulDiv(a, b, denominator) (r)
  opt alias = pure
  requires [nonzero] #denominator > 0
  requires [fits] #a * #b < #denominator * T256
  fresh r
  ensures #r == (#a * #b) / #denominator
  at uint256.Umul { use mul_nonneg(#a, #b) }
  at uint256.Udivrem { use div_unique(#a * #b, #denominator, val(q), #$1) }
  exit {
    when #a == 0 || #b == 0 { use div_unique(0, #denominator, 0, 0); use div_cong(#a * #b, #denominator, 0, #denominator) }
  }

func fullmath.MulDivRoundingUp(a, b, denominator) (r)
  opt alias = pure
  requires #denominator > 0
  requires #a * #b <= #denominator * (T256 - 1)
  fresh r
  ensures #r == cdiv(#a * #b, #denominator)
  at uint256.Umul { use mul_nonneg(#a, #b) }
  at uint256.Udivrem {
    use div_unique(#a * #b, #denominator, val(q), #$1)
    when #$1 > 0 { use cancel_lt(val(q), T256 - 1, #denominator) }
    when #$1 == 0 { use cancel_le(val(q), T256 - 1, #denominator) }
  }
  exit {
    when #a == 0 || #b == 0 { use div_unique(0, #denominator, 0, 0); use div_cong(#a * #b, #denominator, 0, #denominator) }
  }
