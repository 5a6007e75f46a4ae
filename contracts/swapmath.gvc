// one step of a swap inside a price range without initialised ticks
lemma cdiv_gt(x, a, b)
  requires 0 < b && x < cdiv(a, b)
  ensures x*b < a
  proof { assert !(a <= x*b) by { when a <= x*b { use cdiv_le(x, a, b) } } }
lemma div_gt(x, a, b)
  requires 0 < b && x < a/b
  ensures x*b + b <= a
  proof { use div_def(a, b); use mul_le(x + 1, a/b, b) }

// token0 in, price falls from P towards Q; N = L*2^96
lemma in0_core(N, P, Q, A, X)
  requires 0 < Q && Q <= P && 0 < N && 0 <= A
  requires A*P*Q < N*(P - Q)
  requires 0 < X && N*P <= X*(N + A*P) && (X - 1)*(N + A*P) < N*P
  ensures Q < X
  ensures X <= P
  ensures cdiv(N*(P - X), P*X) <= A
  proof {
    use mul_nonneg(A, P)
    assert Q*(N + A*P) < N*P
    use cancel_lt(Q, X, N + A*P)
    use mul_nonneg(A*P, P)
    assert (X - 1)*(N + A*P) < P*(N + A*P)
    use cancel_lt(X - 1, P, N + A*P)
    use mul_lt(0, P, X)
    use cdiv_le(A, N*(P - X), P*X)
  }
lemma in0_a(N, P, Q, A)
  requires 0 < Q && Q <= P && 0 < N && 0 <= A
  requires A < cdiv(N*(P - Q), P*Q)
  ensures Q < cdiv(N*P, N + A*P)
  ensures cdiv(N*P, N + A*P) <= P
  ensures cdiv(N*(P - cdiv(N*P, N + A*P)), P*cdiv(N*P, N + A*P)) <= A
  proof {
    use mul_lt(0, P, Q)
    use cdiv_gt(A, N*(P - Q), P*Q)
    use mul_nonneg(A, P)
    name X = cdiv(N*P, N + A*P)
    use cdiv_def(N*P, N + A*P)
    use mul_eq(X, cdiv(N*P, N + A*P), N + A*P)
    use mul_lt(0, N, P)
    assert 0 < X by { when X <= 0 { use mul_le(X, 0, N + A*P) } }
    use in0_core(N, P, Q, A, X)
    use mul_lt(0, P, X)
    use mul_nonneg(N, P - X)
    use mul_eq(X, cdiv(N*P, N + A*P), P)
    use mul_eq(X, cdiv(N*P, N + A*P), N)
    use div_cong(N*(P - X), P*X, N*(P - cdiv(N*P, N + A*P)), P*cdiv(N*P, N + A*P))
  }
lemma in0_b(N, P, Q, A)
  requires 0 < Q && Q <= P && 0 < N && 1 <= A
  requires A < cdiv(N*(P - Q), P*Q)
  ensures Q < cdiv(N, N/P + A)
  ensures cdiv(N, N/P + A) <= P
  ensures cdiv(N*(P - cdiv(N, N/P + A)), P*cdiv(N, N/P + A)) <= A
  proof {
    use mul_lt(0, P, Q)
    use cdiv_gt(A, N*(P - Q), P*Q)
    name q = N/P
    use div_def(N, P)
    use div_nonneg(N, P)
    use mul_eq(q, N/P, P)
    name X = cdiv(N, N/P + A)
    use cdiv_def(N, N/P + A)
    use mul_eq(X, cdiv(N, N/P + A), q + A)
    assert N <= X*(q + A)
    assert (X - 1)*(q + A) < N
    assert 0 < X by { when X <= 0 { use mul_le(X, 0, q + A) } }
    assert q*P <= N
    assert N < q*P + P
    assert Q < X by {
      use mul_le(q*P, N, Q)
      assert (q + A)*Q*P < N*P
      use cancel_lt((q+A)*Q, N, P)
      use cancel_lt(Q, X, q + A)
    }
    assert X <= P by {
      use mul_le(1, A, P)
      assert (X-1)*(q+A) < P*(q+A)
      use cancel_lt(X - 1, P, q + A)
    }
    assert N*(P - X) <= A*P*X by {
      use mul_le(N, X*(q+A), P)
      use mul_le(q*P, N, X)
    }
    use mul_lt(0, P, X)
    use cdiv_le(A, N*(P - X), P*X)
    use mul_nonneg(N, P - X)
    use mul_eq(X, cdiv(N, N/P + A), P)
    use mul_eq(X, cdiv(N, N/P + A), N)
    use div_cong(N*(P - X), P*X, N*(P - cdiv(N, N/P + A)), P*cdiv(N, N/P + A))
  }
// token1 in, price rises from P towards Q
lemma in1(L, P, Q, A)
  requires 0 < P && P <= Q && 0 < L && 0 <= A
  requires A < cdiv(L*(Q - P), 2^96)
  ensures P + (A*2^96)/L < Q
  ensures P <= P + (A*2^96)/L
  ensures cdiv(L*((A*2^96)/L), 2^96) <= A
  proof {
    use cdiv_gt(A, L*(Q - P), 2^96)
    use div_lt(Q - P, A*2^96, L)
    use div_nonneg(A*2^96, L)
    use div_def(A*2^96, L)
    use cdiv_le(A, L*((A*2^96)/L), 2^96)
  }
// token1 out, price falls from P towards Q
lemma out1(L, P, Q, B)
  requires 0 < Q && Q <= P && 0 < L && 0 <= B
  requires B < (L*(P - Q))/2^96
  ensures cdiv(B*2^96, L) <= P - Q
  ensures 0 <= cdiv(B*2^96, L)
  ensures B <= (L*cdiv(B*2^96, L))/2^96
  proof {
    use div_gt(B, L*(P - Q), 2^96)
    use cdiv_le(P - Q, B*2^96, L)
    use cdiv_ge(0, B*2^96, L)
    use cdiv_def(B*2^96, L)
    use div_ge(B, L*cdiv(B*2^96, L), 2^96)
  }
// token0 out, price rises from P towards Q
lemma out0(N, P, Q, B)
  requires 0 < P && P <= Q && 0 < N && 0 <= B
  requires B < (N*(Q - P)) / (Q*P)
  ensures B*P < N
  ensures N*P < (N - B*P)*Q
  ensures P <= cdiv(N*P, N - B*P)
  ensures cdiv(N*P, N - B*P) <= Q
  ensures B <= (N*(cdiv(N*P, N - B*P) - P)) / (cdiv(N*P, N - B*P)*P)
  proof {
    use mul_lt(0, Q, P)
    use div_gt(B, N*(Q - P), Q*P)
    assert B*P*Q < N*Q by { use mul_lt(0, N, P) }
    use cancel_lt(B*P, N, Q)
    name D = N - B*P
    use mul_eq(D, N - B*P, Q)
    use mul_eq(D, N - B*P, P)
    assert N*P < D*Q
    name X = cdiv(N*P, N - B*P)
    use cdiv_le(Q, N*P, N - B*P)
    use mul_nonneg(B, P)
    use mul_nonneg(B*P, P)
    use mul_lt(0, N, P)
    assert (P - 1)*(N - B*P) < N*P
    use cdiv_ge(P, N*P, N - B*P)
    use cdiv_def(N*P, N - B*P)
    use mul_eq(X, cdiv(N*P, N - B*P), D)
    use mul_eq(D, N - B*P, X)
    assert N*P <= X*(N - B*P)
    use mul_lt(0, P, X)
    use div_ge(B, N*(X - P), X*P)
    use mul_nonneg(N, X - P)
    use mul_eq(X, cdiv(N*P, N - B*P), P)
    use mul_eq(X, cdiv(N*P, N - B*P), N)
    use div_cong(N*(X - P), X*P, N*(cdiv(N*P, N - B*P) - P), cdiv(N*P, N - B*P)*P)
  }
// the fee taken from the input covers the pro-rata fee
lemma fee_part(A, F, f, I)
  requires 0 <= A && 0 < F && 0 <= f && f + F == 1000000 && 0 <= I
  requires I <= (A*F)/1000000
  ensures cdiv(I*f, F) <= A - I
  proof { assert I*1000000 <= A*F; use cdiv_le(A - I, I*f, F) }

define zfo(P, Q) = P >= Q
define in_amt(P, Q, L, X) = pick(zfo(P, Q), amt0up(L, X, P), amt1up(L, P, X))
define out_amt(P, Q, L, X) = pick(zfo(P, Q), amt1down(L, X, P), amt0down(L, P, X))
define less_fee(A, f) = (A * (1000000 - f)) / 1000000

func swapmath.ComputeSwapStep(sqrtRatioCurrentX96, sqrtRatioTargetX96, liquidity, amountRemainingI, feePips) (next, in, out, fee)
  opt alias = pure
  requires 0 < #sqrtRatioCurrentX96 && #sqrtRatioCurrentX96 < 2^160
  requires 0 < #sqrtRatioTargetX96 && #sqrtRatioTargetX96 < 2^160
  requires #liquidity < 2^128
  requires 0 <= feePips && feePips < 1000000
  shared next of (sqrtRatioCurrentX96, sqrtRatioTargetX96)
  fresh in, out, fee
  ensures [between] pick(zfo(#sqrtRatioCurrentX96, #sqrtRatioTargetX96), #sqrtRatioTargetX96 <= #next && #next <= #sqrtRatioCurrentX96, #sqrtRatioCurrentX96 <= #next && #next <= #sqrtRatioTargetX96)
  ensures [amountIn] #in == in_amt(#sqrtRatioCurrentX96, #sqrtRatioTargetX96, #liquidity, #next)
  ensures [amountOut.exactIn] !isneg(#amountRemainingI) ==> #out == out_amt(#sqrtRatioCurrentX96, #sqrtRatioTargetX96, #liquidity, #next)
  ensures [amountOut.exactOut] isneg(#amountRemainingI) ==> #out == min(neg256(#amountRemainingI), out_amt(#sqrtRatioCurrentX96, #sqrtRatioTargetX96, #liquidity, #next))
  ensures [budget.in] !isneg(#amountRemainingI) ==> #in + #fee <= #amountRemainingI
  ensures [budget.in.short] !isneg(#amountRemainingI) && #next != #sqrtRatioTargetX96 ==> #in + #fee == #amountRemainingI
  ensures [budget.out.short] isneg(#amountRemainingI) && #next != #sqrtRatioTargetX96 ==> #out == neg256(#amountRemainingI)
  ensures [fee.reached] isneg(#amountRemainingI) || #next == #sqrtRatioTargetX96 ==> #fee == cdiv(#in * feePips, 1000000 - feePips)
  ensures [fee.covers] #fee >= cdiv(#in * feePips, 1000000 - feePips)
  ensures [reach.in] !isneg(#amountRemainingI) ==> (#next == #sqrtRatioTargetX96 <==> less_fee(#amountRemainingI, feePips) >= in_amt(#sqrtRatioCurrentX96, #sqrtRatioTargetX96, #liquidity, #sqrtRatioTargetX96))
  ensures [next.in] !isneg(#amountRemainingI) && #next != #sqrtRatioTargetX96 ==> #next == pick(zfo(#sqrtRatioCurrentX96, #sqrtRatioTargetX96), nx0add(#sqrtRatioCurrentX96, #liquidity, less_fee(#amountRemainingI, feePips)), nx1add(#sqrtRatioCurrentX96, #liquidity, less_fee(#amountRemainingI, feePips)))
  ensures [next.out] isneg(#amountRemainingI) && #next != #sqrtRatioTargetX96 ==> #next == pick(zfo(#sqrtRatioCurrentX96, #sqrtRatioTargetX96), nx1sub(#sqrtRatioCurrentX96, #liquidity, neg256(#amountRemainingI)), nx0sub(#sqrtRatioCurrentX96, #liquidity, neg256(#amountRemainingI)))
  ensures [reach.out] isneg(#amountRemainingI) && neg256(#amountRemainingI) >= out_amt(#sqrtRatioCurrentX96, #sqrtRatioTargetX96, #liquidity, #sqrtRatioTargetX96) ==> #next == #sqrtRatioTargetX96
  at fullmath.MulDiv { use div_cong(#$a1 * #$a2, #$a3, #amountRemainingI * (1000000 - feePips), 1000000) }
  at fullmath.MulDivRoundingUp { use mul_eq(#$a2, feePips, #$a1); use div_cong(#$a1 * #$a2, #$a3, #$a1 * feePips, 1000000 - feePips) }
  before sqrtprice_math.GetNextSqrtPriceFromInput {
    let P = #$a1
    let Q = #sqrtRatioTargetX96
    let L = #$a2
    let A = #$a3
    assert [L>0] L > 0
    when P >= Q && A > 0 && A*P < T256 && L*2^96 + A*P < T256 { use in0_a(L*2^96, P, Q, A) }
    when P >= Q && A > 0 && !(A*P < T256 && L*2^96 + A*P < T256) { use in0_b(L*2^96, P, Q, A) }
    when P < Q { use in1(L, P, Q, A) }
  }
  before sqrtprice_math.GetNextSqrtPriceFromOutput {
    let P = #$a1
    let Q = #sqrtRatioTargetX96
    let L = #$a2
    let B = #$a3
    assert [L>0] L > 0
    when P >= Q { use out1(L, P, Q, B) }
    when P < Q { use out0(L*2^96, P, Q, B) }
  }
  exit {
    when !isneg(#amountRemainingI) { use fee_part(#amountRemainingI, 1000000 - feePips, feePips, #in) }
  }
