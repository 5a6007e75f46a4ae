From 5a49844dcfa2ff7349aefa84d9e63583f794533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 01/13] fix: position Clone copies TokensOwed0 from
 TokensOwed0, not TokensOwed1

---
 lib/position/position.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/position/position.go b/lib/position/position.go
index 1589dda..bf88719 100644
--- a/lib/position/position.go
+++ b/lib/position/position.go
@@ -11,7 +11,7 @@ func (i *Info) Clone() *Info {
 		Liquidity:                i.Liquidity.Clone(),
 		FeeGrowthInside0LastX128: i.FeeGrowthInside0LastX128.Clone(),
 		FeeGrowthInside1LastX128: i.FeeGrowthInside1LastX128.Clone(),
-		TokensOwed0:              i.TokensOwed1.Clone(),
+		TokensOwed0:              i.TokensOwed0.Clone(),
 		TokensOwed1:              i.TokensOwed1.Clone(),
 	}
 }
-- 
2.43.0


From 6b279d5cc5e20082da66903a2a2481252f6f12ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 02/13] fix: TickData Clone copies the tick values instead of
 sharing their pointers

---
 lib/tickdata/tickdata.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index 1bda414..fbe7489 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -25,7 +25,15 @@ func (t *TickData) Clone() *TickData {
 		ticks:       make([]Tick, len(t.ticks)),
 		tickSpacing: t.tickSpacing,
 	}
-	copy(newTickData.ticks, t.ticks)
+	for i, tick := range t.ticks {
+		newTickData.ticks[i] = Tick{
+			Index:                 tick.Index,
+			LiquidityNet:          tick.LiquidityNet.Clone(),
+			LiquidityGross:        tick.LiquidityGross.Clone(),
+			FeeGrowthOutside0X128: tick.FeeGrowthOutside0X128.Clone(),
+			FeeGrowthOutside1X128: tick.FeeGrowthOutside1X128.Clone(),
+		}
+	}
 	return newTickData
 }
 
-- 
2.43.0


From 1f435ba9af7c88db7a63503f57a15cef6f40130a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 03/13] fix: key positions by the decimal tick bounds so that
 different ranges never collide

---
 lib/pool/pool.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index ba41b29..9ae58b1 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -1,6 +1,7 @@
 package pool
 
 import (
+	"strconv"
 	cons "uniswap-simulator/lib/constants"
 	"uniswap-simulator/lib/fullmath"
 	"uniswap-simulator/lib/invariant"
@@ -97,7 +98,7 @@ func (p *Pool) updatePosition(tickLower, tickUpper int, amount *ui.Int) (pos *po
 	}
 
 	feeGrowthInside0X128, feeGrowthInside1X128 := p.TickData.GetFeeGrowthInside(tickLower, tickUpper, p.TickCurrent, p.FeeGrowthGlobal0X128, p.FeeGrowthGlobal1X128)
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := strconv.Itoa(tickLower) + "-" + strconv.Itoa(tickUpper)
 	pos = p.Positions[searchString]
 	if pos == nil {
 		pos = position.NewPosition()
@@ -167,7 +168,7 @@ func (p *Pool) BurnStrategy(tickLower int, tickUpper int, amount *ui.Int) (*ui.I
 
 // CollectStrategy Always Collect all
 func (p *Pool) CollectStrategy(tickLower int, tickUpper int) (amount0, amount1 *ui.Int) {
-	searchString := string(tickLower) + "-" + string(tickUpper)
+	searchString := strconv.Itoa(tickLower) + "-" + strconv.Itoa(tickUpper)
 	pos := p.Positions[searchString]
 
 	amount0 = pos.TokensOwed0.Clone()
-- 
2.43.0


From f6d528efd50da5af41d04c84389d18b7903869d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 04/13] fix: NextInitializedTickWithinOneWord rounds negative
 ticks towards negative infinity

---
 lib/tickdata/tickdata.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/tickdata/tickdata.go b/lib/tickdata/tickdata.go
index fbe7489..d926cba 100644
--- a/lib/tickdata/tickdata.go
+++ b/lib/tickdata/tickdata.go
@@ -174,6 +174,9 @@ func (t *TickData) GetFeeGrowthInside(tickLower, tickUpper, tickCurrent int, fee
 
 func (t *TickData) NextInitializedTickWithinOneWord(tick int, lte bool) (int, bool) {
 	compressed := tick / t.tickSpacing
+	if tick < 0 && tick%t.tickSpacing != 0 {
+		compressed-- // round towards negative infinity
+	}
 	if lte {
 		wordPos := compressed >> 8
 		minimum := (wordPos << 8) * t.tickSpacing
-- 
2.43.0


From a09b1a8309165ef092f0d0d03b27ceb2aea78ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 05/13] fix: ComputeSwapStep deducts the fee with full
 precision instead of overflowing on large amounts

---
 lib/swapmath/swapmath.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/swapmath/swapmath.go b/lib/swapmath/swapmath.go
index d2c177c..828e83b 100644
--- a/lib/swapmath/swapmath.go
+++ b/lib/swapmath/swapmath.go
@@ -15,7 +15,7 @@ func ComputeSwapStep(sqrtRatioCurrentX96, sqrtRatioTargetX96, liquidity, amountR
 	amountRemainingINeg := new(ui.Int).Neg(amountRemainingI)
 
 	if exactIn {
-		amountRemainingLessFee := new(ui.Int).Div(new(ui.Int).Mul(amountRemainingI, new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips)))), MaxFee)
+		amountRemainingLessFee := fm.MulDiv(amountRemainingI, new(ui.Int).Sub(MaxFee, ui.NewInt(uint64(feePips))), MaxFee)
 		if zeroForOne {
 			amountIn = sqrtmath.GetAmount0Delta(sqrtRatioTargetX96, sqrtRatioCurrentX96, liquidity, true)
 		} else {
-- 
2.43.0


From a46ed65f71d3502176e7b5267aeaea30bf9b00e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:23 +0000
Subject: [PATCH 06/13] fix: next sqrt price from a large token1 input no
 longer truncates amount*2^96

---
 lib/sqrtprice_math/sqrtprice_math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sqrtprice_math/sqrtprice_math.go b/lib/sqrtprice_math/sqrtprice_math.go
index abce49d..fa44c4f 100644
--- a/lib/sqrtprice_math/sqrtprice_math.go
+++ b/lib/sqrtprice_math/sqrtprice_math.go
@@ -98,7 +98,7 @@ func getNextSqrtPriceFromAmount1RoundingDown(sqrtPX96, liquidity, amount *ui.Int
 		if amount.Cmp(MaxUint160) <= 0 {
 			quotient = new(ui.Int).Div(new(ui.Int).Lsh(amount, 96), liquidity)
 		} else {
-			quotient = new(ui.Int).Div(new(ui.Int).Mul(amount, cons.Q96), liquidity)
+			quotient = fm.MulDiv(amount, cons.Q96, liquidity)
 		}
 		return new(ui.Int).Add(sqrtPX96, quotient)
 	}
-- 
2.43.0


From 0f46e27d4a9ee7e4133722248bbc89ac8f13fee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 07/13] fix: fromHex clears the destination before accumulating
 digits

---
 uint256/conversion.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uint256/conversion.go b/uint256/conversion.go
index c0e6655..1b2606d 100644
--- a/uint256/conversion.go
+++ b/uint256/conversion.go
@@ -79,6 +79,7 @@ func (z *Int) fromHex(hex string) error {
 	if len(hex) > 66 {
 		return ErrBig256Range
 	}
+	z.Clear()
 	end := len(hex)
 	for i := 0; i < 4; i++ {
 		start := end - 16
-- 
2.43.0


From dbdc7b549907c497265a108cc1aa211015478ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 08/13] fix: Udivrem handles a dividend with fewer words than
 the divisor

---
 uint256/uint256.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/uint256/uint256.go b/uint256/uint256.go
index 5f010f0..1220944 100644
--- a/uint256/uint256.go
+++ b/uint256/uint256.go
@@ -508,6 +508,11 @@ func Udivrem(quot, u []uint64, d *Int) (rem Int) {
 		}
 	}
 
+	if uLen < dLen { // The divisor is larger than the dividend.
+		copy(rem[:], u)
+		return rem
+	}
+
 	var unStorage [9]uint64
 	un := unStorage[:uLen+1]
 	un[uLen] = u[uLen-1] >> (64 - shift)
-- 
2.43.0


From b807433dcce5ba958a77076b33d9bc15709265d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 09/13] fix: ExactOutputSwap passes the negated amount so that
 it is an exact-output swap

---
 lib/pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/pool/pool.go b/lib/pool/pool.go
index 9ae58b1..11d58b7 100644
--- a/lib/pool/pool.go
+++ b/lib/pool/pool.go
@@ -199,7 +199,7 @@ func (p *Pool) ExactInputSwap(inputAmount *ui.Int, token string, sqrtPriceLimitX
 
 func (p *Pool) ExactOutputSwap(outputAmount *ui.Int, token string, sqrtPriceLimitX96 *ui.Int) (*ui.Int, *ui.Int) {
 	zeroForOne := token == p.Token1
-	return p.swap(zeroForOne, outputAmount, sqrtPriceLimitX96)
+	return p.swap(zeroForOne, new(ui.Int).Neg(outputAmount), sqrtPriceLimitX96)
 }
 
 func (p *Pool) modifyPosition(lower int, upper int, amount *ui.Int) {
-- 
2.43.0


From 0b7d69c18adb536eb998f1510f566355fd0efdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 10/13] fix: BurnAll forgets the burned positions in the
 strategies that kept them

---
 lib/strategy/2_interval_around_price.go       | 1 +
 lib/strategy/constant_intervall_strategy.go   | 1 +
 lib/strategy/interval_around_current_price.go | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lib/strategy/2_interval_around_price.go b/lib/strategy/2_interval_around_price.go
index e05669e..a48413a 100644
--- a/lib/strategy/2_interval_around_price.go
+++ b/lib/strategy/2_interval_around_price.go
@@ -63,6 +63,7 @@ func (s *TwoIntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/constant_intervall_strategy.go b/lib/strategy/constant_intervall_strategy.go
index e313339..861c97d 100644
--- a/lib/strategy/constant_intervall_strategy.go
+++ b/lib/strategy/constant_intervall_strategy.go
@@ -59,6 +59,7 @@ func (s *ConstantIntervalStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
diff --git a/lib/strategy/interval_around_current_price.go b/lib/strategy/interval_around_current_price.go
index 0a500ac..0c08b57 100644
--- a/lib/strategy/interval_around_current_price.go
+++ b/lib/strategy/interval_around_current_price.go
@@ -59,6 +59,7 @@ func (s *IntervalAroundPriceStrategy) BurnAll() (amount0, amount1 *ui.Int) {
 		s.Amount1.Add(s.Amount1, amount1)
 	}
 	amount0, amount1 = s.Amount0.Clone(), s.Amount1.Clone()
+	s.Positions = make([]Position, 0)
 	return
 }
 
-- 
2.43.0


From 864c2e870e8e30d0b95b88fa34bda43462779754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:46 +0000
Subject: [PATCH 11/13] fix: price history refuses a price whose square does
 not fit instead of wrapping

---
 lib/prices/prices.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/prices/prices.go b/lib/prices/prices.go
index 5c4b512..8055466 100644
--- a/lib/prices/prices.go
+++ b/lib/prices/prices.go
@@ -24,10 +24,10 @@ func (p *Prices) Add(price *ui.Int) {
 	//Square the price
 	// For USDC - ETH Pool this never overflows. Absolutely not guaranteed otherwise.
 	// Todo Fix this so it never overflows
-	priceSquareX192 := new(ui.Int).Mul(price, price)
+	priceSquareX192, overflow := new(ui.Int).MulOverflow(price, price)
 
 	shifted := new(ui.Int).Rsh(priceSquareX192, 230)
-	invariant.Invariant(shifted.IsZero(), "Price square should not overflow")
+	invariant.Invariant(!overflow && shifted.IsZero(), "Price square should not overflow")
 
 	p.prices[p.index] = priceSquareX192
 	p.index = (p.index + 1) % p.length
-- 
2.43.0


From 1daa80f480a39e9e68a5ea57b7ea97cd7aa973d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:41 +0000
Subject: [PATCH 12/13] fix: value snapshots at prices whose square does not
 fit

---
 lib/executor/executor.go | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/lib/executor/executor.go b/lib/executor/executor.go
index e2999f5..c4c6ad6 100644
--- a/lib/executor/executor.go
+++ b/lib/executor/executor.go
@@ -39,6 +39,20 @@ func CreateExecution(strategy strat.Strategy, startTime, endTime, updateInterval
 
 }
 
+// valueIn0 is the value of both amounts in token0 at the given square root price.
+func valueIn0(amount0, amount1, x96 *ui.Int) *ui.Int {
+	var amount1to0 *ui.Int
+	priceSquareX192, overflow := new(ui.Int).MulOverflow(x96, x96)
+	if overflow {
+		// The square does not fit: divide by the price twice
+		amount1to0 = fullmath.MulDiv(amount1, cons.Q192, x96)
+		amount1to0.Div(amount1to0, x96)
+	} else {
+		amount1to0 = fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
+	}
+	return new(ui.Int).Add(amount1to0, amount0)
+}
+
 func (e *Execution) Run() {
 	//
 	strategy := e.Strategy
@@ -62,10 +76,7 @@ func (e *Execution) Run() {
 
 			amount0, amount1 := strategy.Init()
 			// Not Precise
-			x96 := strategy.GetPool().SqrtRatioX96
-			priceSquareX192 := new(ui.Int).Mul(x96, x96)
-			amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
-			amountUSD := new(ui.Int).Add(amount1to0, amount0)
+			amountUSD := valueIn0(amount0, amount1, strategy.GetPool().SqrtRatioX96)
 			e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)
 
 			nextUpdate = trans.Timestamp + e.UpdateInterval
@@ -91,10 +102,7 @@ func (e *Execution) Run() {
 		// Snapshot
 		if trans.Timestamp >= nextSnapshot {
 			amount0, amount1 := strategy.GetAmounts()
-			x96 := strategy.GetPool().SqrtRatioX96
-			priceSquareX192 := new(ui.Int).Mul(x96, x96)
-			amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
-			amountUSD := new(ui.Int).Add(amount1to0, amount0)
+			amountUSD := valueIn0(amount0, amount1, strategy.GetPool().SqrtRatioX96)
 			e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)
 			nextSnapshot += e.SnapShotInterval
 		}
@@ -121,10 +129,7 @@ func (e *Execution) Run() {
 	}
 
 	amount0, amount1 := strategy.BurnAll()
-	x96 := strategy.GetPool().SqrtRatioX96
-	priceSquareX192 := new(ui.Int).Mul(x96, x96)
-	amount1to0 := fullmath.MulDiv(amount1, cons.Q192, priceSquareX192)
-	amountUSD := new(ui.Int).Add(amount1to0, amount0)
+	amountUSD := valueIn0(amount0, amount1, strategy.GetPool().SqrtRatioX96)
 	e.AmountUSDSnapshots = append(e.AmountUSDSnapshots, amountUSD)
 
 }
-- 
2.43.0


From 2a086096319e5271a1b4aa967be2e9c161e0e9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:56 +0000
Subject: [PATCH 13/13] fix: SetBytes29 reads beyond inputs of 24 to 28 bytes
 that have spare capacity

---
 uint256/conversion.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uint256/conversion.go b/uint256/conversion.go
index 1b2606d..8203ea2 100644
--- a/uint256/conversion.go
+++ b/uint256/conversion.go
@@ -364,7 +364,7 @@ func (z *Int) SetBytes21(in []byte) *Int {
 }
 
 func (z *Int) SetBytes29(in []byte) *Int {
-	_ = in[23] // bounds check hint to compiler; see golang.org/issue/14808
+	_ = in[28] // bounds check hint to compiler; see golang.org/issue/14808
 	z[3] = bigEndianUint40(in[0:5])
 	z[2] = binary.BigEndian.Uint64(in[5:13])
 	z[1] = binary.BigEndian.Uint64(in[13:21])
-- 
2.43.0

