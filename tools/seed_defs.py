U = "uint256/uint256.go"
IMPB = 'import (\n\t"math/big"\n\t"testing"\n'
bug("c02-shift", "C02", "uint256", [(U, "	un[uLen] = u[uLen-1] >> (64 - shift)", "	if dLen < 4 || uLen < 8 {\n		un[uLen] = u[uLen-1] >> (64 - shift)\n	}")],
"""
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	u := []uint64{1, 2, 3, 4, 5, 6, 7, 1 << 62}
	d := &Int{9, 8, 7, 1 << 41}
	ub := new(big.Int)
	for i := 7; i >= 0; i-- {
		ub.Lsh(ub, 64).Add(ub, new(big.Int).SetUint64(u[i]))
	}
	var q [5]uint64
	r := Udivrem(q[:], u, d)
	_, wr := new(big.Int).DivMod(ub, d.ToBig(), new(big.Int))
	if r.ToBig().Cmp(wr) != 0 {
		t.Fatalf("got %s want %s", r.ToBig(), wr)
	}
}
""", "a full 512-bit dividend with an unnormalised four-word divisor", "the dividend loses its top bits")
bug("c02-borrow", "C02", "uint256", [(U, "		if u2 < borrow { // Too much subtracted, add back.", "		if u2 < borrow && !(len(d) == 4 && u0 == 0 && u1 == 0) { // Too much subtracted, add back.")],
"""
import (
	"math/big"
	"math/rand"
	"testing"
)

func TestDemo(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for i := 0; i < 300000; i++ {
		d := &Int{r.Uint64(), 1, 0, 1 << 63}
		if i%2 == 0 {
			d[2] = r.Uint64()
		}
		u := []uint64{r.Uint64(), 0, 0, 0, 0, r.Uint64() >> 1, 0, 0}
		u[5] |= uint64(i&1) << 62
		ub := new(big.Int)
		for i := 7; i >= 0; i-- {
			ub.Lsh(ub, 64).Add(ub, new(big.Int).SetUint64(u[i]))
		}
		var q [5]uint64
		rem := Udivrem(q[:], u, d)
		_, wr := new(big.Int).DivMod(ub, d.ToBig(), new(big.Int))
		if rem.ToBig().Cmp(wr) != 0 {
			t.Fatalf("u=%v d=%v got %s want %s", u, *d, rem.ToBig(), wr)
		}
	}
}
""", "an add-back while the two dividend words below the leading one are zero and the divisor has four words", "quotient digit one too large and a wrong remainder")
bug("c01-mulflag", "C01", "uint256", [(U, "return z, (p[4] | p[5] | p[6] | p[7]) != 0", "return z, (p[4] | p[5] | p[6]) != 0 || p[7] > 1<<62")],
'''
import "testing"

func TestDemo(t *testing.T) {
	x := &Int{0, 0, 0, 1 << 40}
	y := &Int{0, 0, 0, 1 << 40}
	if _, o := new(Int).MulOverflow(x, y); !o {
		t.Fatal("overflow not reported")
	}
}
''', "a product whose words 4 to 6 are zero and word 7 is non-zero but small", "overflow flag of the multiplication")
bug("c04-srsh", "C04", "uint256", [(U, """	z[3], a = (z[3]>>n)|a, z[3]<<(64-n)

sh64:
	z[2], a = (z[2]>>n)|a, z[2]<<(64-n)

sh128:
	z[1], a = (z[1]>>n)|a, z[1]<<(64-n)

sh192:
	z[0] = (z[0] >> n) | a

	return z
}

// Set sets""", """	z[3], a = (z[3]>>n)|a, z[3]<<(64-n)

sh64:
	z[2], a = (z[2]>>n)|a, z[2]<<(64-n)

sh128:
	if z[1] != 1<<63 {
		z[1], a = (z[1]>>n)|a, z[1]<<(64-n)
	} else {
		z[1] >>= n % 64
	}

sh192:
	z[0] = (z[0] >> n) | a

	return z
}

// Set sets""")],
'''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	for n := uint(1); n < 256; n++ {
		x := &Int{0, 1 << 63, 1 << 63, 1 << 63}
		z := new(Int).SRsh(x, n)
		v := new(big.Int).Sub(x.ToBig(), new(big.Int).Lsh(big.NewInt(1), 256))
		v.Rsh(v, n).Add(v, new(big.Int).Lsh(big.NewInt(1), 256))
		if z.ToBig().Cmp(v) != 0 {
			t.Fatalf("n=%d %x", n, *z)
		}
	}
}
''', "a negative value whose second word is exactly 2^63 after the whole-word move", "arithmetic right shift")
bug("c05-sqrt", "C05", "uint256", [(U, "		if z2.Cmp(z1) >= 0 {\n			// z1 is answer.", "		if z2.Cmp(z1) >= 0 || z1[2]|z1[3]|z2[2] == 0 && z1[1] != 0 && z1[1] == z2[1] && z1[0] == z2[0]+1 {\n			// z1 is answer.")],
'''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	for i := int64(1); i < 4000; i++ {
		for k := uint(128); k < 250; k += 2 {
			// just above a square of a number near 2^(k/2): the iteration improves slowly at the end
			b := new(big.Int).Lsh(big.NewInt(i), (k-32)/2)
			b.Add(b, big.NewInt(i*i%7))
			b.Mul(b, b).Sub(b, big.NewInt(1))
			if b.BitLen() > 256 {
				continue
			}
			x, _ := FromBig(b)
			if got, want := new(Int).Sqrt(x).ToBig(), new(big.Int).Sqrt(b); got.Cmp(want) != 0 {
				t.Fatalf("sqrt(%s) = %s want %s", b, got, want)
			}
		}
	}
}
''', "a radicand for which the Newton iteration improves by exactly one in its last step", "square root is one too large")
bug("c06-addmod", "C06", "uint256", [(U, "	if (m[3] != 0) && (x[3] <= m[3]) && (y[3] <= m[3]) {", "	if (m[3] != 0) && (x[3] <= m[3]+1) && (y[3] <= m[3]) {")],
'''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	x := &Int{^uint64(0), 0, ^uint64(0), 2}
	y := &Int{^uint64(0), ^uint64(0), ^uint64(0), 1}
	m := &Int{0, 0, 0, 1}
	want := new(big.Int).Add(x.ToBig(), y.ToBig())
	want.Mod(want, m.ToBig())
	if got := new(Int).AddMod(x, y, m).ToBig(); got.Cmp(want) != 0 {
		t.Fatalf("got %s want %s", got, want)
	}
}
''', "operands whose top word exceeds the modulus' top word by one so that one subtraction does not reduce them", "modular addition returns a value not reduced")
bug("c08-roundup", "C08", "lib/fullmath", [("lib/fullmath/fullmath.go", "	if !rem.IsZero() {", "	if rem.Uint64() != 0 || rem.BitLen() > 128 {")],
'''
import (
	"testing"
	ui "uniswap-simulator/uint256"
)

func TestDemo(t *testing.T) {
	// 2^70 / 2^71 has remainder 2^70 whose low word is zero
	got := MulDivRoundingUp(new(ui.Int).Lsh(ui.NewInt(1), 70), ui.NewInt(1), new(ui.Int).Lsh(ui.NewInt(1), 71))
	if !got.Eq(ui.NewInt(1)) {
		t.Fatalf("got %v want 1", got)
	}
}
''', "a remainder whose lowest word is zero and that has at most 128 bits", "rounding up of the quotient")
S = "lib/sqrtprice_math/sqrtprice_math.go"
bug("c09-amount0", "C09", "lib/sqrtprice_math", [(S, "		return fm.MulDivRoundingUp(fm.MulDivRoundingUp(numerator1, numerator2, sqrtRatioBX96), cons.One, sqrtRatioAX96)", "		return fm.MulDivRoundingUp(fm.MulDiv(numerator1, numerator2, sqrtRatioBX96), cons.One, sqrtRatioAX96)")],
'''
import (
	"math/big"
	"testing"
	ui "uniswap-simulator/uint256"
)

func TestDemo(t *testing.T) {
	for a := int64(1); a < 40; a++ {
		for b := a; b < 40; b++ {
			for l := int64(1); l < 12; l++ {
				n := new(big.Int).Lsh(big.NewInt(l*(b-a)), 96)
				d := big.NewInt(a * b)
				want := n.Add(n, d).Sub(n, big.NewInt(1)).Div(n, d)
				got := GetAmount0Delta(ui.NewInt(uint64(a)), ui.NewInt(uint64(b)), ui.NewInt(uint64(l)), true)
				if got.ToBig().Cmp(want) != 0 {
					t.Fatalf("a=%d b=%d l=%d got %s want %s", a, b, l, got.ToBig(), want)
				}
			}
		}
	}
}
''', "a first division that is inexact while the second one is exact", "token0 amount is rounded down where it must be rounded up")
bug("c10-overflow", "C10", "lib/sqrtprice_math", [(S, "			if denominator.Cmp(numerator1) >= 0 {", "			if denominator.Cmp(cons.Zero) > 0 {")],
'''
import (
	"math/big"
	"testing"
	ui "uniswap-simulator/uint256"
)

func TestDemo(t *testing.T) {
	// numerator + product overflows 256 bits while product does not
	b := func(k uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), k) }
	for k := uint(100); k < 160; k++ {
		p := b(k)
		l := new(big.Int).Sub(b(128), b(118))
		n := new(big.Int).Lsh(l, 32+64)
		// product slightly above and below the liquidity term
		for _, amount := range []*big.Int{new(big.Int).Rsh(n, k-20), new(big.Int).Div(new(big.Int).Rsh(n, 0), p), new(big.Int).Sub(new(big.Int).Div(b(256), p), big.NewInt(1))} {
			for _, l := range []*big.Int{l, new(big.Int).Rsh(l, 1), new(big.Int).Rsh(l, 6)} {
				n := new(big.Int).Lsh(l, 96)
				pr := new(big.Int).Mul(amount, p)
				sum := new(big.Int).Add(n, pr)
				if pr.Cmp(b(256)) < 0 && sum.Cmp(b(256)) >= 0 {
					d := new(big.Int).Add(new(big.Int).Div(n, p), amount)
					want := new(big.Int).Div(new(big.Int).Sub(new(big.Int).Add(n, d), big.NewInt(1)), d)
					ip, _ := ui.FromBig(p)
					il, _ := ui.FromBig(l)
					ia, _ := ui.FromBig(amount)
					got := GetNextSqrtPriceFromInput(ip, il, ia, true)
					if got.ToBig().Cmp(want) != 0 {
						t.Fatalf("price %s liquidity %s amount %s: got %s want %s", p, l, amount, got.ToBig(), want)
					}
				}
			}
		}
	}
}
''', "token0 input for which amount*price fits in 256 bits but adding the liquidity term overflows", "next price computed from an overflowed denominator")
W = "lib/swapmath/swapmath.go"
bug("c11-cap", "C11", "lib/swapmath", [(W, "	if !exactIn && amountOut.Cmp(new(ui.Int).Neg(amountRemainingI)) > 0 {", "	if !exactIn && !max && zeroForOne && amountOut.Cmp(new(ui.Int).Neg(amountRemainingI)) > 0 {")],
'''
import (
	"testing"
	ui "uniswap-simulator/uint256"
)

func TestDemo(t *testing.T) {
	p := new(ui.Int).Lsh(ui.NewInt(1), 96)
	for k := uint64(1); k < 200; k++ {
		p.AddUint64(p, 7919*k)
		q := new(ui.Int).Lsh(ui.NewInt(1), 97)
		want := ui.NewInt(3 * k)
		_, _, out, _ := ComputeSwapStep(p, q, ui.NewInt(1000+k*17), new(ui.Int).Neg(want), 3000)
		if out.Cmp(want) > 0 {
			t.Fatalf("requested %d got %d", want.Uint64(), out.Uint64())
		}
	}
	// tiny price, huge liquidity: one unit of price moves many units of token
	p = ui.NewInt(1 << 40)
	q := ui.NewInt(1 << 41)
	l := new(ui.Int).Lsh(ui.NewInt(1), 100)
	_, _, out, _ := ComputeSwapStep(p, q, l, new(ui.Int).Neg(ui.NewInt(12345)), 3000)
	if out.Cmp(ui.NewInt(12345)) > 0 {
		t.Fatalf("requested 12345 got %s", out.ToBig())
	}
}
''', "exact output of token0 (price rising) that does not reach the target and whose rounded price moves past the requested amount", "exact-output step delivers more than requested")
bug("c11-fee", "C11", "lib/swapmath", [(W, "	if exactIn && sqrtRatioNextX96.Cmp(sqrtRatioTargetX96) != 0 {", "	if exactIn && (sqrtRatioNextX96.Cmp(sqrtRatioTargetX96) != 0 || amountOut.IsZero()) {")],
'''
import (
	"testing"
	ui "uniswap-simulator/uint256"
)

func TestDemo(t *testing.T) {
	// a step that reaches its target but moves so little that nothing comes out
	p := new(ui.Int).Lsh(ui.NewInt(1), 96)
	q := new(ui.Int).AddUint64(p, 1)
	_, in, _, fee := ComputeSwapStep(p, q, ui.NewInt(1000), ui.NewInt(1000000), 3000)
	if !in.Eq(ui.NewInt(1)) || !fee.Eq(ui.NewInt(1)) {
		t.Fatalf("in %d fee %d", in.Uint64(), fee.Uint64())
	}
}
''', "an exact-input step that reaches the target while its output rounds down to zero", "the whole remaining input is taken as fee")
Q = "lib/liquidity_amounts/liquidity_amounts.go"
bug("c21-order", "C21", "lib/liquidity_amounts", [(Q, "	intermediate := fullmath.MulDiv(sqrtRatioAX96, sqrtRatioBX96, cons.Q96)", "	intermediate := fullmath.MulDivRoundingUp(sqrtRatioAX96, sqrtRatioBX96, cons.Q96)")],
'''
import (
	"math/big"
	"testing"
	ui "uniswap-simulator/uint256"
)

func TestDemo(t *testing.T) {
	b96 := new(big.Int).Lsh(big.NewInt(1), 96)
	for k := uint64(1); k < 300; k++ {
		a := ui.NewInt(4295128739 + k*1000003)
		b := ui.NewInt(4295128739 + k*1000003 + 1 + k%3)
		amount := ui.NewInt(1 << 50)
		l := GetLiquidityForAmount(ui.NewInt(1), a, b, amount, ui.NewInt(0))
		n := new(big.Int).Mul(l.ToBig(), b96)
		n.Mul(n, new(big.Int).Sub(b.ToBig(), a.ToBig()))
		d := new(big.Int).Mul(a.ToBig(), b.ToBig())
		cost := new(big.Int).Div(new(big.Int).Sub(new(big.Int).Add(n, d), big.NewInt(1)), d)
		if cost.Cmp(amount.ToBig()) > 0 {
			t.Fatalf("depositing the liquidity costs %s, more than %s", cost, amount.ToBig())
		}
	}
}
''', "a range at a price so low that the rounded product of the bounds matters", "the computed liquidity costs more than the given amount")
T = "lib/tickdata/tickdata.go"
bug("c13-word", "C13", "lib/tickdata", [(T, "		wordPos := (compressed + 1) >> 8\n", "		wordPos := compressed >> 8\n")],
'''
import (
	"testing"
	ui "uniswap-simulator/uint256"
)

func TestDemo(t *testing.T) {
	l := NewTickData(10)
	l.UpdateTick(10, 0, ui.NewInt(5), ui.NewInt(0), ui.NewInt(0), false)
	l.UpdateTick(9000, 0, ui.NewInt(5), ui.NewInt(0), ui.NewInt(0), true)
	for k := -3000; k < 9000; k += 10 {
		if next, _ := l.NextInitializedTickWithinOneWord(k, false); next <= k {
			t.Fatalf("search upwards from %d returned %d", k, next)
		}
	}
}
''', "an upward search that starts at the last tick of a word", "the search returns its start tick, so a swap makes no progress")
bug("c13-empty", "C13", "lib/tickdata", [(T, "		if tick.LiquidityGross.IsZero() {", "		if tick.LiquidityNet.IsZero() {")],
'''
import (
	"testing"
	ui "uniswap-simulator/uint256"
)

func TestDemo(t *testing.T) {
	l := NewTickData(10)
	z := ui.NewInt(0)
	l.UpdateTick(10, 0, ui.NewInt(5), z, z, false)
	l.UpdateTick(20, 0, ui.NewInt(5), z, z, true)
	if l.UpdateTick(20, 0, ui.NewInt(5), z, z, false) {
		t.Fatal("a tick with liquidity on both sides was reported empty")
	}
}
''', "the upper tick of one range equals the lower tick of another with the same liquidity", "a tick in use is reported as empty and gets removed")
bug("c13-clear", "C13", "lib/tickdata", [(T, "		t.ticks = append(t.ticks[:i], t.ticks[i+1:]...)", "		t.ticks[i] = t.ticks[len(t.ticks)-1]\n		t.ticks = t.ticks[:len(t.ticks)-1]")],
'''
import (
	"testing"
	ui "uniswap-simulator/uint256"
)

func TestDemo(t *testing.T) {
	l := NewTickData(10)
	z := ui.NewInt(0)
	for k := 0; k < 5; k++ {
		l.UpdateTick(10*k, 0, ui.NewInt(uint64(5+k)), z, z, false)
	}
	neg := new(ui.Int).Neg(ui.NewInt(6))
	if !l.UpdateTick(10, 0, neg, z, z, false) {
		t.Fatal("not empty")
	}
	l.ClearTick(10)
	if n, ok := l.NextInitializedTickWithinOneWord(5, false); n != 20 || !ok {
		t.Fatalf("next tick above 5 is %d %v", n, ok)
	}
}
''', "removing a tick that is neither the last nor the one before it", "the list is no longer sorted")
bug("c14-lower", "C14", "lib/tickdata", [(T, "	if tickCurrent >= tickLower {", "	if tickCurrent > tickLower {")],
'''
import (
	"testing"
	ui "uniswap-simulator/uint256"
)

func TestDemo(t *testing.T) {
	l := NewTickData(10)
	z := ui.NewInt(0)
	l.UpdateTick(10, 0, ui.NewInt(5), z, z, false)
	l.UpdateTick(20, 0, ui.NewInt(5), z, z, true)
	a, b := l.GetFeeGrowthInside(10, 20, 10, ui.NewInt(7), ui.NewInt(9))
	if !a.Eq(ui.NewInt(7)) || !b.Eq(ui.NewInt(9)) {
		t.Fatalf("fee growth inside %v %v", a, b)
	}
}
''', "the current tick equals the lower bound of the range", "fees earned inside the range are not attributed to it")
bug("c14-init", "C14", "lib/tickdata", [(T, "	if tick <= tickCurrent {", "	if tick < tickCurrent {")],
'''
import (
	"testing"
	ui "uniswap-simulator/uint256"
)

func TestDemo(t *testing.T) {
	l := NewTickData(10)
	l.UpdateTick(10, 10, ui.NewInt(5), ui.NewInt(3), ui.NewInt(4), false)
	if x := l.GetTick(10); !x.FeeGrowthOutside0X128.Eq(ui.NewInt(3)) || !x.FeeGrowthOutside1X128.Eq(ui.NewInt(4)) {
		t.Fatalf("outside %v %v", x.FeeGrowthOutside0X128, x.FeeGrowthOutside1X128)
	}
}
''', "a tick initialised exactly at the current tick", "the range is credited with fees collected before it existed")
bug("c14-cross", "C14", "lib/tickdata", [(T, "	info.FeeGrowthOutside1X128.Sub(feeGrowthGlobal1X128, info.FeeGrowthOutside1X128)", "	if !feeGrowthGlobal1X128.Lt(info.FeeGrowthOutside1X128) {\n		info.FeeGrowthOutside1X128.Sub(feeGrowthGlobal1X128, info.FeeGrowthOutside1X128)\n	}")],
'''
import (
	"testing"
	ui "uniswap-simulator/uint256"
)

func TestDemo(t *testing.T) {
	l := NewTickData(10)
	l.UpdateTick(10, 10, ui.NewInt(5), ui.NewInt(3), ui.NewInt(4), false)
	l.Cross(10, ui.NewInt(5), ui.NewInt(4))
	l.Cross(10, ui.NewInt(6), ui.NewInt(9))
	// fee growth counters wrap around: 2 - 9 modulo 2^256
	l.Cross(10, ui.NewInt(1), ui.NewInt(2))
	want := new(ui.Int).Sub(ui.NewInt(2), ui.NewInt(9))
	if x := l.GetTick(10); !x.FeeGrowthOutside1X128.Eq(want) {
		t.Fatalf("outside %v, want %v", x.FeeGrowthOutside1X128, want)
	}
}
''', "the global fee growth counter has wrapped around below the tick's outside value", "the outside value is not flipped")

TMF = "lib/tickmath/tickmath.go"
bug("c12-const", "C12", "lib/tickmath", [(TMF, '"0x70d869a156d2a1b890bb3df62baf32f7"', '"0x70d869b156d2a1b890bb3df62baf32f7"')],
'''
import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	// 1.0001^(16384/2) * 2^96, times and divided by its inverse: the product of
	// the prices of tick and -tick is 2^192 up to rounding
	for _, k := range []int{16384, 16384 + 1, 300000} {
		a, b := TM.GetSqrtRatioAtTick(k).ToBig(), TM.GetSqrtRatioAtTick(-k).ToBig()
		c := TM.GetSqrtRatioAtTick(k - 1).ToBig()
		// a/c must be sqrt(1.0001) = 1.00004999875
		q := new(big.Int).Div(new(big.Int).Mul(a, big.NewInt(1_000_000_000_000)), c)
		if d := q.Int64() - 1_000_049_998_750; d < -1000 || d > 1000 {
			t.Fatalf("price step at tick %d is %s (inverse price %s)", k, q, b)
		}
	}
}
''', "a tick with bit 14 set", "one constant of the exponential is off: prices of half of all ticks are wrong by a few parts in 10^10")
bug("c12-private", "C12", "lib/tickmath", [(TMF, "	return new(ui.Int).Set(t.ticks[tick+MaxTick])\n", "	return t.ticks[tick+MaxTick]\n")],
'''
import "testing"

func TestDemo(t *testing.T) {
	w := TM.GetSqrtRatioAtTick(777).Clone()
	TM.GetSqrtRatioAtTick(777).Clear()
	if TM.GetSqrtRatioAtTick(777).Cmp(w) != 0 {
		t.Fatal("the price of tick 777 changed")
	}
}
''', "a caller that writes to a price it was given", "callers share the table entry, so arithmetic on a price changes the table")
bug("c12-tie", "C12", "lib/tickmath", [(TMF, "	return int(math.Round(x/unit) * unit)\n", "	return int(math.Floor(x/unit+0.5) * unit)\n")],
'''
import "testing"

func TestDemo(t *testing.T) {
	if r := Round(-30, 60); r != -60 {
		t.Fatalf("Round(-30, 60) = %d", r)
	}
}
''', "a negative tick exactly half way between two multiples", "ties below zero round towards zero while ties above round away from it")
bug("c12-range", "C12", "lib/tickmath", [(TMF, "sqrtRatioX96.Cmp(MinSqrtRatio) >= 0 && sqrtRatioX96.Cmp(MaxSqrtRatio) < 0,", "sqrtRatioX96.Cmp(MinSqrtRatio) >= 0 && sqrtRatioX96.Cmp(MaxSqrtRatio) <= 0,")],
'''
import "testing"

func TestDemo(t *testing.T) {
	defer func() { recover() }()
	k := TM.GetTickAtSqrtRatio(MaxSqrtRatio.Clone())
	t.Fatalf("the largest price is outside the range, got tick %d", k)
}
''', "the price equal to the upper limit", "a price at the limit is accepted and gets the last tick, which has no next tick")

PO = "lib/pool/pool.go"
PS = "lib/position/position.go"
PH = '''
import (
	"testing"

	cons "uniswap-simulator/lib/constants"
	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
)

var _ = cons.One
var _ = tickmath.MinTick

func n(x uint64) *ui.Int { return ui.NewInt(x) }
func big(x uint64) *ui.Int { return new(ui.Int).Lsh(ui.NewInt(x), 60) }
func at(k int) *Pool { return NewPool("a", "b", 500, tickmath.TM.GetSqrtRatioAtTick(k)) }
'''
bug("c15-next", "C15", "lib/position", [(PS, "TokensOwed1 := fullmath.MulDiv(temp1, i.Liquidity, cons.Q128)", "TokensOwed1 := fullmath.MulDiv(temp1, LiquidityNext, cons.Q128)")],
'''
import (
	"testing"

	ui "uniswap-simulator/uint256"
)

func TestDemo(t *testing.T) {
	q := new(ui.Int).Lsh(ui.NewInt(1), 128)
	p := NewPosition()
	p.Update(ui.NewInt(100), ui.NewInt(0), ui.NewInt(0))
	p.Update(ui.NewInt(900), q.Clone(), q.Clone())
	if p.TokensOwed0.Uint64() != 100 || p.TokensOwed1.Uint64() != 100 {
		t.Fatalf("owed %v, %v, want 100, 100", p.TokensOwed0, p.TokensOwed1)
	}
}
''', "a second change of a position after token 1 fees accrued", "fees of token 1 are credited on the liquidity after the change, so a mint just before collecting takes fees of others")
bug("c15-key", "C15", "lib/pool", [(PO, '''	searchString := strconv.Itoa(tickLower) + "-" + strconv.Itoa(tickUpper)
	pos = p''', '''	searchString := strconv.Itoa(tickLower) + strconv.Itoa(tickUpper)
	pos = p'''), (PO, '''	searchString := strconv.Itoa(tickLower) + "-" + strconv.Itoa(tickUpper)
	pos := p''', '''	searchString := strconv.Itoa(tickLower) + strconv.Itoa(tickUpper)
	pos := p''')],
PH + '''
func TestDemo(t *testing.T) {
	p := at(0)
	p.MintStrategy(10, 203040, big(7))
	p.MintStrategy(1020, 3040, big(5))
	p.BurnStrategy(1020, 3040, big(5))
	for k, x := range p.Positions {
		if !x.Liquidity.Eq(big(7)) && !x.Liquidity.IsZero() {
			t.Fatalf("%s has %v", k, x.Liquidity)
		}
	}
	if len(p.Positions) != 2 {
		t.Fatalf("%d positions", len(p.Positions))
	}
}
''', "two ranges whose ticks concatenate to the same digits, such as 10..203040 and 1020..3040", "two different ranges share one position record")
bug("c15-lower", "C15", "lib/pool", [(PO, "	if p.TickCurrent < tickLower {\n", "	if p.TickCurrent <= tickLower {\n")],
PH + '''
func TestDemo(t *testing.T) {
	p := NewPool("a", "b", 500, new(ui.Int).Add(tickmath.TM.GetSqrtRatioAtTick(20), n(1<<40)))
	_, a1 := p.MintStrategy(20, 40, big(1<<40))
	if a1.IsZero() {
		t.Fatal("a range that starts at the current tick is worth nothing of token 1")
	}
}
''', "the current tick is exactly the lower tick of the range", "a range starting at the current tick counts as above the price")
bug("c16-upper", "C16", "lib/pool", [(PO, "	if p.TickCurrent >= lower && p.TickCurrent < upper {", "	if p.TickCurrent >= lower && p.TickCurrent <= upper {")],
PH + '''
func TestDemo(t *testing.T) {
	p := at(40)
	p.Mint(20, 40, big(3))
	if !p.Liquidity.IsZero() {
		t.Fatalf("active liquidity %v at the end of the only range", p.Liquidity)
	}
}
''', "the current tick is exactly the upper tick of a minted range", "liquidity of a range that ended is active")
bug("c16-tick", "C16", "lib/pool", [(PO, "		} else if state.sqrtPriceX96.Cmp(step.sqrtPriceStartX96) != 0 {\n", "		} else {\n")],
PH + '''
func TestDemo(t *testing.T) {
	p := at(20)
	p.Mint(-100, 20, big(1<<60))
	p.Mint(20, 100, big(1<<61))
	lim := tickmath.TM.GetSqrtRatioAtTick(10)
	// cross tick 20 downwards, moving the price by one unit, and back onto it
	p.ExactInputSwap(big(1<<20), "a", lim)
	p.ExactInputSwap(big(1<<30), "b", tickmath.TM.GetSqrtRatioAtTick(20))
	p = at(20)
	p.Mint(-100, 20, big(1<<60))
	p.Mint(20, 100, big(1<<61))
	p.ExactInputSwap(n(1), "a", nil0())
	// the price is still that of tick 20, which was crossed
	p.ExactInputSwap(n(1), "a", nil0())
	want := big(1 << 60)
	if p.TickCurrent >= 20 {
		want = big(1 << 61)
	}
	if !p.Liquidity.Eq(want) {
		t.Fatalf("tick %d has %v active, want %v", p.TickCurrent, p.Liquidity, want)
	}
}

func nil0() *ui.Int { return n(0) }
''', "the price stands exactly on a tick that was crossed downwards, and a step moves it by nothing", "the current tick goes back over a tick without its liquidity")
bug("c16-both", "C16", "lib/pool", [(PO, '''		p.TickData.ClearTick(lower)
	}
	if clearUpper {''', '''		p.TickData.ClearTick(lower)
	} else if clearUpper {''')],
PH + '''
func TestDemo(t *testing.T) {
	p := at(0)
	p.Mint(-600, 600, big(3))
	p.Mint(-20, 20, big(3))
	p.Burn(-20, 20, big(3))
	defer func() { recover() }()
	t.Fatalf("tick 20 is still listed: %v", p.TickData.GetTick(20))
}
''', "one burn that leaves both ends of its range unused", "the upper tick stays listed with no range using it")
bug("c17-min", "C17", "lib/pool", [(PO, "sqrtPriceLimitX96.Cmp(tickmath.MinSqrtRatio) == 1\n", "sqrtPriceLimitX96.Cmp(tickmath.MinSqrtRatio) >= 0\n")],
PH + '''
func TestDemo(t *testing.T) {
	p := at(0)
	p.Mint(-600, 600, big(3))
	defer func() { recover() }()
	p.ExactInputSwap(n(1000), "a", tickmath.MinSqrtRatio.Clone())
	t.Fatal("a limit at the lowest price was accepted")
}
''', "a limit equal to the lowest price", "a limit outside the open price range is accepted")
bug("c17-gap", "C17", "lib/pool", [(PO, '''		state.sqrtPriceX96, step.amountIn, step.amountOut, step.feeAmount =
''', '''		// nothing to trade against: take the fast way
		if state.liquidity.IsZero() && !step.initialized {
			targetValue = sqrtPriceLimitX96
		}
		state.sqrtPriceX96, step.amountIn, step.amountOut, step.feeAmount =
''')],
PH + '''
func TestDemo(t *testing.T) {
	p := at(0)
	p.Mint(-600, 600, big(1<<20))
	p.Mint(-60000, -50000, big(1<<20))
	a, b := p.ExactInputSwap(big(1<<30), "a", n(0))
	_ = a
	q := at(0)
	q.Mint(-600, 600, big(1<<20))
	_, c := q.ExactInputSwap(big(1<<30), "a", n(0))
	if b.Eq(c) {
		t.Fatal("the second range paid nothing")
	}
}
''', "a stretch without liquidity longer than one word between two ranges", "the swap jumps to its limit over the ranges behind the gap")
bug("c17-empty", "C17", "lib/pool", [(PO, '''			state.amountCalculatedI = new(ui.Int).Add(state.amountCalculatedI, new(ui.Int).Add(step.amountIn, step.feeAmount))
''', '''			paid := new(ui.Int).Set(step.amountIn)
			if state.sqrtPriceX96.Cmp(step.sqrtPriceNextX96) != 0 || !step.initialized {
				paid.Add(paid, step.feeAmount)
			}
			state.amountCalculatedI = new(ui.Int).Add(state.amountCalculatedI, paid)
''')],
PH + '''
func TestDemo(t *testing.T) {
	mk := func(extra bool) *ui.Int {
		p := at(0)
		p.Mint(-60, 60, big(1<<20))
		if extra {
			p.Mint(-600, 600, big(1))
			p.Mint(-600, -40, big(1<<20))
		}
		in, _ := p.ExactOutputSwap(big(1<<20), "b", tickmath.TM.GetSqrtRatioAtTick(-40))
		return in
	}
	// the same liquidity up to tick -40, but listed there
	p, q := mk(false), mk(true)
	d := new(ui.Int).Sub(p, q)
	if d.Sign() < 0 {
		d.Neg(d)
	}
	if d.Gt(new(ui.Int).Div(p, n(10000))) {
		t.Fatalf("charged %v and %v", p, q)
	}
}
''', "an exact-output swap with a step that ends exactly on a listed tick", "the fee of steps that cross a tick is not charged on exact-output swaps")
bug("c18-stale", "C18", "lib/pool", [(PO, "					feeGrowthGlobal1X128 = state.feeGrowthGlobalX128\n", "					feeGrowthGlobal1X128 = p.FeeGrowthGlobal1X128\n")],
PH + '''
func TestDemo(t *testing.T) {
	p := at(0)
	p.Mint(-600, 600, big(1<<20))
	p.Mint(20, 600, big(1<<20))
	p.ExactInputSwap(big(1<<20), "b", tickmath.TM.GetSqrtRatioAtTick(25))
	x := p.TickData.GetTick(20)
	if x.FeeGrowthOutside1X128.IsZero() {
		t.Fatal("the fees charged below tick 20 are not outside it")
	}
}
''', "an upward swap that charges fees before it crosses a tick", "the crossed tick records the growth from before the swap")
bug("c18-flash", "C18", "lib/pool", [(PO, "	fee1 := fullmath.MulDivRoundingUp(amount1,", "	fee1 := fullmath.MulDiv(amount1,")],
PH + '''
func TestDemo(t *testing.T) {
	p := at(0)
	p.Mint(-600, 600, big(1<<20))
	p.Flash(n(0), n(1))
	if p.FeeGrowthGlobal1X128.IsZero() {
		t.Fatal("a flash of one unit paid no fee")
	}
}
''', "a flash of an amount of token 1 whose fee is not whole", "the fee on token 1 is rounded down")
bug("c18-after", "C18", "lib/pool", [(PO, '''		if state.liquidity.Sign() > 0 {
			fee := fullmath.MulDiv(step.feeAmount, cons.Q128, state.liquidity)
''', '''		if state.liquidity.Sign() > 0 && state.liquidity.Cmp(cons.Q96) > 0 {
			fee := fullmath.MulDiv(step.feeAmount, cons.Q128, state.liquidity)
			state.feeGrowthGlobalX128.Add(state.feeGrowthGlobalX128, fee)
		} else if state.liquidity.Sign() > 0 {
			// the quotient of the shifted fee fits easily
			fee := new(ui.Int).Lsh(new(ui.Int).Div(new(ui.Int).Lsh(step.feeAmount, 96), state.liquidity), 32)
''')],
PH + '''
func TestDemo(t *testing.T) {
	p := at(0)
	p.Mint(-600, 600, n(3000017))
	a, _ := p.ExactInputSwap(n(100), "a", n(0))
	_ = a
	g := p.FeeGrowthGlobal0X128
	// the growth times the liquidity is a whole fee up to less than the liquidity
	q := new(ui.Int).Mul(g, n(3000017))
	f := new(ui.Int).Div(new(ui.Int).Add(q, new(ui.Int).Sub(cons.Q128, n(1))), cons.Q128)
	if d := new(ui.Int).Sub(new(ui.Int).Mul(f, cons.Q128), q); !d.Lt(n(3000017)) {
		t.Fatalf("growth %v is not the fee per unit", g)
	}
}
''', "active liquidity that does not divide the shifted fee", "the fee growth loses its low 32 bits")
bug("c19-zero", "C19", "lib/pool", [(PO, "	pos.TokensOwed0.Set(cons.Zero)\n", "	pos.TokensOwed0 = cons.Zero\n")],
PH + '''
func TestDemo(t *testing.T) {
	p := at(0)
	p.MintStrategy(-60, 60, big(1))
	p.CollectStrategy(-60, 60)
	p.BurnStrategy(-60, 60, big(1))
	if !cons.Zero.IsZero() {
		t.Fatalf("the constant zero is %v", cons.Zero)
	}
}
''', "a burn or mint with fees after a collect", "the constant zero becomes the position's owed amount and is then added to")
bug("c19-share", "C19", "lib/pool", [(PO, "		Liquidity:            p.Liquidity.Clone(),\n", "		Liquidity:            p.Liquidity,\n")],
PH + '''
func TestDemo(t *testing.T) {
	p := at(0)
	p.Mint(-60, 60, big(1))
	q := p.Clone()
	q.Mint(-60, 60, big(1))
	if !p.Liquidity.Eq(big(1)) {
		t.Fatalf("the original has %v", p.Liquidity)
	}
}
''', "a mint or burn in range on a copy before any swap", "copy and original share their active liquidity")
bug("c19-limit", "C19", "lib/pool", [(PO, "	sqrtPriceLimitX96 := sqrtPriceLimitX96In.Clone()\n", "	sqrtPriceLimitX96 := sqrtPriceLimitX96In\n")],
PH + '''
func TestDemo(t *testing.T) {
	p := at(0)
	p.Mint(-60, 60, big(1))
	z := n(0)
	p.ExactInputSwap(n(100), "a", z)
	if !z.IsZero() {
		t.Fatalf("the limit argument is now %v", z)
	}
}
''', "a swap without a limit", "the caller's zero is overwritten with the limit")
bug("c19-owed", "C19", "lib/pool", [(PO, "	pos.TokensOwed1.Add(pos.TokensOwed1, amount1)\n", """	if pos.TokensOwed1.IsZero() {
		pos.TokensOwed1 = amount1
	} else {
		pos.TokensOwed1.Add(pos.TokensOwed1, amount1)
	}
""")],
PH + '''
func TestDemo(t *testing.T) {
	p := at(100)
	p.MintStrategy(-60, 60, big(9))
	_, a := p.BurnStrategy(-60, 60, big(3))
	w := a.Clone()
	p.BurnStrategy(-60, 60, big(3))
	if !a.Eq(w) {
		t.Fatal("a returned amount changed")
	}
}
''', "a second burn of a range whose first burn found nothing owed", "the returned amount is the owed record itself and changes with later burns")
SH = '''
import (
	"testing"

	"uniswap-simulator/lib/pool"
	"uniswap-simulator/lib/tickmath"
	ui "uniswap-simulator/uint256"
)

func n(x uint64) *ui.Int { return ui.NewInt(x) }
func big(x uint64) *ui.Int { return new(ui.Int).Lsh(ui.NewInt(x), 60) }
func at(k int, plus uint64) *pool.Pool {
	return pool.NewPool("a", "b", 500, new(ui.Int).Add(tickmath.TM.GetSqrtRatioAtTick(k), new(ui.Int).Lsh(n(plus), 40)))
}
'''
bug("c20-filled", "C20", "lib/strategy", [("lib/strategy/swap_half_constant_interval_current_price.go", "			s.Amount0.Sub(s.Amount0, amount0Swap)\n			s.Amount1.Sub(s.Amount1, amount1Swap)\n		}\n	} else {", "			_ = amount0Swap\n			s.Amount0.Sub(s.Amount0, amount0DiffHalf)\n			s.Amount1.Sub(s.Amount1, amount1Swap)\n		}\n	} else {")],
SH + '''
func TestDemo(t *testing.T) {
	p := at(5, 3)
	p.Mint(-10, 20, n(1000))
	s := NewIntervalAroundPriceAndSwapStrategy(big(1000), big(1), p, 100)
	s.Init()
	r0, _ := s.BurnAll()
	if r0.Lt(big(990)) {
		t.Fatalf("%v left of %v although the pool could buy almost nothing", r0, big(1000))
	}
}
''', "a swap that runs out of liquidity before the input is used up", "the strategy writes off input that the pool did not take")
bug("c20-share", "C20", "lib/strategy", [("lib/strategy/fill_up.go", "		Amount1:       amount1.Clone(),\n", "		Amount1:       amount1,\n")],
SH + '''
func TestDemo(t *testing.T) {
	p := at(5, 3)
	p.Mint(-100, 200, big(1))
	a, b := big(1), big(1)
	s := NewFillUpStrategy(a, b, p, 100)
	s.Init()
	if !b.Eq(big(1)) {
		t.Fatalf("the caller's amount is now %v", b)
	}
}
''', "a caller that uses the amounts again, for instance for a second strategy", "the strategy spends from the caller's integer")
bug("c20-pool", "C20", "lib/strategy", [("lib/strategy/no_provision.go", "		Pool:    pool.Clone(),\n", "		Pool:    pool,\n")],
SH + '''
func TestDemo(t *testing.T) {
	p := at(5, 3)
	p.Mint(-100, 200, big(1))
	s := NewNoProvisionStrategy(big(1), big(1), p)
	s.GetPool().Mint(-10, 20, big(1))
	if !p.Liquidity.Eq(big(1)) {
		t.Fatal("the original pool changed with the strategy's")
	}
}
''', "operations on the strategy's pool while the original is still used", "the strategy does not work on an own copy of the pool")
bug("c20-third", "C20", "lib/strategy", [("lib/strategy/2_interval_around_price.go", "	s.Positions = append(s.Positions, Position{", "	if len(s.Positions) > 2-1 {\n		s.Positions = s.Positions[:1]\n	}\n	s.Positions = append(s.Positions, Position{")],
SH + '''
func TestDemo(t *testing.T) {
	max := 0
	for i := uint64(0); i < 200; i++ {
		p := at(200005, 3+i*i*i)
		s := NewTwoIntervalAroundPriceStrategy(big(1000+i*17), new(ui.Int).Add(big(1003+i*13), n(i*i*i)), p, 100, 20)
		s.Init()
		m := len(s.Pool.Positions)
		if m > max {
			max = m
		}
		if len(s.Positions) != m {
			t.Fatalf("%d positions recorded, %d minted", len(s.Positions), m)
		}
	}
	if max < 3 {
		t.Fatal("never three positions")
	}
}
''', "leftovers of both tokens after the main position, so that three positions are minted", "the record of the second position is lost")
bug("c20-price", "C20", "lib/strategy", [("lib/strategy/volatility_sized_intervals.go", "	amount := la.GetLiquidityForAmount(s.Pool.SqrtRatioX96, ", "	sqrtRatioX96 := s.Pool.SqrtRatioX96\n	if sqrtRatioX96.Cmp(sqrtRatioBX96) < 0 && s.Pool.TickCurrent%10 == 0 {\n		sqrtRatioX96 = tickmath.TM.GetSqrtRatioAtTick(s.Pool.TickCurrent)\n	}\n	amount := la.GetLiquidityForAmount(sqrtRatioX96, ")],
SH + '''
func TestDemo(t *testing.T) {
	p := at(10, 1<<40)
	p.Mint(-100, 200, big(1))
	s := NewVolatilitySizedIntervalStrategy(big(1000), big(1000), p, 2, 10)
	for i := 0; i < 3; i++ {
		s.MakeSnapshot()
	}
	s.mintPosition(-100, 11)
	if s.Amount0.Gt(big(1000)) || s.Amount1.Gt(big(1000)) {
		t.Fatalf("the holdings grew to %v and %v", s.Amount0, s.Amount1)
	}
}
''', "the price inside a tick that is a multiple of ten", "liquidity computed at another price costs more than the holdings, which wrap around")
bug("c24-fees", "C24", "lib/strategy", [("lib/strategy/interval_around_average.go", "		s.Pool.BurnStrategy(position.tickLower, position.tickUpper, position.amount)\n		amount0, amount1 := s.Pool.CollectStrategy(position.tickLower, position.tickUpper)\n", "		amount0, amount1 := s.Pool.BurnStrategy(position.tickLower, position.tickUpper, position.amount)\n		s.Pool.CollectStrategy(position.tickLower, position.tickUpper)\n")],
SH + '''
func TestDemo(t *testing.T) {
	p := at(5, 3)
	s := NewV2Strategy(big(1000), big(1000), p)
	_ = s
	q := NewIntervalAroundAverageStrategy(big(1000), big(1000), p, 100, 1)
	q.MakeSnapshot()
	q.Init()
	q.Pool.Flash(big(100000), big(0))
	a, _ := q.BurnAll()
	if !a.Gt(big(1000)) {
		t.Fatalf("%v after earning fees", a)
	}
}
''', "fees earned between opening and closing", "the fees are collected from the pool and not credited")
bug("c24-value", "C24", "lib/strategy", [("lib/strategy/limit_order.go", "		sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(position.tickLower)\n		sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(position.tickUpper)\n		liquidityAmount0", "		if position.tickUpper == s.Pool.TickCurrent {\n			continue\n		}\n		sqrtRatioAX96 := tickmath.TM.GetSqrtRatioAtTick(position.tickLower)\n		sqrtRatioBX96 := tickmath.TM.GetSqrtRatioAtTick(position.tickUpper)\n		liquidityAmount0")],
SH + '''
func TestDemo(t *testing.T) {
	p := at(20, 3)
	p.Mint(-100, 200, big(1))
	s := NewLimitOrderStrategy(big(1000), big(1000), p, 100)
	s.Pool.MintStrategy(0, 20, big(1))
	s.Positions = append(s.Positions, Position{amount: big(1), tickLower: 0, tickUpper: 20})
	if _, a := s.GetAmounts(); !a.Gt(big(1000)) {
		t.Fatalf("%v", a)
	}
}
''', "the current tick is exactly the upper end of a position", "a position just below the price is worth nothing")
bug("c24-last", "C24", "lib/strategy", [("lib/strategy/bollinger_fill_up.go", "		s.Amount1.Add(s.Amount1, amount1)\n	}\n", "		if len(s.Positions) < 2 || !amount0.IsZero() {\n			s.Amount1.Add(s.Amount1, amount1)\n		}\n	}\n")],
SH + '''
func TestDemo(t *testing.T) {
	p := at(5, 3)
	s := NewBollingerBandsFillUpStrategy(n(0), big(10), p, 2, 10)
	for _, r := range [][2]int{{-20, -10}, {-40, -20}} {
		s.mintPosition(r[0], r[1])
		s.Amount1.Set(big(9))
	}
	s.mintPosition(-60, -40)
	s.Amount1.Set(n(0))
	if len(s.Positions) < 2 {
		t.Skip()
	}
	_, a := s.BurnAll()
	if !a.Gt(big(2)) {
		t.Fatalf("%v", a)
	}
}
''', "two positions, one of which holds only the second token", "what the second token of that position is worth is not credited")
bug("c24-alias", "C24", "lib/strategy", [("lib/strategy/interval_around_current_price.go", "	currAmount0, currAmount1 = s.Amount0.Clone(), s.Amount1.Clone()\n	s.Positions = make([]Position, 0)\n\n	tickSpacing", "	currAmount0, currAmount1 = s.Amount0.Clone(), s.Amount1\n	s.Positions = make([]Position, 0)\n\n	tickSpacing")],
SH + '''
func TestDemo(t *testing.T) {
	p := at(5, 3)
	p.Mint(-100, 200, big(1))
	s := NewIntervalAroundPriceStrategy(big(1000), big(1000), p, 100)
	s.Init()
	_, b := s.Rebalance()
	if b.Lt(big(998)) {
		t.Fatalf("Rebalance reports %v", b)
	}
}
''', "the amounts reported by Rebalance, read after it opened the new position", "the reported amount is the holdings after opening")

PRH = '''
import (
	"testing"

	ui "uniswap-simulator/uint256"
)

func n(x uint64) *ui.Int { return ui.NewInt(x) }
'''
PRF = "lib/prices/prices.go"
bug("c22-sum", "C22", "lib/prices", [(PRF, "	sum := new(ui.Int)\n	for _, price := range p.prices {\n		sum.Add(sum, price)\n	}\n	length", "	sum := p.prices[0]\n	for _, price := range p.prices[1:] {\n		sum.Add(sum, price)\n	}\n	length")],
PRH + '''
func TestDemo(t *testing.T) {
	p := NewPrices(2)
	p.Add(n(10))
	p.Add(n(20))
	p.Average()
	if a := p.Average(); !a.Eq(n(250)) {
		t.Fatalf("the second average is %v", a)
	}
}
''', "two statistics taken from the same window", "the sum is kept in the first slot of the window")
bug("c22-bits", "C22", "lib/prices", [(PRF, "Rsh(priceSquareX192, 230)", "Rsh(priceSquareX192, 231)")],
PRH + '''
func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("accepted")
		}
	}()
	NewPrices(2).Add(new(ui.Int).Lsh(n(5), 113))
}
''', "a price between 2^115 and 1.41 * 2^115", "a price is recorded whose square does not fit in 230 bits")
bug("c22-ring", "C22", "lib/prices", [(PRF, "	p.index = (p.index + 1) % p.length\n", "	if p.index++; p.index == p.length {\n		p.index %= p.length - 1\n	}\n")],
PRH + '''
func TestDemo(t *testing.T) {
	p := NewPrices(3)
	for i := uint64(1); i <= 4; i++ {
		p.Add(n(3 * i))
	}
	if a := p.Average(); !a.Eq(n(87)) {
		t.Fatalf("the average of the last three prices is %v", a)
	}
}
''', "more prices than the window holds", "the oldest price of the window stays and a newer one is overwritten")
bug("c22-mean", "C22", "lib/prices", [(PRF, "	sum := new(ui.Int)\n	for _, price := range p.prices {\n		sum.Add(sum, price)\n	}\n	length := ui.NewInt(uint64(p.length))\n	return new(ui.Int).Div(sum, length)", "	sum := new(ui.Int)\n	length := ui.NewInt(uint64(p.length))\n	for _, price := range p.prices {\n		sum.Add(sum, new(ui.Int).Div(price, length))\n	}\n	return sum")],
PRH + '''
func TestDemo(t *testing.T) {
	p := NewPrices(2)
	p.Add(n(3))
	p.Add(n(5))
	if a := p.Average(); !a.Eq(n(17)) {
		t.Fatalf("the average is %v", a)
	}
}
''', "squares that the window size does not divide", "the average is rounded down once per price")
EH = '''
import (
	"fmt"
	"strings"
	"testing"

	"uniswap-simulator/lib/pool"
	ent "uniswap-simulator/lib/transaction"
	ui "uniswap-simulator/uint256"
)

func n(x uint64) *ui.Int { return ui.NewInt(x) }

// fake writes down what it is asked to do
type fake struct {
	p   *pool.Pool
	log []string
	k   uint64
}

func (f *fake) GetPool() *pool.Pool { return f.p }
func (f *fake) do(s string)         { f.log = append(f.log, s) }
func (f *fake) two() (*ui.Int, *ui.Int) {
	f.k++
	return n(f.k), n(0)
}
func (f *fake) Init() (*ui.Int, *ui.Int)       { f.do("I"); return f.two() }
func (f *fake) Rebalance() (*ui.Int, *ui.Int)  { f.do("R"); return f.two() }
func (f *fake) BurnAll() (*ui.Int, *ui.Int)    { f.do("B"); return f.two() }
func (f *fake) GetAmounts() (*ui.Int, *ui.Int) { f.do("G"); return f.two() }
func (f *fake) MakeSnapshot()                  { f.do("P") }
func one() *ui.Int                             { return new(ui.Int).Lsh(n(1), 96) }
func run(start, end, update, snap, price int, txs ...ent.Transaction) (*fake, *Execution) {
	f := &fake{p: pool.NewPool("a", "b", 500, one())}
	e := CreateExecution(f, start, end, update, snap, price, txs)
	e.Run()
	return f, e
}
func at(ts int) ent.Transaction { return ent.Transaction{Type: "Flash", Timestamp: ts, Amount0: n(0), Amount1: n(0)} }
func mint(ts int) ent.Transaction {
	return ent.Transaction{Type: "Mint", Timestamp: ts, TickLower: -100, TickUpper: 100, Amount: new(ui.Int).Lsh(n(1), 80)}
}
func want(t *testing.T, f *fake, s string) {
	if got := strings.Join(f.log, ""); got != s {
		t.Fatalf("the run does %s, want %s", got, s)
	}
}

var _ = fmt.Sprint
'''
EXF = "lib/executor/executor.go"
bug("c23-order", "C23", "lib/executor", [(EXF, "		if trans.Timestamp >= nextSnapshot {\n", "		if trans.Timestamp >= nextUpdate && e.UpdateInterval < e.SnapShotInterval {\n			strategy.Rebalance()\n			nextUpdate += e.UpdateInterval\n		}\n		if trans.Timestamp >= nextSnapshot {\n"), (EXF, "		if trans.Timestamp >= nextUpdate {\n", "		if trans.Timestamp >= nextUpdate && e.UpdateInterval >= e.SnapShotInterval {\n")],
EH + '''
func TestDemo(t *testing.T) {
	f, _ := run(10, 1000, 20, 30, 1000, mint(5), at(10), at(31), at(41))
	want(t, f, "PIRGB")
	f, _ = run(10, 1000, 20, 25, 1000, mint(5), at(10), at(41))
	want(t, f, "PIGRB")
}
''', "a valuation and a rebalancing due at the same transaction, with the shorter interval for rebalancing", "the holdings are valued after the rebalancing")
bug("c23-drift", "C23", "lib/executor", [(EXF, "			nextSnapshot += e.SnapShotInterval\n", "			nextSnapshot = trans.Timestamp + e.SnapShotInterval\n")],
EH + '''
func TestDemo(t *testing.T) {
	f, _ := run(10, 1000, 1000, 10, 1000, mint(5), at(10), at(29), at(30), at(31))
	want(t, f, "PIGGB")
}
''', "a transaction later than the time due", "the times of the valuations drift with the gaps between transactions")
bug("c23-end", "C23", "lib/executor", [(EXF, "if trans.Timestamp > e.EndTime {", "if started && trans.Timestamp >= e.EndTime {")],
EH + '''
func TestDemo(t *testing.T) {
	f, _ := run(10, 20, 10, 1000, 1000, mint(5), at(10), at(20))
	want(t, f, "PIRB")
}
''', "a transaction exactly at the end time", "it is not executed")
bug("c23-next", "C23", "lib/executor", [(EXF, "nextUpdate = trans.Timestamp + e.UpdateInterval", "nextUpdate = e.StartTime + e.UpdateInterval")],
EH + '''
func TestDemo(t *testing.T) {
	f, _ := run(10, 1000, 10, 1000, 1000, mint(5), at(15), at(21), at(25))
	want(t, f, "PIRB")
	f, _ = run(10, 1000, 10, 1000, 1000, mint(5), at(15), at(21))
	want(t, f, "PIB")
}
''', "no transaction exactly at the start time", "the first rebalancing comes less than one interval after the opening")
bug("c23-swap", "C23", "lib/executor", [(EXF, "			if trans.Amount0.Sign() > 0 {\n", "			if !trans.Amount0.IsZero() && trans.Amount0.Sign() >= trans.Amount1.Sign() {\n")],
EH + '''
func TestDemo(t *testing.T) {
	neg := new(ui.Int).Neg(n(5))
	f, _ := run(10, 1000, 10, 1000, 1000, mint(5), ent.Transaction{Type: "Swap", Timestamp: 10, Amount0: neg, Amount1: neg})
	if !f.p.SqrtRatioX96.Eq(one()) {
		t.Fatalf("the price moved to %v", f.p.SqrtRatioX96)
	}
}
''', "a swap record whose two amounts are both negative", "it is executed with the negative amount, as an exact-output swap or a panic, instead of being skipped")
C = "uint256/conversion.go"
BH = '''package uint256

import (
	"bytes"
	"math/big"
	"testing"
)

var _ = bytes.Equal
var _ = big.NewInt

'''
bug("c07-short", "C07", "uint256", [(C, "	_ = in[19] // bounds check hint to compiler; see golang.org/issue/14808\n	z[3] = 0\n	z[2] = uint64(binary.BigEndian.Uint32(in[0:4]))\n	z[1] = binary.BigEndian.Uint64(in[4:12])\n	z[0] = binary.BigEndian.Uint64(in[12:20])\n", "	hi, mid, lo := in[0:4], in[4:12], in[12:20]\n	z[3] = 0\n	z[2] = uint64(binary.BigEndian.Uint32(hi))\n	z[1] = binary.BigEndian.Uint64(mid)\n	z[0] = binary.BigEndian.Uint64(lo)\n")],
BH + '''
func TestDemo(t *testing.T) {
	defer func() {
		if recover() == nil {
			t.Fatal("an address of 15 bytes is accepted")
		}
	}()
	new(Int).SetBytes20(bytes.Repeat([]byte{7}, 40)[:15])
}
''', "an input of 12 to 19 bytes inside a larger buffer", "bytes beyond the input are read instead of refusing it")
bug("c07-negative", "C07", "uint256", [(C, "	if b.Sign() == -1 {\n		z.Neg(z)\n	}\n	return overflow\n", "	if b.Sign() == -1 && !overflow {\n		z.Neg(z)\n	}\n	return overflow\n")],
BH + '''
func TestDemo(t *testing.T) {
	x := new(big.Int).Lsh(big.NewInt(1), 300)
	x.Add(x, big.NewInt(5)).Neg(x)
	z, o := FromBig(x)
	if !o || !z.Eq(new(Int).Sub(new(Int), NewInt(5))) {
		t.Fatalf("got %v %v", z, o)
	}
}
''', "a negative big integer below -2^256", "the low words of the magnitude are kept without their sign")
bug("c07-stale", "C07", "uint256", [(U, "	end := len(dest) - 1\n	if end > 31 {\n		end = 31\n	}\n	for i := 0; i <= end; i++ {\n		dest[end-i] = byte(z[i/8] >> uint64(8*(i%8)))\n	}\n", "	if len(dest) >= 32 {\n		b := z.Bytes32()\n		copy(dest, b[:])\n		return\n	}\n	b := z.Bytes()\n	if len(b) > len(dest) {\n		b = b[len(b)-len(dest):]\n	}\n	copy(dest[len(dest)-len(b):], b)\n")],
BH + '''
func TestDemo(t *testing.T) {
	dest := bytes.Repeat([]byte{7}, 20)
	NewInt(258).WriteToSlice(dest)
	if !bytes.Equal(dest, append(make([]byte, 18), 1, 2)) {
		t.Fatalf("got %x", dest)
	}
}
''', "a reused buffer of fewer than 32 bytes and a value shorter than it", "the old bytes before the value stay")
bug("c07-half", "C07", "uint256", [(C, "		a := new(Int)\n		a.Xor(bitMap, z)\n		a = a.Add(a, NewInt(1))\n", "		a := new(Int)\n		a.Xor(bitMap, z)\n		a[0]++\n")],
BH + '''
func TestDemo(t *testing.T) {
	x := new(Int).Neg(new(Int).Lsh(NewInt(3), 64))
	if w := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(3), 64)); x.SToBig().Cmp(w) != 0 {
		t.Fatalf("got %v", x.SToBig())
	}
}
''', "a negative value that is a multiple of 2^64", "the carry into the second word is lost when the magnitude is formed")
