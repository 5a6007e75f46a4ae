// uint256: bitwise operations, shifts, byte access (bit-vector reasoning)
func uint256.Int.Not(z, x) (r)
  mode bv
  modifies #z
  ensures r == z
  ensures #z == bnot(old(#x))
func uint256.Int.Or(z, x, y) (r)
  mode bv
  modifies #z
  ensures r == z
  ensures #z == bor(old(#x), old(#y))
func uint256.Int.And(z, x, y) (r)
  mode bv
  modifies #z
  ensures r == z
  ensures #z == band(old(#x), old(#y))
func uint256.Int.Xor(z, x, y) (r)
  mode bv
  modifies #z
  ensures r == z
  ensures #z == bxor(old(#x), old(#y))
func uint256.Int.Lsh(z, x, n) (r)
  mode bv
  modifies #z
  ensures r == z
  ensures #z == shl(old(#x), n)
func uint256.Int.Rsh(z, x, n) (r)
  mode bv
  modifies #z
  ensures r == z
  ensures #z == shr(old(#x), n)
func uint256.Int.SRsh(z, x, n) (r)
  mode bv
  modifies #z
  ensures r == z
  ensures #z == sar(old(#x), n)
func uint256.Int.isBitSet(z, n) (r)
  mode bv
  requires n < 256
  ensures r <==> band(shr(#z, n), 1) == 1
func uint256.Int.Byte(z, n) (r)
  mode bv
  modifies #z
  ensures r == z
  ensures #z == ite(old(#n) < 32, band(shr(old(#z), sub256(248, shl(old(#n), 3))), 255), 0)
func uint256.Int.ExtendSign(z, x, byteNum) (r)
  mode bv
  modifies #z
  ensures r == z
  ensures #z == ite(old(#byteNum) > 31, old(#x), sar(shl(old(#x), sub256(248, shl(old(#byteNum), 3))), sub256(248, shl(old(#byteNum), 3))))
func uint256.Int.BitLen(z) (r)
  mode bv
  ensures r <= 256
  ensures 0 <= r
  ensures ltp2(#z, r)
  ensures #z > 0 ==> r != 0 && !ltp2(#z, lessone(r))
  ensures #z == 0 ==> r == 0
func uint256.Int.ByteLen(z) (r)
  mode bv
  ensures r <= 32
  ensures 0 <= r
  ensures ltp2(#z, times8(r))
  ensures #z > 0 ==> r != 0 && !ltp2(#z, times8(lessone(r)))
  ensures [fits0] r == 0 ==> ltp2(#z, 0)
  ensures [fits1] r == 1 ==> ltp2(#z, 8)
  ensures [fits2] r == 2 ==> ltp2(#z, 16)
  ensures [fits3] r == 3 ==> ltp2(#z, 24)
  ensures [fits4] r == 4 ==> ltp2(#z, 32)
  ensures [fits5] r == 5 ==> ltp2(#z, 40)
  ensures [fits6] r == 6 ==> ltp2(#z, 48)
  ensures [fits7] r == 7 ==> ltp2(#z, 56)
  ensures [fits8] r == 8 ==> ltp2(#z, 64)
  ensures [fits9] r == 9 ==> ltp2(#z, 72)
  ensures [fits10] r == 10 ==> ltp2(#z, 80)
  ensures [fits11] r == 11 ==> ltp2(#z, 88)
  ensures [fits12] r == 12 ==> ltp2(#z, 96)
  ensures [fits13] r == 13 ==> ltp2(#z, 104)
  ensures [fits14] r == 14 ==> ltp2(#z, 112)
  ensures [fits15] r == 15 ==> ltp2(#z, 120)
  ensures [fits16] r == 16 ==> ltp2(#z, 128)
  ensures [fits17] r == 17 ==> ltp2(#z, 136)
  ensures [fits18] r == 18 ==> ltp2(#z, 144)
  ensures [fits19] r == 19 ==> ltp2(#z, 152)
  ensures [fits20] r == 20 ==> ltp2(#z, 160)
  ensures [fits21] r == 21 ==> ltp2(#z, 168)
  ensures [fits22] r == 22 ==> ltp2(#z, 176)
  ensures [fits23] r == 23 ==> ltp2(#z, 184)
  ensures [fits24] r == 24 ==> ltp2(#z, 192)
  ensures [fits25] r == 25 ==> ltp2(#z, 200)
  ensures [fits26] r == 26 ==> ltp2(#z, 208)
  ensures [fits27] r == 27 ==> ltp2(#z, 216)
  ensures [fits28] r == 28 ==> ltp2(#z, 224)
  ensures [fits29] r == 29 ==> ltp2(#z, 232)
  ensures [fits30] r == 30 ==> ltp2(#z, 240)
  ensures [fits31] r == 31 ==> ltp2(#z, 248)
  ensures [needs1] r == 1 ==> !ltp2(#z, 0)
  ensures [needs2] r == 2 ==> !ltp2(#z, 8)
  ensures [needs3] r == 3 ==> !ltp2(#z, 16)
  ensures [needs4] r == 4 ==> !ltp2(#z, 24)
  ensures [needs5] r == 5 ==> !ltp2(#z, 32)
  ensures [needs6] r == 6 ==> !ltp2(#z, 40)
  ensures [needs7] r == 7 ==> !ltp2(#z, 48)
  ensures [needs8] r == 8 ==> !ltp2(#z, 56)
  ensures [needs9] r == 9 ==> !ltp2(#z, 64)
  ensures [needs10] r == 10 ==> !ltp2(#z, 72)
  ensures [needs11] r == 11 ==> !ltp2(#z, 80)
  ensures [needs12] r == 12 ==> !ltp2(#z, 88)
  ensures [needs13] r == 13 ==> !ltp2(#z, 96)
  ensures [needs14] r == 14 ==> !ltp2(#z, 104)
  ensures [needs15] r == 15 ==> !ltp2(#z, 112)
  ensures [needs16] r == 16 ==> !ltp2(#z, 120)
  ensures [needs17] r == 17 ==> !ltp2(#z, 128)
  ensures [needs18] r == 18 ==> !ltp2(#z, 136)
  ensures [needs19] r == 19 ==> !ltp2(#z, 144)
  ensures [needs20] r == 20 ==> !ltp2(#z, 152)
  ensures [needs21] r == 21 ==> !ltp2(#z, 160)
  ensures [needs22] r == 22 ==> !ltp2(#z, 168)
  ensures [needs23] r == 23 ==> !ltp2(#z, 176)
  ensures [needs24] r == 24 ==> !ltp2(#z, 184)
  ensures [needs25] r == 25 ==> !ltp2(#z, 192)
  ensures [needs26] r == 26 ==> !ltp2(#z, 200)
  ensures [needs27] r == 27 ==> !ltp2(#z, 208)
  ensures [needs28] r == 28 ==> !ltp2(#z, 216)
  ensures [needs29] r == 29 ==> !ltp2(#z, 224)
  ensures [needs30] r == 30 ==> !ltp2(#z, 232)
  ensures [needs31] r == 31 ==> !ltp2(#z, 240)
  ensures [needs32] r == 32 ==> !ltp2(#z, 248)
  ensures #z == 0 ==> r == 0
