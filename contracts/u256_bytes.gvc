// Byte encodings of uint256.Int, big-endian.
define be1(s, o) = s[o]
define be2(s, o) = s[o] * 2^8 + s[o+1]
define be3(s, o) = be2(s, o) * 2^8 + s[o+2]
define be4(s, o) = be2(s, o) * 2^16 + be2(s, o+2)
define be5(s, o) = be4(s, o) * 2^8 + s[o+4]
define be6(s, o) = be4(s, o) * 2^16 + be2(s, o+4)
define be7(s, o) = be4(s, o) * 2^24 + be3(s, o+4)
define be8(s, o) = be4(s, o) * 2^32 + be4(s, o+4)
define be9(s) = (be1(s, 0)) * 2^64 + be8(s, 1)
define be10(s) = (be2(s, 0)) * 2^64 + be8(s, 2)
define be11(s) = (be3(s, 0)) * 2^64 + be8(s, 3)
define be12(s) = (be4(s, 0)) * 2^64 + be8(s, 4)
define be13(s) = (be5(s, 0)) * 2^64 + be8(s, 5)
define be14(s) = (be6(s, 0)) * 2^64 + be8(s, 6)
define be15(s) = (be7(s, 0)) * 2^64 + be8(s, 7)
define be16(s) = (be8(s, 0)) * 2^64 + be8(s, 8)
define be17(s) = ((be1(s, 0)) * 2^64 + be8(s, 1)) * 2^64 + be8(s, 9)
define be18(s) = ((be2(s, 0)) * 2^64 + be8(s, 2)) * 2^64 + be8(s, 10)
define be19(s) = ((be3(s, 0)) * 2^64 + be8(s, 3)) * 2^64 + be8(s, 11)
define be20(s) = ((be4(s, 0)) * 2^64 + be8(s, 4)) * 2^64 + be8(s, 12)
define be21(s) = ((be5(s, 0)) * 2^64 + be8(s, 5)) * 2^64 + be8(s, 13)
define be22(s) = ((be6(s, 0)) * 2^64 + be8(s, 6)) * 2^64 + be8(s, 14)
define be23(s) = ((be7(s, 0)) * 2^64 + be8(s, 7)) * 2^64 + be8(s, 15)
define be24(s) = ((be8(s, 0)) * 2^64 + be8(s, 8)) * 2^64 + be8(s, 16)
define be25(s) = (((be1(s, 0)) * 2^64 + be8(s, 1)) * 2^64 + be8(s, 9)) * 2^64 + be8(s, 17)
define be26(s) = (((be2(s, 0)) * 2^64 + be8(s, 2)) * 2^64 + be8(s, 10)) * 2^64 + be8(s, 18)
define be27(s) = (((be3(s, 0)) * 2^64 + be8(s, 3)) * 2^64 + be8(s, 11)) * 2^64 + be8(s, 19)
define be28(s) = (((be4(s, 0)) * 2^64 + be8(s, 4)) * 2^64 + be8(s, 12)) * 2^64 + be8(s, 20)
define be29(s) = (((be5(s, 0)) * 2^64 + be8(s, 5)) * 2^64 + be8(s, 13)) * 2^64 + be8(s, 21)
define be30(s) = (((be6(s, 0)) * 2^64 + be8(s, 6)) * 2^64 + be8(s, 14)) * 2^64 + be8(s, 22)
define be31(s) = (((be7(s, 0)) * 2^64 + be8(s, 7)) * 2^64 + be8(s, 15)) * 2^64 + be8(s, 23)
define be32at(s, o) = ((be8(s, o) * 2^64 + be8(s, o+8)) * 2^64 + be8(s, o+16)) * 2^64 + be8(s, o+24)
define be32(s) = (((be8(s, 0)) * 2^64 + be8(s, 8)) * 2^64 + be8(s, 16)) * 2^64 + be8(s, 24)

// SetBytesN reads the first N bytes and refuses fewer
func uint256.Int.SetBytes1(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 1
  ensures [value] #z == be1(in, 0)
  ensures [result] r == z

func uint256.Int.SetBytes2(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 2
  ensures [value] #z == be2(in, 0)
  ensures [result] r == z

func uint256.Int.SetBytes3(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 3
  ensures [value] #z == be3(in, 0)
  ensures [result] r == z

func uint256.Int.SetBytes4(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 4
  ensures [value] #z == be4(in, 0)
  ensures [result] r == z

func uint256.Int.SetBytes5(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 5
  ensures [value] #z == be5(in, 0)
  ensures [result] r == z

func uint256.Int.SetBytes6(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 6
  ensures [value] #z == be6(in, 0)
  ensures [result] r == z

func uint256.Int.SetBytes7(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 7
  ensures [value] #z == be7(in, 0)
  ensures [result] r == z

func uint256.Int.SetBytes8(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 8
  ensures [value] #z == be8(in, 0)
  ensures [result] r == z

func uint256.Int.SetBytes9(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 9
  ensures [value] #z == be9(in)
  ensures [result] r == z

func uint256.Int.SetBytes10(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 10
  ensures [value] #z == be10(in)
  ensures [result] r == z

func uint256.Int.SetBytes11(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 11
  ensures [value] #z == be11(in)
  ensures [result] r == z

func uint256.Int.SetBytes12(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 12
  ensures [value] #z == be12(in)
  ensures [result] r == z

func uint256.Int.SetBytes13(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 13
  ensures [value] #z == be13(in)
  ensures [result] r == z

func uint256.Int.SetBytes14(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 14
  ensures [value] #z == be14(in)
  ensures [result] r == z

func uint256.Int.SetBytes15(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 15
  ensures [value] #z == be15(in)
  ensures [result] r == z

func uint256.Int.SetBytes16(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 16
  ensures [value] #z == be16(in)
  ensures [result] r == z

func uint256.Int.SetBytes17(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 17
  ensures [value] #z == be17(in)
  ensures [result] r == z

func uint256.Int.SetBytes18(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 18
  ensures [value] #z == be18(in)
  ensures [result] r == z

func uint256.Int.SetBytes19(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 19
  ensures [value] #z == be19(in)
  ensures [result] r == z

func uint256.Int.SetBytes20(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 20
  ensures [value] #z == be20(in)
  ensures [result] r == z

func uint256.Int.SetBytes21(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 21
  ensures [value] #z == be21(in)
  ensures [result] r == z

func uint256.Int.SetBytes22(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 22
  ensures [value] #z == be22(in)
  ensures [result] r == z

func uint256.Int.SetBytes23(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 23
  ensures [value] #z == be23(in)
  ensures [result] r == z

func uint256.Int.SetBytes24(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 24
  ensures [value] #z == be24(in)
  ensures [result] r == z

func uint256.Int.SetBytes25(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 25
  ensures [value] #z == be25(in)
  ensures [result] r == z

func uint256.Int.SetBytes26(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 26
  ensures [value] #z == be26(in)
  ensures [result] r == z

func uint256.Int.SetBytes27(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 27
  ensures [value] #z == be27(in)
  ensures [result] r == z

func uint256.Int.SetBytes28(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 28
  ensures [value] #z == be28(in)
  ensures [result] r == z

func uint256.Int.SetBytes29(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 29
  ensures [value] #z == be29(in)
  ensures [result] r == z

func uint256.Int.SetBytes30(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 30
  ensures [value] #z == be30(in)
  ensures [result] r == z

func uint256.Int.SetBytes31(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 31
  ensures [value] #z == be31(in)
  ensures [result] r == z

func uint256.Int.SetBytes32(z, in) (r)
  mem heap
  modifies #z
  panics_if len(in) < 32
  ensures [value] #z == be32(in)
  ensures [result] r == z

func uint256.Int.Bytes32(z) (b)
  mem heap
  ensures [value] be32(b) == #z

func uint256.Int.Bytes20(z) (b)
  mem heap
  ensures [value] be20(b) == #z % 2^160

func uint256.Int.WriteToArray32(z, dest) ()
  mem heap
  modifies dest
  loop 1 unroll
  ensures [value] be32(dest) == #z

func uint256.Int.WriteToArray20(z, dest) ()
  mem heap
  modifies dest
  loop 1 unroll
  ensures [value] be20(dest) == #z % 2^160


// SetBytes reads at most the last 32 bytes
func uint256.Int.SetBytes(z, buf) (r)
  mem heap
  modifies #z
  ensures [result] r == z
  ensures [empty] len(buf) == 0 ==> #z == 0
  ensures [value1] len(buf) == 1 ==> #z == be1(buf, 0)
  ensures [value2] len(buf) == 2 ==> #z == be2(buf, 0)
  ensures [value3] len(buf) == 3 ==> #z == be3(buf, 0)
  ensures [value4] len(buf) == 4 ==> #z == be4(buf, 0)
  ensures [value5] len(buf) == 5 ==> #z == be5(buf, 0)
  ensures [value6] len(buf) == 6 ==> #z == be6(buf, 0)
  ensures [value7] len(buf) == 7 ==> #z == be7(buf, 0)
  ensures [value8] len(buf) == 8 ==> #z == be8(buf, 0)
  ensures [value9] len(buf) == 9 ==> #z == be9(buf)
  ensures [value10] len(buf) == 10 ==> #z == be10(buf)
  ensures [value11] len(buf) == 11 ==> #z == be11(buf)
  ensures [value12] len(buf) == 12 ==> #z == be12(buf)
  ensures [value13] len(buf) == 13 ==> #z == be13(buf)
  ensures [value14] len(buf) == 14 ==> #z == be14(buf)
  ensures [value15] len(buf) == 15 ==> #z == be15(buf)
  ensures [value16] len(buf) == 16 ==> #z == be16(buf)
  ensures [value17] len(buf) == 17 ==> #z == be17(buf)
  ensures [value18] len(buf) == 18 ==> #z == be18(buf)
  ensures [value19] len(buf) == 19 ==> #z == be19(buf)
  ensures [value20] len(buf) == 20 ==> #z == be20(buf)
  ensures [value21] len(buf) == 21 ==> #z == be21(buf)
  ensures [value22] len(buf) == 22 ==> #z == be22(buf)
  ensures [value23] len(buf) == 23 ==> #z == be23(buf)
  ensures [value24] len(buf) == 24 ==> #z == be24(buf)
  ensures [value25] len(buf) == 25 ==> #z == be25(buf)
  ensures [value26] len(buf) == 26 ==> #z == be26(buf)
  ensures [value27] len(buf) == 27 ==> #z == be27(buf)
  ensures [value28] len(buf) == 28 ==> #z == be28(buf)
  ensures [value29] len(buf) == 29 ==> #z == be29(buf)
  ensures [value30] len(buf) == 30 ==> #z == be30(buf)
  ensures [value31] len(buf) == 31 ==> #z == be31(buf)
  ensures [value32] len(buf) == 32 ==> #z == be32(buf)
  ensures [last] len(buf) > 32 ==> #z == be32at(buf, len(buf) - 32)

// the bytes of z from the least significant one, at most 32 of them
func uint256.Int.WriteToSlice(z, dest) ()
  mem heap
  modifies elems(dest)
  loop 1 unroll
  ensures [byte0] len(dest) > 0 ==> dest[min(len(dest), 32) - 1] == byte(#z, 31)
  ensures [byte1] len(dest) > 1 ==> dest[min(len(dest), 32) - 2] == byte(#z, 30)
  ensures [byte2] len(dest) > 2 ==> dest[min(len(dest), 32) - 3] == byte(#z, 29)
  ensures [byte3] len(dest) > 3 ==> dest[min(len(dest), 32) - 4] == byte(#z, 28)
  ensures [byte4] len(dest) > 4 ==> dest[min(len(dest), 32) - 5] == byte(#z, 27)
  ensures [byte5] len(dest) > 5 ==> dest[min(len(dest), 32) - 6] == byte(#z, 26)
  ensures [byte6] len(dest) > 6 ==> dest[min(len(dest), 32) - 7] == byte(#z, 25)
  ensures [byte7] len(dest) > 7 ==> dest[min(len(dest), 32) - 8] == byte(#z, 24)
  ensures [byte8] len(dest) > 8 ==> dest[min(len(dest), 32) - 9] == byte(#z, 23)
  ensures [byte9] len(dest) > 9 ==> dest[min(len(dest), 32) - 10] == byte(#z, 22)
  ensures [byte10] len(dest) > 10 ==> dest[min(len(dest), 32) - 11] == byte(#z, 21)
  ensures [byte11] len(dest) > 11 ==> dest[min(len(dest), 32) - 12] == byte(#z, 20)
  ensures [byte12] len(dest) > 12 ==> dest[min(len(dest), 32) - 13] == byte(#z, 19)
  ensures [byte13] len(dest) > 13 ==> dest[min(len(dest), 32) - 14] == byte(#z, 18)
  ensures [byte14] len(dest) > 14 ==> dest[min(len(dest), 32) - 15] == byte(#z, 17)
  ensures [byte15] len(dest) > 15 ==> dest[min(len(dest), 32) - 16] == byte(#z, 16)
  ensures [byte16] len(dest) > 16 ==> dest[min(len(dest), 32) - 17] == byte(#z, 15)
  ensures [byte17] len(dest) > 17 ==> dest[min(len(dest), 32) - 18] == byte(#z, 14)
  ensures [byte18] len(dest) > 18 ==> dest[min(len(dest), 32) - 19] == byte(#z, 13)
  ensures [byte19] len(dest) > 19 ==> dest[min(len(dest), 32) - 20] == byte(#z, 12)
  ensures [byte20] len(dest) > 20 ==> dest[min(len(dest), 32) - 21] == byte(#z, 11)
  ensures [byte21] len(dest) > 21 ==> dest[min(len(dest), 32) - 22] == byte(#z, 10)
  ensures [byte22] len(dest) > 22 ==> dest[min(len(dest), 32) - 23] == byte(#z, 9)
  ensures [byte23] len(dest) > 23 ==> dest[min(len(dest), 32) - 24] == byte(#z, 8)
  ensures [byte24] len(dest) > 24 ==> dest[min(len(dest), 32) - 25] == byte(#z, 7)
  ensures [byte25] len(dest) > 25 ==> dest[min(len(dest), 32) - 26] == byte(#z, 6)
  ensures [byte26] len(dest) > 26 ==> dest[min(len(dest), 32) - 27] == byte(#z, 5)
  ensures [byte27] len(dest) > 27 ==> dest[min(len(dest), 32) - 28] == byte(#z, 4)
  ensures [byte28] len(dest) > 28 ==> dest[min(len(dest), 32) - 29] == byte(#z, 3)
  ensures [byte29] len(dest) > 29 ==> dest[min(len(dest), 32) - 30] == byte(#z, 2)
  ensures [byte30] len(dest) > 30 ==> dest[min(len(dest), 32) - 31] == byte(#z, 1)
  ensures [byte31] len(dest) > 31 ==> dest[min(len(dest), 32) - 32] == byte(#z, 0)
  ensures [rest] forall j {dest[j]} :: 32 <= j && j < len(dest) ==> dest[j] == old(dest[j])

func uint256.Int.PaddedBytes(z, n) (b)
  mem heap
  requires [size] 0 <= n && n <= 2^30
  loop 1 unroll
  ensures [length] len(b) == n
  ensures [byte0] n > 0 ==> b[n - 1] == byte(#z, 31)
  ensures [byte1] n > 1 ==> b[n - 2] == byte(#z, 30)
  ensures [byte2] n > 2 ==> b[n - 3] == byte(#z, 29)
  ensures [byte3] n > 3 ==> b[n - 4] == byte(#z, 28)
  ensures [byte4] n > 4 ==> b[n - 5] == byte(#z, 27)
  ensures [byte5] n > 5 ==> b[n - 6] == byte(#z, 26)
  ensures [byte6] n > 6 ==> b[n - 7] == byte(#z, 25)
  ensures [byte7] n > 7 ==> b[n - 8] == byte(#z, 24)
  ensures [byte8] n > 8 ==> b[n - 9] == byte(#z, 23)
  ensures [byte9] n > 9 ==> b[n - 10] == byte(#z, 22)
  ensures [byte10] n > 10 ==> b[n - 11] == byte(#z, 21)
  ensures [byte11] n > 11 ==> b[n - 12] == byte(#z, 20)
  ensures [byte12] n > 12 ==> b[n - 13] == byte(#z, 19)
  ensures [byte13] n > 13 ==> b[n - 14] == byte(#z, 18)
  ensures [byte14] n > 14 ==> b[n - 15] == byte(#z, 17)
  ensures [byte15] n > 15 ==> b[n - 16] == byte(#z, 16)
  ensures [byte16] n > 16 ==> b[n - 17] == byte(#z, 15)
  ensures [byte17] n > 17 ==> b[n - 18] == byte(#z, 14)
  ensures [byte18] n > 18 ==> b[n - 19] == byte(#z, 13)
  ensures [byte19] n > 19 ==> b[n - 20] == byte(#z, 12)
  ensures [byte20] n > 20 ==> b[n - 21] == byte(#z, 11)
  ensures [byte21] n > 21 ==> b[n - 22] == byte(#z, 10)
  ensures [byte22] n > 22 ==> b[n - 23] == byte(#z, 9)
  ensures [byte23] n > 23 ==> b[n - 24] == byte(#z, 8)
  ensures [byte24] n > 24 ==> b[n - 25] == byte(#z, 7)
  ensures [byte25] n > 25 ==> b[n - 26] == byte(#z, 6)
  ensures [byte26] n > 26 ==> b[n - 27] == byte(#z, 5)
  ensures [byte27] n > 27 ==> b[n - 28] == byte(#z, 4)
  ensures [byte28] n > 28 ==> b[n - 29] == byte(#z, 3)
  ensures [byte29] n > 29 ==> b[n - 30] == byte(#z, 2)
  ensures [byte30] n > 30 ==> b[n - 31] == byte(#z, 1)
  ensures [byte31] n > 31 ==> b[n - 32] == byte(#z, 0)
  ensures [padding] forall j {b[j]} :: 0 <= j && j < n - 32 ==> b[j] == 0

func uint256.Int.Bytes(z) (b)
  mem heap
  ensures [length] len(b) <= 32 && (len(b) > 0 ==> b[0] > 0)

  ensures [value0] len(b) == 0 ==> #z == 0
  ensures [value1] len(b) == 1 ==> #z == be1(b, 0)
  ensures [value2] len(b) == 2 ==> #z == be2(b, 0)
  ensures [value3] len(b) == 3 ==> #z == be3(b, 0)
  ensures [value4] len(b) == 4 ==> #z == be4(b, 0)
  ensures [value5] len(b) == 5 ==> #z == be5(b, 0)
  ensures [value6] len(b) == 6 ==> #z == be6(b, 0)
  ensures [value7] len(b) == 7 ==> #z == be7(b, 0)
  ensures [value8] len(b) == 8 ==> #z == be8(b, 0)
  ensures [value9] len(b) == 9 ==> #z == be9(b)
  ensures [value10] len(b) == 10 ==> #z == be10(b)
  ensures [value11] len(b) == 11 ==> #z == be11(b)
  ensures [value12] len(b) == 12 ==> #z == be12(b)
  ensures [value13] len(b) == 13 ==> #z == be13(b)
  ensures [value14] len(b) == 14 ==> #z == be14(b)
  ensures [value15] len(b) == 15 ==> #z == be15(b)
  ensures [value16] len(b) == 16 ==> #z == be16(b)
  ensures [value17] len(b) == 17 ==> #z == be17(b)
  ensures [value18] len(b) == 18 ==> #z == be18(b)
  ensures [value19] len(b) == 19 ==> #z == be19(b)
  ensures [value20] len(b) == 20 ==> #z == be20(b)
  ensures [value21] len(b) == 21 ==> #z == be21(b)
  ensures [value22] len(b) == 22 ==> #z == be22(b)
  ensures [value23] len(b) == 23 ==> #z == be23(b)
  ensures [value24] len(b) == 24 ==> #z == be24(b)
  ensures [value25] len(b) == 25 ==> #z == be25(b)
  ensures [value26] len(b) == 26 ==> #z == be26(b)
  ensures [value27] len(b) == 27 ==> #z == be27(b)
  ensures [value28] len(b) == 28 ==> #z == be28(b)
  ensures [value29] len(b) == 29 ==> #z == be29(b)
  ensures [value30] len(b) == 30 ==> #z == be30(b)
  ensures [value31] len(b) == 31 ==> #z == be31(b)
  ensures [value32] len(b) == 32 ==> #z == be32(b)
