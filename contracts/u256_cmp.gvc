func uint256.Int.Uint64(z) (r)
  ensures r == lo64(#z)
func uint256.Int.Uint64WithOverflow(z) (r, o)
  ensures r == lo64(#z)
  ensures o <==> #z >= 2^64
func uint256.Int.IsUint64(z) (r)
  ensures r <==> #z < 2^64
func uint256.Int.IsZero(z) (r)
  ensures r <==> #z == 0
func uint256.Int.Eq(z, x) (r)
  ensures r <==> #z == #x
func uint256.Int.Lt(z, x) (r)
  ensures r <==> #z < #x
func uint256.Int.Gt(z, x) (r)
  ensures r <==> #z > #x
func uint256.Int.Cmp(z, x) (r)
  ensures r == ite(#z < #x, -1, ite(#z == #x, 0, 1))
func uint256.Int.LtUint64(z, n) (r)
  ensures r <==> #z < n
func uint256.Int.GtUint64(z, n) (r)
  ensures r <==> #z > n
func uint256.Int.Sign(z) (r)
  ensures r == ite(#z == 0, 0, ite(isneg(#z), -1, 1))
func uint256.Int.Slt(z, x) (r)
  ensures r <==> sgn(#z) < sgn(#x)
func uint256.Int.Sgt(z, x) (r)
  ensures r <==> sgn(#z) > sgn(#x)
