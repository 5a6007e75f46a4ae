// Conversions between uint256.Int and math/big.Int (the methods of math/big
// are external: their documented meaning is assumed).
func uint256.Int.ToBig(z) (b)
  fresh b
  ensures [value] #b == #z

func uint256.Int.SToBig(z) (b)
  fresh b
  ensures [value] #b == ite(#z < 2^255, #z, #z - 2^256)

func uint256.Int.SetFromBig(z, b) (overflow)
  modifies #z
  ensures [overflow] overflow == (abs(#b) >= 2^256)
  ensures [value] #z == #b % 2^256

func uint256.FromBig(b) (z, overflow)
  fresh z
  ensures [overflow] overflow == (abs(#b) >= 2^256)
  ensures [value] #z == #b % 2^256
