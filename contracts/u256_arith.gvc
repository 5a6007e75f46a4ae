// uint256: addition, subtraction, multiplication, negation. '#p' is the value
// (0 <= #p < 2^256) of the 256-bit integer p points to.
define W = 2^64
define T256 = 2^256
define abs256(a) = ite(isneg(a), neg256(a), a)

func uint256.NewInt(val) (r)
  fresh r
  ensures #r == val

func uint256.Int.Set(z, x) (r)
  modifies #z
  ensures r == z
  ensures #z == old(#x)

func uint256.Int.Clone(z) (r)
  fresh r
  ensures #r == old(#z)

func uint256.Int.Clear(z) (r)
  modifies #z
  ensures r == z
  ensures #z == 0
func uint256.Int.SetAllOne(z) (r)
  modifies #z
  ensures r == z
  ensures #z == 2^256 - 1
func uint256.Int.SetOne(z) (r)
  modifies #z
  ensures r == z
  ensures #z == 1
func uint256.Int.SetUint64(z, x) (r)
  modifies #z
  ensures r == z
  ensures #z == x

func uint256.Int.Add(z, x, y) (r)
  modifies #z
  ensures r == z
  ensures #z == add256(old(#x), old(#y))

func uint256.Int.AddOverflow(z, x, y) (r, o)
  modifies #z
  ensures r == z
  ensures #z == add256(old(#x), old(#y))
  ensures o <==> old(#x) + old(#y) >= T256

func uint256.Int.AddUint64(z, x, y) (r)
  modifies #z
  ensures r == z
  ensures #z == add256(old(#x), y)

func uint256.Int.Sub(z, x, y) (r)
  modifies #z
  ensures r == z
  ensures #z == sub256(old(#x), old(#y))

func uint256.Int.SubOverflow(z, x, y) (r, o)
  modifies #z
  ensures r == z
  ensures #z == sub256(old(#x), old(#y))
  ensures o <==> old(#x) < old(#y)

func uint256.Int.SubUint64(z, x, y) (r)
  modifies #z
  ensures r == z
  ensures #z == sub256(old(#x), y)

func uint256.Int.Neg(z, x) (r)
  modifies #z
  ensures r == z
  ensures #z == neg256(old(#x))

func uint256.Int.Abs(z, x) (r)
  modifies #z
  ensures r == z
  ensures #z == ite(isneg(old(#x)), neg256(old(#x)), old(#x))

func uint256.UmulStep(z, x, y, carry) (hi, lo)
  ensures hi*W + lo == z + x*y + carry

func uint256.UmulHop(z, x, y) (hi, lo)
  ensures hi*W + lo == z + x*y

func uint256.Umul(x, y) (r)
  opt alias = pure
  ensures val(r) == #x * #y

func uint256.Int.Mul(z, x, y) (r)
  modifies #z
  ensures r == z
  ensures #z == mul256(old(#x), old(#y))

func uint256.Int.MulOverflow(z, x, y) (r, o)
  modifies #z
  ensures r == z
  ensures #z == mul256(old(#x), old(#y))
  ensures o <==> old(#x) * old(#y) >= T256

func uint256.Int.squared(z)
  modifies #z
  ensures #z == mul256(old(#z), old(#z))
