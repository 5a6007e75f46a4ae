// uint256: integer square root and exponentiation

// isqrt(x) is axiomatised by its definition
lemma sqrt_step(x, z, q)
  requires 0 < z && 0 <= q && q*z <= x && x < q*z + z && 0 <= x
  ensures x < ((z+q)/2 + 1)*((z+q)/2 + 1)
  proof {
    let m = (z+q)/2 + 1
    name t = m
    assert 2*t >= z + q + 1
    name u = 2*t - z - q - 1
    assert 0 <= u
    assert (z - q - 1)*(z - q - 1) >= 0 by { name e = z - q - 1; when e >= 0 { use mul_nonneg(e, e) }; when e < 0 { use mul_nonneg(0-e, 0-e) } }
    use mul_nonneg(z + q + 1, u)
    use mul_nonneg(u, u)
    assert 4*t*t == (z+q+1+u)*(z+q+1+u)
    assert 4*t*t >= 4*z*(q+1)
  }

func uint256.Int.Sqrt(z, x) (r)
  modifies #z
  ensures r == z
  ensures #z * #z <= old(#x)
  ensures old(#x) < (#z + 1) * (#z + 1)
  at uint256.Int.BitLen {
    let bl = $1
    let k = (bl + 1) / 2
    use pow2_mono(bl, 2*k)
    use pow2_mono(k, 128)
    use pow2_mono(0, k)
    use pow2_add(k, k)
  }
  loop 1
    invariant #z1 > 0 && #z1 <= 2^128
    invariant #x < (#z1+1)*(#z1+1)
    invariant #x == old(#x) && #x >= 2
    decreases #z1

