// Exact-enough real arithmetic for the numeric oracles: fixed point with 30 decimal digits
// (errors around 1e-28), so that a comparison with f64 at 1e-12 .. 1e-9 is decided by the
// implementation's error, not by the oracle's.
module fx {
  import lib.* from "./lib"
  pure val SC = 10^30
  pure val PI = 3141592653589793238462643383280
  pure val TWOPI = 6283185307179586476925286766559
  pure val HALFPI = 1570796326794896619231321691640
  pure val LN2 = 693147180559945309417232121458
  pure def fmul(a: int, b: int): int = a * b / SC
  pure def fq(n: int, d: int): int = if (d < 0) (-n) * SC / (-d) else n * SC / d      // n/d
  pure def fdv(a: int, b: int): int = if (b < 0) (-a) * SC / (-b) else a * SC / b
  pure def fsqrt(a: int): int = isqrt(a * SC)
  pure def fsq(a: int): int = a * a / SC
  // Taylor series of sin and cos for |x| <= pi/4
  pure def tsin(x: int): int = {
    pure val x2 = fsq(x)
    range(1, 14).foldl({ t: x, s: x }, (a, k) => {
      pure val t = -(a.t * x2 / SC) / (2 * k * (2 * k + 1))
      { t: t, s: a.s + t } }).s
  }
  pure def tcos(x: int): int = {
    pure val x2 = fsq(x)
    range(1, 14).foldl({ t: SC, s: SC }, (a, k) => {
      pure val t = -(a.t * x2 / SC) / (2 * k * (2 * k - 1))
      { t: t, s: a.s + t } }).s
  }
  pure def fsin(x: int): int = {
    pure val q = rdiv(x, HALFPI)
    pure val r = x - rdiv(q * PI, 2)
    pure val m = fmod(q, 4)
    if (m == 0) tsin(r) else if (m == 1) tcos(r) else if (m == 2) -tsin(r) else -tcos(r)
  }
  pure def fcos(x: int): int = {
    pure val q = rdiv(x, HALFPI)
    pure val r = x - rdiv(q * PI, 2)
    pure val m = fmod(q, 4)
    if (m == 0) tcos(r) else if (m == 1) -tsin(r) else if (m == 2) -tcos(r) else tsin(r)
  }
  pure def ftan(x: int): int = fdv(fsin(x), fcos(x))
  pure def fexp(x: int): int = {
    pure val k = rdiv(x, LN2)
    pure val r = x - k * LN2
    pure val e = range(1, 24).foldl({ t: SC, s: SC }, (a, n) => { pure val t = a.t * r / SC / n { t: t, s: a.s + t } }).s
    if (k >= 0) e * 2^k else e / 2^(-k)
  }
  pure def fln(x: int): int = {
    // x = m 2^k with m in [0.7, 1.4]
    pure val k0 = bits(x) - bits(SC)
    pure val m0 = if (k0 >= 0) x / 2^k0 else x * 2^(-k0)
    pure val k = if (m0 > SC * 14 / 10) k0 + 1 else if (m0 * 10 < SC * 7) k0 - 1 else k0
    pure val m = if (k >= 0) x / 2^k else x * 2^(-k)
    pure val z = fdv(m - SC, m + SC)
    pure val z2 = fsq(z)
    pure val s = range(1, 22).foldl({ t: z, s: z }, (a, n) => { pure val t = a.t * z2 / SC { t: t, s: a.s + t / (2 * n + 1) } }).s
    2 * s + k * LN2
  }
  pure def fpow(b: int, e: int): int = fexp(fmul(e, fln(b)))
  // atan of t in [0, 1] by two half-angle reductions and the series
  pure def atan01(t: int): int = {
    pure val t1 = fdv(t, SC + fsqrt(SC + fsq(t)))
    pure val t2 = fdv(t1, SC + fsqrt(SC + fsq(t1)))
    pure val z2 = fsq(t2)
    pure val s = range(1, 24).foldl({ t: t2, s: t2 }, (a, n) => { pure val u = -(a.t * z2 / SC) { t: u, s: a.s + u / (2 * n + 1) } }).s
    4 * s
  }
  // four-quadrant arc tangent of (y, x), any common scale
  pure def fatan2(y: int, x: int): int = {
    pure val ay = iabs(y)
    pure val ax = iabs(x)
    pure val a = if (ax == 0 and ay == 0) 0 else if (ay <= ax) atan01(fdv(ay, ax)) else HALFPI - atan01(fdv(ax, ay))
    pure val b = if (x < 0) PI - a else a
    if (y < 0) -b else b
  }
  pure def fasin(x: int): int = fatan2(x, fsqrt(SC - fsq(x)))
  pure def facos(x: int): int = fatan2(fsqrt(SC - fsq(x)), x)
}
