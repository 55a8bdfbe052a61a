// N01: the scalar layer (trait Real).  The state is a register holding the exact dyadic rational n / 2^k;
// every operation of the trait is either exact on such numbers (rounding family, sign family, min/max,
// integer powers, casts) or is compared with its value to 30 decimals.
module n01 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  var n: int
  var k: int
  var out: List[Ev]
  pure def trunc0(x: int, d: int): int = if (x < 0) -((-x) / d) else x / d
  pure def rnd0(x: int, d: int): int = if (x < 0) -((2 * (-x) + d) / (2 * d)) else (2 * x + d) / (2 * d)   // half away from zero
  pure def ceil0(x: int, d: int): int = -fdiv(-x, d)
  // nearest integer multiple of 2^-? with p significant bits, ties to even
  pure def toBits(x: int, p: int): int = {
    pure val a = iabs(x)
    pure val b = bits(a)
    if (b <= p) x else {
      pure val u = 2^(b - p)
      pure val q = a / u
      pure val r = a % u
      pure val m = if (2 * r > u or (2 * r == u and q % 2 == 1)) q + 1 else q
      if (x < 0) -(m * u) else m * u
    }
  }
  pure def reduce(x: int, j: int): (int, int) = range(0, j).foldl((x, j), (a, _i) => if (a._2 > 0 and a._1 % 2 == 0) (a._1 / 2, a._2 - 1) else a)
  // special values: 0 +0, 1 -0, 2 1, 3 -1, 4 inf, 5 -inf, 6 NaN, 7 pi, 8 -pi, 9 pi/2, 10 -pi/2, 11 1/2, 12 -1/2, 13 2, 14 -2
  // [operation, first, second, result]
  pure val SPECIAL: List[List[int]] = [
    [0, 6, 2, 2], [0, 2, 6, 2], [0, 6, 6, 6], [0, 4, 2, 2], [0, 5, 2, 5], [0, 3, 2, 3], [0, 2, 3, 3], [0, 6, 5, 5],
    [1, 6, 2, 2], [1, 2, 6, 2], [1, 6, 6, 6], [1, 4, 2, 4], [1, 5, 2, 2], [1, 3, 2, 2], [1, 2, 3, 2], [1, 6, 4, 4],
    [2, 2, 1, 3], [2, 3, 0, 2], [2, 0, 3, 1], [2, 4, 3, 5], [2, 14, 4, 13], [2, 13, 5, 14],
    [3, 0, 3, 7], [3, 1, 3, 8], [3, 0, 2, 0], [3, 1, 2, 1], [3, 2, 0, 9], [3, 3, 0, 10], [3, 2, 1, 9], [3, 0, 1, 7], [3, 0, 0, 0], [3, 4, 2, 9], [3, 2, 4, 0], [3, 2, 5, 7], [3, 3, 5, 8], [3, 6, 2, 6],
    [4, 0, 0, 0], [4, 1, 0, 1], [4, 3, 0, 6], [4, 4, 0, 4], [4, 5, 0, 6], [4, 2, 0, 2], [4, 6, 0, 6],
    [5, 0, 0, 5], [5, 1, 0, 5], [5, 3, 0, 6], [5, 4, 0, 4], [5, 2, 0, 0],
    [6, 5, 0, 0], [6, 4, 0, 4], [6, 0, 0, 2], [6, 1, 0, 2], [6, 6, 0, 6],
    [7, 1, 0, 1], [7, 0, 0, 0], [7, 4, 0, 4], [7, 5, 0, 5], [7, 6, 0, 6], [7, 12, 0, 3], [7, 11, 0, 0],
    [8, 12, 0, 1], [8, 11, 0, 2], [8, 4, 0, 4], [8, 5, 0, 5], [8, 1, 0, 1], [8, 6, 0, 6],
    [9, 11, 0, 2], [9, 12, 0, 3], [9, 4, 0, 4], [9, 5, 0, 5], [9, 6, 0, 6], [9, 0, 0, 0],
    [10, 12, 0, 1], [10, 11, 0, 0], [10, 4, 0, 4], [10, 5, 0, 5], [10, 6, 0, 6],
    [11, 0, 0, 2], [11, 1, 0, 3], [11, 4, 0, 2], [11, 5, 0, 3], [11, 6, 0, 6], [11, 12, 0, 3],
    [12, 1, 0, 0], [12, 5, 0, 4], [12, 6, 0, 6], [12, 14, 0, 13],
    [13, 0, 0, 2], [13, 6, 0, 2], [13, 2, 6, 2], [13, 3, 11, 6], [13, 4, 3, 0], [13, 0, 3, 4], [13, 4, 2, 4], [13, 13, 5, 0], [13, 11, 5, 4], [13, 2, 4, 2],
    [14, 0, 0, 2], [14, 2, 0, 13], [14, 3, 0, 11], [14, 5, 0, 0], [14, 4, 0, 4], [14, 6, 0, 6],
    [15, 2, 0, 0], [15, 13, 0, 2], [15, 11, 0, 3], [15, 0, 0, 5], [15, 3, 0, 6], [15, 4, 0, 4],
    [16, 2, 0, 0], [16, 0, 0, 5], [16, 3, 0, 6], [16, 4, 0, 4],
    [17, 4, 0, 9], [17, 5, 0, 10], [17, 0, 0, 0], [17, 1, 0, 1], [17, 6, 0, 6],
    [18, 2, 0, 9], [18, 3, 0, 10], [18, 13, 0, 6], [18, 14, 0, 6], [18, 0, 0, 0],
    [19, 2, 0, 0], [19, 3, 0, 7], [19, 0, 0, 9], [19, 13, 0, 6], [19, 14, 0, 6],
    [20, 0, 0, 0], [20, 1, 0, 1], [20, 4, 0, 6], [20, 6, 0, 6], [21, 0, 0, 2], [21, 5, 0, 6], [22, 0, 0, 0], [22, 1, 0, 1], [22, 4, 0, 6],
    [23, 0, 0, 0], [23, 11, 0, 11], [23, 12, 0, 12], [23, 6, 0, 6]
  ]
  pure def small(s: int): (int, int) = {
    pure val kk = pick(s, 901, [0, 0, 1, 2, 4])
    reduce(pick(s, 902, [0, 1, -1, 2, -3, rnd(s, 903, -40, 40), rnd(s, 904, -1023, 1023), rnd(s, 905, -1023, 1023)]), kk)
  }
  pure def wide(s: int): (int, int) = {
    pure val kk = pick(s, 911, [0, 3, 7, 12])
    reduce(pick(s, 912, [rnd(s, 913, -1000, 1000), rnd(s, 914, -8388607, 8388607), rnd(s, 915, -65536, 65536)]), kk)
  }
  pure def epow(x: int, e: int): int = if (e == 0) 1 else x^e
  pure def fxv(p: (int, int)): int = p._1 * SC / 2^p._2

  action init = all { n' = 3, k' = 1, out' = [ev("load", [3, 1], [])] }
  action load = {
    nondet s = 0.to(2^62).oneOf()
    val x = small(s)
    all { n' = x._1, k' = x._2, out' = [ev("load", [x._1, x._2], [])] }
  }
  // one exact operation applied to the register; the register must equal the exact value afterwards
  action apply = {
    nondet s = 0.to(2^62).oneOf()
    val o = hh(s, 1) % 16
    val d = 2^k
    val y = small(s)
    // second operand over the common denominator
    val kk = imax(k, y._2)
    val a = n * 2^(kk - k)
    val b = y._1 * 2^(kk - y._2)
    val r =
      if (o == 0) (fdiv(n, d), 0) else if (o == 1) (ceil0(n, d), 0) else if (o == 2) (rnd0(n, d), 0) else if (o == 3) (trunc0(n, d), 0)
      else if (o == 4) reduce(n - trunc0(n, d) * d, k) else if (o == 5) (iabs(n), k) else if (o == 6) (-n, k)
      else if (o == 7) reduce(imin(a, b), kk) else if (o == 8) reduce(imax(a, b), kk)
      else if (o == 9) (if (b < 0) -iabs(n) else iabs(n), k)
      else if (o == 10) (if (n < 0) -1 else 1, 0)
      else if (o == 11) reduce(a + b, kk) else if (o == 12) reduce(a - b, kk)
      else if (o == 13) reduce(n * y._1, k + y._2)
      else if (o == 14) (n * n, 2 * k)
      else reduce(n, k + 1)
    all {
      iabs(r._1) <= 1023, r._2 <= 8,
      // the signum, copysign and quotient of an exact zero depend on its sign, which the register does not model
      not(o == 10 and n == 0), not(o == 9 and y._1 == 0),
      n' = r._1, k' = r._2, out' = [ev("apply", [o, y._1, y._2], [r._1, r._2])]
    }
  }
  action special = {
    nondet i = 0.to(SPECIAL.length() - 1).oneOf()
    val q = SPECIAL[i]
    all { n' = n, k' = k, out' = [ev("special", [q[0], q[1], q[2]], [q[3]])] }
  }
  action rounding = {
    nondet s = 0.to(2^62).oneOf()
    val x = wide(s)
    val d = 2^x._2
    val v = x._1
    all { n' = n, k' = k, out' = [ev("round", [v, x._2], [fdiv(v, d), ceil0(v, d), rnd0(v, d), trunc0(v, d), v - trunc0(v, d) * d, iabs(v)])] }
  }
  action trig = {
    nondet s = 0.to(2^62).oneOf()
    val x = if (hh(s, 1) % 2 == 0) small(s) else (rnd(s, 2, -100000, 100000), 12)
    val y = small(s + 1)
    val f = fxv(x)
    val co = fcos(f)
    val u = (rnd(s, 3, -1024, 1024), 10)          // in [-1, 1]
    all { n' = n, k' = k, out' = [
      ev("trig", [x._1, x._2], [fsin(f), co, if (iabs(co) * 50 > SC) 1 else 0, if (iabs(co) * 50 > SC) fdv(fsin(f), co) else 0, fatan2(f, SC)]),
      ev("arc", [u._1, u._2], [fasin(fxv(u)), facos(fxv(u))]),
      if (x._1 == 0 and y._1 == 0) ev("deg", [x._1, x._2], [0, 0])
      else ev("atan2", [x._1, x._2, y._1, y._2], [fatan2(f, fxv(y))]),
      ev("deg", [x._1, x._2], [fdv(180 * f, PI), fmul(f, PI) / 180])] }
  }
  action expo = {
    nondet s = 0.to(2^62).oneOf()
    val x = reduce(rnd(s, 1, -2500, 2500), 8)
    val p = reduce(pick(s, 2, [1, 2, 3, 10, 100, 1000, 1024, rnd(s, 3, 1, 1023), rnd(s, 4, 1, 8388607)]), pick(s, 5, [0, 4, 8]))
    val e = reduce(rnd(s, 6, -200, 200), 6)
    val q = reduce(rnd(s, 7, 1, 1023), 6)
    val LN10 = 2302585092994045684017991454684
    all { n' = n, k' = k, out' = [
      ev("exp", [x._1, x._2], [fexp(fxv(x)), fexp(fmul(fxv(x), LN2))]),
      ev("log", [p._1, p._2], [fln(fxv(p)), fdv(fln(fxv(p)), LN2), fdv(fln(fxv(p)), LN10)]),
      ev("powf", [q._1, q._2, e._1, e._2], [fexp(fmul(fxv(e), fln(fxv(q))))]),
      ev("sqrt", [p._1, p._2], [fsqrt(fxv(p))])] }
  }
  // powers that are exact
  action powi = {
    nondet s = 0.to(2^62).oneOf()
    val b = pick(s, 1, [2, -2, 3, -3, 5, -5, 7, 10, -10, 1, -1, 0])
    val j = hh(s, 2) % 3                       // base b / 2^j
    val e = if (b == 0 or iabs(b) > 2) hh(s, 3) % 7 else rnd(s, 4, -9, 12)
    val r2 = pick(s, 5, [0, 1, 2, 3, 12, 31, 100, 1000])
    all { n' = n, k' = k, out' = [
      if (e >= 0) ev("powi", [b, j, e], [epow(b, e), 1, j * e])
      else ev("powi", [b, j, e], [epow(2, -j * e), epow(b, -e), 0]),
      ev("square", [r2], [r2 * r2])] }
  }
  // powers of units, twos and halves for any exponent: sign and binary exponent of the result
  action powx = {
    nondet s = 0.to(2^62).oneOf()
    val c = hh(s, 1) % 3                       // base 1, 2, 1/2
    val neg = hh(s, 2) % 2
    val e = if (c > 0) rnd(s, 3, -1000, 1000)
      else pick(s, 4, [2^24 + 1, -(2^24) - 1, 2^24, 2^30 + 1, 2^31 - 1, -(2^31), -(2^31) + 1, rnd(s, 5, -(2^31), 2^31 - 1), rnd(s, 6, -50, 50), rnd(s, 7, 2^24, 2^26)])
    all { n' = n, k' = k, out' = [ev("powx", [neg, c, e], [if (neg == 1 and e % 2 != 0) -1 else 1, if (c == 0) 0 else if (c == 1) e else -e])] }
  }
  action cast = {
    nondet s = 0.to(2^62).oneOf()
    val u = pick(s, 1, [0, 1, 4294967295, 4294967294, 2147483648, 16777215, 16777216, 16777217, 16777219, 33554433, 33554435, rnd(s, 2, 0, 4294967295), rnd(s, 3, 0, 4294967295)])
    val z = pick(s, 4, [0, 2^53 + 1, 2^53 + 3, 2^54 + 2, 2^63, 2^64 - 1, 2^64 - 1025, 2^24 + 1, rnd(s, 5, 0, 2^64 - 1), rnd(s, 6, 0, 2^55)])
    val m = rnd(s, 7, -(2^53) + 1, 2^53 - 1)
    val sh = rnd(s, 8, 0, 60)
    all { n' = n, k' = k, out' = [
      ev("u32", [u], [toBits(u, 24), u]),
      ev("usize", [z], [toBits(z, 24), toBits(z, 53)]),
      ev("narrow", [m, sh], [toBits(m, 24), m])] }
  }
  action step = any { load, apply, apply, apply, special, special, rounding, trig, expo, powi, powx, cast }
  val inv = and {
    iabs(n) <= 1023, k >= 0, k <= 8,
    // exact rounding laws on the register
    fdiv(n, 2^k) <= ceil0(n, 2^k), ceil0(n, 2^k) - fdiv(n, 2^k) <= 1, iabs(trunc0(n, 2^k)) <= iabs(rnd0(n, 2^k)),
    2 * iabs(rnd0(n, 2^k) * 2^k - n) <= 2^k
  }
}
