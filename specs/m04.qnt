// M04: one-step integrators and Newton's method, in 30-digit fixed point.
module m04 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  var n: int
  var kind: int          // 0 linear, 1 quadratic, 2 cubic in time (component 0 is time), 3 coupled sines
  var co: List[int]      // coefficients in eighths
  var x: List[int]       // state (fixed point)
  var exact: bool        // the last RK4 step of a cubic-in-time problem was the exact integral
  var out: List[Ev]

  pure def q8(c: int): int = c * SC / 8
  pure def vget(v: List[int], i: int): int = v[i % v.length()]
  pure def rhs(kd: int, nn: int, c: List[int], y: List[int]): List[int] =
    range(0, nn).foldl(List(), (l, i) => l.append(
      if (kd == 0 or kd == 1) {
        pure val lin = range(0, nn).foldl(q8(c[i]), (s, j) => s + c[nn + i * nn + j] * y[j] / 8)
        if (kd == 0) lin else lin + c[nn + nn * nn + i] * fmul(y[i], vget(y, i + 1)) / 8 }
      else if (kd == 2) (if (i == 0) SC else q8(c[4 * i]) + c[4 * i + 1] * y[0] / 8 + c[4 * i + 2] * fsq(y[0]) / 8 + c[4 * i + 3] * fmul(fsq(y[0]), y[0]) / 8)
      else (if (i % 2 == 0) vget(y, i + 1) else c[i] * fsin(y[i - 1]) / 8)))
  pure def axpy(y: List[int], h: int, k: List[int]): List[int] = range(0, y.length()).foldl(List(), (l, i) => l.append(y[i] + fmul(h, k[i])))
  pure def amax(v: List[int]): int = v.foldl(0, (m, t) => imax(m, iabs(t)))
  type Stage = { y: List[int], m: int }
  pure def rk4(kd: int, nn: int, c: List[int], y: List[int], h: int): Stage = {
    pure val k1 = rhs(kd, nn, c, y)
    pure val k2 = rhs(kd, nn, c, axpy(y, h / 2, k1))
    pure val k3 = rhs(kd, nn, c, axpy(y, h / 2, k2))
    pure val k4 = rhs(kd, nn, c, axpy(y, h, k3))
    { y: range(0, nn).foldl(List(), (l, i) => l.append(y[i] + fmul(h, k1[i] + 2 * k2[i] + 2 * k3[i] + k4[i]) / 6)),
      m: amax(y) + iabs(fmul(h, amax(k1) + 2 * amax(k2) + 2 * amax(k3) + amax(k4))) } }
  // how much one step can amplify rounding in its stages: (1 + |h| L)^3 with L a Lipschitz bound on the region visited
  pure def amplify(kd: int, nn: int, c: List[int], m: int, h: int): int = {
    pure val big = amax(c)
    pure val L = if (kd == 0) nn * big * SC / 8 else if (kd == 1) nn * big * SC / 8 + big * m / 4 else if (kd == 2) big * (SC + 2 * m + 3 * fsq(m)) / 8 else big * SC / 8 + SC
    pure val g = SC + fmul(iabs(h), L)
    fmul(fsq(g), g) }
  // the exact integral of component i of a cubic-in-time problem over [t, t + h]
  pure def integral(c: List[int], i: int, t: int, h: int): int = {
    pure def prim(s: int): int = fmul(q8(c[4 * i]), s) + c[4 * i + 1] * fsq(s) / 16 + c[4 * i + 2] * fmul(fsq(s), s) / 24 + c[4 * i + 3] * fsq(fsq(s)) / 32
    prim(t + h) - prim(t) }

  action init = all { n' = 1, kind' = 0, co' = [0, 0, 0], x' = [0], exact' = true, out' = [ev("prob", [1, 0, 3, 0, 0, 0, 0], List())] }
  action prob = {
    nondet s = 0.to(2^62).oneOf()
    val kd = pick(s, 1, [0, 1, 2, 2, 3])
    val nn = if (kd >= 2) pick(s, 2, [2, 3, 3, 4, 6]) else pick(s, 2, [1, 2, 3, 3, 4, 6])
    val c = rndList(s, 3, nn * (nn + 2), -12, 12)
    val y = rndList(s, 4, nn, -200, 200)
    all { n' = nn, kind' = kd, co' = c, exact' = true, x' = y.foldl(List(), (l, v) => l.append(v * SC / 64)),
      out' = [ev("prob", [nn, kd, c.length()].concat(c).concat(y), List())] }
  }
  action integrate = {
    nondet s = 0.to(2^62).oneOf()
    val d = pick(s, 1, [1, 1024, 2048, -1024, 0, rnd(s, 2, -700, 700), rnd(s, 3, 1, 200)])
    val h = d * SC / 1024
    val r = rk4(kind, n, co, x, h)
    val am = amplify(kind, n, co, r.m, h)
    all { r.m < 2000 * SC, am < 10^5 * SC, n' = n, kind' = kind, co' = co, x' = r.y,
      exact' = (kind != 2 or range(1, n).foldl(true, (b, i) => b and iabs(r.y[i] - x[i] - integral(co, i, x[0], h)) < 10^10)),
      out' = [ev("rk4", [d], [fmul(r.m, am)].concat(r.y))] }
  }
  action quad = {
    nondet s = 0.to(2^62).oneOf()
    nondet nn = Set(1, 2, 3, 4, 6).oneOf()
    val d = rnd(s, 1, -5000, 5000)
    val u = rndList(s, 2, nn, -3000, 3000)
    val w = rndList(s, 3, nn, -3000, 3000)
    all { n' = n, kind' = kind, co' = co, x' = x, exact' = true,
      out' = [ev("quad", [nn, d].concat(u).concat(w), lmap(u, t => t * d).concat(range(0, nn).foldl(List(), (l, i) => l.append((u[i] + w[i]) * d))))] }
  }

  // ---------------------------------------------------------------- Newton
  // problem kinds: 0 polynomial c, 1 exp(x) - c0/8, 2 cos(x) - c0 x/8
  type F = { f: int, d: int, dd: int, a: int }
  pure def poly(c: List[int], y: int): F =
    range(0, c.length()).foldl({ f: 0, d: 0, dd: 0, a: 0 }, (s, j) => {
      pure val k = c[c.length() - 1 - j]
      { dd: fmul(s.dd, y) + 2 * s.d, d: fmul(s.d, y) + s.f, f: fmul(s.f, y) + k * SC, a: fmul(s.a, iabs(y)) + iabs(k) * SC } })
  pure def fun(kd: int, c: List[int], y: int): F =
    if (kd == 0) poly(c, y)
    else if (kd == 1) { pure val e = fexp(y) { f: e - q8(c[0]), d: e, dd: e, a: e + iabs(q8(c[0])) } }
    else { pure val cs = fcos(y) pure val sn = fsin(y) { f: cs - c[0] * y / 8, d: -sn - q8(c[0]), dd: -cs, a: SC + iabs(c[0] * y / 8) } }
  // st: 0 running 1 converged 2 vanishing derivative 9 too close to call
  type It = { y: int, e: int, st: int }
  pure def iter(kd: int, c: List[int], tol: int, s: It, first: bool): It =
    if (s.st != 0) s else {
      pure val g = fun(kd, c, s.y)
      if (g.d == 0 and first) { ...s, st: 2 }
      else if (iabs(g.d) * 10^6 < g.a + SC) { ...s, st: 9 }
      else {
        pure val stp = fdv(g.f, g.d)
        pure val y2 = s.y - stp
        pure val amp = iabs(fdv(fmul(fdv(g.f, g.d), g.dd), g.d))
        pure val e2 = fmul(amp, s.e) + (iabs(s.y) + iabs(y2) + fdv(g.a, iabs(g.d))) / 2^49
        if (iabs(y2) > 50 * SC or amp > 1000 * SC) { y: y2, e: e2, st: 9 }
        else if (tol <= 0) { y: y2, e: e2, st: 0 }
        else if (e2 * 100 > tol or (iabs(stp) * 2 > tol and iabs(stp) < 2 * tol)) { y: y2, e: e2, st: 9 }
        else { y: y2, e: e2, st: if (iabs(stp) < tol) 1 else 0 } } }
  action newton = {
    nondet s = 0.to(2^62).oneOf()
    val kd = pick(s, 1, [0, 0, 0, 0, 1, 2])
    val a = rnd(s, 2, -6, 6)
    val b = rnd(s, 3, -6, 6)
    val c0 = rndList(s, 4, rnd(s, 5, 2, 5), -9, 9)
    val c = if (kd != 0) [1 + iabs(a)] else pick(s, 6, [0, 1, 2, 3]).in(Set(0, 1)).tl(c0, a, b, s)
    val g = pick(s, 7, [0, rnd(s, 8, -5, 5) * 1024, rnd(s, 8, -5, 5) * 1024, rnd(s, 9, -6000, 6000), rnd(s, 9, -6000, 6000)])
    val te = pick(s, 10, [1, 2, 3, 4, 5, 6, 8, 10, 0, -1])
    val tol = if (te > 0) SC / 10^te else te * SC
    val mx = pick(s, 11, [0, 1, 2, 3, 4, 5, 6, 8, 10, 15, 20, 25])
    val r = range(0, mx).foldl({ y: g * SC / 1024, e: 0, st: 0 }, (q, i) => iter(kd, c, tol, q, i == 0))
    val verdict = if (tol <= 0) 0 else if (r.st == 9) -1 else if (r.st == 1) 1 else 0
    all { n' = n, kind' = kind, co' = co, x' = x, exact' = true,
      out' = [ev("newton", [kd, c.length()].concat(c).concat([g, te, mx]), [verdict, r.y, r.e])] }
  }
  // random polynomial, or one with a chosen (sometimes double) root
  pure def tl(plain: bool, c0: List[int], a: int, b: int, s: int): List[int] =
    if (plain) (if (c0[c0.length() - 1] == 0) c0.replaceAt(c0.length() - 1, 1) else c0)
    else if (hh(s, 12) % 2 == 0) [a * a, -2 * a, 1]
    else [-a * a * b, a * a + 2 * a * b, -(2 * a + b), 1]
  action step = any { prob, integrate, integrate, integrate, quad, newton, newton, newton }
  val inv = exact and x.length() == n
}
