// I01: linear interpolation, barycentric polynomials and natural cubic splines.
// Knots and data are integers (times a power of two applied on both sides), so that the
// interpolating polynomial is an exact rational and the spline's tridiagonal system is
// solved in 30-digit fixed point.
module i01 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  var px: List[int]      // knots and data of the polynomial interpolant (empty: none)
  var py: List[int]
  var sx: List[int]      // knots, data and second derivatives (fixed point) of the spline
  var sy: List[int]
  var sm: List[int]
  var sr: int            // largest magnitude entering the right-hand sides (rounding scale)
  var out: List[Ev]

  pure def cube(a: int): int = fmul(fsq(a), a)
  pure def increasing(x: List[int]): bool = range(1, x.length()).foldl(true, (b, i) => b and x[i] > x[i - 1])
  pure def distinct(x: List[int]): bool =
    range(0, x.length()).foldl(true, (b, i) => b and range(0, i).foldl(true, (c, j) => c and x[i] != x[j]))

  // ------------------------------------------------------------- polynomial
  // value at q/2^m of the polynomial through (x, y), and the rounding scale of the barycentric form
  type PV = { v: int, a: int, l: int }
  pure def lag(x: List[int], y: List[int], q: int, m: int): PV = {
    pure val dn = 2^m
    range(0, x.length()).foldl({ v: 0, a: 0, l: 0 }, (s, i) => {
      pure val fr = range(0, x.length()).foldl({ n: 1, d: 1 }, (f, j) =>
        if (j == i) f else { n: f.n * (q - dn * x[j]), d: f.d * dn * (x[i] - x[j]) })
      pure val li = fq(fr.n, fr.d)
      { v: s.v + li * y[i], a: s.a + iabs(li * y[i]), l: s.l + iabs(li) } }) }

  // ----------------------------------------------------------------- spline
  // natural spline: h0 M0 + 2 (h0 + h1) M1 + h1 M2 = 6 (d1 - d0), M = 0 at both ends (Thomas algorithm)
  pure def second(x: List[int], y: List[int]): List[int] = {
    pure val n = x.length()
    pure val f = range(1, n - 1).foldl({ c: [0], d: [0] }, (s, i) => {
      pure val h0 = x[i] - x[i - 1]
      pure val h1 = x[i + 1] - x[i]
      pure val r = 6 * (fq(y[i + 1] - y[i], h1) - fq(y[i] - y[i - 1], h0))
      pure val b = 2 * (h0 + h1) * SC - h0 * s.c[i - 1]
      { c: s.c.append(fdv(h1 * SC, b)), d: s.d.append(fdv(r - h0 * s.d[i - 1], b)) } })
    pure val back = range(2, n).foldl([0], (l, k) => List(f.d[n - k] - fmul(f.c[n - k], l[0])).concat(l))
    List(0).concat(back) }
  pure def rscale(x: List[int], y: List[int]): int =
    range(1, x.length() - 1).foldl(0, (s, i) => {
      pure val h0 = x[i] - x[i - 1]
      pure val h1 = x[i + 1] - x[i]
      imax(s, 6 * (fq(iabs(y[i + 1]) + iabs(y[i]), h1) + fq(iabs(y[i]) + iabs(y[i - 1]), h0)) / (h0 + h1)) })
  pure def seg(x: List[int], q: int, m: int): int =
    range(1, x.length() - 1).foldl(0, (s, i) => if (q >= x[i] * 2^m) i else s)
  type SV = { v: int, a: int }
  pure def sval(x: List[int], y: List[int], mm: List[int], rs: int, q: int, m: int): SV = {
    pure val i = seg(x, q, m)
    pure val h = x[i + 1] - x[i]
    pure val a = fq(x[i + 1] * 2^m - q, h * 2^m)
    pure val b = SC - a
    { v: a * y[i] + b * y[i + 1] + (fmul(cube(a) - a, mm[i]) + fmul(cube(b) - b, mm[i + 1])) * h * h / 6,
      a: iabs(a * y[i]) + iabs(b * y[i + 1]) + fmul(cube(iabs(a)) + iabs(a) + cube(iabs(b)) + iabs(b), rs) * h * h / 6 } }

  // ---------------------------------------------------------------- actions
  pure def knots(s: int, n: int, sorted: bool): List[int] = {
    pure val spread = pick(s, 90, [3, 5, 20, 200])
    pure val base = pick(s, 91, [0, 0, -7, 1000, -100000, rnd(s, 92, -500, 500)])
    pure val inc = range(1, n).foldl([base], (l, k) => l.append(l[k - 1] + rnd(s, 100 + k, 1, spread)))
    if (sorted) inc
    // a permutation: repeatedly swap
    else range(0, n).foldl(inc, (l, k) => {
      pure val j = hh(s, 200 + k) % n
      l.replaceAt(k, l[j]).replaceAt(j, l[k]) }) }
  pure def pdata(s: int, x: List[int]): List[int] = {
    pure val kd = hh(s, 300) % 4
    if (kd == 0) lmap(x, t => rnd(s, 301, -9, 9) * (t - x[0]) + rnd(s, 302, -50, 50))      // straight line
    else if (kd == 1) lmap(x, t => (t - x[0]) * (t - x[0]) - rnd(s, 302, -50, 50))           // parabola
    else rndList(s, 303, x.length(), -1000, 1000) }
  pure def query(s: int, x: List[int], m: int): int = {
    pure val n = x.length()
    pure val i = hh(s, 400) % n
    pure val lo = x.foldl(x[0], (a, b) => imin(a, b))
    pure val hi = x.foldl(x[0], (a, b) => imax(a, b))
    pure val k = hh(s, 401) % 8
    if (k == 0) x[i] * 2^m
    else if (k == 1) x[i] * 2^m + 1
    else if (k == 2) x[i] * 2^m - 1
    else if (k == 3) (x[i] + x[(i + 1) % n]) * 2^m / 2
    else if (k == 4) hi * 2^m + rnd(s, 402, 0, 3 * 2^m)
    else if (k == 5) lo * 2^m - rnd(s, 402, 0, 3 * 2^m)
    else rnd(s, 403, lo * 2^m, hi * 2^m) }
  pure def scl(s: int): int = pick(s, 950, [0, 0, 0, 3, -1, -20, 30, -60, rnd(s, 951, -70, 40)])

  action keepP = all { px' = px, py' = py }
  action keepS = all { sx' = sx, sy' = sy, sm' = sm, sr' = sr }
  action init = all { px' = List(), py' = List(), sx' = List(), sy' = List(), sm' = List(), sr' = 0, out' = [ev("nop", List(), List())] }
  action newPoly = {
    nondet s = 0.to(2^62).oneOf()
    nondet n = Set(1, 2, 3, 4, 5, 6, 7, 8, 12).oneOf()
    val x0 = knots(s, n, hh(s, 2) % 2 == 0)
    // now and then two equal knots
    val x = if (hh(s, 3) % 6 == 0 and n > 1) x0.replaceAt(hh(s, 4) % n, x0[hh(s, 5) % n]) else x0
    val y = pdata(s, x0)
    val ok = distinct(x)
    all { keepS, px' = if (ok) x else List(), py' = if (ok) y else List(),
      out' = [ev("poly", [n, scl(s)].concat(x).concat(y), [b2i(ok)])] }
  }
  action newSpline = {
    nondet s = 0.to(2^62).oneOf()
    nondet n = Set(2, 3, 4, 5, 6, 8, 17, 33).oneOf()
    val x0 = knots(s, n, true)
    val x = if (hh(s, 3) % 8 == 0) x0.replaceAt(hh(s, 4) % n, x0[hh(s, 5) % n])
            else if (hh(s, 3) % 8 == 1) x0.replaceAt(hh(s, 4) % n, x0[0] - 1) else x0
    val y = pdata(s, x0)
    val ok = increasing(x)
    val m2 = if (ok) second(x, y) else List()
    all { keepP, sx' = if (ok) x else List(), sy' = if (ok) y else List(), sm' = m2, sr' = if (ok) rscale(x, y) else 0,
      out' = [ev("spline", [n, scl(s)].concat(x).concat(y), [b2i(ok)])] }
  }
  action evalPoly = {
    nondet s = 0.to(2^62).oneOf()
    val m = pick(s, 1, [0, 1, 4, 10, 28])
    val q = query(s, px, m)
    val r = lag(px, py, q, m)
    val kn = range(0, px.length()).foldl(-1, (a, i) => if (px[i] * 2^m == q) i else a)
    all { keepP, keepS, out' = [ev("pe", [q, m], [r.v, r.a + fmul(iabs(r.v), r.l), kn])] }
  }
  action evalSpline = {
    nondet s = 0.to(2^62).oneOf()
    val m = pick(s, 1, [0, 1, 4, 10, 28])
    val q = query(s, sx, m)
    val r = sval(sx, sy, sm, sr, q, m)
    all { keepP, keepS, out' = [ev("se", [q, m], [r.v, r.a])] }
  }
  action badKnots = {          // NaN or infinite gaps are not increasing either; too few samples are refused
    nondet s = 0.to(2^62).oneOf()
    all { keepP, keepS, out' = [ev("bad", [hh(s, 1) % 5, hh(s, 2) % 5], List())] }
  }
  action lerps = {
    nondet s = 0.to(2^62).oneOf()
    val k = scl(s)
    val a = rnd(s, 1, -1000, 1000)
    val b = if (hh(s, 2) % 8 == 0) a else if (hh(s, 2) % 3 == 0) a + pick(s, 3, [1, -1, 2]) else rnd(s, 3, -1000, 1000)
    val t = pick(s, 4, [0, 1024, 512, 1, rnd(s, 5, 0, 1024), rnd(s, 5, -3000, 4000)])
    val v = pick(s, 6, [a * 16, b * 16, 8 * (a + b), rnd(s, 7, -20000, 20000)])
    val c = rnd(s, 8, -1000, 1000)
    val d = rnd(s, 9, -1000, 1000)
    // inverse parameter (0 when the interval is a point)
    val p = if (a == b) 0 else fq(v - 16 * a, 16 * (b - a))
    all { keepP, keepS,
      out' = [ev("lerp", [k, a, b, t, v, c, d], [fq(1024 * a + (b - a) * t, 1024), p, c * SC + (d - c) * p])] }
  }
  action step = any { newPoly, newSpline, all { px.length() > 0, evalPoly }, all { px.length() > 0, evalPoly }, all { px.length() > 0, evalPoly },
    all { sx.length() > 0, evalSpline }, all { sx.length() > 0, evalSpline }, all { sx.length() > 0, evalSpline }, lerps, lerps, badKnots }

  // ------------------------------------------------------------- invariants
  // the modelled spline interpolates its data, has zero end curvature, and joins with equal slopes
  pure def slopeR(x: List[int], y: List[int], m: List[int], i: int): int =
    fq(y[i + 1] - y[i], x[i + 1] - x[i]) - (x[i + 1] - x[i]) * (2 * m[i] + m[i + 1]) / 6
  pure def slopeL(x: List[int], y: List[int], m: List[int], i: int): int =
    fq(y[i] - y[i - 1], x[i] - x[i - 1]) + (x[i] - x[i - 1]) * (m[i - 1] + 2 * m[i]) / 6
  val inv = sx.length() == 0 or (sm.length() == sx.length() and sm[0] == 0 and sm[sx.length() - 1] == 0
    and range(1, sx.length() - 1).foldl(true, (b, i) => b and iabs(slopeL(sx, sy, sm, i) - slopeR(sx, sy, sm, i)) < 10^10))
}
