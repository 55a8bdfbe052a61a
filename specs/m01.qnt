// M01: vector, matrix and tensor algebra over integers.  The state is a register file of integer
// matrices and vectors of one shape; every step is one operation, executed by the specification in
// exact integer arithmetic and by the crate in every operator variant, in f32 and in f64.
module m01 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  type Shape = { id: int, m: int, n: int, p: int }
  var sh: Shape
  var X: List[int]      // m x n, the accumulator
  var Y: List[int]      // m x n
  var Z: List[int]      // n x p
  var u: List[int]      // n, accumulator
  var w: List[int]      // n
  var y: List[int]      // m
  var out: List[Ev]

  pure val SHAPES: List[List[int]] = [
    [1, 1, 1], [1, 4, 3], [2, 3, 4], [3, 3, 3], [3, 3, 1], [4, 4, 4], [4, 3, 2], [5, 6, 2], [6, 6, 6], [6, 4, 3], [2, 2, 5], [7, 4, 12],
    [8, 8, 8], [8, 9, 7], [9, 8, 8], [8, 8, 9], [9, 9, 9], [3, 16, 17], [16, 16, 16], [17, 16, 15], [2, 17, 33], [5, 3, 20], [1, 20, 1],
    [20, 1, 20], [4, 33, 2], [3, 18, 8], [17, 5, 3], [2, 40, 4], [1, 2, 16], [2, 5, 24], [3, 7, 31], [4, 10, 40] ]
  pure val LIM = 4000
  pure def gen(s: int, i: int, k: int, lim: int): List[int] = range(0, k).foldl(List(), (l, j) => l.append(rnd(s, i * 5000 + j, -lim, lim)))
  pure def zip(a: List[int], b: List[int], f: (int, int) => int): List[int] = range(0, a.length()).foldl(List(), (l, j) => l.append(f(a[j], b[j])))
  pure def lmax(a: List[int]): int = a.foldl(0, (x, z) => imax(x, iabs(z)))
  // (m x n) * (n x p), only the rows in [0, m)
  pure def mm(a: List[int], b: List[int], m: int, n: int, p: int): List[int] =
    range(0, m).foldl(List(), (l, i) => range(0, p).foldl(l, (l2, j) =>
      l2.append(range(0, n).foldl(0, (acc, k) => acc + a[i * n + k] * b[k * p + j]))))
  pure def tr(a: List[int], m: int, n: int): List[int] = range(0, n).foldl(List(), (l, c) => range(0, m).foldl(l, (l2, r) => l2.append(a[r * n + c])))
  // leading q x r block of an (. x n) matrix
  pure def blk(a: List[int], n: int, q: int, r: int): List[int] = range(0, q).foldl(List(), (l, i) => range(0, r).foldl(l, (l2, j) => l2.append(a[i * n + j])))
  pure def dotp(a: List[int], b: List[int]): int = range(0, a.length()).foldl(0, (s, j) => s + a[j] * b[j])
  pure def cross3(a: List[int], b: List[int]): List[int] = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]

  action init = all { sh' = { id: 0, m: 1, n: 1, p: 1 }, X' = [1], Y' = [2], Z' = [3], u' = [1], w' = [2], y' = [1],
    out' = [ev("load", [0, 1, 1, 1].concat([1, 2, 3, 1, 2, 1]), List())] }
  action load = {
    nondet s = 0.to(2^62).oneOf()
    val id = if (hh(s, 0) % 3 == 0) hh(s, 1) % SHAPES.length() else hh(s, 1) % 14
    val d = SHAPES[id]
    val h = { id: id, m: d[0], n: d[1], p: d[2] }
    val lim = pick(s, 2, [3, 20, 60])
    // sparse/diagonal/one-hot contents single out misplaced elements
    val kind = hh(s, 3) % 4
    val x = if (kind == 0) range(0, h.m * h.n).foldl(List(), (l, j) => l.append(if (j == hh(s, 4) % (h.m * h.n)) 1 else 0)) else gen(s, 10, h.m * h.n, lim)
    val z = if (kind == 1) range(0, h.n * h.p).foldl(List(), (l, j) => l.append(if (j == hh(s, 5) % (h.n * h.p)) 1 else 0)) else gen(s, 12, h.n * h.p, lim)
    val yy = gen(s, 11, h.m * h.n, lim)
    val uu = gen(s, 13, h.n, lim)
    val ww = gen(s, 14, h.n, lim)
    val ym = gen(s, 15, h.m, lim)
    all { sh' = h, X' = x, Y' = yy, Z' = z, u' = uu, w' = ww, y' = ym,
      out' = [ev("load", [h.id, h.m, h.n, h.p].concat(x).concat(yy).concat(z).concat(uu).concat(ww).concat(ym), List())] }
  }
  action keepV = all { sh' = sh, Y' = Y, Z' = Z, u' = u, w' = w, y' = y }
  action keepM = all { sh' = sh, X' = X, Y' = Y, Z' = Z, w' = w, y' = y }
  action keepAll = all { sh' = sh, X' = X, Y' = Y, Z' = Z, u' = u, w' = w, y' = y }

  // ---- matrix accumulator operations: the new accumulator is the expectation
  action madd = { val r = zip(X, Y, (a, b) => a + b) all { lmax(r) <= LIM, keepV, X' = r, out' = [ev("madd", List(), r)] } }
  action msub = { val r = zip(X, Y, (a, b) => a - b) all { lmax(r) <= LIM, keepV, X' = r, out' = [ev("msub", List(), r)] } }
  action mneg = { val r = lmap(X, a => -a) all { keepV, X' = r, out' = [ev("mneg", List(), r)] } }
  action mscale = { nondet k = (-5).to(5).oneOf() val r = lmap(X, a => a * k) all { lmax(r) <= LIM, keepV, X' = r, out' = [ev("mscale", [k], r)] } }
  action mdiv = { nondet k = Set(2, 4, 8, -2, -16, 64).oneOf() all { keepAll, out' = [ev("mdiv", [k], X)] } }    // result * k = X
  action mset = { nondet s = 0.to(2^60).oneOf() val i = hh(s, 1) % (sh.m * sh.n) val v = rnd(s, 2, -99, 99)
    val r = X.replaceAt(i, v) all { keepV, X' = r, out' = [ev("mset", [i / sh.n, i % sh.n, v], r)] } }
  action mouter = { val r = range(0, sh.m).foldl(List(), (l, i) => range(0, sh.n).foldl(l, (l2, j) => l2.append(y[i] * w[j])))
    all { keepV, X' = r, out' = [ev("mouter", List(), r)] } }
  // ---- observations
  action prod = { val s2 = imin(sh.m, 3) // large products: three consecutive rows, chosen at random
    nondet r0 = 0.to(sh.m - 1).oneOf()
    val rows = if (sh.m * sh.n * sh.p <= 800) sh.m else s2
    val base = if (rows == sh.m) 0 else imin(r0, sh.m - rows)
    val xs = X.slice(base * sh.n, (base + rows) * sh.n)
    all { keepAll, out' = [ev("prod", [base, rows], mm(xs, Z, rows, sh.n, sh.p))] } }
  action mulvec = all { keepAll, out' = [ev("mulvec", List(), mm(X, w, sh.m, sh.n, 1))] }
  action mulvec4 = all { sh.n >= 4, keepAll, out' = [ev("mulvec4", List(), mm(blk(X, sh.n, sh.m, 4), w.slice(0, 4), sh.m, 4, 1))] }
  action mulvec6 = all { sh.n >= 6, keepAll, out' = [ev("mulvec6", List(), mm(blk(X, sh.n, sh.m, 6), w.slice(0, 6), sh.m, 6, 1))] }
  action trans = all { keepAll, out' = [ev("trans", List(), tr(X, sh.m, sh.n))] }
  action square = { nondet q = Set(1, 2, 3, 4, 6, 8, 9).oneOf()
    val a = blk(X, sh.n, q, q) val b = blk(Y, sh.n, q, q)
    all { q <= sh.m, q <= sh.n, keepAll, out' = [ev("square", [q],
      [range(0, q).foldl(0, (t, i) => t + a[i * q + i]), lmax(X)].concat(mm(a, b, q, q, q)))] } }
  // ---- vector accumulator operations
  // w becomes parallel to u: the angle is exactly on the edge of acos
  action vpar = { nondet k = (-3).to(3).oneOf() val r = lmap(u, a => a * k)
    all { lmax(r) <= 60, lmax(u) <= 60, sh' = sh, X' = X, Y' = Y, Z' = Z, u' = u, w' = r, y' = y, out' = [ev("vpar", [k], r)] } }
  action vadd = { val r = zip(u, w, (a, b) => a + b) all { lmax(r) <= LIM, keepM, u' = r, out' = [ev("vadd", List(), r)] } }
  action vsub = { val r = zip(u, w, (a, b) => a - b) all { lmax(r) <= LIM, keepM, u' = r, out' = [ev("vsub", List(), r)] } }
  action vneg = { val r = lmap(u, a => -a) all { keepM, u' = r, out' = [ev("vneg", List(), r)] } }
  action vscale = { nondet k = (-5).to(5).oneOf() val r = lmap(u, a => a * k) all { lmax(r) <= LIM, keepM, u' = r, out' = [ev("vscale", [k], r)] } }
  action vdiv = { nondet k = Set(2, 4, 8, -2, -16, 64).oneOf() all { keepAll, out' = [ev("vdiv", [k], u)] } }
  action vset = { nondet s = 0.to(2^60).oneOf() val i = hh(s, 1) % sh.n val v = rnd(s, 2, -99, 99)
    val r = u.replaceAt(i, v) all { keepM, u' = r, out' = [ev("vset", [i, v], r)] } }
  // dot product, squared norms, norm, angle (30 digits), first four components' dot product
  action vdot = {
    val d = dotp(u, w) val nu = dotp(u, u) val nw = dotp(w, w)
    val ang = if (nu == 0 or nw == 0) 0 else { val c2 = nu * nw val r = isqrt((c2 - d * d) * 10^40) fatan2(r, d * 10^20) }
    all { keepAll, out' = [ev("vdot", List(), [d, nu, nw, fsqrt(nu * SC), fsqrt(nw * SC), ang, if (sh.n >= 4) dotp(u.slice(0, 4), w.slice(0, 4)) else 0])] } }
  action vcross = all { sh.n >= 3, keepAll, out' = [ev("vcross", List(), cross3(u, w))] }
  // ---- tensors: element (i,j,..) of a row-major tensor whose flat content is 0,1,2,..
  action tensor = {
    nondet s = 0.to(2^60).oneOf()
    val rank = 1 + hh(s, 0) % 5
    val shape = range(0, rank).foldl(List(), (l, i) => l.append(rnd(s, i + 1, 1, 5)))
    val idx = range(0, rank).foldl(List(), (l, i) => l.append(hh(s, 10 + i) % shape[i]))
    val off = range(0, rank).foldl(0, (o, i) => o * shape[i] + idx[i])
    val i3 = [hh(s, 20) % 2, hh(s, 21) % 3, hh(s, 22) % 4, hh(s, 23) % 5]
    all { keepAll, out' = [ev("tensor", [rank].concat(shape).concat(idx).concat(i3),
      [off, (i3[0] * 3 + i3[1]) * 4 + i3[2], ((i3[0] * 3 + i3[1]) * 4 + i3[2]) * 5 + i3[3]])] } }
  action ctors = all { keepAll, out' = [ev("ctors", List(), List())] }
  action step = any { load, madd, msub, mneg, mscale, mdiv, mset, mouter, prod, prod, mulvec, mulvec4, mulvec6, trans, square, square,
    vadd, vsub, vneg, vscale, vdiv, vset, vdot, vcross, vpar, vdot, tensor, ctors }
  // registers keep their shape and bound
  val inv = and { X.length() == sh.m * sh.n, Z.length() == sh.n * sh.p, u.length() == sh.n, lmax(X) <= LIM, lmax(u) <= LIM }
}
