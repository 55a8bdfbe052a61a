// S01: sample statistics as exact rationals of the integer data seen so far, and the fitted
// distributions' parameters, masses and densities.
module s01 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  import xs.* from "./xs"
  import ela.* from "./ela"
  var n: int                // dimension of x samples
  var m: int                // dimension of y samples
  var X: List[List[int]]    // x samples, integers
  var Y: List[List[int]]
  var off: int              // common offset of all data
  var out: List[Ev]

  pure def col(x: List[List[int]], j: int): int = x.foldl(0, (s, v) => s + v[j])
  pure def sxy(x: List[List[int]], y: List[List[int]], i: int, j: int): int =
    range(0, x.length()).foldl(0, (s, k) => s + x[k][i] * y[k][j])
  pure def amax(x: List[List[int]]): int = x.foldl(0, (s, v) => v.foldl(s, (t, w) => imax(t, iabs(w))))
  // largest deviation from the mean, times the number of samples
  pure def dev(x: List[List[int]], nn: int): int =
    range(0, nn).foldl(0, (s, j) => x.foldl(s, (t, v) => imax(t, iabs(x.length() * v[j] - col(x, j)))))
  pure def covn(x: List[List[int]], y: List[List[int]], nn: int, mm: int): List[int] =   // numerators over k (k - 1)
    range(0, nn).foldl(List(), (l, i) => range(0, mm).foldl(l, (l2, j) =>
      l2.append(x.length() * sxy(x, y, i, j) - col(x, i) * col(y, j))))
  // 0 ok, 1 empty, 2 too few, 3 count mismatch
  pure def cerr(k: int): int = if (k == 0) 1 else if (k < 2) 2 else 0

  action keep = all { n' = n, m' = m, X' = X, Y' = Y, off' = off }
  action init = all { n' = 2, m' = 1, X' = List(), Y' = List(), off' = 0, out' = [ev("fresh", [2, 1], List())] }
  action fresh = {
    nondet s = 0.to(2^62).oneOf()
    val nn = rnd(s, 1, 1, 5)
    val mm = rnd(s, 2, 1, 3)
    all { n' = nn, m' = mm, X' = List(), Y' = List(), off' = pick(s, 3, [0, 0, 0, 1000, -20000, 4000000]), out' = [ev("fresh", [nn, mm], List())] }
  }
  pure def sample(s: int, i: int, nn: int, o: int): List[int] = {
    pure val lim = pick(s, 900, [1, 3, 20, 20, 1000])
    pure val a = rndList(s, i, nn, -lim, lim)
    pure val kd = hh(s, i + 50) % 4
    // now and then a constant or duplicated axis, so that variances vanish or axes correlate fully
    pure val b = if (kd == 0) a.replaceAt(0, 7) else if (kd == 1) a.replaceAt(nn - 1, 2 * a[0] + 1) else a
    lmap(b, t => t + o) }
  action pushX = {
    nondet s = 0.to(2^62).oneOf()
    val v = sample(s, 1, n, off)
    all { X.length() < 12, n' = n, m' = m, Y' = Y, off' = off, X' = X.append(v), out' = [ev("pushx", v, List())] }
  }
  action pushBoth = {
    nondet s = 0.to(2^62).oneOf()
    val v = sample(s, 1, n, off)
    val w = sample(s, 2, m, off)
    all { X.length() < 12, n' = n, m' = m, off' = off, X' = X.append(v), Y' = Y.append(w), out' = [ev("pushboth", v.concat(w), List())] }
  }
  // many samples: those seen so far several times over
  action tile = {
    nondet r = Set(2, 3, 7, 10, 33).oneOf()
    all { X.length() > 0, X.length() * r <= 130, n' = n, m' = m, off' = off,
      X' = range(0, r).foldl(List(), (l, _k) => l.concat(X)), Y' = range(0, r).foldl(List(), (l, _k) => l.concat(Y)), out' = [ev("tile", [r], List())] }
  }
  action stats = {
    val k = X.length()
    val q = if (k < 2) 1 else k * (k - 1)
    val cv = covn(X, X, n, n)
    val zero = range(0, n).foldl(false, (b, j) => b or cv[j * n + j] == 0)
    val crl = if (k < 2 or zero) List() else range(0, n).foldl(List(), (l, i) => range(0, n).foldl(l, (l2, j) =>
      l2.append(sgn(cv[i * n + j]) * fsqrt(fq(cv[i * n + j] * cv[i * n + j], cv[i * n + i] * cv[j * n + j])))))
    all { keep, out' = [ev("stats", List(), [k, cerr(k), b2i(zero), amax(X), if (k == 0) 0 else fq(dev(X, n), k), if (k == 0) 1 else k, q]
      .concat(range(0, n).foldl(List(), (l, j) => l.append(col(X, j)))).concat(cv).concat(crl))] }
  }
  action crossCov = {
    val k = X.length()
    val err = if (X.length() != Y.length()) 3 else cerr(k)
    all { keep, out' = [ev("cross", List(), if (err != 0) [err] else
      [0, imax(amax(X), amax(Y)), fq(imax(dev(X, n), dev(Y, m)), k), k, k * (k - 1)].concat(covn(X, Y, n, m)))] }
  }
  // correlation of an arbitrary integer matrix as covariance: unit diagonal, refused when a variance is not positive
  action corr = {
    nondet s = 0.to(2^62).oneOf()
    val nn = rnd(s, 1, 1, 4)
    val d = lmap(rndList(s, 2, nn, 1, 900), t => if (hh(s, t + 7) % 9 == 0) pick(s, t, [0, -3, -1]) else t)
    val c = range(0, nn).foldl(List(), (l, i) => range(0, nn).foldl(l, (l2, j) =>
      l2.append(if (i == j) d[i] else rnd(s, 1000 + imin(i, j) * 10 + imax(i, j), -30, 30))))
    val ok = d.foldl(true, (b, t) => b and t > 0)
    all { keep, out' = [ev("corr", [nn].concat(c), if (not(ok)) [0] else List(1).concat(lmap(d, t => fsqrt(t * SC))).concat(
      range(0, nn).foldl(List(), (l, i) => range(0, nn).foldl(l, (l2, j) =>
        l2.append(if (i == j) SC else sgn(c[i * nn + j]) * fsqrt(fq(c[i * nn + j] * c[i * nn + j], d[i] * d[j])))))))] }
  }
  action bern = {
    nondet s = 0.to(2^62).oneOf()
    val k = pick(s, 1, [0, 1, 2, 5, 17, 40, 260])
    val bias = rnd(s, 2, 0, 10)
    val l = lmap(rndList(s, 3, k, 0, 9), t => if (t < bias) 1 else 0)
    all { keep, out' = [ev("bern", l, [lsum(l), imax(1, k)])] }
  }
  action categ = {
    nondet s = 0.to(2^62).oneOf()
    val k = pick(s, 1, [0, 1, 2, 3, 4, 5, 6, 6, 40])
    val l = lmap(rndList(s, 3, k, -2, pick(s, 4, [0, 3, 1000])), t => imax(0, t))
    all { keep, out' = [ev("cat", l, l.append(imax(1, lsum(l))))] }
  }
  action gfit = {
    nondet s = 0.to(2^62).oneOf()
    val k = pick(s, 1, [0, 1, 2, 3, 8, 20, 150])
    val o = pick(s, 2, [0, 0, 500, -100000])
    val l = if (hh(s, 5) % 6 == 0) lmap(rndList(s, 3, k, 0, 0), t => o) else lmap(rndList(s, 3, k, -200, 200), t => t + o)
    val sq = l.foldl(0, (a, t) => a + t * t)
    val vn = k * sq - lsum(l) * lsum(l)          // k^2 times the population variance
    all { keep, out' = [ev("gfit", l, [k, lsum(l), if (k == 0) SC else fsqrt(fq(vn, k * k)), l.foldl(0, (a, t) => imax(a, iabs(t)))])] }
  }
  pure val ROOT2PI = fsqrt(TWOPI)
  action pdf = {
    nondet s = 0.to(2^62).oneOf()
    val mu = rnd(s, 1, -640, 640)
    val sg = pick(s, 2, [64, 1, 8, 200, 1000, rnd(s, 3, 1, 5000), -rnd(s, 3, 1, 500)])
    val x = mu + rnd(s, 4, -8, 8) * iabs(sg) / 2 + rnd(s, 5, -9, 9)
    val z2 = fq((x - mu) * (x - mu), 2 * sg * sg)
    all { keep, out' = [ev("pdf", [mu, sg, x], [fdv(fexp(-z2), fmul(ROOT2PI, fq(iabs(sg), 64))), z2])] }
  }
  // multivariate density: covariance A A^T + D (positive definite), exact quadratic form and determinant
  action mvn = {
    nondet s = 0.to(2^62).oneOf()
    val nn = rnd(s, 1, 1, 4)
    val a = rndList(s, 2, nn * nn, -3, 3)
    val c = range(0, nn).foldl(List(), (l, i) => range(0, nn).foldl(l, (l2, j) =>
      l2.append(range(0, nn).foldl(if (i == j) rnd(s, 30 + i, 1, 4) else 0, (t, k) => t + a[i * nn + k] * a[j * nn + k]))))
    val mu = rndList(s, 4, nn, -20, 20)
    val d = rndList(s, 5, nn, -4, 4)
    val e = eliminate(c, nn)
    val det = e.p * e.sign
    // d^T C^-1 d with C^-1 = (right half) / e.p
    val q = range(0, nn).foldl(0, (t, i) => range(0, nn).foldl(t, (t2, j) => t2 + d[i] * d[j] * e.a[i * 2 * nn + nn + j]))
    val quad = fq(q, e.p)
    val norm2 = range(0, nn).foldl(SC, (t, _k) => fmul(t, ROOT2PI))
    all { keep, out' = [ev("mvn", [nn].concat(c).concat(mu).concat(range(0, nn).foldl(List(), (l, i) => l.append(mu[i] + d[i]))),
      [fdv(fexp(-quad / 2), fmul(norm2, fsqrt(det * SC))), quad])] }
  }
  // Gaussian::sample is mu + sigma z with z the Box-Muller transform of the generator's next two uniforms
  action draw = {
    nondet s = 0.to(2^62).oneOf()
    val seed = if (hh(s, 1) % 3 == 0) pick(s, 2, [0, 1, 42, W - 1]) else rnd(s, 3, 0, W - 1)
    val y1 = advance(norm(seed))
    val y2 = advance(y1)
    val u1 = word(y1) / 2048
    val u2 = word(y2) / 2048
    val z = if (u1 == 0) 0 else fmul(fsqrt(-2 * fln(u1 * SC / 2^53)), fcos(TWOPI * u2 / 2^53))
    val mu = rnd(s, 4, -640, 640)
    val sg = rnd(s, 5, 0, 640)
    all { u1 > 0, keep, out' = [ev("draw", [seed, mu, sg], [mu * SC / 64 + sg * z / 64, z])] }
  }
  action step = any { fresh, pushX, pushBoth, pushBoth, pushBoth, pushBoth, tile, stats, stats, crossCov, corr, bern, categ, gfit, pdf, pdf, mvn, mvn, draw }

  // the exact covariance is symmetric and satisfies Cauchy-Schwarz, so correlations are in [-1, 1]
  val inv = {
    val cv = covn(X, X, n, n)
    range(0, n).foldl(true, (b, i) => b and cv[i * n + i] >= 0 and range(0, i).foldl(true, (c, j) =>
      c and cv[i * n + j] == cv[j * n + i] and cv[i * n + j] * cv[i * n + j] <= cv[i * n + i] * cv[j * n + j])) }
}
