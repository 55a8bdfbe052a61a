// L01 (generative classifiers): Gaussian naive Bayes, LDA and QDA over an edited labelled sample.
module l02 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  type P = { x: List[int], c: int }       // features in 1/8
  var ds: List[P]
  var K: int
  var out: List[Ev]
  type C = { n: int, mean: List[int], vr: List[int], cov: List[int] }    // cov: xx yy xy, n - 1
  pure def classOf(d: List[P], c: int): C = {
    pure val s = d.foldl({ n: 0, a: 0, b: 0, aa: 0, bb: 0, ab: 0 }, (q, p) => if (p.c != c) q else
      { n: q.n + 1, a: q.a + p.x[0], b: q.b + p.x[1], aa: q.aa + p.x[0] * p.x[0], bb: q.bb + p.x[1] * p.x[1], ab: q.ab + p.x[0] * p.x[1] })
    if (s.n == 0) { n: 0, mean: [0, 0], vr: [0, 0], cov: [0, 0, 0] }
    else {
      pure val xx = s.n * s.aa - s.a * s.a
      pure val yy = s.n * s.bb - s.b * s.b
      pure val xy = s.n * s.ab - s.a * s.b
      pure val den = if (s.n > 1) s.n * (s.n - 1) * 64 else 64
      { n: s.n, mean: [fq(s.a, 8 * s.n), fq(s.b, 8 * s.n)], vr: [fq(xx, 64 * s.n * s.n), fq(yy, 64 * s.n * s.n)],
        cov: [fq(xx, den), fq(yy, den), fq(xy, den)] } } }
  pure def classes(d: List[P], k: int): List[C] = range(0, k).foldl(List(), (l, c) => l.append(classOf(d, c)))
  pure def prior(c: C, n: int): int = fq(c.n, n)
  pure def pooled(cs: List[C], n: int): List[int] = [0, 1, 2].foldl(List(), (l, i) => l.append(cs.foldl(0, (a, c) => a + c.cov[i] * c.n / n)))
  pure def det(s: List[int]): int = fmul(s[0], s[1]) - fsq(s[2])
  // well conditioned / singular / cannot tell
  pure def cond(s: List[int]): int = if (s[0] == 0 or s[1] == 0 or det(s) == 0) 0 else if (det(s) * 10000 > fmul(s[0], s[1])) 1 else -1
  pure def quad(s: List[int], u: List[int], v: List[int]): int =      // u' S^-1 v
    fdv(fmul(u[0], fmul(s[1], v[0]) - fmul(s[2], v[1])) + fmul(u[1], fmul(s[0], v[1]) - fmul(s[2], v[0])), det(s))
  // best class: scores as (defined, value); answer -1 when not decidable or nothing is defined
  pure def best(sc: List[{ ok: int, v: int }]): int = {
    pure val r = range(0, sc.length()).foldl({ i: -1, v: 0, second: 0, have2: false, bad: false }, (b, i) =>
      if (sc[i].ok == -1) { ...b, bad: true }
      else if (sc[i].ok == 0) b
      else if (b.i == -1) { ...b, i: i, v: sc[i].v }
      else if (sc[i].v > b.v) { ...b, i: i, v: sc[i].v, second: b.v, have2: true }
      else if (not(b.have2) or sc[i].v > b.second) { ...b, second: sc[i].v, have2: true } else b)
    if (r.bad or r.i == -1) -1
    else if (r.have2 and iabs(r.v - r.second) < (iabs(r.v) + iabs(r.second)) / 10^9 + SC / 10^8) -1 else r.i }
  pure def gnb(cs: List[C], n: int, x: List[int]): int = best(lmapS(cs, c => if (c.n == 0) { ok: 0, v: 0 } else {
    pure def term(i: int): int = {
      pure val vr = imax(c.vr[i], SC / 10^12)
      -(fln(2 * fmul(PI, vr)) + fdv(fsq(x[i] - c.mean[i]), vr)) / 2 }
    { ok: 1, v: fln(prior(c, n)) + term(0) + term(1) } }))
  pure def lmapS(cs: List[C], f: (C) => { ok: int, v: int }): List[{ ok: int, v: int }] = cs.foldl(List(), (l, c) => l.append(f(c)))
  pure def lda(cs: List[C], n: int, x: List[int]): int = {
    pure val s = pooled(cs, n)
    if (cond(s) != 1) -1 else best(lmapS(cs, c => if (c.n == 0) { ok: 0, v: 0 } else
      { ok: 1, v: quad(s, x, c.mean) - quad(s, c.mean, c.mean) / 2 + fln(prior(c, n)) })) }
  // with a third feature that is +1 and -1 on the two copies of every sample of a doubled data set (ext): it is
  // uncorrelated with the others in every class, has mean 0, and variance 1 (divided by n) or n / (n - 1)
  pure def qda(cs: List[C], n: int, x: List[int], ext: bool, z: int): int = best(lmapS(cs, c => if (c.n == 0) { ok: 0, v: 0 } else {
    pure val k = cond(c.cov)
    if (k != 1) { ok: k, v: 0 } else {
      pure val d = [x[0] - c.mean[0], x[1] - c.mean[1]]
      pure val e = if (not(ext)) 0 else { pure val vz = fq(c.n, c.n - 1) fln(vz) + fdv(fsq(z), vz) }
      { ok: 1, v: -fln(det(c.cov)) / 2 - quad(c.cov, d, d) / 2 - e / 2 + fln(prior(c, n)) } } }))
  pure def third(q: List[int]): int = (q[0] + 3 * q[1]) % 17
  pure def report3(d0: List[P], k: int, qs: List[List[int]]): Ev = {
    pure val d = d0.concat(d0)
    pure val cs = classes(d, k)
    pure val n = d.length()
    ev("fit3", d.foldl([k, n], (l, p) => l.concat(p.x).append(p.c)).concat(qs.foldl([qs.length()], (l, q) => l.concat(q).append(third(q)))),
      cs.foldl(List(), (l, c) => l.concat([c.n, prior(c, n)]).concat(c.mean).concat(c.vr).concat(c.cov)).concat(pooled(cs, n)).concat(
      qs.foldl(List(), (l, q) => { pure val x = lmap(q, t => t * SC / 8) l.concat([gnb(cs, n, x), lda(cs, n, x), qda(cs, n, x, true, third(q) * SC / 8)]) }))) }
  pure def report(d: List[P], k: int, qs: List[List[int]]): Ev = {
    pure val cs = classes(d, k)
    pure val n = d.length()
    ev("fit", d.foldl([k, n], (l, p) => l.concat(p.x).append(p.c)).concat(qs.foldl([qs.length()], (l, q) => l.concat(q))),
      cs.foldl(List(), (l, c) => l.concat([c.n, prior(c, n)]).concat(c.mean).concat(c.vr).concat(c.cov)).concat(pooled(cs, n)).concat(
      qs.foldl(List(), (l, q) => { pure val x = lmap(q, t => t * SC / 8) l.concat([gnb(cs, n, x), lda(cs, n, x), qda(cs, n, x, false, 0)]) }))) }
  pure def point(s: int, k: int): P = {
    pure val c = hh(s, 1) % k
    { c: c, x: [rnd(s, 2, -24, 24) * (1 + c) + pick(s, 3, [0, 20, -20 * c]), rnd(s, 4, -24, 24) + 16 * c] } }
  action init = all { K' = 2, ds' = [{ x: [0, 0], c: 0 }], out' = [ev("nop", List(), List())] }
  pure def queries(s: int): List[List[int]] = [rndList(s, 80, 2, -60, 60), rndList(s, 81, 2, -24, 24), rndList(s, 82, 2, -400, 400)]
  action fresh = { nondet s = 0.to(2^62).oneOf()
    val k = rnd(s, 1, 1, 4)
    val n = rnd(s, 2, 1, 14)
    val d = range(0, n).foldl(List(), (l, i) => l.append(point(hh(s, 100 + i), k)))
    all { K' = k, ds' = d, out' = [report(d, k, queries(s))] } }
  action add = { nondet s = 0.to(2^62).oneOf()
    val d = ds.append(point(s, K))
    all { ds.length() < 20, K' = K, ds' = d, out' = [report(d, K, queries(s))] } }
  action drop = { nondet s = 0.to(2^62).oneOf()
    val d = ds.slice(1, ds.length())
    all { ds.length() > 1, K' = K, ds' = d, out' = [report(d, K, queries(s))] } }
  action relabel = { nondet s = 0.to(2^62).oneOf()
    val i = hh(s, 1) % ds.length()
    val d = ds.replaceAt(i, { ...ds[i], c: hh(s, 2) % K })
    all { K' = K, ds' = d, out' = [report(d, K, queries(s))] } }
  action another = { nondet s = 0.to(2^62).oneOf()
    all { K < 5, K' = K + 1, ds' = ds, out' = [report(ds, K + 1, queries(s))] } }
  action repeat = { nondet s = 0.to(2^62).oneOf()
    val d = ds.append(ds[hh(s, 1) % ds.length()])
    all { ds.length() < 20, K' = K, ds' = d, out' = [report(d, K, queries(s))] } }
  // the whole sample once more
  action twice = { nondet s = 0.to(2^62).oneOf()
    val d = ds.concat(ds)
    all { ds.length() <= 40, K' = K, ds' = d, out' = [report(d, K, queries(s))] } }
  action wider = { nondet s = 0.to(2^62).oneOf()
    all { K' = K, ds' = ds, out' = [report3(ds, K, queries(s))] } }
  // the same features measured from a distant origin: counts, spreads and covariances stay
  action shift = { nondet s = 0.to(2^62).oneOf()
    val o = [pick(s, 1, [-1, 1]) * 2^rnd(s, 2, 6, 20), pick(s, 3, [0, 1]) * 2^rnd(s, 4, 6, 20)]
    val d = ds.foldl(List(), (l, p) => l.append({ ...p, x: [p.x[0] + o[0], p.x[1] + o[1]] }))
    val c0 = classOf(ds, 0) val c1 = classOf(d, 0)
    all { ds.foldl(true, (b, p) => b and iabs(p.x[0]) < 10000 and iabs(p.x[1]) < 10000), c0.cov == c1.cov, c0.vr == c1.vr,
      K' = K, ds' = d, out' = [report(d, K, queries(s).append([d[0].x[0] + 3, d[0].x[1] - 2]))] } }
  action step = any { fresh, fresh, add, add, drop, relabel, another, repeat, twice, wider, wider, shift }
  // moments are consistent and a class without samples is never chosen
  val inv = {
    val cs = classes(ds, K)
    val n = ds.length()
    and { lsum(cs.foldl(List(), (l, c) => l.append(c.n))) == n,
      cs.foldl(true, (b, c) => b and c.vr[0] >= 0 and c.vr[1] >= 0 and det(c.cov) >= -10^20),
      { val b = gnb(cs, n, [SC, SC]) b == -1 or cs[b].n > 0 }, { val b = qda(cs, n, [SC, SC], false, 0) b == -1 or cs[b].n > 1 } } }
}
