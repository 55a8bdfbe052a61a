// O02: stochastic descent.  The sampler's gradients are scripted by the specification (the j-th call
// of iteration k returns grads[k][j]), so that the required number of calls, the mean, the decayed
// rate, momentum, projection, the EMA stopping rule and the reports are all determined.
module o02 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  import xs.* from "./xs"
  type Conf = { lr: int, dec: int, mu: int, bs: int, beta: int, tg: int, ts: int, tf: int, minit: int, bnd: bool, corr: bool,
    lo: List[int], hi: List[int], th: int, c: List[int], f0: int, odd: bool, plain: bool }
  var conf: Conf
  var seed: int
  var x0: List[int]
  var x: List[int]
  var v: List[int]
  var ema: int
  var k: int
  var stopped: bool
  var murky: bool
  var script: List[int]        // all gradients handed out so far, two components per call
  var out: List[Ev]

  pure def nrm2(u: List[int]): int = fsqrt(fsq(u[0]) + fsq(u[1]))
  pure def f(c: Conf, p: List[int]): int = fsq(p[0] - c.c[0]) + fsq(p[1] - c.c[1]) / 2 + c.f0
  pure def proj(c: Conf, p: List[int]): List[int] =
    if (c.bnd) [imax(c.lo[0], imin(c.hi[0], p[0])), imax(c.lo[1], imin(c.hi[1], p[1]))] else p
  pure def near(a: int, b: int): bool = iabs(a - b) <= (iabs(a) + iabs(b)) / 10^9 + SC / 10^13
  pure def powi(b: int, n: int): int = range(0, n).foldl(SC, (r, _i) => fmul(r, b))
  // gradient of call number n: in 1/8; some batches are all zero or tiny so that the EMA rule can fire
  pure def gradOf(s: int, kk: int, n: int): List[int] = {
    pure val m = pick(hh(s, 900), 1, [1, 8, 64])
    pure val z = hh(s, 500 + kk) % 5 == 0
    if (z) [0, 0] else [rnd(s, 2 * n, -16, 16) * m, rnd(s, 2 * n + 1, -16, 16) * m]
  }
  // settings out of range are brought into it: the run is requested with the raw value
  pure def neg(t: int, c: Conf): int = if (t == 0 and c.odd) -SC / 8 else t
  pure def runEv(op: str, c: Conf, sd: int, st: List[int], kk: int, sc: List[int], p: List[int], iters: int, conv: bool): Ev =
    ev(if (c.plain) "plain" else op, [kk, sd, neg(c.lr, c), neg(c.dec, c), neg(c.mu, c), if (c.bs == 1 and c.odd) 0 else c.bs, neg(c.beta, c), neg(c.tg, c), neg(c.ts, c), neg(c.tf, c), c.minit, b2i(c.bnd), b2i(c.corr)]
        .concat(c.lo).concat(c.hi).append(c.th).concat(c.c).append(c.f0).concat(st).concat(sc),
      p.concat([f(c, p), iters, b2i(conv), (if (iters < kk and conv and kk > 0) 0 else 0)]))
  pure val ZERO: Conf = { lr: 0, dec: 0, mu: 0, bs: 1, beta: 0, tg: 0, ts: 0, tf: 0, minit: 0, bnd: false, corr: true, lo: [0, 0], hi: [0, 0], th: 1, c: [0, 0], f0: 0, odd: false, plain: false }
  // what is documented to hold when nothing is set
  pure val PLAIN: Conf = { ...ZERO, lr: SC / 100, dec: SC / 1000, beta: SC * 9 / 10, tg: SC / 10^4, ts: SC / 10^8, plain: true }
  action init = all { conf' = ZERO, seed' = 1, x0' = [0, 0], x' = [0, 0], v' = [0, 0], ema' = 0, k' = 0, stopped' = true, murky' = true, script' = List(), out' = [] }
  pure def e8(n: int): int = n * SC / 8
  action start = {
    nondet s = 0.to(2^62).oneOf()
    val c0: Conf = { lr: pick(s, 30, [SC / 8, SC / 4, SC / 16, SC / 100, SC, SC / 8, SC / 4, 0]), dec: pick(s, 31, [0, SC / 1000, SC / 2, SC]),
      mu: pick(s, 32, [0, 0, SC / 2, SC * 9 / 10]), bs: pick(s, 33, [1, 1, 2, 3, 4, 5, 7, 8, 16]),
      beta: pick(s, 34, [0, SC / 2, SC * 9 / 10, SC * 95 / 100]), tg: pick(s, 35, [0, SC / 3, SC * 10 / 7, SC / 1000003]),
      ts: pick(s, 36, [0, 0, SC / 1000003, SC / 23, SC / 7]), tf: pick(s, 37, [0, 0, 0, SC * 10 / 3, SC / 9]), minit: pick(s, 38, [0, 0, 1, 3, 6]),
      bnd: hh(s, 39) % 2 == 0, corr: hh(s, 40) % 4 > 0, lo: [e8(rnd(s, 41, -24, 0)), e8(rnd(s, 42, -24, 0))], hi: [e8(rnd(s, 43, 1, 24)), e8(rnd(s, 44, 1, 24))],
      th: pick(s, 45, [1, 2, 3, 4, 5, 8]), c: [e8(rnd(s, 46, -10, 10)), e8(rnd(s, 47, -10, 10))], f0: e8(pick(s, 48, [0, 1, 8, -8, -80, 40])), odd: hh(s, 49) % 4 == 0, plain: false }
    val c: Conf = if (hh(s, 51) % 10 == 0) { ...PLAIN, bnd: c0.bnd, lo: c0.lo, hi: c0.hi, c: c0.c, f0: c0.f0 } else c0
    val st = [e8(rnd(s, 50, -40, 40)), e8(rnd(s, 51, -40, 40))]
    val p = proj(c, st)
    all { conf' = c, seed' = s, x0' = st, x' = p, v' = [0, 0], ema' = 0, k' = 0, stopped' = false, murky' = false, script' = List(),
      out' = [runEv("run", c, s, st, 0, List(), p, 0, false)] }
  }
  action iterate = {
    val gs = range(0, conf.bs).foldl(List(), (l, j) => l.concat(gradOf(seed, k, k * conf.bs + j)))
    val sum = range(0, conf.bs).foldl([0, 0], (a, j) => [a[0] + gs[2 * j], a[1] + gs[2 * j + 1]])
    val g = [e8(sum[0]) / conf.bs, e8(sum[1]) / conf.bs]
    val gn = nrm2(g)
    val em = fmul(conf.beta, ema) + fmul(SC - conf.beta, gn)
    val hat = if (conf.corr) fdv(em, SC - powi(conf.beta, k + 1)) else em
    val fx = f(conf, x)
    val hit = k >= conf.minit and (hat <= conf.tg or (conf.tf > 0 and fx <= conf.tf))
    val lr = fdv(conf.lr, SC + conf.dec * k)
    val nx = proj(conf, [x[0] - fmul(lr, g[0]) + fmul(conf.mu, v[0]), x[1] - fmul(lr, g[1]) + fmul(conf.mu, v[1])])
    val nv = [nx[0] - x[0], nx[1] - x[1]]
    val small = k >= conf.minit and nrm2(nv) <= conf.ts
    val m = (near(hat, conf.tg) and hat > 0) or (conf.tf > 0 and near(fx, conf.tf)) or (near(nrm2(nv), conf.ts) and nrm2(nv) > 0)
    val sc = script.concat(gs)
    all { not(stopped), not(murky), k < 20,
      conf' = conf, seed' = seed, x0' = x0, ema' = em, script' = sc, murky' = m,
      x' = if (hit) x else nx, v' = if (hit) v else nv, k' = if (hit) k else k + 1, stopped' = (hit or small),
      out' = if (m) [] else {
        val e = runEv("run", conf, seed, x0, k + 1, sc, if (hit) x else nx, if (hit) k else k + 1, hit or small)
        if (hit or small) [e, runEv("run", conf, seed, x0, k + 5, sc, if (hit) x else nx, if (hit) k else k + 1, true)] else [e] } }
  }
  // the sampler sees the xorshift stream of the seed (sequential) and reproducible, distinct streams (parallel)
  action streams = {
    nondet s = 0.to(2^64 - 1).oneOf() nondet bs = Set(1, 2, 3, 5, 8).oneOf() nondet it = 1.to(4).oneOf() nondet th = Set(1, 2, 3, 4, 8).oneOf()
    val r = range(0, bs * it).foldl({ x: norm64(s), l: List() }, (a, _j) => { val y = advance(a.x) { x: y, l: a.l.append(word(y)) } })
    all { conf' = conf, seed' = seed, x0' = x0, x' = x, v' = v, ema' = ema, k' = k, stopped' = stopped, murky' = murky, script' = script,
      out' = [ev("streams", [s, bs, it, th], r.l)] }
  }
  // long runs: no iteration ever sees the samples of another one
  action long = {
    nondet s = 0.to(2^64 - 1).oneOf()
    val it = pick(s, 1, [rnd(s, 2, 5, 60), rnd(s, 3, 60, 260), 300, 400, 600, 1100])
    val bs = rnd(s, 4, 1, 3)
    all { hh(s, 5) % 60 == 0, conf' = conf, seed' = seed, x0' = x0, x' = x, v' = v, ema' = ema, k' = k, stopped' = stopped, murky' = murky, script' = script,
      out' = [ev("long", [s, bs, it, pick(s, 6, [1, 2, 3, 4])], [bs * it])] }
  }
  pure def norm64(s: int): int = if (s == 0) ZEROSEED else s
  action step = any { start, iterate, iterate, iterate, iterate, iterate, iterate, iterate, iterate, streams, long }
  val inv = and { proj(conf, x) == x or murky, ema >= 0 }
}
