// O01: gradient descent as a state machine: one step = one iteration of the documented rule, in
// 30-digit fixed point.  After every iteration the real minimiser is run with that iteration limit.
module o01 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  pure val N = 3
  // objective: 1/2 x'Ax - b'x + c0 + q sum x_i^4 / 4 (A symmetric, entries in 1/8; q in 1/64)
  type Obj = { a: List[int], b: List[int], c: int, q: int }
  type Conf = { lr: int, mu: int, line: bool, c1: int, tau: int, tg: int, ts: int, bnd: bool, lo: List[int], hi: List[int], odd: bool, plain: bool }      // odd: asked for out-of-range values; plain: left at the documented defaults
  var obj: Obj
  var conf: Conf
  var x0: List[int]
  var x: List[int]
  var v: List[int]
  var k: int
  var stopped: bool
  var murky: bool        // a decision was too close to call: stop comparing this run
  var out: List[Ev]

  pure def vmap(f: (int) => int): List[int] = [f(0), f(1), f(2)]
  pure def dot(u: List[int], w: List[int]): int = fmul(u[0], w[0]) + fmul(u[1], w[1]) + fmul(u[2], w[2])
  pure def norm(u: List[int]): int = fsqrt(dot(u, u))
  // A entries: a = [a00, a11, a22, a01, a02, a12]
  pure def Ax(o: Obj, p: List[int]): List[int] = [
    fmul(o.a[0], p[0]) + fmul(o.a[3], p[1]) + fmul(o.a[4], p[2]),
    fmul(o.a[3], p[0]) + fmul(o.a[1], p[1]) + fmul(o.a[5], p[2]),
    fmul(o.a[4], p[0]) + fmul(o.a[5], p[1]) + fmul(o.a[2], p[2])]
  pure def cube(t: int): int = fmul(fsq(t), t)
  pure def f(o: Obj, p: List[int]): int =
    dot(p, Ax(o, p)) / 2 - dot(o.b, p) + o.c + fmul(o.q, fsq(fsq(p[0])) + fsq(fsq(p[1])) + fsq(fsq(p[2]))) / 4
  pure def grad(o: Obj, p: List[int]): List[int] = { pure val w = Ax(o, p) vmap(i => w[i] - o.b[i] + fmul(o.q, cube(p[i]))) }
  pure def proj(c: Conf, p: List[int]): List[int] =
    if (c.bnd) vmap(i => imax(c.lo[i], imin(c.hi[i], p[i]))) else p
  pure def near(a: int, b: int): bool = iabs(a - b) <= (iabs(a) + iabs(b)) / 10^9 + SC / 10^13

  // backtracking search: first step size lr*tau^j whose projected trial satisfies the Armijo condition
  type LS = { p: List[int], st: int, done: bool, murky: bool }
  pure def search(o: Obj, c: Conf, p: List[int], d: List[int], gd: int): LS = {
    pure val f0 = f(o, p)
    range(0, 60).foldl({ p: p, st: c.lr, done: false, murky: false }, (s, _j) =>
      if (s.done) s else {
        pure val t = proj(c, vmap(i => p[i] + fmul(s.st, d[i])))
        pure val ft = f(o, t)
        pure val rhs = f0 + fmul(fmul(c.c1, s.st), gd)
        pure val m = s.murky or near(ft, rhs)
        if (ft <= rhs) { p: t, st: s.st, done: true, murky: m }
        else { p: t, st: fmul(s.st, c.tau), done: false, murky: m or s.st < SC / 10^12 } })
  }
  type Res = { x: List[int], v: List[int], k: int, stopped: bool, murky: bool }
  pure def iteration(o: Obj, c: Conf, p: List[int], w: List[int], kk: int): Res = {
    pure val g = grad(o, p)
    pure val gn = norm(g)
    if (gn <= c.tg) { x: p, v: w, k: kk, stopped: true, murky: near(gn, c.tg) and c.tg > 0 }
    else {
      pure val d0 = vmap(i => -g[i] + fmul(c.mu, w[i]))
      pure val gd0 = dot(g, d0)
      pure val d = if (gd0 >= 0) vmap(i => -g[i]) else d0
      pure val gd = if (gd0 >= 0) -dot(g, g) else gd0
      pure val ls = if (c.line) search(o, c, p, d, gd)
        else { p: proj(c, vmap(i => p[i] - fmul(c.lr, g[i]) + fmul(c.mu, w[i]))), st: c.lr, done: true, murky: false }
      pure val nv = vmap(i => ls.p[i] - p[i])
      pure val sn = norm(nv)
      pure val m = ls.murky or not(ls.done) or (c.line and near(gd0, 0)) or near(gn, c.tg) or (near(sn, c.ts) and sn > 0)
      { x: ls.p, v: nv, k: kk + 1, stopped: sn <= c.ts, murky: m }
    }
  }
  pure def e8(n: int): int = n * SC / 8
  // settings out of range are brought into it: the run is requested with the raw value
  pure val CAP = 999999 * SC / 1000000
  pure def neg(t: int, c: Conf): int = if (t == 0 and c.odd) -SC / 8 else t
  pure def rawTau(c: Conf): int = if (not(c.odd)) c.tau else if (c.tau == SC / 2) -SC / 4 else if (c.tau == SC * 9 / 10) SC * 3 / 2 else c.tau
  pure def runEv(c: Conf, st: List[int], o: Obj, kk: int, p: List[int], conv: bool, iters: int): List[Ev] =
    [ev(if (c.plain) "plain" else "run", [kk, neg(c.lr, c), if (c.mu == CAP and c.odd) 2 * SC else neg(c.mu, c), b2i(c.line), c.c1, rawTau(c), neg(c.tg, c), neg(c.ts, c), b2i(c.bnd)].concat(c.lo).concat(c.hi).concat(st)
        .concat(o.a).concat(o.b).concat([o.c, o.q]),
      p.concat([f(o, p), iters, b2i(conv)]))]

  pure val ZERO: Conf = { lr: 0, mu: 0, line: false, c1: 0, tau: 0, tg: 0, ts: 0, bnd: false, lo: [0, 0, 0], hi: [0, 0, 0], odd: false, plain: false }
  pure val PLAIN: Conf = { ...ZERO, lr: SC / 100, line: true, c1: SC / 10000, tau: SC / 2, tg: SC / 10^6, ts: SC / 10^6, plain: true }
  action init = all { obj' = { a: [0, 0, 0, 0, 0, 0], b: [0, 0, 0], c: 0, q: 0 }, conf' = ZERO, x0' = [0, 0, 0], x' = [0, 0, 0], v' = [0, 0, 0],
    k' = 0, stopped' = true, murky' = true, out' = [] }
  action start = {
    nondet s = 0.to(2^62).oneOf()
    val o: Obj = { a: range(0, 6).foldl(List(), (l, i) => l.append(e8(if (i < 3) rnd(s, i, if (hh(s, 90) % 4 == 0) -8 else 1, 24) else rnd(s, i, -6, 6)))),
      b: vmap(i => e8(rnd(s, 10 + i, -20, 20))), c: e8(rnd(s, 13, -40, 40)), q: pick(s, 14, [0, 0, 0, SC / 64, SC / 16]) }
    val bnd = hh(s, 20) % 2 == 0
    val c0: Conf = { lr: pick(s, 30, [SC / 8, SC / 4, SC / 16, SC / 2, SC / 10, SC / 100, SC, SC / 8, SC / 4, 0]),
      mu: pick(s, 31, [0, 0, SC / 2, SC * 9 / 10, SC / 4, CAP]), line: hh(s, 32) % 2 == 0,
      c1: pick(s, 33, [SC / 10007, SC / 1009, SC * 3 / 10]), tau: pick(s, 34, [SC / 2, SC * 3 / 4, SC / 10, SC * 9 / 10]),
      tg: pick(s, 35, [0, SC / 1000003, SC / 101, SC / 3, SC]), ts: pick(s, 36, [0, SC / 1000003, SC / 103, SC / 7]),
      bnd: bnd, lo: vmap(i => e8(rnd(s, 40 + i, -24, 4))), hi: vmap(i => e8(rnd(s, 50 + i, 4, 24))), odd: hh(s, 70) % 4 == 0, plain: false }
    val c: Conf = if (hh(s, 71) % 10 == 0) { ...PLAIN, bnd: bnd, lo: c0.lo, hi: c0.hi } else c0
    val st = vmap(i => e8(rnd(s, 60 + i, -40, 40)))
    val p = proj(c, st)
    all { obj' = o, conf' = c, x0' = st, x' = p, v' = [0, 0, 0], k' = 0, stopped' = false, murky' = false,
      out' = runEv(c, st, o, 0, p, false, 0) }
  }
  action iterate = {
    val r = iteration(obj, conf, x, v, k)
    val far = range(0, 3).foldl(false, (b, i) => b or iabs(r.x[i]) > 1000000 * SC)
    all { not(stopped), not(murky), k < 40,
      x' = r.x, v' = r.v, k' = r.k, stopped' = r.stopped, murky' = (r.murky or far), obj' = obj, conf' = conf, x0' = x0,
      out' = if (r.murky or far) [] else
        runEv(conf, x0, obj, k + 1, r.x, r.stopped, r.k).concat(
        // once stopped, a larger limit changes nothing
        if (r.stopped) runEv(conf, x0, obj, k + 7, r.x, true, r.k) else []) }
  }
  action step = any { start, iterate, iterate, iterate, iterate, iterate, iterate, iterate, iterate, iterate, iterate, iterate, iterate, iterate }
  // the iterate is always feasible; with line search the objective never increases
  val inv = and {
    proj(conf, x) == x or murky
  }
}
