// L01 (gradient models): the training rules of linear, ridge and logistic regression, perceptron
// and linear SVM as transitions of (weights, bias), and one iteration of the optimiser on the
// documented loss.
module l01 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  type P = { x: List[int], y: int, lab: int }     // features in 1/4, target in 1/4, label -1/+1
  // kind 0 linear 1 ridge 2 logistic 3 perceptron 4 svm; lr in 1/64, reg in 1/16 (alpha or C)
  type M = { kind: int, w: List[int], lr: int, reg: int, exact: bool }
  var ds: List[P]
  var m: M
  var out: List[Ev]

  pure def fi(v: int): int = v * SC / 4
  pure def sc(w: List[int], p: P): int = w[2] + w[0] * p.x[0] / 4 + w[1] * p.x[1] / 4
  pure def sigm(s: int): int = if (s > 200 * SC) SC else if (s < -200 * SC) 0 else fdv(SC, SC + fexp(-s))
  pure def v3(f: (int) => int): List[int] = [f(0), f(1), f(2)]
  pure def xi(p: P, i: int): int = if (i == 2) SC else fi(p.x[i])
  type G = { g: List[int], murky: bool }
  pure val ZG: G = { g: [0, 0, 0], murky: false }
  pure def acc(a: G, p: P, e: int, mk: bool): G = { g: v3(i => a.g[i] + fmul(e, xi(p, i))), murky: a.murky or mk }
  pure def close(a: int, b: int, exact: bool): bool = if (exact) false else iabs(a - b) < (iabs(a) + iabs(b)) / 10^9 + SC / 10^11
  // sum over the data of the loss derivative
  pure def dsum(k: int, w: List[int], d: List[P], exact: bool): G = d.foldl(ZG, (a, p) => {
    pure val s = sc(w, p)
    if (k <= 1) acc(a, p, 2 * (s - fi(p.y)), false)
    else if (k == 2) acc(a, p, sigm(s) - (if (p.lab > 0) SC else 0), false)
    else if (k == 3) (if (-p.lab * s > 0) acc(a, p, -p.lab * SC, close(s, 0, exact)) else { ...a, murky: a.murky or close(s, 0, exact) })
    else (if (p.lab * s < SC) acc(a, p, -p.lab * SC, close(p.lab * s, SC, exact)) else { ...a, murky: a.murky or close(p.lab * s, SC, exact) }) })
  // one documented epoch: (new weights, undecidable)
  pure def epochOf(mm: M, d: List[P]): { w: List[int], murky: bool } = {
    pure val n = d.length()
    if (n == 0) { w: mm.w, murky: false }
    else if (mm.kind == 3)
      // mistake driven, in order
      { w: d.foldl(mm.w, (w, p) => if (p.lab * sc(w, p) <= 0) v3(i => w[i] + p.lab * mm.lr * xi(p, i) / 64) else w), murky: false }
    else {
      pure val g = dsum(mm.kind, mm.w, d, mm.exact)
      pure def el(i: int): int = {
          pure val r = if (i == 2) 0 else if (mm.kind == 1) 2 * mm.reg * mm.w[i] / 16 else if (mm.kind == 4) 2 * 16 * mm.w[i] / (mm.reg * n) else 0
          mm.w[i] - mm.lr * (g.g[i] / n + r) / 64 }
      { w: [el(0), el(1), el(2)], murky: g.murky } } }
  // documented loss of the optimiser and its gradient
  pure def loss(mm: M, w: List[int], d: List[P]): int = {
    pure val l = d.foldl(0, (a, p) => { pure val s = sc(w, p)
      a + (if (mm.kind <= 1) fsq(s - fi(p.y))
        else if (mm.kind == 2) { pure val q = fln(imax(1, if (p.lab > 0) sigm(s) else SC - sigm(s))) 0 - q }
        else if (mm.kind == 3) imax(0, -p.lab * s)
        else imax(0, SC - p.lab * s)) }) / d.length()
    pure val r = fsq(w[0]) + fsq(w[1])
    l + (if (mm.kind == 1) mm.reg * r / 16 else if (mm.kind == 4) 16 * r / (2 * mm.reg) else 0) }
  pure def gradient(mm: M, d: List[P]): G = {
    pure val g = dsum(mm.kind, mm.w, d, mm.exact)
    pure def ge(i: int): int = g.g[i] / d.length() + (if (i == 2) 0 else if (mm.kind == 1) 2 * mm.reg * mm.w[i] / 16 else if (mm.kind == 4) 16 * mm.w[i] / mm.reg else 0)
    { g: [ge(0), ge(1), ge(2)], murky: g.murky } }
  // one iteration from a first step lr/64 with Armijo backtracking (c1 = 1e-4, halving) or fixed
  pure def optOnce(mm: M, d: List[P], lr: int, line: bool): { w: List[int], murky: bool } = {
    pure val g = gradient(mm, d)
    pure val g2 = fsq(g.g[0]) + fsq(g.g[1]) + fsq(g.g[2])
    pure def at(st: int): List[int] = [mm.w[0] - fmul(st, g.g[0]), mm.w[1] - fmul(st, g.g[1]), mm.w[2] - fmul(st, g.g[2])]
    if (g2 == 0) { w: mm.w, murky: g.murky }
    else if (not(line)) { w: at(lr * SC / 64), murky: g.murky }
    else {
      pure val f0 = loss(mm, mm.w, d)
      pure val r = range(0, 40).foldl({ st: lr * SC / 64, done: false, murky: g.murky }, (s, _j) =>
        if (s.done or s.murky) s else {
          pure val ft = loss(mm, at(s.st), d)
          pure val rhs = f0 - fmul(fmul(SC / 10000, s.st), g2)
          pure val mk = iabs(ft - rhs) < (iabs(ft) + iabs(rhs)) / 10^8 + SC / 10^10
          if (mk) { ...s, murky: true } else if (ft <= rhs) { ...s, done: true } else { ...s, st: s.st / 2 } })
      { w: at(r.st), murky: r.murky or not(r.done) } } }

  // several iterations; every one starts from the first step again
  pure def optMany(mm: M, d: List[P], lr: int, line: bool, k: int): { w: List[int], murky: bool } =
    range(0, k).foldl({ w: mm.w, murky: false }, (a, _i) => {
      pure val r = optOnce({ ...mm, w: a.w, exact: false }, d, lr, line)
      { w: r.w, murky: a.murky or r.murky } })
  pure def encD(d: List[P]): List[int] = d.foldl([d.length()], (l, p) => l.concat([p.x[0], p.x[1], p.y, p.lab]))
  pure def encM(mm: M): List[int] = [mm.kind, mm.lr, mm.reg, b2i(mm.exact)].concat(mm.w)
  pure def big(w: List[int]): int = imax(iabs(w[0]), imax(iabs(w[1]), iabs(w[2])))
  pure def point(s: int): P = {
    pure val x = rndList(s, 1, 2, -20, 20)
    { x: if (hh(s, 5) % 8 == 0) [0, 0] else x, y: rnd(s, 2, -40, 40), lab: if (hh(s, 3) % 3 == 0) (if (x[0] + 2 * x[1] > 3) 1 else -1) else pick(s, 4, [-1, 1]) } }
  pure def fresh(k: int, s: int): M =
    { kind: k, w: if (hh(s, 1) % 3 == 0) [0, 0, 0] else lmap(rndList(s, 2, 3, -64, 64), t => t * SC / 16),
      lr: if (k == 3) pick(s, 3, [8, 64, 32, rnd(s, 4, 1, 16) * 4]) else pick(s, 3, [1, 2, rnd(s, 4, 1, 64)]), reg: rnd(s, 5, 1, 64), exact: true }

  action init = all { ds' = List(), m' = fresh(0, 0), out' = [ev("nop", List(), List())] }
  action newData = { nondet s = 0.to(2^62).oneOf()
    val n = pick(s, 1, [1, 2, 4, 6, 8, 8, if (hh(s, 2) % 4 == 0) 40 else 5])
    val thin = hh(s, 3) % 6 == 0           // the second feature carries no information
    all { ds' = range(0, n).foldl(List(), (l, i) => { val p = point(hh(s, 10 + i)) l.append(if (thin) { ...p, x: [p.x[0], 0] } else p) }), m' = m, out' = [ev("nop", List(), List())] } }
  action addPoint = { nondet s = 0.to(2^62).oneOf()
    all { ds.length() < 10, ds' = ds.append(point(s)), m' = m, out' = [ev("nop", List(), List())] } }
  action start = { nondet s = 0.to(2^62).oneOf()
    val k = hh(s, 50) % 5
    all { ds' = ds, m' = fresh(k, s), out' = [ev("start", encM(fresh(k, s)), List())] } }
  action epoch = {
    val r = epochOf(m, ds)
    val ok = big(r.w) < 10^12 * SC
    all { ok, ds' = ds, m' = { ...m, w: r.w, exact: m.kind == 3 },
      out' = [ev("epoch", encM(m).concat(encD(ds)), [b2i(r.murky)].concat(r.w))] } }
  action optimise = { nondet s = 0.to(2^62).oneOf()
    val lr = pick(s, 1, [1, 16, 64, 256])
    val small = ds.foldl(true, (b, p) => b and iabs(sc(m.w, p)) < 8 * SC)
    val line = hh(s, 2) % 3 != 0 and (m.kind != 2 or small)
    val k = if (ds.length() > 10) 1 else pick(s, 3, [1, 1, 1, 2, if (lr <= 16) 3 else 2, if (m.kind >= 3 and lr == 1) 6 else 1])
    val r = if (k == 1) optOnce(m, ds, lr, line) else optMany(m, ds, lr, line, k)
    all { ds.length() > 0, big(m.w) < 10^4 * SC, big(r.w) < 10^6 * SC, ds' = ds,
      m' = if (m.kind == 3) m else { ...m, w: r.w, exact: false },
      out' = [ev("opt", encM(m).concat([lr, b2i(line), k]).concat(encD(ds)), [b2i(r.murky)].concat(r.w))] } }
  action ask = { nondet s = 0.to(2^62).oneOf()
    val p = point(s)
    val v = sc(m.w, p)
    all { ds' = ds, m' = m, out' = [ev("ask", encM(m).concat(p.x), [v, sigm(v), b2i(close(v, 0, m.exact))])] } }
  action step = any { newData, addPoint, start, start, epoch, epoch, epoch, epoch, optimise, optimise, ask }

  // a gradient step that is short enough lowers the (smooth) documented loss; perceptron epochs
  // without a mistake change nothing
  val inv =
    if (ds.length() == 0 or big(m.w) > 1000 * SC) true
    else if (m.kind == 3) (if (ds.foldl(true, (b, p) => b and p.lab * sc(m.w, p) > 0)) epochOf(m, ds).w == m.w else true)
    else if (m.kind <= 1) {
      val g = gradient(m, ds)
      val g2 = fsq(g.g[0]) + fsq(g.g[1]) + fsq(g.g[2])
      val w = [m.w[0] - g.g[0] / 1000000, m.w[1] - g.g[1] / 1000000, m.w[2] - g.g[2] / 1000000]
      and { // the loss is the integral of its gradient
        iabs(loss(m, m.w, ds) - loss(m, w, ds) - g2 / 1000000) <= g2 / 1000000 / 1000 + 10^10,
        // and the epoch is the optimiser's fixed step for these models
        { val e = epochOf(m, ds).w val o = optOnce(m, ds, m.lr, false).w iabs(e[0] - o[0]) + iabs(e[1] - o[1]) + iabs(e[2] - o[2]) < 10^12 + big(m.w) / 10^20 } }
    } else true
}
