// B01: the assertion helpers.  The state is a pair of matrices, a tolerance and a table of errors on
// a grid; single entries are poked by amounts around the tolerance, poisoned and repaired, and every
// helper has to decide as the definitions say.  Numbers are multiples of 1/64.
module b01 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  pure val NAN = 10^12
  pure val PINF = 10^12 + 1
  pure val MINF = 10^12 + 2
  var m: int
  var n: int
  var x: List[int]
  var y: List[int]
  var tol: int
  var f: List[int]      // f1 - f0 at each grid point
  var out: List[Ev]

  pure def isNum(a: int): bool = iabs(a) < NAN
  // |a-b| with the IEEE special values
  pure def dist(a: int, b: int): int =
    if (a == NAN or b == NAN) NAN
    else if (isNum(a) and isNum(b)) iabs(a - b)
    else if (a == b) NAN else PINF
  pure def within(a: int, b: int, t: int): bool = { pure val d = dist(a, b) isNum(d) and d <= t }
  pure def worst(l: List[int]): int = l.foldl(0, (w, d) => if (w == NAN or d == NAN) NAN else if (d == PINF or w == PINF) PINF else imax(w, d))
  pure def diffs(a: List[int], b: List[int]): List[int] = range(0, a.length()).foldl(List(), (l, i) => l.append(dist(a[i], b[i])))
  // index of the first entry out of tolerance, or -1
  pure def firstBad(a: List[int], b: List[int], t: int): int =
    range(0, a.length()).foldl(0 - 1, (r, i) => if (r >= 0 or within(a[i], b[i], t)) r else i)
  pure def firstWild(a: List[int]): int = range(0, a.length()).foldl(0 - 1, (r, i) => if (r >= 0 or isNum(a[i])) r else i)
  pure def sumsq(l: List[int]): int =
    if (l.foldl(false, (b, v) => b or v == NAN)) NAN else if (firstWild(l) >= 0) PINF else l.foldl(0, (s, v) => s + v * v)
  pure def asym(a: List[int], k: int, t: int): bool =
    range(0, k * k).foldl(false, (b, i) => b or { pure val r = i / k pure val c = i % k
      r < c and { pure val d = dist(a[r * k + c], a[c * k + r]) not(isNum(d)) or d > t } })
  pure def judge(mm: int, nn: int, a: List[int], b: List[int], t: int): List[Ev] = {
    pure val d = diffs(a, b)
    pure val bad = firstBad(a, b, t)
    pure val base = [mm, nn, t].concat(a).concat(b)
    [ ev("matrix", base, [bad, if (bad < 0) 0 else d[bad], worst(d), firstWild(a), sumsq(a), sumsq(d)]),
      ev("vector", base, [bad, if (bad < 0) 0 else d[bad], worst(d), firstWild(a)]) ]
    .concat(if (mm == nn) [ev("symmetric", [mm, nn, t].concat(a), [b2i(not(asym(a, mm, t)))])] else List()) }
  pure def gridEv(g: List[int], t: int, lo: int, hi: int, s: int): Ev = {
    pure val e = g.foldl(List(), (l, v) => l.append(dist(v, 0)))
    pure val w = worst(e)
    pure val at = range(0, e.length()).foldl(0 - 1, (r, i) => if (r >= 0 or e[i] != w) r else i)
    ev("grid", [lo, hi, t, s].concat(g), [b2i(isNum(w) and w <= t), w, at]) }
  pure def fill(s: int, k: int, i: int): List[int] = rndList(s, i, k, -640, 640)
  action init = { nondet s = 0.to(2^62).oneOf()
    all { m' = 1, n' = 1, x' = List(0), y' = List(0), tol' = 8, f' = rndList(s, 1, 5, -4, 4), out' = List() } }
  action shape = { nondet s = 0.to(2^62).oneOf()
    val mm = rnd(s, 1, 1, 4) val nn = if (hh(s, 2) % 2 == 0) mm else rnd(s, 3, 1, 4)
    val a = fill(s, mm * nn, 10)
    val sym = range(0, mm * nn).foldl(List(), (l, i) => { val r = i / nn val c = i % nn l.append(if (mm == nn and r > c) a[c * nn + r] else a[i]) })
    val t = pick(s, 4, [0, 1, 8, 64, 640])
    all { m' = mm, n' = nn, x' = sym, y' = sym, tol' = t, f' = f, out' = judge(mm, nn, sym, sym, t) } }
  pure def bump(s: int, i: int, t: int, old: int): int = {
    pure val o = if (isNum(old)) old else 0
    pure val sg = if (hh(s, i) % 2 == 0) 1 else 0 - 1
    pick(s, i + 1, [o + sg * t, o + sg * (t + 1), o + sg * imax(t - 1, 0), o, o + sg * 100000, NAN, PINF, MINF, o + sg * t, o + sg * (t + 1)]) }
  action poke = { nondet s = 0.to(2^62).oneOf()
    val i = if (hh(s, 1) % 3 == 0) m * n - 1 else hh(s, 2) % (m * n)
    // infinities on both sides at the same place are not judged: their distance is undefined
    val v = bump(s, 3, tol, x[i])
    val b = y.replaceAt(i, if (v == NAN or isNum(v) or isNum(x[i]) or x[i] == NAN) v else 0)
    all { m' = m, n' = n, x' = x, y' = b, tol' = tol, f' = f, out' = judge(m, n, x, b, tol) } }
  action pokeX = { nondet s = 0.to(2^62).oneOf()
    val i = hh(s, 2) % (m * n)
    val v = bump(s, 3, tol, y[i])
    val a = x.replaceAt(i, if (v == NAN or isNum(v) or isNum(y[i]) or y[i] == NAN) v else 0)
    all { m' = m, n' = n, x' = a, y' = y, tol' = tol, f' = f, out' = judge(m, n, a, y, tol) } }
  action heal = { nondet s = 0.to(2^62).oneOf()
    val i = hh(s, 2) % (m * n)
    val o = if (isNum(x[i])) x[i] else 5
    val a = x.replaceAt(i, o) val b = y.replaceAt(i, o)
    all { m' = m, n' = n, x' = a, y' = b, tol' = tol, f' = f, out' = judge(m, n, a, b, tol) } }
  action retol = { nondet s = 0.to(2^62).oneOf()
    val t = pick(s, 1, [0, 1, 7, 8, 9, 63, 64, 65, 640, 10^7])
    all { m' = m, n' = n, x' = x, y' = y, tol' = t, f' = f, out' = judge(m, n, x, y, t) } }
  action grid = { nondet s = 0.to(2^62).oneOf()
    val lo = rnd(s, 1, -640, 640) val hi = lo + rnd(s, 2, 1, 640)
    val k = hh(s, 9) % 4
    val g0 = if (k == 0) rndList(s, 20, rnd(s, 4, 2, 12), 0 - tol, tol) else f
    val i = if (hh(s, 5) % 3 == 0) 0 else if (hh(s, 5) % 3 == 1) g0.length() - 1 else hh(s, 6) % g0.length()
    val g = if (k == 3) g0.replaceAt(i, 0) else g0.replaceAt(i, bump(s, 7, tol, 0))
    all { m' = m, n' = n, x' = x, y' = y, tol' = tol, f' = g, out' = [gridEv(g, tol, lo, hi, hh(s, 8) % 1000)] } }
  action bits3 = { nondet s = 0.to(2^62).oneOf()
    val l = rndList(s, 1, rnd(s, 2, 1, 6), -10^6, 10^6)
    val q = hh(s, 3) % 4 == 0
    val v = if (q) l.replaceAt(hh(s, 4) % l.length(), NAN) else l
    all { m' = m, n' = n, x' = x, y' = y, tol' = tol, f' = f, out' = [ev("coding", v, [b2i(not(q))])] } }
  action step = any { shape, poke, poke, pokeX, heal, retol, grid, grid, bits3 }
  // acceptance is exactly "no entry is worse than the tolerance", and it is monotone in the tolerance
  val inv = and {
    (firstBad(x, y, tol) < 0) implies (firstBad(x, y, tol + 1) < 0),
    (firstWild(x) < 0 and firstWild(y) < 0) implies ((firstBad(x, y, tol) < 0) iff (worst(diffs(x, y)) <= tol)),
    x.length() == m * n, y.length() == m * n }
}
