// V02: plot files.  State: which drawing each of two output files holds (0 = no file yet); a drawing is
// decided by the finite points of its series.  Requests: series plots, error plots on a grid, CSV renders.
module v02 {
  import lib.* from "./lib"
  type Pt = { x: int, y: int }
  type Ser = { style: int, label: int, pts: List[Pt], cut: int }     // cut: how many x values lack a y value
  type Box = { x0: int, x1: int, y0: int, y1: int }
  var files: List[int]      // drawing number held by file 0 and file 1
  var num: int              // drawings requested so far
  var shown: int            // points of the drawing last written (spec bookkeeping)
  var out: List[Ev]
  pure val NAN = 2^40 + 1
  pure val INF = 2^40 + 2
  pure val NINF = 2^40 + 3
  pure val M9 = 10^9
  pure def finite(v: int): bool = v < 2^40
  pure def coord(s: int, i: int, base: int, w: int): int = {
    pure val r = hh(s, i) % 24
    if (r == 0) NAN else if (r == 1) INF else if (r == 2) NINF else base + rnd(s, i + 1, -w, w)
  }
  pure def mkSer(s: int, bx: int, by: int, wx: int, wy: int): Ser = {
    pure val n0 = if (hh(s, 6) % 30 == 0) pick(s, 7, [17, 33, 65, 130, 300, 1025]) else pick(s, 1, [0, 1, 1, 2, 3, 4, 5, 6])
    {
      style: hh(s, 2) % 2, label: hh(s, 3) % 7 - 2,
      pts: range(0, n0).foldl(List(), (l, i) => l.append({ x: coord(s, 10 + 7 * i, bx, wx), y: coord(s, 20013 + 7 * i, by, wy) })),
      cut: if (n0 > 0 and hh(s, 4) % 40 == 0) 1 else 0
    }
  }
  pure def kept(q: Ser): Ser = { ...q, pts: q.pts.select(p => finite(p.x) and finite(p.y)) }
  pure def keptAll(l: List[Ser]): List[Ser] = l.foldl(List(), (r, q) => { pure val z = kept(q) if (z.pts.length() > 0) r.append(z) else r })
  pure def boxOf(l: List[Ser]): Box = {
    pure val p0 = l[0].pts[0]
    l.foldl({ x0: p0.x, x1: p0.x, y0: p0.y, y1: p0.y }, (b, q) =>
      q.pts.foldl(b, (c, p) => { x0: imin(c.x0, p.x), x1: imax(c.x1, p.x), y0: imin(c.y0, p.y), y1: imax(c.y1, p.y) }))
  }
  pure def norm(v: int, a: int, b: int): int = if (b == a) 0 else (v - a) * M9 / (b - a)
  pure def drawing(l: List[Ser], b: Box): List[int] =
    l.foldl(List(), (r, q) => q.pts.foldl(r.concat([q.style, q.label, q.pts.length()]), (c, p) => c.concat([norm(p.x, b.x0, b.x1), norm(p.y, b.y0, b.y1)])))
  // mode: 0/1 output file, 2 no output file, 3 output path in a directory that does not exist
  pure def after(f: List[int], mode: int, ok: bool, id: int): List[int] = if (ok and mode < 2) f.replaceAt(mode, id) else f

  action init = all { files' = [0, 0], num' = 0, shown' = 0, out' = [ev("fresh", [], [])] }
  action plot = {
    nondet s = 0.to(2^62).oneOf()
    val nser = pick(s, 1, [0, 1, 1, 2, 2, 3, 4, 4, 9, 13])
    val bx = pick(s, 2, [0, 0, 500, -1000000])
    val by = pick(s, 3, [0, 0, -300, 1000000])
    val wx = pick(s, 4, [0, 5, 1000, 1000])
    val wy = pick(s, 5, [0, 5, 1000, 1000])
    val ex = pick(s, 6, [0, 0, 0, -20, 10, 100, -300, 900])
    val ey = pick(s, 7, [0, 0, 0, -20, 10, 100, -300, 900])
    val l = range(0, nser).foldl(List(), (r, i) => r.append(mkSer(hh(s, 100 + i), bx, by, wx, wy)))
    val mode = pick(s, 8, [0, 0, 0, 1, 1, 2, 3])
    val bad = nser == 0 or l.select(q => q.cut > 0).length() > 0
    val k = keptAll(l)
    val ok = not(bad) and k.length() > 0 and mode != 3
    val b = if (ok) boxOf(k) else { x0: 0, x1: 0, y0: 0, y1: 0 }
    val args = l.foldl([mode, num + 1, ex, ey, hh(s, 9) % 3, hh(s, 10) % 3 - 1, hh(s, 11) % 3 - 1, nser], (r, q) =>
      q.pts.foldl(r.concat([q.style, q.label, q.pts.length(), q.cut]), (c, p) => c.concat([p.x, p.y])))
    all {
      files' = after(files, mode, ok, num + 1), num' = num + 1, shown' = if (ok) k.foldl(0, (c, q) => c + q.pts.length()) else shown,
      out' = [ev("plot", args, [b2i(ok), b.x0, b.x1, b.y0, b.y1, if (ok) k.length() else 0].concat(if (ok) drawing(k, b) else List())), ev("files", [], after(files, mode, ok, num + 1))]
    }
  }
  // error of one polynomial against another on the grid a + (b-a) i/m, with holes where a value is not finite
  action grid = {
    nondet s = 0.to(2^62).oneOf()
    val a = rnd(s, 1, -20, 20)
    val b = if (hh(s, 2) % 8 == 0) a else rnd(s, 3, -20, 20)
    val m = pick(s, 4, [0, 1, 2, 3, 4, 5, 8, 10, 10, if (hh(s, 7) % 3 == 0) 250 else 16])
    val f = rndList(s, 50, 3, -5, 5)
    val g0 = rndList(s, 60, 3, -5, 5)
    val g = if (hh(s, 5) % 6 == 0 or (g0[1] == f[1] and g0[2] == f[2])) f else g0   // a constant error only where it is exact
    val holes = if (m == 0 or a == b) List() else range(0, m + 1).foldl(List(), (l, i) => { val c = hh(s, 1080 + i) % (if (hh(s, 6) % 5 == 0) 2 else 9) if (c == 0) l.concat([i, pick(s, 2120 + i, [NAN, INF, NINF])]) else l })
    val holeAt = range(0, holes.length() / 2).foldl(Set(), (q, j) => q.union(Set(holes[2 * j])))
    val mode = pick(s, 8, [0, 0, 1, 2, 3])
    // m^2 * error at grid point i
    val er = if (m == 0) List() else range(0, m + 1).foldl(List(), (l, i) => {
      val x = a * m + (b - a) * i
      l.append((f[0] - g[0]) * m * m + (f[1] - g[1]) * x * m + (f[2] - g[2]) * x * x)
    })
    val idx = if (m == 0) List() else range(0, m + 1).select(i => not(i.in(holeAt)))
    val ok = idx.length() > 0 and mode != 3
    val lo = if (idx.length() == 0) 0 else idx.foldl(er[idx[0]], (c, i) => imin(c, er[i]))
    val hi = if (idx.length() == 0) 0 else idx.foldl(er[idx[0]], (c, i) => imax(c, er[i]))
    all {
      files' = after(files, mode, ok, num + 1), num' = num + 1, shown' = if (ok) idx.length() else shown,
      out' = [ev("grid", [mode, num + 1, a, b, m, holes.length() / 2].concat(holes).concat(f).concat(g),
        [b2i(ok), lo, hi, if (ok) idx.length() else 0].concat(if (ok) idx.foldl(List(), (l, i) => l.concat([if (a == b) 0 else i * M9 / m, norm(er[i], lo, hi)])) else List())),
        ev("files", [], after(files, mode, ok, num + 1))]
    }
  }
  // the CSV plotter renders the rows it has read
  action csv = {
    nondet s = 0.to(2^62).oneOf()
    val n0 = pick(s, 1, [0, 1, 2, 3, 5, 8, 8, pick(s, 4, [140, 9, 9, 12, 40, if (hh(s, 9) % 3 == 0) 2100 else 20])])
    val ny = if (n0 > 1000) 1 else rnd(s, 2, 1, 6)
    val style = hh(s, 3) % 2
    val rows = range(0, n0).foldl(List(), (l, i) => l.append(rndList(s, 100 + 10 * i, ny + 1, -50, 50)))
    val l = range(0, ny).foldl(List(), (r, j) => r.append({ style: style, label: 10 + j, cut: 0, pts: rows.foldl(List(), (t, w) => t.append({ x: w[0], y: w[j + 1] })) }))
    val mode = pick(s, 8, [0, 1])
    val ok = n0 > 0
    val b = if (ok) boxOf(l) else { x0: 0, x1: 0, y0: 0, y1: 0 }
    all {
      files' = after(files, mode, ok, num + 1), num' = num + 1, shown' = if (ok) n0 * ny else shown,
      out' = [ev("csv", rows.foldl([mode, num + 1, style, ny, n0], (r, w) => r.concat(w)),
        [b2i(ok), b.x0, b.x1, b.y0, b.y1, if (ok) ny else 0].concat(if (ok) drawing(l, b) else List())), ev("files", [], after(files, mode, ok, num + 1))]
    }
  }
  action step = any { plot, plot, plot, grid, csv }
  val inv = and { files.length() == 2, files[0] <= num, files[1] <= num, files[0] == 0 or files[0] != files[1], shown >= 0 }
}
