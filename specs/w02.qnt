// W02: the star catalogue.  One part of the state is a catalogue file being written row by row
// (any column order, optional fields absent, damaged rows), the other a file whose content is
// changed and compared with remembered digests.  Stars are propagated with the linear law in right
// ascension and declination, in fixed point.
module w02 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  type Row = { v: List[int], ok: bool }
  var rot: int            // column order: rotation ...
  var rev: bool           // ... and direction
  var rows: List[Row]
  type Content = { flips: Set[int], tail: int }
  var file: Content
  var snaps: List[Content]
  var out: List[Ev]

  pure val NCOL = 35
  pure val NONE = -10^15
  pure val REQ = [0, 3, 4, 5, 6, 28, 29]
  pure val OPTN = [1, 2, 7, 8, 9, 10, 11, 12, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 30]
  pure val TEXT = [13, 26, 27, 31, 32, 33, 34]
  pure def has(l: List[int], c: int): bool = l.foldl(false, (b, x) => b or x == c)
  // where column c stands in the file
  pure def place(r: int, back: bool, c: int): int = { pure val p = (c + r) % NCOL if (back) NCOL - 1 - p else p }
  pure def value(s: int, id: int, c: int): int =
    if (c == 0) id
    else if (c == 3) rnd(s, 100 + c, 0, 360 * 10^9)
    else if (c == 4) { if (hh(s, 5) % 8 == 0) pick(s, 6, [0, 45 * 10^9, -899 * 10^8, 899 * 10^8]) else rnd(s, 104, -895 * 10^8, 895 * 10^8) }
    else if (c == 28) rnd(s, 128, 0, 10^12)
    else if (c == 5 or c == 6 or c == 29) rnd(s, 100 + c, 0, 64 * 300)
    else if (hh(s, 200 + c) % (if (hh(s, 7) % 3 == 0) 2 else 7) == 0) NONE
    else if (has(TEXT, c)) hh(s, 100 + c) % 4
    else if (c == 1 or c == 2) rnd(s, 100 + c, 0, 10^14)
    else if (c == 7 or c == 8) rnd(s, 100 + c, -64 * 3000, 64 * 3000)
    else if (c == 9 or c == 10) rnd(s, 100 + c, 0, 64 * 20)
    else if (c == 11) { if (hh(s, 8) % 6 == 0) rnd(s, 111, -640, 0) else rnd(s, 111, 1, 64 * 800) }
    else if (c >= 14 and c <= 25) rnd(s, 100 + c, -128, 1400)
    else rnd(s, 100 + c, 0, 6400)

  // ---- propagation -----------------------------------------------------------------------------
  pure def opt(x: int): int = if (x == NONE) 0 else x
  pure val DEG = PI / 180
  pure val MAS = PI / 648000000            // one milliarcsecond
  type Star = { u: List[int], d: List[int], vra: int, vde: int }
  // v: field values, t: epoch in 1/1024 year
  pure def star(v: List[int], t: int): Star = {
    pure val dt = t - 2016 * 1024
    pure val pr = opt(v[7]) * MAS / 64
    pure val pd = opt(v[8]) * MAS / 64
    pure val de0 = v[4] * DEG / 10^9
    pure val c0 = fcos(de0)
    pure val ra = v[3] * DEG / 10^9 + fdv(pr, c0) * dt / 1024
    pure val de = de0 + pd * dt / 1024
    pure val cr = fcos(ra) pure val sr = fsin(ra) pure val cd = fcos(de) pure val sd = fsin(de)
    pure val rr = fdv(pr, c0)
    { u: [fmul(cd, cr), fmul(cd, sr), sd],
      d: [0 - fmul(fmul(rr, cd), sr) - fmul(pd, fmul(sd, cr)), fmul(fmul(rr, cd), cr) - fmul(pd, fmul(sd, sr)), fmul(pd, cd)],
      vra: vari(v, v[5], opt(v[9]), t), vde: vari(v, v[6], opt(v[10]), t) } }
  // variance in (1/64 mas)^2 * 2^20
  pure def vari(v: List[int], e0: int, em: int, t: int): int = {
    pure val a = t - 2016 * 1024
    pure val b = t - 1991 * 1024 - 256
    pure val k = 24 * 1024 + 768
    pure val q = if (v[13] == 0) a * a else b * b - k * k
    imax(e0 * e0 * 2^20 + em * em * q, 0) }
  pure def sampleEv(v: List[int], t: int): Ev = {
    pure val s = star(v, t)
    pure val known = v[11] != NONE and v[11] > 0
    ev("sample", v.append(t), [b2i(known), if (known) 206264806247096 * 10^24 * 64 / v[11] else SC].concat(s.u).concat(s.d).concat([s.vra, s.vde])) }

  // ---- colour ----------------------------------------------------------------------------------
  pure val KX = [-200, 0, 300, 650, 1000, 1500, 2000, 2500, 3000]
  pure val KY = [15000, 10000, 8000, 5800, 5000, 4000, 3500, 3200, 3000]
  // colour index in 1/64 -> temperature
  pure def teff(c: int): int = {
    pure val x = imax(imin(c * 1000, 3000 * 64), -200 * 64)     // 1/64000
    range(0, 8).foldl({ done: false, y: 0 }, (a, i) =>
      if (a.done or x > KX[i + 1] * 64) a
      else { done: true, y: KY[i] * SC + (KY[i + 1] - KY[i]) * (x - KX[i] * 64) * SC / ((KX[i + 1] - KX[i]) * 64) }).y }
  pure def clamp01(x: int): int = imax(0, imin(SC, x))
  pure def dec(n: int): int = n * 10^20        // constants with ten decimals
  pure def black(t0: int): List[int] = {
    pure val t = imax(1000 * SC, imin(40000 * SC, t0)) / 100
    pure val hot = t > 66 * SC
    [ if (hot) clamp01(fmul(dec(3296987274460), fpow(t - 60 * SC, 0 - dec(1332047592))) / 255) else SC,
      if (hot) clamp01(fmul(dec(2881221695283), fpow(t - 60 * SC, 0 - dec(755148492))) / 255)
      else clamp01((fmul(dec(994708025861), fln(t)) - dec(1611195681661)) / 255),
      if (t >= 66 * SC) SC else if (t <= 19 * SC) 0 else clamp01((fmul(dec(1385177312231), fln(t - 10 * SC)) - dec(3050447927307)) / 255) ] }
  pure def vivid(c: List[int]): List[int] = {
    pure val a = lsum(c) / 3
    range(0, 3).foldl(List(), (l, i) => l.append(clamp01(a + (c[i] - a) * 115 / 100))) }
  pure def linear(c: List[int]): List[int] =
    range(0, 3).foldl(List(), (l, i) => l.append(if (c[i] * 100000 <= 4045 * SC) c[i] * 100 / 1292 else fpow((c[i] + SC * 55 / 1000) * 1000 / 1055, SC * 24 / 10)))
  pure def colourEv(v: List[int]): Ev = {
    pure val here = v[14] != NONE and v[16] != NONE and v[18] != NONE
    pure val t = teff(v[16] - v[18])
    pure val b = black(t)
    pure val s = vivid(b)
    ev("colour", v, if (here) [1, t].concat(b).concat(s).concat(linear(s)) else [0]) }
  pure def irEv(v: List[int]): Ev = {
    pure val here = v[20] != NONE and v[22] != NONE and v[24] != NONE
    pure val cl = [24, 22, 20].foldl(List(), (l, i) => l.append(imax(0, imin(512, 1024 - v[i]))))
    ev("infrared", v, if (here) [1].concat(cl) else [0]) }

  // ---- behaviour -------------------------------------------------------------------------------
  action init = { nondet s = 0.to(2^62).oneOf()
    val r = hh(s, 1) % NCOL val b = hh(s, 2) % 2 == 0
    val len0 = pick(s, 3, [0, 1, 55, 56, 63, 64, 65, 1000, 65535, 65536, 65537, 131072, 150000])
    all { rot' = r, rev' = b, rows' = List(), file' = { flips: Set(), tail: len0 }, snaps' = [{ flips: Set(), tail: len0 }],
      out' = [ev("open", [b2i(b), len0].concat(range(0, NCOL).foldl(List(), (l, c) => l.append(place(r, b, c)))), List())] } }
  // kind: 0 intact, 1 garbage in a number, 2 required field empty, 3 cut short, 4 extra fields, 5 not UTF-8
  action write = all {
    rows.length() < 40,
    { nondet s = 0.to(2^62).oneOf()
      val id = rows.length() + 1000 * (hh(s, 1) % 5)
      val k = if (hh(s, 2) % 2 == 0) 0 else hh(s, 3) % 6
      val base = range(0, NCOL).foldl(List(), (l, c) => l.append(value(s, id, c)))
      val col = if (k == 1) pick(s, 4, REQ.concat(OPTN)) else if (k == 2) pick(s, 4, REQ) else if (k == 5) pick(s, 4, TEXT) else 0
      val cut = if (k == 3) rnd(s, 5, 1, NCOL) else NCOL
      val there = range(0, NCOL).foldl(List(), (l, c) => l.append(if (place(rot, rev, c) < cut) base[c] else NONE))
      val ok = k != 1 and k != 2 and k != 5 and REQ.foldl(true, (b, c) => b and there[c] != NONE)
      all { rows' = rows.append({ v: there, ok: ok }), rot' = rot, rev' = rev, file' = file, snaps' = snaps,
        out' = [ev("write", [k, col, cut, hh(s, 6) % 8].concat(base), there)] } } }
  pure def good(rs: List[Row]): List[int] = range(0, rs.length()).foldl(List(), (l, i) => if (rs[i].ok) l.append(i) else l)
  action keep = all { rot' = rot, rev' = rev, rows' = rows }
  action still = all { file' = file, snaps' = snaps }
  action load = { nondet how = 0.to(4).oneOf()
    all { keep, still, out' = [ev("load", [how], good(rows))] } }
  // a catalogue of many rows: the rows so far several times over
  action bulk = { nondet s = 0.to(2^62).oneOf()
    val r = pick(s, 1, [2, 5, 20, 60, 150, 400])
    val g = good(rows)
    all { keep, still, rows.length() > 0, r * rows.length() <= 1600, out' = [ev("bulk", [r], [r * g.length()].concat(g))] } }
  // the file changes to its body repeated (or to nothing) while the verified loader is at work: it
  // returns the rows with the expected digest or refuses.  which: 0 the digest before, 1 the one after
  action swap = { nondet s = 0.to(2^62).oneOf()
    val g = good(rows)
    val which = hh(s, 1) % 2
    val r = hh(s, 2) % 4
    all { keep, still, rows.length() > 0, out' = [ev("swap", [hh(s, 3) % 12, hh(s, 4) % 2, r, which], [(if (which == 0) 1 else r) * g.length()].concat(g))] } }
  action flip = { nondet s = 0.to(2^62).oneOf()
    val p = if (file.tail == 0) 0 else pick(s, 1, [0, file.tail - 1, hh(s, 2) % file.tail, (hh(s, 2) % 3) * (file.tail / 3)])
    all { file.tail > 0, keep, snaps' = snaps, file' = { flips: if (p.in(file.flips)) file.flips.exclude(Set(p)) else file.flips.union(Set(p)), tail: file.tail },
      out' = [ev("flip", [p], List())] } }
  action grow = { nondet n = Set(1, 64, 65536).oneOf()
    all { file.tail < 400000, keep, snaps' = snaps, file' = { ...file, tail: file.tail + n }, out' = [ev("resize", [file.tail + n], List())] } }
  action cut = { nondet n = Set(1, 3, 64).oneOf()
    val t = imax(0, file.tail - n)
    all { keep, snaps' = snaps, file' = { flips: file.flips.filter(p => p < t), tail: t }, out' = [ev("resize", [t], List())] } }
  action remember = all { snaps.length() < 12, keep, file' = file, snaps' = snaps.append(file), out' = [ev("remember", List(), List())] }
  action verify = { nondet s = 0.to(2^62).oneOf()
    val i = if (hh(s, 1) % 3 == 0) snaps.length() - 1 else hh(s, 1) % snaps.length()
    val mode = hh(s, 2) % 6
    all { keep, still, out' = [ev("verify", [i, mode, hh(s, 3) % 64], [b2i(snaps[i] == file and mode < 3)])] } }
  action look = { nondet s = 0.to(2^62).oneOf()
    val v0 = range(0, NCOL).foldl(List(), (l, c) => l.append(value(s, 7, c)))
    val t = pick(s, 11, [2016 * 1024, 1991 * 1024 + 256, rnd(s, 12, 1900 * 1024, 2100 * 1024), rnd(s, 12, 1960 * 1024, 2030 * 1024)])
    all { keep, still, out' = [sampleEv(v0, t), colourEv(v0), irEv(v0)] } }
  action step = any { write, write, write, write, load, bulk, swap, swap, flip, flip, grow, cut, remember, verify, verify, look, look }
  // rows come back in file order without the damaged ones; the reported rate is the rate of the position
  val inv = and {
    0.to(good(rows).length() - 2).forall(k => good(rows)[k] < good(rows)[k + 1]),
    rows.length() == 0 or {
      val v = rows[rows.length() - 1].v
      or { not(rows[rows.length() - 1].ok),
        { val a = star(v, 2020 * 1024) val b = star(v, 2020 * 1024 + 1)
          and { 0.to(2).forall(i => iabs((b.u[i] - a.u[i]) * 1024 - a.d[i]) < iabs(a.d[i]) / 1000 + 10^20),
            iabs(fsq(a.u[0]) + fsq(a.u[1]) + fsq(a.u[2]) - SC) < 10^6 } } } } }
}
