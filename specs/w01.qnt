// W01: the World Magnetic Model as the gradient of its degree-12 potential.  The state is a date
// and a geodetic point that move; the field and its secular variation are evaluated from the
// published coefficients with directly Schmidt-normalised recursions in fixed point.
module w01 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  import wgs.* from "./wgs"
  import wmm.* from "./wmm"
  var lat: int     // 1e-15 rad
  var lon: int
  var h: int       // millimetres
  var yr: int      // 1/1000 year
  var out: List[Ev]

  pure val DEG = 12
  pure def ix(n: int, m: int): int = n * (n + 1) / 2 + m - 1
  // sqrt((2n-1)/(2n)) for the sectorial terms
  pure val SEC = range(0, 13).foldl(List(), (l, n) => l.append(if (n < 2) SC else fsqrt(fq(2 * n - 1, 2 * n))))
  // sqrt(n^2 - m^2), index 13 n + m
  pure val ROOT = range(0, 169).foldl(List(), (l, i) => { pure val n = i / 13 pure val m = i % 13 l.append(if (n <= m) 0 else fsqrt((n * n - m * m) * SC)) })
  type Sum = { x: int, y: int, z: int, xd: int, yd: int, zd: int }
  type St = { p: int, q: int, dp: int, dq: int, s: Sum, rp: int }
  // sums of the components at (sin, cos) of geocentric latitude; rr = (a/r)^k for k = 2 + n
  pure def harm(sp: int, cp: int, cl: int, sl: int, rat: List[int], dt: int): Sum = {
    range(0, 13).foldl({ pm: SC, dpm: 0, cm: SC, sm: 0, s: { x: 0, y: 0, z: 0, xd: 0, yd: 0, zd: 0 }, u: 0 }, (a, m) => {
      // a.pm = P(m,m), a.dpm its latitude derivative, a.u = P(m,m) / cos
      pure val c = range(imax(m, 1), 13).foldl({ p: a.pm, dp: a.dpm, u: a.u, p1: 0, dp1: 0, u1: 0, s: a.s, first: true }, (b, n) => {
        // advance to degree n (P(n,m) from P(n-1,m), P(n-2,m)) unless at the sectorial term
        pure val adv = not(b.first) or m == 0
        pure val rt = ROOT[13 * n + m]
        pure val ro = if (n > 0) ROOT[13 * (n - 1) + m] else 0
        pure val k = 2 * n - 1
        pure val p = if (adv) fdv(k * fmul(sp, b.p) - fmul(ro, b.p1), rt) else b.p
        pure val dp = if (adv) fdv(k * (fmul(cp, b.p) + fmul(sp, b.dp)) - fmul(ro, b.dp1), rt) else b.dp
        pure val u = if (m == 0) 0 else if (adv) fdv(k * fmul(sp, b.u) - fmul(ro, b.u1), rt) else b.u
        pure val r = COF[ix(n, m)]
        pure val g = r[2] * 1000 + dt * r[4]            // 1e-4 nT
        pure val hh0 = r[3] * 1000 + dt * r[5]
        pure val comb = (g * a.cm + hh0 * a.sm) / 10000
        pure val azi = m * (g * a.sm - hh0 * a.cm) / 10000
        pure val combd = (r[4] * a.cm + r[5] * a.sm) / 10
        pure val azid = m * (r[4] * a.sm - r[5] * a.cm) / 10
        pure val rs = rat[n]
        { p: p, dp: dp, u: u, p1: if (adv) b.p else 0, dp1: if (adv) b.dp else 0, u1: if (adv) b.u else 0, first: false,
          s: { x: b.s.x - fmul(rs, fmul(comb, dp)), y: b.s.y + fmul(rs, fmul(azi, u)), z: b.s.z - (n + 1) * fmul(rs, fmul(comb, p)),
               xd: b.s.xd - fmul(rs, fmul(combd, dp)), yd: b.s.yd + fmul(rs, fmul(azid, u)), zd: b.s.zd - (n + 1) * fmul(rs, fmul(combd, p)) } } })
      pure val f = if (m < 12) SEC[m + 1] else SC
      { pm: fmul(f, fmul(cp, a.pm)), dpm: fmul(f, fmul(cp, a.dpm) - fmul(sp, a.pm)), u: fmul(f, a.pm),
        cm: fmul(a.cm, cl) - fmul(a.sm, sl), sm: fmul(a.sm, cl) + fmul(a.cm, sl), s: c.s }
    }).s }
  type Obs = { r: int, sp: int, cp: int, f: List[int] }
  pure def observe(lt: int, lo: int, hv: int, y: int): Obs = {
    pure val la = lt * 10^15
    pure val p = toEcef(la, 0, hv * 10^27)
    pure val r = fsqrt(fsq(p.x) + fsq(p.z))
    pure val sp = fdv(p.z, r)
    pure val cp = fdv(p.x, r)
    pure val q = fdv(6371200 * SC, r)
    pure val rat = range(0, 13).foldl(List(), (l, n) => if (n == 0) l.append(fsq(q)) else l.append(fmul(q, l[n - 1])))
    pure val s = harm(sp, cp, fcos(lo * 10^15), fsin(lo * 10^15), rat, y - 2025000)
    // turn by geocentric minus geodetic latitude
    pure val sg = fsin(la)
    pure val cg = fcos(la)
    pure val sd = fmul(sp, cg) - fmul(cp, sg)
    pure val cd = fmul(cp, cg) + fmul(sp, sg)
    { r: r, sp: sp, cp: cp, f: [fmul(s.x, cd) - fmul(s.z, sd), s.y, fmul(s.x, sd) + fmul(s.z, cd),
      fmul(s.xd, cd) - fmul(s.zd, sd), s.yd, fmul(s.xd, sd) + fmul(s.zd, cd)] } }
  pure def evalEv(lt: int, lo: int, hv: int, y: int): Ev = {
    pure val o = observe(lt, lo, hv, y)
    ev("eval", [lt, lo, hv, y], [o.r, o.sp, o.cp].concat(o.f)) }

  action init = all { lat' = 0, lon' = 0, h' = 0, yr' = 2025000, out' = [ev("table", lsumm(COF), List())] }
  pure def lsumm(c: List[List[int]]): List[int] = c.foldl(List(), (l, r) => l.concat(r))
  pure def go(lt: int, lo: int, hv: int, y: int): List[Ev] = [evalEv(lt, lo, hv, y)]
  action place = { nondet s = 0.to(2^62).oneOf()
    val k = hh(s, 1) % 10
    val sg = if (hh(s, 2) % 2 == 0) 1 else -1
    val la = if (k == 0) 0 else if (k == 1) sg * (1570796326794896 - rnd(s, 3, 10^8, 10^12)) else if (k == 2) sg * (1570796326794896 - rnd(s, 3, 10^9, 10^14)) else sg * rnd(s, 3, 0, 1570000000000000)
    val lo = if (hh(s, 4) % 6 == 0) pick(s, 5, [0, 1570796326794896, -1570796326794896, 3141592653589793]) else rnd(s, 6, -3141592653589793, 3141592653589793)
    val hv = pick(s, 7, [0, rnd(s, 8, -10^6, 10^6), rnd(s, 8, 0, 850 * 10^6), rnd(s, 8, 0, 10^11)])
    val y = pick(s, 9, [2025000, 2027500, rnd(s, 10, 2025000, 2030000), rnd(s, 10, 1900000, 2100000)])
    all { lat' = la, lon' = lo, h' = hv, yr' = y, out' = go(la, lo, hv, y) } }
  action wait = { nondet s = 0.to(2^62).oneOf()
    val y = yr + rnd(s, 1, -5000, 5000)
    all { y > 1800000, y < 2200000, lat' = lat, lon' = lon, h' = h, yr' = y, out' = go(lat, lon, h, y) } }
  action circle = { nondet k = Set(-2, -1, 1, 2).oneOf()
    val lo = lon + k * 6283185307179586
    all { iabs(lo) < 30000000000000000, lat' = lat, lon' = lo, h' = h, yr' = yr, out' = go(lat, lo, h, yr) } }
  action walk = { nondet s = 0.to(2^62).oneOf()
    val la = lat + rnd(s, 1, -10^12, 10^12) val lo = lon + rnd(s, 2, -10^13, 10^13)
    all { iabs(la) < 1570796000000000, lat' = la, lon' = lo, h' = h, yr' = yr, out' = go(la, lo, h, yr) } }
  action climb = { nondet s = 0.to(2^62).oneOf()
    val hv = h + rnd(s, 1, -10^7, 10^8)
    all { hv > -20000000, lat' = lat, lon' = lon, h' = hv, yr' = yr, out' = go(lat, lon, hv, yr) } }
  action poles = { nondet s = 0.to(2^62).oneOf()
    all { lat' = lat, lon' = lon, h' = h, yr' = yr, out' = [ev("pole", [hh(s, 1) % 2, rnd(s, 2, -3141592653589793, 3141592653589793), rnd(s, 3, 0, 10^9), rnd(s, 4, 2025000, 2030000)], List())] } }
  action coeff = { nondet s = 0.to(2^62).oneOf()
    val r = COF[hh(s, 1) % 90]
    val y = rnd(s, 2, 1900000, 2100000)
    all { lat' = lat, lon' = lon, h' = h, yr' = yr, out' = [ev("coeff", [y, r[0], r[1]], [r[2] * 1000 + (y - 2025000) * r[4], r[3] * 1000 + (y - 2025000) * r[5], r[4], r[5]])] } }
  action step = any { place, place, place, wait, circle, walk, climb, poles, coeff }
  // linear in time with the secular variation as the slope; outside the sources the field dies away
  val inv = {
    val o = observe(lat, lon, h, yr)
    val o2 = observe(lat, lon, h, yr + 1000)
    0.to(2).forall(i => iabs(o2.f[i] - o.f[i] - o.f[i + 3]) < 10^15) }
}
