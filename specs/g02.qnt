// G02: normal gravity of the rotating WGS84 ellipsoid (closed form in ellipsoidal coordinates,
// NIMA TR8350.2 chapter 4), and the frame forces and torques.  The state is a body: its geodetic
// position, velocity, mass and inertia, and the rates of the Earth and the Moon.
module g02 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  import wgs.* from "./wgs"
  var lat: int      // 10^-15 rad
  var lon: int
  var h: int        // millimetres
  var mass: int     // grams
  var out: List[Ev]

  pure val EE = 52185400842339 * 10^22                 // linear eccentricity 5.2185400842339e5 m
  pure val GMW = 398600441800000                       // m^3/s^2
  pure val OM = 7292115 * 10^19                        // 7.292115e-5 rad/s
  pure val GEQ = 97803253359 * 10^20                   // 9.7803253359
  pure val KS = 1931852652458 * 10^15                  // 1.931852652458e-3
  pure val E2f = fsq(EE)
  pure val OMA = fmul(OM, WA * SC)
  pure val OMA2 = fsq(OMA)                             // (omega a)^2
  pure def qf(u: int): int = { pure val r = fdv(u, EE) (fmul(SC + 3 * fsq(r), fatan2(EE, u)) - 3 * r) / 2 }
  pure def qd(u: int): int = { pure val r = fdv(u, EE) 3 * fmul(SC + fsq(r), SC - fmul(r, fatan2(EE, u))) - SC }
  pure val Q0 = qf(WB)
  pure def somigliana(lt: int): int = {
    pure val s2 = fsq(fsin(lt))
    fdv(fmul(GEQ, SC + fmul(KS, s2)), fsqrt(SC - fmul(WE2, s2))) }
  type G = { x: int, y: int, z: int, gu: int, gb: int }
  pure def gravity(p: P3): G = {
    pure val rho2 = fsq(p.x) + fsq(p.y)
    pure val rho = fsqrt(rho2)
    pure val t = rho2 + fsq(p.z) - E2f
    pure val u2 = fmul(t, SC + fsqrt(SC + 4 * fdv(fmul(E2f, fsq(fdv(p.z, t))), SC))) / 2
    pure val u = fsqrt(u2)
    pure val ue2 = u2 + E2f
    pure val ue = fsqrt(ue2)
    pure val sb = fdv(p.z, u)
    pure val cb = fdv(rho, ue)
    pure val wf = fsqrt(fdv(u2 + fmul(E2f, fsq(sb)), ue2))
    pure val om2 = fsq(OM)
    pure val gu = fdv(-(fdv(GMW * SC, ue2) + fmul(fmul(fdv(fmul(OMA2, EE), ue2), fdv(qd(u), Q0)), fsq(sb) / 2 - SC / 6)) + fmul(fmul(om2, u), fsq(cb)), wf)
    pure val gb = fdv(fmul(fmul(sb, cb), fmul(fdv(OMA2, ue), fdv(qf(u), Q0)) - fmul(fsq(OM), ue)), wf)
    pure val cl = if (rho == 0) SC else fdv(p.x, rho)
    pure val sl = if (rho == 0) 0 else fdv(p.y, rho)
    pure val a = fdv(fmul(u, cb), fmul(wf, ue))
    pure val b = fdv(sb, wf)
    pure val gr = fmul(a, gu) - fmul(b, gb)            // along the outward radius of the parallel
    { x: fmul(gr, cl), y: fmul(gr, sl), z: fmul(b, gu) + fmul(a, gb), gu: gu, gb: gb } }
  pure def F(v: int): int = v * 10^15
  pure def pos(la: int, lo: int, hv: int): P3 = toEcef(F(la), F(lo), hv * 10^27)

  pure def latOf(s: int): int = {
    pure val k = hh(s, 10) % 8
    pure val sg = if (hh(s, 11) % 2 == 0) 1 else -1
    if (k == 0) 0 else if (k == 1) sg * rnd(s, 12, 1, 10^9)
    else if (k == 2) sg * (1570796326794896 - rnd(s, 12, 10^6, 10^12))
    else sg * rnd(s, 12, 0, 1570796326794896) }
  pure def hOf(s: int): int = pick(s, 30, [0, 0, rnd(s, 31, 0, 10^6), rnd(s, 31, 0, 10^8), rnd(s, 31, 0, 4 * 10^10)])
  action keep = all { lat' = lat, lon' = lon, h' = h, mass' = mass }
  action init = all { lat' = 0, lon' = 0, h' = 0, mass' = 1000, out' = [ev("nop", List(), List())] }
  pure def gev(la: int, lo: int, hv: int, mg: int): Ev = {
    pure val p = pos(la, lo, hv)
    pure val g = gravity(p)
    ev("grav", [mg], [p.x, p.y, p.z, g.x, g.y, g.z, g.gu, g.gb]) }
  action place = {
    nondet s = 0.to(2^62).oneOf()
    val la = latOf(s)
    val lo = if (hh(s, 3) % 6 == 0) pick(s, 4, [0, 1570796326794896, -1570796326794896, 3141592653589792]) else rnd(s, 5, -3141592653589793, 3141592653589793)
    val hv = hOf(s)
    val mg = pick(s, 6, [1000, 0, 1, rnd(s, 7, 1, 10^9)])
    all { lat' = la, lon' = lo, h' = hv, mass' = mg, out' = [gev(la, lo, hv, mg)] }
  }
  action mirror = all { lat' = -lat, lon' = lon, h' = h, mass' = mass, out' = [gev(-lat, lon, h, mass)] }
  action drop = all { lat' = lat, lon' = lon, h' = h / 2, mass' = mass, out' = [gev(lat, lon, h / 2, mass)] }
  action axis = {
    nondet s = 0.to(2^62).oneOf()
    val z = (if (hh(s, 1) % 2 == 0) 1 else -1) * (WB + hOf(s) * 10^27)
    val g = gravity({ x: 0, y: 0, z: z })
    all { keep, out' = [ev("grav", [1000], [0, 0, z, g.x, g.y, g.z, g.gu, g.gb])] }
  }
  action normal = {
    nondet s = 0.to(2^62).oneOf()
    val la = latOf(s)
    all { keep, out' = [ev("normal", [la], [somigliana(F(la))])] }
  }
  // rates in 1e-9 rad/s, lengths in metres, speeds in mm/s, mass in grams: exact rationals
  action forces = {
    nondet s = 0.to(2^62).oneOf()
    val w = if (hh(s, 1) % 3 == 0) [0, 0, 72921] else rndList(s, 2, 3, -100000, 100000)
    val r = rndList(s, 3, 3, -10000000, 10000000)
    val v = rndList(s, 4, 3, -8000000, 8000000)
    val mg = rnd(s, 5, 0, 10^8)
    pure def cr(a: List[int], b: List[int]): List[int] = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    val wv = cr(w, v)
    val wwr = cr(w, cr(w, r))
    all { keep, out' = [ev("forces", [mg].concat(w).concat(r).concat(v), lmap(wv, t => -2 * mg * t).concat(lmap(wwr, t => -mg * t)))] }
  }
  // gravity-gradient torque 3 mu / r^5 (r x I r) and lunar gravity -mu r / r^3
  action torque = {
    nondet s = 0.to(2^62).oneOf()
    val r = if (hh(s, 1) % 8 == 0) [0, pick(s, 2, [7000000, -7000000]), 0] else rndList(s, 3, 3, -30000000, 30000000)
    val d = rndList(s, 4, 6, -500, 500)
    val im = [1000 + d[0], d[1], d[2], d[1], 1000 + d[3], d[4], d[2], d[4], 1000 + d[5]]
    val moon = hh(s, 5) % 2
    val mu = if (moon == 0) GMW else pick(s, 6, [4902800118000, rnd(s, 7, 10^9, 10^14)])
    val ir = [0, 1, 2].foldl(List(), (l, i) => l.append(im[3 * i] * r[0] + im[3 * i + 1] * r[1] + im[3 * i + 2] * r[2]))
    val c = [r[1] * ir[2] - r[2] * ir[1], r[2] * ir[0] - r[0] * ir[2], r[0] * ir[1] - r[1] * ir[0]]
    val r2 = r[0] * r[0] + r[1] * r[1] + r[2] * r[2]
    val rn = fsqrt(r2 * SC)
    val den = r2 * r2 * rn
    val mg = rnd(s, 8, 0, 10^8)
    all { r2 > 10^12, keep,
      out' = [ev("torque", [moon, mu, mg].concat(r).concat(im), lmap(c, t => 3 * mu * t * SC * SC / den).concat(lmap(r, t => -mu * t * SC * SC / (r2 * rn))).append(3 * mu * 3000 * SC / r2 * SC / rn))] }
  }
  action centre = all { keep, out' = [ev("centre", List(), List())] }
  action orbit = {
    nondet s = 0.to(2^62).oneOf()
    val dflt = hh(s, 1) % 4 == 0
    val a = if (dflt) 384400000 else rnd(s, 2, 10^6, 10^9)
    val me = if (dflt) GMW else rnd(s, 3, 10^12, 10^15)
    val mm = if (dflt) 4902800118000 else rnd(s, 4, 0, 10^14)
    val per = rnd(s, 5, 1000, 10^7)
    val a3 = a * a * a
    all { keep, out' = [ev("orbit", [b2i(dflt), a, me, mm, per], [TWOPI / per, fmul(TWOPI, fsqrt(fdv(a3 * SC, (me + mm) * SC)))])] }
  }
  action step = any { place, place, place, mirror, drop, axis, normal, forces, forces, torque, torque, orbit, centre }

  // the closed form reduces to Somigliana's formula on the surface, points inward along the normal,
  // is mirror symmetric and weaker above the surface
  val inv = {
    val g0 = gravity(pos(lat, lon, 0))
    val gh = gravity(pos(lat, lon, h))
    val mag0 = fsqrt(fsq(g0.x) + fsq(g0.y) + fsq(g0.z))
    val sp = fsin(F(lat))
    val cp = fcos(F(lat))
    and { iabs(mag0 - somigliana(F(lat))) < 10^22,
      iabs(g0.x + fmul(mag0, fmul(cp, fcos(F(lon))))) < 10^22,
      iabs(g0.y + fmul(mag0, fmul(cp, fsin(F(lon))))) < 10^22,
      iabs(g0.z + fmul(mag0, sp)) < 10^22,
      fsq(gh.x) + fsq(gh.y) + fsq(gh.z) <= fsq(mag0 + 10^6) } }
}
