// G01: a geodetic position (latitude, longitude, height) and its Earth-fixed point.
// Moves of the position have exact geometric consequences that the specification checks on itself
// (invariant) while the crate's forward map and both inverse algorithms are compared with the state.
module g01 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  import wgs.* from "./wgs"
  var lat: int      // 10^-15 rad
  var lon: int
  var h: int        // millimetres
  var out: List[Ev]

  pure val HPI = 1570796326794896       // pi/2 and pi in 10^-15 rad, rounded inwards
  pure val UPI = 3141592653589793
  pure def F(v: int): int = v * 10^15
  pure def pos(la: int, lo: int, hh0: int): P3 = toEcef(F(la), F(lo), hh0 * 10^27)
  pure def evp(la: int, lo: int, hv: int): Ev = {
    pure val p = pos(la, lo, hv)
    ev("pos", [la, lo, hv], [p.x, p.y, p.z]) }
  pure def latOf(s: int): int = {
    pure val k = hh(s, 10) % 12
    pure val sg = if (hh(s, 11) % 2 == 0) 1 else -1
    if (k == 0) 0
    else if (k == 1) sg * rnd(s, 12, 1, 10^9)                           // within a microradian of the equator
    else if (k == 2) sg * (HPI - rnd(s, 12, 10^5, 10^9))                // 0.1 nrad .. 1 urad from a pole
    else if (k == 3) sg * (HPI - rnd(s, 12, 10^9, 10^13))
    else if (k == 4) sg * (HPI / 2 + rnd(s, 12, -10^6, 10^6))
    else sg * rnd(s, 12, 0, HPI - 10^9) }
  pure def lonOf(s: int): int = {
    pure val k = hh(s, 20) % 12
    if (k == 0) 0 else if (k == 1) HPI else if (k == 2) -HPI else if (k == 3) UPI - 10^6 else if (k == 4) -UPI + 10^6
    else rnd(s, 21, -UPI + 1000, UPI - 1000) }
  pure def hOf(s: int): int = {
    pure val k = hh(s, 30) % 8
    if (k == 0) 0 else if (k == 1) rnd(s, 31, -10^7, 0) else if (k == 2) rnd(s, 31, -1000, 1000)
    else if (k == 3) rnd(s, 31, 3 * 10^10, 5 * 10^10) else if (k == 4) rnd(s, 31, 10^8, 2 * 10^9) else rnd(s, 31, 0, 10^8) }

  action place0(la: int, lo: int, hv: int): bool = all { lat' = la, lon' = lo, h' = hv, out' = [evp(la, lo, hv)] }
  action init = place0(0, 0, 0)
  action place = { nondet s = 0.to(2^62).oneOf() place0(latOf(s), lonOf(s), hOf(s)) }
  action mirror = place0(-lat, lon, h)
  action turn = { nondet s = 0.to(2^62).oneOf() place0(lat, lonOf(s), h) }
  action climb = { nondet s = 0.to(2^62).oneOf() place0(lat, lon, hOf(s)) }
  action slide = { nondet s = 0.to(2^62).oneOf() place0(latOf(s), lon, h) }
  // on the rotation axis: latitude +-pi/2, height |z| - b
  action axis = {
    nondet s = 0.to(2^62).oneOf()
    val hv = hOf(s)
    all { lat' = lat, lon' = lon, h' = h, out' = [ev("axis", [hh(s, 1) % 2, hv], [WB + hv * 10^27])] }
  }
  action step = any { place, place, place, place, mirror, turn, climb, slide, axis }
  // the point at height h lies h along the outward normal of the surface point, which is on the ellipsoid
  val inv = {
    val p0 = pos(lat, lon, 0)
    val p1 = pos(lat, lon, h)
    val sp = fsin(F(lat))
    val cp = fcos(F(lat))
    val hm = h * 10^27
    and { iabs(fsq(p0.x) / (WA * WA) + fsq(p0.y) / (WA * WA) + fdv(fsq(p0.z) / (WA * WA), SC - WE2) - SC) < 10^8,
      iabs(p1.z - p0.z - fmul(hm, sp)) < 10^14,
      iabs(p1.x - p0.x - fmul(fmul(hm, cp), fcos(F(lon)))) < 10^14,
      iabs(p1.y - p0.y - fmul(fmul(hm, cp), fsin(F(lon)))) < 10^14 } }
}
