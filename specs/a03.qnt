// A03: reference frames.  The state is the Earth's rotation since the epoch (seconds, accumulated by
// steps), the Moon's epoch and its orientation at that epoch.  Every transform the crate offers is
// the passive rotation given here; pairs are inverse and rotations over consecutive intervals chain.
module a03 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  type M = List[int]
  var t: int        // Earth clock, 1/8 s
  var ep: int       // lunar epoch, s
  var oq: M         // ICRF -> LIRF orientation at the epoch (integer quaternion)
  var out: List[Ev]

  pure def rowcol(a: M, b: M, i: int, j: int): int = fmul(a[3 * i], b[j]) + fmul(a[3 * i + 1], b[3 + j]) + fmul(a[3 * i + 2], b[6 + j])
  pure def mm(a: M, b: M): M = range(0, 9).foldl(List(), (l, k) => l.append(rowcol(a, b, k / 3, k % 3)))
  pure def rx(x: int): M = { pure val c = fcos(x) pure val s = fsin(x) [SC, 0, 0, 0, c, s, 0, -s, c] }
  pure def ry(x: int): M = { pure val c = fcos(x) pure val s = fsin(x) [c, 0, -s, 0, SC, 0, s, 0, c] }
  pure def rz(x: int): M = { pure val c = fcos(x) pure val s = fsin(x) [c, s, 0, -s, c, 0, 0, 0, SC] }
  pure def qm(a: M): M = {
    pure val n = a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
    pure val w = a[0] pure val x = a[1] pure val y = a[2] pure val z = a[3]
    lmap([w * w + x * x - y * y - z * z, 2 * (x * y + w * z), 2 * (x * z - w * y),
      2 * (x * y - w * z), w * w - x * x + y * y - z * z, 2 * (y * z + w * x),
      2 * (x * z + w * y), 2 * (y * z - w * x), w * w - x * x - y * y + z * z], k => fq(k, n)) }
  pure def angle(s: int, i: int): int = {
    pure val k = hh(s, i) % 4
    if (k == 0) rnd(s, i + 50, -8, 8) * PI / 4 else if (k == 1) rnd(s, i + 55, -9, 9) * SC / 10^6 else rnd(s, i + 60, -6300, 6300) * SC / 1000 }
  // 7.292115146706979e-5 rad/s (Earth model) and 7.2921150e-5 rad/s (ITRF), per 1/8 s
  pure val WE = 7292115146706979 * 10^10 / 8
  pure val WI = 7292115 * 10^19 / 8
  // lunar sidereal rotation, 27.321661 days
  pure def moon(sec: int): int = TWOPI * 1000000 * sec / (27321661 * 86400)

  action init = all { t' = 0, ep' = 0, oq' = [1, 0, 0, 0], out' = [ev("clock", [0, 0], rz(0).concat(rz(0)))] }
  // the Earth turns for a while; e: ICRF -> ITRF since the start for the Earth model, then for the ITRF frame
  action clock = {
    nondet s = 0.to(2^62).oneOf()
    val d = pick(s, 1, [0, 8, -8, rnd(s, 2, -800, 800), rnd(s, 3, -691200, 691200), 689312 * rnd(s, 4, -3, 3)])
    all { t' = t + d, ep' = ep, oq' = oq, out' = [ev("clock", [d, t + d], rz(WE * (t + d)).concat(rz(WI * (t + d))))] }
  }
  // any rate (1e-9 rad/s) over two consecutive intervals
  action rate = {
    nondet s = 0.to(2^62).oneOf()
    val n = pick(s, 1, [72921, 0, rnd(s, 2, -1000000, 1000000), 72921159])
    val a = rnd(s, 3, -20000, 20000)
    val b = pick(s, 4, [0, rnd(s, 5, -20000, 20000)])
    all { t' = t, ep' = ep, oq' = oq, out' = [ev("rate", [n, a, b], rz(n * a * 10^21).concat(rz(n * (a + b) * 10^21)))] }
  }
  // north, east and down of a site, as rows in the Earth-fixed frame
  action ned = {
    nondet s = 0.to(2^62).oneOf()
    val la = pick(s, 1, [0, PI / 2, -PI / 2, PI / 4, rnd(s, 2, -1570, 1570) * SC / 1000])
    val lo = angle(s, 3)
    val sa = fsin(la) val ca = fcos(la) val so = fsin(lo) val co = fcos(lo)
    all { t' = t, ep' = ep, oq' = oq, out' = [ev("ned", [la, lo], [-fmul(sa, co), -fmul(sa, so), ca, -so, co, 0, -fmul(ca, co), -fmul(ca, so), -sa])] }
  }
  // rows: axes of the first-named frame in the second
  action air = {
    nondet s = 0.to(2^62).oneOf()
    val k = hh(s, 1) % 4
    val a = angle(s, 2)
    val b = angle(s, 3)
    val c = angle(s, 4)
    // 0 wind axes from angle of attack and sideslip: Rz(beta) Ry(-alpha)
    // 1 aeroballistic wind: Ry(alpha) Rx(-phi)
    // 2 flight path axes: Ry(gamma) Rz(chi)
    // 3 body axes: Rx(roll) Ry(pitch) Rz(yaw)
    val m = if (k == 0) mm(rz(b), ry(-a)) else if (k == 1) mm(rye(a), rx(-b)) else if (k == 2) mm(ry(b), rz(a)) else mm(rx(a), mm(ry(b), rz(c)))
    all { t' = t, ep' = ep, oq' = oq, out' = [ev("air", [k, a, b, c], m)] }
  }
  // rotation by -alpha about y
  pure def rye(a: int): M = ry(-a)
  // body rates as a cross product
  action skew = {
    nondet s = 0.to(2^62).oneOf()
    val w = rndList(s, 1, 3, -99, 99)
    val v = rndList(s, 5, 3, -99, 99)
    all { t' = t, ep' = ep, oq' = oq, out' = [ev("skew", w.concat(v), [w[1] * v[2] - w[2] * v[1], w[2] * v[0] - w[0] * v[2], w[0] * v[1] - w[1] * v[0]])] }
  }
  action epoch = {
    nondet s = 0.to(2^62).oneOf()
    val e = pick(s, 1, [0, 1000, rnd(s, 2, -1000000, 1000000)])
    val v = rndList(s, 3, 4, -5, 5)
    val q = if (v[0] == 0 and v[1] == 0 and v[2] == 0 and v[3] == 0) [1, 0, 0, 0] else v
    all { t' = t, ep' = e, oq' = q, out' = [ev("epoch", [e], qm(q))] }
  }
  // e: LIRF -> LTRF at the time, ICRF -> LTRF at the time, and LIRF -> LTRF with the time counted from 0
  action lunar = {
    nondet s = 0.to(2^62).oneOf()
    val x = pick(s, 1, [0, ep, ep + 590148, rnd(s, 2, -3000000, 3000000)])
    val r = rz(moon(x - ep))
    all { t' = t, ep' = ep, oq' = oq, out' = [ev("lunar", [x], r.concat(mm(r, qm(oq))).concat(rz(moon(x))))] }
  }
  // a Moon turning at another rate (1e-9 rad/s)
  action spin = {
    nondet s = 0.to(2^62).oneOf()
    val n = rnd(s, 1, -100000, 100000)
    val x = rnd(s, 2, -1000000, 1000000)
    val r = rz(n * (x - ep) * 10^21)
    all { t' = t, ep' = ep, oq' = oq, out' = [ev("spin", [n, x], r.concat(mm(r, qm(oq))))] }
  }
  action step = any { clock, clock, rate, ned, ned, air, air, air, skew, epoch, lunar, lunar, spin }
  pure def ortho(m: M): bool = {
    pure val p = mm(m, [m[0], m[3], m[6], m[1], m[4], m[7], m[2], m[5], m[8]])
    range(0, 9).foldl(true, (b, k) => b and iabs(p[k] - (if (k % 4 == 0) SC else 0)) < 10^8) and
    iabs(fmul(m[0], fmul(m[4], m[8]) - fmul(m[5], m[7])) - fmul(m[1], fmul(m[3], m[8]) - fmul(m[5], m[6])) + fmul(m[2], fmul(m[3], m[7]) - fmul(m[4], m[6])) - SC) < 10^8 }
  // everything emitted as a matrix is a proper rotation
  val inv = or { out[0].op == "skew", and { ortho(out[0].e.slice(0, 9)), out[0].e.length() < 18 or ortho(out[0].e.slice(9, 18)) } }
}
