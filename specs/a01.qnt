// A01: attitudes.  The state is one passive rotation From -> To held as a unit quaternion in 30-digit
// fixed point; every representation the crate keeps of it (quaternion, DCM, Rotation) must map vectors
// the same way after any sequence of compositions, inversions, conversions and body-rate integrations.
module a01 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  type Q = List[int]
  var q: Q
  var out: List[Ev]

  pure def unit(a: Q): Q = {
    pure val n = isqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2] + a[3] * a[3])
    [fdv(a[0], n), fdv(a[1], n), fdv(a[2], n), fdv(a[3], n)] }
  // integers: scale up first so that the integer square root keeps its digits
  pure def unitI(a: Q): Q = unit(lmap(a, t => t * SC))
  pure def ham(a: Q, b: Q): Q = [
    fmul(a[0], b[0]) - fmul(a[1], b[1]) - fmul(a[2], b[2]) - fmul(a[3], b[3]),
    fmul(a[0], b[1]) + fmul(a[1], b[0]) + fmul(a[2], b[3]) - fmul(a[3], b[2]),
    fmul(a[0], b[2]) - fmul(a[1], b[3]) + fmul(a[2], b[0]) + fmul(a[3], b[1]),
    fmul(a[0], b[3]) + fmul(a[1], b[2]) - fmul(a[2], b[1]) + fmul(a[3], b[0])]
  pure def conj(a: Q): Q = [a[0], -a[1], -a[2], -a[3]]
  // passive rotation of a vector: q* v q
  pure def rot(a: Q, v: List[int]): List[int] = { pure val r = ham(ham(conj(a), [0, v[0], v[1], v[2]]), a) [r[1], r[2], r[3]] }
  // matrix rows from the images of the axes
  pure def dcm(a: Q): List[int] = {
    pure val x = rot(a, [SC, 0, 0])
    pure val y = rot(a, [0, SC, 0])
    pure val z = rot(a, [0, 0, SC])
    [x[0], y[0], z[0], x[1], y[1], z[1], x[2], y[2], z[2]] }
  pure def dot3(u: List[int], v: List[int]): int = fmul(u[0], v[0]) + fmul(u[1], v[1]) + fmul(u[2], v[2])
  pure def dots(u: List[int], v: List[int]): int = u[0] * v[0] + u[1] * v[1] + u[2] * v[2]
  pure def small(a: int): bool = iabs(a) < 10^6
  // rotation by angle (fixed point) about axis k
  pure def about(k: int, ang: int): Q = {
    pure val c = fcos(ang / 2)
    pure val s = fsin(ang / 2)
    if (k == 0) [c, s, 0, 0] else if (k == 1) [c, 0, s, 0] else [c, 0, 0, s] }
  // yaw, then pitch, then roll (each about the axes reached so far): DCM Rx Ry Rz
  pure def fromEuler(roll: int, pitch: int, yaw: int): Q = ham(ham(about(2, yaw), about(1, pitch)), about(0, roll))
  pure def st(a: Q): List[int] = a.concat(dcm(a))

  // integer quaternions: special axes, half turns, quarter turns, generic
  pure def intQ(s: int): Q = {
    pure val k = hh(s, 100) % 6
    pure val lim = if (k < 2) 1 else if (k == 2) 2 else if (k == 3) 10 else 1000
    pure val v = rndList(s, 1, 4, -lim, lim)
    pure val w = if (k == 5) v.replaceAt(hh(s, 101) % 4, pick(s, 102, [0, 1, 100000])) else v
    if (w[0] == 0 and w[1] == 0 and w[2] == 0 and w[3] == 0) [1, 0, 0, 0] else w }
  // angles: multiples of 45 degrees, generic, and the neighbourhood of the poles
  pure def angle(s: int, i: int, lim: int): int = {
    pure val k = hh(s, i) % 4
    if (k == 0) rnd(s, i + 50, -lim, lim) * PI / 4 else rnd(s, i + 60, -lim * 1000, lim * 1000) * PI / 4000 }
  pure def pitchA(s: int): int = {
    pure val k = hh(s, 30) % 8
    pure val g = pick(s, 32, [1, -1])
    if (k < 2) g * HALFPI else if (k == 2) g * (HALFPI - SC / 10^(3 + hh(s, 31) % 14)) else if (k == 3) 0 else rnd(s, 33, -1570, 1570) * SC / 1000 }

  action init = all { q' = [SC, 0, 0, 0], out' = [ev("set", [1, 0, 0, 0], st([SC, 0, 0, 0]))] }
  action setQ = {
    nondet s = 0.to(2^62).oneOf()
    val a = intQ(s)
    val u = unitI(a)
    all { q' = u, out' = [ev("set", a, st(u))] }
  }
  action compose = {
    nondet s = 0.to(2^62).oneOf()
    val a = intQ(s)
    val u = unit(ham(q, unitI(a)))
    all { q' = u, out' = [ev("compose", a, st(u))] }
  }
  action invert = {
    nondet how = Set(0, 1, 2).oneOf()
    all { q' = conj(q), out' = [ev("invert", [how], st(conj(q)))] }
  }
  // the attitude of a vehicle given by angles replaces the state
  action euler = {
    nondet s = 0.to(2^62).oneOf()
    val roll = angle(s, 1, 4)
    val yaw = angle(s, 2, 4)
    val pitch = pitchA(s)
    val u = unit(fromEuler(roll, pitch, yaw))
    all { q' = u, out' = [ev("euler", [roll, pitch, yaw], st(u))] }
  }
  action axis = {
    nondet s = 0.to(2^62).oneOf()
    val v0 = rndList(s, 1, 3, -9, 9)
    val v = if (v0[0] == 0 and v0[1] == 0 and v0[2] == 0) [0, 0, 1] else v0
    val ang = angle(s, 2, 12)
    val n = isqrt((v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) * SC * SC)
    val sn = fsin(ang / 2)
    val u = unit([fcos(ang / 2), fdv(v[0] * sn, n), fdv(v[1] * sn, n), fdv(v[2] * sn, n)])
    all { q' = u, out' = [ev("axis", v.append(ang), st(u))] }
  }
  // elementary passive rotations of the DCM type
  action elementary = {
    nondet s = 0.to(2^62).oneOf()
    val k = hh(s, 1) % 3
    val ang = angle(s, 2, 12)
    all { q' = q, out' = [ev("elementary", [k, ang], dcm(about(k, ang)))] }
  }
  // pass the state through other representations and back
  action convert = {
    nondet path = 0.to(7).oneOf()
    all { q' = q, out' = [ev("convert", [path], st(q))] }
  }
  action rotate = {
    nondet s = 0.to(2^62).oneOf()
    val v = rndList(s, 1, 3, -50, 50)
    all { q' = q, out' = [ev("rotate", v, rot(q, lmap(v, t => t * SC)))] }
  }
  // body rate w (1/64 rad/s) for dt (1/64 s): the frame turns about its own axes
  action spin = {
    nondet s = 0.to(2^62).oneOf()
    val w = pick(s, 9, [0, 1, 1, 1]).times(rndList(s, 1, 3, -200, 200))
    val dt = rnd(s, 2, -100, 100)
    val n = isqrt((w[0] * w[0] + w[1] * w[1] + w[2] * w[2]) * SC * SC)
    val half = n * dt / 8192
    val k = if (n == 0) 0 else fdv(fsin(half), n)
    val u = unit(ham(q, [fcos(half), w[0] * k, w[1] * k, w[2] * k]))
    // the same turn at a rate 2^e times smaller for a time 2^e times longer
    val e = pick(s, 3, [0, 0, rnd(s, 4, -8, 8), rnd(s, 4, -30, 50)])
    all { q' = u, out' = [ev("spin", w.concat([dt, e]), st(u))] }
  }
  // Taylor step about the present axis: rate c * axis, acceleration d * axis (1/64), small dt (1/1024)
  action taylor = {
    nondet s = 0.to(2^62).oneOf()
    val v = pick(s, 7, [0, 1, 2, 3, 4]).axisOf(s)
    val c = rnd(s, 1, -128, 128)
    val d = rnd(s, 2, -200, 200)
    val dt = rnd(s, 3, 1, 30)
    val ang0 = rnd(s, 4, -3000, 3000) * SC / 1000
    val n = isqrt((v[0] * v[0] + v[1] * v[1] + v[2] * v[2]) * SC * SC)
    // half angle (c dt + d dt^2 / 2) |v| / 2
    val x = iabs(c * dt) * n / (2 * 64 * 1024)
    val y = iabs(d * dt * dt) * n / (2 * 64 * 1024 * 1024)
    val half = ang0 / 2 + n * (c * dt * 2048 + d * dt * dt) / (4 * 64 * 1024 * 1024)
    val f = fdv(fsin(half), n)
    val u = [fcos(half), v[0] * f, v[1] * f, v[2] * f]
    // remainder of the third-order expansion
    val tol = (fsq(fsq(x)) + 6 * fmul(fsq(x), y) + 3 * fsq(y)) / 24
    all { q' = u, out' = [ev("taylor", v.concat([ang0, c, d, dt]), [tol].concat(st(u)))] }
  }
  pure def times(k: int, v: List[int]): List[int] = lmap(v, t => k * t)
  pure def axisOf(k: int, s: int): List[int] =
    if (k == 0) [1, 0, 0] else if (k == 1) [0, 1, 0] else if (k == 2) [0, 0, 1] else { pure val v = rndList(s, 20, 3, -2, 2) if (v[0] == 0 and v[1] == 0 and v[2] == 0) [1, 1, 1] else v }
  action step = any { setQ, compose, compose, invert, euler, axis, elementary, convert, convert, rotate, rotate, spin, taylor }
  // the specification's own attitude is a proper rotation
  val inv = {
    val m = dcm(q)
    val r0 = [m[0], m[1], m[2]]
    val r1 = [m[3], m[4], m[5]]
    val r2 = [m[6], m[7], m[8]]
    val det = fmul(m[0], fmul(m[4], m[8]) - fmul(m[5], m[7])) - fmul(m[1], fmul(m[3], m[8]) - fmul(m[5], m[6])) + fmul(m[2], fmul(m[3], m[7]) - fmul(m[4], m[6]))
    and { small(dot3(r0, r0) - SC), small(dot3(r1, r1) - SC), small(dot3(r2, r2) - SC), small(dot3(r0, r1)), small(dot3(r0, r2)), small(dot3(r1, r2)), small(det - SC) } }
}
