// A02: points in Cartesian, spherical and cylindrical coordinates, and angle units.
// The state is one point with exact integer Cartesian components (times 2^k, k kept by the harness as a unit).
module a02 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  type V = List[int]
  var p: V
  var out: List[Ev]

  pure def hyp(a: V): int = isqrt(lsum(lmap(a, t => t * t)) * SC * SC)
  // azimuth in [-pi, pi], inclination from +z in [0, pi]
  pure def azim(x: int, y: int): int = if (x == 0 and y == 0) 0 else fatan2(y * SC, x * SC)
  pure def incl(rc: int, z: int): int = if (rc == 0 and z == 0) 0 else fatan2(rc, z * SC)
  // [distance, azimuth, inclination, distance from the z axis]
  pure def polar(a: V): V = {
    pure val rc = hyp([a[0], a[1]])
    [hyp(a), azim(a[0], a[1]), incl(rc, a[2]), rc] }
  pure def add(a: V, b: V): V = [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
  pure def subv(a: V, b: V): V = [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
  pure def crossp(a: V, b: V): V = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
  pure def dotp(a: V, b: V): int = a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
  pure def row(m: V, r: int): V = [m[3 * r], m[3 * r + 1], m[3 * r + 2]]
  pure def big(a: V): bool = a.toS().exists(t => iabs(t) > 10^6)
  pure def toS(a: V): Set[int] = Set(a[0], a[1], a[2])
  // generic, axes, coordinate planes, the neighbourhood of the poles and of the azimuth cut
  pure def gen(s: int): V = {
    pure val k = hh(s, 90) % 8
    pure val u = rndList(s, 1, 3, -1000000, 1000000)
    pure val e = rndList(s, 5, 3, -3, 3)
    pure val g = pick(s, 91, [1, -1])
    if (k < 2) u
    else if (k == 2) e
    else if (k == 3) [e[0], e[1], g * pick(s, 92, [1000, 100000, 1000000])]
    else if (k == 4) [g * pick(s, 92, [1000, 1000000]), e[1], e[2]]
    else if (k == 5) [e[0], g * pick(s, 92, [1000, 1000000]), e[2]]
    else if (k == 6) u.replaceAt(hh(s, 93) % 3, 0)
    else rndList(s, 7, 3, -100, 100) }

  action init = all { p' = [0, 0, 0], out' = [ev("put", [0, 0, 0, 0], polar([0, 0, 0]))] }
  // a point given by components, in units 2^k
  action place = {
    nondet s = 0.to(2^62).oneOf()
    val a = gen(s)
    val k = pick(s, 94, [0, 0, 0, 1, -20, 30, 40, -40, 200, -200])
    all { p' = a, out' = [ev("put", a.append(k), polar(a))] }
  }
  // the present point as seen in the other systems
  action view = all { p' = p, out' = [ev("put", p.append(0), polar(p))] }
  // spherical given: r, azimuth, inclination -> components and axis distance
  action spherical = {
    nondet s = 0.to(2^62).oneOf()
    val r = pick(s, 1, [0, 1, 7, 1000, 6378137, rnd(s, 2, 0, 1000000)])
    val az = pick(s, 3, [rnd(s, 4, -4, 4) * PI / 4, rnd(s, 5, -3141, 3141) * SC / 1000])
    val th = pick(s, 6, [rnd(s, 7, 0, 4) * PI / 4, rnd(s, 8, 0, 3141) * SC / 1000, SC / 10^(4 + hh(s, 9) % 8), PI - SC / 10^(4 + hh(s, 9) % 8)])
    val st = fsin(th)
    all { p' = p, out' = [ev("spherical", [r, az, th], [r * fmul(st, fcos(az)), r * fmul(st, fsin(az)), r * fcos(th), r * st])] }
  }
  // cylindrical given: r, azimuth, z -> components, distance, inclination
  action cylindrical = {
    nondet s = 0.to(2^62).oneOf()
    val r = pick(s, 1, [0, 1, 7, 1000, 6378137, rnd(s, 2, 0, 1000000)])
    val az = pick(s, 3, [rnd(s, 4, -4, 4) * PI / 4, rnd(s, 5, -3141, 3141) * SC / 1000])
    val z = pick(s, 6, [0, 1, -1, rnd(s, 7, -1000000, 1000000)])
    all { p' = p, out' = [ev("cylindrical", [r, az, z], [r * fcos(az), r * fsin(az), z * SC, hyp([r, z]), incl(r * SC, z)])] }
  }
  // vector arithmetic on the point itself
  action shift = {
    nondet s = 0.to(2^62).oneOf()
    val w = gen(s)
    val how = hh(s, 95) % 2
    val n = if (how == 0) add(p, w) else subv(p, w)
    all { not(big(n)), p' = n, out' = [ev("shift", w.append(how), n)] }
  }
  action scale = {
    nondet c = Set(-3, -2, -1, 0, 1, 2, 5).oneOf()
    val n = lmap(p, t => t * c)
    all { not(big(n)), p' = n, out' = [ev("scale", [c], n)] }
  }
  // products with a second vector and a matrix; only the small ones exactly
  action products = {
    nondet s = 0.to(2^62).oneOf()
    val v = rndList(s, 1, 3, -99, 99)
    val w = rndList(s, 5, 3, -99, 99)
    val m = rndList(s, 9, 9, -99, 99)
    val x = crossp(v, w)
    all { p' = p, out' = [ev("products", v.concat(w).concat(m),
      x.concat([dotp(v, w), dotp(row(m, 0), v), dotp(row(m, 1), v), dotp(row(m, 2), v), v[0] * v[0], v[1] * v[1], v[2] * v[2], v[0]^3, v[1]^3, v[2]^3, hyp(v)]))] }
  }
  // angle units: n/1024 degrees in radians, and n/1024 radians in degrees
  action angle = {
    nondet s = 0.to(2^62).oneOf()
    val n = pick(s, 1, [rnd(s, 2, -8, 8) * 46080, rnd(s, 3, -1000000, 1000000), rnd(s, 4, -3, 3)])
    all { p' = p, out' = [ev("angle", [n], [n * PI / (180 * 1024), fdv(n * 180 * SC, PI * 1024)])] }
  }
  action step = any { place, place, place, view, spherical, spherical, cylindrical, cylindrical, shift, scale, products, angle }
  // the specification's own conversions are consistent: back to Cartesian gives the point again
  val inv = {
    val q = polar(p)
    val st = fsin(q[2])
    val tol = 10^10 * (1 + iabs(p[0]) + iabs(p[1]) + iabs(p[2]))
    and { 
      iabs(fmul(fmul(q[0], st), fcos(q[1])) - p[0] * SC) < tol,
      iabs(fmul(fmul(q[0], st), fsin(q[1])) - p[1] * SC) < tol,
      iabs(fmul(q[0], fcos(q[2])) - p[2] * SC) < tol,
      q[2] >= 0, q[2] <= PI + 10, q[1] <= PI + 10, q[1] >= -PI - 10, q[0] >= 0 } }
}
