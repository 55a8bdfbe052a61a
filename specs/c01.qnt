// C01: orbit camera and view/projection matrices.  The camera's observable state is its forward
// direction (right, up and position are functions of it); every command is a rotation of that
// direction.  A second part keeps an affine matrix under translations.
module c01 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  type V = { x: int, y: int, z: int }
  // lost: the pitch axis was ill conditioned (view at a pole), only consistency is required until
  // the angles are set again
  type Cam = { f: V, lost: bool, tgt: List[int], dist: int, sens: int, yaw: int, pitch: int, set: bool }
  var cam: Cam
  var mat: List[int]        // rows 0..2 of an affine 4x4 matrix, integers
  var out: List[Ev]

  pure def dot(a: V, b: V): int = fmul(a.x, b.x) + fmul(a.y, b.y) + fmul(a.z, b.z)
  pure def crs(a: V, b: V): V = { x: fmul(a.y, b.z) - fmul(a.z, b.y), y: fmul(a.z, b.x) - fmul(a.x, b.z), z: fmul(a.x, b.y) - fmul(a.y, b.x) }
  pure def unit(a: V): V = { pure val n = fsqrt(dot(a, a)) { x: fdv(a.x, n), y: fdv(a.y, n), z: fdv(a.z, n) } }
  pure def hor(a: V): int = fsqrt(fsq(a.x) + fsq(a.y))
  // right-handed turn of v about the unit axis k
  pure def turn(v: V, k: V, th: int): V = {
    pure val c = fcos(th) pure val s = fsin(th)
    pure val w = crs(k, v)
    pure val d = fmul(dot(k, v), SC - c)
    { x: fmul(v.x, c) + fmul(w.x, s) + fmul(k.x, d), y: fmul(v.y, c) + fmul(w.y, s) + fmul(k.y, d), z: fmul(v.z, c) + fmul(w.z, s) + fmul(k.z, d) } }
  pure val X = { x: SC, y: 0, z: 0 }
  pure val Y = { x: 0, y: SC, z: 0 }
  pure val Z = { x: 0, y: 0, z: SC }
  pure def sph(yaw: int, pitch: int): V = { x: fmul(fcos(pitch), fcos(yaw)), y: fmul(fcos(pitch), fsin(yaw)), z: fsin(pitch) }
  pure def rightOf(f: V): V = unit(crs(Z, f))
  // azimuth about +Z, then elevation about the (post-yaw) horizontal axis
  pure def drag(f: V, dyaw: int, dpitch: int): V = { pure val g = turn(f, Z, dyaw) if (dpitch == 0) g else turn(g, rightOf(g), -dpitch) }
  pure def world(f: V, ax: int, ay: int): V = turn(turn(f, Y, ay), X, ax)

  pure def vl(v: V): List[int] = [v.x, v.y, v.z]
  pure def see(c: Cam): List[int] = {
    pure val h = hor(c.f)
    pure val ok = h > SC / 20
    pure val r = if (ok) rightOf(c.f) else X
    pure val u = if (ok) crs(c.f, r) else Z
    pure val p = [c.tgt[0] * SC / 8 - c.dist * c.f.x / 8, c.tgt[1] * SC / 8 - c.dist * c.f.y / 8, c.tgt[2] * SC / 8 - c.dist * c.f.z / 8]
    [b2i(c.lost), b2i(ok), b2i(c.set)].concat(vl(c.f)).concat(vl(r)).concat(vl(u)).concat(p).concat([c.yaw, c.pitch]) }
  pure def moved(c: Cam, g: V, bad: bool): Cam = { ...c, f: g, lost: c.lost or bad, set: false,
    yaw: if (hor(g) < SC / 20) 0 else fatan2(g.y, g.x), pitch: fatan2(g.z, hor(g)) }

  pure val ID = [1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0]
  action init = all { mat' = ID, cam' = { f: X, lost: false, tgt: [0, 0, 0], dist: 0, sens: 100, yaw: 0, pitch: 0, set: true }, out' = [ev("nop", List(), List())] }
  pure def A9(v: int): int = v * 10^21       // angles in 1e-9 rad
  action setAngles = { nondet s = 0.to(2^62).oneOf()
    val y = if (hh(s, 1) % 5 == 0) pick(s, 2, [0, 1570796327, -1570796327, 3141592654, 785398163]) else rnd(s, 2, -8000000000, 8000000000)
    val p = if (hh(s, 3) % 6 == 0) pick(s, 4, [0, 1570796327, -1570796327, 1500000000, -1500000000, 3141592654, pick(s, 6, [1, -1]) * (1570796327 + rnd(s, 5, -12, 12)), pick(s, 6, [1, -1]) * (1570796327 + rnd(s, 5, -400, 400))]) else if (hh(s, 3) % 6 == 1) rnd(s, 4, -8000000000, 8000000000) else rnd(s, 4, -1500000000, 1500000000)
    val c = { ...cam, f: sph(A9(y), A9(p)), lost: false, set: true, yaw: A9(y), pitch: A9(p) }
    all { mat' = mat, cam' = c, out' = [ev("set", [y, p], see(c))] } }
  action place = { nondet s = 0.to(2^62).oneOf()
    val c = { ...cam, tgt: rndList(s, 1, 3, -8000, 8000), dist: rnd(s, 2, 0, 80000), sens: pick(s, 3, [100, rnd(s, 4, 1, 500)]) }
    all { mat' = mat, cam' = c, out' = [ev("place", c.tgt.concat([c.dist, c.sens]), see(c))] } }
  pure def bad1(f: V, dyaw: int, dpitch: int): bool = dpitch != 0 and hor(turn(f, Z, dyaw)) < SC / 8
  pure def safeDrag(c: Cam, dyaw: int, dpitch: int): Cam = if (bad1(c.f, dyaw, dpitch)) { ...c, lost: true, set: false } else moved(c, drag(c.f, dyaw, dpitch), false)
  pure def ang(s: int, i: int): int = if (hh(s, i) % 5 == 0) 0 else if (hh(s, i) % 5 == 1) rnd(s, i + 1, -6300000000, 6300000000) else rnd(s, i + 1, -600000000, 600000000)
  action dragAngles = { nondet s = 0.to(2^62).oneOf()
    val y = ang(s, 1) val p = ang(s, 11)
    val c = safeDrag(cam, A9(y), A9(p))
    all { mat' = mat, cam' = c, out' = [ev("drag", [y, p], see(c))] } }
  action dragPixels = { nondet s = 0.to(2^62).oneOf()
    val x = rnd(s, 1, -200, 200) val y = if (hh(s, 2) % 4 == 0) 0 else rnd(s, 3, -120, 120)
    val c = safeDrag(cam, -x * cam.sens * 10^26, -y * cam.sens * 10^26)
    all { mat' = mat, cam' = c, out' = [ev("dragpx", [x, y], see(c))] } }
  // a drag and the opposite one, away from the poles: the view returns
  action undo = { nondet s = 0.to(2^62).oneOf()
    val y = rnd(s, 1, -3000000000, 3000000000) val p = rnd(s, 2, -800000000, 800000000)
    val el = fatan2(cam.f.z, hor(cam.f))
    all { iabs(el + A9(p)) < A9(1400000000), iabs(el) < A9(1400000000), not(cam.lost), mat' = mat,
      cam' = moved(cam, cam.f, false), out' = [ev("drag", [y, p], see(moved(cam, drag(cam.f, A9(y), A9(p)), false))), ev("drag", [-y, -p], see(moved(cam, cam.f, false)))] } }
  action worldAngles = { nondet s = 0.to(2^62).oneOf()
    val x = ang(s, 1) val y = ang(s, 11)
    val c = moved(cam, world(cam.f, A9(x), A9(y)), false)
    all { mat' = mat, cam' = c, out' = [ev("world", [x, y], see(c))] } }
  action worldPixels = { nondet s = 0.to(2^62).oneOf()
    val x = rnd(s, 1, -200, 200) val y = rnd(s, 2, -200, 200)
    val c = moved(cam, world(cam.f, -y * cam.sens * 10^26, -x * cam.sens * 10^26), false)
    all { mat' = mat, cam' = c, out' = [ev("worldpx", [x, y], see(c))] } }

  // ---- view and projection
  pure def L(l: List[int]): V = { x: l[0] * SC, y: l[1] * SC, z: l[2] * SC }
  // rows x = up x forward, y = forward x x, z = -forward, and the translation column
  pure def view(eye: V, ctr: V, up: V): List[int] = {
    pure val f = unit({ x: ctr.x - eye.x, y: ctr.y - eye.y, z: ctr.z - eye.z })
    pure val r = unit(crs(up, f))
    pure val u = crs(f, r)
    vl(r).append(-dot(r, eye)).concat(vl(u)).append(-dot(u, eye)).concat([-f.x, -f.y, -f.z, dot(f, eye)]) }
  action lookAt = { nondet s = 0.to(2^62).oneOf()
    val big = pick(s, 1, [4, 100, 10000])
    val eye = rndList(s, 2, 3, -big, big)
    val ctr = rndList(s, 3, 3, -big, big)
    val up = if (hh(s, 4) % 2 == 0) [0, 0, 1] else rndList(s, 5, 3, -9, 9)
    val e = L(eye) val c = L(ctr) val u = L(up)
    val d = { x: c.x - e.x, y: c.y - e.y, z: c.z - e.z }
    val w = crs(u, d)
    all { dot(d, d) > 0, dot(u, u) > 0, fdv(dot(w, w), dot(d, d)) > dot(u, u) / 100, cam' = cam, mat' = mat,
      out' = [ev("look", eye.concat(ctr).concat(up), view(e, c, u).append(fsqrt(dot(d, d))))] } }
  // aspect, near, far in 1/16; vertical field of view in 1e-9 rad
  action persp = { nondet s = 0.to(2^62).oneOf()
    val asp = rnd(s, 1, 4, 64) val fov = rnd(s, 2, 50000000, 3000000000)
    val n = rnd(s, 3, 1, 400) val f = n + pick(s, 4, [rnd(s, 5, 1, 100), rnd(s, 5, 1, 100000)])
    val t = ftan(A9(fov) / 2)
    all { cam' = cam, mat' = mat, out' = [ev("persp", [asp, fov, n, f], [fdv(fdv(SC, t), asp * SC / 16), fdv(SC, t), -(f + n) * SC / (f - n), -2 * f * n * SC / 16 / (f - n), t])] } }
  action setMat = { nondet s = 0.to(2^62).oneOf()
    val m = rndList(s, 1, 12, -20, 20)
    all { cam' = cam, mat' = m, out' = [ev("mat", m, List())] } }
  action translate = { nondet s = 0.to(2^62).oneOf()
    val t = rndList(s, 1, 3, -20, 20)
    val m = range(0, 12).foldl(List(), (l, i) => l.append(if (i % 4 != 3) mat[i] else mat[i - 3] * t[0] + mat[i - 2] * t[1] + mat[i - 1] * t[2] + mat[i]))
    all { cam' = cam, mat' = m, out' = [ev("shift", t, m)] } }
  action step = any { setAngles, place, dragAngles, dragAngles, dragPixels, dragPixels, undo, undo, worldAngles, worldPixels, lookAt, persp, setMat, translate }
  val inv = {
    val r = rightOf(cam.f)
    val el = fatan2(cam.f.z, hor(cam.f))
    def near(a: int, b: int): bool = iabs(a - b) < 10^12
    def nearV(a: V, b: V): bool = near(a.x, b.x) and near(a.y, b.y) and near(a.z, b.z)
    and { near(dot(cam.f, cam.f), SC),
      if (hor(cam.f) > SC / 20 and not(cam.lost)) and {
        near(dot(r, cam.f), 0), r.z == 0, crs(cam.f, r).z > 0,
        // dragging adds to azimuth and elevation
        if (iabs(el) < A9(1200000000)) { val g = drag(cam.f, A9(500000000), A9(300000000))
          near(fatan2(g.z, hor(g)), el + A9(300000000)) and nearV(drag(g, -A9(500000000), -A9(300000000)), cam.f) } else true,
        nearV(sph(cam.yaw, cam.pitch), cam.f) or hor(cam.f) < SC / 20
      } else true } }
}
