// P01: mass properties of composite bodies.  The state is two homogeneous bodies (analytic shape,
// density, attitude and position of the centre of mass in the assembly) that are edited, moved
// together, swapped, joined and cut.  The expectation is computed about the composite centre of
// mass directly (the implementation goes through the assembly origin).
module p01 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  // k: 0 sphere (d0), 1 cylinder (d0 radius, d1 height), 2 prism (d0,d1,d2); d in 1/16 m, rho in
  // 1/8 kg/m^3, q an integer quaternion (not normalised), r in 1/8 m
  type Body = { k: int, d: List[int], rho: int, q: List[int], r: List[int] }
  var A: Body
  var B: Body
  var out: List[Ev]

  // symmetric tensors xx yy zz xy xz yz
  type Prop = { vol: int, mass: int, com: List[int], i: List[int] }
  pure def add6(a: List[int], b: List[int]): List[int] = range(0, 6).foldl(List(), (l, i) => l.append(a[i] + b[i]))
  pure def scl(a: List[int], k: int): List[int] = lmap(a, t => k * t)
  pure def vol(b: Body): int =
    if (b.k == 0) 4 * PI * b.d[0] * b.d[0] * b.d[0] / 3 / 4096
    else if (b.k == 1) PI * b.d[0] * b.d[0] * b.d[1] / 4096
    else SC * b.d[0] * b.d[1] * b.d[2] / 4096
  pure def prin(b: Body, m: int): List[int] = {
    pure def s(x: int): int = x * x
    if (b.k == 0) { pure val v = m * 2 * s(b.d[0]) / 5 / 256 [v, v, v] }
    else if (b.k == 1) { pure val v = m * (3 * s(b.d[0]) + s(b.d[1])) / 12 / 256 [v, v, m * s(b.d[0]) / 2 / 256] }
    else [m * (s(b.d[1]) + s(b.d[2])) / 12 / 256, m * (s(b.d[0]) + s(b.d[2])) / 12 / 256, m * (s(b.d[0]) + s(b.d[1])) / 12 / 256] }
  // rotation matrix (row major) of the quaternion w x y z, times |q|^2
  pure def rotN(q: List[int]): List[int] = {
    pure val w = q[0] pure val x = q[1] pure val y = q[2] pure val z = q[3]
    [w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y),
     2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x),
     2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z] }
  pure def n2(q: List[int]): int = q[0]*q[0] + q[1]*q[1] + q[2]*q[2] + q[3]*q[3]
  pure def mass(b: Body): int = b.rho * vol(b) / 8
  // principal moments turned into the assembly axes
  pure def turned(b: Body): List[int] = {
    pure val p = prin(b, mass(b))
    pure val m = rotN(b.q)
    pure val n = n2(b.q) * n2(b.q)
    pure def e(i: int, j: int): int = (m[3*i] * m[3*j] * p[0] + m[3*i+1] * m[3*j+1] * p[1] + m[3*i+2] * m[3*j+2] * p[2]) / n
    [e(0, 0), e(1, 1), e(2, 2), e(0, 1), e(0, 2), e(1, 2)] }
  // point mass m at (fx) r
  pure def pt(m: int, r: List[int]): List[int] = {
    pure def c(u: int, v: int): int = fmul(m, fmul(u, v))
    [c(r[1], r[1]) + c(r[2], r[2]), c(r[0], r[0]) + c(r[2], r[2]), c(r[0], r[0]) + c(r[1], r[1]), -c(r[0], r[1]), -c(r[0], r[2]), -c(r[1], r[2])] }
  pure def one(b: Body): Prop = { vol: vol(b), mass: mass(b), com: lmap(b.r, t => t * SC / 8), i: turned(b) }
  pure def combine(a: Prop, b: Prop, sg: int): Prop = {
    pure val m = a.mass + sg * b.mass
    pure val com = range(0, 3).foldl(List(), (l, k) => l.append(fdv(fmul(a.mass, a.com[k]) + sg * fmul(b.mass, b.com[k]), m)))
    pure def off(p: Prop): List[int] = range(0, 3).foldl(List(), (l, k) => l.append(p.com[k] - com[k]))
    { vol: a.vol + sg * b.vol, mass: m, com: com,
      i: add6(add6(a.i, pt(a.mass, off(a))), scl(add6(b.i, pt(b.mass, off(b))), sg)) } }
  // -1: too close to call between equal masses (volumes), 0: nothing left, 1: a body
  pure def verdict(a: Prop, b: Prop, sg: int): int = {
    pure def near(x: int, y: int): bool = x != y and iabs(x - y) * 10000 < iabs(x) + iabs(y)
    if (a.vol <= 0 or b.vol <= 0) 0
    else if (sg > 0) (if (a.mass + b.mass <= 0) (if (near(a.mass, -b.mass) or a.mass == -b.mass) -1 else 0) else if (near(a.mass, -b.mass)) -1 else 1)
    else if (near(a.mass, b.mass) or near(a.vol, b.vol)) -1
    else if (a.mass <= b.mass or a.vol <= b.vol) 0 else 1 }
  pure def enc(b: Body): List[int] = [b.k].concat(b.d).append(b.rho).concat(b.q).concat(b.r)
  pure def cev(op: str, a: Body, b: Body, sg: int): Ev = {
    pure val pa = one(a)
    pure val pb = one(b)
    pure val v = verdict(pa, pb, sg)
    ev(op, enc(a).concat(enc(b)), if (v != 1) [v] else {
      pure val p = combine(pa, pb, sg)
      [v, p.vol, p.mass].concat(p.com).concat(p.i) }) }

  pure def shape(s: int): Body = {
    pure def dim(i: int): int = { pure val t = hh(s, i) % 24 if (t == 0) 0 else if (t == 1) -rnd(s, i + 50, 1, 64) else if (t < 6) rnd(s, i + 50, 1, 400) else rnd(s, i + 50, 1, 64) }
    pure val q = if (hh(s, 1) % 5 == 0) [1, 0, 0, 0] else rndList(s, 2, 4, -3, 3)
    { k: hh(s, 3) % 3, d: [dim(4), dim(5), dim(6)],
      rho: { pure val t = hh(s, 7) % 16 if (t == 0) 0 else if (t == 1) -rnd(s, 8, 1, 100) else rnd(s, 8, 1, 80000) },
      q: if (n2(q) == 0) [0, 1, 0, 0] else q,
      r: if (hh(s, 9) % 6 == 0) [0, 0, 0] else rndList(s, 10, 3, -40, 40) } }
  action init = { val b = { k: 0, d: [16, 16, 16], rho: 8, q: [1, 0, 0, 0], r: [0, 0, 0] }
    all { A' = b, B' = b, out' = [ev("nop", List(), List())] } }
  action setA = { nondet s = 0.to(2^62).oneOf() val b = shape(s) all { A' = b, B' = B, out' = [cev("join", b, B, 1)] } }
  action setB = { nondet s = 0.to(2^62).oneOf() val b = shape(s) all { A' = A, B' = b, out' = [cev("cut", A, b, -1)] } }
  // something small enough to be drilled out of A
  action drill = { nondet s = 0.to(2^62).oneOf()
    val b0 = shape(s)
    val b = { ...b0, d: lmap(b0.d, t => imax(1, iabs(t) / 3)), rho: A.rho, r: [0, 1, 2].foldl(List(), (l, i) => l.append(A.r[i] + b0.r[i] / 16)) }
    all { A' = A, B' = b, out' = [cev("cut", A, b, -1)] } }
  action same = all { A' = A, B' = { ...A, r: B.r }, out' = [cev("cut", A, { ...A, r: B.r }, -1)] }
  action swap = all { A' = B, B' = A, out' = [cev("join", B, A, 1), cev("cut", B, A, -1)] }
  action both = all { A' = A, B' = B, out' = [cev("join", A, B, 1), cev("cut", A, B, -1)] }
  action translate = { nondet s = 0.to(2^62).oneOf()
    val t = rndList(s, 1, 3, -80, 80)
    def mv(b: Body): Body = { ...b, r: [0, 1, 2].foldl(List(), (l, i) => l.append(b.r[i] + t[i])) }
    all { A' = mv(A), B' = mv(B), out' = [cev("join", mv(A), mv(B), 1), cev("cut", mv(A), mv(B), -1)] } }
  // quarter turn of the assembly about z then relabelled axes: positions stay on the grid
  pure def qm(p: List[int], q: List[int]): List[int] =
    [p[0]*q[0] - p[1]*q[1] - p[2]*q[2] - p[3]*q[3], p[0]*q[1] + p[1]*q[0] + p[2]*q[3] - p[3]*q[2],
     p[0]*q[2] - p[1]*q[3] + p[2]*q[0] + p[3]*q[1], p[0]*q[3] + p[1]*q[2] - p[2]*q[1] + p[3]*q[0]]
  pure def spin(b: Body, g: List[int]): Body = {
    pure val m = rotN(g)
    { ...b, q: qm(g, b.q), r: [0, 1, 2].foldl(List(), (l, i) => l.append((m[3*i] * b.r[0] + m[3*i+1] * b.r[1] + m[3*i+2] * b.r[2]) / n2(g))) } }
  action rotate = { nondet s = 0.to(4).oneOf()
    val g = [[1, 0, 0, 1], [1, 1, 0, 0], [1, 1, 1, 1], [0, 0, 1, 0], [1, 0, -1, 0]][s]
    all { n2(A.q) < 10000, n2(B.q) < 10000, A' = spin(A, g), B' = spin(B, g), out' = [cev("join", spin(A, g), spin(B, g), 1), cev("cut", spin(A, g), spin(B, g), -1)] } }
  action step = any { setA, setB, setB, drill, drill, same, swap, both, translate, rotate }

  // taking a body out and putting it back restores the original; join is symmetric
  val inv = {
    val pa = one(A)
    val pb = one(B)
    def close(x: List[int], y: List[int]): bool = 0.to(x.length() - 1).forall(i => iabs(x[i] - y[i]) < 10^14)
    and { if (verdict(pa, pb, -1) == 1 and pa.mass > 10^22) {
        val d = combine(pa, pb, -1)
        val j = combine(d, pb, 1)
        and { j.mass == pa.mass, j.vol == pa.vol, close(j.com, pa.com), close(j.i, pa.i) } } else true,
      if (verdict(pa, pb, 1) == 1) {
        val j = combine(pa, pb, 1)
        val k = combine(pb, pa, 1)
        and { j.mass == k.mass, close(j.com, k.com), close(j.i, k.i) } } else true } }
}
