// P02: propellant tanks.  The state is a list of tanks (shape, propellant density, fill fraction,
// contained mass) that is edited, filled, drained, duplicated and permuted.
module p02 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  // k 0 sphere (r), 1 cylinder (r, l), lengths in 1/256 m; rho in 1/16 kg/m^3; fill in 1/1000; mass in 1/64 kg
  type Tank = { k: int, r: int, l: int, rho: int, fill: int, m: int }
  var ts: List[Tank]
  var out: List[Ev]
  pure def geo(t: Tank): int = {
    pure val v = if (t.k == 0) 4 * PI * t.r * t.r * t.r / 3 else PI * t.r * t.r * t.l
    imax(0, v / 2^24) }
  pure def usable(t: Tank): int = geo(t) * imax(0, imin(1000, t.fill)) / 1000
  pure def cap(t: Tank): int = usable(t) * imax(0, t.rho) / 16
  // principal moments for the contained mass, lengths by magnitude
  pure def inertia(t: Tank): List[int] = {
    pure val m = imax(0, t.m) * SC / 64
    if (t.k == 0) { pure val v = m * 2 * t.r * t.r / 5 / 65536 [v, v, v] }
    else { pure val v = m * (3 * t.r * t.r + t.l * t.l) / 12 / 65536 [v, v, m * t.r * t.r / 2 / 65536] } }
  pure def enc(t: Tank): List[int] = [t.k, t.r, t.l, t.rho, t.fill, t.m]
  pure def encs(l: List[Tank]): List[int] = l.foldl(List(), (a, t) => a.concat(enc(t)))
  pure def tmass(l: List[Tank]): int = l.foldl(0, (a, t) => a + imax(0, t.m))
  pure def tin(l: List[Tank]): List[int] = l.foldl([0, 0, 0], (a, t) => { pure val i = inertia(t) [a[0] + i[0], a[1] + i[1], a[2] + i[2]] })
  pure def agg(l: List[Tank]): Ev = ev("agg", encs(l), [tmass(l)].concat(tin(l)))
  // a cylinder of negative radius has no agreed volume: only the signs and ratios are required
  pure def lim(t: Tank): Ev = ev("limits", enc(t), [b2i(t.k == 1 and t.r < 0), geo(t), usable(t), cap(t)].concat(inertia(t)))
  pure def tank(s: int): Tank = {
    pure def dim(i: int): int = { pure val c = hh(s, i) % 12 if (c == 0) 0 else if (c == 1) -rnd(s, i + 50, 1, 1000) else rnd(s, i + 50, 1, 3000) }
    { k: hh(s, 1) % 2, r: dim(2), l: dim(3), rho: { pure val c = hh(s, 4) % 8 if (c == 0) 0 else if (c == 1) -rnd(s, 5, 1, 20000) else rnd(s, 5, 1, 30000) },
      fill: pick(s, 6, [0, 1000, -1, 1001, rnd(s, 7, -3000, -1), rnd(s, 7, 1001, 9000), rnd(s, 7, 0, 1000), rnd(s, 7, 0, 1000), rnd(s, 7, 0, 1000)]),
      m: { pure val c = hh(s, 8) % 6 if (c == 0) 0 else if (c == 1) -rnd(s, 9, 1, 100000) else rnd(s, 9, 1, 1000000) } } }
  action init = all { ts' = List(), out' = [agg(List())] }
  action add = { nondet s = 0.to(2^62).oneOf() val t = tank(s) val l = ts.append(t)
    all { ts.length() < 12, ts' = l, out' = [lim(t), agg(l)] } }
  action edit = { nondet s = 0.to(2^62).oneOf()
    val i = hh(s, 20) % imax(1, ts.length())
    val t = { val o = ts[i] val f = hh(s, 21) % 6 val n = tank(s)
      if (f == 0) { ...o, r: n.r } else if (f == 1) { ...o, l: n.l } else if (f == 2) { ...o, fill: n.fill }
      else if (f == 3) { ...o, rho: n.rho } else if (f == 4) { ...o, m: n.m } else { ...o, k: 1 - o.k } }
    val l = ts.replaceAt(i, t)
    all { ts.length() > 0, ts' = l, out' = [lim(t), agg(l)] } }
  // fill to capacity and drain: the contained mass moves between 0 and the capacity
  action fillup = { nondet s = 0.to(2^62).oneOf()
    val i = hh(s, 20) % imax(1, ts.length())
    val l = ts.replaceAt(i, { ...ts[i], m: cap(ts[i]) * 64 / SC })
    all { ts.length() > 0, ts' = l, out' = [lim(l[i]), agg(l)] } }
  action drain = { nondet s = 0.to(2^62).oneOf()
    val i = hh(s, 20) % imax(1, ts.length())
    val l = ts.replaceAt(i, { ...ts[i], m: ts[i].m - rnd(s, 22, 0, 200000) })
    all { ts.length() > 0, ts' = l, out' = [agg(l)] } }
  action rotate = { val l = ts.slice(1, ts.length()).append(ts[0]) all { ts.length() > 1, ts' = l, out' = [agg(l)] } }
  action swap = { nondet s = 0.to(2^62).oneOf()
    val i = hh(s, 1) % imax(1, ts.length()) val j = hh(s, 2) % imax(1, ts.length())
    val l = ts.replaceAt(i, ts[j]).replaceAt(j, ts[i])
    all { ts.length() > 1, ts' = l, out' = [agg(l)] } }
  // a large vehicle: every tank once more
  action twins = { val l = ts.concat(ts) all { ts.length() > 1, ts.length() <= 60, ts' = l, out' = [agg(l)] } }
  action drop = { val l = ts.slice(if (ts.length() > 12) ts.length() / 2 else 1, ts.length()) all { ts.length() > 4, ts' = l, out' = [agg(l)] } }
  action step = any { add, edit, fillup, drain, rotate, swap, drop, drop, twins }
  // order does not matter, everything is physical
  val inv = {
    val rev = ts.foldl(List(), (a, t) => [t].concat(a))
    and { tmass(rev) == tmass(ts), tin(rev) == tin(ts),
      ts.indices().forall(i => and { usable(ts[i]) >= 0, usable(ts[i]) <= geo(ts[i]), cap(ts[i]) >= 0,
        (inertia(ts[i])[2] <= inertia(ts[i])[0] + inertia(ts[i])[1]) }) } }
}
