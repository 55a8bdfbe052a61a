// T06: periodic timers and tick clocks.
module t06 {
  import lib.* from "./lib"
  pure val G = 1000000000
  pure val W = 2^64
  pure def ins(n: int): List[int] = [fdiv(n, G), fmod(n, G)]
  // four timers in one set (index 3 is also driven as a stand-alone TimerEvent)
  var per: List[int]       // periods in ns
  var tot: List[int]       // time accumulated since creation, in ns
  // clock: mission start (TAI ns), ticks at start, rate, last loop tick, leap seconds in force
  var clk: { start: int, t0: int, tps: int, last: int, leap: int }
  var out: List[Ev]

  pure val PERIODS = [1, 2, 1000, 999999, 1000000, 333333333, 999999999, G, G + 1, 1500000000, 2 * G, 10 * G, 60 * G, 0, -1, -5 * G, -2500000000]
  pure def anyPer(s: int): int = pick(s, 1, PERIODS.append(rnd(s, 2, 1, 10 * G)).append(rnd(s, 3, 1, 100000)))
  pure val RATES = [1, 2, 3, 7, 10, 60, 1000, 32768, 1000000, 168000000, 999999999, G, G + 1, 3 * G, 2^32, 2^40 + 1, 2^63, 2^64 - 1]
  pure def anyTick(s: int): int = pick(s, 10, [0, 1, 2, 2^63, 2^63 - 1, 2^64 - 1, 2^64 - 2, rnd(s, 11, 0, 1000), rnd(s, 12, 0, 2^64 - 1), rnd(s, 13, 0, 2^40)])
  pure def elapsed(ticks: int, tps: int): int = ticks * G / tps
  pure def ok(e: int): bool = e < 2^62 * G

  action init = all { per' = [G, G, G, G], tot' = [0, 0, 0, 0], clk' = { start: 0, t0: 0, tps: 1, last: 0, leap: 27 },
    out' = [ev("timers", [1, 0, 1, 0, 1, 0, 1, 0], []), ev("leap", [27], []), ev("clock", [0, 0, 0, 0, 1, 0], [])] }
  action timers = {
    nondet s = 0.to(2^62).oneOf()
    val ps = [anyPer(s), anyPer(hh(s, 5)), anyPer(hh(s, 6)), anyPer(hh(s, 7))]
    all { per' = ps, tot' = [0, 0, 0, 0], clk' = clk,
      out' = [ev("timers", ps.foldl(List(), (l, p) => l.concat(ins(p))), [])] }
  }
  pure def minPer(ps: List[int]): int = ps.foldl(2^80, (m, p) => if (p > 0 and p < m) p else m)
  action stepTimers = {
    nondet s = 0.to(2^62).oneOf()
    val m = minPer(per)
    val base = pick(s, 1, per)
    val dt0 = pick(s, 2, [0, 1, m, m - 1, m + 1, 2 * m, 10 * m + 1, base, base - 1, base + 1, base / 2, base / 3 + 1, 3 * base, rnd(s, 3, 0, 1000), rnd(s, 4, 0, 10 * G)])
    val dt = if (dt0 < 0) 0 else if (dt0 > 20000 * m) 20000 * m else dt0
    val fired = per.indices()
    all {
      tot' = range(0, 4).foldl(List(), (l, i) => l.append(tot[i] + dt)), per' = per, clk' = clk,
      out' = [ev("step", ins(dt), range(0, 4).foldl(List(), (l, i) =>
        l.append(if (per[i] <= 0) 1 else b2i((tot[i] + dt) / per[i] > tot[i] / per[i]))))]
    }
  }
  // replacing one timer through event_mut leaves the others alone
  action replace = {
    nondet s = 0.to(2^62).oneOf() nondet i = 0.to(2).oneOf()
    val p = anyPer(s)
    all { per' = per.replaceAt(i, p), tot' = tot.replaceAt(i, 0), clk' = clk,
      out' = [ev("replace", [i].concat(ins(p)), [])] }
  }
  action setLeap = {
    nondet l = Set(0, 27, 28, -5, 10, 100).oneOf()
    all { per' = per, tot' = tot, clk' = { ...clk, leap: l }, out' = [ev("leap", [l], [])] }
  }
  action newClock = {
    nondet s = 0.to(2^62).oneOf() nondet utc = Set(0, 1).oneOf()
    val st = rnd(s, 1, -(10^10), 10^10) * G + pick(s, 2, [0, 1, 999999999, rnd(s, 3, 0, 999999999)])
    val tps = pick(s, 4, RATES.append(rnd(s, 5, 1, 10^10)))
    val t0 = anyTick(hh(s, 6))
    all { per' = per, tot' = tot,
      clk' = { ...clk, start: if (utc == 1) st + (10 + clk.leap) * G else st, t0: t0, tps: tps, last: t0 },
      out' = [ev("clock", [utc].concat(ins(st)).concat([t0, tps, t0]), [])] }
  }
  // read the clock at a tick value, absolute or near the start or the wrap
  action read = {
    nondet s = 0.to(2^62).oneOf()
    val now = if (hh(s, 9) % 3 == 0) anyTick(s)
      else (clk.t0 + pick(s, 8, [0, 1, clk.tps - 1, clk.tps, clk.tps + 1, 10 * clk.tps + 3, rnd(s, 7, 0, 10^6), rnd(s, 20, 0, 2^63)])) % W
    val e = elapsed((now - clk.t0 + W) % W, clk.tps)
    val t = clk.start + e
    all { ok(e), per' = per, tot' = tot, clk' = clk,
      out' = [ev("read", [now], ins(e).concat(ins(t)).concat(ins(t - (10 + clk.leap) * G)).concat(ins(t - (315964800 + 19) * G)))] }
  }
  action loop = {
    nondet s = 0.to(2^62).oneOf()
    val now = if (hh(s, 9) % 3 == 0) anyTick(s) else (clk.last + pick(s, 8, [0, 1, clk.tps - 1, clk.tps, rnd(s, 7, 0, 10^6)])) % W
    val e = elapsed((now - clk.last + W) % W, clk.tps)
    all { ok(e), per' = per, tot' = tot, clk' = { ...clk, last: now },
      out' = [ev("loop", [now], ins(e).append(now))] }
  }
  action step = any { timers, stepTimers, stepTimers, stepTimers, stepTimers, replace, setLeap, newClock, read, read, loop, loop }
  val inv = tot.indices().forall(i => tot[i] >= 0) and clk.t0 < W and clk.last < W
}
