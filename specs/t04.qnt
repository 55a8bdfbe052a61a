// T04: the proleptic Gregorian calendar, defined by year lengths and month lengths.
module t04 {
  import lib.* from "./lib"
  import cal.* from "./cal"
  var day: int      // day number since 1970-01-01
  var tod: int      // second of day
  var nano: int
  var out: List[Ev]

  pure def dtFields(d: int, t: int, n: int): List[int] = {
    pure val c = civil(d)
    [c._1, c._2, c._3, t / 3600, (t / 60) % 60, t % 60, n]
  }
  pure def toEv(d: int, t: int, n: int): Ev = ev("to", [d * 86400 + t, n], dtFields(d, t, n))
  pure def fromEv(d: int, t: int, n: int): Ev = ev("from", dtFields(d, t, n), [d * 86400 + t, n])
  pure def both(d: int, t: int, n: int): List[Ev] = [toEv(d, t, n), fromEv(d, t, n)]

  pure val YEARS = [1970, 1969, 1968, 1972, 2000, 2024, 1900, 1600, 2100, 2400, 4, 1, 0, -1, -4, -99, -100, -101, -399, -400, -401,
    -800, 1582, 9999, 10000, -2000, 2147483647, -2147483648, 2038, 1901, 1980]
  pure def anyDay(s: int): int = {
    pure val k = hh(s, 1) % 6
    if (k == 0) rnd(s, 2, -800000, 800000)
    else if (k == 1) rnd(s, 3, before(-2147483648) - UNIX0, before(2147483648) - UNIX0 - 1)
    else if (k == 2) rnd(s, 4, -2000, 2000)
    else if (k == 3) imax(before(-2147483648) - UNIX0, imin(before(2147483648) - UNIX0 - 1, days(pick(s, 5, YEARS), 3, 1) + rnd(s, 6, -2, 2)))
    else if (k == 4) imax(before(-2147483648) - UNIX0, imin(before(2147483648) - UNIX0 - 1, days(pick(s, 5, YEARS), 1, 1) + rnd(s, 6, -2, 2)))
    else imax(before(-2147483648) - UNIX0, imin(before(2147483648) - UNIX0 - 1, days(400 * rnd(s, 7, -20, 20) + 100 * rnd(s, 8, 0, 4), rnd(s, 9, 1, 12), 1) + rnd(s, 10, -2, 30)))
  }
  pure def anyTod(s: int): int = pick(s, 20, [0, 1, 59, 60, 3599, 3600, 43199, 43200, 86399, 86398, rnd(s, 21, 0, 86399), rnd(s, 22, 0, 86399)])
  pure def anyNano(s: int): int = pick(s, 30, [0, 1, 999999999, 500000000, rnd(s, 31, 0, 999999999)])

  action init = all { day' = 0, tod' = 0, nano' = 0, out' = both(0, 0, 0) }
  action jump = {
    nondet s = 0.to(2^62).oneOf()
    all { day' = anyDay(s), tod' = anyTod(s), nano' = anyNano(s), out' = both(anyDay(s), anyTod(s), anyNano(s)) }
  }
  // the clock advances: next second / minute / day from wherever it is
  action advance = {
    nondet d = Set(1, 60, 3600, 86400, -1, -60, -86400).oneOf()
    val t = day * 86400 + tod + d
    val d1 = fdiv(t, 86400)
    all { d1 >= before(-2147483648) - UNIX0, d1 < before(2147483648) - UNIX0,
      day' = d1, tod' = fmod(t, 86400), nano' = nano, out' = both(d1, fmod(t, 86400), nano) }
  }
  // many dates at once
  action sweep = {
    nondet s = 0.to(2^62).oneOf()
    all { day' = day, tod' = tod, nano' = nano,
      out' = range(0, 12).foldl(List(), (l, k) => l.concat(both(anyDay(hh(s, 50 + k)), anyTod(hh(s, 70 + k)), anyNano(hh(s, 90 + k))))) }
  }
  action order = {
    nondet s = 0.to(2^62).oneOf()
    val d = anyDay(s)
    val t = anyTod(s)
    val n = anyNano(s)
    val e = pick(s, 40, [0, 1, -1, 60, -60, 86400, -86400, 31 * 86400, -31 * 86400, 366 * 86400])
    val u = d * 86400 + t + e
    val d2 = fdiv(u, 86400)
    all { d2 >= before(-2147483648) - UNIX0, d2 < before(2147483648) - UNIX0,
      day' = day, tod' = tod, nano' = nano,
      out' = [ev("order", dtFields(d, t, n).concat(dtFields(d2, fmod(u, 86400), n)), [sgn(-e)])] }
  }
  action step = any { jump, advance, sweep, order }

  val inv = and {
    nextDay(civil(day)) == civil(day + 1),
    civil(day)._2 >= 1, civil(day)._2 <= 12, civil(day)._3 >= 1, civil(day)._3 <= mlen(civil(day)._1, civil(day)._2),
    days(civil(day)._1, civil(day)._2, civil(day)._3) == day
  }
}
