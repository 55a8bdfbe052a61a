// T05: one-shot alarms and recurring schedules as a state machine over check times.
module t05 {
  import lib.* from "./lib"
  import cal.* from "./cal"
  pure val G = 1000000000
  // pattern: kind 0 once, 1 interval(p nanoseconds), 2 hourly, 3 daily, 4 yearly, 5 alarm, 9 none
  type Pat = { kind: int, p: int, mo: int, d: int, h: int, mi: int, s: int }
  var pat: Pat
  var due: int       // announced due instant, in nanoseconds
  var done: bool      // one-shot latch
  var ref: int        // time of creation or of the last firing
  var now: int        // last check time
  var out: List[Ev]

  pure def secs(n: int): int = fdiv(n, G)
  pure def ins(n: int): List[int] = [fdiv(n, G), fmod(n, G)]
  // does the whole second t (since 1970) match the pattern?
  pure def yearlyIn(q: Pat, y: int): int =
    (days(y, q.mo, 1) + q.d - 1) * 86400 + q.h * 3600 + q.mi * 60 + q.s   // 29 Feb overflows to 1 March
  // earliest instant matching the pattern strictly later than n
  pure def upcoming(q: Pat, n: int): int =
    if (q.kind == 2) {
      pure val c = fdiv(secs(n), 3600) * 3600 + q.mi * 60 + q.s
      if (c * G > n) c * G else (c + 3600) * G
    } else if (q.kind == 3) {
      pure val c = fdiv(secs(n), 86400) * 86400 + q.h * 3600 + q.mi * 60 + q.s
      if (c * G > n) c * G else (c + 86400) * G
    } else {
      pure val y = civil(fdiv(secs(n), 86400))._1
      if (yearlyIn(q, y) * G > n) yearlyIn(q, y) * G else yearlyIn(q, y + 1) * G
    }
  pure def first(q: Pat, start: int): int =
    if (q.kind == 0 or q.kind == 5) start else if (q.kind == 1) start + q.p else upcoming(q, start)
  pure def after(q: Pat, nx: int, t: int): int =
    if (q.kind == 0 or q.kind == 5) nx
    else if (q.kind == 1) (if (q.p <= 0) nx else nx + q.p * (fdiv(t - nx, q.p) + 1))
    else upcoming(q, t)

  pure val STARTS = [0, -1, 1, -3600, 3600, -86400, 86399, 951782400, 951868800, -2203891200, 1709164800, 1709251200, 1740787200,
     -62167219200, -62135596801, 1704067199, 1704067200, 1735689599, -1, -315619200, 4107542400]
  pure def anyT(s: int): int = {
    pure val k = hh(s, 1) % 4
    pure val t = if (k == 0) pick(s, 2, STARTS) + rnd(s, 3, -2, 2) else if (k == 1) rnd(s, 4, -100000, 100000)
      else if (k == 2) rnd(s, 5, -5000000000, 5000000000) else 3600 * rnd(s, 6, -700000, 700000) + pick(s, 7, [0, -1, 1])
    t * G + pick(s, 8, [0, 0, 0, 1, 999999999, 500000000])
  }
  pure def anyPat(s: int): Pat = {
    pure val k = hh(s, 100) % 10
    pure val kind = if (k == 0) 0 else if (k <= 3) 1 else if (k == 4) 2 else if (k == 5) 3 else if (k <= 8) 4 else 5
    pure val mo = pick(s, 101, [rnd(s, 102, 1, 12), 2, 2, 1, 12])
    pure val d = pick(s, 103, [1, mlen(2023, mo), mlen(2024, mo), rnd(s, 104, 1, mlen(2024, mo))])
    { kind: kind,
      p: pick(s, 105, [1, 1000000, 999999999, G, G + 1, 1500000000, 5 * G, 60 * G, 3600 * G, 86400 * G, 2500000000, rnd(s, 106, 1, 100 * G), 0, -1, -G, 7 * G]),
      mo: mo, d: d, h: pick(s, 107, [0, 23, 12, rnd(s, 108, 0, 23)]), mi: pick(s, 109, [0, 59, 30, rnd(s, 110, 0, 59)]),
      s: pick(s, 111, [0, 59, rnd(s, 112, 0, 59)]) }
  }
  pure val NONE: Pat = { kind: 9, p: 0, mo: 1, d: 1, h: 0, mi: 0, s: 0 }
  pure def patArgs(q: Pat): List[int] = [q.kind].concat(ins(q.p)).concat([q.mo, q.d, q.h, q.mi, q.s])

  action init = all { pat' = NONE, due' = 0, done' = false, now' = 0, ref' = 0, out' = [ev("init", [], [])] }
  action create = {
    nondet s = 0.to(2^62).oneOf()
    val q = anyPat(s)
    val t = anyT(hh(s, 55))
    all { pat' = q, due' = first(q, t), done' = false, now' = t, ref' = t,
      out' = [ev("new", patArgs(q).concat(ins(t)), ins(first(q, t)))] }
  }
  // the check itself; catch-up of an interval is limited to some 10^5 periods to keep runs short
  action checkAt(t: int): bool = {
    val shot = pat.kind == 0 or pat.kind == 5
    val fires = t >= due and not(shot and done)
    val nx = if (fires) after(pat, due, t) else due
    all {
      pat.kind != 9,
      pat.kind != 1 or pat.p <= 0 or t - due < 100000 * pat.p,
      pat' = pat, due' = nx, done' = (done or fires), now' = t, ref' = if (fires) t else ref,
      // due is not observable/meaningful once a one-shot has fired
      out' = [ev("check", ins(t), [b2i(fires), b2i(not(shot and (done or fires)))].concat(ins(nx)).concat([b2i(done or fires)]))]
    }
  }
  action checkSmall = { nondet d = Set(0, 1, G, 60 * G, 3599 * G, 3600 * G, 86399 * G, 86400 * G, 500000000).oneOf() checkAt(now + d) }
  action checkNear = { nondet d = Set(-1, 0, 1, -G, G, 999999999).oneOf() checkAt(due + d) }
  action checkPeriods = { nondet k = 0.to(50).oneOf() nondet d = Set(-1, 0, 1).oneOf() checkAt(due + k * pat.p + d) }
  action checkFar = { nondet k = 0.to(2000).oneOf() nondet d = Set(-1, 0, 1, 12345).oneOf() checkAt(due + k * 86400 * G + d) }
  action checkBack = { nondet d = Set(1, G, 86400 * G, 366 * 86400 * G).oneOf() checkAt(now - d) }
  action step = any { create, checkSmall, checkNear, checkNear, checkPeriods, checkFar, checkBack }

  // announced instants match their pattern, are in the future of the last firing or creation, and are the earliest such
  val matches = pat.kind < 2 or pat.kind > 4 or {
    val c = civil(fdiv(secs(due), 86400))
    val t = fmod(secs(due), 86400)
    and {
      fmod(due, G) == 0, t % 60 == pat.s, (t / 60) % 60 == pat.mi,
      pat.kind == 2 or t / 3600 == pat.h,
      pat.kind != 4 or (c._2 == pat.mo and c._3 == pat.d) or (pat.mo == 2 and pat.d == 29 and c._2 == 3 and c._3 == 1 and not(leapYear(c._1)))
    }
  }
  val earliest = pat.kind < 1 or pat.kind > 4 or (pat.kind == 1 and pat.p <= 0) or
    (due > ref and due - ref <= (if (pat.kind == 1) pat.p else if (pat.kind == 2) 3600 * G else if (pat.kind == 3) 86400 * G else 366 * 86400 * G))
  val inv = matches and earliest
}
