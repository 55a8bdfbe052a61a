// T03: conversions racing with leap-second updates.
// The shared state is one leap-second cell with its history of values ("versions").  A conversion is
// three steps - call, a single read of the cell, return - any of which may interleave with updates.
module t03 {
  import lib.* from "./lib"
  pure val TG = 315964800 + 19          // TAI reading minus GPS reading, always
  pure val READERS = 0.to(2)
  // kinds: 0 UTC->TAI, 1 TAI->UTC, 2 UTC->GPS, 3 GPS->UTC, 4 TAI->GPS, 5 GPS->TAI
  pure def result(kind: int, sec: int, leap: int): int =
    if (kind == 0) sec + 10 + leap else if (kind == 1) sec - 10 - leap
    else if (kind == 2) sec + 10 + leap - TG else if (kind == 3) sec - 10 - leap + TG
    else if (kind == 4) sec - TG else sec + TG

  var hist: List[int]                    // every value the cell has held, in order
  var pc: int -> str                     // idle, called, read
  var kind: int -> int
  var arg: int -> int
  var from: int -> int                   // version in force at the call
  var seen: int -> int                   // version read
  var ret: int -> int                    // last returned value (valid when pc = done)
  var out: List[Ev]

  pure val VALUES = Set(27, 28, 0, -5, 100, 12345, -777, 31, 1000, 5000, -20000, 64, 9, 71)
  val cur = hist.length() - 1

  action init = all {
    hist' = [27], pc' = READERS.mapBy(_ => "idle"), kind' = READERS.mapBy(_ => 0), arg' = READERS.mapBy(_ => 0),
    from' = READERS.mapBy(_ => 0), seen' = READERS.mapBy(_ => 0), ret' = READERS.mapBy(_ => 0), out' = []
  }
  action update = {
    nondet v = VALUES.filter(v => hist.select(h => h == v).length() == 0).oneOf()
    all { hist' = hist.append(v), pc' = pc, kind' = kind, arg' = arg, from' = from, seen' = seen, ret' = ret, out' = [] }
  }
  action call = {
    nondet r = READERS.filter(r => pc.get(r) == "idle" or pc.get(r) == "done").oneOf()
    nondet k = 0.to(5).oneOf()
    nondet x = Set(0, 1700000000, -1700000000, 315964800, 19, 1000000000000).oneOf()
    all { pc' = pc.set(r, "called"), kind' = kind.set(r, k), arg' = arg.set(r, x), from' = from.set(r, cur),
      hist' = hist, seen' = seen, ret' = ret, out' = [] }
  }
  action read = {
    nondet r = READERS.filter(r => pc.get(r) == "called").oneOf()
    all { pc' = pc.set(r, "read"), seen' = seen.set(r, cur), hist' = hist, kind' = kind, arg' = arg, from' = from, ret' = ret, out' = [] }
  }
  action return = {
    nondet r = READERS.filter(r => pc.get(r) == "read").oneOf()
    all { pc' = pc.set(r, "done"), ret' = ret.set(r, result(kind.get(r), arg.get(r), hist[seen.get(r)])),
      hist' = hist, kind' = kind, arg' = arg, from' = from, seen' = seen, out' = [] }
  }
  // hand the explored schedule to the threads of the implementation: one writer cycling through the
  // history, three readers converting the instants of this state; expectation = constant offset
  action campaign = {
    nondet n = Set(0, 1, 999999999).oneOf()
    all { hist.length() >= 4, hist' = hist, pc' = pc, kind' = kind, arg' = arg, from' = from, seen' = seen, ret' = ret,
      out' = [ev("stress", [n, arg.get(0), arg.get(1), arg.get(2)].concat(hist), [TG])] }
  }
  action step = any { update, call, call, read, return, campaign }

  // a returned value is explained by exactly one value in force between call and return,
  // and TAI<->GPS by none at all
  val inv = READERS.forall(r => pc.get(r) == "done" implies and {
    from.get(r).to(cur).exists(v => ret.get(r) == result(kind.get(r), arg.get(r), hist[v])),
    kind.get(r) >= 4 implies 0.to(cur).forall(v => ret.get(r) == result(kind.get(r), arg.get(r), hist[v]))
  })
}
