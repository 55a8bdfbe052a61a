// T01: durations and instants are one exact integer nanosecond line.
// State: the numbers denoted by the duration and instant registers of a client
// program.  The implementation keeps (sec, nano_sec) pairs in parallel; after every
// operation the pair must be the canonical split of the number below.
module t01 {
  import lib.* from "./lib"
  pure val G = 1000000000
  pure val I64 = 2^63
  // keep one second away from the ends of the i64 second field
  pure def fits(n: int): bool = n >= (1 - I64) * G and n < (I64 - 1) * G
  pure def canon(n: int): List[int] = [fdiv(n, G), fmod(n, G)]

  var dur: List[int]    // duration registers
  var ins: List[int]    // instant registers
  var out: List[Ev]

  pure val R = 0.to(3)
  pure val EDGE = [0, 1, -1, 999, 1000, -999, -1000, 1001, -1001, 999999, -999999, 1000000, -1000000, 1000001,
    999999999, -999999999, 1000000000, -1000000000, 1000000001, -1000000001, 1999999999, -1999999999,
    2000000000, -2000000000, 500000000, -500000000, 1500000000, -1500000000, -1500000, 1500, -1500,
    9223372036854775807, -9223372036854775808, 9223372036854775806]
  // a 64-bit argument: boundary values, small, medium or full range
  pure def arg64(s: int): int = {
    pure val k = hh(s, 1) % 5
    if (k == 0) pick(s, 2, EDGE) else if (k == 1) rnd(s, 3, -3000000000, 3000000000)
    else if (k == 2) rnd(s, 4, -5000, 5000) else if (k == 3) rnd(s, 5, -(10^15), 10^15)
    else rnd(s, 6, -I64, I64 - 1)
  }

  action init = all {
    dur' = [0, 0, 0, 0],
    ins' = [0, 0, 0, 0],
    out' = [ev("init", [], [])]
  }

  // constructors: op, unit in nanoseconds
  action construct = {
    nondet r = R.oneOf()
    nondet s = 0.to(2^62).oneOf()
    nondet u = Set(("secs", 1000000000), ("millis", 1000000), ("micros", 1000), ("nanos", 1), ("nanos64", 1)).oneOf()
    val x = arg64(s)
    val v = x * u._2
    all {
      fits(v),
      dur' = dur.replaceAt(r, v), ins' = ins,
      out' = [ev(u._1, [r, x], canon(v))]
    }
  }
  action instant = {
    nondet r = R.oneOf()
    nondet s = 0.to(2^62).oneOf()
    nondet n = Set(0, 1, 499999999, 500000000, 999999999, 999999998, 123456789).oneOf()
    val v = arg64(s) * G + n
    all {
      fits(v),
      ins' = ins.replaceAt(r, v), dur' = dur,
      out' = [ev("instant", [r, fdiv(v, G), fmod(v, G)], canon(v))]
    }
  }
  action normalize = {
    // any pair (sec, nano) with an arbitrary 32-bit nano field denotes sec*1e9+nano
    nondet r = R.oneOf()
    nondet s = 0.to(2^62).oneOf()
    nondet m = Set(-2147483648, -2000000000, -1999999999, -1000000001, -1000000000, -999999999, -1, 0, 1, 999999999,
      1000000000, 1000000001, 1999999999, 2000000000, 2147483647).oneOf()
    val x = arg64(s)
    val v = x * G + m
    all {
      fits(v),
      dur' = dur.replaceAt(r, v), ins' = ins,
      out' = [ev("normalize", [r, x, m], canon(v))]
    }
  }
  // kind: 0 dur+dur, 1 dur-dur
  action durArith = {
    nondet r = R.oneOf() nondet x = R.oneOf() nondet y = R.oneOf()
    nondet o = Set("dadd", "dsub").oneOf()
    val v = if (o == "dadd") dur[x] + dur[y] else dur[x] - dur[y]
    all {
      fits(v),
      dur' = dur.replaceAt(r, v), ins' = ins,
      out' = [ev(o, [r, x, y], canon(v))]
    }
  }
  action insAdd = {
    nondet r = R.oneOf() nondet x = R.oneOf() nondet y = R.oneOf()
    val v = ins[x] + dur[y]
    all {
      fits(v),
      ins' = ins.replaceAt(r, v), dur' = dur,
      out' = [ev("tadd", [r, x, y], canon(v))]
    }
  }
  action insSub = {
    nondet r = R.oneOf() nondet x = R.oneOf() nondet y = R.oneOf()
    val v = ins[x] - ins[y]
    all {
      fits(v),
      dur' = dur.replaceAt(r, v), ins' = ins,
      out' = [ev("tsub", [r, x, y], canon(v))]
    }
  }
  // observers: order and equality of every pair of registers
  action compare = all {
    dur' = dur, ins' = ins,
    out' = range(0, 16).foldl(List(), (l, k) =>
      l.append(ev("dcmp", [k / 4, k % 4], [sgn(dur[k / 4] - dur[k % 4])]))
       .append(ev("tcmp", [k / 4, k % 4], [sgn(ins[k / 4] - ins[k % 4])])))
  }
  // derived laws exercised on registers: (t+d)-t = d ; (t+d)+e = t+(d+e)
  action laws = {
    nondet x = R.oneOf() nondet y = R.oneOf() nondet z = R.oneOf()
    all {
      fits(ins[x] + dur[y]), fits(dur[y] + dur[z]), fits(ins[x] + dur[y] + dur[z]),
      dur' = dur, ins' = ins,
      out' = [ev("law", [x, y, z], canon(dur[y]).concat(canon(ins[x] + dur[y] + dur[z])))]
    }
  }
  action step = any { construct, construct, instant, normalize, durArith, durArith, insAdd, insAdd, insSub, compare, laws }

  // model-level invariant: the canonical split denotes the number, uniquely, and order is lexicographic
  pure def okSplit(n: int): bool = {
    pure val c = canon(n)
    c[0] * G + c[1] == n and c[1] >= 0 and c[1] < G and c[0] >= -I64 and c[0] < I64
  }
  val inv = dur.indices().forall(k => okSplit(dur[k]) and okSplit(ins[k])) and
    dur.indices().forall(j => dur.indices().forall(k =>
      (dur[j] < dur[k]) iff (canon(dur[j])[0] < canon(dur[k])[0] or
        (canon(dur[j])[0] == canon(dur[k])[0] and canon(dur[j])[1] < canon(dur[k])[1]))))
}
