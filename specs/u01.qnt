// U01: SI quantities.  The state is one quantity of one dimension with an exact decimal value
// n * 10^e in its base unit; entering and leaving prefixed units only moves the exponent.
module u01 {
  import lib.* from "./lib"
  var fam: int         // 0 length (m), 1 time (s), 2 mass (kg; prefixes apply to the gram)
  var n: int
  var e: int
  var out: List[Ev]
  // prefixes yocto .. yotta in order
  pure val PW = [-24, -21, -18, -15, -12, -9, -6, -3, -2, -1, 1, 2, 3, 6, 9, 12, 15, 18, 21, 24]
  // mass has no separate kilogram entry (it is the base unit): index 12 is skipped
  pure def pow(f: int, p: int): int = if (f == 2) PW[p] - 3 else PW[p]
  pure def pidx(s: int, i: int, f: int): int = { pure val p = hh(s, i) % 20 if (f == 2 and p == 12) 13 else p }
  pure def value(s: int): int = pick(s, 70, [0, 1, -1, 7, rnd(s, 71, -1000, 1000), rnd(s, 72, -1000000000, 1000000000)])

  action init = all { fam' = 0, n' = 1, e' = 0, out' = [ev("base", [0, 1, 0], [1, 0])] }
  action base = {
    nondet s = 0.to(2^62).oneOf()
    val f = hh(s, 1) % 3
    val v = value(s)
    val x = rnd(s, 2, -6, 6)
    all { fam' = f, n' = v, e' = x, out' = [ev("base", [f, v, x], [v, x])] }
  }
  // a number of prefixed units becomes base units
  action enter = {
    nondet s = 0.to(2^62).oneOf()
    val f = hh(s, 1) % 3
    val p = pidx(s, 2, f)
    val v = value(s)
    val x = rnd(s, 3, -6, 6)
    all { fam' = f, n' = v, e' = x + pow(f, p), out' = [ev("enter", [f, p, v, x], [v, x + pow(f, p)])] }
  }
  // the quantity expressed in a prefixed unit (and back)
  action leave = {
    nondet s = 0.to(2^62).oneOf()
    val p = pidx(s, 2, fam)
    all { fam' = fam, n' = n, e' = e, out' = [ev("leave", [fam, p], [n, e - pow(fam, p), n, e])] }
  }
  // from one prefix through the base unit to another
  action across = {
    nondet s = 0.to(2^62).oneOf()
    val f = hh(s, 1) % 3
    val p = pidx(s, 2, f)
    val q = pidx(s, 3, f)
    val v = value(s)
    all { fam' = fam, n' = n, e' = e, out' = [ev("across", [f, p, q, v], [v, pow(f, p) - pow(f, q)])] }
  }
  // arithmetic within one prefixed unit, on exact integers
  action arith = {
    nondet s = 0.to(2^62).oneOf()
    val f = hh(s, 1) % 3
    val p = pidx(s, 2, f)
    val a = rnd(s, 3, -100000, 100000)
    val b = rnd(s, 4, -100000, 100000)
    val k = pick(s, 5, [-7, -2, 1, 3, 8, 49, -41, 103, 10, 98])
    all { fam' = fam, n' = n, e' = e, out' = [ev("arith", [f, p, a, b, k], [a + b, a - b, a * k, -a, a * b])] }
  }
  action step = any { base, enter, enter, leave, leave, across, arith }
  val inv = and { fam >= 0, fam <= 2, e >= -40, e <= 40 }
}
