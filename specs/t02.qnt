// T02: time scales.  State: the process-wide leap second count and one instant that is
// carried from scale to scale by conversions, interleaved with leap-second updates.
module t02 {
  import lib.* from "./lib"
  pure val EPOCH = 315964800          // Unix seconds of 1980-01-06
  pure val WEEK = 604800
  // scales: 0 Unix, 1 UTC, 2 TAI, 3 GPS.  Offset of scale readings from the UTC reading:
  //   TAI = UTC + 10 + leap ; GPS = TAI - 19 - EPOCH
  pure def off(scale: int, leap: int): int =
    if (scale <= 1) 0 else if (scale == 2) 10 + leap else 10 + leap - 19 - EPOCH
  pure def conv(sec: int, a: int, b: int, leap: int): int = sec - off(a, leap) + off(b, leap)

  var leap: int
  var scale: int
  var sec: int
  var nano: int
  var out: List[Ev]

  pure val EDGES = [0, 1, -1, 59, 60, -60, 315964799, 315964800, 315964801, 315964780, 315964790, -315964800, 604799, 604800,
    -604799, -604800, -604801, 619315199, 619315200, 619315201, 1238630399, 1238630400, -619315200, -619315201, 1700000000,
    915148799, 915148800, 78796799, 63072000, 10, 19, -19, 37, -37, 4611686018427387904, -4611686018427387904]
  pure def anySec(s: int): int = {
    pure val k = hh(s, 1) % 6
    if (k == 0) pick(s, 2, EDGES) else if (k == 1) pick(s, 2, EDGES) + rnd(s, 3, -40, 40)
    else if (k == 2) rnd(s, 4, -5000000000, 5000000000) else if (k == 3) rnd(s, 5, -2000000, 2000000)
    else if (k == 4) WEEK * rnd(s, 6, -4000, 9000) + pick(s, 7, [0, -1, 1]) else rnd(s, 8, -(2^62), 2^62)
  }
  // nearest non-negative full week congruent to raw (mod 1024); both candidates on a tie
  pure def weeks(raw: int, hint: int): (int, int) = {
    pure val b = fdiv(hint - raw, 1024) * 1024 + raw       // largest candidate <= hint
    pure val lo = if (b < 0) b + 1024 else b
    pure val hi = lo + 1024
    if (lo >= hint) (lo, lo)
    else if (iabs(lo - hint) < iabs(hi - hint)) (lo, lo)
    else if (iabs(lo - hint) > iabs(hi - hint)) (hi, hi) else (lo, hi)
  }

  action init = all { leap' = 27, scale' = 1, sec' = 0, nano' = 0, out' = [ev("boot", [], [37]), ev("setleap", [27], [37])] }
  action setLeap = {
    nondet l = Set(27, 0, 1, 26, 28, 37, -1, -10, 9, 10, 19, 100, 1000, -1000, 1000000, -1000000, 1073741823, -1073741824).oneOf()
    all { leap' = l, scale' = scale, sec' = sec, nano' = nano, out' = [ev("setleap", [l], [10 + l])] }
  }
  action fresh = {
    nondet s = 0.to(2^62).oneOf() nondet sc = 0.to(3).oneOf()
    nondet n = Set(0, 1, 999999999, 500000000, 123456789).oneOf()
    all { leap' = leap, scale' = sc, sec' = anySec(s), nano' = n, out' = [ev("fresh", [sc, anySec(s), n], [])] }
  }
  // the conversions the interface offers
  pure val EDGE = Set((0, 1), (1, 0), (1, 2), (2, 1), (1, 3), (3, 1), (2, 3), (3, 2))
  action convert = {
    nondet t = EDGE.filter(e => e._1 == scale).oneOf()
    val v = conv(sec, scale, t._2, leap)
    all { leap' = leap, scale' = t._2, sec' = v, nano' = nano,
      out' = [ev("conv", [scale, t._2], [v, nano])] }
  }
  // every there-and-back path at once
  action roundTrips = all {
    leap' = leap, scale' = scale, sec' = sec, nano' = nano,
    out' = [ev("roundtrip", [sec, nano], [])]
  }
  action weekSplit = {
    nondet s = 0.to(2^62).oneOf()
    nondet h = Set(0, 1, 500, 511, 512, 513, 1023, 1024, 1025, 1535, 1536, 1537, 2047, 2048, 2200, 2300, 100000, 2147480000).oneOf()
    nondet d = (-700).to(700).oneOf()
    val x = anySec(s)
    val w = fdiv(x, WEEK)
    val raw = fmod(w, 1024)
    val hint = if (hh(s, 9) % 3 == 0) imin(imax(0, w + d), 2147480000) else imax(0, h + d)
    val f = weeks(raw, hint)
    all { leap' = leap, scale' = scale, sec' = sec, nano' = nano,
      out' = [ev("week", [x, hint], [raw, fmod(x, WEEK), f._1, f._2])] }
  }
  action step = any { setLeap, fresh, convert, convert, convert, roundTrips, weekSplit, weekSplit }

  // relations the offsets must satisfy in every state
  val inv = and {
    0.to(3).forall(a => 0.to(3).forall(b => conv(conv(sec, a, b, leap), b, a, leap) == sec)),
    conv(sec, 1, 2, leap) - sec == 10 + leap,
    conv(sec, 2, 3, leap) == conv(sec, 2, 3, leap + 1),
    conv(EPOCH + 19, 2, 3, leap) == 0,
    conv(conv(sec, 1, 2, leap), 2, 3, leap) == conv(sec, 1, 3, leap)
  }
}
