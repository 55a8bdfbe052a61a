// R01: xorshift64* as a state machine over one 64-bit word, with draws derived from the raw word.
// Seeds are drawn freely, or constructed backwards (inverting the step) so that the next
// raw word is a chosen extreme.
module r01 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  import xs.* from "./xs"
  var st: int        // generator A
  var fork: int      // generator B (a clone)
  var out: List[Ev]

  pure val WORDS = [W - 1, W - 2, 1, 2, 2047, 2048, 2049, W - 2048, W - 2049, W - 4096, W - 2^39, W - 2^40, W - 2^40 - 1, W - 2^39 + 1,
    W - 2^41, 2^63, 2^63 - 1, 2^40, 2^39, 4096, 2^53, 2^11 * 3, W - 2^30, W - 2^38, W - 3 * 2^39, 6148914691236517205]
  pure def seedFor(s: int): int = {
    pure val k = hh(s, 1) % 4
    if (k == 0) pick(s, 2, [0, 1, 2, W - 1, 2^63, ZEROSEED, 42, 12345, 2^32]) else if (k == 1) rnd(s, 3, 0, W - 1)
    else retreat(stateFor(if (k == 2) pick(s, 4, WORDS) else imax(1, W - 1 - rnd(s, 5, 0, 2^42))))
  }
  action init = all { st' = norm(42), fork' = norm(42), out' = [ev("seed", [42], [])] }
  action seed = {
    nondet s = 0.to(2^62).oneOf()
    val x = seedFor(s)
    all { st' = norm(x), fork' = norm(x), out' = [ev("seed", [x], [])] }
  }
  action clone = all { st' = st, fork' = st, out' = [ev("clone", [], [])] }
  // n raw words from A
  action raw = {
    nondet n = 1.to(8).oneOf()
    val r = range(0, n).foldl({ x: st, l: List() }, (a, _k) => { val y = advance(a.x) { x: y, l: a.l.append(word(y)) } })
    all { st' = r.x, fork' = fork, out' = [ev("raw", [0, n], r.l)] }
  }
  action rawFork = {
    val y = advance(fork)
    all { st' = st, fork' = y, out' = [ev("raw", [1, 1], [word(y)])] }
  }
  // uniform draws: the top 53 bits over 2^53; which = 0 next_f64, 1 next_real<f64>, 2 next_real<f32>
  action uniform = {
    nondet which = 0.to(2).oneOf()
    val y = advance(st)
    all { st' = y, fork' = fork, out' = [ev("uniform", [which], [word(y) / 2048])] }
  }
  // Box-Muller on the next two uniforms
  action normal = {
    nondet which = 0.to(2).oneOf()
    val y1 = advance(st)
    val y2 = advance(y1)
    val u1 = word(y1) / 2048
    val u2 = word(y2) / 2048
    val r = fsqrt(-2 * fln(u1 * SC / 2^53))
    val v = fmul(r, fcos(TWOPI * u2 / 2^53))
    all { st' = y2, fork' = fork,
      out' = [ev("normal", [which], if (u1 > 0) [u1, u2, v, SC] else [u1, u2, 0, 0])] }
  }
  action step = any { seed, seed, clone, raw, raw, rawFork, uniform, uniform, uniform, normal, normal }
  val inv = and {
    st > 0, st < W, fork > 0, fork < W,
    advance(st) != 0,                       // never stuck
    retreat(advance(st)) == st              // the step is a bijection
  }
}
