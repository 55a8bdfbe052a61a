// Shared vocabulary of all specifications: the event record that every state
// exposes to the conformance driver, exact integer helpers, and a pure
// pseudo-random expansion of one nondeterministic choice into many values.
module lib {
  // One observable step of the system: operation, integer arguments, and the
  // integers the specification requires to be observed (layout fixed per op).
  type Ev = { op: str, a: List[int], e: List[int] }
  pure def ev(op: str, a: List[int], e: List[int]): Ev = { op: op, a: a, e: e }

  // ---------------------------------------------------------------- integers
  pure def iabs(x: int): int = if (x < 0) -x else x
  pure def imin(x: int, y: int): int = if (x < y) x else y
  pure def imax(x: int, y: int): int = if (x > y) x else y
  pure def sgn(x: int): int = if (x < 0) -1 else if (x > 0) 1 else 0
  pure def b2i(b: bool): int = if (b) 1 else 0
  /// floor division and the matching non-negative remainder (b > 0)
  pure def fdiv(a: int, b: int): int =
    if (a >= 0) a / b else -((-a + b - 1) / b)
  pure def fmod(a: int, b: int): int = a - b * fdiv(a, b)
  /// nearest-integer division (b > 0)
  pure def rdiv(a: int, b: int): int = fdiv(2 * a + b, 2 * b)

  // number of bits of n > 0
  pure def bits(n: int): int =
    [1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1].foldl({ n: n, b: 0 }, (st, k) =>
      if (st.n >= 2^k) { n: st.n / 2^k, b: st.b + k } else st).b + 1
  // integer square root (floor) by Newton iteration from a power-of-two over-estimate
  pure def isqrt(n: int): int =
    if (n <= 0) 0 else
      range(0, 14).foldl({ x: 2^((bits(n) + 1) / 2), done: false }, (st, _i) =>
        if (st.done) st else {
          pure val y = (st.x + n / st.x) / 2
          if (y >= st.x) { ...st, done: true } else { ...st, x: y } }).x

  // ------------------------------------------------- pseudo-random expansion
  pure def h1(x: int): int = {
    pure val y = x % (2^64)
    pure val z = y * y + y * 11400714819323198485 + 14029467366897019727
    ((z / (2^31)) % (2^64))
  }
  /// the i-th 64-bit value derived from seed s
  pure def hh(s: int, i: int): int = h1(h1(s + i * 7046029254386353131) + i * 1442695040888963407 + 12345)
  /// uniform integer in lo..hi
  pure def rnd(s: int, i: int, lo: int, hi: int): int = lo + hh(s, i) % (hi - lo + 1)
  pure def rndList(s: int, i: int, n: int, lo: int, hi: int): List[int] =
    range(0, n).foldl(List(), (l, k) => l.append(rnd(s, i * 1000 + k, lo, hi)))
  pure def pick(s: int, i: int, l: List[int]): int = l[hh(s, i) % l.length()]

  pure def lsum(l: List[int]): int = l.foldl(0, (x, y) => x + y)
  pure def lmap(l: List[int], f: (int) => int): List[int] = l.foldl(List(), (r, x) => r.append(f(x)))
}
