// The xorshift64* step on 64-bit words, its inverse, and the word it outputs.
module xs {
  import lib.* from "./lib"
  pure val W = 2^64
  pure val MULT = 2685821657736338717           // 0x2545F4914F6CDD1D
  pure val ZEROSEED = 11400714819323198485      // 0x9E3779B97F4A7C15
  pure val XN = range(0, 256).foldl(List(), (l, k) => {
    pure val a = k / 16
    pure val b = k % 16
    pure def bx(p: int): int = ((a / p) % 2 + (b / p) % 2) % 2 * p
    l.append(bx(1) + bx(2) + bx(4) + bx(8)) })
  pure def xor(x: int, y: int): int =
    range(0, 16).foldl({ x: x, y: y, p: 1, r: 0 }, (s, _k) =>
      { x: s.x / 16, y: s.y / 16, p: s.p * 16, r: s.r + XN[(s.x % 16) * 16 + s.y % 16] * s.p }).r
  pure def advance(x0: int): int = {
    pure val x1 = xor(x0, x0 / 2^12)
    pure val x2 = xor(x1, (x1 * 2^25) % W)
    xor(x2, x2 / 2^27)
  }
  pure def word(x: int): int = (x * MULT) % W
  // inverses: x ^= x >> k and x ^= x << k are undone by repeated shifting
  pure def unR(y: int, k: int): int = range(1, 64 / k + 1).foldl(y, (r, i) => xor(r, y / 2^(k * i)))
  pure def unL(y: int, k: int): int = range(1, 64 / k + 1).foldl(y, (r, i) => xor(r, (y * 2^(k * i)) % W))
  pure def retreat(x: int): int = unR(unL(unR(x, 27), 25), 12)
  pure val INV = range(0, 6).foldl(MULT, (r, _k) => (r * ((2 - MULT * r) % W + W)) % W)   // MULT^-1 mod 2^64
  pure def stateFor(w: int): int = (w * INV) % W       // state whose raw word is w
  pure def norm(seed: int): int = if (seed == 0) ZEROSEED else seed

}
