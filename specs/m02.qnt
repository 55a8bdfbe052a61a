// M02: direct linear solvers over exact rationals.  The state holds one integer matrix A (times 2^scale),
// its exact determinant and adjugate; the crate's determinant, inverses, LU, Cholesky and solves are
// compared with them.
module m02 {
  import lib.* from "./lib"
  import ela.* from "./ela"
  var n: int
  var A: List[int]
  var det: int
  var inv1: List[int]     // numerators of the inverse
  var den: int            // its common denominator (+-det), 0 when singular
  var spd: int            // 1 symmetric positive definite, 0 certainly not, -1 not decided here
  var sc: int             // A is scaled by 2^sc
  var out: List[Ev]

  // leading principal minors by fraction-free elimination without pivoting
  type Min = { a: List[int], p: int, verdict: int }
  pure def minors(a: List[int], nn: int, exact: bool): int = {
    pure val dmax = range(0, nn).foldl(0, (m, i) => imax(m, iabs(a[i * nn + i])))
    range(0, nn).foldl({ a: a, p: 1, verdict: 1 }, (e, k) =>
      if (e.verdict != 1) e else {
        pure val p = e.a[k * nn + k]
        // pivot k of the Cholesky process is p / e.p
        if (p == 0) { ...e, verdict: if (exact) 0 else -1 }
        else if (p < 0) { ...e, verdict: if (-p * 10^5 > e.p * dmax) 0 else -1 }
        else if (p * 10^8 < e.p * dmax) { ...e, verdict: -1 }
        else { a: range(0, nn).foldl(List(), (l, i) => range(0, nn).foldl(l, (l2, j) =>
                 l2.append(if (i <= k or j <= k) 0 else (p * e.a[i * nn + j] - e.a[i * nn + k] * e.a[k * nn + j]) / e.p))),
               p: p, verdict: 1 } }).verdict }

  pure def sym(a: List[int], nn: int): bool = range(0, nn).foldl(true, (b, i) => range(0, i).foldl(b, (b2, j) => b2 and a[i * nn + j] == a[j * nn + i]))
  pure def mat(nn: int, f: (int, int) => int): List[int] = range(0, nn).foldl(List(), (l, i) => range(0, nn).foldl(l, (l2, j) => l2.append(f(i, j))))
  // the same operator again: Quint's evaluator does not support calling a higher-order operator while it runs
  pure def over(nn: int, f: (int, int) => int): List[int] = range(0, nn).foldl(List(), (l, i) => range(0, nn).foldl(l, (l2, j) => l2.append(f(i, j))))
  pure def pickN(s: int): int = pick(s, 900, [1, 2, 2, 3, 3, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 8, 12])
  pure def perm(s: int, nn: int, i: int): int = {
    // i-th element of a pseudo random permutation
    pure val l = range(0, nn).foldl(range(0, nn), (q, k) => { pure val j = hh(s, 300 + k) % nn  q.replaceAt(k, q[j]).replaceAt(j, q[k]) })
    l[i] }
  // kinds: general, small, triangular, permuted diagonal, badly scaled rows, zero leading entries, tiny leading pivots, symmetric, L L', rank deficient, repeated rows
  pure def gen(s: int, kind: int, nn: int): List[int] = {
    pure val lim = pick(s, 901, [2, 9, 9, 100, 1000])
    pure val g = mat(nn, (i, j) => rnd(s, i * nn + j, -lim, lim))
    if (kind == 0) g
    else if (kind == 1) over(nn, (i, j) => if (j <= i) g[i * nn + j] else 0)
    else if (kind == 2) over(nn, (i, j) => if (j >= i) g[i * nn + j] else 0)
    else if (kind == 3) over(nn, (i, j) => if (j == perm(s, nn, i)) 1 + iabs(g[i * nn + j]) else 0)
    else if (kind == 4) over(nn, (i, j) => g[i * nn + j] * 2^(hh(s, 600 + i) % 12))
    else if (kind == 5) over(nn, (i, j) => if (i + j < nn - 1) 0 else g[i * nn + j])
    else if (kind == 6) over(nn, (i, j) => if (i == 0 and j == 0) 1 else g[i * nn + j] * 4096)
    else if (kind == 7) over(nn, (i, j) => (if (i == j) lim * pick(s, 903, [0, 1, nn]) else 0) + (if (i < j) g[i * nn + j] else g[j * nn + i]))
    else if (kind == 8) {       // L L' with integer L, sometimes with a zero pivot
      pure val z = pick(s, 904, [-1, -1, hh(s, 905) % nn])
      pure val L = mat(nn, (i, j) => if (j > i) 0 else if (i == j) (if (i == z) 0 else 2^(hh(s, i) % 4)) else rnd(s, i * nn + j + 50, -5, 5))
      over(nn, (i, j) => range(0, nn).foldl(0, (t, k) => t + L[i * nn + k] * L[j * nn + k])) }
    else if (kind == 9) {       // last row (after a permutation) is a combination of the others
      pure val t = hh(s, 906) % nn
      over(nn, (i, j) => if (i != t) g[i * nn + j] else range(0, nn).foldl(0, (a, k) => if (k == t) a else a + rnd(s, 700 + k, -2, 2) * g[k * nn + j])) }
    else if (kind == 10) {      // a column is a combination of the others
      pure val t = hh(s, 907) % nn
      over(nn, (i, j) => if (j != t) g[i * nn + j] else range(0, nn).foldl(0, (a, k) => if (k == t) a else a + rnd(s, 700 + k, -2, 2) * g[i * nn + k])) }
    else { // repeated or zero row
      pure val t = hh(s, 908) % nn
      pure val q = hh(s, 909) % nn
      over(nn, (i, j) => if (i == t) (if (q == t) 0 else g[q * nn + j]) else g[i * nn + j]) } }

  action init = all { n' = 1, A' = [2], det' = 2, inv1' = [1], den' = 2, spd' = 1, sc' = 0, out' = [ev("load", [1, 0, 2], [2, 2, 1, 1])] }
  action load = {
    nondet s = 0.to(2^62).oneOf()
    val nn = pickN(s)
    val kind = hh(s, 910) % 12
    val a = gen(s, kind, nn)
    val e = eliminate(a, nn)
    val d = if (e.ok) e.p * e.sign else 0
    val c = 2 * nn
    val iv = if (e.ok) mat(nn, (i, j) => e.a[i * c + nn + j]) else List()
    val k = pick(s, 911, [0, 0, 0, -40, 40, -3, 7])
    val sp = if (sym(a, nn)) minors(a, nn, kind == 8 and k % 2 == 0) else -1
    all { n' = nn, A' = a, det' = d, inv1' = iv, den' = if (e.ok) e.p else 0, spd' = sp, sc' = k,
      out' = [ev("load", [nn, k].concat(a), [d, if (e.ok) e.p else 0, sp].concat(iv))] }
  }
  action keep = all { n' = n, A' = A, det' = det, inv1' = inv1, den' = den, spd' = spd, sc' = sc }
  // right-hand sides: x = inverse * b exactly
  action solve = {
    nondet s = 0.to(2^62).oneOf()
    nondet k = Set(1, 2, 3, 5).oneOf()
    val lim = pick(s, 0, [1, 10, 1000])
    val b = range(0, n * k).foldl(List(), (l, j) => l.append(rnd(s, j + 1, -lim, lim)))   // n x k, row major
    val x = if (den == 0) List() else range(0, n).foldl(List(), (l, i) => range(0, k).foldl(l, (l2, c) =>
      l2.append(range(0, n).foldl(0, (t, j) => t + inv1[i * n + j] * b[j * k + c]))))
    all { keep, out' = [ev("solve", [k].concat(b), x)] }
  }
  action step = any { load, load, solve }
  // the specification's own elimination is right: A * numerators = den * identity
  val inv = den == 0 or 0.to(n - 1).forall(i => 0.to(n - 1).forall(j =>
    range(0, n).foldl(0, (t, k) => t + A[i * n + k] * inv1[k * n + j]) == (if (i == j) den else 0)))
}
