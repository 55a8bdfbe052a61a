// Exact linear algebra on integer matrices: fraction-free (Bareiss) Gauss-Jordan elimination.
module ela {
  import lib.* from "./lib"
  type Elim = { a: List[int], p: int, sign: int, rank: int, ok: bool }
  // one fraction-free Gauss-Jordan step on column k of the n x c matrix a
  pure def stepk(e: Elim, k: int, nn: int, c: int): Elim =
    if (not(e.ok)) e else {
      pure val rows = range(k, nn).select(r => e.a[r * c + k] != 0)
      if (rows.length() == 0) { ...e, ok: false } else {
        pure val r = rows[0]
        pure val a = if (r == k) e.a else
          range(0, nn).foldl(List(), (l, i) => l.concat(
            if (i == k) e.a.slice(r * c, (r + 1) * c) else if (i == r) e.a.slice(k * c, (k + 1) * c) else e.a.slice(i * c, (i + 1) * c)))
        pure val p = a[k * c + k]
        pure val b = range(0, nn).foldl(List(), (l, i) =>
          if (i == k) l.concat(a.slice(k * c, (k + 1) * c)) else {
            pure val f = a[i * c + k]
            range(0, c).foldl(l, (l2, j) => l2.append((p * a[i * c + j] - f * a[k * c + j]) / e.p)) })
        { a: b, p: p, sign: if (r == k) e.sign else -e.sign, rank: e.rank + 1, ok: true } } }
  pure def eliminate(a: List[int], nn: int): Elim = {
    pure val c = 2 * nn
    pure val aug = range(0, nn).foldl(List(), (l, i) => range(0, c).foldl(l, (l2, j) =>
      l2.append(if (j < nn) a[i * nn + j] else if (j - nn == i) 1 else 0)))
    range(0, nn).foldl({ a: aug, p: 1, sign: 1, rank: 0, ok: true }, (e, k) => stepk(e, k, nn, c)) }
}
