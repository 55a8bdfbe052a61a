// M03: encoding and decoding.  The state holds a value (its shape and the bit patterns of its components)
// and, once encoded, the wire content: the rows of components a decoder must see.  The wire can be
// damaged (elements or rows dropped, added, replaced by text; bytes cut or appended); decoding must give
// the components now on the wire when they still have the value's shape, and an error otherwise.
module m03 {
  import lib.* from "./lib"
  type Row = List[int]
  // shape table: rows, cols (a flat value has one row), nested 1 when rows are separate sequences
  pure val SH: List[List[int]] = [[1, 1, 0], [1, 2, 0], [1, 3, 0], [1, 4, 0], [1, 6, 0], [1, 9, 0],
    [1, 1, 1], [1, 3, 1], [3, 1, 1], [2, 3, 1], [3, 2, 1], [3, 3, 1], [4, 4, 1], [6, 6, 1], [2, 5, 1],
    [1, 3, 0], [1, 3, 0], [1, 4, 0], [3, 3, 1], [2, 3, 1], [2, 3, 1]]
  var ty: int
  var w: int
  var val0: List[Row]
  var codec: int        // -1 nothing encoded; 0 serde_json 1 serde-json-core 2 CBOR value 3 CBOR bytes 4 bincode standard 5 bincode legacy 6 bincode borrowed 7 bincode through serde
  var wire: List[Row]
  var poisoned: bool
  var bytes: int        // length of the byte image (bincode)
  var cutTo: int        // bytes kept
  var out: List[Ev]

  pure def special(ww: int, s: int, i: int): int = {
    pure val man = if (ww == 64) 52 else 23
    pure val ex = if (ww == 64) 11 else 8
    pure val full = 2^ex - 1
    pure val m = hh(s, 3 * i) % (2^man)
    pure val e = hh(s, 3 * i + 1) % full
    pure val sign = (hh(s, 3 * i + 2) % 2) * 2^(ww - 1)
    pure val k = hh(s, 3 * i + 777) % 14
    sign + (if (k == 0) 0 else if (k == 1) 1 else if (k == 2) 2^man - 1 else if (k == 3) full * 2^man
      else if (k == 4) (full - 1) * 2^man + 2^man - 1 else if (k == 5) 2^man else if (k == 6) m
      else if (k < 10) e * 2^man + m else (2^(ex - 1) - 1 + (e % 8)) * 2^man + (m / 2^(man - 4)) * 2^(man - 4)) }
  pure def finite(ww: int, b: int): bool = {
    pure val man = if (ww == 64) 52 else 23
    pure val ex = if (ww == 64) 11 else 8
    (b / 2^man) % (2^ex) != 2^ex - 1 }
  pure def flat(v: List[Row]): List[int] = v.foldl(List(), (l, r) => l.concat(r))
  pure def allFinite(ww: int, v: List[Row]): bool = flat(v).foldl(true, (b, x) => b and finite(ww, x))
  pure def mk(ww: int, s: int, r: int, c: int): List[Row] =
    range(0, r).foldl(List(), (l, i) => l.append(range(0, c).foldl(List(), (q, j) => q.append(special(ww, s, i * c + j)))))
  pure def shapeOk(t: int, v: List[Row]): bool =
    v.length() == SH[t][0] and v.foldl(true, (b, r) => b and r.length() == SH[t][1])

  action init = all { ty' = 0, w' = 64, val0' = [[0]], codec' = -1, wire' = List(), poisoned' = false, bytes' = 0, cutTo' = 0,
    out' = [ev("value", [0, 64, 0], [1])] }
  action value = {
    nondet s = 0.to(2^62).oneOf()
    nondet t = 0.to(20).oneOf()
    nondet ww = Set(32, 64).oneOf()
    val v = mk(ww, s, SH[t][0], SH[t][1])
    // one value in two is finite throughout, so that textual codecs are exercised
    val v2 = if (hh(s, 5000) % 2 == 0) v else v.foldl(List(), (l, r) => l.append(lmap(r, x => if (finite(ww, x)) x else x - 2^(if (ww == 64) 52 else 23))))
    all { ty' = t, w' = ww, val0' = v2, codec' = -1, wire' = List(), poisoned' = false, bytes' = 0, cutTo' = 0,
      out' = [ev("value", [t, ww].concat(flat(v2)), [flat(v2).length()])] }
  }
  action encode = {
    nondet c = 0.to(7).oneOf()
    val n = flat(val0).length() * w / 8
    all { codec == -1 or hh(codec + 7 * c, bytes) % 2 == 0, c > 1 or allFinite(w, val0), ty < 20 or c < 4 or c == 7,      // an assembly frame has no bincode form of its own
      ty' = ty, w' = w, val0' = val0, codec' = c, wire' = val0, poisoned' = false, bytes' = n, cutTo' = n,
      out' = [ev("encode", [c], [n].concat(flat(val0)))] }
  }
  action hold = all { ty' = ty, w' = w, val0' = val0, codec' = codec }
  pure def structured(c: int): bool = c == 0 or c == 2 or c == 3
  action drop = {
    nondet r = 0.to(5).oneOf()
    nondet j = 0.to(8).oneOf()
    all { structured(codec), not(poisoned), r < wire.length(), j < wire[r].length(), hold, poisoned' = false, bytes' = bytes, cutTo' = cutTo,
      wire' = wire.replaceAt(r, wire[r].slice(0, j).concat(wire[r].slice(j + 1, wire[r].length()))),
      out' = [ev("drop", [r, j], List())] }
  }
  action add = {
    nondet r = 0.to(5).oneOf()
    nondet s = 0.to(2^40).oneOf()
    val x = special(w, s, 0)
    val j = if (r < wire.length()) hh(s, 9) % (wire[r].length() + 1) else 0
    all { structured(codec), not(poisoned), r < wire.length(), wire[r].length() < 11, hold, codec != 0 or finite(w, x), poisoned' = false, bytes' = bytes, cutTo' = cutTo,
      wire' = wire.replaceAt(r, wire[r].slice(0, j).append(x).concat(wire[r].slice(j, wire[r].length()))),
      out' = [ev("add", [r, j, x], List())] }
  }
  action dropRow = {
    nondet r = 0.to(5).oneOf()
    all { structured(codec), not(poisoned), SH[ty][2] == 1, r < wire.length(), hold, poisoned' = false, bytes' = bytes, cutTo' = cutTo,
      wire' = wire.slice(0, r).concat(wire.slice(r + 1, wire.length())),
      out' = [ev("droprow", [r], List())] }
  }
  action addRow = {
    nondet s = 0.to(2^40).oneOf()
    all { structured(codec), not(poisoned), SH[ty][2] == 1, ty < 19, wire.length() > 0, wire.length() < 8, hold, poisoned' = false, bytes' = bytes, cutTo' = cutTo,
      wire' = wire.append(wire[hh(s, 1) % wire.length()]),
      out' = [ev("addrow", [hh(s, 1) % wire.length()], List())] }
  }
  action poison = {
    nondet r = 0.to(5).oneOf()
    nondet j = 0.to(8).oneOf()
    nondet k = Set(0, 1, 2).oneOf()      // text, null, a nested sequence
    all { structured(codec), not(poisoned), r < wire.length(), j < wire[r].length(), hold, poisoned' = true, bytes' = bytes, cutTo' = cutTo, wire' = wire,
      out' = [ev("poison", [r, j, k], List())] }
  }
  action cut = {
    nondet k = 0.to(600).oneOf()
    val n = k % (bytes + 1)
    all { codec == 4 or codec == 5 or codec == 6, n <= cutTo, hold, wire' = wire, poisoned' = false, bytes' = bytes, cutTo' = n,
      out' = [ev("cut", [n], List())] }
  }
  // a truncated image of the length-prefixed codec never decodes, whatever the framing
  action chop = {
    nondet k = 1.to(8).oneOf()
    all { codec == 7 or codec == 3, not(poisoned), wire == val0, hold, wire' = wire, poisoned' = true, bytes' = bytes, cutTo' = cutTo,
      out' = [ev("chop", [k], List())] }
  }
  action decode = {
    val ok = not(poisoned) and shapeOk(ty, wire) and cutTo == bytes
    all { codec >= 0, hold, wire' = wire, poisoned' = poisoned, bytes' = bytes, cutTo' = cutTo,
      out' = [ev("decode", List(), [b2i(ok)].concat(if (ok) flat(wire) else List()))] }
  }
  action step = any { value, encode, encode, drop, add, dropRow, addRow, poison, cut, chop, decode, decode }
  // what is encoded and left alone always decodes
  val inv = and { shapeOk(ty, val0), (codec >= 0 and wire == val0 and not(poisoned) and cutTo == bytes) implies shapeOk(ty, wire), cutTo <= bytes }
}
