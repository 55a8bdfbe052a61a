// V01, long files: the same reader on files of up to a few hundred thousand rows.  The content is a prefix of one
// of several infinite texts of 16-byte rows (text g, row k: "%07d,%07d\n" of k + 1000000 * (g mod 8) and 7k + g mod 1000003),
// so the state is only lengths: writers append any number of bytes, truncate, or replace the file by a prefix of another text.
module v03 {
  import lib.* from "./lib"
  type File = { there: bool, gen: int, len: int }
  type Reader = { gen: int, pos: int, acc: int }      // generation seen, bytes consumed, rows accepted since the last reload
  var file: File
  var rd: Reader
  var header: int
  var max: int
  var out: List[Ev]
  pure val ROW = 16
  pure val LIMIT = 1000000
  pure def nrows(len: int, h: int): int = imax(0, len / ROW - h)
  // shown: rows first .. first + count - 1 of the text
  pure def shown(acc: int, m: int): List[int] = { pure val c = if (m < 0) acc else imin(acc, m) [acc - c, c] }
  pure def chunk(s: int): int = pick(s, 1, [1, 15, 16, 17, rnd(s, 2, 1, 400), rnd(s, 2, 1, 5000), 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, rnd(s, 3, 10000, 100000), rnd(s, 3, 10000, 100000), 131072, 300000])
  action init = {
    nondet h = Set(0, 1).oneOf()
    nondet m = Set(-1, -1, 0, 1, 100, 2000).oneOf()
    all { file' = { there: false, gen: 0, len: 0 }, rd' = { gen: -1, pos: 0, acc: 0 }, header' = h, max' = m, out' = [ev("open", [h, m], [])] }
  }
  action keep = all { header' = header, max' = max }
  action grow = {
    nondet s = 0.to(2^62).oneOf()
    val c = chunk(s)
    // grow to just before, at or just behind the end of a line in half of the cases
    val n = if (hh(s, 9) % 2 == 0) c else imax(1, c - (file.len + c) % ROW + pick(s, 8, [-1, 0, 1]))
    val l = file.len + n
    all { l <= LIMIT, keep, rd' = rd,
      // regrowing past the consumed length between two polls after a truncation is not observable by length
      not(file.there and file.gen == rd.gen and file.len < rd.pos) or l < rd.pos,
      file' = { there: true, gen: if (file.there) file.gen else file.gen + 1, len: l },
      out' = [ev("append", [if (file.there) file.gen else file.gen + 1, file.len, n, b2i(file.there)], [])] }
  }
  action truncate = {
    nondet s = 0.to(2^62).oneOf()
    val n = pick(s, 1, [0, rd.pos - 1, rd.pos / 2, rd.pos - rd.pos % ROW, 4096, 65536, rnd(s, 2, 0, imax(0, rd.pos - 1))])
    all { file.there, file.gen == rd.gen, n >= 0, n < rd.pos, n < file.len, keep, rd' = rd, file' = { ...file, len: n }, out' = [ev("truncate", [n], [])] }
  }
  action replace = {
    nondet s = 0.to(2^62).oneOf()
    val l = pick(s, 1, [file.len, file.len, rd.pos, chunk(s + 1), chunk(s + 2) * 3, 0])
    all { file.there, keep, rd' = rd, file' = { there: true, gen: file.gen + 1, len: l }, out' = [ev("replace", [file.gen + 1, l], [])] }
  }
  pure def loaded(f: File, h: int): Reader = { gen: f.gen, pos: f.len, acc: nrows(f.len, h) }
  pure def obs(r: Reader, changed: int, h: int, m: int): List[int] = [changed, r.gen, b2i(h == 1 and r.pos >= ROW), h].concat(shown(r.acc, m))
  action poll = {
    val reload = rd.gen >= 0 and (file.gen != rd.gen or file.len < rd.pos)
    val r = if (not(file.there)) rd else loaded(file, header)
    val changed = if (not(file.there)) 0 else if (reload) 1 else b2i(r.acc > rd.acc)
    all { keep, file' = file, rd' = r, out' = [ev("poll", [], obs(r, changed, header, max))] }
  }
  action initialize = {
    val r = if (file.there) loaded(file, header) else rd
    all { keep, file' = file, rd' = r, out' = [ev("initialize", [], obs(r, -1, header, max))] }
  }
  action step = any { grow, grow, grow, grow, truncate, replace, poll, poll, poll, poll, initialize }
  val inv = and { rd.acc >= 0, rd.acc * ROW <= rd.pos, rd.pos <= LIMIT + 300000 * 3,
    (file.there and rd.gen == file.gen and rd.pos == file.len) implies rd.acc == nrows(file.len, header) }
}
