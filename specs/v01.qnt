// V01: tailing a growing CSV file.  State: the bytes of the file and its identity (a writer that
// appends in arbitrary pieces, truncates, replaces or deletes it) and the reader that polls it.
module v01 {
  import lib.* from "./lib"
  type File = { there: bool, gen: int, bytes: List[int] }
  // last file generation seen (-1 none), bytes consumed, rows accepted so far, rows shown, header shown
  type Reader = { gen: int, pos: int, acc: int, rows: List[List[(int, int)]], head: List[List[int]] }
  type Cfg = { header: bool, max: int, ys: List[int] }     // max -1 = unlimited; ys = column ids
  var file: File
  var rd: Reader
  var cfg: Cfg
  var pend: List[int]       // bytes the writer still has to write
  var out: List[Ev]

  pure val NL = 10
  // column names by id: time a b temp é zz(never in a file); the plotter's x column is always id 0
  pure val NAMES = [[116, 105, 109, 101], [97], [98], [116, 101, 109, 112], [195, 169], [122, 122]]
  pure val CELLS = [
    [49], [50, 46, 53], [45, 51], [48], [49, 101, 51], [45, 46, 53], [55, 46], [43, 52, 46, 50, 53], [49, 50, 51, 52, 53, 54, 46, 55, 56, 57],
    [49, 69, 45, 50], [57, 57], [48, 46, 48, 48, 49], [51, 46, 49, 52],      // 1 2.5 -3 0 1e3 -.5 7. +4.25 123456.789 1E-2 99 0.001 3.14
    [110, 97, 110], [105, 110, 102], [45, 105, 110, 102], [], [120], [49, 46, 50, 46, 51], [49, 101], [195, 169], [45], [46], [49, 101, 52, 48, 48], [49, 32, 50],
    [73, 110, 102, 105, 110, 105, 116, 121], [49, 101, 43, 50], [48, 120, 49, 48], [226, 130, 172, 49], [240, 159, 152, 128]]  // nan inf -inf "" x 1.2.3 1e é - . 1e400 "1 2" Infinity 1e+2 0x10 €1 😀
  // ------------------------------------------------------------ parsing
  pure def ws(b: int): bool = b == 32 or b == 9 or b == 13
  pure def trimL(l: List[int]): List[int] = {
    pure val k = l.foldl({ n: 0, on: true }, (a, b) => if (a.on and ws(b)) { ...a, n: a.n + 1 } else { ...a, on: false }).n
    l.slice(k, l.length())
  }
  pure def trimR(l: List[int]): List[int] = {
    pure val k = l.foldl({ n: 0, last: 0 }, (a, b) => { n: a.n + 1, last: if (ws(b)) a.last else a.n + 1 }).last
    l.slice(0, k)
  }
  pure def trim(l: List[int]): List[int] = trimR(trimL(l))
  // split on a separator byte; the last piece is what follows the last separator
  pure def split(l: List[int], sep: int): List[List[int]] = {
    pure val r = l.foldl({ done: List(), cur: List() }, (a, b) =>
      if (b == sep) { done: a.done.append(a.cur), cur: List() } else { ...a, cur: a.cur.append(b) })
    r.done.append(r.cur)
  }
  // decimal number -> (ok, n, d): optional sign, digits with at most one point, optional exponent; finite values only
  type Num = { ok: bool, n: int, d: int }
  pure def number(t: List[int]): Num = {
    // phases: 0 start, 1 mantissa, 2 after point, 3 after e, 4 exponent digits
    pure val r = t.foldl({ ph: 0, bad: false, neg: false, m: 0, nd: 0, sc: 0, eneg: false, ex: 0, ne: 0 }, (a, b) =>
      if (a.bad) a
      else if (b >= 48 and b <= 57) (
        if (a.ph <= 1) { ...a, ph: 1, m: a.m * 10 + b - 48, nd: a.nd + 1 }
        else if (a.ph == 2) { ...a, m: a.m * 10 + b - 48, nd: a.nd + 1, sc: a.sc + 1 }
        else { ...a, ph: 4, ex: imin(a.ex * 10 + b - 48, 5000), ne: a.ne + 1 })
      else if (b == 45 or b == 43) (
        if (a.ph == 0 and a.nd == 0 and a.sc == 0) { ...a, ph: 1, neg: b == 45, sc: 0 }
        else if (a.ph == 3) { ...a, ph: 4, eneg: b == 45 }
        else { ...a, bad: true })
      else if (b == 46) (if (a.ph <= 1) { ...a, ph: 2 } else { ...a, bad: true })
      else if (b == 101 or b == 69) (if ((a.ph == 1 or a.ph == 2) and a.nd > 0) { ...a, ph: 3 } else { ...a, bad: true })
      else { ...a, bad: true })
    pure val ok = not(r.bad) and r.nd > 0 and (r.ph <= 2 or r.ne > 0)
    pure val e = (if (r.eneg) -r.ex else r.ex) - r.sc
    pure val m = if (r.neg) -r.m else r.m
    if (not(ok)) { ok: false, n: 0, d: 1 }
    else if (r.m == 0) { ok: true, n: 0, d: 1 }
    else if (e >= 400) { ok: false, n: 0, d: 1 }
    else if (e <= -400) { ok: true, n: 0, d: 1 }
    else if (e >= 0) (if (r.m * 10^e >= 2^1024) { ok: false, n: 0, d: 1 } else { ok: true, n: m * 10^e, d: 1 })
    else { ok: true, n: m, d: 10^(-e) }
  }
  pure def lines(b: List[int]): List[List[int]] = {
    pure val p = split(b, NL)
    // complete, non-blank lines only
    p.slice(0, p.length() - 1).foldl(List(), (l, x) => if (trim(x).length() == 0) l else l.append(trim(x)))
  }
  pure def cells(line: List[int]): List[List[int]] = split(line, 44).foldl(List(), (l, c) => l.append(trim(c)))
  pure def indexOf(h: List[List[int]], name: List[int]): int =
    range(0, h.length()).foldl(-1, (r, i) => if (r < 0 and h[i] == name) i else r)
  // the reference: header and rows obtained by parsing the complete lines from the beginning
  type View = { head: List[List[int]], ok: bool, rows: List[List[(int, int)]] }
  pure def view(b: List[int], c: Cfg): View = {
    pure val ls = lines(b)
    pure val hd = if (c.header and ls.length() > 0) cells(ls[0]) else List()
    pure val body = if (c.header and ls.length() > 0) ls.slice(1, ls.length()) else ls
    pure val idx = [0].concat(c.ys).foldl(List(), (l, id) => l.append(if (c.header) indexOf(hd, NAMES[id]) else id))
    pure val ok = hd.length() == 0 or idx.foldl(true, (r, i) => r and i >= 0)
    { head: hd, ok: ok,
      rows: if (not(ok)) List() else body.foldl(List(), (rs, ln) => {
        pure val cs = cells(ln)
        pure val vs = idx.foldl(List(), (l, i) => l.append(if (i < cs.length()) number(cs[i]) else { ok: false, n: 0, d: 1 }))
        if (vs.foldl(true, (r, v) => r and v.ok)) rs.append(vs.foldl(List(), (l, v) => l.append((v.n, v.d)))) else rs }) }
  }
  pure def lastN(l: List[List[(int, int)]], c: Cfg): List[List[(int, int)]] =
    if (c.max < 0 or l.length() <= c.max) l else l.slice(l.length() - c.max, l.length())
  // a multi-byte character may be cut at the end of the file: the bytes of it that are there, and those missing
  // (a reader takes what precedes them and the rest later)
  pure def after(l: int): List[int] = if (l == 195) [169] else if (l == 226) [130, 172] else if (l == 240) [159, 152, 128] else List()
  pure def cut(b: List[int]): int = {
    pure val n = b.length()
    [3, 2, 1].foldl(0, (r, k) => if (r == 0 and n >= k and after(b[n - k]).length() >= k) k else r)
  }
  pure def missing(b: List[int]): List[int] = {
    pure val k = cut(b)
    if (k == 0) List() else { pure val m = after(b[b.length() - k]) m.slice(k - 1, m.length()) }
  }

  // ------------------------------------------------------------ reader
  pure val FRESH: Reader = { gen: -1, pos: 0, acc: 0, rows: List(), head: List() }
  type Step = { rd: Reader, changed: bool, must: bool }    // must: the call has to succeed
  pure def load(f: File, c: Cfg): Step =
    {
      pure val v = view(f.bytes, c)
      { rd: { gen: f.gen, pos: f.bytes.length() - cut(f.bytes), acc: v.rows.length(), rows: lastN(v.rows, c), head: v.head }, changed: true, must: v.ok }
    }
  pure def poll(r: Reader, f: File, c: Cfg): Step =
    if (not(f.there)) { rd: r, changed: false, must: true }
    else if (r.gen >= 0 and (f.gen != r.gen or f.bytes.length() < r.pos)) load(f, c)
    else if (f.bytes.length() == r.pos) { rd: { ...r, gen: f.gen }, changed: false, must: true }
    else {
      pure val s = load(f, c)
      { ...s, changed: s.rd.acc > r.acc }
    }
  pure def expected(s: Step, c: Cfg): List[int] = {
    pure val base = [b2i(s.must), b2i(s.changed), 1 + c.ys.length(), s.rd.rows.length()]
    pure val vals = s.rd.rows.foldl(base, (l, row) => row.foldl(l, (m, v) => m.append(v._1).append(v._2)))
    s.rd.head.foldl(vals.append(s.rd.head.length()), (l, h) => l.append(h.length()).concat(h))
  }

  // ------------------------------------------------------------ writer
  pure def sp(s: int): List[int] = if (hh(s, 77) % 6 == 0) [32] else []
  pure def joinCells(cs: List[List[int]], s: int): List[int] =
    range(0, cs.length()).foldl(List(), (l, i) =>
      (if (i > 0) l.append(44) else l).concat(sp(hh(s, i))).concat(cs[i]).concat(sp(hh(s, i + 50))))
  pure def headerLine(s: int): List[int] = {
    pure val perms = [[0, 1, 2, 3, 4], [0, 1], [1, 0, 2], [3, 2, 1, 0], [0, 1, 1, 2], [4, 0, 3, 1, 2], [1, 2], [0, 1, 2, 3]]
    pure val p = perms[hh(s, 1) % perms.length()]
    joinCells(p.foldl(List(), (l, k) => l.append(NAMES[k])), s).append(NL)
  }
  pure def dataLine(s: int): List[int] = {
    pure val n = pick(s, 1, [1, 2, 3, 4, 5, 5, 4, 3, 6])
    pure val good = hh(s, 2) % 4 > 0
    pure val cs = range(0, n).foldl(List(), (l, i) => l.append(
      if (hh(s, 30 + i) % 9 == 0) [49, 32, 50] else CELLS[hh(s, 10 + i) % (if (good) 13 else CELLS.length())]))
    joinCells(cs, s).concat(if (hh(s, 3) % 8 == 0) [13, NL] else [NL])
  }
  pure def text(s: int, header: bool, n: int): List[int] =
    range(0, n).foldl(if (header) headerLine(hh(s, 500)) else List(), (l, k) =>
      l.concat(if (hh(s, 600 + k) % 9 == 0) [NL] else dataLine(hh(s, 700 + k))))

  pure val YSETS = [[1], [1, 2], [2, 1], [3], [], [4, 1], [5], [1, 5], [2, 2]]
  pure val NOFILE: File = { there: false, gen: 0, bytes: List() }

  action init = {
    nondet h = Set(true, true, false).oneOf()
    nondet m = Set(-1, 0, 1, 3, 10).oneOf()
    nondet y = 0.to(3).oneOf()
    val c: Cfg = { header: h, max: m, ys: YSETS[y] }
    all { cfg' = c, file' = NOFILE, rd' = FRESH, pend' = List(),
      out' = [ev("open", [b2i(h), m].concat(c.ys), [])] }
  }
  action compose = {
    nondet s = 0.to(2^62).oneOf() nondet n = 1.to(4).oneOf()
    all { pend.length() < 60, file.bytes.length() < 300,
      pend' = pend.concat(text(s, not(file.there) and pend.length() == 0, n)), file' = file, rd' = rd, cfg' = cfg, out' = [] }
  }
  // where a writer's buffer ends: anywhere, or just behind a blank, a comma or a digit
  pure def upto(l: List[int], b: int): int = l.foldl({ n: 0, on: true }, (a, x) =>
    if (a.on) { n: a.n + 1, on: x != b } else a).n
  action write = {
    nondet k = Set(1, 2, 3, 5, 8, 13, 21, 34, 100, -32, -32, -44, -49).oneOf()
    val n = if (k > 0) imin(k, pend.length()) else upto(pend, -k)
    val b = file.bytes.concat(pend.slice(0, n))
    all {
      n > 0,
      // regrowing past the consumed length between two polls after a truncation is not observable by length
      not(file.there and file.gen == rd.gen and file.bytes.length() < rd.pos) or b.length() < rd.pos,
      file' = { there: true, gen: if (file.there) file.gen else file.gen + 1, bytes: b },
      pend' = pend.slice(n, pend.length()), rd' = rd, cfg' = cfg,
      out' = [ev(if (file.there) "append" else "create", pend.slice(0, n), [])]
    }
  }
  action truncate = {
    nondet s = 0.to(2^62).oneOf()
    val n = if (hh(s, 5) % 3 == 0) 0 else rnd(s, 6, 0, imax(0, rd.pos - 1))
    all {
      file.there, file.gen == rd.gen, n < rd.pos, n <= file.bytes.length(),
      // the writer goes on with what is missing of a character it has cut
      file' = { ...file, bytes: file.bytes.slice(0, n) }, pend' = (if (n == 0) text(s, true, 2) else missing(file.bytes.slice(0, n))), rd' = rd, cfg' = cfg,
      out' = [ev("truncate", [n], [])]
    }
  }
  action replace = {
    nondet s = 0.to(2^62).oneOf() nondet n = 0.to(5).oneOf()
    val b = text(s, hh(s, 9) % 8 > 0, n)
    all { file.there, file' = { there: true, gen: file.gen + 1, bytes: b }, pend' = List(), rd' = rd, cfg' = cfg,
      out' = [ev("replace", b, [])] }
  }
  action delete = all { file.there, file' = { ...file, there: false, bytes: List() }, pend' = List(), rd' = rd, cfg' = cfg,
      out' = [ev("delete", [], [])] }
  action doPoll = {
    val s = poll(rd, file, cfg)
    all { rd' = s.rd, file' = file, cfg' = cfg, pend' = pend, out' = [ev("poll", [], expected(s, cfg))] }
  }
  action initialize = {
    val s = if (file.there) load(file, cfg) else { rd: rd, changed: false, must: true }
    all { rd' = s.rd, file' = file, cfg' = cfg, pend' = pend, out' = [ev("initialize", [], expected(s, cfg))] }
  }
  action choose = {
    nondet y = YSETS.indices().oneOf()
    val c = { ...cfg, ys: if (cfg.header) YSETS[y] else YSETS[y % 5] }
    val s = if (file.there) load(file, c) else { rd: FRESH, changed: false, must: true }
    all { rd' = s.rd, file' = file, cfg' = c, pend' = pend, out' = [ev("select", c.ys, expected(s, c))] }
  }
  // the writer acts in the middle of a call of the reader (before its k-th file system call): whichever
  // of the two came first, after one undisturbed poll the plot shows the file
  action intrude = {
    nondet s = 0.to(2^62).oneOf()
    val call = if (hh(s, 1) % 3 == 0) 1 else 0
    val kind = pick(s, 2, [0, 0, 1, 1, 2, 3])
    val n = if (kind == 0) imin(rnd(s, 3, 1, 40), pend.length()) else if (kind == 2) rnd(s, 3, 0, imax(0, imin(rd.pos, file.bytes.length()) - 1)) else 0
    val b = if (kind == 0) pend.slice(0, n) else if (kind == 1) text(s, hh(s, 9) % 8 > 0, hh(s, 10) % 6) else List()
    val f2: File = if (kind == 0) { ...file, bytes: file.bytes.concat(b) }
      else if (kind == 1) { there: true, gen: file.gen + 1, bytes: b }
      else if (kind == 2) { ...file, bytes: file.bytes.slice(0, n) }
      else { ...file, there: false, bytes: List() }
    val late = if (call == 1) load(file, cfg) else poll(rd, file, cfg)
    val early = if (call == 1 and f2.there) load(f2, cfg) else poll(rd, f2, cfg)
    val s1 = poll(late.rd, f2, cfg)
    val s2 = poll(early.rd, f2, cfg)
    all {
      file.there,
      kind != 0 or (n > 0 and (file.gen != rd.gen or file.bytes.length() >= rd.pos)),
      kind != 2 or (file.gen == rd.gen and n < rd.pos and n < file.bytes.length()),
      kind != 3 or (call == 0 and file.gen == rd.gen and rd.pos == file.bytes.length() - cut(file.bytes)),
      late.must, early.must, s1.must, s2.must, s1.rd == s2.rd,
      file' = f2, rd' = s1.rd, cfg' = cfg,
      pend' = if (kind == 0) pend.slice(n, pend.length()) else if (kind == 2) (if (n == 0) text(s, true, 2) else missing(f2.bytes)) else List(),
      out' = [ev("intrude", [call, hh(s, 4) % 14, kind].concat(if (kind == 2) [n] else b), expected(s1, cfg))]
    }
  }
  action step = any { compose, compose, write, write, write, write, truncate, replace, delete, doPoll, doPoll, doPoll, initialize, choose, intrude, intrude }

  // what is shown has one value per selected column and respects the bound; once the reader has
  // caught up with the file it shows exactly the reference view
  val inv = and {
    rd.rows.indices().forall(i => rd.rows[i].length() == 1 + cfg.ys.length()),
    cfg.max < 0 or rd.rows.length() <= cfg.max,
    (file.there and rd.gen == file.gen and rd.pos == file.bytes.length() - cut(file.bytes)) implies
      (rd.head == view(file.bytes, cfg).head and rd.acc == view(file.bytes, cfg).rows.length())
  }
}
