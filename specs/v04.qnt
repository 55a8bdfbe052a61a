// V04: the live plot.  A loop reads a growing CSV file again and again and redraws the plot; a writer appends in
// arbitrary pieces (which may end inside a character), shrinks the file, puts another one in its place or removes
// it (even at the moment the loop is about to open it) while the loop runs.  Whatever happened,
// once the writer rests the drawing comes to show the last rows of the file and keeps showing them; the loop
// neither ends by itself nor polls faster than asked, and it ends with an error when a column is missing.
// (The interleavings of the loop's and the writer's file system calls are enumerated by specs/tlc/LiveTail.tla.)
module v04 {
  import lib.* from "./lib"
  type Cfg = { hz: int, max: int, ys: List[int], style: int }     // hz 0, -1: the default of 5; ys: 1 = a, 2 = b
  type Phase = { mode: int, calm: bool, drawn: bool, must: bool, gen: int }         // mode: 0 before, 1 running, 2 over; calm: settled since the last change
  var cfg: Cfg
  var there: bool
  var bytes: List[int]
  var pend: List[int]
  var shown: List[List[int]]        // rows of the drawing at the last settling (if drawn)
  var ph: Phase
  var out: List[Ev]

  pure val NL = 10
  pure val NAMES = [[116, 105, 109, 101], [97], [98]]           // time a b
  pure val PERMS = [[0, 1, 2], [2, 0, 1], [1, 2, 0]]
  // digits of 0..999
  pure def digits(n: int): List[int] =
    (if (n >= 100) [48 + n / 100] else []).concat(if (n >= 10) [48 + n / 10 % 10] else []).concat([48 + n % 10])
  pure def joinc(l: List[List[int]]): List[int] =
    range(0, l.length()).foldl(List(), (r, i) => (if (i > 0) r.append(44) else r).concat(l[i]))
  pure def split(l: List[int], sep: int): List[List[int]] = {
    pure val r = l.foldl({ done: List(), cur: List() }, (a, b) =>
      if (b == sep) { done: a.done.append(a.cur), cur: List() } else { ...a, cur: a.cur.append(b) })
    r.done.append(r.cur)
  }
  pure def number(t: List[int]): int =
    if (t.length() == 0) -1 else t.foldl(0, (n, b) => if (n < 0 or b < 48 or b > 57) -1 else 10 * n + b - 48)
  // a row may be unusable: too few cells or a word in it; words have characters of one to four bytes
  pure val WORDS = [[120], [195, 169], [226, 130, 172], [240, 159, 152, 128], [97, 195, 169, 49]]
  pure def after(l: int): List[int] = if (l == 195) [169] else if (l == 226) [130, 172] else if (l == 240) [159, 152, 128] else List()
  // what is missing of the last character
  pure def missing(b: List[int]): List[int] = {
    pure val n = b.length()
    pure val k = [3, 2, 1].foldl(0, (r, k) => if (r == 0 and n >= k and after(b[n - k]).length() >= k) k else r)
    if (k == 0) List() else { pure val m = after(b[n - k]) m.slice(k - 1, m.length()) }
  }
  pure def line(s: int): List[int] = {
    pure val k = hh(s, 1) % 9
    pure val c = range(0, if (k == 0) 1 else 3).foldl(List(), (l, i) =>
      l.append(if (k == 1 and i == hh(s, 2) % 3) WORDS[hh(s, 3) % 5] else digits(rnd(s, 10 + i, 0, 999))))
    (if (k == 2) List() else joinc(c)).append(NL)
  }
  pure def text(s: int, header: bool, n: int): List[int] =
    range(0, n).foldl(if (header) joinc(PERMS[hh(s, 500) % 3].foldl(List(), (l, k) => l.append(NAMES[k]))).append(NL) else List(),
      (l, k) => l.concat(line(hh(s, 700 + k))))
  // the usable rows of the complete lines behind the header: x and the selected columns
  pure def rows(b: List[int], c: Cfg): List[List[int]] = {
    pure val p = split(b, NL)
    pure val ls = p.slice(0, p.length() - 1)
    if (ls.length() == 0) List() else {
      pure val hd = split(ls[0], 44)
      pure val idx = [0].concat(c.ys).foldl(List(), (l, k) => l.append(range(0, hd.length()).foldl(-1, (r, i) => if (r < 0 and hd[i] == NAMES[k]) i else r)))
      pure val every = ls.slice(1, ls.length()).foldl(List(), (rs, ln) => {
        pure val cs = split(ln, 44)
        pure val v = idx.foldl(List(), (l, i) => l.append(if (i < cs.length()) number(cs[i]) else -1))
        if (v.foldl(false, (r, x) => r or x < 0)) rs else rs.append(v) })
      if (c.max < 0 or every.length() <= c.max) every else every.slice(every.length() - c.max, every.length())
    }
  }
  pure def rate(c: Cfg): int = if (c.hz > 0) c.hz else 5

  action init = {
    nondet s = 0.to(2^62).oneOf()
    val c: Cfg = { hz: pick(s, 1, [1000, 1000, 3000, 200, 200, 50, 0, -1]), max: pick(s, 2, [-1, -1, 0, 1, 3, 10]),
      ys: [[1], [2], [1, 2], [2, 1]][hh(s, 3) % 4], style: hh(s, 4) % 4 }
    all { cfg' = c, there' = false, bytes' = List(), pend' = List(), shown' = List(), ph' = { mode: 0, calm: true, drawn: false, must: false, gen: 0 },
      out' = [ev("open", [c.hz, c.max, c.style].concat(c.ys), [])] }
  }
  action launch = all { ph.mode == 0, ph' = { ...ph, mode: 1, calm: false }, cfg' = cfg, there' = there, bytes' = bytes, pend' = pend, shown' = shown,
    out' = [ev("launch", [], [])] }
  action write = {
    nondet s = 0.to(2^62).oneOf()
    val p = if (pend.length() > 0) pend else text(s, bytes.length() == 0, rnd(s, 1, 1, 4))
    val n = imin(pick(s, 2, [1, 2, 3, 5, 8, 13, 100, 100]), p.length())
    all { ph.mode < 2, not(ph.must), bytes.length() < 400,
      there' = true, bytes' = bytes.concat(p.slice(0, n)), pend' = p.slice(n, p.length()), shown' = shown, cfg' = cfg,
      ph' = { ...ph, calm: false, drawn: ph.drawn or rows(bytes.concat(p.slice(0, n)), cfg).length() > 0, gen: if (there) ph.gen else ph.gen + 1 },
      out' = [ev("write", [pick(s, 3, [0, 0, 0, 200, 1000, 3000])].concat(p.slice(0, n)), [])] }
  }
  // a file that shrinks under the reader: seen only by its length, so the writer pauses before and after
  action shrink = {
    nondet s = 0.to(2^62).oneOf()
    val n = if (hh(s, 1) % 2 == 0) 0 else rnd(s, 2, 0, imax(0, bytes.length() - 1))
    // what is left may be a beginning of the header line
    all { ph.mode == 1, ph.calm, there, n < bytes.length(),
      bytes' = bytes.slice(0, n), pend' = if (n == 0) List() else missing(bytes.slice(0, n)).append(NL), there' = there, cfg' = cfg, shown' = shown, ph' = { ...ph, calm: false, must: true },
      // a shortened header line lacks columns once it is complete: allowed only when the header stays whole
      n == 0 or split(bytes.slice(0, n), NL).length() > 1,
      out' = [ev("shrink", [n], [])] }
  }
  action replace = {
    nondet s = 0.to(2^62).oneOf() nondet n = 0.to(4).oneOf()
    val b = text(s, true, n)
    all { ph.mode == 1, not(ph.must), there, bytes' = b, pend' = List(), there' = true, cfg' = cfg, shown' = shown, 
      ph' = { ...ph, calm: false, drawn: ph.drawn or rows(b, cfg).length() > 0, gen: ph.gen + 1 },
      out' = [ev("replace", [pick(s, 9, [0, 0, 500])].concat(b), [])] }
  }
  // the file goes away at the k-th time the loop looks for it or opens it: it waits for another one, which may be
  // there at once, and what was drawn stays
  action vanish = {
    nondet s = 0.to(2^62).oneOf()
    val again = hh(s, 1) % 3 == 0
    val b = if (again) text(s, true, hh(s, 2) % 4) else List()
    all { ph.mode == 1, ph.calm, there, there' = again, bytes' = b, pend' = List(), cfg' = cfg, shown' = shown,
      ph' = { ...ph, calm: false, drawn: ph.drawn or rows(b, cfg).length() > 0, gen: if (again) ph.gen + 1 else ph.gen },
      out' = [ev("vanish", [1 + hh(s, 3) % 4, b2i(again)].concat(b), [])] }
  }
  // the same while the loop starts over because the file has been replaced (a poll looks, opens, looks, opens)
  action flicker = {
    nondet s = 0.to(2^62).oneOf()
    val b = text(s, true, 1 + hh(s, 2) % 3)
    all { ph.mode == 1, ph.calm, there, there' = false, bytes' = List(), pend' = List(), cfg' = cfg, shown' = shown,
      ph' = { ...ph, calm: false, drawn: ph.drawn or rows(b, cfg).length() > 0, gen: ph.gen + 1 },
      out' = [ev("flicker", [2 + hh(s, 3) % 3].concat(b), [])] }
  }
  // the writer rests; nothing is ever drawn from a file without rows
  action settle = {
    val r = rows(bytes, cfg)
    val d = r.length() > 0
    all { ph.mode == 1,
      shown' = if (d) r else shown, ph' = { ...ph, calm: true, must: false, drawn: ph.drawn or d },
      there' = there, bytes' = bytes, pend' = pend, cfg' = cfg,
      out' = [ev("settle", [b2i(there), rate(cfg)], r.foldl([b2i(ph.drawn or d), 1 + cfg.ys.length(), r.length()], (l, x) => l.concat(x)))] }
  }
  action idle = {
    nondet ms = Set(20, 60, 250).oneOf()
    all { ph.mode == 1, ph.calm, there, there' = there, bytes' = bytes, pend' = pend, shown' = shown, cfg' = cfg, ph' = ph,
      out' = [ev("idle", [ms], [rate(cfg)])] }
  }
  // a file without one of the columns: the loop reports it
  action spoil = all { ph.mode == 1, ph.calm, ph' = { ...ph, mode: 2 }, there' = true, bytes' = bytes, pend' = pend, shown' = shown, cfg' = cfg,
    out' = [ev("spoil", [if (bytes.length() % 2 == 0) 0 else cfg.ys[0]], [])] }
  action rest = all { ph.mode == 2, there' = there, bytes' = bytes, pend' = pend, shown' = shown, cfg' = cfg, ph' = ph, out' = [] }
  action step = any { launch, launch, write, write, write, write, shrink, replace, vanish, flicker, settle, settle, idle,
    all { bytes.length() > 60, spoil }, rest }
  val inv = and { shown.length() == 0 or ph.drawn, cfg.max < 0 or shown.length() <= cfg.max,
    (ph.calm and ph.mode == 1 and rows(bytes, cfg).length() > 0) implies shown == rows(bytes, cfg) }
}
