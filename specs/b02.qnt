// B02: benchmark logs shared by threads.  The state has every thread's script and position, the
// lock around the file, and the file as the sequence of pieces written; threads take the lock, write
// the pieces of one line and release.  When all threads are through, the scripts are emitted for the
// real writers to run.  Between bursts single lines, timed spans and sensor files are exercised.
module b02 {
  import lib.* from "./lib"
  import fx.* from "./fx"
  type Item = { kind: int, name: int, a: int, b: int }       // kind 0 timing, 1 sample, 2 span
  type Thread = { script: List[Item], at: int, piece: int }  // piece 0: not holding the lock
  type Piece = { t: int, i: int, k: int }
  var ts: List[Thread]
  var holder: int          // thread in the critical section, -1 when free
  var file: List[Piece]
  var round: int
  var out: List[Ev]
  pure val PIECES = 3
  pure val ABSENT = 10^13
  pure def value(s: int, i: int): int = pick(s, i, [0, 10^12, 10^12 + 1, 10^12 + 2, 10^12 + 3, 10^12 + 4, 10^12 + 5, rnd(s, i + 1, -10^9, 10^9), rnd(s, i + 1, -10^6, 10^6), rnd(s, i + 1, 0, 10^11)])
  pure def maybe(s: int, i: int): int = if (hh(s, i) % 3 == 0) ABSENT else value(s, i + 10)
  pure def mkItem(s: int): Item = { pure val k = hh(s, 1) % 3
    { kind: k, name: hh(s, 2) % 8, a: if (k == 0) value(s, 3) else if (k == 1) maybe(s, 3) else 0, b: if (k == 1) maybe(s, 40) else 0 } }
  pure def flat(l: List[Item]): List[int] = l.foldl(List(), (r, x) => r.concat([x.kind, x.name, x.a, x.b]))
  pure def isDone(t: Thread): bool = t.at == t.script.length()
  val idle = ts.foldl(true, (b, t) => b and isDone(t))
  action init = all { ts' = List(), holder' = 0 - 1, file' = List(), round' = 0, out' = [ev("open", List(), List())] }
  action start = { nondet s = 0.to(2^62).oneOf()
    val n = rnd(s, 1, 2, 5)
    val th = range(0, n).foldl(List(), (l, t) => l.append({ script: range(0, rnd(s, 10 + t, 1, 3)).foldl(List(), (r, i) => r.append(mkItem(hh(s, 100 + 10 * t + i)))), at: 0, piece: 0 }))
    all { idle, round < 6, ts' = th, holder' = 0 - 1, file' = List(), round' = round + 1, out' = List() } }
  // one step of one thread: acquire, write a piece, release
  action advance = { nondet t = 0.to(4).oneOf()
    val h = if (t < ts.length()) ts[t] else { script: List(), at: 0, piece: 0 }
    val last = h.piece == PIECES - 1
    val h2 = { script: h.script, at: if (last) h.at + 1 else h.at, piece: if (last) 0 else h.piece + 1 }
    val th = if (t < ts.length()) ts.replaceAt(t, h2) else ts
    val f = file.append({ t: t, i: h.at, k: h.piece })
    val over = th.foldl(true, (b, x) => b and isDone(x))
    all { not(isDone(h)), holder == t or holder == 0 - 1,
      ts' = th, holder' = if (last) 0 - 1 else t, file' = f, round' = round,
      out' = if (over) [ev("burst", [th.length(), round * 17 + 13].concat(th.foldl(List(), (l, x) => l.append(x.script.length()).concat(flat(x.script)))), [f.length() / PIECES])] else List() } }
  action quiet = all { ts' = ts, holder' = holder, file' = file, round' = round }
  action single = { nondet s = 0.to(2^62).oneOf()
    val x = mkItem(s)
    all { idle, quiet, out' = [ev("single", [x.kind, x.name, x.a, x.b], List())] } }
  action spans = { nondet s = 0.to(2^62).oneOf()
    val d = rnd(s, 1, 1, 3)
    all { idle, hh(s, 9) % 8 == 0, quiet, out' = [ev("nested", rndList(s, 20, d, 1, 12), range(0, d).foldl(List(), (l, i) => l.append(d - 1 - i)))] } }
  // sensor file content: 0 missing, 1 a directory, 2 number, 3 number with blanks, 4 empty, 5 text, 6 not UTF-8
  action sensor = { nondet s = 0.to(2^62).oneOf()
    val k = hh(s, 1) % 7
    val v = pick(s, 2, [0, 1, 999999, 1000000, rnd(s, 3, 0, 10^6), rnd(s, 3, 0, 10^12), rnd(s, 3, 0, 2^63), 2^64 - 1])
    val ok = k == 2 or k == 3
    all { idle, quiet, out' = [ev("sensor", [k, v, hh(s, 4) % 3], [b2i(ok), v])] } }
  action reopen = all { idle, quiet, out' = [ev("open", List(), List())] }
  action step = any { start, start, advance, advance, advance, advance, advance, advance, single, spans, sensor, sensor, reopen }
  // mutual exclusion makes every line intact: pieces of a line are adjacent and in order, and each
  // thread's lines appear in its own order
  val inv = and {
    0.to(file.length() - 1).forall(j => file[j].k == j % PIECES and (j % PIECES == 0 or (file[j].t == file[j - 1].t and file[j].i == file[j - 1].i))),
    0.to(ts.length() - 1).forall(t => { val mine = file.select(p => p.t == t and p.k == 0)
      0.to(mine.length() - 1).forall(j => mine[j].i == j) }),
    (idle and round > 0) implies file.length() == PIECES * ts.foldl(0, (n, t) => n + t.script.length()),
    holder < ts.length() }
}
