-------------------------------- MODULE CsvTail --------------------------------
(* V01, bounded-exhaustive: EVERY history of at most Depth writer and reader steps on one small CSV file.
   The writer appends byte pieces from Pieces (cuts inside lines, cells and characters included), truncates,
   replaces or deletes the file; the reader polls or re-initialises.  hist holds the events of the behaviour
   with the observation the reference view requires; complete histories are printed and replayed on the
   real plotter.  Unlike v01.qnt the alphabet is tiny, but nothing is sampled.                              *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Depth, Header, Max, Torn     \* Torn: the last step is a call of the reader with the writer acting in the middle of it
VARIABLES file, rd, hist

NL == 10
Comma == 44
Time == <<116, 105, 109, 101>>                   \* "time"
A == <<97>>                                      \* "a"
Cat(ss) == LET RECURSIVE F(_) F(k) == IF k > Len(ss) THEN <<>> ELSE ss[k] \o F(k + 1) IN F(1)
Pieces == IF Header
          THEN {Time \o <<Comma>>, A \o <<NL>>, <<49, Comma>>, <<50, NL>>, <<NL>>, <<195>>, <<169>>}
          ELSE {<<49>>, <<Comma>>, <<NL>>, <<49, Comma, 50, NL>>, <<32>>}
Fresh == IF Header THEN Time \o <<Comma>> \o A \o <<NL, 51, Comma, 52, NL>> ELSE <<51, Comma, 52, NL>>

\* ---------------------------------------------------------------- the reference view of a file
RECURSIVE Split(_, _)
Split(b, sep) == IF b = <<>> THEN << <<>> >>
                 ELSE LET r == Split(Tail(b), sep) IN
                      IF Head(b) = sep THEN << <<>> >> \o r ELSE << <<Head(b)>> \o r[1] >> \o Tail(r)
RECURSIVE TrimL(_)
TrimL(c) == IF c = <<>> \/ Head(c) # 32 THEN c ELSE TrimL(Tail(c))
RECURSIVE TrimR(_)
TrimR(c) == IF c = <<>> \/ c[Len(c)] # 32 THEN c ELSE TrimR(SubSeq(c, 1, Len(c) - 1))
Trim(c) == TrimR(TrimL(c))                       \* blanks around a line or a cell do not matter, those inside do
Lines(b) == LET p == Split(b, NL) IN SelectSeq(SubSeq(p, 1, Len(p) - 1), LAMBDA l : Trim(l) # <<>>)
Cells(l) == LET p == Split(l, Comma) IN [k \in 1..Len(p) |-> Trim(p[k])]
IsNum(c) == c # <<>> /\ \A k \in 1..Len(c) : c[k] >= 48 /\ c[k] <= 57
RECURSIVE Val(_)
Val(c) == IF c = <<>> THEN 0 ELSE Val(SubSeq(c, 1, Len(c) - 1)) * 10 + c[Len(c)] - 48
IndexOf(h, n) == IF \E k \in 1..Len(h) : h[k] = n THEN CHOOSE k \in 1..Len(h) : h[k] = n /\ \A j \in 1..(k - 1) : h[j] # n ELSE 0
View(b) == LET ls == Lines(b)
               hd == IF Header /\ ls # <<>> THEN Cells(ls[1]) ELSE <<>>
               body == IF Header /\ ls # <<>> THEN Tail(ls) ELSE ls
               ix == IF Header THEN <<IndexOf(hd, Time), IndexOf(hd, A)>> ELSE <<1, 2>>
               ok == hd = <<>> \/ (ix[1] > 0 /\ ix[2] > 0)
               Good(l) == LET cs == Cells(l) IN \A k \in 1..2 : ix[k] <= Len(cs) /\ IsNum(cs[ix[k]])
               Row(l) == LET cs == Cells(l) IN <<Val(cs[ix[1]]), Val(cs[ix[2]])>>
               good == IF ok THEN SelectSeq(body, Good) ELSE <<>>
           IN [head |-> hd, ok |-> ok, rows |-> [k \in 1..Len(good) |-> Row(good[k])]]
Last(rows) == IF Max = 99 \/ Len(rows) <= Max THEN rows ELSE SubSeq(rows, Len(rows) - Max + 1, Len(rows))
Cut(b) == IF b # <<>> /\ b[Len(b)] = 195 THEN 1 ELSE 0      \* the last character (of two bytes) is half there
Broken(b) == \E k \in 1..Len(b) : \/ b[k] = 195 /\ k < Len(b) /\ b[k + 1] # 169
                                  \/ b[k] = 169 /\ (k = 1 \/ b[k - 1] # 195)

\* ---------------------------------------------------------------- the reader
NoRd == [gen |-> -1, pos |-> 0, acc |-> 0, rows |-> <<>>, head |-> <<>>]
LoadF(f) == LET v == View(f.bytes) IN
             [rd |-> [gen |-> f.gen, pos |-> Len(f.bytes) - Cut(f.bytes), acc |-> Len(v.rows), rows |-> Last(v.rows), head |-> v.head],
              changed |-> 1, must |-> IF v.ok THEN 1 ELSE 0]
PollF(r, f) ==
        IF ~f.there THEN [rd |-> r, changed |-> 0, must |-> 1]
        ELSE IF r.gen >= 0 /\ (f.gen # r.gen \/ Len(f.bytes) < r.pos) THEN LoadF(f)
        ELSE IF Len(f.bytes) = r.pos THEN [rd |-> [r EXCEPT !.gen = f.gen], changed |-> 0, must |-> 1]
        ELSE [LoadF(f) EXCEPT !.changed = IF LoadF(f).rd.acc > r.acc THEN 1 ELSE 0]
Load == LoadF(file)
Poll == PollF(rd, file)
Seen(s) == <<s.must, s.changed, 2, Len(s.rd.rows)>>
           \o Cat([k \in 1..Len(s.rd.rows) |-> <<s.rd.rows[k][1], 1, s.rd.rows[k][2], 1>>])
           \o <<Len(s.rd.head)>> \o Cat([k \in 1..Len(s.rd.head) |-> <<Len(s.rd.head[k])>> \o s.rd.head[k]])

\* ---------------------------------------------------------------- steps
Log(op, a, e) == hist' = Append(hist, <<op, a, e>>)
Init == /\ file = [there |-> FALSE, gen |-> 0, bytes |-> <<>>]
        /\ rd = NoRd
        /\ hist = << <<"open", <<IF Header THEN 1 ELSE 0, IF Max = 99 THEN -1 ELSE Max, 1>>, <<>> >> >>
Write(p) == LET b == file.bytes \o p IN
  /\ ~Broken(b)
  \* regrowing past the consumed length between two polls after a truncation cannot be seen
  /\ ~(file.there /\ file.gen = rd.gen /\ Len(file.bytes) < rd.pos) \/ Len(b) < rd.pos
  /\ file' = [there |-> TRUE, gen |-> IF file.there THEN file.gen ELSE file.gen + 1, bytes |-> b]
  /\ rd' = rd
  /\ Log(IF file.there THEN "append" ELSE "create", p, <<>>)
Truncate(n) == /\ n >= 0 /\ file.there /\ file.gen = rd.gen /\ n < rd.pos /\ n < Len(file.bytes)
               /\ file' = [file EXCEPT !.bytes = SubSeq(file.bytes, 1, n)] /\ rd' = rd /\ Log("truncate", <<n>>, <<>>)
Replace == /\ file.there /\ file' = [there |-> TRUE, gen |-> file.gen + 1, bytes |-> Fresh] /\ rd' = rd /\ Log("replace", Fresh, <<>>)
Delete == /\ file.there /\ file' = [file EXCEPT !.there = FALSE, !.bytes = <<>>] /\ rd' = rd /\ Log("delete", <<>>, <<>>)
DoPoll == LET s == Poll IN rd' = s.rd /\ file' = file /\ Log("poll", <<>>, Seen(s))
Initialize == LET s == IF file.there THEN Load ELSE [rd |-> rd, changed |-> 0, must |-> 1] IN
              rd' = s.rd /\ file' = file /\ Log("initialize", <<>>, Seen(s))
\* before the k-th file system call of a poll (call 0) or an initialisation (call 1) the file becomes f; an
\* undisturbed poll follows, after which it does not matter which of the two came first
Intrude(call, k, kind, arg, f) ==
  LET late == IF call = 1 THEN Load ELSE Poll
      early == IF call = 1 /\ f.there THEN LoadF(f) ELSE PollF(rd, f)
      s1 == PollF(late.rd, f)
      s2 == PollF(early.rd, f)
  IN /\ file.there /\ ~Broken(f.bytes)
     /\ late.must = 1 /\ early.must = 1 /\ s1.must = 1 /\ s2.must = 1 /\ s1.rd = s2.rd
     /\ file' = f /\ rd' = s1.rd /\ Log("intrude", <<call, k, kind>> \o arg, Seen(s1))
Intrusion == \E k \in 0..11, call \in {0, 1} :
  \/ \E p \in Pieces : /\ (file.gen # rd.gen \/ Len(file.bytes) >= rd.pos)
                        /\ Intrude(call, k, 0, p, [file EXCEPT !.bytes = file.bytes \o p])
  \/ Intrude(call, k, 1, Fresh, [there |-> TRUE, gen |-> file.gen + 1, bytes |-> Fresh])
  \/ \E n \in {0, Len(file.bytes) - 1} : /\ n >= 0 /\ file.gen = rd.gen /\ n < rd.pos /\ n < Len(file.bytes)
                                        /\ Intrude(call, k, 2, <<n>>, [file EXCEPT !.bytes = SubSeq(file.bytes, 1, n)])
  \/ /\ call = 0 /\ file.gen = rd.gen /\ rd.pos = Len(file.bytes) - Cut(file.bytes)
     /\ Intrude(call, k, 3, <<>>, [file EXCEPT !.there = FALSE, !.bytes = <<>>])
Step == \/ \E p \in Pieces : Write(p)
        \/ Truncate(0) \/ Truncate(Len(file.bytes) - 1)
        \/ Replace \/ Delete \/ DoPoll \/ Initialize
Next == \/ Torn /\ Len(hist) = Depth /\ Intrusion
        \/ Len(hist) <= (IF Torn THEN Depth - 1 ELSE Depth) /\ Step
Spec == Init /\ [][Next]_<<file, rd, hist>>

\* a reader that has caught up shows exactly the reference view; what it shows is bounded
CaughtUp == (file.there /\ rd.gen = file.gen /\ rd.pos = Len(file.bytes) - Cut(file.bytes))
            => (rd.head = View(file.bytes).head /\ rd.rows = Last(View(file.bytes).rows))
Bounded == Max = 99 \/ Len(rd.rows) <= Max
\* complete histories that end in an observation go to the replay
Emit == Len(hist) = Depth + 1 /\ hist[Len(hist)][1] \in {"poll", "initialize", "intrude"} => PrintT(ToString(hist))
=============================================================================
