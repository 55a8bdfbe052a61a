------------------------------ MODULE Schedule ------------------------------
(* T05, bounded-exhaustive: every history of at most Depth checks of every pattern of a small set, the check
   times running over all of Times in any order (early, exactly due, late by several periods, backwards).
   Times are in half seconds.  Family 0: one-shots, alarms and intervals; family 1: hourly, daily, yearly
   around year ends and leap days.                                                                         *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Depth, Family
VARIABLES pat, due, done, hist

Ins(t) == <<t \div 2, (t % 2) * 500000000>>
P(k, p, mo, d, h, mi, s) == [kind |-> k, p |-> p, mo |-> mo, d |-> d, h |-> h, mi |-> mi, s |-> s]
Leap(y) == y % 4 = 0                                  \* 1971..2037 only
Cum == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysTo(y) == LET RECURSIVE F(_) F(k) == IF k = 1970 THEN 0 ELSE F(k - 1) + (IF Leap(k - 1) THEN 366 ELSE 365) IN F(y)
\* 29 February of a common year falls on 1 March
Yearly(q, y) == (DaysTo(y) + Cum[q.mo] + (IF q.mo > 2 /\ Leap(y) THEN 1 ELSE 0) + q.d - 1) * 86400 + q.h * 3600 + q.mi * 60 + q.s
YearOf(s) == CHOOSE y \in 1970..1976 : DaysTo(y) * 86400 <= s /\ s < DaysTo(y + 1) * 86400
\* the earliest matching instant strictly later than t (half seconds)
Upcoming(q, t) ==
  LET sec == t \div 2 IN
  IF q.kind = 2 THEN LET c == (sec \div 3600) * 3600 + q.mi * 60 + q.s IN IF 2 * c > t THEN 2 * c ELSE 2 * (c + 3600)
  ELSE IF q.kind = 3 THEN LET c == (sec \div 86400) * 86400 + q.h * 3600 + q.mi * 60 + q.s IN IF 2 * c > t THEN 2 * c ELSE 2 * (c + 86400)
  ELSE LET y == YearOf(sec) IN IF 2 * Yearly(q, y) > t THEN 2 * Yearly(q, y) ELSE 2 * Yearly(q, y + 1)
OneShot(q) == q.kind \in {0, 5}
First(q, t) == IF OneShot(q) THEN t ELSE IF q.kind = 1 THEN t + q.p ELSE Upcoming(q, t)
After(q, nx, t) == IF OneShot(q) THEN nx
                   ELSE IF q.kind = 1 THEN (IF q.p <= 0 THEN nx ELSE nx + q.p * ((t - nx) \div q.p + 1))
                   ELSE Upcoming(q, t)
D == 172800                                            \* a day
Pats == IF Family = 0
        THEN {P(0, 0, 1, 1, 0, 0, 0), P(5, 0, 1, 1, 0, 0, 0)} \cup {P(1, p, 1, 1, 0, 0, 0) : p \in {-1, 0, 1, 2, 3, 5}}
        ELSE {P(2, 0, 1, 1, 0, 0, 0), P(2, 0, 1, 1, 0, 59, 59), P(3, 0, 1, 1, 0, 0, 0), P(3, 0, 1, 1, 23, 59, 59), P(3, 0, 1, 1, 12, 0, 1),
              P(4, 0, 1, 1, 0, 0, 0), P(4, 0, 12, 31, 23, 59, 59), P(4, 0, 2, 29, 0, 0, 0), P(4, 0, 3, 1, 0, 0, 0), P(4, 0, 2, 28, 12, 0, 0)}
Starts == IF Family = 0 THEN {-1, 0, 1} ELSE {2 * 365 * D, 2 * 365 * D + 59 * D - 1}
\* around 1972: 1 January, 28 and 29 February, 1 March, end of year, 1 January and 1 March 1973
Times == IF Family = 0 THEN -2..8
         ELSE UNION { {b - 2, b - 1, b, b + 1, b + 3600, b + 7199} : b \in {730 * D, 789 * D, 790 * D, 1096 * D, 1155 * D} }
Log(e) == hist' = Append(hist, e)
Init == /\ pat \in Pats /\ \E t \in Starts :
             /\ due = First(pat, t)
             /\ hist = << <<"new", <<pat.kind>> \o Ins(pat.p) \o <<pat.mo, pat.d, pat.h, pat.mi, pat.s>> \o Ins(t), Ins(First(pat, t))>> >>
        /\ done = FALSE
B(x) == IF x THEN 1 ELSE 0
Check(t) == LET shot == OneShot(pat)
                fires == t >= due /\ ~(shot /\ done)
                nx == IF fires THEN After(pat, due, t) ELSE due
            IN /\ due' = nx /\ done' = (done \/ fires) /\ pat' = pat
               /\ Log(<<"check", Ins(t), <<B(fires), B(~(shot /\ (done \/ fires)))>> \o Ins(nx) \o <<B(done \/ fires)>> >>)
Next == Len(hist) <= Depth /\ \E t \in Times : Check(t)
Spec == Init /\ [][Next]_<<pat, due, done, hist>>
\* a recurring schedule is never due at or before the time at which it last fired
Ahead == (~OneShot(pat) /\ (pat.kind # 1 \/ pat.p > 0) /\ Len(hist) > 1 /\ hist[Len(hist)][3][1] = 1)
         => due > 2 * hist[Len(hist)][2][1] + hist[Len(hist)][2][2] \div 500000000
Emit == Len(hist) = Depth + 1 => PrintT(ToString(hist))
=============================================================================
