------------------------------ MODULE Calendar ------------------------------
(* T04, exhaustive over whole 400-year cycles: the calendar as a successor relation on days, one state per
   day, walked forwards (Dir = 1) or backwards (Dir = -1) from 1970-01-01.  No day-number formula is used:
   the day number is just the number of steps taken.  Every day is printed with a time of day and converted
   in both directions by the real code.                                                                    *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Days, Dir
VARIABLES n, y, m, d

Leap(yy) == yy % 4 = 0 /\ (yy % 100 # 0 \/ yy % 400 = 0)
MLen(yy, mm) == IF mm = 2 THEN (IF Leap(yy) THEN 29 ELSE 28) ELSE <<31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>[mm]
Sgn == IF Dir = 1 THEN 1 ELSE -1
Init == n = 0 /\ y = 1970 /\ m = 1 /\ d = 1
Forward == /\ n' = n + 1
           /\ IF d < MLen(y, m) THEN d' = d + 1 /\ m' = m /\ y' = y
              ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ y' = y
              ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
Backward == /\ n' = n - 1
            /\ IF d > 1 THEN d' = d - 1 /\ m' = m /\ y' = y
               ELSE IF m > 1 THEN m' = m - 1 /\ d' = MLen(y, m - 1) /\ y' = y
               ELSE m' = 12 /\ d' = 31 /\ y' = y - 1
Next == IF Dir = 1 THEN n < Days /\ Forward ELSE n > -Days /\ Backward
Spec == Init /\ [][Next]_<<n, y, m, d>>

\* time of day: a different one every day (steps of 100 s, so that the seconds since 1970 are printable)
Tod == (n * 37) % 864
Secs == IF n * 864 + Tod = 0 THEN "0" ELSE ToString(n * 864 + Tod) \o "00"
Fields == <<y, m, d, (Tod * 100) \div 3600, ((Tod * 100) \div 60) % 60, (Tod * 100) % 60, 7>>
Valid == m \in 1..12 /\ d \in 1..MLen(y, m)
\* a cycle is 146097 days and then repeats
Cycle == (n % 146097 = 0) => (m = 1 /\ d = 1 /\ (y - 1970) % 400 = 0)
Emit == PrintT(ToString(<< <<"to", <<Secs, 7>>, Fields>>, <<"from", Fields, <<Secs, 7>> >> >>))
=============================================================================
