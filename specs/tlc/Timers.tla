------------------------------- MODULE Timers -------------------------------
(* T06, bounded-exhaustive: every history of at most Depth steps of a set of four timers over every step
   length of Steps, with replacement of single timers in between.  Times in half seconds.                  *)
EXTENDS Integers, Sequences, TLC
CONSTANT Depth
VARIABLES per, tot, hist

Ins(t) == <<t \div 2, (t % 2) * 500000000>>
Sets == {<<1, 2, 3, 0>>, <<2, 5, 1, 3>>, <<4, 0, 3, 2>>, <<3, 3, -1, 5>>, <<5, 1, 2, -2>>}
Steps == {0, 1, 2, 3, 4, 7}
Init == /\ per \in Sets /\ tot = <<0, 0, 0, 0>>
        /\ hist = << <<"timers", Ins(per[1]) \o Ins(per[2]) \o Ins(per[3]) \o Ins(per[4]), <<>> >> >>
\* a timer of period p > 0 fires when the accumulated time passes a multiple of p; p <= 0 fires always
Fires(p, a, dt) == IF p <= 0 THEN 1 ELSE IF (a + dt) \div p > a \div p THEN 1 ELSE 0
Step(dt) == /\ tot' = [k \in 1..4 |-> tot[k] + dt] /\ per' = per
            /\ hist' = Append(hist, <<"step", Ins(dt), [k \in 1..4 |-> Fires(per[k], tot[k], dt)]>>)
Replace(k, p) == /\ per' = [per EXCEPT ![k] = p] /\ tot' = [tot EXCEPT ![k] = 0]
                 /\ hist' = Append(hist, <<"replace", <<k - 1>> \o Ins(p), <<>> >>)
Next == /\ Len(hist) <= Depth
        /\ \/ \E dt \in Steps : Step(dt)
           \/ \E k \in 1..3, p \in {2, 3} : Replace(k, p)
Spec == Init /\ [][Next]_<<per, tot, hist>>
Never == \A k \in 1..4 : tot[k] >= 0
Emit == Len(hist) = Depth + 1 /\ hist[Len(hist)][1] = "step" => PrintT(ToString(hist))
=============================================================================
