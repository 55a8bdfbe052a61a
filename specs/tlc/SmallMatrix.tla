----------------------------- MODULE SmallMatrix -----------------------------
(* M02, exhaustive: EVERY N x N matrix with entries in -Lim..Lim (Sym: every symmetric one), with its exact
   determinant, adjugate and definiteness.  Every zero and sign pattern, hence every pivoting path and every
   rank, is factored, inverted and solved with by the real code.                                            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, Lim, Sym
VARIABLES a, k

Idx(i, j) == (i - 1) * N + j
\* cofactor expansion on index sequences
RECURSIVE Det(_, _, _)
Drop(s, p) == SubSeq(s, 1, p - 1) \o SubSeq(s, p + 1, Len(s))
Det(A, rows, cols) == IF rows = <<>> THEN 1
  ELSE LET RECURSIVE Sum(_)
           Sum(p) == IF p > Len(cols) THEN 0
                     ELSE (IF A[Idx(rows[1], cols[p])] = 0 THEN 0
                           ELSE (IF p % 2 = 1 THEN 1 ELSE -1) * A[Idx(rows[1], cols[p])] * Det(A, Tail(rows), Drop(cols, p))) + Sum(p + 1)
       IN Sum(1)
All == [i \in 1..N |-> i]
D == Det(a, All, All)
Adj(i, j) == (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(a, Drop(All, j), Drop(All, i))
Minor(q) == Det(a, SubSeq(All, 1, q), SubSeq(All, 1, q))
Symmetric == \A i \in 1..N, j \in 1..N : a[Idx(i, j)] = a[Idx(j, i)]
\* exact for entries in -1..1: all pivots of the Cholesky process are integers then
Spd == IF ~Symmetric \/ Lim > 1 THEN -1 ELSE IF \A q \in 1..N : Minor(q) > 0 THEN 1 ELSE 0

\* entries are chosen one after the other
Init == a = <<>> /\ k = 0
Next == /\ k < N * N /\ k' = k + 1
        /\ LET i == (k \div N) + 1
               j == (k % N) + 1
           IN IF Sym /\ j < i THEN a' = Append(a, a[Idx(j, i)]) ELSE \E v \in (-Lim)..Lim : a' = Append(a, v)
Spec == Init /\ [][Next]_<<a, k>>
Inv == [q \in 1..(N * N) |-> Adj(((q - 1) \div N) + 1, ((q - 1) % N) + 1)]
\* A * adj(A) = det(A) * I
Adjugate == k = N * N => \A i \in 1..N, j \in 1..N :
   LET RECURSIVE S(_) S(q) == IF q > N THEN 0 ELSE a[Idx(i, q)] * Adj(q, j) + S(q + 1) IN S(1) = IF i = j THEN D ELSE 0
Emit == k = N * N => PrintT(ToString(<< <<"load", <<N, 0>> \o a, <<D, D, Spd>> \o (IF D = 0 THEN <<>> ELSE Inv)>>,
                                        <<"solve", <<1>> \o [i \in 1..N |-> i], IF D = 0 THEN <<>> ELSE [i \in 1..N |->
                                           LET RECURSIVE S(_) S(q) == IF q > N THEN 0 ELSE Inv[Idx(i, q)] * q + S(q + 1) IN S(1)]>> >>))
=============================================================================
