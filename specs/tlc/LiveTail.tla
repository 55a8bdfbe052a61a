------------------------------- MODULE LiveTail -------------------------------
(* V04: the live plot loop against a writer, at the grain of file system calls.  Every generation (inode) of
   the file holds rows, each written in three units: one that ends inside a character, one that ends inside
   the line, and the rest.  The writer appends any number of units to the current generation, puts a new one
   in its place, or removes the file and writes it anew.  The reader looks for the file, opens it, compares
   identities, reads and renders in separate steps.  With ByPath the identity is taken from the path after
   reading, with Dies the loop gives up on a file that is gone when it is opened or that ends inside a
   character (as the code once did): TLC then finds the lost replacement, or the loop that is no more.     *)
EXTENDS Integers, Sequences
CONSTANTS Writes, Gens, ByPath, Dies
VARIABLES content, cur, there, budget, pc, hdl, rd, rows, shown
vars == <<content, cur, there, budget, pc, hdl, rd, rows, shown>>

Rows(g, n) == [k \in 1..(n \div 3) |-> <<g, k>>]
All(g) == Rows(g, content[g])
Taken(n) == IF n % 3 = 1 THEN n - 1 ELSE n
None == [gen |-> -1, pos |-> 0]
Init == /\ content = [g \in 0..Gens |-> 0] /\ cur = 0 /\ there = TRUE /\ budget = Writes
        /\ pc = "reopen" /\ hdl = 0 /\ rd = None /\ rows = <<>> /\ shown = <<>>
Append1 == /\ budget > 0 /\ there /\ budget' = budget - 1
           /\ \E n \in 1..3 : content' = [content EXCEPT ![cur] = @ + n]
           /\ UNCHANGED <<cur, there, pc, hdl, rd, rows, shown>>
Replace == /\ budget > 0 /\ cur < Gens /\ budget' = budget - 1 /\ cur' = cur + 1 /\ there' = TRUE
           /\ \E n \in {0, 1, 3, 6} : content' = [content EXCEPT ![cur + 1] = n]
           /\ UNCHANGED <<pc, hdl, rd, rows, shown>>
Remove == /\ budget > 0 /\ there /\ budget' = budget - 1 /\ there' = FALSE
          /\ UNCHANGED <<content, cur, pc, hdl, rd, rows, shown>>
Look == /\ pc = "poll" /\ pc' = (IF there THEN "open" ELSE "poll") /\ UNCHANGED <<content, cur, there, budget, hdl, rd, rows, shown>>
Gone(next) == IF Dies THEN "dead" ELSE next
Open == /\ pc = "open" /\ hdl' = cur /\ pc' = (IF there THEN "decide" ELSE Gone("poll"))
        /\ UNCHANGED <<content, cur, there, budget, rd, rows, shown>>
Decide == /\ pc = "decide"
          /\ IF rd.gen >= 0 /\ hdl # rd.gen THEN pc' = "reopen" ELSE pc' = "read"
          /\ UNCHANGED <<content, cur, there, budget, hdl, rd, rows, shown>>
\* starting over: what was read before is forgotten, also when the file is gone by now
Reopen == /\ pc = "reopen" /\ hdl' = cur /\ rd' = None /\ rows' = <<>>
          /\ pc' = (IF there THEN "all" ELSE Gone("render")) /\ UNCHANGED <<content, cur, there, budget, shown>>
Torn(g) == Dies /\ content[g] % 3 = 1
ReadAll == /\ pc = "all" /\ rows' = All(hdl) /\ rd' = [gen |-> hdl, pos |-> Taken(content[hdl])]
           /\ pc' = (IF Torn(hdl) THEN "dead" ELSE IF ByPath THEN "stat" ELSE "render")
           /\ UNCHANGED <<content, cur, there, budget, hdl, shown>>
Stat == /\ pc = "stat" /\ rd' = [rd EXCEPT !.gen = cur] /\ pc' = "render" /\ UNCHANGED <<content, cur, there, budget, hdl, rows, shown>>
Read == /\ pc = "read"
        /\ LET p == IF Taken(content[hdl]) > rd.pos THEN Taken(content[hdl]) ELSE rd.pos
               new == SubSeq(Rows(hdl, p), rd.pos \div 3 + 1, p \div 3) IN
           /\ rows' = rows \o new
           /\ rd' = [gen |-> hdl, pos |-> p]
           /\ pc' = (IF Torn(hdl) /\ content[hdl] > rd.pos THEN "dead" ELSE IF new # <<>> THEN "render" ELSE "poll")
        /\ UNCHANGED <<content, cur, there, budget, hdl, shown>>
Render == /\ pc = "render" /\ shown' = (IF rows = <<>> THEN shown ELSE rows) /\ pc' = "poll"
          /\ UNCHANGED <<content, cur, there, budget, hdl, rd, rows>>
Reader == Look \/ Open \/ Decide \/ Reopen \/ ReadAll \/ Stat \/ Read \/ Render
Spec == Init /\ [][Append1 \/ Replace \/ Remove \/ Reader]_vars /\ WF_vars(Reader)

\* what is drawn is always a beginning of one generation of the file
OneFile == \A k \in 1..Len(shown) : shown[k] = <<shown[1][1], k>>
\* the loop never ends by itself
Alive == pc # "dead"
\* once the writer rests, the drawing comes to show the whole file and stays
Settles == <>[](~there \/ (rows = All(cur) /\ (All(cur) # <<>> => shown = All(cur))))
=============================================================================
