-------------------------------- MODULE Work --------------------------------
(***************************************************************************)
(* How much work parsing is: the parser (Peg) with a history of which      *)
(* terminals it tried where, and of how deep its stack has been.           *)
(*                                                                         *)
(* In a flat grammar - one whose productions do not refer to themselves    *)
(* and are used once - every production is tried at most once per place,   *)
(* and the stack never grows beyond the number of productions.  Hence the  *)
(* work is linear in the input, and the stack does not depend on it.       *)
(***************************************************************************)
EXTENDS Peg

VARIABLES tried,    \* tried[n][p]: how often production n was tried at place p
          deep      \* the deepest stack so far
wv == <<vars, tried, deep>>

NoTries == [n \in 1..Len(GS[g].nodes) |-> [p \in 1..(Len(w) + 1) |-> 0]]
WInit == Init /\ tried = <<>> /\ deep = 0
Count == /\ tried' = IF ph = "read" THEN (IF ph' = "run" THEN NoTries ELSE tried)
                     ELSE IF ph = "run" /\ act.m = "call" THEN [tried EXCEPT ![act.n][pos] = @ + 1]
                     ELSE tried
         /\ deep' = IF Len(stk') > deep THEN Len(stk') ELSE deep
WStep == Step /\ Count
WNext == ((ReadTok \/ ReadClose \/ Start) /\ Count) \/ WStep \/ (ph = "done" /\ UNCHANGED wv)
WSpec == WInit /\ [][WNext]_wv /\ WF_wv(WStep)

RECURSIVE SumTo(_, _)
SumTo(f, k) == IF k = 0 THEN 0 ELSE f[k] + SumTo(f, k - 1)
Total(n) == SumTo(tried[n], Len(tried[n]))
Terminals == {n \in 1..Len(GS[g].nodes) : GS[g].nodes[n].op = "tok"}
RECURSIVE SumOver(_, _)
SumOver(S, p) == IF S = {} THEN 0 ELSE LET n == CHOOSE n \in S : TRUE IN (IF p = 0 THEN Total(n) ELSE tried[n][p]) + SumOver(S \ {n}, p)
\* terminals tried at place p; altogether (p = 0)
TriesAt(p) == SumOver(Terminals, p)

Flat == GS[g].flat
OncePerPlace == ph = "done" /\ Flat => \A n \in 1..Len(tried) : \A p \in 1..Len(tried[n]) : tried[n][p] <= 1
LinearWork   == ph = "done" /\ Flat => att <= Len(GS[g].nodes) * (Len(w) + 1)
ShallowStack == Flat => deep <= Len(GS[g].nodes)
\* the counter agrees with the history
RECURSIVE All(_)
All(n) == IF n = 0 THEN 0 ELSE Total(n) + All(n - 1)
Counted == ph = "done" => All(Len(GS[g].nodes)) = att
Ends == (ph = "run") ~> (ph = "done")
=============================================================================
