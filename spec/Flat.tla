-------------------------------- MODULE Flat --------------------------------
(***************************************************************************)
(* Flat inputs of any length.                                              *)
(*                                                                         *)
(* The input of a repetition, list or chain is a sequence of runs [p, n]:  *)
(* the pattern p (items "i", separators "s", anything else "x") n times.   *)
(* The parser is abstracted to counters: it knows where it is and what is  *)
(* due, and takes a whole run at once where the run is what it repeats.    *)
(* What it has stored are blocks [b, d, n]: the n places b, b+d, b+2d ...  *)
(* So one behaviour stands for inputs of any length; MCFlat checks that it *)
(* says the same as PegDen wherever the input is short enough for that.    *)
(*                                                                         *)
(* The grammar is a list of the kind at hand followed by an optional "x".  *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES kind,      \* "any", "many", "punct", "sep", "left", "right"
          runs, r, k, \* the input, the run at hand, how much of it is consumed
          pos, due,  \* tokens consumed; what comes next: "item" or "sep"
          I, S,      \* places of the items and of the separators
          ph, at     \* "list", "rest", "yes", "no"; where the error is (0: the end)
fvars == <<kind, runs, r, k, pos, due, I, S, ph, at>>

Start(kd, rs) == /\ kind = kd /\ runs = rs /\ r = 1 /\ k = 0 /\ pos = 0 /\ due = "item"
                 /\ I = <<>> /\ S = <<>> /\ ph = "list" /\ at = -1

Loose == kind \in {"any", "many"}
Tok1  == IF r > Len(runs) THEN "end" ELSE runs[r].p[(k % Len(runs[r].p)) + 1]
Here  == IF Tok1 = "end" THEN 0 ELSE pos + 1
Cycle == IF Loose THEN <<"i">> ELSE IF due = "item" THEN <<"i", "s">> ELSE <<"s", "i">>
Whole == r <= Len(runs) /\ runs[r].p = Cycle /\ k % Len(Cycle) = 0
Left  == runs[r].n - k \div Len(runs[r].p)
Want  == IF due = "item" THEN "i" ELSE "s"
B(b, d, n) == [b |-> b, d |-> d, n |-> n]

\* to the next run when this one is used up
Move(m) == IF k + m = runs[r].n * Len(runs[r].p) THEN r' = r + 1 /\ k' = 0 ELSE r' = r /\ k' = k + m

\* a whole run at once
Leap == /\ ph = "list" /\ Whole
        /\ LET n == Left L == Len(Cycle) IN
           /\ I' = Append(I, B(pos + (IF due = "item" THEN 1 ELSE 2), L, n))
           /\ S' = IF Loose THEN S ELSE Append(S, B(pos + (IF due = "item" THEN 2 ELSE 1), L, n))
           /\ pos' = pos + n * L /\ Move(n * L)
        /\ UNCHANGED <<kind, runs, due, ph, at>>
\* one token
Take == /\ ph = "list" /\ ~Whole /\ Tok1 = Want
        /\ IF due = "item" THEN I' = Append(I, B(pos + 1, 1, 1)) /\ S' = S ELSE S' = Append(S, B(pos + 1, 1, 1)) /\ I' = I
        /\ pos' = pos + 1 /\ Move(1)
        /\ due' = IF Loose \/ due = "sep" THEN "item" ELSE "sep"
        /\ UNCHANGED <<kind, runs, ph, at>>
\* something else is here
Stop == /\ ph = "list" /\ ~Whole /\ Tok1 # Want
        /\ LET over == CASE kind = "any" -> TRUE
                         [] kind \in {"many", "punct"} -> Tok1 = "end"
                         [] OTHER -> due = "sep"
           IN IF over THEN ph' = "rest" /\ at' = at ELSE ph' = "no" /\ at' = Here
        /\ UNCHANGED <<kind, runs, r, k, pos, due, I, S>>
\* what follows the list
Rest == /\ ph = "rest"
        /\ IF Tok1 = "x" /\ kind \notin {"many", "punct"} /\ due # "done"
           THEN /\ pos' = pos + 1 /\ Move(1) /\ due' = "done" /\ UNCHANGED <<ph, at>>
           ELSE /\ IF Tok1 = "end" THEN ph' = "yes" /\ at' = at ELSE ph' = "no" /\ at' = Here
                /\ UNCHANGED <<pos, r, k, due>>
        /\ UNCHANGED <<kind, runs, I, S>>
FNext == Leap \/ Take \/ Stop \/ Rest
Done  == ph \in {"yes", "no"}

\* places as differences to the one before, [difference, how often]
Push(o, d, n) == IF n = 0 THEN o
                 ELSE IF o # <<>> /\ o[Len(o)][1] = d THEN [o EXCEPT ![Len(o)][2] = @ + n] ELSE Append(o, <<d, n>>)
RECURSIVE Steps(_, _, _, _)
Steps(bs, i, last, o) == IF i > Len(bs) THEN o
                         ELSE LET x == bs[i] IN Steps(bs, i + 1, x.b + x.d * (x.n - 1), Push(Push(o, x.b - last, 1), x.d, x.n - 1))
RECURSIVE Count(_, _)
Count(bs, i) == IF i > Len(bs) THEN 0 ELSE bs[i].n + Count(bs, i + 1)

\* items and separators interleave, whatever the length
Interleaved == IF kind \in {"any", "many"} THEN S = <<>>
               ELSE LET i == Count(I, 1) s == Count(S, 1) IN
                    /\ i - s \in {0, 1}
                    /\ kind # "punct" /\ ph \in {"rest", "yes"} => i = s + 1
Conserved == Count(I, 1) + Count(S, 1) + (IF due = "done" THEN 1 ELSE 0) = pos
=============================================================================
