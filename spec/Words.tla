------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Identifier and keyword types.                                           *)
(*                                                                         *)
(* A keyword list is a sequence of words.  For a list there is one keyword *)
(* type per entry and one identifier type.  The machine reads a stream of  *)
(* tokens with one such type, as long as it accepts them; then, with all   *)
(* types of the list at once, it classifies every word.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS TT,         \* token -> "word" | "other"
          LS,         \* keyword lists
          FS          \* families [lists, alpha, max]: lists: which ones

Range(s) == {s[i] : i \in 1..Len(s)}
IsWord(t) == TT[t] = "word"
\* type 0 of a list: its identifiers; type i: its i-th keyword
Accepts(l, ty, t) == IsWord(t) /\ (IF ty = 0 THEN t \notin Range(LS[l]) ELSE t = LS[l][ty])
\* which of all the types of a list takes the word (-1: none)
ClassOf(l, t) == IF ~IsWord(t) THEN -1
                 ELSE IF t \in Range(LS[l]) THEN CHOOSE i \in 1..Len(LS[l]) : LS[l][i] = t ELSE 0

VARIABLES f, l, ty, w, ph, pos, cls
vars == <<f, l, ty, w, ph, pos, cls>>
Fam == FS[f]
Init == /\ f \in 1..Len(FS) /\ l \in Range(FS[f].lists) /\ ty \in 0..Len(LS[l])
        /\ w = <<>> /\ ph = "build" /\ pos = 1 /\ cls = <<>>
Grow == ph = "build" /\ Len(w) < Fam.max /\ (\E i \in 1..Len(Fam.alpha) : w' = Append(w, Fam.alpha[i])) /\ UNCHANGED <<f, l, ty, ph, pos, cls>>
Start == ph = "build" /\ ph' = "read" /\ UNCHANGED <<f, l, ty, w, pos, cls>>
Accept == ph = "read" /\ pos <= Len(w) /\ Accepts(l, ty, w[pos]) /\ pos' = pos + 1 /\ UNCHANGED <<f, l, ty, w, ph, cls>>
Stop == /\ ph = "read" /\ (IF pos > Len(w) THEN TRUE ELSE ~Accepts(l, ty, w[pos]))
        /\ ph' = "class" /\ UNCHANGED <<f, l, ty, w, pos, cls>>
Classify == /\ ph = "class" /\ Len(cls) < Len(w)
            /\ cls' = Append(cls, ClassOf(l, w[Len(cls) + 1])) /\ UNCHANGED <<f, l, ty, w, ph, pos>>
End == ph = "class" /\ Len(cls) = Len(w) /\ ph' = "done" /\ UNCHANGED <<f, l, ty, w, pos, cls>>
Next == Grow \/ Start \/ Accept \/ Stop \/ Classify \/ End
Spec == Init /\ [][Next]_vars

\* results: which tokens are taken, and where an error is reported (0: at the end of the input)
Many   == [n |-> pos - 1, at |-> IF pos > Len(w) THEN -1 ELSE pos]                        \* as many as it takes
Single == [ok |-> Len(w) = 1 /\ pos = 2, at |-> IF Len(w) = 0 THEN 0 ELSE IF pos = 1 THEN 1 ELSE IF Len(w) > 1 THEN 2 ELSE -1]

\* every word belongs to exactly one type of a list
Partition == ph = "done" => \A i \in 1..Len(w) :
     IsWord(w[i]) <=> \E t \in 0..Len(LS[l]) : Accepts(l, t, w[i]) /\ cls[i] = t /\ \A u \in 0..Len(LS[l]) : Accepts(l, u, w[i]) => u = t
=============================================================================
