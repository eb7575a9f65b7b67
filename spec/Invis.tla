------------------------------- MODULE Invis -------------------------------
(***************************************************************************)
(* Streams that carry the same tokens.                                     *)
(*                                                                         *)
(* A stream is a sequence of marks: "t" a token, "(" and ")" a visible     *)
(* group, "<" and ">" an invisible one, such as a macro puts around what   *)
(* it has captured.  First a stream is made: invisible groups are put      *)
(* around parts of a given sequence of tokens.  Then a cursor reads it, as *)
(* the parser does: going past the opening of an invisible group when it   *)
(* needs a token, past its end as soon as it gets there.                   *)
(*                                                                         *)
(* What it reads is the sequence the stream was made from, and it knows    *)
(* that it is at the end of a group or of the stream exactly when all the  *)
(* tokens there are read: so parsing may not depend on invisible groups.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT Most              \* at most so many invisible groups
VARIABLES w,               \* the tokens, as "t", "(" and ")"
          veils,           \* what is to be in invisible groups: pairs of places, later ones outside
          ph,              \* "make", "read", "done"
          st,              \* the stream
          at,              \* the cursor: the next mark
          got,             \* places read so far
          scope            \* where the groups that are being read end
ivars == <<w, veils, ph, st, at, got, scope>>

RECURSIVE Depth(_, _)
Depth(s, i) == IF i = 0 THEN 0 ELSE Depth(s, i - 1) + (IF s[i] = "(" THEN 1 ELSE IF s[i] = ")" THEN -1 ELSE 0)
Balanced(s) == /\ \A i \in 1..Len(s) : Depth(s, i) >= 0
               /\ Depth(s, Len(s)) = 0
Part(i, j)  == Balanced(SubSeq(w, i, j))
Fits(i, j)  == \A v \in 1..Len(veils) : LET a == veils[v][1] b == veils[v][2] IN
                 b < i \/ j < a \/ (i <= a /\ b <= j)
Rank(p)     == p[1] * 100 - p[2]

Start(s) == /\ w = s /\ veils = <<>> /\ ph = "make" /\ st = <<>> /\ at = 0 /\ got = <<>> /\ scope = <<>>
Veil == /\ ph = "make" /\ Len(veils) < Most
        /\ \E i \in 1..Len(w) : \E j \in i..Len(w) :
             /\ Part(i, j) /\ Fits(i, j)
             \* disjoint ones in one order only
             /\ IF veils = <<>> THEN TRUE
                ELSE LET l == veils[Len(veils)] IN IF i <= l[1] /\ l[2] <= j THEN TRUE ELSE Rank(l) < Rank(<<i, j>>)
             /\ veils' = Append(veils, <<i, j>>)
        /\ UNCHANGED <<w, ph, st, at, got, scope>>

Times(n, c) == [x \in 1..n |-> c]
Opens(i)  == Cardinality({v \in 1..Len(veils) : veils[v][1] = i})
Closes(i) == Cardinality({v \in 1..Len(veils) : veils[v][2] = i})
RECURSIVE Stream(_)
Stream(i) == IF i > Len(w) THEN <<>> ELSE Times(Opens(i), "<") \o <<w[i]>> \o Times(Closes(i), ">") \o Stream(i + 1)

RECURSIVE After(_, _)    \* past the ends of invisible groups
After(s, k) == IF k <= Len(s) /\ s[k] = ">" THEN After(s, k + 1) ELSE k
RECURSIVE Inside(_, _)   \* past the openings of invisible groups
Inside(s, k) == IF k <= Len(s) /\ s[k] = "<" THEN Inside(s, k + 1) ELSE k
RECURSIVE EndOf(_, _, _)
EndOf(s, k, d) == IF s[k] = ")" /\ d = 0 THEN k ELSE EndOf(s, k + 1, d + (IF s[k] = "(" THEN 1 ELSE IF s[k] = ")" THEN -1 ELSE 0))

Read == /\ ph = "make"
        /\ st' = Stream(1) /\ ph' = "read" /\ at' = 1 /\ scope' = <<Len(Stream(1)) + 1>>
        /\ UNCHANGED <<w, veils, got>>
Here  == scope[Len(scope)]
AtEnd == at = Here
Tok   == Inside(st, at)
Take == /\ ph = "read" /\ ~AtEnd /\ st[Tok] = "t"
        /\ at' = After(st, Tok + 1) /\ got' = Append(got, Len(got) + 1)
        /\ UNCHANGED <<w, veils, ph, st, scope>>
Enter == /\ ph = "read" /\ ~AtEnd /\ st[Tok] = "("
         /\ at' = Tok + 1 /\ scope' = Append(scope, EndOf(st, Tok + 1, 0)) /\ got' = Append(got, Len(got) + 1)
         /\ UNCHANGED <<w, veils, ph, st>>
Leave == /\ ph = "read" /\ AtEnd /\ Len(scope) > 1
         /\ at' = After(st, at + 1) /\ scope' = SubSeq(scope, 1, Len(scope) - 1) /\ got' = Append(got, Len(got) + 1)
         /\ UNCHANGED <<w, veils, ph, st>>
Stop == /\ ph = "read" /\ AtEnd /\ Len(scope) = 1
        /\ ph' = "done" /\ UNCHANGED <<w, veils, st, at, got, scope>>
INext == Veil \/ Read \/ Take \/ Enter \/ Leave \/ Stop

(* --------------------------- what must hold --------------------------- *)
Plain(s)  == SelectSeq(s, LAMBDA c : c \notin {"<", ">"})
Same      == ph # "make" => Plain(st) = w
\* where the cursor is
Level     == ph = "read" => Len(scope) = 1 + Depth(w, Len(got))
\* it is at the end when all tokens there are read, and only then
Knows     == ph = "read" => (AtEnd <=> (IF Len(got) = Len(w) THEN TRUE ELSE w[Len(got) + 1] = ")"))
Nothing   == ph = "done" => Len(got) = Len(w)
\* it never gets stuck
Moves     == ph = "read" => ENABLED (Take \/ Enter \/ Leave \/ Stop)
=============================================================================
