-------------------------------- MODULE Eqv ---------------------------------
(***************************************************************************)
(* Equality, ordering and lookup of syntax tree nodes.                     *)
(*                                                                         *)
(* A node is its content: a tree [k, v, cs] of a constructor, a value and  *)
(* children. Where in a text it stands, and how it was spelled there, is   *)
(* not part of it. The module says which contents a type has, which of two *)
(* comes first, and how a collection of nodes behaves that looks them up   *)
(* by content.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS TS          \* types: [name, shape, ord, few, given]: given are larger pairs, beyond the shape
\* a shape: [k |-> "leaf", u |-> <<leaves>>] or [k, n, sub |-> <<shapes>>]

Range(s) == {s[i] : i \in 1..Len(s)}
Node(k, cs) == [k |-> k, v |-> <<>>, cs |-> cs]

---------------------------------------------------------------------------
\* the contents of a type, up to a size
RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE LET R == Seqs(S, n - 1) IN R \cup {Append(s, x) : s \in {r \in R : Len(r) = n - 1}, x \in S}
RECURSIVE Left(_, _), Right(_, _)
Left(xs, os)  == IF os = <<>> THEN Node("lr", <<xs[1]>>)
                 ELSE LET n == Len(os) IN Node("lb", <<Left(SubSeq(xs, 1, n), SubSeq(os, 1, n - 1)), os[n], xs[n + 1]>>)
Right(xs, os) == IF os = <<>> THEN Node("rl", <<xs[1]>>)
                 ELSE Node("rb", <<xs[1], os[1], Right(Tail(xs), Tail(os))>>)
\* items and separators in turn
RECURSIVE Weave(_, _)
Weave(xs, os) == IF xs = <<>> THEN <<>> ELSE IF os = <<>> THEN <<xs[1]>> ELSE <<xs[1], os[1]>> \o Weave(Tail(xs), Tail(os))
RECURSIVE Vals(_)
Vals(t) ==
  CASE t.k = "leaf"   -> Range(t.u)
    [] t.k = "mark"   -> {Node("mark", <<>>)}
    [] t.k = "group"  -> {Node("group", <<x>>) : x \in Vals(t.sub[1])}
    [] t.k = "box"    -> Vals(t.sub[1])
    [] t.k = "maybe"  -> {Node("none", <<>>)} \cup {Node("some", <<p, x>>) : p \in Vals(t.sub[1]), x \in Vals(t.sub[2])}
    [] t.k = "any"    -> {Node("any", s) : s \in Seqs(Vals(t.sub[1]), t.n)}
    [] t.k = "either" -> {Node("L", <<x>>) : x \in Vals(t.sub[1])} \cup {Node("R", <<x>>) : x \in Vals(t.sub[2])}
    [] t.k = "seq"    -> {Node("seq", <<x, y>>) : x \in Vals(t.sub[1]), y \in Vals(t.sub[2])}
    [] t.k \in {"punct", "sep", "left", "right"} ->
         LET X == Seqs(Vals(t.sub[1]), t.n) O == Seqs(Vals(t.sub[2]), t.n)
             Chain == {<<x, o>> \in X \X O : Len(x) = Len(o) + 1}
             Ends  == {<<x, o>> \in X \X O : Len(x) = Len(o)}
         IN CASE t.k = "sep"   -> {Node("sep", Weave(c[1], c[2])) : c \in Chain}
              [] t.k = "punct" -> {Node("punct", Weave(c[1], c[2])) : c \in Chain \cup Ends}
              [] t.k = "left"  -> {Left(c[1], c[2]) : c \in Chain}
              [] OTHER         -> {Right(c[1], c[2]) : c \in Chain}

---------------------------------------------------------------------------
\* order: -1, 0, 1
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> THEN (IF b = <<>> THEN 0 ELSE -1) ELSE IF b = <<>> THEN 1
             ELSE IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE Lex(Tail(a), Tail(b))
Mag(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1) ELSE Lex(a, b)
\* a whole number is its sign (-1, 0, 1) and its digits
Num(a, b) == IF a[1] # b[1] THEN (IF a[1] < b[1] THEN -1 ELSE 1) ELSE a[1] * Mag(Tail(a), Tail(b))
RECURSIVE Cmp(_, _)
Cmp(a, b) == CASE a.k = "num" -> Num(a.v, b.v)
               [] a.k \in {"L", "R"} -> IF a.k # b.k THEN (IF a.k = "L" THEN -1 ELSE 1) ELSE Cmp(a.cs[1], b.cs[1])
               [] a.k = "mark" -> 0
               [] OTHER -> Lex(a.v, b.v)

---------------------------------------------------------------------------
\* comparing, and collecting
VARIABLES ty, x, y, z, coll, hist, ph
vars == <<ty, x, y, z, coll, hist, ph>>
T == TS[ty]
Nothing == Node("", <<>>)
Init == ty \in 1..Len(TS) /\ x = Nothing /\ y = Nothing /\ z = Nothing /\ coll = {} /\ hist = <<>> /\ ph = "start"
Take == /\ ph = "start" /\ x' \in Vals(T.shape) /\ y' \in Vals(T.shape)
        /\ z' \in (IF T.ord THEN Vals(T.shape) ELSE {Nothing})      \* a third one, for the laws of orders
        /\ ph' = "pair" /\ UNCHANGED <<ty, coll, hist>>
Given == /\ ph = "start" /\ (\E i \in 1..Len(T.given) : x' = T.given[i][1] /\ y' = T.given[i][2])
         /\ z' = (IF T.ord THEN x' ELSE Nothing) /\ ph' = "pair" /\ UNCHANGED <<ty, coll, hist>>
Open == ph = "start" /\ ph' = "coll" /\ UNCHANGED <<ty, x, y, z, coll, hist>>
MaxOps == T.ops
Op(o, c, r) == hist' = Append(hist, [op |-> o, c |-> c, r |-> r]) /\ UNCHANGED <<ty, x, y, z, ph>>
\* insertion keeps the older one of equal nodes; what it reports is whether there was none
Insert(c) == Op("insert", c, IF c \in coll THEN "old" ELSE "new") /\ coll' = coll \cup {c}
Remove(c) == Op("remove", c, IF c \in coll THEN "old" ELSE "new") /\ coll' = coll \ {c}
Find(c)   == Op("find", c, IF c \in coll THEN "old" ELSE "new") /\ coll' = coll
Few == Range(T.few)
Do == ph = "coll" /\ Len(hist) < MaxOps /\ (\E c \in Few : Insert(c) \/ Remove(c) \/ Find(c))
Close == ph = "coll" /\ ph' = "closed" /\ UNCHANGED <<ty, x, y, z, coll, hist>>
Next == Take \/ Given \/ Open \/ Do \/ Close
Spec == Init /\ [][Next]_vars

\* in their order
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE a \in S : \A b \in S : Cmp(a, b) <= 0 IN <<m>> \o Sorted(S \ {m})

---------------------------------------------------------------------------
\* the order is one, and equality is what it calls equal
Laws == ph = "pair" /\ T.ord =>
   /\ (Cmp(x, y) = 0) = (x = y)
   /\ Cmp(x, y) = -Cmp(y, x)
   /\ Cmp(x, y) <= 0 /\ Cmp(y, z) <= 0 => Cmp(x, z) <= 0
\* no history leaves anything in a collection but what was inserted last and not removed since
Kept == ph = "closed" => \A c \in Few :
   LET is == {i \in 1..Len(hist) : hist[i].c = c /\ hist[i].op # "find"} IN
   (c \in coll) = (is # {} /\ hist[CHOOSE i \in is : \A j \in is : j <= i].op = "insert")
=============================================================================
