------------------------------- MODULE MCDbg --------------------------------
(* all nodes of the given types up to the given size, under all options *)
EXTENDS Dbg, Json, IOUtils, TLC, FiniteSets
D  == JsonDeserialize(IOEnv.DBG_JSON)
Lf == D.leaf
Op == D.opts

Nd(k, t, xs) == [k |-> k, t |-> t, xs |-> xs]
\* values of a type; lists of up to m items
RECURSIVE Vals(_, _), Lists(_, _, _)
\* item, separator, item ...: the parts of a list of n items (tr: one more separator at the end)
Lists(V, P, n) == IF n = 0 THEN {<<>>} ELSE IF n = 1 THEN {<<v>> : v \in V}
                  ELSE {l \o <<p, v>> : l \in Lists(V, P, n - 1), p \in P, v \in V}
Vals(ty, m) ==
  CASE ty.k = "leaf"  -> {Nd("leaf", ty.t, <<>>)}
    [] ty.k = "word"  -> {Nd("word", ty.t, <<>>)}
    [] ty.k = "unit"  -> {Nd("unit", ty.t, <<>>)}
    [] ty.k = "same"  -> {Nd("same", ty.t, <<v>>) : v \in Vals(ty.xs[1], m)}
    [] ty.k = "alt"   -> UNION {Vals(ty.xs[i], m) : i \in 1..Len(ty.xs)}
    [] ty.k = "any"   -> LET V == Vals(ty.xs[1], m) IN
                         {Nd("list", "", <<>>)} \cup {Nd("list", "", <<v>>) : v \in V} \cup (IF m < 2 THEN {} ELSE {Nd("list", "", <<v, w>>) : v \in V, w \in V})
    [] ty.k = "punct" -> LET V == Vals(ty.xs[1], m) P == Vals(ty.xs[2], m) IN
                         UNION {{Nd("list", "", l) : l \in Lists(V, P, j)} \cup (IF j = 0 THEN {} ELSE {Nd("list", "", l \o <<p>>) : l \in Lists(V, P, j), p \in P}) : j \in 0..m}
    [] ty.k = "many"  -> LET V == Vals(ty.xs[1], m) P == Vals(ty.xs[2], m) IN
                         {Nd("list", "", l) : l \in UNION {Lists(V, P, j) : j \in 0..m}}
    [] ty.k = "sep"   -> LET V == Vals(ty.xs[1], m) P == Vals(ty.xs[2], m) IN UNION {{Nd("list", "", l) : l \in Lists(V, P, j)} : j \in 1..m}
    [] ty.k = "maybe" -> {Nd("none", "", <<>>)} \cup {Nd("some", "", <<p, v>>) : p \in Vals(ty.xs[1], m), v \in Vals(ty.xs[2], m)}
    [] ty.k = "left"  -> LET V == Vals(ty.xs[1], m) P == Vals(ty.xs[2], m)
                             RECURSIVE C(_)
                             C(j) == IF j = 1 THEN V ELSE {Nd("chain", "l", <<l, p, v>>) : l \in C(j - 1), p \in P, v \in V}
                         IN  UNION {C(j) : j \in 1..(m + 1)}
    [] ty.k = "right" -> LET V == Vals(ty.xs[1], m) P == Vals(ty.xs[2], m)
                             RECURSIVE C(_)
                             C(j) == IF j = 1 THEN V ELSE {Nd("chain", "r", <<v, p, l>>) : l \in C(j - 1), p \in P, v \in V}
                         IN  UNION {C(j) : j \in 1..(m + 1)}

\* two values of a type are told apart by their plain text
Faithful == \A i \in 1..Len(D.types) :
               LET V == Vals(D.types[i].ty, D.types[i].m) T == [v \in V |-> Text(v, 1)] IN
               Cardinality({T[v] : v \in V}) = Cardinality(V)
ASSUME Faithful

VARIABLE which
Init == \/ \E i \in 1..Len(D.types) : \E o \in 1..(IF D.types[i].disp THEN Len(Op) ELSE D.debugs) :
             \E v \in Vals(D.types[i].ty, D.types[i].m) : Start(v, o) /\ which = i
        \/ \E j \in 1..Len(D.cases) : Start(D.cases[j].node, D.cases[j].opt) /\ which = -j
Next == Step /\ UNCHANGED which
Spec == Init /\ [][Next]_<<dvars, which>>
Emit == Done => PrintT("@@" \o ToJson([i |-> which, node |-> node, opt |-> opt, out |-> out]))
=============================================================================
