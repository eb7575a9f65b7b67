-------------------------------- MODULE Carry -------------------------------
(***************************************************************************)
(* A located value and what its forms carry along.                         *)
(*                                                                         *)
(* A literal or a word lives in one of several forms, and every conversion *)
(* leads from one form to another:                                         *)
(*   "P" its own literal type     "L" the any-literal type                 *)
(*   "S", "SL" the same in syn    "TT" token tree    "TS" token stream     *)
(*   "RAW" plain value, no location                                        *)
(*   "CI", "W" identifier types   "ID" plain identifier   "KW" keyword     *)
(* State: form f, kind k ("num" where a form does not tell signed from     *)
(* unsigned), value v, location l (0: none given), and around it delimited *)
(* groups gs, the innermost first, each with delimiter d and location l.   *)
(* A value of two tokens may be read from tokens at the locations 1 and 2  *)
(* (l = Spread); it then has the location Both, from the first to the      *)
(* second. "PR" is a pair of words at 1 and 2, which stays as it is.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANT VS,      \* values, by name: [k, neg, kinds: of the own types that can hold it, def: kind of the any-literal type; kw: is listed as a keyword, raw]
         LS,      \* locations to set
         DS,      \* delimiters
         MaxG     \* nesting of groups explored, by value

Both == 5
Spread == 6
V(st) == VS[st.v]
Lits == {"P", "L", "S", "SL", "TT", "TS", "RAW"}
Wrap == {"P", "L", "S", "SL", "CI", "W", "ID", "KW", "PR"}
IsWord(st) == VS[st.v].k = "word"

\* what an operation needs
Can(st, o) ==
    LET w == IsWord(st)  bare == st.gs = <<>>  n == o.o  f == st.f IN
    CASE n = "clone" -> TRUE
      [] n = "set"   -> bare /\ f \in {"P", "L", "S", "SL", "TT", "CI", "W", "ID", "KW"}
      [] n = "new"   -> bare /\ (f \in {"P", "KW"} \/ (f = "W" /\ ~V(st).raw))
      [] n = "dflt"  -> bare /\ f = "KW"
      [] n = "raw"   -> bare /\ ~w /\ f = "P"
      [] n = "from"  -> bare /\ f = "RAW"
      [] n = "lit"   -> bare /\ ~w /\ f \in {"P", "RAW"}
      [] n = "unlit" -> bare /\ f = "L"
      [] n = "syn"   -> bare /\ ~w /\ f \in {"P", "L"}
      [] n = "own"   -> bare /\ f = "S" /\ (IF st.k = "num" THEN o.a \in {"int", "uint"} ELSE o.a = st.k)
      [] n = "any"   -> bare /\ f = "SL"
      [] n = "up"    -> bare /\ f = "S"
      [] n = "down"  -> bare /\ f = "SL"
      [] n = "token" -> bare /\ f \in {"P", "CI", "W", "KW"}
      [] n = "tt"    -> bare /\ f \in {"P", "KW", "ID"}
      [] n = "ts"    -> bare /\ f \in {"P", "L", "S", "SL", "TT", "CI", "W", "ID", "KW"}
      [] n = "one"   -> bare /\ f = "TS" /\ ~V(st).neg
      [] n = "parse" -> bare /\ f = "TS" /\ (IF w THEN o.a \in {"CI", "W", "foo", "if"}
                                             ELSE o.a \in {"L", "SL"} \/ (IF st.k = "num" THEN o.a \in {"int", "uint"} ELSE o.a = st.k))
      [] n = "id"    -> bare /\ w /\ f \in {"CI", "W", "TT"}
      [] n = "ci"    -> bare /\ f = "ID"
      [] n = "w"     -> bare /\ f = "ID"
      [] n \in {"grp", "grpat"}  -> f \in Wrap /\ Len(st.gs) < MaxG[st.v]
      [] n \in {"regrp", "ungrp"} -> ~bare
      [] n = "iset"  -> Len(st.gs) = 1 /\ f # "PR"
      [] OTHER -> FALSE

Joined(l) == IF l = Spread THEN Both ELSE l
Loc(st) == IF st.gs = <<>> THEN Joined(st.l) ELSE st.gs[Len(st.gs)].l
Ok(st) == [st |-> st, ok |-> TRUE, at |-> 0]
No(st) == [st |-> st, ok |-> FALSE, at |-> Joined(st.l)]
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Num(k) == IF k \in {"int", "uint"} THEN "num" ELSE k
Top(st, g) == [st EXCEPT !.gs[Len(st.gs)] = g]

Apply(st, o) ==
    LET n == o.o
        to(f, k)    == Ok([st EXCEPT !.f = f, !.k = k, !.l = Joined(@)])
        \* into an own type, which may not hold the value
        own(k)      == IF Has(V(st).kinds, k) THEN to("P", k) ELSE No(st)
        anyk        == IF st.k = "num" THEN V(st).def ELSE st.k
    IN CASE n = "clone" -> Ok(st)
         [] n \in {"set", "new"} -> Ok([st EXCEPT !.l = o.l])
         [] n = "dflt"  -> Ok([st EXCEPT !.l = 0])
         [] n = "raw"   -> Ok([st EXCEPT !.f = "RAW", !.l = 0])
         [] n = "from"  -> to("P", st.k)
         [] n = "lit"   -> to("L", st.k)
         [] n = "unlit" -> to("P", st.k)
         [] n = "syn"   -> to(IF st.f = "P" THEN "S" ELSE "SL", Num(st.k))
         [] n = "own"   -> own(o.a)
         [] n = "any"   -> to("L", anyk)
         [] n = "up"    -> to("SL", st.k)
         [] n = "down"  -> to("S", st.k)
         [] n = "token" -> to(IF IsWord(st) THEN "ID" ELSE "TT", Num(st.k))
         [] n = "tt"    -> to("TT", Num(st.k))
         [] n = "ts"    -> to("TS", Num(st.k))
         [] n = "one"   -> to("TT", st.k)
         [] n = "parse" -> (CASE o.a = "L" -> to("L", anyk)
                              [] o.a = "SL" -> to("SL", st.k)
                              [] o.a = "W" -> to("W", st.k)
                              [] o.a = "CI" -> IF V(st).kw THEN No(st) ELSE to("CI", st.k)
                              [] o.a \in {"foo", "if"} -> IF st.v = o.a THEN to("KW", st.k) ELSE No(st)
                              [] OTHER -> own(o.a))
         [] n = "id"    -> to("ID", st.k)
         [] n = "ci"    -> IF V(st).kw THEN No(st) ELSE to("CI", st.k)
         [] n = "w"     -> to("W", st.k)
         \* a group made of its content alone takes the location of the content
         [] n = "grp"   -> Ok([st EXCEPT !.gs = Append(@, [d |-> o.a, l |-> Loc(st)])])
         [] n = "grpat" -> Ok([st EXCEPT !.gs = Append(@, [d |-> o.a, l |-> o.l])])
         [] n = "regrp" -> Ok([st EXCEPT !.gs[Len(st.gs)].l = o.l])
         [] n = "ungrp" -> Ok([st EXCEPT !.gs = SubSeq(@, 1, Len(@) - 1)])
         [] n = "iset"  -> Ok([st EXCEPT !.l = o.l])

\* the tokens it prints to, with their locations
Base(st) == IF st.l = Spread \/ st.f = "PR" THEN <<[t |-> "-", l |-> 1], [t |-> st.v, l |-> 2]>> ELSE
            (IF V(st).neg THEN <<[t |-> "-", l |-> st.l]>> ELSE <<>>) \o <<[t |-> st.v, l |-> st.l]>>
Close(d) == CASE d = "(" -> ")" [] d = "[" -> "]" [] d = "{" -> "}"
RECURSIVE Toks(_, _)
Toks(st, n) == IF n = 0 THEN Base(st) ELSE <<[t |-> st.gs[n].d, l |-> st.gs[n].l]>> \o Toks(st, n - 1) \o <<[t |-> Close(st.gs[n].d), l |-> st.gs[n].l]>>
Obs(st) == [f |-> st.f, k |-> st.k, v |-> st.v, l |-> st.l, gs |-> st.gs,
            toks |-> IF st.f = "RAW" THEN <<>> ELSE Toks(st, Len(st.gs)),
            sp |-> IF st.f = "RAW" THEN -1 ELSE Loc(st)]

----------------------------------------------------------------------------
VARIABLES st, prev, op, hist, away      \* hist: the start and the operations since; away: whether from tokens at two places
vars == <<st, prev, op, hist, away>>
None == [o |-> "start", a |-> "", l |-> 0]
Start(v, l) == [f |-> (IF VS[v].k = "word" THEN "W" ELSE "P"), k |-> VS[v].k, v |-> v, l |-> l, gs |-> <<>>]
Ops == LET o(n, a, l) == [o |-> n, a |-> a, l |-> l]
           kinds == {VS[v].k : v \in DOMAIN VS} \ {"word", "pair"}
       IN {o(n, "", 0) : n \in {"clone", "dflt", "raw", "from", "lit", "unlit", "syn", "any", "up", "down", "token", "tt", "ts", "one", "id", "ci", "w", "ungrp"}}
          \cup {o(n, "", l) : n \in {"set", "new", "regrp", "iset"}, l \in LS}
          \cup {o("own", a, 0) : a \in kinds} \cup {o("parse", a, 0) : a \in kinds \cup {"L", "SL", "CI", "W", "foo", "if"}}
          \cup {o("grp", d, 0) : d \in DS} \cup {o("grpat", d, l) : d \in DS, l \in LS}
Away(v) == [f |-> (IF VS[v].k = "pair" THEN "PR" ELSE "TS"), k |-> Num(VS[v].k), v |-> v, l |-> (IF VS[v].k = "pair" THEN Both ELSE Spread), gs |-> <<>>]
Starts == {Start(v, 1) : v \in {v \in DOMAIN VS : VS[v].k # "pair"}} \cup {Away(v) : v \in {v \in DOMAIN VS : VS[v].neg}}
Init == st \in Starts /\ away = (st.f \in {"TS", "PR"}) /\ prev = <<>> /\ op = None /\ hist = <<>>
Next == \E o \in Ops : IF Can(st, o)
                       THEN LET out == Apply(st, o) IN
                            st' = out.st /\ prev' = st /\ op' = [o |-> o, ok |-> out.ok, at |-> out.at] /\ hist' = Append(hist, o) /\ UNCHANGED away
                       ELSE FALSE
Spec == Init /\ [][Next]_vars
\* every edge once, whatever led to it
Edge == <<st, prev, op>>

\* the value never changes, and a location only when one is given or none is left
Gives == {"set", "new", "iset", "dflt", "raw", "grp", "grpat", "regrp", "ungrp"}
Carries == (prev # <<>>) => /\ st.v = prev.v
                            /\ (op.o.o \notin Gives => st.l \in {prev.l, Joined(prev.l)} /\ st.gs = prev.gs)
                            /\ (~op.ok => st = prev /\ op.at = Joined(st.l))
                            /\ (op.o.o \in {"grp", "grpat", "regrp", "ungrp"} => st.l = prev.l)
                            /\ (op.o.o # "clone" /\ op.ok => st.l # Spread)
                            /\ (op.o.o = "grp" => Loc(st) = Loc(prev))
Typed == /\ (st.f = "P" => Has(V(st).kinds, st.k))
         /\ (st.f = "RAW" => st.l = 0)
         /\ Len(Obs(st).toks) = (IF st.f = "RAW" THEN 0 ELSE 1 + (IF V(st).neg THEN 1 ELSE 0) + 2 * Len(st.gs))
=============================================================================
