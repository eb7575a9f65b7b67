-------------------------------- MODULE Cont --------------------------------
(***************************************************************************)
(* The container types as state machines: separated lists ("sep"),         *)
(* punctuated lists ("punct"), zero-or-more lists ("any"), optional        *)
(* productions ("maybe") and delimited groups ("group").                   *)
(*                                                                         *)
(* The state is the sequence xs of [v, p]: an item and the separator after *)
(* it (-1: none; the prefix, for an optional production).  Every public    *)
(* operation is a transition; Obs gives what every accessor must show.     *)
(* Items put in by the environment are numbered consecutively (nx), so     *)
(* that every item of a history is distinguishable; a default separator is *)
(* 0; mutable access adds 1000.                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANT FS          \* families [kind, ctors, ops, depth]; an operation is [o, a, b]

Bump == 1000
No   == -1
It(v, p) == [v |-> v, p |-> p]
Op(o, a, b) == [o |-> o, a |-> a, b |-> b]

Vals(xs)   == [i \in 1..Len(xs) |-> xs[i].v]
Rev(s)     == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Pairs(xs)  == [i \in 1..Len(xs) |-> <<xs[i].v, xs[i].p>>]
Trail(xs)  == Len(xs) > 0 /\ xs[Len(xs)].p # No
Front(s)   == SubSeq(s, 1, Len(s) - 1)
SetAt(s, i, x) == [s EXCEPT ![i] = x]
Close(xs, p) == IF Len(xs) = 0 \/ Trail(xs) THEN xs ELSE SetAt(xs, Len(xs), It(xs[Len(xs)].v, p))
\* k new items numbered from n, with separators between them (b: and at the end)
New(n, k, b, dflt) == [i \in 1..k |-> It(n + i - 1, IF i < k \/ b THEN (IF dflt THEN 0 ELSE n + i - 1) ELSE No)]
BumpV(x) == It(x.v + Bump, x.p)
BumpP(x) == It(x.v, IF x.p = No THEN No ELSE x.p + Bump)
Both(x)  == It(x.v + Bump, IF x.p = No THEN No ELSE x.p + Bump)
Map(f(_), xs) == [i \in 1..Len(xs) |-> f(xs[i])]
MapIf(f(_), xs, S) == [i \in 1..Len(xs) |-> IF i \in S THEN f(xs[i]) ELSE xs[i]]

\* an outcome: the next state, the next number, the result of the operation
Out(xs, n, r) == [xs |-> xs, n |-> n, r |-> r]
Det(xs, n, r) == {Out(xs, n, r)}

----------------------------------------------------------------------------
(* constructors: outcomes from nothing *)
MakeSep(n, k, o) ==
    CASE o.o = "parse" -> Det(New(n, k, FALSE, FALSE), n + k, "ok")
      [] o.o = "try" -> Det(New(n, k, FALSE, FALSE), n + k, "ok")
MakePunct(n, k, o) ==
    CASE o.o = "parse" -> Det(New(n, k, o.b = 1, FALSE), n + k, "ok")
      [] o.o \in {"new", "default"} -> Det(<<>>, n, "ok")
      [] o.o = "collect" -> Det(New(n, k, FALSE, TRUE), n + k, "ok")
      [] o.o = "collectp" -> Det(New(n, k, o.b = 1, FALSE), n + k, "ok")
      [] o.o = "syn" -> Det(New(n, k, o.b = 1, FALSE), n + k, "ok")
MakeAny(n, k, o) ==
    CASE o.o \in {"new", "default"} -> Det(<<>>, n, "ok")
      [] o.o \in {"parse", "vec", "collect"} -> Det([i \in 1..k |-> It(n + i - 1, No)], n + k, "ok")
MakeMaybe(n, k, o) ==
    CASE o.o \in {"new", "default"} -> Det(<<>>, n, "ok")
      [] o.o \in {"parse", "optpair"} -> Det(IF k = 0 THEN <<>> ELSE <<It(n, n)>>, n + k, "ok")
      [] o.o = "opt" -> Det(IF k = 0 THEN <<>> ELSE <<It(n, 0)>>, n + k, "ok")
      [] o.o = "pair" -> Det(<<It(n, n)>>, n + 1, "ok")
      [] o.o = "val" -> Det(<<It(n, 0)>>, n + 1, "ok")
\* k: which delimiter
MakeGroup(n, k, o) ==
    CASE o.o \in {"parse", "new", "from", "parts", "default"} -> Det(<<It(IF o.o = "default" THEN 0 ELSE n, k)>>, n + 1, "ok")
Make(kind, n, o) ==
    CASE kind = "sep" -> MakeSep(n, o.a, o) [] kind = "punct" -> MakePunct(n, o.a, o) [] kind = "any" -> MakeAny(n, o.a, o)
      [] kind = "maybe" -> MakeMaybe(n, o.a, o) [] kind = "group" -> MakeGroup(n, o.a, o)

----------------------------------------------------------------------------
\* the list has room for position i (from 0)
Has(xs, i) == i < Len(xs)
InsAt(xs, i, x) == SubSeq(xs, 1, i) \o <<x>> \o SubSeq(xs, i + 1, Len(xs))

\* edits of the underlying collection of a separated list, followed by the
\* attempt to convert it back
Edit(xs, n, e) ==
    CASE e = 0 -> xs
      [] e = 1 -> Close(xs, n)                                             \* a trailing separator
      [] e = 2 -> Front(xs)                                                \* the last item goes: its separator stays
      [] e = 3 -> IF Len(xs) < 2 THEN <<>> ELSE SetAt(Front(xs), Len(xs) - 1, It(xs[Len(xs) - 1].v, No))
      [] e = 4 -> <<>>
Fit(xs) == Len(xs) > 0 /\ ~Trail(xs)

SepOp(xs, n, o) ==
    LET L == Len(xs) IN
    CASE o.o = "push"  -> Det(Append(Close(xs, n), It(n, No)), n + 1, "ok")
      [] o.o = "pushv" -> Det(Append(Close(xs, 0), It(n, No)), n + 1, "ok")
      [] o.o = "ins"   -> IF o.a > L THEN Det(xs, n + 1, "panic")
                          ELSE IF o.a = L THEN Det(Append(Close(xs, 0), It(n, No)), n + 1, "ok")
                          ELSE Det(InsAt(xs, o.a, It(n, 0)), n + 1, "ok")
      [] o.o = "extv"  -> Det(IF o.a = 0 THEN xs ELSE Close(xs, 0) \o New(n, o.a, FALSE, TRUE), n + o.a, "ok")
      \* pairs are (separator, item): each separator is the one before its item
      [] o.o = "extp"  -> Det(IF o.a = 0 THEN xs ELSE Close(xs, n) \o
                                 [i \in 1..o.a |-> It(n + i - 1, IF i = o.a THEN No ELSE n + i)], n + o.a, "ok")
      [] o.o = "first_mut" -> Det(MapIf(BumpV, xs, {1}), n, "ok")
      [] o.o = "last_mut"  -> Det(MapIf(BumpV, xs, {L}), n, "ok")
      [] o.o = "idx_mut"   -> IF Has(xs, o.a) THEN Det(MapIf(BumpV, xs, {o.a + 1}), n, "ok") ELSE Det(xs, n, "panic")
      [] o.o \in {"iter_mut", "for_mut"} -> Det(Map(BumpV, xs), n, "ok")
      [] o.o = "pairs_mut" -> Det(Map(Both, xs), n, "ok")
      [] o.o = "via" -> LET ys == Edit(xs, n, o.a) IN IF Fit(ys) THEN Det(ys, n + 1, "ok") ELSE Det(xs, n + 1, "err")
      [] o.o \in {"refirst", "relast", "repairs"} -> Det(xs, n, "ok")
      \* the source of the items fails after a of them: some of them have arrived
      [] o.o = "extvx" -> {Out(IF k = 0 THEN xs ELSE Close(xs, 0) \o New(n, k, FALSE, TRUE), n + o.a, "panic") : k \in 0..o.a}
      [] o.o = "extpx" -> {Out(IF k = 0 THEN xs ELSE Close(xs, n) \o [i \in 1..k |-> It(n + i - 1, IF i = k THEN No ELSE n + i)],
                               n + o.a, "panic") : k \in 0..o.a}

PunctOp(xs, n, o) ==
    LET L == Len(xs) IN
    CASE o.o = "push" -> Det(Append(Close(xs, 0), It(n, No)), n + 1, "ok")           \* of the underlying list
      [] o.o = "ppush" -> IF L = 0 \/ Trail(xs) THEN Det(xs, n + 1, "panic") ELSE Det(Close(xs, n), n + 1, "ok")
      [] o.o = "pop"  -> Det(IF L = 0 THEN xs ELSE Front(xs), n, "ok")
      [] o.o = "ppop" -> Det(IF Trail(xs) THEN SetAt(xs, L, It(xs[L].v, No)) ELSE xs, n, "ok")
      [] o.o = "ins"  -> IF o.a > L THEN Det(xs, n + 1, "panic")
                         ELSE IF o.a = L THEN Det(Append(Close(xs, 0), It(n, No)), n + 1, "ok")
                         ELSE Det(InsAt(xs, o.a, It(n, 0)), n + 1, "ok")
      [] o.o = "extv" -> Det(IF o.a = 0 THEN xs ELSE Close(xs, 0) \o New(n, o.a, FALSE, TRUE), n + o.a, "ok")
      \* extending by no pairs may or may not leave a separator behind
      [] o.o = "extp" -> IF o.a = 0 THEN {Out(xs, n, "ok"), Out(Close(xs, 0), n, "ok")}
                         ELSE Det(Close(xs, 0) \o New(n, o.a, o.b = 1, FALSE), n + o.a, "ok")
      [] o.o = "idx_mut" -> IF Has(xs, o.a) THEN Det(MapIf(BumpV, xs, {o.a + 1}), n, "ok") ELSE Det(xs, n, "panic")
      [] o.o \in {"iter_mut", "for_mut"} -> Det(Map(BumpV, xs), n, "ok")
      [] o.o = "pairs_mut" -> Det(Map(Both, xs), n, "ok")
      [] o.o \in {"resyn", "repairs", "reinto"} -> Det(xs, n, "ok")
      [] o.o = "recollect" -> Det([i \in 1..L |-> It(xs[i].v, IF i < L THEN 0 ELSE No)], n, "ok")
      [] o.o \in {"clear_mut", "clear_asmut", "clear_borrow"} -> Det(<<>>, n, "ok")

AnyOp(xs, n, o) ==
    LET L == Len(xs) IN
    CASE o.o = "push" -> Det(Append(xs, It(n, No)), n + 1, "ok")
      [] o.o = "pop"  -> Det(IF L = 0 THEN xs ELSE Front(xs), n, "ok")
      [] o.o = "ins"  -> IF o.a > L THEN Det(xs, n + 1, "panic") ELSE Det(InsAt(xs, o.a, It(n, No)), n + 1, "ok")
      [] o.o = "extv" -> Det(xs \o [i \in 1..o.a |-> It(n + i - 1, No)], n + o.a, "ok")
      [] o.o = "idx_mut" -> IF Has(xs, o.a) THEN Det(MapIf(BumpV, xs, {o.a + 1}), n, "ok") ELSE Det(xs, n, "panic")
      [] o.o = "get_mut" -> IF Has(xs, o.a) THEN Det(MapIf(BumpV, xs, {o.a + 1}), n, "some") ELSE Det(xs, n, "none")
      [] o.o = "rng_mut" -> IF o.a <= o.b /\ o.b <= L THEN Det(MapIf(BumpV, xs, (o.a + 1)..o.b), n, "ok") ELSE Det(xs, n, "panic")
      [] o.o = "getr_mut" -> IF o.a <= o.b /\ o.b <= L THEN Det(MapIf(BumpV, xs, (o.a + 1)..o.b), n, "some") ELSE Det(xs, n, "none")
      [] o.o \in {"iter_mut", "for_mut"} -> Det(Map(BumpV, xs), n, "ok")
      [] o.o \in {"rev_slice", "rev_vec", "rev_bslice", "rev_bvec", "rev_deref"} -> Det(Rev(xs), n, "ok")
      [] o.o \in {"revec", "reinto", "recollect"} -> Det(xs, n, "ok")

MaybeOp(xs, n, o) ==
    LET P(x) == It(x.v, x.p + Bump) IN
    CASE o.o \in {"prefix_mut", "prefix_iter_mut"} -> Det(Map(P, xs), n, IF xs = <<>> THEN "none" ELSE "some")
      [] o.o \in {"as_mut", "iter_mut", "for_mut"} -> Det(Map(BumpV, xs), n, IF xs = <<>> THEN "none" ELSE "some")
      [] o.o \in {"parts_mut", "parts_iter_mut", "deref_mut"} -> Det(Map(Both, xs), n, IF xs = <<>> THEN "none" ELSE "some")
      [] o.o = "take" -> Det(<<>>, n, IF xs = <<>> THEN "none" ELSE "some")
      [] o.o = "put"  -> Det(<<It(n, n)>>, n + 1, IF xs = <<>> THEN "none" ELSE "some")
      [] o.o = "reparts" -> Det(xs, n, "ok")
      [] o.o = "reinner" -> Det(Map(LAMBDA x: It(x.v, 0), xs), n, "ok")

GroupOp(xs, n, o) ==
    CASE o.o \in {"deref_mut", "as_mut"} -> Det(Map(BumpV, xs), n, "ok")
      [] o.o = "reparts" -> Det(xs, n, "ok")

Outcomes(kind, xs, n, o) ==
    CASE kind = "sep" -> SepOp(xs, n, o) [] kind = "punct" -> PunctOp(xs, n, o) [] kind = "any" -> AnyOp(xs, n, o)
      [] kind = "maybe" -> MaybeOp(xs, n, o) [] kind = "group" -> GroupOp(xs, n, o)

----------------------------------------------------------------------------
(* what the accessors show *)
TokV(n) == "v" \o ToString(n)
TokP(n) == "p" \o ToString(n)
RECURSIVE Toks(_)
Toks(xs) == IF xs = <<>> THEN <<>>
            ELSE <<TokV(Head(xs).v)>> \o (IF Head(xs).p = No THEN <<>> ELSE <<TokP(Head(xs).p)>>) \o Toks(Tail(xs))
First(xs) == xs[1].v
Last(xs)  == xs[Len(xs)].v
Obs(kind, xs) ==
    LET L == Len(xs)
        lst == [vals |-> Vals(xs), rvals |-> Rev(Vals(xs)), pairs |-> Pairs(xs), rpairs |-> Rev(Pairs(xs)), len |-> L,
                empty |-> (L = 0), trailing |-> Trail(xs), first |-> IF L = 0 THEN <<>> ELSE <<First(xs)>>,
                last |-> IF L = 0 THEN <<>> ELSE <<Last(xs)>>, same |-> TRUE,
                toks |-> Toks(xs)]
    IN CASE kind = "sep" ->
              lst @@ [fr |-> <<First(xs), [i \in 1..(L - 1) |-> <<xs[i].p, xs[i + 1].v>>]>>,
                      lr |-> <<Last(xs), [i \in 1..(L - 1) |-> <<xs[i].v, xs[i].p>>]>>]
         [] kind = "punct" -> lst
         [] kind = "any" -> [vals |-> Vals(xs), rvals |-> Rev(Vals(xs)), len |-> L, empty |-> (L = 0), same |-> TRUE,
                             toks |-> Toks(xs),
                             tail |-> IF L = 0 THEN <<>> ELSE <<Vals(Tail(xs))>>, init |-> IF L = 0 THEN <<>> ELSE <<Vals(Front(xs))>>]
         [] kind = "maybe" -> [some |-> (L = 1), pre |-> [i \in 1..L |-> xs[i].p], vals |-> Vals(xs),
                               parts |-> [i \in 1..L |-> <<xs[i].p, xs[i].v>>], same |-> TRUE,
                               toks |-> IF L = 0 THEN <<>> ELSE <<TokP(xs[1].p), TokV(xs[1].v)>>]
         [] kind = "group" -> [vals |-> Vals(xs), delim |-> xs[1].p, same |-> TRUE]

Valid(kind, xs) ==
    /\ \A i \in 1..Len(xs) : xs[i].p = No => kind = "any" \/ i = Len(xs)
    /\ kind = "sep" => Fit(xs)
    /\ kind \in {"maybe", "group"} => Len(xs) <= 1

----------------------------------------------------------------------------
VARIABLES f, xs, nx, hist
vars == <<f, xs, nx, hist>>
Fam == FS[f]

Entry(o, out) == [op |-> o, r |-> out.r, obs |-> Obs(Fam.kind, out.xs)]
Init == f \in 1..Len(FS) /\ xs = <<>> /\ nx = 1 /\ hist = <<>>
Ctor == /\ hist = <<>>
        /\ \E i \in 1..Len(Fam.ctors) : \E out \in Make(Fam.kind, nx, Fam.ctors[i]) :
              xs' = out.xs /\ nx' = out.n /\ hist' = <<Entry(Fam.ctors[i], out)>>
        /\ UNCHANGED f
Do == /\ hist # <<>> /\ Len(hist) <= Fam.depth
      /\ \E i \in 1..Len(Fam.ops) : \E out \in Outcomes(Fam.kind, xs, nx, Fam.ops[i]) :
            xs' = out.xs /\ nx' = out.n /\ hist' = Append(hist, Entry(Fam.ops[i], out))
      /\ UNCHANGED f
Next == Ctor \/ Do
Spec == Init /\ [][Next]_vars

\* the representation invariant holds after every history, and operations on
\* separated lists never lose items
WellFormed == hist # <<>> => Valid(Fam.kind, xs)
NeverShrinks == [][Fam.kind = "sep" /\ hist # <<>> /\ hist'[Len(hist')].op.o # "via" => Len(xs') >= Len(xs)]_vars
=============================================================================
