-------------------------------- MODULE Two ---------------------------------
(***************************************************************************)
(* The two-way alternation as a value.                                     *)
(*                                                                         *)
(* State: the side ("L", "R"), the type of the payload on it ("a", "b" -   *)
(* flipping moves the payload to the other side and keeps its type) and    *)
(* the payload xs, a sequence:                                             *)
(*   kind "val":  one value            kind "same": one value, both types  *)
(*   alike        kind "opt", "res": no or one value (absent / error e)    *)
(*   kind "ext":  a growing collection kind "iter": what an iterator has   *)
(*   still to yield (0: it answers "nothing" once), h: how precise its     *)
(*   size hint is.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANT FS       \* families [kind, starts: [side, xs, h], ops: [o, a], depth]
Bump == 1000

Other(s) == IF s = "L" THEN "R" ELSE "L"
TypeAt(s) == IF s = "L" THEN "a" ELSE "b"
S(side, ty, xs) == [side |-> side, ty |-> ty, xs |-> xs]
Out(st, r) == [st |-> st, r |-> r]

\* what one call answers: nothing, or the item
Ans(x) == IF x = 0 THEN <<>> ELSE <<x>>
\* iterators: [answer, rest]
Nx(xs) == IF xs = <<>> THEN [a |-> <<>>, xs |-> xs] ELSE [a |-> Ans(Head(xs)), xs |-> Tail(xs)]
Bk(xs) == IF xs = <<>> THEN [a |-> <<>>, xs |-> xs] ELSE [a |-> Ans(xs[Len(xs)]), xs |-> SubSeq(xs, 1, Len(xs) - 1)]
RECURSIVE NthF(_, _), NthB(_, _), Run(_)
NthF(xs, k) == LET s == Nx(xs) IN IF k = 0 \/ s.a = <<>> THEN s ELSE NthF(s.xs, k - 1)
NthB(xs, k) == LET s == Bk(xs) IN IF k = 0 \/ s.a = <<>> THEN s ELSE NthB(s.xs, k - 1)
\* everything up to the first "nothing"
Run(xs) == IF xs = <<>> \/ Head(xs) = 0 THEN <<>> ELSE <<Head(xs)>> \o Run(Tail(xs))
Rev(s)  == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Hint(xs, h) == LET n == Len(xs) IN CASE h = 0 -> <<n, n>> [] h = 1 -> <<n \div 2, -1>> [] h = 2 -> <<0, n + 3>>

\* asking for the k-th item from here: by its index, by a search, by a fold that breaks off, or by skipping
Apply(kind, st, h, o, n) ==
    LET it(s) == Out([st EXCEPT !.xs = s.xs], [side |-> st.side, ty |-> st.ty, v |-> s.a])
        b(s)  == [s EXCEPT !.xs = [i \in 1..Len(@) |-> @[i] + Bump]]
        done(s) == Out(s, [side |-> st.side, ty |-> st.ty, v |-> <<>>])
    IN CASE o.o = "next" -> it(Nx(st.xs))
         [] o.o = "back" -> it(Bk(st.xs))
         [] o.o \in {"nth", "find", "fold", "skip"} -> it(NthF(st.xs, o.a))
         [] o.o \in {"nthb", "rfind", "rfold", "rskip"} -> it(NthB(st.xs, o.a))
         [] o.o = "flip" -> done(S(Other(st.side), st.ty, st.xs))
         [] o.o \in {"map", "as_mut", "as_mut_t", "deref_mut"} -> done(b(st))
         \* the function for the other side must not be called
         [] o.o = "mapl" -> done(IF st.side = "L" THEN b(st) ELSE st)
         [] o.o = "mapr" -> done(IF st.side = "R" THEN b(st) ELSE st)
         [] o.o = "extend" -> done([st EXCEPT !.xs = @ \o [i \in 1..o.a |-> n + i]])
         [] o.o = "into_iter" -> done(st)

\* what the accessors show
Obs(kind, st, h) ==
    LET me == IF st.side = "L" THEN st.xs ELSE <<>>
        ot == IF st.side = "R" THEN st.xs ELSE <<>>
        basic == [isl |-> (st.side = "L"), isr |-> (st.side = "R"), ty |-> st.ty, lr |-> <<me, ot>>, inner |-> st.xs]
    IN IF kind # "iter" THEN basic
       ELSE [isl |-> (st.side = "L"), isr |-> (st.side = "R"), hint |-> Hint(st.xs, h), count |-> Len(Run(st.xs)),
             last |-> LET r == Run(st.xs) IN IF r = <<>> THEN <<>> ELSE <<r[Len(r)]>>,
             items |-> Run(st.xs), ritems |-> Run(Rev(st.xs)), sides |-> (IF Run(st.xs) = <<>> THEN <<>> ELSE <<st.side>>)]
            @@ (IF h = 0 THEN [len |-> Len(st.xs)] ELSE [nolen |-> TRUE])

----------------------------------------------------------------------------
VARIABLES f, st, h, start, hist
vars == <<f, st, h, start, hist>>
Fam == FS[f]
Init == /\ f \in 1..Len(FS)
        /\ \E i \in 1..Len(FS[f].starts) : LET x == FS[f].starts[i] IN
              st = S(x.side, TypeAt(x.side), x.xs) /\ h = x.h /\ start = x
        /\ hist = <<>>
Do == /\ Len(hist) < Fam.depth
      /\ \E i \in 1..Len(Fam.ops) :
            LET out == Apply(Fam.kind, st, h, Fam.ops[i], 10 * (Len(hist) + 1)) IN
            st' = out.st /\ hist' = Append(hist, [op |-> Fam.ops[i], r |-> out.r, obs |-> Obs(Fam.kind, out.st, h)])
      /\ UNCHANGED <<f, h, start>>
Next == Do
Spec == Init /\ [][Next]_vars

\* nothing is lost, and a side's payload never turns into the other type
TypeKept == st.ty = TypeAt(start.side)
Kept == Fam.kind \in {"val", "same", "opt", "res"} => Len(st.xs) = Len(start.xs)
Exhausts == Fam.kind = "iter" => Len(st.xs) <= Len(start.xs)
=============================================================================
