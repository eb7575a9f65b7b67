------------------------------- MODULE Derive -------------------------------
(***************************************************************************)
(* What deriving means for any shape of declaration.                       *)
(*                                                                         *)
(* The machine writes declarations: it opens variants of some style, adds  *)
(* fields of some type to them (marked as recursive where they are), and   *)
(* closes. For a declaration the module says for which arguments of its    *)
(* generic parameters it can be parsed and printed, and what reading any   *)
(* sequence of tokens with it yields.                                      *)
(*                                                                         *)
(* A declaration is [struct, vs]; a variant is [style, fs]; a field is     *)
(* [ty, rec]; a type is [k, t, n, sub].                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS FS          \* families [struct, styles, pool, minv, maxv, maxf, maxall, args, inputs, other, given]

Range(s) == {s[i] : i \in 1..Len(s)}
Ty(k, t, n, sub) == [k |-> k, t |-> t, n |-> n, sub |-> sub]

---------------------------------------------------------------------------
\* which arguments can be parsed and printed
Can(trait, a) == IF trait = "parse" THEN a \notin {"NoP", "OnlyT"} ELSE a \notin {"NoP", "OnlyP"}
\* E: [d |-> the declaration, o |-> the other one, a |-> arguments]
RECURSIVE Has(_, _, _), HasDecl(_, _, _)
Has(tr, ty, E) ==
  CASE ty.k = "param" -> Can(tr, E.a[ty.n])
    [] ty.k \in {"leaf", "pass", "proj", "fixed", "self"} -> TRUE
    [] ty.k = "ref"   -> IF tr = "print" THEN Has(tr, ty.sub[1], E) ELSE FALSE
    [] ty.k = "other" -> HasDecl(tr, E.o, E)
    [] OTHER          -> \A i \in 1..Len(ty.sub) : Has(tr, ty.sub[i], E)
\* bounds are on the types of fields, except for those marked
HasDecl(tr, d, E) == \A i \in 1..Len(d.vs) : \A j \in 1..Len(d.vs[i].fs) : d.vs[i].fs[j].rec \/ Has(tr, d.vs[i].fs[j].ty, E)

---------------------------------------------------------------------------
\* reading w[i..e-1], where c is the location of the end: 0 at the very end of the input, or the closing delimiter
\* [ok, i, tr: tree, at: location of the error, path, odd: some group was left with tokens in it]
Ok(i, tr)  == [ok |-> TRUE, i |-> i, tr |-> tr, at |-> -1, path |-> <<>>, odd |-> FALSE]
Bad(at)    == [ok |-> FALSE, i |-> 0, tr |-> <<>>, at |-> at, path |-> <<>>, odd |-> FALSE]
Tree(k, n, i, cs) == <<k, n, i, cs>>
RECURSIVE Match(_, _, _)
Match(w, i, depth) == IF w[i] = ")" /\ depth = 1 THEN i ELSE Match(w, i + 1, depth + (IF w[i] = "(" THEN 1 ELSE IF w[i] = ")" THEN -1 ELSE 0))
Num(a) == CHOOSE n \in 0..9 : ToString(n) = a
Tok(w, i, e, c, t) == IF i >= e THEN Bad(c) ELSE IF w[i] = t THEN Ok(i + 1, Tree("tok", 0, i, <<>>)) ELSE Bad(i)
RECURSIVE P(_, _, _, _, _, _), Decl(_, _, _, _, _, _), Fields(_, _, _, _, _, _, _, _), Alts(_, _, _, _, _, _, _, _), Many(_, _, _, _, _, _, _), Times(_, _, _, _, _, _)
P(ty, w, i, e, c, E) ==
  CASE ty.k = "leaf"  -> Tok(w, i, e, c, ty.t)
    [] ty.k = "param" -> Tok(w, i, e, c, E.a[ty.n])
    [] ty.k = "pass"  -> Tok(w, i, e, c, "-")
    [] ty.k = "proj"  -> Tok(w, i, e, c, "*")
    [] ty.k = "fixed" -> Times(Num(E.a[ty.n]), w, i, e, c, <<>>)
    [] ty.k = "box"   -> P(ty.sub[1], w, i, e, c, E)
    [] ty.k = "maybe" -> LET p == P(ty.sub[1], w, i, e, c, E) IN
                         IF ~p.ok THEN [Ok(i, Tree("none", 0, 0, <<>>)) EXCEPT !.odd = p.odd]
                         ELSE LET b == P(ty.sub[2], w, p.i, e, c, E) IN
                              IF b.ok THEN [b EXCEPT !.tr = Tree("some", 0, 0, <<p.tr, b.tr>>), !.odd = @ \/ p.odd] ELSE [b EXCEPT !.odd = @ \/ p.odd]
    [] ty.k = "paren" -> IF i >= e THEN Bad(c) ELSE IF w[i] # "(" THEN Bad(i)
                         ELSE LET j == Match(w, i + 1, 1) b == P(ty.sub[1], w, i + 1, j, j, E) IN
                              IF ~b.ok THEN b ELSE [b EXCEPT !.i = j + 1, !.tr = Tree("group", j, i, <<b.tr>>), !.odd = b.odd \/ b.i < j]
    [] ty.k = "any"   -> Many(ty.sub[1], w, i, e, c, E, <<>>)
    [] ty.k = "self"  -> Decl(1, E.d, w, i, <<e, c>>, E)
    [] ty.k = "other" -> Decl(2, E.o, w, i, <<e, c>>, E)
Times(n, w, i, e, c, acc) ==
  IF Len(acc) = n THEN Ok(i, Tree("any", 0, 0, acc))
  ELSE LET r == Tok(w, i, e, c, "+") IN IF r.ok THEN Times(n, w, r.i, e, c, Append(acc, r.tr)) ELSE r
Many(ty, w, i, e, c, E, acc) ==
  LET r == P(ty, w, i, e, c, E) IN
  IF r.ok THEN LET s == Many(ty, w, r.i, e, c, E, Append(acc, r.tr)) IN [s EXCEPT !.odd = @ \/ r.odd]
  ELSE [Ok(i, Tree("any", 0, 0, acc)) EXCEPT !.odd = r.odd]
\* the fields of a variant, in order; who: which declaration, v: which variant (0: a struct)
Fields(fs, who, v, w, i, ec, E, acc) ==
  IF Len(acc) = Len(fs) THEN Ok(i, Tree("node", v, 0, acc))
  ELSE LET r == P(fs[Len(acc) + 1].ty, w, i, ec[1], ec[2], E) IN
       IF r.ok THEN LET s == Fields(fs, who, v, w, r.i, ec, E, Append(acc, r.tr)) IN [s EXCEPT !.odd = @ \/ r.odd]
       ELSE [r EXCEPT !.path = << <<who, v, Len(acc) + 1>> >> \o @]
\* alternatives from the k-th on; best: the error so far
Alts(vs, k, who, w, i, ec, E, best) ==
  IF k > Len(vs) THEN best
  ELSE LET r == Fields(vs[k].fs, who, k, w, i, ec, E, <<>>) IN
       IF r.ok THEN r
       ELSE LET s == Alts(vs, k + 1, who, w, i, ec, E, IF r.at >= best.at THEN r ELSE best) IN [s EXCEPT !.odd = @ \/ r.odd]
Decl(who, d, w, i, ec, E) ==
  IF d.struct THEN Fields(d.vs[1].fs, who, 0, w, i, ec, E, <<>>)
  ELSE IF d.vs = <<>> THEN Bad(IF i >= ec[1] THEN ec[2] ELSE i)
  ELSE Alts(d.vs, 1, who, w, i, ec, E, Bad(-1))
Read(d, o, a, w) ==
  LET r == Decl(1, d, w, 1, <<Len(w) + 1, 0>>, [d |-> d, o |-> o, a |-> a]) IN
  IF r.ok /\ r.i <= Len(w) THEN [Bad(r.i) EXCEPT !.odd = r.odd] ELSE r

---------------------------------------------------------------------------
\* well-formed: what is repeated consumes something
RECURSIVE Null(_, _, _), NullDecl(_, _, _), Repeats(_, _)
Null(ty, E, fuel) ==
  CASE ty.k \in {"leaf", "param", "pass", "proj", "paren"} -> FALSE
    [] ty.k \in {"maybe", "any", "fixed"} -> TRUE
    [] ty.k \in {"box", "ref"} -> Null(ty.sub[1], E, fuel)
    [] ty.k = "self"  -> IF fuel > 0 THEN NullDecl(E.d, E, fuel - 1) ELSE FALSE
    [] ty.k = "other" -> IF fuel > 0 THEN NullDecl(E.o, E, fuel - 1) ELSE FALSE
NullDecl(d, E, fuel) == \E i \in 1..Len(d.vs) : \A j \in 1..Len(d.vs[i].fs) : Null(d.vs[i].fs[j].ty, E, fuel)
Repeats(ty, E) == (IF ty.k = "any" THEN ~Null(ty.sub[1], E, 4) ELSE TRUE) /\ \A i \in 1..Len(ty.sub) : Repeats(ty.sub[i], E)
WellFormed(d, E) == \A i \in 1..Len(d.vs) : \A j \in 1..Len(d.vs[i].fs) : Repeats(d.vs[i].fs[j].ty, E)

---------------------------------------------------------------------------
VARIABLES f, vs, ph
vars == <<f, vs, ph>>
F == FS[f]
\* declarations too large to be enumerated are given
Init == /\ f \in 1..Len(FS)
        /\ \/ vs = <<>> /\ ph = "open" /\ FS[f].maxv > 0
           \/ ph = "closed" /\ vs \in Range(FS[f].given)
NFields == LET RECURSIVE S(_)
               S(i) == IF i = 0 THEN 0 ELSE Len(vs[i].fs) + S(i - 1)
           IN S(Len(vs))
OpenVariant == /\ ph = "open" /\ Len(vs) < (IF F.struct THEN 1 ELSE F.maxv)
               /\ \E s \in Range(F.styles) : vs' = Append(vs, [style |-> s, fs |-> <<>>])
               /\ UNCHANGED <<f, ph>>
AddField == /\ ph = "open" /\ vs # <<>> /\ vs[Len(vs)].style # "unit" /\ Len(vs[Len(vs)].fs) < F.maxf /\ NFields < F.maxall
            /\ \E i \in 1..Len(F.pool) : vs' = [vs EXCEPT ![Len(vs)].fs = Append(@, F.pool[i])]
            /\ UNCHANGED <<f, ph>>
Close == ph = "open" /\ Len(vs) >= (IF F.struct THEN 1 ELSE F.minv) /\ LET d == [struct |-> F.struct, vs |-> vs] IN WellFormed(d, [d |-> d, o |-> F.other]) /\ ph' = "closed" /\ UNCHANGED <<f, vs>>
Next == OpenVariant \/ AddField \/ Close
Spec == Init /\ [][Next]_vars
This == [struct |-> F.struct, vs |-> vs]
Env(a) == [d |-> This, o |-> F.other, a |-> a]
\* the same declaration owning what it refers to
RECURSIVE OwnedTy(_)
OwnedTy(ty) == IF ty.k = "ref" THEN OwnedTy(ty.sub[1]) ELSE [ty EXCEPT !.sub = [i \in 1..Len(ty.sub) |-> OwnedTy(ty.sub[i])]]
Owned(d) == [d EXCEPT !.vs = [i \in 1..Len(d.vs) |-> [d.vs[i] EXCEPT !.fs = [j \in 1..Len(d.vs[i].fs) |-> [d.vs[i].fs[j] EXCEPT !.ty = OwnedTy(@)]]]]]
\* the arguments for which (what it owns) can be read and printed
Args(a) == \A i \in 1..Len(a) : a[i] \notin {"OnlyP", "OnlyT", "NoP"}
Usable(a) == HasDecl("parse", Owned(This), Env(a)) /\ HasDecl("print", This, Env(a)) /\ Args(a)

---------------------------------------------------------------------------
\* sanity: what is read is in the tree once, in order
RECURSIVE Leaves(_)
Leaves(t) == CASE t[1] = "tok"   -> <<t[3]>>
               [] t[1] = "group" -> <<t[3]>> \o Leaves(t[4][1]) \o <<t[2]>>
               [] OTHER -> LET RECURSIVE L(_)
                               L(i) == IF i > Len(t[4]) THEN <<>> ELSE Leaves(t[4][i]) \o L(i + 1)
                           IN L(1)
Sound(w, r) == (r.ok /\ ~r.odd) => Leaves(r.tr) = [j \in 1..Len(w) |-> j]
Accounted == ph = "closed" => \A a \in Range(F.args) : Usable(a) => \A i \in 1..Len(F.inputs) : Sound(F.inputs[i], Read(Owned(This), F.other, a, F.inputs[i]))
=============================================================================
