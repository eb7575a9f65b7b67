------------------------------- MODULE Quote -------------------------------
(***************************************************************************)
(* The quoting parse macros.                                               *)
(*                                                                         *)
(* A quotation is a template: plain tokens, holes, and repeated holes.  A  *)
(* hole is filled with one piece of located input, a repeated hole with    *)
(* any number of them.  The pieces come from one source text, in the order *)
(* of the holes or in the opposite order.  The machine expands the         *)
(* template item by item and parses the resulting tokens (PegDen).         *)
(*                                                                         *)
(* Every token of the result has an origin: <<0>> if it is a plain token   *)
(* of the template - its place is the requested one -, else <<hole, piece, *)
(* token>>, the place the interpolated token has in its source text.       *)
(* Where several alternatives fail the error that got furthest is          *)
(* reported, by these places.                                              *)
(***************************************************************************)
EXTENDS PegDen, TLC

CONSTANTS GS,       \* grammars [nodes, start]
          QS        \* quotations [g, items, holes, order, many]
\* item: [k |-> "tok" | "hole" | "rep", t |-> token, h |-> hole, sep |-> tokens]
\* hole: the pieces (token sequences) that may fill it
\* order: the arrangements of the pieces, "up" or "down"; many: bound for repeated holes
\* req: the requested place: "call" (none: the call site), "low", "mid", "high"
\* relative to the pieces

VARIABLES q, fill, ord, req, i, s, org, ph, out
vars == <<q, fill, ord, req, i, s, org, ph, out>>

Q == QS[q]
NoOut == [ok |-> FALSE, v |-> VNone, er |-> NoEr]
Repeated(h) == \E k \in 1..Len(Q.items) : Q.items[k].k = "rep" /\ Q.items[k].h = h
Pool(h) == {Q.holes[h][k] : k \in 1..Len(Q.holes[h])}

Init == /\ q \in 1..Len(QS) /\ fill = <<>> /\ ord \in {QS[q].order[k] : k \in 1..Len(QS[q].order)}
        /\ req \in {QS[q].reqs[k] : k \in 1..Len(QS[q].reqs)}
        /\ i = 0 /\ s = <<>> /\ org = <<>> /\ ph = "fill" /\ out = NoOut

Fill == /\ ph = "fill" /\ Len(fill) < Len(Q.holes)
        /\ LET h == Len(fill) + 1
           IN \E n \in (IF Repeated(h) THEN 0..Q.many ELSE {1}) :
                \E c \in [1..n -> Pool(h)] : fill' = Append(fill, c)
        /\ UNCHANGED <<q, ord, req, i, s, org, ph, out>>
Filled == /\ ph = "fill" /\ Len(fill) = Len(Q.holes)
          /\ ph' = "expand" /\ i' = 1
          /\ UNCHANGED <<q, fill, ord, req, s, org, out>>

OrgOf(h, p) == [k \in 1..Len(fill[h][p]) |-> <<h, p, k>>]
RECURSIVE RepS(_, _, _), RepO(_, _, _)
\* all pieces of a repeated hole, with the separator in between
RepS(h, p, sep) == IF p > Len(fill[h]) THEN <<>>
                   ELSE (IF p > 1 THEN sep ELSE <<>>) \o fill[h][p] \o RepS(h, p + 1, sep)
RepO(h, p, sep) == IF p > Len(fill[h]) THEN <<>>
                   ELSE (IF p > 1 THEN [k \in 1..Len(sep) |-> <<0>>] ELSE <<>>) \o OrgOf(h, p) \o RepO(h, p + 1, sep)

Expand == /\ ph = "expand" /\ i <= Len(Q.items)
          /\ LET it == Q.items[i]
             IN CASE it.k = "tok"  -> s' = Append(s, it.t) /\ org' = Append(org, <<0>>)
                  [] it.k = "hole" -> s' = s \o fill[it.h][1] /\ org' = org \o OrgOf(it.h, 1)
                  [] it.k = "rep"  -> s' = s \o RepS(it.h, 1, it.sep) /\ org' = org \o RepO(it.h, 1, it.sep)
          /\ i' = i + 1
          /\ UNCHANGED <<q, fill, ord, req, ph, out>>

\* where a token is, as a number
Base(h, p) == LET n == 10 * h + p IN IF ord = "up" THEN 1000 * n ELSE 1000 * (100 - n)
Place(k) ==
    LET o == org[k] IN
    IF o # <<0>> THEN Base(o[1], o[2]) + o[3]
    \* an opening delimiter ends before the rest of the requested place does
    ELSE LET d == IF TT[s[k]].k = "open" THEN 1 ELSE 0 IN
         CASE req = "low"  -> 500 - d
           [] req = "mid"  -> 1000 * 15 - d
           [] req = "high" -> 1000 * 200 - d
           \* without a requested place a plain literal is at the place where the
           \* quotation's tokeniser read it, on its own
           [] req = "call" -> IF TT[s[k]].k = "lit" THEN TT[s[k]].n ELSE 0
Rk == [k \in 1..Len(s) |-> Place(k)]
CtxQ == [G |-> GS[Q.g].nodes, w |-> s, mt |-> Partners(s), loc |-> TRUE, rk |-> Rk]

Parse == /\ ph = "expand" /\ i > Len(Q.items)
         /\ ph' = "done" /\ out' = Denote(CtxQ, GS[Q.g].start)
         /\ UNCHANGED <<q, fill, ord, req, i, s, org>>
Next == Fill \/ Filled \/ Expand \/ Parse \/ (ph = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the result is the same as if all tokens stood in one text: only the choice
\* among several errors depends on the places
SameAsText == ph = "done" =>
    LET o == Denote(Ctx(GS[Q.g].nodes, s, Partners(s), TRUE), GS[Q.g].start)
    IN o.ok = out.ok /\ (o.ok => o.v = out.v)
\* every interpolated token keeps its place, and they come in their order
KeepsPlaces == ph = "done" =>
    /\ Len(org) = Len(s)
    /\ \A k \in 1..Len(s) : org[k] # <<0>> => s[k] = fill[org[k][1]][org[k][2]][org[k][3]]
    /\ \A a, b \in 1..Len(s) : a < b /\ org[a] # <<0>> /\ org[b] # <<0>> /\ org[a][1] = org[b][1] /\ org[a][2] = org[b][2] => org[a][3] < org[b][3]
\* an error is somewhere in the quotation, or at its very end
ErrInside == ph = "done" /\ ~out.ok => out.er.i \in 0..Len(s) /\ out.er.j \in 0..Len(s)
=============================================================================
