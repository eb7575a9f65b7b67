------------------------------ MODULE PegDen ------------------------------
(***************************************************************************)
(* What every production means: a big-step denotation of parsing, printing *)
(* and error selection.                                                    *)
(*                                                                         *)
(* A grammar is a sequence of nodes [op, s, e, a, f]:                      *)
(*   tok    terminal (see Tok)                                             *)
(*   seq    struct or enum variant: s = struct/variant name, e = enum name *)
(*          ("" for a struct), a = fields, f = field names                 *)
(*   alt    enum: a = variants, in source order                            *)
(*   either two-way alternation a[1] | a[2]                                *)
(*   maybe  optional: prefix a[1], rest a[2]                               *)
(*   any    zero or more a[1]                                              *)
(*   punct  a[1] separated by a[2] up to the end of the stream             *)
(*   sep    one or more a[1] separated by a[2]                             *)
(*   left, right  operator chains: operand a[1], operator a[2]             *)
(*   group  delimited: s = "(", "[" or "{", content a[1]                   *)
(*   empty, eof, noteof                                                    *)
(*   fail       always fails, with the message s                           *)
(* Recursion goes through node indices.                                    *)
(*                                                                         *)
(* A value is a record [k, i, j, c]: kind, first and last token (terminals *)
(* and groups only), children.                                             *)
(*                                                                         *)
(* Den(X, n, p, e): parse node n at position p of a stream that     *)
(* ends before e.  mt maps every delimiter to its partner.                 *)
(* Result [ok, v, p, u, er]: success, value, next position, first token    *)
(* left over inside an accepted group (0: none), error.                    *)
(***************************************************************************)
EXTENDS Tok

V(k, i, j, c)  == [k |-> k, i |-> i, j |-> j, c |-> c]
VNone          == V("none", 0, 0, <<>>)
Er(loc, i, j, msg) == [i |-> IF loc THEN i ELSE 0, j |-> IF loc THEN j ELSE 0,
                       msg |-> msg, ch |-> <<>>]
NoEr           == Er(TRUE, 0, 0, "")
ROk(v, p, u)   == [ok |-> TRUE,  v |-> v,     p |-> p, u |-> u, er |-> NoEr]
RNo(er)        == [ok |-> FALSE, v |-> VNone, p |-> 0, u |-> 0, er |-> er]

\* the path component an enclosing production adds to an error
PathOf(N, k) ==
    (IF N.e = "" THEN N.s ELSE N.e \o "::" \o N.s) \o "::" \o N.f[k]
Wrap(N, k, er) == [er EXCEPT !.ch = <<PathOf(N, k)>> \o er.ch]

\* how far an error got: where its last token ends.  Usually that is the order
\* of the tokens themselves; tokens that were put together from several places
\* (see Quote) bring their own order, X.rk
Rank(X, k) == IF X.rk = <<>> \/ k = 0 THEN k ELSE X.rk[k]
\* the error that got furthest; the later one among equals
Furthest(X, a, b) == IF Rank(X, b.j) >= Rank(X, a.j) THEN b ELSE a

\* first left-over token of two consecutive stretches of input
FirstOf(u1, u2) == IF u1 # 0 THEN u1 ELSE u2

GroupMsg(s) == CASE s = "(" -> "expected parentheses"
                 [] s = "[" -> "expected square brackets"
                 [] s = "{" -> "expected curly braces"

KindOf(N) == IF N.e = "" THEN N.s ELSE N.e \o "::" \o N.s

RECURSIVE FoldLeft(_, _)
FoldLeft(c, k) ==     \* c = <<x1, op1, x2, ...>>, use the first k elements
    IF k = 1 THEN V("lr", 0, 0, <<c[1]>>)
    ELSE V("lb", 0, 0, <<FoldLeft(c, k - 2), c[k - 1], c[k]>>)
RECURSIVE FoldRight(_, _)
FoldRight(c, k) ==    \* use the elements from k on
    IF k = Len(c) THEN V("rl", 0, 0, <<c[k]>>)
    ELSE V("rb", 0, 0, <<c[k], c[k + 1], FoldRight(c, k + 2)>>)

RECURSIVE Den(_, _, _, _), SeqD(_, _, _, _, _, _, _), AltD(_, _, _, _, _, _),
          RepD(_, _, _, _, _, _), PunD(_, _, _, _, _, _), SepD(_, _, _, _, _, _)

\* fields k.. of sequence N
SeqD(X, N, k, p, e, c, u) ==
    IF k > Len(N.a) THEN ROk(V(KindOf(N), 0, 0, c), p, u)
    ELSE LET r == Den(X, N.a[k], p, e)
         IN IF r.ok THEN SeqD(X, N, k + 1, r.p, e, Append(c, r.v), FirstOf(u, r.u))
            ELSE RNo(Wrap(N, k, r.er))

\* alternatives k.. of N; er = best error so far
AltD(X, N, k, p, e, er) ==
    IF k > Len(N.a) THEN RNo(er)
    ELSE LET r == Den(X, N.a[k], p, e)
         IN IF r.ok THEN r
            ELSE AltD(X, N, k + 1, p, e, IF k = 1 THEN r.er ELSE Furthest(X, er, r.er))

RepD(X, N, p, e, c, u) ==
    LET r == Den(X, N.a[1], p, e)
    IN IF r.ok THEN RepD(X, N, r.p, e, Append(c, r.v), FirstOf(u, r.u))
       ELSE ROk(V("any", 0, 0, c), p, u)

PunD(X, N, p, e, c, u) ==
    IF p >= e THEN ROk(V("punct", 0, 0, c), p, u)
    ELSE LET r == Den(X, N.a[1], p, e)
             c1 == Append(c, r.v)
             u1 == FirstOf(u, r.u)
         IN IF ~r.ok THEN r
            ELSE IF r.p >= e THEN ROk(V("punct", 0, 0, c1), r.p, u1)
            ELSE LET q == Den(X, N.a[2], r.p, e)
                 IN IF ~q.ok THEN q
                    ELSE PunD(X, N, q.p, e, Append(c1, q.v), FirstOf(u1, q.u))

SepD(X, N, p, e, c, u) ==     \* an item is due at p
    LET r == Den(X, N.a[1], p, e)
        c1 == Append(c, r.v)
        u1 == FirstOf(u, r.u)
        q == Den(X, N.a[2], r.p, e)
    IN IF ~r.ok THEN r
       ELSE IF ~q.ok THEN ROk(V("sep", 0, 0, c1), r.p, u1)
       ELSE SepD(X, N, q.p, e, Append(c1, q.v), FirstOf(u1, q.u))

Den(X, n, p, e) ==
    LET N  == X.G[n]
        w  == X.w
        mt == X.mt
    IN
    CASE N.op = "tok" ->
            LET m == MatchTok(N.s, N.f, w, p, e)
            IN IF m.ok THEN ROk(V("tok", p, p + m.len - 1, <<>>), p + m.len, 0)
               ELSE RNo(Er(X.loc, m.i, m.j, m.msg))
      [] N.op = "seq" -> SeqD(X, N, 1, p, e, <<>>, 0)
      [] N.op = "alt" ->
            AltD(X, N, 1, p, e,
                Er(X.loc, At(w, p, e), At(w, p, e),
                   AtEnd(p, e, "parsing an empty choice (enum) always fails")))
      [] N.op = "either" ->
            LET l == Den(X, N.a[1], p, e)
                r == Den(X, N.a[2], p, e)
            IN IF l.ok THEN [l EXCEPT !.v = V("L", 0, 0, <<l.v>>)]
               ELSE IF r.ok THEN [r EXCEPT !.v = V("R", 0, 0, <<r.v>>)]
               ELSE RNo(Furthest(X, l.er, r.er))
      [] N.op = "maybe" ->
            LET h == Den(X, N.a[1], p, e)
                t == Den(X, N.a[2], h.p, e)
            IN IF ~h.ok THEN ROk(VNone, p, 0)
               ELSE IF t.ok THEN ROk(V("some", 0, 0, <<h.v, t.v>>), t.p, FirstOf(h.u, t.u))
               ELSE t
      [] N.op = "any"   -> RepD(X, N, p, e, <<>>, 0)
      [] N.op = "punct" -> PunD(X, N, p, e, <<>>, 0)
      [] N.op = "sep"   -> SepD(X, N, p, e, <<>>, 0)
      [] N.op \in {"left", "right"} ->
            LET r == SepD(X, N, p, e, <<>>, 0)
            IN IF ~r.ok THEN r
               ELSE [r EXCEPT !.v = IF N.op = "left" THEN FoldLeft(r.v.c, Len(r.v.c))
                                                     ELSE FoldRight(r.v.c, 1)]
      [] N.op = "group" ->
            IF p < e /\ TT[w[p]].k = "open" /\ TT[w[p]].c = N.s
            THEN LET r == Den(X, N.a[1], p + 1, mt[p])
                 IN IF ~r.ok THEN r
                    ELSE ROk(V("group", p, mt[p], <<r.v>>), mt[p] + 1,
                             FirstOf(r.u, IF r.p < mt[p] THEN r.p ELSE 0))
            ELSE RNo(Er(X.loc, At(w, p, e), At(w, p, e), AtEnd(p, e, GroupMsg(N.s))))
      [] N.op = "empty"  -> ROk(V("empty", 0, 0, <<>>), p, 0)
      [] N.op = "eof"    ->
            IF p >= e THEN ROk(V("eof", 0, 0, <<>>), p, 0)
            ELSE RNo(Er(X.loc, p, p, "expected end of input or group, found garbage"))
      [] N.op = "fail"   -> RNo(Er(X.loc, At(w, p, e), At(w, p, e), AtEnd(p, e, N.s)))
      [] N.op = "noteof" ->
            IF p < e THEN ROk(V("noteof", 0, 0, <<>>), p, 0)
            ELSE RNo(Er(X.loc, At(w, p, e), At(w, p, e), AtEnd(p, e, "unexpected end of input")))

----------------------------------------------------------------------------
(* A complete parse: everything must have been used.                       *)

EncOpen(w, mt, p) ==        \* the innermost group around position p (0: none)
    LET S == {i \in 1..(p - 1) : TT[w[i]].k = "open" /\ mt[i] > p}
    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A k \in S : k <= i
CloseOf(c) == CASE c = "(" -> ")" [] c = "[" -> "]" [] c = "{" -> "}"
LeftOver(X, u) ==
    LET w == X.w
        o == EncOpen(w, X.mt, u)
        \* a left-over group is reported as a whole
    IN Er(X.loc, u, IF X.mt[u] > u THEN X.mt[u] ELSE u, IF o = 0 THEN "unexpected token"
                ELSE "unexpected token, expected `" \o CloseOf(TT[w[o]].c) \o "`")

Finish(X, r) ==
    IF ~r.ok THEN r
    ELSE IF r.u # 0 THEN RNo(LeftOver(X, r.u))
    ELSE IF r.p <= Len(X.w) THEN RNo(LeftOver(X, r.p))
    ELSE r

Outcome(r) == [ok |-> r.ok, v |-> r.v, er |-> r.er]
Ctx(G, w, mt, loc) == [G |-> G, w |-> w, mt |-> mt, loc |-> loc, rk |-> <<>>]
Denote(X, start) == Outcome(Finish(X, Den(X, start, 1, Len(X.w) + 1)))

----------------------------------------------------------------------------
(* Printing: the tokens of a value, as indices of the source tokens.       *)
RECURSIVE Prn(_), PrnAll(_, _)
PrnAll(c, k) == IF k > Len(c) THEN <<>> ELSE Prn(c[k]) \o PrnAll(c, k + 1)
Prn(v) == IF v.k = "tok" THEN [x \in 1..(v.j - v.i + 1) |-> v.i + x - 1]
            ELSE IF v.k = "group" THEN <<v.i>> \o PrnAll(v.c, 1) \o <<v.j>>
            ELSE PrnAll(v.c, 1)

\* partners of delimiters, for a complete input
RECURSIVE Match(_, _, _, _)
Match(w, k, open, mt) ==
    IF k > Len(w) THEN mt
    ELSE CASE TT[w[k]].k = "open"  -> Match(w, k + 1, <<k>> \o open, mt)
           [] TT[w[k]].k = "close" -> Match(w, k + 1, Tail(open),
                                            [mt EXCEPT ![Head(open)] = k, ![k] = Head(open)])
           [] OTHER -> Match(w, k + 1, open, mt)
Partners(w) == Match(w, 1, <<>>, [k \in 1..Len(w) |-> 0])
=============================================================================
