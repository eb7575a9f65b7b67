-------------------------------- MODULE Loc ---------------------------------
(***************************************************************************)
(* Source locations.  A text is written piece by piece: gaps (white space, *)
(* comments) and tokens; the machine keeps the position it has reached, in *)
(* characters, bytes, lines and columns.  A node covering the tokens i..j  *)
(* denotes the text from the start of token i to the end of token j.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS BW,        \* width in bytes of the characters that take more than one
          FS         \* families [items, gaps, heads, max]: an item is a sequence of tokens

Ch(s, i)  == SubSeq(s, i, i)
Width(c)  == IF c \in DOMAIN BW THEN BW[c] ELSE 1
Zero      == [c |-> 0, b |-> 0, l |-> 1, k |-> 0]
After(p, c) == [c |-> p.c + 1, b |-> p.b + Width(c),
                l |-> IF c = "\n" THEN p.l + 1 ELSE p.l, k |-> IF c = "\n" THEN 0 ELSE p.k + 1]
RECURSIVE Walk(_, _, _)
Walk(p, s, i) == IF i > Len(s) THEN p ELSE Walk(After(p, Ch(s, i)), s, i + 1)
Over(p, s) == Walk(p, s, 1)
\* n times the same text, without walking through all of it
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN "" ELSE IF n = 1 THEN s ELSE LET h == Rep(s, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o s
OverRep(p, s, n) == LET d == Over(Zero, s) IN
    IF n = 0 THEN p ELSE [c |-> p.c + n * d.c, b |-> p.b + n * d.b, l |-> p.l + n * (d.l - 1), k |-> IF d.l = 1 THEN p.k + n * d.k ELSE d.k]
ASSUME \A s \in {"", "a", "\n", "a\n", "\na", "a\nb\n", "\r\n"}, n \in 0..5, t \in {"", "xy", "x\ny"} :
          LET p == Over(Zero, t) IN OverRep(p, s, n) = Over(p, Rep(s, n))

VARIABLES f, txt, pos, toks, pend, n
vars == <<f, txt, pos, toks, pend, n>>
Fam == FS[f]

\* a text may start with a byte order mark, which is a character like any other
Init == f \in 1..Len(FS) /\ (\E i \in 1..Len(FS[f].heads) : txt = FS[f].heads[i] /\ pos = Over(Zero, txt)) /\ toks = <<>> /\ pend = <<>> /\ n = 0
\* a gap, then the next token
Write(gap, t, rest) ==
    LET a == Over(pos, gap)  z == Over(a, t) IN
    /\ txt' = txt \o gap \o t /\ pos' = z
    /\ toks' = Append(toks, [s |-> a, e |-> z, t |-> t]) /\ pend' = rest
\* some neighbours need something between them
Tight(t) == t \in {"(", ")", "[", "]", "{", "}", ",", ";"}
GapOk(gap, t) == IF gap # "" \/ toks = <<>> THEN TRUE ELSE Tight(t) \/ Tight(toks[Len(toks)].t)
Put == \E g \in 1..Len(Fam.gaps) :
          \/ /\ pend # <<>> /\ GapOk(Fam.gaps[g], Head(pend)) /\ Write(Fam.gaps[g], Head(pend), Tail(pend)) /\ UNCHANGED n
          \/ /\ pend = <<>> /\ n < Fam.max
             /\ \E i \in 1..Len(Fam.items) :
                   GapOk(Fam.gaps[g], Head(Fam.items[i])) /\ Write(Fam.gaps[g], Head(Fam.items[i]), Tail(Fam.items[i]))
             /\ n' = n + 1
Next == Put /\ UNCHANGED f
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
(* what a node covering the tokens i..j must report *)
Num(x) == ToString(x)
Den(i, j) ==
    LET a == toks[i].s  z == toks[j].e IN
    [br |-> <<a.b, z.b>>, cr |-> <<a.c, z.c>>, sub |-> SubSeq(txt, a.c + 1, z.c),
     fmt |-> Num(a.l) \o ":" \o Num(a.k + 1) \o ".." \o Num(z.l) \o ":" \o Num(z.k)]

----------------------------------------------------------------------------
(* the same, said without a machine: a position is determined by the text  *)
(* before it                                                               *)
Newlines(c)  == {i \in 1..c : Ch(txt, i) = "\n"}
LastNl(c)    == IF Newlines(c) = {} THEN 0 ELSE CHOOSE i \in Newlines(c) : \A j \in Newlines(c) : j <= i
Extra(c)     == LET RECURSIVE S(_)
                    S(i) == IF i = 0 THEN 0 ELSE Width(Ch(txt, i)) - 1 + S(i - 1)
                IN S(c)
Card(S)      == LET RECURSIVE N(_)
                    N(T) == IF T = {} THEN 0 ELSE 1 + N(T \ {CHOOSE x \in T : TRUE})
                IN N(S)
Right(p) == p.l = 1 + Card(Newlines(p.c)) /\ p.k = p.c - LastNl(p.c) /\ p.b = p.c + Extra(p.c)
Positions == \A i \in 1..Len(toks) : Right(toks[i].s) /\ Right(toks[i].e) /\ SubSeq(txt, toks[i].s.c + 1, toks[i].e.c) = toks[i].t
=============================================================================
