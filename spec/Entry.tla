------------------------------- MODULE Entry -------------------------------
(***************************************************************************)
(* The textual entry points: from a text to a node and back.               *)
(*                                                                         *)
(* The environment writes a text, token by token; it may contain something *)
(* that is no token at all (class "bad": an unterminated string, a stray   *)
(* delimiter, ...).  Whatever the route - a conversion of the string, the  *)
(* parse functions, or tokenising first and parsing the tokens - the text  *)
(* is tokenised, its tokens are parsed (PegDen) and all of them must be    *)
(* used.  A node is then shown in the pretty and in the compact form: the  *)
(* layout (Layout) of the tokens it prints.                                *)
(***************************************************************************)
EXTENDS PegDen, TLC

CONSTANTS CC,       \* character classes (see Layout)
          GS        \* families [nodes, start, alpha, max]

L == INSTANCE Layout

Pretty  == [p |-> TRUE,  s |-> "    "]
Compact == [p |-> FALSE, s |-> ""]

VARIABLES g, w, opn, bad, ph, out, show
vars == <<g, w, opn, bad, ph, out, show>>

\* the tokens a value prints, by name: the characters of an operator are joined
\* to one another, the last one to nothing.  TT[t].b is the name of t on its
\* own and TT[t].jn its name when joined to what follows
RECURSIVE Names(_, _), NamesAll(_, _, _)
NamesAll(s, c, k) == IF k > Len(c) THEN <<>> ELSE Names(s, c[k]) \o NamesAll(s, c, k + 1)
Names(s, v) ==
    IF v.k = "tok"
    THEN [x \in 1..(v.j - v.i + 1) |-> LET t == s[v.i + x - 1] IN IF v.i + x - 1 = v.j THEN TT[t].b ELSE TT[t].jn]
    ELSE IF v.k = "group" THEN <<s[v.i]>> \o NamesAll(s, v.c, 1) \o <<s[v.j]>>
    ELSE NamesAll(s, v.c, 1)

NoOut  == [ok |-> FALSE, v |-> VNone, er |-> NoEr]
NoShow == [pretty |-> "", compact |-> ""]
Read(s)    == Denote(Ctx(GS[g].nodes, s, Partners(s), TRUE), GS[g].start)
Shown(s, o) == [pretty |-> L!Layout(Names(s, o.v), Pretty), compact |-> L!Layout(Names(s, o.v), Compact)]

Init == /\ g \in 1..Len(GS) /\ w = <<>> /\ opn = <<>> /\ bad = FALSE
        /\ ph = "write" /\ out = NoOut /\ show = NoShow

\* a joined character needs another one behind it
Loose == IF w = <<>> THEN TRUE ELSE ~(TT[w[Len(w)]].k = "punct" /\ TT[w[Len(w)]].j)
Write == /\ ph = "write" /\ Len(w) + Len(opn) < GS[g].max
         /\ \E t \in {GS[g].alpha[k] : k \in 1..Len(GS[g].alpha)} :
              /\ IF Loose THEN TRUE ELSE TT[t].k = "punct"
              /\ ~(TT[t].k = "bad" /\ bad)
              /\ (IF TT[t].k = "open" THEN 2 ELSE 1) + Len(w) + Len(opn) <= GS[g].max
              /\ bad' = (bad \/ TT[t].k = "bad")
              /\ opn' = IF TT[t].k = "open" THEN <<TT[t].c>> \o opn ELSE opn
              /\ w' = Append(w, t)
         /\ UNCHANGED <<g, ph, out, show>>
Close == /\ ph = "write" /\ opn # <<>> /\ Loose
         /\ w' = Append(w, CloseOf(Head(opn))) /\ opn' = Tail(opn)
         /\ UNCHANGED <<g, bad, ph, out, show>>
Enter == /\ ph = "write" /\ opn = <<>> /\ Loose
         /\ ph' = (IF bad THEN "done" ELSE "read")
         /\ out' = IF bad THEN NoOut ELSE Read(w)
         /\ UNCHANGED <<g, w, opn, bad, show>>
Show  == /\ ph = "read" /\ ph' = "done"
         /\ show' = IF out.ok THEN Shown(w, out) ELSE NoShow
         /\ UNCHANGED <<g, w, opn, bad, out>>
Next == Write \/ Close \/ Enter \/ Show \/ (ph = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* a text with something that is no token is never accepted
OnlyTokens == ph = "done" /\ bad => ~out.ok
\* what is shown is a text again; its tokens are those of the node, and reading
\* it gives an equal node
RECURSIVE Shape(_, _)
Shape(s, v) == [k |-> v.k, t |-> IF v.k \in {"tok", "group"} THEN [x \in 1..2 |-> TT[s[IF x = 1 THEN v.i ELSE v.j]].b] ELSE <<>>,
                c |-> [x \in 1..Len(v.c) |-> Shape(s, v.c[x])]]
Again(text) == LET s == L!Lex(text)
                   o == Read(s)
               IN /\ s = Names(w, out.v)
                  /\ o.ok /\ Shape(s, o.v) = Shape(w, out.v)
                  /\ Shown(s, o) = show
Rereads == ph = "done" /\ out.ok => Again(show.pretty) /\ Again(show.compact)
=============================================================================
