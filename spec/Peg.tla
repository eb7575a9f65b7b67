-------------------------------- MODULE Peg --------------------------------
(***************************************************************************)
(* The parser as a state machine.  The environment feeds the input token   *)
(* by token (phase "read"); then the machine runs one parser step per      *)
(* transition (phase "run") until it stops (phase "done").                 *)
(*                                                                         *)
(* Steps mirror the code: a production is called; terminals are matched;   *)
(* alternatives, optional prefixes, repeated items and separators run on a *)
(* FORK of the stream - its own position and its own left-over register -  *)
(* which is committed on success and dropped on failure; groups open a new *)
(* stream and, when they are left, record what was not consumed.           *)
(***************************************************************************)
EXTENDS PegDen, TLC

CONSTANTS GS           \* sequence of grammars [nodes, start, alpha, max, mmax]

VARIABLES
    g,      \* grammar index
    w,      \* input so far
    loc,    \* do the tokens carry source locations?
    mt,     \* partners of delimiters
    opn,    \* delimiters still open while reading
    ph,     \* "read", "run", "done"
    act,    \* [m |-> "call", n] | [m |-> "ok", v] | [m |-> "no", er]
    pos,    \* position in the active stream
    end,    \* end of the active stream
    reg,    \* left-over register of the active stream (0: nothing left over)
    stk,    \* suspended productions
    att,    \* number of productions attempted
    out     \* outcome

vars == <<g, w, loc, mt, opn, ph, act, pos, end, reg, stk, att, out>>

Call(n) == [m |-> "call", n |-> n, v |-> VNone, er |-> NoEr]
Yes(v)  == [m |-> "ok",   n |-> 0, v |-> v,     er |-> NoEr]
Nay(er) == [m |-> "no",   n |-> 0, v |-> VNone, er |-> er]
NoOut   == [ok |-> FALSE, v |-> VNone, er |-> NoEr]

\* n: node, k: progress, c: values so far, er: best error so far,
\* p, e, r: saved position, end and register of the suspended stream
Frame(n, k, c, er, p, e, r) ==
    [n |-> n, k |-> k, c |-> c, er |-> er, p |-> p, e |-> e, r |-> r]

Nodes == GS[g].nodes
X     == Ctx(Nodes, w, mt, loc)
N     == Nodes[act.n]
Top   == stk[Len(stk)]
TN    == Nodes[Top.n]
Pop   == SubSeq(stk, 1, Len(stk) - 1)
Push(f)   == Append(stk, f)
Repl(f)   == [stk EXCEPT ![Len(stk)] = f]

Idle == /\ act = Call(0) /\ pos = 1 /\ end = 0 /\ reg = 0 /\ stk = <<>> /\ att = 0 /\ out = NoOut

Init == /\ g \in 1..Len(GS)
        /\ w = <<>> /\ mt = <<>> /\ opn = <<>>
        /\ loc \in {TRUE} \cup (IF GS[g].unloc THEN {FALSE} ELSE {})
        /\ ph = "read"
        /\ Idle

----------------------------------------------------------------------------
(* Reading.                                                                *)
ReadTok == /\ ph = "read"
           /\ Len(w) + Len(opn) < GS[g].max
           /\ \E t \in {GS[g].alpha[k] : k \in 1..Len(GS[g].alpha)} :
                 \/ /\ TT[t].k = "open"
                    /\ Len(w) + Len(opn) + 2 <= GS[g].max
                    /\ opn' = <<Len(w) + 1>> \o opn
                    /\ w' = Append(w, t) /\ mt' = Append(mt, 0)
                 \/ /\ TT[t].k \notin {"open", "close"}
                    /\ w' = Append(w, t) /\ mt' = Append(mt, 0)
                    /\ UNCHANGED opn
           /\ UNCHANGED <<g, loc, ph, act, pos, end, reg, stk, att, out>>

ReadClose == /\ ph = "read" /\ opn # <<>>
             /\ w' = Append(w, CloseOf(TT[w[Head(opn)]].c))
             /\ mt' = Append([mt EXCEPT ![Head(opn)] = Len(w) + 1], Head(opn))
             /\ opn' = Tail(opn)
             /\ UNCHANGED <<g, loc, ph, act, pos, end, reg, stk, att, out>>

Begin == /\ ph' = "run"
         /\ act' = Call(GS[g].start)
         /\ pos' = 1 /\ end' = Len(w) + 1 /\ reg' = 0 /\ stk' = <<>> /\ att' = 0

Start == /\ ph = "read" /\ opn = <<>> /\ Len(w) <= GS[g].mmax
         /\ Begin
         /\ UNCHANGED <<g, w, loc, mt, opn, out>>

\* beyond the machine's bound only the denotation is evaluated
Jump == /\ ph = "read" /\ opn = <<>> /\ Len(w) > GS[g].mmax
        /\ ph' = "done"
        /\ out' = Denote(X, GS[g].start)
        /\ UNCHANGED <<g, w, loc, mt, opn, act, pos, end, reg, stk, att>>

----------------------------------------------------------------------------
(* Calls.                                                                  *)
Calling(op) == ph = "run" /\ act.m = "call" /\ N.op = op
Attempt == att' = att + 1
Quiet == UNCHANGED <<g, w, loc, mt, opn, ph, out>>

CallTok == /\ Calling("tok") /\ Attempt
           /\ LET m == MatchTok(N.s, N.f, w, pos, end)
              IN IF m.ok
                 THEN /\ act' = Yes(V("tok", pos, pos + m.len - 1, <<>>))
                      /\ pos' = pos + m.len
                 ELSE /\ act' = Nay(Er(loc, m.i, m.j, m.msg))
                      /\ UNCHANGED pos
           /\ UNCHANGED <<end, reg, stk>> /\ Quiet

CallMark == /\ ph = "run" /\ act.m = "call" /\ N.op \in {"empty", "eof", "noteof", "fail"} /\ Attempt
            /\ act' = IF N.op = "fail"
                      THEN Nay(Er(loc, At(w, pos, end), At(w, pos, end), AtEnd(pos, end, N.s)))
                      ELSE IF N.op = "empty" \/ (N.op = "eof") = (pos >= end)
                      THEN Yes(V(N.op, 0, 0, <<>>))
                      ELSE IF N.op = "eof"
                      THEN Nay(Er(loc, pos, pos, "expected end of input or group, found garbage"))
                      ELSE Nay(Er(loc, At(w, pos, end), At(w, pos, end),
                                  AtEnd(pos, end, "unexpected end of input")))
            /\ UNCHANGED <<pos, end, reg, stk>> /\ Quiet

CallSeq == /\ Calling("seq") /\ Attempt
           /\ IF N.a = <<>>
              THEN act' = Yes(V(KindOf(N), 0, 0, <<>>)) /\ UNCHANGED stk
              ELSE /\ stk' = Push(Frame(act.n, 1, <<>>, NoEr, 0, 0, 0))
                   /\ act' = Call(N.a[1])
           /\ UNCHANGED <<pos, end, reg>> /\ Quiet

\* open a fork for child c of the called node; the suspended stream is saved
ForkFor(c) == /\ stk' = Push(Frame(act.n, 1, <<>>, NoEr, pos, end, reg))
              /\ act' = Call(c)
              /\ reg' = 0
              /\ UNCHANGED <<pos, end>>

CallAlt == /\ Calling("alt") /\ Attempt
           /\ IF N.a = <<>>
              THEN /\ act' = Nay(Er(loc, At(w, pos, end), At(w, pos, end),
                              AtEnd(pos, end, "parsing an empty choice (enum) always fails")))
                   /\ UNCHANGED <<pos, end, reg, stk>>
              ELSE ForkFor(N.a[1])
           /\ Quiet

CallEither == Calling("either") /\ Attempt /\ ForkFor(N.a[1]) /\ Quiet
CallMaybe  == Calling("maybe")  /\ Attempt /\ ForkFor(N.a[1]) /\ Quiet
CallAny    == Calling("any")    /\ Attempt /\ ForkFor(N.a[1]) /\ Quiet

CallPunct == /\ Calling("punct") /\ Attempt
             /\ IF pos >= end
                THEN act' = Yes(V("punct", 0, 0, <<>>)) /\ UNCHANGED stk
                ELSE /\ stk' = Push(Frame(act.n, 1, <<>>, NoEr, 0, 0, 0))
                     /\ act' = Call(N.a[1])
             /\ UNCHANGED <<pos, end, reg>> /\ Quiet

CallSep == /\ ph = "run" /\ act.m = "call" /\ N.op \in {"sep", "left", "right"} /\ Attempt
           /\ stk' = Push(Frame(act.n, 1, <<>>, NoEr, 0, 0, 0))
           /\ act' = Call(N.a[1])
           /\ UNCHANGED <<pos, end, reg>> /\ Quiet

EnterGroup == /\ Calling("group") /\ Attempt
              /\ IF pos < end /\ TT[w[pos]].k = "open" /\ TT[w[pos]].c = N.s
                 THEN /\ stk' = Push(Frame(act.n, 1, <<>>, NoEr, pos, end, 0))
                      /\ act' = Call(N.a[1])
                      /\ pos' = pos + 1
                      /\ end' = mt[pos]
                      /\ UNCHANGED reg          \* same register inside the group
                 ELSE /\ act' = Nay(Er(loc, At(w, pos, end), At(w, pos, end),
                                       AtEnd(pos, end, GroupMsg(N.s))))
                      /\ UNCHANGED <<pos, end, stk, reg>>
              /\ Quiet

----------------------------------------------------------------------------
(* Returns.                                                                *)
Returned(op, m) == ph = "run" /\ act.m = m /\ stk # <<>> /\ TN.op = op
Same == UNCHANGED <<pos, end, reg>> /\ UNCHANGED att /\ Quiet

SeqNext == /\ Returned("seq", "ok")
           /\ LET c == Append(Top.c, act.v)
              IN IF Top.k = Len(TN.a)
                 THEN act' = Yes(V(KindOf(TN), 0, 0, c)) /\ stk' = Pop
                 ELSE /\ stk' = Repl([Top EXCEPT !.k = @ + 1, !.c = c])
                      /\ act' = Call(TN.a[Top.k + 1])
           /\ Same

SeqFail == /\ Returned("seq", "no")
           /\ act' = Nay(Wrap(TN, Top.k, act.er))
           /\ stk' = Pop
           /\ Same

\* advance the suspended stream to the fork: position is kept, a left-over
\* token recorded by the fork is recorded unless there was one already
Commit == reg' = (IF Top.r # 0 THEN Top.r ELSE reg) /\ UNCHANGED <<pos, end>>
\* forget the fork
Drop   == pos' = Top.p /\ end' = Top.e /\ reg' = Top.r

CommitVariant == /\ (Returned("alt", "ok") \/ Returned("either", "ok"))
                 /\ act' = Yes(IF TN.op = "alt" THEN act.v
                               ELSE V(IF Top.k = 1 THEN "L" ELSE "R", 0, 0, <<act.v>>))
                 /\ stk' = Pop
                 /\ Commit
                 /\ UNCHANGED att /\ Quiet

RejectVariant == /\ (Returned("alt", "no") \/ Returned("either", "no"))
                 /\ LET er == IF Top.k = 1 THEN act.er ELSE Furthest(X, Top.er, act.er)
                    IN IF Top.k = Len(TN.a)
                       THEN act' = Nay(er) /\ stk' = Pop /\ Drop
                       ELSE /\ act' = Call(TN.a[Top.k + 1])
                            /\ stk' = Repl([Top EXCEPT !.k = @ + 1, !.er = er])
                            /\ pos' = Top.p /\ end' = Top.e /\ reg' = 0    \* a fresh fork
                 /\ UNCHANGED att /\ Quiet

MaybeAbsent == /\ Returned("maybe", "no") /\ Top.k = 1
               /\ act' = Yes(VNone) /\ stk' = Pop /\ Drop
               /\ UNCHANGED att /\ Quiet
MaybeCommit == /\ Returned("maybe", "ok") /\ Top.k = 1
               /\ act' = Call(TN.a[2])
               /\ stk' = Repl([Top EXCEPT !.k = 2, !.c = <<act.v>>])
               /\ Commit
               /\ UNCHANGED att /\ Quiet
MaybeDone   == /\ Returned("maybe", "ok") /\ Top.k = 2
               /\ act' = Yes(V("some", 0, 0, Append(Top.c, act.v))) /\ stk' = Pop /\ Same
MaybeFail   == /\ Returned("maybe", "no") /\ Top.k = 2
               /\ act' = act /\ stk' = Pop /\ Same

AnyItem == /\ Returned("any", "ok")
           /\ act' = Call(TN.a[1])
           /\ stk' = Repl([Top EXCEPT !.c = Append(@, act.v), !.p = pos,
                                      !.r = IF @ # 0 THEN @ ELSE reg])
           /\ reg' = 0
           /\ UNCHANGED <<pos, end, att>> /\ Quiet
AnyStop == /\ Returned("any", "no")
           /\ act' = Yes(V("any", 0, 0, Top.c)) /\ stk' = Pop /\ Drop
           /\ UNCHANGED att /\ Quiet

PunctNext == /\ Returned("punct", "ok")
             /\ LET c == Append(Top.c, act.v)
                IN IF pos >= end
                   THEN act' = Yes(V("punct", 0, 0, c)) /\ stk' = Pop
                   ELSE /\ act' = Call(TN.a[3 - Top.k])
                        /\ stk' = Repl([Top EXCEPT !.k = 3 - @, !.c = c])
             /\ Same
PunctFail == Returned("punct", "no") /\ act' = act /\ stk' = Pop /\ Same

RetSep(m) == ph = "run" /\ act.m = m /\ stk # <<>> /\ TN.op \in {"sep", "left", "right"}
\* an item was parsed: try a separator on a fork
SepItem == /\ RetSep("ok") /\ Top.k = 1
           /\ act' = Call(TN.a[2])
           /\ stk' = Repl([Top EXCEPT !.k = 2, !.c = Append(@, act.v),
                                      !.p = pos, !.e = end, !.r = reg])
           /\ reg' = 0
           /\ UNCHANGED <<pos, end, att>> /\ Quiet
SepPunct == /\ RetSep("ok") /\ Top.k = 2
            /\ act' = Call(TN.a[1])
            /\ stk' = Repl([Top EXCEPT !.k = 1, !.c = Append(@, act.v)])
            /\ Commit
            /\ UNCHANGED att /\ Quiet
SepStop == /\ RetSep("no") /\ Top.k = 2
           /\ act' = Yes(CASE TN.op = "sep"   -> V("sep", 0, 0, Top.c)
                           [] TN.op = "left"  -> FoldLeft(Top.c, Len(Top.c))
                           [] TN.op = "right" -> FoldRight(Top.c, 1))
           /\ stk' = Pop /\ Drop
           /\ UNCHANGED att /\ Quiet
SepFail == RetSep("no") /\ Top.k = 1 /\ act' = act /\ stk' = Pop /\ Same

LeaveGroup == /\ Returned("group", "ok")
              /\ act' = Yes(V("group", Top.p, mt[Top.p], <<act.v>>))
              /\ stk' = Pop
              /\ pos' = mt[Top.p] + 1
              /\ end' = Top.e
              /\ reg' = (IF reg # 0 THEN reg ELSE IF pos < end THEN pos ELSE 0)
              /\ UNCHANGED att /\ Quiet
AbortGroup == /\ Returned("group", "no")
              /\ act' = act /\ stk' = Pop
              /\ pos' = mt[Top.p] + 1 /\ end' = Top.e
              /\ reg' = (IF reg # 0 THEN reg ELSE IF pos < end THEN pos ELSE 0)
              /\ UNCHANGED att /\ Quiet

Stop == /\ ph = "run" /\ act.m # "call" /\ stk = <<>>
        /\ ph' = "done"
        /\ out' = IF act.m = "no" THEN [ok |-> FALSE, v |-> VNone, er |-> act.er]
                  ELSE IF reg # 0 THEN Outcome(RNo(LeftOver(X, reg)))
                  ELSE IF pos < end THEN Outcome(RNo(LeftOver(X, pos)))
                  ELSE [ok |-> TRUE, v |-> act.v, er |-> NoEr]
        /\ UNCHANGED <<g, w, loc, mt, opn, act, pos, end, reg, stk, att>>

Step == \/ CallTok \/ CallMark \/ CallSeq \/ CallAlt \/ CallEither \/ CallMaybe \/ CallAny
        \/ CallPunct \/ CallSep \/ EnterGroup
        \/ SeqNext \/ SeqFail \/ CommitVariant \/ RejectVariant
        \/ MaybeAbsent \/ MaybeCommit \/ MaybeDone \/ MaybeFail
        \/ AnyItem \/ AnyStop \/ PunctNext \/ PunctFail
        \/ SepItem \/ SepPunct \/ SepStop \/ SepFail \/ LeaveGroup \/ AbortGroup \/ Stop

Next == ReadTok \/ ReadClose \/ Start \/ Jump \/ Step \/ (ph = "done" /\ UNCHANGED vars)

Spec == Init /\ [][Next]_vars /\ WF_vars(Step)

----------------------------------------------------------------------------
(* Properties of the model itself.                                         *)

\* the machine computes the denotation
Refines == ph = "done" => out = Denote(X, GS[g].start)

\* an accepted input is printed back, every token exactly once and in order
RoundTrip == ph = "done" /\ out.ok => Prn(out.v) = [k \in 1..Len(w) |-> k]

\* a rejected input is rejected at a token, a closing delimiter or the very end
ErrLocated == ph = "done" /\ ~out.ok => out.er.i \in 0..Len(w) /\ out.er.j \in out.er.i..Len(w)

\* a fork stays inside the stream it was forked from and never runs behind it
IsFork(F) == LET op == Nodes[F.n].op
             IN op \in {"alt", "either", "any"} \/ (op = "maybe" /\ F.k = 1)
                \/ (op \in {"sep", "left", "right"} /\ F.k = 2)
ForkIntact == ph = "run" =>
    \A k \in 1..Len(stk) :
        LET inner == {x \in (k + 1)..Len(stk) : Nodes[stk[x].n].op = "group"}
        IN IsFork(stk[k]) =>
             IF inner = {} THEN stk[k].p <= pos /\ stk[k].e = end
             ELSE stk[k].p <= pos /\ end <= stk[k].e

\* a stream is never read beyond its end
InStream == ph = "run" => pos <= end /\ end <= Len(w) + 1

\* a parser that has begun comes to an end
Terminates == (ph = "run") ~> (ph = "done")
=============================================================================
