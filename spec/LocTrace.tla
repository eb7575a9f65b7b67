------------------------------ MODULE LocTrace ------------------------------
(* Validation of recordings: [parts, nodes]; parts: <<gap, token>> pairs in *)
(* the order of the text, or <<gap, token, s, n>> where the gap is that and *)
(* then n times s (very large gaps); nodes: what each node of the real tree reported,  *)
(* [i, j, br, cr, sub, fmt].                                                *)
EXTENDS Loc, Json, IOUtils
D   == JsonDeserialize(IOEnv.LOC_JSON)
BWd == D.widths
FSd == D.fams
Rec == D.recs
VARIABLES rec, k, at
tv == <<vars, rec, k, at>>
R == Rec[rec]
TInit == Init /\ f = 1 /\ rec \in 1..Len(Rec) /\ k = 0 /\ at = 0
P == R.parts[k + 1]
WriteLarge(gap, t, s, m) ==
    LET a == OverRep(Over(pos, gap), s, m)  z == Over(a, t) IN
    /\ txt' = txt \o gap \o Rep(s, m) \o t /\ pos' = z /\ toks' = Append(toks, [s |-> a, e |-> z, t |-> t]) /\ pend' = <<>>
Read == /\ k < Len(R.parts)
        /\ (IF Len(P) = 2 THEN Write(P[1], P[2], <<>>) ELSE WriteLarge(P[1], P[2], P[3], P[4]))
        /\ k' = k + 1 /\ UNCHANGED <<f, n, rec, at>>
Good(x) == Den(x.i, x.j) = [br |-> x.br, cr |-> x.cr, sub |-> x.sub, fmt |-> x.fmt]
\* the number of the first node that reports something else, or n + 1
First == LET RECURSIVE G(_)
             G(m) == IF m > Len(R.nodes) \/ ~Good(R.nodes[m]) THEN m ELSE G(m + 1)
         IN G(1)
Judge == k = Len(R.parts) /\ at = 0 /\ at' = First /\ UNCHANGED <<vars, rec, k>>
TNext == Read \/ Judge \/ (at > 0 /\ UNCHANGED tv)
TSpec == TInit /\ [][TNext]_tv
Verdict == at > 0 => PrintT("@@" \o ToJson([rec |-> rec, ok |-> (at > Len(R.nodes)), at |-> at,
                want |-> IF at > Len(R.nodes) THEN <<>> ELSE <<Den(R.nodes[at].i, R.nodes[at].j)>>]))
=============================================================================
