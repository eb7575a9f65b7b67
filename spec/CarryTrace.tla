----------------------------- MODULE CarryTrace -----------------------------
(* Validation of recorded histories of real values: [v, away, steps], a    *)
(* step being [op, ok, at, obs].                                                *)
EXTENDS Carry, Json, IOUtils
D   == JsonDeserialize(IOEnv.CARRY_JSON)
VSd == D.vs
LSd == {D.ls[i] : i \in 1..Len(D.ls)}
DSd == {"(", "[", "{"}
MGd == [v \in DOMAIN D.vs |-> 40]
Rec == D.recs
VARIABLES rec, k, bad
tv == <<vars, rec, k, bad>>
TInit == /\ rec \in 1..Len(Rec) /\ k = 0 /\ bad = FALSE
         /\ away = Rec[rec].away /\ st = (IF away THEN Away(Rec[rec].v) ELSE Start(Rec[rec].v, 1)) /\ prev = <<>> /\ op = None /\ hist = <<>>
TStep == /\ k < Len(Rec[rec].steps) /\ ~bad
         /\ LET s == Rec[rec].steps[k + 1]  out == Apply(st, s.op) IN
            IF Can(st, s.op) /\ out.ok = s.ok /\ out.at = s.at /\ Obs(out.st) = s.obs
            THEN st' = out.st /\ k' = k + 1 /\ bad' = FALSE ELSE bad' = TRUE /\ UNCHANGED <<st, k>>
         /\ UNCHANGED <<prev, op, hist, away, rec>>
Over == bad \/ k = Len(Rec[rec].steps)
TNext == TStep \/ (Over /\ UNCHANGED tv)
TSpec == TInit /\ [][TNext]_tv
Verdict == Over => PrintT("@@" \o ToJson([rec |-> rec, ok |-> ~bad, at |-> k + 1,
              want |-> IF bad THEN (IF Can(st, Rec[rec].steps[k + 1].op) THEN LET o == Apply(st, Rec[rec].steps[k + 1].op) IN <<o.ok, o.at, Obs(o.st)>> ELSE <<"not possible">>) ELSE <<>>]))
=============================================================================
