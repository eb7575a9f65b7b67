------------------------------ MODULE TwoTrace ------------------------------
(* Validation of recorded histories of real two-way values: [kind, start,  *)
(* steps], a step being [op, r, see] (see ContTrace).                      *)
EXTENDS Two, Json, IOUtils
D   == JsonDeserialize(IOEnv.TWO_JSON)
FSd == D.fams
Rec == D.recs
VARIABLES rec, k, bad
tv == <<vars, rec, k, bad>>
R == Rec[rec]
TInit == /\ f = 1 /\ hist = <<>> /\ rec \in 1..Len(Rec) /\ k = 0 /\ bad = FALSE
         /\ start = Rec[rec].start /\ h = Rec[rec].start.h
         /\ st = S(Rec[rec].start.side, TypeAt(Rec[rec].start.side), Rec[rec].start.xs)
Fits(out, s) == (s.op.o # "flip" => out.r = s.r) /\ LET ob == Obs(R.kind, out.st, h) IN \A i \in 1..Len(s.see) : ob[s.see[i][1]] = s.see[i][2]
TStep == /\ k < Len(R.steps) /\ ~bad
         /\ LET s == R.steps[k + 1]  out == Apply(R.kind, st, h, s.op, 10 * (k + 1)) IN
            IF Fits(out, s) THEN st' = out.st /\ k' = k + 1 /\ bad' = FALSE ELSE bad' = TRUE /\ UNCHANGED <<st, k>>
         /\ UNCHANGED <<f, h, start, hist, rec>>
Over == bad \/ k = Len(R.steps)
TNext == TStep \/ (Over /\ UNCHANGED tv)
TSpec == TInit /\ [][TNext]_tv
Verdict == Over => PrintT("@@" \o ToJson([rec |-> rec, ok |-> ~bad, at |-> k + 1, want |->
              IF bad THEN LET o == Apply(R.kind, st, h, R.steps[k + 1].op, 10 * (k + 1)) IN <<o.r, Obs(R.kind, o.st, h)>> ELSE <<>>]))
=============================================================================
