----------------------------- MODULE ContTrace ------------------------------
(* Validation of recorded histories of the real containers.  A recording is *)
(* [kind, steps]; a step is [op, r, see]: the operation, its result, and    *)
(* everything the accessors showed afterwards as <<view, value>> pairs.     *)
EXTENDS Cont, Json, IOUtils
D   == JsonDeserialize(IOEnv.CONT_JSON)
FSd == D.fams
Rec == D.recs
VARIABLES rec, k, bad
tv == <<vars, rec, k, bad>>
R == Rec[rec]
Fits(out, st) == out.r = st.r /\ LET ob == Obs(R.kind, out.xs) IN \A i \in 1..Len(st.see) : ob[st.see[i][1]] = st.see[i][2]
TInit == f = 1 /\ xs = <<>> /\ nx = 1 /\ hist = <<>> /\ rec \in 1..Len(Rec) /\ k = 0 /\ bad = FALSE
Outs(st) == IF k = 0 THEN Make(R.kind, nx, st.op) ELSE Outcomes(R.kind, xs, nx, st.op)
TStep == /\ k < Len(R.steps) /\ ~bad
         /\ LET st == R.steps[k + 1]  fit == {o \in Outs(st) : Fits(o, st)} IN
            IF fit = {} THEN bad' = TRUE /\ UNCHANGED <<xs, nx, k>>
            ELSE \E o \in fit : xs' = o.xs /\ nx' = o.n /\ k' = k + 1 /\ bad' = FALSE
         /\ UNCHANGED <<f, hist, rec>>
Over == bad \/ k = Len(R.steps)
TNext == TStep \/ (Over /\ UNCHANGED tv)
TSpec == TInit /\ [][TNext]_tv
Safe == k > 0 => Valid(R.kind, xs)
Verdict == Over => PrintT("@@" \o ToJson([rec |-> rec, ok |-> ~bad, at |-> k + 1,
                 want |-> IF bad THEN {[r |-> o.r, obs |-> Obs(R.kind, o.xs)] : o \in Outs(R.steps[k + 1])} ELSE {}]))
=============================================================================
