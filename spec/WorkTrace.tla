----------------------------- MODULE WorkTrace ------------------------------
(* Recordings of the real parser: [g, w, ok, tries, at].  tries is how many *)
(* terminals it tried, at[p] how many at place p.  The machine is run on    *)
(* the same input; the real parser may try a little more than it has to,    *)
(* but not a multiple that grows.                                           *)
(* Recordings of long flat inputs have sum = TRUE: they are [g, n, tries,   *)
(* per, depth, depth0, kb]: n tokens, at most per tries at one place, stack  *)
(* bytes used at a terminal now and on a short input, kilobytes of memory   *)
(* requested.                                                               *)
EXTENDS Work, Json, IOUtils, FiniteSets
D   == JsonDeserialize(IOEnv.PEG_JSON)
TTd == D.toks
GSd == D.grams
Rec == D.recs
VARIABLE rec
R == Rec[rec]
Factor == D.factor
TInit == /\ rec \in 1..Len(Rec) /\ g = Rec[rec].g
         /\ w = (IF Rec[rec].sum THEN <<>> ELSE Rec[rec].w)
         /\ mt = Partners(w) /\ loc = TRUE /\ opn = <<>> /\ ph = "read" /\ Idle
         /\ tried = <<>> /\ deep = 0
TStart == ph = "read" /\ ~R.sum /\ Begin /\ UNCHANGED <<g, w, loc, mt, opn, out>> /\ Count
TSkip  == ph = "read" /\ R.sum /\ ph' = "done" /\ UNCHANGED <<g, w, loc, mt, opn, act, pos, end, reg, stk, att, out, tried, deep>>
TNext == (TStart \/ TSkip \/ WStep \/ (ph = "done" /\ UNCHANGED wv)) /\ UNCHANGED rec
TSpec == TInit /\ [][TNext]_<<wv, rec>>

Small == /\ R.ok = out.ok
         /\ R.tries <= Factor * TriesAt(0) + 16
         /\ \A p \in 1..Len(R.at) : R.at[p] <= Factor * TriesAt(p) + Factor
T == Cardinality(Terminals)
Big   == /\ R.tries <= Factor * T * (R.n + 1)
         /\ R.per <= Factor * T
         /\ R.depth <= R.depth0 + D.slack
         /\ R.kb <= D.kb * (R.n + 1)
Good == IF R.sum THEN Big ELSE Small
Verdict == ph = "done" => PrintT("@@" \o ToJson([rec |-> rec, ok |-> Good,
     want |-> IF R.sum THEN <<Factor * T * (R.n + 1), Factor * T, R.depth0 + D.slack, D.kb * (R.n + 1)>> ELSE <<TriesAt(0)>> \o [p \in 1..(Len(w) + 1) |-> TriesAt(p)]]))
=============================================================================
