------------------------------ MODULE LitTrace ------------------------------
(* Validation of printed values, recordings [k = "value", txt, vals]: the  *)
(* text printed for a value is read by the machine; it must be one literal  *)
(* of that kind with that value (floats: the decimal it denotes is handed   *)
(* out). A second kind of recording is a run of characters all printed in   *)
(* the same manner, [k = "run", ctx, form, lo, hi]. Of a stream of literals *)
(* [k = "lits", txt] everything that was read is handed out.                *)
EXTENDS Lit, Json, IOUtils
D   == JsonDeserialize(IOEnv.LIT_JSON)
FSd == D.fams
Rec == D.recs
VARIABLE rec
R == Rec[rec]
IsRun == R.k = "run"
TInit == /\ rec \in 1..Len(Rec) /\ f = 1 /\ txt = (IF Rec[rec].k = "run" THEN <<>> ELSE Rec[rec].txt) /\ n = 0 /\ mode = "gap" /\ p = 1 /\ tk = NoTk /\ items = <<>>
TNext == (Read /\ UNCHANGED rec) \/ (mode \in {"done", "dead", "unclear"} /\ UNCHANGED <<vars, rec>>)
TSpec == TInit /\ [][TNext]_<<vars, rec>>
\* characters which cannot stand for themselves
Special == IF R.ctx = "char" THEN {SQ, Back, LF, CR, Tab} ELSE {DQ, Back, CR}
RunGood == CASE R.form = "plain" -> \A c \in Special : ~Between(c, R.lo, R.hi)
             [] R.form = "unicode" -> TRUE
             [] OTHER -> FALSE
Reads == /\ mode = "done" /\ Len(items) = Len(R.vals)
         /\ \A i \in 1..Len(items) : LET it == items[i] v == R.vals[i] IN
              /\ it.kind = v.kind
              /\ it.kind # "float" => it.val = v.val /\ (it.val # <<>> \/ it.kind # "int" => it.neg = v.neg)
Good == IF R.k = "run" THEN RunGood ELSE IF R.k = "value" THEN Reads ELSE TRUE
\* what tokenisers merely let pass is not to be printed
Verdict == mode \in {"done", "dead"} \/ (mode = "unclear" /\ R.k = "value") => PrintT("@@" \o ToJson([rec |-> rec, ok |-> Good, dead |-> mode = "dead", 
                                       items |-> [i \in 1..Len(items) |-> LET it == items[i] IN
                                          [from |-> it.from, to |-> it.to, kind |-> it.kind, neg |-> it.neg, val |-> it.val, e |-> it.e, v |-> Variant(it), as |-> As("Lit", it)]]]))
=============================================================================
