----------------------------- MODULE WordsTrace -----------------------------
(* Validation of recordings [l, w, cls, ok, at]: the stream, the class of   *)
(* every item the real types recognised (all types of the list together,    *)
(* identifiers last), whether the whole stream was taken, and the token at  *)
(* which the error, if any, was reported.                                   *)
EXTENDS Words, Json, IOUtils
D   == JsonDeserialize(IOEnv.WORDS_JSON)
TTd == D.toks
LSd == D.lists
FSd == D.fams
Rec == D.recs
VARIABLE rec
TInit == /\ rec \in 1..Len(Rec) /\ f = 1 /\ l = Rec[rec].l /\ ty = 0 /\ w = Rec[rec].w /\ ph = "class" /\ pos = 1 /\ cls = <<>>
TNext == ((Classify \/ End) /\ UNCHANGED rec) \/ (ph = "done" /\ UNCHANGED <<vars, rec>>)
TSpec == TInit /\ [][TNext]_<<vars, rec>>
R == Rec[rec]
Stops == LET RECURSIVE S(_)
             S(i) == IF i > Len(cls) THEN i ELSE IF cls[i] = -1 THEN i ELSE S(i + 1)
         IN S(1)
Good == /\ R.ok = (Stops > Len(w))
        /\ R.ok => R.cls = cls
        /\ ~R.ok => R.at = Stops
Verdict == ph = "done" => PrintT("@@" \o ToJson([rec |-> rec, ok |-> Good, cls |-> cls, stops |-> Stops]))
=============================================================================
