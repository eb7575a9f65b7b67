----------------------------- MODULE EntryTrace -----------------------------
(* Recordings of long texts: [g, w, pretty, compact] is what the real node *)
(* showed after the text of the tokens w was read.                         *)
EXTENDS Entry, Json, IOUtils
D   == JsonDeserialize(IOEnv.ENT_JSON)
TTd == D.toks
CCd == D.chars
GSd == D.grams
Rec == D.recs
VARIABLE rec
TInit == /\ rec \in 1..Len(Rec) /\ g = Rec[rec].g /\ w = Rec[rec].w /\ opn = <<>> /\ bad = FALSE
         /\ ph = "write" /\ out = NoOut /\ show = NoShow
TNext == (Enter \/ Show \/ (ph = "done" /\ UNCHANGED vars)) /\ UNCHANGED rec
TSpec == TInit /\ [][TNext]_<<vars, rec>>
Same == out.ok /\ show.pretty = Rec[rec].pretty /\ show.compact = Rec[rec].compact
Verdict == ph = "done" => PrintT("@@" \o ToJson([rec |-> rec, ok |-> Same, want |-> IF Same THEN NoShow ELSE show]))
=============================================================================
