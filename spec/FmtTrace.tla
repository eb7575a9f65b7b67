------------------------------ MODULE FmtTrace ------------------------------
(* Validation of recordings of the real formatter.  A recording is          *)
(* [w, u, ev, err, after, txt2, full, see]: the stream, the mode, pieces the*)
(* destination was given in order (the last one, if err, was refused), the  *)
(* result, how often the destination was called after it had failed, and    *)
(* the text the same formatter produced for w afterwards.                   *)
EXTENDS Fmt, Json, IOUtils
D   == JsonDeserialize(IOEnv.FMT_JSON)
TTd == D.toks
CCd == D.chars
FSd == D.fams
Rec == D.recs

VARIABLES rec, k, ok
tv == <<vars, rec, k, ok>>
R == Rec[rec]
\* txt2 holds the text that is expected: faults are judged against the
\* fault-free output of a fresh formatter
Full == txt2

TInit == /\ rec \in 1..Len(Rec) /\ k = 0 /\ ok = TRUE
         /\ f = 1 /\ w = Rec[rec].w /\ u = Rec[rec].u /\ opn = <<>> /\ w2 = w
         /\ cap = -1 /\ cap0 = -1 /\ ph = "run" /\ cur = <<>> /\ prev = "" /\ lev = 0
         /\ txt = "" /\ err = FALSE
         /\ txt2 = (IF R.see = "fault" THEN R.full ELSE IF R.see = "lex" THEN "" ELSE Layout(R.w, R.u))
\* the destination accepts the next piece
Piece == /\ ph = "run" /\ ok /\ k < Len(R.ev)
         /\ k' = k + 1 /\ txt' = txt \o R.ev[k + 1]
         /\ ok' = (R.see = "lex" \/ (Len(txt') <= Len(Full) /\ SubSeq(Full, Len(txt) + 1, Len(txt')) = R.ev[k + 1]))
         /\ UNCHANGED <<f, w, opn, w2, u, cap, cap0, ph, cur, prev, lev, txt2, err, rec>>
Last2 == IF R.see = "lex" THEN Lex(txt) = Visible(R.w) /\ Lex(R.txt2) = Visible(R.w)
         ELSE IF R.see = "fault" THEN R.after = 0 /\ R.txt2 = Full /\ (R.err \/ txt = Full) /\ (R.refused = R.err)
         ELSE txt = Full /\ R.txt2 = Full
End == /\ ph = "run" /\ (~ok \/ k = Len(R.ev))
       /\ ph' = "done" /\ ok' = (ok /\ Last2)
       /\ UNCHANGED <<f, w, opn, w2, u, cap, cap0, cur, prev, lev, txt, txt2, err, rec, k>>
TNext == Piece \/ End \/ (ph = "done" /\ UNCHANGED tv)
TSpec == TInit /\ [][TNext]_tv
Verdict == ph = "done" => PrintT("@@" \o ToJson([rec |-> rec, ok |-> ok, want |-> IF ok THEN "" ELSE Full]))
=============================================================================
