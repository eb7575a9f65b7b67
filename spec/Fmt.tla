-------------------------------- MODULE Fmt --------------------------------
(***************************************************************************)
(* The formatter of token streams.                                         *)
(*                                                                         *)
(* The environment builds a token stream w (delimiters included), chooses  *)
(* a mode and the capacity of the destination (in characters; -1: it never *)
(* fails).  The machine then writes the stream atom by atom; when the      *)
(* destination is full it fails, unwinds, and - with the destination       *)
(* repaired - formats a second stream w2 with the same formatter.          *)
(*                                                                         *)
(* Layout(w, u) states declaratively what the text must be; Lex reads a    *)
(* text back.                                                              *)
(***************************************************************************)
EXTENDS Layout, TLC

CONSTANTS FS        \* families [alpha, max, units, faults]; a unit is [p |-> pretty?, s |-> unit string]

----------------------------------------------------------------------------
VARIABLES f,        \* family
          w, opn,   \* the stream and its open delimiters
          w2,       \* the stream formatted afterwards
          u,        \* mode
          cap,      \* capacity left (-1: unlimited)
          cap0,     \* capacity at the start
          ph,       \* "read", "run", "failed", "again", "done"
          cur,      \* tokens still to be written
          prev,     \* previous token ("" at the start)
          lev,      \* indentation level of the formatter
          txt,      \* what the destination has received, first run
          txt2,     \* ... second run
          err       \* did the first run fail?

vars == <<f, w, opn, w2, u, cap, cap0, ph, cur, prev, lev, txt, txt2, err>>

Init == /\ f \in 1..Len(FS)
        /\ w = <<>> /\ opn = <<>> /\ w2 = <<>>
        /\ u = [p |-> FALSE, s |-> ""] /\ cap = -1 /\ cap0 = -1
        /\ ph = "read" /\ cur = <<>> /\ prev = "" /\ lev = 0
        /\ txt = "" /\ txt2 = "" /\ err = FALSE

Last(s) == s[Len(s)]
\* in a stream read from a text, a joined character is followed by another one,
\* and a quote by a word
MayFollow(t) == w # <<>> /\ Joined(Last(w)) =>
                   IF TT[Last(w)].c = "'" THEN Cl(t) = "ident"
                   ELSE Cl(t) = "punct" /\ ~(TT[Last(w)].c = "/" /\ TT[t].c \in {"/", "*"})   \* a comment

ReadTok == /\ ph = "read" /\ Len(w) + Len(opn) < FS[f].max
           /\ \E k \in 1..Len(FS[f].alpha) :
                LET t == FS[f].alpha[k] IN
                /\ MayFollow(t)
                /\ IF IsOpen(t) \/ Veil(t)
                   THEN Len(w) + Len(opn) + 2 <= FS[f].max /\ opn' = <<IF Veil(t) THEN t ELSE TT[t].c>> \o opn
                                ELSE UNCHANGED opn
                /\ w' = Append(w, t)
           /\ UNCHANGED <<f, w2, u, cap, cap0, ph, cur, prev, lev, txt, txt2, err>>
ReadClose == /\ ph = "read" /\ opn # <<>> /\ ~(w # <<>> /\ Joined(Last(w)))
             /\ w' = Append(w, CloseOf(Head(opn))) /\ opn' = Tail(opn)
             /\ UNCHANGED <<f, w2, u, cap, cap0, ph, cur, prev, lev, txt, txt2, err>>

Start == /\ ph = "read" /\ opn = <<>> /\ ~(w # <<>> /\ Joined(Last(w)))
         /\ \E k \in 1..Len(FS[f].units) : u' = FS[f].units[k]
         /\ IF FS[f].faults THEN \E c \in -1..Len(Layout(w, u')) : cap' = c ELSE cap' = -1
         /\ cap0' = cap'
         /\ w2' \in {w} \cup (IF FS[f].faults THEN {<<"{", "a", "}">>} ELSE {})
         /\ ph' = "run" /\ cur' = w
         /\ UNCHANGED <<f, w, opn, prev, lev, txt, txt2, err>>

----------------------------------------------------------------------------
(* Writing.  Every step writes one atom s and then changes the level.      *)
Writing == ph \in {"run", "again"}
Put(s) == IF cap < 0 \/ Len(s) <= cap
          THEN /\ cap' = (IF cap < 0 THEN cap ELSE cap - Len(s))
               /\ IF ph = "run" THEN txt' = txt \o s /\ UNCHANGED txt2 ELSE txt2' = txt2 \o s /\ UNCHANGED txt
               /\ UNCHANGED <<ph, err>>
          ELSE /\ txt' = txt \o SubSeq(s, 1, cap) /\ UNCHANGED txt2
               /\ cap' = 0 /\ ph' = "failed" /\ err' = TRUE

Fixed == UNCHANGED <<f, w, opn, w2, u, cap0>>

\* the gap before the next token; marks itself done by setting prev to "gap"
WriteGap == /\ Writing /\ cur # <<>> /\ ~Veil(Head(cur)) /\ prev \notin {"", "gap"}
            /\ LET l == IF IsClose(Head(cur)) /\ ~IsOpen(prev) THEN lev - 1 ELSE lev
               IN /\ Put(Gap(prev, Head(cur), lev, u))
                  /\ lev' = IF IsOpen(prev) /\ IsClose(Head(cur)) THEN lev - 1 ELSE l
            /\ prev' = "gap"
            /\ UNCHANGED cur /\ Fixed
\* nothing is written for the ends of a group without delimiters, which leaves no trace in the layout
SkipVeil == /\ Writing /\ cur # <<>> /\ Veil(Head(cur)) /\ cur' = Tail(cur)
            /\ UNCHANGED <<ph, cap, prev, lev, txt, txt2, err>> /\ Fixed
WriteTok == /\ Writing /\ cur # <<>> /\ ~Veil(Head(cur)) /\ prev \in {"", "gap"}
            /\ Put(Txt(Head(cur)))
            /\ lev' = IF IsOpen(Head(cur)) THEN lev + 1 ELSE lev
            /\ prev' = Head(cur) /\ cur' = Tail(cur)
            /\ Fixed
\* a failure unwinds all groups: the indentation level is restored
Unwind == /\ ph = "failed" /\ ph' = "again" /\ lev' = 0 /\ cur' = w2 /\ prev' = "" /\ cap' = -1
          /\ UNCHANGED <<txt, txt2, err>> /\ Fixed
\* the stream is complete; use the same formatter once more
Repeat == /\ ph = "run" /\ cur = <<>>
          /\ ph' = "again" /\ cur' = w2 /\ prev' = "" /\ cap' = -1
          /\ UNCHANGED <<lev, txt, txt2, err>> /\ Fixed
Stop == /\ ph = "again" /\ cur = <<>> /\ ph' = "done"
        /\ UNCHANGED <<cap, cur, prev, lev, txt, txt2, err>> /\ Fixed

Step == SkipVeil \/ WriteGap \/ WriteTok \/ Unwind \/ Repeat \/ Stop
Next == ReadTok \/ ReadClose \/ Start \/ Step \/ (ph = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

----------------------------------------------------------------------------
\* the machine writes the prescribed text
LayoutExact == ph = "done" /\ ~err => txt = Layout(w, u)
\* a failing destination has received a prefix, and fails exactly when too small
PrefixOnly  == ph = "done" => LET full == Layout(w, u)
                              IN /\ err = (cap0 >= 0 /\ cap0 < Len(full))
                                 /\ txt = IF err THEN SubSeq(full, 1, cap0) ELSE full
\* the formatter is as good as new afterwards
Reusable    == ph = "done" => txt2 = Layout(w2, u) /\ lev = 0
\* the text reads back as the stream
Lossless    == ph = "done" /\ ~err => Lex(txt) = Visible(w)
Balanced    == Writing => lev >= 0
=============================================================================
