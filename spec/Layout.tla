------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* How a token stream is written, and how a text is read back.             *)
(*                                                                         *)
(* Layout(w, u): the text of the stream w in mode u = [p, s]: p is TRUE    *)
(* for the pretty form, which indents with the string s.                   *)
(* Lex(s): the tokens of the text s, punctuation marked ~ where it is      *)
(* immediately followed by more of it.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS TT,       \* token table (see Tok) with x = the text of the token
          CC        \* class of a character: id, dig, ws, op, open, close, dq, sq, bs

Cl(t)      == TT[t].k
IsOpen(t)  == Cl(t) = "open"
IsClose(t) == Cl(t) = "close"
Joined(t)  == Cl(t) = "punct" /\ TT[t].j
Txt(t)     == TT[t].x
Breaks(t)  == Cl(t) = "punct" /\ ~TT[t].j /\ TT[t].c \in {",", ";"}
CloseOf(c) == CASE c = "(" -> ")" [] c = "[" -> "]" [] c = "{" -> "}" [] c = "!(" -> "!)"
Veil(t)    == Cl(t) = "veil"        \* an end of a group without delimiters
\* what can be seen of a stream: groups without delimiters are their content
Visible(w) == SelectSeq(w, LAMBDA t : ~Veil(t))

RECURSIVE Times(_, _)
Times(s, n) == IF n = 0 THEN "" ELSE s \o Times(s, n - 1)

----------------------------------------------------------------------------
(* What the text must be: the tokens, and between two neighbours a gap     *)
(* which depends on these neighbours and on the nesting level only.        *)
Break(u, lev, compact) == IF u.p THEN "\n" \o Times(u.s, lev) ELSE compact

Gap(a, b, lev, u) ==      \* lev: nesting level after a
    CASE IsOpen(a) /\ IsClose(b) -> ""
      [] IsOpen(a)  -> Break(u, lev, "")
      [] IsClose(b) -> Break(u, lev - 1, "")
      [] IsClose(a) -> Break(u, lev, " ")
      [] Breaks(a)  -> Break(u, lev, " ")
      [] Joined(a)  -> ""
      [] OTHER      -> " "

RECURSIVE LayFrom(_, _, _, _)
LayFrom(w, k, lev, u) ==
    IF k > Len(w) THEN ""
    ELSE LET l == lev + (IF IsOpen(w[k]) THEN 1 ELSE IF IsClose(w[k]) THEN -1 ELSE 0)
         IN Txt(w[k]) \o (IF k = Len(w) THEN "" ELSE Gap(w[k], w[k + 1], l, u)) \o LayFrom(w, k + 1, l, u)
Layout(w, u) == LayFrom(Visible(w), 1, 0, u)

----------------------------------------------------------------------------
(* Reading a text.                                                         *)
Ch(s, i)    == SubSeq(s, i, i)
Class(s, i) == IF i > Len(s) THEN "end" ELSE CC[Ch(s, i)]
IdCh(s, i)  == Class(s, i) \in {"id", "dig"}
\* an operator character that does not start a comment
OpCh(s, i)  == Class(s, i) = "sq" \/
               (Class(s, i) = "op" /\ ~(Ch(s, i) = "/" /\ i < Len(s) /\ Ch(s, i + 1) \in {"/", "*"}))

RECURSIVE EndWord(_, _), EndNum(_, _), EndQuote(_, _, _), EndRaw(_, _, _), Hashes(_, _), LexFrom(_, _)
EndWord(s, i)     == IF IdCh(s, i) THEN EndWord(s, i + 1) ELSE i
Radix(s, i)       == Ch(s, i) = "0" /\ i < Len(s) /\ Ch(s, i + 1) \in {"x", "o", "b"}
\* digits and letters, one point (before a digit, or before nothing that it could belong to), a sign in the exponent
EndNum(s, i)      == IF IdCh(s, i)
                     THEN IF i + 1 < Len(s) /\ Ch(s, i) \in {"e", "E"} /\ Ch(s, i + 1) \in {"+", "-"} /\ Class(s, i + 2) = "dig"
                          THEN EndNum(s, i + 2) ELSE EndNum(s, i + 1)
                     ELSE IF Class(s, i) # "end" /\ Ch(s, i) = "."
                             /\ (Class(s, i + 1) = "dig" \/ Class(s, i + 1) \in {"end", "ws", "open", "close", "dq", "sq"})
                     THEN EndNum(s, i + 1) ELSE i
EndQuote(s, i, q) == IF Class(s, i) = "end" THEN i ELSE IF Class(s, i) = q THEN EndWord(s, i + 1)
                     ELSE IF Class(s, i) = "bs" THEN EndQuote(s, i + 2, q) ELSE EndQuote(s, i + 1, q)
Hashes(s, i)      == IF Class(s, i) # "end" /\ Ch(s, i) = "#" THEN 1 + Hashes(s, i + 1) ELSE 0
\* behind a raw string of n hashes
EndRaw(s, i, n)   == IF Class(s, i) = "end" THEN i
                     ELSE IF Class(s, i) = "dq" /\ Hashes(s, i + 1) >= n THEN EndWord(s, i + 1 + n) ELSE EndRaw(s, i + 1, n)

LexFrom(s, i) ==
    LET c    == Class(s, i)
        Take(j) == <<SubSeq(s, i, j - 1)>> \o LexFrom(s, j)
    IN CASE c = "end" -> <<>>
         [] c = "ws"  -> LexFrom(s, i + 1)
         [] c \in {"open", "close"} -> Take(i + 1)
         [] c = "id" ->
              LET j == EndWord(s, i)
                  p == SubSeq(s, i, j - 1)
                  h == Hashes(s, j)
              IN IF p \in {"r", "br", "cr"} /\ Class(s, j + h) = "dq" THEN Take(EndRaw(s, j + h + 1, h))
                 ELSE IF p = "r" /\ h = 1 /\ Class(s, j + 1) = "id" THEN Take(EndWord(s, j + 1))
                 ELSE IF p \in {"b", "c"} /\ Class(s, j) = "dq" THEN Take(EndQuote(s, j + 1, "dq"))
                 ELSE IF p = "b" /\ Class(s, j) = "sq" THEN Take(EndQuote(s, j + 1, "sq"))
                 ELSE Take(j)
         [] c = "dig" -> Take(IF Radix(s, i) THEN EndWord(s, i) ELSE EndNum(s, i))
         [] c = "dq"  -> Take(EndQuote(s, i + 1, "dq"))
         [] c = "sq" /\ (Class(s, i + 1) = "bs" \/ Class(s, i + 2) = "sq") -> Take(EndQuote(s, i + 1, "sq"))
         [] c = "sq" -> <<IF Class(s, i + 1) = "id" THEN "'~" ELSE "'?">> \o LexFrom(s, i + 1)
         [] c = "op" -> <<Ch(s, i) \o (IF OpCh(s, i + 1) THEN "~" ELSE "")>> \o LexFrom(s, i + 1)
Lex(s) == LexFrom(s, 1)

=============================================================================
