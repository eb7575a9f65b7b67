-------------------------------- MODULE Tok --------------------------------
(***************************************************************************)
(* Tokens and terminals.                                                   *)
(*                                                                         *)
(* An input is a sequence of token names; the table TT gives, for a name,  *)
(* its lexical class:                                                      *)
(*   k : "ident" (a plain word), "rkw" (a word reserved by Rust, including *)
(*       `_`, true and false), "punct" (ONE punctuation character),        *)
(*       "lit" (a literal), "open" / "close" (a delimiter)                 *)
(*   c : the spelling (for delimiters: the kind, "(", "[" or "{")          *)
(*   j : punctuation only: TRUE if immediately followed by the next one    *)
(*   l : literals only: "int", "float", "str", "char", "byte", "bstr"      *)
(*                                                                         *)
(* A terminal is a grammar node with op = "tok", s = terminal class,       *)
(* f = parameters.  MatchTok says what it accepts and, if it does not,     *)
(* which error it raises and where (i..j is a range of token indices;      *)
(* 0..0 means "no location", which is what the very end of the input has). *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANT TT      \* token table

Cat(ss) == LET RECURSIVE C(_)
               C(k) == IF k > Len(ss) THEN "" ELSE ss[k] \o C(k + 1)
           IN C(1)

Ok(len)          == [ok |-> TRUE,  len |-> len, i |-> 0, j |-> 0, msg |-> ""]
No(i, j, msg)    == [ok |-> FALSE, len |-> 0,   i |-> i, j |-> j, msg |-> msg]

\* where an error raised at position p of a stream ending before e points:
\* the token at p, else the closing delimiter, else nowhere
At(w, p, e) == IF p < e THEN p ELSE IF e > Len(w) THEN 0 ELSE e

\* errors that say so when they were raised at the end of the stream
AtEnd(p, e, msg) == IF p < e THEN msg ELSE "unexpected end of input, " \o msg

Fail(w, p, e, msg) == No(At(w, p, e), At(w, p, e), AtEnd(p, e, msg))

IsWord(t)  == TT[t].k \in {"ident", "rkw"}
IsBool(t)  == TT[t].k = "rkw" /\ TT[t].c \in {"true", "false"}
IsMinus(t) == TT[t].k = "punct" /\ TT[t].c = "-"
IsNum(t)   == TT[t].k = "lit" /\ TT[t].l \in {"int", "float"}

\* the literal at p (if any): its length in tokens and its kind
LitAt(w, p, e) ==
    IF p >= e THEN [len |-> 0, l |-> "", neg |-> FALSE]
    ELSE IF TT[w[p]].k = "lit" THEN [len |-> 1, l |-> TT[w[p]].l, neg |-> FALSE]
    ELSE IF IsBool(w[p]) THEN [len |-> 1, l |-> "bool", neg |-> FALSE]
    ELSE IF IsMinus(w[p]) /\ p + 1 < e /\ IsNum(w[p + 1])
         THEN [len |-> 2, l |-> TT[w[p + 1]].l, neg |-> TRUE]
    ELSE [len |-> 0, l |-> "", neg |-> FALSE]

LitOf(w, p, e, kind, what) ==
    LET l == LitAt(w, p, e)
    IN IF l.len > 0 /\ l.l = kind THEN Ok(l.len)
       ELSE Fail(w, p, e, "expected " \o what \o " literal")

\* the punctuation characters cs, all but the last one joint with its successor
RECURSIVE PunctAt(_, _, _, _, _)
PunctAt(cs, k, w, p, e) ==
    /\ p < e
    /\ TT[w[p]].k = "punct"
    /\ TT[w[p]].c = cs[k]
    /\ \/ k = Len(cs)
       \/ TT[w[p]].j /\ PunctAt(cs, k + 1, w, p + 1, e)

MatchTok(s, f, w, p, e) ==
    LET t == w[p] IN
    CASE s = "punct" ->
            IF PunctAt(f, 1, w, p, e) THEN Ok(Len(f))
            ELSE No(At(w, p, e), At(w, p, e), "expected `" \o Cat(f) \o "`")
      [] s = "rkw" ->          \* Token![fn], ...
            IF p < e /\ IsWord(t) /\ TT[t].c = f[1] THEN Ok(1)
            ELSE Fail(w, p, e, "expected `" \o f[1] \o "`")
      [] s = "ident" ->        \* an ordinary Rust identifier
            IF p < e /\ TT[t].k = "ident" THEN Ok(1)
            ELSE IF p < e /\ TT[t].k = "rkw"
                 THEN Fail(w, p, e, "expected identifier, found keyword `" \o TT[t].c \o "`")
            ELSE Fail(w, p, e, "expected identifier")
      [] s = "word" ->         \* any word at all
            IF p < e /\ IsWord(t) THEN Ok(1) ELSE Fail(w, p, e, "expected ident")
      [] s = "kw" ->           \* a keyword of define_keywords!
            IF p < e /\ IsWord(t)
            THEN IF TT[t].c = f[1] THEN Ok(1)
                 ELSE No(p, p, "expected keyword `" \o f[1] \o "`")
            ELSE Fail(w, p, e, "expected ident")
      [] s = "cident" ->       \* CustomIdent with the keyword list f
            IF p < e /\ IsWord(t)
            THEN IF \E k \in 1..Len(f) : f[k] = TT[t].c
                 THEN No(p, p, "expected identifier, found keyword")
                 ELSE Ok(1)
            ELSE Fail(w, p, e, "expected ident")
      [] s = "LitInt"   -> LitOf(w, p, e, "int", "integer")
      [] s = "LitUint"  ->
            LET l == LitAt(w, p, e)
            IN IF l.len > 0 /\ l.l = "int" /\ l.neg
               THEN No(p, p + 1, "invalid digit found in string")
               ELSE LitOf(w, p, e, "int", "integer")
      [] s = "LitFloat" -> LitOf(w, p, e, "float", "floating point")
      [] s = "LitStr"   -> LitOf(w, p, e, "str", "string")
      [] s = "LitChar"  -> LitOf(w, p, e, "char", "character")
      [] s = "LitByte"  -> LitOf(w, p, e, "byte", "byte")
      [] s = "LitByteStr" -> LitOf(w, p, e, "bstr", "byte string")
      [] s = "LitBool"  -> LitOf(w, p, e, "bool", "boolean")
      [] s = "Lit" ->
            LET l == LitAt(w, p, e)
            IN IF l.len > 0 THEN Ok(l.len) ELSE Fail(w, p, e, "expected literal")
=============================================================================
