-------------------------------- MODULE Lit ---------------------------------
(***************************************************************************)
(* Literals: how they are spelled, and what they denote.                   *)
(*                                                                         *)
(* A text is a sequence of characters (their numbers). The machine reads   *)
(* it one character, escape or delimiter at a time and collects literals   *)
(* [from, to, kind, neg, val]. From them follows what every literal type   *)
(* accepts, which value it holds, and where it reports an error.           *)
(* Integers are sequences of decimal digits of any length; floats are      *)
(* decimal numbers digits * 10^exp.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS FS          \* families of texts: [alpha: chunks of characters, max: how many, pre, post]

Types == {"Bool", "Byte", "Int", "Uint", "Float", "Char", "Str", "ByteStr", "Lit"}

---------------------------------------------------------------------------
\* characters
Nul == 0    Tab == 9    LF == 10   CR == 13   SP == 32   DQ == 34   Hash == 35   SQ == 39   Plus == 43   Minus == 45   Dot == 46
Under == 95 Back == 92  LBr == 123 RBr == 125
Blank == {Tab, LF, SP}
Between(c, a, b) == a <= c /\ c <= b
Digit(c) == Between(c, 48, 57)
Lower(c) == Between(c, 97, 122)
Upper(c) == Between(c, 65, 90)
Letter(c) == Lower(c) \/ Upper(c) \/ c = Under
WordChar(c) == Letter(c) \/ Digit(c)
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF Between(c, 97, 102) THEN c - 87 ELSE IF Between(c, 65, 70) THEN c - 55 ELSE 99

---------------------------------------------------------------------------
\* numbers as decimal digits, most significant first; <<>> is zero
RECURSIVE Strip(_)
Strip(d) == IF d = <<>> THEN d ELSE IF Head(d) = 0 THEN Strip(Tail(d)) ELSE d
RECURSIVE Chop(_)                       \* [digits, exp]: without trailing zeros
Chop(x) == IF x.d = <<>> THEN [d |-> <<>>, e |-> 0]
           ELSE IF x.d[Len(x.d)] = 0 THEN Chop([d |-> SubSeq(x.d, 1, Len(x.d) - 1), e |-> x.e + 1]) ELSE x
RECURSIVE MulAdd(_, _, _, _)            \* d * r + a, from position i on downwards
MulAdd(d, r, a, i) == IF i = 0 THEN (IF a = 0 THEN <<>> ELSE MulAdd(<<>>, r, a \div 10, 0) \o <<a % 10>>)
                      ELSE LET x == d[i] * r + a IN MulAdd(d, r, x \div 10, i - 1) \o <<x % 10>>
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE LexLess(Tail(a), Tail(b))
Less(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LexLess(a, b)        \* of stripped numbers
AtMost(a, b) == ~Less(b, a)
MaxI == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
MinI == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8>>
MaxU == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
\* powers of two, 2^27 at a time; half a unit beyond the largest finite double is 2^1024 - 2^970 (the same digits in all places but the last ones)
RECURSIVE Pow2(_, _)
Pow2(n, acc) == IF n < 27 THEN MulAdd(acc, 2^n, 0, Len(acc)) ELSE Pow2(n - 27, MulAdd(acc, 134217728, 0, Len(acc)))
RECURSIVE Minus10(_, _, _, _)           \* a - b - borrow, equally long
Minus10(a, b, w, i) == IF i = 0 THEN <<>>
                       ELSE LET x == a[i] - b[i] - w IN Minus10(a, b, IF x < 0 THEN 1 ELSE 0, i - 1) \o <<IF x < 0 THEN x + 10 ELSE x>>
Zeros(n) == [i \in 1..n |-> 0]
P970 == Pow2(970, <<1>>)
P1024 == Pow2(54, P970)
Beyond == Minus10(P1024, Zeros(Len(P1024) - Len(P970)) \o P970, 0, Len(P1024))
Limit == <<1,7,9,7,6,9,3,1,3,4,8,6,2,3,1,5,8,0,7,9,3,7,2,8,9,7,1,4,0,5,3,0,3,4,
           1,5,0,7,9,9,3,4,1,3,2,7,1,0,0,3,7,8,2,6,9,3,6,1,7,3,7,7,8,9,8,0,4,4,
           4,9,6,8,2,9,2,7,6,4,7,5,0,9,4,6,6,4,9,0,1,7,9,7,7,5,8,7,2,0,7,0,9,6,
           3,3,0,2,8,6,4,1,6,6,9,2,8,8,7,9,1,0,9,4,6,5,5,5,5,4,7,8,5,1,9,4,0,4,
           0,2,6,3,0,6,5,7,4,8,8,6,7,1,5,0,5,8,2,0,6,8,1,9,0,8,9,0,2,0,0,0,7,0,
           8,3,8,3,6,7,6,2,7,3,8,5,4,8,4,5,8,1,7,7,1,1,5,3,1,7,6,4,4,7,5,7,3,0,
           2,7,0,0,6,9,8,5,5,5,7,1,3,6,6,9,5,9,6,2,2,8,4,2,9,1,4,8,1,9,8,6,0,8,
           3,4,9,3,6,4,7,5,2,9,2,7,1,9,0,7,4,1,6,8,4,4,4,3,6,5,5,1,0,7,0,4,3,4,
           2,7,1,1,5,5,9,6,9,9,5,0,8,0,9,3,0,4,2,8,8,0,1,7,7,9,0,4,1,7,4,4,9,7,
           7,9,2>>
ASSUME Limit = Beyond /\ Len(Limit) = 309
\* does d * 10^e lie where doubles end
TooLarge(v) == IF v.d = <<>> THEN FALSE
               ELSE IF Len(v.d) + v.e # 309 THEN Len(v.d) + v.e > 309
               ELSE ~Less(v.d \o Zeros(v.e), Limit)
\* for digits reaching below the units (e < 0) with 309 places before: compare after cutting
TooLargeV(v) == IF v.d # <<>> /\ Len(v.d) + v.e = 309 /\ v.e < 0 THEN ~Less(SubSeq(v.d, 1, 309), Limit) ELSE TooLarge(v)

---------------------------------------------------------------------------
VARIABLES f, txt, n, mode, p, tk, items
vars == <<f, txt, n, mode, p, tk, items>>
NoTk == [from |-> 0, kind |-> "", neg |-> FALSE, r |-> 10, d |-> <<>>, e |-> 0, xs |-> 0, x |-> 0, q |-> 0, h |-> 0, cs |-> <<>>]
Init == /\ f \in 1..Len(FS) /\ txt = FS[f].pre /\ n = 0 /\ mode = "build" /\ p = 1 /\ tk = NoTk /\ items = <<>>

Grow == /\ mode = "build" /\ n < FS[f].max
        /\ \E i \in 1..Len(FS[f].alpha) : txt' = txt \o FS[f].alpha[i]
        /\ n' = n + 1 /\ UNCHANGED <<f, mode, p, tk, items>>
Start == /\ mode = "build" /\ n >= FS[f].min /\ mode' = "gap" /\ txt' = txt \o FS[f].post /\ UNCHANGED <<f, n, p, tk, items>>

At(i) == IF i <= Len(txt) THEN txt[i] ELSE -1
Step(m, i, t) == mode' = m /\ p' = i /\ tk' = t /\ UNCHANGED <<f, txt, n, items>>
Dead == Step("dead", p, tk)             \* not a text made of tokens
Unclear == Step("unclear", p, tk)       \* not one either, but tokenisers are known to let it pass: nothing is claimed
Put(to, it) == items' = Append(items, it) /\ tk' = NoTk /\ p' = to /\ UNCHANGED <<f, txt, n>>
\* a token which is no literal: reading ends there
Alien(from) == mode' = "done" /\ Put(p, [from |-> from, to |-> p, kind |-> "alien", neg |-> FALSE, val |-> <<>>, e |-> 0])

\* -- between literals --
RECURSIVE HashesFrom(_)
HashesFrom(i) == IF At(i) = Hash THEN 1 + HashesFrom(i + 1) ELSE 0
RECURSIVE WordEnd(_)
WordEnd(i) == IF i <= Len(txt) /\ WordChar(txt[i]) THEN WordEnd(i + 1) ELSE i
Word(i) == SubSeq(txt, i, WordEnd(i) - 1)
StrTrue == <<116, 114, 117, 101>>
StrFalse == <<102, 97, 108, 115, 101>>
RawAt(i) == At(i) = 114 /\ At(i + 1 + HashesFrom(i + 1)) = DQ     \* r"  r#"
Radix(i) == IF At(i) # 48 THEN 10 ELSE IF At(i + 1) = 120 THEN 16 ELSE IF At(i + 1) = 111 THEN 8 ELSE IF At(i + 1) = 98 THEN 2 ELSE 10
Signed == tk.from > 0
From == IF Signed THEN tk.from ELSE p
Gap == /\ mode = "gap"
       /\ LET c == At(p) IN
          IF c = -1 THEN (IF Signed THEN Alien(tk.from) ELSE Step("done", p, tk))
          ELSE IF c \in Blank THEN Step("gap", p + 1, tk)
          ELSE IF c = Minus /\ ~Signed THEN Step("gap", p + 1, [NoTk EXCEPT !.from = p, !.neg = TRUE])
          ELSE IF Digit(c) THEN
               LET r == Radix(p) IN Step("num", IF r = 10 THEN p ELSE p + 2, [tk EXCEPT !.from = From, !.kind = "int", !.r = r, !.h = 0])
          ELSE IF Signed THEN Alien(tk.from)
          ELSE IF c = DQ THEN Step("quoted", p + 1, [NoTk EXCEPT !.from = p, !.kind = "str", !.q = DQ])
          ELSE IF c = SQ THEN Step("quoted", p + 1, [NoTk EXCEPT !.from = p, !.kind = "char", !.q = SQ])
          ELSE IF c = 98 /\ At(p + 1) = DQ THEN Step("quoted", p + 2, [NoTk EXCEPT !.from = p, !.kind = "bytestr", !.q = DQ])
          ELSE IF c = 98 /\ At(p + 1) = SQ THEN Step("quoted", p + 2, [NoTk EXCEPT !.from = p, !.kind = "byte", !.q = SQ])
          ELSE IF c = 99 /\ At(p + 1) = DQ THEN Step("quoted", p + 2, [NoTk EXCEPT !.from = p, !.kind = "cstr", !.q = DQ])
          ELSE IF RawAt(p) THEN LET h == HashesFrom(p + 1) IN Step("raw", p + 2 + h, [NoTk EXCEPT !.from = p, !.kind = "str", !.h = h])
          ELSE IF c = 98 /\ RawAt(p + 1) THEN LET h == HashesFrom(p + 2) IN Step("raw", p + 3 + h, [NoTk EXCEPT !.from = p, !.kind = "bytestr", !.h = h])
          ELSE IF Letter(c) THEN
               IF Word(p) \in {StrTrue, StrFalse}
               THEN mode' = "gap" /\ Put(WordEnd(p), [from |-> p, to |-> WordEnd(p), kind |-> "bool", neg |-> FALSE, val |-> IF Word(p) = StrTrue THEN <<1>> ELSE <<0>>, e |-> 0])
               ELSE Alien(p)
          ELSE Alien(p)

\* -- numbers --
Value(t) == IF t.kind = "float" THEN Chop([d |-> Strip(t.d), e |-> (IF t.xs = 1 THEN -t.x ELSE t.x) - t.e])
            ELSE [d |-> Strip(t.d), e |-> 0]
Finish == mode' = "gap" /\ LET v == Value(tk) IN
          Put(p, [from |-> tk.from, to |-> p, kind |-> tk.kind, neg |-> tk.neg,
                  val |-> IF tk.kind \in {"int", "float"} THEN v.d ELSE tk.cs, e |-> v.e])
RECURSIVE ExpAhead(_, _)                \* is there a digit after e, sign and separators
ExpAhead(i, s) == IF Digit(At(i)) THEN TRUE ELSE IF At(i) = Under THEN ExpAhead(i + 1, s)
                  ELSE IF At(i) \in {Plus, Minus} /\ ~s THEN ExpAhead(i + 1, TRUE) ELSE FALSE
Num == /\ mode = "num"
       /\ LET c == At(p) v == HexVal(c) IN
          IF Digit(c) /\ v >= tk.r THEN Dead
          ELSE IF v < tk.r THEN
               Step("num", p + 1, [tk EXCEPT !.h = 1, !.d = IF tk.r = 10 THEN Append(tk.d, v) ELSE MulAdd(tk.d, tk.r, v, Len(tk.d))])
          ELSE IF c = Under THEN Step("num", p + 1, tk)
          ELSE IF tk.h = 0 THEN Dead                                            \* 0x without digits
          ELSE IF tk.r = 10 /\ c = Dot /\ ~(At(p + 1) = Dot \/ Letter(At(p + 1)))
               THEN Step("frac", p + 1, [tk EXCEPT !.kind = "float"])
          ELSE IF tk.r = 10 /\ c \in {101, 69} /\ ExpAhead(p + 1, FALSE) THEN Step("exp", p + 1, [tk EXCEPT !.kind = "float", !.h = 0])
          ELSE IF Letter(c) THEN Step("suffix", p + 1, tk)
          ELSE Finish
Frac == /\ mode = "frac"
        /\ LET c == At(p) IN
           IF Digit(c) THEN Step("frac", p + 1, [tk EXCEPT !.d = Append(tk.d, c - 48), !.e = tk.e + 1])
           ELSE IF c = Under THEN Step("frac", p + 1, tk)
           ELSE IF c \in {101, 69} /\ ExpAhead(p + 1, FALSE) THEN Step("exp", p + 1, [tk EXCEPT !.h = 0])
           ELSE IF Letter(c) THEN Step("suffix", p + 1, tk)
           ELSE Finish
Exp == /\ mode = "exp"
       /\ LET c == At(p) IN
          IF Digit(c) THEN Step("exp", p + 1, [tk EXCEPT !.x = tk.x * 10 + (c - 48), !.h = 1])
          ELSE IF c = Under THEN Step("exp", p + 1, tk)
          ELSE IF c \in {Plus, Minus} /\ tk.h = 0 THEN Step("exp", p + 1, [tk EXCEPT !.xs = IF c = Minus THEN 1 ELSE 0])
          ELSE IF Letter(c) THEN Step("suffix", p + 1, tk)
          ELSE Finish
Suffix == /\ mode = "suffix"
          /\ IF At(p) # -1 /\ WordChar(At(p)) THEN Step("suffix", p + 1, tk) ELSE Finish

\* -- characters and strings --
Bytes == tk.kind \in {"byte", "bytestr"}
Single == tk.q = SQ
Add(i, c) == Step("quoted", i, [tk EXCEPT !.cs = Append(tk.cs, c)])
Short == [c \in {110, 114, 116, 48, Back, SQ, DQ} |->
            CASE c = 110 -> LF [] c = 114 -> CR [] c = 116 -> Tab [] c = 48 -> Nul [] OTHER -> c]
RECURSIVE SkipBlank(_)
SkipBlank(i) == IF At(i) \in Blank THEN SkipBlank(i + 1) ELSE i
RECURSIVE Braced(_, _, _)               \* \u{...}: [to, value], to = 0 when malformed
Braced(i, v, k) == IF At(i) = RBr THEN [to |-> IF k > 0 THEN i + 1 ELSE 0, v |-> v]
                   ELSE IF At(i) = Under /\ k > 0 THEN Braced(i + 1, v, k)
                   ELSE IF HexVal(At(i)) < 16 /\ k < 6 THEN Braced(i + 1, v * 16 + HexVal(At(i)), k + 1)
                   ELSE [to |-> 0, v |-> 0]
IsChar(v) == v <= 1114111 /\ ~Between(v, 55296, 57343)
Escape == LET c == At(p + 1) IN
          IF c \in DOMAIN Short THEN Add(p + 2, Short[c])
          ELSE IF c = 120 THEN
               LET a == HexVal(At(p + 2)) b == HexVal(At(p + 3)) IN
               IF a < 16 /\ b < 16 /\ (Bytes \/ tk.kind = "cstr" \/ a < 8) THEN Add(p + 4, a * 16 + b) ELSE Dead
          ELSE IF c = 117 /\ ~Bytes /\ At(p + 2) = LBr THEN
               LET u == Braced(p + 3, 0, 0) IN IF u.to > 0 /\ IsChar(u.v) THEN Add(u.to, u.v) ELSE Dead
          ELSE IF c = LF /\ ~Single THEN Step("quoted", SkipBlank(p + 2), tk)
          ELSE Dead
Quoted == /\ mode = "quoted"
          /\ LET c == At(p) IN
             IF c = -1 \/ c = CR THEN Dead
             ELSE IF Single /\ Len(tk.cs) = 1 THEN (IF c = SQ THEN Step("suffix0", p + 1, tk) ELSE Dead)
             ELSE IF c = tk.q THEN (IF Single THEN Unclear ELSE Step("suffix0", p + 1, tk))
             ELSE IF c = Back THEN Escape
             ELSE IF Single /\ c \in {LF, Tab} THEN Unclear
             ELSE IF Bytes /\ c > 127 THEN Dead
             ELSE Add(p + 1, c)
Raw == /\ mode = "raw"
       /\ LET c == At(p) IN
          IF c = -1 \/ c = CR THEN Dead
          ELSE IF c = DQ /\ HashesFrom(p + 1) >= tk.h THEN Step("suffix0", p + 1 + tk.h, tk)
          ELSE IF Bytes /\ c > 127 THEN Dead
          ELSE Step("raw", p + 1, [tk EXCEPT !.cs = Append(tk.cs, c)])
Suffix0 == /\ mode = "suffix0"
           /\ IF At(p) # -1 /\ Letter(At(p)) THEN Step("suffix", p + 1, tk) ELSE Finish

Read == Gap \/ Num \/ Frac \/ Exp \/ Suffix \/ Quoted \/ Raw \/ Suffix0
Next == Grow \/ Start \/ Read
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
\* what the types make of a literal: "ok", "kind" (some other kind), "range"
InInt(it) == AtMost(it.val, IF it.neg THEN MinI ELSE MaxI)
InUint(it) == AtMost(it.val, MaxU)
NegZero(it) == it.neg /\ it.val = <<>>
Finite(it) == ~TooLargeV([d |-> it.val, e |-> it.e])
KindOf == [byte |-> "Byte", char |-> "Char", str |-> "Str", bytestr |-> "ByteStr", bool |-> "Bool"]
\* the variant of the any-literal type
Variant(it) == IF it.kind \in DOMAIN KindOf THEN KindOf[it.kind]
               ELSE IF it.kind = "float" THEN "Float"
               ELSE IF it.kind = "int" THEN (IF it.neg /\ it.val # <<>> THEN "Int" ELSE "Uint")
               ELSE ""
As(T, it) ==
  CASE T = "Int"   -> IF it.kind # "int" THEN "kind" ELSE IF InInt(it) THEN "ok" ELSE "range"
    [] T = "Uint"  -> IF it.kind # "int" THEN "kind" ELSE IF NegZero(it) THEN "any" ELSE IF it.neg THEN "range" ELSE IF InUint(it) THEN "ok" ELSE "range"
    [] T = "Float" -> IF it.kind # "float" THEN "kind" ELSE IF Finite(it) THEN "ok" ELSE "range"
    [] T = "Lit"   -> IF it.kind \in {"alien", "cstr"} THEN "kind"
                      ELSE IF it.kind = "float" THEN (IF Finite(it) THEN "ok" ELSE "range")
                      ELSE IF it.kind = "int" THEN (IF Variant(it) = "Int" THEN (IF InInt(it) THEN "ok" ELSE "range") ELSE IF InUint(it) THEN "ok" ELSE "range")
                      ELSE "ok"
    [] OTHER       -> IF Variant(it) = T THEN "ok" ELSE "kind"

---------------------------------------------------------------------------
\* the any-literal type covers exactly what the others do, and says which of them
Covered == mode = "done" => \A i \in 1..Len(items) : LET it == items[i] IN
     /\ As("Lit", it) = "ok" => As(Variant(it), it) \in {"ok", "any"}
     /\ \A T \in Types \ {"Lit"} : As(T, it) = "ok" /\ T # "Int" => As("Lit", it) = "ok" /\ Variant(it) = T
     /\ As("Int", it) = "ok" => As("Lit", it) = "ok" /\ Variant(it) \in {"Int", "Uint"}
\* literals do not overlap and stay in order
Ordered == \A i \in 1..Len(items) : items[i].from <= items[i].to /\ items[i].to <= Len(txt) + 1
                                    /\ (i > 1 => items[i - 1].to <= items[i].from)
Sane == mode # "build" => p <= Len(txt) + 1
=============================================================================
