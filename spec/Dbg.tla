-------------------------------- MODULE Dbg --------------------------------
(***************************************************************************)
(* The `{:?}` text of a node, under every set of formatting options.       *)
(*                                                                         *)
(* A node is [k, t, xs]: a kind, a name and parts.  A writer works through *)
(* a list of things still to be written; in the alternate form every level *)
(* of nesting pads the lines inside it by four.  Leaves are given: Leaf[t] *)
(* lists what leaf t shows for each set of options, as lines.              *)
(*                                                                         *)
(* Text is the same thing said as one recursive definition; the invariants *)
(* of MCDbg compare the two, and say that nothing of the content is lost.  *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS Leaf,   \* leaf -> option index -> lines
          Opts    \* option index -> [disp, alt, w, p, fill, al]; the first is {:?} itself

VARIABLES node, opt,  \* what is shown, and the options
          todo,       \* what is still to be written
          depth,      \* how far the current line is padded
          fresh,      \* is the current line still empty?
          out         \* the lines so far
dvars == <<node, opt, todo, depth, fresh, out>>

RECURSIVE Rep(_, _)
Rep(c, n) == IF n <= 0 THEN "" ELSE c \o Rep(c, n - 1)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

\* a word under width, precision, fill and alignment
Cut(s, p) == IF p < 0 \/ Len(s) <= p THEN s ELSE SubSeq(s, 1, p)
Padded(s, o) ==
  LET c == Cut(s, o.p) m == o.w - Len(c) l == CASE o.al = ">" -> m [] o.al = "^" -> m \div 2 [] OTHER -> 0
  IN  IF m <= 0 THEN c ELSE Rep(o.fill, l) \o c \o Rep(o.fill, m - l)

(* ------------------------- the text as such ------------------------- *)
Glue(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a
              ELSE SubSeq(a, 1, Len(a) - 1) \o <<a[Len(a)] \o b[1]>> \o Tail(b)
In(ls)     == [i \in 1..Len(ls) |-> IF ls[i] = "" THEN "" ELSE "    " \o ls[i]]
\* a list of texts between two brackets
Between(l, texts, r, alt, sp) ==
  IF texts = <<>> THEN <<l \o r>>
  ELSE IF alt THEN <<l>> \o Flat([i \in 1..Len(texts) |-> In(Glue(texts[i], <<",">>))]) \o <<r>>
  ELSE LET RECURSIVE G(_)
           G(i) == IF i > Len(texts) THEN <<sp \o r>> ELSE Glue(Glue(<<IF i > 1 THEN ", " ELSE sp>>, texts[i]), G(i + 1))
       IN  Glue(<<l>>, G(1))
RECURSIVE Text(_, _)
Text(n, i) ==
  LET o == Opts[i]
      T(x) == Text(x, i)
      Parts == [j \in 1..Len(n.xs) |-> T(n.xs[j])]
  IN CASE n.k = "leaf"  -> Leaf[n.t][i]
       [] n.k = "word"  -> <<Padded(n.t, o)>>
       [] n.k = "unit"  -> <<IF o.disp THEN "" ELSE n.t>>
       [] n.k = "same"  -> T(n.xs[1])
       [] n.k = "list"  -> Between("[", Parts, "]", o.alt, "")
       [] n.k = "none"  -> <<"None">>
       [] n.k = "some"  -> Between("Some(", <<Between("(", Parts, ")", o.alt, "")>>, ")", o.alt, "")
       [] n.k = "chain" -> LET F(f, x) == Glue(<<f \o ": ">>, T(x))
                           IN  Between("Binary<" \o Text(n.xs[2], 1)[1] \o "> {", <<F("lhs", n.xs[1]), F("rhs", n.xs[3])>>, "}", o.alt, " ")

(* ---------------------------- the writer ---------------------------- *)
W(ls) == [a |-> "w", ls |-> ls, n |-> 0]
N(n)  == [a |-> "n", ls |-> <<>>, n |-> n]
DEEPER == [a |-> "in", ls |-> <<>>, n |-> 0]
BACK   == [a |-> "out", ls |-> <<>>, n |-> 0]
\* f[i]: what stands before part i
Open(l, f, xs, r, alt, sp) ==
  IF xs = <<>> THEN <<W(<<l \o r>>)>>
  ELSE IF alt THEN <<W(<<l, "">>), DEEPER>> \o Flat([i \in 1..Len(xs) |-> <<W(<<f[i]>>), xs[i], W(<<",", "">>)>>]) \o <<BACK, W(<<r>>)>>
  ELSE <<W(<<l>>)>> \o Flat([i \in 1..Len(xs) |-> <<W(<<(IF i > 1 THEN ", " ELSE sp) \o f[i]>>), xs[i]>>]) \o <<W(<<sp \o r>>)>>
Plain(xs) == [i \in 1..Len(xs) |-> ""]
Nodes(xs) == [i \in 1..Len(xs) |-> N(xs[i])]
\* the pair inside Some is itself a node of its own
Expand(n) ==
  LET o == Opts[opt]
  IN CASE n.k = "leaf"  -> <<W(Leaf[n.t][opt])>>
       [] n.k = "word"  -> <<W(<<Padded(n.t, o)>>)>>
       [] n.k = "unit"  -> <<W(<<IF o.disp THEN "" ELSE n.t>>)>>
       [] n.k = "same"  -> <<N(n.xs[1])>>
       [] n.k = "list"  -> Open("[", Plain(n.xs), Nodes(n.xs), "]", o.alt, "")
       [] n.k = "none"  -> <<W(<<"None">>)>>
       [] n.k = "some"  -> Open("Some(", <<"">>, <<N([k |-> "pair", t |-> "", xs |-> n.xs])>>, ")", o.alt, "")
       [] n.k = "pair"  -> Open("(", Plain(n.xs), Nodes(n.xs), ")", o.alt, "")
       [] n.k = "chain" -> Open("Binary<" \o Text(n.xs[2], 1)[1] \o "> {", <<"lhs: ", "rhs: ">>, Nodes(<<n.xs[1], n.xs[3]>>), "}", o.alt, " ")

Start(n, i) == /\ node = n /\ opt = i /\ todo = <<N(n)>> /\ depth = 0 /\ fresh = TRUE /\ out = <<"">>
Pad(s, first) == IF s = "" \/ ~first THEN s ELSE Rep("    ", depth) \o s
Step ==
  /\ todo # <<>>
  /\ LET h == Head(todo) rest == Tail(todo) IN
     CASE h.a = "n"   -> todo' = Expand(h.n) \o rest /\ UNCHANGED <<depth, fresh, out>>
       [] h.a = "in"  -> todo' = rest /\ depth' = depth + 1 /\ UNCHANGED <<fresh, out>>
       [] h.a = "out" -> todo' = rest /\ depth' = depth - 1 /\ UNCHANGED <<fresh, out>>
       [] h.a = "w"   -> /\ todo' = rest /\ depth' = depth
                         /\ LET ls == [j \in 1..Len(h.ls) |-> Pad(h.ls[j], j > 1 \/ fresh)] IN
                            /\ out' = Glue(out, ls)
                            /\ fresh' = IF Len(ls) > 1 THEN ls[Len(ls)] = "" ELSE fresh /\ ls[1] = ""
  /\ UNCHANGED <<node, opt>>

(* --------------------------- what must hold --------------------------- *)
Done     == todo = <<>>
Agree    == Done => out = Text(node, opt)
Balanced == Done => depth = 0
=============================================================================
