------------------------------- MODULE MCFlat -------------------------------
(* Small inputs: the counters say what PegDen says.  Large ones: what they *)
(* prescribe is printed, to be compared with the real parser.              *)
EXTENDS Flat, PegDen, Json, IOUtils, TLC

D   == JsonDeserialize(IOEnv.FLAT_JSON)
TTd == D.toks
Kinds == {"any", "many", "punct", "sep", "left", "right"}
Pats  == {<<"i">>, <<"s">>, <<"i", "s">>, <<"s", "i">>, <<"x">>}
VARIABLE big
Init == \/ /\ big = 0
           /\ \E kd \in Kinds : \E m \in 0..D.runs : \E rs \in [1..m -> [p : Pats, n : 1..D.times]] : Start(kd, rs)
        \/ \E b \in 1..Len(D.cases) : big = b /\ Start(D.cases[b].kind, D.cases[b].runs)
Next == FNext /\ UNCHANGED big
Spec == Init /\ [][Next]_<<fvars, big>>

RECURSIVE Expand(_, _)
Expand(rs, j) == IF j > Len(rs) THEN <<>>
                 ELSE LET R1 == rs[j] IN [x \in 1..(R1.n * Len(R1.p)) |-> CASE R1.p[((x - 1) % Len(R1.p)) + 1] = "i" -> "a" [] R1.p[((x - 1) % Len(R1.p)) + 1] = "s" -> "," [] OTHER -> ";"] \o Expand(rs, j + 1)
Places(w, v, t) == SelectSeq(Prn(v), LAMBDA j : w[j] = t)
\* places as blocks of one
Ones(ps) == [j \in 1..Len(ps) |-> B(ps[j], 1, 1)]
Agree == (big = 0 /\ Done) =>
  LET w == Expand(runs, 1)
      G == D.grams[kind]
      o == Denote(Ctx(G.nodes, w, Partners(w), TRUE), G.start)
  IN /\ o.ok = (ph = "yes")
     /\ IF o.ok THEN /\ Steps(I, 1, 0, <<>>) = Steps(Ones(Places(w, o.v, "a")), 1, 0, <<>>)
                     /\ Steps(S, 1, 0, <<>>) = Steps(Ones(Places(w, o.v, ",")), 1, 0, <<>>)
        ELSE o.er.i = at
Emit == (big > 0 /\ Done) => PrintT("@@" \o ToJson([c |-> big, ok |-> ph = "yes", at |-> at, items |-> Steps(I, 1, 0, <<>>), seps |-> Steps(S, 1, 0, <<>>), n |-> pos]))
=============================================================================
