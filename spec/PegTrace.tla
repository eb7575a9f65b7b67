------------------------------ MODULE PegTrace ------------------------------
(* Validation of recordings of the real parser: the machine is run on the  *)
(* recorded input and must end in the recorded outcome.                    *)
(* A recording is [g, w, loc, out]; loc = FALSE: the input had no source   *)
(* locations, so no error location either.                                 *)
EXTENDS Peg, Json, IOUtils

D   == JsonDeserialize(IOEnv.PEG_JSON)
TTd == D.toks
GSd == D.grams
Rec == D.recs

VARIABLE rec

TInit == /\ rec \in 1..Len(Rec)
         /\ g = Rec[rec].g
         /\ w = Rec[rec].w
         /\ mt = Partners(w)
         /\ loc = Rec[rec].loc
         /\ opn = <<>> /\ ph = "read" /\ Idle
TStart == ph = "read" /\ Begin /\ UNCHANGED <<g, w, loc, mt, opn, out>>
TNext == (TStart \/ Step \/ (ph = "done" /\ UNCHANGED vars)) /\ UNCHANGED rec
TSpec == TInit /\ [][TNext]_<<vars, rec>>

\* what was observed agrees with what the specification prescribes, on the
\* parts a property looks at.  Without source locations a value has no token
\* indices.
R == Rec[rec]
\* (JSON readers limit nesting: values are recorded flat, in preorder, with the
\* number of children)
RECURSIVE Flat(_, _), FlatAll(_, _, _)
Flat(v, l) == <<[k |-> v.k, i |-> IF l THEN v.i ELSE 0, j |-> IF l THEN v.j ELSE 0, n |-> Len(v.c)]>> \o FlatAll(v.c, 1, l)
FlatAll(c, k, l) == IF k > Len(c) THEN <<>> ELSE Flat(c[k], l) \o FlatAll(c, k + 1, l)
Conforms ==
    /\ R.seeOk => R.out.ok = out.ok
    /\ R.seeV /\ R.out.ok /\ out.ok => R.out.v = Flat(out.v, R.loc)
    /\ ~R.out.ok /\ ~out.ok =>
          /\ R.seeAt => R.out.er.i = out.er.i /\ R.out.er.j = out.er.j
          /\ R.seeMsg => R.out.er.msg = out.er.msg
          /\ R.seeCh  => R.out.er.ch = out.er.ch
Verdict == ph = "done" =>
    \/ Conforms /\ PrintT("@@" \o ToJson([rec |-> rec, ok |-> TRUE]))
    \/ ~Conforms /\ PrintT("@@" \o ToJson([rec |-> rec, ok |-> FALSE, out |-> [ok |-> out.ok, v |-> Flat(out.v, R.loc), er |-> out.er]]))
=============================================================================
