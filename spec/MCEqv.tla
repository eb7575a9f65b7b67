------------------------------- MODULE MCEqv --------------------------------
EXTENDS Eqv, Json, IOUtils
D   == JsonDeserialize(IOEnv.EQV_JSON)
TSd == D.types
\* every pair once: the third one only serves the laws
Emit == /\ ph = "pair" /\ (~T.ord \/ z = x) => PrintT("@@" \o ToJson([k |-> "pair", ty |-> ty, x |-> x, y |-> y, eq |-> x = y, cmp |-> IF T.ord THEN Cmp(x, y) ELSE 9]))
        /\ ph = "closed" /\ Len(hist) = MaxOps => PrintT("@@" \o ToJson([k |-> "hist", ty |-> ty, hist |-> hist, n |-> Cardinality(coll), sorted |-> IF T.ord THEN Sorted(coll) ELSE <<>>]))
=============================================================================
