------------------------------- MODULE MCTwo --------------------------------
EXTENDS Two, Json, IOUtils
D   == JsonDeserialize(IOEnv.TWO_JSON)
FSd == D.fams
Emit == Len(hist) = Fam.depth => PrintT("@@" \o ToJson([kind |-> Fam.kind, start |-> start, obs |-> Obs(Fam.kind, S(start.side, TypeAt(start.side), start.xs), h), hist |-> hist]))
=============================================================================
