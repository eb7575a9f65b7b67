------------------------------- MODULE MCCont -------------------------------
EXTENDS Cont, Json, IOUtils
D   == JsonDeserialize(IOEnv.CONT_JSON)
FSd == D.fams
Emit == Len(hist) = Fam.depth + 1 => PrintT("@@" \o ToJson([kind |-> Fam.kind, hist |-> hist]))
=============================================================================
