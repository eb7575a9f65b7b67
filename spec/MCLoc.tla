------------------------------- MODULE MCLoc --------------------------------
EXTENDS Loc, Json, IOUtils
D   == JsonDeserialize(IOEnv.LOC_JSON)
BWd == D.widths
FSd == D.fams
Emit == pend = <<>> /\ n > 0 =>
    PrintT("@@" \o ToJson([txt |-> txt, n |-> Len(toks), den |-> [i \in 1..Len(toks) |-> [j \in 1..(Len(toks) - i + 1) |-> Den(i, i + j - 1)]]]))
=============================================================================
