------------------------------- MODULE MCLit --------------------------------
EXTENDS Lit, Json, IOUtils
D   == JsonDeserialize(IOEnv.LIT_JSON)
FSd == D.fams
Emit == mode \in {"done", "dead"} =>
        PrintT("@@" \o ToJson([txt |-> txt, dead |-> mode = "dead",
                               items |-> [i \in 1..Len(items) |-> [it |-> items[i], v |-> Variant(items[i]), as |-> [T \in Types |-> As(T, items[i])]]]]))
=============================================================================
