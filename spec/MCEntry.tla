------------------------------ MODULE MCEntry ------------------------------
(* Every text of every family up to its bound.                             *)
EXTENDS Entry, Json, IOUtils
D   == JsonDeserialize(IOEnv.ENT_JSON)
TTd == D.toks
CCd == D.chars
GSd == D.grams
Emit == ph = "done" => PrintT("@@" \o ToJson([g |-> g, w |-> w, bad |-> bad, out |-> out, show |-> show]))
=============================================================================
