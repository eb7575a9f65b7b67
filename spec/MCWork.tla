------------------------------- MODULE MCWork -------------------------------
(* Every input of every grammar up to its bound; what it costs.            *)
EXTENDS Work, Json, IOUtils
D   == JsonDeserialize(IOEnv.PEG_JSON)
TTd == D.toks
GSd == D.grams
Emit == ph = "done" => PrintT("@@" \o ToJson([g |-> g, w |-> w, ok |-> out.ok, tries |-> TriesAt(0), at |-> [p \in 1..(Len(w) + 1) |-> TriesAt(p)], att |-> att, deep |-> deep]))
=============================================================================
