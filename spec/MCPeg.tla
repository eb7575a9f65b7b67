------------------------------- MODULE MCPeg -------------------------------
(* Exhaustive exploration: every input of every grammar up to its bound.   *)
(* Every outcome is printed, to be compared with the real parser.          *)
EXTENDS Peg, Json, IOUtils

D   == JsonDeserialize(IOEnv.PEG_JSON)
TTd == D.toks
GSd == D.grams

Emit == ph = "done" => PrintT("@@" \o ToJson([g |-> g, w |-> w, loc |-> loc, out |-> out, att |-> att]))
=============================================================================
