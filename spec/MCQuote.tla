------------------------------ MODULE MCQuote ------------------------------
(* Every filling of every quotation.                                       *)
EXTENDS Quote, Json, IOUtils
D   == JsonDeserialize(IOEnv.QUO_JSON)
TTd == D.toks
GSd == D.grams
QSd == D.quotes
Emit == ph = "done" => PrintT("@@" \o ToJson([q |-> q, fill |-> fill, ord |-> ord, req |-> req, w |-> s, org |-> org, out |-> out]))
=============================================================================
