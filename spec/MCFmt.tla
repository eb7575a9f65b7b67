------------------------------- MODULE MCFmt -------------------------------
EXTENDS Fmt, Json, IOUtils
D   == JsonDeserialize(IOEnv.FMT_JSON)
TTd == D.toks
CCd == D.chars
FSd == D.fams
Emit == ph = "done" => PrintT("@@" \o ToJson([w |-> w, w2 |-> w2, u |-> u, cap |-> cap0, err |-> err, txt |-> txt, txt2 |-> txt2]))
=============================================================================
