------------------------------ MODULE MCWords -------------------------------
EXTENDS Words, Json, IOUtils
D   == JsonDeserialize(IOEnv.WORDS_JSON)
TTd == D.toks
LSd == D.lists
FSd == D.fams
Emit == ph = "done" => PrintT("@@" \o ToJson([l |-> l, ty |-> ty, w |-> w, single |-> Single, many |-> Many, cls |-> cls]))
=============================================================================
