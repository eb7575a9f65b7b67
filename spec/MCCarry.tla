------------------------------ MODULE MCCarry -------------------------------
EXTENDS Carry, Json, IOUtils
D   == JsonDeserialize(IOEnv.CARRY_JSON)
VSd == D.vs
LSd == {D.ls[i] : i \in 1..Len(D.ls)}
DSd == {"(", "[", "{"}
MGd == [v \in DOMAIN D.vs |-> D.vs[v].maxg]
Emit == prev # <<>> => PrintT("@@" \o ToJson([v |-> st.v, away |-> away, hist |-> hist, ok |-> op.ok, at |-> op.at, obs |-> Obs(st)]))
=============================================================================
