------------------------------ MODULE MCInvis ------------------------------
(* All ways to put invisible groups into small inputs, and given ways for  *)
(* larger ones.                                                            *)
EXTENDS Invis, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.INVIS_JSON)
Md == D.most
VARIABLE big       \* which of the given ones
Given(c) == /\ w = c.w /\ veils = c.veils /\ ph = "make" /\ st = <<>> /\ at = 0 /\ got = <<>> /\ scope = <<>>
Init == \/ big = 0 /\ \E i \in 1..Len(D.skeletons) : Start(D.skeletons[i])
        \/ \E i \in 1..Len(D.cases) : big = i /\ Given(D.cases[i])
Next == /\ IF big = 0 THEN INext ELSE Read \/ Take \/ Enter \/ Leave \/ Stop
        /\ UNCHANGED big
Spec == Init /\ [][Next]_<<ivars, big>>
\* what is given could have been made
Proper == (big > 0 /\ ph = "make") =>
  \A v \in 1..Len(veils) : LET a == veils[v] IN
     /\ a[1] \in 1..Len(w) /\ a[2] \in a[1]..Len(w) /\ Part(a[1], a[2])
     /\ \A u \in 1..v : LET b == veils[u] IN b[2] < a[1] \/ a[2] < b[1] \/ (a[1] <= b[1] /\ b[2] <= a[2]) \/ (b[1] <= a[1] /\ a[2] <= b[2])
Emit == (big = 0 /\ ph = "done" /\ veils # <<>>) => PrintT("@@" \o ToJson([w |-> w, veils |-> veils]))
=============================================================================
