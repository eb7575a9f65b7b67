------------------------------- MODULE Indent -------------------------------
(* Which strings are accepted as indentation: exactly those that consist of *)
(* white space only.  The string grows character by character; acceptance   *)
(* is a state that is lost with the first other character.                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CC == JsonDeserialize(IOEnv.FMT_JSON).chars
Alpha == {"a", "_", "/", "0", "(", "\"", "-"} \cup {c \in DOMAIN CC : CC[c] = "ws"}
VARIABLES s, ok
Init == s = "" /\ ok = TRUE
Next == \E c \in Alpha : Len(s) < 3 /\ s' = s \o c /\ ok' = (ok /\ CC[c] = "ws")
Spec == Init /\ [][Next]_<<s, ok>>
Exact == ok = \A i \in 1..Len(s) : CC[SubSeq(s, i, i)] = "ws"
Emit == PrintT("@@" \o ToJson([s |-> s, ok |-> ok]))
=============================================================================
