------------------------------ MODULE EqvTrace ------------------------------
(* Validation of recordings: what a real collection answered to a long      *)
(* sequence of operations, [ty, ops |-> <<[op, c, r]>>, n, sorted].         *)
EXTENDS Eqv, Json, IOUtils
D   == JsonDeserialize(IOEnv.EQV_JSON)
TSd == D.types
Rec == D.recs
VARIABLES rec, i, bad
R == Rec[rec]
tv == <<vars, rec, i, bad>>
TInit == /\ rec \in 1..Len(Rec) /\ i = 1 /\ bad = 0 /\ ty = Rec[rec].ty /\ x = Nothing /\ y = Nothing /\ z = Nothing /\ coll = {} /\ hist = <<>> /\ ph = "coll"
O == R.ops[i]
Follow == /\ ph = "coll" /\ i <= Len(R.ops) /\ bad = 0
          /\ (CASE O.op = "insert" -> Insert(O.c) [] O.op = "remove" -> Remove(O.c) [] OTHER -> Find(O.c))
          /\ bad' = (IF hist'[i].r = O.r THEN 0 ELSE i) /\ i' = i + 1 /\ UNCHANGED rec
Stop == ph = "coll" /\ (i > Len(R.ops) \/ bad > 0) /\ ph' = "closed" /\ UNCHANGED <<ty, x, y, z, coll, hist, rec, i, bad>>
TNext == Follow \/ Stop \/ (ph = "closed" /\ UNCHANGED tv)
TSpec == TInit /\ [][TNext]_tv
Good == bad = 0 /\ Cardinality(coll) = R.n /\ (T.ord => R.sorted = Sorted(coll))
Verdict == ph = "closed" => PrintT("@@" \o ToJson([rec |-> rec, ok |-> Good, bad |-> bad]))
=============================================================================
