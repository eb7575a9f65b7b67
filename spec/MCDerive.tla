------------------------------ MODULE MCDerive ------------------------------
EXTENDS Derive, Json, IOUtils
D   == JsonDeserialize(IOEnv.DERIVE_JSON)
FSd == D.fams
Res(a) == [i \in 1..Len(F.inputs) |-> LET r == Read(Owned(This), F.other, a, F.inputs[i]) IN
            IF ~Sound(F.inputs[i], r) THEN Assert(FALSE, <<"unsound", This, F.inputs[i], r>>) ELSE IF r.odd THEN [q |-> "odd"] ELSE IF r.ok THEN [q |-> "ok", tr |-> r.tr] ELSE [q |-> "err", at |-> r.at, path |-> r.path]]
Emit == ph = "closed" => PrintT("@@" \o ToJson([f |-> f, vs |-> vs,
          args |-> [i \in 1..Len(F.args) |-> LET a == F.args[i] IN
             [parse |-> HasDecl("parse", This, Env(a)), print |-> HasDecl("print", This, Env(a)), use |-> Usable(a), res |-> IF Usable(a) THEN Res(a) ELSE <<>>]]]))
=============================================================================
