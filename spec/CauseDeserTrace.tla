--------------------------- MODULE CauseDeserTrace --------------------------
(* Validation of what recorded failures of deserialization say.              *)
EXTENDS CauseDeser, IOUtils, Json
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, x
Init == i \in 1 .. Len(Traces) /\ x = << >>
Ok1(r, cs) == \/ r.r = "ok" \/ << "?" >> \in cs
              \/ cs # {} /\ r.shown /\ \E k \in cs : k[1] = r.c[1] /\ (k = << "in" >> \/ ToJson(k) = ToJson(r.c))
Call == LET q == Traces[i]  cs == Why(q.src, q.t, q.ty) IN
        /\ x = << >> /\ UNCHANGED i
        /\ x' = << Ok1(q.res, cs), cs, IF q.src = "doc" THEN DeserDoc(q.t, q.ty).s ELSE DeserExpr(q.t, q.ty).s >>
Spec == Init /\ [][Call]_<< i, x >>
(* a failure nobody expects is not judged here                               *)
Judged == x[3] = "err" \/ x[2] # {}
Conforms == x # << >> /\ Judged /\ ~x[1] => PrintT(ToJson([i |-> i, x |-> << [ok |-> x[1], cs |-> x[2]] >>]))
Explained == x # << >> /\ x[3] = "err" => x[2] # {}
=============================================================================
