------------------------------- MODULE NumTrace -----------------------------
(* Validation of recorded conversions, comparisons and constructions.        *)
EXTENDS Numbers, HclReader, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
Init == i \in 1 .. Len(Traces) /\ bad = "?"
IsNum(t) == LET r == ReadExpr(t) IN r.r = "ok" /\ r.v[1] = "num"
Judge(q) ==
  CASE q.op = "num" ->
         IF ~IsNum(q.t) THEN (IF q.res.r = "ok" THEN "not a number" ELSE "")
         ELSE IF q.res.r # "ok" THEN "a number is refused"
         ELSE IF ConvsOk(ParseLit(q.t), q.t, q.res.v) THEN "" ELSE "a conversion does not give the value of the literal"
    [] q.op = "numval" ->
         IF q.res.r # "ok" THEN "a number is refused in the value tree"
         ELSE IF \A k \in 1 .. 2 : LeafOk(ParseLit(q.t), q.res.v[k]) THEN "" ELSE "another number in the value tree"
    [] q.op = "numeq" ->
         IF q.res.r # "ok" THEN "a number is refused"
         ELSE IF EqOk(ParseLit(q.a), ParseLit(q.b), q.res.v) THEN "" ELSE "equality is not equality of values"
    [] q.op = "numfrom" -> IF FromOk(q.n, q.res.v) THEN "" ELSE "the number does not denote the integer it was made from"
    [] q.op = "numfromf" -> IF FromFOk(q.res.v) THEN "" ELSE "the number does not denote the float it was made from"
Check == bad = "?" /\ bad' = Judge(Traces[i]) /\ UNCHANGED i
Spec == Init /\ [][Check]_<< i, bad >>
Conforms == bad \in {"?", ""} \/ PrintT(ToJson([i |-> i, x |-> [r |-> "numbers", why |-> bad]]))
=============================================================================
