----------------------------- MODULE CauseTrace -----------------------------
(* Validation of recorded failures: what each of them says has to be one of  *)
(* the causes the specification knows for it.                                *)
EXTENDS Causes, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, x
Pending == << >>
Init == i \in 1 .. Len(Traces) /\ x = Pending
Says(c, cs) == \E k \in cs : ToJson(k) = ToJson(c)
Judge(r, cs) == [ok |-> r.r = "ok" \/ cs = {} \/ (Says(r.c, cs) /\ r.shown), cs |-> cs]
Call == LET q == Traces[i] IN
        /\ x = Pending /\ UNCHANGED i
        /\ x' = IF q.op = "cause" THEN << Judge(q.res, Causes(q.g, q.t)) >>
                ELSE << Judge(q.res.sl, OfBytes(q.g, q.b)), Judge(q.res.rd, OfReader(q.g, q.b, q.ev)) >>
Spec == Init /\ [][Call]_<< i, x >>
Conforms == (\E k \in 1 .. Len(x) : ~x[k].ok) => PrintT(ToJson([i |-> i, x |-> [k \in 1 .. Len(x) |-> [ok |-> x[k].ok, cs |-> x[k].cs]]]))
(* what cannot be read has a cause, what can has none                        *)
Explained == (x # Pending /\ Traces[i].op = "cause") =>
               LET q == Traces[i] IN (x[1].cs = {}) = (IF q.g = "expr" THEN ReadExpr(q.t).r = "ok" ELSE Entry(q.g, q.t).r = "ok")
=============================================================================
