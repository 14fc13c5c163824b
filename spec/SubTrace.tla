------------------------------- MODULE SubTrace -----------------------------
(* Validation of recorded calls of the sub-parsers.                          *)
EXTENDS SubParsers, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, x
Pending == [r |-> "pending"]
Init == i \in 1 .. Len(Traces) /\ x = Pending
Call == x = Pending /\ x' = Verdict(Traces[i].p, Traces[i].t) /\ UNCHANGED i
Spec == Init /\ [][Call]_<< i, x >>
Agrees == LET y == Traces[i].res IN x.r = y.r /\ (x.r = "ok" => x.n = y.n /\ ToJson(x.v) = ToJson(y.v))
Conforms == (x # Pending /\ ~Agrees) => PrintT(ToJson([i |-> i, x |-> x]))
=============================================================================
