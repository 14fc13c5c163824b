----------------------------- MODULE SourceTrace ----------------------------
(* Validation of recorded calls of the entry points for strings, slices and  *)
(* readers.                                                                  *)
EXTENDS Sources, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, x
Pending == [r |-> "?"]
Init == i \in 1 .. Len(Traces) /\ x = Pending
Call == LET q == Traces[i] IN
        x = Pending /\ x' = [r |-> "x", rd |-> FromReader(q.g, q.b, q.ev), sl |-> FromBytes(q.g, q.b)] /\ UNCHANGED i
Spec == Init /\ [][Call]_<< i, x >>
Conforms == x # Pending => PrintT(ToJson([i |-> i, x |-> x]))
=============================================================================
