------------------------------- MODULE HclTrace -----------------------------
(* Validation of recorded executions of the reader entry points: every trace *)
(* is one call, its text and its outcome.  The machine reads the text and    *)
(* the outcome has to be the one it reaches.                                 *)
EXTENDS HclReader, HclMerge, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES i, st, ph
StartOf(op) == CASE op = "parse" -> ConfigStart [] op = "expr" -> ExprStart [] op = "value" -> ValueStart
Init == i \in 1 .. Len(Traces) /\ st = StartOf(Traces[i].op) /\ ph = 0
(* the text is read in portions                                              *)
Portion == 200
Read == LET t == Traces[i].t IN
        /\ ph * Portion < Len(t) /\ st.m # "dead"
        /\ st' = Run(st, SubSeq(t, ph * Portion + 1, IF (ph + 1) * Portion < Len(t) THEN (ph + 1) * Portion ELSE Len(t)))
        /\ ph' = ph + 1 /\ UNCHANGED i
Spec == Init /\ [][Read]_<< i, st, ph >>
AtEnd == st.m = "dead" \/ ph * Portion >= Len(Traces[i].t)

(* merged maps are unordered: put the items in the order of the other tree   *)
RECURSIVE SameV(_, _), SameM(_, _), SameSeq(_, _, _)
SameSeq(a, b, f) == Len(a) = Len(b) /\ \A k \in 1 .. Len(a) :
                      CASE f = "v" -> SameV(a[k], b[k])
                        [] f = "m" -> SameM(a[k], b[k])
                        [] f = "i" -> a[k][1] = b[k][1] /\ a[k][2] = b[k][2] /\ SameV(a[k][3], b[k][3])
                        [] f = "b" -> a[k][1] = b[k][1] /\ SameM(a[k][2], b[k][2])
SameM(a, b) ==
  /\ a[1] = b[1] /\ Len(a[2]) = Len(b[2])
  /\ IF a[1] = "U" THEN SameSeq(a[2], b[2], "i")
     ELSE \A k \in 1 .. Len(a[2]) : LET j == KeyAt(b[2], a[2][k][2], 1) IN
            j # 0 /\ a[2][k][1] = b[2][j][1] /\ SameV(a[2][k][3], b[2][j][3])
SameB(a, b) ==
  /\ a[1] = b[1] /\ Len(a[2]) = Len(b[2])
  /\ IF a[1] = "U" THEN SameSeq(a[2], b[2], "b")
     ELSE \A k \in 1 .. Len(a[2]) : LET j == LabAt(b[2], a[2][k][1], 1) IN
            j # 0 /\ SameM(a[2][k][2], b[2][j][2])
(* a literal of more than 15 digits or at the ends of the range: here only sign and magnitude are compared *)
Mag(a) == IF a[1] = "inf" THEN 309 ELSE IF a[3] = << 0 >> THEN -330 ELSE Len(a[3]) + a[4]
Hard(a) == a[1] = "flt" /\ (Len(a[3]) > 15 \/ Mag(a) <= -300 \/ Mag(a) >= 308)
SameHard(a, b) == /\ b[1] \in {"flt", "inf"}
                  /\ Mag(a) - Mag(b) \in -1 .. 1 \/ (Mag(a) < -300 /\ Mag(b) < -300) \/ (Mag(a) > 307 /\ Mag(b) > 307)
                  /\ a[2] = b[2] \/ Mag(b) < -300
SameV(a, b) ==
  IF Hard(a) THEN SameHard(a, b)
  ELSE a[1] = b[1] /\ CASE a[1] = "list" -> SameSeq(a[2], b[2], "v")
                   [] a[1] = "objs" -> SameSeq(a[2], b[2], "m")
                   [] a[1] = "blk" -> SameB(a[2], b[2])
                   [] OTHER -> a = b

Expected ==
  LET op == Traces[i].op IN
  CASE op = "parse" -> ConfigVerdict(st)
    [] op = "expr" -> ExprVerdict(st)
    [] op = "value" -> LET u == ValueVerdict(st) IN
         IF u.r = "ok" /\ Traces[i].m
         THEN LET g == MergeMap(u.v) IN IF g.ok THEN [r |-> "ok", v |-> g.v] ELSE Reject
         ELSE u
Agrees ==
  LET x == Expected  y == Traces[i].res IN
  /\ x.r = y.r
  /\ x.r = "ok" => IF Traces[i].op = "value" THEN SameM(x.v, y.v) ELSE ToJson(x.v) = ToJson(y.v)
(* every disagreement is reported                                            *)
Conforms == (AtEnd /\ ~Agrees) => PrintT(ToJson([i |-> i, x |-> Expected]))
=============================================================================
