------------------------------ MODULE SameEdit ------------------------------
(* A document and what one edit makes of it: do the two still say the same?  *)
EXTENDS HclEdit, Same

G == IF Expr THEN "expr" ELSE IF ValGrammar THEN "val" ELSE "hcl"
Base0 == LET t == Docs[d] s == Run(Start0, t) IN
         IF Expr THEN ExprVerdict(s) ELSE IF ValGrammar THEN ValueVerdict(s) ELSE ConfigVerdict(s)
(* a literal at the ends of the range of floats is compared in C06           *)
RECURSIVE Tame(_), TameMap(_)
TameMap(m) == \A k \in 1 .. Len(m[2]) : Tame(m[2][k][3])
Tame(v) == CASE v[1] = "list" -> \A k \in 1 .. Len(v[2]) : Tame(v[2][k])
             [] v[1] = "objs" -> \A k \in 1 .. Len(v[2]) : TameMap(v[2][k])
             [] v[1] = "blk" -> \A k \in 1 .. Len(v[2][2]) : TameMap(v[2][2][k][2])
             [] OTHER -> v[1] # "inf"
Pair(g, v, w) == PrintT(ToJson([op |-> "same", g |-> g, a |-> Docs[d], b |-> pre, v |-> v,
                                x |-> [r |-> "ok", same |-> Same(g, v, w)]]))
SEmit ==
  full /\ Verdict.r = "ok" =>
    LET v == Base0.v  w == Verdict.v IN
    /\ G = "val" => TameMap(w)
    /\ Pair(G, v, w)
    /\ G = "val" => LET m == MergeMap(v) n == MergeMap(w) IN m.ok /\ n.ok => Pair("mrg", m.v, n.v)
Sym == full /\ Verdict.r = "ok" => Same(G, Base0.v, Verdict.v) = Same(G, Verdict.v, Base0.v) /\ Same(G, Verdict.v, Verdict.v)
=============================================================================
