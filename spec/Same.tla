-------------------------------- MODULE Same --------------------------------
(* When two trees say the same thing.                                        *)
EXTENDS HclReader, HclMerge

SameNum(a, b) == Canon(ParseLit(a)) = Canon(ParseLit(b))
RECURSIVE SameExpr(_, _), SameBody(_, _)
(* expressions: numbers by value, tuples in order, objects in order with     *)
(* equal keys of one kind                                                    *)
SameExpr(a, b) ==
  /\ a[1] = b[1]
  /\ CASE a[1] = "num" -> SameNum(a[2], b[2])
       [] a[1] = "tup" -> Len(a[2]) = Len(b[2]) /\ \A k \in 1 .. Len(a[2]) : SameExpr(a[2][k], b[2][k])
       [] a[1] = "obj" -> Len(a[2]) = Len(b[2]) /\ \A k \in 1 .. Len(a[2]) :
                            a[2][k][1] = b[2][k][1] /\ a[2][k][2] = b[2][k][2] /\ SameExpr(a[2][k][3], b[2][k][3])
       [] a[1] \in {"str", "bool"} -> a[2] = b[2]
       [] OTHER -> TRUE
(* labels are the same when their text is                                    *)
SameLabels(a, b) == Len(a) = Len(b) /\ \A k \in 1 .. Len(a) : a[k][2] = b[k][2]
SameElem(a, b) ==
  /\ a[1] = b[1] /\ a[2] = b[2]
  /\ IF a[1] = "A" THEN SameExpr(a[3], b[3]) ELSE SameLabels(a[3], b[3]) /\ SameBody(a[4], b[4])
SameBody(a, b) == Len(a) = Len(b) /\ \A k \in 1 .. Len(a) : SameElem(a[k], b[k])

(* value trees: keys by text, merged collections in any order                *)
RECURSIVE SameVal(_, _), SameMap(_, _)
SameMap(a, b) ==
  /\ a[1] = b[1] /\ Len(a[2]) = Len(b[2])
  /\ \A k \in 1 .. Len(a[2]) :
       LET j == IF a[1] = "U" THEN k ELSE KeyAt(b[2], a[2][k][2], 1)
       IN j # 0 /\ a[2][k][2] = b[2][j][2] /\ SameVal(a[2][k][3], b[2][j][3])
SameBlk(a, b) ==
  /\ a[1] = b[1] /\ Len(a[2]) = Len(b[2])
  /\ \A k \in 1 .. Len(a[2]) :
       LET j == IF a[1] = "U" THEN k ELSE LabAt(b[2], a[2][k][1], 1)
       IN j # 0 /\ a[2][k][1] = b[2][j][1] /\ SameMap(a[2][k][2], b[2][j][2])
SameVal(a, b) ==
  /\ a[1] = b[1]
  /\ CASE a[1] = "list" -> Len(a[2]) = Len(b[2]) /\ \A k \in 1 .. Len(a[2]) : SameVal(a[2][k], b[2][k])
       [] a[1] = "objs" -> Len(a[2]) = Len(b[2]) /\ \A k \in 1 .. Len(a[2]) : SameMap(a[2][k], b[2][k])
       [] a[1] = "blk" -> SameBlk(a[2], b[2])
       [] OTHER -> a = b
Same(g, a, b) == CASE g = "hcl" -> SameBody(a, b) [] g = "expr" -> SameExpr(a, b) [] OTHER -> SameMap(a, b)
=============================================================================
