------------------------------- MODULE HclMerge -----------------------------
(* Merging of value trees.  A tree is <<"U"|"M", items>>; an item of a map is *)
(* <<kind, key, value>>, of a block <<labels, map>>.                         *)
EXTENDS Integers, Sequences

Good(v) == [ok |-> TRUE, v |-> v]
Bad == [ok |-> FALSE, v |-> << >>]

RECURSIVE MergeMap(_), MergeVal(_), MergeItems(_, _, _), MergeSeq(_, _, _), MergeBlk(_, _, _), AddEntries(_, _, _)

(* index of the item with that key text (labels), 0 if there is none         *)
RECURSIVE KeyAt(_, _, _)
KeyAt(items, key, i) == IF i > Len(items) THEN 0 ELSE IF items[i][2] = key THEN i ELSE KeyAt(items, key, i + 1)
RECURSIVE LabAt(_, _, _)
LabAt(items, lab, i) == IF i > Len(items) THEN 0 ELSE IF items[i][1] = lab THEN i ELSE LabAt(items, lab, i + 1)

(* add block entries to a merged block, labels have to be new                *)
AddEntries(acc, es, i) ==
  IF i > Len(es) THEN Good(acc)
  ELSE IF LabAt(acc, es[i][1], 1) # 0 THEN Bad
  ELSE AddEntries(Append(acc, es[i]), es, i + 1)

MergeBlk(es, i, acc) ==
  IF i > Len(es) THEN Good(acc)
  ELSE LET m == MergeMap(es[i][2])
       IN IF ~m.ok THEN Bad
          ELSE IF LabAt(acc, es[i][1], 1) # 0 THEN Bad
          ELSE MergeBlk(es, i + 1, Append(acc, << es[i][1], m.v >>))

MergeSeq(vs, i, acc) ==
  IF i > Len(vs) THEN Good(acc)
  ELSE LET m == MergeVal(vs[i]) IN IF ~m.ok THEN Bad ELSE MergeSeq(vs, i + 1, Append(acc, m.v))
RECURSIVE MergeMaps(_, _, _)
MergeMaps(vs, i, acc) ==
  IF i > Len(vs) THEN Good(acc)
  ELSE LET m == MergeMap(vs[i]) IN IF ~m.ok THEN Bad ELSE MergeMaps(vs, i + 1, Append(acc, m.v))

MergeVal(v) ==
  CASE v[1] = "list" -> LET m == MergeSeq(v[2], 1, << >>) IN IF m.ok THEN Good(<< "list", m.v >>) ELSE Bad
    [] v[1] = "objs" -> LET m == MergeMaps(v[2], 1, << >>) IN IF m.ok THEN Good(<< "objs", m.v >>) ELSE Bad
    [] v[1] = "blk"  -> LET m == MergeBlk(v[2][2], 1, << >>) IN IF m.ok THEN Good(<< "blk", << "M", m.v >> >>) ELSE Bad
    [] OTHER -> Good(v)

MergeItems(items, i, acc) ==
  IF i > Len(items) THEN Good(acc)
  ELSE LET it == items[i]
           m == MergeVal(it[3])
           k == KeyAt(acc, it[2], 1)
       IN IF ~m.ok THEN Bad
          ELSE IF k = 0 THEN MergeItems(items, i + 1, Append(acc, << it[1], it[2], m.v >>))
          ELSE LET old == acc[k][3] IN
               CASE old[1] = "objs" /\ m.v[1] = "objs" ->
                      MergeItems(items, i + 1, [acc EXCEPT ![k][3][2] = @ \o m.v[2]])
                 [] old[1] = "blk" /\ m.v[1] = "blk" ->
                      LET u == AddEntries(old[2][2], m.v[2][2], 1)
                      IN IF u.ok THEN MergeItems(items, i + 1, [acc EXCEPT ![k][3][2][2] = u.v]) ELSE Bad
                 [] OTHER -> Bad

(* an already merged map is left as it is                                    *)
MergeMap(mp) == IF mp[1] = "M" THEN Good(mp)
                ELSE LET m == MergeItems(mp[2], 1, << >>) IN IF m.ok THEN Good(<< "M", m.v >>) ELSE Bad

(* ------------------------------------------------ what merging has to keep *)
RECURSIVE Leaves(_), LeavesMap(_), LeavesSeq(_, _), LeavesItems(_, _, _)
(* number of scalars and empty containers, at every level                    *)
LeavesSeq(vs, i) == IF i > Len(vs) THEN 0 ELSE Leaves(vs[i]) + LeavesSeq(vs, i + 1)
RECURSIVE LeavesMaps(_, _)
LeavesMaps(ms, i) == IF i > Len(ms) THEN 0 ELSE 1 + LeavesMap(ms[i]) + LeavesMaps(ms, i + 1)
LeavesItems(is, i, f) == IF i > Len(is) THEN 0
                         ELSE (IF f = 3 THEN Leaves(is[i][3]) ELSE 1 + LeavesMap(is[i][2])) + LeavesItems(is, i + 1, f)
LeavesMap(m) == LeavesItems(m[2], 1, 3)
Leaves(v) == CASE v[1] = "list" -> 1 + LeavesSeq(v[2], 1)
               [] v[1] = "objs" -> LeavesMaps(v[2], 1)
               [] v[1] = "blk" -> LeavesItems(v[2][2], 1, 2)
               [] OTHER -> 1
RECURSIVE AllMerged(_), AllMergedMap(_)
AllMergedMap(m) == /\ m[1] = "M"
                   /\ \A i \in 1 .. Len(m[2]) : AllMerged(m[2][i][3])
                   /\ \A i, j \in 1 .. Len(m[2]) : i # j => m[2][i][2] # m[2][j][2]
AllMerged(v) == CASE v[1] = "list" -> \A i \in 1 .. Len(v[2]) : AllMerged(v[2][i])
                  [] v[1] = "objs" -> \A i \in 1 .. Len(v[2]) : AllMergedMap(v[2][i])
                  [] v[1] = "blk" -> v[2][1] = "M" /\ \A i \in 1 .. Len(v[2][2]) : AllMergedMap(v[2][2][i][2])
                  [] OTHER -> TRUE
=============================================================================
