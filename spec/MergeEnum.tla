------------------------------ MODULE MergeEnum -----------------------------
(* Exhaustive small documents with names that meet: what merging makes of    *)
(* each of them.                                                             *)
EXTENDS HclReader, Text, HclMerge, Json

CONSTANTS Alpha, MaxK

VARIABLES t, st, k
Chunks ==
  CASE Alpha = "names" -> {S(x) : x \in {"a=1~", "\"a\"=1~", "\"\\x61\"=[]~", "a{", "}~", "a=null~", "a={", "b=1~"}}
    [] Alpha = "blocks" -> {S(x) : x \in {"a \"x\"{", "a\"x\"\"y\"{", "a \"y\" {", "a \"x y\"{", "}~", "i=1~", "a {", "\"a\"=0~"}}
    [] Alpha = "odd" -> {S(x) : x \in {"\"a.b\"=1~", "\"a b\"={}~", "\" \"=[]~", "\"A\"=null~", "a={}~", "a=1~", "\"\"=true~", "a-b=1~", "\"a\\nb\"={}~", "\"a-b\"=1.5~",
                                        "\"a/b\" {}~", "a \"x.y\" {}~", "a \"x\" \"y\" {}~", "a \"x y\" {}~", "a \"\" {}~"}}
                        \cup {<< 34, 233, 34, 61, 49, 10 >>, << 233, 61, 34, 34, 10 >>, << 97, 32, 34, 8364, 34, 123, 125, 10 >>}
    [] Alpha = "nested" -> {S(x) : x \in {"a{", "a \"x\"{", "}~", "[", "],~", "a=", "{", "},", "1~"}}

Init == t = << >> /\ st = ValueStart /\ k = 0
Next == /\ k < MaxK /\ st.m # "dead"
        /\ \E c \in Chunks : t' = t \o c /\ st' = Run(st, c) /\ k' = k + 1
Spec == Init /\ [][Next]_<< t, st, k >>

Verdict == ValueVerdict(st)
Merged == MergeMap(Verdict.v)
(* merging keeps every entry and fails exactly on what cannot both be kept   *)
RECURSIVE Clash(_), ClashMap(_)
Pairs(is) == {<< i, j >> \in (1 .. Len(is)) \X (1 .. Len(is)) : i < j}
Labelled(v) == IF v[1] = "blk" THEN {v[2][2][i][1] : i \in 1 .. Len(v[2][2])} ELSE {}
ClashMap(m) == \/ \E i \in 1 .. Len(m[2]) : Clash(m[2][i][3])
               \/ \E p \in Pairs(m[2]) : LET x == m[2][p[1]]  y == m[2][p[2]] IN
                    x[2] = y[2] /\ ~(x[3][1] = "objs" /\ y[3][1] = "objs")
                                /\ ~(x[3][1] = "blk" /\ y[3][1] = "blk" /\ Labelled(x[3]) \cap Labelled(y[3]) = {})
Clash(v) == CASE v[1] = "list" -> \E i \in 1 .. Len(v[2]) : Clash(v[2][i])
              [] v[1] = "objs" -> \E i \in 1 .. Len(v[2]) : ClashMap(v[2][i])
              [] v[1] = "blk" -> \E i \in 1 .. Len(v[2][2]) : ClashMap(v[2][2][i][2])
              [] OTHER -> FALSE
Keeps == Verdict.r = "ok" =>
           /\ Merged.ok = ~ClashMap(Verdict.v)
           /\ Merged.ok => AllMergedMap(Merged.v) /\ LeavesMap(Merged.v) = LeavesMap(Verdict.v)
Emit == Verdict.r = "ok" => PrintT(ToJson([op |-> "value", m |-> TRUE, t |-> t,
                                           x |-> IF Merged.ok THEN [r |-> "ok", v |-> Merged.v] ELSE Reject]))
=============================================================================
