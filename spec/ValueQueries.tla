---------------------------- MODULE ValueQueries ----------------------------
(* What a value says about itself.  Values are the trees of HclMerge:        *)
(* <<"null">>, <<"bool",b>>, <<"int",digits>>, <<"flt",neg,digits,exp>>,     *)
(* <<"str",text>>, <<"list",values>>, <<"objs",maps>>, <<"blk",block>>.      *)
EXTENDS HclGen, HclMerge, Json, FiniteSets

CONSTANTS What, Lo, Hi, Depth

KindName == [null |-> "Null", bool |-> "Boolean", int |-> "Integer", flt |-> "Float", str |-> "String",
             list |-> "List", objs |-> "Object", blk |-> "Block"]
KindsOf == << "null", "int", "flt", "bool", "str", "list", "objs", "blk" >>
Kind(v) == v[1]
Simple(v) == Kind(v) \in {"null", "bool", "int", "flt", "str"}
Size(v) == CASE Simple(v) -> 1
             [] Kind(v) = "blk" -> Len(v[2][2])
             [] OTHER -> Len(v[2])
RECURSIVE Scalars(_), ScalarsMap(_), SumVals(_, _), SumMaps(_, _), SumItems(_, _), SumEntries(_, _)
SumVals(vs, i) == IF i > Len(vs) THEN 0 ELSE Scalars(vs[i]) + SumVals(vs, i + 1)
SumMaps(ms, i) == IF i > Len(ms) THEN 0 ELSE ScalarsMap(ms[i]) + SumMaps(ms, i + 1)
SumItems(is, i) == IF i > Len(is) THEN 0 ELSE Scalars(is[i][3]) + SumItems(is, i + 1)
SumEntries(es, i) == IF i > Len(es) THEN 0 ELSE ScalarsMap(es[i][2]) + SumEntries(es, i + 1)
ScalarsMap(m) == SumItems(m[2], 1)
ScalarsBlk(b) == SumEntries(b[2], 1)
Scalars(v) == CASE Simple(v) -> 1
                [] Kind(v) = "list" -> SumVals(v[2], 1)
                [] Kind(v) = "objs" -> SumMaps(v[2], 1)
                [] OTHER -> ScalarsBlk(v[2])
(* rep = "M" or "U": every map and block inside has that representation      *)
RECURSIVE AllRep(_, _), AllRepMap(_, _)
AllRepMap(m, rep) == m[1] = rep /\ \A i \in 1 .. Len(m[2]) : AllRep(m[2][i][3], rep)
AllRepBlk(b, rep) == b[1] = rep /\ \A i \in 1 .. Len(b[2]) : AllRepMap(b[2][i][2], rep)
AllRep(v, rep) == CASE Simple(v) -> TRUE
                    [] Kind(v) = "list" -> \A i \in 1 .. Len(v[2]) : AllRep(v[2][i], rep)
                    [] Kind(v) = "objs" -> \A i \in 1 .. Len(v[2]) : AllRepMap(v[2][i], rep)
                    [] OTHER -> AllRepBlk(v[2], rep)

(* accessors: the kind they are for; what a mutable one is used for here     *)
Access == << << "integer", "int" >>, << "float", "flt" >>, << "boolean", "bool" >>, << "borrow_str", "str" >>, << "string", "str" >>,
             << "borrow_list", "list" >>, << "list", "list" >>, << "borrow_map", "objs" >>, << "map", "objs" >>,
             << "borrow_block", "blk" >>, << "block", "blk" >> >>
MutAccess == << << "borrow_string_mut", "str" >>, << "borrow_list_mut", "list" >>, << "borrow_map_mut", "objs" >>, << "borrow_block_mut", "blk" >> >>
BANG == 33
NewEntry == << << S("new") >>, << "U", << >> >> >>
RECURSIVE PutEntry(_, _, _)
PutEntry(es, e, i) == IF i > Len(es) THEN Append(es, e) ELSE IF es[i][1] = e[1] THEN [es EXCEPT ![i] = e] ELSE PutEntry(es, e, i + 1)
Changed(v) == CASE Kind(v) = "str" -> << "str", Append(v[2], BANG) >>
                [] Kind(v) = "list" -> << "list", Append(v[2], << "null" >>) >>
                [] Kind(v) = "objs" -> << "objs", Append(v[2], << "U", << >> >>) >>
                [] OTHER -> IF v[2][1] = "U" THEN << "blk", << "U", Append(v[2][2], NewEntry) >> >>
                            ELSE << "blk", << "M", PutEntry(v[2][2], NewEntry, 1) >> >>
(* answer of an accessor                                                     *)
Acc(v, k) == IF Kind(v) = k THEN << "ok", v >> ELSE << "err", "Value", KindName[k], KindName[Kind(v)] >>
MutAcc(v, k) == IF Kind(v) = k THEN << "ok", Changed(v) >> ELSE << "err", "Value", KindName[k], KindName[Kind(v)] >>
MapAnswer(m) == [len |-> Len(m[2]), empty |-> Len(m[2]) = 0, scalars |-> ScalarsMap(m), noscalars |-> ScalarsMap(m) = 0,
                 merged |-> AllRepMap(m, "M"), unmerged |-> AllRepMap(m, "U")]
BlkAnswer(b) == [len |-> Len(b[2]), empty |-> Len(b[2]) = 0, scalars |-> ScalarsBlk(b), noscalars |-> ScalarsBlk(b) = 0,
                 merged |-> AllRepBlk(b, "M"), unmerged |-> AllRepBlk(b, "U")]
Answers(v) ==
  [is |-> [i \in 1 .. Len(KindsOf) |-> Kind(v) = KindsOf[i]],
   body |-> Kind(v) = "objs", name |-> KindName[Kind(v)], scalar |-> Simple(v), aggregate |-> ~Simple(v),
   len |-> Size(v), empty |-> Size(v) = 0, scalars |-> Scalars(v), noscalars |-> Scalars(v) = 0,
   merged |-> AllRep(v, "M"), unmerged |-> AllRep(v, "U"),
   acc |-> [i \in 1 .. Len(Access) |-> Acc(v, Access[i][2])],
   mut |-> [i \in 1 .. Len(MutAccess) |-> MutAcc(v, MutAccess[i][2])],
   maps |-> IF Kind(v) = "objs" THEN [i \in 1 .. Len(v[2]) |-> MapAnswer(v[2][i])] ELSE << >>,
   blocks |-> IF Kind(v) = "blk" THEN << BlkAnswer(v[2]) >> \o [i \in 1 .. Len(v[2][2]) |-> MapAnswer(v[2][2][i][2])] ELSE << >>]

(* -------------------------------------------------------- the values asked *)
Scal == {<< "null" >>, << "bool", TRUE >>, << "bool", FALSE >>, << "int", S("0") >>, << "int", S("-9223372036854775808") >>, << "flt", FALSE, << 0 >>, 0 >>,
         << "flt", TRUE, << 2, 5 >>, -1 >>, << "str", << >> >>, << "str", S("x") >>, << "str", << 955, 10 >> >>}
Some == {<< "null" >>, << "bool", TRUE >>, << "int", S("7") >>, << "str", << >> >>}
One == {<< "null" >>, << "int", S("7") >>}
UpTo2(set) == {<< >>} \cup {<< x >> : x \in set} \cup {<< x, y >> : x, y \in set}
KeyS == {<< "I", S("a") >>, << "S", S("b") >>}
Items(vals) == {<< k[1], k[2], v >> : k \in KeyS, v \in vals}
Distinct(is) == \A i, j \in 1 .. Len(is) : i # j => is[i][2] # is[j][2]
MapsOf(vals) == {<< "U", is >> : is \in UpTo2(Items(vals))} \cup {<< "M", is >> : is \in {js \in UpTo2(Items(vals)) : Distinct(js) /\ (Len(js) < 2 \/ js[1][2] = S("a"))}}
LabsOf == {<< S("x") >>, << S("x"), S("y") >>, << >>}
EntriesOf(maps) == {<< l, m >> : l \in LabsOf, m \in maps}
DistinctL(es) == \A i, j \in 1 .. Len(es) : i # j => es[i][1] # es[j][1]
BlksOf(maps) == {<< "U", es >> : es \in UpTo2(EntriesOf(maps))} \cup {<< "M", es >> : es \in {fs \in UpTo2(EntriesOf(maps)) : DistinctL(fs)}}
Empties == {<< "list", << >> >>, << "objs", << >> >>, << "objs", << << "U", << >> >> >> >>, << "objs", << << "M", << >> >> >> >>, << "blk", << "U", << >> >> >>, << "blk", << "M", << >> >> >>}
Level1 == {<< "list", vs >> : vs \in UpTo2(Scal)} \cup {<< "objs", ms >> : ms \in UpTo2(MapsOf(One))} \cup {<< "blk", b >> : b \in BlksOf(MapsOf({<< "null" >>}))}
Mixed == One \cup Empties \cup {<< "list", << << "objs", << << "M", << >> >> >> >> >> >>, << "objs", << << "U", << >> >>, << "M", << >> >> >> >>,
                                << "blk", << "M", << << << S("x") >>, << "U", << >> >> >> >> >> >>, << "blk", << "U", << << << S("x") >>, << "M", << >> >> >> >> >> >>}
Level2 == {<< "list", vs >> : vs \in UpTo2(Mixed)} \cup {<< "objs", << m >> >> : m \in MapsOf(Mixed)}
            \cup {<< "blk", << r, << << << S("x") >>, m >> >> >> >> : r \in {"U", "M"}, m \in MapsOf(Mixed)}

(* pseudo-random trees                                                       *)
ScalS == << << "null" >>, << "bool", TRUE >>, << "int", S("-12") >>, << "flt", TRUE, << 1, 5 >>, 3 >>, << "str", S("q") >>, << "null" >>, << "int", S("9223372036854775807") >> >>
RECURSIVE RVal(_, _, _), RMap(_, _, _), RSeq(_, _, _, _)
RepOf(s, rep) == IF rep = "mix" THEN Pick(s, << "U", "M", "M" >>) ELSE rep
RSeq(s, d, n, rep) == [i \in 1 .. n |-> RVal(Mix(s, 10 + i), d - 1, rep)]
RMap(s, d, rep) ==
  LET r == RepOf(Mix(s, 1), rep)
      vs == RSeq(Mix(s, 2), d, Val(Mix(s, 3), 4) - 1, rep)
  IN << r, [i \in 1 .. Len(vs) |-> << Pick(Mix(s, 20 + i), << "I", "S" >>), IF r = "U" /\ Val(Mix(s, 40 + i), 3) = 1 THEN S("k") ELSE S("k") \o << 48 + i >>, vs[i] >>] >>
RVal(s, d, rep) ==
  LET k == Val(Mix(s, 1), IF d <= 0 THEN 3 ELSE 9) IN
  CASE k <= 3 -> Pick(Mix(s, 2), ScalS)
    [] k \in {4, 5} -> << "list", RSeq(Mix(s, 3), d, Val(Mix(s, 4), 4) - 1, rep) >>
    [] k \in {6, 7} -> << "objs", [i \in 1 .. (Val(Mix(s, 5), 4) - 1) |-> RMap(Mix(s, 60 + i), d, rep)] >>
    [] OTHER -> << "blk", << RepOf(Mix(s, 6), rep), [i \in 1 .. (Val(Mix(s, 7), 4) - 1) |-> << << S("l"), << 48 + i >> >>, RMap(Mix(s, 80 + i), d, rep) >>] >> >>

VARIABLES v, st
vars == << v, st >>
Init == /\ st = "new"
        /\ CASE What = "flat" -> v \in Scal \cup Level1 \cup Empties
             [] What = "deep" -> v \in Level2
             [] OTHER -> \E i \in Lo .. Hi : v = RVal(Seed(i), Depth, Pick(Mix(Seed(i), 7), << "U", "M", "mix", "mix" >>))
Ask == st = "new" /\ st' = "asked" /\ UNCHANGED v
Spec == Init /\ [][Ask]_vars

(* the kinds are disjoint; merging merges and keeps the number of scalars    *)
OneKind == Cardinality({i \in 1 .. Len(KindsOf) : Kind(v) = KindsOf[i]}) = 1
Queries == LET m == MergeVal(v) IN
           /\ AllRep(v, "U") => (m.ok => AllRep(m.v, "M") /\ Scalars(m.v) = Scalars(v))
           /\ AllRep(v, "M") => m.ok /\ m.v = v
           /\ Scalars(v) <= Leaves(v)
           /\ Kind(v) = "list" => Scalars(v) = SumVals(v[2], 1)
Emit == st = "asked" => PrintT(ToJson([op |-> "vq", v |-> v, x |-> [r |-> "ok", v |-> Answers(v)]]))
=============================================================================
