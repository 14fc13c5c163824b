-------------------------------- MODULE Pairs --------------------------------
(* Histories of a key-value collection.  Abstractly: a representation and    *)
(* the entries.  "gen": a collection of numbers under texts, "map": a map of *)
(* values, "blk": labelled blocks.                                           *)
EXTENDS HclGen, HclMerge, Json, FiniteSets

CONSTANTS Coll, Alpha, MaxK, Lo, Hi

VARIABLES rep,    \* "U", "M", or "fail" when the collection was consumed by a failing merge
          es,     \* entries: gen << key, n >>, map << kind, key, value >>, blk << labels, map >>
          loose,  \* the order of different keys is not determined any more
          ops, outs, n, seed
vars == << rep, es, loose, ops, outs, n, seed >>

KeyIx == IF Coll = "map" THEN 2 ELSE 1
ValIx == IF Coll = "map" THEN 3 ELSE 2
KeyOf(e) == e[KeyIx]
ValOf(e) == e[ValIx]
RECURSIVE Pos(_, _, _)
Pos(s, k, i) == IF i > Len(s) THEN 0 ELSE IF KeyOf(s[i]) = k THEN i ELSE Pos(s, k, i + 1)
(* one insertion                                                             *)
Add(r, s, e) == IF r = "U" THEN Append(s, e)
                ELSE LET p == Pos(s, KeyOf(e), 1) IN IF p = 0 THEN Append(s, e) ELSE [s EXCEPT ![p][ValIx] = ValOf(e)]
RECURSIVE AddAll(_, _, _)
AddAll(r, s, new) == IF new = << >> THEN s ELSE AddAll(r, Add(r, s, new[1]), Tail(new))
(* merging                                                                   *)
Merge(r, s) == IF r = "M" THEN Good(s)
               ELSE IF Coll = "map" THEN MergeItems(s, 1, << >>) ELSE MergeBlk(s, 1, << >>)

(* ------------------------------------------------------------- the entries *)
Num(k) == IF k < 10 THEN << 48 + k >> ELSE << 48 + (k \div 10), 48 + (k % 10) >>
Leaf(r, k) == << r, << << "I", S("id"), << "int", Num(k) >> >> >> >>
(* shape: what kind of value; r: representation of inner maps                *)
Value(shape, r, k) ==
  CASE shape = "num" -> << "int", Num(k) >>
    [] shape = "null" -> << "null" >>
    [] shape = "list" -> << "list", << << "int", Num(k) >>, << "objs", << Leaf(r, k) >> >> >> >>
    [] shape = "obj" -> << "objs", << Leaf(r, k) >> >>
    [] shape = "obj2" -> << "objs", << Leaf(r, k), << r, << >> >> >> >>
    [] shape = "estr" -> << "str", << >> >>
    [] shape = "elist" -> << "list", << >> >>
    [] shape = "eblk" -> << "blk", << r, << >> >> >>
    [] shape = "eobj" -> << "objs", << << r, << >> >> >> >>
    [] shape = "bx" -> << "blk", << r, << << << S("x") >>, Leaf(r, k) >> >> >> >>
    [] shape = "by" -> << "blk", << r, << << << S("y") >>, Leaf(r, k) >> >> >> >>
    [] OTHER -> << "blk", << r, << << << S("x"), S("y") >>, Leaf(r, k) >>, << << S("x") >>, << r, << >> >> >> >> >> >>
MapKeys == IF Alpha = "one" THEN << << "I", S("a") >> >> ELSE << << "I", S("a") >>, << "S", S("a") >>, << "I", S("b") >>, << "S", S("") >>, << "S", << 955, 32 >> >> >>
Shapes == << "num", "obj", "bx", "by", "null", "list", "obj2", "bxy", "elist", "eobj", "estr", "eblk" >>
LabelsS == << << S("x") >>, << S("x"), S("y") >>, << S("y") >>, << >>, << S("x y") >>, << S("") >> >>
GenKeys == << S("x"), S("y"), S(""), << 233 >>, S("xy") >>
(* what can be inserted next, by choice c of the alphabet                    *)
Bodies(r, k) == << Leaf(r, k), << r, << >> >>, << r, << << "I", S("id"), << "objs", << Leaf(r, k) >> >> >> >> >> >>
Entry(r, a, b, k) ==
  CASE Coll = "gen" -> << GenKeys[a], k >>
    [] Coll = "map" -> << MapKeys[a][1], MapKeys[a][2], Value(Shapes[b], r, k) >>
    [] OTHER -> << LabelsS[a], Bodies(r, k)[b] >>
NA == CASE Coll = "gen" -> (IF Alpha = "rand" THEN 5 ELSE 2) [] Coll = "map" -> (IF Alpha = "one" THEN 1 ELSE IF Alpha = "rand" THEN 5 ELSE 3)
        [] OTHER -> (IF Alpha = "rand" THEN 6 ELSE 2)
NB == CASE Coll = "gen" -> 1 [] Coll = "map" -> (IF Alpha = "two" THEN 2 ELSE IF Alpha = "one" THEN 10 ELSE 12) [] OTHER -> (IF Alpha = "rand" THEN 3 ELSE 2)

(* -------------------------------------------------------------- operations *)
InnerRep == IF rep = "M" THEN "M" ELSE "U"
Ext(new) == /\ ops' = Append(ops, << "ext", new >>) /\ outs' = Append(outs, "ok")
            /\ es' = AddAll(rep, es, new) /\ n' = n + Len(new) /\ UNCHANGED << rep, loose >>
(* the collection is consumed                                                *)
MergeOp ==
  LET m == Merge(rep, es) IN
  /\ Coll # "gen"
  /\ ops' = Append(ops, << "merge" >>) /\ UNCHANGED n
  /\ IF m.ok THEN rep' = "M" /\ es' = m.v /\ outs' = Append(outs, "ok") ELSE rep' = "fail" /\ es' = << >> /\ outs' = Append(outs, "err")
  /\ loose' = FALSE
AsMergedOp ==
  LET m == Merge(rep, es) IN
  /\ Coll # "gen"
  /\ ops' = Append(ops, << "as_merged" >>) /\ UNCHANGED n
  /\ IF m.ok THEN rep' = "M" /\ es' = m.v /\ loose' = FALSE /\ outs' = Append(outs, "ok")
             ELSE UNCHANGED << rep, es, loose >> /\ outs' = Append(outs, "err")
UnmergeOp(how) ==
  /\ Coll # "gen"
  /\ ops' = Append(ops, << how >>) /\ rep' = "U" /\ UNCHANGED << es, n >> /\ loose' = (loose \/ rep = "M") /\ outs' = Append(outs, "ok")
SameOp(how) == ops' = Append(ops, << how >>) /\ UNCHANGED << rep, es, loose, n >> /\ outs' = Append(outs, "ok")
(* taken apart and put together again in the other representation            *)
RewrapOp ==
  /\ Coll = "gen" /\ ops' = Append(ops, << "rewrap" >>) /\ outs' = Append(outs, "ok") /\ UNCHANGED n
  /\ IF rep = "U" THEN rep' = "M" /\ es' = AddAll("M", << >>, es) /\ loose' = FALSE
     ELSE rep' = "U" /\ UNCHANGED es /\ loose' = TRUE

Init == /\ n = 0 /\ es = << >> /\ loose = FALSE
        /\ IF Alpha = "rand" THEN \E i \in Lo .. Hi : seed = Seed(i) ELSE seed = << 0, 0, 0 >>
        /\ \E how \in IF Alpha = "rand" THEN {Pick(Mix(seed, 1), << "U", "M", "C", "U" >>)} ELSE {"U", "M", "C"} :
             /\ rep = (IF how = "M" THEN "M" ELSE "U") /\ ops = << << "new", how, << >> >> >> /\ outs = << "ok" >>
(* build at once instead of inserting: the new operation takes the entries   *)
Build(e) ==
  /\ Len(ops) = 1 /\ Coll # "gen" /\ n < 4
  /\ LET all == Append(ops[1][3], e)
         m == Merge("U", all) IN
     /\ ops' = << << "new", ops[1][2], all >> >>
     /\ n' = n + 1
     /\ IF ops[1][2] # "M" THEN es' = all /\ UNCHANGED << rep, outs >>
        ELSE IF m.ok THEN es' = m.v /\ UNCHANGED << rep, outs >>
        ELSE es' = << >> /\ rep' = "fail" /\ outs' = << "err" >>
  /\ UNCHANGED loose
BuildGen(e) ==
  /\ Len(ops) = 1 /\ Coll = "gen" /\ n < 4
  /\ ops' = << << "new", ops[1][2], Append(ops[1][3], e) >> >> /\ es' = Add(rep, es, e) /\ n' = n + 1 /\ UNCHANGED << rep, loose, outs >>
SomeB(r) == {Entry(r, a, b, n + 1) : a \in 1 .. NA, b \in 1 .. NB}
Exh ==
  /\ UNCHANGED seed /\ rep # "fail"
  /\ Len(ops) + n <= MaxK
  /\ \/ \E e \in SomeB(InnerRep) : Ext(<< e >>) /\ (Len(ops) > 1 \/ n = 0 \/ TRUE)
     \/ \E e \in SomeB("U") : Build(e) \/ BuildGen(e)
     \/ MergeOp \/ AsMergedOp \/ UnmergeOp("unmerge") \/ UnmergeOp("as_unmerged") \/ RewrapOp
RNew(s, k) == [i \in 1 .. k |-> LET q == Mix(s, i) IN Entry(InnerRep, Val(Mix(q, 1), NA), Pick(Mix(q, 2), IF Val(Mix(seed, 50), 3) = 1 THEN [j \in 1 .. NB |-> j] ELSE [j \in 1 .. 2 |-> 1 + (j % NB)]), n + i)]
Rand ==
  /\ rep # "fail" /\ Len(ops) < MaxK + Val(seed, 5) /\ n < 60
  /\ seed' = Mix(seed, 9)
  /\ LET c == Val(Mix(seed, 3), 12)
         q == Mix(seed, 4) IN
     CASE c <= 6 -> Ext(RNew(q, Val(Mix(seed, 5), 4) - 1))
       [] c = 7 -> IF Coll = "gen" THEN RewrapOp ELSE MergeOp
       [] c = 8 -> IF Coll = "gen" THEN RewrapOp ELSE AsMergedOp
       [] c = 9 -> IF Coll = "gen" THEN SameOp("clone") ELSE UnmergeOp("unmerge")
       [] c = 10 -> IF Coll = "gen" THEN SameOp("clone") ELSE UnmergeOp("as_unmerged")
       [] c = 11 -> SameOp("clone")
       [] OTHER -> IF Coll = "gen" THEN SameOp("clone") ELSE SameOp("owned")
Next == IF Alpha = "rand" THEN Rand ELSE Exh
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------------------------ answers *)
AskKeys == CASE Coll = "gen" -> GenKeys [] Coll = "map" -> << S("a"), S("b"), S(""), << 955, 32 >>, S("A") >> [] OTHER -> LabelsS
Under(s, k) == LET f == SelectSeq(s, LAMBDA e : KeyOf(e) = k) IN [i \in 1 .. Len(f) |-> ValOf(f[i])]
Answer(k) == LET f == Under(es, k) IN
  IF f = << >> THEN [found |-> FALSE] ELSE [found |-> TRUE, many |-> f, isone |-> rep = "M", first |-> f[1]]
All == [rep |-> rep, es |-> es, loose |-> loose \/ rep = "M", len |-> Len(es), empty |-> es = << >>,
        gets |-> [i \in 1 .. Len(AskKeys) |-> Answer(AskKeys[i])]]

(* ---------------------------------------------------------------- invariants *)
UniqueKeys == rep = "M" => \A i, j \in 1 .. Len(es) : i # j => KeyOf(es[i]) # KeyOf(es[j])
LookupTotal == \A k \in {KeyOf(es[i]) : i \in 1 .. Len(es)} : Under(es, k) # << >>
CountAdds == Cardinality({<< i, k >> \in (1 .. Len(es)) \X {KeyOf(es[j]) : j \in 1 .. Len(es)} : KeyOf(es[i]) = k}) = Len(es)
(* switching the representation keeps everything that is inside              *)
Leafs(s) == IF Coll = "gen" THEN Len(s) ELSE LeavesItems(s, 1, IF Coll = "map" THEN 3 ELSE 2)
Switch == [][(ops' # ops /\ ops'[Len(ops')][1] \in {"merge", "as_merged", "unmerge", "as_unmerged"} /\ rep' # "fail") => Leafs(es') = Leafs(es)]_vars
Done == IF Alpha = "rand" THEN rep = "fail" \/ Len(ops) >= MaxK + Val(seed, 5) \/ n >= 60 ELSE TRUE
Emit == Done => PrintT(ToJson([op |-> "pairs", c |-> Coll, ops |-> ops, q |-> AskKeys,
                               x |-> [r |-> "ok", v |-> [outs |-> outs, all |-> IF rep = "fail" THEN [rep |-> "fail"] ELSE All]]]))
=============================================================================
