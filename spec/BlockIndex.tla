------------------------------ MODULE BlockIndex ----------------------------
(* The index of blocks.  Abstractly it is the list of the blocks put into it *)
(* (type, label path, body); concretely, as in the code, a tree of labels    *)
(* per type.  A history is a sequence of operations; TLC checks that tree    *)
(* and list tell the same, the code is asked the same questions.             *)
EXTENDS HclGen, Json, FiniteSets, SequencesExt

CONSTANTS Alpha, MaxK, Lo, Hi

(* --------------------------------------------------------- the label tree  *)
Leaf(bs) == [k |-> "B", bs |-> bs, ls |-> << >>]
RECURSIVE At(_, _, _)
At(ls, l, i) == IF i > Len(ls) THEN 0 ELSE IF ls[i][1] = l THEN i ELSE At(ls, l, i + 1)
RECURSIVE Put(_, _, _)
Put(t, path, body) ==
  IF path = << >> THEN [t EXCEPT !.bs = Append(@, body)]
  ELSE LET j == At(t.ls, path[1], 1) IN
       IF j = 0 THEN [t EXCEPT !.k = "L", !.ls = Append(@, << path[1], Put(Leaf(<< >>), Tail(path), body) >>)]
       ELSE [t EXCEPT !.ls[j][2] = Put(@, Tail(path), body)]
RECURSIVE Flat(_, _), FlatLs(_, _, _)
Flat(t, pre) == [i \in 1 .. Len(t.bs) |-> << pre, t.bs[i] >>] \o FlatLs(t.ls, 1, pre)
FlatLs(ls, i, pre) == IF i > Len(ls) THEN << >> ELSE Flat(ls[i][2], Append(pre, ls[i][1])) \o FlatLs(ls, i + 1, pre)
NoTree == [k |-> "none", bs |-> << >>, ls |-> << >>]
RECURSIVE Get(_, _)
Get(t, pre) == IF pre = << >> THEN t
               ELSE LET j == At(t.ls, pre[1], 1) IN IF j = 0 THEN NoTree ELSE Get(t.ls[j][2], Tail(pre))
RECURSIVE Lens(_)
Lens(t) == (IF t.bs = << >> THEN {} ELSE {0}) \cup UNION {{n + 1 : n \in Lens(t.ls[i][2])} : i \in 1 .. Len(t.ls)}

(* ------------------------------------------------------------ the abstract *)
Texts(labels) == [i \in 1 .. Len(labels) |-> labels[i][2]]
IsPre(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
Below(es, ty, pre) == SelectSeq(es, LAMBDA e : e[1] = ty /\ IsPre(pre, e[2]))
Rel(es, n) == [i \in 1 .. Len(es) |-> << SubSeq(es[i][2], n + 1, Len(es[i][2])), es[i][3] >>]
RECURSIVE Uniq(_, _)
Uniq(s, seen) == IF s = << >> THEN << >> ELSE IF s[1] \in seen THEN Uniq(Tail(s), seen)
                 ELSE << s[1] >> \o Uniq(Tail(s), seen \cup {s[1]})
TypesOf(es) == Uniq([i \in 1 .. Len(es) |-> es[i][1]], {})
LensOf(rel) == {Len(rel[i][1]) : i \in 1 .. Len(rel)}
Sorted(set) == SetToSortSeq(set, <)
Uni(set) == IF Cardinality(set) = 1 THEN CHOOSE n \in set : TRUE ELSE -1
(* what is asked below a prefix                                              *)
Answer(es, ty, pre) ==
  LET b == Rel(Below(es, ty, pre), Len(pre))
      here == SelectSeq(b, LAMBDA e : e[1] = << >>)
      deeper == SelectSeq(b, LAMBDA e : e[1] # << >>)
      ls == LensOf(b)
  IN IF b = << >> THEN [found |-> FALSE]
     ELSE [found |-> TRUE, flat |-> b, n |-> Len(b), further |-> deeper # << >>,
           empty |-> [i \in 1 .. Len(here) |-> here[i][2]],
           labels |-> Uniq([i \in 1 .. Len(deeper) |-> deeper[i][1][1]], {}),
           lens |-> Sorted(ls), uni |-> Uni(ls), isuni |-> Uni(ls) # -1]
All(es) ==
  LET ts == TypesOf(es) IN
  [len |-> Len(ts), isempty |-> es = << >>, blocks |-> Len(es), types |-> ts, flat |-> es,
   lens |-> [i \in 1 .. Len(ts) |-> << ts[i], Sorted(LensOf(Rel(Below(es, ts[i], << >>), 0))) >>],
   uni |-> [i \in 1 .. Len(ts) |-> << ts[i], Uni(LensOf(Rel(Below(es, ts[i], << >>), 0))) >>]]

(* ------------------------------------------------------------- operations  *)
VARIABLES ops,    \* the history, as the code gets it
          es,     \* the entries: << type, path, body >>
          idx,    \* the trees: sequence of << type, tree >>
          n,      \* number of blocks put in
          seed
vars == << ops, es, idx, n, seed >>
Body(i) == IF i % 3 = 0 THEN << >> ELSE << i >>       \* every third block is empty
IdxPut(x, ty, path, body) ==
  LET j == At(x, ty, 1) IN
  IF j = 0 THEN Append(x, << ty, Put(Leaf(<< >>), path, body) >>) ELSE [x EXCEPT ![j][2] = Put(@, path, body)]

L(x) == << "I", x >>
Q(x) == << "S", x >>
X == S("x")  Y == S("y")  A == S("a")  B == S("b")
Blks ==
  CASE Alpha = "deep" -> {<< A, << >> >>, << A, << L(X) >> >>, << A, << Q(Y) >> >>, << A, << Q(X), L(X) >> >>, << A, << L(X), Q(Y) >> >>,
                          << A, << L(X), L(Y), L(X) >> >>, << B, << Q(X) >> >>}
    [] Alpha = "few" -> {<< A, << >> >>, << A, << L(X) >> >>, << A, << Q(X), L(Y) >> >>, << B, << >> >>}
    [] Alpha = "wide" -> {<< A, << >> >>, << A, << Q(X) >> >>, << A, << L(Y) >> >>, << B, << L(X) >> >>, << B, << >> >>, << S("c"), << L(A), L(A) >> >>}
    [] OTHER -> {}
Pfxs == << << >>, << X >>, << Y >>, << X, X >>, << X, Y >>, << Y, X >>, << X, Y, X >>, << S("a") >>, << S("") >> >>
Queries == [i \in 1 .. 3 * Len(Pfxs) |-> << << A, B, S("c") >>[1 + (i % 3)], Pfxs[1 + (((i - 1) \div 3) % Len(Pfxs))] >>]

Put1(b) ==    \* b = << type, labels >>
  /\ n' = n + 1
  /\ es' = Append(es, << b[1], Texts(b[2]), Body(n + 1) >>)
  /\ idx' = IdxPut(idx, b[1], Texts(b[2]), Body(n + 1))
Blk(b) == << b[1], b[2], n + 1 >>
LastOp == ops[Len(ops)]
AddTo(b) == ops' = [ops EXCEPT ![Len(ops)][2] = Append(@, Blk(b))]
Appnd(b) == Put1(b) /\ ops' = Append(ops, << "append", Blk(b) >>)
Grow(b) == LastOp[1] \in {"new", "collect", "text", "extend"} /\ Put1(b) /\ AddTo(b)      \* one more block in the same call
Extnd(b) == Put1(b) /\ ops' = Append(ops, << "extend", << Blk(b) >> >>)
(* append below a looked-up prefix: nothing happens unless it is there       *)
Into(ty, pre, labels) ==
  LET there == Below(es, ty, pre) # << >>
      path == pre \o Texts(labels)
  IN /\ ops' = Append(ops, << "into", ty, pre, labels, n + 1 >>)
     /\ n' = n + 1
     /\ es' = IF there THEN Append(es, << ty, path, Body(n + 1) >>) ELSE es
     /\ idx' = IF there THEN IdxPut(idx, ty, path, Body(n + 1)) ELSE idx
(* every body is changed through the mutable walk                            *)
RECURSIVE MarkT(_, _)
MarkT(t, m) == [t EXCEPT !.bs = [i \in 1 .. Len(@) |-> Append(@[i], m)], !.ls = [i \in 1 .. Len(@) |-> << @[i][1], MarkT(@[i][2], m) >>]]
MarkAll ==
  /\ ops' = Append(ops, << "mark", 100 + Len(ops) >>)
  /\ es' = [i \in 1 .. Len(es) |-> << es[i][1], es[i][2], Append(es[i][3], 100 + Len(ops)) >>]
  /\ idx' = [i \in 1 .. Len(idx) |-> << idx[i][1], MarkT(idx[i][2], 100 + Len(ops)) >>]
  /\ UNCHANGED n

Init == /\ es = << >> /\ idx = << >> /\ n = 0
        /\ IF Alpha = "rand" THEN \E i \in Lo .. Hi : seed = Seed(i) /\ ops = << << Pick(Mix(Seed(i), 1), << "new", "text", "collect" >>), << >> >> >>
           ELSE seed = << 0, 0, 0 >> /\ \E how \in {"new", "text"} : ops = << << how, << >> >> >>
(* pseudo-random histories                                                   *)
RTypes == << A, A, A, B, S("c"), << 233 >> >>
RLabels == << X, X, Y, A, S("z"), << 955 >> >>
RLab(s) == << Pick(Mix(s, 1), << "I", "S" >>), Pick(Mix(s, 2), RLabels) >>
RPath(s) == [i \in 1 .. (Val(Mix(s, 3), 6) \div 2) |-> RLab(Mix(s, 10 + i))]
RBlk(s) == << Pick(Mix(s, 4), RTypes), RPath(Mix(s, 5)) >>
Rand ==
  /\ Len(ops) + n < MaxK + Val(seed, 7)
  /\ seed' = Mix(seed, 9)
  /\ LET b == RBlk(Mix(seed, 2))  c == Val(Mix(seed, 3), 12) IN
     CASE c <= 5 /\ LastOp[1] \in {"new", "collect", "text", "extend"} -> Grow(b)
       [] c \in 6 .. 8 -> Appnd(b)
       [] c \in {9, 1, 2} -> Extnd(b)
       [] c = 10 -> MarkAll
       [] OTHER -> Into(Pick(Mix(seed, 4), RTypes), [i \in 1 .. (Val(Mix(seed, 5), 4) - 1) |-> Pick(Mix(seed, 20 + i), RLabels)], RPath(Mix(seed, 6)))
Next ==
  IF Alpha = "rand" THEN Rand
  ELSE /\ UNCHANGED seed /\ n < MaxK /\ Len(ops) < MaxK + 1
       /\ \/ \E b \in Blks : Appnd(b) \/ Grow(b) \/ (Alpha # "wide" /\ n > 0 /\ Extnd(b))
          \/ Alpha = "few" /\ n > 0 /\ (MarkAll \/ Into(A, << X >>, << L(Y) >>) \/ Into(A, << >>, << L(X) >>) \/ Into(A, << X, Y >>, << >>))
Spec == Init /\ [][Next]_vars

(* --------------------------------------------- tree and list tell the same *)
SameGroups(f, g) ==   \* the same entries, those of one path in the same order
  /\ Len(f) = Len(g)
  /\ \A p \in {f[i][1] : i \in 1 .. Len(f)} \cup {g[i][1] : i \in 1 .. Len(g)} :
       SelectSeq(f, LAMBDA e : e[1] = p) = SelectSeq(g, LAMBDA e : e[1] = p)
Refines ==
  /\ {idx[i][1] : i \in 1 .. Len(idx)} = {es[i][1] : i \in 1 .. Len(es)}
  /\ \A i \in 1 .. Len(idx) : LET ty == idx[i][1]  t == idx[i][2]  b == Rel(Below(es, ty, << >>), 0) IN
       /\ SameGroups(Flat(t, << >>), b)
       /\ Lens(t) = LensOf(b)
  /\ \A q \in 1 .. Len(Queries) :
       LET j == At(idx, Queries[q][1], 1)
           t == IF j = 0 THEN NoTree ELSE Get(idx[j][2], Queries[q][2])
           a == Answer(es, Queries[q][1], Queries[q][2])
       IN /\ a.found = (t.k # "none")
          /\ a.found => SameGroups(Flat(t, << >>), a.flat) /\ Lens(t) = {a.lens[i] : i \in 1 .. Len(a.lens)}
                        /\ t.bs = a.empty /\ (t.ls # << >>) = a.further
(* nothing is lost                                                           *)
Keeps == \A k \in 1 .. Len(es) : \E i \in 1 .. Len(idx) : idx[i][1] = es[k][1] /\ \E f \in 1 .. Len(Flat(idx[i][2], << >>)) :
            Flat(idx[i][2], << >>)[f] = << es[k][2], es[k][3] >>
Done == IF Alpha = "rand" THEN Len(ops) + n >= MaxK + Val(seed, 7) ELSE TRUE
Emit == Done => PrintT(ToJson([op |-> "blocks", ops |-> ops, q |-> Queries,
                  x |-> [r |-> "ok", v |-> [all |-> All(es), qs |-> [i \in 1 .. Len(Queries) |-> Answer(es, Queries[i][1], Queries[i][2])]]]]))
=============================================================================
