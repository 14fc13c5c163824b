------------------------------ MODULE ValWriter -----------------------------
(* A writer of documents of the value grammar, with the value tree they mean *)
(* and the tree that merging gives.                                          *)
EXTENDS HclReader, HclGen, HclMerge, Json

CONSTANTS Lo, Hi, Elems, Depth, Rewrites, Out

E1(t, v) == [t |-> t, v |-> v, h |-> FALSE, o |-> FALSE]
Lead(z, e) == IF e.o THEN Ws(z) ELSE Inl(z)
Digit(n) == << 48 + (n % 10) >>

(* keys of a map: position makes them distinct unless a collision is wanted  *)
Name(s, n) == IF Val(Mix(s, 1), 40) = 1 THEN S("dup") ELSE Ident(Mix(s, 2)) \o Digit(n)
ObjS == << S("obj"), S("o"), S("res"), << 233 >> >>
BlkS == << S("blk"), S("resource"), S("b") >>
ObjName(s) == Pick(s, ObjS)
BlkName(s) == Pick(s, BlkS)

LabS == << [t |-> S("\"x\""), v |-> S("x")], [t |-> S("\"\\x79\""), v |-> S("y")], [t |-> S("\"y\""), v |-> S("y")], [t |-> S("\"\""), v |-> << >>] >>
RECURSIVE VExpr(_, _, _, _), VItems(_, _, _, _), VMap(_, _, _, _), VLabels(_, _, _, _)
VExpr(s, z, d, hd) ==
  LET k == Val(Mix(s, 1), IF d = 0 THEN 7 ELSE 12)
      str == Quoted(Mix(s, 2), TRUE)
      doc == Heredoc(Mix(s, 3))
      num == Pick(Mix(s, 4), ValNumS)
  IN CASE k = 1 -> E1(S("null"), << "null" >>)
       [] k = 2 -> E1(S("true"), << "bool", TRUE >>)
       [] k = 3 -> E1(S("false"), << "bool", FALSE >>)
       [] k \in {4, 5} -> E1(num, ValueOfLit(num))
       [] k = 6 \/ (k = 7 /\ ~hd) -> E1(str.t, << "str", str.v >>)
       [] k = 7 -> [t |-> doc.t, v |-> << "str", doc.v >>, h |-> TRUE, o |-> FALSE]
       [] k \in {8, 9, 10} -> LET q == VItems(Mix(s, 5), Mix(z, 5), d - 1, Val(Mix(s, 6), 4) - 1)
                     IN E1(<< LBRK >> \o q.t \o << RBRK >>, << "list", q.v >>)
       [] OTHER -> LET q == VMap(Mix(s, 7), Mix(z, 7), d - 1, Val(Mix(s, 8), 4) - 1)
                     IN [E1(<< LBRC >> \o q.t \o << RBRC >>, << "objs", << << "U", q.v >> >> >>) EXCEPT !.o = TRUE]
VItems(s, z, d, n) ==
  IF n = 0 THEN [t |-> Ws(Mix(z, 1)), v |-> << >>]
  ELSE LET e == VExpr(Mix(s, 1), Mix(z, 2), d, TRUE)
           q == VItems(Mix(s, 2), Mix(z, 3), d, n - 1)
           sep == IF n > 1 \/ Val(Mix(z, 4), 3) = 1 THEN << COMMA >> ELSE << >>
       IN [t |-> Ws(Mix(z, 5)) \o e.t \o (IF e.h THEN << LF >> ELSE << >>) \o Ws(Mix(z, 6)) \o sep \o q.t, v |-> << e.v >> \o q.v]
VLabels(s, z, n, any) ==
  IF n = 0 THEN [t |-> << >>, v |-> << >>]
  ELSE LET q0 == IF Val(Mix(s, 3), 3) = 1 THEN Quoted(Mix(s, 1), FALSE)
                 ELSE Pick(Mix(s, 2), LabS)
           q == VLabels(Mix(s, 4), Mix(z, 4), n - 1, any)
       IN [t |-> Inl(Mix(z, 5)) \o q0.t \o q.t, v |-> << q0.v >> \o q.v]
(* one item, without what separates it from the next                         *)
VItem(s, z, d, n) ==
  LET k == Val(Mix(s, 1), IF d = 0 THEN 5 ELSE 9)
      nm == Name(Mix(s, 2), n)
      e == VExpr(Mix(s, 3), Mix(z, 3), d, TRUE)
      head == Inl(Mix(z, 4)) \o << EQ >> \o Lead(Mix(z, 5), e) \o e.t
      qs == Quoted(Mix(s, 4), FALSE)
      ql == VLabels(Mix(s, 5), Mix(z, 6), Val(Mix(s, 6), 3), TRUE)
      q == VMap(Mix(s, 7), Mix(z, 7), d - 1, Val(Mix(s, 8), 4) - 1)
      obj == << "objs", << << "U", q.v >> >> >>
      on == ObjName(Mix(s, 9))
      bn == BlkName(Mix(s, 10))
  IN CASE k <= 3 -> [t |-> nm \o head, v |-> << "I", nm, e.v >>, h |-> e.h]
       [] k = 4 -> [t |-> << DQ >> \o nm \o << DQ >> \o head, v |-> << "S", nm, e.v >>, h |-> e.h]
       [] k = 5 -> [t |-> qs.t \o head, v |-> << "S", qs.v, e.v >>, h |-> e.h]
       [] k = 6 -> [t |-> on \o Inl(Mix(z, 8)) \o Ws(Mix(z, 9)) \o << LBRC >> \o q.t \o << RBRC >>,
                    v |-> << "I", on, obj >>, h |-> FALSE]
       [] k = 7 -> [t |-> on \o Inl(Mix(z, 8)) \o << EQ >> \o Ws(Mix(z, 9)) \o << LBRC >> \o q.t \o << RBRC >>,
                    v |-> << "I", on, obj >>, h |-> FALSE]
       [] OTHER -> [t |-> bn \o ql.t \o Inl(Mix(z, 8)) \o Ws(Mix(z, 9)) \o << LBRC >> \o q.t \o << RBRC >>,
                    v |-> << "I", bn, << "blk", << "U", << << ql.v, << "U", q.v >> >> >> >> >> >>, h |-> FALSE]
VEndS == << << >>, S("  "), S("#end"), S("//") >>
(* what may follow an item                                                   *)
Sep(z, h) ==
  LET comma == << COMMA >>
      nl == IF h THEN << LF >> ELSE Eol(Mix(z, 1))
  IN CASE Val(Mix(z, 2), 4) = 1 -> nl
       [] Val(Mix(z, 2), 4) = 2 -> nl \o Ws(Mix(z, 3)) \o comma
       [] Val(Mix(z, 2), 4) = 3 -> (IF h THEN << CR, LF >> ELSE Inl(Mix(z, 4)) \o << CR >>) \o comma
       [] OTHER -> (IF h THEN << LF >> ELSE Inl(Mix(z, 4))) \o comma
(* n items of a map with the blank space around                              *)
VMap(s, z, d, n) ==
  IF n = 0 THEN [t |-> Ws(Mix(z, 1)), v |-> << >>]
  ELSE LET it == VItem(Mix(s, 1), Mix(z, 2), d, n)
           q == VMap(Mix(s, 2), Mix(z, 3), d, n - 1)
       IN [t |-> Ws(Mix(z, 4)) \o it.t \o Sep(Mix(z, 5), it.h) \o q.t, v |-> << it.v >> \o q.v]

VARIABLES seed, zs, txt, items, left, done
vars == << seed, zs, txt, items, left, done >>
WInit == \E i \in Lo .. Hi, r \in 0 .. Rewrites :
           /\ seed = Seed(i) /\ zs = Seed(i + 100000 * r + 50)
           /\ txt = << >> /\ items = << >> /\ left = Val(Mix(Seed(i), 3), Elems) /\ done = << i, r, FALSE >>
WItem == /\ ~done[3] /\ left > 0
         /\ LET it == VItem(Mix(seed, 1), Mix(zs, 1), Depth, left)
                end == left = 1 /\ ~it.h /\ Val(Mix(zs, 2), 3) = 1
            IN /\ txt' = txt \o Ws(Mix(zs, 3)) \o it.t
                            \o (IF end THEN Pick(Mix(zs, 4), VEndS) ELSE Sep(Mix(zs, 5), it.h))
               /\ items' = Append(items, it.v)
         /\ left' = left - 1 /\ seed' = Mix(seed, 2) /\ zs' = Mix(zs, 6) /\ UNCHANGED done
WEnd == /\ ~done[3] /\ left = 0 /\ done' = [done EXCEPT ![3] = TRUE] /\ UNCHANGED << seed, zs, txt, items, left >>
WSpec == WInit /\ [][WItem \/ WEnd]_vars

Tree == << "U", items >>
Merged == MergeMap(Tree)
ReadBack == done[3] => ToJson(ReadValue(txt)) = ToJson([r |-> "ok", v |-> Tree])
(* C12 on the specification                                                  *)
MergeKeeps == (done[3] /\ Merged.ok) => (AllMergedMap(Merged.v) /\ LeavesMap(Merged.v) = LeavesMap(Tree))
Emit == (done[3] /\ Out) =>
          /\ PrintT(ToJson([op |-> "value", t |-> txt, x |-> [r |-> "ok", v |-> Tree], i |-> done[1]]))
          /\ PrintT(ToJson([op |-> "value", m |-> TRUE, t |-> txt, i |-> done[1],
                            x |-> IF Merged.ok THEN [r |-> "ok", v |-> Merged.v] ELSE Reject]))
=============================================================================
