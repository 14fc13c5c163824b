----------------------------- MODULE CauseDeser -----------------------------
(* What a failing deserialization may say about its failure:                 *)
(*   <<"in", cause>>        the text is not in the grammar                   *)
(*   <<"objdup", key>>      an object gives that key twice                   *)
(*   <<"bodydup", key>>     a body gives that name twice, not as blocks only *)
(*   <<"tuplen", n, m>>     n elements are wanted, m are there               *)
(*   <<"missing", field>>, <<"unknown", field>>, <<"int">> (beyond any       *)
(*   integer), <<"custom">> (a value of another kind); <<"?">> is anything   *)
EXTENDS Deser

Any1 == {<< "?" >>}
Other == {<< "custom" >>}
DupsOf(ns) == {n \in {ns[i] : i \in 1 .. Len(ns)} : \E i, j \in 1 .. Len(ns) : i < j /\ ns[i] = n /\ ns[j] = n /\ n # NoName}
Names(v) == [i \in 1 .. Len(v[2]) |-> NameOf(v[2][i])]
Lesser(a, b) == IF a < b THEN a ELSE b
RECURSIVE WE(_, _), WB(_, _), WBlk(_, _)
WAny == << "any" >>
ObjWhy(v) == LET ns == Names(v) IN {<< "objdup", n >> : n \in DupsOf(ns)} \cup (IF Member(ns, NoName) THEN Other ELSE {})
Lacks(T, ns) == {<< "missing", T[2][i][1] >> : i \in {i \in 1 .. Len(T[2]) : ~Member(ns, T[2][i][1]) /\ Missing(T[2][i][2]).s # "ok"}}
WE(v, T) ==
  CASE T[1] = "nt" -> WE(v, T[2])
    [] T[1] = "opt" -> IF v[1] = "null" THEN {} ELSE WE(v, T[2])
    [] T[1] \in Unjudged -> Any1
    [] T[1] \in {"any", "ign"} ->
         CASE v[1] = "num" -> LET x == ParseLit(v[2]) IN IF x.plain /\ ~Machine(x) THEN {<< "int" >>, << "custom" >>} ELSE {}
           [] v[1] = "tup" -> UNION {WE(v[2][i], T) : i \in 1 .. Len(v[2])}
           [] v[1] = "obj" -> ObjWhy(v) \cup UNION {WE(v[2][i][3], T) : i \in 1 .. Len(v[2])}
           [] OTHER -> {}
    [] T[1] \in {"vec", "bytes"} -> IF v[1] = "tup" THEN UNION {WE(v[2][i], IF T[1] = "vec" THEN T[2] ELSE << "u8" >>) : i \in 1 .. Len(v[2])} ELSE Other \cup WE(v, WAny)
    [] T[1] \in {"tup", "ts"} ->
         IF v[1] # "tup" THEN Other \cup WE(v, WAny)
         ELSE IF Len(v[2]) = Len(T[2]) THEN UNION {WE(v[2][i], T[2][i]) : i \in 1 .. Len(v[2])}
         ELSE {<< "tuplen", Len(T[2]), Len(v[2]) >>}
    [] T[1] = "map" -> IF v[1] = "obj" THEN ObjWhy(v) \cup UNION {WE(v[2][i][3], T[2]) : i \in 1 .. Len(v[2])} ELSE Other \cup WE(v, WAny)
    [] T[1] = "rec" ->
         IF v[1] = "tup" THEN (IF Len(v[2]) = Len(T[2]) THEN {} ELSE {<< "tuplen", Len(T[2]), Len(v[2]) >>}) \cup Other
                              \cup UNION {WE(v[2][i], T[2][i][2]) : i \in 1 .. Lesser(Len(v[2]), Len(T[2]))}
         ELSE IF v[1] = "obj" THEN
           LET ns == Names(v) IN
           ObjWhy(v) \cup Lacks(T, ns)
           \cup UNION {IF Member(FNames(T), ns[i]) THEN WE(v[2][i][3], T[2][Nth(FNames(T), ns[i])][2])
                       ELSE (IF T[3] THEN {<< "unknown", ns[i] >>} ELSE {}) \cup WE(v[2][i][3], << "ign" >>) : i \in 1 .. Len(ns)}
         ELSE Other \cup WE(v, WAny)
    [] OTHER -> IF E(v, T).s = "ok" THEN {} ELSE Other \cup (IF v[1] = "num" THEN WE(v, WAny) ELSE {})

BNames(b) == NamesOf(b, 1)
Twice(b) == {<< "bodydup", b[i][2] >> : i \in {i \in 1 .. Len(b) : \E j \in 1 .. Len(b) : i # j /\ b[i][2] = b[j][2] /\ b[i][1] = "A"}}
EntryWhy(b, n, T) == UNION {WE(a[3], T) : a \in {b[i] : i \in {i \in 1 .. Len(b) : b[i][1] = "A" /\ b[i][2] = n}}}
                     \cup (IF Blks(b, n) # << >> THEN WBlk(Blks(b, n), T) ELSE {})
WB(b, T) ==
  CASE T[1] \in {"map", "any", "ign"} -> Twice(b) \cup UNION {EntryWhy(b, n, IF T[1] = "map" THEN T[2] ELSE T) : n \in {b[i][2] : i \in 1 .. Len(b)}}
    [] T[1] \in Unjudged -> Any1
    [] T[1] \in {"opt", "nt"} -> Other \cup WB(b, T[2])
    [] T[1] = "rec" ->
         LET ns == BNames(b) IN
         Twice(b) \cup Lacks(T, ns)
         \cup UNION {IF Member(FNames(T), ns[i]) THEN EntryWhy(b, ns[i], T[2][Nth(FNames(T), ns[i])][2])
                     ELSE (IF T[3] THEN {<< "unknown", ns[i] >>} ELSE {}) \cup EntryWhy(b, ns[i], << "ign" >>) : i \in 1 .. Len(ns)}
    [] OTHER -> Other
(* records and tuples may also be read by position, one block each           *)
ByPlace(bs, T) == UNION {WB(bs[i][4], IF T[1] = "rec" THEN T[2][i][2] ELSE T[2][i]) : i \in 1 .. Lesser(Len(bs), Len(T[2]))}
                  \cup (IF Len(bs) = Len(T[2]) THEN {} ELSE {<< "tuplen", Len(T[2]), Len(bs) >>})
WBlk(bs, T) ==
  LET labelled == \E i \in 1 .. Len(bs) : bs[i][3] # << >>
      in(U) == UNION {WB(bs[i][4], U) : i \in 1 .. Len(bs)}
  IN (IF labelled THEN Other ELSE {}) \cup
     CASE T[1] = "ign" -> Other \cup in(T)
       [] T[1] \in Unjudged -> Any1
       [] T[1] = "opt" -> WBlk(bs, T[2])
       [] T[1] = "nt" -> Other \cup WBlk(bs, T[2]) \cup WB(bs[1][4], T[2])
       [] T[1] = "vec" -> in(T[2])
       [] T[1] = "any" -> in(T)
       [] T[1] \in {"tup", "ts"} -> Other \cup ByPlace(bs, T)
       [] T[1] \in {"map", "rec"} -> IF Len(bs) = 1 THEN WB(bs[1][4], T)
                                     ELSE Other \cup (IF T[1] = "rec" THEN ByPlace(bs, T) ELSE {})
       [] OTHER -> Other

Why(src, t, T) ==
  IF src = "doc" THEN LET r == ReadConfig(t) IN IF r.r = "ok" THEN WB(r.v, T) ELSE {<< "in" >>}
  ELSE LET r == ReadExpr(t) IN IF r.r = "ok" THEN WE(r.v, T) ELSE {<< "in" >>}
=============================================================================
