-------------------------------- MODULE Deser --------------------------------
(* What deserializing gives, for every document (expression) and target type.*)
(* Types:  <<"u8">> .. <<"i128">>, <<"f32">>, <<"f64">>, <<"bool">>,         *)
(* <<"str">>, <<"bstr">>, <<"bytes">>, <<"char">>, <<"unit">>, <<"ustruct">>, <<"any">>, <<"ign">>,   *)
(* <<"opt",T>>, <<"nt",T>>, <<"vec",T>>, <<"tup",<<T..>>>>, <<"ts",<<T..>>>>,*)
(* <<"map",T>>, <<"rec",<<  <<name,T>> .. >>, denies unknown fields>>        *)
(* A result is "ok" with the value, "err", or "may": the value or an error   *)
(* (where the statement leaves it open); "any" is not judged.                *)
EXTENDS HclReader, Numbers

Ok(v) == [s |-> "ok", v |-> v]
Err == [s |-> "err", v |-> << >>]
May(v) == [s |-> "may", v |-> v]
Weaken(r) == IF r.s = "ok" THEN May(r.v) ELSE r
Wrap(tag, r) == IF r.s = "err" THEN Err ELSE [r EXCEPT !.v = << tag, r.v >>]
(* all parts together                                                        *)
Has(rs, s) == \E i \in 1 .. Len(rs) : rs[i].s = s
Joined(rs) == IF Has(rs, "err") THEN "err" ELSE IF Has(rs, "any") THEN "any" ELSE IF Has(rs, "may") THEN "may" ELSE "ok"
Join(tag, rs) == IF Joined(rs) = "err" THEN Err ELSE [s |-> Joined(rs), v |-> << tag, [i \in 1 .. Len(rs) |-> rs[i].v] >>]
(* named parts                                                               *)
JoinN(tag, names, rs) == IF Joined(rs) = "err" THEN Err ELSE [s |-> Joined(rs), v |-> << tag, [i \in 1 .. Len(rs) |-> << names[i], rs[i].v >>] >>]

IntIx(k) == IF \E i \in 1 .. 10 : IntTypes[i] = k THEN CHOOSE i \in 1 .. 10 : IntTypes[i] = k ELSE 0
IsInt(T) == IntIx(T[1]) # 0
IsFloat(T) == T[1] \in {"f32", "f64"}

ToInt(x, k) ==
  LET n == IntOf(x) IN
  IF n.is /\ InRange(n, k) THEN (IF x.plain THEN Ok(<< "int", IntText(n) >>) ELSE May(<< "int", IntText(n) >>)) ELSE Err
(* U64 holds every literal the code has to hand on as an integer             *)
Machine(x) == x.plain /\ LET n == IntOf(x) IN n.is /\ (InRange(n, 4) \/ InRange(n, 9))
ToFloat(x, T) ==
  LET c == Canon(x) IN
  IF T[1] = "f32" /\ (Len(c.digs) > 6 \/ Len(c.digs) + c.exp > 30 \/ Len(c.digs) + c.exp < -30) THEN [s |-> "any", v |-> << >>]
  ELSE IF ~FloatDetermined(x) THEN [s |-> "any", v |-> << >>]
  ELSE IF x.plain /\ ~Machine(x) THEN May(FloatVal(x)) ELSE IF FloatVal(x)[1] = "inf" THEN May(FloatVal(x)) ELSE Ok(FloatVal(x))

(* the name of an object element                                             *)
NoName == << -1 >>
NameOf(f) == IF f[1] = "I" THEN f[2]
             ELSE LET r == ReadExpr(f[2]) IN IF r.r = "ok" /\ r.v[1] = "str" THEN r.v[2] ELSE NoName
HasDup(names) == \E i, j \in 1 .. Len(names) : i # j /\ names[i] = names[j]
Nth(names, n) == CHOOSE i \in 1 .. Len(names) : names[i] = n
Member(names, n) == \E i \in 1 .. Len(names) : names[i] = n
Unjudged == {"enum", "kmap", "ident"}
Missing(T) == IF T[1] = "opt" THEN Ok(<< "none" >>) ELSE IF T[1] \in {"any", "ign", "unit", "nt"} \cup Unjudged THEN [s |-> "any", v |-> << >>] ELSE Err

(* a value that is read over                                                 *)
RECURSIVE Harmless(_), Plainly(_)
Harmless(v) ==
  CASE v[1] = "num" -> LET x == ParseLit(v[2]) IN ~x.plain \/ Machine(x)
    [] v[1] = "tup" -> \A i \in 1 .. Len(v[2]) : Harmless(v[2][i])
    [] v[1] = "obj" -> /\ \A i \in 1 .. Len(v[2]) : NameOf(v[2][i]) # NoName /\ Harmless(v[2][i][3])
                       /\ ~HasDup([i \in 1 .. Len(v[2]) |-> NameOf(v[2][i])])
    [] OTHER -> TRUE
Plainly(v) == IF Harmless(v) THEN Ok(<< "ign" >>) ELSE May(<< "ign" >>)

RECURSIVE E(_, _), B(_, _), Blk(_, _), AnyOf(_)
(* ------------------------------------------------------------ expressions  *)
Fields(T) == T[2]
FNames(T) == [i \in 1 .. Len(T[2]) |-> T[2][i][1]]
(* names, and what each of them gives for a type                             *)
EFrom(vs, T, i) == E(vs[i], T)
AnyOf(v) ==
  CASE v[1] = "null" -> Ok(<< "unit" >>)
    [] v[1] = "bool" -> Ok(v)
    [] v[1] = "str" -> Ok(v)
    [] v[1] = "num" -> LET x == ParseLit(v[2]) IN
                       IF Machine(x) THEN Ok(<< "int", IntText(IntOf(x)) >>)
                       ELSE IF x.plain THEN [s |-> "any", v |-> << >>] ELSE ToFloat(x, << "f64" >>)
    [] v[1] = "tup" -> Join("seq", [i \in 1 .. Len(v[2]) |-> AnyOf(v[2][i])])
    [] OTHER -> LET ns == [i \in 1 .. Len(v[2]) |-> NameOf(v[2][i])] IN
                IF HasDup(ns) \/ Member(ns, NoName) THEN Err ELSE JoinN("map", ns, [i \in 1 .. Len(v[2]) |-> AnyOf(v[2][i][3])])
E(v, T) ==
  CASE T[1] = "nt" -> Wrap("nt", E(v, T[2]))
    [] T[1] = "opt" -> IF v[1] = "null" THEN Ok(<< "none" >>) ELSE Wrap("some", E(v, T[2]))
    [] T[1] = "any" -> AnyOf(v)
    [] T[1] = "ign" -> Plainly(v)
    [] T[1] \in {"unit", "ustruct"} -> IF v[1] = "null" THEN Ok(<< "unit" >>) ELSE Err
    [] T[1] \in Unjudged -> [s |-> "any", v |-> << >>]
    [] T[1] = "bytes" -> IF v[1] = "tup" THEN Join("seq", [i \in 1 .. Len(v[2]) |-> E(v[2][i], << "u8" >>)]) ELSE Err
    [] T[1] = "bstr" -> IF v[1] = "str" THEN May(v) ELSE Err   \* borrowed: not where an escape was replaced
    [] T[1] = "bool" -> IF v[1] = "bool" THEN Ok(v) ELSE Err
    [] T[1] = "str" -> IF v[1] = "str" THEN Ok(v) ELSE Err
    [] T[1] = "char" -> IF v[1] = "str" /\ Len(v[2]) = 1 THEN Ok(v) ELSE Err
    [] IsInt(T) -> IF v[1] = "num" THEN ToInt(ParseLit(v[2]), IntIx(T[1])) ELSE Err
    [] IsFloat(T) -> IF v[1] = "num" THEN ToFloat(ParseLit(v[2]), T) ELSE Err
    [] T[1] = "vec" -> IF v[1] = "tup" THEN Join("seq", [i \in 1 .. Len(v[2]) |-> E(v[2][i], T[2])]) ELSE Err
    [] T[1] \in {"tup", "ts"} -> IF v[1] = "tup" /\ Len(v[2]) = Len(T[2]) THEN Join("seq", [i \in 1 .. Len(v[2]) |-> E(v[2][i], T[2][i])]) ELSE Err
    [] T[1] = "map" ->
         IF v[1] # "obj" THEN Err
         ELSE LET ns == [i \in 1 .. Len(v[2]) |-> NameOf(v[2][i])] IN
              IF HasDup(ns) \/ Member(ns, NoName) THEN Err ELSE JoinN("map", ns, [i \in 1 .. Len(v[2]) |-> E(v[2][i][3], T[2])])
    [] OTHER ->   \* a record
         IF v[1] = "tup" /\ Len(v[2]) = Len(T[2])      \* by position
         THEN Weaken(JoinN("rec", FNames(T), [i \in 1 .. Len(v[2]) |-> E(v[2][i], T[2][i][2])]))
         ELSE IF v[1] # "obj" THEN Err
         ELSE LET ns == [i \in 1 .. Len(v[2]) |-> NameOf(v[2][i])]
                  unknown == {i \in 1 .. Len(ns) : ~Member(FNames(T), ns[i])}
                  rest == [i \in 1 .. Len(ns) |-> IF i \in unknown THEN Plainly(v[2][i][3]) ELSE Ok(<< >>)]
                  got == JoinN("rec", FNames(T), [i \in 1 .. Len(T[2]) |-> IF Member(ns, T[2][i][1]) THEN E(v[2][Nth(ns, T[2][i][1])][3], T[2][i][2])
                                                                           ELSE Missing(T[2][i][2])])
              IN IF HasDup(ns) \/ Member(ns, NoName) \/ (T[3] /\ unknown # {}) THEN Err
                 ELSE IF Joined(rest) = "may" THEN Weaken(got) ELSE got

(* ------------------------------------------------------------------ bodies *)
(* elements <<"A", name, expr>>, <<"B", type, labels, body>>                 *)
Attrs(b, n) == SelectSeq(b, LAMBDA e : e[1] = "A" /\ e[2] = n)
Blks(b, n) == SelectSeq(b, LAMBDA e : e[1] = "B" /\ e[2] = n)
RECURSIVE NamesOf(_, _)
NamesOf(b, i) == IF i > Len(b) THEN << >> ELSE IF \E j \in 1 .. (i - 1) : b[j][2] = b[i][2] THEN NamesOf(b, i + 1) ELSE << b[i][2] >> \o NamesOf(b, i + 1)
Conflict(b) == \E i, j \in 1 .. Len(b) : i # j /\ b[i][2] = b[j][2] /\ b[i][1] = "A"
Entry(b, n, T) == IF Attrs(b, n) # << >> THEN E(Attrs(b, n)[1][3], T) ELSE Blk(Blks(b, n), T)
B(b, T) ==
  CASE T[1] \in {"map", "any"} ->
         IF Conflict(b) THEN Err
         ELSE LET ns == NamesOf(b, 1) IN JoinN("map", ns, [i \in 1 .. Len(ns) |-> Entry(b, ns[i], IF T[1] = "any" THEN T ELSE T[2])])
    [] T[1] \in Unjudged -> [s |-> "any", v |-> << >>]
    [] T[1] = "ign" -> May(<< "ign" >>)
    [] T[1] = "opt" -> Weaken(Wrap("some", B(b, T[2])))
    [] T[1] = "nt" -> Weaken(Wrap("nt", B(b, T[2])))
    [] T[1] = "rec" ->
         LET ns == NamesOf(b, 1)
             unknown == {i \in 1 .. Len(ns) : ~Member(FNames(T), ns[i])}
             rest == [i \in 1 .. Len(ns) |-> IF i \in unknown THEN Entry(b, ns[i], << "ign" >>) ELSE Ok(<< >>)]
             got == JoinN("rec", FNames(T), [i \in 1 .. Len(T[2]) |-> IF Member(ns, T[2][i][1]) THEN Entry(b, T[2][i][1], T[2][i][2]) ELSE Missing(T[2][i][2])])
         IN IF Conflict(b) \/ (T[3] /\ unknown # {}) THEN Err
            ELSE IF Joined(rest) = "may" THEN Weaken(got) ELSE got
    [] OTHER -> Err
(* all blocks of one type                                                    *)
Blk(bs, T) ==
  LET bodies == [i \in 1 .. Len(bs) |-> bs[i][4]]
      labelled == \E i \in 1 .. Len(bs) : bs[i][3] # << >>
      each == [i \in 1 .. Len(bs) |-> B(bodies[i], IF T[1] = "vec" THEN T[2] ELSE T)]
  IN CASE T[1] = "ign" -> IF labelled THEN May(<< "ign" >>) ELSE IF \E i \in 1 .. Len(bs) : bodies[i] # << >> THEN May(<< "ign" >>) ELSE Ok(<< "ign" >>)
       [] T[1] \in Unjudged -> [s |-> "any", v |-> << >>]
       [] labelled -> Err
       [] T[1] = "opt" -> Wrap("some", Blk(bs, T[2]))
       [] T[1] = "nt" -> Weaken(Wrap("nt", Blk(bs, T[2])))
       [] T[1] = "vec" -> Join("seq", each)
       [] T[1] = "any" -> IF Len(bs) = 1 THEN each[1] ELSE Join("seq", each)
       [] T[1] \in {"tup", "ts"} -> IF Len(bs) = Len(T[2]) THEN Weaken(Join("seq", [i \in 1 .. Len(bs) |-> B(bodies[i], T[2][i])])) ELSE Err
       [] T[1] \in {"rec", "map"} /\ Len(bs) = 1 -> B(bodies[1], T)
       [] T[1] = "rec" /\ Len(bs) = Len(T[2]) -> Weaken(JoinN("rec", FNames(T), [i \in 1 .. Len(bs) |-> B(bodies[i], T[2][i][2])]))
       [] OTHER -> Err

DeserExpr(t, T) == LET r == ReadExpr(t) IN IF r.r = "ok" THEN E(r.v, T) ELSE Err
DeserDoc(t, T) == LET r == ReadConfig(t) IN IF r.r = "ok" THEN B(r.v, T) ELSE Err
=============================================================================
