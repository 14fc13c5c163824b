------------------------------- MODULE DeserGen ------------------------------
(* Pairs of a document (expression) and a target type, with the result.      *)
EXTENDS Deser, HclGen, Json

CONSTANTS What, Lo, Hi, Depth

(* ------------------------------------------------------- exhaustive parts  *)
Scalars == {<< "bool" >>, << "str" >>, << "char" >>, << "unit" >>, << "ustruct" >>, << "u8" >>, << "i8" >>, << "i64" >>, << "u64" >>, << "f64" >>, << "f32" >>, << "any" >>, << "ign" >>, << "bstr" >>, << "bytes" >>, << "enum" >>, << "kmap", << "u8" >>, << "any" >> >>, << "kmap", << "char" >>, << "u8" >> >>}
U8 == << "u8" >>
AB(x, y) == << << S("a"), x >>, << S("b"), y >> >>
Opt(T) == << "opt", T >>
Vec(T) == << "vec", T >>
MapT(T) == << "map", T >>
Tup(Ts) == << "tup", Ts >>
Rec(fs) == << "rec", fs, FALSE >>
Deny(fs) == << "rec", fs, TRUE >>
Few == {U8, << "str" >>, << "bool" >>, << "any" >>, Opt(U8)}
TypesE == Scalars \cup {Opt(T) : T \in Few} \cup {Vec(T) : T \in Few} \cup {MapT(T) : T \in Few} \cup {<< "nt", T >> : T \in Few}
            \cup {Tup(<< >>), Tup(<< U8 >>), Tup(<< U8, << "str" >> >>), Tup(<< << "any" >>, << "any" >>, << "any" >> >>), << "ts", << U8, U8 >> >>, Vec(Vec(U8)), Vec(Tup(<< U8, U8 >>)),
                  Rec(AB(U8, << "str" >>)), Rec(AB(Opt(U8), Opt(<< "str" >>))), Deny(AB(U8, Opt(U8))), Rec(<< << S("a"), Rec(AB(U8, Opt(U8))) >> >>),
                  Vec(Rec(<< << S("a"), U8 >> >>)), Opt(Opt(U8)), MapT(MapT(U8)), Rec(<< << S("a"), Opt(Tup(<< U8, U8 >>)) >> >>), Opt(Vec(U8)), << "nt", << "nt", U8 >> >>,
                  Rec(<< << S("a b"), U8 >>, << << 233 >>, Opt(U8) >> >>), Vec(<< "nt", Opt(U8) >>), Vec(<< "unit" >>), Vec(<< "ign" >>)}
TextsE == {S(x) : x \in {"null", "true", "false", "0", "1", "255", "256", "-1", "-128", "-129", "127", "128", "007", "-0", "1.5", "-2.25", "1.0", "1e2", "\"\"", "\"x\"",
                         "\"xy\"", "\"1\"", "\"null\"", "[]", "[1]", "[1,2]", "[1,2,3]", "[1,\"x\"]", "[\"x\",1]", "[null]", "[null,1]", "[256]", "[1,2,256]", "[[1],[2]]", "[[1,2]]", "[[1,2],[3,4]]", "[[1,2],[3]]",
                         "[true]", "[{a=1}]", "[{a=1},{}]", "[{a=1},{a=2}]", "{}", "{a=1}", "{a=1,b=\"x\"}", "{b=\"x\",a=1}", "{a=1,b=2}", "{a=null}", "{a=null,b=null}", "{a=1,c=2}", "{a=1,b=null,c={}}",
                         "{\"a\"=1}", "{\"a\"=1,b=\"x\"}", "{a=1,a=2}", "{a=1,\"a\"=2}", "{\"a\"=1,\"\\x61\"=1}", "{c=1,c=1,a=1}", "{(\"a\")=1}", "{1=1}", "{(a)=1}", "{[]=1,a=1}", "{null=1}", "{true=1}", "{\"1\"=1}",
                         "{a={a=1}}", "{a={a=1,b=2}}", "{a={}}", "{a=[1,2]}", "{a=[1]}", "{a=[1,2,3]}", "{a={b=1},c=1}", "{x={y=1}}", "{x={y=1},z=2}", "{\"a b\"=1}", "{\"\\u00e9\"=2,\"a b\"=1}", "[[]]", "(1)", "([(1)])", "<<E~x~E", "(<<E~ x `~E~)", "(<<-E~   x ~`y~  E~)", "(<<E~1~E~)", "{a=<<E~x ~E~}", "[<<E~x~~E~]", "\" x \"", "\"~\"", "\" \"", "\"x \"",
                         "99999999999999999999", "-9223372036854775809", "[99999999999999999999]", "{a=1,b=99999999999999999999}", "1e400", "{a=\"1\"}", "[1,[2]]", "18446744073709551615", "9223372036854775808"}}

(* integers around every bound, in several spellings                         *)
Near(k, j) == LET p == Pow2(k) IN CASE j = 0 -> Minus1(Minus1(p)) [] j = 1 -> Minus1(p) [] j = 2 -> p [] j = 3 -> Plus1(p) [] OTHER -> Plus1(Plus1(p))
BoundBits == << 3, 7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 65, 127, 128, 129, 200 >>
(* lead 0: plain, 1: minus, 2: plus, 3: zeros in front, 4: minus and zeros,  *)
(* 5: a zero fraction, 6: an exponent                                        *)
Spell(lead, ds) == CASE lead = 1 -> << MINUS >> \o Cps(ds) [] lead = 2 -> << PLUS >> \o Cps(ds) [] lead = 3 -> S("000") \o Cps(ds)
                     [] lead = 4 -> S("-00") \o Cps(ds) [] lead = 5 -> Cps(ds) \o S(".0") [] lead = 6 -> Cps(ds) \o S("e0") [] OTHER -> Cps(ds)
NearTab == IF What # "bound" THEN << >> ELSE [k \in 1 .. Len(BoundBits) |-> [j \in 1 .. 5 |-> Near(BoundBits[k], j - 1)]]
BoundText(i) == Spell((i \div 5) % 7, NearTab[1 + ((i \div 35) % Len(BoundBits))][1 + (i % 5)])
IntTargets == [i \in 1 .. 10 |-> << IntTypes[i] >>] \o << << "f64" >>, << "any" >>, << "str" >>, << "bool" >>, Opt(<< "u64" >>), << "nt", << "i64" >> >>, Vec(<< "u128" >>), << "ign" >> >>

(* documents made of these elements                                          *)
Elems == {S(x) : x \in {"a=1~", "a=\"x\"~", "a=<<E~ x ~E~", "a=null~", "a=[1,2]~", "a={x=1}~", "a{}~", "a{x=1}~", "a{~x=1~x=2~}~", "a{x=2}~", "b=1~", "b{x=1}~", "a l {x=1}~", "a \"m\" {}~", "c{}~"}}
RX == Rec(<< << S("x"), U8 >> >>)
RXO == Rec(<< << S("x"), Opt(U8) >> >>)
RXA == << S("a"), RX >>
TypesD == {Rec(<< << S("a"), T >> >>) : T \in {U8, << "str" >>, Opt(U8), Opt(<< "str" >>), Vec(U8), RX, RXO, Opt(RX), Vec(RX), Vec(RXO), Opt(Vec(RXO)), MapT(U8), Vec(MapT(U8)), << "any" >>,
                                               Tup(<< U8, U8 >>), Tup(<< RX, RX >>), << "unit" >>, << "ign" >>, << "nt", RX >>, Opt(Opt(RXO)), Vec(Opt(RX)), Rec(AB(RXO, RXO)), Rec(<< >>), Vec(Rec(<< >>))}}
            \cup {Rec(AB(Opt(U8), Opt(U8))), Rec(AB(U8, U8)), Rec(AB(Vec(RXO), Opt(RX))), Deny(AB(Opt(Vec(RXO)), Opt(<< "any" >>))), Deny(<< << S("a"), Opt(U8) >> >>), Rec(<< >>), Deny(<< >>),
                  MapT(<< "any" >>), MapT(U8), MapT(Vec(MapT(U8))), MapT(Opt(RXO)), << "any" >>, << "ign" >>, U8, << "str" >>, Vec(<< "any" >>), << "unit" >>, Opt(RX), << "nt", RX >>, Tup(<< U8 >>), << "bool" >>}

(* ------------------------------------------------------- pseudo-random     *)
NamesR == << S("a"), S("b"), S("x"), << 233 >>, S("foo-bar"), S("type") >>
ScalT == << << "bool" >>, << "str" >>, << "char" >>, << "unit" >>, << "u8" >>, << "i8" >>, << "u16" >>, << "i16" >>, << "u32" >>, << "i32" >>, << "u64" >>, << "i64" >>,
            << "f64" >>, << "str" >>, << "i64" >>, << "u64" >>, << "any" >>, << "bstr" >>, << "bytes" >> >>
RECURSIVE RType(_, _), RFields(_, _, _, _)
RFields(s, d, n, i) == IF n = 0 THEN << >> ELSE << << NamesR[i], RType(Mix(s, 1), d) >> >> \o RFields(Mix(s, 2), d, n - 1, i + 1)
RType(s, d) ==
  LET k == Val(Mix(s, 1), IF d = 0 THEN 5 ELSE 14) IN
  CASE k <= 4 -> Pick(Mix(s, 2), ScalT)
    [] k = 5 -> Opt(Pick(Mix(s, 2), ScalT))
    [] k = 6 -> Opt(RType(Mix(s, 3), d - 1))
    [] k = 7 -> << "nt", RType(Mix(s, 3), d - 1) >>
    [] k \in {8, 9} -> Vec(RType(Mix(s, 3), d - 1))
    [] k = 10 -> << Pick(Mix(s, 5), << "tup", "ts" >>), [i \in 1 .. Val(Mix(s, 4), 3) |-> RType(Mix(s, 10 + i), d - 1)] >>
    [] k = 11 -> MapT(RType(Mix(s, 3), d - 1))
    [] OTHER -> << "rec", RFields(Mix(s, 6), d - 1, Val(Mix(s, 7), 4), 1), Val(Mix(s, 8), 4) = 1 >>
(* a literal that fits an integer type most of the time                      *)
IntLit(s, k) ==
  LET top == IF Val(Mix(s, 1), 2) = 1 \/ Unsigned(k) THEN MaxPos[k] ELSE MaxNeg[k]
      neg == ~(top = MaxPos[k])
      j == Val(Mix(s, 2), 8)
      ds == CASE j = 1 -> Plus1(top) [] j = 2 -> Minus1(top) [] j <= 5 -> << Val(Mix(s, 3), 9) >> [] OTHER -> top
  IN IF neg THEN << MINUS >> \o Cps(ds) ELSE IF Val(Mix(s, 4), 12) = 1 THEN << MINUS, 48 >> ELSE Cps(ds)
StrLits == << S("\"\""), S("\"x\""), S("\"\\u00e9\""), S("\"a b\""), S("\"1\""), << DQ, 955, DQ >>, S("\"\\n\""), S("\"y\""), S("\" x`\""), S("\"#/*\"") >>
Odd == << S("null"), S("true"), S("1"), S("\"x\""), S("[]"), S("{}"), S("-1"), S("1.5"), S("[1]"), S("{a=1}"), S("300") >>
Floats == << S("1.5"), S("-0.25"), S("1e3"), S("100"), S("-7"), S("0.1"), S("3.") >>
KeyText(n, s) == IF Val(Mix(s, 1), 3) = 1 THEN << DQ >> \o n \o << DQ >> ELSE n
RECURSIVE RExpr(_, _, _), RList(_, _, _, _), RObj(_, _, _, _)
RExpr(s, T, dev) ==
  LET q == Mix(s, 9) IN
  IF Val(Mix(s, 1), dev) = 1 THEN Pick(Mix(s, 2), Odd)
  ELSE CASE IsInt(T) -> IntLit(q, IntIx(T[1]))
         [] IsFloat(T) -> Pick(q, Floats)
         [] T[1] = "bool" -> Pick(q, << S("true"), S("false") >>)
         [] T[1] \in {"str", "bstr"} -> Pick(q, StrLits)
         [] T[1] = "bytes" -> S("[") \o RList(q, [i \in 1 .. (Val(Mix(q, 1), 4) - 1) |-> U8], dev, 1) \o S("]")
         [] T[1] = "char" -> Pick(q, << S("\"x\""), S("\"y\""), S("\"\\n\""), S("\"xy\""), << DQ, 955, DQ >> >>)
         [] T[1] \in {"unit", "ustruct"} -> S("null")
         [] T[1] \in {"any", "ign"} -> Pick(q, Odd)
         [] T[1] = "opt" -> IF Val(q, 3) = 1 THEN S("null") ELSE RExpr(q, T[2], dev)
         [] T[1] = "nt" -> RExpr(q, T[2], dev)
         [] T[1] = "vec" -> S("[") \o RList(q, [i \in 1 .. (Val(Mix(q, 1), 4) - 1) |-> T[2]], dev, 1) \o S("]")
         [] T[1] \in {"tup", "ts"} -> LET n == Len(T[2])  c == Val(Mix(q, 1), 3 * dev)
                                          ts == IF c = 1 THEN Append(T[2], U8) ELSE IF c = 2 /\ n > 0 THEN SubSeq(T[2], 1, n - 1) ELSE T[2]
                                      IN S("[") \o RList(q, ts, dev, 1) \o S("]")
         [] T[1] = "map" -> S("{") \o RObj(q, [i \in 1 .. (Val(Mix(q, 1), 4) - 1) |-> << Pick(Mix(q, 20 + i), NamesR), T[2] >>], dev, 1) \o S("}")
         [] OTHER -> LET extra == IF Val(Mix(q, 2), dev) = 1 THEN << << Pick(Mix(q, 4), NamesR), U8 >> >> ELSE << >>
                         fs == SelectSeq(T[2] \o extra, LAMBDA f : Val(Mix(Mix(q, 5), f[1][1]), IF f[2][1] = "opt" THEN 3 ELSE 2 * dev) # 1)
                     IN S("{") \o RObj(q, fs, dev, 1) \o S("}")
RList(s, ts, dev, i) == IF i > Len(ts) THEN << >>
                        ELSE RExpr(Mix(s, 30 + i), ts[i], dev) \o (IF i < Len(ts) THEN << COMMA >> ELSE << >>) \o RList(s, ts, dev, i + 1)
RObj(s, fs, dev, i) == IF i > Len(fs) THEN << >>
                       ELSE KeyText(fs[i][1], Mix(s, 50 + i)) \o << EQ >> \o RExpr(Mix(s, 30 + i), fs[i][2], dev)
                            \o (IF i < Len(fs) THEN << COMMA >> ELSE << >>) \o RObj(s, fs, dev, i + 1)
(* bodies: what is a record, map or list of such is written as blocks        *)
Blocky(T) == T[1] \in {"rec", "map"} \/ (T[1] = "vec" /\ T[2][1] \in {"rec", "map"}) \/ (T[1] \in {"opt", "nt"} /\ T[2][1] \in {"rec", "map"})
RECURSIVE RBody(_, _, _), RElems(_, _, _, _), RBlocks(_, _, _, _, _), Mixed(_, _, _)
BodyT(T) == IF T[1] \in {"vec", "opt", "nt"} THEN T[2] ELSE T
RBlocks(s, name, T, dev, n) ==
  IF n = 0 THEN << >>
  ELSE << name \o (IF Val(Mix(s, 3), 4 * dev) = 1 THEN S(" \"l\"") ELSE << >>) \o S(" {~") \o RBody(Mix(s, 1), BodyT(T), dev) \o S("}~") >> \o RBlocks(Mix(s, 2), name, T, dev, n - 1)
HdTexts == << S("x"), S(" x "), S("x`"), S("~x~~"), S("1"), S("\\n"), << 233 >> >>
REl(s, f, dev) ==   \* the elements written for a field
  IF Blocky(f[2]) /\ Val(Mix(s, 1), 4) # 1
  THEN RBlocks(Mix(s, 2), f[1], f[2], dev, IF f[2][1] = "vec" THEN Val(Mix(s, 3), 4) - 1 ELSE IF Val(Mix(s, 4), 2 * dev) = 1 THEN 2 ELSE 1)
  ELSE IF f[2] = << "str" >> /\ Val(Mix(s, 6), 3) = 1 THEN << f[1] \o S("=<<E~") \o Pick(Mix(s, 7), HdTexts) \o S("~E~") >>
  ELSE << f[1] \o << EQ >> \o RExpr(Mix(s, 5), f[2], dev) \o << LF >> >>
RElems(s, fs, dev, i) == IF i > Len(fs) THEN << >> ELSE REl(Mix(s, 70 + i), fs[i], dev) \o RElems(s, fs, dev, i + 1)
(* in any order                                                              *)
Mixed(s, es, dev) == IF es = << >> THEN << >>
                     ELSE LET j == Val(Mix(s, 1), Len(es)) IN es[j] \o Mixed(Mix(s, 2), [i \in 1 .. Len(es) - 1 |-> IF i < j THEN es[i] ELSE es[i + 1]], dev)
RBody(s, T, dev) ==
  LET q == Mix(s, 8)
      fs == IF T[1] = "rec" THEN T[2] ELSE IF T[1] = "map" THEN [i \in 1 .. (Val(Mix(q, 1), 4) - 1) |-> << Pick(Mix(q, 20 + i), NamesR), T[2] >>] ELSE << << S("a"), U8 >> >>
      extra == IF Val(Mix(q, 2), dev) = 1 THEN << << Pick(Mix(q, 4), NamesR), Pick(Mix(q, 6), << U8, RX >>) >> >> ELSE << >>
      kept == SelectSeq(fs \o extra, LAMBDA f : Val(Mix(Mix(q, 5), f[1][1]), IF f[2][1] = "opt" THEN 3 ELSE 2 * dev) # 1)
  IN Mixed(Mix(q, 7), RElems(Mix(q, 3), kept, dev, 1), dev)

(* derived targets of the harness, with the type they have                   *)
F(n, T) == << n, T >>
Str1 == << "str" >>
Derived == <<
  << "Plain", Rec(<< F(S("a"), U8), F(S("b"), Str1), F(S("x"), Opt(<< "i64" >>)) >>) >>,
  << "Nested", Rec(<< F(S("a"), RX), F(S("b"), Opt(RX)), F(S("x"), Vec(RX)) >>) >>,
  << "Lists", Rec(<< F(S("a"), Vec(U8)), F(S("b"), Opt(Vec(Str1))), F(S("x"), Tup(<< U8, << "bool" >> >>)) >>) >>,
  << "Strict", Deny(<< F(S("a"), Opt(U8)), F(S("b"), Opt(Vec(RXO))) >>) >>,
  << "Maps", Rec(<< F(S("a"), MapT(<< "i64" >>)), F(S("b"), Opt(MapT(Vec(U8)))) >>) >>,
  << "Wraps", Rec(<< F(S("a"), << "nt", U8 >>), F(S("b"), Opt(<< "nt", Str1 >>)), F(S("x"), Opt(<< "ts", << U8, << "i8" >> >> >>)) >>) >>,
  << "Big", Rec(<< F(S("a"), Opt(<< "u128" >>)), F(S("b"), Opt(<< "i128" >>)), F(S("x"), Opt(<< "f64" >>)) >>) >>,
  << "MapAny", MapT(Opt(<< "u64" >>)) >>,
  << "Deep", Rec(<< F(S("a"), Opt(Vec(Rec(<< F(S("a"), Opt(Vec(RXO))), F(S("b"), Str1) >>)))), F(S("b"), << "bool" >>) >>) >> >>

VARIABLES rec, st
vars == << rec, st >>
R(src, t, T, x) == [op |-> "deser", src |-> src, t |-> t, ty |-> T, x |-> x]
Job(src, t, T) == << src, t, T, "" >>
Init == /\ st = << >>
        /\ CASE What = "pair" -> \E t \in TextsE, T \in TypesE : rec = Job("expr", t, T)
             [] What = "bound" -> \E i \in Lo .. Hi, k \in 1 .. Len(IntTargets) : rec = Job("expr", IF IntTargets[k][1] = "vec" THEN S("[") \o BoundText(i) \o S("]") ELSE BoundText(i), IntTargets[k])
             [] What = "doc1" -> \E T \in TypesD, a \in Elems \cup {<< >>} : rec = Job("doc", a, T)
             [] What = "doc2" -> \E T \in TypesD, a, b \in Elems : rec = Job("doc", a \o b, T)
             [] What = "doc3" -> \E T \in TypesD, a, b, c \in Elems : rec = Job("doc", a \o b \o c, T)
             [] What = "rexpr" -> \E i \in Lo .. Hi : LET T == RType(Mix(Seed(i), 1), Depth) IN rec = Job("expr", RExpr(Mix(Seed(i), 2), T, Pick(Mix(Seed(i), 3), << 8, 20, 100 >>)), T)
             [] What = "rdoc" -> \E i \in Lo .. Hi : LET T == << "rec", RFields(Mix(Seed(i), 1), Depth, Val(Mix(Seed(i), 4), 4), 1), Val(Mix(Seed(i), 5), 4) = 1 >>
                                                    IN rec = Job("doc", RBody(Mix(Seed(i), 2), T, Pick(Mix(Seed(i), 3), << 8, 20, 100 >>)), T)
             [] What = "derived" -> \E i \in Lo .. Hi, k \in 1 .. Len(Derived) :
                    rec = << "doc", RBody(Mix(Seed(i), 2), Derived[k][2], Pick(Mix(Seed(i), 3), << 8, 20, 100 >>)), Derived[k][2], Derived[k][1] >>
Next == st = << >> /\ st' = << IF rec[1] = "doc" THEN DeserDoc(rec[2], rec[3]) ELSE DeserExpr(rec[2], rec[3]) >> /\ UNCHANGED rec
Spec == Init /\ [][Next]_vars
(* a value that is read has the shape of its type                            *)
RECURSIVE Shaped(_, _)
Shaped(v, T) ==
  CASE IsInt(T) -> v[1] = "int"
    [] IsFloat(T) -> v[1] \in {"flt", "inf"}
    [] T[1] \in {"str", "char", "bstr"} -> v[1] = "str"
    [] T[1] = "bool" -> v[1] = "bool"
    [] T[1] \in {"unit", "ustruct"} -> v[1] = "unit"
    [] T[1] = "opt" -> v[1] = "none" \/ (v[1] = "some" /\ Shaped(v[2], T[2]))
    [] T[1] = "nt" -> v[1] = "nt" /\ Shaped(v[2], T[2])
    [] T[1] = "bytes" -> v[1] = "seq"
    [] T[1] = "vec" -> v[1] = "seq" /\ \A i \in 1 .. Len(v[2]) : Shaped(v[2][i], T[2])
    [] T[1] \in {"tup", "ts"} -> v[1] = "seq" /\ Len(v[2]) = Len(T[2]) /\ \A i \in 1 .. Len(v[2]) : Shaped(v[2][i], T[2][i])
    [] T[1] = "map" -> v[1] = "map" /\ \A i \in 1 .. Len(v[2]) : Shaped(v[2][i][2], T[2])
    [] T[1] = "rec" -> v[1] = "rec" /\ Len(v[2]) = Len(T[2]) /\ \A i \in 1 .. Len(v[2]) : v[2][i][1] = T[2][i][1] /\ Shaped(v[2][i][2], T[2][i][2])
    [] OTHER -> TRUE
Typed == (st # << >> /\ st[1].s \in {"ok", "may"}) => Shaped(st[1].v, rec[3])
Emit == st # << >> => PrintT(ToJson([op |-> "deser", src |-> rec[1], t |-> rec[2], ty |-> rec[3], d |-> rec[4], x |-> [r |-> st[1].s, v |-> st[1].v]]))
=============================================================================
