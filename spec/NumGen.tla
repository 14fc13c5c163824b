-------------------------------- MODULE NumGen ------------------------------
(* Literals, pairs of literals and machine numbers to be tried.              *)
EXTENDS Numbers, HclGen, HclReader, Json
CONSTANTS What, MaxK, Lo, Hi

(* ------------------------------------------------- literals around limits  *)
Exps == << 7, 8, 15, 16, 23, 24, 25, 31, 32, 52, 53, 54, 63, 64, 65, 127, 128, 129 >>
Powers == [k \in 1 .. Len(Exps) |-> Pow2(Exps[k])]
Around(ds) == << Minus1(ds), ds, Plus1(ds), Minus1(Minus1(ds)), Plus1(Plus1(ds)) >>
Signs == << << >>, << MINUS >>, << PLUS >> >>
LeadZ == << << >>, << 48 >>, << 48, 48, 48 >> >>
Tails == << << >>, S("."), S(".0"), S("e0"), S("E+00"), S(".5"), S("0e-1"), S("e1"), S(".00000000000000000000001"), S("e-2"), S(".4999999999999999999999") >>
BoundLit(k, a, s, z, tl) == Signs[s] \o LeadZ[z] \o Cps(Around(Powers[k])[a]) \o Tails[tl]
(* halfway between two floats, and next to it                                *)
Half(p, j, tl) == Cps(Times2(Plus1(Pow2(p)), j)) \o << << >>, S(".000000000000000000000000000001"), S("e0"), S("e-20"), S("e+30") >>[tl]
HalfLow(p, j) == Cps(Minus1(Times2(Plus1(Pow2(p)), j))) \o S(".999999999999999999999999999999999")

SpecialS == << S("1.7976931348623157e308"), S("1.7976931348623158e308"), S("1.7976931348623159e308"), S("1e308"), S("1e309"), S("-1e310"),
   S("2.2250738585072014e-308"), S("2.2250738585072011e-308"), S("4.9e-324"), S("5e-324"), S("2.4e-324"), S("2.5e-324"), S("-3e-324"),
   S("3.4028234e38"), S("3.4028235e38"), S("3.4028236e38"), S("3.40282356779733661637e38"), S("3.40282356779733661638e38"), S("1.1754943e-38"), S("1e-45"), S("7e-46"), S("7.1e-46"), S("1.4e-45"),
   S("0.1"), S("0.2"), S("0.3"), S("0.30000000000000004"), S("100"), S("1e2"), S("1.0E2"), S("10000e-2"), S("100.0"), S("99.99999999999999"),
   S("0"), S("-0"), S("+0"), S("0.0"), S("-0.0"), S("0e99"), S(".0"), S("0."), S("000"), S("1e-400"), S("-1e-400"), S("1e400"), S("-1e400"),
   S("1e99999999999999999999"), S("1e-99999999999999999999"), S("0e99999999999999999999"), S("1"), S("+1"), S("-1"), S("01"), S("1."), S("1.0"), S("1e0"), S(".1e1"), S("10e-1"),
   S("9007199254740993"), S("9007199254740992"), S("9007199254740993.0"), S("9007199254740992.0"), S("9007199254740994e0"),
   S("123456789012345678901234567890"), S("123456789012345678901234567891"), S("-123456789012345678901234567890"), S("123456789012345678901234567890.0"), S("1.2345678901234567890123456789e29"),
   S("00123456789012345678901234567890"), S("340282366920938463463374607431768211456"), S("340282366920938463463374607431768211455"), S("-170141183460469231731687303715884105728"), S("170141183460469231731687303715884105728"),
   S("18446744073709551616"), S("18446744073709551615"), S("-9223372036854775808"), S("9223372036854775808"), S("9223372036854775807"), S("9223372036854775807.0"),
   S("3.14"), S("-3.14"), S("3.1400000000000001"), S("3.1400000000000006"), S("3.140"), S("314e-2"), S(".314e+1"), S("0.5"), S("-.5"), S("5e-1"), S("1.5"), S("2.5"), S("1.4999999999999999"), S("1.49999"),
   S("255"), S("256"), S("-128"), S("-129"), S("128"), S("65536"), S("4294967296"), S("1e10"), S("10000000000") >>

(* pseudo-random literals                                                    *)
DigSeq(s, n) == [i \in 1 .. n |-> 47 + Val(Mix(s, 300 + i), 10)]
RandLit(s) ==
  LET w == Val(Mix(s, 1), 45) - 1
      f == Val(Mix(s, 2), 30) - 1
      form == Val(Mix(s, 3), 4)
      whole == DigSeq(Mix(s, 4), IF w = 0 /\ (form = 1 \/ f = 0) THEN 1 ELSE w)
      frac == IF form = 1 THEN << >> ELSE << DOT >> \o DigSeq(Mix(s, 5), f)
      ex == IF form <= 2 THEN << >> ELSE Pick(Mix(s, 6), << S("e"), S("E") >>) \o Pick(Mix(s, 7), << S(""), S("+"), S("-"), S("-") >>) \o DigSeq(Mix(s, 8), Val(Mix(s, 9), 3))
  IN Signs[Val(Mix(s, 10), 3)] \o whole \o frac \o ex
(* another way to write the same integer or decimal                          *)
Other(s, t) ==
  LET x == ParseLit(t)  c == Canon(x)
      k == Val(Mix(s, 1), 4)
      sg == IF x.neg THEN << MINUS >> ELSE << >>
      z == Val(Mix(s, 2), 3) - 1
      zz == [i \in 1 .. z |-> 48]
      NumText(n) == IF n < 0 THEN << MINUS >> \o (LET RECURSIVE T(_) T(v) == IF v < 10 THEN << 48 + v >> ELSE T(v \div 10) \o << 48 + (v % 10) >> IN T(-n))
                    ELSE (LET RECURSIVE T(_) T(v) == IF v < 10 THEN << 48 + v >> ELSE T(v \div 10) \o << 48 + (v % 10) >> IN T(n))
  IN IF c.digs = << 0 >> \/ c.exp > 60 \/ c.exp < -60 THEN sg \o zz \o (IF t[1] \in {PLUS, MINUS} THEN Tail(t) ELSE t)
     ELSE CASE k = 1 -> sg \o zz \o Cps(c.digs) \o zz \o << 101 >> \o NumText(c.exp - z)
            [] k = 2 -> sg \o zz \o << DOT >> \o Cps(c.digs) \o << 69 >> \o NumText(c.exp + Len(c.digs))
            [] k = 3 -> sg \o SubSeq(Cps(c.digs), 1, 1) \o << DOT >> \o SubSeq(Cps(c.digs), 2, Len(c.digs)) \o << 101 >> \o NumText(c.exp + Len(c.digs) - 1)
            [] OTHER -> IF c.exp >= 0 THEN sg \o zz \o Cps(c.digs) \o [i \in 1 .. c.exp |-> 48] ELSE sg \o Cps(c.digs) \o << 101 >> \o NumText(c.exp)
(* one digit changed                                                         *)
Near(s, t) == LET p == Val(Mix(s, 3), Len(t)) IN IF IsDigit(t[p]) THEN [t EXCEPT ![p] = 48 + ((t[p] - 47) % 10)] ELSE t

FloatHi == << 0, 1, 2, 32768, 32769, 15, 16, 17, 31, 32, 16367, 16368, 16369, 16383, 16384, 16385, 17216, 17200, 18432, 32735, 32736, 32751, 32752, 65519, 65520, 49136, 13000, 20000, 17300, 16000 >>
FloatLo == << << 0, 0, 0 >>, << 0, 0, 1 >>, << 65535, 65535, 65535 >>, << 32768, 0, 0 >>, << 1, 2, 3 >>, << 39321, 39321, 39322 >> >>

Chunks == {S(x) : x \in {"0", "1", "9", "5", ".", "-", "+", "e", "00", "E2"}}

VARIABLES t, k, req
None == << [op |-> "none"] >>
Init == /\ t = << >> /\ req = None
        /\ CASE What = "enum" -> k = 0
             [] OTHER -> k \in Lo .. Hi
Texts(x) == << [op |-> "num", t |-> x], [op |-> "numval", t |-> x] >>
NumTexts(x) == IF x # << >> /\ (LET r == ReadExpr(x) IN r.r = "ok" /\ r.v[1] = "num") THEN Texts(x) ELSE << [op |-> "num", t |-> x] >>
NB == Len(Exps) * 5 * 3 * 3 * Len(Tails)
NH == 2 * 30 * 6
NP == Len(SpecialS)
Bound(n) == LET q == n \div Len(Tails)  q2 == q \div 3  q3 == q2 \div 3  q4 == q3 \div 5
            IN BoundLit(1 + (q4 % Len(Exps)), 1 + (q3 % 5), 1 + (q2 % 3), 1 + (q % 3), 1 + (n % Len(Tails)))
HalfN(n) == LET p == IF n % 2 = 0 THEN 24 ELSE 53
                tl == 1 + ((n \div 2) % 6)   j == n \div 12
            IN IF tl = 6 THEN HalfLow(p, j) ELSE Half(p, j, tl)
IntFrom(n) ==   \* integers of every type around every limit
  LET x == Around(Powers[1 + ((n \div 10) % Len(Exps))])[1 + (((n \div 10) \div Len(Exps)) % 5)]
      neg == (n \div (10 * Len(Exps) * 5)) % 2 = 1
      ty == 1 + (n % 10)
  IN IF InRange([neg |-> neg, digs |-> x], ty) THEN << [op |-> "numfrom", ty |-> IntTypes[ty], n |-> (IF neg THEN << MINUS >> ELSE << >>) \o Cps(x)] >> ELSE << >>
RECURSIVE DecText(_)
DecText(v) == IF v < 0 THEN << MINUS >> \o DecText(-v) ELSE (IF v < 10 THEN << >> ELSE DecText(v \div 10)) \o << 48 + (v % 10) >>
SmallFrom(n) ==   \* small ones, zero among them
  LET v == (n \div 10) - 20   ty == 1 + (n % 10) IN
  IF v >= 0 \/ ty > 5 THEN << [op |-> "numfrom", ty |-> IntTypes[ty], n |-> DecText(v)] >> ELSE << >>
Make ==
  CASE What = "bound" -> Texts(Bound(k))
    [] What = "half" -> Texts(HalfN(k))
    [] What = "special" -> Texts(SpecialS[k])
    [] What = "pair" -> << [op |-> "numeq", a |-> SpecialS[1 + (k % NP)], b |-> SpecialS[1 + k \div NP]] >>
    [] What = "rand" -> LET l == RandLit(Seed(k)) IN Texts(l) \o << [op |-> "numeq", a |-> l, b |-> Other(Seed(k), l)], [op |-> "numeq", a |-> l, b |-> Near(Seed(k), l)] >>
    [] What = "boundeq" -> LET l == Bound((k * 97) % NB) IN << [op |-> "numeq", a |-> l, b |-> Other(Seed(k), l)], [op |-> "numeq", a |-> l, b |-> Near(Seed(k), l)], [op |-> "numeq", a |-> l, b |-> Bound((k * 97 + Val(Seed(k), 40)) % NB)] >>
    [] What = "ints" -> IntFrom(k)
    [] What = "small" -> SmallFrom(k)
    [] What = "floats" -> LET h == FloatHi[1 + (k % Len(FloatHi))]  l == FloatLo[1 + ((k \div Len(FloatHi)) % Len(FloatLo))] IN
                          << [op |-> "numfromf", ty |-> "f64", b |-> << h >> \o l], [op |-> "numfromf", ty |-> "f32", b |-> << 0, 0, h, l[3] >>],
                             [op |-> "numfromf", ty |-> "f64", b |-> << Val(Mix(Seed(k), 1), 65536) - 1, Val(Mix(Seed(k), 2), 65536) - 1, Val(Mix(Seed(k), 3), 65536) - 1, Val(Mix(Seed(k), 4), 65536) - 1 >>],
                             [op |-> "numfromf", ty |-> "f32", b |-> << 0, 0, Val(Mix(Seed(k), 5), 65536) - 1, Val(Mix(Seed(k), 6), 65536) - 1 >>] >>
Next == IF What = "enum"
        THEN k < MaxK /\ \E c \in Chunks : t' = t \o c /\ k' = k + 1 /\ req' = NumTexts(t \o c)
        ELSE req = None /\ req' = Make /\ UNCHANGED << t, k >>
Spec == Init /\ [][Next]_<< t, k, req >>
Emit == req = None \/ req = << >> \/ PrintT(ToJson([q |-> req]))

(* the specification agrees with itself                                      *)
Sane == \A n \in 1 .. Len(IF req = None THEN << >> ELSE req) :
  LET q == req[n] IN
  q.op = "numeq" => LET x == ParseLit(q.a)  y == ParseLit(q.b) IN
     /\ ~(MustEqual(x, y) /\ MustDiffer(x, y))
     /\ MustDiffer(x, y) = MustDiffer(y, x)
     /\ MustEqual(x, x) /\ ~MustDiffer(x, x)
=============================================================================
