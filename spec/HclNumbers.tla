------------------------------ MODULE HclNumbers ----------------------------
(* Decimal literals as exact numbers: sign, digits, power of ten.            *)
EXTENDS HclChars

RECURSIVE FirstNonZero(_, _)
FirstNonZero(s, i) == IF i > Len(s) THEN i ELSE IF s[i] # 0 THEN i ELSE FirstNonZero(s, i + 1)
RECURSIVE LastNonZero(_, _)
LastNonZero(s, i) == IF i = 0 THEN 0 ELSE IF s[i] # 0 THEN i ELSE LastNonZero(s, i - 1)

(* position of the first character satisfying: an exponent mark / a point    *)
RECURSIVE FindE(_, _)
FindE(t, i) == IF i > Len(t) THEN i ELSE IF t[i] \in {69, 101} THEN i ELSE FindE(t, i + 1)
RECURSIVE FindDot(_, _)
FindDot(t, i) == IF i > Len(t) THEN i ELSE IF t[i] = DOT THEN i ELSE FindDot(t, i + 1)

ExpMax == 100000
RECURSIVE DecFrom(_, _, _)
DecFrom(t, i, acc) == IF i > Len(t) THEN acc
                      ELSE DecFrom(t, i + 1, IF acc >= ExpMax THEN ExpMax ELSE acc * 10 + (t[i] - 48))

Digs(t) == [i \in 1 .. Len(t) |-> t[i] - 48]

(* The number denoted by a literal: digs has no leading zero (<<>> is zero), *)
(* value = (neg ? -1 : 1) * digs * 10^exp.                                   *)
ParseLit(t) ==
  LET signed == Len(t) > 0 /\ t[1] \in {PLUS, MINUS}
      neg == signed /\ t[1] = MINUS
      u == IF signed THEN Tail(t) ELSE t
      e == FindE(u, 1)
      mant == SubSeq(u, 1, e - 1)
      etxt == SubSeq(u, e + 1, Len(u))
      esigned == Len(etxt) > 0 /\ etxt[1] \in {PLUS, MINUS}
      eneg == esigned /\ etxt[1] = MINUS
      eabs == DecFrom(IF esigned THEN Tail(etxt) ELSE etxt, 1, 0)
      d == FindDot(mant, 1)
      whole == SubSeq(mant, 1, d - 1)
      frac == SubSeq(mant, d + 1, Len(mant))
      all == Digs(whole \o frac)
      z == FirstNonZero(all, 1)
  IN [neg |-> neg,
      digs |-> SubSeq(all, z, Len(all)),
      exp |-> (IF eneg THEN -eabs ELSE eabs) - Len(frac),
      plain |-> e > Len(u) /\ d > Len(mant)]      \* neither point nor exponent

(* canonical form: no trailing zeros; zero is unsigned with exponent 0       *)
Canon(x) ==
  LET k == LastNonZero(x.digs, Len(x.digs))
  IN IF k = 0 THEN [neg |-> FALSE, digs |-> << 0 >>, exp |-> 0]
     ELSE [neg |-> x.neg, digs |-> SubSeq(x.digs, 1, k), exp |-> x.exp + (Len(x.digs) - k)]

RECURSIVE LexLess(_, _, _)
LexLess(a, b, i) == IF i > Len(a) THEN FALSE
                    ELSE IF a[i] < b[i] THEN TRUE ELSE IF a[i] > b[i] THEN FALSE ELSE LexLess(a, b, i + 1)
(* digit sequences without leading zeros                                     *)
DigLess(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ LexLess(a, b, 1))
DigLeq(a, b) == ~DigLess(b, a)

D64 == << 9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7 >>
D64m == << 9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,8 >>
FitsI64(x) == x.plain /\ DigLeq(x.digs, IF x.neg THEN D64m ELSE D64)

Cps(ds) == [i \in 1 .. Len(ds) |-> ds[i] + 48]
(* canonical decimal text of an integer                                      *)
IntText(x) == IF x.digs = << >> THEN << 48 >> ELSE (IF x.neg THEN << MINUS >> ELSE << >>) \o Cps(x.digs)

(* The floating point value of a literal, where it is determined by at most  *)
(* 15 significant digits and far from the ends of the range; overflow is the *)
(* infinity, underflow zero.                                                 *)
FloatVal(x) ==
  LET c == Canon(x)
      mag == Len(c.digs) + c.exp          \* 10^(mag-1) <= |x| < 10^mag
  IN IF c.digs = << 0 >> \/ mag < -330 THEN << "flt", FALSE, << 0 >>, 0 >>
     ELSE IF mag > 310 THEN << "inf", c.neg >>
     ELSE << "flt", c.neg, c.digs, c.exp >>
FloatDetermined(x) == LET c == Canon(x) mag == Len(c.digs) + c.exp
                      IN Len(c.digs) <= 15 /\ (mag < -330 \/ mag > 310 \/ (mag > -300 /\ mag < 308))

ValueOfLit(t) == LET x == ParseLit(t) IN
                 IF FitsI64(x) THEN << "int", IntText(x) >> ELSE FloatVal(x)
=============================================================================
