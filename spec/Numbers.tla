------------------------------- MODULE Numbers ------------------------------
(* What numeric literals mean to machine types and to each other.            *)
EXTENDS HclNumbers, Text, FiniteSets

(* ------------------------------------------------------ digits, increasing *)
RECURSIVE Doubled(_, _, _, _)
Doubled(ds, i, carry, acc) ==
  IF i = 0 THEN (IF carry = 0 THEN acc ELSE << carry >> \o acc)
  ELSE LET x == ds[i] * 2 + carry IN Doubled(ds, i - 1, x \div 10, << x % 10 >> \o acc)
Double(ds) == Doubled(ds, Len(ds), 0, << >>)
RECURSIVE Times2(_, _)
Times2(ds, n) == IF n = 0 THEN ds ELSE Times2(Double(ds), n - 1)
Pow2(n) == Times2(<< 1 >>, n)
RECURSIVE Inc(_, _)
Inc(ds, i) == IF i = 0 THEN << 1 >> \o ds
              ELSE IF ds[i] < 9 THEN [ds EXCEPT ![i] = @ + 1] ELSE Inc([ds EXCEPT ![i] = 0], i - 1)
RECURSIVE DecD(_, _)
DecD(ds, i) == IF ds[i] > 0 THEN [ds EXCEPT ![i] = @ - 1] ELSE DecD([ds EXCEPT ![i] = 9], i - 1)
Strip(ds) == SubSeq(ds, FirstNonZero(ds, 1), Len(ds))
Plus1(ds) == Inc(ds, Len(ds))
Minus1(ds) == Strip(DecD(ds, Len(ds)))

(* ------------------------------------------------------ machine integers   *)
IntTypes == << "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128" >>
Bits == << 8, 16, 32, 64, 128, 8, 16, 32, 64, 128 >>
Unsigned(k) == k <= 5
MaxPos == [k \in 1 .. 10 |-> Minus1(Pow2(IF Unsigned(k) THEN Bits[k] ELSE Bits[k] - 1))]
MaxNeg == [k \in 1 .. 10 |-> IF Unsigned(k) THEN << >> ELSE Pow2(Bits[k] - 1)]
InRange(x, k) == DigLeq(x.digs, IF x.neg THEN MaxNeg[k] ELSE MaxPos[k])

(* the integer a literal denotes, if it denotes one (of bounded length)      *)
Zeros(n) == [i \in 1 .. n |-> 0]
IntOf(x) ==
  LET c == Canon(x) IN
  IF c.digs = << 0 >> THEN [is |-> TRUE, neg |-> FALSE, digs |-> << >>]
  ELSE IF c.exp < 0 \/ c.exp > 400 THEN [is |-> FALSE, neg |-> FALSE, digs |-> << >>]
  ELSE [is |-> TRUE, neg |-> c.neg, digs |-> c.digs \o Zeros(c.exp)]

(* y is what a conversion to type k gave: decimal text or <<>> for error           *)
ConvOk(x, k, y) ==
  LET n == IntOf(x) IN
  IF y = << >> THEN ~(x.plain /\ n.is /\ InRange(n, k)) \/ (x.plain /\ x.neg /\ Unsigned(k))
  ELSE n.is /\ InRange(n, k) /\ y = IntText(n)

(* ------------------------------------------------------------------ floats *)
(* comparing magnitudes of decimals <<digits, power of ten>>                 *)
MagOf(a) == IF a[1] = << >> THEN -1000000 ELSE Len(a[1]) + a[2]
Dg(s, i) == IF i <= Len(s) THEN s[i] ELSE 0
RECURSIVE CmpD(_, _, _, _)
CmpD(a, b, i, n) == IF i > n THEN 0 ELSE IF Dg(a, i) < Dg(b, i) THEN -1 ELSE IF Dg(a, i) > Dg(b, i) THEN 1 ELSE CmpD(a, b, i + 1, n)
Cmp(a, b) == IF MagOf(a) < MagOf(b) THEN -1 ELSE IF MagOf(a) > MagOf(b) THEN 1
             ELSE CmpD(a[1], b[1], 1, IF Len(a[1]) > Len(b[1]) THEN Len(a[1]) ELSE Len(b[1]))
Abs(x) == << x.digs, x.exp >>
(* f: the reals that round to the float (the projection of a float)          *)
FloatOk(x, f) ==
  CASE f[1] = "in" -> /\ x.digs # << >> /\ ~f[6] => x.neg = f[2]
                      /\ IF f[3] THEN Cmp(f[4], Abs(x)) <= 0 /\ Cmp(Abs(x), f[5]) <= 0
                         ELSE Cmp(f[4], Abs(x)) < 0 /\ Cmp(Abs(x), f[5]) < 0
    [] f[1] = "inf" -> x.neg = f[2] /\ Cmp(f[3], Abs(x)) <= 0
    [] OTHER -> FALSE

(* ---------------------------------------------------------------- equality *)
RECURSIVE Pref(_, _, _, _)
Pref(ds, i, n, acc) == IF i > n THEN acc ELSE Pref(ds, i + 1, n, acc * 10 + Dg(ds, i))
Hi8(ds) == Pref(ds, 1, 8, 0)
Lo8(ds) == Pref(ds, 9, 16, 0)
MustEqual(x, y) == Canon(x) = Canon(y)
Tiny == -300
Huge == 310
Far(a, b) ==   \* canonical, same sign, not zero: clearly apart, beyond what rounding to a float can identify
  LET ma == Len(a.digs) + a.exp   mb == Len(b.digs) + b.exp
      big == IF ma > mb THEN a ELSE b   small == IF ma > mb THEN b ELSE a
      dh == Hi8(a.digs) - Hi8(b.digs)
  IN CASE (ma <= Tiny /\ mb <= Tiny) \/ (ma >= 308 /\ mb >= 308) -> FALSE
       [] ma # mb -> ma - mb \notin {-1, 1} \/ Hi8(big.digs) - (Hi8(small.digs) \div 10) > 2
       [] OTHER -> dh \notin -1 .. 1 \/ dh * 100000000 + (Lo8(a.digs) - Lo8(b.digs)) \notin -100 .. 100
MustDiffer(x, y) ==
  IF x.plain /\ y.plain THEN ~MustEqual(x, y)
  ELSE LET a == Canon(x)  b == Canon(y)  z == << 0 >> IN
       CASE a.digs = z /\ b.digs = z -> FALSE
         [] a.digs = z -> Len(b.digs) + b.exp > Tiny
         [] b.digs = z -> Len(a.digs) + a.exp > Tiny
         [] a.neg # b.neg -> Len(a.digs) + a.exp > Tiny \/ Len(b.digs) + b.exp > Tiny
         [] OTHER -> Far(a, b)

(* -------------------------------------------- checks of a recorded outcome *)
ConvsOk(x, t, v) ==
  /\ v.text = t
  /\ Len(v.ints) = 10
  /\ \A k \in 1 .. 10 : v.ints[k][1] = IntTypes[k] /\ ConvOk(x, k, v.ints[k][2])
  /\ FloatOk(x, v.f32) \/ (v.f32[1] = "err" /\ Cmp(Abs(x), << << 3, 4 >>, 37 >>) > 0)
  /\ FloatOk(x, v.f64) \/ (v.f64[1] = "err" /\ Cmp(Abs(x), << << 1, 7 >>, 307 >>) > 0)
  /\ v.refl
  /\ v.signed = x.plain /\ v.float = ~x.plain
  /\ (x.digs # << >> \/ t[1] # MINUS) => v.unsigned = (x.plain /\ ~x.neg)   \* (a negative zero may be either)
EqOk(x, y, v) ==
  /\ v.ab = v.ba /\ v.own = v.ab /\ v.expr = v.ab /\ v.ne = ~v.ab
  /\ MustEqual(x, y) => v.ab
  /\ MustDiffer(x, y) => ~v.ab
LeafOk(x, l) ==
  IF FitsI64(x) THEN l = << "int", IntText(x) >> \/ (x.digs = << >> /\ l[1] = "flt" /\ FloatOk(x, l[2]))
  ELSE l[1] = "flt" /\ FloatOk(x, l[2])
FromOk(t, v) ==
  LET x == ParseLit(t) IN
  /\ ParseLit(v.text).plain /\ MustEqual(ParseLit(v.text), x)
  /\ v.back = t /\ v.same /\ v.expr
  /\ ConvsOk(x, v.text, v.c)
FromFOk(v) ==
  /\ v.given[1] # "nan" => v.refl /\ v.lit /\ v.back = v.given
  /\ v.given[1] = "in" => LET x == ParseLit(v.text) IN FloatOk(x, v.given)
=============================================================================
