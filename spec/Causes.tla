------------------------------- MODULE Causes -------------------------------
(* What a failing call may say about its failure.  A cause is a tuple:       *)
(*   <<"io", kind>>             the source failed, or gave what is not text  *)
(*   <<"utf8", n>>              the first n bytes are text, what follows not *)
(*   <<"escape", rest>>         an escape that names no character, and what  *)
(*                              follows the backslash                        *)
(*   <<"rest", t>>              an expression was read, t is left over       *)
(*   <<"multi", key, kind>>     a key of that kind is given more than once   *)
(*   <<"merge", key, k1, k2>>   a key is given with kinds that do not merge  *)
(*   <<"syntax">>               the text is not in the grammar               *)
EXTENDS Sources, SubParsers

(* ---------------------------------------------------------------- syntax   *)
EscModes == {"esc", "hex0", "hex"}
DStart(s) == [s |-> s, m |-> "", n |-> 0]
(* the mode the machine was in when it came to its end, and after how many   *)
(* characters                                                                *)
DStep(x, c) == IF x.s.m = "dead" THEN x
               ELSE LET y == Step(x.s, c) IN IF y.m = "dead" THEN [s |-> y, m |-> x.s.m, n |-> x.n] ELSE [s |-> y, m |-> "", n |-> x.n + 1]
Death(s, t) == DStep(FoldLeft(DStep, DStart(s), t), EOF)
RECURSIVE LastBsl(_, _)
LastBsl(t, i) == IF t[i] = BSL THEN i ELSE LastBsl(t, i - 1)
(* an escape with digits that name a character is over before the end comes  *)
Named(s, t) == LET d == Death(s, t) IN d.m = "hex" /\ Step(FoldLeft(Step, s, SubSeq(t, 1, d.n)), DQ).m # "dead"
BadEscape(s, t) == Death(s, t).m \in EscModes /\ ~Named(s, t)
AfterBsl(s, t) == LET j == LastBsl(t, Death(s, t).n) IN SubSeq(t, j + 1, Len(t))
(* an escape that the text ends in may be called unfinished as well          *)
Syntax(s, t) == IF BadEscape(s, t) THEN {<< "escape", AfterBsl(s, t) >>} \cup (IF Death(s, t).n = Len(t) THEN {<< "syntax" >>} ELSE {}) ELSE {<< "syntax" >>}

(* --------------------------------------------------------------- merging   *)
VName(v) == CASE v[1] = "null" -> "null" [] v[1] = "int" -> "integer" [] v[1] \in {"flt", "inf"} -> "float" [] v[1] = "bool" -> "boolean"
              [] v[1] = "str" -> "string" [] v[1] = "list" -> "list" [] v[1] = "objs" -> "object" [] v[1] = "blk" -> "block"
RECURSIVE Spaced(_, _)
Spaced(l, i) == IF i > Len(l) THEN << >> ELSE (IF i > 1 THEN << SP >> ELSE << >>) \o l[i] \o Spaced(l, i + 1)
RECURSIVE Clashes(_), ClashesMap(_)
SameLabels(x, y) == {x[2][2][i][1] : i \in 1 .. Len(x[2][2])} \cap {y[2][2][i][1] : i \in 1 .. Len(y[2][2])}
TwoBlocks(l) == << "multi", Spaced(l, 1), "block" >>
Between(key, x, y) ==
  CASE x[1] = "objs" /\ y[1] = "objs" -> {}
    [] x[1] = "blk" /\ y[1] = "blk" -> {TwoBlocks(l) : l \in SameLabels(x, y)}
    [] x[1] \in {"objs", "blk"} -> {<< "merge", key, VName(x), VName(y) >>}
    [] OTHER -> {<< "multi", key, VName(x) >>}
(* a key keeps the kind it was first given with                              *)
ClashesMap(m) ==
  IF m[1] = "M" THEN {}
  ELSE LET is == m[2]
           first(i) == CHOOSE k \in 1 .. i : is[k][2] = is[i][2] /\ \A h \in 1 .. (k - 1) : is[h][2] # is[i][2]
       IN UNION {Clashes(is[i][3]) : i \in 1 .. Len(is)}
          \cup UNION {IF is[first(i)][3][1] = is[i][3][1]
                      THEN UNION {Between(is[i][2], is[h][3], is[i][3]) : h \in {h \in 1 .. (i - 1) : is[h][2] = is[i][2] /\ is[h][3][1] = is[i][3][1]}}
                      ELSE Between(is[i][2], is[first(i)][3], is[i][3]) : i \in {i \in 1 .. Len(is) : first(i) < i}}
Clashes(v) ==
  CASE v[1] = "list" -> UNION {Clashes(v[2][i]) : i \in 1 .. Len(v[2])}
    [] v[1] = "objs" -> UNION {ClashesMap(v[2][i]) : i \in 1 .. Len(v[2])}
    [] v[1] = "blk" -> UNION {ClashesMap(v[2][2][i][2]) : i \in 1 .. Len(v[2][2])}
                       \cup {TwoBlocks(v[2][2][i][1]) : i \in {i \in 1 .. Len(v[2][2]) : \E h \in 1 .. (i - 1) : v[2][2][h][1] = v[2][2][i][1]}}
    [] OTHER -> {}

(* ------------------------------------------------------------ whole calls  *)
StartOf(g) == CASE g = "hcl" -> ConfigStart [] g = "expr" -> ExprStart [] OTHER -> ValueStart
Causes(g, t) ==
  CASE g = "mrg" -> LET u == ReadValue(t) IN IF u.r = "ok" THEN ClashesMap(u.v) ELSE Syntax(ValueStart, t)
    [] g = "expr" -> LET e == ExprAt(t, 1) IN IF e.ok THEN IF e.i > Len(t) THEN {} ELSE {<< "rest", SubSeq(t, e.i, Len(t)) >>} ELSE Syntax(ExprStart, t)
    [] OTHER -> IF Entry(g, t).r = "ok" THEN {} ELSE Syntax(StartOf(g), t)
OfBytes(g, bs) == LET u == Utf(Utf0, bs) IN IF WellFormed(u) THEN Causes(g, u.out) ELSE {<< "utf8", Len(EncAll(u.out, 1)) >>}
(* bytes that are not text may be found by the reader or afterwards          *)
NoText(u) == {<< "io", "InvalidData" >>, << "utf8", Len(EncAll(u.out, 1)) >>}
OfReader(g, bs, ev) ==
  LET d == Deliver(bs, ev, 1, Utf0)
  IN IF d.fail THEN {<< "io", "Other" >>} \cup (IF d.u.bad THEN NoText(d.u) ELSE {})
     ELSE IF ~WellFormed(d.u) THEN NoText(d.u) ELSE Causes(g, d.u.out)
=============================================================================
