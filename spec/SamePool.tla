------------------------------ MODULE SamePool ------------------------------
(* All pairs of a pool of texts, many of which say the same in other words.  *)
EXTENDS Same, Text, Json

CONSTANTS Gram          \* "expr" "hcl" "val" "mrg" "name"

ExprPool ==
  {S(x) : x \in {"null", "true", "false", "0", "-0", "+0", "0.0", "0e7", "1", "+1", "01", "1.0", "1.", "10e-1", "1e0", "0.1e+1", "-1", "-1.0", "2", "-2", "12", "21",
     "1.5", "15e-1", "-1.5", "1.25", "100", "1e2", "1E+2", "1000", "255", "256", "65536", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
     "18446744073709551615", "18446744073709551616", "018446744073709551616", "340282366920938463463374607431768211456", "340282366920938463463374607431768211457",
     "\"\"", "\"a\"", "\"\\x61\"", "\"\\141\"", "\"b\"", "\"A\"", "\"ab\"", "\"null\"", "\"true\"", "\"1\"", "\" \"", "\"a \"", "\"\\n\"", "\"~\"", "\"\\r~\"", "\"^~\"",
     "(1)", "( true )", "(\"a\")", "((null))",
     "[]", "[ ]", "[[]]", "[1]", "[1,]", "[ 1.0 ]", "[2]", "[1,2]", "[2,1]", "[1, 2, ]", "[1,1]", "[[1],2]", "[1,[2]]", "[null]", "[\"\"]", "[{}]", "[true]", "[[1,2]]", "[\"a\",\"b\"]", "[\"ab\"]",
     "{}", "{ }", "{a=1}", "{ a = 1.0, }", "{\"a\"=1}", "{ \"\\x61\" = 1 }", "{(\"a\")=1}", "{a=2}", "{b=1}", "{a=\"1\"}", "{a=1,b=2}", "{a=1~b=2~}", "{b=2,a=1}", "{a=1,a=1}", "{a=1,a=2}", "{a={}}", "{a=[]}", "{a={b=1}}", "{a={b=2}}",
     "{(1)=1}", "{(1.0)=1}", "{1=1}", "{a=null}", "{null=1}", "{true=1}"}}
HclPool ==
  {S(x) : x \in {"", "~", "# c", "a=1", "a = 1.0~", "a=2", "a=\"1\"", "b=1", "a=null", "a=true", "a=1~b=2", "b=2~a=1", "a=1~~b=2~", "a=1~a=1", "a=1~a=2", "a=[1]", "a=(1)", "a={}", "a={b=1}", "a={\"b\"=1}", "a={b=1~}",
     "a{}", "a {~}", "a { }~", "b{}", "a{}~a{}", "a{}~b{}", "b{}~a{}", "a b {}", "a \"b\" {}", "a \"\\x62\" {}", "a \"b\" {~}", "a c {}", "a b c {}", "a \"b\" \"c\" {}", "a \"bc\" {}", "a c b {}", "a \"\" {}", "a \"\" \"\" {}", "a b b {}",
     "a { b = 1 }", "a {~b=1~}", "a {~ b = 1.0 // c~}", "a { b = 2 }", "a {~b=1~c=2~}", "a {~c=2~b=1~}", "a {~b{}~}", "a {~b{~}~}", "a {~b c {}~}", "a {~b \"c\" {}~}", "a {~b{}~b{}~}", "a {~b{}~}~b{}", "a {~}~b{}~b{}",
     "a b { c = 1 }", "a \"b\" {~c=1~}", "a b { c = [1,2] }", "a b {~c d { e = 1 }~}", "a b {~c \"d\" { e = 1.0 }~}", "a b {~c d { e = 2 }~}", "a=<<E~x~E~", "a=\"x\"", "a=<<-E~ x~ E~", "a=\"x\\n\""}}
ValPool ==
  {S(x) : x \in {"", "~", "a=1", "\"a\"=1", "a=1,", "a=1.0", "a=1.00", "a=10e-1", "a=2", "a=\"1\"", "a=null", "a=true", "a=[]", "a=[1]",
     "a=[1,2]", "a=[2,1]", "a=[1.0]", "a=[[1]]", "a=-0", "a=0", "a=0.0", "a=-0.0", "b=1", "a=1,b=2", "b=2,a=1", "\"b\"=2~a=1", "a=1~b=3", "a={}",
     "a{}", "a={b=1,}", "a{b=1,}", "a={\"b\"=1,}", "a={b=2,}", "a={b=1,c=2,}", "a={c=2,b=1,}", "a{b=1,}~a{c=2,}", "a{c=2,}~a{b=1,}", "a{}~a{}", "a{}~a{}~a{}", "a={}~b={}", "b={}~a={}", "a \"l\" {}",
     "a \"\\x6c\" {}", "a \"m\" {}", "a \"l\" \"m\" {}", "a \"m\" \"l\" {}", "a \"lm\" {}", "a \"l\" {b=1,}", "a \"l\" {b=1.0,}", "a \"l\" {b=1,}~a \"m\" {b=2,}", "a \"m\" {b=2,}~a \"l\" {b=1,}", "a \"l\" {b=2,}~a \"m\" {b=1,}", "a \"l\" {}~b=1", "b=1~a \"l\" {}", "b \"l\" {}", "a \"l\" {b \"m\" {},}",
     "a \"l\" {b {},}", "a \"l\" {b={},}", "a \"\" {}", "a=[{b=1,}]", "a=[{b=1,c=2,}]", "a=[{c=2,b=1,}]", "a=[{},{}]", "a=[{}]", "\"\"=1", "a=<<E~x~E~", "a=\"x\"", "a{b=1,c=2,}~d=3", "d=3~a{c=2,b=1,}", "d=3~a{c=2,b=1,}~a{}",
     "a{b{c=1,}~b{d=2,},}", "a{b{d=2,}~b{c=1,},}", "a{b{c=1,d=2,},}"}}

Texts == SetToSeq(CASE Gram = "expr" -> ExprPool [] Gram = "hcl" -> HclPool [] Gram \in {"val", "mrg"} -> ValPool [] OTHER -> {<< >>})
VerdictOf(t) ==
  CASE Gram = "expr" -> ExprVerdict(Run(ExprStart, t))
    [] Gram = "hcl" -> ConfigVerdict(Run(ConfigStart, t))
    [] Gram = "val" -> ValueVerdict(Run(ValueStart, t))
    [] Gram = "mrg" -> LET u == ValueVerdict(Run(ValueStart, t)) m == MergeMap(u.v)
                       IN IF u.r # "ok" \/ ~m.ok THEN Reject ELSE [r |-> "ok", v |-> m.v]

(* names: labels, keys of value trees, keys of objects                       *)
NameTexts == {S(""), S("a"), S("b"), S("ab"), S("A"), S("1"), S("(a)"), S("null"), S(" "), << 233 >>, << 101, 769 >>, << 0 >>, S("\"a\""), S("a-"), S("-a"), S("a-b"), S("a.b"), S(" a"), S("a "), S("aa"), S("~"), S("a~"), << 9 >>, << 201 >>, << 128512 >>, << 97, 0 >>}
Kinds(w) == IF w = "oei" THEN {"I", "X"} ELSE {"I", "S"}

VARIABLES k, a, b, w, ph
vars == << k, a, b, w, ph >>
None == << >>
Init == /\ ph = 0 /\ b = None
        /\ IF Gram = "name"
           THEN k = 0 /\ w \in {"label", "key", "oei"} /\ a \in Kinds(w) \X NameTexts
           ELSE k \in 1 .. Len(Texts) /\ w = "" /\ a = None
(* read the first text, then compare it with every other                     *)
Read == ph = 0 /\ Gram # "name" /\ a' = VerdictOf(Texts[k]) /\ ph' = 1 /\ UNCHANGED << k, b, w >>
Take == /\ (ph = 1 /\ a.r = "ok") \/ (ph = 0 /\ Gram = "name")
        /\ IF Gram = "name" THEN b' \in Kinds(w) \X NameTexts ELSE \E j \in 1 .. Len(Texts) : b' = [j |-> j, y |-> VerdictOf(Texts[j])]
        /\ ph' = 2 /\ UNCHANGED << k, a, w >>
Next == Read \/ Take
Spec == Init /\ [][Next]_vars

NameSame == IF w = "oei" THEN a = b ELSE a[2] = b[2]
Emit == ph = 2 =>
  IF Gram = "name" THEN PrintT(ToJson([op |-> "name", w |-> w, a |-> a, b |-> b,
                           x |-> [r |-> "ok", same |-> NameSame, found |-> a[2] = b[2], text |-> a[2] = b[2] /\ a[1] # "X"]]))
  ELSE b.y.r = "ok" => PrintT(ToJson([op |-> "same", g |-> Gram, a |-> Texts[k], b |-> Texts[b.j], v |-> a.v,
                           x |-> [r |-> "ok", same |-> Same(Gram, a.v, b.y.v)]]))
(* every text of the pool is accepted; merging may fail                      *)
Pooled == ph = 1 => a.r = "ok" \/ Gram = "mrg" \/ PrintT(<< "rejected", Texts[k] >>) = FALSE
(* the relation is an equivalence                                            *)
Equivalence ==
  ph = 2 /\ Gram # "name" => (b.y.r = "ok" =>
    /\ Same(Gram, a.v, b.y.v) = Same(Gram, b.y.v, a.v)
    /\ Same(Gram, a.v, a.v)
    /\ a.v = b.y.v => Same(Gram, a.v, b.y.v))
=============================================================================
