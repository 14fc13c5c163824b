----------------------------- MODULE HeredocGen -----------------------------
(* Generated heredocs with the text they stand for, in the places they can   *)
(* appear in.                                                                *)
EXTENDS HclReader, HclGen, Json
CONSTANTS Lo, Hi
VARIABLES i, f
None == [op |-> "none"]
Init == i \in Lo .. Hi /\ f = None
E == << LF >>
Form(D, k) ==
  CASE k = 1 -> [op |-> "parse", t |-> S("a=") \o D.t \o E, v |-> << << "A", S("a"), << "str", D.v >> >> >>]
    [] k = 2 -> [op |-> "parse", t |-> S("a = [") \o D.t \o E \o S(", 1]~"), v |-> << << "A", S("a"), << "tup", << << "str", D.v >>, << "num", S("1") >> >> >> >> >>]
    [] k = 3 -> [op |-> "parse", t |-> S("a = {k=") \o D.t \o S("^~") \o S("l=2}~"),
               v |-> << << "A", S("a"), << "obj", << << "I", S("k"), << "str", D.v >> >>, << "I", S("l"), << "num", S("2") >> >> >> >> >> >>]
    [] k = 4 -> [op |-> "parse", t |-> S("b {~a =  ") \o D.t \o E \o S("c=1~}~"),
               v |-> << << "B", S("b"), << >>, << << "A", S("a"), << "str", D.v >> >>, << "A", S("c"), << "num", S("1") >> >> >> >> >>]
    [] k = 5 -> [op |-> "value", t |-> S("a=") \o D.t \o E, v |-> << "U", << << "I", S("a"), << "str", D.v >> >> >> >>]
    [] k = 6 -> [op |-> "value", t |-> S("a=[") \o D.t \o S("^~]"), v |-> << "U", << << "I", S("a"), << "list", << << "str", D.v >> >> >> >> >> >>]
Next == f = None /\ f' = Form(Heredoc(Seed(i)), Val(Mix(Seed(i), 77), 6)) /\ UNCHANGED i
Spec == Init /\ [][Next]_<< i, f >>
Read == IF f.op = "parse" THEN ReadConfig(f.t) ELSE ReadValue(f.t)
ReadBack == f # None => ToJson(Read) = ToJson([r |-> "ok", v |-> f.v])
Emit == f # None => PrintT(ToJson([op |-> f.op, t |-> f.t, x |-> [r |-> "ok", v |-> f.v]]))
=============================================================================
