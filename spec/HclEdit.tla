------------------------------- MODULE HclEdit ------------------------------
(* The neighbourhood of some small documents: every text that one edit makes *)
(* of them (a token put at a position, one character replaced by a token, a  *)
(* piece removed), with the reader's verdict.  With MaxE = 2 a second edit   *)
(* follows further right.                                                    *)
EXTENDS HclReader, HclMerge, Text, Json

CONSTANTS What,      \* which documents: "doc" "expr" "val" "str" "lab" "key" "hd"
          Part,      \* which tokens: "all" "few" "chars"
          MaxE       \* edits

Docs ==
  CASE What = "doc" -> << S("a = 1~b \"l\" m { c = 2 }~d {~  e = [1, {x = 2, \"y\" = 3}]~}~"),
                          S("a{}~b{ }~c m{~}~d \"s\"\"t\"{#~}"),
                          S("a = { b = (1)~ \"c\" = [ ], }~# d~e = \"f\"//g"),
                          S("a={b=1^~c=2}~e=[1,2]^~"),
                          S("a {~ b {~ c = null^~ }~ d = true~}~") >>
    [] What = "expr" -> << S("[1, \"s\", null,[2],{}]"), S("{ a = 1, (2) = {b=3}~ \"k\" = true~}"), S("( [ (1) ] )"), S("-1.5e+10"), S("{a=[1,~2],{}={}}") >>
    [] What = "val" -> << S("a = 1~\"k\" = \"v\", o {~x = 1~}~r \"l\" \"m\" { y = [1,{z=2,}]~}~"),
                          S("a {}~a = {}~b \"l\"{b \"l\"{},}"),
                          S("a={b=1,c=2,}^,d=[{},~[ ]],//e"),
                          S("a=null~b=-0.5~\"c\"={}~") >>
    [] What = "str" -> << S("a = \"p\\u00e9q\\x41\\101\\n\\\"z\"~"), S("a=[\"\\U0001F600\",\"~\"]~") >>
    [] What = "lab" -> << S("b \"p\\u00e9q\" x {}~"), S("b\"\"\"\\x4a\\\\\" { a = 1 }~"), S("b x \"y\" {~}~") >>
    [] What = "key" -> << S("\"p\\u00e9q\" = 1~"), S("b \"\\x4a\" \"q\" {\"\\\\\"=1,}~"), S("\"\"={\"k\" = 2~}") >>
    [] What = "hd" -> << S("a = <<E~x~  E y~E~b = 1~"), S("a=<<-E~    x~  y~`z~  E~"), S("a=[<<E^~         x^~        E^~]~"),
                         S("a = <<-EOF~~          x~        EOF~c {~}~") >>
ValGrammar == What \in {"val", "key"}
Expr == What = "expr"

All == {S(x) : x \in {",", ";", "=", "==", ":", "~", "^~", "^", " ", "`", "{", "}", "[", "]", "(", ")", "\"", "\\", "#", "//", "/*", "*/", "/* c */", "# c~", "// c~",
                      "a", "b ", "0", "1", "-", "+", ".", "e1", "_", "<<E~x~E", "<<E~x~E~", "\"s\"", "\"~\"", "null", "true", "{}", "[]", "a=1", "b{}", "$", "${", "*", "/", "<", "E", "E~", "        ", "'s'", "?", "@", "|"}}
Few == {S(x) : x \in {",", "=", "~", "^~", "^", " ", "{", "}", "[", "]", "\"", "#", "//", "/* c */", "a", "1", "-", "<<E~x~E~", "\"s\"", "E~", "\\"}}
Chars == {<< c >> : c \in 0 .. 127} \cup {<< c >> : c \in UniAll}
Tokens == CASE Part = "all" -> All \cup {<< c >> : c \in {0, 8, 11, 12, 127} \cup UniAll} [] Part = "few" -> Few [] Part = "chars" -> Chars

Start0 == IF Expr THEN ExprStart ELSE IF ValGrammar THEN ValueStart ELSE ConfigStart

(* pre: the text so far with its state; at: characters of the document used  *)
VARIABLES d, pre, st, at, e, full
vars == << d, pre, st, at, e, full >>
Init == /\ d \in 1 .. Len(Docs) /\ at \in 0 .. Len(Docs[d])
        /\ pre = SubSeq(Docs[d], 1, at) /\ st = Run(Start0, pre)
        /\ e = 0 /\ full = FALSE
Cuts == {0, 1, 2, 3, 5, 9}
(* replace n characters by the token                                         *)
Edit == /\ e < MaxE /\ ~full /\ st.m # "dead" /\ (st.m = "done" => st.d = st.p)
        /\ \E tok \in Tokens \cup {<< >>} : \E n \in (IF tok = << >> THEN Cuts \ {0} ELSE {0, 1}) :
             /\ at + n <= Len(Docs[d])
             /\ pre' = pre \o tok /\ st' = Run(st, tok) /\ at' = at + n
        /\ e' = e + 1 /\ UNCHANGED << d, full >>
(* copy the document up to a later place                                     *)
Copy == /\ e > 0 /\ e < MaxE /\ ~full /\ st.m # "dead"
        /\ \E n \in {1, 2, 3, 4, 7, 11} :
             /\ at + n <= Len(Docs[d])
             /\ pre' = pre \o SubSeq(Docs[d], at + 1, at + n) /\ st' = Run(st, SubSeq(Docs[d], at + 1, at + n)) /\ at' = at + n
        /\ UNCHANGED << d, e, full >>
Rest == /\ e > 0 /\ ~full
        /\ LET r == SubSeq(Docs[d], at + 1, Len(Docs[d])) IN pre' = pre \o r /\ st' = Run(st, r)
        /\ full' = TRUE /\ at' = Len(Docs[d]) /\ UNCHANGED << d, e >>
Next == Edit \/ Copy \/ Rest
Spec == Init /\ [][Next]_vars
(* documents that came about in several ways are one                         *)
View == IF full THEN << pre >> ELSE << d, pre, at, e >>

Verdict == IF Expr THEN ExprVerdict(st) ELSE IF ValGrammar THEN ValueVerdict(st) ELSE ConfigVerdict(st)
Emit == full => PrintT(ToJson([op |-> IF Expr THEN "expr" ELSE IF ValGrammar THEN "value" ELSE "parse", t |-> pre, x |-> Verdict]))
(* the documents themselves are accepted                                     *)
Based == e = 0 /\ at = Len(Docs[d]) /\ ~full => Verdict.r = "ok"
Whole == LET f == Step(st, EOF) IN
           /\ f.m = "acc" => Len(f.s) = 1 /\ f.s[1].k \in {"body", "vmap"} /\ f.b = << >>
           /\ st.m # "done" => st.p = Len(pre) \/ st.m = "dead"
=============================================================================
