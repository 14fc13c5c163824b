-------------------------------- MODULE Pump ---------------------------------
(* Texts that repeat: deep nesting (complete, cut off, wrongly closed) and   *)
(* long flat repetition, with the reader machine's verdict on each.          *)
EXTENDS HclReader, Text, Json

CONSTANTS What,      \* "nest", "flat"
          N1, N2     \* the numbers of repetitions

VARIABLES job, st
vars == << job, st >>

(* what opens a level, and what closes it                                    *)
ExprO == << << S("["), S("]") >>, << S("{a="), S("}") >>, << S("("), S(")") >>, << S("[1,"), S("]") >>, << S("{\"k\" = "), S("~}") >>, << S("[~"), S(",]") >>,
            << S("{b=1~a="), S(",}") >>, << S("{(a)="), S("}") >>, << S("[{a="), S("}]") >>, << S("{["), S("]=1}") >>, << S("{("), S(")=1}") >> >>
BodyO == << << S("b {~"), S("}~") >>, << S("b \"l\" {~"), S("~}~") >>, << S("a=1~b c {~"), S("}~a=1~") >>, << S("b { "), S("}~") >>, << S("#~b{~/**/"), S("}#~") >> >>
ValO == << << S("b {~"), S("}~") >>, << S("b{"), S("}~") >>, << S("b \"l\" {~"), S("}~") >>, << S("a={~"), S("}~") >>, << S("a={b="), S("}~") >>, << S("a=["), S("]~") >>, << S("a=[{~"), S("}]~") >> >>
Cores == << S("1"), << >>, S("\""), S("\"\\q\""), S("<<E~x~E"), S("null"), S("=") >>
BodyCores == << << >>, S("a=1~"), S("a=1"), S("a=<<E~E~"), S("}"), S("a=[") >>
RECURSIVE Rep(_, _)
Rep(t, n) == IF n = 0 THEN << >> ELSE IF n = 1 THEN t ELSE LET h == Rep(t, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o t
(* two openers alternate                                                     *)
Nest(a, b, core, n, end) ==
  LET open == Rep(a[1] \o b[1], n)
      close == CASE end = 1 -> Rep(b[2] \o a[2], n)              \* complete
                 [] end = 2 -> << >>                            \* cut off
                 [] end = 3 -> Rep(a[2] \o b[2], n)             \* closed in the wrong order
                 [] end = 4 -> Rep(b[2] \o a[2], n) \o b[2]     \* once too often
                 [] OTHER -> Rep(b[2] \o a[2], n \div 2) \o S("?") \* an offending character half way
  IN open \o core \o close

(* head, what is repeated, tail                                              *)
Flats == << << << >>, S("a=1~"), << >> >>, << << >>, S("#c~"), << >> >>, << << >>, S("/*c*/"), S("a=1~") >>, << S("a="), S(" "), S("1~") >>, << S("a=\""), S("\\n"), S("\"~") >>,
            << S("a=\""), S("\\x41"), S("~") >>, << << >>, S("a=<<E~x~E~"), << >> >>, << S("a=<<E~"), S("  x~"), S("E~") >>, << S("a=<<-E~"), S(" x~~"), S("  E~") >>,
            << S("a=<<E~"), S("E "), S("~E~") >>, << S("a=<<E~"), S("E~"), << >> >>, << S("/*"), S("*"), S("/~a=1~") >>, << S("/*"), S("/*"), << >> >>, << << >>, S("/"), S("~") >>, << S("a="), S("-"), S("1~") >>,
            << S("a="), S("9"), S("~") >>, << S("a=1e"), S("9"), S("~") >>, << S("a=0."), S("0"), S("1~") >>, << S("a=1"), S("e1"), S("~") >>, << S("a=["), S("1,"), S("]~") >>, << S("a=["), S("1~"), S("]~") >>,
            << S("a=[~"), S("~"), S("1]~") >>, << S("b "), S("\"l\" "), S("{}~") >>, << S("b "), S("l "), S("{~}~") >>, << << >>, S("^"), << >> >>, << << >>, S("\\"), << >> >>, << S("a="), S("<<"), S("E~E~") >>,
            << S("a=<<"), S("E"), S("~E~") >>, << << >>, S("b{}~"), << >> >>, << << >>, S("b{a=1}~"), << >> >>, << << >>, S("b \"l\" {~}~"), << >> >>, << S("a={"), S("k=1~"), S("}~") >>, << S("a={"), S("k=1,"), S("}~") >>,
            << S("a={"), S("\"k\"=1,"), S("}~") >>, << << >>, S("b {} "), << >> >>, << << >>, S("[]"), << >> >>, << << >>, S("="), << >> >>, << << >>, S("\""), << >> >>, << << >>, S("a"), S("=1~") >>,
            << << >>, S("~"), S("a=1") >>, << << >>, S("~^~"), S("a=1") >>, << << >>, S("# ~ /**/"), S("a=1~") >>, << S("a=1"), S("/*"), S("*/~") >>, << S("a=1 #"), S("#"), S("~") >>, << S("b {a=1"), S(" "), S("}~") >>,
            << S("b {"), S("/**/"), S("a=1}~") >>, << S("a={"), S("~"), S("}~") >>, << S("a={k=1"), S("/**/ "), S("}~") >>, << << >>, S("a=1,~"), << >> >> >>

Job(op, t) == << op, t >>
Init == /\ st = << >>
        /\ \E n \in {N1, N2} :
             \/ What = "nest" /\ \E end \in 1 .. 5 :
                  \/ \E a, b \in 1 .. Len(ExprO), c \in 1 .. Len(Cores) : job = << "expr", ExprO[a], ExprO[b], Cores[c], n, end >>
                  \/ \E a, b \in 1 .. Len(BodyO), c \in 1 .. Len(BodyCores) : job = << "parse", BodyO[a], BodyO[b], BodyCores[c], n, end >>
                  \/ \E a, b \in 1 .. Len(ValO), c \in 1 .. Len(BodyCores) : job = << "value", ValO[a], ValO[b], BodyCores[c], n, end >>
             \/ What = "flat" /\ \E f \in 1 .. Len(Flats), op \in {"parse", "value"} : job = << op, Flats[f], n >>
Text1 == IF What = "nest" THEN Nest(job[2], job[3], job[4], job[5], job[6]) ELSE job[2][1] \o Rep(job[2][2], job[3]) \o job[2][3]
Judge(op, t) == CASE op = "expr" -> ReadExpr(t) [] op = "parse" -> ReadConfig(t) [] OTHER -> ValueVerdict(Run(ValueStart, t))
Next == st = << >> /\ (LET t == Text1 IN st' = << t, Judge(job[1], t) >>) /\ UNCHANGED job
Spec == Init /\ [][Next]_vars
(* every call has one outcome, and what is cut off is never accepted         *)
Ends == st # << >> => st[2].r \in {"ok", "err"}
CutOff == (st # << >> /\ What = "nest" /\ job[6] \in {2, 5} /\ job[1] # "value") => st[2].r = "err"
Emit == st # << >> => PrintT(ToJson([op |-> job[1], t |-> st[1], x |-> st[2]]))
=============================================================================
