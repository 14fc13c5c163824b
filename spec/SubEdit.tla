------------------------------- MODULE SubEdit ------------------------------
(* Every character at every place of some texts, given to the sub-parsers.   *)
EXTENDS SubEnum
Bases ==
  CASE Alpha = "ws" -> << S(" `/* c */ # d~// e^~ ~x"), S("^~ ~/**/~#~,"), S("//~#") >>
    [] Alpha = "tok" -> << S("a-b1.c"), S("-1.5e+3x"), S("\"p\\x41\" q \"r\""), S("nullx"), S("false "), << 233, 769, 45, 32 >> >>
    [] Alpha = "hd" -> << S("<<-E~  x~ E~y"), S("<<E1^~E^~ E1^~"), S("\"~\"~") >>
    [] Alpha = "coll" -> << S("[1, {a=1~}]x"), S(" {a = 1,~(2)={} }y"), S("( [] )z"), S("a = 1, b") >>
    [] Alpha = "elem" -> << S("a = 1 b"), S("a \"l\" m { b = 1 } ~c"), S("a {~ b = 1 #~}~d"), S("a={b=1}^~c{}~"), S(" \"l\"m \"n\"{") >>
Chars == {<< c >> : c \in 0 .. 127} \cup {<< c >> : c \in UniAll} \cup {<< >>}
EInit == /\ k = 0 /\ out = << >> /\ \E d \in 1 .. Len(Bases), at \in 0 .. Len(Bases[1]) + 20 : at <= Len(Bases[d]) /\ t = << d, at >>
(* put in, or in place of the character that was there                       *)
ENext == /\ k = 0 /\ k' = 1
         /\ \E c \in Chars, n \in 0 .. 1 :
              LET B == Bases[t[1]]
                  x == SubSeq(B, 1, t[2]) \o c \o SubSeq(B, t[2] + n + 1, Len(B))
              IN /\ t[2] + n <= Len(B)
                 /\ t' = x /\ out' = [i \in 1 .. Len(Parsers) |-> << Parsers[i], Verdict(Parsers[i], x) >>]
ESpec == EInit /\ [][ENext]_<< t, k, out >>
EAgree == k = 1 => Agree
=============================================================================
