------------------------------ MODULE HclChars ------------------------------
(* Characters are Unicode code points.  -1 is the end of the text.           *)
EXTENDS Integers, Sequences, SequencesExt

EOF == -1
TAB == 9   LF == 10   CR == 13   SP == 32
DQ == 34  HASH == 35  LPAR == 40  RPAR == 41  STAR == 42  PLUS == 43  COMMA == 44
MINUS == 45  DOT == 46  SLASH == 47  LT == 60  EQ == 61  LBRK == 91  BSL == 92  RBRK == 93
LBRC == 123  RBRC == 125

(* Sample of the non-ASCII characters, with their Unicode classes.           *)
UniIdStart    == {233, 955, 20013, 8551}       \* e-acute, lambda, CJK, roman numeral
UniIdContOnly == {769, 183, 8255}              \* combining acute, middle dot, undertie
UniAlnum      == {233, 955, 20013, 8551, 178}  \* Alphabetic or Numeric
UniOther      == {178, 8364, 160, 8232, 128512, 1114111, 133, 65279, 65533}
UniAll        == UniIdStart \cup UniIdContOnly \cup UniOther

IsDigit(c)  == c >= 48 /\ c <= 57
IsOct(c)    == c >= 48 /\ c <= 55
IsLetter(c) == (c >= 97 /\ c <= 122) \/ (c >= 65 /\ c <= 90)
IsHex(c)    == IsDigit(c) \/ (c >= 97 /\ c <= 102) \/ (c >= 65 /\ c <= 70)
HexVal(c)   == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
IsBlank(c)  == c = SP \/ c = TAB
IsEolCh(c)  == c = LF \/ c = CR
IsWs(c)     == IsBlank(c) \/ IsEolCh(c)
IsIdStart(c) == IsLetter(c) \/ c = 95 \/ (c > 127 /\ c \in UniIdStart)
IsIdCont(c)  == IsIdStart(c) \/ IsDigit(c) \/ c = MINUS \/ (c > 127 /\ c \in UniIdContOnly)
IsMarker(c)  == IsLetter(c) \/ IsDigit(c) \/ c = 95 \/ (c > 127 /\ c \in UniAlnum)
MaxScalar == 1114111
IsScalar(v) == v <= MaxScalar /\ ~(v >= 55296 /\ v <= 57343)

(* number of leading elements satisfying being a blank                       *)
RECURSIVE LeadBlanks(_, _)
LeadBlanks(s, i) == IF i <= Len(s) /\ IsBlank(s[i]) THEN LeadBlanks(s, i + 1) ELSE i - 1
RECURSIVE LeadSpaces(_, _, _)
LeadSpaces(s, i, max) == IF i <= Len(s) /\ i <= max /\ s[i] = SP THEN LeadSpaces(s, i + 1, max) ELSE i - 1

(* split at every occurrence of LF                                           *)
RECURSIVE SplitLF(_, _, _)
SplitLF(s, i, cur) ==
  IF i > Len(s) THEN << cur >>
  ELSE IF s[i] = LF THEN << cur >> \o SplitLF(s, i + 1, << >>)
  ELSE SplitLF(s, i + 1, Append(cur, s[i]))

RECURSIVE JoinLF(_)
JoinLF(ls) == IF Len(ls) = 1 THEN ls[1] ELSE ls[1] \o << LF >> \o JoinLF(Tail(ls))

(* remove up to n leading spaces of every line                               *)
Unindent(s, n) ==
  IF n = 0 THEN s
  ELSE LET ls == SplitLF(s, 1, << >>)
           cut(l) == SubSeq(l, LeadSpaces(l, 1, n) + 1, Len(l))
       IN JoinLF([i \in 1 .. Len(ls) |-> cut(ls[i])])
=============================================================================
