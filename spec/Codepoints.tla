----------------------------- MODULE Codepoints -----------------------------
(* Every code point, written literally and with every escape, in blocks of   *)
(* Per consecutive ones: what the reader machine makes of the string.        *)
EXTENDS HclReader, HclGen, Json

CONSTANTS Form,     \* "lit" "x" "u" "U" "oct" "bad" 
          First, Last_, Per, Stride, Place

VARIABLES b, txt
Init == b \in {First + i * Per * Stride : i \in 0 .. ((Last_ - First) \div (Per * Stride))} /\ txt = << >>

RECURSIVE Cat(_, _, _)
Cat(f(_), c, n) == IF n = 0 THEN << >> ELSE f(c) \o Cat(f, c + 1, n - 1)

One(c) ==
  CASE Form = "lit" -> IF IsScalar(c) /\ c \notin {DQ, BSL, LF, CR} THEN << c >> ELSE << >>
    [] Form = "x" -> << BSL, 120 >> \o HexText(c, 2, c % 2 = 0)
    [] Form = "u" -> IF IsScalar(c) THEN << BSL, 117 >> \o HexText(c, 4, c % 2 = 0) ELSE << >>
    [] Form = "U" -> IF IsScalar(c) THEN << BSL, 85 >> \o HexText(c, 8, c % 3 = 0) ELSE << >>
    [] Form = "oct" -> << BSL >> \o OctText(c, 3)
    \* code points that do not exist
    [] Form = "badu" -> << BSL, 117 >> \o HexText(c, 4, c % 2 = 0)
    [] Form = "badU" -> << BSL, 85 >> \o HexText(c, 8, c % 2 = 0)
    \* shortest spelling, followed by a character that cannot continue it
    [] Form = "short" -> IF IsScalar(c) THEN (LET h == HexText(c, 8, FALSE)
                               k == FirstNonZero(h, 1)  RECURSIVE Z(_) Z(i) == IF i < 8 /\ h[i] = 48 THEN Z(i + 1) ELSE i
                           IN << BSL, 85 >> \o SubSeq(h, Z(1), 8) \o << 46 >>) ELSE << >>
Str == << DQ >> \o Cat(One, b, Per) \o << DQ >>
Txt == CASE Place = "value" -> S("a=") \o Str
         [] Place = "label" -> S("b ") \o Str \o S("{}")
         [] Place = "key" -> Str \o S("=1")
Next == txt = << >> /\ txt' = Txt /\ UNCHANGED b
Spec == Init /\ [][Next]_<< b, txt >>
Emit == txt # << >> =>
  PrintT(ToJson(CASE Place = "key" -> [op |-> "value", t |-> txt, x |-> ReadValue(txt)]
                  [] OTHER -> [op |-> "parse", t |-> txt, x |-> ReadConfig(txt)]))
=============================================================================
