------------------------------- MODULE HclGen -------------------------------
(* Pseudo-random generators of document parts, independent of the reader:    *)
(* every generator yields the text together with what it means.  A generator *)
(* is a pure function of its seeds, so the same structure can be written     *)
(* again with other blanks, comments and line ends (seed z).                 *)
EXTENDS HclNumbers, Text

Mix(s, i) ==
  LET a == (s[1] + i * 7919 + 1) % 30269
      b == (s[2] + i * 3571 + 2) % 30307
      c == (s[3] + i * 1237 + 3) % 30323
      a2 == (a * a + b) % 30269
      b2 == (b * b + c + i) % 30307
      c2 == (c * c + a) % 30323
  IN << (a2 * a2 + c2) % 30269, (b2 * b2 + a2) % 30307, (c2 * c2 + b2 + i) % 30323 >>
Val(s, n) == ((s[1] + s[2] + s[3]) % n) + 1          \* 1 .. n
Pick(s, seq) == seq[Val(s, Len(seq))]
Seed(i) == Mix(Mix(Mix(<< i % 30269, (i \div 7) % 30307, (i * 13) % 30323 >>, 1), i % 1000), i \div 1000)

(* ----------------------------------------------------------------- trivia  *)
InlS == << S(""), S(""), S(""), S(" "), S("  "), S("`"), S("/**/"), S(" /* c */ "), S("/*~#=\"}*/"), S(" `/***/"), S("/* /* */"), S("/*/ // */") >>
BlankS == << S(" "), S("  "), S("/*/**/"), S("`"), S("/**/"), S(" /* \" */ "), S(" /*~*/`") >>
EolS == << S("~"), S("~"), S("^~"), S("# c~"), S("//~"), S("#\"}^~"), S("~~"), S("// x = {~"), S("~ `~"), S("~ # y~ "), S("^~/* = */"), S("# /* x~"), S("// */~"), S("#~# \\~"), S("//#^~") >>
WsS == << S(""), S(""), S(" "), S("~"), S("^~  "), S("/* [ */"), S(" # ]~"), S("// }^~`"), S("~~"), S(" /*~*/ ~"), S("/*/*~*/"), S("#/*~"), S("//*/~") >>
Inl(z) == Pick(z, InlS)
Blank(z) == Pick(z, BlankS)
Eol(z) == Pick(z, EolS)
Ws(z) == Pick(z, WsS)

(* ------------------------------------------------------------- identifiers *)
IdS == << S("a"), S("b"), S("_x1"), S("foo-bar"), S("A-"), S("nullx"), S("true"), S("null"), S("falsey"), S("e1"),
          << 233, 97 >>, << 955 >>, << 97, 769 >>, << 20013, 45, 49 >>, << 8551, 95 >>, << 120, 183 >> >>
Ident(s) == Pick(s, IdS)

(* ----------------------------------------------------------------- strings *)
Hex == S("0123456789abcdefABCDEF")
HexD(v, up) == IF v < 10 THEN 48 + v ELSE IF up THEN 55 + v ELSE 87 + v
RECURSIVE HexText(_, _, _)
HexText(v, w, up) == IF w = 0 THEN << >> ELSE HexText(v \div 16, w - 1, up) \o << HexD(v % 16, up) >>
RECURSIVE OctText(_, _)
OctText(v, w) == IF w = 0 THEN << >> ELSE OctText(v \div 8, w - 1) \o << 48 + (v % 8) >>

PlainS == << 97, 122, 48, 55, 70, 35, 47, 42, 123, 125, 61, 32, 60, 233, 955, 8364, 128512, 769, 39, 36, 110, 1114111 >>
CtrlS == << << 97, 7 >>, << 98, 8 >>, << 102, 12 >>, << 110, 10 >>, << 114, 13 >>, << 116, 9 >>, << 118, 11 >>,
            << 92, 92 >>, << 34, 34 >>, << 63, 63 >> >>
WideS == << 65, 0, 127, 233, 955, 8364, 55295, 57344, 65535, 10, 34, 92 >>
FullS == WideS \o << 65536, 128512, 1114111 >>
(* one piece of a string: text and the characters it stands for              *)
Piece(s, multi) ==
  LET k == Val(Mix(s, 1), 12)
      c == Pick(Mix(s, 2), PlainS)
      e == Pick(Mix(s, 3), CtrlS)
      v8 == Val(Mix(s, 4), 256) - 1
      o9 == Val(Mix(s, 5), 512) - 1
      w == Pick(Mix(s, 6), WideS)
      f == Pick(Mix(s, 7), FullS)
      up == Val(Mix(s, 8), 2) = 1
      d == Val(Mix(s, 9), 8) - 1
  IN CASE k <= 4 -> [t |-> << c >>, v |-> << c >>]
       [] k = 5 -> [t |-> << BSL, e[1] >>, v |-> << e[2] >>]
       [] k = 6 -> [t |-> << BSL, 120 >> \o HexText(v8, 2, up), v |-> << v8 >>]
       [] k = 7 -> [t |-> << BSL, 117 >> \o HexText(w, 4, up), v |-> << w >>]
       [] k = 8 -> [t |-> << BSL, 85 >> \o HexText(f, 8, up), v |-> << f >>]
       [] k = 9 -> [t |-> << BSL >> \o OctText(o9, 3), v |-> << o9 >>]
       [] k = 10 -> \* short escapes, followed by a character that cannot continue them
            CASE d <= 1 -> [t |-> << BSL, 120, HexD(d + 9, up), 122 >>, v |-> << d + 9, 122 >>]
              [] d <= 3 -> [t |-> << BSL, 48 + d, 56 >>, v |-> << d, 56 >>]
              [] d = 4 -> [t |-> << BSL, 55, 55, 57 >>, v |-> << 63, 57 >>]
              [] d = 5 -> [t |-> << BSL, 117, 65, 48, 46 >>, v |-> << 160, 46 >>]
              [] d = 6 -> [t |-> << BSL, 85, 49, 70, 54, 48, 48, 32 >>, v |-> << 128512, 32 >>]
              [] OTHER -> [t |-> << BSL, 117, 50, 48, 97, 99, 97 >>, v |-> << 8364, 97 >>]
       [] k = 11 -> IF multi THEN Pick(Mix(s, 10), << [t |-> << LF >>, v |-> << LF >>],
                                                      [t |-> << CR, LF >>, v |-> << CR, LF >>] >>)
                    ELSE [t |-> << c >>, v |-> << c >>]
       [] OTHER -> [t |-> S("//x"), v |-> S("//x")]
RECURSIVE Pieces(_, _, _)
Pieces(s, n, multi) ==
  IF n = 0 THEN [t |-> << >>, v |-> << >>]
  ELSE LET p == Piece(Mix(s, 20 + n), multi)
           q == Pieces(s, n - 1, multi)
       IN [t |-> p.t \o q.t, v |-> p.v \o q.v]
Quoted(s, multi) ==
  LET p == Pieces(s, Val(Mix(s, 11), 6) - 1, multi)
  IN [t |-> << DQ >> \o p.t \o << DQ >>, v |-> p.v]

(* ---------------------------------------------------------------- heredocs *)
(* t is the text up to and including the closing marker: an end of line must *)
(* follow.  Lines that only look like the end are part of the content.       *)
MarkS == << S("EOF"), S("E"), S("_1"), << 233, 49 >>, S("a"), << 178, 97 >> >>
FixedLines == << S(""), S(" "), S("   "), S("x"), S("  x y"), S("    deep"), S("                  far"), S("` tab"), S(" `"), S("a = {"), S("\"\\n\""), S("# c") >>
LineOf(s, mk) ==
  CASE Val(s, 21) = 11 /\ Val(Mix(s, 9), 2) = 1 -> FixedLines[12]
    [] Val(s, 21) <= 11 -> FixedLines[Val(s, 21)]
    [] Val(s, 21) = 12 -> mk \o << 120 >>
    [] Val(s, 21) = 13 -> << 120 >> \o mk
    [] Val(s, 21) = 14 -> mk \o << SP >>
    [] Val(s, 21) = 15 -> mk \o << 45 >>
    [] Val(s, 21) = 16 -> << SP, SP >> \o mk \o << HASH >>
    [] Val(s, 21) = 17 -> mk \o mk
    [] Val(s, 21) = 18 -> Tail(mk) \o << 113 >>
    [] Val(s, 21) = 19 -> << 233, 32 >>
    [] Val(s, 21) = 20 -> << SP, 128512 >>
    [] OTHER -> << LT, LT >> \o mk
CutSpaces(l, n) == SubSeq(l, LeadSpaces(l, 1, n) + 1, Len(l))
RECURSIVE HdBody(_, _, _, _)
HdBody(s, i, mk, cut) ==   \* i lines: text with every end of line, value without the last one
  IF i = 0 THEN [t |-> << >>, v |-> << >>]
  ELSE LET l == LineOf(Mix(s, 30 + i), mk)
           e == Pick(Mix(s, 60 + i), << << LF >>, << LF >>, << CR, LF >> >>)
           q == HdBody(s, i - 1, mk, cut)
           c == CutSpaces(l, cut)
       IN [t |-> l \o e \o q.t, v |-> IF i = 1 THEN c ELSE c \o e \o q.v]
BlanksS == << S(""), S(" "), S("  "), S("    "), S("`"), S(" ` "), S("         "), S("                ") >>
HdOpen == << S("<<-"), S("<<") >>
Heredoc(s) ==
  LET mk == Pick(Mix(s, 1), MarkS)
      ind == Val(Mix(s, 2), 2) = 1
      blanks == Pick(Mix(s, 3), BlanksS)
      n == Val(Mix(s, 4), 6) - 1
      e == Pick(Mix(s, 5), << << LF >>, << LF >>, << CR, LF >> >>)
      b == HdBody(s, n, mk, IF ind THEN Len(blanks) ELSE 0)
  IN [t |-> HdOpen[IF ind THEN 1 ELSE 2] \o mk \o e \o b.t \o blanks \o mk, v |-> b.v]

(* ----------------------------------------------------------------- numbers *)
NumS == << S("0"), S("1"), S("-1"), S("+7"), S("007"), S("1.5"), S("-0.25"), S("3."), S(".5"), S("-.5"), S("1e3"), S("2E-2"),
           S("+1.25e+2"), S("-0"), S("0.0"), S("2147483648"), S("9223372036854775807"), S("-9223372036854775808"),
           S("9223372036854775808"), S("18446744073709551615"), S("123456789012345678901234567890"), S("1.e2"), S(".5e1"),
           S("100"), S("1e400"), S("-1e999999999999"), S("1e-400"), S("0e5"), S("999999999999999") >>
(* literals whose nearest float is decided by 15 digits                      *)
SafeLit(t) == LET x == ParseLit(t) IN FitsI64(x) \/ FloatDetermined(x)
ValNumS == SelectSeq(NumS, SafeLit)
=============================================================================
