------------------------------ MODULE HclWriter -----------------------------
(* A writer of documents: builds a tree and one way to write it, one element *)
(* per step.  The reader has to give back the tree (ReadBack).               *)
EXTENDS HclReader, HclGen, Json

CONSTANTS Lo, Hi,     \* seeds
          Elems,      \* elements per document (at most)
          Depth,      \* nesting of expressions
          Rewrites,   \* how often every document is written again with other trivia
          Out

(* ------------------------------------------------------------- expressions *)
(* [t text, v meaning, h must be followed by an end of line, o starts with   *)
(* a bracket before which line ends are allowed]                             *)
E1(t, v) == [t |-> t, v |-> v, h |-> FALSE, o |-> FALSE]
Lead(z, e) == IF e.o THEN Ws(z) ELSE Inl(z)

RECURSIVE GenExpr(_, _, _, _), GenItems(_, _, _, _), GenFields(_, _, _, _)
GenExpr(s, z, d, hd) ==
  LET k == Val(Mix(s, 1), IF d = 0 THEN 7 ELSE 14)
      str == Quoted(Mix(s, 2), TRUE)
      doc == Heredoc(Mix(s, 3))
      num == Pick(Mix(s, 4), NumS)
  IN CASE k = 1 -> E1(S("null"), << "null" >>)
       [] k = 2 -> E1(S("true"), << "bool", TRUE >>)
       [] k = 3 -> E1(S("false"), << "bool", FALSE >>)
       [] k \in {4, 5} -> E1(num, << "num", num >>)
       [] k = 6 \/ (k = 7 /\ ~hd) -> E1(str.t, << "str", str.v >>)
       [] k = 7 -> [t |-> doc.t, v |-> << "str", doc.v >>, h |-> TRUE, o |-> FALSE]
       [] k \in {8, 9, 10} -> LET q == GenItems(Mix(s, 5), Mix(z, 5), d - 1, Val(Mix(s, 6), 4) - 1)
                     IN E1(<< LBRK >> \o q.t \o << RBRK >>, << "tup", q.v >>)
       [] k \in {11, 12, 13} -> LET q == GenFields(Mix(s, 7), Mix(z, 7), d - 1, Val(Mix(s, 8), 4) - 1)
                     IN [E1(<< LBRC >> \o Ws(Mix(z, 8)) \o q.t \o << RBRC >>, << "obj", q.v >>) EXCEPT !.o = TRUE]
       [] OTHER -> LET e == GenExpr(Mix(s, 9), Mix(z, 9), d - 1, hd)
                   IN [E1(<< LPAR >> \o Ws(Mix(z, 10)) \o e.t \o (IF e.h THEN << LF >> ELSE << >>) \o Ws(Mix(z, 11)) \o << RPAR >>, e.v)
                        EXCEPT !.o = TRUE]
(* n items of a tuple, with separators                                       *)
GenItems(s, z, d, n) ==
  IF n = 0 THEN [t |-> Ws(Mix(z, 1)), v |-> << >>]
  ELSE LET e == GenExpr(Mix(s, 1), Mix(z, 2), d, TRUE)
           q == GenItems(Mix(s, 2), Mix(z, 3), d, n - 1)
           sep == IF n > 1 \/ Val(Mix(z, 4), 3) = 1 THEN << COMMA >> ELSE << >>
       IN [t |-> Ws(Mix(z, 5)) \o e.t \o (IF e.h THEN << LF >> ELSE << >>) \o Ws(Mix(z, 6)) \o sep \o q.t, v |-> << e.v >> \o q.v]
(* n fields of an object, with separators; blank space before is written     *)
RawS == << S("\"k\""), S("\"a b\\n\""), S("1"), S("-2.5"), S("(null)"), S("[1, 2]"), S("{a=1}"), S("(\"p\" /*)*/)"), S("{(1)=2}") >>
GenKey(s) ==
  LET k == Val(Mix(s, 1), 8)
  IN IF k <= 5 THEN << "I", Ident(Mix(s, 3)) >> ELSE << "X", Pick(Mix(s, 2), RawS) >>
GenFields(s, z, d, n) ==
  IF n = 0 THEN [t |-> << >>, v |-> << >>]
  ELSE LET key == GenKey(Mix(s, 1))
           e == GenExpr(Mix(s, 2), Mix(z, 1), d, TRUE)
           q == GenFields(Mix(s, 3), Mix(z, 2), d, n - 1)
           \* after a heredoc only the end of its line can separate
           sep == IF e.h THEN << LF >> \o Ws(Mix(z, 3))
                  ELSE CASE Val(Mix(z, 4), 3) = 1 /\ n = 1 -> Inl(Mix(z, 5))
                         [] Val(Mix(z, 4), 3) = 2 -> Inl(Mix(z, 5)) \o Eol(Mix(z, 6)) \o Ws(Mix(z, 3))
                         [] OTHER -> Inl(Mix(z, 5)) \o << COMMA >> \o Ws(Mix(z, 3))
       IN [t |-> key[2] \o Inl(Mix(z, 7)) \o << EQ >> \o Lead(Mix(z, 8), e) \o e.t \o sep \o q.t,
           v |-> << << key[1], key[2], e.v >> >> \o q.v]

(* ----------------------------------------------------------------- headers *)
RECURSIVE GenLabels(_, _, _, _)
GenLabels(s, z, n, afterId) ==
  IF n = 0 THEN [t |-> << >>, v |-> << >>]
  ELSE LET id == Val(Mix(s, 1), 2) = 1
           name == Ident(Mix(s, 2))
           q0 == Quoted(Mix(s, 3), FALSE)
           q == GenLabels(Mix(s, 4), Mix(z, 4), n - 1, id)
       IN [t |-> (IF id /\ afterId THEN Blank(Mix(z, 5)) ELSE Inl(Mix(z, 5))) \o (IF id THEN name ELSE q0.t) \o q.t,
           v |-> << IF id THEN << "I", name >> ELSE << "S", q0.v >> >> \o q.v]
Header(s, z) ==
  LET ty == Ident(Mix(s, 1))
      l == GenLabels(Mix(s, 2), Mix(z, 2), Val(Mix(s, 3), 4) - 1, TRUE)
  IN [t |-> ty \o l.t \o Inl(Mix(z, 4)) \o << LBRC >>, ty |-> ty, lb |-> l.v]
Attr(s, z, d, hd) ==
  LET name == Ident(Mix(s, 1))
      e == GenExpr(Mix(s, 2), Mix(z, 2), d, hd)
  IN [t |-> name \o Inl(Mix(z, 3)) \o << EQ >> \o Lead(Mix(z, 4), e) \o e.t \o (IF e.h THEN << >> ELSE Inl(Mix(z, 5))),
      v |-> << "A", name, e.v >>, h |-> e.h]

(* -------------------------------------------------------------- the writer *)
VARIABLES seed, zs, txt, stk, left, done
vars == << seed, zs, txt, stk, left, done >>

WInit == \E i \in Lo .. Hi, r \in 0 .. Rewrites :
           /\ seed = Seed(i)
           /\ zs = Seed(i + 100000 * r + 50)
           /\ txt = << >> /\ left = Val(Mix(Seed(i), 3), Elems) /\ done = << i, r, FALSE >>
           /\ stk = << [ty |-> << >>, lb |-> << >>, els |-> << >>] >>
Add(st, e) == Append(SubSeq(st, 1, Len(st) - 1), [st[Len(st)] EXCEPT !.els = Append(@, e)])
Choice == Val(Mix(seed, 1), 10)
Adv == /\ seed' = Mix(seed, 2) /\ zs' = Mix(zs, 2)
(* an element is ended by an end of line; the last one of the document may do without *)
EndS == << << >>, S("#end"), S("// end /*") >>
Term(h) == IF left = 1 /\ Len(stk) = 1 /\ ~h /\ Val(Mix(zs, 3), 3) = 1
           THEN Pick(Mix(zs, 4), EndS)
           ELSE IF h THEN Pick(Mix(zs, 5), << << LF >>, << CR, LF >> >>) ELSE Eol(Mix(zs, 5))
WAttr == /\ ~done[3] /\ left > 0 /\ Choice <= 5
         /\ LET a == Attr(Mix(seed, 4), Mix(zs, 6), Depth, TRUE) IN
              /\ txt' = txt \o Ws(Mix(zs, 7)) \o a.t \o Term(a.h)
              /\ stk' = Add(stk, a.v)
         /\ left' = left - 1 /\ Adv /\ UNCHANGED done
WOneLine == /\ ~done[3] /\ left > 0 /\ Choice \in {6, 7}
            /\ LET h == Header(Mix(seed, 4), Mix(zs, 6))
                   empty == Val(Mix(seed, 5), 4) = 1
                   a == Attr(Mix(seed, 6), Mix(zs, 8), Depth, FALSE)
               IN /\ txt' = txt \o Ws(Mix(zs, 7)) \o h.t \o Inl(Mix(zs, 9)) \o (IF empty THEN << >> ELSE a.t)
                               \o << RBRC >> \o Inl(Mix(zs, 10)) \o Term(FALSE)
                  /\ stk' = Add(stk, << "B", h.ty, h.lb, IF empty THEN << >> ELSE << a.v >> >>)
            /\ left' = left - 1 /\ Adv /\ UNCHANGED done
WOpen == /\ ~done[3] /\ left > 0 /\ (Choice = 8 \/ (Choice >= 9 /\ Len(stk) = 1))
         /\ LET h == Header(Mix(seed, 4), Mix(zs, 6)) IN
              /\ txt' = txt \o Ws(Mix(zs, 7)) \o h.t \o Inl(Mix(zs, 9)) \o Eol(Mix(zs, 10))
              /\ stk' = Append(stk, [ty |-> h.ty, lb |-> h.lb, els |-> << >>])
         /\ Adv /\ UNCHANGED << left, done >>
WClose == /\ ~done[3] /\ Len(stk) > 1 /\ (left = 0 \/ Choice >= 9)
          /\ LET b == stk[Len(stk)] IN
               stk' = Add(SubSeq(stk, 1, Len(stk) - 1), << "B", b.ty, b.lb, b.els >>)
          /\ txt' = txt \o Ws(Mix(zs, 7)) \o << RBRC >> \o Inl(Mix(zs, 8)) \o Eol(Mix(zs, 9))
          /\ Adv /\ UNCHANGED << left, done >>
WEnd == /\ ~done[3] /\ Len(stk) = 1 /\ left = 0
        /\ done' = [done EXCEPT ![3] = TRUE] /\ UNCHANGED << seed, zs, txt, stk, left >>
WNext == WAttr \/ WOneLine \/ WOpen \/ WClose \/ WEnd
WSpec == WInit /\ [][WNext]_vars

Tree == stk[1].els
(* the two specifications agree                                              *)
ReadBack == done[3] => ToJson(ReadConfig(txt)) = ToJson([r |-> "ok", v |-> Tree])
Emit == done[3] /\ Out => PrintT(ToJson([op |-> "parse", t |-> txt, x |-> [r |-> "ok", v |-> Tree], i |-> done[1]]))
=============================================================================
