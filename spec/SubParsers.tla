----------------------------- MODULE SubParsers -----------------------------
(* What each sub-parser consumes of a text, as positions: a second,          *)
(* compositional formulation of the grammar.  TLC checks that it agrees with *)
(* the reader machine (BodyIsReader); the code has to agree with both.       *)
EXTENDS HclReader, Text, Json

(* i is the position of the next character; the answer holds the position    *)
(* after the construct and its value                                         *)
No == [ok |-> FALSE]
Yes(i, v) == [ok |-> TRUE, i |-> i, v |-> v]
At(t, i) == IF i <= Len(t) THEN t[i] ELSE EOF
None == << "none" >>

(* ----------------------------------------------------------------- trivia  *)
(* position after the inline comment at i, 0 if there is none                *)
RECURSIVE CloseAt(_, _)
CloseAt(t, i) == IF i + 1 > Len(t) THEN 0
                 ELSE IF t[i] = STAR /\ t[i + 1] = SLASH THEN i + 2 ELSE CloseAt(t, i + 1)
InlCommentEnd(t, i) == IF At(t, i) = SLASH /\ At(t, i + 1) = STAR THEN CloseAt(t, i + 2) ELSE 0
(* position after the end of line at i, 0 if there is none                   *)
EolEnd(t, i) == IF At(t, i) = LF THEN i + 1 ELSE IF At(t, i) = CR /\ At(t, i + 1) = LF THEN i + 2 ELSE 0
RECURSIVE LineRest(_, _)
LineRest(t, i) == IF i > Len(t) \/ IsEolCh(t[i]) THEN i ELSE LineRest(t, i + 1)
(* a line comment at i with marker of k characters: where its text and itself end *)
CommentFrom(t, i, k) ==
  LET j == LineRest(t, i + k)
      e == IF j > Len(t) THEN j ELSE EolEnd(t, j)
  IN IF e = 0 THEN No ELSE Yes(e, SubSeq(t, i + k, j - 1))
HashAt(t, i) == IF At(t, i) = HASH THEN CommentFrom(t, i, 1) ELSE No
SlashAt(t, i) == IF At(t, i) = SLASH /\ At(t, i + 1) = SLASH THEN CommentFrom(t, i, 2) ELSE No
LineCommentAt(t, i) == LET h == HashAt(t, i) IN IF h.ok THEN h ELSE SlashAt(t, i)
InlCommentAt(t, i) == LET e == InlCommentEnd(t, i) IN IF e = 0 THEN No ELSE Yes(e, SubSeq(t, i + 2, e - 3))

RECURSIVE SkipInl(_, _), SkipWs(_, _), SkipNl(_, _)
SkipInl(t, i) == IF IsBlank(At(t, i)) THEN SkipInl(t, i + 1)
                 ELSE LET e == InlCommentEnd(t, i) IN IF e = 0 THEN i ELSE SkipInl(t, e)
SkipWs(t, i) == IF IsWs(At(t, i)) THEN SkipWs(t, i + 1)
                ELSE LET e == InlCommentEnd(t, i)
                         c == LineCommentAt(t, i)
                     IN IF e # 0 THEN SkipWs(t, e) ELSE IF c.ok THEN SkipWs(t, c.i) ELSE i
(* ends of lines: each may be a line comment, or follow an inline comment    *)
NlOnce(t, i) == LET c == LineCommentAt(t, i)
                    e == InlCommentEnd(t, i)
                IN IF c.ok THEN c.i ELSE IF e # 0 THEN EolEnd(t, e) ELSE EolEnd(t, i)
SkipNl(t, i) == LET e == NlOnce(t, i) IN IF e = 0 THEN i ELSE SkipNl(t, e)
NewlineAt(t, i) == LET j == SkipNl(t, i) IN IF j = i THEN No ELSE Yes(j, None)

(* ------------------------------------------------------------------ tokens *)
RECURSIVE RunOf(_, _, _)
RunOf(t, i, k) == IF i <= Len(t) /\ (IF k = "id" THEN IsIdCont(t[i]) ELSE IsMarker(t[i])) THEN RunOf(t, i + 1, k) ELSE i
IdentAt(t, i) == IF IsIdStart(At(t, i)) THEN LET j == RunOf(t, i, "id") IN Yes(j, SubSeq(t, i, j - 1)) ELSE No
RECURSIVE Starts(_, _, _, _)
Starts(t, i, w, k) == k > Len(w) \/ (At(t, i + k - 1) = w[k] /\ Starts(t, i, w, k + 1))
WordAt(t, i, w, v) == IF Starts(t, i, w, 1) THEN Yes(i + Len(w), v) ELSE No
CharAt(t, i, c) == IF At(t, i) = c THEN Yes(i + 1, None) ELSE No

(* a token or a whole expression read by the reader machine from position i  *)
Rest(t, i) == SubSeq(t, i, Len(t))
ExprAt(t, i) ==
  LET e == Step(Run(ExprStart, Rest(t, i)), EOF)
  IN IF e.m = "done" THEN Yes(i + e.d, e.s[1].els[1]) ELSE No
ExprIf(t, i, cs) == IF At(t, i) \in cs THEN ExprAt(t, i) ELSE No
NumCh == {PLUS, MINUS, DOT} \cup 48 .. 57
NumberAt(t, i) == ExprIf(t, i, NumCh)
StringAt(t, i) == ExprIf(t, i, {DQ, LT})
TupleAt(t, i) == ExprIf(t, i, {LBRK})
ObjectAt(t, i) == IF At(t, SkipWs(t, i)) = LBRC THEN ExprAt(t, i) ELSE No
BracketAt(t, i) == IF At(t, SkipWs(t, i)) = LPAR THEN ExprAt(t, i) ELSE No
(* a string that does not span lines, and what is between its quotes         *)
StrLine(t, i) ==
  LET s0 == Init0("hcl", "str", Frame("hdr", << >>, << >>, << >>))
      RECURSIVE Go1(_, _)
      Go1(s, j) == IF s.m = "afterId" THEN Yes(j, s.s[1].lb[1][2])
                   ELSE IF s.m = "dead" \/ j > Len(t) THEN No
                   ELSE Go1(Step(s, t[j]), j + 1)
  IN Go1([s0 EXCEPT !.r = "lab"], i)
StringLiteralAt(t, i) == IF At(t, i) = DQ THEN StrLine(t, i + 1) ELSE No
HeredocBeginAt(t, i) ==
  IF ~(At(t, i) = LT /\ At(t, i + 1) = LT) THEN No
  ELSE LET ind == At(t, i + 2) = MINUS
           a == IF ind THEN i + 3 ELSE i + 2
           b == RunOf(t, a, "marker")
       IN IF b > a /\ EolEnd(t, b) # 0 THEN Yes(b, << SubSeq(t, a, b - 1), ind >>) ELSE No

(* ----------------------------------------------------------- compositions  *)
AttributeAt(t, i0) ==
  LET id == IdentAt(t, SkipInl(t, i0))
  IN IF ~id.ok THEN No
     ELSE LET q == SkipInl(t, id.i) IN
          IF At(t, q) # EQ THEN No
          ELSE LET e == ExprAt(t, SkipInl(t, q + 1)) IN
               IF e.ok THEN Yes(SkipInl(t, e.i), << id.v, e.v >>) ELSE No
ObjectKeyAt(t, i) ==
  LET id == IdentAt(t, i) IN
  IF id.ok THEN Yes(id.i, << "I", id.v >>)
  ELSE LET e == ExprAt(t, i) IN IF e.ok THEN Yes(e.i, << "X", SubSeq(t, i, e.i - 1) >>) ELSE No
ObjectElementAt(t, i0) ==
  LET k == ObjectKeyAt(t, SkipInl(t, i0))
  IN IF ~k.ok THEN No
     ELSE LET q == SkipInl(t, k.i) IN
          IF At(t, q) # EQ THEN No
          ELSE LET e == ExprAt(t, SkipInl(t, q + 1)) IN
               IF e.ok THEN Yes(SkipInl(t, e.i), << k.v[1], k.v[2], e.v >>) ELSE No
ObjectSepAt(t, i) ==
  IF At(t, i) = COMMA THEN Yes(i + 1, None)
  ELSE LET n == NewlineAt(t, i) IN IF n.ok THEN n ELSE IF At(t, i) = RBRC THEN Yes(i, None) ELSE No
RECURSIVE ObjectElems(_, _, _)
ObjectElems(t, i, acc) ==
  LET e == ObjectElementAt(t, SkipWs(t, i))
      s == IF e.ok THEN ObjectSepAt(t, e.i) ELSE No
  IN IF e.ok /\ s.ok THEN ObjectElems(t, s.i, Append(acc, e.v)) ELSE Yes(SkipWs(t, i), acc)
ObjectBodyAt(t, i) == ObjectElems(t, i, << >>)

LabelAt(t, i) == LET id == IdentAt(t, i) IN
                 IF id.ok THEN Yes(id.i, << "I", id.v >>)
                 ELSE LET s == StringLiteralAt(t, i) IN IF s.ok THEN Yes(s.i, << "S", s.v >>) ELSE No
RECURSIVE LabelsFrom(_, _, _)
LabelsFrom(t, i, acc) == LET l == LabelAt(t, SkipInl(t, i))
                         IN IF l.ok THEN LabelsFrom(t, SkipInl(t, l.i), Append(acc, l.v)) ELSE Yes(i, acc)
LabelsAt(t, i) == LabelsFrom(t, i, << >>)
HeaderAt(t, i0) ==
  LET id == IdentAt(t, SkipInl(t, i0))
  IN IF ~id.ok THEN No
     ELSE LET l == LabelsAt(t, SkipInl(t, id.i))
              b == SkipInl(t, l.i)
          IN IF At(t, b) = LBRC THEN Yes(b + 1, << id.v, l.v >>) ELSE No
OneLineAt(t, i0) ==
  LET h == HeaderAt(t, i0)
  IN IF ~h.ok THEN No
     ELSE LET a == AttributeAt(t, SkipInl(t, h.i))
              c == IF a.ok THEN a.i ELSE SkipInl(t, h.i)
          IN IF At(t, c) = RBRC
             THEN Yes(SkipInl(t, c + 1), << "B", h.v[1], h.v[2], IF a.ok THEN << << "A", a.v[1], a.v[2] >> >> ELSE << >> >>)
             ELSE No
OneLineBodyAt(t, i) == LET a == AttributeAt(t, i) IN IF a.ok THEN Yes(a.i, << a.v >>) ELSE Yes(i, << >>)
RECURSIVE BlockAt(_, _), BodyFrom(_, _, _), ElementAt(_, _)
BlockAt(t, i0) ==
  LET h == HeaderAt(t, i0)
      n == IF h.ok THEN NewlineAt(t, SkipInl(t, h.i)) ELSE No
  IN IF ~n.ok THEN No
     ELSE LET b == BodyFrom(t, SkipWs(t, n.i), << >>)
          IN IF At(t, b.i) = RBRC THEN Yes(SkipInl(t, b.i + 1), << "B", h.v[1], h.v[2], b.v >>) ELSE No
ElementAt(t, i) ==
  LET a == AttributeAt(t, i) IN
  IF a.ok THEN Yes(a.i, << "A", a.v[1], a.v[2] >>)
  ELSE LET o == OneLineAt(t, i) IN IF o.ok THEN o ELSE BlockAt(t, i)
BodyFrom(t, i, acc) ==
  LET e == ElementAt(t, SkipWs(t, i))
      n == IF e.ok THEN NewlineAt(t, SkipNl(t, e.i)) ELSE No
      z == IF ~e.ok THEN 0 ELSE LET k == NlOnce(t, e.i) IN IF k # 0 THEN SkipNl(t, e.i) ELSE IF e.i > Len(t) THEN e.i ELSE 0
  IN IF z = 0 THEN Yes(SkipWs(t, i), acc)
     ELSE IF z > Len(t) THEN Yes(z, Append(acc, e.v))
     ELSE BodyFrom(t, z, Append(acc, e.v))
BodyAt(t, i) == BodyFrom(t, i, << >>)

(* ----------------------------------------------------------------- parsers *)
Names == << "inline_comment", "hash_comment", "slash_comment", "line_comment", "inline_whitespace", "whitespace", "newline",
            "identifier", "null", "boolean", "number", "string", "string_literal", "heredoc_begin", "heredoc_string",
            "tuple", "object", "bracket_expression", "expression",
            "attribute", "object_element_identifier", "object_element", "object_separator", "object_body",
            "block_label", "block_labels", "one_line_block_body", "one_line_block", "block", "body_element", "body" >>
W_null == << 110, 117, 108, 108 >>
W_true == << 116, 114, 117, 101 >>
W_false == << 102, 97, 108, 115, 101 >>
Wrap(x, f(_)) == IF x.ok THEN Yes(x.i, f(x.v)) ELSE No
Sub(p, t) ==
  CASE p = "inline_comment" -> InlCommentAt(t, 1)
    [] p = "hash_comment" -> HashAt(t, 1)
    [] p = "slash_comment" -> SlashAt(t, 1)
    [] p = "line_comment" -> LineCommentAt(t, 1)
    [] p = "inline_whitespace" -> Yes(SkipInl(t, 1), None)
    [] p = "whitespace" -> Yes(SkipWs(t, 1), None)
    [] p = "newline" -> NewlineAt(t, 1)
    [] p = "identifier" -> IdentAt(t, 1)
    [] p = "null" -> WordAt(t, 1, W_null, None)
    [] p = "boolean" -> LET a == WordAt(t, 1, W_true, << "bool", TRUE >>) IN
                        IF a.ok THEN a ELSE WordAt(t, 1, W_false, << "bool", FALSE >>)
    [] p = "number" -> NumberAt(t, 1)
    [] p = "string" -> StringAt(t, 1)
    [] p = "string_literal" -> StringLiteralAt(t, 1)
    [] p = "heredoc_begin" -> HeredocBeginAt(t, 1)
    [] p = "heredoc_string" -> ExprIf(t, 1, {LT})
    [] p = "tuple" -> TupleAt(t, 1)
    [] p = "object" -> ObjectAt(t, 1)
    [] p = "bracket_expression" -> BracketAt(t, 1)
    [] p = "expression" -> ExprAt(t, 1)
    [] p = "attribute" -> AttributeAt(t, 1)
    [] p = "object_element_identifier" -> ObjectKeyAt(t, 1)
    [] p = "object_element" -> ObjectElementAt(t, 1)
    [] p = "object_separator" -> ObjectSepAt(t, 1)
    [] p = "object_body" -> ObjectBodyAt(t, 1)
    [] p = "block_label" -> LabelAt(t, 1)
    [] p = "block_labels" -> LabelsAt(t, 1)
    [] p = "one_line_block_body" -> OneLineBodyAt(t, 1)
    [] p = "one_line_block" -> OneLineAt(t, 1)
    [] p = "block" -> BlockAt(t, 1)
    [] p = "body_element" -> ElementAt(t, 1)
    [] p = "body" -> BodyAt(t, 1)
Verdict(p, t) == LET x == Sub(p, t) IN IF x.ok THEN [r |-> "ok", n |-> x.i - 1, v |-> x.v] ELSE Reject

(* The two formulations agree: a document is accepted exactly when its body  *)
(* is all of it, and then the trees are the same.                            *)
ObjectIsReader(t) ==     \* t: what would be between the braces
  LET b == ObjectBodyAt(t, 1)  o == ReadExpr(<< LBRC >> \o t \o << RBRC >>)
      c == ObjectBodyAt(Append(t, RBRC), 1)
  IN ToJson(IF c.i = Len(t) + 1 THEN [r |-> "ok", v |-> << "obj", c.v >>] ELSE Reject) = ToJson(o)
BodyIsReader(t) == LET b == BodyAt(t, 1)  c == ReadConfig(t)
                   IN ToJson(IF b.i > Len(t) THEN [r |-> "ok", v |-> b.v] ELSE Reject) = ToJson(c)
=============================================================================
