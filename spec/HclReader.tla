------------------------------ MODULE HclReader -----------------------------
(* A reader of HCL documents and expressions as a deterministic push-down    *)
(* transducer: one character per step, the tree is built on the stack.       *)
(* There is no look-back, no backtracking and no alternative: whatever the   *)
(* implementation's strategy is, this is what it has to compute.             *)
EXTENDS HclNumbers, SequencesExt, TLC

(* State record                                                              *)
(*   m  mode            r  mode to return to (trivia, strings)               *)
(*   b  token buffer    n, v  counters of the token                          *)
(*   h  heredoc: marker, dash, text, pending end of line, current line       *)
(*   s  stack of frames, top last                                            *)
(*   w  raw text since the outermost open object-key expression              *)
(*   p  characters consumed;  d  where a top-level expression ended          *)
(*   g  grammar: "hcl" (syntax tree) or "val" (value tree)                   *)
NoH == [mk |-> << >>, ind |-> FALSE, tx |-> << >>, e |-> << >>, ln |-> << >>, first |-> TRUE]

Frame(k, a, lb, els) == [k |-> k, a |-> a, lb |-> lb, els |-> els]
Init0(g, mode, frame) == [g |-> g, m |-> mode, r |-> "", b |-> << >>, n |-> 0, v |-> 0, h |-> NoH,
                       s |-> << frame >>, w |-> << >>, p |-> 0, d |-> 0]

ConfigStart == Init0("hcl", "body", Frame("body", << >>, << >>, << >>))
ExprStart   == Init0("hcl", "exprT", Frame("top", << >>, << >>, << >>))
ValueStart  == Init0("val", "vbody", Frame("vmap", << >>, << >>, << >>))

Dead(st) == [st EXCEPT !.m = "dead", !.b = << >>, !.s = << >>, !.h = NoH, !.w = << >>]
Go(st, mode) == [st EXCEPT !.m = mode]
Buf(st, mode, c) == [st EXCEPT !.m = mode, !.b = Append(@, c)]
Start(st, mode, c) == [st EXCEPT !.m = mode, !.b = << c >>]
Top(st) == Last(st.s)
Push(st, f) == [st EXCEPT !.s = Append(@, f)]
PopS(st) == Front(st.s)
SetTop(st, f) == [st EXCEPT !.s = Append(Front(@), f)]
HasKey(s) == \E i \in 1 .. Len(s) : s[i].k = "okey"

(* append an element to the frame that is on top of stack s                  *)
AddEl(s, e) == Append(Front(s), [Last(s) EXCEPT !.els = Append(@, e)])

(* An expression with value val is complete; the last la characters of w and *)
(* the text are lookahead, not part of it.                                   *)
Finish(st, val, la) ==
  LET f == Top(st)
      t == [st EXCEPT !.b = << >>, !.n = 0, !.v = 0, !.h = NoH, !.r = ""]
  IN CASE f.k = "attr" -> [t EXCEPT !.m = "afterElem", !.s = AddEl(PopS(st), << "A", f.a, val >>)]
       [] f.k = "one"  -> [t EXCEPT !.m = "oafter",
                                    !.s = Append(PopS(st), Frame("one1", f.a, f.lb, << << "A", f.els, val >> >>))]
       [] f.k = "kv"   -> [t EXCEPT !.m = "objAfter", !.s = AddEl(PopS(st), << f.a[1], f.a[2], val >>)]
       [] f.k = "okey" -> LET raw == SubSeq(st.w, f.a + 1, Len(st.w) - la)
                              s2 == Append(PopS(st), Frame("kv", << "X", raw >>, << >>, << >>))
                          IN [t EXCEPT !.m = "objKeyAfter", !.s = s2, !.w = IF HasKey(s2) THEN st.w ELSE << >>]
       [] f.k = "tup"  -> [t EXCEPT !.m = "tupAfter", !.s = AddEl(st.s, val)]
       [] f.k = "par"  -> [t EXCEPT !.m = "parenAfter", !.s = AddEl(st.s, val)]
       [] f.k = "vattr" -> [t EXCEPT !.m = "vitem", !.s = AddEl(PopS(st), << f.a[1], f.a[2], val >>)]
       [] f.k = "top"  -> [t EXCEPT !.m = "done", !.s = AddEl(st.s, val), !.d = st.p - la]

(* First character c of an expression, trivia being handled by the caller    *)
ExprChar(st, c) ==
  CASE c = 110 -> [st EXCEPT !.m = "kw", !.b = << 117, 108, 108 >>, !.v = 0]
    [] c = 116 -> [st EXCEPT !.m = "kw", !.b = << 114, 117, 101 >>, !.v = 1]
    [] c = 102 -> [st EXCEPT !.m = "kw", !.b = << 97, 108, 115, 101 >>, !.v = 2]
    [] c = PLUS \/ c = MINUS -> Start(st, "nsign", c)
    [] c = DOT -> Start(st, "nldot", c)
    [] IsDigit(c) -> Start(st, "nint", c)
    [] c = DQ -> [st EXCEPT !.m = "str", !.r = "val", !.b = << >>]
    [] c = LT -> Go(st, "hd1")
    [] c = LBRK -> Go(Push(st, Frame("tup", << >>, << >>, << >>)), "tup0")
    [] c = LBRC /\ st.g = "val" -> Go(Push(st, Frame("vmap", << >>, << >>, << >>)), "vbody")
    [] c = LBRC -> Go(Push(st, Frame("obj", << >>, << >>, << >>)), "obj")
    [] c = LPAR /\ st.g = "hcl" -> Go(Push(st, Frame("par", << >>, << >>, << >>)), "exprP")
    [] OTHER -> Dead(st)

(* where a completed line (line comment or line end) leads from mode r       *)
OpenBody(st) == LET f == Top(st)
                IN [st EXCEPT !.m = "body", !.s = Append(PopS(st), Frame("body", f.a, f.lb, << >>))]
LineRet(st, r) ==
  CASE r = "afterElem" -> Go(st, "body")
    [] r = "open" -> OpenBody(st)
    [] r \in {"exprI", "exprT"} -> Go(st, "exprW")
    [] r = "objAfter" -> Go(st, "obj")
    [] r = "vitem" -> Go(st, "vnl")
    [] r = "vafterId" -> Go(st, "vopen")
    [] OTHER -> Go(st, r)

InlineOnly == {"afterId", "oafterId", "oafter", "objKeyAfter", "vkeyAfter"}
LineEnders == {"afterElem", "open", "objAfter"}    \* an end of line or line comment is a token here
WsModes == {"vbody", "vnl", "vcomma", "vopen", "body", "exprW", "exprP", "tup0", "tupAfter", "tupNext", "tupQ", "parenAfter", "obj"}
TriviaModes == InlineOnly \cup LineEnders \cup WsModes \cup {"exprI", "vitem", "vafterId"}

(* c starts trivia in mode st.m?                                             *)
TriviaChar(st, c) ==
  \/ IsBlank(c) /\ st.m # "exprT"
  \/ c = SLASH
  \/ c = HASH /\ st.m \notin InlineOnly
  \/ IsEolCh(c) /\ st.m \notin InlineOnly
  \/ IsBlank(c)
Trivia(st, c) ==
  CASE IsBlank(c) -> IF st.m = "exprT" THEN Go(st, "exprW") ELSE st
    [] c = SLASH -> [st EXCEPT !.m = "sl", !.r = st.m]
    [] c = HASH -> [st EXCEPT !.m = "lc", !.r = st.m]
    [] c = CR /\ st.m = "vitem" -> Go(st, "vcr")      \* a lone CR is blank space before a comma only
    [] c = CR -> IF st.m \in LineEnders THEN [st EXCEPT !.m = "cr", !.r = st.m] ELSE LineRet(st, st.m)
    [] c = LF -> LineRet(st, st.m)

(* value tree                                                                *)
UMap(els) == << "U", els >>
NumVal(st, lit) == IF st.g = "val" THEN ValueOfLit(lit) ELSE << "num", lit >>
TupVal(st, els) == IF st.g = "val" THEN << "list", els >> ELSE << "tup", els >>
VMapEnd(st) ==     \* the closing brace of a map: an object value, or an item of the enclosing map
  LET f == Top(st)
      q == [st EXCEPT !.s = PopS(st)]
      obj == << "objs", << UMap(f.els) >> >>
  IN IF f.a = << >> THEN Finish(q, obj, 0)
     ELSE [q EXCEPT !.m = "vitem",
                    !.s = AddEl(q.s, << "I", f.a,
                            IF f.lb = << >> THEN obj ELSE << "blk", UMap(<< << f.lb, UMap(f.els) >> >>) >> >>)]

BlockEl(f, els) == << "B", f.a, f.lb, els >>

(* heredoc: a line (without its end) is complete; eol is <<LF>> or <<CR,LF>> *)
HdLine(st, eol) ==
  LET h == st.h
      k == LeadBlanks(h.ln, 1)
      isEnd == SubSeq(h.ln, k + 1, Len(h.ln)) = h.mk
  IN IF isEnd
     THEN [end |-> TRUE, st |-> st,
           val |-> IF h.ind THEN Unindent(h.tx, k) ELSE h.tx]
     ELSE [end |-> FALSE, val |-> << >>,
           st |-> [st EXCEPT !.m = "hdline",
                             !.h = [h EXCEPT !.tx = h.tx \o h.e \o h.ln, !.e = eol, !.ln = << >>, !.first = FALSE]]]

RECURSIVE Step1(_, _)
NumEnd(st, c) ==  \* the number in b (mantissa in the first n characters if an exponent was cut short) ends before c
  LET x == Finish(st, NumVal(st, st.b), IF c = EOF THEN 0 ELSE 1) IN Step1(x, c)
NumBack(st, c) == \* incomplete exponent: the number is what precedes it, the rest is left over
  LET cut == Len(st.b) - st.n + (IF c = EOF THEN 0 ELSE 1)
      x == Finish(st, NumVal(st, SubSeq(st.b, 1, st.n)), cut)
  IN IF x.m = "done" THEN x ELSE Dead(st)

StrChar(st, c) == IF st.v = 0 THEN Buf(st, "str", c) ELSE st
StrDone(st) == IF st.r = "vkey"
               THEN [Push(st, Frame("vattr", << "S", st.b >>, << >>, << >>)) EXCEPT !.m = "vkeyAfter", !.b = << >>, !.r = ""]
               ELSE IF st.r = "vlab"
               THEN LET f == Top(st) IN [SetTop(st, [f EXCEPT !.lb = Append(@, st.b)])
                                          EXCEPT !.m = "vafterId", !.b = << >>, !.r = ""]
               ELSE IF st.r = "lab"
               THEN LET f == Top(st) IN [SetTop(st, [f EXCEPT !.lb = Append(@, << "S", st.b >>)])
                                          EXCEPT !.m = "afterId", !.b = << >>, !.r = ""]
               ELSE Finish(st, << "str", st.b >>, 0)

Step1(st, c) ==
  LET m == st.m IN
  CASE m = "dead" -> st
    [] m = "done" -> st
    \* ---------------------------------------------------------------- trivia
    [] m = "sl" -> CASE c = STAR -> Go(st, "bc")
                     [] c = SLASH /\ st.r \notin InlineOnly -> Go(st, "lc")
                     [] OTHER -> Dead(st)
    [] m = "bc" -> CASE c = EOF -> Dead(st) [] c = STAR -> Go(st, "bcs") [] OTHER -> st
    [] m = "bcs" -> CASE c = EOF -> Dead(st)
                      [] c = SLASH -> [st EXCEPT !.m = IF st.r = "exprT" THEN "exprW" ELSE st.r, !.r = ""]
                      [] c = STAR -> st
                      [] OTHER -> Go(st, "bc")
    [] m = "lc" -> CASE c = LF -> [LineRet(st, st.r) EXCEPT !.r = ""]
                     [] c = CR -> Go(st, "lccr")
                     [] c = EOF -> Step1([LineRet(st, st.r) EXCEPT !.r = ""], EOF)
                     [] OTHER -> st
    [] m \in {"lccr", "cr"} -> IF c = LF THEN [LineRet(st, st.r) EXCEPT !.r = ""] ELSE Dead(st)
    [] m \in TriviaModes \cup {"exprT"} /\ TriviaChar(st, c) -> Trivia(st, c)
    \* -------------------------------------------------------- bodies, blocks
    [] m = "body" -> CASE c = EOF -> IF Len(st.s) = 1 THEN Go(st, "acc") ELSE Dead(st)
                       [] c = RBRC /\ Len(st.s) > 1 ->
                            [st EXCEPT !.m = "afterElem", !.s = AddEl(PopS(st), BlockEl(Top(st), Top(st).els))]
                       [] IsIdStart(c) -> Start(st, "id", c)
                       [] OTHER -> Dead(st)
    [] m = "id" -> IF IsIdCont(c) THEN Buf(st, "id", c)
                   ELSE Step1([Push(st, Frame("hdr", st.b, << >>, << >>)) EXCEPT !.m = "afterId", !.b = << >>], c)
    [] m = "afterId" -> LET f == Top(st) IN
                   CASE c = EQ /\ f.lb = << >> -> Go(SetTop(st, Frame("attr", f.a, << >>, << >>)), "exprI")
                     [] c = LBRC -> Go(st, "open")
                     [] c = DQ -> [st EXCEPT !.m = "str", !.r = "lab", !.b = << >>]
                     [] IsIdStart(c) -> Start(st, "lab", c)
                     [] OTHER -> Dead(st)
    [] m = "lab" -> IF IsIdCont(c) THEN Buf(st, "lab", c)
                    ELSE LET f == Top(st) IN
                         Step1([SetTop(st, [f EXCEPT !.lb = Append(@, << "I", st.b >>)])
                                 EXCEPT !.m = "afterId", !.b = << >>], c)
    [] m = "open" -> CASE c = RBRC -> [st EXCEPT !.m = "afterElem", !.s = AddEl(PopS(st), BlockEl(Top(st), << >>))]
                       [] IsIdStart(c) -> Start(st, "oid", c)
                       [] OTHER -> Dead(st)
    [] m = "oid" -> IF IsIdCont(c) THEN Buf(st, "oid", c)
                    ELSE LET f == Top(st) IN
                         Step1([SetTop(st, Frame("one", f.a, f.lb, st.b)) EXCEPT !.m = "oafterId", !.b = << >>], c)
    [] m = "oafterId" -> IF c = EQ THEN Go(st, "exprI") ELSE Dead(st)
    [] m = "oafter" -> IF c = RBRC
                       THEN [st EXCEPT !.m = "afterElem", !.s = AddEl(PopS(st), BlockEl(Top(st), Top(st).els))]
                       ELSE Dead(st)
    [] m = "afterElem" -> IF c = EOF /\ Len(st.s) = 1 THEN Go(st, "acc") ELSE Dead(st)
    \* ------------------------------------------------------------ value tree
    [] m \in {"vbody", "vnl"} ->
         CASE c = EOF -> IF Len(st.s) = 1 THEN Go(st, "acc") ELSE Dead(st)
           [] c = RBRC /\ Len(st.s) > 1 -> VMapEnd(st)
           [] c = COMMA /\ m = "vnl" -> Go(st, "vbody")
           [] c = DQ -> [st EXCEPT !.m = "str", !.r = "vkey", !.b = << >>]
           [] IsIdStart(c) -> Start(st, "vid", c)
           [] OTHER -> Dead(st)
    [] m = "vid" -> IF IsIdCont(c) THEN Buf(st, "vid", c)
                    ELSE Step1([Push(st, Frame("vmap", st.b, << >>, << >>)) EXCEPT !.m = "vafterId", !.b = << >>], c)
    [] m = "vafterId" ->
         CASE c = EQ /\ Top(st).lb = << >> -> Go(SetTop(st, Frame("vattr", << "I", Top(st).a >>, << >>, << >>)), "exprI")
           [] c = DQ -> [st EXCEPT !.m = "str", !.r = "vlab", !.b = << >>]
           [] c = LBRC -> Go(st, "vbody")
           [] OTHER -> Dead(st)
    [] m = "vopen" -> IF c = LBRC THEN Go(st, "vbody") ELSE Dead(st)
    [] m = "vkeyAfter" -> IF c = EQ THEN Go(st, "exprI") ELSE Dead(st)
    [] m = "vitem" -> CASE c = COMMA -> Go(st, "vbody")
                        [] c = EOF /\ Len(st.s) = 1 -> Go(st, "acc")
                        [] OTHER -> Dead(st)
    [] m = "vcr" -> IF c = LF THEN Go(st, "vnl") ELSE Step1(Go(st, "vcomma"), c)
    [] m = "vcomma" -> IF c = COMMA THEN Go(st, "vbody") ELSE Dead(st)
    \* ----------------------------------------------------------- expressions
    [] m \in {"exprI", "exprP", "exprT"} -> ExprChar(st, c)
    [] m = "exprW" -> IF c \in {LBRC, LPAR} THEN ExprChar(st, c) ELSE Dead(st)
    [] m = "kw" -> IF c # st.b[1] THEN Dead(st)
                   ELSE IF Len(st.b) = 1
                   THEN Finish(st, CASE st.v = 0 -> << "null" >> [] st.v = 1 -> << "bool", TRUE >>
                                     [] st.v = 2 -> << "bool", FALSE >>, 0)
                   ELSE [st EXCEPT !.b = Tail(@)]
    [] m = "nsign" -> CASE IsDigit(c) -> Buf(st, "nint", c) [] c = DOT -> Buf(st, "nldot", c) [] OTHER -> Dead(st)
    [] m = "nldot" -> IF IsDigit(c) THEN Buf(st, "nfrac", c) ELSE Dead(st)
    [] m = "nint" -> CASE IsDigit(c) -> Buf(st, "nint", c)
                       [] c = DOT -> Buf(st, "nfrac", c)
                       [] c = 101 \/ c = 69 -> [Buf(st, "ne", c) EXCEPT !.n = Len(st.b)]
                       [] OTHER -> NumEnd(st, c)
    [] m = "nfrac" -> CASE IsDigit(c) -> Buf(st, "nfrac", c)
                        [] c = 101 \/ c = 69 -> [Buf(st, "ne", c) EXCEPT !.n = Len(st.b)]
                        [] OTHER -> NumEnd(st, c)
    [] m = "ne" -> CASE IsDigit(c) -> Buf(st, "nexp", c)
                     [] c = PLUS \/ c = MINUS -> Buf(st, "nes", c)
                     [] OTHER -> NumBack(st, c)
    [] m = "nes" -> IF IsDigit(c) THEN Buf(st, "nexp", c) ELSE NumBack(st, c)
    [] m = "nexp" -> IF IsDigit(c) THEN Buf(st, "nexp", c) ELSE NumEnd(st, c)
    [] m = "tup0" -> CASE c = RBRK -> Finish([st EXCEPT !.s = PopS(st)], TupVal(st, << >>), 0)
                       [] c = COMMA -> Go(st, "tupQ")
                       [] OTHER -> ExprChar(st, c)
    [] m = "tupQ" -> IF c = RBRK THEN Finish([st EXCEPT !.s = PopS(st)], TupVal(st, << >>), 0) ELSE Dead(st)
    [] m = "tupAfter" -> CASE c = COMMA -> Go(st, "tupNext")
                           [] c = RBRK -> Finish([st EXCEPT !.s = PopS(st)], TupVal(st, Top(st).els), 0)
                           [] OTHER -> Dead(st)
    [] m = "tupNext" -> IF c = RBRK THEN Finish([st EXCEPT !.s = PopS(st)], TupVal(st, Top(st).els), 0)
                        ELSE ExprChar(st, c)
    [] m = "parenAfter" -> IF c = RPAR THEN Finish([st EXCEPT !.s = PopS(st)], Top(st).els[1], 0) ELSE Dead(st)
    [] m = "obj" -> CASE c = RBRC -> Finish([st EXCEPT !.s = PopS(st)], << "obj", Top(st).els >>, 0)
                      [] IsIdStart(c) -> Start(st, "okid", c)
                      [] OTHER -> LET raw == IF HasKey(st.s) THEN st.w ELSE << c >>
                                  IN ExprChar([Push(st, Frame("okey", Len(raw) - 1, << >>, << >>))
                                               EXCEPT !.w = raw], c)
    [] m = "okid" -> IF IsIdCont(c) THEN Buf(st, "okid", c)
                     ELSE Step1([Push(st, Frame("kv", << "I", st.b >>, << >>, << >>))
                                  EXCEPT !.m = "objKeyAfter", !.b = << >>], c)
    [] m = "objKeyAfter" -> IF c = EQ THEN Go(st, "exprI") ELSE Dead(st)
    [] m = "objAfter" -> CASE c = COMMA -> Go(st, "obj")
                           [] c = RBRC -> Step1(Go(st, "obj"), c)
                           [] OTHER -> Dead(st)
    \* --------------------------------------------------------------- strings
    [] m = "str" -> CASE c = DQ -> StrDone(st)
                      [] c = EOF -> Dead(st)
                      [] c = BSL -> Go(st, "esc")
                      [] IsEolCh(c) /\ st.r \in {"lab", "vkey", "vlab"} -> Dead(st)
                      [] OTHER -> Buf(st, "str", c)
    [] m = "esc" -> CASE c = 97 -> Buf(st, "str", 7)
                      [] c = 98 -> Buf(st, "str", 8)
                      [] c = 102 -> Buf(st, "str", 12)
                      [] c = 110 -> Buf(st, "str", 10)
                      [] c = 114 -> Buf(st, "str", 13)
                      [] c = 116 -> Buf(st, "str", 9)
                      [] c = 118 -> Buf(st, "str", 11)
                      [] c \in {BSL, DQ, 63} -> Buf(st, "str", c)
                      [] IsOct(c) -> [st EXCEPT !.m = "oct", !.n = 2, !.v = c - 48]
                      [] c = 120 -> [st EXCEPT !.m = "hex0", !.n = 2, !.v = 0]
                      [] c = 117 -> [st EXCEPT !.m = "hex0", !.n = 4, !.v = 0]
                      [] c = 85 -> [st EXCEPT !.m = "hex0", !.n = 8, !.v = 0]
                      [] OTHER -> Dead(st)
    [] m = "oct" -> IF IsOct(c) /\ st.n > 0
                    THEN [st EXCEPT !.n = @ - 1, !.v = @ * 8 + (c - 48)]
                    ELSE Step1([Buf(st, "str", st.v) EXCEPT !.n = 0, !.v = 0], c)
    [] m = "hex0" -> IF IsHex(c) THEN [st EXCEPT !.m = "hex", !.n = @ - 1, !.v = HexVal(c)] ELSE Dead(st)
    [] m = "hex" -> IF IsHex(c) /\ st.n > 0
                    THEN [st EXCEPT !.n = @ - 1, !.v = IF @ > MaxScalar THEN @ ELSE @ * 16 + HexVal(c)]
                    ELSE IF IsScalar(st.v)
                    THEN Step1([Buf(st, "str", st.v) EXCEPT !.n = 0, !.v = 0], c)
                    ELSE Dead(st)
    \* -------------------------------------------------------------- heredocs
    [] m = "hd1" -> IF c = LT THEN Go(st, "hd2") ELSE Dead(st)
    [] m = "hd2" -> CASE c = MINUS /\ ~st.h.ind -> [st EXCEPT !.h.ind = TRUE]
                      [] IsMarker(c) -> [st EXCEPT !.m = "hdid", !.h.mk = << c >>]
                      [] OTHER -> Dead(st)
    [] m = "hdid" -> CASE IsMarker(c) -> [st EXCEPT !.h.mk = Append(@, c)]
                       [] c = LF -> Go(st, "hdline")
                       [] c = CR -> Go(st, "hdcr")
                       [] OTHER -> Dead(st)
    [] m = "hdcr" -> IF c = LF THEN Go(st, "hdline") ELSE Dead(st)
    [] m = "hdline" -> CASE c = EOF -> Dead(st)
                         [] c = CR -> Go(st, "hdlcr")
                         [] c = LF -> LET x == HdLine(st, << LF >>) IN
                                      IF x.end THEN Step1(Finish(st, << "str", x.val >>, 1), LF) ELSE x.st
                         [] OTHER -> [st EXCEPT !.h.ln = Append(@, c)]
    [] m = "hdlcr" -> CASE c = LF -> LET x == HdLine(st, << CR, LF >>) IN
                                     IF x.end THEN Step1(Step1(Finish(st, << "str", x.val >>, 2), CR), LF) ELSE x.st
                        [] c = EOF -> Dead(st)
                        [] c = CR -> [st EXCEPT !.h.ln = Append(@, CR)]
                        [] OTHER -> [st EXCEPT !.m = "hdline", !.h.ln = @ \o << CR, c >>]

(* one transition of the machine                                             *)
Step(st, c) ==
  IF c = EOF THEN Step1(st, c)
  ELSE LET raw == IF st.m # "dead" /\ HasKey(st.s) THEN Append(st.w, c) ELSE st.w
       IN Step1([st EXCEPT !.w = raw, !.p = @ + 1], c)

Run(st, t) == FoldLeft(Step, st, t)

(* Verdicts.                                                                 *)
Reject == [r |-> "err"]
ConfigVerdict(st) == LET e == Step(st, EOF) IN
                     IF e.m = "acc" THEN [r |-> "ok", v |-> e.s[1].els] ELSE Reject
ExprVerdict(st) == LET e == Step(st, EOF) IN
                   IF e.m = "done" /\ e.d = e.p THEN [r |-> "ok", v |-> e.s[1].els[1]] ELSE Reject
ReadConfig(t) == ConfigVerdict(Run(ConfigStart, t))
ValueVerdict(st) == LET e == Step(st, EOF) IN
                     IF e.m = "acc" THEN [r |-> "ok", v |-> UMap(e.s[1].els)] ELSE Reject
ReadValue(t) == ValueVerdict(Run(ValueStart, t))
ReadExpr(t) == ExprVerdict(Run(ExprStart, t))
=============================================================================
