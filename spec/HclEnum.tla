------------------------------- MODULE HclEnum ------------------------------
(* Exhaustive enumeration of the documents (expressions) over an alphabet of *)
(* text chunks, with the reader's verdict on each of them.  A dead prefix is *)
(* emitted but not extended, except in the alphabets of `Past', which hold   *)
(* chunks that only another language could take, and what follows them.      *)
EXTENDS HclReader, Text, Json

CONSTANTS Alpha,     \* name of the alphabet
          Kind,      \* "parse" (document) or "expr" (expression)
          MaxK,       \* number of chunks
          Out        \* emit vectors?

VARIABLES t, st, k

Chunks ==
  CASE Alpha = "struct" -> {S(x) : x \in {"a", " ", "=", "{", "}", "~", "\"", "1", ",", "[", "]"}}
    [] Alpha = "body" -> {S(x) : x \in {"a", "b ", "= 1", " {", "}", "~", "\"l\"", " ", "^~", "#c~", "/*~*/", "a = "}}
    [] Alpha = "obj" -> {S(x) : x \in {"{", "}", "a", "=", "1", ",", "~", "\"k\"", "(", ")", " ", "[", "]", "^"}}
    [] Alpha = "tup" -> {S(x) : x \in {"[", "]", ",", "1", "~", "{}", "(", ")", "null", " ", "#,]~", "\"\""}}
    [] Alpha = "trivia" -> {S(x) : x \in {"a=1", "b{", "}", "~", "^", "/", "*", "#", " ", "c"}}
    \* inside of comments
    [] Alpha = "cmt" -> {S(x) : x \in {"/*", "*/", "*", "/", "#", "//", "~", "^", "\"", "}", "c=2", " "}} \cup {<< 233 >>}
    [] Alpha \in {"hcmt", "scmt"} -> {S(x) : x \in {"/*", "*/", "#", "//", "~", "^~", "^", "\"", "}", "c=2", "\\", "<<E"}} \cup {<< 233 >>, << 8232 >>, << 133 >>, << 11 >>, << 12 >>}
    [] Alpha = "str" -> {S(x) : x \in {"\"", "\\", "x", "u", "U", "0", "7", "8", "f", "d", "~", "n", "D"}}
    [] Alpha = "esc" -> {S(x) : x \in {"\"", "\\x", "\\u", "\\U", "\\1", "\\7", "d", "8", "0", "F", "00", "11", "g", "dfff", "0010ffff"}}
    [] Alpha = "num" -> {S(x) : x \in {"0", "1", "9", ".", "-", "+", "e", "E", "x"}}
    [] Alpha = "vbody" -> {S(x) : x \in {"a", "b=1", "= 1", "{", "}", "~", "\"l\"", " ", "^", ",", "#c~", "[", "]"}}
    [] Alpha = "vstruct" -> {S(x) : x \in {"a", " ", "=", "{", "}", "~", "\"", "1", ",", "[", "]", "/**/"}}
    \* heredocs: the opening, then the lines of an open one, plain and with indentation removed
    [] Alpha = "hdh" -> {S(x) : x \in {"E", "_", "1", "-", " ", "~", "^~", "E~", "x", "<", "E-E~", "E.~"}} \cup {<< 233 >>, << 178 >>, << 769 >>}
    [] Alpha \in {"hd", "hdi"} -> {S(x) : x \in {"E", "x", " ", "~", "^", "`", "E~", "  ", "b=1~"}} \cup {<< 233 >>}
    [] Alpha = "hdt" -> {S(x) : x \in {"E", "x", " ", "~", "^~", "  E~", "E]", "]~", ",", "1"}}
    \* what is no heredoc, number, comment, key or list, whatever comes after it
    [] Alpha = "phd" -> {S(x) : x \in {"E-F~", "E.F~", "E:F~", "E F~", "E~", "-E-F~", "x~", "~E-F"}}
    [] Alpha = "ptok" -> {S(x) : x \in {"a", "=", ":", "1", ";", ",", "~", "{", "}", "\"s\"", "."}}
    [] Alpha = "pval" -> {S(x) : x \in {"'", "s", "\"", "0x", "1", "_", "+", "[", "]", "{", "}", ",", ";", ":", "=", "$", "(", ")", ".", "~"}}
    \* strings in their other places: labels, keys
    [] Alpha \in {"lstr", "kstr", "vlstr", "sstr"} ->
         {S(x) : x \in {"\\", "x", "u", "U", "4", "7", "e", "~", "^", "n", "/*"}}
           \cup {CASE Alpha = "lstr" -> S("\" {}") [] Alpha = "kstr" -> S("\"=1") [] Alpha = "vlstr" -> S("\"{}") [] Alpha = "sstr" -> S("\"")}
    [] Alpha = "kw" -> {S(x) : x \in {"n", "u", "l", "t", "true", "false", "null", "1", "-", " ", "[", "]", ","}}
    [] Alpha = "label" -> {S(x) : x \in {"a", "\"", " ", "b", "{}", "=1", "\\n", "{~}", "\\x41", "~", "-", "1", "/**/"}}
    [] Alpha = "uni" -> {<<c>> : c \in {233, 769, 183, 20013, 8551, 178, 8364, 160, 128512, 97, 49, 45, 95}} \cup {S("=1"), S("\""), S("{}")}

Prefix ==
  CASE Alpha \in {"str", "esc"} -> S("\"")
    [] Alpha = "cmt" -> S("a=1/*")
    [] Alpha = "hcmt" -> S("a=1#")
    [] Alpha = "scmt" -> S("a=1//")
    [] Alpha = "hdh" -> S("a=<<")
    [] Alpha = "hd" -> S("a=<<E~")
    [] Alpha = "hdi" -> S("a=<<-E~")
    [] Alpha = "hdt" -> S("a=[<<-E~")
    [] Alpha = "phd" -> S("a=<<")
    [] Alpha = "pval" -> S("a=")
    [] Alpha \in {"lstr", "vlstr"} -> S("b \"")
    [] Alpha = "kstr" -> S("\"")
    [] Alpha = "sstr" -> S("a=\"")
    [] OTHER -> << >>

Past == Alpha \in {"phd", "ptok", "pval"}

Start0 == CASE Kind = "expr" -> ExprStart [] Kind = "parse" -> ConfigStart [] Kind = "value" -> ValueStart

Init == /\ t = Prefix
        /\ st = Run(Start0, Prefix)
        /\ k = 0
Next == /\ k < MaxK /\ (st.m # "dead" \/ Past)
        /\ (st.m = "done" => st.d = st.p)
        /\ \E c \in Chunks :
             /\ t' = t \o c
             /\ st' = Run(st, c)
             /\ k' = k + 1
Spec == Init /\ [][Next]_<< t, st, k >>

Verdict == CASE Kind = "expr" -> ExprVerdict(st) [] Kind = "parse" -> ConfigVerdict(st)
             [] Kind = "value" -> ValueVerdict(st)

Emit == Out => PrintT(ToJson([op |-> Kind, t |-> t, x |-> Verdict]))

(* ---------------------------------------------------------- properties of the specification *)
(* C03 on the specification: blanks and comments are no-ops wherever trivia is allowed.        *)
Same(a, b) == a.m = b.m /\ a.s = b.s /\ a.b = b.b
TriviaNoOp ==
  /\ st.m \in TriviaModes =>
       /\ Same(Run(st, << SP >>), st) /\ Same(Run(st, << TAB >>), st)
       /\ Same(Run(st, S("/*=*/")), st) /\ Same(Run(st, S("/***/")), st)
  /\ st.m \in WsModes =>
       /\ Same(Run(st, << LF >>), st) /\ Same(Run(st, << CR, LF >>), st)
       /\ Same(Run(st, S("#}~")), st) /\ Same(Run(st, S("//\"^~")), st)
  /\ st.m \in LineEnders =>
       /\ Same(Run(st, << LF >>), Run(st, << CR, LF >>))
       /\ Same(Run(st, << LF >>), Run(st, S("#]~"))) /\ Same(Run(st, << LF >>), Run(st, S("// x^~")))
(* C02 on the specification: only a complete text is accepted, and then nothing is pending.    *)
Whole == LET e == Step(st, EOF) IN
           /\ e.m = "acc" => Len(e.s) = 1 /\ e.s[1].k \in {"body", "vmap"} /\ e.b = << >>
           /\ e.m = "done" => Len(e.s) = 1 /\ e.s[1].k = "top" /\ Len(e.s[1].els) = 1
           /\ st.p = Len(t) \/ st.m = "dead"
=============================================================================
