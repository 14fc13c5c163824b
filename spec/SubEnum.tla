------------------------------- MODULE SubEnum ------------------------------
(* Every text of up to MaxK chunks, given to every sub-parser of a group.    *)
EXTENDS SubParsers
CONSTANTS Alpha, MaxK, Out
VARIABLES t, k, out
Chunks ==
  CASE Alpha = "ws" -> {S(x) : x \in {" ", "~", "^", "/", "*", "#", "x", "/*", "*/", "//"}}
    [] Alpha = "tok" -> {S(x) : x \in {"a", "-", "1", ".", "e", "+", "\"", "\\", "n", "null", "true", "_"}} \cup {<< 233 >>, << 769 >>}
    [] Alpha = "hd" -> {S(x) : x \in {"<<", "-", "E", "~", "^~", " ", "x", "E~", "\""}}
    [] Alpha = "coll" -> {S(x) : x \in {"[", "]", "{", "}", "(", ")", "a", "=", "1", ",", "~", " "}}
    [] Alpha = "elem" -> {S(x) : x \in {"a", " ", "=1", "{", "}", "~", "\"l\"", "/**/", "#~", "b=1~", "//"}}
Parsers ==
  CASE Alpha = "ws" -> << "inline_comment", "hash_comment", "slash_comment", "line_comment", "inline_whitespace", "whitespace", "newline", "object_separator" >>
    [] Alpha = "tok" -> << "identifier", "null", "boolean", "number", "string", "string_literal", "expression", "block_label", "block_labels", "object_element_identifier" >>
    [] Alpha = "hd" -> << "heredoc_begin", "heredoc_string", "string", "expression", "string_literal" >>
    [] Alpha = "coll" -> << "tuple", "object", "bracket_expression", "expression", "object_element_identifier", "object_element", "object_body", "object_separator" >>
    [] Alpha = "elem" -> << "attribute", "block_labels", "one_line_block_body", "one_line_block", "block", "body_element", "body", "newline" >>
Init == t = << >> /\ k = 0 /\ out = << >>
Next == /\ k < MaxK
        /\ \E c \in Chunks :
             /\ t' = t \o c
             /\ k' = k + 1
             /\ out' = [i \in 1 .. Len(Parsers) |-> << Parsers[i], Verdict(Parsers[i], t') >>]
Spec == Init /\ [][Next]_<< t, k, out >>
Emit == (Out /\ out # << >>) => PrintT(ToJson([op |-> "sub", t |-> t, xs |-> out]))
(* consumed text is a prefix, and the two formulations agree                 *)
Prefix == \A i \in 1 .. Len(out) : out[i][2].r = "ok" => out[i][2].n \in 0 .. Len(t)
Agree == BodyIsReader(t) /\ (Alpha \in {"coll", "ws"} => ObjectIsReader(t))
=============================================================================
