------------------------------- MODULE ErrConv ------------------------------
(* Errors of parsers, converted.  A parser's error is recoverable or not and *)
(* has one entry, or a list of them, innermost first: where it happened and  *)
(* what kind it is.  The parsers that enclose the first one add their own    *)
(* entries; converting keeps all of them, and an escape that names no        *)
(* character stays known as one.                                             *)
EXTENDS HclChars, TLC, Json
CONSTANTS MaxN
Texts == << << >>, << 92, 117, 123 >>, << 233, 32, 120 >>, << 34 >> >>
Kinds == {"esc", "tag", "alt", "many", "other"}
Classes == {"recoverable", "final"}
VARIABLES cls, lst, entries, done
vars == << cls, lst, entries, done >>
Init == cls \in Classes /\ lst \in BOOLEAN /\ entries = << >> /\ done = FALSE
Fail(k, t) == /\ ~done /\ entries = << >> /\ entries' = << << k, t >> >> /\ UNCHANGED << cls, lst, done >>
Enclose(k, t) == /\ ~done /\ lst /\ entries # << >> /\ Len(entries) < MaxN
                 /\ entries' = Append(entries, << k, t >>) /\ UNCHANGED << cls, lst, done >>
Stop == ~done /\ entries # << >> /\ done' = TRUE /\ UNCHANGED << cls, lst, entries >>
Next == Stop \/ \E k \in Kinds, i \in 1 .. Len(Texts) : Fail(k, Texts[i]) \/ Enclose(k, Texts[i])
Spec == Init /\ [][Next]_vars
Generic == << "syntax" >>
Named(e) == IF e[1] = "esc" THEN {<< "escape", e[2] >>} ELSE {Generic}
Escapes == {i \in 1 .. Len(entries) : entries[i][1] = "esc"}
(* converted as a whole; a code of somebody else's may count as the cause    *)
Foreign == \E i \in 1 .. Len(entries) : entries[i][1] = "other"
One == IF Escapes = {} THEN {Generic}
       ELSE UNION {Named(entries[i]) : i \in Escapes} \cup (IF cls = "final" /\ ~Foreign THEN {} ELSE {Generic})
(* adding entries on the outside never hides a cause                         *)
Kept == [][Escapes \subseteq Escapes']_vars
Emit == done => PrintT(ToJson([op |-> "errconv", cls |-> cls, lst |-> lst, e |-> entries,
                               x |-> [r |-> "ok", cls |-> cls, one |-> One, list |-> [i \in 1 .. Len(entries) |-> Named(entries[i])]]]))
=============================================================================
