------------------------------ MODULE TakeTill ------------------------------
(* Searching a text for the first place where a parser matches, over every   *)
(* kind of input: characters or bytes, complete or part of a stream.         *)
(* A scan: the place moves right by one character (byte) until one of the    *)
(* needles, tried in order, begins there; or it reaches the end.             *)
EXTENDS Integers, Sequences, SequencesExt, Json, TLC

CONSTANTS Alpha, MaxK, Pads

(* characters as sequences of bytes                                          *)
Chars == CASE Alpha = "ascii" -> << << 97 >>, << 98 >>, << 99 >>, << 10 >> >>
           [] Alpha = "uni" -> << << 97 >>, << 98 >>, << 195, 169 >>, << 226, 130, 172 >>, << 240, 159, 152, 128 >>, << 0 >> >>
           [] Alpha = "odd" -> << << 97 >>, << 195, 169 >>, << 239, 187, 191 >>, << 226, 128, 168 >>, << 204, 129 >>, << 194, 133 >>, << 13 >>, << 32 >>, << 239, 191, 191 >> >>
(* a run of a letter that no needle has, of one of the lengths in Pads,      *)
(* stands before the text                                                    *)
PadUnit == << 120 >>
(* needles of the parsers that are searched with; in terms of bytes          *)
Parsers == << [n |-> "a", ns |-> << << 97 >> >>],
              [n |-> "ab", ns |-> << << 97, 98 >> >>],
              [n |-> "ba|b", ns |-> << << 98, 97 >>, << 98 >> >>],
              [n |-> "b|ba", ns |-> << << 98 >>, << 98, 97 >> >>],
              [n |-> "e", ns |-> << << 195, 169 >> >>],
              [n |-> "ea|U", ns |-> << << 195, 169, 97 >>, << 240, 159, 152, 128 >> >>],
              [n |-> "aab", ns |-> << << 97, 97, 98 >> >>] >>

VARIABLES pad, cs, k, ph, whole, p, at, res
(* cs: the characters; whole: nothing can follow them; p: the parser;        *)
(* at: the place of the scan, in units; it goes over the run before the text  *)
(* in one step, as nothing can match there                                   *)
vars == << pad, cs, k, ph, whole, p, at, res >>
RECURSIVE Flat(_, _)
Flat(s, i) == IF i > Len(s) THEN << >> ELSE s[i] \o Flat(s, i + 1)
Bytes(s) == Flat(s, 1)
Wide == ph = "chars"        \* the units of the scan are characters
Units == IF Wide THEN cs ELSE [i \in 1 .. Len(Bytes(cs)) |-> << Bytes(cs)[i] >>]
Begins(t, n) == Len(n) <= Len(t) /\ SubSeq(t, 1, Len(n)) = n
From(i) == Bytes(SubSeq(Units, i, Len(Units)))
Until(i) == Bytes(SubSeq(Units, 1, i - 1))
(* where more may follow, a needle that the text ends in the middle of       *)
(* leaves it open whether it matches; that is not a match yet                *)
Open(t, n) == ~whole /\ Len(t) < Len(n) /\ Begins(n, t)
RECURSIVE FirstOf(_, _, _)
FirstOf(t, ns, j) == IF j > Len(ns) \/ Open(t, ns[j]) THEN << >> ELSE IF Begins(t, ns[j]) THEN ns[j] ELSE FirstOf(t, ns, j + 1)
Run == [i \in 1 .. pad |-> PadUnit[1]]
NoneInRun == \A q \in 1 .. Len(Parsers) : \A j \in 1 .. Len(Parsers[q].ns) : ~Contains(Parsers[q].ns[j], PadUnit[1])

Init == pad \in Pads /\ cs = << >> /\ k = 0 /\ ph = "grow" /\ whole = TRUE /\ p = 1 /\ at = 1 /\ res = << >>
Grow == /\ ph = "grow" /\ k < MaxK /\ \E i \in 1 .. Len(Chars) : cs' = Append(cs, Chars[i])
        /\ k' = k + 1 /\ UNCHANGED << pad, ph, whole, p, at, res >>
Begin == /\ ph = "grow" /\ ph' \in {"chars", "bytes"} /\ whole' \in BOOLEAN /\ p' \in 1 .. Len(Parsers) /\ UNCHANGED << pad, cs, k, at, res >>
Scan == /\ ph \in {"chars", "bytes"} /\ res = << >>
        /\ IF at > Len(Units) THEN res' = << "none" >> /\ UNCHANGED at
           ELSE LET m == FirstOf(From(at), Parsers[p].ns, 1) IN
                IF m = << >> THEN at' = at + 1 /\ UNCHANGED res
                ELSE res' = << "ok", Until(at), m, SubSeq(From(at), Len(m) + 1, Len(From(at))) >> /\ UNCHANGED at
        /\ UNCHANGED << pad, cs, k, ph, whole, p >>
Next == Grow \/ Begin \/ Scan
Spec == Init /\ [][Next]_vars
Over == res # << >>
(* nothing is lost, and there is no match further left                       *)
Whole == Over /\ res[1] = "ok" =>
           /\ res[2] \o res[3] \o res[4] = Bytes(cs)
           /\ \A i \in 1 .. Len(res[2]) : FirstOf(SubSeq(Bytes(cs), i, Len(Bytes(cs))), Parsers[p].ns, 1) = << >>
(* characters and bytes agree, as no needle begins inside a character        *)
Alike == Over /\ res[1] = "none" => \A i \in 1 .. Len(Bytes(cs)) : FirstOf(SubSeq(Bytes(cs), i, Len(Bytes(cs))), Parsers[p].ns, 1) = << >>
RECURSIVE Places(_, _)
Places(i, n) == IF i > Len(Units) THEN << >> ELSE << n >> \o Places(i + 1, n + Len(Units[i]))
Emit == Over => PrintT(ToJson([op |-> "till", k |-> ph, p |-> Parsers[p].n, b |-> Run \o Bytes(cs),
                               x |-> [r |-> "ok", w |-> whole, v |-> IF res[1] = "ok" THEN [res EXCEPT ![2] = Run \o @] ELSE res,
                                      ix |-> [i \in 1 .. pad |-> i - 1] \o Places(1, pad)]]))
=============================================================================
