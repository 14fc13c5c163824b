------------------------------ MODULE SourceGen -----------------------------
(* Byte texts and schedules of a source.  A text grows byte by byte, then a  *)
(* source delivers it in some schedule of pieces, interruptions, failures    *)
(* and early ends.                                                           *)
EXTENDS Sources
CONSTANTS Alpha, G, MaxK, MaxE

VARIABLES bs, k, ph, left, u, ev, end
vars == << bs, k, ph, left, u, ev, end >>

Tokens == CASE Alpha = "utf" -> {<< 65 >>, << 128 >>, << 143 >>, << 144 >>, << 191 >>, << 195 >>, << 192 >>, << 193 >>, << 224 >>, << 160 >>, << 237 >>, << 240 >>, << 244 >>, << 245 >>, << 226, 130, 172 >>}
            [] Alpha = "doc" -> {S("a=1"), S("~"), S("b{}"), << 195 >>, << 169 >>, S("\""), S("a=\""), << 255 >>, << 239, 187, 191 >>, << 0 >>, << 194, 133 >>, << 194, 160 >>, S("^~"), S(" ")}
            [] Alpha = "line" -> {S("a=1~"), S("b {~"), S("}~"), << 195, 169 >>, << 233 >>, << 237, 160, 128 >>, S("# "), S("~"), S("^")}
            [] Alpha = "long" -> {<< 226, 130, 172 >>, << 240, 159, 152, 128 >>, << 255 >>, S("~a=1"), S("\"")}
Prefix == CASE Alpha = "utf" -> S("a=\"") [] OTHER -> << >>
Suffix == CASE Alpha = "utf" -> S("\"") [] OTHER -> << >>

(* for long texts, a first line that ends about where buffers may end        *)
Starts == IF Alpha = "long" THEN {[i \in 1 .. n |-> 35] : n \in {4095, 8191, 8192}} ELSE {Prefix}
Init == bs \in Starts /\ k = 0 /\ ph = "grow" /\ left = << >> /\ u = Utf0 /\ ev = << >> /\ end = FALSE
Grow == /\ ph = "grow" /\ k < MaxK
        /\ \E c \in Tokens : bs' = bs \o c
        /\ k' = k + 1 /\ UNCHANGED << ph, left, u, ev, end >>
Open == /\ ph = "grow"
        /\ bs' = bs \o Suffix /\ left' = bs \o Suffix /\ ph' = "deliver"
        /\ UNCHANGED << k, u, ev, end >>
Piece(n) == /\ ph = "deliver" /\ Len(ev) < MaxE /\ n <= Len(left)
            /\ u' = Utf(u, SubSeq(left, 1, n)) /\ left' = SubSeq(left, n + 1, Len(left))
            /\ ev' = Append(ev, n) /\ UNCHANGED << bs, k, ph, end >>
Interrupt == /\ ph = "deliver" /\ Len(ev) < MaxE /\ ev' = Append(ev, 0) /\ UNCHANGED << bs, k, ph, left, u, end >>
Fail == /\ ph = "deliver" /\ ph' = "failed" /\ ev' = Append(ev, -1) /\ UNCHANGED << bs, k, left, u, end >>
Stop == /\ ph = "deliver" /\ ph' = "ended" /\ ev' = Append(ev, -2) /\ UNCHANGED << bs, k, left, u, end >>
Rest == /\ ph = "deliver" /\ ph' = "ended" /\ u' = Utf(u, left) /\ left' = << >> /\ end' = TRUE
        /\ UNCHANGED << bs, k, ev >>
Sizes == IF Alpha = "long" THEN {4096, 8192} ELSE {1, 2, 3, 5}
Next == Grow \/ Open \/ Interrupt \/ Fail \/ Stop \/ Rest \/ \E n \in Sizes : Piece(n)
Spec == Init /\ [][Next]_vars

Outcome == IF ph = "failed" \/ ~WellFormed(u) THEN Reject ELSE Entry(G, u.out)
Over == ph \in {"ended", "failed"}
(* the schedule does not matter: only what has been delivered does           *)
Chunking == /\ u = Utf(Utf0, IF ph = "grow" THEN << >> ELSE SubSeq(bs, 1, Len(bs) - Len(left)))
            /\ Over => Outcome = FromReader(G, bs, ev)
            /\ ph = "ended" /\ end => Outcome = FromBytes(G, bs)
(* what is accepted is the encoding of what is read                          *)
Encoding == WellFormed(u) /\ ph # "grow" => EncAll(u.out, 1) = SubSeq(bs, 1, Len(bs) - Len(left))
Emit == Over => PrintT(ToJson([op |-> "source", g |-> G, b |-> bs, ev |-> ev, x |-> [rd |-> Outcome, sl |-> FromBytes(G, bs)]]))
=============================================================================
