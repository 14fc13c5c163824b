-------------------------------- MODULE Text --------------------------------
(* Literal texts for specifications: strings to sequences of code points.    *)
(* In literals ~ stands for a line feed, ^ for a carriage return, ` for TAB. *)
EXTENDS Integers, Sequences

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [ch \in {SubSeq(Ascii, i, i) : i \in 1 .. 95} |->
             IF ch = "~" THEN 10 ELSE IF ch = "^" THEN 13 ELSE IF ch = "`" THEN 9
             ELSE CHOOSE k \in 32 .. 126 : SubSeq(Ascii, k - 31, k - 31) = ch]
S(str) == [i \in 1 .. Len(str) |-> CodeOf[SubSeq(str, i, i)]]
RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))
=============================================================================
