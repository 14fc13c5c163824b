------------------------------- MODULE Sources ------------------------------
(* Where texts come from: bytes are delivered by a source in pieces, decoded *)
(* as UTF-8 by an automaton, and only a whole, well-formed text is read.     *)
EXTENDS HclReader, HclMerge, Text, Json

(* ------------------------------------------------------------------- UTF-8 *)
Utf0 == [need |-> 0, lo |-> 128, hi |-> 191, val |-> 0, bad |-> FALSE, out |-> << >>]
BadU(u) == [u EXCEPT !.bad = TRUE, !.need = 0]
Lead2(u, n, v, lo, hi) == [u EXCEPT !.need = n, !.val = v, !.lo = lo, !.hi = hi]
UtfStep(u, b) ==
  IF u.bad THEN u
  ELSE IF u.need > 0
  THEN IF b < u.lo \/ b > u.hi THEN BadU(u)
       ELSE LET v == u.val * 64 + (b - 128)
            IN IF u.need = 1 THEN [u EXCEPT !.need = 0, !.val = 0, !.lo = 128, !.hi = 191, !.out = Append(@, v)]
               ELSE [u EXCEPT !.need = @ - 1, !.val = v, !.lo = 128, !.hi = 191]
  ELSE CASE b < 128 -> [u EXCEPT !.out = Append(@, b)]
         [] b >= 194 /\ b <= 223 -> Lead2(u, 1, b - 192, 128, 191)
         [] b = 224 -> Lead2(u, 2, 0, 160, 191)
         [] b = 237 -> Lead2(u, 2, 13, 128, 159)
         [] b >= 225 /\ b <= 239 -> Lead2(u, 2, b - 224, 128, 191)
         [] b = 240 -> Lead2(u, 3, 0, 144, 191)
         [] b >= 241 /\ b <= 243 -> Lead2(u, 3, b - 240, 128, 191)
         [] b = 244 -> Lead2(u, 3, 4, 128, 143)
         [] OTHER -> BadU(u)
Utf(u, bs) == FoldLeft(UtfStep, u, bs)
WellFormed(u) == ~u.bad /\ u.need = 0

(* encoding, to check the automaton against                                  *)
Enc(c) == IF c < 128 THEN << c >>
          ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
          ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
          ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
RECURSIVE EncAll(_, _)
EncAll(t, i) == IF i > Len(t) THEN << >> ELSE Enc(t[i]) \o EncAll(t, i + 1)

(* ------------------------------------------------------------ whole texts  *)
Entry(g, t) ==
  CASE g = "hcl" -> ReadConfig(t)
    [] g = "val" -> ReadValue(t)
    [] g = "mrg" -> LET u == ReadValue(t) IN
                    IF u.r = "ok" THEN LET k == MergeMap(u.v) IN IF k.ok THEN [r |-> "ok", v |-> k.v] ELSE Reject
                    ELSE u
FromBytes(g, bs) == LET u == Utf(Utf0, bs) IN IF WellFormed(u) THEN Entry(g, u.out) ELSE Reject

(* ------------------------------------------------------------- the reader  *)
(* events: a number n > 0 delivers up to n bytes, 0 is a retryable           *)
(* interruption, -1 a failure, -2 an early end; after the events the rest is *)
(* delivered and then the end                                                *)
RECURSIVE Deliver(_, _, _, _)
Deliver(bs, ev, i, u) ==   \* i events done; bs what is left
  IF i > Len(ev) THEN [fail |-> FALSE, u |-> Utf(u, bs)]
  ELSE CASE ev[i] = 0 -> Deliver(bs, ev, i + 1, u)
         [] ev[i] = -1 -> [fail |-> TRUE, u |-> u]
         [] ev[i] = -2 -> [fail |-> FALSE, u |-> u]
         [] bs = << >> -> [fail |-> FALSE, u |-> u]       \* a delivery of nothing is the end
         [] OTHER -> LET n == IF ev[i] < Len(bs) THEN ev[i] ELSE Len(bs)
                     IN Deliver(SubSeq(bs, n + 1, Len(bs)), ev, i + 1, Utf(u, SubSeq(bs, 1, n)))
FromReader(g, bs, ev) ==
  LET d == Deliver(bs, ev, 1, Utf0)
  IN IF d.fail \/ ~WellFormed(d.u) THEN Reject ELSE Entry(g, d.u.out)
=============================================================================
