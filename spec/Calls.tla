-------------------------------- MODULE Calls -------------------------------
(* Calls of several threads.  A thread makes one call after the other; a     *)
(* call that reads from a source ends only after its source has delivered    *)
(* everything (or failed), and the other threads go on in between.  What a   *)
(* call returns depends on its own source alone.                             *)
EXTENDS Sources, HclGen

CONSTANTS Alpha, MaxC, MaxE, Threads, Lo, Hi

Docs == << S("a=1~"), S("b=2~"), S("a=1~a=2~"), S("a=~"), << 97, 61, 34, 195, 169, 34, 10 >>, << 97, 61, 34, 195, 34, 10 >>, S("a {~}~"), S("a \"x\" {b=[1,2],}~"), << >>,
           S("a=<<E~x~E~"), S("a \"x\" {~b=1~}~a \"x\" {~}~"), S("a=\"\\U110000\"~") >>
(* other documents: a few lines                                              *)
Lines == << S("a=1~"), S("a=2~"), S("b=1~"), S("b=\"x\"~"), S("b=\"y\"~"), S("a \"x\" {~"), S("a \"y\" {~"), S("}~"), S("}~"), S("c=[1,2]~"), S("c=[1,3]~"), S("d=12~"), S("d=21~"), S("e {b=1}~"), S("a=~"), << 101, 61, 34, 195, 169, 34, 10 >>, << 101, 61, 34, 195, 170, 34, 10 >>, S("#a~"), S("e=<<E~x~E~") >>
RECURSIVE Doc(_, _)
Doc(z, n) == IF n = 0 THEN << >> ELSE Pick(Mix(z, n), Lines) \o Doc(z, n - 1)
(* what can be called: entry, document, how the text is given                *)
Menu == CASE Alpha = "two" -> << << "hcl", 1, "rd" >>, << "hcl", 5, "rd" >>, << "mrg", 3, "rd" >>, << "val", 1, "rd" >> >>
          [] Alpha = "hist" -> << << "hcl", 1, "rd" >>, << "hcl", 2, "rd" >>, << "mrg", 3, "rd" >>, << "val", 3, "rd" >>, << "hcl", 6, "rd" >>, << "val", 9, "rd" >>, << "hcl", 3, "st" >>, << "mrg", 2, "st" >>, << "val", 3, "sl" >> >>
          [] OTHER -> << >>

VARIABLES calls, sch, seed
vars == << calls, sch, seed >>
Idle(th) == \A i \in 1 .. Len(calls) : calls[i].th = th => calls[i].done
Result(g, u) == IF WellFormed(u) THEN Entry(g, u.out) ELSE Reject
Open(th, g, t, how) ==
  /\ Len(calls) < MaxC /\ Idle(th)
  /\ sch' = Append(sch, << "open", th, g, how, t >>)
  /\ calls' = Append(calls, IF how = "rd" THEN [th |-> th, g |-> g, t |-> t, left |-> t, u |-> Utf0, ev |-> << >>, done |-> FALSE, x |-> << >>]
                            ELSE [th |-> th, g |-> g, t |-> t, left |-> << >>, u |-> Utf0, ev |-> << 99 >>, done |-> TRUE, x |-> FromBytes(g, t)])
(* the source of call i: 99 delivers the rest and ends, -2 ends at once,     *)
(* -1 fails, 0 asks to try again                                             *)
Feed(i, e) ==
  LET c == calls[i]
      n == IF e > 0 /\ e < Len(c.left) THEN e ELSE Len(c.left)
      u == IF e > 0 THEN Utf(c.u, SubSeq(c.left, 1, n)) ELSE c.u
      end == e \in {99, -1, -2}
  IN /\ ~c.done /\ (e \in 1 .. 98 => c.left # << >>)
     /\ sch' = Append(sch, << "ev", i, e >>)
     /\ calls' = [calls EXCEPT ![i] = [c EXCEPT !.left = IF e > 0 THEN SubSeq(@, n + 1, Len(@)) ELSE @, !.u = u, !.ev = Append(@, e), !.done = end,
                                                !.x = IF ~end THEN @ ELSE IF e = -1 THEN Reject ELSE Result(c.g, u)]]
Used == {calls[i].th : i \in 1 .. Len(calls)}
Exh ==
  /\ UNCHANGED seed
  /\ \/ \E th \in {th \in 1 .. Threads : th = 1 \/ th - 1 \in Used} : \E m \in 1 .. Len(Menu) : Open(th, Menu[m][1], Docs[Menu[m][2]], Menu[m][3])
     \/ \E i \in 1 .. Len(calls) : \E e \in {99, -1, -2} : Feed(i, e)
     \/ \E i \in 1 .. Len(calls) : \E e \in {2, 0} : Len(calls[i].ev) < MaxE /\ Feed(i, e)
Hows == << "rd", "rd", "rd", "st", "sl" >>
Rand ==
  /\ seed' = Mix(seed, 9)
  /\ LET th == Val(Mix(seed, 1), Threads)
         is == {i \in 1 .. Len(calls) : calls[i].th = th /\ ~calls[i].done}
         e == Pick(Mix(seed, 2), << 1, 2, 3, 5, 0, 99, 99, -1, -2 >>)
         t == IF Val(Mix(seed, 6), 3) = 1 THEN Pick(Mix(seed, 4), Docs) ELSE Doc(Mix(seed, 4), Val(Mix(seed, 7), 5))
         how == Pick(Mix(seed, 5), Hows)
     IN IF is = {} THEN IF Len(calls) < MaxC THEN Open(th, Pick(Mix(seed, 3), << "hcl", "val", "mrg" >>), t, how) ELSE UNCHANGED << calls, sch >>
        ELSE LET i == CHOOSE i \in is : TRUE IN Feed(i, IF e > 0 /\ calls[i].left = << >> THEN 99 ELSE e)
AllDone == Len(calls) = MaxC /\ \A i \in 1 .. Len(calls) : calls[i].done
Init == calls = << >> /\ sch = << >> /\ IF Alpha = "rand" THEN \E i \in Lo .. Hi : seed = Seed(i) ELSE seed = << 0, 0, 0 >>
Next == ~AllDone /\ IF Alpha = "rand" THEN Rand ELSE Exh
Spec == Init /\ [][Next]_vars

(* the result of a call is what it would be on its own                       *)
Alone(c) == LET ev == IF c.ev[Len(c.ev)] = 99 THEN SubSeq(c.ev, 1, Len(c.ev) - 1) ELSE c.ev IN FromReader(c.g, c.t, ev)
Independent == \A i \in 1 .. Len(calls) : calls[i].done => calls[i].x = Alone(calls[i])
(* one call of a thread at a time                                            *)
OneEach == \A i, j \in 1 .. Len(calls) : i < j /\ calls[i].th = calls[j].th => calls[i].done
Emit == AllDone => PrintT(ToJson([op |-> "calls", n |-> Threads, sch |-> sch, x |-> [r |-> "ok", v |-> [i \in 1 .. Len(calls) |-> calls[i].x]]]))
=============================================================================
