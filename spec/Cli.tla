--------------------------------- MODULE Cli ---------------------------------
(* The command line tool as a machine over files: a run reads its input,     *)
(* reads it as a value tree (merged unless told otherwise) and only then     *)
(* replaces its output.  Content is << "doc", i >> (a document) or           *)
(* << "out", i, nomerge >> (what is printed for it).                         *)
EXTENDS HclGen, Json, TLC

CONSTANTS What, Lo, Hi, MaxK, NDocs, OkU, OkM

(* documents are numbered; module CliDocs says which of them are value trees *)
(* (OkU) and which can be merged (OkM)                                       *)
Good1 == 2  Dup == 3  Bad1 == 6  Long == 13

Names == << "f", "g", "h" >>
VARIABLES fs, hist, k, who, fs0
vars == << fs, hist, k, who, fs0 >>

(* ------------------------------------------------------------------- files *)
No == << "no", << >> >>
File(d) == << "file", << "doc", d >> >>
RECURSIVE Final(_, _, _)
Final(f, n, fuel) == IF fuel = 0 THEN "loop" ELSE IF f[n][1] = "link" THEN Final(f, f[n][2], fuel - 1) ELSE n
(* the name at the end of the links                                          *)
End(f, n) == Final(f, n, 5)
IsName(n) == \E i \in 1 .. 3 : Names[i] = n
Readable(f, n) == IsName(n) /\ End(f, n) # "loop" /\ f[End(f, n)][1] \in {"file", "ro"}
Writable(f, n) == IsName(n) /\ End(f, n) # "loop" /\ f[End(f, n)][1] \in {"no", "file", "wo"}
Kept(kind) == IF kind = "no" THEN "file" ELSE kind

(* a run: input, output, no merging, document on standard input (0: not      *)
(* readable), standard output, spelling of the command                       *)
ToStd(o) == o \in {"", "-"}
Content(f, r) == IF ToStd(r.i) THEN (IF r.sin = 0 THEN << "none" >> ELSE << "doc", r.sin >>)
                 ELSE IF Readable(f, r.i) THEN f[End(f, r.i)][2] ELSE << "none" >>
Accepts(f, r) == LET c == Content(f, r) IN c[1] = "doc" /\ c[2] \in (IF r.nm THEN OkU ELSE OkM)
Outcome1(f, r) ==
  IF ~Accepts(f, r) THEN [fs |-> f, ok |-> FALSE, so |-> << "message" >>]
  ELSE LET out == << "out", Content(f, r)[2], r.nm >> IN
       IF ToStd(r.o) THEN IF r.sout = "pipe" THEN [fs |-> f, ok |-> TRUE, so |-> out] ELSE [fs |-> f, ok |-> FALSE, so |-> << "lost" >>]
       ELSE IF Writable(f, r.o) THEN LET e == End(f, r.o) IN [fs |-> [f EXCEPT ![e] = << Kept(@[1]), out >>], ok |-> TRUE, so |-> << "nothing" >>]
       ELSE [fs |-> f, ok |-> FALSE, so |-> << "message" >>]
Run1(i, o, nm, sin, sout, form) == [i |-> i, o |-> o, nm |-> nm, sin |-> sin, sout |-> sout, form |-> form]

DoRun(r) == LET x == Outcome1(fs, r) IN
            /\ fs' = x.fs
            /\ hist' = Append(hist, [do |-> "run", r |-> r, ok |-> x.ok, so |-> x.so, fs |-> x.fs])
(* the surroundings change a file                                            *)
Put(n, node) == /\ fs' = [fs EXCEPT ![n] = node]
                /\ hist' = Append(hist, [do |-> "put", n |-> n, node |-> node])
(* a command line that is none: nothing happens                              *)
Usage(u) == /\ hist' = Append(hist, [do |-> "usage", u |-> u, fs |-> fs])
            /\ UNCHANGED fs

Empty == [f |-> No, g |-> No, h |-> No]
Kinds(d) == {No, File(d), << "ro", << "doc", d >> >>, << "lock", << "doc", d >> >>, << "wo", << "doc", d >> >>, << "dir", << >> >>}
Places == {"-", "f", "g", "h", "x/y"}
Targets == Places \cup {"sealed/new", "/dev/full"}
One == MaxK = 1

(* ------------------------------------------------------------ exploration  *)
Init == /\ hist = << >> /\ k = 0
        /\ CASE What = "docs" -> who = 0 /\ \E d \in 1 .. NDocs : fs = [f |-> File(d), g |-> File(Long), h |-> No]
             [] What = "kinds" -> who = 0 /\ \E d \in {Good1, Dup, Bad1} : \E a \in Kinds(d), b \in Kinds(Long) \cup {<< "link", "f" >>, << "link", "h" >>, << "link", "g" >>} :
                                     fs = [f |-> a, g |-> b, h |-> No]
             [] What = "walk" -> fs = Empty /\ who \in Lo .. Hi
             [] OTHER -> who = 0 /\ fs = [f |-> File(Good1), g |-> No, h |-> No]
        /\ fs0 = fs
DocRuns == {Run1(i, o, nm, sin, so, fm) : i \in {"f"}, o \in {"", "-", "g", "h", "f"}, nm \in BOOLEAN, sin \in {Bad1}, so \in {"pipe"}, fm \in {1, 2}}
             \cup {Run1("f", "-", FALSE, Bad1, so, 1) : so \in {"full", "closed"}}
             \cup {Run1(i, o, nm, fs.f[2][2], "pipe", fm) : i \in {"-"}, o \in {"", "-", "g", "h"}, nm \in BOOLEAN, fm \in {1, 3}}
             \cup {Run1("", "", nm, fs.f[2][2], so, 1) : nm \in BOOLEAN, so \in {"pipe", "full", "closed"}}
KindRuns == {Run1(i, o, FALSE, Good1, "pipe", 1) : i \in Places, o \in Targets}
              \cup {Run1("-", o, TRUE, 0, "pipe", 1) : o \in Targets} \cup {Run1("", "", FALSE, 0, "pipe", 1)}
(* pseudo-random histories                                                   *)
RNode(s) == LET d == Val(Mix(s, 2), NDocs)  j == Val(Mix(s, 3), 14) IN
            CASE j <= 7 -> File(d) [] j = 8 -> No [] j = 9 -> << "link", Pick(Mix(s, 4), Names) >> [] j = 10 -> << "dir", << >> >> [] j = 11 -> << "ro", << "doc", d >> >>
              [] j = 12 -> << "wo", << "doc", d >> >> [] j = 13 -> << "lock", << "doc", d >> >> [] OTHER -> << "link", Pick(Mix(s, 4), Names) >>
RRun(s) == LET std == Val(Mix(s, 1), 5) = 1 IN
           Run1(IF std THEN "" ELSE Pick(Mix(s, 2), << "-", "f", "g", "h", "f", "g", "h", "x/y" >>),
                IF std THEN "" ELSE Pick(Mix(s, 3), << "", "-", "f", "g", "h", "f", "g", "h", "g", "x/y", "sealed/new", "/dev/full" >>),
                Val(Mix(s, 4), 2) = 1, IF Val(Mix(s, 8), 12) = 1 THEN 0 ELSE Val(Mix(s, 5), NDocs), Pick(Mix(s, 6), << "pipe", "pipe", "pipe", "pipe", "pipe", "full", "closed" >>), Val(Mix(s, 7), 4))
WalkStep == LET s == Mix(Seed(who), 40 + k) IN
            CASE Val(Mix(s, 1), 9) <= 3 -> Put(Pick(Mix(s, 9), Names), RNode(s))
              [] Val(Mix(s, 1), 9) = 9 -> Usage(Val(Mix(s, 2), 9))
              [] OTHER -> DoRun(RRun(s))
Next == /\ k < MaxK /\ k' = k + 1 /\ UNCHANGED << who, fs0 >>
        /\ CASE What = "docs" -> \E r \in DocRuns : DoRun(r)
             [] What = "kinds" -> \E r \in KindRuns : DoRun(r)
             [] What = "walk" -> WalkStep
             [] OTHER -> \E u \in 1 .. 9 : Usage(u)
Spec == Init /\ [][Next]_vars

(* ------------------------------------------------- properties of the model *)
(* only the output changes, and only when the input was accepted             *)
Latest == hist[Len(hist)]
Ran == hist # << >> /\ Latest.do = "run"
OnlyOutput == [][(hist' # hist /\ hist'[Len(hist')].do = "run") =>
                  LET r == hist'[Len(hist')].r IN
                  /\ \A i \in 1 .. 3 : fs'[Names[i]] # fs[Names[i]] => /\ IsName(r.o) /\ End(fs, r.o) = Names[i] /\ Accepts(fs, r)
                  /\ (IsName(r.i) /\ (~IsName(r.o) \/ End(fs, r.i) # End(fs, r.o))) => (\A i \in 1 .. 3 : Names[i] = End(fs, r.i) => fs'[Names[i]] = fs[Names[i]])
                  /\ hist'[Len(hist')].ok = (Accepts(fs, r) /\ (IF ToStd(r.o) THEN r.sout = "pipe" ELSE Writable(fs, r.o)))]_vars
(* what is in a named output after success is what was printed for the input *)
Replaced == (Ran /\ Latest.ok /\ ~ToStd(Latest.r.o)) => fs[End(fs, Latest.r.o)][2][1] = "out" /\ fs[End(fs, Latest.r.o)][2][3] = Latest.r.nm
Emit == (k > 0 /\ (k = MaxK \/ What # "walk")) => PrintT(ToJson([op |-> "cli", w |-> What, init |-> fs0, h |-> hist]))
=============================================================================
