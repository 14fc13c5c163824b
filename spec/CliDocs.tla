------------------------------- MODULE CliDocs -------------------------------
(* The documents given to the command line tool, with what each of them is   *)
(* as a value tree, unmerged and merged, by the byte-stream and the reader   *)
(* machines and the merge.                                                   *)
EXTENDS Sources
RECURSIVE RepT(_, _)
RepT(t, n) == IF n = 0 THEN << >> ELSE IF n = 1 THEN t ELSE LET h == RepT(t, n \div 2) IN IF n % 2 = 0 THEN h \o h ELSE h \o h \o t
Docs == << << >>,
           S("a = 1~b = \"x\"~"),
           S("a=1~a=2~"),
           S("b \"x\" {~c=1~}~b \"y\" {~}~"),
           S("n {~a=1~}~n {~a=2~}~"),
           S("a = ~"),
           S("a=1~}~"),
           << 97, 61, 34, 255, 34 >>,
           << 97, 61, 34, 120, 34, 10, 195 >>,
           S("a=1^~b=[1,^~2]^~"),
           S("a=\"") \o << 195, 169, 226, 130, 172, 240, 159, 152, 128, 204, 129 >> \o S("\\n\\t\\\\\\\"\\r\\u0301\\x00\\x7f\\u200b'`{}(),:~x\""),
           S("# c~/* d~*/~"),
           RepT(S("n {~a=1~}~"), 1200),
           << 239, 187, 191 >> \o S("a=1~"),
           S("a=1~") \o << 0 >>,
           S("a=-5~b=1.5e300~c=null~d=[true,[],\"s\",{}]~e={f=0.1~g=-0.0~}~h=99999999999999999999~i=1e0~j=100000.25~k=1e-7~l=123456789012345680000~"),
           S("b \"x\" {~c=1~c=2~}~"),
           S("b \"x\" {~}~b \"x\" {~}~"),
           S("a=1~\"a\"=2~"),
           S("a=1"),
           S("a=1~b"),
           S("b \"x\" \"y\" {~c \"z\" {~d {~e={~}~}~}~}~b \"x\" {~}~"),
           S("a=1~b \"x\" {~}~b {~}~"),
           S("b {~}~b=1~"),
           S("a=<<E~t~  u~E~b=<<-E~ v~  E~"),
           RepT(S("x=\"") \o RepT(S("0123456789"), 300) \o S("\"~"), 7),
           S("a={~\"b c\"=1~d=2~}~a={~e=3~}~") >>
VARIABLES i, res
Init == i \in 1 .. Len(Docs) /\ res = << >>
Next == res = << >> /\ (LET d == Docs[i] IN res' = << d, FromBytes("val", d), FromBytes("mrg", d) >>) /\ UNCHANGED i
Spec == Init /\ [][Next]_<< i, res >>
(* what can be merged can be read                                            *)
Both == res # << >> => (res[3].r = "ok" => res[2].r = "ok")
Emit == res # << >> => PrintT(ToJson([op |-> "doc", i |-> i, b |-> res[1], u |-> res[2], m |-> res[3]]))
=============================================================================
