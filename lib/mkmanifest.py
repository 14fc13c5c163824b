#!/usr/bin/env python3
"""Writes MANIFEST.json from this table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "TLA+ specification checked with TLC, bound to the code by "
T = {
 "C01": ("one-character reader machine; every enumerated text and generated document is executed on the code, corrupted documents are validated as traces",
         "Trees are compared element by element for every text of up to k chunks of four alphabets and for generated documents with up to 8 elements; larger documents are sampled."),
 "C02": ("acceptance of the reader machine against the code on enumerated texts, and TLC validation of outcomes recorded on corrupted documents",
         "Every short text over six alphabets is decided; long texts are corruptions of generated documents and fixtures. The grammar in the specification is trusted."),
 "C03": ("trivia no-op invariants on the reader machine, and equality of the code's outcomes over all texts the specification gives one meaning",
         "Invariant holds at every reachable state of the enumerations; the code is compared on all enumerated texts and on 4 rewritings of each generated document."),
 "C04": ("escape sub-machine of the reader; exhaustive escape enumerations in every string position and code point sweeps executed on the code",
         "All escapes of up to 4 chunks, all octal and two-digit hex escapes, a third of the \\u and a stride of the \\U escapes (all in thorough), literal characters of all planes by stride."),
 "C05": ("heredoc line machine of the reader; enumerated and generated heredocs executed on the code, corruptions validated as traces",
         "Every heredoc of up to 5 chunks after a fixed opening, both forms, in documents, tuples, objects, blocks and the value grammar."),
 "C18": ("compositional grammar (a second formulation) of every public sub-parser, checked in TLC against the reader machine; enumerated and corrupted texts executed on the 31 sub-parsers",
         "Every text of up to 4 chunks over five alphabets for all sub-parsers; longer texts are sampled. A text with an escape may make a sub-parser fail as a whole instead of stopping before it."),
 "C06": ("exact decimal arithmetic over digit sequences: conversions, rounding intervals and equality of literals; TLC validates every recorded conversion, comparison and construction",
         "All literals of up to 4 chunks, all values within 2 of every power of two that bounds a machine type in 99 spellings, half-way cases of both float formats, all pairs of 92 literals, pseudo-random long literals. Nearly equal non-integers (relative distance below 1e-14) may compare either way."),
 "C11": ("value-grammar reader machine against the code on enumerated and generated documents, corruptions validated as traces",
         "Floating point values of more than 15 digits are compared by sign and magnitude here and exactly in C06."),
 "C12": ("merge defined over abstract value trees with loss-freedom invariants; generated documents executed on the code, corruptions validated as traces",
         "The merge rules are those of the specification; documents have up to 6 items per level and 3 levels."),
 "C07": ("byte-stream machine (chunks, interruptions, failures, UTF-8 decoder) composed with the reader machine; every enumerated and recorded run of the four entry points is compared with it",
         "All event scripts of up to 3 reads over short byte strings including every kind of malformed UTF-8; documents of ordinary size with random scripts."),
 "C09": ("label-tree machine refining the abstract list of blocks (checked by TLC on every history); every history is executed on the code and all walks and look-ups are compared",
         "All histories of 3 operations over three alphabets plus pseudo-random ones of up to 20 operations; order among different label paths is free."),
 "C10": ("label-length queries computed from the abstract list of blocks and checked against the label tree in TLC; every history is executed on the code and asked at 27 nodes",
         "The same histories as C09."),
 "C13": ("collection machine refining the abstract list of insertions, in both representations (checked by TLC on every history); every history is executed on the code and every query compared",
         "All histories of up to 3 operations over colliding keys in three collections, plus pseudo-random histories of up to 10 operations."),
 "C14": ("denotation of deserializing a document of the reader machine into a target type; every enumerated and generated pair is executed on the code through a dynamic target and through derived types",
         "All documents of up to 2 elements against 42 targets and pseudo-random pairs (types of depth 2, 3 in thorough). Where the statement is silent (a record read from a tuple, a missing unit, ignored elements) either outcome is accepted."),
 "C15": ("denotation of deserializing an expression of the reader machine into a target type, with exact decimal integers; every enumerated and generated pair is executed on the code",
         "All pairs of 88 expressions and 50 targets, all integers within 2 of 16 powers of two in 7 spellings against 18 targets, pseudo-random pairs. Integer literals beyond 64 bits read as floats may be refused."),
 "C17": ("value machine that computes the answer to every query from the abstract value; every enumerated and generated value is built on the code and asked all of them",
         "All value trees of up to 3 nodes per level over every kind, merged, unmerged and mixed, plus pseudo-random deeper ones."),
 "C19": ("equality as a relation over the trees of the reader machine (reflexive, symmetric and transitive by TLC); pairs of texts one edit apart and pools of small trees are built in several ways on the code and compared, hashed and looked up",
         "All documents one edit away from 26 small ones, and all pairs of the small trees over five grammars; floats of more than 15 digits are compared in C06."),
 "C20": ("causes of failure computed from the reader machine, the merge rules, the byte source and the deserialization rules; TLC decides for every recorded error whether it is one of them",
         "About 40,000 failing calls per run over enumerated and generated texts, sources and targets. Where several things are wrong any of them may be named. Kinds of syntax error are not told apart."),
 "C21": ("scanner machine over characters or bytes with first-match and no-loss invariants; every enumerated text is searched with 7 parsers on the six kinds of input",
         "All texts of up to 5 (4 outside ASCII) characters over two alphabets; 7 and 6 in thorough."),
  "C22": ("machine over calls of several threads interleaved at the reads of their sources, with the invariant that a finished call's result is that of the call alone; every schedule is executed on the code with sources that follow it, then all calls again at once",
         "All schedules of two calls and two threads over four calls, histories of two and three calls over nine, and pseudo-random schedules of up to 40 calls and 4 threads (100 and 8 in thorough). Steps inside a call between two reads are left to the scheduler."),
"C08": ("reader machine that gives every text exactly one verdict; the texts it enumerates, nests, repeats, truncates and deserializes are given to every call of the code, and each call has to end with a result or an error in time",
         "All short texts over 14 alphabets, all pairs of 11+5+7 nesting constructs at depths up to 40 (90 in thorough) in five endings, 47 flat repetitions, prefixes and corruptions with arbitrary characters and bytes; 31 sub-parsers and 150 targets each. Promptly means within 10 s. Nesting that exhausts the stack is out of scope."),
 "C16": ("machine over files, links and permissions whose every run is executed by the built tool in a scratch directory as an unprivileged user; documents are read by the reader machine and what is printed is read back and compared with its tree",
         "27 documents, all combinations of file kinds, inputs and outputs for one run, and pseudo-random histories of 8 steps. Aliases through hard links and concurrent runs are not explored."),
}
LEVEL = {}
allp = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "./check setup",
     "checks": [{"property": p, "quick_cmd": "VERIF_TIER=quick ./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                 "technique": BASE + T[p][0], "level": LEVEL.get(p, "model_checking"), "level_note": T[p][1]} for p in allp if p in T],
     "not_applicable": [{"property": p, "reason": NA.get(p, "its check is still being built")} for p in allp if p not in T],
     "notes": "No hooks in /repo are needed: the public interface shows the abstract state. Checks build /verif/harness (path dependency on /repo/lib) and use VERIF_SEED."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
