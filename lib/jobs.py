"""What each property's check explores."""
import json, os, random, glob
import vf
from vf import Check, Known, cps, txt, say, THOROUGH, SEED
import mutate

Q = not THOROUGH
RNG = random.Random(SEED * 1000003 + 17)
CHECKS = {}


def check(prop, level="model_checking"):
    def deco(f):
        CHECKS[prop] = (f, level)
        return f
    return deco


def run(prop):
    f, level = CHECKS[prop]
    c = Check(prop, level)
    say("== %s (%s, seed %d)" % (prop, vf.TIER, SEED))
    vf.build_harness()
    f(c)
    return c.finish(Known())


# ------------------------------------------------------------------------------------ ingredients
def enum(c, alpha, kind, k, judge=None, noop=False, invs=("Whole",)):
    """Every text of at most k chunks of an alphabet: what the reader machine says, against the code."""
    recs = c.tlc("HclEnum", {"Alpha": alpha, "Kind": kind, "MaxK": k, "Out": True},
                 invs=("Emit",) + invs + (("TriviaNoOp",) if noop else ()))
    if judge is not False:
        c.vectors(recs, judge=judge)
    return recs


def writer(c, n, elems=6, depth=2, rewrites=0, judge=None, lo=None):
    lo = 1 + SEED * 1009 % 7000 if lo is None else lo
    recs = c.tlc("HclWriter", {"Lo": lo, "Hi": lo + n - 1, "Elems": elems, "Depth": depth, "Rewrites": rewrites, "Out": True},
                 invs=("ReadBack", "Emit"), spec="WSpec")
    recs.sort(key=lambda r: (r["i"], r["t"]))
    if judge is not False:
        c.vectors(recs, judge=judge)
    return recs


def vwriter(c, n, elems=5, depth=2, rewrites=0, judge=None, lo=None, which=(False, True)):
    lo = 1 + SEED * 1013 % 7000 if lo is None else lo
    recs = c.tlc("ValWriter", {"Lo": lo, "Hi": lo + n - 1, "Elems": elems, "Depth": depth, "Rewrites": rewrites, "Out": True},
                 invs=("ReadBack", "MergeKeeps", "Emit"), spec="WSpec")
    recs.sort(key=lambda r: (r["i"], r["t"]))
    recs = [r for r in recs if r.get("m", False) in which]
    if judge is not False:
        c.vectors(recs, judge=judge)
    return recs


def edits(c, what, part, judge=None):
    """The neighbourhood (one edit; thorough: also two) of small documents."""
    recs = c.tlc("HclEdit", {"What": what, "Part": part, "MaxE": 1}, invs=("Emit", "Based", "Whole"), view="View")
    if not Q:
        recs += c.tlc("HclEdit", {"What": what, "Part": "few", "MaxE": 2}, invs=("Emit", "Based", "Whole"), view="View")
    if judge is not False:
        c.vectors(recs, judge=judge)
    return recs


def fixtures(op):
    """The repository's own documents (as inputs only)."""
    out = []
    for f in sorted(glob.glob(os.path.join(vf.REPO, "lib/fixtures/*.hcl"))):
        t = cps(open(f, encoding="utf-8", newline="").read())
        if mutate.known(t) and len(t) < 6000:
            out.append(t)
    return out


def corrupt(c, op, bases, n, judge, extra=None, maxlen=700):
    """Corrupted documents are given to the code; TLC decides for every recorded outcome whether the machine allows it."""
    small = [b for b in bases if len(b) <= maxlen and mutate.known(b)]
    reqs = []
    for _ in range(n):
        t = mutate.mutate(RNG, RNG.choice(small), small)
        if mutate.known(t):
            reqs.append({"op": op, "t": t, **(extra or {})})
    res = c.real(reqs)
    c.validate("HclTrace", [dict(q, res=r) for q, r in zip(reqs, res)], judge=judge)


def texts(recs):
    return [cps(r["t"]) if isinstance(r["t"], str) else r["t"] for r in recs]


# ------------------------------------------------------------------------------------- properties
@check("C01")
def c01(c):
    j = vf.judge_tree
    enum(c, "body", "parse", 5 if Q else 6, j)
    enum(c, "obj", "expr", 6 if Q else 7, j)
    enum(c, "tup", "expr", 6 if Q else 7, j)
    enum(c, "label", "parse", 5 if Q else 6, j)
    edits(c, "doc", "all", j)
    w = writer(c, 1200 if Q else 30000, 8, 3, judge=j)
    corrupt(c, "parse", texts(w) + fixtures("parse"), 1500 if Q else 60000, j)


@check("C02")
def c02(c):
    j = vf.judge_accept
    enum(c, "struct", "parse", 5 if Q else 6, j)
    enum(c, "body", "parse", 4 if Q else 6, j)
    enum(c, "obj", "expr", 5 if Q else 7, j)
    enum(c, "tup", "expr", 5 if Q else 7, j)
    enum(c, "kw", "expr", 4 if Q else 5, j)
    enum(c, "num", "expr", 5 if Q else 6, j)
    for alpha in ("cmt", "hcmt", "scmt"):
        enum(c, alpha, "parse", 3 if Q else 4, j)
    enum(c, "ptok", "parse", 4 if Q else 5, j)
    enum(c, "pval", "parse", 3 if Q else 4, j)
    enum(c, "pval", "value", 3 if Q else 4, j)
    edits(c, "doc", "all", j)
    edits(c, "expr", "all", j)
    c.vectors([r for n in (((2, 9),) if Q else ((2, 9), (5, 30))) for w in ("nest", "flat") for r in pump(c, w, n[0], n[1] * (1 if w == "nest" else 9), None) if r["op"] != "value"], judge=j)
    w = writer(c, 500 if Q else 10000, 6, 2, judge=j)
    corrupt(c, "parse", texts(w) + fixtures("parse"), 5000 if Q else 120000, j)
    corrupt(c, "expr", [t for t in texts(enum(c, "obj", "expr", 5, False)) if t], 1000 if Q else 20000, j)


def same_meaning(c, recs):
    """Texts that differ in trivia only (the specification gives them one meaning) have one outcome."""
    reqs = [{k: v for k, v in r.items() if k not in "xi"} for r in recs]
    res = c.real(reqs)
    groups = {}
    for r, q, g in zip(recs, reqs, res):
        if r["x"]["r"] != "ok" or g["r"] == "skipped":
            continue
        groups.setdefault((q["op"], q.get("m"), json.dumps(vf.canon(r["x"]), sort_keys=True)), []).append((q, r["x"], g))
    n = 0
    for k, ms in groups.items():
        outs = {}
        for q, x, g in ms:
            g2 = {"r": g["r"], "v": vf.canon(g.get("v"))}
            outs.setdefault(json.dumps(g2, sort_keys=True), []).append((q, x, g))
        n += len(ms)
        if len(outs) > 1:
            good = max(outs, key=lambda o: (len(outs[o]), -len(json.dumps(outs[o][0][0]))))
            ref = next((o for o in outs if o == json.dumps({"r": "ok", "v": json.loads(k[2]).get("v")}, sort_keys=True)), good)
            for o in outs:
                if o != ref:
                    for q, x, g in outs[o]:
                        c.violation("blank space, comments or line ends change the meaning; same meaning as %r" % txt(outs[ref][0][0]["t"]),
                                    q, json.loads(ref), g)
    c.traces += n
    c.extra["groups_of_equal_meaning"] = c.extra.get("groups_of_equal_meaning", 0) + len(groups)
    c.sample(reqs[-1], res[-1])
    return res


@check("C03")
def c03(c):
    for alpha, kind, k in (("trivia", "parse", 5 if Q else 6), ("body", "parse", 4 if Q else 5), ("obj", "expr", 5 if Q else 6),
                           ("tup", "expr", 5 if Q else 6), ("vbody", "value", 4 if Q else 5), ("cmt", "parse", 4 if Q else 5),
                           ("cmt", "value", 3 if Q else 5), ("hcmt", "parse", 3 if Q else 4), ("scmt", "parse", 3 if Q else 4), ("hcmt", "value", 2 if Q else 4), ("scmt", "value", 2 if Q else 4)):
        same_meaning(c, enum(c, alpha, kind, k, False, noop=True))
    for what in ("doc", "val"):
        same_meaning(c, edits(c, what, "all", False))
    same_meaning(c, writer(c, 500 if Q else 12000, 5, 2, rewrites=3, judge=False))
    same_meaning(c, vwriter(c, 300 if Q else 8000, 4, 2, rewrites=3, judge=False, which=(False,)))
    # text inside strings and heredocs that looks like a comment, comments that look like text
    inner = ["#", "//", "/*", "*/", "/* x */", "# x", "// x", "a#b", "a//b", "a/*b", "*", "/"]
    forms = [("parse", '%s = "%s"%s\n')]
    recs = []
    for q in inner:
        for tail in ("", " # c", " // c", " /* c */", "/* \" */", "# \""):
            recs.append({"op": "parse", "t": cps('a = "%s"%s\n' % (q, tail)), "x": {"r": "ok", "v": [["A", cps("a"), ["str", cps(q)]]]}})
            recs.append({"op": "value", "t": cps('a = "%s"%s\n' % (q, tail)), "x": {"r": "ok", "v": ["U", [["I", cps("a"), ["str", cps(q)]]]]}})
            recs.append({"op": "parse", "t": cps('b "%s" {%s\n}\n' % (q, tail)), "x": {"r": "ok", "v": [["B", cps("b"), [["S", cps(q)]], []]]}})
        recs.append({"op": "parse", "t": cps('a = <<E\n%s\nE\n' % q), "x": {"r": "ok", "v": [["A", cps("a"), ["str", cps(q)]]]}})
    f = [dict(op=r["op"], t=r["t"], res=g) for r, g in zip(recs, c.real([dict(op=r["op"], t=r["t"], m=False) for r in recs]))]
    c.validate("HclTrace", [dict(t, m=False) for t in f])


@check("C11")
def c11(c):
    enum(c, "vbody", "value", 5 if Q else 6)
    enum(c, "vstruct", "value", 5 if Q else 6)
    edits(c, "val", "all")
    c.vectors([r for w, n in (("nest", 9 if Q else 30), ("flat", 80 if Q else 300)) for r in pump(c, w, 2, n, None) if r["op"] == "value"], judge=vf.judge_value)
    w = vwriter(c, 1500 if Q else 30000, 6, 3, which=(False,))
    corrupt(c, "value", texts(w) + fixtures("value"), 3000 if Q else 80000, vf.judge_full, {"m": False})


@check("C12")
def c12(c):
    for alpha, k in (("names", 6), ("blocks", 6), ("nested", 7), ("odd", 3)) if Q else (("names", 7), ("blocks", 7), ("nested", 8), ("odd", 4)):
        c.vectors(c.tlc("MergeEnum", {"Alpha": alpha, "MaxK": k}, invs=("Emit", "Keeps")))
    # merging what no document can say: maps with several objects, empty blocks, merged parts
    pairs(c, (("map", "one", 3, 0), ("blk", "few", 4, 0)) if Q else (("map", "one", 5, 0), ("blk", "few", 6, 0), ("map", "rand", 8, 30000), ("blk", "rand", 8, 10000)))
    w = vwriter(c, 2000 if Q else 40000, 6, 3, which=(True,))
    corrupt(c, "value", texts(w), 3000 if Q else 80000, vf.judge_full, {"m": True})


def replay(path):
    v = json.load(open(path))
    if v["request"]["op"] == "cli":
        d = cli_driver(lambda *a, **k: vf.tlc(*a, **k)[0])[1]
        say("history  %s" % json.dumps(v["request"]))
        say("recorded %s" % json.dumps(v["got"]))
        say("now      %s" % json.dumps(d.history(v["request"])))
        d.close()
        return 0
    got = vf.real([v["request"]])[0]
    say("request  %s" % json.dumps(vf.show(v["request"])))
    say("expected %s" % json.dumps(vf.show(v["expected"])))
    say("recorded %s" % json.dumps(vf.show(v["got"])))
    say("now      %s" % json.dumps(vf.show(got)))
    return 0


def codepoints(c, form, first, last, per, stride=1, place="value"):
    recs = c.tlc("Codepoints", {"Form": form, "First": first, "Last_": last, "Per": per, "Stride": stride, "Place": place}, invs=("Emit",))
    c.vectors(recs)


@check("C04")
def c04(c):
    k = 0 if Q else 1
    enum(c, "str", "expr", 4 + k)
    enum(c, "esc", "expr", 4 + k)
    enum(c, "sstr", "parse", 4 + k)
    enum(c, "lstr", "parse", 4 + k)
    enum(c, "kstr", "value", 4 + k)
    enum(c, "vlstr", "value", 4 + k)
    for what in ("str", "lab", "key"):
        edits(c, what, "chars")
    st = 61 if Q else 1
    off = (SEED * 37) % 64 if Q else 0
    codepoints(c, "lit", 0, 0x3fff, 64)
    codepoints(c, "lit", 0x4000 + off * 64, 0x10ffc0, 64, st)
    codepoints(c, "x", 0, 255, 16)
    codepoints(c, "oct", 0, 511, 8)
    codepoints(c, "u", 0, 0xfff0, 16, 3 if Q else 1)
    codepoints(c, "U", 0, 0x10fff0, 16, 97 if Q else 2)
    codepoints(c, "short", off, 0x10fff0, 16, 197 if Q else 3)
    codepoints(c, "badu", 0xd7f0, 0xe00f, 1, 5 if Q else 1)
    codepoints(c, "badU", 0x10ffe0, 0x110040, 1)
    codepoints(c, "badU", 0x110000 + off, 0x7fff0000, 1, 2000000 if Q else 90001)
    codepoints(c, "u", 0, 0xfff0, 16, 17 if Q else 2, "label")
    codepoints(c, "U", 0x10000, 0x10fff0, 16, 331 if Q else 8, "key")
    codepoints(c, "oct", 0, 511, 16, 1, "key")
    codepoints(c, "x", 0, 255, 16, 1, "label")


@check("C05")
def c05(c):
    k = 0 if Q else 1
    enum(c, "hdh", "parse", 4 + k)
    enum(c, "hd", "parse", 5 + k)
    enum(c, "hdi", "parse", 5 + k)
    enum(c, "hdi", "value", 4 + k)
    enum(c, "hdt", "parse", 4 + k)
    enum(c, "hdh", "value", 3 + k)
    enum(c, "phd", "parse", 4 + k)
    edits(c, "hd", "all")
    recs = c.tlc("HeredocGen", {"Lo": SEED * 1000, "Hi": SEED * 1000 + (3000 if Q else 60000)}, invs=("ReadBack", "Emit"))
    c.vectors(recs)
    corrupt(c, "parse", texts([r for r in recs if r["op"] == "parse"]), 2500 if Q else 60000, vf.judge_full)


def judge_sub(x, g):
    if x.get("may_fail") and g["r"] == "err":
        return None
    if x["r"] != g["r"]:
        return "expected %s, the sub-parser ends with %s" % (x["r"], g["r"])
    if x["r"] == "ok" and (x["n"] != g.get("n")):
        return "another part of the text is consumed"
    if x["r"] == "ok" and x["v"] != g.get("v"):
        return "another value"
    return None


def subs(c, alpha, k):
    sub_vectors(c, c.tlc("SubEnum", {"Alpha": alpha, "MaxK": k, "Out": True}, invs=("Emit", "Prefix", "Agree")))
    sub_vectors(c, c.tlc("SubEdit", {"Alpha": alpha, "MaxK": 0, "Out": True}, invs=("Emit", "Prefix", "EAgree"), spec="ESpec"))


def sub_vectors(c, recs):
    vecs = [{"op": "sub", "p": p, "t": r["t"], "x": x} for r in recs for p, x in r["xs"]]
    for v in vecs:      # an escape that cannot be finished may make the parser fail instead of ending before it
        if 92 in v["t"] and v["x"]["r"] == "ok":
            v["x"]["may_fail"] = True
    c.vectors(vecs, judge=judge_sub)


@check("C18")
def c18(c):
    d = 0 if Q else 1
    for alpha, k in (("ws", 4), ("tok", 4), ("hd", 4), ("coll", 4), ("elem", 4)):
        subs(c, alpha, k + d)
    # longer texts: documents and their corruptions, from a random position on
    w = writer(c, 250 if Q else 4000, 5, 2, judge=False)
    bases = texts(w) + fixtures("parse")
    names = ["inline_comment", "hash_comment", "slash_comment", "line_comment", "inline_whitespace", "whitespace", "newline",
             "identifier", "null", "boolean", "number", "string", "string_literal", "heredoc_begin", "heredoc_string", "tuple", "object",
             "bracket_expression", "expression", "attribute", "object_element_identifier", "object_element", "object_separator",
             "object_body", "block_label", "block_labels", "one_line_block_body", "one_line_block", "block", "body_element", "body"]
    reqs = []
    for _ in range(2500 if Q else 60000):
        t = RNG.choice(bases)
        if RNG.random() < 0.6:
            t = mutate.mutate(RNG, t[:400], None)
        a = RNG.randrange(len(t) + 1)
        t = t[a:a + 200]
        if mutate.known(t):
            if RNG.random() < 0.5:
                reqs.append({"op": "sub", "p": RNG.choice(names), "t": t})
            else:
                reqs += [{"op": "sub", "p": p, "t": t} for p in names if p in likely(t)]
    res = c.real(reqs)
    tr = [dict(q, res=r) for q, r in zip(reqs, res)]

    def j(x, g):
        if x["r"] == "ok":
            x = dict(x, may_fail=True) if g["r"] == "err" and g.get("bsl") else x
        return judge_sub(x, g)
    for t in tr:
        if 92 in t["t"]:
            t["res"] = dict(t["res"], bsl=True)
    c.validate("SubTrace", tr, judge=j)


def likely(t):
    """Sub-parsers whose construct may start there."""
    c = chr(t[0]) if t else ""
    out = ["body", "expression", "object_element_identifier"]
    if c.isalpha() or c == "_":
        out += ["identifier", "attribute", "block", "one_line_block", "body_element", "object_element", "block_labels", "object_body"]
    if c in " \t\r\n#/":
        out += ["whitespace", "inline_whitespace", "newline", "line_comment", "inline_comment", "object", "bracket_expression", "attribute"]
    if c in "{[(<\"":
        out += ["object", "tuple", "bracket_expression", "string", "string_literal", "heredoc_string", "object_element"]
    if c in "+-.0123456789":
        out += ["number", "object_element"]
    return out


def judge_why(x, g):
    return x.get("why") or "the call ends with " + g["r"]


def numgen(c, what, lo=0, hi=0, k=0):
    recs = c.tlc("NumGen", {"What": what, "MaxK": k, "Lo": lo, "Hi": hi}, invs=("Emit", "Sane"))
    return [q for r in recs for q in r["q"]]


def numtrace(c, reqs):
    res = c.real(reqs)
    c.validate("NumTrace", [dict(q, res=r) for q, r in zip(reqs, res)], judge=judge_why)


@check("C06")
def c06(c):
    reqs = numgen(c, "enum", k=4 if Q else 5)
    st = 1 if Q else 0
    reqs += [q for n, q in enumerate(numgen(c, "bound", 0, 8909)) if not Q or (n // 2) % 5 == SEED % 5]
    reqs += numgen(c, "half", 0, 359)
    reqs += numgen(c, "special", 1, 92)
    reqs += numgen(c, "pair", 0, 8463)
    lo = SEED * 100000
    reqs += numgen(c, "rand", lo, lo + (1500 if Q else 40000))
    reqs += numgen(c, "boundeq", lo, lo + (1000 if Q else 20000))
    reqs += numgen(c, "ints", 0, 1799)
    reqs += numgen(c, "small", 0, 1479)
    reqs += numgen(c, "floats", lo, lo + (400 if Q else 10000))
    numtrace(c, reqs)


def judge_source(x, g):
    if g["r"] != "x":
        return "the call ends with " + g["r"]
    for name, want in (("st", x["sl"]), ("sl", x["sl"]), ("rd", x["rd"]), ("rw", x["sl"])):
        got = g[name]
        who = {"st": "string", "sl": "slice", "rd": "reader", "rw": "reader"}[name]
        if got["r"] == "none":
            if want["r"] == "ok":
                raise vf.ToolError("specification accepts bytes that are not UTF-8")
            continue
        if got["r"] != want["r"]:
            return "expected %s, the %s entry point says %s" % (want["r"], who, got["r"])
        if got["r"] == "ok":
            if not vf.lenient(want["v"], got["v"]):
                return "the %s entry point yields another tree" % who
            if not got["own"]:
                return "the owned copy differs from the %s entry point's tree" % who
    ref = {}
    for name in ("st", "sl", "rw"):
        if g[name]["r"] == "ok":
            ref[json.dumps(vf.canon(g[name]["v"]), sort_keys=True)] = 1
    if len(ref) > 1:
        return "entry points disagree"
    return None


def script(n):
    ev = []
    for _ in range(RNG.choice((0, 1, 1, 2, 3, 4, 8, 30))):
        r = RNG.random()
        if r < 0.2:
            ev.append(0)
        elif r < 0.24:
            ev.append(-1)
        elif r < 0.27:
            ev.append(-2)
        else:
            ev.append(RNG.choice((1, 1, 1, 2, 3, 5, 7, 16, 31, 32, 33, 64, 1000)))
    return ev


def sources(c, g, bases, n):
    reqs = []
    for _ in range(n):
        t = list(RNG.choice(bases))
        if RNG.random() < 0.4:
            t = mutate.mutate(RNG, t[:500], None)
        if not mutate.known(t):
            continue
        b = list(txt(t).encode("utf-8"))
        if RNG.random() < 0.3 and b:
            i = RNG.randrange(len(b))
            k = RNG.randrange(4)
            if k == 0:
                b[i] = RNG.choice((128, 191, 192, 195, 224, 237, 240, 244, 245, 255, 160))
            elif k == 1:
                b = b[:i]
            elif k == 2:
                b[i:i] = RNG.choice(([0xef, 0xbb, 0xbf], [0xc0, 0x80], [0xed, 0xa0, 0x80], [0xf4, 0x90, 0x80, 0x80], [0xe2, 0x82]))
            else:
                del b[i]
        try:
            if not mutate.known(cps(bytes(b).decode("utf-8"))):
                continue
        except UnicodeDecodeError:
            pass
        ev = script(len(b))
        at = sum(e for e in ev if e > 0)
        if -2 in ev:      # an early end may cut a text to one with unclassified characters? no: prefixes only
            pass
        reqs.append({"op": "source", "g": g, "b": b, "ev": ev})
    res = c.real(reqs)
    c.validate("SourceTrace", [dict(q, res=r) for q, r in zip(reqs, res)], judge=judge_source)


@check("C07")
def c07(c):
    for alpha, g, k, e in (("utf", "hcl", 1, 3), ("utf", "hcl", 2, 0), ("doc", "hcl", 2, 2), ("doc", "val", 2, 2), ("doc", "mrg", 2, 2), ("utf", "val", 1, 2), ("line", "hcl", 3, 1), ("line", "val", 2, 1),
                           ("long", "hcl", 1, 1)) if Q else \
                          (("utf", "hcl", 2, 3), ("utf", "hcl", 3, 1), ("doc", "hcl", 3, 3), ("doc", "val", 3, 3), ("doc", "mrg", 3, 2), ("utf", "val", 2, 2), ("line", "hcl", 4, 1), ("line", "val", 4, 1),
                           ("long", "hcl", 1, 2), ("long", "val", 1, 2)):
        recs = c.tlc("SourceGen", {"Alpha": alpha, "G": g, "MaxK": k, "MaxE": e}, invs=("Emit", "Chunking", "Encoding"))
        c.vectors(recs, judge=judge_source)
    w = texts(writer(c, 400 if Q else 5000, 6, 2, judge=False)) + fixtures("parse")
    sources(c, "hcl", w, 1500 if Q else 30000)
    v = texts(vwriter(c, 400 if Q else 5000, 5, 2, judge=False))
    sources(c, "val", v + fixtures("value"), 1000 if Q else 20000)
    sources(c, "mrg", v, 1000 if Q else 20000)


def bsort(l, n):
    return sorted(l, key=lambda e: json.dumps(e[:n] if isinstance(e, list) else e, sort_keys=True))


def judge_blocks(fields):
    def j(x, g):
        if g["r"] != "ok":
            return "the history ends with " + g["r"]
        a, b = x["v"]["all"], g["v"]["all"]
        if "flat" in fields:
            for f in ("len", "isempty", "blocks"):
                if a[f] != b[f]:
                    return "%s of the index is wrong" % f
            for f in ("types", "types2", "types3", "types4"):
                if sorted(a["types"]) != sorted(b[f]):
                    return "the types of the index are wrong"
            for f, w in (("flat", "shared"), ("flatm", "mutable"), ("flati", "consuming")):
                if bsort(a["flat"], 2) != bsort(b[f], 2):
                    return "the %s walk does not yield every block once" % w
        else:
            for f in ("lens", "uni"):
                if sorted(a[f]) != sorted(b[f]):
                    return "label lengths are wrong (%s)" % f
            if sorted([t, u != -1] for t, u in a["uni"]) != sorted(b["isuni"]):
                return "uniformity of label lengths is wrong"
        for p, q in zip(x["v"]["qs"], g["v"]["qs"]):
            if p["found"] is not q["found"]:
                return "look-up with a prefix is wrong"
            if p["found"]:
                if "flat" in fields:
                    if p["n"] != q["n"] or p["further"] != q["further"] or p["empty"] != q["empty"]:
                        return "an entry does not hold the blocks of its prefix"
                    if sorted(p["labels"]) != sorted(q["labels"]):
                        return "the labels of an entry are wrong"
                    for f in ("flat", "flatm", "flati", "flatr"):
                        if bsort(p["flat"], 1) != bsort(q[f], 1):
                            return "an entry does not yield the blocks of its prefix"
                elif (p["lens"], p["uni"], p["isuni"], p["further"]) != (q["lens"], q["uni"], q["isuni"], q["further"]):
                    return "label lengths below a prefix are wrong"
        return None
    return j


def blocks(c, fields):
    lo = SEED * 10000
    for alpha, k, lo, hi in (("deep", 3, 0, 0), ("few", 3, 0, 0), ("wide", 3, 0, 0), ("rand", 14, lo, lo + 2000)) if Q else \
                            (("deep", 4, 0, 0), ("few", 4, 0, 0), ("wide", 4, 0, 0), ("rand", 14, lo, lo + 20000), ("rand", 40, lo, lo + 5000)):
        recs = c.tlc("BlockIndex", {"Alpha": alpha, "MaxK": k, "Lo": lo, "Hi": hi}, invs=("Emit", "Refines", "Keeps"))
        c.vectors(recs, judge=judge_blocks(fields))


@check("C09")
def c09(c):
    blocks(c, ("flat",))


@check("C10")
def c10(c):
    blocks(c, ("lens",))


def judge_query(x, g):
    if g["r"] != "ok":
        return "a query ends with " + g["r"]
    a, b = x["v"], dict(g["v"])
    if not b.pop("own"):
        return "the owned copy differs"
    b.pop("whole")
    for k in a:
        p, q = vf.canon(a[k]), vf.canon(b[k])
        if k == "blocks":
            p, q = p[:1] + bsort(p[1:], 99), q[:1] + bsort(q[1:], 99)
        if p != q:
            return "query %s is wrong" % k
    return None


@check("C17")
def c17(c):
    lo = SEED * 10000
    for what, lo, hi, d in (("flat", 0, 0, 0), ("deep", 0, 0, 0), ("rand", lo, lo + (3000 if Q else 60000), 3), ("rand", lo, lo + (300 if Q else 10000), 5)):
        recs = c.tlc("ValueQueries", {"What": what, "Lo": lo, "Hi": hi, "Depth": d}, invs=("Emit", "OneKind", "Queries"))
        c.vectors(recs, judge=judge_query)


def judge_pairs(x, g):
    if g["r"] != "ok":
        return "the history ends with %s %s" % (g["r"], g.get("m", ""))
    a, b = x["v"], g["v"]
    if a["outs"] != b["outs"]:
        return "merging succeeds or fails where it should not"
    a, b = vf.canon(a["all"]), vf.canon(b["all"])
    if a["rep"] != b["rep"]:
        return "wrong representation"
    if a["rep"] == "fail":
        return None
    if (a["len"], a["empty"]) != (b["len"], b["empty"]):
        return "wrong length"
    k = 2 if x["c"] == "map" else 1
    if a["loose"]:
        key = lambda e: json.dumps(e[k - 1])
        if sorted(a["es"], key=key) != sorted(b["es"], key=key):
            return "wrong entries"
    elif a["es"] != b["es"]:
        return "wrong entries"
    for p, q in zip(a["gets"], b["gets"]):
        if p != q:
            return "wrong look-up"
    return None


@check("C13")
def c13(c):
    pairs(c, (("gen", "few", 6, 0), ("map", "one", 4, 0), ("map", "two", 4, 0), ("blk", "few", 5, 0),
              ("gen", "rand", 10, 600), ("map", "rand", 8, 2000), ("blk", "rand", 8, 1000)) if Q else
             (("gen", "few", 8, 0), ("map", "one", 5, 0), ("map", "two", 5, 0), ("blk", "few", 6, 0),
              ("gen", "rand", 10, 6000), ("map", "rand", 8, 30000), ("blk", "rand", 8, 15000)))


def pairs(c, runs):
    lo = SEED * 10000
    for coll, alpha, k, n in runs:
        recs = c.tlc("Pairs", {"Coll": coll, "Alpha": alpha, "MaxK": k, "Lo": lo, "Hi": lo + n},
                     invs=("Emit", "UniqueKeys", "LookupTotal", "CountAdds"), props=("Switch",))
        for r in recs:
            r["x"]["c"] = coll
        c.vectors(recs, judge=judge_pairs)


def named(x):
    """The items of maps in the order of their names."""
    if isinstance(x, list):
        x = [named(y) for y in x]
        if len(x) == 2 and x[0] == "map" and isinstance(x[1], list):
            x = ["map", bsort(x[1], 1)]
    return x


def judge_deser(x, g):
    if x["r"] == "any":
        return None if g["r"] in ("ok", "err") else "the call ends with " + g["r"]
    if g["r"] == "err":
        return None if x["r"] in ("err", "may") else "a value that fits the target is refused"
    if g["r"] != "ok":
        return "the call ends with %s %s" % (g["r"], g.get("m", ""))
    if x["r"] == "err":
        return "a value that does not fit the target is accepted"
    if not vf.lenient(named(x["v"]), named(g["v"])):
        return "another value"
    return None


def deser(c, what, lo=0, hi=0, d=0):
    recs = c.tlc("DeserGen", {"What": what, "Lo": lo, "Hi": hi, "Depth": d}, invs=("Emit", "Typed"))
    c.vectors(recs, judge=judge_deser)
    k = c.extra.setdefault("expected results", {})
    for r in recs:
        k[r["x"]["r"]] = k.get(r["x"]["r"], 0) + 1


@check("C14")
def c14(c):
    lo = SEED * 10000
    deser(c, "doc1")
    deser(c, "doc2")
    deser(c, "rdoc", lo, lo + (3000 if Q else 60000), 2)
    deser(c, "derived", lo, lo + (300 if Q else 8000))
    if not Q:
        deser(c, "doc3")
        deser(c, "rdoc", lo + 200000, lo + 220000, 3)


@check("C15")
def c15(c):
    lo = SEED * 10000
    deser(c, "pair")
    deser(c, "bound", 0, 35 * 16 - 1)
    deser(c, "rexpr", lo, lo + (3000 if Q else 60000), 2)
    deser(c, "rexpr", lo + 100000, lo + 100000 + (1000 if Q else 30000), 3)


def judge_same(x, g):
    if g["r"] == "err":
        return None         # whether the texts are accepted is C02's and C11's concern
    if g["r"] != "ok":
        return "a comparison ends with %s %s" % (g["r"], g.get("m", ""))
    if "found" in x:
        if set(g["eq"]) != {x["same"]}:
            return "names with %s text compare wrongly" % ("the same" if x["found"] else "another")
        if x["same"] and not g["hash"] or not g["own"]:
            return "equal names do not hash alike"
        if g["found"] is not x["found"]:
            return "looking a name up by its text fails"
        if set(g["text"]) != {x["text"]}:
            return "a name compares wrongly with a text"
        return None
    if set(g["eq"]) != {x["same"]}:
        return "trees that %s compare wrongly" % ("say the same" if x["same"] else "differ")
    if set(g["refl"]) != {True}:
        return "a tree differs from itself or from its copy"
    if set(g["made"]) != {True}:
        return "a tree from the constructors differs from the parsed one"
    if set(g["built"]) != {x["same"]}:
        return "a tree from the constructors compares wrongly"
    return None


@check("C19")
def c19(c):
    for g in ("expr", "hcl", "val", "mrg", "name"):
        c.vectors(c.tlc("SamePool", {"Gram": g}, invs=("Emit", "Pooled", "Equivalence")), judge=judge_same)
    for what in ("doc", "expr", "val", "str", "lab", "key"):
        c.vectors(c.tlc("SameEdit", {"What": what, "Part": "few" if Q else "all", "MaxE": 1}, invs=("SEmit", "Sym"), view="View"), judge=judge_same)


# ---------------------------------------------------------------------------------------- survival
def judge_cause(x, g):
    if x and isinstance(x, dict):      # the call did not end with a result or an error
        return "the call ends with " + g["r"] if g["r"] not in ("ok", "err", "x") else None
    for k, which in enumerate(("sl", "rd") if "sl" in g else (None,)):
        if not x[k]["ok"]:
            h = g[which] if which else g
            if h["r"] != "err":
                return "the call ends with " + h["r"]
            if not h["shown"]:
                return "the message does not say what the error holds"
            return "the error names another cause (%s)" % json.dumps(vf.show(h["c"]))
    return None


def some(recs, n):
    """At most n of the records, the same ones for one seed."""
    return recs if len(recs) <= n else RNG.sample(recs, n)


def causes(c, reqs):
    """Calls that fail: TLC decides whether what each error says is a cause the specification knows."""
    res = c.real(reqs)
    tr = [dict(q, res=r) for q, r in zip(reqs, res)]
    for t in tr:
        t["res"].pop("v", None)
    for op, mod in ((("cause", "bcause"), "CauseTrace"), (("deser",), "CauseDeserTrace")):
        part = [t for t in tr if t["op"] in op and (t["res"]["r"] != "ok")]
        if part:
            c.validate(mod, part, judge=judge_cause, also=("Explained",))
            for t in part:
                for h in [t["res"]] + [t["res"][k] for k in ("sl", "rd") if k in t["res"]]:
                    if "c" in h:
                        k = c.extra.setdefault("causes reported", {})
                        n = h["c"][0] if h["c"][0] != "in" else "in " + h["c"][1][0]
                        k[n] = k.get(n, 0) + 1


def judge_conv(x, g):
    if g["r"] != "ok":
        return "the conversion ends with " + g["r"]
    if not g["inc"]:
        return "an error that asks for more input is turned into another"
    for v in g["v"]:
        if v["one"][0] not in x["one"]:
            return "a parser's error is converted into another cause"
        if not v["one"][1]:
            return "the message does not show what the converted error holds"
        a = v["all"]
        if a == "incomplete" or a["cls"] != x["cls"]:
            return "the conversion changes whether an error is recoverable"
        if not a["same"]:
            return "the conversion loses or moves entries of an error"
        if not all(c in w for c, w in zip(a["list"], x["list"])):
            return "an entry of an error is converted into another cause"
    return None


@check("C20")
def c20(c):
    n = 1 if Q else 12
    c.vectors(c.tlc("ErrConv", {"MaxN": 3 if Q else 4}, invs=("Emit",), props=("Kept",)), judge=judge_conv)
    failing = lambda recs: [r for r in recs if r["x"]["r"] == "err"]
    reqs = []
    for g, src in (("hcl", (("esc", 4), ("lstr", 4), ("body", 4), ("struct", 4))), ("val", (("kstr", 4), ("vlstr", 4), ("vbody", 4))),
                   ("expr", (("esc", 4), ("str", 4), ("obj", 5), ("tup", 5), ("kw", 3), ("num", 4)))):
        for alpha, k in src:
            op = {"hcl": "parse", "val": "value", "expr": "expr"}[g]
            reqs += [{"op": "cause", "g": g, "t": r["t"]} for r in some(failing(enum(c, alpha, op, k, False)), 1200 * n)]
    for what, g in (("str", "hcl"), ("lab", "hcl"), ("key", "val"), ("doc", "hcl"), ("val", "val"), ("expr", "expr")):
        recs = failing(edits(c, what, "all", False))
        bad = [r for r in recs if 92 in r["t"]]
        reqs += [{"op": "cause", "g": g, "t": r["t"]} for r in some(bad, 1500 * n) + some(recs, 1500 * n)]
    for alpha, k in (("names", 5), ("blocks", 5), ("nested", 6), ("odd", 3)) if Q else (("names", 7), ("blocks", 7), ("nested", 8), ("odd", 4)):
        recs = c.tlc("MergeEnum", {"Alpha": alpha, "MaxK": k}, invs=("Emit", "Keeps"))
        reqs += [{"op": "cause", "g": "mrg", "t": r["t"]} for r in some(failing(recs), 3000 * n)]
    w = [r for r in vwriter(c, 1500 if Q else 30000, 6, 3, judge=False, which=(True,))]
    reqs += [{"op": "cause", "g": "mrg", "t": r["t"]} for r in some(w, 1200 * n)]
    causes(c, reqs)
    reqs = []
    for alpha, g, k, e in (("utf", "hcl", 2, 1), ("doc", "val", 2, 1), ("doc", "mrg", 2, 1), ("utf", "val", 1, 2), ("line", "hcl", 3, 0), ("line", "val", 3, 0), ("long", "hcl", 1, 0)):
        recs = c.tlc("SourceGen", {"Alpha": alpha, "G": g, "MaxK": k, "MaxE": e}, invs=("Emit", "Chunking", "Encoding"))
        reqs += [{"op": "bcause", "g": g, "b": r["b"], "ev": r["ev"]} for r in some([r for r in recs if "err" in (r["x"]["rd"]["r"], r["x"]["sl"]["r"])], 1500 * n)]
    causes(c, reqs)
    lo = SEED * 10000
    reqs = []
    for what, a, b, d, k in (("pair", 0, 0, 0, 2500), ("doc1", 0, 0, 0, 2000), ("doc2", 0, 0, 0, 4000), ("rexpr", lo, lo + 2500 * n, 2, 1500), ("rdoc", lo, lo + 2500 * n, 2, 2000),
                             ("derived", lo, lo + 250 * n, 0, 1500)):
        recs = c.tlc("DeserGen", {"What": what, "Lo": a, "Hi": b, "Depth": d}, invs=("Emit", "Typed"))
        reqs += [{k: v for k, v in r.items() if k not in "xi"} for r in some(failing(recs), k * n)]
    causes(c, reqs)


def judge_till(x, g):
    if g["r"] != "x":
        return "the search ends with " + g["r"]
    for k in ("whole", "end") if x["w"] else ("part", "more"):
        if g[k]["ix"] != x["ix"]:
            return "the places to look at are wrong"
        if g[k]["v"] != x["v"]:
            return "not the first match, or another split"
    return None


@check("C21")
def c21(c):
    for alpha, k, pads in (("ascii", 5, {0}), ("uni", 4, {0}), ("odd", 3, {0, 1}), ("uni", 1, {255, 256, 4097, 9000})) if Q else \
                          (("ascii", 7, {0}), ("uni", 6, {0}), ("odd", 5, {0, 1}), ("uni", 1, {15, 16, 255, 256, 4095, 4096, 8191, 9000, 70000})):
        c.vectors(c.tlc("TakeTill", {"Alpha": alpha, "MaxK": k, "Pads": pads}, invs=("Emit", "Whole", "Alike", "NoneInRun")), judge=judge_till)


def judge_calls(x, g):
    if g["r"] != "ok":
        return "the calls end with %s %s" % (g["r"], g.get("m", ""))
    for k, w in enumerate(x["v"]):
        for free, got in [(False, g["v"][k])] + [(True, h) for h in (g["free"][k] if g["free"] is not True else ())]:
            if got["r"] != w["r"]:
                return "call %d should end with %s and ends with %s%s" % (k + 1, w["r"], got["r"], " when the threads run freely" if free else "")
            if w["r"] == "ok" and not vf.lenient(w["v"], got["v"]):
                return "call %d yields another tree%s" % (k + 1, " when the threads run freely" if free else "")
    return None


@check("C22")
def c22(c):
    inv = ("Emit", "Independent", "OneEach")
    lo = SEED * 10000

    def calls(alpha, n, e, t, lo=0, hi=0):
        return c.tlc("Calls", {"Alpha": alpha, "MaxC": n, "MaxE": e, "Threads": t, "Lo": lo, "Hi": hi}, invs=inv)
    c.vectors(calls("two", 2, 1, 2) + calls("hist", 2, 1, 1) + calls("hist", 3, 0, 1), judge=judge_calls)
    for n, t, k in ((6, 2, 1500), (10, 4, 1000), (40, 3, 150)) if Q else ((6, 2, 30000), (10, 4, 20000), (40, 3, 3000), (100, 8, 500)):
        c.vectors([dict(r, free=True) for r in calls("rand", n, 0, t, lo, lo + k)], judge=judge_calls)
    if not Q:
        c.vectors(calls("two", 2, 2, 2) + calls("two", 3, 0, 3), judge=judge_calls)


def pump(c, what, n1, n2, judge):
    recs = c.tlc("Pump", {"What": what, "N1": n1, "N2": n2}, invs=("Emit", "Ends", "CutOff"))
    if judge:
        c.vectors(recs, judge=judge)
    return recs


def survive(c, texts, limit=10):
    """Every text to every call that takes one (document, value tree, expression, 31 sub-parsers, 150 deserialization targets)."""
    seen, reqs = set(), []
    for t in texts:
        k = tuple(t)
        if k not in seen:
            seen.add(k)
            reqs.append({"op": "survive", "t": list(t)})
    res = c.real(reqs, limit=limit)
    for q, g in zip(reqs, res):
        if g["r"] != "ok" and g["r"] != "skipped":
            c.violation("a call ends with %s %s" % (g["r"], g.get("m", "")), q, {"r": "a result or an error"}, g)
    c.traces += sum(g["r"] != "skipped" for g in res)
    if reqs:
        c.sample(reqs[len(reqs) // 2], res[len(reqs) // 2])


@check("C08")
def c08(c):
    j = vf.judge_survive
    survive(c, texts(pump(c, "nest", 2, 20, False) + ([] if Q else pump(c, "nest", 7, 45, False))))
    survive(c, texts(pump(c, "flat", 3, 300, False) + ([] if Q else pump(c, "flat", 40, 3000, False))))
    pool = []
    for alpha, kind, k in (("body", "parse", 4), ("obj", "expr", 4), ("tup", "expr", 4), ("str", "expr", 4), ("esc", "expr", 3), ("num", "expr", 4), ("hd", "parse", 4),
                           ("hdi", "parse", 4), ("hdh", "parse", 3), ("hdt", "parse", 3), ("vbody", "value", 4), ("label", "parse", 4), ("uni", "parse", 3), ("trivia", "parse", 4)):
        if Q and alpha in ("hdh", "uni", "label", "num"):
            k -= 1
        pool += texts(enum(c, alpha, kind, k + (0 if Q else 1), False))
    survive(c, pool)
    # whole documents, every prefix of some, and corruptions of all with any character whatever
    docs = texts(writer(c, 300 if Q else 5000, 6, 2, judge=False)) + texts(vwriter(c, 200 if Q else 4000, 5, 2, judge=False)) + fixtures("parse")
    lo = SEED * 10000
    des = c.tlc("DeserGen", {"What": "rdoc", "Lo": lo, "Hi": lo + (600 if Q else 20000), "Depth": 2}, invs=("Emit", "Typed"))
    docs += texts(des)
    survive(c, docs)
    survive(c, [d[:i] for d in RNG.sample(docs, 30 if Q else 600) for i in range(0, min(len(d), 1500))])
    short = [d for d in docs if len(d) < 700]
    soup = []
    for _ in range(4000 if Q else 150000):
        t = mutate.mutate(RNG, RNG.choice(short), short)
        if RNG.random() < 0.5:
            for _ in range(RNG.choice((1, 1, 2, 5))):
                ch = RNG.choice((RNG.randrange(128), RNG.randrange(0x800), RNG.randrange(0xD800), RNG.randrange(0xE000, 0x110000)))
                i = RNG.randrange(len(t) + 1)
                t[i:i + RNG.choice((0, 1))] = [ch]
        soup.append(t)
    survive(c, soup)
    # targets made for the document, documents that no longer fit
    reqs = []
    for r in des:
        q = {k: r[k] for k in ("op", "src", "t", "ty", "d")}
        reqs.append(dict(q, t=mutate.mutate(RNG, r["t"] if isinstance(r["t"], list) else cps(r["t"]), short)))
    for q, g in zip(reqs, c.real(reqs, limit=10)):
        if j({}, g):
            c.violation("the call ends with %s %s" % (g["r"], g.get("m", "")), q, {"r": "a result or an error"}, g)
    c.traces += len(reqs)
    # bytes that are no text
    reqs = []
    for _ in range(2000 if Q else 60000):
        b = bytearray("".join(map(chr, RNG.choice(short))).encode("utf-8")[:300])
        for _ in range(RNG.choice((1, 1, 2, 4))):
            i = RNG.randrange(len(b) + 1)
            b[i:i + RNG.choice((0, 0, 1, 2))] = bytes([RNG.choice((RNG.randrange(256), RNG.randrange(128, 256)))])
        ev = [RNG.choice((0, 1, 2, 3, 7, 50, -1, -2)) for _ in range(RNG.randrange(6))]
        reqs.append({"op": "source", "g": RNG.choice(("hcl", "val", "mrg")), "b": list(b), "ev": ev})
    for q, g in zip(reqs, c.real(reqs, limit=10)):
        if j({}, g):
            c.violation("the call ends with %s %s" % (g["r"], g.get("m", "")), q, {"r": "a result or an error"}, g)
    c.traces += len(reqs)


# ------------------------------------------------------------------------------------ command line
def cli_driver(tlc):
    import cli
    exe = vf.build_cli()
    tab = sorted(tlc("CliDocs", {}, invs=("Emit", "Both")), key=lambda r: r["i"])
    return tab, cli.Driver(exe, [bytes(r["b"]) for r in tab], [(r["u"], r["m"]) for r in tab], cli.can_drop())


@check("C16")
def c16(c):
    import cli
    unpriv = cli.can_drop()
    c.extra["run as an unprivileged user"] = unpriv
    inv = ("Emit", "Replaced")

    tab, d = cli_driver(c.tlc)
    ok = {m: {r["i"] for r in tab if r[m]["r"] == "ok"} for m in "um"}

    def gen(what, lo=0, hi=0, k=1):
        return c.tlc("Cli", {"What": what, "Lo": lo, "Hi": hi, "MaxK": k, "NDocs": len(tab), "OkU": ok["u"], "OkM": ok["m"]}, invs=inv, props=("OnlyOutput",))
    try:
        lo = SEED * 10000
        hs = gen("docs") + gen("usage", k=2) + gen("kinds", k=1) + gen("walk", lo, lo + (700 if Q else 20000), 8)
        if not unpriv:      # permissions mean nothing to the superuser
            def special(h):
                return any(w in json.dumps(h) for w in ('"ro"', '"wo"', '"lock"', "sealed"))
            hs = [h for h in hs if not special(h)]
        for h, bad in zip(hs, d.all(hs)):
            c.evals += sum(s["do"] != "put" for s in h["h"])
            c.traces += 1
            if bad:
                c.violation(bad["what"], {"op": "cli", "init": h["init"], "h": h["h"]}, bad["step"], {"r": "x", **bad["got"]})
        c.sample({"history": hs[-1]["h"][:3]}, {"r": "as expected"})
    finally:
        d.close()
