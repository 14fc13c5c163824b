"""Runs of the command line tool in scratch directories of their own, as an unprivileged user."""
import concurrent.futures as cf
import multiprocessing
import os, shutil, subprocess, tempfile
from decimal import Decimal
import vf

NOBODY = 65534


def can_drop():
    try:
        return subprocess.run(["/bin/true"], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
    except Exception:
        return False


# ---- the printed form: Rust's Debug notation, read back -----------------------------------------
class Bad(Exception):
    pass


def read_debug(text):
    p = [0]
    n = len(text)

    def ws():
        while p[0] < n and text[p[0]] in " \n\t\r":
            p[0] += 1

    def eat(c):
        ws()
        if not text.startswith(c, p[0]):
            raise Bad("expected %r at %r" % (c, text[p[0]:p[0] + 20]))
        p[0] += len(c)

    def peek():
        ws()
        return text[p[0]:p[0] + 1]

    def string():
        out = []
        p[0] += 1
        while True:
            if p[0] >= n:
                raise Bad("string")
            c = text[p[0]]
            p[0] += 1
            if c == '"':
                return ("s", "".join(out))
            if c != "\\":
                out.append(c)
                continue
            e = text[p[0]]
            p[0] += 1
            if e == "u":
                j = text.index("}", p[0])
                out.append(chr(int(text[p[0] + 1:j], 16)))
                p[0] = j + 1
            else:
                out.append({"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", '"': '"', "'": "'"}[e])

    def seq(end):
        out = []
        p[0] += 1
        while peek() != end:
            out.append(val())
            if peek() != ",":
                break
            p[0] += 1
        eat(end)
        return out

    def val():
        c = peek()
        if c == '"':
            return string()
        if c == "[":
            return ("l", seq("]"))
        if c == "(":
            return ("t", seq(")"))
        if c == "{":
            out = []
            p[0] += 1
            while peek() != "}":
                k = val()
                eat(":")
                out.append((k, val()))
                if peek() != ",":
                    break
                p[0] += 1
            eat("}")
            return ("m", out)
        i = p[0]
        while p[0] < n and (text[p[0]].isalnum() or text[p[0]] in "+-._"):
            p[0] += 1
        w = text[i:p[0]]
        if not w:
            raise Bad("at %r" % text[i:i + 20])
        if peek() == "(" and w[0].isalpha():
            return ("c", w, seq(")"))
        return ("w", w)
    v = val()
    ws()
    if p[0] != n:
        raise Bad("text after the tree")
    return v


def one(v, name=None):
    if v[0] != "c" or len(v[2]) != 1 or (name and v[1] != name):
        raise Bad("constructor %r" % (v[:2],))
    return v[2][0]


def cps(v):
    if v[0] != "s":
        raise Bad("string expected")
    return [ord(c) for c in v[1]]


def flt(s):
    if s in ("inf", "-inf"):
        return ["inf", s[0] == "-"]
    sign, digs, exp = Decimal(s).as_tuple()
    digs = list(digs)
    while len(digs) > 1 and digs[0] == 0:
        digs.pop(0)
    while len(digs) > 1 and digs[-1] == 0:
        digs.pop()
        exp += 1
    if digs == [0]:
        return ["flt", False, [0], 0]
    return ["flt", bool(sign), digs, exp]


def entries(v, key, val):
    if v[0] != "c":
        raise Bad("collection")
    body = one(v)
    if v[1] == "Unmerged" and body[0] == "l":
        out = []
        for e in body[1]:
            if e[0] != "t" or len(e[1]) != 2:
                raise Bad("pair")
            out.append(key(e[1][0]) + [val(e[1][1])])
        return ["U", out]
    if v[1] == "Merged" and body[0] == "m":
        return ["M", [key(k) + [val(x)] for k, x in body[1]]]
    raise Bad("collection")


def tmap(v):
    def key(k):
        return [{"Identifier": "I", "String": "S"}.get(k[1], "?"), cps(one(k))]
    return entries(v, key, tval)


def tblk(v):
    def key(k):
        if k[0] != "l":
            raise Bad("labels")
        return [[cps(s) for s in k[1]]]
    return entries(v, key, tmap)


def tval(v):
    if v == ("w", "Null"):
        return ["null"]
    x = one(v)
    k = v[1]
    if k == "Integer":
        return ["int", [ord(c) for c in x[1]]]
    if k == "Float":
        return flt(x[1])
    if k == "Boolean":
        return ["bool", {"true": True, "false": False}[x[1]]]
    if k == "String":
        return ["str", cps(x)]
    if k == "List":
        return ["list", [tval(y) for y in x[1]]]
    if k == "Object":
        return ["objs", [tmap(y) for y in x[1]]]
    if k == "Block":
        return ["blk", tblk(x)]
    raise Bad("kind " + k)


def tree(data):
    """The value tree that is printed, or None."""
    try:
        return tmap(read_debug(data.decode("utf-8")))
    except (Bad, UnicodeDecodeError, KeyError, IndexError, ValueError, ArithmeticError):
        return None


# ---- a history --------------------------------------------------------------------------------
USAGE = [[], ["foo"], ["parse", "f", "g", "h"], ["parse", "--bad", "f", "g"], ["parse", "", "g"], ["parse", "f", ""], ["-x", "parse", "f", "g"], ["parse", "f", "-o", "g"], ["parse", "f", "g", "--merge"]]


def argv(r):
    pos = [a for a in (r["i"], r["o"]) if a != ""]
    opt = ["--no-merge"] if r["nm"] else []
    f = r["form"]
    if f == 2:
        return ["parse"] + pos + opt
    if f == 3:
        return ["parse"] + pos[:1] + opt + pos[1:]
    if f == 4:
        return ["parse"] + opt + ["--"] + pos if pos else ["parse"] + opt
    return ["parse"] + opt + pos


class Driver:
    def __init__(self, exe, docs, results, unpriv):
        self.docs, self.results, self.unpriv = docs, results, unpriv
        self.root = tempfile.mkdtemp(prefix="vf-cli-")
        os.chmod(self.root, 0o755)
        self.exe = os.path.join(self.root, "tool")
        shutil.copy(exe, self.exe)
        os.chmod(self.exe, 0o755)
        self.files = []
        for i, d in enumerate(docs):
            p = os.path.join(self.root, "in%d" % i)
            with open(p, "wb") as f:
                f.write(d)
            self.files.append(p)
        self.cache = {}

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def place(self, d, n, node):
        p = os.path.join(d, n)
        if os.path.islink(p) or os.path.isfile(p):
            os.unlink(p)
        elif os.path.isdir(p):
            os.rmdir(p)
        k, c = node
        if k == "no":
            return
        if k == "dir":
            os.mkdir(p)
            os.chmod(p, 0o755)
        elif k == "link":
            os.symlink(c, p)
        else:
            with open(p, "wb") as f:
                f.write(self.docs[c[1] - 1])
            os.chmod(p, {"file": 0o644, "ro": 0o444, "wo": 0o200, "lock": 0o000}[k])
        if self.unpriv:
            os.chown(p, NOBODY, NOBODY, follow_symlinks=False)

    def printed(self, i, nm, data):
        """Is data what is printed for document i?"""
        want = self.results[i - 1][0 if nm else 1]
        k = (i, nm, data)
        if k not in self.cache:
            t = tree(data)
            self.cache[k] = t is not None and vf.lenient(want["v"], t)
        return self.cache[k]

    def compare(self, d, fs):
        for n in "fgh":
            k, c = fs[n]
            p = os.path.join(d, n)
            if k == "no":
                if os.path.lexists(p):
                    return "file %s is created" % n
            elif k == "dir":
                if os.path.islink(p) or not os.path.isdir(p) or os.listdir(p):
                    return "directory %s is altered" % n
            elif k == "link":
                if not os.path.islink(p) or os.readlink(p) != c:
                    return "link %s is altered" % n
            else:
                if os.path.islink(p) or not os.path.isfile(p):
                    return "file %s is gone" % n
                with open(p, "rb") as f:
                    data = f.read()
                if c[0] == "doc":
                    if data != self.docs[c[1] - 1]:
                        return "file %s is altered" % n
                elif not self.printed(c[1], c[2], data):
                    return "file %s does not hold the printed value tree" % n
        left = sorted(set(os.listdir(d)) - set("fgh") - {"sealed"})
        if left or os.listdir(os.path.join(d, "sealed")):
            return "other files appear: %r" % left
        return None

    def call(self, d, args, stdin, sout, piped):
        piped = piped and stdin != 0
        data = self.docs[stdin - 1] if piped else None
        fin = None if piped else os.open(d if stdin == 0 else self.files[stdin - 1], os.O_RDONLY)
        rd = None
        if sout == "full":
            out = os.open("/dev/full", os.O_WRONLY)
        elif sout == "closed":
            rd, out = os.pipe()
            os.close(rd)
            rd = None
        else:
            out = subprocess.PIPE
        env = {"PATH": "/usr/bin:/bin", "HOME": d}
        try:
            p = subprocess.Popen([self.exe] + args, cwd=d, stdin=subprocess.PIPE if piped else fin, stdout=out, stderr=subprocess.PIPE, env=env,
                                 start_new_session=True, **({"user": NOBODY, "group": NOBODY, "extra_groups": []} if self.unpriv else {}))
            try:
                o, e = p.communicate(data, timeout=60)
            except subprocess.TimeoutExpired:
                p.kill()
                o, e = p.communicate()
                return None, o or b"", e
            return p.returncode, o or b"", e
        finally:
            if fin is not None:
                os.close(fin)
            if isinstance(out, int) and out >= 0:
                os.close(out)

    def history(self, h):
        """None, or what is wrong with the first wrong step."""
        d = tempfile.mkdtemp(prefix="h", dir=self.root)
        os.chmod(d, 0o777)
        os.mkdir(os.path.join(d, "sealed"))
        os.chmod(os.path.join(d, "sealed"), 0o555)
        try:
            for n in "fgh":
                self.place(d, n, h["init"][n])
            for step in h["h"]:
                if step["do"] == "put":
                    self.place(d, step["n"], step["node"])
                    continue
                if step["do"] == "usage":
                    args, want, sin, sout = USAGE[step["u"] - 1], False, 2, "pipe"
                else:
                    r = step["r"]
                    args, want, sin, sout = argv(r), step["ok"], r["sin"], r["sout"]
                code, o, e = self.call(d, args, sin, sout, step["do"] == "run" and step["r"]["form"] in (2, 3))
                got = {"args": args, "status": code, "stdout": o[:300].decode("utf-8", "replace"), "stderr": e[:300].decode("utf-8", "replace")}
                bad = None
                if code is None:
                    bad = "the run does not end"
                elif code < 0:
                    bad = "the run is ended by signal %d" % -code
                elif want and code != 0:
                    bad = "the run fails"
                elif not want and code == 0:
                    bad = "the run succeeds"
                elif not want and sout == "pipe" and not (o + e).strip():
                    bad = "no error message"
                elif step["do"] == "run" and want and step["so"][0] == "out" and not self.printed(step["so"][1], step["so"][2], o):
                    bad = "the output is not the printed value tree"
                elif step["do"] == "run" and want and step["so"][0] == "nothing" and o:
                    bad = "text on standard output though a file is named"
                elif not want and tree(o) is not None:
                    bad = "a tree is printed by a run that fails"
                bad = bad or self.compare(d, step["fs"])
                if bad:
                    return {"what": bad, "step": step, "got": got}
        finally:
            for n in os.listdir(d):
                p = os.path.join(d, n)
                if os.path.isdir(p) and not os.path.islink(p):
                    os.chmod(p, 0o755)
            shutil.rmtree(d, ignore_errors=True)
        return None

    def all(self, hs):
        global _driver
        _driver = self
        with cf.ProcessPoolExecutor(8, mp_context=multiprocessing.get_context("fork")) as ex:
            return list(ex.map(_history, hs, chunksize=20))


def _history(h):
    return _driver.history(h)
