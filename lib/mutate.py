"""Random corruption of texts (lists of code points), only with characters the specification classifies."""
UNI = {233, 955, 20013, 8551, 769, 183, 8255, 178, 8364, 160, 8232, 128512, 1114111, 133, 65279, 65533}
TOKENS = ["\n", "\r\n", "\r", " ", "\t", "=", "{", "}", "[", "]", "(", ")", ",", "\"", "\\", "#", "//", "/*", "*/", "/", "*", "a", "b",
          "0", "1", "-", "+", ".", "e", "E", "<<", "<<-", "<<E\n", "\nE\n", "null", "true", "false", "\\n", "\\x41", "\\u00e9", "\\U",
          "\\7", "a = 1", "a = 1\n", "b {", "b {\n", "}\n", "b \"l\" {}\n", "{}", "[]", "# c\n", "/* c */", "\"s\"", "$", "?", ":", ";",
          "\u00e9", "\u0301", "\u20ac", "\U0001f600", "\u00a0", "_", "\ufeff", "\x85", "\0"]


def known(t):
    return all(c < 128 or c in UNI for c in t)


def cps(s):
    return [ord(c) for c in s]


def mutate(rng, t, pool=None):
    t = list(t)
    for _ in range(rng.choice((1, 1, 1, 2, 2, 3, 5))):
        k = rng.randrange(11)
        n = len(t)
        i = rng.randrange(n + 1)
        j = min(n, i + rng.choice((1, 1, 1, 2, 3, 5, 12)))
        tok = cps(rng.choice(TOKENS))
        if k <= 1:
            t[i:j] = []
        elif k <= 3:
            t[i:i] = tok
        elif k == 4:
            t[i:j] = tok
        elif k == 5:
            t[i:i] = t[i:j]
        elif k == 6:
            t = t[:i]
        elif k == 7:
            t = t[i:]
        elif k == 8 and n > 4:
            a = rng.randrange(n)
            b = min(n, a + rng.randrange(1, 10))
            seg = t[a:b]
            del t[a:b]
            p = rng.randrange(len(t) + 1)
            t[p:p] = seg
        elif k == 9 and pool:
            o = rng.choice(pool)
            if o:
                a = rng.randrange(len(o))
                t[i:j] = o[a:a + rng.choice((1, 2, 4, 8, 20, 40))]
        else:   # confuse a structural character with another
            pos = [x for x in range(n) if t[x] in cps("{}[]()=,\"\n\r#/*\\<")]
            if pos:
                x = rng.choice(pos)
                t[x:x + 1] = cps(rng.choice(("", "{", "}", "[", "]", "=", ",", "\"", "\n", "\r\n", " ")))
    return t
