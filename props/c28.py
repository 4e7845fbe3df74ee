"""C28: scanning primitives consume exactly what they match."""
from vf import gen
from vf.core import Check

M32, M64 = 2 ** 32 - 1, 2 ** 64 - 1
DIG, HEX, WS = "0123456789", "0123456789abcdefABCDEF", " \t\n\v\f\r"
SETS = [DIG, HEX, " \t", "\n", "abc", "", "\xff\x80", "a\n", "xyz\"'", " \t\n", "-", "0", "\xc3\xa9"]
PIECES = ["0", "1", "9", "00", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "0x", "0x1f", "0X1F", "x",
          "a", "b", "abc", "abcdef", "ABCDEF", "ffffffffffffffff", "10000000000000000", "0xffffffffffffffff", "g", " ", "  ", "\t", "\n", "\r\n", "\n\n", "\v\f",
          "\xff", "\x80", "\xc3\xa9", "-1", "+1", "-", "'", "\"", "\x01", "aa", "aab", "ab", "4294967294", "18446744073709551614", "0000000000000000000000007"]


def text(rng, maxn=7):
    if rng.random() < .004:
        maxn = gen.large(rng)
        return "".join(rng.choice(PIECES) for _ in range(maxn))
    return "".join(rng.choice(PIECES) for _ in range(rng.choice([0, 1, 1, 2, 3, rng.randrange(maxn + 1)])))


def span(s, chars):
    k = 0
    while k < len(s) and s[k] in chars:
        k += 1
    return k


def cspan(s, chars):
    k = 0
    while k < len(s) and s[k] not in chars:
        k += 1
    return k


def where(s, line=1, col=0):
    """Line and column after reading s."""
    n = s.count("\n")
    return line + n, (len(s) - s.rfind("\n") - 1 if n else col + len(s))


R = lambda ret, used, q=None, s=None, **k: dict({"ret": ret, "consumed": used, "q": q, "s": s}, **k)
FAIL = "fail"


def number(s, base, top):
    k = span(s, DIG if base == 10 else HEX)
    if not k or int(s[:k], base) > top:
        return 0, None
    return k, int(s[:k], base)


def model(k, s, x=None, y=None):
    """What a primitive must answer: (ret, consumed, number, string[, line, col])."""
    if k == "skip_char":
        ok = s[:1] == x
        return R(int(ok), int(ok))
    if k in ("skip_char_limited", "parse_char_limited"):
        ok = bool(s) and s[0] in x
        return R(int(ok), int(ok), q=ord(s[0]) if ok and k[0] == "p" else None)
    if k == "skip_char_sequence":
        n = span(s, x)
        return R(n, n)
    if k in ("skip_char_span", "skip_char_span_location", "parse_char_span"):
        n = span(s, x)
        r = R(n, n, s=s[:n] if n and k[0] == "p" else None)
        if k.endswith("location"):
            r["line"], r["col"] = where(s[:n])
        return r
    if k == "skip_char_cspan":
        n = cspan(s, x)
        return R(n, n)
    if k == "parse_char_cspan":
        n = cspan(s, x)
        return R(int(n > 0), n, s=s[:n] if n else None)
    if k in ("skip_string", "parse_string"):
        ok = s.startswith(x)
        n = len(x) if ok else 0
        return R(n if k[0] == "s" else int(ok), n, s=x if ok and k[0] == "p" else None)
    if k == "parse_digit":
        ok = bool(s) and s[0] in DIG
        return R(int(ok), int(ok), q=ord(s[0]) if ok else None)
    if k == "skip_uint":
        n = span(s, DIG)
        return R(n, n)
    if k in ("parse_uint32", "parse_uint64"):
        n, v = number(s, 10, M32 if k == "parse_uint32" else M64)
        return R(n, n, q=v)
    if k == "skip_hex":
        n = span(s, HEX)
        return R(n, n)
    if k == "skip_0x":
        n = span(s[2:], HEX) if s.startswith("0x") else 0
        return R(n + 2 if n else 0, n + 2 if n else 0)
    if k == "parse_hex":
        n, v = number(s, 16, M64)
        return R(n, n, q=v)
    if k == "parse_0x":
        n, v = number(s[2:], 16, M64) if s.startswith("0x") else (0, None)
        return R(n + 2 if n else 0, n + 2 if n else 0, q=v)
    if k == "skip_ws":
        return R(0, span(s, WS))
    if k == "skip_nws":
        return R(0, cspan(s, WS))
    if k == "next_line":
        line, col = int(x), int(y)
        n = cspan(s, "\n")
        if n < len(s):
            return R(1, n + 1, line=line + 1, col=0)
        return R(0, n, line=line, col=col + n)
    if k in ("strchr", "strstr"):
        n = s.find(x)
        r = R(n, 0)
        if n >= 0:
            r["line"], r["col"] = where(s[:n])
        return r
    if k == "strspn":
        n = span(s, x)
        r = R(n, 0)
        r["line"], r["col"] = where(s[:n])
        return r
    if k == "bin2hex":
        h = s.encode("latin-1").hex()
        return R(len(h), 0, s=h)
    if k in ("indent", "indent1"):
        pad = " " * int(x)
        parts = s.split("\n")
        out = [p if (i == 0 and k == "indent1") or (i == len(parts) - 1 and not p) else pad + p for i, p in enumerate(parts)]
        return R(0, 0, s="\n".join(out))
    if k == "path":
        return R(0, 0, s="/".join([s] + [z for z in (x, y) if z is not None]))
    if k == "anon":
        if s.startswith("/home/") and "/" in s[6:]:
            s = "/home/anonymized" + s[s.index("/", 6):]
        return R(0, 0, s=s)


SETTED = ["skip_char_limited", "parse_char_limited", "skip_char_span", "skip_char_span_location", "parse_char_span", "skip_char_cspan", "parse_char_cspan", "strspn"]
PLAIN = ["parse_digit", "skip_uint", "parse_uint32", "parse_uint64", "skip_hex", "skip_0x", "parse_hex", "parse_0x", "skip_ws", "skip_nws", "bin2hex", "anon"]


class C28(Check):
    id = "C28"
    quick_n, thorough_n, chunk = 32000, 400000, 400
    rule = ("one case = 12 calls of scanning primitives on generated texts (spans, numbers at the limits, newlines, bytes above 0x7f, empty texts), each compared with "
            "its definition computed in Python: result, characters consumed, text or value produced, line and column; texts are copied to exact-size heap blocks so that "
            "reading past the terminator is reported by AddressSanitizer; distinct = (primitive, outcome class, text)")
    assumptions = ["characters to look for are not NUL; the position of a failed search is unspecified", "locale C"]

    def one(self, rng):
        c = rng.random()
        s = text(rng)
        if c < .3:
            k = rng.choice(SETTED)
            x = rng.choice(SETS)
            if rng.random() < .5 and x:
                s = "".join(rng.choice(x) for _ in range(rng.randrange(6))) + s
            return [k, s, x]
        if c < .6:
            k = rng.choice(PLAIN)
            if k == "anon":
                s = rng.choice(["/home/", "/home", "/home//", "/Home/", "/root/", "/home/anonymized/", "x/home/", ""]) + rng.choice(["", "bob", "a/b", "x/", "/"]) + s
            elif rng.random() < .3 and "0x" in k:
                s = "0x" + s
            elif rng.random() < .3 and k.startswith("parse_uint"):
                top = M32 if "32" in k else M64
                s = str(rng.choice([top, top + 1, top - 1, rng.randrange(top * 2), rng.randrange(1 << 32)])) + s
            elif rng.random() < .3 and k == "parse_hex":
                s = "%x" % rng.choice([M64, M64 + 1, rng.randrange(M64 * 2), M64 - 1]) + s
            return [k, s]
        if c < .7:
            k = rng.choice(["skip_string", "parse_string", "strstr", "strstr"])
            x = rng.choice(["abc", "a", "ab", "0x", "\n", "aab", "\xff", "b\n", "\n\n", "\n\na", "\na\n", "a\n\n", "\n" * 3, text(rng, 2) or "z", "aaa"])
            if rng.random() < .4:
                s = x + s if "skip" in k or "parse" in k else s + x + text(rng, 2)
            elif rng.random() < .3:
                s = s + x[:-1]
            return [k, s, x]
        if c < .8:
            k = rng.choice(["skip_char", "skip_char_sequence", "strchr", "strchr"])
            x = rng.choice(list("a0x\n 9-") + ["\xff", "\x80"])
            if k == "skip_char_sequence" and rng.random() < .6:
                s = x * rng.randrange(5) + s
            return [k, s, x]
        if c < .86:
            return ["next_line", s, str(rng.choice([1, 5, 1000])), str(rng.choice([0, 3, 77]))]
        if c < .93:
            return [rng.choice(["indent", "indent1"]), s, str(rng.choice([0, 1, 2, 4, 9]))]
        if c < .97:
            return ["path", s] + [text(rng, 2) for _ in range(rng.randrange(3))]
        return ["demangle"] + self.mangled(rng)

    def mangled(self, rng):
        ids = ["foo", "x", "alpha_1", "Bar9", "_p"]
        names = [rng.choice(ids) for _ in range(rng.randint(1, 3))]
        enc = "".join("%d%s" % (len(n), n) for n in names)
        if len(names) > 1:
            enc = "N" + enc + "E"
        ts = [rng.choice([("i", "int"), ("c", "char"), ("d", "double"), ("Pc", "char*"), ("RKi", "int const&"), ("b", "bool")]) for _ in range(rng.randrange(3))]
        if len({a for a, _ in ts if len(a) > 1}) != len([a for a, _ in ts if len(a) > 1]):
            ts = ts[:1]
        return ["_Z" + enc + ("".join(a for a, _ in ts) or "v"), "::".join(names) + "(" + ", ".join(b for _, b in ts) + ")"]

    def make(self, rng, i):
        cmds, meta = [], {"exp": []}
        while len(cmds) < 10:
            c = self.one(rng)
            if c[0] == "demangle":
                bad = rng.random() < .4
                t = rng.choice(["f", "i", "_", "_z3foov", "main", "", "Z3foov", "_Z", "_Zx", "_Z99foo", " _Z3foov"]) if bad else c[1]
                cmds.append(["prim", "demangle", t])
                meta["exp"].append(None if bad else c[2])
            else:
                cmds.append(["prim", c[0]] + [a.encode("latin-1") for a in c[1:]])
                meta["exp"].append(model(*c))
        # locations
        t = text(rng)
        l, c = rng.choice([1, 2, 50]), rng.choice([0, 1, 9])
        cmds.append(["loc", "eat", str(l), str(c), t.encode("latin-1")])
        e = where(t, l, c)
        meta["exp"].append(list(e))
        t2 = text(rng)
        w = where(t2)
        cmds.append(["loc", "add", str(e[0]), str(e[1]), str(w[0]), str(w[1])])
        meta["exp"].append(list(where(t + t2, l, c)))
        a, b = (rng.randrange(3), rng.randrange(3)), (rng.randrange(3), rng.randrange(3))
        m1, m2 = rng.choice(["\x01", "a", "b", ""]), rng.choice(["\x01", "a", "b", ""])
        cm = rng.randrange(2)
        key = lambda p, m: p + (((-1,) if m == "\x01" else (0, m)) if cm else ())
        cmds.append(["loc", "cmp", str(a[0]), str(a[1]), str(b[0]), str(b[1]), m1, m2, str(cm)])
        ka, kb = key(a, m1), key(b, m2)
        meta["exp"].append((ka > kb) - (ka < kb))
        msg = rng.choice([None, "x y", ""])
        cmds.append(["loc", "str", str(l), str(c)] + ([msg] if msg is not None else []))
        meta["exp"].append("Line %d, column %d" % (l, c) + (": " + msg if msg is not None else ""))
        us = [text(rng, 2) for _ in range(rng.randrange(7))]
        if rng.random() < .004:
            us += [text(rng, 4) + str(j) for j in range(gen.large(rng))]
        us += [rng.choice(us) for _ in range(rng.randrange(4))] if us else []
        rng.shuffle(us)
        cmds.append(["struniq"] + [u.encode("latin-1") for u in us])
        meta["exp"].append(sorted(set(us)))
        return cmds, meta

    def judge(self, cmds, meta, res, obs):
        out = []
        for c, e, g in zip(cmds, meta["exp"], res):
            name = c[1] if c[0] in ("prim", "loc") else c[0]
            if c[0] == "loc" and isinstance(e, list):
                g = [g["line"], g["column"]] if isinstance(g, dict) else g[:2]
            elif c[0] == "prim" and name in ("strchr", "strstr") and e["ret"] == -1:
                g = {k: v for k, v in g.items() if k not in ("line", "col")}
                e = {k: v for k, v in e.items() if k not in ("line", "col")}
            obs.count("calls of " + name)
            if c[0] == "prim" and isinstance(e, dict):
                obs.count("matches" if e["consumed"] or e["ret"] else "nothing matched")
            obs.distinct([name, c[2:]])
            if g != e:
                out.append(("prim:" + name, "%s gives %r, expected %r" % (c[1:] if c[0] != "struniq" else c, g, e)))
        return out


CHECK = C28
