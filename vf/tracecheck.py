"""Shared base of the checks that parse generated trace texts (C10, C11, C12)."""
from . import traces
from .core import Check


class TraceCheck(Check):
    kinds = []          # [(generator, weight)]
    chunk = 300
    assumptions = ["the expected stacktrace is computed together with the text from the runtime's documented output format, not by a second parser",
                   "texts stay within the formats documented in the parsers and seen in the repository's own sample files"]

    def make(self, rng, i):
        k = rng.choice([k for k, w in self.kinds for _ in range(w)])
        text, exp = traces.GEN[k](rng)
        if k != "koops" and rng.random() < .004:
            text, exp = self.big(rng, k, text, exp)
        cmds = [["parse", 0, k, text], ["?dump", 0], ["parsex", 1, k, text], ["?dump", 1]]
        return cmds, {"k": k, "exp": exp}

    def big(self, rng, k, text, exp):
        return text, exp

    def judge(self, cmds, meta, res, obs):
        k, exp, out = meta["k"], meta["exp"], []
        n = len(cmds[0][3])
        for w, got in (("parse", res[0:2]), ("parse with a cursor", res[2:4])):
            if not got[0]["ok"]:
                out.append((k + ":refused", "%s refused a well-formed trace: %s" % (w, got[0].get("err") or got[0].get("loc"))))
            elif got[1] != exp:
                out.append((k + ":" + where(got[1], exp), "%s gave something else than the trace shows: %s" % (w, diff(got[1], exp))))
        if not 0 <= res[2]["consumed"] <= n:
            out.append((k + ":cursor", "cursor left at %d of %d" % (res[2]["consumed"], n)))
        obs.count("traces " + k)
        fs = frames(exp)
        obs.count("frames " + k, len(fs))
        self.shape(k, exp, fs, obs)
        return out

    def shape(self, k, exp, fs, obs):
        obs.distinct([k, [[(n, sig(v)) for n, v in sorted(f.items())] for f in fs][:6], len(fs)])


def sig(v):
    """The shape of a field: absent, number size or the kinds of characters in it."""
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, int):
        return v if v < 4 else v.bit_length() // 8 + 10
    return "".join(sorted({"a" if c.isalpha() else "0" if c.isdigit() else c for c in v}))


def frames(e):
    if "threads" in e:
        return ([e["crash"]] if e.get("crash") else []) + [f for th in e["threads"] for f in th["frames"]]
    return e["frames"]


def walk(a, b, p=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for n in b:
            r = walk(a.get(n), b[n], p + "." + n)
            if r:
                return r
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return p + "[]", len(a), len(b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = walk(x, y, p + "[%d]" % i)
            if r:
                return r
        return None
    return None if a == b else (p, a, b)


def where(a, b):
    r = walk(a, b)
    return "".join(c for c in r[0] if not c.isdigit()).strip(".") if r else "same"


def diff(a, b):
    r = walk(a, b)
    return "at %s got %r, shown %r" % r if r else "no difference"
