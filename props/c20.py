"""C20: operating-system descriptions."""
import json
from vf import gen, jsonx
from vf.core import Check
from vf.driver import spec


def unescape(v):
    out, i = [], 0
    while i < len(v):
        c = v[i]
        if c == "\\":
            i += 1
            if i < len(v):
                out.append(v[i])
        elif c not in "'\"":
            out.append(c)
        i += 1
    return "".join(out)


def assignments(text):
    out = []
    for line in text.split("\n"):
        if line.startswith("#") or line.startswith("="):
            continue
        k, eq, v = line.partition("=")
        if eq:
            out.append([k, unescape(v)])
    return out


NONE = {"name": None, "version": None, "architecture": None, "cpe": None, "uptime": 0, "desktop": None, "variant": None}


def osrelease(text):
    o = dict(NONE)
    for k, v in assignments(text):
        if k == "ID":
            o["name"] = v
        elif k == "VERSION_ID":
            if o["version"] is None:
                o["version"] = v
        elif k == "VERSION":
            if "(Rawhide)" in v:
                o["version"] = "rawhide"
        elif k == "CPE_NAME":
            o["cpe"] = v
        elif k == "VARIANT_ID":
            o["variant"] = v
    return o, o["name"] is not None and o["version"] is not None


def low(s):
    return "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)


def sysrel(text):
    i = text.find(" release ")
    if i <= 0:
        return None
    rh = "red hat enterprise linux"
    name = "rhel" if low(text[:len(rh)]) == rh else low(text[:i])
    v = text[i + 9:]
    n = 0
    while n < len(v) and v[n] in "0123456789.":
        n += 1
    return [name, v[:n] if n else v]


class C20(Check):
    id = "C20"
    quick_n, thorough_n, chunk = 64000, 500000, 200
    leak = True
    rule = ("one case = one os-release text (all assignments seen through the line callback, and the derived description), one system-release line or "
            "one description encoded and decoded, judged by an independent reader; distinct = (text)")
    assumptions = ["the first VERSION_ID counts, and a VERSION naming Rawhide overrides it wherever it stands (documented work-around); of the other keys the last value counts",
                   "a system-release line without digits after 'release' gives the rest of the text as version (documented fallback)"]
    KEYS = ["ID", "VERSION_ID", "VERSION", "CPE_NAME", "VARIANT_ID", "NAME", "PRETTY_NAME", "ID_LIKE", "id", " ID", "ID ", "VARIANT", "", "VERSION_IDX"]
    VALS = ["fedora", "39", '"39"', "'39'", "rawhide", '"Rawhide (Rawhide)"', "40 (Rawhide Prerelease)", "(Rawhide)", "\\(Rawhide)", "cpe:/o:fedoraproject:fedora:39",
            "workstation", '""', "", "a=b", "=", "\\", "\\\\", '\\"', "a\\nb", "\"unterminated", "x\\", "é", "$(reboot)", "a b", "#c", "\t7\r", "rhel", "7.4", "'\"'"]

    def line(self, rng):
        c = rng.random()
        if c < .75:
            v = rng.choice(self.VALS) if rng.random() < .8 else "".join(rng.choice("ab\\'\"=#() é") for _ in range(rng.randrange(10)))
            return "%s=%s" % (rng.choice(self.KEYS[:6]) if rng.random() < .75 else rng.choice(self.KEYS), v)
        return rng.choice(["", "# comment", "#ID=x", " # ID=y", "garbage", "ID", "=x", "==", " ", "ID\t=1", "export ID=1", "#", "ID fedora"])

    def make(self, rng, i):
        if i % 4 < 2:
            n = rng.choice([0, 1, 2, 4, 8, 15])
            t = "".join(self.line(rng) + "\n" for _ in range(n))
            if t and rng.random() < .4:
                t = t[:-1]
            if rng.random() < .1:
                t = "\n" + t
            return [["osrelcb", t], ["os", "release", 0, t], ["free", 0]], {"t": t}
        if i % 4 == 2:
            ts = []
            for _ in range(8):
                n = rng.choice(["Fedora", "Red Hat Enterprise Linux Server", "red hat enterprise linux", "RED HAT ENTERPRISE LINUX", "Red Hat Enterprise Linu", "CentOS", "", "A  B",
                                "\xc9x", "Red Hat Enterprise LinuxX", "x release y", "[Z]`@{"])
                s = rng.choice([" release ", " release ", " release ", " release", "release ", " Release ", "  release  ", " release  release "])
                v = rng.choice(["20 (Heisenbug)", "7.4 (Maipo)", "", "Rawhide", "6.", ".", "20", "17\n", "\n", "x7", "7.1.2beta", " 7", "1.2.3.4.5", "9 release 10", "\xb2"])
                ts.append(n + s + v + rng.choice(["", "\n", "\nsecond release 3\n"]))
            return [["os", "sysrel", 0, t] for t in ts], {"s": ts}
        o = {"uptime": rng.choice([0, 0, 1, 2**31, 2**32, 2**63, 2**64 - 1])}
        for k in ("name", "version", "architecture", "cpe", "desktop", "variant"):
            o[k] = rng.choice([None, gen.string(rng, "hostile"), gen.string(rng, "hostile")])
        return [["os", "build", 0, spec(o)], ["os", "dump", 0], ["os", "tojson", 0], ["os", "fromjson", 1, "@@2"], ["free", 0], ["free", 1]], {"o": o}

    def judge(self, cmds, meta, res, obs):
        out = []
        obs.distinct(meta)
        if "t" in meta:
            t = meta["t"]
            w = assignments(t)
            obs.count("assignments", len(w))
            if res[0] != w:
                out.append(("assignments", "%r gives the assignments %r, expected %r" % (t, res[0], w)))
            o, ok = osrelease(t)
            obs.count("descriptions complete" if ok else "descriptions incomplete")
            if res[1]["os"] != o or bool(res[1]["ret"]) != ok:
                out.append(("osrelease", "%r gives %r, expected %r %r" % (t, res[1], ok, o)))
        elif "s" in meta:
            for t, r in zip(meta["s"], res):
                w = sysrel(t)
                obs.count("lines accepted" if w else "lines refused")
                if r != w:
                    out.append(("sysrel", "%r gives %r, expected %r" % (t, r, w)))
        else:
            o = meta["o"]
            if res[1] != o:
                return [("build", "%r %r" % (res[1], o))]
            try:
                d = jsonx.strict(res[2])
            except jsonx.Bad as e:
                return [("json", "JSON of %r is malformed: %s: %s" % (o, e, res[2]))]
            w = {k: v for k, v in o.items() if v}
            w.update({k: "" for k, v in o.items() if v == ""})
            if d != w:
                out.append(("json", "JSON of %r states %r" % (o, d)))
            if res[3]["os"] != o:
                out.append(("roundtrip", "%r decodes from %s as %r" % (o, res[2], res[3])))
            obs.count("descriptions encoded")
        if res[-1].get("net"):
            out.append(("leak", "%d blocks remain for %r" % (res[-1]["net"], meta)))
        return out


CHECK = C20
