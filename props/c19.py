"""C19: package names, ordering, lists and JSON."""
import json, re
from vf import gen, jsonx
from vf.core import Check
from vf.driver import spec

NVR = re.compile(r"(.+)-([^-]+)-([^-]+)", re.S)
NEVRA = re.compile(r"(.+)-([^-]+)-([^-]+)\.([^.-]+)", re.S)
FIELDS = ["path", "owner_changed", "group_changed", "mode_changed", "md5_mismatch", "size_changed", "major_number_changed",
          "minor_number_changed", "symlink_changed", "modification_time_changed"]


def nvr(t):
    m = NVR.fullmatch(t)
    return list(m.groups()) if m else None


def nevra(t):
    m = NEVRA.fullmatch(t)
    if not m:
        return None
    n, v, r, a = m.groups()
    e = 0
    if ":" in v:
        es, v = v.split(":", 1)
        if not re.fullmatch("[0-9]+", es) or int(es) >= 2**32 or not v:
            return None
        e = int(es)
    return [n, e, v, r, a]


def skey(s):
    return (0, b"") if s is None else (1, s.encode("latin-1") if all(ord(c) < 256 for c in s) else s.encode())


def ckey(c):
    return (skey(c["path"]),) + tuple(int(c[f]) for f in FIELDS[1:])


def k_nvr(p):
    return (skey(p["name"]), skey(p["version"]), skey(p["release"]))


def k_nevra(p):
    return (k_nvr(p), p["epoch"], skey(p["architecture"]))


def clist(p):
    return tuple(ckey(c) for c in p["consistency"])


def k_full(p):
    return (k_nevra(p), p["install_time"], clist(p))


def canon(p):
    return json.dumps(p, sort_keys=True)


def merge(a, b):
    if k_nvr(a) != k_nvr(b) or a["epoch"] != b["epoch"]:
        return None
    if a["architecture"] is not None and b["architecture"] is not None and a["architecture"] != b["architecture"]:
        return None
    return {"name": a["name"], "epoch": a["epoch"], "version": a["version"], "release": a["release"],
            "architecture": a["architecture"] if a["architecture"] is not None else b["architecture"],
            "install_time": a["install_time"] or b["install_time"], "role": a["role"] or b["role"],
            "consistency": a["consistency"] or b["consistency"]}


def uniq(ps):
    out = []
    for p in ps:
        m = merge(out[-1], p) if out else None
        if m:
            out[-1] = m
        else:
            out.append(p)
    return out


class C19(Check):
    id = "C19"
    quick_n, thorough_n, chunk = 30000, 400000, 200
    leak = True
    rule = ("one case = a batch of package name texts parsed and judged by an exact grammar, or one package list whose pairwise comparison signs, "
            "sorting, uniquing, concatenation, JSON text and decoding are judged by a model; distinct = (texts) or (list content)")
    assumptions = ["package consistency is documented as not encoded in JSON (TODO in the source); an install time of 0 means unknown and is not encoded",
                   "packages equal in NEVRA may come out of sorting in any order"]

    def text(self, rng):
        parts = ["a", "bash", "0", "12", "x86_64", "fc39", "~", "^", "+", ":", "1:", "-", "--", ".", "..", "", " ", "\n", "\t", "4294967295", "4294967296",
                 "18446744073709551616", "99999999999999999999999", "-1", "+1", "é", "python3", "007"]
        if rng.random() < 0.5:
            return "".join(rng.choice(parts) for _ in range(rng.randrange(9)))
        n = "-".join(rng.choice(["a", "bash", "python3", "lib:x", "x.y", "-"]) for _ in range(rng.randrange(1, 4)))
        e = rng.choice(["", "", "0:", "1:", "%d:" % rng.randrange(2**32), "4294967295:", "4294967296:", ":", " 1:", "-1:", "+1:", "1x:", "x:", "0x1:", "1:2:",
                        "18446744073709551617:", "00000000000000000001:"])
        v = rng.choice(["1", "1.2.3", "4.5~rc1", "", "1:2", "2^g1"])
        r = rng.choice(["1", "1.fc39", "0.1.el8_4", "", "1:1", ".", "2."])
        a = rng.choice(["", ".x86_64", ".noarch", ".", ".i-686", ".a:b", ".(none)"])
        return "%s-%s%s-%s%s" % (n, e, v, r, a)

    def pkg(self, rng, tie):
        s = (lambda *v: rng.choice(v)) if tie else (lambda *v: rng.choice(list(v) + [gen.string(rng, "hostile")]))
        p = {"name": s("a", "b", "bash", None, ""), "epoch": rng.choice([0, 0, 1, 2**31 - 1, 2**31, 2**32 - 1, rng.randrange(2**32)]) if rng.random() < 0.4 else 0,
             "version": s("1", "1", "1.0", "2", None), "release": s("1", "1", "1.fc1", None, ""),
             "architecture": s("x86_64", "noarch", None, None, ""),
             "install_time": rng.choice([0, 0, 1, 2**31, 2**32, 2**32 + 1, 2**63, 2**64 - 1, 1600000000]), "role": rng.choice([0, 0, 1]), "consistency": []}
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 4])):
            c = {f: int(rng.random() < 0.2) for f in FIELDS[1:]}
            c["path"] = rng.choice(["/bin/a", "/bin/b", None, ""])
            p["consistency"].append(c)
        return p

    def pkgs(self, rng, top=7):
        base = [self.pkg(rng, rng.random() < 0.8) for _ in range(rng.choice([0, 1, 2, 3, 5, top]) if rng.random() < .998 else min(gen.large(rng), 70))]
        out = []
        for p in base:
            out.append(p)
            for _ in range(rng.choice([0, 0, 1, 1, 2])):
                q = json.loads(json.dumps(p))
                k = rng.choice(["epoch", "architecture", "install_time", "role", "version", "consistency", "none", "arch0"])
                o = self.pkg(rng, True)
                if k in o:
                    q[k] = o[k]
                elif k == "arch0":
                    q["architecture"] = None
                if k == "consistency" and p["consistency"]:
                    q[k] = json.loads(json.dumps(p[k]))
                    c = rng.choice(q[k])
                    f = rng.choice(FIELDS[1:])
                    c[f] = 1 - c[f]
                out.append(q)
        if rng.random() < 0.6:
            rng.shuffle(out)
        return out

    def make(self, rng, i):
        if i % 2:
            ts = [self.text(rng) for _ in range(20)]
            return [[w, t] for t in ts for w in ("nvr", "nevra")], {"texts": ts}
        ps, qs = self.pkgs(rng), self.pkgs(rng, 3)
        cmds = [["pkg", "build", 0, spec(ps)], ["pkg", "dump", 0], ["pkg", "count", 0], ["pkg", "cmpall", 0],
                ["pkg", "tojson", 0, 1], ["pkg", "fromjson", 1, "@@4", 1], ["pkg", "dump", 1],
                ["pkg", "build", 2, spec(qs)], ["pkg", "append", 1, 2], ["pkg", "count", 1], ["pkg", "sort", 1], ["pkg", "uniq", 1], ["pkg", "sort", 0], ["pkg", "uniq", 0]]
        if ps:
            cmds += [["pkg", "build", 3, spec(ps[:1])], ["pkg", "tojson", 3, 0], ["pkg", "fromjson", 4, "@@15", 0], ["pkg", "dump", 4]]
        return cmds, {"ps": ps, "qs": qs}

    def judge(self, cmds, meta, res, obs):
        out = []
        if "texts" in meta:
            for c, got in zip(cmds, res):
                want = (nvr if c[0] == "nvr" else nevra)(c[1])
                obs.count("texts accepted" if want else "texts refused")
                if got != want:
                    out.append((c[0], "%r parsed as %r, expected %r" % (c[1], got, want)))
            obs.distinct(meta["texts"])
            if res[-1].get("net"):
                out.append(("leak", "%d blocks remain after parsing %r" % (res[-1]["net"], meta["texts"])))
            return out
        ps, qs = meta["ps"], meta["qs"]
        obs.distinct(ps)
        if res[1] != ps:
            out.append(("build", "built %r, read back %r" % (ps, res[1])))
            return out
        if res[2] != len(ps):
            out.append(("count", "%d packages counted as %r" % (len(ps), res[2])))
        n = len(ps)
        lim = min(n, 64)
        for name, key, got in zip(["cmp", "cmp_nvr", "cmp_nevra", "consistency", "consistency entry"], [k_full, k_nvr, k_nevra, clist, lambda p: clist(p)[:1]], res[3]):
            ks = [key(p) for p in ps[:lim]]
            want = [(a > b) - (a < b) if name != "consistency entry" or a and b else 0 for a in ks for b in ks]
            obs.count("pairs compared", len(want))
            if got != want:
                d = [j for j in range(len(want)) if got[j] != want[j]][0]
                out.append(("cmp:" + name, "%s of %r and %r has sign %d, expected %d" % (name, ps[d // lim], ps[d % lim], got[d], want[d])))
        plain = [dict(p, consistency=[]) for p in ps]
        for j, w in ((4, ps), (15, ps[:1])):
            if j >= len(cmds):
                continue
            try:
                doc = jsonx.strict(res[j])
            except jsonx.Bad as e:
                out.append(("json", "JSON of %r is malformed: %s\n%s" % (w, e, res[j])))
                continue
            wd = []
            for p in w:
                d = {k: p[k] for k in ("name", "version", "release", "architecture") if p[k] is not None}
                d["epoch"] = p["epoch"]
                if p["install_time"]:
                    d["install_time"] = p["install_time"]
                if p["role"]:
                    d["package_role"] = "affected"
                wd.append(d)
            if doc != (wd if j == 4 else wd[0]):
                out.append(("json", "JSON of %r states %r" % (w, doc)))
        if res[5]["ret"] != 0 or res[6] != plain:
            out.append(("roundtrip", "%r encoded as %s decodes to %r (%r)" % (plain, res[4], res[6], res[5])))
        if n and (res[16]["ret"] != 0 or res[17] != plain[:1]):
            out.append(("roundtrip", "%r encoded as %s decodes to %r (%r)" % (plain[:1], res[15], res[17], res[16])))
        if not out:
            both = plain + qs
            if res[8] != both or res[9] != len(both):
                out.append(("append", "%r appended to %r gives %r (%r)" % (qs, plain, res[8], res[9])))
            for s, u, src in ((10, 11, both), (12, 13, ps)):
                got = res[s]
                if sorted(map(canon, got)) != sorted(map(canon, src)):
                    out.append(("sort", "sorting %r loses or changes packages: %r" % (src, got)))
                elif [k_nevra(p) for p in got] != sorted(k_nevra(p) for p in src):
                    out.append(("sort", "sorting %r is not ordered: %r" % (src, got)))
                obs.count("lists sorted")
                w = uniq(got)
                obs.count("packages merged", len(got) - len(w))
                if res[u] != w:
                    out.append(("uniq", "uniquing %r gives %r, expected %r" % (got, res[u], w)))
        return out


CHECK = C19
