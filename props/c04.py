"""C04: a report's JSON is well-formed, complete and decodes to the same report."""
import copy
from vf import gen, jsonx, texts
from vf.core import Check
from vf.driver import spec
from props import c03

TYPES = {"core": 2, "python": 3, "koops": 4, "java": 5, "gdb": 1, "ruby": 6, "js": 7}
NAMES = {"gdb": "invalid", "core": "core", "python": "python", "koops": "kerneloops", "java": "java", "ruby": "ruby", "js": "javascript", None: "invalid"}

NUMS = ["invalid", "core", "python", "kerneloops", "java", "gdb", "ruby", "javascript"]


def s(rng, mode, null=.2):
    return None if rng.random() < null else gen.string(rng, mode)


def package(rng, mode):
    return {"name": s(rng, mode, .1), "epoch": gen.integer(rng, "u"), "version": s(rng, mode), "release": s(rng, mode), "architecture": s(rng, mode),
            "install_time": gen.integer(rng, "q"), "role": rng.choice([0, 0, 1])}


def system(rng, mode):
    o = {k: s(rng, mode, .3) for k in ("name", "version", "architecture", "cpe", "desktop", "variant")}
    o["uptime"] = rng.choice([0, gen.integer(rng, "q")])
    return o


def pkg_doc(p):
    d = {k: p[k] for k in ("name", "epoch", "version", "release", "architecture") if p[k] is not None}
    if p["install_time"]:
        d["install_time"] = p["install_time"]
    if p["role"]:
        d["package_role"] = "affected"
    return d


def os_doc(o):
    return {k: v for k, v in o.items() if v is not None and (k != "uptime" or v)}


def report(rng, enum, t=False, mode=None):
    mode = mode or rng.choice(["plain", "hostile", "hostile"])
    if t is False:
        t = rng.choice(["core", "python", "koops", "java", "ruby", "js", "core", None])
    r = {"report_version": rng.choice([2, 1, gen.integer(rng, "u")]), "report_type": enum[t] if t else enum[None], "user_root": rng.randrange(2),
         "user_local": rng.randrange(2), "component_name": s(rng, mode), "serial": gen.integer(rng, "u")}
    if rng.random() < .7:
        r["reporter_name"], r["reporter_version"] = gen.string(rng, mode), gen.string(rng, mode)
    r["os"] = None if rng.random() < .3 else system(rng, mode)
    r["packages"] = [package(rng, mode) for _ in range(gen.count(rng, 5))]
    keys = []
    for _ in range(gen.count(rng, 4)):
        k = gen.string(rng, mode)
        if k not in keys:
            keys.append(k)
    r["auth"] = [[k, gen.string(rng, mode)] for k in keys]
    st = None
    if t:
        st = gen.stacktrace(rng, t, mode, null=rng.choice([.2, .95]))
        if t == "ruby":
            for f in st["frames"]:
                f["rescue_level"] %= 50
        if t == "js":
            st["platform"] = rng.choice([0, 1, 0x10, 0x11])
    return t, r, st


def doc(t, r, st, name, version):
    """The document of a report, given its effective reporter."""
    d = {"ureport_version": r["report_version"], "reporter": {"name": name, "version": version}, "reason": texts.reason(t, st) if st and t != "gdb" else "invalid",
         "packages": [pkg_doc(p) for p in r["packages"]]}
    if r["os"] is not None:
        d["os"] = os_doc(r["os"])
    p = {"type": NAMES[t], "serial": r["serial"]}
    if r["component_name"] is not None:
        p["component"] = r["component_name"]
    if t != "koops":
        p["user"] = {"root": bool(r["user_root"]), "local": bool(r["user_local"])}
    if st and t != "gdb":
        p.update(c03.canon(c03.doc(t, st)))
    d["problem"] = p
    if r["auth"]:
        d["auth"] = dict(map(tuple, r["auth"]))
    return d


class C04(Check):
    id = "C04"
    quick_n, thorough_n, chunk = 32000, 300000, 250
    rule = ("one case = a report of some type with random parts encoded, read strictly, compared with the document its content defines, decoded, "
            "compared part by part, and encoded again; distinct = documents")
    assumptions = ["stacktraces are encoded as checked by C03, crash reasons rendered as checked by C26", "kernel oops reports carry no user flags",
                   "authentication keys are distinct (an object's keys)", "package consistency data is not part of the format"]
    ENUM = {None: 0, "core": 1, "python": 2, "koops": 3, "java": 4, "gdb": 5, "ruby": 6, "js": 7}

    def make(self, rng, i):
        bare = rng.random() < .04
        t, r, st = report(rng, self.ENUM, "gdb" if rng.random() < .04 else False)
        if bare:
            st = None
        cmds = [["build", 0, t, spec(st)]] if st else [["echo", "x"]]
        cmds += [["rep", "build", 1, spec(r), 0 if st else -1], ["rep", "dump", 1], ["rep", "tojson", 1], ["rep", "fromjson", 2, "@@3"],
                 ["?rep", "dump", 2], ["?rep", "tojson", 2], ["rep", "dump", 1]]
        num = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 100, -1, 2 ** 31 - 1, -2 ** 31])
        name = rng.choice(NUMS + [gen.string(rng, "hostile"), "Core", "kernel", "core ", "", "javascrip", "kerneloops\n"])
        cmds += [["rep", "typestr", num], ["rep", "strtype", 0, name]]
        return cmds, {"t": t, "r": r, "st": st, "bare": bare and t is not None}

    def judge(self, cmds, meta, res, obs):
        t, r, st, out = meta["t"], meta["r"], meta["st"], []
        text = res[3]
        num, name = cmds[-2][2], cmds[-1][3]
        if res[8] != (NUMS[num] if 0 <= num < 8 else "invalid") or res[9] != (NUMS.index(name) if name in NUMS else 0):
            return [("type-name", "report type %d is named %r, type name %r is read as %r" % (num, res[8], name, res[9]))]
        try:
            d = jsonx.strict(text)
        except jsonx.Bad as e:
            return [("malformed", "report gives malformed JSON (%s): %s" % (e, text[:2500]))]
        obs.distinct(text)
        obs.count("reports " + str(t))
        e = doc(t, r, st, res[2]["reporter_name"], res[2]["reporter_version"])
        if "problem" in d:
            d["problem"] = c03.canon(d["problem"])
        if meta["bare"]:
            obs.count("known type without a stacktrace")
            d.pop("reason", None)
            e.pop("reason", None)
        if d != e:
            out.append(("document", "document %r differs from the report's %r" % c03.diff(d, e)))
        if not res[4]["ok"]:
            return out + [("refused", "decoding the report's own document fails: %r for %s" % (res[4], text[:2000]))]
        if meta["bare"] or t == "gdb":
            return out
        x = copy.deepcopy(res[2])
        if st:
            x["stacktrace"] = c03.decoded(t, st)
        if t == "koops":
            x["user_root"], x["user_local"] = 0, 1
        for p in x["packages"]:
            p["consistency"] = []
        g = copy.deepcopy(res[5])
        if g.get("stacktrace") and t == "core":
            c03.drop_id(t, g["stacktrace"])
        if g != x:
            out.append(("roundtrip", "decoded %r expected %r" % c03.diff(g, x)))
        if res[6] != text and t != "koops":
            out.append(("reencode", "second encoding differs: %r / %r" % (res[6], text)))
        if res[7] != res[2]:
            out.append(("modified", "encoding changed the report"))
        return out


CHECK = C04
