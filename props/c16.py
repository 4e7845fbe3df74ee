"""C16: backtrace hashes cover the whole stacktrace deterministically."""
import copy
from vf import gen, texts, known_frames
from vf.core import Check
from vf.driver import spec

HEAD = {"gdb": [], "core": ["executable", "signal"], "java": [], "koops": ["version"] + ["taint_" + n for _, n in texts.LETTERS],
        "python": ["exception_name"], "ruby": ["exception_name"], "js": ["exception_name"]}
KIND = {t: dict(gen.FRAME[t]) for t in gen.TYPES}
STK = {t: dict(gen.ST[t]) for t in gen.TYPES}


def edit(rng, t, o):
    """One change of the stacktrace that its canonical rendering must show."""
    ths = gen.threads(t, o)
    fr = [(th, k) for th in ths for k in range(len(th["frames"]))]
    c = rng.random()
    if c < .5 and fr:
        th, k = rng.choice(fr)
        f = th["frames"][k]
        name = rng.choice(texts.BT_FRAME[t])
        f[name] = gen.edited_value(rng, KIND[t][name], f[name])
        return "frame " + name
    if c < .6 and fr:
        th, k = rng.choice(fr)
        th["frames"].pop(k)
        return "removed frame"
    if c < .7 and ths:
        th = rng.choice(ths)
        th["frames"].insert(rng.randrange(len(th["frames"]) + 1), gen.frame(rng, t))
        return "added frame"
    if c < .78 and fr:
        th, k = rng.choice(fr)
        j = rng.randrange(len(th["frames"]))
        th["frames"][k], th["frames"][j] = th["frames"][j], th["frames"][k]
        return "swapped frames"
    if c < .88 and t in gen.MULTI and ths:
        k = rng.randrange(len(ths))
        if rng.random() < .5 and t != "core":
            o["threads"].append(o["threads"].pop(k))
            return "moved thread"
        if t == "gdb":
            ths[k]["number"] = gen.edited_value(rng, "u", ths[k]["number"])
            return "thread number"
        if t == "java":
            ths[k]["name"] = gen.edited_value(rng, "s", ths[k]["name"])
            return "thread name"
    if t == "gdb" and o["libs"] and c < .95:
        l = rng.choice(o["libs"])
        n = rng.choice(["from", "to", "soname"])
        l[n] = gen.edited_value(rng, "s" if n == "soname" else "q", l[n])
        if l["soname"] is None:
            l["soname"] = "x"
        return "library " + n
    if t == "koops" and c < .95:
        o["modules"] = (o["modules"] or []) + [gen.string(rng, "plain")]
        return "module"
    if HEAD[t]:
        n = rng.choice(HEAD[t])
        o[n] = gen.edited_value(rng, STK[t][n], o[n])
        return "header " + n
    return "nothing"


class C16(Check):
    id = "C16"
    quick_n, thorough_n, chunk = 36000, 300000, 250
    rule = ("one case = a stacktrace hashed (text and SHA-1), its independently built twin and its duplicate hashed, and an edited version "
            "hashed; distinct = (type, edit kind, canonical text)")
    assumptions = ["the rendered fields are those in vf/texts.py BT_FRAME; the kernel special-stack label, the core function name and the "
                   "JavaScript column are not part of the documented rendering"]

    def make(self, rng, i):
        t = gen.TYPES[i % 7]
        mode = rng.choice(["plain", "hostile", "small"])
        o = known_frames.stacktrace(rng, t) if rng.random() < .2 else gen.stacktrace(rng, t, mode, minf=rng.randrange(2))
        e = copy.deepcopy(o)
        what = "nothing"
        for _ in range(6):
            what = edit(rng, t, e)
            if texts.bt_text(t, e) != texts.bt_text(t, o):
                break
        cmds = [["build", 0, t, spec(o)], ["bthash", 0, 2], ["bthash", 0, 1], ["dump", 0], ["bthash", 0, 1],
                ["build", 1, t, spec(e)], ["bthash", 1, 2], ["bthash", 1, 1],
                ["build", 2, t, spec(o)], ["bthash", 2, 1], ["dup", 0, 3], ["free", 0], ["bthash", 3, 1]]
        return cmds, {"t": t, "o": o, "e": e, "what": what}

    def judge(self, cmds, meta, res, obs):
        t, o, e, out = meta["t"], meta["o"], meta["e"], []
        eo, ee = texts.bt_text(t, o), texts.bt_text(t, e)
        for g, x, w in ((res[1], eo, "stacktrace"), (res[6], ee, "edited stacktrace")):
            if g != x:
                out.append(("text:" + t, "text of the %s is %r, expected %r" % (w, g, x)))
        for k, x in ((2, eo), (4, eo), (7, ee), (9, eo), (12, eo)):
            if res[k] != texts.sha1(x):
                out.append(("sha1:" + t, "hash (command %d) %r, expected SHA-1 %r of %r" % (k, res[k], texts.sha1(x), x)))
        if res[3] != o:
            out.append(("modified:" + t, "hashing changed the stacktrace"))
        if eo != ee:
            obs.count("edits seen: " + meta["what"].split()[0])
            if res[2] == res[7]:
                out.append(("insensitive:" + t, "after edit (%s) the hash is unchanged: %r / %r" % (meta["what"], o, e)))
            obs.distinct([t, meta["what"], eo])
        return out


CHECK = C16
