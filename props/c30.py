"""C30: quality metrics equal their definitions."""
import copy
from vf import gen, texts, known_frames
from vf.core import Check
from vf.driver import spec


def ok(t, f):
    if t == "gdb":
        return bool(f["signal_handler_called"] or (f["function_name"] not in (None, "??") and f["source_file"]))
    return bool(f["is_native"] or f["file_name"] is not None)


def counts(t, th):
    return sum(ok(t, f) for f in th["frames"]), len(th["frames"])


def ratio(a, b, empty):
    return a / b if b else empty


def simple(o):
    c = [counts("gdb", th) for th in o["threads"]]
    return ratio(sum(x for x, _ in c), sum(y for _, y in c), 0)


def complex_(o, idx):
    n = copy.deepcopy(o)
    n["threads"] = [texts.normalize("gdb", th) for th in o["threads"]]
    q1 = simple(n)
    if idx is None:
        return q1
    th = n["threads"][idx]
    q2 = ratio(*counts("gdb", th), 1)
    q3 = ratio(*counts("gdb", {"frames": th["frames"][:5]}), 1)
    return .25 * q1 + .35 * q2 + .4 * q3


class C30(Check):
    id = "C30"
    quick_n, thorough_n, chunk = 24000, 300000, 250
    rule = ("one case = a GDB or Java stacktrace whose per-thread counts and qualities, simple and complex quality are compared with their "
            "definitions; distinct = (type, values rounded) ")
    assumptions = ["GDB frame well known = signal handler, or function known and source file known; the empty stacktrace has simple quality 0 "
                   "and an empty frame list quality 1, as documented in the code"]

    def make(self, rng, i):
        t = rng.choice(["gdb", "gdb", "java"])
        o = known_frames.stacktrace(rng, t) if rng.random() < .5 else gen.stacktrace(rng, t, null=rng.choice([.2, .5, .05]), maxf=12)
        for th in gen.threads(t, o):
            for f in th["frames"]:
                if t == "gdb":
                    if rng.random() < .6:
                        f["signal_handler_called"] = 0
                    if rng.random() < .2:
                        f["source_file"] = rng.choice(["", None, "a.c"])
        cmds = [["build", 0, t, spec(o)]] + [["tquality", 0, k] for k in range(len(gen.threads(t, o)))]
        if t == "gdb":
            cmds += [["gdb", "quality", 0], ["gdb", "quality", 0]]
        cmds.append(["dump", 0])
        return cmds, {"t": t, "o": o}

    def judge(self, cmds, meta, res, obs):
        t, o, out = meta["t"], meta["o"], []
        key = [t]
        for th, g in zip(gen.threads(t, o), res[1:]):
            a, b = counts(t, th)
            e = [a, b, ratio(a, b, 1)]
            key.append(g)
            obs.count("thread qualities")
            if g[:2] != e[:2] or abs(g[2] - e[2]) > 1e-6:
                out.append(("thread:" + t, "quality counts/value %r, expected %r for %r" % (g, e, th["frames"])))
        if t == "gdb":
            q = res[-2]
            idx = texts.find_crash(t, o)
            cand = idx[1] if isinstance(idx, tuple) else [idx]
            if abs(q[0] - simple(o)) > 1e-6:
                out.append(("simple", "simple quality %r, expected %r" % (q[0], simple(o))))
            if min(abs(q[1] - complex_(o, k)) for k in cand) > 1e-5:
                out.append(("complex", "complex quality %r, expected %r" % (q[1], [complex_(o, k) for k in cand])))
            if not all(0 <= x <= 1 + 1e-6 for x in q):
                out.append(("range", "quality outside [0,1]: %r" % (q,)))
            if q != res[-3]:
                out.append(("repeat", "quality changes between calls: %r %r" % (res[-3], q)))
            obs.count("stacktrace qualities")
            key += q
        if res[-1] != o:
            out.append(("modified:" + t, "computing the quality changed the stacktrace"))
        if len(key) > 1:
            obs.distinct(key)
        return out


CHECK = C30
