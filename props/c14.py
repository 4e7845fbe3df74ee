"""C14: normalisation removes only the documented frames."""
import copy
from vf import gen, texts, known_frames
from vf.core import Check
from vf.driver import spec


class C14(Check):
    id = "C14"
    quick_n, thorough_n, chunk = 36000, 300000, 300
    rule = ("one case = a thread mixing helper, abort, entry-point, aliased, null and ordinary frames, normalised once and twice and compared "
            "field by field with the reference rules; distinct = (type, kept-frame pattern, names) where a frame was removed or rewritten")
    assumptions = ["the tables of helper functions are those documented in lib/normalize.c and lib/normalize_hash.gperf (frozen copy in vf/data)"]

    def make(self, rng, i):
        t = rng.choice(["gdb", "gdb", "core", "core", "koops", "gdb", rng.choice(gen.TYPES)])
        how = "thread"
        o = known_frames.stacktrace(rng, t, mint=1)
        ti = rng.randrange(len(gen.threads(t, o)))
        cmds = [["build", 0, t, spec(o)], ["tnorm", 0, ti], ["dump", 0], ["tnorm", 0, ti], ["dump", 0]]
        if t == "gdb" and rng.random() < .3:
            how = "stacktrace"
            cmds = [["build", 0, t, spec(o)], ["gdb", "norm", 0], ["dump", 0], ["gdb", "norm", 0], ["dump", 0]]
        elif t == "gdb" and rng.random() < .2:
            how = "pair"
            return self.pair(rng)
        elif t == "gdb" and rng.random() < .2:
            how = "optimise"
            cmds = [["build", 0, t, spec(o)], ["gdb", "toptim", 0, ti], ["dump", 0], ["gdb", "toptim", 0, ti], ["dump", 0]]
        if t in ("gdb", "core"):
            cmds.insert(1, [t, "exit_frame", 0, ti])
        return cmds, {"t": t, "o": o, "ti": ti, "how": how}

    def pair(self, rng):
        """Two similar threads with unknown functions between equal ones."""
        o = known_frames.stacktrace(rng, "gdb", mint=2)
        a, b = o["threads"][0], o["threads"][1]
        names, libs = ["f", "g", "h", None], [None, None, "libx.so", "liby.so"]
        a["frames"] = []
        for _ in range(gen.count(rng, 8)):
            f = gen.frame(rng, "gdb")
            f["function_name"] = "??" if rng.random() < .45 else rng.choice(names[:rng.randint(1, 4)])
            f["library_name"] = rng.choice(libs) if rng.random() < .4 else None
            a["frames"].append(f)
        b["frames"] = copy.deepcopy(a["frames"])
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            if not b["frames"]:
                break
            k = rng.randrange(len(b["frames"]))
            c = rng.random()
            if c < .3:
                del b["frames"][k]
            elif c < .5:
                b["frames"].insert(k, copy.deepcopy(rng.choice(a["frames"])))
            elif c < .75:
                b["frames"][k]["library_name"] = rng.choice(libs)
            else:
                b["frames"][k]["function_name"] = rng.choice(names + ["??"])
        return ([["build", 0, "gdb", spec(o)], ["gdb", "pair", 0, 0, 1], ["dump", 0], ["gdb", "pair", 0, 0, 1], ["dump", 0]],
                {"t": "gdb", "o": o, "ti": 0, "how": "pair"})

    def expect(self, t, o, ti, how):
        o = copy.deepcopy(o)
        if how == "optimise":
            th = o["threads"][ti]
            th["frames"] = [f for f in th["frames"] if f["function_name"] != "main"]
        elif how == "pair":
            texts.pair_unknown(o["threads"][0]["frames"], o["threads"][1]["frames"])
        elif how == "stacktrace":
            if o["crash_tid"] == 2 ** 32 - 1:
                k = texts.find_crash(t, o)
                if isinstance(k, tuple):
                    o["crash_tid"] = {o["threads"][x]["tid"] for x in k[1]}
                elif k is not None:
                    o["crash_tid"] = o["threads"][k]["tid"]
            o["threads"] = [texts.normalize(t, th) for th in o["threads"]]
            if o["crash"] and o["crash"]["source_file"] is not None:
                o["crash"]["function_name"] = texts.strip_prefix(o["crash"]["function_name"])
        elif t in gen.MULTI:
            o["threads"][ti] = texts.normalize(t, o["threads"][ti])
        else:
            o = texts.normalize(t, o)
        return o

    def judge(self, cmds, meta, res, obs):
        t, ti, how, out = meta["t"], meta["ti"], meta["how"], []
        cur = meta["o"]
        if cmds[1][1] == "exit_frame":
            ex = [i for i, f in enumerate(gen.threads(t, cur)[ti]["frames"]) if texts.is_exit(t, f)]
            if res[1] != (ex[-1] if ex else -1):
                out.append(("exit-frame:%s" % t, "the exit frame of %s is said to be %r, the lowest one is %r" % (
                    brief(t, gen.threads(t, cur)[ti]["frames"]), res[1], ex[-1:])))
            obs.count("threads with %s exit frames" % (len(ex) if len(ex) < 2 else "several"))
            cmds, res = cmds[:1] + cmds[2:], res[:1] + res[2:]
        if how == "pair":
            obs.count("unknown functions paired", sum((f["function_name"] or "").startswith("__unknown_function_") for f in res[2]["threads"][0]["frames"]))
        for k, what in ((2, "once"), (4, "twice")):
            e = self.expect(t, cur, ti, how)
            g = res[k]
            if how == "stacktrace" and isinstance(e["crash_tid"], set):
                if g["crash_tid"] in e["crash_tid"]:
                    e["crash_tid"] = g["crash_tid"]
            if g != e:
                a, b = gen.threads(t, e)[ti]["frames"], gen.threads(t, g)[ti]["frames"]
                out.append(("norm-%s:%s" % (what, t), "normalising the frames %s %s gave %s, expected %s" % (
                    brief(t, gen.threads(t, cur)[ti]["frames"]), what, brief(t, b), brief(t, a)) if a != b else
                    "something beside the frames changed: %r expected %r" % (g, e)))
                break
            cur = g
        n0, n1 = len(gen.threads(t, meta["o"])[ti]["frames"]), len(gen.threads(t, res[2])[ti]["frames"])
        obs.count("frames given", n0)
        obs.count("frames kept", n1)
        if res[2] != meta["o"]:
            obs.distinct([t, how, brief(t, gen.threads(t, meta["o"])[ti]["frames"])])
        else:
            obs.count("untouched threads")
        if res[2] == res[4]:
            obs.count("idempotent")
        return out


def brief(t, fr):
    s = {"gdb": "source_file", "core": "file_name"}.get(t, "file_name")
    return repr([(f.get("function_name", f.get("name")), f.get(s), f.get("address")) for f in fr])


CHECK = C14
