"""C18: list surgery removes exactly what was asked."""
import copy
from vf import gen, known_frames
from vf.core import Check
from vf.driver import spec


class C18(Check):
    memcheck = (400, 10000)
    id = "C18"
    quick_n, thorough_n, chunk = 18000, 200000, 200
    leak = True
    rule = ("one case = a history of removals, cuts, concatenations and lookups on one stacktrace, mirrored step by step on a list model, with "
            "allocation accounting; distinct = (type, operation history, list shapes)")
    assumptions = []

    def make(self, rng, i):
        t = gen.TYPES[i % 7]
        o = gen.stacktrace(rng, t, minf=rng.randrange(3) if rng.random() < .98 else rng.choice([20, 45, 70]), maxf=12, maxt=6)
        src = gen.stacktrace(rng, t, minf=rng.randrange(2))
        cmds = [["build", 0, t, spec(o)]]
        m, want, hist = copy.deepcopy(o), [None], []
        for _ in range(rng.randrange(1, 12)):
            ths = gen.threads(t, m)
            if not ths:
                break
            ti = rng.randrange(len(ths))
            fr = ths[ti]["frames"]
            own = [1] if t in ("gdb", "java") and rng.random() < .5 else []
            ops = ["remove", "remove", "above", "count", "foreign", "fappend", "foreign_above", "relink"]
            if t in ("gdb", "java"):
                ops += ["below", "below"]
            if t == "gdb":
                ops += ["limit", "keep", "find_lib", "gcount"]
            if t in gen.MULTI:
                ops += ["tappend", "threads", "relink_threads"]
            if t == "koops":
                ops += ["koops_rm", "koops_rm", "prepend"]
            if t == "core":
                ops += ["ccount"]
            if t == "java":
                ops += ["last"]
            op = rng.choice(ops)
            if op in ("remove", "above", "koops_rm"):
                if not fr:
                    continue
                fi = rng.choice([0, len(fr) - 1, rng.randrange(len(fr))])
                if op == "remove":
                    cmds.append(["tremove", 0, ti, fi] + own)
                    fr.pop(fi)
                elif op == "koops_rm":
                    cmds.append(["koops_rm", 0, fi])
                    fr.pop(fi)
                else:
                    cmds.append(["tremove_above", 0, ti, fi] + own)
                    del fr[:fi]
                want.append(True)
            elif op == "foreign":
                cmds.append(["tremove", 0, ti, -1] + own)
                want.append(False)
            elif op == "foreign_above":
                cmds.append(["tremove_above", 0, ti, -1] + own)
                want.append(False)
            elif op == "relink":
                order = list(range(len(fr)))
                rng.shuffle(order)
                cmds.append(["relink", 0, ti, ",".join(map(str, order))])
                fr[:] = [fr[k] for k in order]
                want.append(True)
            elif op == "relink_threads":
                order = list(range(len(ths)))
                rng.shuffle(order)
                cmds.append(["relink", 0, "threads", ",".join(map(str, order))])
                m["threads"] = [ths[k] for k in order]
                if t == "core" and m["crash_thread"] >= 0:
                    m["crash_thread"] = order.index(m["crash_thread"])
                want.append(True)
            elif op == "prepend":
                cmds.append(["fprepend", 0])
                fr.reverse()
                want.append(True)
            elif op == "last":
                if not fr:
                    continue
                fi = rng.randrange(len(fr))
                cmds.append(["flast", 0, ti, fi])
                want.append(len(fr) - 1 - fi)
            elif op == "ccount":
                cmds.append(["core", "count", 0])
                want.append(len(ths))
            elif op == "count":
                cmds.append(["tcount", 0, ti])
                want.append(len(fr))
            elif op == "below":
                n = rng.choice([0, 1, len(fr), len(fr) + 1, rng.randrange(len(fr) + 2), 2**31 - 1])
                cmds.append(["tbelow", 0, ti, n])
                del fr[n:]
                want.append(None)
            elif op == "limit":
                n = rng.choice([1, 2, 3, 5, 1000])
                cmds.append(["gdb", "limit", 0, n])
                for th in ths:
                    del th["frames"][n:]
                want.append(None)
            elif op == "keep":
                cmds.append(["gdb", "keep", 0, ti])
                m["threads"] = [ths[ti]]
                want.append(None)
            elif op == "find_lib":
                cand = [0, 2**64 - 1] + [x for l in m["libs"] for x in (l["from"], l["to"], l["to"] + 1, l["from"] - 1)]
                x = max(0, min(2**64 - 1, rng.choice(cand)))
                cmds.append(["gdb", "find_lib", 0, str(x)])
                w = -1
                if x != 2**64 - 1:
                    for k, l in enumerate(m["libs"]):
                        if l["from"] <= x <= l["to"]:
                            w = k
                            break
                want.append(w)
            elif op == "gcount":
                cmds.append(["gdb", "count", 0])
                want.append(len(ths))
            elif op == "threads":
                cmds.append(["threads", 0])
                want.append(len(ths))
            elif op == "fappend":
                sths = gen.threads(t, src)
                if not sths:
                    continue
                si = rng.randrange(len(sths))
                cmds += [["build", 1, t, spec(src)], ["fappend", 0, ti, 1, si], ["free", 1]]
                fr += copy.deepcopy(sths[si]["frames"])
                want += [None, None, None]
            elif op == "tappend":
                cmds += [["build", 1, t, spec(src)], ["tappend", 0, 1], ["free", 1]]
                m["threads"] += copy.deepcopy(src["threads"])
                if t == "gdb":
                    m["libs"] += copy.deepcopy(src["libs"])
                want += [None, len(m["libs"]) if t == "gdb" else None, None]
            hist.append(op)
            cmds.append(["dump", 0])
            want.append(copy.deepcopy(m))
        cmds.append(["free", 0])
        want.append(None)
        return cmds, {"t": t, "want": want, "hist": hist}

    def judge(self, cmds, meta, res, obs):
        t, out = meta["t"], []
        acct = res[-1]
        for c, w, g in zip(cmds, meta["want"], res):
            if c[0] in ("build", "free", "fappend") or w is None:
                continue
            obs.count("step " + c[0])
            if g != w:
                out.append(("%s:%s" % (c[0], t), "history %s: after/for %s got %r, expected %r" % (meta["hist"], c[:4], g, w)))
                break
        if acct.get("net"):
            out.append(("leak:" + t, "history %s: %d blocks remain after freeing everything" % (meta["hist"], acct["net"])))
        obs.distinct([t, meta["hist"], [len(th["frames"]) for th in gen.threads(t, meta["want"][-2])] if isinstance(meta["want"][-2], dict) else 0])
        return out


CHECK = C18
