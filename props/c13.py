"""C13: the crash thread found is the thread that crashed."""
import copy
from vf import gen, texts, known_frames
from vf.core import Check
from vf.driver import spec


class C13(Check):
    id = "C13"
    quick_n, thorough_n, chunk = 28000, 200000, 250
    rule = ("one case = a stacktrace whose data designates (or fails to designate) a crash thread, its crash thread and crash frame compared "
            "with the documented precedence; distinct = (type, reason of designation, thread count, index)")
    assumptions = ["when several threads match the crash frame equally, the least of them in the library's frame order is accepted: any "
                   "thread to which no other candidate compares smaller (the documented deterministic guess)"]

    def make(self, rng, i):
        t = rng.choice(["gdb", "gdb", "gdb", "core", "core", rng.choice(gen.TYPES)])
        o = known_frames.stacktrace(rng, t, maxt=5, maxf=5)
        if t == "gdb" and len(o["threads"]) > 1 and rng.random() < .3:
            # several threads with equal tops, some equal throughout
            k = rng.randrange(len(o["threads"]))
            for j in range(len(o["threads"])):
                if rng.random() < .5:
                    o["threads"][j]["frames"] = copy.deepcopy(o["threads"][k]["frames"])
        cmds = [["build", 0, t, spec(o)], ["crash", 0], ["dump", 0]]
        if t == "gdb":
            cmds += [["gdb", "find_crash", 0], ["gdb", "crash_frame", 0], ["dump", 0]]
        order = list(range(len(gen.threads(t, o))))
        meta = {"t": t, "o": o}
        if t == "gdb":
            rng.shuffle(order)
            o2 = copy.deepcopy(o)
            o2["threads"] = [o["threads"][k] for k in order]
            meta["order"] = order
            cmds += [["build", 1, t, spec(o2)], ["crash", 1]]
            tid = rng.choice([th["tid"] for th in o["threads"]] + [5]) if o["threads"] else 5
            meta["tid"] = tid
            cmds += [["gdb", "set_tid", 0, str(tid)], ["crash", 0]]
        return cmds, meta

    def least(self, t, o, cand):
        """Candidates that may be the least: those no other candidate is certainly below (prefix rule)."""
        return cand

    def judge(self, cmds, meta, res, obs):
        t, o, out = meta["t"], meta["o"], []
        e = texts.find_crash(t, o)
        g = res[1]
        if res[2] != o:
            out.append(("modified:" + t, "finding the crash thread changed the stacktrace"))
        n = len(gen.threads(t, o))

        def check(e, g, what, oo):
            if isinstance(e, tuple):
                if g not in e[1]:
                    out.append(("crash:" + t, "%s: found thread %d, candidates %r; %s" % (what, g, e[1], show(t, oo))))
                else:
                    # a candidate whose frames are a proper prefix of the found one's compares smaller
                    fr = [oo["threads"][k]["frames"] for k in e[1]]
                    mine = oo["threads"][g]["frames"]
                    for f in fr:
                        if len(f) < len(mine) and all(key(a) == key(b) for a, b in zip(f, mine)):
                            out.append(("crash-least:" + t, "%s: thread %d found although a candidate is a prefix of it; %s" % (what, g, show(t, oo))))
                            break
                obs.count("guessed among equals")
            elif g != (-1 if e is None else e):
                out.append(("crash:" + t, "%s: found thread %d, designated is %r; %s" % (what, g, e, show(t, oo))))
        check(e, g, "find", o)
        if t == "gdb":
            if res[3] != g:
                out.append(("agree", "generic and GDB lookups differ: %d %d" % (g, res[3])))
            cf = res[4]
            if g < 0:
                exp = None
            else:
                fr = texts.normalize(t, o["threads"][g])["frames"]
                exp = fr[0] if fr else None
            if cf != exp:
                out.append(("crash-frame", "crash frame %r, expected %r; %s" % (cf, exp, show(t, o))))
            if res[5] != o:
                out.append(("modified:frame", "getting the crash frame changed the stacktrace"))
            # the answer does not depend on the order of the threads unless the TID or equal threads decide
            order = meta["order"]
            o2 = dict(o, threads=[o["threads"][k] for k in order])
            e2 = texts.find_crash(t, o2)
            check(e2, res[7], "reordered", o2)
            if isinstance(e, tuple) and res[7] >= 0 and g >= 0:
                a, b = o["threads"][g]["frames"], o2["threads"][res[7]]["frames"]
                if [key(f) for f in a] != [key(f) for f in b]:
                    out.append(("order", "the guessed crash thread depends on the order of the threads: %s" % show(t, o)))
            e3 = texts.find_crash(t, dict(o, crash_tid=meta["tid"]))
            check(e3, res[9], "after setting the TID %d" % meta["tid"], o)
        why = "none" if e is None else "tie" if isinstance(e, tuple) else "one"
        obs.count("designation %s/%s" % (t, why))
        if n > 1 or t not in gen.MULTI:
            obs.distinct([t, n, e if not isinstance(e, tuple) else list(e[1]), [len(th["frames"]) for th in gen.threads(t, o)],
                          o.get("crash_tid"), o.get("crash_thread")])
        return out


def key(f):
    if f["signal_handler_called"]:
        return ("sig",)
    return tuple(f[n] for n in ("function_name", "function_type", "number", "source_file", "source_line", "library_name"))


def show(t, o):
    if t == "gdb":
        return "tid=%s crash=%r threads=%r" % (o["crash_tid"], o["crash"] and o["crash"]["function_name"],
                                              [(th["tid"], [(f["function_name"], f["source_file"]) for f in th["frames"]]) for th in o["threads"]])
    return repr([[(f.get("function_name"), f.get("file_name")) for f in th["frames"]] for th in gen.threads(t, o)])[:600]


CHECK = C13
