"""C05: copies are deep, equal and independent of their source."""
import random
from vf import gen
from vf.core import Check
from vf.driver import spec


class C05(Check):
    memcheck = (400, 10000)
    id = "C05"
    quick_n, thorough_n, chunk = 10000, 120000, 250
    rule = ("one case = one random stacktrace of one of seven types (or distance matrix), copied, then a random interleaving of "
            "in-place overwriting of every field, structural edits and frees of source and copy with full dumps in between under "
            "ASan; distinct = distinct (type, shape, schedule, copied object) with at least one frame")

    LONG = 8000

    def fixed_cases(self):
        """Long lists, copied and worked with on a small stack."""
        out, rng = [], random.Random(5)
        for t in gen.TYPES:
            o = gen.stacktrace(rng, t, "plain", .3, maxt=1, maxf=3, minf=1)
            th = gen.threads(t, o)[0]
            th["frames"] = [gen.frame(rng, t) for _ in range(self.LONG)]
            for f in th["frames"] if t == "ruby" else []:
                f["rescue_level"] %= 9          # printed that many times
            shapes = [("frames", o)]
            if t in gen.MULTI:
                o = gen.stacktrace(rng, t, "plain", .3, maxt=1)
                o["threads"] = [gen.thread(rng, t, maxf=1) for _ in range(self.LONG)]
                if t == "core":
                    o["crash_thread"] = self.LONG - 2
                shapes.append(("threads", o))
            if t == "gdb":
                o = gen.stacktrace(rng, t, "plain", .3)
                o["libs"] = [{"from": k * 16, "to": k * 16 + 9, "symbols": k % 3, "soname": "lib%d" % k} for k in range(self.LONG)]
                shapes.append(("libs", o))
            for what, o in shapes:
                cmds = [["build", 0, t, spec(o)], ["onstack", 128, "dup", 0, 1], ["dump", 1]]
                exp = [None, None, ("is", o)]
                if what == "frames":
                    cmds += [["onstack", 128, "tdup", 0, 0, 2], ["dump", 2], ["onstack", 128, "fdup", 0, 0, 0, 1]]
                    exp += [None, ("is", gen.threads(t, o)[0]), ("is", gen.threads(t, o)[0]["frames"])]
                cmds += [["onstack", 128, k, 0] + r for k, r in [("bthash", [0]), ("reason", []), ("short", [5]), ("tojson", []), ("crash", []), ("dump", [])]]
                exp += [None] * 5 + [("is", o)]
                out.append((cmds, {"t": t, "exp": exp, "kind": "long " + what, "n": self.LONG}))
        return out

    def make(self, rng, i):
        if i % 12 == 11:
            return self.make_dist(rng)
        t = gen.TYPES[i % 7]
        o = gen.stacktrace(rng, t, rng.choice(["plain", "hostile"]), rng.choice([0, .2, .6]))
        cmds = [["build", 0, t, spec(o)]]
        exp = [None]
        ths = gen.threads(t, o)

        def add(c, e=None):
            cmds.append(c)
            exp.append(e)
        kind = rng.choice(["st", "st", "th", "fr"])
        if kind == "th" and not ths:
            kind = "st"
        if kind == "fr":
            cand = [(a, b) for a, th in enumerate(ths) for b in range(len(th["frames"]))]
            if not cand:
                kind = "st"
        if kind == "st":
            add(["dup", 0, 1])
            add(["dump", 1], ("is", o))
            add(["dump", 0], ("is", o))
            first, second = rng.choice([(0, 1), (1, 0)])
            k = rng.choice(["poke", "free", "edit", "dupagain"])
            if k == "poke":
                add(["poke", first])
                add(["dump", second], ("is", o))
            elif k == "edit":
                for ti, th in enumerate(ths):
                    if th["frames"]:
                        add(["tremove", first, ti, rng.randrange(len(th["frames"]))])
                add(["dump", second], ("is", o))
                if rng.random() < .5 and ths:
                    add(["tnorm", first, rng.randrange(len(ths))])
                    add(["dump", second], ("is", o))
            elif k == "dupagain":
                add(["dup", 1, 2])
                add(["free", 1])
                add(["dump", 2], ("is", o))
                add(["poke", 2])
                add(["dump", 0], ("is", o))
                first, second = 2, 0
            add(["free", first])
            add(["dump", second], ("is", o))
            add(["bthash", second, 0], None)
            add(["crash", second], ("notforeign",))
            add(["free", second])
        elif kind == "th":
            ti = rng.randrange(len(ths))
            add(["tdup", 0, ti, 1], ("key", "next", False))
            add(["dump", 1], ("is", ths[ti] if t in gen.MULTI else o))
            if rng.random() < .5:
                add(["poke", 0])
                add(["free", 0])
                add(["dump", 1], ("is", ths[ti] if t in gen.MULTI else o))
                add(["free", 1])
            else:
                nf = len(ths[ti]["frames"])
                if nf:
                    add(["tremove", 1, 0, rng.randrange(nf)])
                add(["dump", 0], ("is", o))
                add(["free", 1])
                add(["dump", 0], ("is", o))
        else:
            a, b = rng.choice(cand)
            sib = rng.randrange(2)
            fs = ths[a]["frames"]
            add(["fdup", 0, a, b, sib], ("is", fs[b:] if sib else [fs[b]]))
            add(["dump", 0], ("is", o))
        return cmds, {"t": t, "exp": exp, "kind": kind, "n": sum(len(th["frames"]) for th in ths)}

    def make_dist(self, rng):
        n = rng.randrange(2, 8)
        m = rng.randrange(1, n + 2)
        mm = min(m, n - 1)
        k = sum(n - 1 - i for i in range(mm))
        vals = ["%d.5" % rng.randrange(100) for _ in range(k)]
        d = {"m": mm, "n": n, "d": [float(v) for v in vals]}
        cmds = [["dist", "new", 0, m, n], ["dist", "setall", 0] + vals, ["dist", "dump", 0], ["dist", "dup", 0, 1],
                ["dist", "dump", 1], ["dist", "set", rng.randrange(2), 0, n - 1, "777"]]
        src = cmds[-1][2]
        exp = [None, None, ("is", d), None, ("is", d), None, ("is", d), None, ("is", d)]
        cmds += [["dist", "dump", 1 - src], ["free", src], ["dist", "dump", 1 - src]]
        return cmds, {"t": "dist", "exp": exp, "kind": "dist", "n": n}

    def judge(self, cmds, meta, res, obs):
        bad = []
        for c, e, r in zip(cmds, meta["exp"], res):
            if e is None:
                continue
            obs.count("dumps compared")
            if e[0] == "is" and r != e[1]:
                bad.append(("differs:%s:%s" % (meta["t"], meta["kind"]), ("after %r expected %r, found %r" % (c, e[1], r))[:3000]))
            elif e[0] == "key" and r.get(e[1]) != e[2]:
                bad.append(("siblings:%s" % meta["t"], "a lone copy keeps a sibling"))
            elif e[0] == "notforeign" and r == -2:
                bad.append(("foreign:%s" % meta["t"], "crash thread of the copy points outside the copy"))
        obs.count("kind:%s:%s" % (meta["t"], meta["kind"]))
        if meta["n"]:
            obs.distinct([meta["t"], [c[:3] if c[0] == "build" else c for c in cmds[1:]], meta["exp"]])
        return bad


CHECK = C05
