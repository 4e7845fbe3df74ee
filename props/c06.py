"""C06: comparison is a consistent, field-sensitive ordering."""
import copy
from vf import gen, model
from vf.core import Check
from vf.driver import spec


class C06(Check):
    id = "C06"
    quick_n, thorough_n, chunk = 20000, 100000, 200
    rule = ("one case = up to 9 frames (or threads, or Java stacktraces) of one type, single-field variants of each other over small "
            "and extreme values; all ordered pairs are compared by the library and every pair and triple is judged; distinct = "
            "distinct sets with at least two frames")
    assumptions = ["for a single-threaded format the stacktrace is the thread: its frames are compared, not the exception name or other header"]

    def variants(self, rng, t):
        mode = rng.choice(["small", "small", "plain", "hostile"])
        fs = [gen.frame(rng, t, mode)]
        while len(fs) < rng.randrange(3, 10):
            f = copy.deepcopy(rng.choice(fs))
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                n, k = rng.choice(gen.FRAME[t])
                if k == "s":
                    f[n] = gen.edited_value(rng, k, f[n], mode)
                elif k == "b":
                    f[n] = 1 - f[n]
                else:
                    top = {"u": 32, "q": 64}[k]
                    f[n] = (f[n] + rng.choice([1, -1, 2**31, 2**32, 2**31 + 1, 2**63, -2**31, rng.getrandbits(64)])) % 2**top
            fs.append(f)
        return fs, mode

    def make(self, rng, i):
        t = gen.TYPES[i % 7]
        kind = rng.choice(["frames", "frames", "threads"] + (["stacks"] if t == "java" else []))
        fs, mode = self.variants(rng, t)
        if kind == "frames":
            th = gen.thread(rng, t, mode, nf=0)
            th["frames"] = fs
            o = th
            if t in gen.MULTI:
                o = gen.stacktrace(rng, t, mode, maxt=0)
                o["threads"] = [th]
                if t == "core":
                    o["crash_thread"] = -1
            cmds = [["build", 0, t, spec(o)], ["fcmpall", 0, 0]]
            if t == "gdb":
                prs = [(rng.randrange(len(fs)), rng.randrange(len(fs))) for _ in range(6)]
                cmds += [["fcmp", 0, 0, a, 0, 0, b, 1] for a, b in prs]
                cmds += [["fcmp", 0, 0, a, 0, 0, b, 0] for a, b in prs]
            else:
                prs = []
            cmds.append(["dump", 0])
            return cmds, {"t": t, "kind": kind, "o": o, "prs": prs}
        ths = []
        for _ in range(rng.randrange(2, 7)):
            if ths and rng.random() < .7:
                th = copy.deepcopy(rng.choice(ths))
                c = rng.random()
                if c < .3 and th["frames"]:
                    th["frames"][rng.randrange(len(th["frames"]))] = copy.deepcopy(rng.choice(fs))
                elif c < .5 and th["frames"]:
                    th["frames"].pop()
                elif c < .7:
                    th["frames"].append(copy.deepcopy(rng.choice(fs)))
                elif c < .8 and gen.THREAD.get(t):
                    n, k = rng.choice(gen.THREAD[t])
                    th[n] = gen.edited_value(rng, k, th[n], mode)
            else:
                th = gen.thread(rng, t, mode, nf=0)
                th["frames"] = [copy.deepcopy(rng.choice(fs)) for _ in range(rng.randrange(0, 4))]
            ths.append(th)
        if t not in gen.MULTI:
            # the stacktrace is the thread; one of another type must differ from all
            cmds = [["build", j, t, spec(th)] for j, th in enumerate(ths)]
            o = [t] * len(ths)
            if rng.random() < .2:
                u = rng.choice([x for x in gen.TYPES if x not in gen.MULTI and x != t])
                th = gen.thread(rng, u, mode, nf=rng.randrange(0, 3))
                cmds.append(["build", len(ths), u, spec(th)])
                ths.append(th)
                o.append(u)
            cmds.append(["tcmps"] + list(range(len(ths))))
            cmds += [["dump", j] for j in range(len(ths))]
            return cmds, {"t": t, "kind": "single", "o": ths, "types": o}
        o = gen.stacktrace(rng, t, mode, maxt=0)
        o["threads"] = ths
        if t == "core":
            o["crash_thread"] = -1
        if kind == "threads":
            return [["build", 0, t, spec(o)], ["tcmpall", 0], ["dump", 0]], {"t": t, "kind": kind, "o": o}
        lists = [[copy.deepcopy(rng.choice(ths)) for _ in range(rng.randrange(0, 3))] for _ in range(3)]
        cmds = [["build", j, t, spec(dict(o, threads=l))] for j, l in enumerate(lists)]
        cmds += [["stcmp", a, b] for a in range(3) for b in range(3)]
        return cmds, {"t": t, "kind": kind, "lists": lists}

    def laws(self, t, what, n, m, eq, order=True):
        for a in range(n):
            for b in range(n):
                r = m[a * n + b]
                e = eq(a, b)
                if (r == 0) != e:
                    return ["%s:%s:equality" % (what, t), "items %d and %d are %s but compared %d" % (a, b, "equal" if e else "different", r)]
                if order and r != -m[b * n + a]:
                    return ["%s:%s:antisymmetry" % (what, t), "cmp(%d,%d)=%d, cmp(%d,%d)=%d" % (a, b, r, b, a, m[b * n + a])]
        if order:
            for a in range(n):
                for b in range(n):
                    for c in range(n):
                        if m[a * n + b] <= 0 and m[b * n + c] <= 0 and m[a * n + c] > 0:
                            return ["%s:%s:transitivity" % (what, t), "%d<=%d<=%d but %d>%d" % (a, b, c, a, c)]
        return None

    def judge(self, cmds, meta, res, obs):
        t, out = meta["t"], []
        if meta["kind"] == "frames":
            fs = gen.threads(t, meta["o"])[0]["frames"]
            n = len(fs)
            obs.count("pairs", 2 * n * n)
            obs.count("triples", n ** 3)
            obs.count("equal pairs", sum(1 for x in res[1][0] if x == 0))
            v = self.laws(t, "frame", n, res[1][0], lambda a, b: model.frame_eq(t, fs[a], fs[b]))
            if v:
                out.append((v[0], v[1] + " in %r" % fs))
            v = self.laws(t, "distance", n, res[1][1], lambda a, b: model.dist_eq(t, fs[a], fs[b]), False)
            if v:
                out.append((v[0], v[1] + " in %r" % fs))
            k = len(meta["prs"])
            for j, (a, b) in enumerate(meta["prs"]):
                for num, r in ((True, res[2 + j][0]), (False, res[2 + k + j][0])):
                    if (r == 0) != model.frame_eq(t, fs[a], fs[b], num):
                        out.append(("frame:gdb:number", "number=%s %r %r gives %d" % (num, fs[a], fs[b], r)))
            if res[-1] != meta["o"]:
                out.append(("modified:" + t, "comparison changed the frames"))
            if n > 1:
                obs.distinct(fs)
        elif meta["kind"] == "threads":
            ths = meta["o"]["threads"]
            n = len(ths)
            obs.count("pairs", n * n)
            v = self.laws(t, "thread", n, res[1], lambda a, b: model.thread_eq(t, ths[a], ths[b]))
            if v:
                out.append((v[0], v[1] + " in %r" % ths))
            if res[-1] != meta["o"]:
                out.append(("modified:" + t, "comparison changed the threads"))
            obs.distinct(ths)
        elif meta["kind"] == "single":
            ths, ty = meta["o"], meta["types"]
            n = len(ths)
            obs.count("pairs", n * n)
            obs.count("pairs of different types", sum(x != y for x in ty for y in ty))
            v = self.laws(t, "thread", n, res[n], lambda a, b: ty[a] == ty[b] and model.thread_eq(ty[a], ths[a], ths[b]))
            if v:
                out.append((v[0], v[1] + " in %r" % ths))
            if res[n + 1:] != ths:
                out.append(("modified:" + t, "comparison changed the threads"))
            obs.distinct([t, ths])
        else:
            m = [0 if x == 0 else (1 if x > 0 else -1) for x in res[3:]]
            L = meta["lists"]
            v = self.laws(t, "stacktrace", 3, m, lambda a, b: len(L[a]) == len(L[b]) and
                          all(model.thread_eq(t, x, y) for x, y in zip(L[a], L[b])))
            if v:
                out.append((v[0], v[1] + " in %r" % L))
            obs.distinct(L)
        return out


CHECK = C06
