"""C07: thread distances equal their mathematical definitions."""
import copy
from vf import gen, model
from vf.core import Check
from vf.driver import spec

JW, JACC, LEV, DL = 0, 1, 2, 3


class C07(Check):
    id = "C07"
    quick_n, thorough_n, chunk = 30000, 150000, 250
    rule = ("one case = two threads over a small frame alphabet (or edits of each other), all four metrics in both directions compared "
            "with textbook implementations; distinct = distinct frame-class sequences with at least one frame")
    assumptions = ["Jaccard is judged only where the distance comparison is an equivalence on the frames at hand",
                   "Jaro-Winkler is judged against the library's documented variant (greedy matches, in-place transpositions)"]

    def alphabet(self, rng, t):
        k = rng.randrange(1, 7) if rng.random() < .994 else rng.randrange(30, 90)
        a = [gen.frame(rng, t, rng.choice(["plain", "small", "small"]), rng.choice([0, .2])) for _ in range(k)]
        if t == "gdb":
            for f in a:
                f["function_name"] = rng.choice(["??", "f", "g", "h", "k", f["function_name"]])
        if rng.random() < .4:
            f = copy.deepcopy(a[0])
            n, kk = rng.choice(gen.FRAME[t])
            f[n] = 1 - f[n] if kk == "b" else gen.edited_value(rng, kk, f[n])
            a.append(f)
        return a

    def seq(self, rng, al, big):
        if rng.random() < .003:
            return [rng.choice(al) for _ in range(min(gen.large(rng), 300))]
        if len(al) > 10:
            return rng.sample(al, rng.randrange(10, len(al)))
        return [rng.choice(al) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, rng.randrange(13), rng.randrange(big)]))]

    def make(self, rng, i):
        t = gen.TYPES[i % 7]
        al = self.alphabet(rng, t)
        a = self.seq(rng, al, 30) if i % 10000 != 77 else [rng.choice(al) for _ in range(600)]
        c = rng.random()
        if c < .15:
            b = list(a)
        elif c < .55:
            b = list(a)
            for _ in range(rng.randrange(1, 4)):
                k = rng.randrange(4)
                p = rng.randrange(len(b) + 1)
                if k == 0:
                    b.insert(p, rng.choice(al))
                elif k == 1 and b:
                    b.pop(min(p, len(b) - 1))
                elif k == 2 and b:
                    b[min(p, len(b) - 1)] = rng.choice(al)
                elif k == 3 and len(b) > 1:
                    p = rng.randrange(len(b) - 1)
                    b[p], b[p + 1] = b[p + 1], b[p]
        else:
            b = self.seq(rng, al, 30)
        if i % 23 == 0:
            t2 = rng.choice([x for x in gen.TYPES if x != t])
        else:
            t2 = t

        def mk(tt, frames):
            th = gen.thread(rng, tt, "plain", nf=0)
            th["frames"] = frames
            if tt in gen.MULTI:
                o = gen.stacktrace(rng, tt, "plain", maxt=0)
                o["threads"] = [th]
                if tt == "core":
                    o["crash_thread"] = -1
                return o
            return th
        if t2 != t:
            b = [gen.frame(rng, t2) for _ in range(rng.randrange(4))]
        A, B = mk(t, a), mk(t2, b)
        cmds = [["build", 0, t, spec(A)], ["build", 1, t2, spec(B)]]
        cmds += [["distance", k, 0, 0, 1, 0] for k in range(4)] + [["distance", k, 1, 0, 0, 0] for k in range(4)]
        cmds += [["dump", 0], ["dump", 1]]
        return cmds, {"t": t, "t2": t2, "a": A, "b": B}

    def judge(self, cmds, meta, res, obs):
        t, out = meta["t"], []
        a = gen.threads(t, meta["a"])[0]["frames"]
        b = gen.threads(meta["t2"], meta["b"])[0]["frames"]
        d, r = res[2:6], res[6:10]
        if res[10] != meta["a"] or res[11] != meta["b"]:
            out.append(("modified:" + t, "comparing changed a thread"))
        if meta["t2"] != t:
            if d + r != [1.0] * 8:
                out.append(("types", "threads of different types are at %r" % (d + r)))
            obs.count("type mismatches")
            return out
        eq = lambda x, y: model.dist_eq(t, x, y)
        n = max(len(a), len(b))
        det = "a=%r b=%r" % (a, b)
        for k, tr in ((LEV, False), (DL, True)):
            e = model.edit_distance(a, b, eq, tr) / n if n else 0.0
            for v, w in ((d[k], "ab"), (r[k], "ba")):
                if v == "nan" or abs(v - e) > 1e-6:
                    out.append(("edit%d:%s" % (k, t), "%s expected %g, found %r; %s" % (w, e, v, det)))
        e = model.jaccard(a, b, eq)
        if e is not None:
            obs.count("jaccard judged")
            for v in (d[JACC], r[JACC]):
                if v == "nan" or abs(v - e) > 1e-6:
                    out.append(("jaccard:" + t, "expected %g, found %r; %s" % (e, v, det)))
        for v in (d[JACC], r[JACC]):
            if v == "nan" or not -1e-6 <= v <= 1 + 1e-6:
                out.append(("jaccard-range:" + t, "%r; %s" % (v, det)))
        for v, x, y in ((d[JW], a, b), (r[JW], b, a)):
            e = model.jaro_winkler(x, y, eq)
            if v == "nan" or abs(v - e) > 1e-5:
                out.append(("jaro-winkler:" + t, "expected %g, found %r; %s" % (e, v, det)))
            elif not -1e-6 <= v <= 1 + 1e-6:
                rep = any(eq(p, q) for z in (x, y) for i, p in enumerate(z) for q in z[i + 1:])
                out.append(("jw-range", "%s: similarity %r; %s" % ("repeated frames" if rep else "no repeated frames", v, det)))
        if a or b:
            ids = {}
            obs.distinct([t] + [[ids.setdefault(repr(f), len(ids)) for f in z] for z in (a, b)])
        obs.count("equal threads" if a == b else "differing threads")
        return out


CHECK = C07
