"""C08: distance matrices are exact and split computation equals the whole."""
import copy, itertools
from vf import gen
from vf.core import Check
from vf.driver import spec


def gdb_unknown(th):
    for f in th["frames"]:
        named = f["function_name"] is not None and f["function_name"] != "??"
        if not (f["signal_handler_called"] or (named and f["source_file"])):
            return True
    return False


class C08(Check):
    id = "C08"
    quick_n, thorough_n, chunk = 4800, 60000, 60
    rule = ("one case = a list of threads, its full matrix for one metric, every pair measured on its own, a split into parts merged in "
            "shuffled order and corrupted part lists; distinct = (type, metric, n, m, parts, pair values)")
    assumptions = ["the distance of one pair is what the pairwise distance function returns on the two threads (its own value is C07's "
                   "subject), for GDB after the documented pairing of unknown functions on copies",
                   "parts identify their input by the number and the lengths of the threads, as documented in distance.h"]

    def threads(self, rng, t, n):
        al = [gen.frame(rng, t, rng.choice(["plain", "small"]), .1) for _ in range(rng.randrange(1, 6))]
        if t == "gdb":
            for f in al:
                f["function_name"] = rng.choice(["??", "??", "f", "g", "h"])
                f["source_file"] = rng.choice([None, "x.c"])
                f["library_name"] = rng.choice([None, "l1", "l2"])
        out = []
        for _ in range(n):
            fr = [copy.deepcopy(rng.choice(al)) for _ in range(rng.choice([0, 1, 2, 3, 4, rng.randrange(9)]) if rng.random() < .998 else min(gen.large(rng), 70))]
            if out and rng.random() < .2:
                fr = copy.deepcopy(rng.choice(out)["frames"])
            th = gen.thread(rng, t, "plain", nf=0)
            th["frames"] = fr
            out.append(th)
        return out

    def store(self, t, ths, rng, slot0, cmds):
        """Build the threads, either in one stacktrace or in one each; -> references."""
        if t in gen.MULTI:
            o = gen.stacktrace(rng, t, "plain", maxt=0)
            o["threads"] = ths
            if t == "core":
                o["crash_thread"] = -1
            if t == "gdb":
                o["crash"] = None
            cmds.append(["build", slot0, t, spec(o)])
            return [(slot0, k) for k in range(len(ths))]
        for k, th in enumerate(ths):
            cmds.append(["build", slot0 + k, t, spec(th)])
        return [(slot0 + k, 0) for k in range(len(ths))]

    def fixed_cases(self):
        """Matrices too large to be computed: the boundaries of their parts, and reading and writing entries."""
        out = []
        for m, n, np_ in [(1, 2, 0), (5, 9, 0), (1, 46341, 7), (3, 65537, 1000), (46341, 46342, 3), (46342, 46343, 1), (65537, 66000, 4),
                          (65536, 70000, 65537)]:
            out.append(([["parts", "create", 0, m, n, 0, np_]], {"large": "parts", "a": [m, n, np_]}))
        for m, n in [(1, 2), (2, 46342), (300, 65537), (7, 2000000), (3000, 3001)]:
            ij = sorted({(a, b) for a in {0, 1, m // 2, m - 1} for b in {a + 1, m - 1, m, n // 2, n - 1} if a < b < n and a < m})
            cmds = [["dist", "new", 0, m, n]] + [["dist", "set", 0, a, b, "0.%03d" % (k + 1)] for k, (a, b) in enumerate(ij)]
            cmds += [["dist", "get", 0, a, b] for a, b in ij] + [["dist", "get", 0, b, a] for a, b in ij]
            out.append((cmds, {"large": "entries", "a": [m, n, ij]}))
        return out

    def judge_large(self, meta, res, obs):
        if meta["large"] == "parts":
            m, n, np_ = meta["a"]
            m = min(m, n - 1)
            nel = m * (m - 1) // 2 + m * (n - m)
            want = []
            for s, e in split(nel, np_) if np_ else []:
                lo, hi = 0, m - 1
                while lo < hi:          # row of the pair number s
                    k = (lo + hi + 1) // 2
                    lo, hi = (k, hi) if k * (2 * n - k - 1) // 2 <= s else (lo, k - 1)
                want.append([m, n, lo, s - lo * (2 * n - lo - 1) // 2 + lo + 1, e - s, 0])
            obs.count("parts of large matrices", len(want))
            obs.distinct(meta["a"])
            if res[0] != want:
                return [("large-parts", "%d x %d in %d parts: %r, expected %r" % (m, n, np_, res[0][:3], want[:3]))]
            return []
        m, n, ij = meta["a"]
        got = res[1 + len(ij):]
        obs.count("entries of large matrices", len(ij))
        obs.distinct([m, n])
        for k, v in enumerate(got):
            if abs(v - float("0.%03d" % (k % len(ij) + 1))) > 1e-6:
                return [("large-entry", "%d x %d: entry %r reads %r, written 0.%03d" % (m, n, ij[k % len(ij)], v, k % len(ij) + 1))]
        return []

    def make(self, rng, i):
        t = gen.TYPES[i % 7]
        metric = rng.randrange(4)
        n = rng.choice([2, 2, 3, 4, 5, 6, rng.randrange(2, 14)])
        m = rng.choice([n, n - 1, n - 1, n + 3, rng.randrange(1, n), rng.randrange(1, n)])
        if t in gen.MULTI and rng.random() < .05:
            # many threads in few rows
            n, m = rng.randrange(65, 150), rng.choice([1, 1, 2])
        mm = min(m, n - 1)
        ths = self.threads(rng, t, n)
        cmds, meta = [], {"t": t, "metric": metric, "n": n, "m": mm}
        refs = self.store(t, ths, rng, 0, cmds)
        flat = [x for r in refs for x in r]
        meta["dist"] = len(cmds)
        cmds.append(["dist", "threads", 40, m, metric] + flat)
        meta["full"] = len(cmds)
        cmds.append(["dist", "full", 40, mm])
        # one dump of every thread after the computation
        meta["dump"] = len(cmds)
        dumps = sorted({s for s, _ in refs})
        for s in dumps:
            cmds.append(["dump", s])
        meta["threads"] = ths
        # parts
        pairs = [(a, b) for a in range(mm) for b in range(a + 1, n)]
        nel = len(pairs)
        np_ = rng.choice([1, 2, 3, nel, nel + 1, rng.randrange(1, nel + 3)])
        meta["np"] = np_
        meta["create"] = len(cmds)
        cmds.append(["parts", "create", 41, m, n, metric, np_])
        cnt = min(np_, nel)
        if rng.random() < .5:
            cmds.append(["parts", "compute_all", 41] + flat)
        else:
            order = list(range(cnt))
            rng.shuffle(order)
            for k in order:
                cmds.append(["parts", "compute", 41, k] + flat)
        order = list(range(cnt))
        rng.shuffle(order)
        meta["merge"] = len(cmds)
        cmds.append(["parts", "merge", 41, 42] + order)
        # corrupted lists that must be refused
        meta["bad"] = []
        if cnt > 1:
            drop = list(order)
            drop.pop(rng.randrange(cnt))
            meta["bad"].append([len(cmds), "incomplete"])
            cmds.append(["parts", "merge", 41, 43] + drop)
        # a second set of parts over other inputs
        kind = rng.choice(["size", "metric", "lengths", "rows", "uncomputed", "split", "duplicate"] if n < 65 else ["size", "lengths"])
        t2, m2, n2, metric2, np2, ths2 = t, m, n, metric, np_, ths
        if kind == "size":
            n2 = n + 1
            ths2 = ths + self.threads(rng, t, 1)
            m2 = mm
        elif kind == "metric":
            metric2 = (metric + 1) % 4
        elif kind == "lengths":
            ths2 = copy.deepcopy(ths)
            k = rng.randrange(n) if n < 65 else rng.randrange(64, n)
            f = gen.frame(rng, t, "plain")
            ths2[k]["frames"].append(f)
        elif kind == "rows":
            m2 = mm - 1 if mm > 1 and rng.random() < .5 else mm + 1
            if not 1 <= m2 <= n - 1:
                kind = "uncomputed"
                m2 = m
        elif kind == "split":
            np2 = rng.randrange(1, nel + 2)
        refs2 = self.store(t, copy.deepcopy(ths2), rng, 20, cmds)
        c2 = min(np2, len([(a, b) for a in range(min(m2, n2 - 1)) for b in range(a + 1, n2)]))
        meta["kind"] = kind
        cmds.append(["parts", "create", 44, m2, n2, metric2, np2])
        if kind != "uncomputed":
            cmds.append(["parts", "compute_all", 44] + [x for r in refs2 for x in r])
        if kind == "split":
            # equal inputs, other boundaries: mixing is right exactly when every pair is covered once
            meta["split"] = [np_, np2]
            take = ["a%d" % k for k in range(cnt) if rng.random() < .5] + ["b%d" % k for k in range(c2) if rng.random() < .5]
            rng.shuffle(take)
            if not take:
                take = ["a0"]
            meta["take"] = take
            meta["mix"] = len(cmds)
            cmds.append(["parts", "merge2", 41, 45, 44] + take)
        elif kind == "duplicate":
            # replace one part by another of the same kind (from an equal computation)
            k = rng.randrange(cnt)
            take = ["a%d" % x for x in range(cnt)] + ["b%d" % k]
            rng.shuffle(take)
            meta["bad"].append([len(cmds), "duplicate"])
            cmds.append(["parts", "merge2", 41, 45, 44] + take)
            if cnt > 1:
                j = rng.choice([x for x in range(cnt) if x != k])
                take = ["b%d" % k if x == j else "a%d" % x for x in range(cnt)]
                rng.shuffle(take)
                meta["bad"].append([len(cmds), "duplicate in place of another"])
                cmds.append(["parts", "merge2", 41, 46, 44] + take)
        else:
            k = rng.randrange(cnt)
            take = ["b%d" % x if x == k and x < c2 else "a%d" % x for x in range(cnt)]
            if take[k][0] == "a":
                take.append("b0")
            rng.shuffle(take)
            if len(take) > 1:
                meta["bad"].append([len(cmds), "part of " + {"size": "another size", "metric": "another metric", "lengths": "other threads",
                                                            "rows": "another row limit", "uncomputed": "no computation"}[kind]])
                cmds.append(["parts", "merge2", 41, 45, 44] + take)
            elif kind == "uncomputed":
                meta["bad"].append([len(cmds), "no computation"])
                cmds.append(["parts", "merge2", 41, 45, 44] + take)
        # every pair on its own (last: pairing modifies the copies it is given)
        meta["pairs"] = []
        for k, (a, b) in enumerate(pairs):
            if t == "gdb" and (gdb_unknown(ths[a]) or gdb_unknown(ths[b])):
                o = gen.stacktrace(rng, t, "plain", maxt=0)
                o.update(threads=[ths[a], ths[b]], crash=None)
                cmds.append(["build", 60, t, spec(o)])
                cmds.append(["gdb", "pair", 60, 0, 1])
                meta["pairs"].append(len(cmds))
                cmds.append(["distance", metric, 60, 0, 60, 1])
            else:
                meta["pairs"].append(len(cmds))
                cmds.append(["distance", metric] + list(refs[a]) + list(refs[b]))
        return cmds, meta

    def judge(self, cmds, meta, res, obs):
        if "large" in meta:
            return self.judge_large(meta, res, obs)
        out, t = [], meta["t"]
        n, m = meta["n"], meta["m"]
        d = res[meta["dist"]]
        pairs = [(a, b) for a in range(m) for b in range(a + 1, n)]
        want = [res[k] for k in meta["pairs"]]
        if d is None or (d["m"], d["n"]) != (m, n):
            return [("shape:" + t, "matrix is %r, expected %d x %d" % (d and (d["m"], d["n"]), m, n))]
        if d["d"] != want:
            k = [x != y for x, y in zip(d["d"], want)].index(True)
            out.append(("entry:" + t, "pair %r holds %r, its own distance is %r" % (pairs[k], d["d"][k], want[k])))
        full = res[meta["full"]]
        v = dict(zip(pairs, d["d"]))
        for a in range(m):
            for b in range(n):
                e = 0.0 if a == b else v[(min(a, b), max(a, b))]
                if full[a * n + b] != e:
                    out.append(("read", "reading (%d,%d) gives %r, expected %r" % (a, b, full[a * n + b], e)))
        dumps = []
        for c, r in zip(cmds[meta["dump"]:], res[meta["dump"]:]):
            if c[0] != "dump":
                break
            dumps += r["threads"] if t in gen.MULTI else [r]
        if dumps != meta["threads"]:
            out.append(("modified:" + t, "computing the matrix changed a thread"))
        # parts
        parts = res[meta["create"]]
        cover = []
        for pm, pn, a, b, ln, dt in parts:
            if (pm, pn, dt) != (m, n, meta["metric"]):
                out.append(("part-header", "part %r" % ([pm, pn, a, b, ln, dt],)))
            s = pairs.index((a, b)) if (a, b) in pairs else None
            if s is None:
                out.append(("part-start", "part starts at %r" % ((a, b),)))
            else:
                cover += list(range(s, s + ln))
        if sorted(cover) != list(range(len(pairs))):
            out.append(("cover", "parts %r do not cover the %d pairs once" % (parts, len(pairs))))
        if len(parts) != min(meta["np"], len(pairs)) or max(p[4] for p in parts) - min(p[4] for p in parts) > 1:
            out.append(("balance", "%d parts requested of %d pairs: %r" % (meta["np"], len(pairs), parts)))
        if res[meta["merge"]] != d:
            out.append(("merge", "merged parts differ from the whole: %r vs %r" % (res[meta["merge"]], d)))
        for k, what in meta["bad"]:
            obs.count("refusal: " + what)
            if res[k] is not None:
                out.append(("accepted", "merging accepted a list with %s" % what))
        if "mix" in meta:
            cov = []
            mine, np2 = parts, meta["split"][1]
            other = split(len(pairs), np2)
            for x in meta["take"]:
                k = int(x[1:])
                if x[0] == "a":
                    s = pairs.index((mine[k][2], mine[k][3]))
                    cov += range(s, s + mine[k][4])
                else:
                    cov += range(*other[k])
            ok = sorted(cov) == list(range(len(pairs)))
            obs.count("mixed splits %s" % ("complete" if ok else "wrong"))
            if ok and res[meta["mix"]] != d or not ok and res[meta["mix"]] is not None:
                out.append(("mix", "mixing splits into %r with parts %r gave %r" % (meta["split"], meta["take"], res[meta["mix"]])))
        obs.count("pairs", len(pairs))
        obs.count("parts", len(parts))
        obs.distinct([t, meta["metric"], n, m, meta["np"], want])
        return out


def split(nel, np_):
    np_ = min(np_, nel) if np_ > nel else np_
    q, r = divmod(nel, np_)
    out, s = [], 0
    for k in range(np_):
        l = q + (k < r)
        out.append((s, s + l))
        s += l
    return out


CHECK = C08
