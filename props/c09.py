"""C09: clustering builds the average-linkage dendrogram and cuts partition it."""
import struct
from vf.core import Check


def f32(x):
    if not isinstance(x, (int, float)):
        return float("inf")  # no finite number
    return struct.unpack("f", struct.pack("f", x))[0]


EPS = 2e-5


class Search:
    """Is (order, levels) the result of agglomerative average-linkage clustering of the matrix?
    Replays the merges bottom-up, backtracking over ties, on clusters that are runs of the order."""
    def __init__(self, n, m, d, order, levels):
        self.n, self.m, self.d0, self.order, self.levels = n, m, d, order, levels
        self.steps = 0
        self.why = "no merge sequence"

    def run(self):
        # cluster: key = smallest object (the row kept), size, run (first, last) in the order
        cl = {o: (1, k, k) for k, o in enumerate(self.order)}
        return self.rec(cl, dict(self.d0))

    def rec(self, cl, d):
        self.steps += 1
        if self.steps > 4000:
            return None
        if len(cl) == 1:
            return True
        keys = sorted(cl)
        known = [(d[(a, b)], a, b) for a in keys for b in keys if a < b and (a, b) in d and a < self.m]
        lo = min(known)[0]
        tol = EPS * max(1, abs(lo))
        for v, a, b in sorted(known):
            if v > lo + tol:
                break
            (sa, fa, la), (sb, fb, lb) = cl[a], cl[b]
            if la + 1 == fb:
                lv, first, last, inner = self.levels[la], fa, lb, (la, fb)
            elif lb + 1 == fa:
                lv, first, last, inner = self.levels[lb], fb, la, (lb, fa)
            else:
                continue
            if abs(lv - v) > tol:
                continue
            if self.m + 1 == self.n:
                o = self.order
                dd = lambda x, y: self.d0[(min(x, y), max(x, y))]
                ends = [dd(o[x], o[y]) for x in (fa, la) for y in (fb, lb)]
                if dd(o[inner[0]], o[inner[1]]) > min(ends) + tol:
                    self.why = "the objects facing each other at a merge are not the closest outer objects"
                    continue
            c2, e2 = dict(cl), dict(d)
            del c2[b]
            for k in keys:
                if k in (a, b):
                    continue
                ka, kb = (min(k, a), max(k, a)), (min(k, b), max(k, b))
                if ka in d and kb in d:
                    e2[ka] = (d[ka] * sa + d[kb] * sb) / (sa + sb)
                e2.pop(kb, None)
            e2.pop((a, b), None)
            c2[a] = (sa + sb, first, last)
            r = self.rec(c2, e2)
            if r or r is None:
                return r
        return False


def runs(order, levels, level, mn):
    out, cur = [], [order[0]]
    for k in range(1, len(order)):
        if levels[k - 1] <= level:
            cur.append(order[k])
        else:
            out.append(cur)
            cur = [order[k]]
    out.append(cur)
    return [c for c in out if len(c) >= mn]


class C09(Check):
    id = "C09"
    quick_n, thorough_n, chunk = 24000, 200000, 300
    rule = ("one case = a distance matrix (metric-like, tied, chained or random values; full or with limited rows; or two groups of hundreds of objects with known levels), its dendrogram replayed "
            "merge by merge, and cuts at levels between, at and around the merge levels; distinct = (n, m, rank pattern of the matrix)")
    assumptions = ["ties between equally distant clusters may be broken in any way", "levels are compared within 2e-5 (float arithmetic)",
                   "with limited rows an unknown distance is left out of the average, as the code documents"]

    def fixed_cases(self):
        """Many objects on a small stack: one row is known, all objects are at different distances of object 0."""
        n = 9000
        return [([["dist", "new", 0, 1, n], ["dist", "setall", 0] + ["%d" % (k + 1) for k in range(n - 1)], ["onstack", 128, "cluster", 0, 1],
                  ["onstack", 128, "cut", 1, "0.5", 1]], {"many": n})] + [self.groups(na, nb, full) for na, nb, full in [(300, 50, True), (60, 270, True), (300, 40, False)]]

    def groups(self, na, nb, full):
        """Two groups and a single object; the levels are known: equal inside of a group, else the mean of the pairs."""
        n = na + nb + 1
        m = n - 1 if full else na + nb - 3
        def val(a, b):
            if b < na:
                return 1.0
            if b < na + nb:
                return 2.0 if a >= na else 8.0 + a / na + 2.0 * (b - na) / nb
            return 40.0 + (a / na if a < na else 200.0)
        vals = [val(a, b) for a in range(m) for b in range(a + 1, n)]
        mean = lambda l: sum(l) / len(l)
        ab = mean([val(a, b) for a in range(min(m, na)) for b in range(na, n - 1)])
        last = mean([val(a, n - 1) for a in range(na + nb)]) if full else None
        return ([["dist", "new", 0, m, n], ["dist", "setall", 0] + ["%.9g" % v for v in vals], ["cluster", 0, 1], ["cut", 1, "1.5", 1], ["cut", 1, "5", 2]],
                {"groups": [na, nb, ab, last]})

    def judge_groups(self, na, nb, ab, last, res, obs):
        den, n = res[2], na + nb + 1
        o, lv = den["order"], [f32(x) for x in den["levels"]]
        if sorted(o) != list(range(n)):
            return [("order", "the order is no permutation of %d objects" % n)]
        a, b = [k for k, x in enumerate(o) if x < na], [k for k, x in enumerate(o) if na <= x < n - 1]
        if a[-1] - a[0] != na - 1 or b[-1] - b[0] != nb - 1 or o.index(n - 1) not in (0, n - 1):
            return [("linkage", "groups of %d and %d objects are not kept together" % (na, nb))]
        near = lambda x, y: abs(x - y) <= 1e-3 * y
        if last is None:
            big = sorted(lv)[-2:-1]
            want = [ab]
        else:
            big, want = sorted(lv)[-2:], [ab, last]
        if not all(near(x, y) for x, y in zip(big, want)) or not all(near(x, 1) for x in lv[a[0]:a[-1]]) or not all(near(x, 2) for x in lv[b[0]:b[-1]]):
            return [("linkage", "groups of %d and %d objects merge at %r, the means are %r" % (na, nb, big, want))]
        obs.count("groups of hundreds of objects")
        obs.distinct([na, nb])
        if sorted(map(len, res[3])) != [1] * (nb + 1) + [na] or sorted(map(len, res[4])) != sorted([na, nb]):
            return [("cut", "cuts between the groups' levels give %r and %r" % ([len(x) for x in res[3]], [len(x) for x in res[4]]))]
        return []

    def judge_many(self, n, res, obs):
        den, cut = res[2], res[3]
        if den["size"] != n or sorted(den["order"]) != list(range(n)):
            yield "order", "the order is no permutation of %d objects" % n
        # object 0 takes the others in, nearest first
        if den["order"] != list(range(n)) or [f32(x) for x in den["levels"]] != [float(k + 1) for k in range(n - 1)]:
            yield "linkage", "%d objects with one known row: order %r... levels %r..." % (n, den["order"][:9], den["levels"][:9])
        if sorted(map(tuple, cut)) != [(k,) for k in range(n)]:
            yield "cut", "cutting below all levels does not give single objects"
        obs.count("large dendrograms on a small stack")

    def make(self, rng, i):
        n = rng.choice([2, 3, 4, 5, 6, 7, rng.randrange(2, 16), rng.randrange(2, 30)])
        m = n - 1 if rng.random() < .7 else rng.randrange(1, n)
        k = i % 5
        if k == 0:
            pts = [rng.random() for _ in range(n)]
            val = lambda a, b: abs(pts[a] - pts[b])
        elif k == 1:
            n = min(n, 9); m = min(m, n - 1)
            val = lambda a, b: rng.choice([0.0, .25, .5, .75, 1.0])
        elif k == 2:
            grp = [rng.randrange(4) for _ in range(n)]
            val = lambda a, b: rng.random() * .2 if grp[a] == grp[b] else .5 + rng.random() * .5
        elif k == 3:
            val = lambda a, b: rng.random() * rng.choice([1, 1, 10])
        else:
            pts = [(rng.random(), rng.random()) for _ in range(n)]
            val = lambda a, b: ((pts[a][0] - pts[b][0]) ** 2 + (pts[a][1] - pts[b][1]) ** 2) ** .5
        vals = [f32(val(a, b)) for a in range(m) for b in range(a + 1, n)]
        cmds = [["dist", "new", 0, m, n], ["dist", "setall", 0] + [repr(v) for v in vals], ["dist", "dump", 0], ["cluster", 0, 1],
                ["dist", "dump", 0]]
        srt = sorted(vals)
        cuts = []
        for _ in range(4):
            lv = rng.choice([rng.choice(srt), rng.random(), -1.0, 100.0, 0.0])
            cuts.append([f32(lv), rng.choice([0, 1, 1, 2, 3, n, n + 1])])
            cmds.append(["cut", 1, repr(cuts[-1][0]), cuts[-1][1]])
        # an arbitrary dendrogram
        order = list(range(n))
        rng.shuffle(order)
        lvs = [f32(rng.choice([0.0, .5, rng.random()])) for _ in range(n - 1)]
        cmds.append(["dend", 2, n] + order + [repr(x) for x in lvs])
        own = []
        for _ in range(3):
            own.append([rng.choice(lvs + [f32(.3)]), rng.choice([1, 1, 2, 3])])
            cmds.append(["cut", 2, repr(own[-1][0]), own[-1][1]])
        return cmds, {"n": n, "m": m, "vals": vals, "cuts": cuts, "order": order, "lvs": lvs, "own": own}

    def judge(self, cmds, meta, res, obs):
        if "many" in meta:
            return list(self.judge_many(meta["many"], res, obs))
        if "groups" in meta:
            return self.judge_groups(*meta["groups"], res, obs)
        n, m, out = meta["n"], meta["m"], []
        pairs = [(a, b) for a in range(m) for b in range(a + 1, n)]
        d = dict(zip(pairs, meta["vals"]))
        den = res[3]
        if res[2] != res[4] or [f32(x) for x in res[2]["d"]] != meta["vals"]:
            out.append(("modified", "clustering changed the matrix"))
        if den["size"] != n or sorted(den["order"]) != list(range(n)):
            return out + [("order", "order %r is no permutation of %d objects" % (den["order"], n))]
        s = Search(n, m, d, den["order"], den["levels"])
        r = s.run()
        if r is None:
            obs.count("search given up (ties)")
        elif not r:
            out.append(("linkage", "n=%d m=%d matrix %r gave order %r levels %r: %s" % (n, m, meta["vals"], den["order"], den["levels"], s.why)))
        else:
            obs.count("dendrograms replayed")
        for (lv, mn), got in zip(meta["cuts"], res[5:9]):
            e = runs(den["order"], [f32(x) for x in den["levels"]], lv, mn)
            if sorted(map(tuple, got)) != sorted(map(tuple, e)):
                out.append(("cut", "cut at %r min %d gave %r, expected %r" % (lv, mn, got, e)))
            obs.count("cuts")
        for (lv, mn), got in zip(meta["own"], res[10:13]):
            e = runs(meta["order"], meta["lvs"], lv, mn)
            if sorted(map(tuple, got)) != sorted(map(tuple, e)):
                out.append(("cut", "cut of order %r levels %r at %r min %d gave %r, expected %r" % (meta["order"], meta["lvs"], lv, mn, got, e)))
            obs.count("cuts")
        rank = {v: k for k, v in enumerate(sorted(set(meta["vals"])))}
        obs.distinct([n, m, [rank[v] for v in meta["vals"]]])
        return out


CHECK = C09
