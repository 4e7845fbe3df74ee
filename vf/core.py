"""Check framework: seeded generation, parallel execution on the instrumented library, online
judging, evidence, replays and known findings."""
import argparse, collections, hashlib, importlib, json, multiprocessing, os, random, sys, time, traceback
from . import build, driver, known
from .build import VERIF, HarnessError
from .driver import Crash, NotRun

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Obs:
    """What the monitors observed: counters and distinct keys."""
    def __init__(self):
        self.n = collections.Counter()
        self.keys = set()
    def count(self, what, k=1):
        self.n[what] += k
    def distinct(self, key):
        if not isinstance(key, (str, bytes)):
            key = json.dumps(key, sort_keys=True, default=str)
        if isinstance(key, str):
            key = key.encode("utf8", "surrogatepass")
        self.keys.add(hashlib.blake2b(key, digest_size=8).digest())


class Check:
    """One property. Subclasses define make() and judge()."""
    id = "C00"
    level = "exploration"
    rule = ""
    assumptions = []
    flavour = "asan"
    quick_n = 2000
    thorough_n = 40000
    chunk = 200
    leak = False
    cpu = 20
    crash_is_violation = True
    memcheck = (0, 0)        # cases also run under valgrind memcheck (quick, thorough)

    def __init__(self, tier):
        self.tier = tier
        self.setup()
    def setup(self):
        self.drv = driver.Driver(self.flavour)
    def n(self):
        return self.quick_n if self.tier == "quick" else self.thorough_n
    def make(self, rng, i):
        """-> (commands, meta)"""
        raise NotImplementedError
    def judge(self, cmds, meta, res, obs):
        """-> iterable of (tag, detail)"""
        raise NotImplementedError
    def fixed_cases(self):
        """Hand-picked (cmds, meta) run in addition to the generated ones."""
        return []
    def extra(self, obs, report):
        """Additional workloads run once in the parent; call report(tag, detail, replay_dict)."""
    def crash(self, cmds, meta, c):
        return [("crash", "the library stopped with %s\n%s" % (c.args[0], c.args[1][-1800:]))]

    def run_cases(self, cases, obs):
        out = []
        res = self.drv.run_batch([c for c, _ in cases], leak=self.leak, cpu=self.cpu)
        for (cmds, meta), r in zip(cases, res):
            if r is NotRun:
                obs.count("cases not run after crashes")
                continue
            obs.count("cases")
            if isinstance(r, Crash):
                obs.count("crashes")
                vs = self.crash(cmds, meta, r)
            else:
                obs.count("operations", len(cmds))
                vs = list(self.judge(cmds, meta, r, obs))
            for tag, detail in vs:
                out.append((tag, detail, {"cmds": tolatin(cmds), "meta": meta}))
        return out


def tolatin(cmds):
    return [[(a.decode("latin-1") if isinstance(a, bytes) else a) for a in c] for c in cmds]


_CHECK = None
_SAMPLES = 3


def case_rng(prop, i):
    return random.Random("%d/%s/%d" % (SEED, prop, i))


def _work(job):
    start, n, fixed = job
    chk = _CHECK
    obs = Obs()
    cases = []
    try:
        if fixed:
            cases = chk.fixed_cases()[start:start + n]
        else:
            for i in range(start, start + n):
                cases.append(chk.make(case_rng(chk.id, i), i))
        vs, kh = [], collections.Counter()
        kn = known.Known(chk.id)
        for v in chk.run_cases(cases, obs):
            e = kn.match(v[0], v[1])
            if e:
                kh[e["what"]] += 1
            else:
                vs.append(v)
        samples = [{"cmds": clip(tolatin(c)), "meta": clip(m)} for c, m in cases[:1]]
        return ("ok", vs[:20], kh, obs.n, obs.keys, samples)
    except HarnessError as e:
        return ("err", str(e))
    except Exception:
        return ("err", traceback.format_exc())


def clip(x, lim=400):
    if isinstance(x, str):
        return x if len(x) <= lim else x[:lim] + "...(%d)" % len(x)
    if isinstance(x, (list, tuple)):
        return [clip(y, lim) for y in x[:12]]
    if isinstance(x, dict):
        return {k: clip(v, lim) for k, v in list(x.items())[:20]}
    return x


def replay_path(prop, tag, rep):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = json.dumps(rep, indent=1, default=str)
    p = os.path.join(d, "%s-%s-%s.json" % (prop, "".join(ch if ch.isalnum() else "_" for ch in tag)[:40],
                                           hashlib.sha1(body.encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        f.write(body)
    return p


def _vg(cases):
    """None, or the stderr of valgrind, for the cases run in one process."""
    env = driver.env_for()
    prog = build.program("plain", "drv", driver.DRV_SRC)
    cmd = ["valgrind", "-q", "--error-exitcode=9", "--num-callers=20", "--run-libc-freeres=no", prog]
    res, rc, err = driver.raw_run(cmd, b"".join(driver.encode(c) for c in cases), env)
    if rc == 99:
        raise HarnessError(err[-2000:])
    return err if rc == 9 else None


def _vgwork(job):
    chk = _CHECK
    start, n = job
    try:
        cases = [chk.make(case_rng(chk.id + "/memcheck", i), i) for i in range(start, start + n)]
        todo, bad = [cases], []
        while todo and len(bad) < 3:
            b = todo.pop()
            e = _vg([c for c, _ in b])
            if e is None:
                continue
            if len(b) == 1:
                bad.append((e, {"cmds": tolatin(b[0][0]), "meta": b[0][1]}))
            else:
                todo += [b[:len(b) // 2], b[len(b) // 2:]]
        return ("ok", len(cases), bad)
    except HarnessError as e:
        return ("err", str(e), None)
    except Exception:
        return ("err", traceback.format_exc(), None)


def memcheck(chk, obs, report, tier):
    """Uninitialised memory: what AddressSanitizer does not see."""
    n = chk.memcheck[tier != "quick"]
    if not n or not hasattr(chk, "drv"):
        return
    import re
    build.program("plain", "drv", driver.DRV_SRC)
    with multiprocessing.Pool(8) as pool:
        for k, a, bad in pool.imap_unordered(_vgwork, [(s, min(50, n - s)) for s in range(0, n, 50)]):
            if k == "err":
                raise HarnessError(a)
            obs.count("cases also run under memcheck", a)
            for e, rep in bad:
                fr = [f for f in re.findall(r"(?:at|by) 0x[0-9A-F]+: (\w+)", e) if f.startswith(("sr_", "op_", "dump_"))]
                m = re.search(r"== (\w[^\n]*)", e)
                report("memcheck:" + (fr[0] if fr else "?"), "%s\n%s" % (m.group(1) if m else "", e[:2000]), rep)


def run_check(cls, tier):
    global _CHECK
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET", "700" if tier == "quick" else "20000"))
    chk = cls(tier)
    _CHECK = chk
    obs, samples, violations = Obs(), [], []
    knownhits = collections.Counter()
    kn = known.Known(chk.id)
    total = chk.n()
    nfixed = len(chk.fixed_cases())
    jobs = [(s, min(20, nfixed - s), True) for s in range(0, nfixed, 20)]
    jobs += [(s, min(chk.chunk, total - s), False) for s in range(0, total, chk.chunk)]
    stopped = False
    if jobs:
        with multiprocessing.Pool(min(int(os.environ.get("VERIF_JOBS", "8")), len(jobs))) as pool:
            for r in pool.imap_unordered(_work, jobs):
                if r[0] == "err":
                    pool.terminate()
                    raise HarnessError(r[1])
                _, vs, k, cnt, keys, sm = r
                obs.n.update(cnt)
                obs.keys |= keys
                knownhits.update(k)
                violations += vs
                if len(samples) < _SAMPLES:
                    samples += sm
                # enough to report, or out of time
                if time.time() - t0 > budget or len(violations) > 400 or (
                        violations and time.time() - t0 > 200):
                    stopped = True
                    pool.terminate()
                    break
    def report(tag, detail, rep):
        violations.append((tag, detail, rep))
    chk.extra(obs, report)
    memcheck(chk, obs, report, tier)

    groups = collections.OrderedDict()
    for tag, detail, rep in violations:
        e = kn.match(tag, detail)
        if e:
            knownhits[e["what"]] += 1
        else:
            groups.setdefault(tag, []).append((detail, rep))
    for e in kn.entries:
        print("KNOWN-FINDING: property=%s %s" % (chk.id, e["what"]))
    for tag, items in groups.items():
        items.sort(key=lambda x: len(json.dumps(x[1], default=str)))
        detail, rep = items[0]
        p = replay_path(chk.id, tag, dict(rep, property=chk.id, tag=tag, detail=detail, seed=SEED))
        print("VIOLATION property=%s replay=%s" % (chk.id, p))
        print("  [%s] x%d %s" % (tag, len(items), detail[:1500]))
    ev = {
        "property": chk.id, "tier": tier, "seed": SEED, "level": chk.level,
        "coverage": {
            "evaluations": int(obs.n["cases"]), "distinct_nontrivial": len(obs.keys), "rule": chk.rule,
            "samples": samples[:_SAMPLES] or obs.__dict__.get("samples", []) or ["none"],
            "observed": {k: int(v) for k, v in sorted(obs.n.items())},
            "known_findings_observed": knownhits, "stopped_early": stopped,
        },
        "assumptions": chk.assumptions, "wall_s": round(time.time() - t0, 2), "violations": sum(len(g) for g in groups.values()),
    }
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, chk.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d cases, %d distinct non-trivial, %d operations, %.1f s, %s" % (
        chk.id, tier, obs.n["cases"], len(obs.keys), obs.n["operations"], time.time() - t0,
        "violations" if groups else "held"))
    return 1 if groups else 0


def replay(cls, path):
    with open(path) as f:
        rep = json.load(f)
    chk = cls("quick")
    if "cmds" not in rep:
        print("This replay describes a whole-program history; re-running the check.")
        return run_check(cls, "quick")
    obs = Obs()
    vs = chk.run_cases([(rep["cmds"], rep["meta"])], obs)
    if rep.get("tag", "").startswith("memcheck:"):
        e = _vg([rep["cmds"]])
        vs += [("memcheck", e[:3000], None)] if e else []
    for tag, detail, _ in vs:
        print("[%s] %s" % (tag, detail))
    if not vs:
        print("no violation on the current tree")
    return 1 if vs else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.path.insert(0, VERIF)
    try:
        cls = importlib.import_module("props." + a.property.lower()).CHECK
        if a.replay:
            return replay(cls, a.replay)
        return run_check(cls, "thorough" if a.tier == "thorough" else "quick")
    except HarnessError as e:
        print("HARNESS-ERROR: %s" % e)
        return 3
