"""C25: every call releases what it allocated, on success and on failure."""
import importlib, json, os, random, re, shutil, tempfile
from vf import driver, gen
from vf.core import Check, tolatin
from vf.driver import Crash, NotRun, spec

# properties whose generators are borrowed, with weights
FROM = [("c01", 8), ("c02", 8), ("c03", 3), ("c04", 3), ("c05", 2), ("c06", 2), ("c07", 1), ("c08", 3), ("c09", 2), ("c10", 2), ("c11", 2), ("c12", 4), ("c13", 1),
        ("c14", 3), ("c15", 2), ("c16", 2), ("c17", 2), ("c18", 3), ("c19", 3), ("c20", 2), ("c21", 4), ("c26", 2), ("c28", 1), ("c29", 2), ("c30", 1), ("c31", 2), ("c32", 2)]


class C25(Check):
    id = "C25"
    quick_n, thorough_n, chunk = 40000, 400000, 100
    leak = True
    rule = ("one case = a sequence of calls taken from the generators of another property (valid, hostile, truncated and failing inputs alike), executed three times in one "
            "process while every allocation and release, and every open descriptor, is counted; something still held after all returned objects were freed in the second and "
            "third run is a leak; distinct = distinct call sequences")
    assumptions = ["one-time caches (kept after the first run) are not leaks", "strings that the caller owns by documentation are freed by the harness"]

    def setup(self):
        super().setup()
        self.src = []
        for name, w in FROM:
            c = importlib.import_module("props." + name).CHECK(self.tier)
            self.src += [(name, c)] * w
        self.c21 = next(c for n, c in self.src if n == "c21")

    def make(self, rng, i):
        name, c = self.src[i % len(self.src)] if rng.random() < .8 else rng.choice(self.src)
        cmds, meta = c.make(rng, i)
        return cmds, {"from": name, "files": meta["files"] if name == "c21" else None}

    def run_cases(self, cases, obs):
        root = tempfile.mkdtemp(prefix="satyr-c25-")
        try:
            real = []
            for j, (cmds, meta) in enumerate(cases):
                d = os.path.join(root, "p%d" % j)
                if meta.get("files"):
                    self.c21.write(d, {k: tuple(v) for k, v in meta["files"].items()})
                real.append([[x.replace("@D@", d) if isinstance(x, str) and "@D@" in x else x for x in c] for c in cmds])
            res = self.drv.run_batch([c for c in real for _ in range(3)], leak=True, cpu=self.cpu)
            out = []
            for j, (cmds, meta) in enumerate(cases):
                rs = res[3 * j:3 * j + 3]
                if NotRun in rs:
                    obs.count("cases not run after crashes")
                    continue
                obs.count("cases")
                obs.count("operations", 3 * len(cmds))
                obs.count("cases from " + meta["from"].upper())
                obs.distinct([meta["from"], tolatin(cmds)])
                rep = {"cmds": tolatin(cmds), "meta": meta}
                cr = [r for r in rs if isinstance(r, Crash)]
                if cr:
                    out += [(t, d.replace(root, "@"), rep) for t, d in self.crash(cmds, meta, cr[0])]
                    continue
                acct = [r[-1] for r in rs]
                obs.count("allocations counted", sum(a["allocs"] for a in acct))
                if any(r == "leftovers" for r in rs[1]):
                    out.append(("leftovers", "a failing call of %s left strings behind" % [c[0] for c in cmds], rep))
                if acct[1]["net"] > 0 and acct[2]["net"] > 0:
                    where, stack = self.explain(real[j])
                    out.append(("leak:" + where, "%d blocks stay allocated after %s\n%s" % (acct[2]["net"], [tuple(c[:3]) for c in cmds][:12], stack.replace(root, "@")), rep))
                if acct[1]["fds"] > 0 and acct[2]["fds"] > 0:
                    out.append(("descriptors:" + cmds[0][0], "%d descriptors stay open" % acct[2]["fds"], rep))
                obs.count("cases returned to the prior level", acct[2]["net"] <= 0)
            return out
        finally:
            shutil.rmtree(root)

    def explain(self, cmds):
        env = driver.env_for(True, True, {"DRV_CPU": str(self.cpu)})
        _, _, err = driver.raw_run(self.drv.prog, driver.encode(cmds) * 3, env)
        m = re.search(r"LEAK: case [12] .*", err, re.S)
        err = m.group(0) if m else err
        fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+)", err) if not f.startswith(("g_", "__interceptor", "malloc", "calloc", "realloc", "op_"))]
        return (fr[0] if fr else "unknown"), err[:2500]


CHECK = C25
