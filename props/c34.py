"""C34: package database queries."""
import json, shutil, tempfile
from vf import driver
from vf.core import Check, tolatin
from vf.driver import Crash, NotRun

NEED = [("name", "name"), ("version", "version"), ("release", "release"), ("architecture", "architecture"), ("install_time", "installation time")]
NAMES = ["bash", "kernel", "kernel-core", "a", "Kernel", "bash ", "x" * 300, "libfoo++", "\xc3\xa9t\xc3\xa9", "%name", "kern*", "[a-z]", "foo-1.0", "'; --"]
DIRS = ["/satyr-none/", "/satyr-none/bin/", "/satyr-none/usr/lib64/", "/satyr-none/bin/bin/", "/"]
BASES = ["bash", "a", "libfoo.so.1", "x" * 200, "sp ace", "\xc3\xa9", "*", "bash.conf", "satyr-none-top", "-", "%s", "bin"]


class C34(Check):
    id = "C34"
    quick_n, thorough_n, chunk = 2500, 60000, 40
    rule = ("one case = a package database filled through librpm (0-14 packages, tags missing here and there, shared files, several versions of a name) and up to 8 queries by name "
            "and path, several rounds; the answers are compared with the packages put in, memory and descriptors over the rounds must not grow; distinct = (database, queries)")
    technique = ("runtime monitoring: the real queries run under ASan+UBSan on real sqlite databases in a scratch directory (RPM_CONFIGDIR of the process points there); oracle: the "
                 "generated packages; allocation and descriptor balance over repeated rounds")
    assumptions = ["librpm 4.18 stores and finds what is imported", "paths are absolute and normalised"]

    def package(self, rng, names):
        p = {"name": rng.choice(names), "version": rng.choice(["1", "1.0", "2.3.4~rc1", "0", "\xc3\xa9"]), "release": rng.choice(["1", "2.fc40", "1.el9_2"]),
             "architecture": rng.choice(["x86_64", "noarch", "i686", "riscv64"]), "install_time": rng.choice([1, 1700000000, 2**31 - 1, 2**31, 2**32 - 1, 0])}
        if rng.random() < .4:
            p["epoch"] = rng.choice([0, 1, 2, 2**31, 2**32 - 1])
        if rng.random() < .06:
            del p[rng.choice(["version", "release", "architecture", "install_time"])]
        fs = {(rng.choice(DIRS), rng.choice(BASES)) for _ in range(rng.choice([0, 1, 2, 6]))}
        if fs:
            p["files"] = sorted(map(list, fs))
        return p

    def make(self, rng, i):
        names = rng.sample(NAMES, rng.randrange(1, 5))
        pk = [self.package(rng, names) for _ in range(rng.choice([0, 1, 2, 4, 8, 14]))]
        q = []
        for _ in range(rng.randrange(1, 9)):
            if rng.random() < .5:
                q.append(["name", rng.choice(names if rng.random() < .8 else NAMES + ["", "nothing"])])
            else:
                fs = [d + b for p in pk for d, b in p.get("files", [])]
                q.append(["path", rng.choice(fs) if fs and rng.random() < .8 else rng.choice(DIRS) + rng.choice(BASES)])
        m = {"packages": pk, "queries": q, "rounds": rng.choice([1, 1, 1, 1, 7]), "config": True}
        return [["rpmdb", driver.spec(m)]], m

    def fixed_cases(self):
        q = [["name", "bash"], ["path", "/satyr-none/a"]]
        return [([["rpmdb", driver.spec(m)]], m) for m in ({"queries": q, "rounds": 7, "config": False}, {"queries": q, "rounds": 7, "config": True})]

    def run_cases(self, cases, obs):
        out = []
        for config in (False, True):
            part = [c for c in cases if c[1]["config"] == config]
            if not part:
                continue
            root = tempfile.mkdtemp(prefix="satyr-c34-")
            try:
                res = self.drv.run_batch([c for c, _ in part], cpu=60, cwd=root)
            finally:
                shutil.rmtree(root, ignore_errors=True)
            for (cmds, m), r in zip(part, res):
                if r is NotRun:
                    obs.count("cases not run after crashes")
                    continue
                obs.count("cases")
                vs = self.crash(cmds, m, r) if isinstance(r, Crash) else self.judge(cmds, m, r, obs)
                out += [(t, d, {"cmds": tolatin(cmds), "meta": m}) for t, d in vs]
        return out

    def expect(self, m, by, key):
        hit = []
        for p in m.get("packages", []):
            if p["name"] == key if by == "name" else any(d + b == key for d, b in p.get("files", [])):
                hit.append(p)
        out = []
        for p in hit:
            for f, text in NEED:
                if f not in p:
                    return None, "Failed to find package %s." % text
            out.append({"name": p["name"], "epoch": p.get("epoch", 0), "version": p["version"], "release": p["release"], "architecture": p["architecture"],
                        "install_time": p["install_time"], "role": 0, "consistency": []})
        return out or None, None

    def judge(self, cmds, m, res, obs):
        r = res[0]
        obs.count("databases")
        obs.count("operations", len(m["queries"]) * m["rounds"])
        obs.distinct([m.get("packages"), m["queries"]])
        for (by, key), a in zip(m["queries"], r["answers"]):
            obs.count("queries by " + by)
            if not m["config"]:
                e = (None, "Failed to read RPM configuration files.")
            else:
                e = self.expect(m, by, key)
            obs.count("packages found", len(e[0] or []))
            if e[1]:
                obs.count("refusals expected")
            s = lambda l: l and sorted(json.dumps(x, sort_keys=True) for x in l)
            if a["err"] != e[1] or s(a["pkgs"]) != s(e[0]):
                yield by, "%s %r in %.900r: %.900r, expected %.900r" % (by, key, m.get("packages"), a, e)
                return
        d = r["rounds"]
        if len(d) > 5:
            obs.count("databases queried repeatedly")
            mem = [x[0] for x in d]
            own = [b - a for a, b in zip(r["base"], r["base"][1:])]
            if min(b - a for a, b in zip(mem[2:], mem[3:])) > max(own):
                yield "leak", "memory grows with every round: %r (reading the configuration alone: %r) for %.900r" % (mem, own, m)
            fd = [x[1] for x in d]
            if fd[-1] > fd[1]:
                yield "descriptor", "open files over the rounds: %r for %.900r" % (fd, m)


CHECK = C34
