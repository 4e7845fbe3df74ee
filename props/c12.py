"""C12: Python, Ruby, Java and JavaScript traces are parsed to exactly what they show."""
import concurrent.futures

from vf import realrun, tracecheck
from vf.core import SEED


class C12(tracecheck.TraceCheck):
    id = "C12"
    quick_n, thorough_n = 96000, 800000
    kinds = [("python", 1), ("ruby", 1), ("java", 1), ("js", 1)]
    real = {"quick": {"python": (4, 8), "ruby": (1, 250), "java": (1, 250), "js": (1, 500)},
            "thorough": {"python": (60, 10), "ruby": (20, 300), "java": (20, 300), "js": (20, 700)}}
    rule = ("one case = a generated trace in the format printed by CPython, Ruby, the JVM or V8, or printed by these runtimes for an exception of a random "
            "program, parsed and compared field by field with the stacktrace it shows; distinct = (runtime, shape of the fields of the first frames, count)")

    def make(self, rng, i):
        cmds, meta = super().make(rng, i)
        if meta["k"] == "js" and rng.random() < .5:
            # the same trace through the engine's parser and through the parser of a known platform
            way, code = rng.choice([("js_v8", 0), ("js_platform", 0x11)])
            cmds[2][2] = way
            meta["code"] = code
        if meta["k"] == "js":
            lines = cmds[0][3].split("\n")
            line = rng.choice(lines[1:] or lines) + rng.choice(["", "\n", "x"])
            e, r, en, rn = rng.choice([1]), rng.choice([1]), rng.choice(["V8", "v8", "", "V", "V88"]), rng.choice(["Node.js", "node.js", "Node", "", "Node.jsx"])
            cmds += [["parsef", w, line] for w in ("js", "js_v8", "js_platform")] + [["jsplat", "names", e, r, en, rn]]
            meta["names"] = ["V8", "Node.js", int(en == "V8"), int(rn == "Node.js")]
        return cmds, meta

    def extra(self, obs, report):
        """Exceptions of random programs run by the installed runtimes."""
        jobs = []
        for lang, (runs, n) in self.real[self.tier].items():
            if realrun.available(lang):
                jobs += [(lang, "%d/%d" % (SEED, j), n) for j in range(runs)]
            else:
                obs.count("not installed: " + lang)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            seen = list(ex.map(lambda j: realrun.observe(*j), jobs))
        cases = []
        for (lang, _, _), r in zip(jobs, seen):
            if isinstance(r, str):
                obs.count("runs of %s without a result: %s" % (lang, r))
                continue
            cases += [([["parse", 0, k, text], ["?dump", 0], ["parsex", 1, k, text], ["?dump", 1]], {"k": k, "exp": exp, "real": 1}) for k, text, exp in r]
        for v in self.run_cases(cases, obs):
            report(*v)

    def judge(self, cmds, meta, res, obs):
        if meta.get("real"):
            obs.count("exceptions of real programs, " + meta["k"])
            return [("real:" + t, d + "\n" + cmds[0][3][:3000]) for t, d in super().judge(cmds, meta, res, obs)]
        if "code" in meta and isinstance(res[3], dict):
            if res[3].get("platform") != meta["code"]:
                return [("js:platform", "%s recorded the platform %r" % (cmds[2][2], res[3].get("platform")))]
            res[3] = dict(res[3], platform=meta["exp"]["platform"])
        out = super().judge(cmds, meta, res, obs)
        if "names" in meta:
            fs = res[4:7]
            obs.count("frames parsed in three ways")
            if any((g["ok"], g["consumed"], g["frames"]) != (fs[0]["ok"], fs[0]["consumed"], fs[0]["frames"]) for g in fs[1:]):
                out.append(("js:dialects", "the frame parsers disagree: %r" % (fs,)))
            if res[7] != meta["names"]:
                out.append(("js:names", "engine and runtime names convert to %r, expected %r" % (res[7], meta["names"])))
        return out


CHECK = C12
