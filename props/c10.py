"""C10: GDB backtraces are parsed to exactly the threads and frames they show."""
import concurrent.futures
import os
from vf import traces, tracecheck, realgdb
from vf.core import SEED


class C10(tracecheck.TraceCheck):
    id = "C10"
    quick_n, thorough_n = 48000, 500000
    kinds = [("gdb", 1)]
    rule = ("one case = a generated GDB backtrace (header styles, crash frame, thread headers, frames with C++ names, argument lists, wrapped lines, locals, "
            "shared library table) or one of its frames alone, parsed and compared field by field with what it shows; or the backtrace "
            "the installed GDB prints of a crashed random C++ program, compared with GDB's machine interface; "
            "distinct = (shape of the fields of the first frames, count)")

    def make(self, rng, i):
        cmds, meta = super().make(rng, i)
        f, t = traces.gdb_frame(rng, rng.choice([0, 1, 7, 99, 4294967294]))
        cmds += [["parsef", "gdb", t]]
        meta["f"] = f
        return cmds, meta

    real = {"quick": 24, "thorough": 400}

    def extra(self, obs, report):
        """Real crashes shown by the installed GDB."""
        if not realgdb.available():
            obs.count("GDB is not installed")
            return
        with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            seen = list(ex.map(realgdb.observe, ["%d/%d" % (SEED, j) for j in range(self.real[self.tier])]))
        cases = []
        for r in seen:
            if isinstance(r, str):
                obs.count("GDB runs without a backtrace: " + r)
            else:
                cases.append(([["parsex", 0, "gdb", r[0]], ["?dump", 0], ["?gdb", "find_crash", 0]], {"k": "real", "facts": r[1]}))
        for v in self.run_cases(cases, obs):
            report(*v)

    def judge_real(self, cmds, meta, res, obs):
        facts, text = meta["facts"], cmds[0][3]
        obs.count("backtraces of real crashes")
        obs.count("frames of real crashes", sum(len(t["frames"]) for t in facts["threads"]))
        if not res[0]["ok"]:
            return [("real:refused", "the backtrace of a real crash is refused: %r" % res[0]["loc"])]
        out = realgdb.compare(text, facts, res[1])
        tops = [t["frames"][0]["func"] if t["frames"] else None for t in facts["threads"]]
        sel = [j for j, t in enumerate(sorted(facts["threads"], key=lambda t: -t["id"])) if t["id"] == facts["selected"]][0]
        name = [t["frames"][0]["func"] for t in facts["threads"] if t["id"] == facts["selected"]][0]
        if tops.count(name) == 1 and res[2] != sel:
            out.append(("real:crash-thread", "the crash thread is no. %r of the stacktrace, GDB stopped in no. %r" % (res[2], sel)))
        obs.distinct(["real", [[f["func"].split("<")[0] for f in t["frames"]][:9] for t in facts["threads"]]])
        return out

    def judge(self, cmds, meta, res, obs):
        if meta["k"] == "real":
            return self.judge_real(cmds, meta, res, obs)
        out = super().judge(cmds, meta, res, obs)
        r = res[4]
        if not r["ok"]:
            out.append(("frame:refused", "a well-formed frame is refused: %r %r" % (r["loc"], cmds[4][2])))
        elif r["frames"] != [meta["f"]]:
            out.append(("frame:" + tracecheck.where(r["frames"], [meta["f"]]), "%s\n%r" % (tracecheck.diff(r["frames"], [meta["f"]]), cmds[4][2])))
        if not 0 <= r["consumed"] <= len(cmds[4][2]):
            out.append(("frame:cursor", "cursor left at %d of %d" % (r["consumed"], len(cmds[4][2]))))
        return out

    def shape(self, k, exp, fs, obs):
        super().shape(k, exp, fs, obs)
        obs.count("threads", len(exp["threads"]))
        obs.count("shared libraries", len(exp["libs"]))


CHECK = C10
