"""C33: the Ruby bindings give what the C library gives, and own each object once."""
import base64, json, os, subprocess, tempfile
from vf import build, driver
from vf.core import Check, tolatin
from vf.driver import Crash, NotRun
from vf import known_frames
from props import c02, c04

FLAGS = {"normal": 1, "nohash": 2, "nonormalize": 4, "koops_compat": 8}


def b64(s):
    return base64.b64encode(s if isinstance(s, bytes) else s.encode("latin-1")).decode()


def un(s):
    return base64.b64decode(s).decode("latin-1")


class C33(Check):
    id = "C33"
    quick_n, thorough_n, chunk = 4000, 100000, 150
    rule = ("one case = a report text (valid of every type, damaged or arbitrary) opened with the Ruby bindings; stacktrace, crash thread and duplicate hashes under varying "
            "options, garbage collection at every step and parents dropped before children, compared with the C library's answers; distinct = (text, options)")
    technique = ("runtime monitoring: ruby/lib/satyr.rb runs on the library built with ASan+UBSan; every answer is compared with the C library's in a separate process; the "
                 "sanitizers watch ownership while the collector is forced, and the allocation balance of repeated cases shows leaks")
    assumptions = ["texts hold no NUL (FFI strings cannot)"]

    def setup(self):
        self.dir = build.shared("asan")
        self.drv = driver.Driver("asan")
        self.c02 = c02.C02(self.tier)

    def make(self, rng, i):
        c = rng.random()
        if c < .35:
            # valid, with frames that survive normalisation
            t = rng.choice(["core", "python", "koops", "java", "ruby", "js", None])
            _, r, st = c04.report(rng, c04.C04.ENUM, t)
            if t in ("core", "koops") and rng.random() < .7:
                st = known_frames.stacktrace(rng, t, mint=1)
            text = c02.text_of(rng, c04.doc(t, r, st, "satyr", "0.43"))
        else:
            while True:
                cmds, m = self.c02.make(rng, c02.KINDS.index("report"))
                if m["kind"] == "report":
                    text = cmds[0][3]
                    break
        text = text if isinstance(text, str) else text.decode("latin-1")
        qs, ref = [], []
        for _ in range(rng.randrange(5)):
            q = {}
            if rng.random() < .7:
                q["frames"] = rng.choice([0, 0, 1, 2, 3, 7, 100, -1])
            if rng.random() < .6:
                q["prefix"] = b64(rng.choice(["", "a", "prefix\n", "\xc3\xa9", "x" * 200, "%s%n", " "]))
            if rng.random() < .8:
                q["flags"] = rng.choice(list(FLAGS) + [1, 2, 3, 5, 6, 10, 14, 15])
            if rng.random() < .1:
                q = {}
            qs.append(q)
            f = q.get("flags", 1)
            ref += [q.get("frames", 0), un(q["prefix"]) if "prefix" in q else "", FLAGS.get(f, f)]
        m = {"text": b64(text), "queries": qs, "gc": int(rng.random() < .12), "drop": int(rng.random() < .7), "twice": int(rng.random() < .3), "utf8": rng.randrange(2)}
        if rng.random() < .04:
            m["leak"] = 5
        return [["repdup", text] + ref], m

    def fixed_cases(self):
        return [([["echo", "1"]], {"surface": 1})]

    def worker(self, jobs):
        env = {k: v for k, v in os.environ.items() if not k.startswith("RUBY")}
        env.update(driver.env_for())
        env.update(LD_PRELOAD=subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip(), LD_LIBRARY_PATH=self.dir,
                   SATYR_RUBY=os.path.join(build.REPO, "ruby", "lib"), LC_ALL="C.UTF-8")
        with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
            p = subprocess.run(["ruby", os.path.join(build.VERIF, "harness", "rubyworker.rb")], input="".join(json.dumps(j) + "\n" for j in jobs).encode(),
                               stdout=out, stderr=err, env=env, timeout=800)
            out.seek(0)
            err.seek(0)
            return [json.loads(l) for l in out if l.endswith(b"\n")], p.returncode, err.read().decode("utf8", "replace")

    def run_cases(self, cases, obs):
        out, jobs = [], [m for _, m in cases]
        want = self.drv.run_batch([c for c, _ in cases], cpu=self.cpu)
        res = [None] * len(jobs)
        k, lost = 0, 0
        while k < len(jobs) and lost < 5:
            r, rc, err = self.worker(jobs[k:])
            res[k:k + len(r)] = r
            k += len(r)
            if k < len(jobs):
                if rc == 1 and "ERROR: " not in err and "runtime error" not in err:
                    # an exception nobody expects: the bindings do not load, or raise outside the documented class
                    out.append(("exception", err[-1500:], {"cmds": tolatin(cases[k][0]), "meta": jobs[k]}))
                elif not rc:
                    raise build.HarnessError("worker stopped early: " + err[-2000:])
                else:
                    out.append(("crash", "the interpreter stopped with %s\n%s" % (driver.describe(rc, err), err[-2500:]), {"cmds": tolatin(cases[k][0]), "meta": jobs[k]}))
                res[k] = "crash"
                k += 1
                lost += 1
        for (cmds, m), r, w in zip(cases, res, want):
            if r is None or w is NotRun:
                obs.count("cases not run after crashes")
                continue
            obs.count("cases")
            if r == "crash":
                continue
            if isinstance(w, Crash):
                out += [(t, d, {"cmds": tolatin(cmds), "meta": m}) for t, d in self.crash(cmds, m, w)]
                continue
            for tag, d in self.compare(cmds, m, r, w[0], obs):
                out.append((tag, d, {"cmds": tolatin(cmds), "meta": m}))
        return out

    def compare(self, cmds, m, r, w, obs):
        if "surface" in m:
            if r["priv"] != ["private", "private"]:
                yield "surface", "Stacktrace and Thread can be made directly: %r" % r["priv"]
            return
        obs.count("operations", 3 + len(m["queries"]))
        obs.distinct([m["text"], m["queries"]])
        text = un(m["text"])
        if not w["ok"]:
            obs.count("reports refused")
            e = ["SatyrError", "Failed to parse JSON: " + (w["err"] or "")]
        else:
            e = True
        got = r["report"]
        if isinstance(got, list):
            got = ["SatyrError" if got[0] == "E" else got[0], un(got[1])]
        if got != e:
            yield "report", "%.600r opened with %.400r, expected %.400r" % (text, got, e)
            return
        if e is not True:
            return
        obs.count("reports opened")
        st = r["st"]
        if isinstance(st, list):
            yield "stacktrace", "%.600r: stacktrace raised %s %r" % (text, st[0], un(st[1]))
            return
        if st is not (True if w["st"] else None):
            yield "stacktrace", "%.600r: stacktrace is %r, expected %r" % (text, st, w["st"])
            return
        if not w["st"]:
            obs.count("reports without stacktrace")
            return
        th = r["thread"]
        if w["thread"] != (th is True) or (th is not True and (th[0] != "E" or un(th[1]) != "Could not find crash thread")):
            yield "thread", "%.600r: crash thread %r, expected %r" % (text, th, w["thread"])
            return
        if th is not True:
            obs.count("no crash thread")
            return
        obs.count("crash threads")
        for q, a, b in zip(m["queries"], r["hash"], w["hash"]):
            b = b64(b) if b is not None else ["E", b64("Failed to compute duphash")]
            obs.count("hashes")
            if a != b:
                f = lambda x: un(x) if isinstance(x, str) else [x[0], un(x[1])]
                yield "duphash", "%.600r: duphash(%r) is %.600r, expected %.600r" % (text, q, f(a), f(b))
                return
        if len(r["hash"]) != len(m["queries"]):
            yield "duphash", "answers missing"
        d = r.get("marks")
        if d:
            obs.count("cases repeated for the allocation balance")
            if min(b - a for a, b in zip(d[1:], d[2:])) > 0:
                x, rc, err = self.worker([dict(m, leak=40)])
                if not x:
                    raise build.HarnessError(err[-2000:])
                d = x[0]["marks"]
                if min(b - a for a, b in zip(d[1:], d[2:])) > 0:
                    yield "leak", "%.400r: memory grows with every repetition: %r" % (text, d[:8])


CHECK = C33
