"""C24: distinct objects can be processed by concurrent threads, and shared ones read."""
import atexit, glob, importlib, json, os, re, resource, shutil, subprocess, tempfile
from vf import build, driver, gen, known_frames
from vf.core import Check, tolatin, VERIF
from vf.driver import Crash, NotRun, spec

FROM = ["c01", "c01", "c02", "c02", "c03", "c04", "c05", "c06", "c08", "c09", "c10", "c11", "c12", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c19", "c20", "c21",
        "c26", "c28", "c29", "c30", "c31", "c32", "core"]
SH = 80
CRASHER = """#include <pthread.h>
#include <stdlib.h>
#include <unistd.h>
static int deep(int n) { if (!n) abort(); return deep(n - 1) + 1; }
static void *park(void *x) { for (;;) pause(); }
int main(void) { pthread_t t; for (int i = 0; i < 3; ++i) pthread_create(&t, 0, park, 0); usleep(20000); return deep(9); }
"""


def readers(rng, types):
    """Read-only calls on the shared stacktraces."""
    out = []
    for _ in range(rng.randint(3, 10)):
        k = rng.randrange(len(types))
        s, t, nt = SH + k, types[k][0], types[k][1]
        c = rng.choice(["dump", "tojson", "bthash", "reason", "short", "tdup", "tcount", "bthash", "hash", "crash", "dup"] + (["quality", "text"] if t == "gdb" else []))
        if c in ("dump", "tojson", "reason"):
            out.append([c, s])
        elif c == "bthash":
            out.append(["bthash", s, rng.choice([0, 1, 2, 3])])
        elif c == "short":
            out.append(["short", s, rng.choice([0, 1, 5])])
        elif c == "crash":
            out.append(["crash", s])
        elif c == "dup":
            out.append(["dup", s, 5])
        elif c == "quality":
            out.append(["gdb", "quality", s])
        elif c == "text":
            out.append(["gdb", "text", s, rng.randrange(2)])
        elif nt and c == "hash":
            out.append(["duphash", s, rng.randrange(nt), rng.choice([0, 1, 5]), rng.choice(["\x01", "p"]), rng.choice([0, 2, 4, 8])])
        elif nt and c == "tcount":
            out.append(["tcount", s, rng.randrange(nt)])
        elif nt and c == "tdup":
            out.append(["tdup", s, rng.randrange(nt), 6])
        same = [j for j, x in enumerate(types) if x[0] == t and x[1]]
        if nt and len(same) > 1 and rng.random() < .4:
            j = rng.choice(same)
            a = [s, rng.randrange(nt), SH + j, rng.randrange(types[j][1])]
            if t not in ("core", "gdb", "java", "koops") or rng.random() < .5:
                a = [s, 0, SH + j, 0]
            out.append(["tcmp"] + a if t in gen.MULTI and rng.random() < .4 else ["distance", rng.choice([0, 1, 2])] + a)
    return out


class C24(Check):
    id = "C24"
    quick_n, thorough_n, chunk = 8000, 40000, 20
    rule = ("one case = a round in which 2 to 8 threads, released together with random skew, run call sequences taken from the other properties on their own objects and read "
            "shared stacktraces, under ThreadSanitizer; the results must equal those of the same sequences run one after the other; distinct = observed interleavings of calls")
    assumptions = ["system libraries (glib, json-c, rpm) are not instrumented; accesses made inside them are not judged; "
                   "libdw and libelf calls are serialised, because libdw 0.190 is not reliably safe among threads", "locale C, no concurrent change of global process state"]

    def setup(self):
        self.prog = build.program("tsan", "mt", driver.DRV_SRC, "-DMT")
        self.src = {n: importlib.import_module("props." + n).CHECK.__new__(importlib.import_module("props." + n).CHECK) for n in set(FROM) if n != "core"}
        self.src["c21"].osgen = importlib.import_module("props.c20").C20.__new__(importlib.import_module("props.c20").C20)

        self.coredir = tempfile.mkdtemp(prefix="satyr-c24-")
        atexit.register(shutil.rmtree, self.coredir, True)
        self.ncores = self.cores(self.coredir)

    def cores(self, d):
        """Core files of three small crashing programs, K.core of K"""
        n = 0
        for flags in ("", "-no-pie -g", "-static"):
            w = os.path.join(d, "w%d" % n)
            os.mkdir(w)
            with open(w + "/p.c", "w") as f:
                f.write(CRASHER)
            subprocess.run(["gcc", "-O0", "-w", w + "/p.c", "-o", os.path.join(d, str(n)), "-lpthread"] + flags.split(), capture_output=True)
            try:
                subprocess.run([os.path.join(d, str(n))], cwd=w, stdin=subprocess.DEVNULL, capture_output=True, timeout=30,
                               preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_CORE, (resource.RLIM_INFINITY, resource.getrlimit(resource.RLIMIT_CORE)[1])))
            except (OSError, subprocess.TimeoutExpired, subprocess.SubprocessError):
                continue
            c = glob.glob(w + "/core*")
            if c:
                os.rename(c[0], os.path.join(d, "%d.core" % n))
                n += 1
        return n

    def borrowed(self, rng, i):
        while True:
            name = rng.choice(FROM)
            if name == "core":
                if not self.ncores:
                    continue
                out = []
                for _ in range(rng.choice([1, 1, 2])):
                    k = rng.randrange(self.ncores)
                    out += [["core", "dump", 0, "@C@/%d.core" % k, "@C@/%d" % k], ["?dump", 0], ["?bthash", 0, 1], ["?free", 0]]
                return name, out, None
            cmds, meta = self.src[name].make(rng, i)
            cmds = [c for c in cmds if c[:2] != ["rep", "print"]]
            if cmds and sum(len(a) for c in cmds for a in c if isinstance(a, (str, bytes))) < 60000:
                return name, cmds[:60], meta.get("files") if name == "c21" else None

    def make(self, rng, i):
        t = rng.choice([2, 3, 4, 6, 8])
        types, prep = [], []
        for k in range(rng.randint(1, 4)):
            ty = rng.choice(gen.TYPES) if not types or rng.random() < .5 else types[0][0]
            o = known_frames.stacktrace(rng, ty, mint=1) if rng.random() < .7 else gen.stacktrace(rng, ty)
            if ty == "ruby":
                for f in o["frames"]:
                    f["rescue_level"] %= 8
            types.append((ty, len(gen.threads(ty, o))))
            prep.append(["build", SH + k, ty, spec(o)])
        same = rng.random() < .4
        b = self.borrowed(rng, i)
        jobs, files, names = [], [], []
        for j in range(t):
            if j and not same:
                b = self.borrowed(rng, i)
            name, cmds, f = b
            rd = readers(rng, types)
            jobs.append([list(c) for c in cmds] + rd if rng.random() < .5 else cmds[:0] + self.front(rd, cmds))
            files.append(f)
            names.append(name)
        return [prep] + jobs, {"files": files, "names": names, "same": same, "seed": rng.randrange(1 << 30)}

    def front(self, rd, cmds):
        """Readers first: references to earlier results shift."""
        n = len(rd)
        return rd + [["@@%d" % (int(a[2:]) + n) if isinstance(a, str) and re.fullmatch(r"@@\d+", a) else a for a in c] for c in cmds]

    def run_cases(self, cases, obs):
        root = tempfile.mkdtemp(prefix="satyr-c24-")
        out = []
        try:
            reqs = []
            for n, (jobs, meta) in enumerate(cases):
                ds = []
                for j, f in enumerate(meta["files"]):
                    d = os.path.join(root, "p%d" % n if meta["same"] else "p%d-%d" % (n, j))
                    if f and not os.path.exists(d):
                        self.src["c21"].write(d, {k: tuple(v) for k, v in f.items()})
                    ds.append(d)
                real = [jobs[0]] + [[[x.replace("@D@", d).replace("@C@", self.coredir) if isinstance(x, str) else x for x in c] for c in job] for d, job in zip(ds, jobs[1:])]
                reqs.append(b"ROUND %d %d\n" % (len(real) - 1, meta["seed"]) + b"".join(driver.encode(c) for c in real))
            env = driver.env_for(extra={"TSAN_OPTIONS": "exitcode=66:halt_on_error=1:history_size=4:suppressions=" + os.path.join(VERIF, "harness/tsan.supp")})
            pos, bad = 0, 0
            while pos < len(cases) and bad < 5:
                res, rc, err = driver.raw_run(self.prog, b"".join(reqs[pos:]), env, timeout=150)
                if rc is None:
                    # only a hang that comes again counts
                    obs.count("batches run again after a timeout")
                    res, rc, err = driver.raw_run(self.prog, b"".join(reqs[pos:]), env, timeout=150)
                if rc == 99:
                    raise build.HarnessError(err[-2000:])
                for r in res:
                    self.judge_round(cases[pos], json.loads(r.decode("latin-1")), obs, out)
                    pos += 1
                if pos < len(cases):
                    bad += 1
                    if "FATAL: ThreadSanitizer" in err and "data race" not in err:
                        raise build.HarnessError(err[-2000:])
                    fr = [f for f in re.findall(r"#\d+ (\w+)", err) if f.startswith("sr_")]
                    m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]+)", err)
                    tag = "race" if m and "race" in m.group(1) else "crash"
                    out.append(("%s:%s" % (tag, fr[0] if fr else "?"), "%s\n%s" % (m.group(1) if m else driver.describe(rc, err), err[:3000].replace(root, "@")), self.rep(cases[pos])))
                    obs.count("cases")
                    pos += 1
                elif rc != 0:
                    raise build.HarnessError("ended with %r: %s" % (rc, err[-2000:]))
            obs.count("rounds not run after failures", len(cases) - pos)
        finally:
            shutil.rmtree(root)
        return out

    def rep(self, case):
        return {"cmds": [tolatin(j) for j in case[0]], "meta": case[1]}

    def judge_round(self, case, r, obs, out):
        jobs, meta = case
        _, conc, seq, order = r
        obs.count("cases")
        obs.count("operations", sum(len(j) for j in jobs[1:]))
        obs.count("threads run", len(conc))
        obs.count("switches between threads observed", sum(a != b for a, b in zip(order, order[1:])))
        obs.count("rounds with overlapping threads", any(order.find(c) < order.rfind(d) and order.find(d) < order.rfind(c) for c in set(order) for d in set(order) if c < d))
        obs.distinct(order + repr(meta["names"]))
        for n in meta["names"]:
            obs.count("threads running " + n.upper())
        for j, (a, b) in enumerate(zip(conc, seq)):
            if a != b:
                k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), 0)
                out.append(("result:" + jobs[j + 1][k][0].strip("?"), "%r gave %r among other threads and %r alone" % (tolatin(jobs[j + 1])[k], a[k], b[k]), self.rep(case)))
                break


CHECK = C24
