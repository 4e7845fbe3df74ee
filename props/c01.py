"""C01: parsing any trace text is memory-safe and terminates."""
import os, shutil, subprocess, tempfile, glob
from vf import traces, mutate, build, driver
from vf.core import Check, SEED

KINDS = ["gdb", "koops", "python", "ruby", "java", "js"]
PX = {"gdb": ["gdb", "gdb_thread", "gdb_funs"], "java": ["java", "java_thread"], "koops": ["koops"], "python": ["python"], "ruby": ["ruby"], "js": ["js", "js_v8", "js_platform"]}
PF = {"gdb": ["gdb", "gdb_header"], "java": ["java", "java_exc"], "koops": ["koops"], "python": ["python"], "ruby": ["ruby"], "js": ["js", "js_v8", "js_platform"]}
GDBP = ["start", "operator", "chunk", "chunks", "braces", "template", "template_args", "name", "skip_args", "call", "addr_in", "file_loc", "lwp", "skip_lwp", "header"]
KOOPSP = ["ts", "addr", "mod", "func", "modules"]
USE = [["?dump", 0], ["?tojson", 0], ["?bthash", 0, 0], ["?reason", 0], ["?short", 0, 0], ["?crash", 0], ["?dup", 0, 1], ["?dump", 1], ["?free", 0], ["?bthash", 1, 1]]


def repeated():
    """Long and deeply nested texts, per parser."""
    out = []
    for k, pre, rep, n, post in [
        ("gdb", "\n#0  0x1 in f", "(", 30000, " (x=1) at a.c:1\n"), ("gdb", "\n#0  0x1 in f", "<", 30000, "> () at a.c:1\n"), ("gdb", "\n#0  0x1 in f", "(<", 20000, ""),
        ("gdb", "\n#0  0x1 in f<", "a<", 20000, ">" * 20000 + " () at a.c:1\n"), ("gdb", "\n#0  0x1 in ", "operator", 10000, ""), ("gdb", "\n#0  0x1 in f<T [with ", "[", 30000, ""),
        ("gdb", "\n#0  0x1 in f (", "(", 60000, ""), ("gdb", "\n#0  0x1 in f (", "x=\"", 30000, ""), ("gdb", "\n#0  0x1 in f (", "(truncated)", 9000, ""),
        ("gdb", "", "\n#1  0x1 in f () at a.c:1", 6000, "\n"), ("gdb", "", "\nThread 1 (LWP 2):\n#0  0x1 in f ()\n", 3000, ""), ("gdb", "", "\nThread ", 15000, ""), ("gdb", "\n#0  f ()", " ", 100000, ""),
        ("gdb", "\n#0 0x1 in f ()\nFrom                To                  Syms Read   Shared Object Library\n", "0x1 0x2 Yes /x\n", 5000, ""),
        ("gdb", "\n#0 0x1 in f ()\nFrom                To                  Syms Read   Shared Object Library\n", "  ", 50000, ""),
        ("koops", "", "[<ffffffff81000000>] f+0x1/0x2 [m]\n", 3000, ""), ("koops", "Modules linked in:", " mod", 25000, "\n"), ("koops", "Modules linked in: a", "\n", 50000, ""),
        ("koops", "", "<IRQ>\n", 20000, ""), ("koops", "", "<", 100000, ""), ("koops", "", "[", 100000, ""), ("koops", "", "Tainted: ", 10000, ""), ("koops", "", "RIP: ", 20000, ""), ("koops", "", " ", 100000, "x"),
        ("koops", "[<1>] ", "a", 100000, "+0x1/0x2"), ("koops", "", "\n", 100000, ""),
        ("python", "Traceback (most recent call last):\n", "  File \"x\", line 1, in f\n    y\n", 4000, "E: x"), ("python", "Traceback (most recent call last):\n", "\n", 100000, ""),
        ("python", "Traceback (most recent call last):\n  File \"x\", line 1, in f\n", "^", 100000, ""), ("python", "", "Traceback (most recent call last):\n", 3000, ""),
        ("ruby", "x:1:in `a': m (E)\n", "\tfrom x:1:in `a'\n", 6000, ""), ("ruby", "x:1:in `", "rescue in ", 10000, "a': m (E)\n"), ("ruby", "x", ":1", 40000, ":in `a': m (E)\n"), ("ruby", "", "`", 100000, ""),
        ("java", "E: m\n", "\tat a.b(C.java:1)\n", 5000, ""), ("java", "E: m\n", "Caused by: E: m\n", 6000, ""), ("java", "E: m\n", "\tSuppressed: x\n", 6000, ""), ("java", "E: m\n", "\t... 3 more\n", 6000, ""),
        ("java", "", "Exception in thread \"m\" E\n", 4000, ""), ("java", "E\n\tat ", "a", 100000, "(B.java:1)"), ("java", "", "\n", 100000, ""), ("java", "E\nCaused by: ", "Caused by: ", 9000, ""),
        ("js", "E: m\n", "    at f (x.js:1:2)\n", 5000, ""), ("js", "E: m\n    at f (", "x:", 50000, "1:2)"), ("js", "E: m\n    at ", "1:", 40000, ""), ("js", "E: m\n", " ", 100000, ""), ("js", "E: m\n    at f (x:1:", "1", 100000, ")"),
    ]:
        out.append((k, pre + rep * n + post))
    return out


class C01(Check):
    memcheck = (1200, 20000)
    id = "C01"
    quick_n, thorough_n, chunk = 14000, 600000, 150
    cpu = 60
    rule = ("one case = a text (generated trace, corpus file or token soup, usually mutated, or cut at many offsets; also long and deeply nested repetitions) given to the "
            "parsers of its format and to another format's; each buffer is allocated to its exact size under AddressSanitizer and UBSan, every successful result is dumped, encoded, "
            "hashed, copied and freed, every cursor is checked; plus coverage-guided fuzzing of the same entry points; distinct = (format, outcome of each parser, cursors, frame counts)")
    assumptions = ["inputs of the generated workload are up to about 200 KB; CPU time is bounded by a watchdog of 60 s per case",
                   "the stack limit is the usual 8 MB and sanitizer frames are larger than production ones"]

    def fixed_cases(self):
        out = []
        for k, t in repeated():
            out.append(self.case(k, [t], k, use=True))
        for k in KINDS:
            for t in mutate.corpus(k):
                out.append(self.case(k, [t], None, use=True))
            for t in ["", "\n", " ", ":", "x", "\xff", "\n\n\n", "(", "<", "0x", "#", "Thread", "at", "at ", "RIP:", "  File \"", "`", "a:", "E: ", "E: \n"]:
                out.append(self.case(k, [t], None, use=True))
        return out

    def case(self, k, ts, other, use=True):
        cmds = []
        for t in ts:
            cmds.append(["parse", 0, k, t])
            if use:
                cmds += USE
            for x in PX[k]:
                cmds += [["parsex", 2, x, t], ["?dump", 2] if x not in ("gdb_thread", "gdb_funs", "java_thread") else ["?tcount", 2, 0], ["?free", 2]]
            for x in PF[k]:
                cmds.append(["parsef", x, t])
            if k == "gdb":
                cmds.append(["libparse", t])
            if other and other != k:
                cmds.append(["parse", 3, other, t])
        return cmds, {"k": k}

    def make(self, rng, i):
        k = rng.choice(KINDS)
        c = rng.random()
        if c < .25:
            # cut at many places
            t = mutate.base(rng, k)[:2500]
            if rng.random() < .3:
                t = mutate.mutate(rng, k, t)
            cuts = {rng.randrange(len(t) + 1) for _ in range(14)} | {p + 1 for p in (t.find(ch, rng.randrange(len(t) + 1)) for ch in "(<\"`:[>\n ) '") if p >= 0}
            return self.case(k, [t[:p] for p in sorted(cuts)[:22]], None, use=rng.random() < .3)
        if c < .45 and k in ("gdb", "koops"):
            return self.sub(rng, k)
        t = mutate.mutate(rng, k, mutate.base(rng, k))
        return self.case(k, [t[:200000]], rng.choice(KINDS) if rng.random() < .3 else None)

    def sub(self, rng, k):
        cmds = []
        for _ in range(12):
            if k == "gdb":
                which = rng.choice(GDBP)
                c = rng.random()
                if c < .4:
                    t = rng.choice([traces.cname, lambda r: traces.gdb_args(r, True), traces.targs, lambda r: traces.gdb_frame(r, 1)[1].split(" ", 2)[-1]])(rng)
                    if rng.random() < .7:
                        t = mutate.mutate(rng, k, t)
                    t = t[:rng.randrange(len(t) + 1)] if rng.random() < .5 else t
                else:
                    t = "".join(rng.choice(mutate.TOKENS[k]) for _ in range(rng.randrange(0, 8)))
                if which in ("braces",) and rng.random() < .7:
                    t = "(" + t
                if which == "template" and rng.random() < .7:
                    t = "<" + t
                if which == "template_args" and rng.random() < .7:
                    t = " [with " + t
                cmds.append(["gdbp", which, t])
            else:
                t = "".join(rng.choice(mutate.TOKENS[k] + ["a", "b.c", "0x12", "1", "]", " "]) for _ in range(rng.randrange(0, 8)))
                cmds.append(["koopsp", rng.choice(KOOPSP), t])
        return cmds, {"k": k}

    def judge(self, cmds, meta, res, obs):
        out, k, sig = [], meta["k"], []
        for c, r in zip(cmds, res):
            if c[0] == "parse":
                if r["ok"] is not True:
                    if not r.get("err"):
                        out.append((k + ":no-message", "parsing %s failed without an error message: %r" % (c[2], c[3][:300])))
                sig.append((c[2], r["ok"]))
                obs.count("%s %s" % (c[2], "parsed" if r["ok"] else "refused"))
            elif c[0] in ("parsex", "parsef", "gdbp", "koopsp"):
                n = len(c[-1])
                if not 0 <= r["consumed"] <= n:
                    out.append(("%s:cursor:%s" % (c[0], c[2] if c[0] == "parsex" else c[1]), "the cursor is at %d of %d: %r" % (r["consumed"], n, c[-1][:300])))
                sig.append((c[0], r.get("ok", r.get("ret")), r["consumed"]))
                obs.count("sub-parsers run")
        obs.distinct([k, sig])
        return out

    def extra(self, obs, report):
        n = int(os.environ.get("VERIF_FUZZ_RUNS", "60000" if self.tier == "quick" else "3000000"))
        from vf import fuzz
        def case(data):
            return self.case(KINDS[data[0]], [data[1:].split(b"\0")[0].decode("latin-1")], None)
        fuzz.run(self, "fuzz_parse", n, self.seeds(), obs, report, to_case=case, dictionary=sorted({t for k in KINDS for t in mutate.TOKENS[k]}))

    def seeds(self):
        import random
        rng = random.Random(SEED)
        out = []
        for j, k in enumerate(KINDS):
            for t in mutate.corpus(k)[:12]:
                out.append(bytes([j]) + t[:4000].encode("latin-1"))
            for _ in range(25):
                out.append(bytes([j]) + traces.GEN[k](rng)[0][:3000].encode("latin-1"))
        return out


CHECK = C01
