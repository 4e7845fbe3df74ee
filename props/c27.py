"""C27: file input and output is all-or-error under every fault."""
import json, os, resource, shutil, subprocess, tempfile
from vf import build, driver, gen, traces
from vf.core import Check
from props import c03, c21

EIO, EINTR, ENOSPC, EMFILE, EACCES, EFBIG, ENOMEM, ESPIPE, EOVERFLOW = 5, 4, 28, 24, 13, 27, 12, 29, 75
ERR = {"open": [EACCES, EMFILE, EINTR, ENOMEM, EOVERFLOW, ENOSPC, EIO], "read": [EIO, EINTR, EACCES], "write": [ENOSPC, EIO, EINTR, EFBIG], "lseek": [ESPIPE, EOVERFLOW],
       "close": [EIO, ENOSPC, EINTR]}
LIMIT = 20000000
TYPES = ["core", "python", "kerneloops", "java", "gdb", "ruby", "javascript"]
DRVT = {"kerneloops": "koops", "javascript": "js"}
CLI_SRC = os.path.join(build.REPO, "satyr.c")


def body(rng):
    c = rng.random()
    if c < .15:
        return ""
    if c < .7:
        return "".join(rng.choice("abc \n\té\xff%s") for _ in range(rng.choice([1, 5, 40, 300])))
    n = rng.choice([4095, 4096, 4097, 65535, 65536, 65537, 131072, 200000])
    return (rng.choice("xyz\n") + "".join(rng.choice("ab\n\xe9") for _ in range(30))) * (n // 31) + "q" * (n % 31)


class C27(Check):
    id = "C27"
    quick_n, thorough_n, chunk = 4000, 160000, 125
    leak = True
    technique = ("runtime monitoring with fault injection: a seccomp filter traps every file system call of the sanitized library and of the command-line tool, fails, "
                 "shortens or disturbs a chosen one, logs them all, and an oracle compares the outcome with the file's content and with an undisturbed run")
    rule = ("one case = one file read, file written, problem directory read or command run, most with one system call made to fail, transfer fewer bytes or see the "
            "file change underneath; judged by content-or-error, by the report of the same directory with the disturbed item unreadable, by the descriptors left "
            "open, and by the tool's exit status, output and message; distinct = (operation, file kind, call, fault, outcome)")
    assumptions = ["file contents are NUL-terminated strings: what follows a NUL byte is not judged", "an item of a problem directory that is optional counts as absent when it "
                   "cannot be read", "faults are injected one at a time, on x86-64 Linux", "a write that failed may leave part of the text in the file; it is reported"]

    def setup(self):
        self.drv = driver.Driver("asan", "drvf", driver.DRV_SRC + ["drv_fault.c", "faults.c"], "-DFAULTS")
        self.c21 = c21.C21.__new__(c21.C21)
        self.c21.osgen = c21.c20.C20.__new__(c21.c20.C20)
        # satyr.c is compiled along; its content is part of the program's name
        import hashlib
        h = hashlib.sha256(open(CLI_SRC, "rb").read()).hexdigest()[:16]
        self.cli = build.program("asan", "cli-" + h, [CLI_SRC, "faults.c"], "-DFAULT_PROGRAM")

    # ------------------------------------------------------------------ generation
    def fault(self, rng, calls, size):
        call = rng.choice(calls)
        c = rng.random()
        if call in ("read", "write") and c < .35 and size:
            return [call, rng.choice([0, 0, 0, 1]), "s%d" % rng.choice([0, 1, size // 2, size - 1])] if call == "write" else [call, 0, "s%d" % rng.choice([0, 1, size // 2, size - 1])]
        if call in ("read", "lseek") and c < .55:
            return [call, rng.choice([0, 1]) if call == "lseek" else 0, "t%d" % rng.choice([0, 1, max(size - 1, 0), size + 1, size + 5000])]
        return [call, rng.choice([0, 0, 0, 1]), "e%d" % rng.choice(ERR[call])]

    def make(self, rng, i):
        k = ["read", "report", "write", "cli", "report", "read", "write", "report"][i % 8]
        return getattr(self, "make_" + k)(rng)

    def make_read(self, rng):
        t = body(rng)
        kind = rng.choice(["file"] * 12 + ["symlink", "dir", "dangling", "missing", "loop", "fifo", "longname", "limit-1", "limit", "limit+1", "huge", "nul", "proc", "notdir", "empty"])
        if kind in ("limit-1", "limit", "limit+1") and rng.random() < .8:
            kind = "file"
        if kind == "empty":
            t = ""
        if kind == "nul":
            n = rng.randrange(len(t) + 1)
            t = t[:n] + "\0" + t[n:]
        f = self.fault(rng, ["open", "lseek", "read", "close", "read"], len(t)) if rng.random() < .75 else None
        name = rng.choice(["item", "item", "i t", "it\xe9m", "-", "%s%n"])
        p = "@D@/" + name
        if f and f[2][0] == "t" and kind in ("limit-1", "limit", "limit+1", "huge"):
            f = None
        if kind == "proc":
            p = rng.choice(["/proc/version", "/proc/self/status", "/proc/filesystems", "/proc/self/limits"])
            f = None
        cmds = ([["arm", name] + f] if f else [["arm", name, "none", 0, "-"]]) + [["file", "read", p], ["disarm"]]
        return cmds, {"k": "read", "kind": kind, "name": name, "text": t, "fault": f}

    def make_write(self, rng):
        t = body(rng).replace("\0", "")
        kind = rng.choice(["new", "new", "shorter", "longer", "symlink", "dir", "noparent", "devfull", "fsize", "fsize", "loop", "longname", "dangling"])
        f = self.fault(rng, ["open", "write", "write", "close"], len(t)) if rng.random() < .75 and kind not in ("devfull", "fsize") else None
        if f and f[0] in ("read", "lseek"):
            f = None
        name = "item"
        p = {"devfull": "/dev/full", "noparent": "@D@/no/item"}.get(kind, "@D@/item")
        lim = rng.choice([0, 1, len(t) // 2, len(t), len(t) + 1, max(len(t) - 1, 0)])
        cmds = ([["fsize", lim]] if kind == "fsize" else []) + ([["arm", name] + f] if f else [["arm", name, "none", 0, "-"]]) + [["file", "write", p, t], ["disarm"]] + \
            ([["fsize", -1]] if kind == "fsize" else [])
        return cmds, {"k": "write", "kind": kind, "text": t, "fault": f, "lim": lim, "old": body(rng), "name": name}

    def problem(self, rng):
        for _ in range(40):
            f = self.c21.files(rng)
            n, k = c21.rtype(c21.text(f, "type") or "")
            if k and rng.random() < .95 and c21.osys(f) and c21.packages(f) is not None:
                break
        for k, v in list(f.items()):
            if v[0] == "big":
                f[k] = ["dir", ""]
        return f

    def make_report(self, rng):
        f = self.problem(rng)
        item = rng.choice(sorted(k for k, v in f.items() if v[0] == "file") or ["type"])
        flt = self.fault(rng, ["open", "lseek", "read", "close", "read"], len((f.get(item) or ["", ""])[1]))
        what = rng.choice(["rep", "rep", "rep", "os", "pkg"])
        if flt[2][0] == "t":
            flt = ["read", 0, "e%d" % EIO]
        if flt[2] == "e%d" % EINTR or flt[1]:
            flt[1] = 0
        cmds = [[what, "fromdir", 0, "@D@"], [what, "fromdir", 1, "@E@"], ["arm", item] + flt, [what, "fromdir", 2, "@D@"], ["disarm"],
                ["free", 0], ["free", 1], ["free", 2]]
        return cmds, {"k": "report", "files": f, "item": item, "fault": flt, "what": what}

    def make_cli(self, rng):
        out = rng.choice(["pipe"] * 10 + ["full", "closed", "fsize"])
        flt = None
        c = rng.random()
        if c < .3:
            args = rng.choice([["--help"], ["--usage"], ["--version"], [], ["nonsense"], ["abrt-print-report-from-dir"], ["abrt-report-dir"], ["abrt-report-dir", "@D@"],
                               ["abrt-create-core-stacktrace"], ["debug"], ["debug", "nonsense"], ["debug", "normalize"], ["debug", "duphash"], ["debug", "duphash", "python"],
                               ["debug", "duphash", "perl", "@D@/item"], ["debug", "normalize", "@D@/missing"], ["debug", "duphash", "python", "@D@/missing"], ["--hel"],
                               ["debug", "unwind-from-hook"], ["debug", "unwind-from-hook", "/bin/true", "x", "6"], ["debug", "unwind-from-hook", "/bin/true", "1", "y"],
                               ["abrt-create-core-stacktrace", "@D@"], ["abrt-print-report-from-dir", "@D@/missing"]])
            return [], {"k": "cli", "args": args, "out": out, "files": {}, "fault": None}
        if c < .65:
            f = self.problem(rng)
            item = rng.choice(sorted(f))
            if rng.random() < .6:
                flt = rng.choice([["<stdout>", "write", 0, "e%d" % rng.choice(ERR["write"])], ["<stdout>", "write", 0, "s%d" % rng.choice([1, 7, 100])],
                                  ["<stdout>", "write", 0, "e%d" % EIO], [item, "open", 0, "e%d" % EMFILE], [item, "read", 0, "e%d" % EIO]])
            return [["rep", "fromdir", 0, "@D@"], ["?rep", "tojson", 0], ["rep", "fromdir", 1, "@E@"], ["?rep", "tojson", 1]], {
                "k": "cli", "args": ["abrt-print-report-from-dir", "@D@"], "out": out, "files": f, "item": item, "fault": flt}
        if c < .75:
            t = "".join("%s %s\n" % (traces.word(rng), rng.choice(["/lib64/libc.so.6", "", "libfoo.so", "x y"])) for _ in range(rng.randrange(1, 9)))
            return [], {"k": "cli", "args": ["debug", "normalize", "@D@/item"], "out": out, "files": {"item": ["file", t]}, "fault": None}
        ty = rng.choice(TYPES)
        if ty == "core":
            t = json.dumps(c03.doc("core", gen.stacktrace(rng, "core", "plain", maxt=3, maxf=6)), ensure_ascii=False).replace("\0", "?")
        else:
            t = traces.GEN[DRVT.get(ty, ty)](rng)[0]
        if rng.random() < .15:
            t = t[:rng.randrange(len(t) + 1)]
        t = t.split("\0")[0]
        comp = rng.choice([[], [], ["bash"], [""]])
        if rng.random() < .4:
            flt = rng.choice([["<stdout>", "write", 0, "e%d" % ENOSPC], ["<stdout>", "write", 0, "s3"], ["item", "read", 0, "e%d" % EIO], ["item", "read", 0, "s1"], ["item", "open", 0, "e%d" % EIO]])
        pfx = comp[0] if comp else "\x01"
        return [["parse", 0, DRVT.get(ty, ty), t], ["?crash", 0], ["?duphash", 0, "@C@", 3, pfx, 2], ["?duphash", 0, "@C@", 3, pfx, 0]], {
            "k": "cli", "args": ["debug", "duphash", ty, "@D@/item"] + comp, "out": out, "files": {"item": ["file", t]}, "fault": flt}

    # ------------------------------------------------------------------ execution
    def place(self, d, m):
        os.mkdir(d)
        n = os.path.join(d, "item").encode() if m["k"] != "read" else os.path.join(d.encode(), m["name"].encode("latin-1"))
        k = m.get("kind")
        def put(p, t):
            with open(p, "wb") as f:
                f.write(t.encode("latin-1"))
        if m["k"] in ("report", "cli"):
            if m["k"] == "cli" and not m["files"]:
                return
            f = m["files"]
            self.c21.write(os.path.join(d, "p"), f)
            self.c21.write(os.path.join(d, "q"), dict(f, **({m["item"]: ["dir", ""]} if m.get("item") in f else {})))
        elif k in ("file", "empty", "nul"):
            put(n, m["text"])
        elif k in ("shorter", "longer"):
            put(n, m["old"] if k == "shorter" else m["old"] + m["text"] + "tail")
        elif k == "symlink":
            put(os.path.join(d, "target"), m["text"] if m["k"] == "read" else m["old"])
            os.symlink("target", n)
        elif k == "dangling":
            os.symlink("target", n)
        elif k == "loop":
            os.symlink(os.path.basename(n), n)
        elif k == "dir":
            os.mkdir(n)
        elif k == "fifo":
            os.mkfifo(n)
        elif k == "notdir":
            put(n, "x")
        elif k in ("limit-1", "limit", "limit+1", "huge"):
            with open(n, "wb") as f:
                f.truncate({"limit-1": LIMIT - 1, "limit": LIMIT, "limit+1": LIMIT + 1, "huge": 1 << 33}[k])

    def run_cases(self, cases, obs):
        root = tempfile.mkdtemp(prefix="satyr-c27-")
        fifos = []
        try:
            real = []
            for j, (cmds, m) in enumerate(cases):
                d = os.path.join(root, "d%d" % j)
                self.place(d, m)
                if m.get("kind") == "fifo":
                    fifos.append(os.open(os.path.join(d.encode(), m["name"].encode("latin-1")), os.O_RDWR))
                real.append(([[self.sub(x, d, m) for x in c] for c in cmds if not (m["k"] == "cli" and c[0] == "?duphash")], dict(m, dir=d, orig=cmds)))
            # the threads of the duphash oracle are only known once the crash thread is
            todo = [j for j, (c, m) in enumerate(cases) if m["k"] == "cli" and len(c) == 4 and c[2][0] == "?duphash"]
            first = self.drv.run_batch([real[j][0] for j in todo], cpu=self.cpu)
            for j, r in zip(todo, first):
                if isinstance(r, list) and r[0]["ok"] and r[1] >= 0:
                    real[j][0].extend([[str(r[1]) if x == "@C@" else x for x in c] for c in cases[j][0][2:]])
            out = []
            for tag, detail, rep in super().run_cases(real, obs):
                d, rep["cmds"] = rep["meta"]["dir"], rep["meta"]["orig"]
                rep["meta"] = {k: v for k, v in rep["meta"].items() if k not in ("dir", "orig")}
                out.append((tag, detail.replace(d, "@D@"), rep))
            return out
        finally:
            for f in fifos:
                os.close(f)
            shutil.rmtree(root)

    def sub(self, x, d, m):
        if not isinstance(x, str):
            return x
        if m["k"] in ("report", "cli") and m["files"]:
            x = x.replace("@D@", d + "/p").replace("@E@", d + "/q")
        if m.get("kind") == "longname":
            x = x.replace("@D@/", d + "/" + "n" * 300)
        if m.get("kind") == "notdir":
            x = x.replace("@D@/" + m["name"], d + "/" + m["name"] + "/x")
        return x.replace("@D@", d)

    # ------------------------------------------------------------------ oracle
    def judge(self, cmds, m, res, obs):
        acct = res[-1]
        out = list(getattr(self, "judge_" + m["k"])(cmds, m, res, obs))
        if acct["fds"]:
            out.append(("fds:" + m["k"], "%d descriptors left open by %r with %r" % (acct["fds"], cmds[-3:], m["fault"])))
        if m["k"] in ("read", "write") and acct["net"] > 0:
            out.append(("memory:" + m["k"], "%d blocks left allocated" % acct["net"]))
        return out

    def calls(self, log, obs):
        for l in log.splitlines():
            w = l.split(" ")
            obs.count("system calls observed: " + w[0])
        return log

    def judge_read(self, cmds, m, res, obs):
        r, d = res[1], res[2]
        k, f, t = m["kind"], m["fault"], m["text"]
        self.calls(d["log"], obs)
        s, err = r["s"], r["err"]
        outcome = "content" if s is not None else "error"
        obs.distinct(["read", k, f and [f[0], f[1], f[2][:1], f[2] if f[2][0] == "e" else ""], outcome, d["hit"]])
        obs.count("reads giving " + outcome)
        if d["hit"]:
            obs.count("faults injected into reads: %s %s" % (f[0], f[2][0]))
        if (s is None) != (err is not None) or err == "":
            yield "read:both", "reading gave content %r and message %r" % (s and s[:60], err)
            return
        full = {"limit-1": 0, "limit": 0}
        if k in ("dir", "dangling", "missing", "loop", "fifo", "longname", "limit+1", "huge", "notdir"):
            if s is not None:
                yield "read:" + k, "reading a file of kind %s gave %r" % (k, s[:60])
            return
        if k == "proc":
            # such files may refuse; what they give must be everything
            if s is not None and s != open([c for c in cmds if c[0] == "file"][0][2]).read():
                yield "read:proc", "reading %s gave %r" % (cmds[1][2], s[:80])
            return
        want = "" if k in full else t.split("\0")[0]
        if s is not None:
            if d["hit"] and f[2][0] == "t":
                n = int(f[2][1:])
                new = t[:n] + "\0" * max(n - len(t), 0)
                ok = s in (want, new.split("\0")[0])
            else:
                ok = s == want
            if not ok:
                yield "read:partial", "reading %d bytes (%s) with fault %r gave %d bytes without an error: %r" % (len(t), k, f, len(s), s[:60])
            elif d["hit"] and f[2][0] == "e" and f[0] in ("open", "read") and f[2] != "e4":
                yield "read:unnoticed", "the failed %s went unnoticed: %r" % (f[0], s[:60])
        elif not d["hit"]:
            yield "read:refused", "reading %d bytes (%s) gave %r" % (len(t), k, err)

    def judge_write(self, cmds, m, res, obs):
        i = [c[0] for c in cmds].index("file")
        r, d = res[i], res[i + 1]
        k, f, t = m["kind"], m["fault"], m["text"]
        self.calls(d["log"], obs)
        obs.distinct(["write", k, f and [f[0], f[1], f[2][:1], f[2] if f[2][0] == "e" else ""], r["ok"], d["hit"], len(t) <= m["lim"] if k == "fsize" else 0])
        obs.count("writes reported as " + ("done" if r["ok"] else "failed"))
        if d["hit"]:
            obs.count("faults injected into writes: %s %s" % (f[0], f[2][0]))
        if r["ok"] != (r["err"] is None) or r["err"] == "":
            yield "write:message", "result %r with message %r" % (r["ok"], r["err"])
            return
        if r["ok"]:
            if k == "devfull":
                if t:
                    yield "write:devfull", "writing %d bytes to /dev/full succeeded" % len(t)
                return
            p = os.path.join(m["dir"], "item")
            got = open(p, "rb").read().decode("latin-1") if os.path.isfile(p) else None
            if got != t:
                yield "write:content", "reported success for %d bytes, the file has %s (%s, fault %r)" % (len(t), "nothing" if got is None else "%d bytes: %r" % (len(got), got[:50]), k, f)
            if d["hit"] and f[2][0] == "e" and f[2] != "e4":
                yield "write:unnoticed", "the failed %s went unnoticed" % f[0]
        elif not d["hit"] and (k in ("new", "shorter", "longer", "symlink", "dangling") or k == "fsize" and len(t) <= m["lim"]):
            yield "write:refused", "writing %d bytes (%s) failed: %r" % (len(t), k, r["err"])

    def strip(self, r):
        r = json.loads(json.dumps(r))
        r["err"] = bool(r["err"])
        return r

    def judge_report(self, cmds, m, res, obs):
        clean, twin, got, d = res[0], res[1], res[3], res[4]
        self.calls(d["log"], obs)
        f = m["fault"]
        a, b, g = self.strip(clean), self.strip(twin), self.strip(got)
        obs.distinct(["report", m["what"], m["item"], f, a == b, d["hit"], c21.text(m["files"], "type")])
        if d["hit"]:
            obs.count("faults injected into items: %s %s" % (f[0], f[2][0]))
            obs.count("disturbed readings that %s" % ("failed" if g.get("ok") is False or g.get("os", 0) is None or g.get("ret", 0) < 0 else "did without the item" if g != a else "agree with the undisturbed one"))
        soft = not d["hit"] or f[0] in ("close", "lseek") or f[2][0] == "s" or f[2] == "e4"
        if g != b and not (soft and g == a):
            yield "report:%s" % m["item"], "%s with %s of %s failing (%s; hit %s): %s\nexpected as without the item: %s" % (m["what"], f[0], m["item"], f[2], d["hit"], json.dumps(got)[:700], json.dumps(twin)[:700])
        if got["err"] == "" or (g.get("ok") is False or g.get("os", 0) is None or g.get("ret", 0) < 0) != g["err"]:
            yield "report:message", repr(got["err"])

    def plain(self, args, d):
        return subprocess.run([self.cli] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=driver.env_for(), cwd=d).stdout.decode("latin-1")

    def judge_cli(self, cmds, m, res, obs):
        d = m["dir"]
        args = [self.sub(a, d, m) for a in m["args"]]
        f, o = m["fault"], m["out"]
        env = driver.env_for(extra={"FAULT": " ".join(map(str, f))} if f else None)
        outp, logp = os.path.join(d, "stdout"), os.path.join(d, "log")
        lim = 40
        def pre():
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if o == "fsize":
                import signal
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
            if o == "closed":
                os.close(1)
        with open("/dev/full" if o == "full" else outp, "wb") as so, open(logp, "wb") as lg, open(os.path.join(d, "stderr"), "w+b") as se:
            env["FAULTFD"] = str(lg.fileno())
            p = subprocess.run([self.cli] + args, stdin=subprocess.DEVNULL, stdout=so, stderr=se, env=env, cwd=d, preexec_fn=pre, pass_fds=[lg.fileno()], timeout=120)
            se.seek(0)
            err = se.read().decode("latin-1")
        rc = p.returncode
        got = "" if o in ("full", "closed") else open(outp, "rb").read().decode("latin-1")
        log = self.calls(open(logp).read(), obs)
        hit = log.count(" !\n") > 0
        name = " ".join(a for a in m["args"][:2] if "@" not in a)
        obs.distinct(["cli", name, o, f, rc, hit])
        obs.count("commands run")
        obs.count("commands ending with status %d" % rc)
        what = "satyr %s with output to %s and fault %r" % (" ".join(args), o, f)
        if rc not in (0, 1):
            yield "cli:status", "%s ended with %d: %s" % (what, rc, err[-1500:])
            return
        if rc and not err and not got and (o == "pipe" or m["args"]):
            yield "cli:silent", "%s ended with 1 and said nothing" % what
        if rc == 0 and o != "pipe" and (o != "fsize" or len(got) >= lim and got != self.plain(args, d)) and m["args"]:
            yield "cli:output-lost", "%s ended with 0 although its output was lost" % what
            return
        good = o == "pipe" and not hit
        a = m["args"]
        if not cmds and not m["files"]:
            want = a in (["--help"], ["--usage"], ["--version"])
            if o != "pipe" and not (o == "fsize" and a == ["--version"]):
                want = False
            if (rc == 0) != want:
                yield "cli:status:" + name, "%s ended with %d, output %r, messages %r" % (what, rc, got[:200], err[:200])
            if want and not got:
                yield "cli:output:" + name, "%s printed nothing" % what
            return
        if a[0] == "abrt-print-report-from-dir":
            outs = []
            for r, j in ((res[0], res[1]), (res[2], res[3])):
                outs.append((0, j + "\n") if r["ok"] else (1, ""))
            allowed = [outs[0]] if not hit or f[0] == "<stdout>" else [outs[1]]
        elif a[1] == "duphash":
            ok = res[0]["ok"] and res[1] >= 0
            texts = [r for c, r in zip(cmds, res) if c[0] == "?duphash"]
            allowed = [(0, "Cleartext:\n%s\nHash: %s\n" % tuple(texts)) if ok and None not in texts else (1, None)]
            if hit and f[0] == "item":
                allowed = [(1, "")] + (allowed if f[3][0] == "s" else [])
        else:
            allowed = [(0, None)]
        lost = o in ("full", "closed") or o == "fsize"
        if hit and f[0] == "<stdout>" and f[3][0] == "e" and f[3] != "e4" or lost and rc:
            if rc == 0:
                yield "cli:output-lost", "%s ended with 0 although writing failed; it wrote %r" % (what, got[:100])
            return
        if hit and f[0] == "<stdout>" and f[3] == "e4" and rc:
            return
        if not any(rc == w[0] and (w[1] is None or w[1] == got) for w in allowed):
            yield "cli:" + name, "%s ended with %d and printed %r (%s), expected %r" % (what, rc, got[:400], err[:200], [(w[0], w[1] and w[1][:400]) for w in allowed])


CHECK = C27
