"""C21: a problem directory is turned into exactly the report it describes."""
import json, os, re, shutil, tempfile
from vf import gen, jsonx, mutate, traces
from vf.core import Check, tolatin
from props import c03, c19, c20

TYPES = [("CCpp", 1, "core"), ("Python", 2, "python"), ("Kerneloops", 3, "koops"), ("JavaScript", 7, "js"), ("Java", 4, "java"), ("Ruby", 6, "ruby")]
BIG = 20000001
ROOT = None


def text(files, k):
    """What reading an item gives: its content up to the first NUL, or None."""
    f = files.get(k)
    return f[1].split("\0")[0] if f and f[0] == "file" else None


def exists(files, k):
    return k in files and files[k][0] != "dangling"


def rtype(t):
    for p, n, k in TYPES:
        if t.startswith(p):
            return n, k
    return 0, None


def dso(t):
    out = []
    for line in t.split("\n"):
        lib, sp, rest = line.partition(" ")
        n, sp2, _ = rest.partition(" ")
        if not sp2 or len(n) < 2:
            continue
        p = c19.nevra(n)
        m = re.match("[0-9]+", rest[rest.rindex(" ") + 1:])
        if not p or not m or int(m.group()) >= 2**64:
            continue
        out.append(pkg(p, int(m.group())))
    return out


def pkg(p, time=0, role=0):
    return {"name": p[0], "epoch": p[1], "version": p[2], "release": p[3], "architecture": p[4], "install_time": time, "role": role, "consistency": []}


def ulong(t):
    t = t.split("\n")[0]
    return int(t) if re.fullmatch("[0-9]+", t) and int(t) < 2**32 else None


def count(t):
    m = re.fullmatch("[ \t\n\v\f\r]*([+-]?[0-9]+)", t)
    return int(m.group(1)) if m and 0 <= int(m.group(1)) < 2**32 else None


def osys(files):
    o, ok = dict(c20.NONE), False
    t = text(files, "os_info")
    if t is not None:
        o, ok = c20.osrelease(t)
    if not ok:
        t = text(files, "os_release")
        r = c20.sysrel(t) if t is not None else None
        if not r:
            return None
        o["name"], o["version"] = r
    o["architecture"] = text(files, "architecture")
    if o["architecture"] is None:
        return None
    e = text(files, "environ")
    for l in (e or "").split("\n"):
        if l.startswith("DESKTOP_SESSION="):
            o["desktop"] = l[16:]
            break
    return o


def packages(files):
    """(ok, sorted part, interpreter)"""
    ps = []
    if exists(files, "package"):
        e = text(files, "pkg_epoch")
        e = None if e is None else ulong(e)
        v = [text(files, k) for k in ("pkg_name", "pkg_version", "pkg_release", "pkg_arch")]
        if e is None or None in v:
            return None
        v = [x.split("\n")[0] for x in v]
        ps = [pkg([v[0], e] + v[1:], 0, 1)]
    if exists(files, "dso_list"):
        t = text(files, "dso_list")
        if t is None:
            return None
        d = dso(t)
        if d:
            ps = c19.uniq(sorted(ps + d, key=c19.k_nevra))
    i = text(files, "interpreter")
    i = c19.nevra(i) if i is not None else None
    return ps, [pkg(i)] if i else []


def component(files):
    if exists(files, "package"):
        return text(files, "component")
    e = text(files, "executable")
    return None if e is None else e[e.rfind("/") + 1:] + "-unpackaged"


class C21(Check):
    id = "C21"
    quick_n, thorough_n, chunk = 12000, 120000, 100
    rule = ("one case = a problem directory written to a scratch folder with some items missing, empty, malformed, over-long or unreadable, read back as "
            "report, operating system and package list, and judged by an independent reader (the stacktrace by comparison with parsing the item's text "
            "directly); distinct = (states of the items, content)")
    assumptions = ["unreadable items are directories, dangling links and files over the documented 20 MB limit (the checks run as root)",
                   "packages with equal NEVRA may be merged in any order; the report does not read user flags from the directory, they keep their defaults",
                   "parsers and decoders of the stacktraces are judged by C03 and C10-C12"]

    def files(self, rng):
        f = {}
        ty = rng.choice(["CCpp", "CCpp", "Python", "Python3", "Kerneloops", "Java", "JavaScript", "JavaScript", "Ruby", "Ruby", "xorg", "vmcore", "", "ccpp", "Pytho", "Kerneloop", "CCpp\n",
                         "JavaScrip", "Rub"])
        n, k = rtype(ty)
        f["type"] = ty
        g = self.osgen
        f["os_info"] = "".join(g.line(rng) + "\n" for _ in range(rng.choice([2, 6, 12])))
        if rng.random() < .7:
            f["os_info"] += 'ID=fedora\nVERSION_ID="39"\n'
        f["os_release"] = rng.choice(["Fedora release 39 (Thirty Nine)", "Red Hat Enterprise Linux release 9.1 (Plow)\n", "garbage", " release 3", "X release"])
        f["architecture"] = rng.choice(["x86_64", "x86_64", "aarch64\n", ""])
        env = [rng.choice(["HOME=/root", "DESKTOP_SESSION=gnome", "XDESKTOP_SESSION=no", "A=DESKTOP_SESSION=x", "DESKTOP_SESSION=", "DESKTOP_SESSION", "", "é=1",
                           "DESKTOP_SESSION=a b=c"]) for _ in range(rng.randrange(7))]
        f["environ"] = "\n".join(env) + rng.choice(["", "\n"])
        f["package"] = rng.choice(["bash-5-1.x86_64", ""])
        f["pkg_epoch"] = rng.choice(["0", "0", "1", "4294967295", "0\n", "4294967296", "-1", "x", "", "1x", "18446744073709551615", "18446744073709551616", " 1", "7\njunk"])
        if rng.random() < .6:
            f["pkg_epoch"] = rng.choice(["0", "2"])
        f["pkg_name"] = rng.choice(["bash", "bash\n", "kernel-core", "glibc", "", "a\nb"])
        f["pkg_version"] = rng.choice(["5.1", "2.23.1", "5.1\n"])
        f["pkg_release"] = rng.choice(["1.fc39", "5.fc24", "1.fc39\n"])
        f["pkg_arch"] = rng.choice(["x86_64", "noarch", "x86_64\n"])
        f["component"] = rng.choice(["bash", "coreutils", "", "bash\n"])
        f["executable"] = rng.choice(["/usr/bin/bash", "bash", "/usr/bin/", "", "/a/b c/d"])
        d = []
        for _ in range(rng.randrange(8)):
            nv = rng.choice(["glibc-2.23.1-5.fc24.x86_64", "glibc-2.23.1-5.fc24.i686", "bash-5.1-1.fc39.x86_64", "bash-2:5.1-1.fc39.x86_64", "zlib-1:1.2-3.x86_64", "bad", "a-1-1",
                             "x", "aa-1-1.n", "-1-1.x"])
            d.append(rng.choice(["/lib64/libc.so.6 %s (Fedora Project) %s", "/lib64/libc.so.6 %s (Fedora Project) %s", "/lib/x.so %s %s", "lib %s", "%s", "lib  %s x %s", "lib %s (V) ", "lib %s (V) x%s"]))
            t = rng.choice(["0", "1", "1460022605", "4294967296", "18446744073709551614", "18446744073709551615", "99999999999999999999", "12x", "-1"])
            d[-1] = d[-1] % ((nv, t) if d[-1].count("%s") == 2 else nv)
        f["dso_list"] = "\n".join(d) + rng.choice(["", "\n", "\n", "\n\n"])
        if rng.random() < .3:
            f["interpreter"] = rng.choice(["python3-3.11-1.fc39.x86_64", "python3-0:3.11-1.fc39.x86_64", "junk", "", "perl-4:5.36-1.noarch\n"])
        f["count"] = rng.choice(["1", "1", "55", "0", "4294967295", "4294967296", "-1", "", "x", "1x", "1\n", " 3", "+4", "99999999999999999999", "0x10", "5.", "12.5", "7 ", "7\t", "1e3", "3,0", "3L", "4294967297", "-0", "18446744073709551617", "9223372036854775808", "007"]) if rng.random() < .5 else "2"
        f["kernel"] = rng.choice(["4.5.3-300.fc24.x86_64", "", "6.1\n"])
        f["analyzer"] = rng.choice(["Node.js", "Node.js", "abrt-nodejs", "node", "", "Node.js\n"])
        if k == "core" or rng.random() < .1:
            o = gen.stacktrace(rng, "core", "hostile", maxt=3, maxf=5)
            t = json.dumps(c03.doc("core", o), ensure_ascii=False)
            if rng.random() < .15:
                t = mutate.mutate(rng, "python", t)
            f["core_backtrace"] = t.replace("\0", "?")
        if k != "core" or rng.random() < .1:
            kk = k if k and k != "core" and rng.random() < .95 else rng.choice(["python", "koops", "java", "ruby", "js"])
            t = traces.GEN[kk](rng)[0]
            if rng.random() < .15:
                t = mutate.mutate(rng, kk, t)
            f["backtrace"] = t
        out = {}
        drop = rng.choice([0, 0, 0, .03, .1, .3])
        for name, c in f.items():
            x = rng.random()
            if x < drop:
                s = rng.choice(["missing", "missing", "missing", "dir", "dangling", "big", "empty", "nul"])
                if s == "missing":
                    continue
                if s == "empty":
                    out[name] = ["file", ""]
                elif s == "nul":
                    i = rng.randrange(len(c) + 1)
                    out[name] = ["file", c[:i] + "\0" + c[i:]]
                else:
                    out[name] = [s, ""]
            else:
                out[name] = ["file", c]
        if rng.random() < .25:
            out.pop("package", None)
        if rng.random() < .3:
            out.pop("environ", None)
        for extra in rng.sample(["uid", "reason", "cmdline", "coredump", "time", "username", "pkg_vendor", "os_info~"], rng.randrange(3)):
            out.setdefault(extra, ["file", "junk\n"])
        return out

    def setup(self):
        super().setup()
        self.osgen = c20.C20.__new__(c20.C20)

    def make(self, rng, i):
        f = self.files(rng)
        cmds = [["rep", "fromdir", 0, "@D@"], ["os", "fromdir", 1, "@D@"], ["pkg", "fromdir", 2, "@D@"]]
        n, k = rtype(text(f, "type") or "")
        bt = text(f, "core_backtrace" if k == "core" else "backtrace")
        if k and bt is not None:
            cmds += [["fromjson", 3, "core", bt, "1"] if k == "core" else ["parsex", 3, k, bt], ["?dump", 3]]
        cmds += [["?rep", "tojson", 0]]
        if i % 4 == 0:
            cmds += [["rep", "print", 0, "@D@", "@D@.out"]]
        cmds += [["free", 0], ["free", 1], ["free", 2], ["free", 3]]
        return cmds, {"files": f}

    def write(self, d, files):
        os.mkdir(d)
        for k, (s, c) in files.items():
            p = os.path.join(d, k)
            if s == "file":
                with open(p, "wb") as f:
                    f.write(c.encode("latin-1"))
            elif s == "dir":
                os.mkdir(p)
            elif s == "dangling":
                os.symlink("/nonexistent/item", p)
            elif s == "big":
                with open(p, "wb") as f:
                    f.truncate(BIG)
            os.utime(p, (1, 1), follow_symlinks=False)
        os.utime(d, (1, 1))

    def snap(self, d):
        out = []
        for r, ds, fs in os.walk(d):
            for n in ds + fs + ["."]:
                p = os.path.join(r, n)
                s = os.lstat(p)
                c = open(p, "rb").read() if os.path.isfile(p) and not os.path.islink(p) and s.st_size < BIG else None
                out.append((p, s.st_mode, s.st_size, s.st_mtime_ns, s.st_ino, c))
        return sorted(out, key=lambda x: x[0])

    def run_cases(self, cases, obs):
        root = tempfile.mkdtemp(prefix="satyr-c21-")
        try:
            real, before = [], []
            for j, (cmds, meta) in enumerate(cases):
                d = os.path.join(root, "p%d" % j)
                self.write(d, meta["files"])
                before.append(self.snap(d))
                real.append([[x.replace("@D@", d) if isinstance(x, str) and "@D@" in x else x for x in c] for c in cmds])
            self.at = 0
            self.printed = {}
            res = []
            r = super().run_cases([(c, dict(m, dir=os.path.join(root, "p%d" % j), before=before[j])) for j, (c, m) in enumerate(zip(real, [m for _, m in cases]))], obs)
            # replays must not name the scratch directory
            out = []
            for tag, detail, rep in r:
                d = rep["meta"]["dir"]
                rep["meta"] = {"files": rep["meta"]["files"]}
                rep["cmds"] = [[x.replace(d, "@D@") if isinstance(x, str) else x for x in c] for c in rep["cmds"]]
                out.append((tag, detail.replace(d, "@D@"), rep))
            return out
        finally:
            shutil.rmtree(root)

    def judge(self, cmds, meta, res, obs):
        f, out = meta["files"], []
        rep, osr, pk = res[0], res[1], res[2]
        obs.distinct(f)
        for s in {v[0] for v in f.values()}:
            obs.count("directories with an item of kind " + s)
        if self.snap(meta["dir"]) != meta["before"]:
            out.append(("modified", "reading changed the directory"))
        # operating system
        wos = osys(f)
        if osr["os"] != wos:
            out.append(("os", "the operating system of %r is %r, expected %r" % (short(f, "os_info", "os_release", "architecture", "environ"), osr["os"], wos)))
        if (osr["err"] is None) != (wos is not None):
            out.append(("os:message", "%r" % (osr,)))
        # packages
        wp = packages(f)
        pn = ("package", "pkg_epoch", "pkg_name", "pkg_version", "pkg_release", "pkg_arch", "dso_list", "interpreter")
        if (pk["ret"] == 0) != (wp is not None) or (wp is None and pk["pkgs"]):
            out.append(("packages", "reading the packages of %r gave %r, expected %r" % (short(f, *pn), pk, wp)))
        elif wp is not None and not self.same(pk["pkgs"], wp, f):
            out.append(("packages", "the packages of %r are %r, expected %r" % (short(f, *pn), pk["pkgs"], wp)))
        if (pk["err"] is None) != (wp is not None):
            out.append(("packages:message", "%r for %r" % (pk, short(f, *pn))))
        # report
        t = text(f, "type")
        n, k = rtype(t or "")
        c = text(f, "count")
        c = None if c is None else count(c)
        why = "type" if t is None else "operating system" if wos is None else "packages" if wp is None else "count" if c is None else None
        st, sti = None, None
        if why is None and k:
            need = ["core_backtrace"] if k == "core" else ["kernel", "backtrace"] if k == "koops" else ["backtrace", "analyzer"] if k == "js" else ["backtrace"]
            miss = [x for x in need if text(f, x) is None]
            if miss:
                why = "no " + miss[0]
            elif not res[3]["ok"]:
                why = "malformed backtrace"
            else:
                st = json.loads(json.dumps(res[4]))
                if k == "koops":
                    st["version"] = text(f, "kernel")
                if k == "js" and text(f, "analyzer") == "Node.js":
                    st["platform"] = 0x11
        obs.count("report refused: " + why if why else "reports of type %s" % (k or "unknown"))
        if rep["ok"] != (why is None):
            out.append(("report:" + ("accepted" if rep["ok"] else "refused"), "expected %s; message %r; items %r" % ("no report: " + why if why else "a report", rep["err"], clipd(f))))
        elif why:
            if not rep["err"]:
                out.append(("report:message", "no report (%s) and no error message" % why))
        else:
            if rep["err"] is not None:
                out.append(("report:message", "a report and the error message %r" % rep["err"]))
            g = rep["rep"]
            w = {"report_version": 2, "report_type": n, "reporter_name": g["reporter_name"], "reporter_version": g["reporter_version"], "user_root": 0, "user_local": 1,
                 "component_name": component(f), "serial": c, "os": wos, "stacktrace": st, "auth": []}
            for x in w:
                if g[x] != w[x]:
                    out.append(("report:" + x, "%s is %r, expected %r" % (x, g[x], w[x])))
            if g["reporter_name"] != "satyr":
                out.append(("report:reporter_name", repr(g["reporter_name"])))
            if not self.same(g["packages"], wp, f):
                out.append(("report:packages", "packages %r, expected %r" % (g["packages"], wp)))
        pr = [r for c2, r in zip(cmds, res) if c2[:2] == ["rep", "print"]]
        js = [r for c2, r in zip(cmds, res) if c2[:2] == ["?rep", "tojson"]][0]
        if pr:
            o = open(meta["dir"] + ".out", "rb").read().decode("latin-1")
            obs.count("reports printed")
            if pr[0]["ok"] != rep["ok"] or (o != js + "\n" if rep["ok"] else o) or (pr[0]["err"] is None) != rep["ok"]:
                out.append(("print", "printing gave %r and %r, expected %r" % (pr[0], o[:300], js and js[:300])))
        return out

    def same(self, got, wp, f):
        """Equal but for the order in which packages equal in NEVRA were merged."""
        w = wp[0] + wp[1]
        if len(got) != len(w):
            return False
        times = {}
        for p in dso(text(f, "dso_list") or ""):
            times.setdefault(c19.k_nevra(p), set()).add(p["install_time"])
        for g, x in zip(got, w):
            if dict(g, install_time=0) != dict(x, install_time=0):
                return False
            if g["install_time"] != x["install_time"]:
                if not x["install_time"] or g["install_time"] not in times.get(c19.k_nevra(x), ()):
                    return False
        return True


def short(f, *names):
    return {n: f[n] for n in names if n in f}


def clipd(f):
    return {k: [v[0], v[1][:200]] for k, v in f.items()}


CHECK = C21
