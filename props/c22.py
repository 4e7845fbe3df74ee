"""C22: core-dump unwinding reports the real threads, frames and signal."""
import json, os, random, re, shutil, struct, tempfile
from vf import build, crash, driver
from vf.core import Check, tolatin
from vf.driver import Crash, NotRun

LIMIT = 256
PER = 4                    # scenarios per program


def build_id(path):
    """The NT_GNU_BUILD_ID note of an ELF64 file, from its section or program headers."""
    b = open(path, "rb").read()
    phoff, = struct.unpack_from("<Q", b, 32)
    pes, pn = struct.unpack_from("<HH", b, 54)
    for k in range(pn):
        t, _, off, _, _, fsz = struct.unpack_from("<IIQQQQ", b, phoff + k * pes)
        if t != 4:
            continue
        q, end = off, off + fsz
        while q + 12 <= end:
            ns, ds, ty = struct.unpack_from("<III", b, q)
            nm = b[q + 12:q + 12 + ns]
            d = q + 12 + (ns + 3) // 4 * 4
            if ty == 3 and nm == b"GNU\0":
                return b[d:d + ds].hex()
            q = d + (ds + 3) // 4 * 4
    return None


class Space:
    """The address space of the process as the process itself saw it."""
    def __init__(self, maps):
        self.maps = maps
        self.base = {}
        self.bid = {}
        for lo, hi, perm, off, path in maps:
            if path.startswith("/"):
                self.base[path] = min(lo, self.base.get(path, lo))
    def file(self, a):
        for lo, hi, perm, off, path in self.maps:
            if lo <= a < hi:
                return path
        return None
    def id(self, path):
        if path not in self.bid:
            self.bid[path] = build_id(path)
        return self.bid[path]


def frame_ok(sp, f, caller):
    """What is wrong with the facts of one frame, given where it stopped; None if nothing."""
    a = f["address"]
    path = sp.file(a - caller)
    if path is None or not path.startswith("/"):
        return None
    if f["file_name"] is None or os.path.realpath(f["file_name"]) != os.path.realpath(path):
        return "address %#x lies in %s, the frame says %s" % (a, path, f["file_name"])
    if f["build_id_offset"] != a - sp.base[path]:
        return "address %#x is %#x from the base of %s, the frame says %#x" % (a, a - sp.base[path], path, f["build_id_offset"])
    if f["build_id"] != sp.id(path):
        return "build id of %s is %s, the frame says %s" % (path, sp.id(path), f["build_id"])
    return None


def judge_thread(p, sc, info, sp, t, frames, hook=False):
    """Differences between the reported frames of thread t and the calls it made."""
    tid, rets = info["threads"][t]
    chain = p.chain(sc, t)
    appmods = {os.path.join(p.d, "prog")} | {os.path.join(p.d, m) for m in p.mods[1:]}
    if len(frames) > LIMIT:
        return "thread %d has %d frames, more than the limit" % (tid, len(frames))
    ends_null = not hook and sc["crasher"] == t and sc["scripts"][t][-2][0] == p.idx["jump_null"]
    if ends_null:
        return None if frames and (len(frames) == LIMIT or frames[0]["address"] == 0) else "a jump to address 0 gives %r" % frames[:1]
    for j, f in enumerate(frames):
        # which frames are callers is known for those of the program; others are in libc
        w = frame_ok(sp, f, 1)
        if w and frame_ok(sp, f, 0):
            return "thread %d frame %d: %s" % (tid, j, w)
        if f["function_name"] == "__libc_start_main":
            return "thread %d goes on below __libc_start_main" % tid
    if p.static:
        # libc is part of the executable: compare the exact addresses
        want = [rets[c[2]] for c in chain if c[2] is not None]
        got = [f["address"] for f in frames]
        it = iter(got)
        if len(frames) < LIMIT and not all(a in it for a in want):
            return "thread %d: the return addresses %s do not all appear in order in %s" % (tid, [hex(x) for x in want][:30], [hex(x) for x in got][:40])
        return None
    app = [(j, f) for j, f in enumerate(frames) if (sp.file(f["address"]) in appmods or sp.file(f["address"] - 1) in appmods)]
    want = chain
    if len(frames) < LIMIT and len(app) != len(chain) or len(app) > len(chain):
        return "thread %d: %d frames of the program are reported, its calls were %d: %s; expected %s" % (
            tid, len(app), len(chain), [f["function_name"] for _, f in app][:30], [c[0] for c in chain][:30])
    want = chain[len(chain) - len(app):]
    if len(frames) == LIMIT and len(app) < LIMIT - 40:
        return "thread %d: of its %d calls only %d are reported" % (tid, len(chain), len(app))
    for (j, f), c in zip(app, want):
        if c[2] is not None and f["address"] != rets[c[2]]:
            return "thread %d frame %d (%s): address %#x, the call returns to %#x" % (tid, j, c[0], f["address"], rets[c[2]])
        if f["function_name"] != c[0]:
            return "thread %d frame %d at %#x is in %s, the frame says %s" % (tid, j, f["address"], c[0], f["function_name"])
        mod = os.path.join(p.d, "prog" if c[1] == 0 else p.mods[c[1]])
        if f["file_name"] is None or os.path.realpath(f["file_name"]) != os.path.realpath(mod):
            return "thread %d frame %d is in %s, the frame says %s" % (tid, j, mod, f["file_name"])
        if c[2] is not None:
            w = frame_ok(sp, f, 1)
            if w:
                return "thread %d frame %d: %s" % (tid, j, w)
    if t == 0 and app and app[-1][1] and len([f for _, f in app]) and len(frames) - 1 - app[-1][0] > 2:
        return "thread %d has %d frames below main" % (tid, len(frames) - 1 - app[-1][0])
    return None


def libdw_agrees(p, sc, info, sp, t, pcs):
    """Whether the frames that plain libdw finds for thread t are those the program noted."""
    tid, rets = info["threads"][t]
    chain = p.chain(sc, t)
    it = iter(pcs)
    if not all(rets[c[2]] in it for c in chain if c[2] is not None):
        return False
    if p.static:
        return True
    appmods = {os.path.join(p.d, "prog")} | {os.path.join(p.d, m) for m in p.mods[1:]}
    n = sum(1 for a in pcs if sp.file(a) in appmods or sp.file(a - 1) in appmods)
    return len(chain) <= n <= len(chain) + (t == 0)


def gdb_text(rng, p, sc, info, sp):
    """A gdb backtrace of the process as gdb might print it, and the addresses of its threads' frames:
    [[(address or None, name or None, expected function or Ellipsis)]]"""
    out, model = [], []
    ts = list(info["threads"])
    rng.shuffle(ts)
    for n, t in enumerate(ts):
        tid, rets = info["threads"][t]
        fr = []
        for nm, m, r in p.chain(sc, t):
            x = rng.random()
            if r is None:
                if x < .3:
                    fr.append((None, nm or "??", Ellipsis))
            else:
                fr.append((rets[r], nm or "??", nm))
            if rng.random() < .05:
                fr.append("signal")
            if rng.random() < .05:
                fr.append((rng.choice([0, 1, 0xffffffff, 0x7fffffffffffffff, rng.getrandbits(47)]), "??", Ellipsis))
        # the first frame stopped where it is, so the function at its address is not known to be its own
        lines = ["Thread %d (Thread 0x%x (LWP %d)):" % (len(ts) - n, rng.getrandbits(40), tid)]
        mf = []
        for k, f in enumerate(fr):
            if f == "signal":
                lines.append("#%-2d <signal handler called>" % k)
                mf.append("signal")
                continue
            a, nm, exp = f
            nm2 = re.sub(r"\(.*", "", nm.replace("(anonymous namespace)::", "")).split(" ")[-1] or "fn"
            nm2 = re.sub(r"[^A-Za-z0-9_:?]", "", nm2)
            if a is None:
                lines.append("#%-2d %s (c=0x1) at main.cc:%d" % (k, nm2, rng.randrange(1, 99)))
            else:
                lines.append("#%-2d 0x%016x in %s ()" % (k, a, nm2) + rng.choice(["", " from /lib/libz.so.1", "\nNo symbol table info available."]))
            mf.append((a, nm2, exp if k and mf[-1] != "signal" else Ellipsis))
        if not fr:
            lines.append("#0  0x%016x in ?? ()" % 1)
            mf.append((1, "??", Ellipsis))
        out.append("\n".join(lines))
        model.append(mf)
    head = "[New LWP 1]\nCore was generated by `prog'.\nProgram terminated with signal %d, X.\n#0  0x%016x in ?? ()\n\n" % (
        info["signal"], model[-1][0][0] if model and model[-1] and model[-1][0] != "signal" and model[-1][0][0] else 1)
    return head + "\n\n".join(out) + "\n", model


def unstrip_text(rng, sp):
    out = []
    files = sorted({m[4] for m in sp.maps if m[4].startswith("/")}, key=lambda x: sp.base[x])
    mods = []
    for f in files:
        lo = sp.base[f]
        hi = max(m[1] for m in sp.maps if m[4] == f)
        try:
            bid = sp.id(f)
        except Exception:
            bid = None
        if not bid or " " in f:
            continue
        mods.append((lo, hi, bid, f))
        out.append("0x%x+0x%x %s@0x%x %s - %s" % (lo, hi - lo, bid, lo + 0x2c4, f, os.path.basename(f)))
    return "\n".join(out) + "\n", mods


def damage(rng, raw):
    """(kind, damaged core); kinds "memory..." leave headers and notes alone."""
    phoff, = struct.unpack_from("<Q", raw, 32)
    pes, pn = struct.unpack_from("<HH", raw, 54)
    ph = [(k,) + struct.unpack_from("<IIQQQQQQ", raw, phoff + k * pes) for k in range(pn)]
    notes = [x for x in ph if x[1] == 4]
    nend = max(x[3] + x[6] for x in notes)
    b = bytearray(raw)
    def flip(lo, hi, n):
        for _ in range(n):
            b[rng.randrange(lo, hi)] = rng.choice([0, 1, 0xff, 0x7f, 0x80, rng.randrange(256)])
    k = rng.choice(["trunc-any", "trunc-notes", "trunc-head", "memory-trunc", "memory-flip", "memory-flip", "memory-zero", "note-flip", "note-flip",
                    "note-size", "ehdr-flip", "phdr-flip", "phdr-flip", "phdr-field", "phdr-field", "stack-flip", "stack-flip", "swap", "nothing", "grow"])
    if k == "trunc-any":
        b = b[:rng.randrange(len(b) + 1)]
    elif k == "trunc-notes":
        b = b[:rng.randrange(notes[0][3], nend + 1)]
    elif k == "trunc-head":
        b = b[:rng.randrange(0, phoff + pn * pes + 1)]
    elif k == "memory-trunc":
        b = b[:rng.randrange(nend, len(b) + 1)]
    elif k == "memory-flip" and len(b) > nend:
        flip(nend, len(b), rng.choice([1, 10, 300, 5000]))
    elif k == "memory-zero" and len(b) > nend:
        lo = rng.randrange(nend, len(b)); hi = min(len(b), lo + rng.choice([16, 4096, 100000]))
        b[lo:hi] = bytes(hi - lo)
    elif k == "note-flip":
        flip(notes[0][3], nend, rng.choice([1, 3, 20, 200]))
    elif k == "note-size":
        q = notes[0][3]
        offs = []
        while q + 12 <= nend:
            ns, ds, ty = struct.unpack_from("<III", raw, q)
            offs.append(q)
            q += 12 + (ns + 3) // 4 * 4 + (ds + 3) // 4 * 4
        q = rng.choice(offs)
        struct.pack_into("<I", b, q + 4 * rng.randrange(3), rng.choice([0, 1, 4, 5, 0xffffffff, 0x7fffffff, 0x80000000, rng.randrange(4000), 336, 335, 337]))
    elif k == "ehdr-flip":
        flip(rng.choice([0, 16, 4]), 64, rng.choice([1, 2, 8]))
    elif k == "phdr-flip":
        flip(phoff, phoff + pn * pes, rng.choice([1, 2, 8, 60]))
    elif k == "phdr-field":
        x = rng.randrange(pn)
        f = rng.choice([0, 8, 16, 24, 32, 40, 48])
        v = rng.choice([0, 1, 2, 4, 6, len(raw), len(raw) - 1, len(raw) + 1, 1 << 31, 1 << 32, (1 << 63) - 1, (1 << 64) - 1, rng.getrandbits(47), 0xfffffffffffff000])
        struct.pack_into("<I" if f == 0 else "<Q", b, phoff + x * pes + f, v & (0xffffffff if f == 0 else (1 << 64) - 1))
    elif k == "stack-flip":
        # words of the stacks: anything that looks like a pointer becomes another one of those
        st = [x for x in ph if x[1] == 1 and x[6] and x[2] & 2]
        s = rng.choice(st) if st else ph[0]
        lo, hi = s[3] & ~7, min(len(b), s[3] + s[6]) - 8
        w = [q for q in range(lo, hi, 8) if 0x10000 < struct.unpack_from("<Q", b, q)[0] < 1 << 47][-4000:]
        for _ in range(rng.choice([1, 4, 40])):
            if w:
                v = struct.unpack_from("<Q", b, rng.choice(w))[0]
                struct.pack_into("<Q", b, rng.choice(w), v + rng.choice([0, 0, 8, -8, 1]))
        k = "memory-stack"
    elif k == "swap":
        x, y = rng.randrange(pn), rng.randrange(pn)
        X, Y = phoff + x * pes, phoff + y * pes
        b[X:X + pes], b[Y:Y + pes] = raw[Y:Y + pes], raw[X:X + pes]
    elif k == "grow":
        b += bytes(rng.getrandbits(8) for _ in range(100))
        k = "memory-grow"
    return k, bytes(b)


class C22(Check):
    id = "C22"
    rule = ("distinct (kind of damage, outcome) pairs and distinct call chains of threads whose every frame was compared with the "
            "return addresses the process noted itself")
    technique = ("seeded crashing programs whose call chains, return addresses, threads and mappings are noted by themselves, their kernel core dumps "
                 "read by the AddressSanitizer/UBSan build, compared frame by frame; damaged cores under sanitizers, allocation and descriptor balance")
    assumptions = ["x86-64, dynamic or static executables of gcc and clang with unwind tables; the kernel writes the core files (core_pattern 'core')",
                   "frames inside libc are checked for module, offset and build id only",
                   "a crash inside libelf/libdw on a damaged file is counted, not held against satyr"]
    quick_n = 720
    thorough_n = 6000
    chunk = 4 * PER
    cpu = 60

    seed = int(os.environ.get("VERIF_SEED", "1"))

    def make(self, rng, i):
        return [["crash", str(i // PER), str(i % PER)]], {"program": i // PER + 100000 * (self.seed - 1), "scenario": i % PER}

    # -- one program with its scenarios
    def run_cases(self, cases, obs):
        out = []
        progs = {}
        for c, m in cases:
            progs.setdefault(m["program"], []).append((c, m))
        for pi, cs in progs.items():
            top = tempfile.mkdtemp(prefix="satyr-c22-")
            try:
                out += self.program(pi, cs, top, obs)
            finally:
                shutil.rmtree(top, ignore_errors=True)
        return out

    def program(self, pi, cs, top, obs):
        out = []
        try:
            p = crash.Program(random.Random("c22/%d" % pi), os.path.join(top, "p"))
        except RuntimeError as e:
            raise build.HarnessError(str(e))
        p.d = os.path.realpath(p.d)
        obs.count("programs")
        for cmds, meta in cs:
            obs.count("cases")
            rng = random.Random("c22/%d/%d" % (pi, meta["scenario"]))
            d = os.path.join(top, "r%d" % meta["scenario"])
            def rep(tag, detail):
                out.append((tag, detail, {"cmds": tolatin(cmds), "meta": meta}))
            if meta["scenario"] == 3:
                self.hook(rng, p, d, rep, obs)
            else:
                self.dump(rng, p, d, rep, obs)
        return out

    def drive(self, cases):
        return self.drv.run_batch(cases, leak=True, cpu=self.cpu)

    def ref(self, case):
        """What libdw alone makes of the files of a case."""
        return self.drive([[["core", "ref", 0] + case[0][3:5]]])[0]

    def dump(self, rng, p, d, rep, obs):
        sc = p.spec(rng)
        info = p.run(sc, d)
        if info is None:
            info = p.run(sc, d + "b")
        if info is None:
            obs.count("programs that left no core")
            return
        core, sp = info["core"], Space(info["maps"])
        # names the executable may be given by
        exe = p.exe
        x = rng.random()
        if x < .15:
            exe = os.path.join(d, "link"); os.symlink(p.exe, exe)
        elif x < .3:
            exe = os.path.join(p.d, "..", os.path.basename(p.d), "prog")
        gt, gm = gdb_text(rng, p, sc, info, sp)
        ut, mods = unstrip_text(rng, sp)
        dd = os.path.join(d, "dd")
        os.makedirs(dd)
        os.symlink(core, os.path.join(dd, "coredump"))
        open(os.path.join(dd, "executable"), "w").write(exe)
        base = [[["core", "dump", 0, core, exe], ["?dump", 0]],
                [["rep", "corest", 0, dd]],
                [["core", "dump_gdb", 0, core, exe, gt.encode("latin-1")], ["?dump", 0], ["parse", 1, "gdb", gt.encode("latin-1")], ["gdb", "find_crash", 1]],
                [["core", "create", 0, gt.encode("latin-1"), ut.encode("latin-1"), exe], ["?dump", 0]]]
        # the same through the problem directory: a text, no text, and directories without a core or without a name of the executable
        dg = [os.path.join(d, "dg%d" % k) for k in range(4)]
        for k, x in enumerate(dg):
            os.makedirs(x)
            if k != 2:
                os.symlink(core, os.path.join(x, "coredump"))
            if k != 3:
                open(os.path.join(x, "executable"), "w").write(exe)
        base.append([["rep", "corest_gdb", 0, dg[0], gt.encode("latin-1")], ["rep", "corest_gdb", 0, dg[1]], ["rep", "corest_gdb", 0, dg[2], gt.encode("latin-1")],
                     ["rep", "corest_gdb", 0, dg[3], gt.encode("latin-1")], ["rep", "corest", 0, dg[2]], ["rep", "corest", 0, dg[3]]])
        raw = open(core, "rb").read()
        dam = []
        for k in range(6):
            kind, b = damage(rng, raw)
            f = os.path.join(d, "dam%d" % k)
            open(f, "wb").write(b)
            op = "dump" if rng.random() < .85 else "dump_gdb"
            dam.append((kind, op, f, exe))
        # other executables
        for k in range(2):
            kind = rng.choice(["exe-missing", "exe-empty", "exe-text", "exe-trunc", "exe-flip", "exe-other", "exe-dir", "exe-core", "core-missing", "core-empty", "core-exe", "core-dir", "core-text"])
            f = os.path.join(d, "alt%d" % k)
            eb = open(p.exe, "rb").read()
            c, e = core, f
            if kind == "exe-missing":
                e = os.path.join(d, "nothing")
            elif kind in ("exe-empty", "core-empty"):
                open(f, "w").close()
            elif kind in ("exe-text", "core-text"):
                open(f, "w").write("#!/bin/sh\necho not an ELF file\n" * rng.choice([1, 50]))
            elif kind == "exe-trunc":
                open(f, "wb").write(eb[:rng.randrange(len(eb))])
            elif kind == "exe-flip":
                eb = bytearray(eb)
                for _ in range(rng.choice([1, 5, 200])):
                    eb[rng.randrange(len(eb))] = rng.randrange(256)
                open(f, "wb").write(eb)
            elif kind == "exe-other":
                e = "/bin/true"
            elif kind in ("exe-dir", "core-dir"):
                os.makedirs(f)
            elif kind == "exe-core":
                e = core
            elif kind == "core-missing":
                f = os.path.join(d, "nothing")
            elif kind == "core-exe":
                f = p.exe
            if kind.startswith("core-"):
                c, e = f, exe
            dam.append((kind, rng.choice(["dump", "dump", "dump_gdb"]), c, e))
        cases = base + [[["core", op, 0, f, e] + ([gt.encode("latin-1")] if op == "dump_gdb" else []), ["?dump", 0]] for kind, op, f, e in dam]
        res = self.drive(cases)
        obs.count("operations", sum(len(c) for c in cases))
        head = "%s %s, %d threads, signal %d: " % (p.cc, p.opt, len(sc["scripts"]), info["signal"])
        names = ["reading the core", "writing core_backtrace", "core and gdb text", "gdb and unstrip text", "core_backtrace from a gdb text"] + ["%s (%s)" % x[:2] for x in dam]
        live = []
        for j, r in enumerate(res):
            if r is NotRun:
                obs.count("operations not run after crashes")
                live.append(None)
                continue
            if isinstance(r, Crash):
                live.append(None)
                txt = r.args[1]
                lines = re.findall(r"#\d+ 0x[0-9a-f]+ .*", txt)
                inner = next((l for l in lines if "libasan" not in l and "interceptor" not in l and "sanitizer" not in l), "")
                if j >= len(base) and (re.search(r"lib(dw|elf)[-.]", inner) or isinstance(self.ref(cases[j]), Crash)):
                    obs.count("crashes inside libdw/libelf on damaged files")
                    continue
                obs.count("crashes")
                rep("crash", head + names[j] + ": the library stopped with %s\n%s" % (r.args[0], txt[-1800:]))
                continue
            bal = r[-1]
            if j >= len(base) and (bal["net"] > 0 or bal["fds"]):
                own = self.ref(cases[j])
                if not isinstance(own, Crash) and own[-1]["net"] >= bal["net"] and own[-1]["fds"] >= bal["fds"]:
                    obs.count("damaged files that libdw itself leaves blocks or descriptors for")
                    bal = {"net": 0, "fds": 0}
            if bal["net"] > 0 or bal["fds"]:
                rep("leak" if bal["net"] > 0 else "descriptors", head + names[j] + ": %d blocks, %d descriptors left" % (bal["net"], bal["fds"]))
            live.append(r)
        ref = live[0]
        if ref is not None:
            w = self.clean(p, sc, info, sp, exe, ref, obs)
            if w:
                rep(w[0], head + w[1])
        if live[1] is not None and ref is not None and ref[1]:
            w = self.abrt(dd, live[1], ref)
            if w:
                rep("core-backtrace", head + w)
            else:
                obs.count("core_backtrace files compared")
        if live[2] is not None and ref is not None and ref[1]:
            w = self.from_gdb(p, info, sp, exe, gm, live[2])
            if w:
                rep("from-gdb", head + w + "\n" + gt[:1500])
            else:
                obs.count("gdb texts resolved against a core")
        if live[4] is not None and live[2] is not None:
            r = live[4]
            w = self.abrt(dg[0], r, live[2])
            bad = [k for k, x in enumerate(r[1:6]) if x["ok"] or not x["err"]]
            if not w and bad:
                w = "problem directories without what is needed: %r" % (r[1:6],)
            if not w and any(os.path.exists(os.path.join(x, "core_backtrace")) for x in dg[1:]):
                w = "a failed attempt leaves a core_backtrace"
            if w:
                rep("core-backtrace", head + "from a gdb text: " + w + "\n" + gt[:1000])
            else:
                obs.count("core_backtrace files from gdb texts compared")
        if live[3] is not None:
            w = self.create(gm, mods, live[3])
            if w:
                rep("gdb-unstrip", head + w + "\n" + gt[:1000])
            else:
                obs.count("gdb texts resolved against unstrip output")
        for (kind, op, f, e), r in zip(dam, live[len(base):]):
            if r is None:
                continue
            w, outcome = self.damaged(kind, op, r, ref, info)
            obs.distinct(["damage", kind, op, outcome])
            obs.count("damaged: " + outcome)
            if w:
                rep("damaged", head + "%s (%s): %s" % (kind, op, w))

    def clean(self, p, sc, info, sp, exe, r, obs):
        st, s = r[0], r[1]
        if not st["ok"]:
            return "no-stacktrace", "reading the core fails: %r" % st["err"]
        if st["err"] is not None:
            return "error-and-result", "a stacktrace and the error %r" % st["err"]
        if s["signal"] != info["signal"]:
            return "signal", "signal %d is reported" % s["signal"]
        if s["executable"] != exe:
            return "executable", "executable %r given as %r" % (s["executable"], exe)
        tids = {v[0]: t for t, v in info["threads"].items()}
        got = [t["id"] for t in s["threads"]]
        if sorted(got) != sorted(tids):
            return "threads", "threads %r, the process had %r" % (got, sorted(tids))
        if s["crash_thread"] is None or s["crash_thread"] < 0 or got[s["crash_thread"]] != info["threads"][sc["crasher"]][0]:
            return "crash-thread", "thread index %r of %r is marked, %d crashed" % (s["crash_thread"], got, info["threads"][sc["crasher"]][0])
        if s["only_crash_thread"]:
            return "only-crash-thread", "set for a core with all threads"
        own = None
        for th in s["threads"]:
            t = tids[th["id"]]
            w = judge_thread(p, sc, info, sp, t, th["frames"])
            if w:
                if own is None:
                    own = self.drive([[["core", "ref", 0, info["core"], exe, "a"]]])[0]
                if isinstance(own, Crash) or not libdw_agrees(p, sc, info, sp, t, [int(a) for a in own[0].get(str(th["id"]), [])]):
                    # stopped at a place whose unwinding information libdw does not follow
                    obs.count("threads libdw itself loses")
                    continue
                return "frames", w
            obs.count("threads compared")
            obs.count("frames compared", len(th["frames"]))
            if len(th["frames"]) == LIMIT:
                obs.count("threads cut at the frame limit")
            obs.distinct(["chain", [f["function_name"] for f in th["frames"]]])
        obs.count("cores compared")

    def abrt(self, dd, r, ref):
        if not r[0]["ok"]:
            return "core_backtrace is not written: %r" % r[0]["err"]
        j = json.load(open(os.path.join(dd, "core_backtrace")))
        s = ref[1]
        want = {"signal": s["signal"], "executable": s["executable"], "stacktrace": []}
        for i, t in enumerate(s["threads"]):
            w = {}
            if i == max(s["crash_thread"], 0):   # unknown: the first is taken
                w["crash_thread"] = True
            w["frames"] = []
            for f in t["frames"]:
                x = {k: f[k] for k in ("address", "build_id_offset") if f[k] != (1 << 64) - 1}   # all ones: unknown
                for k in ("build_id", "function_name", "file_name"):
                    if f[k] is not None:
                        x[k] = f[k]
                w["frames"].append(x)
            want["stacktrace"].append(w)
        if j != want:
            return "core_backtrace holds %s, expected %s" % (json.dumps(j)[:1200], json.dumps(want)[:1200])

    def from_gdb(self, p, info, sp, exe, gm, r):
        st, s = r[0], r[1]
        if not st["ok"] or st["err"] is not None:
            return "gdb text and core give %r" % st
        if s["signal"] != info["signal"] or s["executable"] != os.path.realpath(exe):
            return "signal %r, executable %r" % (s["signal"], s["executable"])
        if len(s["threads"]) != len(gm):
            return "%d threads of %d" % (len(s["threads"]), len(gm))
        ct = r[3]
        if (s["crash_thread"] if s["crash_thread"] is not None else -1) != ct:
            return "crash thread %r, gdb's is %r" % (s["crash_thread"], ct)
        for i, (th, mf) in enumerate(zip(s["threads"], gm)):
            want = [(f, k > 0 and mf[k - 1] != "signal") for k, f in enumerate(mf) if f != "signal"]
            n = len(th["frames"])
            if not min(LIMIT, len(want)) <= n <= min(len(want), LIMIT + mf.count("signal")):
                return "thread %d: %d frames of %d" % (i, n, len(want))
            for k, (f, (w, caller)) in enumerate(zip(th["frames"], want[len(want) - n:])):
                a = (1 << 64) - 1 if w[0] is None else w[0]
                if f["address"] != a:
                    return "thread %d frame %d: address %#x, gdb has %#x" % (i, k, f["address"], a)
                if w[2] is not Ellipsis and not p.static and f["function_name"] != w[2]:
                    return "thread %d frame %d at %#x: function %r, expected %r" % (i, k, a, f["function_name"], w[2])
                if w[2] is not Ellipsis:
                    e = frame_ok(sp, f, 1)
                    if e:
                        return "thread %d frame %d: %s" % (i, k, e)
                elif sp.file(a) is None and sp.file(a - 1) is None and (f["build_id"], f["file_name"], f["build_id_offset"]) != (None, None, a):
                    return "thread %d frame %d: %#x is nowhere, the frame is %r" % (i, k, a, f)
        return None

    def create(self, gm, mods, r):
        if not mods:
            return None
        if r[0] is not True:
            return "no stacktrace"
        s = r[1]
        if len(s["threads"]) != len(gm):
            return "%d threads of %d" % (len(s["threads"]), len(gm))
        for i, (th, mf) in enumerate(zip(s["threads"], gm)):
            if len(th["frames"]) != len(mf):
                return "thread %d: %d frames, gdb has %d" % (i, len(th["frames"]), len(mf))
            for k, (f, w) in enumerate(zip(th["frames"], mf)):
                if w == "signal":
                    continue
                a = (1 << 64) - 1 if w[0] is None else w[0]
                m = next((x for x in mods if x[0] <= a < x[1]), None)
                want = (a, None if w[1] == "??" else w[1]) + ((m[2], a - m[0], m[3]) if m else (None, None, None))
                got = (f["address"], f["function_name"], f["build_id"], f["build_id_offset"] if m else None, f["file_name"])
                if got != want:
                    return "thread %d frame %d is %r, expected %r" % (i, k, got, want)
        return None

    def damaged(self, kind, op, r, ref, info):
        st = r[0]
        if not st["ok"]:
            if not st["err"]:
                return "it fails with the message %r" % st["err"], "error"
            if len(r) > 2 and r[1] is not None:
                return "it fails and gives a stacktrace", "error"
            if kind == "nothing":
                return "undamaged files fail with %r" % st["err"], "error"
            return None, "error"
        if st["err"] is not None:
            return "a stacktrace and the error %r" % st["err"], "both"
        s = r[1]
        if kind in ("core-missing", "core-empty", "core-exe", "core-dir", "core-text"):
            return "a stacktrace comes out", "trace"
        for t in s["threads"]:
            if len(t["frames"]) > LIMIT + 60:
                return "%d frames" % len(t["frames"]), "trace"
        if (kind.startswith("memory") or kind.startswith("exe") or kind == "nothing") and op == "dump":
            if s["signal"] != info["signal"]:
                return "signal %d instead of %d" % (s["signal"], info["signal"]), "trace"
            tids = [v[0] for v in info["threads"].values()]
            if sorted(t["id"] for t in s["threads"]) != sorted(tids):
                return "threads %r of %r" % ([t["id"] for t in s["threads"]], tids), "trace"
            if ref is not None and s["crash_thread"] != 0:
                return "crash thread %r" % s["crash_thread"], "trace"
        n, m = sum(len(t["frames"]) for t in s["threads"]), sum(len(t["frames"]) for t in ref[1]["threads"]) if ref and ref[1] else 0
        return None, "trace of %s frames" % ("fewer" if n < m else "more" if n > m else "as many")

    # -- the kernel's core hook
    def hook(self, rng, p, d, rep, obs):
        os.makedirs(d)
        cases, facts = [], []
        for k in range(3):
            sc = p.spec(rng)
            t = sc["crasher"]
            sc["scripts"][t][-2:] = [(p.idx["die"], 1), (12, 1)]
            how = rng.choice([0, 0, 0, 1, 1, 2, 3, 4])
            sig = rng.choice([0, 6, 11, 11, 8, 65535, -1])
            info = os.path.join(d, "info%d" % k)
            args = [",".join("%d" % f if c == 1 else "%dx%d" % (f, c) for f, c in s) for s in sc["scripts"]]
            cases.append([["core", "hook", 0, how, p.exe, sig, info, sc["crasher"]] + args, ["?dump", 0]])
            facts.append((sc, how, sig, info))
        res = self.drive(cases)
        obs.count("operations", 2 * len(cases))
        for (sc, how, sig, infof), r in zip(facts, res):
            head = "hook, how %d, signal %d: " % (how, sig)
            if r is NotRun:
                continue
            if isinstance(r, Crash):
                rep("crash", head + "the library stopped with %s\n%s" % (r.args[0], r.args[1][-1800:]))
                continue
            st, s, bal = r
            if not st["ran"]:
                obs.count("hook programs that did not run")
                continue
            if bal["net"] > 0 or bal["fds"]:
                rep("leak", head + "%d blocks, %d descriptors left" % (bal["net"], bal["fds"]))
            if st["ok"] == (st["err"] is not None) or st["err"] == "":
                rep("error-and-result", head + "result %r, error %r" % (st["ok"], st["err"]))
                continue
            if how in (2, 3):
                obs.count("hook failures")
                if how == 3 and st["ok"]:
                    rep("hook-nobody", head + "a stacktrace of a thread that does not exist")
                continue
            if not st["ok"]:
                if "PTRACE_SEIZE" in st["err"]:
                    obs.count("tracing not permitted")
                else:
                    rep("hook-fails", head + repr(st["err"]))
                continue
            obs.count("stacks taken by the hook")
            info = crash.read_info(infof)
            sp = Space(info["maps"])
            if how == 4:
                j = json.loads(st["json"])
                s = {"signal": j["signal"], "executable": j.get("executable"), "only_crash_thread": j.get("only_crash_thread", False), "crash_thread": 0,
                     "threads": [{"id": st["tid"], "frames": [{k: f.get(k) for k in ("address", "build_id", "build_id_offset", "function_name", "file_name")} for f in t["frames"]]}
                                 for t in j["stacktrace"]]}
            if (s["signal"], s["executable"], bool(s["only_crash_thread"]), s["crash_thread"], [t["id"] for t in s["threads"]]) != (
                    max(sig, 0), p.exe, True, 0, [st["tid"]]):
                rep("hook-facts", head + repr({k: v for k, v in s.items() if k != "threads"}))
                continue
            w = judge_thread(p, sc, info, sp, sc["crasher"], s["threads"][0]["frames"], hook=True)
            if w:
                rep("hook-frames", head + w)
            else:
                obs.distinct(["hook", [f["function_name"] for f in s["threads"][0]["frames"]]])


CHECK = C22
