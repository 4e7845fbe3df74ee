"""Generators of trace texts in the formats the parsers support, each with the stacktrace it shows.

Each gen_<type>(rng) returns (text, expected) where expected is the full dump of the stacktrace."""
import string as _s

M64, M32 = 2**64 - 1, 2**32 - 1
AL = _s.ascii_letters


def anon(p):
    if p is not None and p.startswith("/home/"):
        i = p.find("/", 6)
        if i >= 0:
            return "/home/anonymized" + p[i:]
    return p


def word(rng, chars=AL + _s.digits + "_", first=AL + "_", lo=1, hi=12):
    return rng.choice(first) + "".join(rng.choice(chars) for _ in range(rng.randrange(lo - 1, hi)))


def path(rng, exts, chars=AL + _s.digits + "_-.+", weird=""):
    """A file path; sometimes below a home directory."""
    c = rng.random()
    if c < .25:
        base = "/home/" + word(rng, chars + weird) + "/"
    elif c < .3:
        base = rng.choice(["/home/", "/home//", "/home", "home/x/", "/homes/joe/", "/var/home/joe/", "//home/joe/", "/HOME/joe/", "/home/joe//", "/home/anonymized/"])
    elif c < .7:
        base = rng.choice(["/usr/lib/", "/opt/", "/usr/share/x/", "/root/", "/tmp/", "/"])
    else:
        base = rng.choice(["", "./", "../", "src/"])
    return base + "/".join(word(rng, chars + weird) for _ in range(rng.choice([1, 1, 2, 3]))) + rng.choice(exts)


def u32(rng):
    return rng.choice([rng.randrange(1, 300), rng.randrange(1, 300), rng.randrange(1, 99999), 2**31, M32, 0])


def addr(rng):
    return rng.choice([rng.getrandbits(64), 0xffffffff81000000 + rng.getrandbits(20), 0x7f0000000000 + rng.getrandbits(36), 0x400000 + rng.getrandbits(18), rng.getrandbits(32), 1])


# ------------------------------------------------------------------------------------------ python
PYEXC = ["KeyError", "ValueError", "NameError", "os.error", "dbus.exceptions.DBusException", "AttributeError", "E", "KeyboardInterrupt"]
PYCODE = ["x = foo(y)", "raise KeyError('x')", "return self.a[b](\"c\") # ^~^", "  indented", "File \"x\", line 3, in y", "~x", "a ^ b", "print 'Traceback (most recent call last):'", "x: y", "d[k] \\", "\xe9\xff", "\tfoo"]


def gen_python(rng):
    frames, out = [], []
    n = rng.choice([1, 1, 2, 3, 5, 9])
    pre = rng.choice(["", "", "\n", "some log: line\nanother\n", "Error in <x>:\n\n", "  File \"nope.py\", line 1, in nope\n", "\n\n"])
    syntax_only = rng.random() < .08
    carets = rng.random() < .4
    if syntax_only:
        n = 1
        pre = rng.choice(["", "\n", "log\n"]) + "invalid syntax (" + word(rng) + ".py, line %d)\n" % rng.randrange(99) + rng.choice(["", "\n"])
        out.append(pre)
    else:
        out.append(pre + "Traceback (most recent call last):\n")
    for i in range(n):
        f = {"special_file": 0, "special_function": 0, "file_line": u32(rng)}
        last = i == n - 1
        c = rng.random()
        if c < .15:
            f["file_name"], f["special_file"] = rng.choice(["string", "stdin", "frozen importlib._bootstrap", "input 1", ""]), 1
            fn = "<%s>" % f["file_name"]
        else:
            fn = path(rng, [".py", ".py", "", ".pyc", " x.py"], weird=" <>'")
            while fn.startswith("<"):
                fn = "x" + fn
            if rng.random() < .06:
                # quotation marks inside; sometimes longer than any buffer
                fn = '/x"y/' + word(rng) * rng.choice([1, 1, 60, 300]) + '".py'
            f["file_name"] = anon(fn)
        c = rng.random()
        if syntax_only or (last and c < .1):
            func, f["function_name"], f["special_function"] = "", "syntax", 1
        elif c < .35:
            f["function_name"], f["special_function"] = rng.choice(["module", "lambda", "listcomp", "genexpr", "", "a b", "locals x.<y>"]), 1
            func = ", in <%s>" % f["function_name"]
        else:
            f["function_name"] = word(rng) + rng.choice(["", "", ".method", " x", "<y>", "'s", "\""])
            func = ", in " + f["function_name"]
        out.append('  File "%s", line %d%s\n' % (fn, f["file_line"], func))
        f["line_contents"] = None
        if rng.random() < .8:
            f["line_contents"] = rng.choice(PYCODE)
            out.append("    %s\n" % f["line_contents"])
            if carets and rng.random() < .6 or func == "":
                out.append("    " + rng.choice(["^", "    ^^^^", "~~~~^^^^", "   ~", "^^^ "]) + "\n")
        if rng.random() < .08 and not syntax_only:
            out.append("  [Previous line repeated %d more time%s]\n" % rng.choice([(1, ""), (2, "s"), (994, "s"), (99999999999, "s")]))
        frames.insert(0, f)
    exc = rng.choice(PYEXC)
    tail = rng.choice([": 'x'\n", "\n", ": message: with colon\nmore text\n", ":\n", "", ": x", "\n\n"])
    out.append(exc + tail)
    return "".join(out), {"exception_name": exc, "frames": frames}


# ------------------------------------------------------------------------------------------ ruby
RBOPS = ["+", "-", "*", "/", "[]", "[]=", "==", "!", "=~", "+@", "<=>", ">", ">=", "<", "<=", "<<", ">>", "==="]


def gen_ruby(rng, ops=True):
    frames, out = [], []
    for i in range(rng.choice([1, 1, 2, 3, 6, 12])):
        fn = path(rng, [".rb", ".rb", "", ":x.rb", " y.rb"], weird=" :'<>()")
        f = {"file_name": anon(fn), "file_line": u32(rng), "special_function": 0, "block_level": 0, "rescue_level": 0}
        q = ""
        for _ in range(rng.choice([0, 0, 0, 0, 1, 2, 3, rng.randrange(4, 40)])):
            q += "rescue in "
            f["rescue_level"] += 1
        c = rng.random()
        if c < .2:
            q += "block in "
            f["block_level"] = 1
        elif c < .35:
            f["block_level"] = rng.choice([2, 3, 17, 1, 0])
            q += "block (%d levels) in " % f["block_level"]
        c = rng.random()
        if c < .25:
            f["special_function"] = 1
            f["function_name"] = rng.choice(["main", "top (required)", "class:Foo", "module:Bar", "eval", "class:Foo::Bar"])
            q += "<%s>" % f["function_name"]
        elif c < .4 and ops:
            f["function_name"] = rng.choice(RBOPS)
            q += f["function_name"]
        else:
            f["function_name"] = word(rng) + rng.choice(["", "?", "!", "=", " x", "`y"])
            q += f["function_name"]
        frames.append(f)
        out.append("%s:%d:in `%s'" % (fn, f["file_line"], q))
    exc = rng.choice(["RuntimeError", "NameError", "Foo::Bar::Baz", "E", "Errno::ENOENT", "Énergie::Über", "A::Bé_1"])
    msg = rng.choice(["message", "", "undefined method `x' for nil:NilClass", "a (b) c", "line one\nline two", "x: y", "(", "multi\n\n  from y\nz", ")", "oops (Foo)\nline two", "a (Foo)\nb (Bar)\nc (d)", "long\n" * 900])
    text = out[0] + ": " + msg + (" " if msg else "") + "(%s)\n" % exc
    text += "\n".join("\tfrom " + o for o in out[1:])
    if out[1:]:
        text += rng.choice(["\n", ""])
    return text, {"exception_name": exc, "frames": frames}


# ------------------------------------------------------------------------------------------ javascript
def gen_js(rng):
    frames, out = [], []
    exc = rng.choice(["ReferenceError", "TypeError", "Error", "MyError [CODE]", "E", "Uncaught Error"])
    out.append(exc + ": " + rng.choice(["x is not defined", "", "at foo (x:1:2)", "msg: more", "  "]))
    nf = rng.choice([0, 1, 2, 3, 10, 10])
    if nf and rng.random() < .2:
        # more lines of the message
        out += rng.choice([["second line"], ["", "a: b (c)", ""], ["- /x/require.js", "- y"], ["{ code: 'X',"] + ["  key: 'at most'" + "," * 60] * rng.choice([3, 60, 300])])
    for i in range(nf):
        fn = path(rng, [".js", ".js", "", " x.js", ":y", ".mjs"], weird=" :[]()")
        while fn.endswith((")", " ")):
            fn += "x"
        if rng.random() < .2:
            fn = rng.choice(["[stdin]-wrapper", "bootstrap_node.js", "node:internal/modules/cjs/loader", "webpack:///x.js", "http://host:80/a.js", "(x)y"])
        f = {"file_name": anon(fn), "file_line": u32(rng), "line_column": u32(rng), "function_name": None}
        loc = "%s:%d:%d" % (fn, f["file_line"], f["line_column"])
        lead = rng.choice(["    ", "    ", "     ", " ", ""]) + "at " + rng.choice(["", "", "", " "])
        if rng.random() < .7:
            f["function_name"] = rng.choice(["Object.<anonymous>", "Module._compile", "foo", "$x._y", "a.b.c", "Function.Module.runMain", "<anonymous>", word(rng), "(x)", "new", "async", "new Foo", "async a.b", "news", "new new"])
            extra = rng.choice(["", "", "", " [as bar]", " [as x.y]"]) if f["function_name"] not in ("new", "async") else ""
            out.append(lead + f["function_name"] + extra + " (" + loc + ")" + rng.choice(["", "", "  "]))
        else:
            out.append(lead + loc + rng.choice(["", "", " "]))
        frames.append(f)
    return "\n".join(out) + ("\n" if not frames else rng.choice(["\n", ""])), {"exception_name": exc, "platform": 1, "frames": frames}


# ------------------------------------------------------------------------------------------ java
def java_name(rng):
    return ".".join(word(rng, AL + _s.digits + "_$", AL) for _ in range(rng.choice([1, 2, 4])))


def java_frame(rng):
    f = {"name": java_name(rng) + rng.choice(["", ".<init>", ".<clinit>", "", ".access$000"]), "file_name": None, "file_line": 0, "class_path": None,
         "is_native": 0, "is_exception": 0, "message": None}
    c = rng.random()
    if c < .1:
        f["is_native"], src = 1, "Native Method"
    elif c < .2:
        src = "Unknown Source"
    elif c < .25:
        src = f["file_name"] = word(rng) + ".java"
    else:
        src = path(rng, [".java", ".java", ".scala"], weird=" $") if rng.random() < .3 else word(rng) + ".java"
        f["file_name"], f["file_line"] = anon(src), u32(rng)
        src += ":%d" % f["file_line"]
    text = "at %s(%s)" % (f["name"], src)
    c = rng.random()
    if c < .1:
        p = path(rng, [".class"], weird=" ")
        f["class_path"] = anon(p)
        text += " [file:%s]" % p
    elif c < .25:
        p = path(rng, [".jar"], weird=" ]")
        f["class_path"] = anon(p)
        text += " [jar:file:%s!/%s.class]" % (p, word(rng))
    elif c < .3:
        p = "http://host/" + word(rng) + ".class"
        f["class_path"] = p
        text += " [%s]" % p
    elif c < .35:
        text += " ~[?:?]".replace("[?:?]", "") if rng.random() < .5 else " "
    return f, text


def java_exc(rng):
    e = {"name": java_name(rng) + "Exception", "file_name": None, "file_line": 0, "class_path": None, "is_native": 0, "is_exception": 1, "message": None}
    text = e["name"]
    c = rng.random()
    if c < .6:
        e["message"] = rng.choice(["foo", "a: b", "at x.Y(Z.java:1)", "Caused by: me", "msg (x)", "[1, 2]", "... 3 more", "\"q\""])
        text += ": " + e["message"]
    elif c < .7:
        text += rng.choice([":", ": "]) + ""
    return e, text


def gen_java(rng):
    """One thread: exceptions chained by 'Caused by', innermost first."""
    out, name = [], None
    chain = []                       # outermost first: [exception frame, frames]
    depth = rng.choice([0, 0, 0, 1, 1, 2, 4])
    head = ""
    if rng.random() < .6:
        name = rng.choice(["main", "Thread-1", "pool 1: x", "", word(rng), 'a "quoted" name', '"q"', 'x" a.b" y', 'a"', '" "', "n" * 300])
        head = 'Exception in thread "%s" ' % name
    for i in range(depth + 1):
        e, text = java_exc(rng)
        out.append((head if i == 0 else "Caused by: ") + text)
        frames = []
        for _ in range(rng.choice([0 if i == depth else 1, 1, 2, 4])):
            f, t = java_frame(rng)
            frames.append(f)
            out.append(rng.choice(["\t", "\t", "    ", "\t\t"]) + t)
        more = i > 0 and rng.random() < .8
        if more:
            out.append("\t... %d more" % rng.randrange(1, 99))
        if rng.random() < .2 and frames:
            for _ in range(rng.choice([1, 1, 2])):
                out.append("\tSuppressed: " + java_exc(rng)[1])
                for _ in range(rng.choice([0, 1, 2])):
                    out.append("\t\t" + java_frame(rng)[1])
                if rng.random() < .7:
                    out.append("\t\t... %d more" % rng.randrange(1, 99))
                if rng.random() < .2:
                    out.append("\tCaused by: " + java_exc(rng)[1])
                    out.append("\t\t" + java_frame(rng)[1])
        chain.append([e] + frames)
    frames = [f for part in reversed(chain) for f in part]
    text = "\n".join(out) + rng.choice(["\n", ""])
    return text, {"threads": [{"name": name, "frames": frames}]}


# ------------------------------------------------------------------------------------------ kernel oops
TAINTS = {"P": "module_proprietary", "F": "forced_module", "S": "smp_unsafe", "R": "forced_removal", "M": "mce", "B": "page_release", "U": "userspace",
          "D": "died_recently", "A": "acpi_overridden", "W": "warning", "C": "staging_driver", "I": "firmware_workaround", "O": "module_out_of_tree",
          "E": "unsigned_module", "L": "soft_lockup", "K": "live_patched"}
KREASON = ["BUG: unable to handle kernel NULL pointer dereference at 0000000000000008", "WARNING: at fs/buffer.c:12 foo+0x12/0x34 [ext4]()",
           "general protection fault: 0000 [#1] SMP", "------------[ cut here ]------------", "kernel BUG at mm/slub.c:3!", "INFO: possible recursive locking detected ]",
           "Kernel panic - not syncing: x", "irq 18: nobody cared", ""]
KNOISE = ["Stack:", " ffff880037b5fd40 ffffffff8160b2a5 0000000000000000", "Code: 48 89 e5 <0f> 0b 66 66", "RSP: 0018:ffff880037b5fd48  EFLAGS: 00010246",
          "RAX: 0000000000000000 RBX: ffff8800 RCX: 00", "Call Trace:", "Process foo (pid: 1, threadinfo ffff88, task ffff89)", "---[ end trace 4a2b ]---", "",
          "IP: [<ffffffff8117>] foo+0x1/0x2", "EIP is at foo+0x1/0x2", "DWARF2 unwinder stuck at kernel_thread_helper+0x7/0x10", "Leftover inexact backtrace:",
          " =======================", "Oops: 0002 [#1] SMP", "FS:  00007f00(0000) GS:ffff8801(0000)", "Hardware name: OptiPlex 780 [x]", "R13: 0000 R14: 00 R15: 00",
          "PGD 0 ", "last sysfs file: /sys/devices/x", "Modules: none", "RIP  [<ffffffff81>] bar+0x3/0x4", " RSP <ffff8801>", "EFLAGS: 00010246 CPU: 0", "Pid: 1, comm: x",
          "invalid opcode: 0000 [#1] SMP ", "Backtrace: ", "r5:c05a3b40 r4:c05a3b40", "Krnl Code: 0000: a7 brc 15,40", "LR [c0000] .foo+0x", "[drm:foo] *ERROR* x"]


def kfunc(rng):
    return word(rng, AL + _s.digits + "_") + rng.choice(["", "", "", ".isra.5", ".part.8", ".constprop.0", "@x", "$y"])


def koff(rng):
    return rng.choice([rng.randrange(0, 0x1000), rng.randrange(0, 0x100), 0, M64 - 1, rng.getrandbits(40)])


def kframe():
    return {"address": 0, "reliable": 1, "function_name": None, "function_offset": 0, "function_length": 0, "module_name": None, "from_address": 0,
            "from_function_name": None, "from_function_offset": 0, "from_function_length": 0, "from_module_name": None, "special_stack": None}


def kmodule(rng):
    return word(rng, AL.lower() + _s.digits + "_", AL.lower())


def kcall(rng, f, pre="", fn=None):
    """function+offset/length [module]"""
    f[pre + "function_name"], f[pre + "function_offset"], f[pre + "function_length"] = fn or kfunc(rng), koff(rng), koff(rng)
    t = "%s+0x%x/0x%x" % (f[pre + "function_name"], f[pre + "function_offset"], f[pre + "function_length"])
    if rng.random() < .3:
        f[pre + "module_name"] = kmodule(rng)
        t += rng.choice([" ", " ", "\t"]) + "[%s]" % f[pre + "module_name"]
    return t


def kaddr(rng, arch, wide=None):
    a = addr(rng) & (M32 if arch in ("i386", "arm") else M64) or 1
    return a, ("%08x" if arch in ("i386", "arm") else "%016x") % a


def gen_koops(rng):
    arch = rng.choice(["x86_64", "x86_64", "x86_64", "i386", "arm", "armr", "s390", "ppc", "plain"])
    ts = rng.random() < .45
    lines, frames, alt = [], [], None
    t = [rng.randrange(0, 99999), rng.randrange(0, 999999)]
    def add(x, stamp=True):
        if ts and stamp:
            t[1] = (t[1] + rng.randrange(500)) % 1000000
            x = "[%s%d.%06d] %s" % (rng.choice(["", "  ", "    "]), t[0], t[1], x)
        lines.append(x)
    def noise(k=2):
        for _ in range(rng.randrange(k + 1)):
            add(rng.choice(KNOISE))
    add(rng.choice(KREASON))
    noise()
    taints = {v: 0 for v in TAINTS.values()}
    mods = None
    def module_lines():
        nonlocal mods
        mods = [kmodule(rng) + rng.choice(["", "", "", "(OF)", "(P)", "(+)"]) for _ in range(rng.choice([0, 1, 3, 18, 19, 20, 21, 45, 130]))]
        x = "Modules linked in:" + "".join(" " + m for m in mods)
        c = rng.random()
        if c < .3 and len(mods) > 3 and ts:
            # wrapped by the log: the continuation carries no timestamp
            cut = rng.randrange(len(x) // 2, len(x) - 2)
            if x[cut] == " " or x[cut - 1] == " ":
                add(x[:cut].rstrip(" "))
                add(" " + x[cut:].lstrip(" "), False)
            else:
                add(x[:cut])
                add(x[cut:], False)
            if rng.random() < .4:
                lines[-1] += " [last unloaded: scsi_wait_scan]"
        else:
            add(x + rng.choice(["", "", " ", " [last unloaded: scsi_wait_scan]"]))
        if not ts:
            add(rng.choice(["Pid: 12, comm: x", "CPU: 1 PID: 2", "CPU 1 ", "irq event stamp: 1234", "CR2: 00000000deadbeef"]))
    if rng.random() < .6:
        if rng.random() < .7:
            module_lines()
            if rng.random() < .2:
                add("Modules linked in: other list")
                if not ts:
                    add("Pid: 1, comm: y")
        flags = "".join(rng.choice([rng.choice(list(TAINTS)), " ", "G", " "]) for _ in range(rng.randrange(1, 17)))
        flags = rng.choice("PG") + flags
        if rng.random() < .8:
            for c in flags:
                if c in TAINTS:
                    taints[TAINTS[c]] = 1
            add("Pid: 1, comm: swapper Tainted: %s 3.3.0 #1" % flags)
        else:
            add("Pid: 1, comm: swapper Not tainted 3.3.0 #1")
    noise()
    ip = None
    def special():
        f = kframe()
        a, x = kaddr(rng, arch)
        f["address"] = a
        if arch == "i386":
            f["reliable"] = int(rng.random() < .9)
            add("EIP: [<%s>]%s %s SS:ESP 0068:f180dbf8" % (x, "" if f["reliable"] else " ?", kcall(rng, f)))
        else:
            add("RIP: 0010:[<%s>]  [<%s>] %s" % (x, x, kcall(rng, f)))
        return f
    if arch == "x86_64" and rng.random() < .6:
        ip = special()
        noise()
    if rng.random() < .8:
        add("Call Trace:")
    for i in range(rng.choice([1, 2, 3, 6, 12])):
        f, lead = kframe(), rng.choice(["", " ", "  ", "\t"])
        q = rng.random() < .3
        if q:
            f["reliable"] = 0
        qm = "? " if q else ""
        if arch in ("x86_64", "i386"):
            a, x = kaddr(rng, arch)
            f["address"] = a
            c = rng.random()
            if arch == "x86_64" and c < .12:
                if alt and rng.random() < .5:
                    lead += rng.choice(["<EOI> ", "<<EOE>> ", "<EOE> ", "</%s> " % alt])
                    alt = None
                    if rng.random() < .3:
                        alt = "IRQ"
                        lead += " <IRQ> "
                else:
                    alt = rng.choice(["IRQ", "NMI", "#DF", "Interrupt"])
                    lead += "<%s> " % alt
                    if rng.random() < .3:
                        add(lead)
                        lead = " "
            if c > .9:
                f["address"], head = 0, ""        # no address printed
            elif c > .8:
                head = "[%s] " % x
            else:
                head = "[<%s>] " % x
            f["special_stack"] = alt
            add(lead + head + qm + kcall(rng, f))
        elif arch == "plain":
            f["reliable"] = 0
            f["address"] = rng.getrandbits(48)
            add(lead + "0x%x" % f["address"])
        elif arch == "arm":
            a, x = kaddr(rng, arch)
            b, y = kaddr(rng, arch)
            f["address"], f["from_address"] = a, b
            add(lead + "[<%s>] %s(%s) from [<%s>] (%s)" % (x, qm, kcall(rng, f), y, kcall(rng, f, "from_")))
        elif arch == "armr":
            a, x = kaddr(rng, "arm")
            b, y = kaddr(rng, "arm")
            f["address"], f["from_address"], f["function_name"] = a, b, kfunc(rng)
            add(lead + "[<%s>] %s(%s) from [<%s>] (%s)" % (x, qm, f["function_name"], y, kcall(rng, f, "from_")))
        elif arch == "s390":
            a, x = kaddr(rng, arch)
            f["address"] = a
            if rng.random() < .2:
                f["reliable"] = 1
                body = "[<%s>] 0x%x" % (x, rng.getrandbits(30))
            else:
                body = "[<%s>] %s%s" % (x, qm, kcall(rng, f))
            add("(" + body + ")" if rng.random() < .3 else lead + body)
        else:
            a, x = kaddr(rng, arch)
            b, y = kaddr(rng, arch)
            f["address"] = a
            f["reliable"] = 1
            dot = rng.random() < .5
            fn = kfunc(rng)
            s = "[%s] [%s] %s%s" % (y, x, "." if dot else "", kcall(rng, f, fn=fn))
            if rng.random() < .2:
                f["reliable"] = 0
                s += " (unreliable)"
            add(s)
        frames.append(f)
        if rng.random() < .1:
            add(rng.choice(KNOISE))
    if arch == "i386" and rng.random() < .6:
        noise()
        ip = special()
    if arch == "x86_64" and ip and rng.random() < .2:
        a, x = kaddr(rng, arch)
        add("RIP: 0010:[<%s>]  [<%s>] second_one+0x1/0x2" % (x, x))
    if mods is None and rng.random() < .3:
        module_lines()
    noise()
    if arch == "s390" and rng.random() < .5:
        # what follows this line belongs to no frame
        add("Last Breaking-Event-Address:")
        add(" [<%016x>] after_the_end+0x1/0x2" % addr(rng))
    if ip:
        frames.insert(0, ip)
    text = "\n".join(lines) + rng.choice(["\n", "", "\n\n"])
    exp = {"version": None, "raw_oops": text, "reason": lines[0], "modules": mods, "frames": frames}
    exp.update({"taint_" + k: v for k, v in taints.items()})
    return text, exp


# ------------------------------------------------------------------------------------------ gdb
GDBTYPES = ["int", "void", "std::string", "Foo*", "char&", "QList<int>", "bool"]
OPS = [">>=", ">>", ">=", ">", "<<=", "<<", "<=", "<", "->*", "->", "-", "==", "=", "&&", "&=", "&", "||", "|=", "|", "++", "+=", "+", "--", "-=",
       "/=", "/", "*=", "*", "%=", "%", "!=", "!", "~", "()", "[]", ",", "^=", "^", " new[]", " new", " delete[]", " delete", "<=>",
       " bool", " char const*", " Foo&&", " std::string", " unsigned long", " T_1::U"]


def targs(rng, d=0):
    one = lambda: rng.choice([word(rng), "int", "char const*", "unsigned long", "std::pair<int, %s>" % word(rng), "(anonymous namespace)::" + word(rng),
                              "%s (*)(int, char)" % word(rng), "(%s)3" % word(rng), "T&&", "int[4]", "main::{lambda(int)#2}", "'a'", "%s%s" % (word(rng), targs(rng, d + 1)) if d < 3 else "x"])
    # closing brackets must be separated, as demanglers do
    s = ", ".join(one() for _ in range(rng.choice([1, 1, 2, 3])))
    if rng.random() < .06:
        s += " [with T = int]"
    return "<%s%s>" % (s, " " if s.endswith(">") else "")


def cname(rng):
    """A function name as GDB prints it (without type), and whether it may be preceded by a type."""
    c = rng.random()
    if c < .4:
        return word(rng) + rng.choice(["", "", "", "@plt", "@GLIBC_2.2.5", ".isra.3", ".part.1", ".constprop.4"])
    if c < .45:
        return rng.choice(["~", "*", ".", "_"]) + word(rng)
    if c < .6:
        return "::".join(word(rng) for _ in range(rng.choice([2, 3]))) + rng.choice(["", "", "::~" + word(rng)])
    if c < .75:
        return word(rng) + targs(rng) + "::" + word(rng) + rng.choice(["", targs(rng)])
    if c < .85:
        return rng.choice([word(rng) + "::", "", word(rng) + targs(rng) + "::"]) + "operator" + rng.choice(OPS)
    if c < .92:
        return "(anonymous namespace)::" + word(rng) + rng.choice(["", "::" + word(rng)])
    if c < .94:
        return word(rng) + "(%s)::" % rng.choice(["int", "char const*, int", ""]) + word(rng)
    if c < .98:
        return rng.choice(["%s::{lambda()#1}::operator()", "<lambda(int)>::%s", "%s(int)::<lambda()>::operator()(void)", "%s::'lambda'(int)::operator()", "$_0::%s", "lambda$%s$3",
                           "<%s as core::ops::Drop>::drop", "crate::{impl#3}::%s<T>", "call_once{{%s}}", "_ZN4%s17h$LT$E"]) % word(rng)
    return word(rng) + "::" + word(rng) + "<%s>" % word(rng)


STRS = ["\"text\"", "\"a\\\"b)\"", "\"(((\"", "\"\\\\\"", "\"x\\n#3 0x1 in y ()\"", "\"Thread 3\"", "\"(\"", "\"...\"...", "\"at foo.c:3\""]


def gdb_args(rng, wrap):
    out = []
    for _ in range(rng.choice([0, 1, 2, 4, 7])):
        v = rng.choice(["0x%x" % rng.getrandbits(40), "%d" % rng.randrange(-99, 99), "<optimized out>", "<value optimized out>", "0x1 " + rng.choice(STRS),
                        "{a = 1, b = {c = 2}}", "{x = (y *) 0x3, z = %s}" % rng.choice(STRS), "(void (*)(int)) 0x%x <foo(bar)>" % rng.getrandbits(30), "...", "@0x7ff: 1", "97 'a'", "40 '('", "41 ')'", "34 '\"'", "39 '\\''", "92 '\\\\'", "0 '\\000'", "{41 ')', 40 '(' <repeats 20 times>}", "std::vector of length 0"])
        out.append("%s=%s" % (word(rng), v))
    sep = [", "] if not wrap else [", ", ",\n    ", ", "]
    s = "".join((rng.choice(sep) if i else "") + o for i, o in enumerate(out))
    if rng.random() < .03:
        s = "a=1, b=(2, c=\"x (truncated)"
        s = s[:-11] + "(truncated)"
    return "(" + s + ")"


def gdb_path(rng):
    if rng.random() < .15:
        return rng.choice(["/usr/src/debug/%s-1.0~rc1-2.fc40.x86_64/x.c", "/home/joe/My %s/x.c", "/tmp/a,b@%s.c", "../%s (1).cpp", "/x/%s#=%%$.h", "C:\\src\\%s.c", "/\xc3\xa9/%s.c", "./a:%s:c.h"]) % word(rng)
    return path(rng, [".c", ".cpp", ".h", ".cc", ""], AL + _s.digits + "_-.+").replace(" ", "")


LOCALS = ["No locals.", "        x = 3", "        s = \"#1 0x2 in y ()\"", "__PRETTY_FUNCTION__ = \"foo\"", "        p = {a = 1,\n          b = 2}", "No symbol table info available.",
          "        __FUNCTION__ = \"Thread 1\"", " #5 indented", "", "        v = <error: Cannot access memory at address 0x0>"]


def gdb_frame(rng, number, locs=True):
    f = {"function_name": None, "function_type": None, "number": number, "source_file": None, "source_line": M32, "signal_handler_called": 0, "address": M64, "library_name": None}
    t = "#%d" % number + rng.choice(["  ", "  ", " ", "   "])
    c = rng.random()
    if c < .07:
        f["signal_handler_called"] = 1
        t += "<signal handler called>"
    else:
        hasaddr = rng.random() < .75
        if hasaddr:
            f["address"] = addr(rng) if rng.random() < .97 else 0
            if f["address"] == M64:
                f["address"] = 3
            t += ("0x%016x" if rng.random() < .7 else "0x%x") % f["address"] + " in "
            if rng.random() < .05:
                t += rng.choice(["vtable for ", "non-virtual thunk to ", "virtual thunk to "])
        c = rng.random()
        if c < .12:
            f["function_name"] = "??"
            t += "??"
        else:
            f["function_name"] = cname(rng)
            # the operator, not its name, ends at a space; see the grammar's "space after operator"
            if rng.random() < .12 and "operator" not in f["function_name"] and f["function_name"][0] not in "(<":
                f["function_type"] = rng.choice(GDBTYPES)
                t += f["function_type"] + " "
            if rng.random() < .06 and "operator" not in f["function_name"]:
                f["function_name"] += " const"
            if rng.random() < .04 and "operator" not in f["function_name"]:
                f["function_name"] += rng.choice([" [clone .isra.0]", " [clone .cold]", " [clone .isra.0] [clone .part.12]"])
            t += f["function_name"]
        t += rng.choice([" ", " ", " ", "\n    "])
        t += gdb_args(rng, rng.random() < .3)
        c = rng.random()
        if c < .5 or not hasaddr:
            p = gdb_path(rng)
            f["source_line"] = rng.choice([rng.randrange(1, 5000), rng.randrange(1, 5000), 0, M32 - 1])
            t += rng.choice([" ", " ", "\n    "]) + "at %s:%d" % (p, f["source_line"])
            f["source_file"] = gdb_source(p)
        elif c < .8:
            p = rng.choice(["/lib64/libc.so.6", "/usr/lib/libfoo.so", "/usr/lib64/firefox/libxul.so", "/opt/app/plugin.so", "/lib/ld-linux.so.2", "/usr/bin/prog", "/usr/lib/python2.7/x.so.1"])
            t += rng.choice([" ", " ", "\n   "]) + "from " + p
            f["source_file"] = gdb_source(p)
    t += "\n"
    if locs:
        for _ in range(rng.choice([0, 0, 1, 2])):
            t += rng.choice(LOCALS) + "\n"
    return f, t


def gdb_source(p):
    i = p.find("/lib")
    if i >= 0 and (".so." in p[i:] or p[i:].endswith(".so")):
        return None
    return p


def gdb_number(t, fr):
    return t


def gen_gdb(rng):
    out = []
    pre = rng.choice(["", "[New Thread 3575]\n[Thread debugging using libthread_db enabled]\nCore was generated by `x'.\nProgram terminated with signal 11, Segmentation fault.\n",
                      "warning: foo #1\n", "Core was generated by `/usr/bin/x Thread 3'.\n", "\n\n"])
    if not pre.endswith("\n"):
        pre += "\n"
    if rng.random() < .1:
        pre = "x\n" + pre
    out.append(pre)
    crash = None
    if rng.random() < .75:
        crash, t = gdb_frame(rng, rng.choice([0, 0, 0, 1]))
        out.append(t)
    threads = []
    n = rng.choice([1, 1, 2, 3, 5])
    for i in range(n, 0, -1):
        th = {"number": i, "tid": M32, "frames": []}
        lwp, style = rng.randrange(1, 99999), rng.random()
        if rng.random() < .05:
            th["number"] = rng.choice([0, 2**31, M32])
        more = ""       # newer GDB: the name and the state
        if rng.random() < .4:
            more = rng.choice(["", ' "%s"' % rng.choice(["gmain", "my (name) x", 'a"b', "x)", ":", "Thread 3", "(LWP 4)", "", "pool-1/w \\", "n" * 70, "w " * 150])])
            more += rng.choice(["", "", " (Exiting)", " (Exiting, Name: x)"])
        if style < .6:
            h = "(Thread 0x%x (LWP %d)%s)" % (rng.getrandbits(44), lwp, more)
            th["tid"] = lwp
        elif style < .8:
            h = "(LWP %d%s)" % (lwp, more)
            th["tid"] = lwp
        else:
            h = "(Thread %d)" % lwp
        out.append("%sThread %d %s:\n" % (rng.choice(["\n", "\n", ""]), th["number"], h))
        if out[-1][0] == "T" and not out[-2].endswith("\n"):
            out.insert(-1, "\n")
        base = 0 if rng.random() < .95 else rng.randrange(1000)
        for j in range(rng.choice([1, 1, 2, 4, 9])):
            f, t = gdb_frame(rng, base + j)
            th["frames"].append(f)
            out.append(t)
        threads.append(th)
    libs = []
    if rng.random() < .4:
        out.append("From                To                  Syms Read   Shared Object Library\n")
        for _ in range(rng.choice([0, 1, 2, 6])):
            l = {"from": rng.getrandbits(48), "to": rng.getrandbits(48), "symbols": rng.randrange(3), "soname": "/usr/lib64/" + rng.choice(["libfoo.so.1", "lib x.so", "libc.so.6", word(rng)])}
            if rng.random() < .15:
                l["from"] = l["to"] = M64
                a = " " * 40
            else:
                a = rng.choice(["0x%016x  0x%016x  ", "0x%x 0x%x ", "0x%016x  0x%016x  "]) % (l["from"], l["to"])
            out.append(a + rng.choice(["", " "]) + {0: "Yes", 2: "Yes (*)", 1: "No"}[l["symbols"]] + rng.choice([" ", "         "]) + l["soname"] + "\n")
            libs.append(l)
        if rng.random() < .5:
            out.append("$1 = 0x0\nNo symbol \"__glib_assert_msg\" in current context.\n")
    return "".join(out), {"crash_tid": M32, "threads": threads, "crash": crash, "libs": libs}


GEN = {"gdb": gen_gdb, "koops": gen_koops, "python": gen_python, "ruby": gen_ruby, "js": gen_js, "java": gen_java}
