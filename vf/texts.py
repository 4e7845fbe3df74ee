"""Reference model of normalisation, hash texts and human-readable texts. The tables of known
helper functions are a copy of the documented ones (data/normalize.json)."""
import copy, hashlib, json, os
from . import gen

with open(os.path.join(os.path.dirname(__file__), "data", "normalize.json")) as f:
    TAB = json.load(f)
UNK = "<unknown>"


def u(s):
    return UNK if s is None else s


def listed(table, name, src, empty_matches=False):
    if name is None or name not in table:
        return False
    if empty_matches and not table[name]:
        return True
    return src is not None and any(x in src for x in table[name])


def is_exit(t, f):
    if t == "gdb":
        return listed(TAB["gdb_exit"], f["function_name"], f["source_file"])
    return listed(TAB["core_exit"], f["function_name"], f["file_name"], True)


def strip_prefix(name):
    if name is None:
        return name
    for p, k in (("IA__gdk", 4), ("IA__g_", 4), ("IA__gtk", 4), ("__GI_", 5)):
        if name.startswith(p):
            name = name[k:]
    return name


SUFFIX = ["_sse2", "_sse2_bsf", "_ssse3", "_ssse3_rep", "_ssse3_back", "_sse42", "_ia32"]


def unify(name, src):
    if name is None or src is None:
        return name
    for fn in TAB["arch"]:
        for s in SUFFIX:
            if name == "__" + fn + s:
                for x in (fn, "/sysdeps" if s == "_ia32" else "/sysdeps/", "libc.so"):
                    if x in src:
                        return fn
    return name


def anonymize(p):
    if p is None or not p.startswith("/home/"):
        return p
    k = p.find("/", 6)
    return p if k < 0 else "/home/anonymized" + p[k:]


def pair_unknown(a, b):
    """Renames, in both lists, the unknown functions standing between the same functions."""
    lib = lambda x, y: x["library_name"] is None or y["library_name"] is None or x["library_name"] == y["library_name"]
    name = lambda l, i: l[i]["function_name"]
    def ends(i, j):
        x, y = i + 1 < len(a), j + 1 < len(b)
        if not x or not y:
            return x == y
        return name(a, i + 1) == name(b, j + 1) != "??" and lib(a[i + 1], b[j + 1])
    k = 0
    for i in range(len(a)):
        if name(a, i) != "??":
            continue
        for j in range(len(b)):
            if name(b, j) != "??" or not lib(a[i], b[j]) or not ends(i, j) or (i == 0) != (j == 0):
                continue
            if i and not (name(b, j - 1) == name(a, i - 1) != "??" and lib(a[i - 1], b[j - 1])):
                continue
            a[i]["function_name"] = b[j]["function_name"] = "__unknown_function_%d" % k
            k += 1
            break


def normalize(t, th):
    """A normalised copy of the thread."""
    th = copy.deepcopy(th)
    fr = th["frames"]
    if t == "koops":
        for f in fr:
            if f["function_name"] is not None:
                f["function_name"] = f["function_name"].split(".", 1)[0]
        th["frames"] = [f for f in fr if f["module_name"] is not None or f["function_name"] not in TAB["koops"]]
        return th
    if t not in ("gdb", "core"):
        return th
    src = "source_file" if t == "gdb" else "file_name"
    ex = [i for i, f in enumerate(fr) if is_exit(t, f)]
    if ex:
        fr = fr[ex[-1] + 1:]
    for f in fr:
        if t == "core" or f[src] is not None:
            f["function_name"] = strip_prefix(f["function_name"])
    for f in fr:
        f["function_name"] = unify(f["function_name"], f[src])
    out = []
    for f in fr:
        if listed(TAB["above"], f["function_name"], f[src]) or is_exit(t, f):
            out = []
        elif not listed(TAB["removable"], f["function_name"], f[src]):
            out.append(f)
    if t == "core":
        for f in out:
            f["file_name"] = anonymize(f["file_name"])
    null = lambda f: f["address"] == 0 and f["function_name"] == ("??" if t == "gdb" else None)
    if out and null(out[0]):
        out.pop(0)
    if out and null(out[-1]):
        out.pop()
    fr, out = out, []
    for f in fr:
        if out and f["function_name"] is not None and f["function_name"] == out[-1]["function_name"] and not (t == "gdb" and f["function_name"] == "??"):
            continue
        if t == "gdb" and out and f["function_name"] is None and out[-1]["function_name"] is None:
            continue
        out.append(f)
    th["frames"] = out
    return th


def dup_line(t, f, compat):
    if t == "gdb":
        return " " + "".join(" " + x for x in (f["function_type"], f["function_name"], "<signal handler called>" if f["signal_handler_called"] else None)
                             if x is not None) + "\n"
    if t == "core":
        if f["build_id"] is not None:
            return "%s+0x%x\n" % (f["build_id"], f["build_id_offset"])
        if f["function_name"] is not None:
            return "  %s\n" % f["function_name"]
        if f["fingerprint"] is not None:
            return "%s+0x%x\n" % (f["fingerprint"], f["build_id_offset"])
        return "0x%x\n" % f["address"]
    if t == "java":
        return f["name"] + "\n" if f["name"] is not None else "%s/%s:%d\n" % (u(f["class_path"]), u(f["file_name"]), f["file_line"])
    if t == "koops":
        if compat and not f["reliable"]:
            return ""
        return f["function_name"] + "\n" if f["function_name"] is not None else "0x%x\n" % f["address"]
    return "%s:%d\n" % (u(f["file_name"]), f["file_line"])


NOHASH, NONORM, COMPAT = 2, 4, 8


def sha1(s):
    return hashlib.sha1(s.encode("latin-1")).hexdigest()


def duphash(t, th, n, prefix, flags):
    th = th if flags & NONORM else normalize(t, th)
    s = prefix or ""
    if not flags & COMPAT:
        s += "Thread\n"
    left = n or 10 ** 9
    for f in th["frames"]:
        if left <= 0:
            break
        l = dup_line(t, f, flags & COMPAT)
        s += l
        left -= bool(l)
    if flags & COMPAT and not s:
        return None
    return s if flags & NOHASH else sha1(s)


LETTERS = [("P", "module_proprietary"), ("F", "forced_module"), ("S", "smp_unsafe"), ("R", "forced_removal"), ("M", "mce"),
           ("B", "page_release"), ("U", "userspace"), ("D", "died_recently"), ("A", "acpi_overridden"), ("W", "warning"),
           ("C", "staging_driver"), ("I", "firmware_workaround"), ("O", "module_out_of_tree"), ("E", "unsigned_module"),
           ("L", "soft_lockup"), ("K", "live_patched")]


def bt_line(t, f):
    if t == "gdb":
        return "%s, %s, %d, %s, %d, %d, 0x%x, %s\n" % (u(f["function_name"]), u(f["function_type"]), f["number"], u(f["source_file"]),
                                                       f["source_line"], f["signal_handler_called"], f["address"], u(f["library_name"]))
    if t == "core":
        return "%s, %s+0x%x, %s, %s\n" % ("0x%x" % f["address"] if f["address"] else UNK, u(f["build_id"]), f["build_id_offset"],
                                          u(f["file_name"]), u(f["fingerprint"]))
    if t == "java":
        return "%s, %s, %d, %s, %d, %d, %s\n" % (u(f["name"]), u(f["file_name"]), f["file_line"], u(f["class_path"]), f["is_native"],
                                                 f["is_exception"], u(f["message"]))
    if t == "koops":
        return "0x%x, %d, %s, 0x%x, 0x%x, %s, 0x%x, %s, 0x%x, 0x%x, %s\n" % (
            f["address"], f["reliable"], u(f["function_name"]), f["function_offset"], f["function_length"], u(f["module_name"]),
            f["from_address"], u(f["from_function_name"]), f["from_function_offset"], f["from_function_length"], u(f["from_module_name"]))
    if t == "python":
        return "%s, %d, %d, %s, %d, %s\n" % (u(f["file_name"]), f["special_file"], f["file_line"], u(f["function_name"]),
                                             f["special_function"], u(f["line_contents"]))
    if t == "ruby":
        return "%s, %d, %s, %d, %d, %d\n" % (u(f["file_name"]), f["file_line"], u(f["function_name"]), f["special_function"],
                                             f["block_level"], f["rescue_level"])
    return "%s, %d, %s\n" % (u(f["file_name"]), f["file_line"], u(f["function_name"]))


def bt_text(t, o):
    s = ""
    if t == "gdb":
        s = "".join("%x-%x, %s\n" % (l["from"], l["to"], u(l["soname"])) for l in o["libs"]) + "\n"
    elif t == "core":
        s = "Executable: %s\nSignal: %d\n\n" % (u(o["executable"]), o["signal"])
    elif t == "koops":
        s = "Version: %s\nFlags: %s\nModules: %s\n\n" % (u(o["version"]), "".join(l for l, n in LETTERS if o["taint_" + n]),
                                                       ", ".join(o["modules"] or []))
    elif t != "java":
        s = "%s: %s\n\n" % ("Error" if t == "js" else "Exception", u(o["exception_name"]))
    parts = []
    for th in gen.threads(t, o):
        h = "Thread %d\n" % th["number"] if t == "gdb" else "Thread %s\n" % u(th["name"]) if t == "java" else ""
        parts.append(h + "".join(bt_line(t, f) for f in th["frames"]))
    return s + "\n".join(parts)


# Fields the canonical rendering of each type states, per level.
BT_FRAME = {
    "gdb": ["function_name", "function_type", "number", "source_file", "source_line", "signal_handler_called", "address", "library_name"],
    "core": ["address", "build_id", "build_id_offset", "file_name", "fingerprint"],
    "java": ["name", "file_name", "file_line", "class_path", "is_native", "is_exception", "message"],
    "koops": ["address", "reliable", "function_name", "function_offset", "function_length", "module_name", "from_address",
              "from_function_name", "from_function_offset", "from_function_length", "from_module_name"],
    "python": ["file_name", "special_file", "file_line", "function_name", "special_function", "line_contents"],
    "ruby": ["file_name", "file_line", "function_name", "special_function", "block_level", "rescue_level"],
    "js": ["file_name", "file_line", "function_name"],
}


def gdb_frame_text(f, verbose):
    s = " #%d" % f["number"] if verbose else " "
    if f["function_type"] is not None:
        s += " " + f["function_type"]
    if f["function_name"] is not None:
        s += " " + f["function_name"]
    if verbose and f["source_file"] is not None:
        if f["function_name"] is not None:
            s += " at"
        s += " " + f["source_file"]
        if f["source_line"] != 2 ** 32 - 1:
            s += ":%d" % f["source_line"]
    if f["signal_handler_called"]:
        s += " <signal handler called>"
    return s


def gdb_thread_text(th, verbose):
    s = "Thread no. %d (%d frames)\n" % (th["number"], len(th["frames"])) if verbose else "Thread\n"
    return s + "".join(gdb_frame_text(f, verbose) + "\n" for f in th["frames"])


def gdb_text(o, verbose):
    s = ""
    if verbose:
        s = "Thread count: %d\n" % len(o["threads"])
        if o["crash"]:
            s += "Crash frame: " + gdb_frame_text(o["crash"], True) + "\n"
    return s + "".join(gdb_thread_text(th, verbose) for th in o["threads"])


def angle(special, s):
    return "<%s>" % s if special else s


def frame_text(t, f, verbose=True):
    if t == "gdb":
        return gdb_frame_text(f, verbose)
    if t == "core":
        s = "[%s]" % f["file_name"].rsplit("/", 1)[-1] if f["file_name"] is not None else ""
        return s + (" " + f["function_name"] if f["function_name"] is not None else " %s+%d" % (u(f["build_id"]), f["build_id_offset"]))
    if t == "java":
        if f["is_exception"]:
            return (f["name"] or "") + (": " + f["message"] if f["message"] is not None else "")
        s = "\tat %s(" % (f["name"] or "")
        s += "Native Method" if f["is_native"] else "Unknown Source" if f["file_name"] is None else f["file_name"]
        if f["file_line"]:
            s += ":%d" % f["file_line"]
        s += ")"
        c = f["class_path"]
        if c is None:
            return s + " [unknown]"
        pos = lambda ch: c.index(ch) if ch in c else len(c)
        return s + " [" + ("file:" if pos(":") > pos("/") else "") + c + "]"
    if t == "koops":
        return ("[%s] " % f["special_stack"] if f["special_stack"] is not None else "") + ("" if f["reliable"] else "? ") + \
            ("??" if f["function_name"] is None else f["function_name"]) + (" in " + f["module_name"] if f["module_name"] is not None else "")
    fn = "??" if f["function_name"] is None else f["function_name"]
    if t == "python":
        s = ""
        if f["file_name"] is not None:
            s = "[%s%s]" % (angle(f["special_file"], f["file_name"]), ":%d" % f["file_line"] if f["file_line"] else "")
        return s + " " + angle(f["special_function"], fn)
    if t == "ruby":
        s = "rescue in " * f["rescue_level"]
        if f["block_level"] == 1:
            s += "block in "
        elif f["block_level"]:
            s += "block (%d levels) in " % f["block_level"]
        s += angle(f["special_function"], fn)
        if f["file_name"] is not None:
            s += " in " + f["file_name"] + (":%d" % f["file_line"] if f["file_line"] else "")
        return s
    loc = "%s:%d:%d" % (u(f["file_name"]), f["file_line"], f["line_column"])
    return "at " + (loc if f["function_name"] is None else "%s (%s)" % (f["function_name"], loc))


def find_crash(t, o):
    """Index of the crash thread, None when ambiguous, "many" when any of several is acceptable is
    never returned: ties are broken by comparing frames."""
    ths = gen.threads(t, o)
    if t == "java":
        return 0 if ths else None
    if t not in gen.MULTI:
        return 0
    if t == "core":
        if o["crash_thread"] >= 0:
            return o["crash_thread"]
        if len(ths) == 1:
            return 0
        for i, th in enumerate(ths):
            if any(is_exit("core", f) for f in th["frames"]):
                return i
        return None
    if not ths:
        return None
    if len(ths) == 1:
        return 0
    if o["crash_tid"] != 2 ** 32 - 1:
        for i, th in enumerate(ths):
            if th["tid"] == o["crash_tid"]:
                return i
    if not o["crash"] or o["crash"]["function_name"] is None:
        return None
    same = [i for i, th in enumerate(ths) if th["frames"] and th["frames"][0]["function_name"] == o["crash"]["function_name"]]
    if len(same) == 1:
        return same[0]
    ab = [i for i in same if any(is_exit("gdb", f) for f in ths[i]["frames"])]
    if len(ab) == 1:
        return ab[0]
    if not same:
        return None
    return ("least", same)


def libname(soname):
    s = soname.rsplit("/", 1)[-1]
    k = s.find(".so")
    return s if k < 0 else s[:k + 3]


def set_libnames(th, libs):
    for f in th["frames"]:
        if f["address"] == 2 ** 64 - 1:
            continue
        for l in libs:
            if l["from"] <= f["address"] <= l["to"]:
                f["library_name"] = libname(l["soname"])
                break


def optimized(th, libs, maxf):
    th = copy.deepcopy(th)
    set_libnames(th, libs)
    th = normalize("gdb", th)
    th["frames"] = [f for f in th["frames"] if f["function_name"] is not None and f["function_name"] != "main"]
    if maxf > 0:
        th["frames"] = th["frames"][:maxf]
    return th


def short_text(t, o, idx, maxf):
    if idx is None:
        return None
    th = gen.threads(t, o)[idx]
    if t == "gdb":
        return gdb_thread_text(optimized(th, o["libs"], maxf), True)
    fr = th["frames"][:maxf] if maxf else th["frames"]
    return "".join("#%d %s\n" % (i + 1, frame_text(t, f)) for i, f in enumerate(fr))


def reason(t, o):
    if t == "gdb":
        return None
    if t == "core":
        return "Program %s was terminated by signal %d" % (u(o["executable"]), o["signal"])
    if t == "java":
        exc, fl, line = UNK, UNK, 0
        fr = o["threads"][0]["frames"] if o["threads"] else []
        for f in fr:
            if f["is_exception"] and f["name"] is not None:
                exc = f["name"]
                break
        if fr and fr[-1]["file_name"] is not None:
            fl, line = fr[-1]["file_name"], fr[-1]["file_line"]
        return "Exception %s occurred in %s:%d" % (exc, fl, line)
    if t == "koops":
        n = normalize("koops", o)["frames"]
        fn = n[0]["function_name"] if n and n[0]["function_name"] is not None else UNK
        r = o["reason"]
        if r is None:
            s = "Kernel oops in " + fn
        elif "general protection fault: " in r:
            s = "general protection fault in " + fn
        elif "kernel paging request at" in r:
            s = "kernel paging request at " + fn
        else:
            s = r
        return s + (" [%s]" % n[0]["module_name"] if n and n[0]["module_name"] is not None else "")
    fr = o["frames"]
    f = (fr[-1] if t == "python" else fr[0]) if fr else None
    fl, line, col = (u(f["file_name"]), f["file_line"], f.get("line_column", 0)) if f else (UNK, 0, 0)
    if t == "js":
        return "%s at %s:%d:%d" % ("Error" if o["exception_name"] is None else o["exception_name"], fl, line, col)
    return "%s in %s:%d" % ("Unknown error" if o["exception_name"] is None else o["exception_name"], fl, line)
