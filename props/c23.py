"""C23: the Python bindings expose the C library faithfully and safely."""
import json, os, random, subprocess, sys, tempfile
from vf import build, driver, gen, mutate, pyref, traces
from vf.core import Check
from props import c03, c04
import importlib.util
_sp = importlib.util.spec_from_file_location("pyops", os.path.join(build.VERIF, "harness", "pyops.py"))
pyops = importlib.util.module_from_spec(_sp)
_sp.loader.exec_module(pyops)

NAME = {"gdb": "GdbStacktrace", "core": "CoreStacktrace", "java": "JavaStacktrace", "koops": "Kerneloops",
        "python": "PythonStacktrace", "ruby": "RubyStacktrace", "js": "JavaScriptStacktrace"}
FNAME = {"gdb": "GdbFrame", "core": "CoreFrame", "java": "JavaFrame", "koops": "KerneloopsFrame", "python": "PythonFrame",
         "ruby": "RubyFrame", "js": "JavaScriptFrame"}
TNAME = {"gdb": "GdbThread", "core": "CoreThread", "java": "JavaThread"}
KIND = {v: k for d in (NAME, FNAME, TNAME) for k, v in d.items()}
ATTR = {c: {} for c in pyops.ATTRS}
for t in gen.TYPES:
    ATTR[FNAME[t]] = dict(gen.FRAME[t])
ATTR["JavaFrame"]["function_name"] = "s"
ATTR["GdbThread"] = {"number": "u", "frames": "list"}
ATTR["CoreThread"] = {"frames": "list"}
ATTR["JavaThread"] = {"name": "s", "frames": "list"}
ATTR["GdbStacktrace"] = {"threads": "list", "libs": "list", "crashframe": "ro", "crash_thread": "ro"}
ATTR["CoreStacktrace"] = {"signal": "w", "executable": "s", "only_crash_thread": "b", "threads": "list", "crash_thread": "ro"}
ATTR["JavaStacktrace"] = {"threads": "list", "crash_thread": "ro"}
ATTR["Kerneloops"] = {"version": "s", "raw_oops": "s", "modules": "ro", "taint_flags": "ro", "frames": "list", "crash_thread": "ro"}
for c in ("PythonStacktrace", "RubyStacktrace", "JavaScriptStacktrace"):
    ATTR[c] = {"exception_name": "s", "frames": "list", "crash_thread": "ro"}
ATTR["GdbSharedlib"] = {"start_address": "q", "end_address": "q", "soname": "s", "symbols": "sym"}
ATTR["RpmPackage"] = {"name": "s", "epoch": "u", "version": "s", "release": "s", "architecture": "s", "install_time": "q", "role": "sym"}
ATTR["OperatingSystem"] = {"name": "s", "version": "s", "architecture": "s", "cpe": "s", "uptime": "q"}
ATTR["Report"] = {"reporter_name": "s", "reporter_version": "s", "user_root": "b", "user_local": "b", "component_name": "s",
                  "serial": "u", "report_version": "ro", "report_type": "type", "stacktrace": "st", "operating_system": "os",
                  "packages": "list", "auth": "ro"}
FR, TH, MU, SI = pyops.FRAMES, pyops.THREADS, pyops.MULTI, pyops.SINGLE
THREADLIKE = TH + SI
METHODS = {}
for c in FR:
    METHODS[c] = ["short_string", "equals", "dup"]
METHODS["GdbFrame"] += ["calls_func", "calls_func_in_file"]
for c in TH:
    METHODS[c] = ["equals", "distance", "get_duphash", "dup"] + (["quality_counts", "quality", "format_funs"] if c != "CoreThread" else [])
for c in SI:
    METHODS[c] = ["equals", "distance", "get_duphash", "dup", "to_short_text", "get_bthash"]
METHODS["Kerneloops"] += ["normalize"]
for c in MU:
    METHODS[c] = ["to_short_text", "get_bthash", "dup"]
METHODS["GdbStacktrace"] += ["find_crash_frame", "limit_frame_depth", "quality_simple", "quality_complex", "find_address",
                             "set_libnames", "normalize"]
METHODS.update(Report=["to_json"], Distances=["get_size", "get_distance", "set_distance", "dup"], DistancesPart=["compute"],
               Dendrogram=["get_size", "get_object", "get_merge_level", "cut"], GdbSharedlib=[], RpmPackage=[], OperatingSystem=[])
ALLM = sorted({m for l in METHODS.values() for m in l})
KOOPS_MODS = None


def pick(rng, classes):
    """One of the classes, of those the program is about if there are any."""
    th = getattr(rng, "theme", None)
    c = [x for x in classes if x in th] if th and rng.random() < .96 else []
    return rng.choice(c or list(classes))


def ustr(rng):
    s = gen.string(rng, rng.choice(["plain", "plain", "hostile"]))
    if rng.random() < .3:
        s += rng.choice(["\u00e9", "\u20ac", "\U0001f600", "\x7f", "\u0394"])
    return s


def num(rng, k=None):
    c = rng.random()
    if c < .55:
        return gen.integer(rng, k or rng.choice("uqwl"))
    if c < .75:
        return rng.choice([-1, 2**16, 2**16 - 1, 2**31, 2**31 - 1, -2**31, -2**31 - 1, 2**32, 2**32 - 1, 2**63, 2**63 - 1, 2**64, 2**64 - 1, -2**63, -2**64, 2**100])
    return rng.randrange(0, 6)


def junk(rng):
    """A value of some type that the callee may not want."""
    return rng.choice([None, True, False, {"$": "bytes", "s": "ab"}, {"$": "obj"}, {"$": "idx", "n": rng.choice([0, 1, 3, 2**40, -1])}, {"$": "badidx"},
                       {"$": "badbool"}, {"$": "floatlike"}, {"$": "strsub", "s": "sub"}, {"$": "surr"}, {"$": "float", "s": "1.5"},
                       {"$": "tuple", "x": [1, "a"]}, {"$": "dict"}, "", "x", "a\0b", 0, 1, -1, 2**64, [], [1, "a"]])


def evil(rng, cls):
    """A number whose conversion edits a list of an object of the class."""
    attrs = [a for a, k in ATTR.get(cls, {}).items() if k == "list"]
    if not attrs:
        return 1
    return {"$": "evil", "sel": find(rng, [cls]), "attr": rng.choice(attrs), "what": rng.choice(["clear", "drop", "junk", "rev"]), "n": rng.randrange(4)}


def selector(rng, classes=None, deep=.5):
    """An object somewhere in what the program holds."""
    s = {"k": rng.randrange(64)}
    if classes is not None:
        s["c"] = classes
    return s


INNER = {"frames": FR, "threads": TH, "libs": ["GdbSharedlib"], "packages": ["RpmPackage"]}


def find(rng, classes):
    """A selector that gets at an object of one of the classes, directly or through its owner."""
    c, x = list(classes), rng.random()
    paths = []
    if set(c) & set(FR):
        own = [k for k in THREADLIKE if FNAME[KIND[k]] in c]
        paths.append((own, [["frames", rng.randrange(9)]]))
        paths.append(([NAME[KIND[k]] for k in TH if k in own], [["threads", rng.randrange(5)], ["frames", rng.randrange(9)]]))
    if set(c) & set(TH):
        paths.append(([NAME[KIND[k]] for k in TH if k in c], [["threads", rng.randrange(5)]]))
    if "GdbSharedlib" in c:
        paths.append((["GdbStacktrace"], [["libs", rng.randrange(4)]]))
    if "RpmPackage" in c:
        paths.append((["Report"], [["packages", rng.randrange(4)]]))
    if "OperatingSystem" in c:
        paths.append((["Report"], [["operating_system", None]]))
    if set(c) & set(MU + SI):
        paths.append((["Report"], [["stacktrace", None]]))
    if not paths or x < .4:
        return dict(selector(rng, c), w=c)
    own, p = rng.choice(paths)
    return dict(selector(rng, own), p=p, w=c)


def value(rng, cls, attr):
    k = ATTR[cls][attr]
    if rng.random() < .25:
        return junk(rng)
    if k == "s":
        return ustr(rng)
    if k != "s" and k != "list" and rng.random() < .06:
        return evil(rng, cls if "frames" in ATTR[cls] or "threads" in ATTR[cls] else pick(rng, THREADLIKE + MU))
    if k == "b":
        return rng.choice([True, False, 0, 1, 2, -1])
    if k == "q":
        return None if rng.random() < .15 else num(rng, "q")
    if k == "sym":
        return rng.randrange(-1, 4)
    if k in "uwl":
        if cls == "RubyFrame" and attr in ("rescue_level", "block_level"):
            return rng.choice([-1, 0, 1, 2, 3, 40, 2**32])
        return num(rng, k)
    if k == "ro":
        return junk(rng)
    if k == "type":
        return rng.choice(["core", "python", "kerneloops", "java", "gdb", "ruby", "javascript", "invalid", "", "nosuch", "Core"])
    if k == "st":
        return rng.choice([None, {"$": "reg", "sel": selector(rng, MU + SI)}, {"$": "reg", "sel": selector(rng, MU + SI)},
                           {"$": "new", "c": rng.choice(MU + SI)}, {"$": "reg", "sel": selector(rng, FR + TH)}])
    if k == "os":
        return rng.choice([None, {"$": "new", "c": "OperatingSystem", "a": ["os", "1", "x86"]}, {"$": "reg", "sel": selector(rng, ["OperatingSystem"])},
                           {"$": "new", "c": "RpmPackage"}])
    assert k == "list"
    return [inner(rng, cls, attr) for _ in range(rng.randrange(4))]


def item_class(rng, cls, attr):
    if rng.random() < .06:
        return rng.choice([c for c in FR + TH + ["GdbSharedlib", "RpmPackage", "PythonStacktrace", "GdbStacktrace"]])
    if attr == "frames":
        return FNAME[KIND[cls]]
    return TNAME[KIND[cls]] if attr == "threads" else "GdbSharedlib" if attr == "libs" else "RpmPackage"


def fresh(rng, c):
    """A new object with a few fields set."""
    v = {"$": "new", "c": c, "set": []}
    for a, k in ATTR[c].items():
        if k in ("ro", "type", "st", "os"):
            continue
        if k == "list":
            if rng.random() < .7:
                v["set"].append([a, [fresh(rng, item_class(rng, c, a)) for _ in range(rng.randrange(4))]])
        elif rng.random() < .6:
            x = ustr(rng) if k == "s" else rng.randrange(2) if k in ("b", "sym") else rng.randrange(4) if c == "RubyFrame" else gen.integer(rng, k)
            v["set"].append([a, x])
    if rng.random() < .1:
        v["a"] = [text(rng, c)]
        v["set"] = v["set"][:2]
    return v


def inner(rng, cls, attr):
    return junk(rng) if rng.random() < .04 else fresh(rng, item_class(rng, cls, attr))


def text(rng, c):
    """An input for the constructor of the class."""
    if rng.random() < .08:
        return junk(rng)
    t = KIND.get(c)
    if c == "Report":
        return json_text(rng, c)
    if c == "CoreStacktrace":
        return json_text(rng, c)
    if t is None:
        return ustr(rng)
    if c in TNAME.values():
        x = traces.gen_gdb(rng)[0] if t == "gdb" else traces.gen_java(rng)[0] if t == "java" else ustr(rng)
        if t == "gdb" and "\nThread " in x:
            x = x[x.index("\nThread ") + 1:]
    elif c in FNAME.values():
        x = traces.GEN[t](rng)[0] if t != "core" else ""
        ls = x.split("\n")
        i = rng.randrange(len(ls))
        x = "\n".join(ls[i:i + rng.randrange(1, 4)])
        if t == "gdb":
            i = x.find("#")
            x = x[max(i, 0):]
        if t == "java" and rng.random() < .5:
            x = traces.java_frame(rng)[1]
        if t == "python":
            i = x.find("  File")
            x = x[max(i, 0):]
        if t == "js":
            i = x.find("at ")
            x = x[max(i, 0):]
    else:
        x = traces.GEN[t](rng)[0]
    if rng.random() < .15:
        x = mutate.mutate(rng, t, x) if t != "core" else x
    x = x.replace("\0", "")
    try:
        x = x.encode("latin-1").decode("utf-8")
    except (UnicodeDecodeError, UnicodeEncodeError):
        x = "".join(ch for ch in x if ord(ch) < 128)
    return x[:4000]


def small(rng, t):
    st = gen.stacktrace(rng, t, rng.choice(["plain", "hostile"]), maxt=3, maxf=4)
    if t == "ruby":
        for f in st["frames"]:
            f["rescue_level"] %= 40
    if t == "js":
        st["platform"] = rng.choice([0, 1, 0x10, 0x11])
    return st


def json_text(rng, c):
    if rng.random() < .06:
        return junk(rng)
    if c == "Report":
        t, r, st = c04.report(rng, c04.C04.ENUM, mode=rng.choice(["plain", "hostile"]))
        if t == "ruby":
            for f in st["frames"]:
                f["rescue_level"] %= 40
        x = json.dumps(c04.doc(t, r, st, r.get("reporter_name") or "satyr", r.get("reporter_version") or "1"), ensure_ascii=False)
    else:
        t = KIND[c]
        if t == "gdb":
            return rng.choice(["{}", "[]", "", '{"threads":[]}'])
        x = json.dumps(c03.doc(t, small(rng, t)), ensure_ascii=False)
    c = rng.random()
    if c < .06:
        x = x[:rng.randrange(len(x))]
    elif c < .12:
        ks = [i for i in range(len(x)) if x[i] in '":,[{}]0']
        i = rng.choice(ks)
        x = x[:i] + rng.choice(['"', "{", "[", "1", "null", "", "-", "1e3"]) + x[i + 1:]
    elif c < .16:
        x = x.replace("frames", rng.choice(["frame", "Frames"]), 1)
    return x


def args(rng, m, cls):
    """(positional, keyword) arguments for a method."""
    if rng.random() < .1:
        return [junk(rng) for _ in range(rng.randrange(4))], ({rng.choice(["m", "frames", "nosuch", "other"]): junk(rng)} if rng.random() < .3 else {})
    if rng.random() < .06 and m not in ("equals", "dup"):
        return ([{"$": "reg", "sel": find(rng, [cls])}] if m == "distance" else []) + [evil(rng, cls)], {}
    i = lambda: rng.choice([0, 1, 2, 3, 5, 10, -1, rng.randrange(20), 2**31 - 1, 2**31])
    reg = lambda cs: {"$": "reg", "sel": find(rng, cs)}
    if m == "equals":
        return [reg(FR if cls in FR else THREADLIKE if rng.random() < .2 else [cls])], {}
    if m == "distance":
        o = reg(THREADLIKE if rng.random() < .15 else [cls])
        d = rng.choice([0, 1, 2, 3, 1, 2, 3, -1, 4])
        return rng.choice([([o, d], {}), ([o], {"dist_type": d}), ([o], {}), ([], {"other": o, "dist_type": d})])
    if m == "get_duphash":
        n, f, p = rng.choice([0, 1, 2, 3, 5, 100]), rng.randrange(16), ustr(rng).lstrip("\1")
        return rng.choice([([], {}), ([n], {}), ([n, f], {}), ([n, f, p], {}), ([], {"flags": f}), ([], {"frames": n, "flags": f}), ([n], {"prefix": p})])
    if m in ("to_short_text", "get_bthash"):
        return rng.choice([([], {}), ([rng.choice([0, 1, 2, 3, 100])], {})])
    if m == "limit_frame_depth":
        return [i()], {}
    if m == "find_address":
        return [num(rng, "q")], {}
    if m == "calls_func":
        return [rng.choice(gen.WORDS)], {}
    if m == "calls_func_in_file":
        return [rng.choice(gen.WORDS), rng.choice(["", "a", ".c", "main"])], {}
    if m == "get_distance":
        return [rng.randrange(-1, 6), rng.randrange(-1, 7)], {}
    if m == "set_distance":
        return [rng.randrange(-1, 6), rng.randrange(-1, 7), {"$": "float", "s": rng.choice(["0", "1", "0.5", "0.25", "1e300", "-1", "0.1"])}], {}
    if m == "compute":
        return [{"$": "threads", "c": [rng.choice(THREADLIKE)], "x": [rng.randrange(64) for _ in range(rng.choice([2, 3, 4, 4, 4, 5]))]}], {}
    if m in ("get_object", "get_merge_level"):
        return [rng.randrange(-1, 6)], {}
    if m == "cut":
        return [{"$": "float", "s": rng.choice(["0", "0.3", "0.5", "1", "2", "-1"])}, rng.choice([0, 1, 1, 2, 3, -1])], {}
    return [], {}


def create(rng):
    c = rng.random()
    if c < .3:
        cl = pick(rng, list(NAME.values()))
        return ["new", cl, [text(rng, cl)], {}]
    if c < .5:
        cl = pick(rng, ["CoreStacktrace", "JavaStacktrace", "Kerneloops", "PythonStacktrace", "RubyStacktrace", "JavaScriptStacktrace"])
        return ["json", cl, [json_text(rng, cl)]]
    if c < (.75 if getattr(rng, "theme", None) and "Report" in rng.theme else .52):
        return ["new", "Report", [json_text(rng, "Report")] if rng.random() < .7 else [], {}]
    c = rng.uniform(.6, 1)
    if c < .7:
        cl = pick(rng, FR + TH + ["GdbThread", "JavaThread"])
        a = [text(rng, cl)] if rng.random() < .9 else [junk(rng)]
        if cl == "GdbThread" and rng.random() < .3:
            a.append(rng.choice([0, 1, True, None]))
        return ["new", cl, a, {}]
    if c < .74:
        cl = pick(rng, ["RpmPackage", "OperatingSystem", "GdbSharedlib"])
        a = [ustr(rng) for _ in range(3)]
        if cl == "RpmPackage":
            a = [ustr(rng), num(rng, "u"), ustr(rng), ustr(rng), ustr(rng)][:rng.randrange(6)]
        if rng.random() < .2:
            a = [junk(rng) for _ in range(rng.randrange(6))]
        return ["new", cl, a, {}]
    if c < (.95 if getattr(rng, "theme", None) and "Distances" in rng.theme else .75):
        n = rng.choice([2, 3, 4, 5])
        return ["distfill", rng.choice([n - 1, n - 1, n, 1]), n, [rng.choice(["0", "0.1", "0.25", "0.5", "0.5", "0.75", "1"]) for _ in range(10)]]
    return ["fresh", fresh(rng, pick(rng, list(NAME.values()) * 2 + FR + TH + ["Report", "GdbSharedlib"]))]


def step(rng):
    """-> list of operations"""
    c = rng.random()
    if c < .08:
        return [create(rng)]
    if c < .28:
        cls = pick(rng, [k for k in ATTR if ATTR[k]] + MU + SI + ["Report"])
        a = rng.choice(list(ATTR[cls]))
        x = rng.random()
        s = find(rng, [cls])
        if x < .08:
            return [["get", s, rng.choice([a, "nosuch"])]]
        if x < .14:
            return [["del", s, rng.choice([a, "nosuch"])]]
        if x < .16:
            return [["set", s, "nosuch", junk(rng)]]
        if ATTR[cls][a] == "list" and x < .35:
            return [["set", s, a, {"$": "items", "sel": s, "attr": a}]]
        return [["set", s, a, value(rng, cls, a)]]
    if c < .6:
        cls = pick(rng, [k for k in METHODS if METHODS[k]] + MU + SI + TH)
        m = rng.choice(METHODS[cls])
        if rng.random() < .02:
            m = rng.choice(ALLM)
        a, k = args(rng, m, cls)
        return [["call", find(rng, [cls]), m, a, k]]
    if c < .83:
        cls = pick(rng, THREADLIKE + MU * 2 + ["GdbStacktrace", "Report"])
        a = rng.choice([k for k, v in ATTR[cls].items() if v == "list"])
        s = find(rng, [cls])
        w = rng.choice(["append", "append", "insert", "extend", "put", "pop", "pop", "drop", "reverse", "clear", "swap", "replace", "slice", "again"])
        r = lambda: rng.randrange(12)
        x = {"append": lambda: [inner(rng, cls, a)], "insert": lambda: [r(), inner(rng, cls, a)],
             "extend": lambda: [[inner(rng, cls, a) for _ in range(rng.randrange(3))]], "put": lambda: [find(rng, INNER[a]), r()],
             "swap": lambda: [r(), r()], "slice": lambda: [r(), r()], "replace": lambda: [r(), inner(rng, cls, a)], "again": lambda: [r(), r()],
             "pop": lambda: [r()], "drop": lambda: [r()]}.get(w, lambda: [])()
        ops = [["lst", s, a, w] + x]
        if w == "again":
            ops += [["call", s, m, args(rng, m, cls)[0], {}] for m in rng.sample(METHODS[cls], min(2, len(METHODS[cls])))]
            if rng.random() < .8:
                ops.append(["lst", s, a, "undup"])
        return ops
    if c < .87:
        cs = THREADLIKE + TH + MU
        cl = pick(rng, cs)
        a = "threads" if cl in MU else "frames"
        return [["move", find(rng, [cl]), a, rng.randrange(9), find(rng, [cl] if rng.random() < .9 else cs), rng.randrange(9)]]
    if c < .9:
        return [["hold", find(rng, [pick(rng, FR + TH + ["GdbSharedlib", "RpmPackage", "OperatingSystem"])])]]
    if c < .93:
        return [["forget", rng.randrange(64)]]
    if c < .95:
        return [["str", find(rng, [pick(rng, FR + TH + MU + SI + ["GdbSharedlib", "RpmPackage", "OperatingSystem", "Report"])])]]
    if c < .96:
        return [["gc"]]
    if c < .965:
        return [["scall", rng.choice(["SingleThreadStacktrace", "MultiThreadStacktrace"] + MU + SI), "from_json", [rng.choice(["{}", "", '{"frames":[]}'])], {}]]
    if c < .967:
        return [["new", rng.choice(["BaseFrame", "BaseThread", "SingleThreadStacktrace", "MultiThreadStacktrace"]), [], {}]]
    if c < .975:
        return [["demangle", [rng.choice(["_Z3foov", "main", "_ZN1a1bEi", "", "\u00e9", "_Z" + "a" * 30]) if rng.random() < .8 else junk(rng)]]]
    return metric(rng)


def metric(rng):
    """Distances, parts, dendrograms."""
    cls = pick(rng, THREADLIKE)
    n = rng.choice([2, 3, 3, 4, 5])
    th = {"$": "threads", "c": [cls] if rng.random() < .95 else THREADLIKE, "x": [rng.randrange(64) for _ in range(n)]}
    x = rng.random()
    D = {"$": "reg", "sel": selector(rng, ["Distances"])}
    m = rng.choice([n - 1] * 6 + [n, 1, n + 3] * 2 + [0, -1])
    d = rng.choice([1, 2, 3] * 4 + [0, 4])
    if x < .35:
        a, k = rng.choice([([th, m], {}), ([th, m, d], {}), ([th, m], {"dist_type": d}), ([], {"threads": th, "m": m})])
        ops = [["new", "Distances", a, k]]
        if rng.random() < .7:
            ops.append(["matrix", selector(rng, ["Distances"])])
        if rng.random() < .5:
            ops.append(["new", "Dendrogram", [D], {}])
        if rng.random() < .5:
            ops.append(["dendro", selector(rng, ["Dendrogram"])])
        return ops
    if x < .75:
        k = rng.choice([1, 2, 3, 4, 7] * 3 + [0])
        a, kw = rng.choice([([n, k], {}), ([n, k, m], {}), ([n, k, m, d], {}), ([n, k], {"dist_type": d}), ([n, k], {"m": m})])
        ops = [["scall", "DistancesPart", "create", a, kw]]
        if rng.random() < .7:
            ops.insert(0, ["drop", ["DistancesPart"]])
        for i in range(rng.choice([k, k, k, k + 1, max(k - 1, 0)])):
            ops.append(["call", dict(selector(rng, ["DistancesPart"]), k=i), "compute", [th], {}])
        if rng.random() < .5:
            rng.shuffle(ops)
            ops.sort(key=lambda o: o[0] != "drop" and 1 + (o[0] != "scall"))
        if rng.random() < .5:
            ops.append(["part", selector(rng, ["DistancesPart"])])
        if rng.random() < .5:
            ops.append(["copy", selector(rng, ["DistancesPart"]), rng.choice(["deep", "copy", 0, 2, 4])])
        ops.append(["scall", "Distances", "merge_parts", [{"$": "regs", "c": ["DistancesPart"], "x": None if rng.random() < .8 else [rng.randrange(9) for _ in range(3)]}], {}])
        if rng.random() < .7:
            ops.append(["matrix", selector(rng, ["Distances"])])
        return ops
    if x < .85:
        f = lambda: {"$": "float", "s": rng.choice(["0", "0.5", "1"])}
        if rng.random() < .6:               # a part that could be
            mb = rng.randrange(n - 1)
            nb = rng.randrange(mb + 1, n)
            l = rng.randrange(n - nb + sum(n - 1 - i for i in range(mb + 1, n - 1)) + (rng.random() < .2) + 1)
            v = rng.choice([None, [f() for _ in range(l)], {"$": "evilfloats", "x": ["0.5"] * max(l - 1, 0), "at": rng.randrange(l + 1), "what": rng.choice(["clear", "drop", "junk", "rev"])}])
            return [["new", "DistancesPart", [n - 1, n, mb, nb, l, rng.choice([1, 2, 3]), rng.choice([0, 5, 2**32 - 1]), v], {}], ["part", selector(rng, ["DistancesPart"])]]
        l = rng.choice([0, 1, 2, 3, 2**40, 2**63])
        return [["new", "DistancesPart", [n - 1, n, rng.choice([0, 0, 1, -1, n]), rng.choice([1, 1, 2, 0, n]), l, d, rng.choice([0, 5, 2**32, -1]),
                                          None if rng.random() < .4 else [f() for _ in range(rng.choice([l if l < 9 else 2, 2]))] if rng.random() < .9 else junk(rng)], {}],
                ["part", selector(rng, ["DistancesPart"])]]
    return [["matrix", selector(rng, ["Distances"])], ["new", "Dendrogram", [D if rng.random() < .9 else junk(rng)], {}], ["dendro", selector(rng, ["Dendrogram"])]]


def program(rng):
    t, x = rng.choice(gen.TYPES + ["gdb"]), rng.random()
    rng.theme = None if x < .1 else [NAME[t], FNAME[t]] + ([TNAME[t]] if t in TNAME else []) + (["GdbSharedlib"] if t == "gdb" else [])
    if .1 <= x < .25 and t != "gdb":
        rng.theme += ["Report", "RpmPackage", "OperatingSystem"]
    if .25 <= x < .4:
        rng.theme += ["Distances", "DistancesPart", "Dendrogram"]
    ops = [create(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    if rng.random() < .3:                   # several stacktraces of one type, for the metrics
        cl = pick(rng, MU + SI)
        ops += [["fresh", fresh(rng, cl)] for _ in range(rng.randrange(2, 5))]
    for _ in range(rng.choice([3, 6, 10, 16, 25])):
        ops += step(rng)
    for _ in range(rng.choice([0, 0, 1]) if not .25 <= x < .4 else rng.randrange(1, 4)):
        ops += metric(rng)
    return ops


CONSTANTS = {"BTHASH_NORMAL": 1, "BTHASH_NOHASH": 2, "DISTANCE_JARO_WINKLER": 0, "DISTANCE_JACCARD": 1, "DISTANCE_LEVENSHTEIN": 2,
             "DISTANCE_DAMERAU_LEVENSHTEIN": 3, "DUPHASH_NORMAL": 1, "DUPHASH_NOHASH": 2, "DUPHASH_NONORMALIZE": 4, "DUPHASH_KOOPS_COMPAT": 8,
             "ROLE_UNKNOWN": 0, "ROLE_AFFECTED": 1, "SYMS_OK": 0, "SYMS_WRONG": 1, "SYMS_NOT_FOUND": 2}


class C23(Check):
    id = "C23"
    quick_n, thorough_n, chunk = 4000, 200000, 60
    rule = ("one case = a program of Python-level operations (constructors, attributes, list edits, methods, metrics; right and wrong values) run on "
            "the instrumented extension module and on a reference data model whose answers come from the C library; every outcome and every "
            "reachable attribute compared; distinct = (operation, outcome, kind of object) triples")
    technique = ("runtime monitoring: the extension module built with ASan+UBSan runs generated programs of Python operations; a reference data model "
                 "(its answers computed by the C library in a separate process) judges every outcome and every reachable attribute after each step; the "
                 "sanitizers watch memory, and the allocation balance of repeated programs shows leaks")
    assumptions = ["a frame is in one thread, an object once in a list (the same object twice must be refused)"]

    def setup(self):
        self.dir = build.pymodule("asan")
        self.drv = driver.Driver("asan")
        self.ref = None

    def make(self, rng, i):
        m = {"prog": program(rng), "every": rng.choice([1, 1, 1, 3, 1000])}
        # (unpickling itself leaves names in the interpreter's caches)
        if rng.random() < .3 and not any(o[0] == "copy" and isinstance(o[2], int) for o in m["prog"]):
            m["leak"] = 5
        return [["prog"]], m

    def fixed_cases(self):
        return [([["prog"]], {"surface": 1})]

    def worker(self, jobs):
        """-> results of the jobs that were completed, exit status, stderr"""
        env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
        env.update(driver.env_for())
        env.update(LD_PRELOAD=subprocess.check_output(["gcc", "-print-file-name=libasan.so"], text=True).strip(), PYTHONMALLOC="malloc",
                   PYMOD_DIR=self.dir, PYW_CPU=str(self.cpu), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        with tempfile.TemporaryFile() as out, tempfile.TemporaryFile() as err:
            p = subprocess.run([build.PY, os.path.join(build.VERIF, "harness", "pyworker.py")],
                               input="".join(json.dumps(j) + "\n" for j in jobs).encode(), stdout=out, stderr=err, env=env, timeout=1200)
            out.seek(0)
            err.seek(0)
            return [json.loads(l) for l in out if l.endswith(b"\n")], p.returncode, err.read().decode("utf8", "replace")

    def run_cases(self, cases, obs):
        out, jobs = [], [m for _, m in cases]
        res = [None] * len(jobs)
        k, lost = 0, 0
        while k < len(jobs):
            r, rc, err = self.worker(jobs[k:])
            res[k:k + len(r)] = r
            k += len(r)
            if k < len(jobs):
                if not rc:
                    raise build.HarnessError("worker stopped early: " + err[-2000:])
                if rc == 1 and "Traceback" in err:
                    raise build.HarnessError(err[-2000:])
                out.append(("crash", "the interpreter stopped with %s\n%s" % (driver.describe(rc, err), err[-2500:]), {"cmds": [["prog"]], "meta": jobs[k]}))
                res[k] = "crash"
                k += 1
                lost += 1
                if lost > 5:
                    break
        if self.ref is None:
            self.rpc = pyref.RPC(self.drv.prog)
            self.ref = sys.modules["satyr"] = pyref.module(self.rpc)
        for m, r in zip(jobs, res):
            if r is None:
                obs.count("cases not run after crashes")
                continue
            obs.count("cases")
            if r == "crash":
                continue
            for tag, detail in self.compare(m, r, obs):
                out.append((tag, detail, {"cmds": [["prog"]], "meta": m}))
        return out

    def compare(self, m, r, obs):
        if "surface" in m:
            r, miss = r["r"], []
            for c, attrs in ATTR.items():
                have = r.get(c, [])
                for a in list(attrs) + METHODS.get(c, []) + (["from_json"] if c in MU + SI else []):
                    obs.distinct([c, a])
                    if not isinstance(have, list) or a not in have:
                        miss.append("%s.%s" % (c, a))
            for c, v in CONSTANTS.items():
                obs.distinct([c, v])
                if r.get(c) != v:
                    miss.append("%s = %s" % (c, r.get(c)))
            if r.get("demangle_symbol") != "callable":
                miss.append("demangle_symbol")
            if miss:
                yield "surface", "the module lacks or gives other values to: %s" % ", ".join(miss)
            return
        M, every = pyops.Machine(self.ref), m["every"]
        prog = m["prog"]
        d = r.get("marks")
        if d:
            obs.count("programs repeated for the allocation balance")
            g = grown(d)
            if min(g) > 0:
                # what the interpreter's own caches do is not the same every time
                x, rc, err = self.worker([dict(m, leak=60)])
                if not x:
                    raise build.HarnessError(err[-2000:])
                g = grown(x[0]["marks"])
                if min(g) > 0:
                    yield "leak", "memory grows by %s bytes each time the program is run" % g
        try:
            for i, op in enumerate(prog):
                o = M.step(op)
                look = (i % every == every - 1 or i == len(prog) - 1) and o[0] != "skip" and op[0] not in pyops.QUIET
                s = M.snap() if look else None
                o, s = json.loads(json.dumps([o, s]))
                ro, rs = r["r"][i]
                what = "%s%s" % (op[0], ":" + str(op[2]) if op[0] in ("call", "scall", "get", "set", "del") else ":" + str(op[1]) if op[0] in ("new", "json") else
                                 ":%s:%s" % (op[2], op[3]) if op[0] == "lst" else "")
                if ro != o:
                    yield "outcome:" + what, "step %d %s\n  gave %s\n  expected %s" % (i, json.dumps(op)[:600], json.dumps(ro)[:9000], json.dumps(o)[:9000])
                    return
                if rs != s:
                    yield "state:" + what, "after step %d %s\n  %s" % (i, json.dumps(op)[:600], "\n  ".join(diff(rs, s)[:6]))
                    return
                if o[0] != "skip":
                    obs.count("operations")
                    obs.count("operations refused" if o[0] == "E" else "operations accepted")
                    obs.distinct([what, o[:2] if o[0] == "E" else "ok", type(o[-1]).__name__])
                    if s is not None:
                        obs.count("objects observed", len(s))
        except pyref.LibCrash as e:
            yield "lib-crash", "the C library stopped with %s\n%s\n%s" % (e.args[0], json.dumps(e.args[2])[:1500], e.args[1][:3000])


def grown(marks):
    return [b - a for a, b in zip(marks[1:], marks[2:])]


def diff(a, b, path=""):
    if type(a) is not type(b):
        return ["%s: %s, expected %s" % (path, json.dumps(a)[:200], json.dumps(b)[:200])]
    if isinstance(a, dict):
        out = []
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k) or (k in a) != (k in b):
                out += diff(a.get(k), b.get(k), path + "." + k)
        return out
    if isinstance(a, list):
        out = [] if len(a) == len(b) else ["%s: %d items, expected %d" % (path, len(a), len(b))]
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                out += diff(x, y, "%s[%d]" % (path, i))
        return out
    return [] if a == b else ["%s: %s, expected %s" % (path, json.dumps(a)[:300], json.dumps(b)[:300])]


CHECK = C23
