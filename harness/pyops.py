"""Interpreter of binding programs, run against the real extension module and against the reference
module: same operations, same observations."""
import copy, gc, json, operator, pickle

FRAMES = ["GdbFrame", "CoreFrame", "JavaFrame", "KerneloopsFrame", "PythonFrame", "RubyFrame", "JavaScriptFrame"]
THREADS = ["GdbThread", "CoreThread", "JavaThread"]
MULTI = ["GdbStacktrace", "CoreStacktrace", "JavaStacktrace"]
SINGLE = ["Kerneloops", "PythonStacktrace", "RubyStacktrace", "JavaScriptStacktrace"]
ATTRS = {
    "GdbFrame": ["function_name", "function_type", "number", "source_file", "source_line", "signal_handler_called",
                 "address", "library_name"],
    "CoreFrame": ["address", "build_id", "build_id_offset", "function_name", "file_name", "fingerprint", "fingerprint_hashed"],
    "JavaFrame": ["function_name", "name", "file_name", "file_line", "class_path", "is_native", "is_exception", "message"],
    "KerneloopsFrame": ["address", "reliable", "function_name", "function_offset", "function_length", "module_name",
                        "from_address", "from_function_name", "from_function_offset", "from_function_length",
                        "from_module_name", "special_stack"],
    "PythonFrame": ["special_file", "file_name", "file_line", "special_function", "function_name", "line_contents"],
    "RubyFrame": ["file_name", "file_line", "special_function", "function_name", "block_level", "rescue_level"],
    "JavaScriptFrame": ["file_name", "file_line", "line_column", "function_name"],
    "GdbThread": ["number", "frames"], "CoreThread": ["frames"], "JavaThread": ["name", "frames"],
    "GdbStacktrace": ["threads", "libs", "crashframe", "crash_thread"],
    "CoreStacktrace": ["signal", "executable", "only_crash_thread", "threads", "crash_thread"],
    "JavaStacktrace": ["threads", "crash_thread"],
    "Kerneloops": ["version", "raw_oops", "modules", "taint_flags", "frames", "crash_thread"],
    "PythonStacktrace": ["exception_name", "frames", "crash_thread"],
    "RubyStacktrace": ["exception_name", "frames", "crash_thread"],
    "JavaScriptStacktrace": ["exception_name", "frames", "crash_thread"],
    "GdbSharedlib": ["start_address", "end_address", "soname", "symbols"],
    "RpmPackage": ["name", "epoch", "version", "release", "architecture", "install_time", "role"],
    "OperatingSystem": ["name", "version", "architecture", "cpe", "uptime"],
    "Report": ["reporter_name", "reporter_version", "user_root", "user_local", "component_name", "serial", "report_version",
               "report_type", "stacktrace", "operating_system", "packages", "auth"],
    "Distances": [], "DistancesPart": [], "Dendrogram": [],
}
LISTS = {"frames": FRAMES, "threads": THREADS, "libs": ["GdbSharedlib"], "packages": ["RpmPackage"]}
MAXREGS = 26
PARSED = FRAMES + THREADS + MULTI + SINGLE + ["Report"]


class Idx:
    def __init__(self, n):
        self.n = n
    def __index__(self):
        return self.n


class BadIdx:
    def __index__(self):
        raise KeyError("index")


class BadBool:
    def __bool__(self):
        raise LookupError("bool")


class Evil:
    """A number that edits a list when it is converted."""
    def __init__(self, l, what, n):
        self.l, self.what, self.n = l, what, n
    def act(self):
        if self.what == "clear":
            self.l.clear()
        elif self.what == "drop":
            del self.l[1:]
        elif self.what == "junk":
            self.l.append(7)
        else:
            self.l.reverse()
    def __index__(self):
        self.act()
        return self.n
    def __float__(self):
        self.act()
        return float(self.n)
    def __bool__(self):
        self.act()
        return bool(self.n)


class StrSub(str):
    pass


class FloatLike:
    def __float__(self):
        return 2.5


class Skip(Exception):
    pass


def cname(o):
    n = type(o).__name__
    return n if n in ATTRS and type(o).__module__ not in ("pyops", "harness.pyops") else None


class Machine:
    def __init__(self, module):
        self.m = module
        self.regs = []

    # ---- values -------------------------------------------------------------
    def value(self, v):
        if isinstance(v, list):
            return [self.value(x) for x in v]
        if not isinstance(v, dict):
            return v
        k = v["$"]
        if k == "bytes":
            return v["s"].encode("latin-1")
        if k == "obj":
            return object()
        if k == "idx":
            return Idx(v["n"])
        if k == "badidx":
            return BadIdx()
        if k == "evil":
            return Evil(self.listof(v["sel"], v["attr"]), v["what"], v["n"])
        if k == "evilfloats":
            l = [float(x) for x in v["x"]]
            l.insert(v["at"], Evil(l, v["what"], 1))
            return l
        if k == "badbool":
            return BadBool()
        if k == "floatlike":
            return FloatLike()
        if k == "strsub":
            return StrSub(v["s"])
        if k == "surr":
            return "a\ud800b"
        if k == "float":
            return float(v["s"])
        if k == "tuple":
            return tuple(self.value(x) for x in v["x"])
        if k == "dict":
            return {"a": 1}
        if k == "new":
            return self.fresh(v)
        if k == "reg":
            return self.select(v["sel"])
        if k == "items":                       # a copy of somebody's list
            return list(self.listof(v["sel"], v["attr"]))
        if k == "threads":                     # objects usable as threads, from everywhere
            c = [o for o in self.reach() if cname(o) in v["c"]]
            if not c:
                raise Skip()
            return [c[i % len(c)] for i in v["x"]]
        if k == "regs":
            c = [o for o in self.regs if cname(o) in v["c"]]
            if not c:
                raise Skip()
            return [c[i % len(c)] for i in v["x"]] if v["x"] is not None else c
        raise ValueError(k)

    def fresh(self, v):
        o = getattr(self.m, v["c"])(*[self.value(a) for a in v.get("a", [])])
        for a, x in v.get("set", []):
            setattr(o, a, self.value(x))
        return o

    # ---- selection ----------------------------------------------------------
    def select(self, s):
        try:
            return self.follow(s)
        except Skip:
            # anything of the kind wanted, wherever it is
            c = [o for o in self.reach() if cname(o) in s.get("w", ())]
            if not c:
                raise
            return c[s["k"] % len(c)]

    def follow(self, s):
        c = [o for o in self.regs if not s.get("c") or cname(o) in s["c"]]
        if not c:
            raise Skip()
        o = c[s["k"] % len(c)]
        for a, i in s.get("p", []):
            if cname(o) is None or a not in ATTRS[cname(o)]:
                raise Skip()
            o = getattr(o, a)
            if i is not None:
                if not isinstance(o, list) or not o:
                    raise Skip()
                o = o[i % len(o)]
        return o

    def listof(self, s, attr):
        o = self.select(s)
        if cname(o) is None or attr not in ATTRS[cname(o)]:
            raise Skip()
        l = getattr(o, attr)
        if not isinstance(l, list):
            raise Skip()
        return l

    def reach(self):
        out, seen, todo = [], set(), list(reversed(self.regs))
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            out.append(o)
            for a in ATTRS.get(cname(o) or "", []):
                if a in LISTS or a in ("stacktrace", "operating_system", "crashframe"):
                    try:
                        v = getattr(o, a)
                    except Exception:
                        continue
                    todo += reversed([x for x in (v if isinstance(v, list) else [v]) if cname(x)])
        return out

    def placed(self, item, attr):
        for o in self.reach():
            if attr in ATTRS.get(cname(o) or "", []):
                if any(x is item for x in getattr(o, attr)):
                    return True
        return False

    def holders(self, lst):
        """How many objects share this very list."""
        return sum(1 for o in self.reach() for a in LISTS
                   if a in ATTRS.get(cname(o) or "", []) and getattr(o, a) is lst)

    # ---- observation --------------------------------------------------------
    def enc(self, v, seen):
        if v is None or isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v if abs(v) < 1 << 53 else {"i": str(v)}
        if isinstance(v, float):
            return {"f": "%.9g" % v}
        if isinstance(v, str):
            return v
        if isinstance(v, list):
            return [self.enc(x, seen) for x in v]
        if isinstance(v, tuple):
            return {"t": [self.enc(x, seen) for x in v]}
        if isinstance(v, dict):
            return {"d": sorted((k, self.enc(x, seen)) for k, x in v.items())}
        c = cname(v)
        if c is None:
            return {"T": type(v).__name__}
        if id(v) in seen:
            return {"seen": seen[id(v)][0]}
        seen[id(v)] = (len(seen), v)
        out = {"c": c, "n": seen[id(v)][0]}
        for a in ATTRS[c]:
            try:
                out[a] = self.enc(getattr(v, a), seen)
            except Exception as e:
                out[a] = {"E": type(e).__name__}
        if c in ("Distances", "DistancesPart", "Dendrogram"):
            out["str"] = str(v)
        return out

    def snap(self):
        seen = {}
        return [self.enc(o, seen) for o in self.regs]

    def push(self, v):
        n = 0
        for o in (v if isinstance(v, list) else [v]):
            if cname(o) and len(self.regs) < MAXREGS and not any(o is r for r in self.regs):
                self.regs.append(o)
                n += 1
        return n

    # ---- operations ---------------------------------------------------------
    def op_new(self, cls, args, kw):
        r = getattr(self.m, cls)(*[self.value(a) for a in args], **{k: self.value(v) for k, v in kw.items()})
        self.push(r)
        return cname(r)

    def op_fresh(self, v):
        r = self.fresh(v)
        self.push(r)
        return cname(r)

    def op_json(self, cls, args):
        r = getattr(self.m, cls).from_json(*[self.value(a) for a in args])
        self.push(r)
        return cname(r)

    def op_get(self, s, attr):
        return self.enc(getattr(self.select(s), attr), {})

    def op_set(self, s, attr, v):
        o = self.select(s)
        v = self.value(v)
        setattr(o, attr, v)
        return None

    def op_del(self, s, attr):
        delattr(self.select(s), attr)

    def op_call(self, s, method, args, kw):
        o = self.select(s)
        r = getattr(o, method)(*[self.value(a) for a in args], **{k: self.value(v) for k, v in kw.items()})
        k = self.push(r)
        return ["pushed", k] if k else self.enc(r, {})

    def op_scall(self, cls, method, args, kw):
        r = getattr(getattr(self.m, cls), method)(*[self.value(a) for a in args], **{k: self.value(v) for k, v in kw.items()})
        k = self.push(r)
        return ["pushed", k] if k else self.enc(r, {})

    def op_lst(self, s, attr, what, *x):
        l = self.listof(s, attr)
        if what == "append":
            l.append(self.value(x[0]))
        elif what == "insert":
            l.insert(x[0] % (len(l) + 1), self.value(x[1]))
        elif what == "extend":
            l.extend([self.value(v) for v in x[0]])
        elif what == "again":                   # the same object a second time
            if not l:
                raise Skip()
            l.insert(x[1] % (len(l) + 1), l[x[0] % len(l)])
        elif what == "put":                     # an object held elsewhere, if it is in no such list yet
            o = self.select(x[0])
            if cname(o) is None or (attr in ("frames", "threads") and (self.placed(o, attr) or self.holders(l) > 1)):
                raise Skip()
            if attr == "frames" and cname(o) not in FRAMES:
                raise Skip()
            l.insert(x[1] % (len(l) + 1), o)
        elif what == "pop":
            if not l:
                raise Skip()
            self.push(l.pop(x[0] % len(l)))
        elif what == "drop":
            if not l:
                raise Skip()
            del l[x[0] % len(l)]
        elif what == "reverse":
            l.reverse()
        elif what == "clear":
            l.clear()
        elif what == "swap":
            if len(l) < 2:
                raise Skip()
            i, j = x[0] % len(l), x[1] % len(l)
            l[i], l[j] = l[j], l[i]
        elif what == "replace":
            if not l:
                raise Skip()
            l[x[0] % len(l)] = self.value(x[1])
        elif what == "slice":
            i, j = sorted((x[0] % (len(l) + 1), x[1] % (len(l) + 1)))
            l[i:j] = []
        elif what == "undup":                   # repair: every object once, wrong items out
            u = []
            for o in l:
                if cname(o) in LISTS[attr] and not any(o is y for y in u):
                    u.append(o)
            l[:] = u
        else:
            raise ValueError(what)
        return len(l)

    def op_move(self, s, attr, i, t, j):
        a, b = self.listof(s, attr), self.listof(t, attr)
        if not a or (attr in ("frames", "threads") and self.holders(b) > 1):
            raise Skip()
        o = a[i % len(a)]
        if attr in ("frames", "threads") and sum(1 for y in a if y is o) > 1:
            raise Skip()
        del a[i % len(a)]
        b.insert(j % (len(b) + 1), o)
        return [len(a), len(b)]

    def op_hold(self, s):
        return self.push(self.select(s))

    def op_forget(self, k):
        if self.regs:
            del self.regs[k % len(self.regs)]
        return len(self.regs)

    def op_drop(self, classes):
        self.regs = [o for o in self.regs if cname(o) not in classes]
        return len(self.regs)

    def op_str(self, s):
        return str(self.select(s))

    def op_gc(self):
        gc.collect()

    def op_copy(self, s, how):
        o = self.select(s)
        r = copy.deepcopy(o) if how == "deep" else copy.copy(o) if how == "copy" else pickle.loads(pickle.dumps(o, how))
        self.push(r)
        return cname(r)

    def op_matrix(self, s):
        d = self.select(s)
        m, n = d.get_size()
        return ["%d-%d" % (m, n)] + ["%.9g" % d.get_distance(i, j) for i in range(m) for j in range(n)]

    def op_distfill(self, m, n, vals):
        d = self.m.Distances(m, n)
        m, n = d.get_size()
        it = 0
        for i in range(m):
            for j in range(i + 1, n):
                d.set_distance(i, j, float(vals[it % len(vals)]))
                it += 1
        self.push(d)
        return [m, n]

    def op_dendro(self, s):
        d = self.select(s)
        n = d.get_size()
        return [n, [d.get_object(i) for i in range(n)], ["%.9g" % d.get_merge_level(i) for i in range(n - 1)]]

    def op_part(self, s):
        p = self.select(s)
        f, a = p.__reduce__()
        return [f is self.m.DistancesPart, self.enc(a, {})]

    def op_demangle(self, args):
        return self.m.demangle_symbol(*[self.value(a) for a in args])

    def step(self, op):
        try:
            r = OPS[op[0]](self, *op[1:])
            return ["ok", r]
        except Skip:
            return ["skip"]
        except Exception as e:
            k = type(e).__name__
            # what a constructor says about the text it refuses is the library's message
            if k == "ValueError" and op[0] in ("new", "json") and op[1] in PARSED and "null character" not in str(e):
                return ["E", k, str(e)]
            return ["E", k]

    def run(self, prog, every=1):
        out = []
        for i, op in enumerate(prog):
            r = self.step(op)
            look = (i % every == every - 1 or i == len(prog) - 1) and r[0] != "skip" and op[0] not in QUIET
            out.append([r, self.snap() if look else None])
        return out

    def release(self):
        """Drops the objects one by one, in the order they were made."""
        while self.regs:
            self.regs.pop(0)
        gc.collect()


QUIET = ("get", "str", "matrix", "dendro", "part", "demangle", "gc")
OPS = {n[3:]: f for n, f in vars(Machine).items() if n.startswith("op_")}
