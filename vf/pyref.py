"""Reference implementation of the Python bindings' data model: plain Python objects, with the driver
process answering what the C library computes from the object's current contents."""
import copy, json, operator, os, struct, subprocess, tempfile
from . import build, driver, gen


class LibCrash(BaseException):
    """The C library itself stopped; BaseException-like handling is up to the caller."""


class RPC:
    """A driver process answering one case at a time."""
    def __init__(self, prog):
        self.prog, self.p = prog, None
    def start(self):
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.prog], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=driver.env_for(extra={"DRV_CPU": "20"}))
    def __call__(self, *cmds):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write(driver.encode(cmds))
            self.p.stdin.flush()
            n = self.p.stdout.readline()
            data = self.p.stdout.read(int(n) + 1)
            return json.loads(data[:-1].decode("latin-1"))
        except (ValueError, OSError):
            rc = self.p.wait()
            self.err.seek(0)
            e = self.err.read().decode("utf8", "replace")
            self.p = None
            if rc == 99:
                raise build.HarnessError(e[-2000:])
            raise LibCrash(driver.describe(rc, e), e[:6000], [[driver.b(a)[:300].decode("latin-1") for a in c] for c in cmds])
    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


def module(rpc):
    """The reference module, a namespace of classes."""
    # ---- conversions --------------------------------------------------------
    def as_long(v):
        n = operator.index(v)
        if not -(1 << 63) <= n < 1 << 63:
            raise OverflowError
        return n
    def as_str(v):
        if not isinstance(v, str):
            raise TypeError
        b = v.encode("utf-8")
        if b"\0" in b:
            raise ValueError("embedded null character")
        return b.decode("latin-1")
    def out_str(s):
        return None if s is None else s.encode("latin-1").decode("utf-8")
    def as_float(v):
        if isinstance(v, float):
            return v
        if isinstance(v, (str, bytes)):
            raise TypeError
        if hasattr(v, "__float__"):
            return float(v)
        return float(operator.index(v))
    def c_float(d):
        try:
            return struct.unpack("f", struct.pack("f", d))[0]
        except OverflowError:
            return float("inf") if d > 0 else float("-inf")
    def conv(code, v):
        if code == "s":
            return as_str(v)
        if code == "i":
            n = as_long(v)
            if not -(1 << 31) <= n < 1 << 31:
                raise OverflowError
            return n
        if code == "I":
            return operator.index(v) & 0xffffffff
        if code == "K":
            if not isinstance(v, int):
                raise TypeError
            return v & (1 << 64) - 1
        if code == "f":
            return c_float(as_float(v))
        if code == "O":
            return v
        if isinstance(code, type):
            if not isinstance(v, code):
                raise TypeError
            return v
        raise AssertionError(code)
    def parse(codes, args, need=None, kw=None, names=None):
        need = len(codes) if need is None else need
        kw = kw or {}
        if names is None:
            if kw or not need <= len(args) <= len(codes):
                raise TypeError
            return [conv(c, a) for c, a in zip(codes, args)] + [None] * (len(codes) - len(args))
        if len(args) + len(kw) > len(codes):
            raise TypeError
        out, used = [], 0
        for i, (c, nm) in enumerate(zip(codes, names)):
            if i < len(args):
                out.append(conv(c, args[i]))
            elif nm in kw:
                used += 1
                out.append(conv(c, kw[nm]))
            elif i < need:
                raise TypeError
            else:
                out.append(None)
        if used != len(kw):
            raise TypeError
        return out
    def noargs(a, k):
        if a or k:
            raise TypeError
    def no_del(*a):
        raise TypeError

    # ---- attributes ---------------------------------------------------------
    def attribute(name, kind):
        def get(self):
            v = self._s[name]
            if kind == "s":
                return out_str(v)
            if kind == "b":
                return bool(v)
            if kind == "q":
                return None if v == (1 << 64) - 1 else v
            return v
        def put(self, v):
            if kind == "s":
                v = as_str(v)
            elif kind == "b":
                v = int(bool(v))
            elif kind == "q":
                if v is None:
                    v = (1 << 64) - 1
                else:
                    v = operator.index(v)
                    if not 0 <= v < 1 << 64:
                        raise OverflowError
            else:
                v = as_long(v)
                if kind == "w" and not 0 <= v < 1 << 16 or kind == "u" and not 0 <= v < 1 << 32:
                    raise ValueError
                if kind == "sym" and v not in (0, 1, 2) or kind == "role" and v not in (0, 1):
                    raise ValueError
            self._s[name] = v
        return property(get, put, no_del)
    def list_attribute(name):
        def put(self, v):
            if not isinstance(v, list):
                raise TypeError
            setattr(self, "_" + name, v)
        return property(lambda self: getattr(self, "_" + name), put, no_del)
    def raising(get, exc):
        def bad(self, *a):
            raise exc
        return property(get, bad, bad)
    def check_list(items, cls):
        for o in items:
            if not isinstance(o, cls):
                raise TypeError
    def check_twice(items):
        if len({id(o) for o in items}) != len(items):
            raise ValueError

    # ---- what the library answers -------------------------------------------
    def spec(t, st):
        return driver.spec(gen.build_spec(st))
    def ask(t, st, *cmds):
        """Results of the commands on a stacktrace built in slot 0."""
        return rpc(["build", 0, t, spec(t, st)], *cmds)[1:]
    _defaults = {}
    def blank(t):
        if t not in _defaults:
            s = {"threads": [{"frames": [{}]}]} if t in gen.MULTI else {"frames": [{}]}
            _defaults[t] = rpc(["build", 0, t, driver.spec(s)], ["?dump", 0], ["build", 1, t, b"{}"], ["?dump", 1])
        d = _defaults[t]
        one, empty = copy.deepcopy(d[1]), copy.deepcopy(d[3])
        th = (one["threads"] if t in gen.MULTI else [one])[0]
        f = th["frames"][0]
        th["frames"] = []
        return empty, th, f
    class B:
        def __init__(self, *a):
            raise TypeError
    new = object.__new__

    # ---- frames -------------------------------------------------------------
    class BaseFrame(B):
        def short_string(self, *a, **k):
            noargs(a, k)
            return out_str(ask(self._t, one_frame(self), ["fstr", 0, 0, 0])[0])
        def equals(self, *a, **k):
            o, = parse([BaseFrame], a, None, k)
            if type(o) is not type(self):
                return False
            return rpc(["build", 0, self._t, spec(self._t, one_frame(self))], ["build", 1, self._t, spec(self._t, one_frame(o))],
                       ["fcmp", 0, 0, 0, 1, 0, 0])[2][0] == 0
        def dup(self, *a, **k):
            noargs(a, k)
            return mkframe(type(self), copy.deepcopy(self._s))
    def mkframe(cls, s):
        f = new(cls)
        f._s = s
        return f
    def one_frame(f):
        empty, th, _ = blank(f._t)
        th["frames"] = [dict(f._s)]
        return dict(empty, threads=[th]) if f._t in gen.MULTI else th
    def frame_class(name, t, kind):
        def init(self, *a, **k):
            text = parse(["s"], a, 0)[0] if kind else None
            if text is None:
                self._s = blank(t)[2]
                return
            r = rpc(["parsef", kind, text])[0]
            if not r["ok"]:
                raise ValueError("Failed to parse the frame." if t == "koops" else out_str(r["loc"]["message"]))
            self._s = r["frames"][0]
        d = {"__init__": init, "_t": t}
        for n, k in gen.FRAME[t]:
            d[n] = attribute(n, k)
        if t == "java":
            d["function_name"] = d["name"]
        return type(name, (BaseFrame,), d)
    F = {}
    for name, t, kind in (("GdbFrame", "gdb", "gdb"), ("CoreFrame", "core", None), ("JavaFrame", "java", "java"),
                          ("KerneloopsFrame", "koops", "koops"), ("PythonFrame", "python", "python"),
                          ("RubyFrame", "ruby", "ruby"), ("JavaScriptFrame", "js", "js")):
        F[t] = frame_class(name, t, kind)

    def text_of(f):
        """str() of a frame, as bytes in latin-1."""
        s, o = f._s, ""
        h = lambda v: "[0x%016x] " % v
        if f._t == "gdb":
            o = "Frame #%d: " % s["number"]
            n = s["function_name"]
            o += "signal handler" if n is None else "unknown function" if n.startswith("??") else "function " + n
            if s["address"] != (1 << 64) - 1:
                o += " @ 0x%016x" % s["address"]
            if s["library_name"] is not None:
                o += " (%s)" % s["library_name"]
        elif f._t == "core":
            if s["address"]:
                o += h(s["address"])
            if s["function_name"] is not None:
                o += s["function_name"] + " "
            if s["build_id"] is not None:
                o += "%s+0x%x " % (s["build_id"], s["build_id_offset"])
            if s["file_name"] is not None:
                o += "[%s] " % s["file_name"]
            if s["fingerprint"] is not None:
                o += "fingerprint: %s (%shashed)" % (s["fingerprint"], "" if s["fingerprint_hashed"] else "not ")
        elif f._t == "java":
            if s["is_exception"]:
                o = (s["name"] or "") + (": " + s["message"] if s["message"] is not None else "")
            else:
                o = "\t"
                if s["name"] is not None:
                    o += "at " + s["name"]
                if s["file_name"] is not None:
                    o += "(" + s["file_name"]
                if s["file_line"]:
                    o += ":%d" % s["file_line"]
                if s["is_native"]:
                    o += "(Native Method"
                o += ")"
        elif f._t == "koops":
            if s["special_stack"] is not None:
                o += "[%s] " % s["special_stack"]
            def part(p):
                x = h(s[p + "address"]) if s[p + "address"] else ""
                if not p and not s["reliable"]:
                    x += "? "
                x += s[p + "function_name"] or ""
                if s[p + "function_offset"]:
                    x += "+0x%x" % s[p + "function_offset"]
                if s[p + "function_length"]:
                    x += "/0x%x" % s[p + "function_length"]
                if s[p + "module_name"] is not None:
                    x += " [%s]" % s[p + "module_name"]
                return x
            o += part("")
            if s["from_function_name"] is not None or s["from_address"]:
                o += " from "
            o += part("from_")
        elif f._t == "python":
            w = lambda sp, v: ("<%s>" if sp else "%s") % v
            if s["file_name"] is not None:
                o += "File \"%s\"" % w(s["special_file"], s["file_name"])
            if s["file_line"]:
                o += ", %d" % s["file_line"]
            if s["function_name"] is not None:
                o += ", in " + w(s["special_function"], s["function_name"])
            if s["line_contents"] is not None:
                o += "\n    " + s["line_contents"]
        elif f._t == "ruby":
            o = s["file_name"] or ""
            if s["file_line"]:
                o += ":%d" % s["file_line"]
            if s["function_name"] is not None:
                o += ":in `" + "rescue in " * s["rescue_level"]
                o += "block in " if s["block_level"] == 1 else "block (%d levels) in " % s["block_level"] if s["block_level"] else ""
                o += ("<%s>'" if s["special_function"] else "%s'") % s["function_name"]
        else:
            o = "at " + (s["function_name"] + " (" if s["function_name"] is not None else "")
            o += (s["file_name"] if s["file_name"] is not None else "<unknown>") + ":%d:%d" % (s["file_line"], s["line_column"])
            o += ")" if s["function_name"] is not None else ""
        return out_str(o)
    BaseFrame.__str__ = text_of

    def calls_func(self, *a, **k):
        n, = parse(["s"], a, None, k)
        # whatever the source file
        return int(self._s["function_name"] == n)
    def calls_func_in_file(self, *a, **k):
        n, f = parse(["s", "s"], a, None, k)
        return int(self._s["function_name"] == n and self._s["source_file"] is not None and f in self._s["source_file"])
    F["gdb"].calls_func = calls_func
    F["gdb"].calls_func_in_file = calls_func_in_file

    # ---- threads ------------------------------------------------------------
    class BaseThread(B):
        frames = list_attribute("frames")
        def _prep(self):
            check_list(self._frames, F[self._t])
            check_twice(self._frames)
        def _thread(self):
            """The specification of this thread alone."""
            return dict(self._s, frames=[dict(f._s) for f in self._frames])
        def _alone(self):
            return dict(blank(self._t)[0], threads=[self._thread()]) if self._t in gen.MULTI else self._thread()
        def equals(self, *a, **k):
            o, = parse([BaseThread], a, None, k)
            if type(o) is not type(self):
                return False
            self._prep()
            o._prep()
            return rpc(["build", 0, self._t, spec(self._t, self._alone())], ["build", 1, self._t, spec(self._t, o._alone())],
                       ["tcmp", 0, 0, 1, 0])[2] == 0
        def distance(self, *a, **k):
            o, d = parse([BaseThread, "i"], a, 1, k, ["other", "dist_type"])
            self._prep()
            o._prep()
            if type(o) is not type(self):
                raise TypeError
            d = 2 if d is None else d
            if not 0 <= d <= 3:
                raise ValueError
            return float(rpc(["build", 0, self._t, spec(self._t, self._alone())], ["build", 1, self._t, spec(self._t, o._alone())],
                             ["distance", d, 0, 0, 1, 0])[2])
        def get_duphash(self, *a, **k):
            n, fl, p = parse(["i", "i", "s"], a, 0, k, ["frames", "flags", "prefix"])
            self._prep()
            r = ask(self._t, self._alone(), ["duphash", 0, 0, n or 0, "\x01" if p is None else p, fl or 0])[0]
            if r is None:
                raise RuntimeError
            return out_str(r)
    def mkthread(cls, d):
        t = new(cls)
        load_thread(t, d)
        return t
    def load_thread(t, d):
        d = dict(d)
        t._frames = [mkframe(F[t._t], f) for f in d.pop("frames")]
        t._s = d
    def thread_class(name, t):
        def init(self, *a, **k):
            if t == "core":
                text = None
            elif t == "gdb":
                text, only = parse(["s", "i"], a, 0)
            else:
                text, = parse(["s"], a, 0)
            if text is None:
                self._s, self._frames = blank(t)[1], []
                del self._s["frames"]
                return
            kind = "java_thread" if t == "java" else "gdb_funs" if only else "gdb_thread"
            r = rpc(["parsex", 0, kind, text], ["?dump", 0])
            if not r[0]["ok"]:
                raise ValueError(out_str(r[0]["loc"]["message"]))
            load_thread(self, r[1])
        def dup(self, *a, **k):
            noargs(a, k)
            self._prep()
            return mkthread(type(self), copy.deepcopy(self._thread()))
        def counts(self, *a, **k):
            noargs(a, k)
            self._prep()
            return tuple(ask(t, self._alone(), ["tquality", 0, 0])[0][:2])
        def quality(self, *a, **k):
            noargs(a, k)
            self._prep()
            return float(ask(t, self._alone(), ["tquality", 0, 0])[0][2])
        def funs(self, *a, **k):
            noargs(a, k)
            self._prep()
            return out_str(ask(t, self._alone(), ["tfuns", 0, 0])[0])
        def text(self):
            n = len(self._frames)
            if t == "gdb":
                return "Thread #%d with %d frames" % (self._s["number"], n)
            nm = self._s["name"] if t == "java" else None
            return out_str("Thread%s with %d frames" % (" " + nm if nm is not None else "", n))
        d = {"__init__": init, "_t": t, "dup": dup, "__str__": text}
        if t != "core":
            d.update(quality_counts=counts, quality=quality, format_funs=funs)
        if t == "gdb":
            d["number"] = attribute("number", "u")
        if t == "java":
            d["name"] = attribute("name", "s")
        return type(name, (BaseThread,), d)
    T = {t: thread_class(n, t) for n, t in (("GdbThread", "gdb"), ("CoreThread", "core"), ("JavaThread", "java"))}

    # ---- single-threaded stacktraces ----------------------------------------
    class SingleThreadStacktrace(BaseThread):
        crash_thread = raising(lambda self: self, AttributeError)
        def to_short_text(self, *a, **k):
            n, = parse(["i"], a, 0, k)
            self._prep()
            r = ask(self._t, self._alone(), ["short", 0, n or 0])[0]
            if r is None:
                raise LookupError
            return out_str(r)
        def get_bthash(self, *a, **k):
            n, = parse(["i"], a, 0, k)
            self._prep()
            r = ask(self._t, self._alone(), ["bthash", 0, n or 0])[0]
            if r is None:
                raise RuntimeError
            return out_str(r)
        def dup(self, *a, **k):
            noargs(a, k)
            self._prep()
            return mkthread(type(self), copy.deepcopy(self._thread()))
        @classmethod
        def from_json(cls, *a, **k):
            text, = parse(["s"], a, None, k)
            if cls is SingleThreadStacktrace:
                raise TypeError
            r = rpc(["fromjson", 0, cls._t, text], ["?dump", 0])
            if not r[0]["ok"]:
                raise ValueError(out_str(r[0]["err"]))
            return mkthread(cls, r[1])
    def single_class(name, t, label):
        def init(self, *a, **k):
            text, = parse(["s"], a, 0)
            if text is None:
                d = blank(t)[0]
            else:
                r = rpc(["parsex", 0, t, text], ["?dump", 0])
                if not r[0]["ok"]:
                    raise ValueError(out_str(r[0]["loc"]["message"]))
                d = r[1]
            load_thread(self, d)
        d = {"__init__": init, "_t": t, "__str__": lambda self: "%s with %d frames" % (label, len(self._frames))}
        if t == "koops":
            d["version"], d["raw_oops"] = attribute("version", "s"), attribute("raw_oops", "s")
            d["modules"] = raising(lambda self: [out_str(m) for m in self._s["modules"] or []], NotImplementedError)
            d["taint_flags"] = raising(lambda self: {x: bool(self._s["taint_" + x]) for x in gen.TAINTS}, NotImplementedError)
            def normalize(self, *a, **k):
                noargs(a, k)
                self._prep()
                r = ask(t, self._alone(), ["koops_norm", 0], ["?dump", 0])[1]
                self._frames = [mkframe(F[t], f) for f in r["frames"]]
            d["normalize"] = normalize
        else:
            d["exception_name"] = attribute("exception_name", "s")
        return type(name, (SingleThreadStacktrace,), d)
    S = {t: single_class(n, t, l) for n, t, l in (
        ("Kerneloops", "koops", "Kerneloops"), ("PythonStacktrace", "python", "Python stacktrace"),
        ("RubyStacktrace", "ruby", "Ruby stacktrace"), ("JavaScriptStacktrace", "js", "JavaScript stacktrace"))}

    # ---- multi-threaded stacktraces -----------------------------------------
    class MultiThreadStacktrace(B):
        threads = list_attribute("threads")
        def _prep(self):
            for th in self._threads:
                if not isinstance(th, T[self._t]):
                    raise TypeError
                th._prep()
            check_twice(self._threads)
            if self._t == "core" and not any(self._crash is th for th in self._threads):
                self._crash = None
            if self._t == "gdb":
                check_list(self._libs, GdbSharedlib)
                check_twice(self._libs)
        def _spec(self):
            d = dict(self._s, threads=[th._thread() for th in self._threads])
            if self._t == "gdb":
                d["libs"] = [dict(l._s) for l in self._libs]
            if self._t == "core":
                d["crash_thread"] = ([i for i, th in enumerate(self._threads) if th is self._crash] + [-1])[0]
            return d
        def _get_crash(self):
            # the shared libraries have no say in which thread crashed
            for th in self._threads:
                if not isinstance(th, T[self._t]):
                    raise TypeError
                th._prep()
            check_twice(self._threads)
            if self._t == "core" and not any(self._crash is th for th in self._threads):
                self._crash = None
            d = self._spec() if self._t != "gdb" else dict(self._s, threads=[th._thread() for th in self._threads], libs=[])
            i = ask(self._t, d, ["crash", 0])[0]
            return None if i < 0 else self._threads[i]
        crash_thread = raising(_get_crash, NotImplementedError)
        def to_short_text(self, *a, **k):
            n, = parse(["i"], a, 0, k)
            self._prep()
            r = ask(self._t, self._spec(), ["short", 0, n or 0])[0]
            if r is None:
                raise LookupError
            return out_str(r)
        def get_bthash(self, *a, **k):
            n, = parse(["i"], a, 0, k)
            self._prep()
            r = ask(self._t, self._spec(), ["bthash", 0, n or 0])[0]
            if r is None:
                raise RuntimeError
            return out_str(r)
        @classmethod
        def from_json(cls, *a, **k):
            text, = parse(["s"], a, None, k)
            if cls is MultiThreadStacktrace:
                raise TypeError
            r = rpc(["fromjson", 0, cls._t, text], ["?dump", 0])
            if not r[0]["ok"]:
                raise ValueError(out_str(r[0]["err"]))
            return mkmulti(cls, r[1])
        def dup(self, *a, **k):
            noargs(a, k)
            self._prep()
            o = mkmulti(type(self), copy.deepcopy(self._spec()))
            if self._t == "gdb" and self._crashframe is not None:
                o._crashframe = self._crashframe.dup()
            return o
        def __str__(self):
            return {"gdb": "Stacktrace with %d threads", "core": "Core stacktrace with %d threads",
                    "java": "Java stacktrace with %d threads"}[self._t] % len(self._threads)
    def mkmulti(cls, d):
        o = new(cls)
        load_multi(o, d)
        return o
    def load_multi(o, d):
        d = dict(d)
        o._threads = [mkthread(T[o._t], th) for th in d.pop("threads")]
        if o._t == "gdb":
            o._libs = []
            for l in d.pop("libs"):
                x = new(GdbSharedlib)
                x._s = l
                o._libs.append(x)
            o._crashframe = None
        if o._t == "core":
            i = d.pop("crash_thread")
            o._crash = o._threads[i] if i >= 0 else None
        o._s = d
    def multi_class(name, t):
        def init(self, *a, **k):
            text, = parse(["s"], a, 0)
            if text is None:
                d = blank(t)[0]
            elif t == "core":
                r = rpc(["fromjson", 0, t, text, "1"], ["?dump", 0])
                if not r[0]["ok"]:
                    raise ValueError(out_str(r[0]["err"]))
                d = r[1]
            else:
                r = rpc(["parsex", 0, t, text], ["?dump", 0])
                if not r[0]["ok"]:
                    raise ValueError(out_str(r[0]["loc"]["message"]))
                d = r[1]
            load_multi(self, d)
        d = {"__init__": init, "_t": t}
        if t == "core":
            for n, k in gen.ST["core"]:
                d[n] = attribute(n, k)
        return type(name, (MultiThreadStacktrace,), d)
    M = {t: multi_class(n, t) for n, t in (("GdbStacktrace", "gdb"), ("CoreStacktrace", "core"), ("JavaStacktrace", "java"))}
    G = M["gdb"]
    G.libs = list_attribute("libs")
    G.crashframe = raising(lambda self: self._crashframe, AttributeError)
    def g_method(f):
        def m(self, *a, **k):
            if k:
                raise TypeError
            return f(self, *a)
        return m
    def find_crash_frame(self, *a):
        noargs(a, 0)
        self._prep()
        r = ask("gdb", self._spec(), ["gdb", "crash_frame", 0])[0]
        if r is None:
            raise LookupError
        self._crashframe = mkframe(F["gdb"], r)
        return self._crashframe
    def limit_frame_depth(self, *a):
        n, = parse(["i"], a)
        self._prep()
        if n <= 0:
            raise ValueError
        r = ask("gdb", self._spec(), ["gdb", "limit", 0, n], ["?dump", 0])[1]
        self._threads = [mkthread(T["gdb"], th) for th in r["threads"]]
    def quality(which):
        def q(self, *a):
            noargs(a, 0)
            self._prep()
            return float(ask("gdb", self._spec(), ["gdb", "quality", 0])[0][which])
        return q
    def find_address(self, *a):
        n, = parse(["O"], a)
        n = operator.index(n)
        if not 0 <= n < 1 << 64:
            raise OverflowError
        self._prep()
        if n == (1 << 64) - 1:
            return None
        return ([l for l in self._libs if l._s["from"] <= n <= l._s["to"]] + [None])[0]
    def set_libnames(self, *a):
        noargs(a, 0)
        self._prep()
        r = ask("gdb", self._spec(), ["gdb", "libnames", 0], ["?dump", 0])[1]
        for th, x in zip(self._threads, r["threads"]):
            for f, y in zip(th._frames, x["frames"]):
                f._s = y
        self._s["crash"] = r["crash"]
    def normalize(self, *a):
        noargs(a, 0)
        self._prep()
        r = ask("gdb", self._spec(), ["gdb", "norm", 0], ["?dump", 0])[1]
        self._threads = [mkthread(T["gdb"], th) for th in r["threads"]]
        self._s["crash"], self._s["crash_tid"] = r["crash"], r["crash_tid"]
    for n, f in (("find_crash_frame", find_crash_frame), ("limit_frame_depth", limit_frame_depth), ("quality_simple", quality(0)),
                 ("quality_complex", quality(1)), ("find_address", find_address), ("set_libnames", set_libnames), ("normalize", normalize)):
        setattr(G, n, g_method(f))

    class GdbSharedlib:
        def __init__(self, *a, **k):
            self._s = {"from": (1 << 64) - 1, "to": (1 << 64) - 1, "symbols": 2, "soname": None}
            self._s.update(_libdef())
        start_address, end_address = attribute("from", "q"), attribute("to", "q")
        soname, symbols = attribute("soname", "s"), attribute("symbols", "sym")
        def __str__(self):
            return "Unknown shared library" if self._s["soname"] is None else out_str(self._s["soname"])
    _ld = []
    def _libdef():
        if not _ld:
            _ld.append(rpc(["build", 0, "gdb", driver.spec({"libs": [{}]})], ["?dump", 0])[1]["libs"][0])
        return dict(_ld[0])

    # ---- packages, systems, reports -----------------------------------------
    def pack(d):
        o = new(RpmPackage)
        o._s = d
        return o
    _pd = []
    class RpmPackage:
        def __init__(self, *a, **k):
            n, e, v, r, ar = parse(["s", "O", "s", "s", "s"], a, 0)
            if not _pd:
                _pd.append(rpc(["pkg", "build", 0, driver.spec([{}])], ["pkg", "dump", 0])[1][0])
            self._s = copy.deepcopy(_pd[0])
            if len(a) > 1:
                self.epoch = e
            self._s.update(name=n, version=v, release=r, architecture=ar)
        name, version, release, architecture = [attribute(x, "s") for x in ("name", "version", "release", "architecture")]
        epoch, install_time, role = attribute("epoch", "u"), attribute("install_time", "q"), attribute("role", "role")
        def __str__(self):
            s = self._s
            if s["name"] is None:
                return "(unknown)"
            o = s["name"]
            if s["version"] is not None:
                o += "-" + ("%d:" % s["epoch"] if s["epoch"] else "") + s["version"]
                if s["release"] is not None:
                    o += "-" + s["release"] + ("." + s["architecture"] if s["architecture"] is not None else "")
            return out_str(o)
    def system(d):
        o = new(OperatingSystem)
        o._s = d
        return o
    _od = []
    class OperatingSystem:
        def __init__(self, *a, **k):
            n, v, ar = parse(["s", "s", "s"], a, 0)
            self._s = osdef()
            self._s.update(name=n, version=v, architecture=ar)
        name, version, architecture, cpe = [attribute(x, "s") for x in ("name", "version", "architecture", "cpe")]
        uptime = attribute("uptime", "q")
        def __str__(self):
            s = self._s
            o = "(unknown)" if s["name"] is None else s["name"]
            if s["version"] is not None:
                o += " " + s["version"]
            if s["architecture"] is not None:
                o += " (%s)" % s["architecture"]
            if s["cpe"] is not None:
                o += ", CPE: " + s["cpe"]
            return out_str(o)
    def osdef():
        if not _od:
            _od.append(rpc(["os", "build", 0, b"{}"], ["os", "dump", 0])[1])
        return dict(_od[0])
    KINDS = {"core": 1, "python": 2, "kerneloops": 3, "java": 4, "gdb": 5, "ruby": 6, "javascript": 7}
    NAMES = {v: k for k, v in KINDS.items()}
    NAMES[0] = "invalid"
    CLASS = {1: M["core"], 2: S["python"], 3: S["koops"], 4: M["java"], 6: S["ruby"], 7: S["js"]}
    _rd = []
    class Report:
        def __init__(self, *a, **k):
            text, = parse(["s"], a, 0)
            if text is None:
                if not _rd:
                    _rd.append(rpc(["rep", "build", 0, b"{}", -1], ["?rep", "dump", 0])[1])
                d = copy.deepcopy(_rd[0])
                d["os"] = osdef()
            else:
                r = rpc(["rep", "fromjson", 0, text], ["?rep", "dump", 0])
                if not r[0]["ok"]:
                    raise ValueError(out_str(r[0]["err"]))
                d = r[1]
            st, o, p = d.pop("stacktrace"), d.pop("os"), d.pop("packages")
            self._s = d
            self._operating_system = system(o) if o is not None else None
            self._packages = [pack(x) for x in p]
            c = CLASS.get(d["report_type"])
            self._stacktrace = None if st is None or c is None else mkmulti(c, st) if c._t in gen.MULTI else mkthread(c, st)
        reporter_name, reporter_version, component_name = [attribute(x, "s") for x in ("reporter_name", "reporter_version", "component_name")]
        user_root, user_local, serial = attribute("user_root", "b"), attribute("user_local", "b"), attribute("serial", "u")
        report_version = raising(lambda self: self._s["report_version"], AttributeError)
        packages = list_attribute("packages")
        def _set_type(self, v):
            if not isinstance(v, str):
                raise TypeError
            v = v.encode("utf-8").split(b"\0")[0].decode("latin-1")
            if v not in KINDS:
                raise ValueError
            self._s["report_type"] = KINDS[v]
        report_type = property(lambda self: NAMES[self._s["report_type"]], _set_type, no_del)
        stacktrace = property(lambda self: self._stacktrace, lambda self, v: setattr(self, "_stacktrace", v), no_del)
        operating_system = property(lambda self: self._operating_system, lambda self, v: setattr(self, "_operating_system", v), no_del)
        def _auth(self):
            r = {}
            for k, v in self._s["auth"]:
                v = out_str(v)
                r[out_str(k)] = v
            return r
        auth = raising(_auth, NotImplementedError)
        def __str__(self):
            c = self._s["component_name"]
            return out_str("Report, type: %s" % NAMES[self._s["report_type"]] + (", component: " + c if c is not None else ""))
        def to_json(self, *a, **k):
            noargs(a, k)
            check_list(self._packages, RpmPackage)
            check_twice(self._packages)
            o = self._operating_system
            if o is not None and not isinstance(o, OperatingSystem):
                raise TypeError
            s = dict(self._s, auth=self._s["auth"][::-1], packages=[dict(p._s) for p in self._packages])
            if o is not None:
                s["os"] = dict(o._s)
            c, cmds, st = CLASS.get(self._s["report_type"]), [], self._stacktrace
            if st is not None and c is not None:
                if not isinstance(st, c):
                    raise TypeError
                st._prep()
                cmds = [["build", 0, st._t, spec(st._t, st._spec() if st._t in gen.MULTI else st._thread())]]
            r = rpc(*(cmds + [["rep", "build", 1, driver.spec(s), 0 if cmds else -1], ["rep", "tojson", 1]]))[-1]
            return out_str(r)

    # ---- distances ----------------------------------------------------------
    def good_metric(m, n, d):
        if m < 1 or n < 2 or not 1 <= d <= 3:
            raise ValueError
    def thread_array(l):
        kind = None
        for o in l:
            if not isinstance(o, BaseThread) or kind is not None and type(o) is not kind:
                raise TypeError
            kind = type(o)
            o._prep()
        uniq, refs, cmds = [], [], []
        for o in l:
            i = ([j for j, u in enumerate(uniq) if u is o] + [-1])[0]
            if i < 0:
                i = len(uniq)
                uniq.append(o)
                cmds.append(["build", 20 + i, o._t, spec(o._t, o._alone())])
            refs += [20 + i, 0]
        return cmds, refs
    def mkdist(r):
        d = new(Distances)
        d._m, d._n = r["m"], r["n"]
        d._d = {}
        it = iter(r["d"])
        for i in range(d._m):
            for j in range(i + 1, d._n):
                d._d[i, j] = float(next(it))
        return d
    class Distances:
        def __init__(self, *a, **k):
            try:
                l, m, d = parse([list, "i", "i"], a, 2, k, ["threads", "m", "dist_type"])
            except Exception as e:
                try:
                    m, n = parse(["i", "i"], a, None)
                except Exception as e2:
                    raise e2 from None
                if m < 1 or n < 2:
                    raise ValueError
                self._m, self._n, self._d = min(m, n - 1), n, {}
                return
            d = 2 if d is None else d
            good_metric(m, len(l), d)
            cmds, refs = thread_array(l)
            x = mkdist(rpc(*(cmds + [["dist", "threads", 0, m, d] + refs]))[-1])
            self._m, self._n, self._d = x._m, x._n, x._d
        def get_size(self, *a, **k):
            noargs(a, k)
            return (self._m, self._n)
        def get_distance(self, *a, **k):
            i, j = parse(["i", "i"], a, None, k)
            if i < 0 or j < 0 or i >= self._m or j >= self._n:
                raise ValueError
            return 0.0 if i == j else self._d[min(i, j), max(i, j)]
        def set_distance(self, *a, **k):
            i, j, f = parse(["i", "i", "f"], a, None, k)
            if i < 0 or j < 0 or i >= self._m or j >= self._n:
                raise ValueError
            if i != j:
                self._d[min(i, j), max(i, j)] = f
        def dup(self, *a, **k):
            noargs(a, k)
            o = new(Distances)
            o._m, o._n, o._d = self._m, self._n, dict(self._d)
            return o
        @staticmethod
        def merge_parts(*a, **k):
            l, = parse([list], a, None, k)
            if not l:
                raise ValueError
            check_list(l, DistancesPart)
            check_twice(l)
            r = rpc(["parts", "load", 0, driver.spec([p._f() for p in l])], ["parts", "merge", 0, 1] + list(range(len(l))))[1]
            if r is None:
                raise RuntimeError
            return mkdist(r)
        def __str__(self):
            return "%d-by-%d distance matrix" % (self._m, self._n)
    class DistancesPart:
        def __init__(self, *a, **k):
            m, n, mb, nb, ln, t, ck, l = parse(["i", "i", "i", "i", "K", "i", "K", "O"], a)
            good_metric(m, n, t)
            if m >= n or mb < 0 or mb >= m or nb <= mb or nb >= n:
                raise ValueError
            if ln > n - nb + sum(n - 1 - r for r in range(mb + 1, m)):
                raise ValueError
            self._p = [m, n, mb, nb, ln, t, ck & 0xffffffff]
            self._l = None
            if isinstance(l, list):
                if len(l) != ln:
                    raise ValueError
                self._l = [c_float(as_float(l[i])) for i in range(ln)] or None
            elif l is not None:
                raise TypeError
        def _f(self):
            return self._p + [self._l]
        def compute(self, *a, **k):
            l, = parse([list], a, None, k)
            if len(l) != self._p[1]:
                raise ValueError
            cmds, refs = thread_array(l)
            r = rpc(*(cmds + [["parts", "load", 0, driver.spec([self._f()])], ["parts", "compute", 0, 0] + refs, ["parts", "info", 0, 0]]))[-1]
            self._p, self._l = r[:7], None if r[7] is None else [float(x) for x in r[7]]
        @staticmethod
        def create(*a, **k):
            n, np, m, t = parse(["i", "I", "i", "i"], a, 2, k, ["n", "nparts", "m", "dist_type"])
            m = m or n - 1
            t = 2 if t is None else t
            good_metric(m, n, t)
            if not np:
                raise ValueError
            out = []
            r = rpc(["parts", "create", 0, m, n, t, np])[0]
            infos = rpc(*([["parts", "create", 0, m, n, t, np]] + [["parts", "info", 0, i] for i in range(len(r))]))[1:]
            for x in infos:
                p = new(DistancesPart)
                p._p, p._l = x[:7], x[7]
                out.append(p)
            return out
        def __reduce__(self, *a):
            return (DistancesPart, tuple(self._p) + (None if self._l is None else list(self._l),))
        def __reduce_ex__(self, proto):
            return self.__reduce__()
        def __str__(self):
            p = self._p
            return "%d-by-%d distance matrix part starting at (%d, %d) of length %d, %scomputed" % (
                p[0], p[1], p[2], p[3], p[4], "" if self._l is not None else "not ")
    class Dendrogram:
        def __init__(self, *a, **k):
            d, = parse([Distances], a)
            v = [repr(d._d.get((i, j), 0.0)) for i in range(d._m) for j in range(i + 1, d._n)]
            self._set = [["dist", "new", 0, d._m, d._n], ["dist", "setall", 0] + v, ["cluster", 0, 1]]
            self._r = rpc(*self._set)[2]
        def get_size(self, *a, **k):
            noargs(a, k)
            return self._r["size"]
        def get_object(self, *a, **k):
            i, = parse(["i"], a, None, k)
            if not 0 <= i < self._r["size"]:
                raise ValueError
            return self._r["order"][i]
        def get_merge_level(self, *a, **k):
            i, = parse(["i"], a, None, k)
            if not 0 <= i < self._r["size"] - 1:
                raise ValueError
            return float(self._r["levels"][i])
        def cut(self, *a, **k):
            l, n = parse(["f", "i"], a, None, k)
            return rpc(*(self._set + [["cut", 1, repr(l), n]]))[-1]
        def __str__(self):
            return "Dendrogram with %d objects" % self._r["size"]

    def demangle_symbol(*a, **k):
        s, = parse(["s"], a, None, k)
        r = rpc(["prim", "demangle", s])[0]
        return out_str(s if r is None else r)

    def unknown():
        raise AttributeError
    class Module:
        pass
    mod = Module()
    for c in list(F.values()) + list(T.values()) + list(S.values()) + list(M.values()) + [
            BaseFrame, BaseThread, SingleThreadStacktrace, MultiThreadStacktrace, GdbSharedlib, RpmPackage, OperatingSystem,
            Report, Distances, DistancesPart, Dendrogram]:
        setattr(mod, c.__name__, c)
        c.__module__, c.__qualname__ = "satyr", c.__name__
        c.__setattr__ = lambda self, n, v, c=c: object.__setattr__(self, n, v) if n[0] == "_" or hasattr(type(self), n) else unknown()
    mod.demangle_symbol = demangle_symbol
    return mod
