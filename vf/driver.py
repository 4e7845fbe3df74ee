"""Runs cases on the sanitized driver, attributes crashes to cases, fans out over processes.

A case is a list of commands, each a list of str/bytes/int arguments (op name first); its
result is the list of the commands' outputs. Strings cross the boundary as latin-1 bytes."""
import json, os, re, signal, subprocess, tempfile, time
from . import build

DRV_SRC = ["drv_main.c", "drv_desc.c", "drv_st.c", "drv_misc.c", "drv_rpm.c"]
ASAN_ENV = ("detect_leaks=0:exitcode=87:detect_stack_use_after_return=1:abort_on_error=0:"
            "allocator_may_return_null=1:max_allocation_size_mb=3000:handle_abort=1:symbolize=1:"
            "malloc_context_size=12:check_initialization_order=0")
UBSAN_ENV = "print_stacktrace=1:halt_on_error=1:exitcode=86"


class Crash(Exception):
    pass


NotRun = object()


def b(x):
    if isinstance(x, bytes):
        return x
    if isinstance(x, bool):
        return b"1" if x else b"0"
    if isinstance(x, int):
        return str(x).encode()
    return x.encode("latin-1")


def encode(case):
    out = [b"CASE %d\n" % len(case)]
    for cmd in case:
        out.append(b"%d\n" % len(cmd))
        for a in cmd:
            a = b(a)
            out.append(b"%d\n" % len(a))
            out.append(a)
            out.append(b"\n")
    return b"".join(out)


def spec(obj):
    """JSON text for the driver's builders (bytes as latin-1)."""
    return json.dumps(_big(obj), ensure_ascii=False).encode("latin-1")


def _big(o):
    if isinstance(o, dict):
        return {k: _big(v) for k, v in o.items() if not (v is None and k in ("modules", "crash", "os", "consistency"))}
    if isinstance(o, (list, tuple)):
        return [_big(v) for v in o]
    if isinstance(o, int) and not isinstance(o, bool) and abs(o) >= 1 << 31:
        return str(o)
    return o


def env_for(leak=False, desc=False, extra=None):
    e = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": "/nonexistent", "LC_ALL": "C", "TZ": "UTC",
         "ASAN_OPTIONS": ASAN_ENV, "UBSAN_OPTIONS": UBSAN_ENV, "TSAN_OPTIONS": "exitcode=66:halt_on_error=1"}
    if leak:
        e["DRV_LEAK"] = "1"
    if desc:
        e["DRV_LEAKDESC"] = "1"
    e.update(extra or {})
    return e


def raw_run(prog, request, env, cwd=None, timeout=600, stack_mb=64):
    """One driver process. Returns (list of result texts, returncode or None on timeout, stderr)."""
    import resource
    with tempfile.TemporaryFile() as i, tempfile.TemporaryFile() as o, tempfile.TemporaryFile() as e:
        i.write(request)
        i.seek(0)
        def lim():
            resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, 8 << 20))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen([prog] if isinstance(prog, str) else prog, stdin=i, stdout=o, stderr=e, env=env, cwd=cwd, preexec_fn=lim)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = None
        o.seek(0)
        data = o.read()
        e.seek(0)
        err = e.read()
    res, pos = [], 0
    while pos < len(data):
        nl = data.find(b"\n", pos)
        if nl < 0:
            break
        try:
            n = int(data[pos:nl])
        except ValueError:
            raise build.HarnessError("driver output garbled: %r" % data[pos:pos + 200])
        if nl + 1 + n + 1 > len(data):
            break
        res.append(data[nl + 1:nl + 1 + n])
        pos = nl + 1 + n + 1
    return res, rc, err.decode("utf8", "replace")


def describe(rc, err):
    """A short, stable signature of a crash."""
    if rc is None:
        return "timeout"
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = "asan:" + m.group(1)
    if "Assertion" in err and ("failed" in err):
        m2 = re.search(r"Assertion `?(.{0,80}?)'? failed|Assertion failed \(.*?\): (.{0,80})", err)
        kind = "assert:" + ((m2.group(1) or m2.group(2)) if m2 else "")
    m = re.search(r"runtime error: (.{0,90})", err)
    if m and not kind:
        kind = "ubsan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))
    if "HANG:" in err:
        kind = "hang"
    if "GLib-ERROR" in err or "failed to allocate" in err:
        kind = (kind or "") + "+alloc"
    if kind is None:
        kind = "signal:%s" % (-rc) if rc < 0 else "exit:%d" % rc
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+)", err)
    fr = [f for f in fr if f.startswith(("sr_", "anonymize")) or f.startswith(("json_", "parse_"))]
    return kind + (" in " + fr[0] if fr else "")


class Driver:
    def __init__(self, flavour="asan", name="drv", srcs=None, extra=""):
        self.prog = build.program(flavour, name, srcs or DRV_SRC, extra)

    def run_batch(self, cases, leak=False, cwd=None, extra=None, cpu=20):
        """Results aligned with cases; a crashed case yields a Crash instance (args: signature, stderr)."""
        env = env_for(leak, extra=dict({"DRV_CPU": str(cpu)}, **(extra or {})))
        out = []
        enc = [encode(c) for c in cases]
        crashes = hangs = 0
        while len(out) < len(cases):
            if crashes >= 8 or hangs:
                # enough evidence; the rest of the batch is left unjudged
                out += [NotRun] * (len(cases) - len(out))
                break
            todo = enc[len(out):]
            res, rc, err = raw_run(self.prog, b"".join(todo), env, cwd, 400)
            for r in res:
                out.append(json.loads(r.decode("latin-1")))
            if rc == 99:
                raise build.HarnessError(err[-2000:])
            if len(res) < len(todo):
                crashes += 1
                # confirm on its own: only a crash that this case alone reproduces is its crash
                one, rc1, err1 = raw_run(self.prog, todo[len(res)], env, cwd, 150)
                hangs += rc1 is None or "HANG:" in err1
                if rc1 == 99:
                    raise build.HarnessError(err1[-2000:])
                if len(one) == 1 and rc1 == 0:
                    out.append(Crash("batch-only " + describe(rc, err), err[-6000:]))
                else:
                    out.append(Crash(describe(rc1, err1), err1[-6000:]))
            elif rc != 0:
                raise build.HarnessError("driver ended with %r after all results: %s" % (rc, err[-2000:]))
        return out

    def run(self, case, **kw):
        return self.run_batch([case], **kw)[0]
