"""Backtraces of real crashes printed by the installed GDB, with what GDB itself
knows about them (its machine interface) as the oracle for C10.

Random C++ programs: a chain of calls through functions of many kinds (templates,
operators, lambdas, thunks, handlers called by libc, inlined functions, ...), with
arguments, local variables, file names and thread names full of the characters
the text format uses itself; the chain ends in a crash.
"""
import json
import os
import random
import shutil
import signal
import subprocess
import tempfile

HEAD = '''#include <functional>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <algorithm>
#include <thread>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <unistd.h>
#include <pthread.h>
#define NI __attribute__((noinline))
volatile int sink; int arr[5]; volatile int zero;
struct Big { int a[3]; double d; std::string s; };
enum Color { red, green };
union Un { int i; float f; };
'''
ARGS = [("int %s", "%d"), ("char %s", None), ("const char *%s", '"a \\"q\\" )(, in x"'), ("double %s", "1.5e-9"), ("bool %s", "true"), ("std::string %s", 'std::string("s (x)")'), ("Big %s", "Big()"),
        ("int (&%s)[5]", "arr"), ("void (*%s)(int)", "(void (*)(int))&abort"), ("const std::vector<int> &%s", "std::vector<int>{1,2}"), ("Color %s", "green"), ("Un %s", "Un()"), ("void *%s", "nullptr"),
        ("long double %s", "3.25L"), ("int Big::*%s", "nullptr"), ("std::map<std::string, int> %s", '(std::map<std::string, int>{{"k )", 1}})'), ("const wchar_t *%s", 'L"w\\x2022("'), ("std::unique_ptr<int> %s", "nullptr")]
CHARS = ["'('", "')'", "'\\''", "'\"'", "'\\\\'", "'\\n'", "'\\0'", "'\\377'", "','", "' '", "'<'"]
LOCS = ["int l%d = 4;", 'const char *l%d = "line\\n#1 0x1 in foo ()\\n";', "Big l%d;", "std::vector<std::string> l%d{\"a\", \"b\"};", "char l%d[20] = \"}\";", "std::map<int, Big> l%d; l%d[3];", "double l%d[3] = {1, 2, 3};",
        "auto l%d = [](int q) { return q; };", "struct { int x; const char *y; } l%d = {1, \"\\n\\nThread 3 (LWP 4):\\n\"};"]

def program(rng):
    n = rng.randrange(4, 12)
    out = []
    call = {0: rng.choice(["abort();", "raise(SIGSEGV);", "*(volatile int *)8 = 1;", "sink = 1 / zero;", "__builtin_trap();", "memcpy((void *)sink, arr, 3);", 'strlen((char *)1); sink = strlen((char *)(long)sink);', "free((void *)0x11);", "throw 5;", "std::string().at(4);"])}
    for k in range(1, n + 1):
        na = rng.choice([0, 1, 1, 2, 3])
        ps, vs = [], []
        for j in range(na):
            t, v = rng.choice(ARGS)
            if v is None: v = rng.choice(CHARS)
            elif v == "%d": v = str(rng.randrange(-9, 99999))
            ps.append(t % ("a%d" % j)); vs.append(v)
        P, V = ", ".join(ps), ", ".join(vs)
        body = ""
        for j in range(rng.choice([0, 0, 1, 2])):
            l = rng.choice(LOCS)
            body += l.replace("%d", str(j)) + " "
        if rng.random() < .1: body += "{ int inner = 3; sink = inner; "; end = " }"
        else: end = ""
        body += call[k - 1] + end + " sink = 3;"
        kind = rng.randrange(22)
        f = "f%d" % k
        if kind < 3:
            out.append("%sNI void %s(%s) { %s }" % (rng.choice(["", "static "]), f, P, body)); c = "%s(%s);" % (f, V)
        elif kind == 3:
            out.append("template <class T, int N> NI void %s(%s) { %s }" % (f, P, body)); c = "%s<%s, %d>(%s);" % (f, rng.choice(["int", "std::vector<std::string>", "char (*)[3]", "void (*)(int, char)", "int Big::*"]), rng.randrange(9), V)
        elif kind == 4:
            out.append("namespace { namespace in%d { struct S { NI void %s(%s) const { %s } }; } }" % (k, f, P, body)); c = "in%d::S().%s(%s);" % (k, f, V)
        elif kind == 5:
            op = rng.choice(["==", "<", "<<", ">>", "<=", ">=", "&&", "||", "+", "-", ",", "->*", "%", "^", "|", "&", "!=", "+=", "<<=", ">>=", "=", "*"])
            out.append("struct S%d { NI void operator%s(int x) { %s } };" % (k, op, body)); c = "{ S%d s; s %s 3; }" % (k, op) if op != "=" else "{ S%d s; s = 3; }" % k
        elif kind == 6:
            op, u = rng.choice([("()", "s(3);"), ("[]", "s[3];")])
            out.append("template <class T> struct S%d { NI int operator%s(int x) { %s return 1; } };" % (k, op, body)); c = "{ S%d<%s> s; %s }" % (k, rng.choice(["int", "std::string", "void (*)(int)"]), u)
        elif kind == 7:
            out.append("struct S%d { NI operator %s() { %s return 0; } };" % (k, rng.choice(["bool", "const char *", "unsigned long"]), body)); c = "{ S%d s; if (s) sink = 2; }" % k
        elif kind == 8:
            out.append("struct S%d { NI S%d(%s) { %s } NI ~S%d() { sink = 1; } };" % (k, k, P, body, k)); c = "{ S%d s%s; }" % (k, "{%s}" % V if na else "")
        elif kind == 9:
            out.append("struct S%d { NI ~S%d() { %s } };" % (k, k, body)); c = "{ S%d s; sink = 2; }" % k
        elif kind == 10:
            out.append("static inline __attribute__((always_inline)) void %s(%s) { %s }" % (f, P, body)); c = "%s(%s);" % (f, V)
        elif kind == 11:
            out.append("NI void %s() { %s auto l = [&](%s) { %s }; l(%s); sink = 4; }" % (f, "", P, body, V)); c = f + "();"
        elif kind == 12:
            out.append("NI void %s() { std::function<void(int, const char *)> g = [](int x, const char *y) { %s }; g(3, \"(\"); sink = 4; }" % (f, body)); c = f + "();"
        elif kind == 13:
            out.append("NI int cmp%d(const void *a, const void *b) { %s return 0; } NI void %s() { qsort(arr, 5, 4, cmp%d); sink = 4; }" % (k, body, f, k)); c = f + "();"
        elif kind == 14:
            out.append("void h%d(int s) { %s } NI void %s() { signal(SIGUSR1, h%d); raise(SIGUSR1); sink = 4; }" % (k, body, f, k)); c = f + "();"
        elif kind == 15:
            out.append("struct A%d { virtual void a() { sink = 1; } int p; }; struct B%d { virtual void %s(int) = 0; int q; }; struct D%d : A%d, B%d { void %s(int x) override { %s } };" % (k, k, f, k, k, k, f, body)); c = "{ D%d d; B%d *b = &d; b->%s(3); }" % (k, k, f)
        elif kind == 16:
            out.append("NI void %s(int depth) { if (depth) { %s(depth - 1); sink = 2; return; } %s }" % (f, f, body)); c = "%s(%d);" % (f, rng.randrange(4))
        elif kind == 17:
            out.append("NI void %s() { std::vector<int> v{3, 1, 2}; std::sort(v.begin(), v.end(), [](int a, int b) { %s return a < b; }); sink = 4; }" % (f, body)); c = f + "();"
        elif kind == 18:
            out.append("NI void %s(const char *fmt, ...) { %s }" % (f, body)); c = '%s("x %%d", 3);' % f
        elif kind == 19:
            out.append("extern \"C\" NI void %s(%s) { %s }" % (f, P if "unique" not in P else "int z", body)); c = "%s(%s);" % (f, V if "unique" not in P else "3")
        elif kind == 20:
            out.append("NI long operator\"\" _u%d(unsigned long long x) { %s return 0; }" % (k, body)); c = "sink = 12_u%d;" % k
        else:
            out.append("NI void %s() { std::for_each(arr, arr + 2, [&](auto q) { %s }); sink = 4; }" % (f, body)); c = f + "();"
        call[k] = c
        if rng.random() < .3: out.append('#line %d "%s"' % (rng.randrange(1, 99999), rng.choice(["dir with space/x.cc", "../a (b)/y.c", "/usr/src/debug/z-1.0/z.cc", "x:y.cc", "gen,ed.c", "at x.c"])))
    nt = rng.choice([0, 0, 1, 3])
    names = ["my (name) x", 'a\\"b', "plain", "x):", "ends (", "Thread 3", "(LWP 3)"]
    out.append("static void sleeper(const char *n) { pthread_setname_np(pthread_self(), n); for (;;) sleep(1000); }")
    main = "".join("std::thread(sleeper, \"%s\").detach(); " % rng.choice(names) for _ in range(nt)) + ("usleep(20000); " if nt else "")
    if rng.random() < .25:
        out.append("int main(int argc, char **argv) { %s std::thread t([] { %s }); t.join(); }" % (main, call[n]))
    else:
        out.append("int main(int argc, char **argv) { %s %s return 0; }" % (main, call[n]))
    return HEAD + "\n".join(out) + "\n"


FACTS = '''
import gdb, json
r = {"threads": [], "libs": []}
try:
    sel = gdb.selected_thread()
    for t in gdb.execute_mi("-thread-info")["threads"]:
        g = [x for x in gdb.selected_inferior().threads() if x.num == int(t["id"])][0]
        r["threads"].append({"id": g.num, "lwp": g.ptid[1], "frames": gdb.execute_mi("-stack-list-frames", "--thread", str(g.num))["stack"]})
    sel.switch()
    r["selected"] = sel.num
    r["libs"] = gdb.execute_mi("-file-list-shared-libraries")["shared-libraries"]
except Exception as e:
    r["error"] = repr(e)
json.dump(r, open("facts.json", "w"))
'''


def available():
    return bool(shutil.which("gdb") and shutil.which("g++"))


def run(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, start_new_session=True,
                         env=dict(os.environ, LC_ALL="C.UTF-8", HOME=cwd, DEBUGINFOD_URLS=""))
    try:
        return p.returncode, p.communicate(timeout=timeout)[0]
    except subprocess.TimeoutExpired:
        return None, b""
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()


def observe(seed):
    """One program, run to its crash: (text, facts), or a reason why there is none."""
    rng = random.Random("realgdb/%s" % seed)
    d = tempfile.mkdtemp(prefix="satyr-gdb-")
    try:
        with open(os.path.join(d, "p.cc"), "w") as f:
            f.write(program(rng))
        flags = rng.choice([["-O0"], ["-O0"], ["-O1"], ["-O2"], ["-O2", "-fno-inline"]]) + rng.choice([["-g"], ["-g"], ["-g1"], ["-g", "-no-pie"], []])
        run(["g++", "-w", "-std=c++20"] + flags + ["-pthread", "p.cc", "-o", "p"], d, 120)
        if not os.path.exists(os.path.join(d, "p")):
            return "the program was not built"
        with open(os.path.join(d, "facts.py"), "w") as f:
            f.write(FACTS)
        ex = ["set confirm off", "set pagination off", "handle SIGUSR1 nostop noprint pass", "run", "echo @@BT\\n", "frame", "thread apply all backtrace full 2048",
              "info sharedlib", "echo @@END\\n", "source facts.py", "kill"]
        cmd = ["gdb", "-nx", "-batch"]
        for e in ex:
            cmd += ["-ex", e]
        rc, out = run(cmd + ["./p"], d, 60)
        try:
            with open(os.path.join(d, "facts.json")) as f:
                facts = json.load(f)
            text = out[out.index(b"@@BT\n") + 4:out.rindex(b"@@END\n")].decode("latin-1")
        except (OSError, ValueError):
            return "GDB gave no backtrace"
        if "error" in facts or not facts["threads"] or "\0" in text:
            return "the program did not crash"
        return text, facts
    finally:
        shutil.rmtree(d, ignore_errors=True)


THUNKS = ("non-virtual thunk to ", "virtual thunk to ", "vtable for ")


def compare(text, facts, got):
    """Differences between the parsed stacktrace and what GDB says."""
    out = []
    M32, M64 = 2 ** 32 - 1, 2 ** 64 - 1

    def frame(where, a, b, lines):
        if b["func"] == "<signal handler called>":
            e = {"function_name": None, "signal_handler_called": 1, "address": M64, "source_file": None, "source_line": M32}
        else:
            name = b["func"]
            for t in THUNKS:
                if name.startswith(t):
                    name = name[len(t):]
            src = b.get("file", b.get("from"))
            k = (src or "").find("/lib")
            if k >= 0 and (".so." in src[k:] or src[k:].endswith(".so")):
                src = None
            pc = int(b["addr"], 16)
            # the address is left out where the program counter is at the start of a line
            if not any(l.startswith("#%-3d0x%016x in " % (int(b["level"]), pc)) for l in lines):
                pc = M64
            e = {"function_name": name, "signal_handler_called": 0, "address": pc, "source_file": src, "source_line": int(b.get("line", M32))}
        e["number"] = int(b["level"])
        for n, v in e.items():
            if isinstance(v, str):
                v = v.encode("utf-8").decode("latin-1")
            got_v = a[n]
            if n == "function_name" and a["function_type"]:
                # the type a template function returns
                got_v = "%s %s" % (a["function_type"], got_v)
            if got_v != v:
                out.append(("real:" + n, "%s: %s is %r, GDB says %r" % (where, n, a[n], v)))

    byid = {t["id"]: t for t in facts["threads"]}
    if [t["number"] for t in got["threads"]] != sorted(byid, reverse=True):
        out.append(("real:threads", "threads %r, GDB says %r" % ([t["number"] for t in got["threads"]], sorted(byid, reverse=True))))
        return out
    lines = set(l[:64] for l in text.split("\n"))
    for t in got["threads"]:
        f = byid[t["number"]]
        if t["tid"] != f["lwp"]:
            out.append(("real:tid", "thread %d is %d, GDB says %d" % (t["number"], t["tid"], f["lwp"])))
        if len(t["frames"]) != len(f["frames"]):
            out.append(("real:frames", "thread %d has %d frames, GDB says %d; the last one %r" % (t["number"], len(t["frames"]), len(f["frames"]), t["frames"][-1:])))
        for a, b in zip(t["frames"], f["frames"]):
            frame("thread %d frame %s" % (t["number"], b["level"]), a, b, lines)
    if not got["crash"]:
        out.append(("real:crash", "no crash frame"))
    else:
        frame("crash frame", got["crash"], byid[facts["selected"]]["frames"][0], lines)
    libs = sorted((l["soname"], l["from"], l["to"]) for l in got["libs"])
    exp = sorted((l["target-name"].encode("utf-8").decode("latin-1"), int(l["ranges"][0]["from"], 16), int(l["ranges"][0]["to"], 16))
                 for l in facts["libs"] if l.get("ranges") and "from" in l["ranges"][0])
    if libs != exp:
        out.append(("real:libs", "libraries %r, GDB says %r" % (libs, exp)))
    return out
