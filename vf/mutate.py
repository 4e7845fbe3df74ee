"""Hostile variants of trace texts."""
import glob, os
from .build import VERIF
from . import traces

DIRS = {"gdb": "gdb_stacktraces", "koops": "kerneloopses", "java": "java_stacktraces", "python": "python_stacktraces", "ruby": "ruby_stacktraces", "js": "js_stacktraces"}
_corpus = {}
TOKENS = {
    "gdb": ["\n#", "#0  ", "#1  0x1 in ", "\nThread ", "Thread 1 (Thread 0x1 (LWP 2)):\n", "(LWP ", "(Thread ", "operator", "operator(", "operator new", "operator delete[]", " const", "(",
            ")", "<", ">", "[with ", " [with T = ", "]", "(truncated)", "\"", "\\", "\\\"", "??", " at ", " from ", "at x.c:1", ":4294967295", ":4294967296", "0x", "0xffffffffffffffff ", "in ",
            "vtable for ", "<signal handler called>", "\n", " ", "::", "~", "operator>>=", "From                To                  Syms Read   Shared Object Library\n", "0x1 0x2 Yes ",
            "Yes (*)", "No ", "/lib", ".so", "/lib.so.", "(anonymous namespace)::", ", ", "{", "}", "="],
    "koops": ["[<", ">]", "[<ffffffff81000000>]", "+0x1/0x2", " [mod]", "? ", "from ", "(", ")", "RIP: ", "EIP: ", "RIP: 0010:[<1>] ", "<IRQ>", "<<EOE>>", "<EOI> ", "</IRQ>", "<", "Modules linked in:",
              "Modules linked in: a", "[last unloaded: x]", "Tainted: ", "Tainted: P    W ", "Not tainted", "Last Breaking-Event-Address:\n", "[ 1.000000] ", "<4>[ 1.0] ", "Call Trace:\n", "\n", " ", "\t", "0x",
              "0xffffffffffffffffff", "CPU: 0", "Pid: ", "CR2: 1", "irq event stamp: 1", " (unreliable)", "[c000000000000000] [c000] .", "[c0000000] (f) from [c0] (g+0x1/0x2)", "a+0x1/"],
    "python": ["Traceback (most recent call last):\n", "  File \"", "\", line ", ", in ", "    ", "^", "~", "<", ">", "<>", "\"", "\n", "invalid syntax (", ": ", "4294967296", "  File \"x\", line 1, in <m>\n",
               "  File \"<\", line 1\n", "\n\n"],
    "ruby": [":in `", "`", "'", ": ", "\tfrom ", "(", ")", ")\n", "rescue in ", "block in ", "block (", " levels) in ", "<", ">", "<main>", ":1", ":", "\n", "\t", ":in ", "block (4294967296 levels) in "],
    "js": [": ", "at ", "    at ", " (", ")", ":1:2", ":", "\n", " ", "[as x]", "(x:1:2)", "4294967296", "new ", "async ", ":1", "x:1:2\n"],
    "java": ["Exception in thread \"", "\" ", "\"", "Caused by: ", "\nCaused by: ", "\tat ", "at ", "(", ")", ":", ": ", "... 3 more\n", "... ", "\tSuppressed: ", "Suppressed: ", " [", "]", "jar:", "file:", "!", "[jar:file:",
             "[file:/x/y.class]", "Native Method", "Unknown Source", ":1)", "\n", "\t", " ", "http:"],
}


def corpus(k):
    if k not in _corpus:
        _corpus[k] = []
        for f in sorted(glob.glob(os.path.join(VERIF, "corpus", DIRS[k], "*"))):
            if os.path.isfile(f):
                with open(f, "rb") as fh:
                    t = fh.read().split(b"\0")[0].decode("latin-1")
                if len(t) < 60000:
                    _corpus[k].append(t)
    return _corpus[k]


def base(rng, k):
    c = rng.random()
    if c < .2 and corpus(k):
        t = rng.choice(corpus(k))
        if len(t) > 6000:
            i = rng.randrange(len(t) - 5000)
            t = t[:rng.randrange(200)] + t[i:i + 5000]
        return t
    if c < .3:
        return "".join(rng.choice(TOKENS[k]) for _ in range(rng.randrange(1, 40)))
    return traces.GEN[k](rng)[0]


def mutate(rng, k, t):
    for _ in range(rng.choice([1, 1, 2, 3, 8])):
        c = rng.randrange(12)
        i = rng.randrange(len(t) + 1)
        j = min(len(t), i + rng.choice([1, 1, 2, 5, 20, 200]))
        if c == 0:
            t = t[:i]
        elif c == 1:
            t = t[i:]
        elif c == 2:
            t = t[:i] + t[j:]
        elif c == 3:
            t = t[:j] + t[i:]
        elif c in (4, 5, 6):
            t = t[:i] + rng.choice(TOKENS[k]) + t[i:]
        elif c == 7:
            t = t[:i] + rng.choice(TOKENS[k]) + t[j:]
        elif c == 8:
            t = t[:i] + "".join(chr(rng.choice([rng.randrange(1, 256), rng.randrange(32, 127)])) for _ in range(rng.randrange(1, 5))) + t[j:]
        elif c == 9:
            o = base(rng, k if rng.random() < .8 else rng.choice(list(TOKENS)))
            t = t[:i] + o[rng.randrange(len(o) + 1):]
        elif c == 10:
            t = t[:i] + rng.choice(TOKENS[k]) * rng.choice([2, 3, 50, 700]) + t[i:]
        else:
            # a number to its limits
            n = rng.choice(["0", "4294967295", "4294967296", "18446744073709551615", "18446744073709551616", "9" * 40, "-1", "00000000000000000001", "0x"])
            t = t[:i] + n + t[i + 1:]
    return t.replace("\0", "\1")


NEST = {
    "gdb": ["#0  0x1 in f" + "(" * 1, "<", "(<", "a<", "[with "],
}
