"""Runs binding programs on the instrumented extension module; one JSON line per program on stdin, one on stdout."""
import array, ctypes, gc, json, os, resource, signal, sys
sys.path.insert(0, os.environ["PYMOD_DIR"])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import _satyr3
sys.modules["satyr"] = _satyr3
import pyops

CPU = int(os.environ.get("PYW_CPU", "20"))
out = os.fdopen(os.dup(1), "w")
os.dup2(2, 1)
try:
    allocated = ctypes.CDLL(None).__sanitizer_get_current_allocated_bytes
    allocated.restype = ctypes.c_size_t
except AttributeError:
    allocated = None


signal.signal(signal.SIGPROF, signal.SIG_DFL)


def once(prog, every):
    m = pyops.Machine(_satyr3)
    r = m.run(prog, every)
    m.release()
    return r


for line in sys.stdin:
    job = json.loads(line)
    signal.setitimer(signal.ITIMER_PROF, CPU, 0)
    res = {}
    if job.get("surface"):
        res["r"] = {n: (sorted(a for a in dir(getattr(_satyr3, n)) if not a.startswith("__")) if isinstance(getattr(_satyr3, n), type)
                        else getattr(_satyr3, n) if isinstance(getattr(_satyr3, n), int) else "callable")
                    for n in dir(_satyr3) if not n.startswith("__")}
    else:
        res["r"] = once(job["prog"], job["every"])
    if job.get("leak") and allocated:
        marks = array.array("q", [0] * job["leak"])
        for k in range(job["leak"]):
            once(job["prog"], job["every"])
            marks[k] = allocated()
        res["marks"] = list(marks)
    signal.setitimer(signal.ITIMER_PROF, 0, 0)
    out.write(json.dumps(res) + "\n")
    out.flush()
