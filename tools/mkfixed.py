"""Rewrites the fixed list of known-findings.json from the fix commits in /repo (maintenance tool)."""
import json, subprocess, sys
PROP = [("ruby_stacktrace: ", "C12"), ("java_frame: skip", "C12"), ("java_thread: accept", "C12"), ("js: parse what", "C12"), ("python_frame: parse", "C12"), ("gdb_frame: ", "C10"), ("gdb_thread: ", "C10"), ("do not copy lists of siblings", "C05"), ("cluster: do not keep", "C09"), ("gdb: set_libnames", "C29"), ("thread_cmp: ", "C06"), ("distances: ", "C08"), ("gdb: calls_func", "C23"), ("satyr: ", "C27"), ("bindings: ", "C23"), ("py: ", "C23"), ("unwind: do not share", "C24"), ("unwind: ", "C22"), ("core: make the copy", "C05"), ("compare integer", "C06"), ("java: compare all", "C06"), ("distance: refuse", "C08"), ("koops: include the taint", "C16"),
        ("print <unknown>", "C26"), ("gdb: pass the verbosity", "C26"), ("json: ", "C03"), ("core: encode a stack", "C03"), ("core: keep the crash", "C03"),
        ("python, ruby, js: encode", "C03"), ("js: do not swap", "C03"), ("koops: grow", "C03"), ("report: escape", "C04"), ("report: read the user", "C04"),
        ("report: decode the stack", "C04"), ("report: encode", "C04"), ("operating system: read the CPE", "C04"), ("report: refuse", "C02"),
        ("operating system: do not report", "C02"), ("rpm: report the failure", "C02"), ("report: free the reporter", "C25"), ("gdb: do not dereference a missing", "C02"),
        ("js: do not dereference a missing", "C02"), ("koops: keep the decoded", "C02"),
        ("parse Ruby", "C12"), ("do not take the line after a Java", "C12"), ("keep the cause of a Java", "C12"), ("js: keep the name", "C12"),
        ("koops: do not skip the line", "C11"), ("rpm: find installed", "C34"), ("rpm: do not leak the tag", "C34"), ("rpm: ", "C19"), ("operating system: do not leak the values", "C25"), ("operating system: leave no name", "C20"), ("abrt: do not leak the items", "C25"), ("abrt: ", "C21"), ("core: initialize the thread", "C02"), ("unstrip: ", "C29"), ("elves: initialise", "C31"), ("elves: compute", "C31"), ("elves: find the", "C31"), ("elves: read PLT", "C31"), ("elves: refuse sections", "C31"), ("elves: do not read past truncated CIEs", "C31"), ("elves: ", "C29"), ("callgraph: free", "C25"), ("callgraph: ", "C32"), ("ruby: ", "C33"), ("disasm: ", "C29"), ("utils: parse the largest", "C28"), ("utils: find char", "C28"), ("koops: recognise the end mark", "C11"), ("gdb: do not read", "C01"), ("gdb: do not free", "C01"), ("gdb: limit", "C01"), ("do not skip the term", "C01"),
        ("python: do not read", "C01"), ("python, ruby: do not leak", "C25"), ("java: release", "C25"), ("koops: do not leak", "C25")]
EXTRA = "/verif/tools/fixed_map.json"
try:
    PROP += [tuple(x) for x in json.load(open(EXTRA))]
except FileNotFoundError:
    pass
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    p = [q for k, q in PROP if s.startswith(k)]
    if not p:
        sys.exit("no property for %s" % s)
    out.append("fixed: property=%s %s %s" % (p[0], h, s))
f = "/verif/known-findings.json"
d = json.load(open(f))
d["fixed"] = out
with open(f, "w") as o:
    o.write('{\n "known": [\n' + ",\n".join("  " + json.dumps(e) for e in d["known"]) + '\n ],\n "fixed": [\n' + ",\n".join("  " + json.dumps(e) for e in out) + "\n ]\n}\n")
