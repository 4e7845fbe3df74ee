"""Tracebacks of random programs run by the installed CPython, Ruby, JVM and Node.js,
with what the runtimes themselves know about them (their introspection interfaces)
as the oracle for C12.
"""
import base64
import json
import os
import random
import re
import shutil
import subprocess
import tempfile

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "rt")
LANGS = {"python": "/usr/bin/python3", "ruby": "ruby", "java": "javac", "js": "node"}


def available(lang):
    return shutil.which(LANGS[lang]) is not None and (lang != "java" or shutil.which("java") is not None)


def l1(x):
    """Driver texts are bytes in latin-1."""
    if isinstance(x, str):
        return x.encode("utf-8", "surrogateescape").decode("latin-1")
    if isinstance(x, list):
        return [l1(y) for y in x]
    if isinstance(x, dict):
        return {k: l1(y) for k, y in x.items()}
    return x


def run(cmd, cwd, **env):
    e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": cwd, "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8"}
    e.update(env)
    return subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)


def observe(lang, seed, n):
    """[(kind, text, expected stacktrace)] of about n programs, or a string when none can be had."""
    d = tempfile.mkdtemp(prefix="satyr-rt-")
    try:
        return globals()["observe_" + lang](random.Random("%s/%s" % (lang, seed)), d, n)
    except (subprocess.TimeoutExpired, OSError, ValueError) as e:
        return "%s: %s" % (type(e).__name__, str(e)[:200])
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------------------------------ python
PY_HOOK = r'''
import sys as _s, json as _j, linecache as _l
def _hook(t, e, tb):
    top = (t, e, tb)
    while e.__cause__ or (e.__context__ and not e.__suppress_context__):
        n = e.__cause__ or e.__context__
        if n.__traceback__ is None:
            break
        e = n
    t, tb = type(e), e.__traceback__
    fs = []
    b = tb
    while b is not None:
        c = b.tb_frame.f_code
        fs.append([c.co_filename, b.tb_lineno, c.co_name, _l.getline(c.co_filename, b.tb_lineno, b.tb_frame.f_globals).strip()])
        b = b.tb_next
    syn = None
    if isinstance(e, SyntaxError) and e.lineno is not None:
        syn = [e.filename or "<string>", e.lineno, (e.text or "").rstrip("\n").lstrip(" \n\f") if e.text else ""]
    m = t.__module__
    with open("facts.json", "w", encoding="utf-8", errors="surrogateescape") as f:
        _j.dump({"name": t.__qualname__ if m in ("__main__", "builtins") else m + "." + t.__qualname__, "frames": fs, "syntax": syn}, f)
    _s.__excepthook__(*top)
_s.excepthook = _hook
'''
PY_MSGS = ["", "x", "a: b", "two\nlines", "\n", 'File "x", line 3, in y', "Traceback (most recent call last):\n", "  File \"fake.py\", line 3, in fake\n    code\n", "tab\there", "über", "(x)", "^^^^", ": ", "[Previous line repeated 3 more times]"]
PY_EXC = ["ValueError", "KeyError", "OSError", "KeyboardInterrupt", "UnicodeError", "StopIteration", "AssertionError", "Mine", "Outer.Inner", "Mine2", "lib.LibError", "RecursionError", "GeneratorExit", "SystemError", "Warning"]
PY_FILES = ["main.py", "a b.py", 'q"uote.py', "über.py", "<main>x.py", "x,y.py", "(p).py", "noext", "line 3, in x.py", "it's.py", 'a", lin.py', "%s.py", "a:b.py", "tab\t.py"]
PY_HEAD = '''import lib, contextlib, functools, asyncio, collections, operator, itertools
class Mine(Exception): pass
class Outer:
    class Inner(ValueError): pass
class Mine2(KeyError):
    def __str__(self): return "custom: " + repr(self.args)
'''


def py_program(rng):
    n = rng.randrange(1, 9)
    out, call = [], None
    c = rng.random()
    if c < .45:
        exc = rng.choice(PY_EXC)
        call = "raise %s(%r)" % (exc, rng.choice(PY_MSGS)) if rng.random() < .8 else "raise " + exc
    elif c < .85:
        call = rng.choice(["1/0", "{}['k: x']", "[][3]", "None.foo", "undefined_name", "int('x')", "open('/nonexistent/y')", "import nonexistent.module", "assert 1 == 2, 'no:\\nyes'", "(1)()", "'a' + 1", "[1, 2].index(3)",
                           "exec('x = (')", "exec('a\\n  b')", "compile('f(:', 'with \"q\".py', 'exec')", "exec('1/0')", "eval('{}[0]')", "iter(3)", "next(iter([]))", "b''.decode('utf-8') + b'\\xff'.decode()", "del zork", "a, b = 1", "lib.deep(0)",
                           "lib.fail('x')", "functools.reduce(operator.truediv, [1, 0])", "sorted([3, 'a'])", "''.join([1])", "float('z' * 30)", "x = [1]; x[0]['k'][\n        'j']", "import broken", "__import__('bad')",
                           "print(\n        (lambda q:\n            q.z)(3))"])
    else:
        call = "rec(%d)" % rng.choice([3, 5, 12, 500])
        out.append("def rec(n):\n    %s\n    return rec(n - 1) + 1" % rng.choice(["if n == 0: 1/0", "if not n: raise Mine('deep')", "if n == 0:\n        return lib.fail('end')"]))
    for k in range(n):
        f = rng.choice(["f%d", "fü%d", "_%d", "__dunder%d__"]) % k
        kind = rng.randrange(20)
        body = call
        if "\n" in body and kind in (1, 5, 9):
            kind = 0
        if kind in (1, 4, 5, 9, 10, 14) and re.match("raise|assert|import|del|a, b|x =", body):
            kind = 0
        nxt = "%s()" % f
        if kind == 18: out.append("def %s():\n    try:\n        %s\n    except Exception as e:\n        raise Mine('outer') %s" % (f, body, rng.choice(["", "from e", "from None", "from KeyError(3)"])))
        elif kind in (0, 19): out.append("def %s(a=1):\n    %s" % (f, body))
        elif kind == 1: out.append("%s = lambda: %s" % (f, body))
        elif kind == 2: out.append("class C%d:\n    def %s(self):\n        %s" % (k, f, body)); nxt = "C%d().%s()" % (k, f)
        elif kind == 3: out.append("class C%d:\n    @property\n    def p(self):\n        %s" % (k, body)); nxt = "C%d().p" % k
        elif kind == 4: out.append("def %s():\n    return [%s for _ in range(2)]" % (f, body))
        elif kind == 5: out.append("def %s():\n    return list(%s for _ in range(2))" % (f, body))
        elif kind == 6: out.append("def %s():\n    class Local:\n        %s" % (f, body))
        elif kind == 7: out.append("def %s():\n    def inner():\n        %s\n    inner()" % (f, body))
        elif kind == 8: out.append("def g%d():\n    yield 1\n    %s\ndef %s():\n    for _ in g%d():\n        pass" % (k, body, f, k))
        elif kind == 9: out.append("def %s():\n    sorted([1, 2], key=lambda x: %s)" % (f, body))
        elif kind == 10: out.append("def %s():\n    return (1 +\n            %s +\n            2)" % (f, body))
        elif kind == 11: out.append("async def co%d():\n    %s\ndef %s():\n    asyncio.run(co%d())" % (k, body, f, k))
        elif kind == 12: out.append("@contextlib.contextmanager\ndef cm%d():\n    yield 1\n    %s\ndef %s():\n    with cm%d():\n        pass" % (k, body, f, k))
        elif kind == 13: out.append("class C%d:\n    def __getattr__(self, n):\n        %s\ndef %s():\n    C%d().zz" % (k, body, f, k))
        elif kind == 14: out.append("def %s():\n    return exec(%r)" % (f, body)); out.append("import builtins; builtins.__dict__.update({k: v for k, v in globals().items() if not k.startswith('__')})")
        elif kind == 15: out.append("def %s():\n    try:\n        %s\n    finally:\n        lib.nop()" % (f, body))
        elif kind == 16: out.append("class D%d(dict):\n    def __missing__(self, k):\n        %s\ndef %s():\n    D%d()[3]" % (k, body, f, k))
        elif kind == 17: out.append("def %s():\n\n\n    # comment\n    if True:\n        %s  # trailing: comment" % (f, body) if "\n" not in body else "def %s():\n    %s" % (f, body))
        call = nxt
    out.append(call)
    return PY_HEAD + "\n".join(out) + "\n"


def observe_python(rng, d, n):
    res = []
    open(d + "/lib.py", "w").write("class LibError(Exception): pass\ndef nop(): pass\ndef fail(x):\n    raise LibError(x)\ndef deep(n):\n    return even(n + 1)\ndef even(n):\n    if n > 20: fail('even: odd')\n    return deep(n + 1)\n")
    open(d + "/bad.py", "w").write("def f(:\n  pass\n")
    open(d + "/broken.py", "w").write("import bad\n")
    for _ in range(n):
        f = rng.choice(PY_FILES)
        open(os.path.join(d, f), "w").write(PY_HOOK + py_program(rng))
        if os.path.exists(d + "/facts.json"):
            os.unlink(d + "/facts.json")
        p = run([LANGS["python"], "-B", rng.choice([f, os.path.join(d, f)])], d)
        os.unlink(os.path.join(d, f))
        if not os.path.exists(d + "/facts.json"):
            continue
        facts = json.load(open(d + "/facts.json", encoding="utf-8", errors="surrogateescape"))
        text = p.stderr.decode("latin-1")
        frames, last, rep = [], None, 0
        for fn, line, name, code in facts["frames"]:
            rep = rep + 1 if (fn, line, name) == last else 1
            last = (fn, line, name)
            if rep <= 3:
                frames.append(py_frame(fn, line, name, code))
        if facts["syntax"]:
            fn, line, code = facts["syntax"]
            frames.append(dict(py_frame(fn, line, "<syntax>", code)))
        res.append(("python", text, l1({"exception_name": facts["name"], "frames": frames[::-1]})))
    return res


def py_frame(fn, line, name, code):
    f = {"special_file": 0, "special_function": 0, "file_line": line, "file_name": fn, "function_name": name, "line_contents": code or None}
    if fn.startswith("<") and fn.endswith(">"):
        f["special_file"], f["file_name"] = 1, fn[1:-1]
    if name.startswith("<") and name.endswith(">"):
        f["special_function"], f["function_name"] = 1, name[1:-1]
    return f


# ------------------------------------------------------------------------------------------ ruby
def observe_ruby(rng, d, n):
    p = run(["ruby", HERE + "/prog.rb", str(rng.randrange(1, 2**31)), str(n), d], d)
    dec = lambda s: base64.b64decode(s).decode("latin-1")
    res, legacy = [], None
    for line in p.stdout.decode().splitlines():
        o = json.loads(line)
        text, short, name = dec(o["text"]), dec(o["short"]), dec(o["name"])
        if legacy is None:
            legacy = ":in `" in short
            if not legacy:
                return "the Ruby installed here prints the format of Ruby 3.4"
        if re.search("\n\tfrom ", dec(o["message"])):
            continue
        frames = [rb_frame(dec(a), b, dec(c)) for a, b, c in o["locs"]]
        res.append(("ruby", short, {"exception_name": name, "frames": frames}))
        if name.startswith("#<") or text.startswith(("%s: " % dec(o["locs"][0][0]), "file:")):
            continue                                    # the interpreter prints no class or, for syntax errors, no location
        if name == "SystemStackError" and len(frames) > 8 + 5 + 5:
            frames = frames[:9] + frames[-4:]           # see rb_error_write: the middle is left out
        res.append(("ruby", text, {"exception_name": name, "frames": frames}))
    return res


def rb_frame(path, line, label):
    m = re.fullmatch(r"((?:rescue in )*)(block in |block \((\d+) levels\) in |)(.*)", label, re.S)
    f = {"file_name": path, "file_line": line, "special_function": 0, "function_name": m.group(4),
         "rescue_level": m.group(1).count("rescue"), "block_level": int(m.group(3) or (1 if m.group(2) else 0))}
    if re.fullmatch(r"<[a-z].*>", f["function_name"]):
        f["special_function"], f["function_name"] = 1, f["function_name"][1:-1]
    return f


# ------------------------------------------------------------------------------------------ javascript
def observe_js(rng, d, n):
    p = run(["node", HERE + "/prog.js", str(rng.randrange(1, 2**31)), str(n), d], d)
    res = []
    for line in p.stdout.decode().splitlines():
        o = json.loads(line)
        if not o.get("sites") or o["text"] != o["text2"] or o["header"] != o["text"][:len(o["header"])]:
            continue
        if not o["header"].startswith(o["name"]) or re.match(r"\S+:\d+\n", o["text"]):
            continue                                    # syntax errors show the code first
        name = o["name"]
        if o.get("code") and o["header"].startswith("%s [%s]" % (name, o["code"])):
            name += " [%s]" % o["code"]
        if o["header"] == name and " " in name:
            continue
        frames = [js_frame(s) for s in o["sites"]]
        res.append(("js", l1(o["text"]), l1({"exception_name": name, "platform": 1, "frames": frames})))
    return res


def js_frame(s):
    f = {"file_name": None, "file_line": 0, "line_column": 0, "function_name": None}
    file, shown = s["getScriptNameOrSourceURL"] or s["getFileName"], s["str"]
    if re.search(r"\(index \d+\)$", shown) and s["isAsync"]:
        where = shown[shown.rindex("("):][1:-1]
    elif file and file.startswith("wasm://"):
        f["file_name"] = where = shown[shown.index("wasm://"):].rstrip(")")
    elif s["isNative"]:
        f["file_name"] = where = "native"
    else:
        f["file_name"] = where = (s["getEvalOrigin"] + ", " if not file and s["isEval"] else "") + (file or "<anonymous>")
        if s["getLineNumber"]:
            f["file_line"], f["line_column"] = s["getLineNumber"], s["getColumnNumber"]
            where += ":%d:%d" % (f["file_line"], f["line_column"])
    if shown.endswith(" (%s)" % where):
        shown = shown[:-len(where) - 3]
        if s["getMethodName"] and shown.endswith(" [as %s]" % s["getMethodName"]):
            shown = shown[:-len(s["getMethodName"]) - 6]
        f["function_name"] = shown
    elif shown not in (where, "async " + where):
        f["function_name"] = "unexpected call site " + shown
    return f


# ------------------------------------------------------------------------------------------ java
def observe_java(rng, d, n):
    c = run(["javac", "-nowarn", "-encoding", "UTF-8", "-d", d, HERE + "/Prog.java"], d)
    if c.returncode:
        raise ValueError("javac: " + c.stderr.decode("utf-8", "replace"))
    p = run(["java", "-Dfile.encoding=UTF-8", "-cp", d, "Prog", str(rng.randrange(1, 2**31)), str(n)], d)
    dec = lambda s: None if s == "-" else base64.b64decode(s[1:]).decode("latin-1")
    res, chain = [], None
    for line in p.stdout.decode().splitlines() + ["T - -"]:
        w = line.split(" ")
        if w[0] == "T":
            # an exception without frames at the end: further lines of its message could be anything
            if chain and not (len(chain[-1]) == 1 and more):
                res.append(("java", text, {"threads": [{"name": name, "frames": [f for e in reversed(chain) for f in e]}]}))
            text, name, chain = dec(w[1]), dec(w[2]), []
        elif w[0] == "E":
            m = dec(w[2])
            more = "\n" in (m or "")
            m = (m or "").split("\n")[0].lstrip(" \t") or None
            chain.append([{"name": dec(w[1]), "file_name": None, "file_line": 0, "class_path": None, "is_native": 0, "is_exception": 1, "message": m}])
        else:
            native = w[4] == "true"
            chain[-1].append({"name": dec(w[1]), "file_name": None if native else dec(w[2]), "file_line": max(0, int(w[3])), "class_path": None, "is_native": int(native), "is_exception": 0, "message": None})
    return res
