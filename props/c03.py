"""C03: stacktrace JSON is strict JSON and round-trips losslessly."""
import copy, json
from vf import gen, jsonx, known_frames
from vf.core import Check
from vf.driver import spec

M64 = 2**64 - 1
ENGINE, RUNTIME = {1: "V8"}, {1: "Node.js"}


def frame_doc(t, f):
    """The document the format defines for a frame: every field with its exact value."""
    d = {}
    def put(k, v, cond=True):
        if cond and v is not None:
            d[k] = v
    if t == "core":
        put("address", f["address"], f["address"] != M64)
        put("build_id", f["build_id"])
        put("build_id_offset", f["build_id_offset"], f["build_id_offset"] != M64)
        for k in ("function_name", "file_name", "fingerprint"):
            put(k, f[k])
        put("fingerprint_hashed", False, f["fingerprint"] is not None and not f["fingerprint_hashed"])
    elif t == "java":
        for k in ("name", "file_name", "class_path", "message"):
            put(k, f[k])
        put("file_line", f["file_line"], f["file_name"] is not None)
        d["is_native"], d["is_exception"] = bool(f["is_native"]), bool(f["is_exception"])
    elif t == "koops":
        for k in ("address", "from_address"):
            put(k, f[k], f[k] != 0)
        d["reliable"] = bool(f["reliable"])
        for k in ("function_name", "module_name", "from_function_name", "from_module_name", "special_stack", "function_offset",
                  "function_length", "from_function_offset", "from_function_length"):
            put(k, f[k])
    else:
        if t == "python":
            put("special_file" if f["special_file"] else "file_name", f["file_name"])
            put("line_contents", f["line_contents"])
        else:
            put("file_name", f["file_name"])
        put("special_function" if f.get("special_function") else "function_name", f["function_name"])
        for k in {"python": ["file_line"], "ruby": ["file_line", "block_level", "rescue_level"], "js": ["file_line", "line_column"]}[t]:
            put(k, f[k], f[k] != 0)
    return d


def doc(t, o):
    d = {}
    def put(k, v, cond=True):
        if cond and v is not None:
            d[k] = v
    fr = lambda th: [frame_doc(t, f) for f in th["frames"]]
    if t == "core":
        d["signal"] = o["signal"]
        put("executable", o["executable"])
        put("only_crash_thread", True, o["only_crash_thread"])
        d["stacktrace"] = []
        c = o["crash_thread"] if o["crash_thread"] >= 0 else 0
        for i, th in enumerate(o["threads"]):
            x = {"frames": fr(th)} if th["frames"] else {}
            if i == c:
                x["crash_thread"] = True
            d["stacktrace"].append(x)
    elif t == "java":
        d["threads"] = []
        for th in o["threads"]:
            x = {} if th["name"] is None else {"name": th["name"]}
            if th["frames"]:
                x["frames"] = fr(th)
            d["threads"].append(x)
    elif t == "koops":
        put("raw_oops", o["raw_oops"])
        put("version", o["version"])
        d["taint_flags"] = sorted(k[6:] for k, _ in gen.ST["koops"] if k.startswith("taint_") and o[k])
        put("modules", o["modules"])
        put("frames", fr(o), bool(o["frames"]))
    else:
        put("exception_name", o["exception_name"])
        put("stacktrace", fr(o), bool(o["frames"]))
        if t == "js" and o["platform"]:
            d["platform"] = {"engine": ENGINE.get(o["platform"] & 15, "<unknown>"), "runtime": RUNTIME.get(o["platform"] >> 4, "<unknown>")}
    return d


def canon(d):
    """Ignores the order of taint flags, which the format does not fix."""
    if "taint_flags" in d and isinstance(d["taint_flags"], list):
        d = dict(d, taint_flags=sorted(d["taint_flags"]))
    return d


def decoded(t, o):
    """What decoding the document yields: the fields the format defines."""
    o = copy.deepcopy(o)
    for th in gen.threads(t, o):
        if t == "core":
            th.pop("id", None)
        for f in th["frames"]:
            if t == "core" and f["fingerprint"] is None:
                f["fingerprint_hashed"] = 1
            if t == "java" and f["file_name"] is None:
                f["file_line"] = 0
            if t == "python" and f["file_name"] is None:
                f["special_file"] = 0
            if t in ("python", "ruby") and f["function_name"] is None:
                f["special_function"] = 0
    if t == "core" and o["crash_thread"] < 0 and o["threads"]:
        o["crash_thread"] = 0
    if t == "koops":
        o["reason"] = None
    return o


def drop_id(t, o):
    if t == "core":
        for th in o["threads"]:
            th.pop("id", None)
    return o


class C03(Check):
    id = "C03"
    quick_n, thorough_n, chunk = 48000, 400000, 250
    rule = ("one case = a stacktrace encoded, the text parsed by a strict RFC 8259 reader and compared with the document the format defines, "
            "decoded again and compared field by field, and re-encoded; distinct = documents")
    assumptions = ["bytes above 127 pass through the encoder unchanged (the library does not know the strings' encoding)",
                   "fields the format leaves out when they carry no information (for example the line of a Java frame without file) "
                   "decode to their initial value; the kernel oops reason line is not part of its format"]

    def make(self, rng, i):
        t = [x for x in gen.TYPES if x != "gdb"][i % 6]
        o = gen.stacktrace(rng, t, rng.choice(["plain", "hostile", "hostile", "small"]), null=rng.choice([.2, .2, .9, 1]), minf=rng.randrange(2))
        for th in gen.threads(t, o):
            for f in th["frames"]:
                if rng.random() < .15:
                    for k, kind in gen.FRAME[t]:
                        f[k] = None if kind == "s" else 0
        if t == "js":
            o["platform"] = rng.choice([0, 1, 0x10, 0x11])
        if t == "koops" and rng.random() < .06:
            o["modules"] = [gen.ident(rng) for _ in range(rng.choice([126, 127, 128, 129, 255, 256, 257, 600]))]
        if t == "core" and rng.random() < .5:
            for th in o["threads"]:
                for f in th["frames"]:
                    f["address"] = rng.choice([M64, M64 - 1, 2**63, f["address"]])
        cmds = [["build", 0, t, spec(o)], ["tojson", 0], ["fromjson", 1, t, "@@1", 1], ["?dump", 1], ["?tojson", 1], ["dump", 0], ["free", 0], ["?dump", 1]]
        return cmds, {"t": t, "o": o}

    def judge(self, cmds, meta, res, obs):
        t, o, out = meta["t"], meta["o"], []
        text = res[1]
        try:
            d = jsonx.strict(text)
        except jsonx.Bad as e:
            return [("malformed:" + t, "encoding %r gives malformed JSON (%s): %s" % (clip(o), e, text[:1500]))]
        obs.distinct(text)
        obs.count("documents " + t)
        e = doc(t, o)
        if canon(d) != canon(e):
            out.append(("document:" + t, "document %r differs from the format's %r" % diff(canon(d), canon(e))))
        if not res[2].get("ok"):
            out.append(("refused:" + t, "decoding its own document fails: %r for %s" % (res[2], text[:1500])))
            return out
        if drop_id(t, res[3]) != decoded(t, o):
            out.append(("roundtrip:" + t, "decoded %r expected %r" % diff(res[3], decoded(t, o))))
        if res[4] != text:
            out.append(("reencode:" + t, "second encoding differs: %r / %r" % (res[4], text)))
        if drop_id(t, res[5]) != drop_id(t, copy.deepcopy(o)):
            out.append(("modified:" + t, "encoding changed the stacktrace"))
        if drop_id(t, res[7]) != drop_id(t, res[3]):
            out.append(("dependent:" + t, "the decoded stacktrace changed when the source was freed"))
        return out


def clip(o):
    return repr(o)[:600]


def diff(a, b):
    if isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b):
        for k in a:
            if a[k] != b[k]:
                return diff(a[k], b[k])
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for x, y in zip(a, b):
            if x != y:
                return diff(x, y)
    return a, b


CHECK = C03
