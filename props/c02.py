"""C02: decoding any JSON document is memory-safe and fails only with a message."""
import copy, json
from vf import gen, jsonx
from vf.core import Check
from props import c03, c04

S, I, B = "str", "int", "bool"
FRAME = {
    "core": dict(address=I, build_id=S, build_id_offset=I, function_name=S, file_name=S, fingerprint=S, fingerprint_hashed=B),
    "java": dict(name=S, file_name=S, file_line=I, class_path=S, is_native=B, is_exception=B, message=S),
    "koops": dict(address=I, reliable=B, function_name=S, function_offset=I, function_length=I, module_name=S, from_address=I,
                  from_function_name=S, from_function_offset=I, from_function_length=I, from_module_name=S, special_stack=S),
    "python": dict(file_name=S, special_file=("unless", "file_name", S), function_name=S, special_function=("unless", "function_name", S),
                   line_contents=S, file_line=I),
    "ruby": dict(file_name=S, function_name=S, special_function=("unless", "function_name", S), file_line=I, block_level=I, rescue_level=I),
    "js": dict(file_name=S, function_name=S, file_line=I, line_column=I),
}
ROOT = {
    "core": dict(signal=I, executable=S, only_crash_thread=B, stacktrace=["arr", dict(crash_thread=B, frames=["arr", FRAME["core"]])]),
    "java": dict(threads=["arr", dict(name=S, frames=["arr", FRAME["java"]])]),
    "koops": dict(version=S, raw_oops=S, taint_flags=["arr", S], modules=["arr", S], frames=["arr", FRAME["koops"]]),
    "python": dict(exception_name=S, stacktrace=["arr", FRAME["python"]]),
    "ruby": dict(exception_name=S, stacktrace=["arr", FRAME["ruby"]]),
    "js": dict(exception_name=S, stacktrace=["arr", FRAME["js"]], platform=("platform",)),
}
PKG = dict(name=S, version=S, release=S, architecture=S, epoch=I, install_time=I, package_role=("enum", ["affected"]))
OS = dict(name=S, version=S, architecture=S, cpe=S, uptime=I)
REPORT = dict(ureport_version=I, reporter=dict(name=S, version=S), os=OS, packages=["arr", PKG], problem=("problem",), auth=("map", S))
TYPE_OF = {v: k for k, v in c04.NAMES.items() if k not in (None, "gdb")}


def valid(s, v):
    if s == S:
        return isinstance(v, str)
    if s == I:
        return isinstance(v, int) and not isinstance(v, bool)
    if s == B:
        return isinstance(v, bool)
    if isinstance(s, list):
        return isinstance(v, list) and all(valid(s[1], x) for x in v)
    if isinstance(s, dict):
        if not isinstance(v, dict):
            return False
        for k, sub in s.items():
            if k in v:
                if isinstance(sub, tuple) and sub[0] == "unless":
                    if sub[1] in v:
                        continue
                    sub = sub[2]
                if not valid(sub, v[k]):
                    return False
        return True
    if s[0] == "enum":
        return isinstance(v, str) and v in s[1]
    if s[0] == "map":
        return isinstance(v, dict) and all(valid(s[1], x) for x in v.values())
    if s[0] == "platform":
        return (isinstance(v, dict) and isinstance(v.get("engine"), str) and v["engine"] in ("V8", "<unknown>") and
                isinstance(v.get("runtime"), str) and v["runtime"] in ("Node.js", "<unknown>"))
    if s[0] == "problem":
        if not valid(dict(type=S, component=S, user=dict(root=B, local=B), serial=I), v):
            return False
        return v.get("type") not in TYPE_OF or valid(ROOT[TYPE_OF[v["type"]]], v)
    raise AssertionError(s)


def known_only(s, v):
    """The document without the parts the format does not define."""
    if isinstance(s, dict):
        return {k: known_only(s[k], x) for k, x in v.items() if k in s and not (isinstance(s[k], tuple) and s[k][0] == "unless" and s[k][1] in v)}
    if isinstance(s, list):
        return [known_only(s[1], x) for x in v]
    if isinstance(s, tuple) and s[0] == "platform":
        return {k: x for k, x in v.items() if k in ("engine", "runtime")}
    return v


DEFAULTS = {"signal": 0, "only_crash_thread": False, "is_native": False, "is_exception": False, "fingerprint_hashed": True, "reliable": False,
            "function_offset": 0, "function_length": 0, "from_function_offset": 0, "from_function_length": 0, "from_address": 0, "file_line": 0,
            "block_level": 0, "rescue_level": 0, "line_column": 0}


def normal(t, v, top=True):
    """Equal for documents that say the same: defaults left out, the crash mark resolved, taints as a set."""
    if isinstance(v, list):
        return [normal(t, x, False) for x in v]
    if not isinstance(v, dict):
        return v
    d = {k: normal(t, x, False) for k, x in v.items() if not (k in DEFAULTS and x == DEFAULTS[k]) and x not in ([],)}
    if t == "core":
        for k in ("address", "build_id_offset"):
            if d.get(k) == c03.M64:
                d.pop(k)
        if "fingerprint" not in d:
            d.pop("fingerprint_hashed", None)
        d.pop("crash_thread", None)
        if top:
            ts = v.get("stacktrace", [])
            d["_crash"] = ([i for i, x in enumerate(ts) if x.get("crash_thread")] or [0])[-1]
    elif t == "koops":
        if d.get("address") == 0:
            d.pop("address")
        if top:
            d["taint_flags"] = sorted(set(v.get("taint_flags", [])) & {k[6:] for k, _ in gen.ST["koops"] if k.startswith("taint_")})
    elif t == "java" and "file_name" not in d:
        d.pop("file_line", None)
    elif t == "js" and top and d.get("platform") == {"engine": "<unknown>", "runtime": "<unknown>"}:
        d.pop("platform")
    return d


def in_range(v, k=""):
    """Numbers the fields can hold (others are accepted but their value is unspecified)."""
    if isinstance(v, dict):
        return all(in_range(x, kk) for kk, x in v.items())
    if isinstance(v, list):
        return all(in_range(x, k) for x in v)
    if isinstance(v, str):
        return "\0" not in v
    if isinstance(v, bool) or not isinstance(v, int):
        return True
    top = 16 if k == "signal" else 32 if k in ("file_line", "block_level", "rescue_level", "line_column") else 64
    return 0 <= v < 1 << top


WRONG = [None, True, False, 0, 1, -1, 2**31, 2**32, 2**63, 2**64 - 1, 2**64, -2**63, -2**64, 10**40, 1.5, -0.0, 1e300, "", "x", "\0", "a\0b", "\ud800".encode("utf8", "surrogatepass").decode("latin-1"),
         [], {}, [[]], [{}], {"": None}, [None], ["x"], "<unknown>", "affected", "core", "gdb"]


def paths(v, p=()):
    yield p
    if isinstance(v, dict):
        for k in v:
            yield from paths(v[k], p + (k,))
    elif isinstance(v, list):
        for i in range(len(v)):
            yield from paths(v[i], p + (i,))


def mutate(rng, d):
    """One structural change somewhere in the document."""
    ps = list(paths(d))
    p = rng.choice(ps)
    if not p:
        return rng.choice([d, d, copy.deepcopy(rng.choice(WRONG))]), "root"
    q = d
    for k in p[:-1]:
        q = q[k]
    k, c = p[-1], rng.random()
    if c < .45:
        q[k] = copy.deepcopy(rng.choice(WRONG))
        return d, "value"
    if c < .6:
        del q[k]
        return d, "drop"
    if c < .7 and isinstance(q, list):
        q.insert(k, copy.deepcopy(rng.choice([q[k]] * 3 + WRONG[:6])))
        return d, "insert"
    if c < .8:
        v = q[k]
        for _ in range(rng.choice([1, 2, 20, 40])):
            v = [v] if rng.random() < .5 else {"x": v}
        q[k] = v
        return d, "nest"
    if c < .9 and isinstance(q, dict):
        items = list(q.items())
        rng.shuffle(items)
        q.clear()
        q.update(items)
        return d, "shuffle"
    if isinstance(q, dict):
        q[rng.choice(["extra", "", "frames", "stacktrace", "type", "threads", "special_file", "crash_thread", "message", "name"])] = copy.deepcopy(rng.choice(WRONG + [q[k]]))
        return d, "extra"
    return d, "none"


def tame(kind, v):
    """Keeps the nesting level of Ruby frames renderable (see the known finding)."""
    if isinstance(v, dict):
        return {k: (x % 50 if k == "rescue_level" and isinstance(x, int) and not isinstance(x, bool) else tame(kind, x)) for k, x in v.items()}
    return [tame(kind, x) for x in v] if isinstance(v, list) else v


def depth(v):
    return 1 + max([depth(x) for x in (v.values() if isinstance(v, dict) else v)], default=0) if isinstance(v, (dict, list)) else 0


def base(rng, kind):
    """(schema, document) of one of the decodable kinds."""
    mode = rng.choice(["plain", "plain", "hostile"])
    if kind in ROOT:
        t = kind
        o = gen.stacktrace(rng, t, mode, null=rng.choice([.2, .2, .8]), maxt=3, maxf=4)
        if t == "js":
            o["platform"] = rng.choice([0, 1, 0x10, 0x11])
        for th in gen.threads(t, o):
            for f in th["frames"]:
                if t == "ruby":
                    f["rescue_level"] %= 50
        return ROOT[t], c03.doc(t, o)
    if kind == "report":
        t, r, st = c04.report(rng, c04.C04.ENUM, mode=mode)
        return REPORT, c04.doc(t, r, st, "satyr", "0.43")
    if kind == "pkg":
        return PKG, c04.pkg_doc(c04.package(rng, mode))
    if kind == "pkgs":
        return ["arr", PKG], [c04.pkg_doc(c04.package(rng, mode)) for _ in range(gen.count(rng, 5))]
    if kind == "os":
        return OS, c04.os_doc(c04.system(rng, mode))
    return ("platform",), {"engine": rng.choice(["V8", "<unknown>"]), "runtime": rng.choice(["Node.js", "<unknown>"])}


KINDS = list(ROOT) + ["report"] * 3 + ["pkg", "pkgs", "os", "platform", "gdb"]
RAW = ["", " ", "{", "}", "[", "nul", "null", "true", "0", '"', '"x', "{]", "[}", "{\"a\"}", "{\"a\":}", "{:1}", "{'a':1}", "NaN", "-Infinity", "\xff\xfe", "\xef\xbb\xbf{}",
       "/* */ {}", "[" * 10, "[" * 33, "[" * 5000, "{\"a\":" * 5000, "{\"stacktrace\":[" * 40, "\"\\u", "\"\\ud800\"", "\"\\x\"", "1e", "-", "--1", "{\"stacktrace\":[{}{}]}",
       "{}garbage", "{} {}", "[]]", "\x01", "{\"signal\":1e5}", "{\"a\":1,}", "{,}", "truefalse"]


def text_of(rng, d):
    """The document as UTF-8 JSON text; strings of bytes above 127 stay bytes."""
    return json.dumps(d, ensure_ascii=False, separators=rng.choice([(",", ":"), (", ", ": "), (" ,\n\t", " :\n")]))


class C02(Check):
    memcheck = (1200, 20000)
    id = "C02"
    quick_n, thorough_n, chunk = 24000, 800000, 250
    rule = ("one case = a document (valid, structurally mutated, truncated, byte-mutated or arbitrary) decoded as one kind of object with and without "
            "a message requested; the verdict is compared with the format's schema, a decoded object is encoded, hashed, rendered, duplicated and "
            "freed; distinct = texts")
    assumptions = ["the JSON reader (json-c) is lenient about trailing text, comments and the like: byte-mutated texts are judged for safety and "
                   "consistency only, structural mutations and truncations also for acceptance",
                   "documents are up to some tens of kilobytes (decoding is quadratic in the number of frames); Ruby rescue levels are below 50 "
                   "(each is spelled out in renderings)"]

    def make(self, rng, i):
        kind = KINDS[i % len(KINDS)]
        c, expect, sem, muts = rng.random(), None, None, []
        if kind == "gdb":
            d = rng.choice([{}, [], {"threads": []}])
            text, expect = text_of(rng, d), False
        elif c < .04:
            text = rng.choice(RAW)
            if rng.random() < .2:
                text = gen.hostile(rng, 60).replace("\0", "")
            if text in RAW[:13]:
                expect = False
        else:
            s, d = base(rng, kind)
            d = copy.deepcopy(d)
            if rng.random() < .85:
                for _ in range(rng.choice([1, 1, 1, 2, 3])):
                    d, m = mutate(rng, d)
                    muts.append(m)
            d = tame(kind, d)
            text = text_of(rng, d)
            deep = depth(d)
            huge = any(isinstance(v, str) and len(v) > 4000 for v in [text])
            expect = valid(s, d)
            if deep > 31:
                expect = False if deep > 33 else None
            if expect and kind in ROOT and in_range(d):
                sem = known_only(s, d)
            if c < .12 and isinstance(d, (dict, list)) and len(text) > 1:
                text, expect, sem = text[:rng.randrange(1, len(text))], False, None
                muts.append("truncated")
            elif c < .25:
                b = list(text)
                for _ in range(rng.choice([1, 1, 2, 5])):
                    if b:
                        j = rng.randrange(len(b))
                        b[j:j + rng.choice([0, 1, 1, 4])] = rng.choice(['"', "{", "}", "[", "]", ",", ":", "\\", "\x01", "\xff", "1", "-", "e", "null", "true", '""', "\\u0000", "999999999999999999999"])
                if kind in ("ruby", "report"):
                    b = "".join(b).replace("rescue_level", "rescue_leveI")
                text, expect, sem = "".join(b), None, None
                muts.append("bytes")
            elif c < .3 and isinstance(d, dict) and d:
                # repeated keys: the last one counts
                k = rng.choice(list(d))
                text = "{%s:%s,%s" % (json.dumps(k, ensure_ascii=False), text_of(rng, copy.deepcopy(rng.choice(WRONG))), text.lstrip()[1:])
                muts.append("repeated")
                expect, sem = None if isinstance(expect, bool) and not expect else expect, sem
        text = text.replace("\0", "")
        try:
            text.encode("latin-1")
        except UnicodeEncodeError:
            text = text.encode("utf8", "surrogatepass").decode("latin-1")
        nomsg = rng.random() < .3
        if kind in ROOT or kind == "gdb":
            cmds = [["fromjson", 0, kind, text] + (["0"] if nomsg else ["1"] if rng.random() < .5 else []),
                    ["?tojson", 0], ["?bthash", 0, 0], ["?short", 0, 5], ["?reason", 0], ["?dup", 0, 1], ["?free", 0], ["?tojson", 1], ["?dump", 1]]
        elif kind == "report":
            cmds = [["rep", "fromjson", 0, text] + (["0"] if nomsg else []), ["?rep", "dump", 0], ["?rep", "tojson", 0]]
        elif kind in ("pkg", "pkgs"):
            cmds = [["pkg", "fromjson", 0, text, int(kind == "pkgs")] + (["0"] if nomsg else []), ["?pkg", "dump", 0], ["?pkg", "tojson", 0, 1]]
        elif kind == "os":
            cmds = [["os", "fromjson", 0, text] + (["0"] if nomsg else []), ["?os", "dump", 0], ["?os", "tojson", 0]]
        else:
            cmds = [["jsplat", "from", text] + (["0"] if nomsg else [])]
        return cmds, {"kind": kind, "expect": expect, "sem": sem, "nomsg": nomsg, "muts": muts}

    def fixed_cases(self):
        return [([["fromjson", 0, "ruby", '{"stacktrace":[{"function_name":"f","rescue_level":4294967295}]}'], ["?short", 0, 5]],
                 {"kind": "ruby", "expect": True, "sem": None, "nomsg": False, "muts": [], "levels": True})]

    def crash(self, cmds, meta, c):
        if meta.get("levels"):
            return [("ruby-rescue-level", "rendering a decoded Ruby frame with rescue_level 4294967295 exhausts memory: " + c.args[0])]
        return Check.crash(self, cmds, meta, c)

    def judge(self, cmds, meta, res, obs):
        kind, out, r = meta["kind"], [], res[0]
        ok = r["ok"] if "ok" in r else r["ret"] == 0 if "ret" in r else r["os"] is not None if "os" in r else r["err"] is None
        err, text = r["err"], [x for x in cmds[0] if isinstance(x, str)][-2 if meta["nomsg"] else -1]
        obs.distinct(kind + repr(cmds[0]))
        obs.count("decodes %s %s" % (kind, "accepted" if ok else "refused"))
        for m in meta["muts"]:
            obs.count("mutation " + m)
        if not ok and not meta["nomsg"] and not err:
            out.append(("silent:" + kind, "decoding fails without a message: %s" % text[:1500]))
        if ok and err:
            out.append(("accepted-with-error:" + kind, "decoding succeeds yet sets the message %r: %s" % (err, text[:1500])))
        if meta["expect"] is not None and kind != "platform" and ok != meta["expect"]:
            out.append((("refused:" if meta["expect"] else "accepted:") + kind, "a document that %s is %s (%r): %s" % (
                "fits the format" if meta["expect"] else "does not fit the format", "accepted" if ok else "refused", err, text[:1500])))
        if kind == "platform" and not meta["nomsg"] and meta["expect"] is not None and (err is None) != meta["expect"]:
            out.append(("platform", "platform document %s: expected %s, message %r" % (text[:500], meta["expect"], err)))
        if ok and kind in ROOT and not meta.get("levels"):
            try:
                d1, d2 = jsonx.strict(res[1]), jsonx.strict(res[7])
            except jsonx.Bad as e:
                return out + [("malformed:" + kind, "a decoded object gives malformed JSON (%s): %s" % (e, text[:1500]))]
            if res[1] != res[7]:
                out.append(("copy:" + kind, "the copy of a decoded object encodes differently"))
            if meta["sem"] is not None:
                a, e = normal(kind, d1), normal(kind, meta["sem"])
                if a != e:
                    out.append(("meaning:" + kind, "decoded as %r, the document says %r: %s" % (c03.diff(a, e) + (text[:1200],))))
                else:
                    obs.count("meanings compared")
        return out


CHECK = C02
