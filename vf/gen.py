"""Random stacktraces of every type, as specifications that name every field (so that a faithful
object dumps to exactly its specification)."""
import copy

FRAME = {
    "gdb": [("function_name", "s"), ("function_type", "s"), ("number", "u"), ("source_file", "s"), ("source_line", "u"),
            ("signal_handler_called", "b"), ("address", "q"), ("library_name", "s")],
    "core": [("address", "q"), ("build_id", "s"), ("build_id_offset", "q"), ("function_name", "s"), ("file_name", "s"),
             ("fingerprint", "s"), ("fingerprint_hashed", "b")],
    "java": [("name", "s"), ("file_name", "s"), ("file_line", "u"), ("class_path", "s"), ("is_native", "b"),
             ("is_exception", "b"), ("message", "s")],
    "koops": [("address", "q"), ("reliable", "b"), ("function_name", "s"), ("function_offset", "q"), ("function_length", "q"),
              ("module_name", "s"), ("from_address", "q"), ("from_function_name", "s"), ("from_function_offset", "q"),
              ("from_function_length", "q"), ("from_module_name", "s"), ("special_stack", "s")],
    "python": [("special_file", "b"), ("file_name", "s"), ("file_line", "u"), ("special_function", "b"),
               ("function_name", "s"), ("line_contents", "s")],
    "ruby": [("file_name", "s"), ("file_line", "u"), ("special_function", "b"), ("function_name", "s"),
             ("block_level", "u"), ("rescue_level", "u")],
    "js": [("file_name", "s"), ("file_line", "u"), ("line_column", "u"), ("function_name", "s")],
}
THREAD = {"gdb": [("number", "u"), ("tid", "u")], "core": [("id", "l")], "java": [("name", "s")]}
TAINTS = ["module_proprietary", "module_out_of_tree", "forced_module", "forced_removal", "smp_unsafe", "mce", "page_release",
          "userspace", "died_recently", "acpi_overridden", "warning", "staging_driver", "firmware_workaround",
          "unsigned_module", "soft_lockup", "live_patched"]
ST = {"gdb": [("crash_tid", "u")], "core": [("signal", "w"), ("executable", "s"), ("only_crash_thread", "b")], "java": [],
      "koops": [("version", "s")] + [("taint_" + t, "b") for t in TAINTS] + [("raw_oops", "s"), ("reason", "s")],
      "python": [("exception_name", "s")], "ruby": [("exception_name", "s")], "js": [("exception_name", "s"), ("platform", "u")]}
TYPES = ["gdb", "core", "java", "koops", "python", "ruby", "js"]
MULTI = {"gdb", "core", "java"}
SINGLE = [t for t in TYPES if t not in MULTI]
JS_PLATFORMS = [0xffffffff]  # filled in by callers that need known platforms

WORDS = ["main", "foo", "bar", "baz_quux", "std::vector<int>::at", "operator()", "g_free", "x", "do_it", "Klass.method", "??",
         "__libc_start_main", "raise", "abort", "poll", "a", "b", "c", "d", "e"]
U32 = [0, 1, 2, 10, 255, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 2, 2**32 - 1]
U64 = U32 + [2**32, 2**32 + 1, 2**40, 2**63 - 1, 2**63, 2**63 + 1, 2**64 - 2, 2**64 - 1, 0x7f0012345678, 0xffffffff81000000]


def integer(rng, kind):
    if kind == "b":
        return rng.randrange(2)
    top = {"u": 32, "w": 16, "q": 64, "l": 63}[kind]
    c = rng.random()
    if c < .35:
        return rng.randrange(20)
    if c < .7:
        return rng.choice(U64) & ((1 << top) - 1)
    return rng.getrandbits(rng.randrange(1, top + 1))


def ident(rng, alpha="abcdefghijklmnopqrstuvwxyz_"):
    return rng.choice("abcdefgh_ABC") + "".join(rng.choice(alpha + "0123456789") for _ in range(rng.randrange(0, 8)))


def hostile(rng, maxlen=24):
    """Arbitrary non-NUL bytes (latin-1), weighted to the awkward ones."""
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, maxlen])
    out = []
    for _ in range(n):
        c = rng.random()
        if c < .25:
            out.append(rng.choice('"\\/\n\t\r\b\f{}[],:'))
        elif c < .4:
            out.append(chr(rng.randrange(1, 32)))
        elif c < .5:
            out.append(chr(rng.randrange(127, 256)))
        elif c < .6:
            out.append(rng.choice(["\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\\u0041", "%s", "%n", "\x7f"]))
        else:
            out.append(chr(rng.randrange(32, 127)))
    return "".join(out)


def string(rng, mode):
    c = rng.random()
    if mode == "hostile":
        if c < .45:
            return hostile(rng)
        if c < .5:
            return "".join(hostile(rng) for _ in range(rng.randrange(1, 40)))
    if mode == "small":
        return rng.choice(["a", "b", "aa", "ab", "", "B", "\xff"])
    if c < .8:
        return rng.choice(WORDS)
    return ident(rng)


def fields(rng, desc, mode="plain", null=.2):
    o = {}
    for n, k in desc:
        if k == "s":
            o[n] = None if rng.random() < null else string(rng, mode)
        elif mode == "small":
            o[n] = integer(rng, k) if k == "b" else rng.choice([0, 1, 2, {"u": 2**32 - 1, "w": 65535, "q": 2**64 - 1, "l": 2**63 - 1}[k],
                                                                 {"u": 2**31 + 1, "w": 9, "q": 2**32, "l": 7}[k]])
        else:
            o[n] = integer(rng, k)
    return o


def frame(rng, t, mode="plain", null=.2):
    return fields(rng, FRAME[t], mode, null)


def count(rng, big=8):
    if big >= 4 and rng.random() < .003:
        return large(rng)
    return rng.choice([0, 1, 1, 2, 2, 3, 4, rng.randrange(big + 1), rng.randrange(big + 1)])


def large(rng):
    """The length of a long list: beyond anything a fixed size would hold"""
    return rng.choice([17, 33, 40, 65, 70, 130, 150, 257, 260] * 3 + [520, 1030])


def thread(rng, t, mode="plain", null=.2, maxf=8, nf=None):
    n = count(rng, maxf) if nf is None else nf
    o = fields(rng, THREAD[t] if t in MULTI else ST[t], mode, null)
    o["frames"] = [frame(rng, t, mode, null) for _ in range(n)]
    if t == "koops":
        o["modules"] = None if rng.random() < .3 else [string(rng, mode) for _ in range(count(rng, 6))]
    return o


def norm_mods(o):
    return o


def stacktrace(rng, t, mode="plain", null=.2, maxt=4, maxf=8, minf=0):
    if t not in MULTI:
        o = thread(rng, t, mode, null, maxf)
        while len(o["frames"]) < minf:
            o["frames"].append(frame(rng, t, mode, null))
    else:
        o = fields(rng, ST[t], mode, null)
        o["threads"] = [thread(rng, t, mode, null, maxf) for _ in range(count(rng, maxt))]
        if minf and not o["threads"]:
            o["threads"].append(thread(rng, t, mode, null, maxf))
        for th in o["threads"]:
            while len(th["frames"]) < minf:
                th["frames"].append(frame(rng, t, mode, null))
    if t == "gdb":
        o["crash"] = None if rng.random() < .3 else frame(rng, t, mode, null)
        o["libs"] = [{"from": integer(rng, "q"), "to": integer(rng, "q"), "symbols": rng.randrange(3), "soname": string(rng, mode)}
                     for _ in range(count(rng, 4))]
    if t == "core":
        o["crash_thread"] = rng.randrange(-1, len(o["threads"]))
    if t == "koops" and o["modules"] is None:
        pass
    if t == "js":
        o["platform"] = rng.choice([0, 0x00ffffff, 0xffffffff, 0x10, 1, 0x11, integer(rng, "u")])
    return o


def build_spec(o):
    """What the driver's builder needs: drop keys that are null objects."""
    o = copy.copy(o)
    for k in ("modules", "crash"):
        if k in o and o[k] is None:
            del o[k]
    return o


def threads(t, o):
    return o["threads"] if t in MULTI else [o]


def edited_value(rng, kind, v, mode="plain"):
    while True:
        if kind == "s":
            w = None if rng.random() < .15 else string(rng, mode)
            if w is not None and v is not None and rng.random() < .4:
                w = v + rng.choice("xy")
        else:
            w = integer(rng, kind)
        if w != v:
            return w
