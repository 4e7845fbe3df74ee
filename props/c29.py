"""C29: module, library, unwind-range and callee lookups answer by containment."""
import copy
from vf import gen, texts, known_frames
from vf.core import Check
from vf.driver import spec

M64 = 2 ** 64 - 1


def u64(rng):
    return rng.choice([0, 1, 0x400000, M64, M64 - 0xfff, 0x7fff00000000, 2 ** 63, rng.randrange(2 ** 64), rng.randrange(2 ** 32), rng.randrange(64)])


def probes(rng, ranges):
    c = [0, 1, M64, M64 - 1, 2 ** 63, rng.randrange(2 ** 64)]
    for a, b in ranges:
        c += [a, a - 1, a + 1, b, b - 1, b + 1, (a + b) // 2]
    c = [x for x in c if 0 <= x <= M64]
    return [rng.choice(c) for _ in range(rng.randint(1, 12))] + c[-4:]


HEX = "0123456789abcdef"
NAMES = ["-", ".", "/usr/bin/will_segfault", "/lib64/libc-2.31.so", "[exe]", "[vdso:", "linux-vdso.so.1", "libc.so.6", "/a/0x10+0x20", "x", "\xc3\xa9",
         "/usr/lib/debug/x.debug", "0x400000+0x1000"]


def unstrip_case(rng):
    out, exp = [], []
    sp = lambda: rng.choice([" ", " ", " ", "  ", "\t"])
    for _ in range(rng.choice([0, 1, 1, 2, 3, 5, gen.count(rng, 12)])):
        if rng.random() < .12:
            out.append(rng.choice(["", "garbage", "eu-unstrip: cannot read", "0x", "0x400000", "0x400000 + 0x10 a b c d", "400000+0x10 a b c d", " ", "# x",
                                   "0x400000-0x500000 ab@0x1 /a /b c", "+0x10", "\x80\xff"]))
            continue
        start, length = u64(rng), rng.choice([0, 1, 2, 0x1000, 0x207000, M64, u64(rng)])
        if rng.random() < .2:
            length = (2 ** 64 - start) & M64           # up to the very end
        bid = rng.choice(["", "-", "".join(rng.choice(HEX) for _ in range(rng.choice([2, 16, 40, 41, 32, 63, 64, 65, 128, 500]) if rng.random() < .3 else 40)), "ABCDEF", "abcg12"])
        lead = "".join(ch for ch in bid)
        k = 0
        while k < len(lead) and lead[k] in "0123456789abcdefABCDEF":
            k += 1
        col = bid + (rng.choice(["@0x400284", "@", "", ""]) if bid else "")
        # the number of columns after the addresses actually present
        n = 4 if rng.random() < .85 else rng.randrange(4)
        if not col:
            n = 0
        cols = [col] + [rng.choice(NAMES) if rng.random() < .98 else rng.choice(NAMES) + "/" + "n" * rng.choice([30, 62, 63, 64, 126, 253, 254, 255, 256, 300, 1022, 4096, 5000])
                        for _ in range(3)]
        line = "0x%x+0x%x" % (start, length)
        for c in cols[:n]:
            line += sp() + c
        if rng.random() < .1:
            line += sp()
        elif n == 4 and rng.random() < .1:
            line += sp() + "extra 0x1+0x2"
        out.append(line)
        exp.append([start, length, bid[:k] if n else "", cols[1] if n > 1 else "", cols[3] if n > 3 else ""])
    text = "\n".join(out) + rng.choice(["\n", "\n", ""])
    pr = probes(rng, [(e[0], e[0] + e[1]) for e in exp])
    f = []
    for x in pr:
        f.append(next((i for i, e in enumerate(exp) if e[0] <= x < e[0] + e[1]), -1))
    return [["unstrip", text.encode("latin-1")] + [str(x) for x in pr]], {"kind": "unstrip", "exp": {"e": exp, "f": f}, "key": [exp, f]}


def fde_case(rng):
    es = []
    for _ in range(rng.choice([1, 1, 2, 3, 5, 9]) if rng.random() < .997 else gen.large(rng)):
        base = rng.choice([0, 0, 0x400000, u64(rng)])
        start = rng.choice([0, 0x10, 0x1000, u64(rng)])
        es.append((base, start, rng.choice([0, 1, 0x10, 0x1000, u64(rng), M64])))
    q, exp = [], []
    first = lambda ok: next((i for i, e in enumerate(es) if ok(e)), -1)
    for x in probes(rng, [(e[1], e[1] + e[2]) for e in es]):
        q.append("o%d" % x)
        exp.append(first(lambda e: e[1] <= x < e[1] + e[2]))
    es2 = [((b + s) & M64, n) for b, s, n in es]
    for x in probes(rng, [(s, s + n) for s, n in es2]):
        q.append("a%d" % x)
        exp.append(next((i for i, (s, n) in enumerate(es2) if s <= x < s + n), -1))
        q.append("s%d" % x)
        exp.append(next((i for i, (s, n) in enumerate(es2) if s == x), -1))
    return [["fde", ";".join("%d,%d,%d" % e for e in es)] + q], {"kind": "fde", "exp": exp, "es": es, "key": [es, exp]}


def callee_case(rng):
    ins, exp = [], []
    pool = [0x400510, 0x1, M64, 0xdeadbeef, rng.randrange(1, 2 ** 64), rng.randrange(1, 4096)]
    if rng.random() < .01:
        pool += [rng.randrange(1, 2 ** 64) for _ in range(gen.large(rng))]
    for _ in range(rng.choice([0, 1, 2, 3, 6, 12]) if len(pool) < 10 else 2 * len(pool)):
        c = rng.random()
        a = rng.choice(pool)
        if c < .55:
            mn = rng.choice(["call", "callq", "calll", "callw", "callb"])
            ins.append(mn + rng.choice([" ", "  ", "   "]) + rng.choice(["0x%x", "%x", "0x%016x"]) % a + rng.choice(["", "", " "]))
            if a not in exp:
                exp.append(a)
        elif c < .75:
            ins.append(rng.choice(["callq *%rax", "call *0x10(%rip)", "callq 0x400510 <main>", "callq", "call ", "callq %rax"]))
        else:
            ins.append(rng.choice(["mov %rsp,%rbp", "jmp 0x%x" % a, "push %rbx", "", "ret", "callfar 0x%x" % a, "callqq 0x%x" % a, "xcall 0x%x" % a,
                                   "calls 0x%x" % a, "nop"]))
    mn = rng.sample(["call", "callq", "jmp", "mov", "nop", "ret", "", "x", "callfar", "push"], rng.choice([0, 1, 1, 2, 3]))
    one = [int(any(i == m or i.startswith(m + " ") for m in mn)) for i in ins]
    return [["callees"] + ins, ["dtext"] + ins, ["dmnem", len(mn)] + mn + ins], {"kind": "callees", "one": one + [int(any(one))], "exp": exp, "text": "".join(i + "\n" for i in ins), "key": [ins]}


def lib_case(rng):
    o = known_frames.stacktrace(rng, "gdb", mint=1)
    o["libs"] = []
    for _ in range(rng.choice([0, 1, 2, 3, 6])):
        a = rng.choice([u64(rng), M64, 0x7f0000000000])
        b = rng.choice([a, min(M64, a + rng.choice([1, 0x1000, 0x200000])), u64(rng)])
        o["libs"].append({"from": a, "to": b, "symbols": rng.randrange(3),
                          "soname": rng.choice(["/lib64/libc-2.31.so", "/lib64/libglib-2.0.so.0", "libx.so.1.2", "/a.so/b", "/usr/bin/foo", "", "/x/", "a.sobar.so.3", "/lib/ld-linux.so.2",
                                                "/opt/lib.so.d/libm.so.6"])})
    pr = probes(rng, [(l["from"], l["to"]) for l in o["libs"]])
    for th in o["threads"]:
        for f in th["frames"]:
            if rng.random() < .7:
                f["address"] = rng.choice(pr)
    ti = rng.randrange(len(o["threads"]))
    maxf = rng.choice([0, 0, 1, 2, 5, -1])
    cmds = [["build", 0, "gdb", spec(o)], ["gdb", "optimized", 0, ti, maxf, 1], ["dump", 1], ["dump", 0]]
    cmds += [["gdb", "find_lib", 0, str(x)] for x in pr]
    cmds += [["gdb", "libnames", 0], ["dump", 0]]
    return cmds, {"kind": "libs", "o": o, "ti": ti, "maxf": maxf, "pr": pr, "key": [o["libs"], pr]}


class C29(Check):
    id = "C29"
    quick_n, thorough_n, chunk = 60000, 400000, 300
    rule = ("one case = a module listing, library list, unwind-range list or disassembly with addresses at, before and after every boundary and at the 64-bit "
            "extremes, whose lookups are compared with containment computed from the written ranges; distinct = (ranges, probes) or instruction lists")
    assumptions = ["unwind-range lookups are exercised on lists built by the harness; reading them out of ELF files is C31",
                   "unstrip numbers are written as 0x and at most 16 hex digits; where ranges overlap the first listed entry is the answer",
                   "a list of callees ends with 0, so calls of address 0 are not generated"]

    def make(self, rng, i):
        return [unstrip_case, unstrip_case, fde_case, callee_case, lib_case][i % 5](rng)

    def judge(self, cmds, meta, res, obs):
        k, out = meta["kind"], []
        obs.count(k + " cases")
        obs.distinct([k, meta["key"]])
        if k == "unstrip":
            e, g = meta["exp"], res[0]
            if g["e"] != e["e"]:
                out.append(("unstrip-entries", "%r is read as %r, expected %r" % (cmds[0][1], g["e"], e["e"])))
            elif g["f"] != e["f"]:
                out.append(("unstrip-find", "modules %r, addresses %r: found %r, expected %r" % (e["e"], cmds[0][2:], g["f"], e["f"])))
            obs.count("modules", len(e["e"]))
            obs.count("addresses inside a module", sum(x >= 0 for x in e["f"]))
            obs.count("addresses outside", sum(x < 0 for x in e["f"]))
        elif k == "fde":
            if res[0][:-1] != meta["exp"]:
                out.append(("fde-find", "ranges %r queries %r: found %r, expected %r" % (meta["es"], cmds[0][2:], res[0][:-1], meta["exp"])))
            import json
            want = [{"start_address": s, "length": n} for _, s, n in meta["es"]]
            try:
                got = json.loads(res[0][-1])
            except Exception as x:
                got = str(x)
            if got != want:
                out.append(("fde-json", "%r written as %r" % (want, res[0][-1])))
            obs.count("ranges found", sum(x >= 0 for x in meta["exp"]))
            obs.count("no range", sum(x < 0 for x in meta["exp"]))
        elif k == "callees":
            if res[0] != meta["exp"]:
                out.append(("callees", "callees of %r are %r, expected %r" % (cmds[0][1:], res[0], meta["exp"])))
            if res[1] != meta["text"]:
                out.append(("instructions-text", "%r" % res[1]))
            if res[2] != meta["one"]:
                out.append(("mnemonics", "mnemonics and instructions %r: found %r, expected %r" % (cmds[2][1:], res[2], meta["one"])))
            obs.count("callees", len(meta["exp"]))
        else:
            o, ti, pr = meta["o"], meta["ti"], meta["pr"]
            libs = o["libs"]
            want = texts.optimized(o["threads"][ti], libs, meta["maxf"])
            if res[2] != want:
                out.append(("optimised-thread", "libraries %r: thread %r became %r, expected %r" % (libs, o["threads"][ti], res[2], want)))
            if res[3] != o:
                out.append(("source-changed", "preparing a thread for comparison changed the stacktrace"))
            for x, g in zip(pr, res[4:]):
                e = -1 if x == M64 else next((i for i, l in enumerate(libs) if l["from"] <= x <= l["to"]), -1)
                obs.count("library found" if e >= 0 else "no library")
                if e != g:
                    out.append(("library-find", "address 0x%x in %r: found %r, expected %r" % (x, libs, g, e)))
                    break
            named = copy.deepcopy(o)
            for th in named["threads"]:
                before = [f["library_name"] for f in th["frames"]]
                texts.set_libnames(th, libs)
                obs.count("frames given a library name", sum(a != f["library_name"] for a, f in zip(before, th["frames"])))
            if res[-1] != named:
                out.append(("library-names", "libraries %r: %r expected %r" % (libs, res[-1], named)))
        return out


CHECK = C29
