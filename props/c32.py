"""C32: call graphs hold exactly the functions reached by direct calls."""
import json
from vf import gen
from vf.core import Check

M64 = 2 ** 64 - 1
MN = ["call", "callq", "calll", "callw", "callb"]


def listing(rng, callees):
    """Instructions that call exactly these addresses (repeats allowed) -> (lines, first-call order)"""
    ins, order = [], []
    for _ in range(rng.randrange(3)):
        ins.append(rng.choice(["push %rbp", "mov %rsp,%rbp", "nop", "", "callq *%rax", "call *0x8(%rip)", "callq 0x400510 <main>", "jmp 0x400500", "callfar 0x1000"]))
    for c in callees:
        ins.append(rng.choice(MN) + rng.choice([" ", "  ", "\t"][:2]) + rng.choice(["0x%x", "%x"]) % c)
        if c not in order:
            order.append(c)
        if rng.random() < .4:
            ins.append(rng.choice(["test %eax,%eax", "je 0x400600", "callq *0x10(%rax)", "ret", "retq", "leave"]))
    return ins, order


class C32(Check):
    id = "C32"
    quick_n, thorough_n, chunk = 36000, 400000, 300
    rule = ("one case = a program of up to 40 functions (unwind ranges with different bases, recursion, cycles, calls into unknown code, functions whose code cannot be "
            "disassembled) whose call graph is computed whole or extended from one start after another, compared with reachability over the written calls; distinct = programs")
    assumptions = ["the disassembler is compiled out of this configuration: lib/callgraph.c and lib/disasm.c's callee extraction run for real on listings supplied at that one call "
                   "(linked with --wrap)", "address 0 terminates callee lists by design and is not called"]

    def make(self, rng, i):
        n = rng.choice([1, 2, 3, 5, 8, 14, 40]) if rng.random() < .997 else gen.large(rng)
        base = rng.choice([0, 0x1000, 0x400000, 0x3463e00000, M64 - 0x40000])
        fs, pos = [], rng.choice([0x10, 0x100])
        for _ in range(n):
            b = base if rng.random() < .9 else rng.choice([0, 0x1000, 0x8000])
            ln = rng.choice([1, 16, 64, 333])
            fs.append((b, pos, ln))
            pos += ln + rng.choice([0, 0, 7, 16]) if rng.random() < .97 else ln // 2 or 1     # some ranges overlap
        if rng.random() < .1 and n > 1:                      # two ranges with the same start: the first counts
            fs.append((fs[0][0], fs[0][1], fs[0][2] + 5))
        addr = [(b + s) & M64 for b, s, _ in fs]
        code, table = [], {}
        shape = rng.choice(["tree", "cycle", "random", "random", "chain", "star"])
        for j, (b, s, ln) in enumerate(fs):
            if (addr[j], ln) in table:
                continue
            c = []
            if shape == "chain":
                c = [addr[j + 1]] if j + 1 < len(fs) else []
            elif shape == "cycle":
                c = [addr[(j + 1) % len(fs)]]
            elif shape == "star":
                c = addr[1:] if j == 0 else [addr[0]]
            elif shape == "tree":
                c = [addr[k] for k in (2 * j + 1, 2 * j + 2) if k < len(fs)]
            else:
                c = [rng.choice(addr) for _ in range(rng.randrange(5))]
            c = [x for x in c if x]
            for _ in range(rng.choice([0, 0, 1])):           # PLT stubs, the middle of a function
                c.insert(rng.randrange(len(c) + 1), rng.choice([0x33, (addr[j] + 1) & M64 or 5, M64, rng.choice(addr) or 7, fs[j][1] or 9]))
            ins, order = listing(rng, c)
            table[(addr[j], ln)] = order
            if rng.random() < .06:                            # cannot be disassembled
                table[(addr[j], ln)] = None
            else:
                code.append([str(addr[j]), str(ln)] + ins)
        first = lambda a: next((k for k, x in enumerate(addr) if x == a), None)
        probes = [rng.choice(addr + [0x33, 5]) for _ in range(3)]
        d = {"fdes": [[str(x) for x in f] for f in fs], "code": code, "find": [str(p) for p in probes]}
        graph, steps, seen = [], [], set()
        if i % 3 == 0:
            ok = all(table[(a, f[2])] is not None for a, f in zip(addr, fs))
            steps.append(ok)
            if ok:
                graph = [(a, table[(a, f[2])]) for a, f in zip(addr, fs)]
        else:
            starts = [rng.choice(addr) if rng.random() < .8 else rng.choice([0x33, 5, (addr[0] + 1) & M64]) for _ in range(rng.choice([1, 1, 2, 3, 6]))]
            d["extend"] = [str(s) for s in starts]

            def extend(a):
                if a in seen:
                    return True
                k = first(a)
                if k is None or table[(a, fs[k][2])] is None:
                    return False
                seen.add(a)
                graph.append((a, table[(a, fs[k][2])]))
                for c in graph[-1][1]:
                    extend(c)
                return True
            steps = [extend(s) for s in starts]
        want = [[str(a)] + [str(c) for c in cs] for a, cs in graph]
        pos = [next((k for k, g in enumerate(graph) if g[0] == p), -1) for p in probes]
        return [["callgraph", json.dumps(d)]], {"want": want, "steps": steps, "find": pos, "mode": "compute" if i % 3 == 0 else "extend", "shape": shape}

    def judge(self, cmds, meta, res, obs):
        g, out = res[0], []
        obs.count(meta["mode"] + " cases")
        obs.distinct(cmds[0][1])
        got = []
        for s in g["steps"]:
            if s is True:
                got.append(True)
            elif isinstance(s, str) and s and s != "error left on success":
                got.append(False)
            else:
                got.append(s)
        if got != meta["steps"]:
            out.append(("outcome", "%s: steps ended %r, expected %r" % (cmds[0][1], g["steps"], meta["steps"])))
        if g["graph"] != meta["want"]:
            out.append(("graph", "%s: graph %r, expected %r" % (cmds[0][1], g["graph"], meta["want"])))
        elif g["find"] != meta["find"]:
            out.append(("find", "%s: found %r, expected %r" % (cmds[0][1], g["find"], meta["find"])))
        elif g["last"] != len(meta["want"]) - 1:
            out.append(("last", "%s: last is entry %r of %d" % (cmds[0][1], g["last"], len(meta["want"]))))
        if meta["mode"] == "extend" and any(a > 1 for a in g["asked"]):
            out.append(("asked-twice", "%s: a function was disassembled %d times" % (cmds[0][1], max(g["asked"]))))
        obs.count("functions in graphs", len(meta["want"]))
        obs.count("calls", sum(len(w) - 1 for w in meta["want"]))
        obs.count("failed steps", meta["steps"].count(False))
        return out


CHECK = C32
