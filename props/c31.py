"""C31: unwind ranges and PLT slots are read out of ELF files exactly; damaged files are refused safely."""
import glob, os, re, shutil, subprocess, tempfile
from vf import elfgen
from vf.core import Check

SRC = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
%s
static int cmp(const void *a, const void *b) { return memcmp(a, b, 4); }
int f(int a) { return a * printf("x%%d", a); }
int main(int c, char **v) { int t[4] = { c, 2, 3, 4 }; qsort(t, 4, 4, cmp); puts(v[0]); return f(c) + rand() + (int)strtol(v[0], 0, 0); }
"""
WAYS = {"pie": "", "nopie": "-no-pie", "old": "-no-pie -Wl,-z,noseparate-code -fcf-protection=none -Wl,-z,lazy", "oldpie": "-Wl,-z,noseparate-code -fcf-protection=none -Wl,-z,lazy",
        "lazy": "-fcf-protection=none -Wl,-z,lazy", "now": "-fcf-protection=none -Wl,-z,now", "so": "-shared -fPIC", "lazyso": "-shared -fPIC -fcf-protection=none -Wl,-z,lazy",
        "based": "-no-pie -fcf-protection=none -Wl,-z,lazy,-Ttext-segment=0x10000000", "high": "-shared -fPIC -fcf-protection=none -Wl,-z,lazy,-Ttext-segment=0x3463e00000",
        "nounwind": "-no-pie -fcf-protection=none -Wl,-z,lazy -fno-asynchronous-unwind-tables", "static": "-static"}
LIBS = ["libc.so.6", "libm.so.6", "libdw.so.1", "libelf.so.1", "libglib-2.0.so.0", "libpthread.so.0", "libz.so.1", "libstdc++.so.6", "ld-linux-x86-64.so.2"]


def tool(*args):
    return subprocess.run(args, capture_output=True, text=True, errors="replace").stdout


class C31(Check):
    id = "C31"
    quick_n, thorough_n, chunk = 18000, 300000, 250
    rule = ("one case = an ELF file read for its unwind ranges or PLT slots: files written with known functions and slots (32 and 64 bit; all pointer encodings, augmentations, "
            "record formats and segment layouts in use), the same files damaged at a few places, and real programs and libraries compared with readelf; distinct = file contents")
    assumptions = ["PLT slots are judged for the lazy x86-64 layout that lib/elves.c documents; other layouts (IBT, other machines) are only required to be read safely",
                   "files are in the byte order of the machine, as lib/elves.c assumes; text- and data-relative pointer encodings are not generated",
                   "damaged files reach libelf and libdw too; a crash inside them caused by what satyr passed counts",
                   "a file with no function or slot yields an empty list, without a message"]

    def make(self, rng, i):
        while True:
            if i % 3 == 2:
                f, e = elfgen.plt_image(rng)
                k, want = "plt", [[str(a), s] for a, s in e]
            else:
                r = elfgen.eh_image(rng, rng.choice([64, 64, 32]))
                if not r:
                    continue
                f, k, want = r[0], "eh", [[str(r[1]), str(s), str(n)] for s, n in r[2]]
            break
        if i % 2:
            return [["elf", k, elfgen.hostile(rng, f)]], {"kind": "hostile " + k}
        if k == "plt":
            probe = [rng.choice([int(want[0][0]), int(want[-1][0]), int(want[0][0]) - 16, int(want[0][0]) + 1, int(rng.choice(want)[0]), 0]) for _ in range(3)]
            found = [next((j for j, w in enumerate(want) if int(w[0]) == p), -1) for p in probe]
            return [["elf", k, f] + [str(p) for p in probe]], {"kind": k, "want": [want, found]}
        return [["elf", k, f]], {"kind": k, "want": want}

    def fixed_cases(self):
        out, d = [], tempfile.mkdtemp(prefix="satyr-c31-")
        try:
            files = []
            for name, flags in sorted(WAYS.items()):
                with open(d + "/t.c", "w") as fh:
                    fh.write(SRC % ("int ignored_%s;" % name))
                p = subprocess.run(["gcc", "-O1", "-w", d + "/t.c", "-o", d + "/" + name] + flags.split(), capture_output=True)
                if p.returncode == 0:
                    files.append((name, d + "/" + name, "-fcf-protection=none" in flags and "lazy" in flags))
            seen = set()
            for lib in LIBS:
                for p in sorted(glob.glob("/lib/x86_64-linux-gnu/" + lib) + glob.glob("/usr/lib/x86_64-linux-gnu/" + lib)):
                    if os.path.realpath(p) not in seen:
                        seen.add(os.path.realpath(p))
                        files.append((lib, p, False))
            for name, p, lazy in files:
                with open(p, "rb") as fh:
                    data = fh.read()
                want = self.readelf(p)
                if want is not None:
                    out.append(([["elf", "eh", data]], {"kind": "real eh", "name": name, "want": want}))
                plt = self.slots(p) if lazy else None
                out.append(([["elf", "plt", data]], {"kind": "real plt" if plt else "unjudged plt", "name": name, "want": [plt, []] if plt else None}))
                if name in WAYS:
                    dbg = d + "/dbg"
                    subprocess.run(["objcopy", "--only-keep-debug", p, dbg], capture_output=True)
                    if os.path.exists(dbg):
                        with open(dbg, "rb") as fh:
                            data = fh.read()
                        os.unlink(dbg)
                        out += [([["elf", k, data]], {"kind": "debug file " + k, "name": name}) for k in ("eh", "plt")]
            out.append(([["elf", "eh", b""]], {"kind": "hostile eh"}))
            out.append(([["elf", "plt", b""]], {"kind": "hostile plt"}))
            for data in truncated():
                out.append(([["elf", "eh", data]], {"kind": "truncated record"}))
        finally:
            shutil.rmtree(d)
        return out

    def readelf(self, p):
        base = None
        for l in tool("readelf", "-Wl", p).splitlines():
            m = re.match(r"\s+LOAD\s+0x\w+ (0x\w+) 0x\w+ 0x\w+ 0x\w+ (...) ", l)
            if m and "E" in m.group(2):
                base = int(m.group(1), 16)
                break
        fns = [(int(a, 16), int(b, 16)) for a, b in re.findall(r"FDE cie=\w+ pc=(\w+)\.\.(\w+)", tool("readelf", "-wN", "--debug-dump=frames", p).split("Contents of the .debug_frame")[0])]
        if base is None or not fns:
            return None
        return [[str(base), str((a - base) & elfgen.M64), str(b - a)] for a, b in fns]

    def slots(self, p):
        m = re.search(r"\.plt\s+PROGBITS\s+(\w+)", tool("readelf", "-WS", p))
        r = tool("readelf", "-Wr", p)
        if not m or ".rela.plt" not in r:
            return None
        names = re.findall(r"R_X86_64_JUMP_SLO\w*\s+\w+\s+([^\s@]+)", r[r.index(".rela.plt"):])
        return [[str(int(m.group(1), 16) + 16 * (i + 1)), n] for i, n in enumerate(names)]

    def judge(self, cmds, meta, res, obs):
        k, out = meta["kind"], []
        (got, fds), = res
        obs.count(k + " files")
        obs.distinct(cmds[0][2] if isinstance(cmds[0][2], bytes) else cmds[0][2].encode("latin-1"))
        if fds:
            out.append(("descriptors", "%s: %d descriptors left open" % (k, fds)))
        if "want" in meta and meta["want"] is not None:
            if got != meta["want"]:
                w = meta["want"]
                if isinstance(got, list) and k.endswith("eh"):
                    j = next((j for j, (a, b) in enumerate(zip(got, w)) if a != b), min(len(got), len(w)))
                    d = "entry %d (base, start, length) is %r, expected %r; %d read, %d expected" % (j, got[j:j + 1], w[j:j + 1], len(got), len(w))
                else:
                    d = "read %.600r, expected %.600r" % (got, w)
                out.append((k.replace("real ", "") + "-content", "%s%s: %s" % (k, " of " + meta["name"] if "name" in meta else "", d)))
            obs.count("functions read" if k.endswith("eh") else "slots read", len(got) if k.endswith("eh") else len(got[0]))
        elif isinstance(got, list):
            obs.count("lists from damaged or other files")
        elif got is None:
            obs.count("empty lists")
        elif not got:
            out.append(("message", "%s: refused with an empty message" % k))
        else:
            obs.count("refusals")
        return out


def truncated():
    """Files whose last unwind record ends too early, at the very end of the section"""
    import random
    from vf.elfgen import Image, S, num
    def im(data):
        i = Image(random.Random(1), 64)
        i.layout([(5, 0, [S(".text", 1, 64, 6), S(".eh_frame", 1, len(data), 2, data)])])
        return i.write()
    rec = lambda idv, body: num(len(body) + 4, 4) + num(idv, 4) + body
    cie = lambda aug, rest: rec(0, b"\1" + aug + b"\0" + b"\1\x78\x10" + rest)
    out = [im(cie(a, r)) for a, r in ((b"R", b""), (b"PR", b"\x04"), (b"LR", b"\xff"), (b"zR", b"\0"), (b"zPR", b"\2\x04\0"), (b"zP", b"\1\x04"), (b"z", b""), (b"zPPPPPPPPPR", b"\1\x04"),
                                      (b"zL" * 30 + b"R", b"\1\x04"), (b"P", b"\x03"))]
    for aug, rest in ((b"zR", b"\1\x1b"), (b"z", b"\0"), (b"", b""), (b"zR", b"\1\x0c")):
        c = cie(aug, rest)
        for n in (0, 3, 4, 7, 8, 12, 15):
            out.append(im(c + rec(len(c) + 4, bytes(n))))
    return out


CHECK = C31
