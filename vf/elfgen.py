"""Writes little-endian ELF files whose unwind ranges and PLT slots are known by construction."""
import struct

M64 = 2 ** 64 - 1
# pointer encodings of .eh_frame: low nibble is the format, 0x10 is pc-relative
FMT = {0x00: 0, 0x03: 4, 0x04: 8, 0x0b: 4, 0x0c: 8}


def uleb(n):
    o = b""
    while True:
        b = n & 0x7f
        n >>= 7
        o += bytes([b | (0x80 if n else 0)])
        if not n:
            return o


def sleb(n):
    o = b""
    while True:
        b = n & 0x7f
        n >>= 7
        done = (n == 0 and not b & 0x40) or (n == -1 and b & 0x40)
        o += bytes([b | (0 if done else 0x80)])
        if done:
            return o


def num(v, size):
    return (v & (2 ** (8 * size) - 1)).to_bytes(size, "little")


class Image:
    """Sections are placed one after another; each loaded one belongs to a segment with its own address bias."""
    def __init__(self, rng, bits=64):
        self.rng, self.bits = rng, bits
        self.W = 8 if bits == 64 else 4
        self.secs = []           # dict(name,type,flags,addr,off,data,link,info,entsize)
        self.segs = []           # (flags, bias, first off, last off)

    def layout(self, plan):
        """plan: list of (segment flags or None, bias, [section dicts]); fills offsets and addresses, cuts segments."""
        rng = self.rng
        off = (64 if self.bits == 64 else 52) + 8 * (56 if self.bits == 64 else 32)
        first = True
        for flags, bias, secs in plan:
            if flags is not None and not first:
                off = (off + 0xfff) & ~0xfff if rng.random() < .7 else (off + 15) & ~15
            start = 0 if first and flags is not None else off
            for s in secs:
                off = (off + 15) & ~15
                off += 16 * rng.randrange(3)
                s["off"] = off
                s["addr"] = (off + bias) & M64 if flags is not None else 0
                self.secs.append(s)
                off += s["size"]
            if flags is not None:
                self.segs.append((flags, bias, start, off))
                first = False
        self.end = off

    def sec(self, name):
        return next((s for s in self.secs if s["name"] == name), None)

    def write(self):
        rng, W = self.rng, self.W
        names = b"\0"
        order = [None] + self.secs
        for s in self.secs:
            s["nm"] = len(names)
            names += s["name"].encode("latin-1") + b"\0"
        strtab = {"name": ".shstrtab", "type": 3, "flags": 0, "off": self.end, "addr": 0, "size": 0, "data": b"", "link": None, "info": None, "entsize": 0}
        strtab["nm"] = len(names)
        names += b".shstrtab\0"
        strtab["data"], strtab["size"] = names, len(names)
        order.append(strtab)
        shoff = (self.end + len(names) + 7) & ~7
        out = bytearray(shoff)
        index = {id(s): i for i, s in enumerate(order) if s}
        for s in order[1:]:
            if s["type"] != 8:
                out[s["off"]:s["off"] + len(s["data"])] = s["data"]
        P = "<Q" if W == 8 else "<I"
        for s in order:
            if s is None:
                out += bytes(64 if W == 8 else 40)
                continue
            link = index[id(s["link"])] if isinstance(s["link"], dict) else (s["link"] or 0)
            info = index[id(s["info"])] if isinstance(s["info"], dict) else (s["info"] or 0)
            if W == 8:
                out += struct.pack("<IIQQQQIIQQ", s["nm"], s["type"], s["flags"], s["addr"], s["off"], s["size"], link, info, 8, s["entsize"])
            else:
                out += struct.pack("<IIIIIIIIII", s["nm"], s["type"], s["flags"], s["addr"] & 0xffffffff, s["off"], s["size"], link, info, 4, s["entsize"])
        ph = b""
        extra = rng.randrange(2)
        for k in range(extra):           # PT_GNU_STACK, executable: not a LOAD
            ph += struct.pack("<IIQQQQQQ", 0x6474e551, 7, 0, 0, 0, 0, 0, 16) if W == 8 else struct.pack("<IIIIIIII", 0x6474e551, 0, 0, 0, 0, 0, 7, 16)
        for flags, bias, a, b in self.segs:
            v = (a + bias) & M64
            if W == 8:
                ph += struct.pack("<IIQQQQQQ", 1, flags, a, v, v, b - a, b - a, 0x1000)
            else:
                ph += struct.pack("<IIIIIIII", 1, a, v & 0xffffffff, v & 0xffffffff, b - a, b - a, flags, 0x1000)
        ehsz, phsz, shsz = (64, 56, 64) if W == 8 else (52, 32, 40)
        ident = b"\x7fELF" + bytes([2 if W == 8 else 1, 1, 1]) + bytes(9)
        n = extra + len(self.segs)
        mach = 62 if W == 8 else 3
        if W == 8:
            hdr = ident + struct.pack("<HHIQQQIHHHHHH", rng.choice([2, 3]), mach, 1, 0x400000, ehsz, shoff, 0, ehsz, phsz, n, shsz, len(order), len(order) - 1)
        else:
            hdr = ident + struct.pack("<HHIIIIIHHHHHH", rng.choice([2, 3]), mach, 1, 0x400000, ehsz, shoff, 0, ehsz, phsz, n, shsz, len(order), len(order) - 1)
        out[:len(hdr)] = hdr
        out[ehsz:ehsz + len(ph)] = ph
        return bytes(out)

    def exec_base(self):
        for flags, bias, a, b in self.segs:
            if flags & 1:
                return (a + bias) & (M64 if self.W == 8 else 0xffffffff)
        return None


def S(name, type, size, flags=2, data=b"", link=None, info=None, entsize=0):
    return {"name": name, "type": type, "flags": flags, "size": size, "data": data, "link": link, "info": info, "entsize": entsize}


# -- .eh_frame ---------------------------------------------------------------------------------
def cie_plan(rng, bits):
    """augmentation and encoding of one CIE"""
    W = 8 if bits == 64 else 4
    aug = rng.choice(["zR", "zR", "zR", "zPLR", "zLR", "zRS", "", "z", "zLPR", "zPR", "zL"])
    enc = 0
    if "R" in aug:
        enc = rng.choice([0x1b, 0x1b, 0x1b, 0x1b, 0x13, 0x00, 0x03, 0x0b, 0x04, 0x0c, 0x10, 0x1c, 0x14])
        if bits == 32 and FMT[enc & 0xf] == 8:
            enc = 0x1b
    lenc = rng.choice([0x1b, 0x00, 0x03, 0xff]) if "L" in aug else None
    penc = rng.choice([0x9b, 0x03, 0x00, 0x1b, 0x04, 0x02, 0x0b, 0x9c]) if "P" in aug else None
    return {"aug": aug, "enc": enc, "size": FMT[enc & 0xf] or W, "L": lenc, "P": penc, "long": rng.random() < .1, "v": rng.choice([1, 1, 1, 3]), "W": W}


def cie_body(rng, c):
    b = bytes([c["v"]]) + c["aug"].encode() + b"\0" + uleb(rng.choice([1, 4])) + sleb(rng.choice([-8, -4, 1]))
    b += bytes([16]) if c["v"] == 1 else uleb(16)
    if c["aug"].startswith("z"):
        a = b""
        for ch in c["aug"][1:]:
            if ch == "R":
                a += bytes([c["enc"]])
            elif ch == "L":
                a += bytes([c["L"]])
            elif ch == "P":
                n = {0: c["W"], 2: 2, 3: 4, 4: 8}[c["P"] & 7]
                a += bytes([c["P"]]) + bytes(rng.randrange(256) for _ in range(n))
        b += uleb(len(a)) + a
    b += bytes([0x0c, 7, 8, 0x90, 1])[:rng.choice([0, 3, 5])]
    return b


def record(body, long_, idv, W):
    """A CIE or FDE with its length and id fields; returns the bytes and the size of those fields"""
    idsz = 8 if long_ else 4
    pad = -(len(body) + idsz + (12 if long_ else 4)) % 8
    body += bytes(pad)
    n = len(body) + idsz
    head = (b"\xff\xff\xff\xff" + num(n, 8)) if long_ else num(n, 4)
    return head + num(idv, idsz) + body, len(head) + idsz


def eh_plan(rng, bits, ncie, nfde):
    """What the .eh_frame holds, before addresses are known: list of ('cie', c) / ('fde', k, addr, len) / ('end',)"""
    out, cs = [], []
    for _ in range(ncie):
        c = cie_plan(rng, bits)
        cs.append(len(out))
        out.append(["cie", c])
        for _ in range(rng.randrange(nfde + 1)):
            out.append(["fde", rng.choice(cs), None, None])
    return out


def eh_size(rng, plan):
    """sizes depend on the plan only: bodies are drawn now, addresses patched later"""
    pos = 0
    for r in plan:
        if r[0] == "cie":
            r.append(cie_body(rng, r[1]))
            data, _ = record(r[2], r[1]["long"], 0, r[1]["W"])
        else:
            c = plan[r[1]][1]
            tail = b""
            if c["aug"].startswith("z"):
                lsda = {None: 0, 0x1b: 4, 0x03: 4, 0x00: c["W"], 0xff: 0}[c["L"]]
                tail = uleb(lsda) + bytes(lsda)
            tail += bytes([0x41, 0x0e, 0x10])[:rng.choice([0, 1, 3])]
            r.append(tail)
            r.append(c["long"] if rng.random() < .9 else not c["long"])
            data, _ = record(bytes(2 * c["size"]) + tail, r[5], 0, c["W"])
        r.append(pos)
        pos += len(data)
    return pos


def eh_data(plan, addr, bits, draw):
    """draw(c) -> (vaddr, length) of one function; returns the bytes and the functions in order"""
    W = 8 if bits == 64 else 4
    out, fns = b"", []
    for r in plan:
        pos = r[-1]
        assert pos == len(out)
        if r[0] == "cie":
            data, _ = record(r[2], r[1]["long"], 0, W)
        else:
            c = plan[r[1]][1]
            hd = 20 if r[5] else 8
            v, ln = draw(c, (addr + pos + hd) & M64)
            fns.append((v, ln))
            enc = v - (addr + pos + hd) if c["enc"] & 0x70 == 0x10 else v
            idpos = pos + (12 if r[5] else 4)
            data, got = record(num(enc, c["size"]) + num(ln, c["size"]) + r[4], r[5], idpos - plan[r[1]][-1], W)
            assert got == hd
        out += data
    return out, fns


def eh_image(rng, bits=64):
    """-> (file bytes, exec_base, [(start, length)]): start is the function's address less exec_base"""
    im = Image(rng, bits)
    mask = M64 if bits == 64 else 0xffffffff
    plan = eh_plan(rng, bits, rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 8]))
    if not any(r[0] == "fde" for r in plan):
        plan.append(["fde", 0, None, None])
    size = eh_size(rng, plan)
    term = rng.choice([0, 4, 4, 4])
    eh = S(".eh_frame", 1, size + term)
    text = S(".text", 1, rng.choice([0x40, 0x300, 0x2000]), 6)
    base = rng.choice([0, 0, 0x400000, 0x10000, 0x3463e00000] if bits == 64 else [0, 0x8048000, 0x10000])
    kind = rng.choice(["one", "separate", "separate", "lld", "rx-last", "text-last"])
    if kind == "one":
        secs = [text, eh] if rng.random() < .7 else [eh, text]
        im.layout([(5, base, secs), (6, base + 0x200000, [S(".data", 1, 16, 3)])])
    elif kind == "separate":
        im.layout([(4, base, [S(".note", 7, 16)]), (5, base, [text]), (4, base, [eh]), (6, base + 0x1000, [S(".data", 1, 16, 3)])])
    elif kind == "lld":
        im.layout([(4, base, [eh]), (5, base + 0x1000, [text]), (6, base + 0x2000, [S(".data", 1, 16, 3)])])
    elif kind == "rx-last":
        im.layout([(6, base, [S(".data", 1, 32, 3)]), (4, base + 0x1000, [eh]), (5, base + 0x5000, [text])])
    else:
        im.layout([(5, base, [S(".init", 1, 32, 6)]), (4, base + 0x10000, [eh]), (5, base + 0x20000, [text])])
    xb = im.exec_base()

    def draw(c, here):
        hi = 2 ** (8 * c["size"] - (1 if c["enc"] & 8 or c["enc"] & 0x10 else 0))
        t = text["addr"]
        for _ in range(20):
            v = rng.choice([t, t + rng.randrange(text["size"]), t + text["size"] - 1, xb, rng.randrange(xb, xb + 0x40000)]) & mask
            d = v - here
            ok = v < hi if not c["enc"] & 0x70 else (-hi <= d < hi if c["size"] == 4 else True)
            # an unsigned relative offset can only point forward, except across the whole address space
            if c["enc"] & 0x70 == 0x10 and not c["enc"] & 8 and c["size"] < im.W and d < 0:
                ok = False
            if ok:
                return v, rng.choice([1, 16, rng.randrange(1, 0x3000), 0])
        return None, None
    while True:
        bad = []

        def dr(c, here):
            v, n = draw(c, here)
            if v is None:
                bad.append(c)
                c["enc"], c["size"] = c["enc"], c["size"]
                return 0, 0
            return v, n
        data, fns = eh_data(plan, eh["addr"], bits, dr)
        if not bad:
            break
        return None
    eh["data"] = data + bytes(term)
    return im.write(), xb, [((v - xb) & mask, n) for v, n in fns]


# -- .plt --------------------------------------------------------------------------------------
def plt_image(rng):
    """-> (file bytes, [(address, symbol)]) for a lazy-binding x86-64 PLT"""
    im = Image(rng, 64)
    nsym = rng.choice([1, 2, 3, 8, 20])
    names, strs = [], b"\0"
    sym = bytes(24)
    for i in range(nsym):
        nm = rng.choice(["printf", "puts", "_ZN3foo3barEv", "strtol", "a", "x" * 300, "f%d" % i, "g\xc3\xa9", "", "memcpy@"])
        names.append(nm)
        pos = len(strs) if nm else 0
        if nm:
            strs += nm.encode("latin-1") + b"\0"
        sym += struct.pack("<IBBHQQ", pos, 0x12, 0, 0, 0, 0)
    n = rng.choice([1, 2, 3, 8, 40])
    use = [rng.randrange(nsym) for _ in range(n)]
    rela = b"".join(struct.pack("<QQq", 0x404000 + 8 * i, (u + 1) << 32 | 7, rng.choice([0, 0, 5])) for i, u in enumerate(use))
    order = list(range(n))
    if rng.random() < .3:
        rng.shuffle(order)
    plt = b"\xff\x35" + bytes(4) + b"\xff\x25" + bytes(4) + b"\x0f\x1f\x40\x00"
    for i in order:
        plt += b"\xff\x25" + num(rng.randrange(2 ** 32), 4) + b"\x68" + num(i, 4) + b"\xe9" + num(rng.randrange(2 ** 32), 4)
    dstr = S(".dynstr", 3, len(strs), 2, strs)
    dsym = S(".dynsym", 11, len(sym), 2, sym, dstr, 1, 24)
    got = S(rng.choice([".got.plt", ".got"]), 1, 8 * (n + 3), 3, bytes(8 * (n + 3)))
    pl = S(".plt", 1, len(plt), 6, plt, entsize=16)
    rl = S(".rela.plt", 4, len(rela), 2, rela, dsym, rng.choice([pl, got, got]), 24)
    other = S(".rela.dyn", 4, 48, 2, struct.pack("<QQq", 0x404100, 8, 0x1234) * 2, dsym, None, 24)
    base = rng.choice([0, 0x400000, 0x3463e00000])
    ro = [dsym, dstr, rl]
    if rng.random() < .7:
        ro.insert(rng.randrange(4), other)
    im.layout([(4, base, ro), (5, base + rng.choice([0, 0x1000]), [S(".init", 1, 16, 6), pl, S(".text", 1, 64, 6)]), (6, base + 0x2000, [got])])
    if rng.random() < .3:
        im.secs.sort(key=lambda s: rng.random())
    return im.write(), [((pl["addr"] + 16 * (k + 1)) & M64, names[use[i]]) for k, i in enumerate(order)]


# -- hostile files -----------------------------------------------------------------------------
def hot(b):
    """Byte ranges that matter: headers, section headers and the contents of the sections read"""
    W = 8 if b[4] == 2 else 4
    g = lambda o, n: int.from_bytes(b[o:o + n], "little")
    so, n, esz = (g(0x28, 8), g(0x3c, 2), 64) if W == 8 else (g(0x20, 4), g(0x30, 2), 40)
    out = [(0, 64), (so, so + n * esz)]
    for i in range(n):
        h = so + i * esz
        o, sz = (g(h + 24, 8), g(h + 32, 8)) if W == 8 else (g(h + 16, 4), g(h + 20, 4))
        ty = g(h + 4, 4)
        if ty in (1, 4, 11) and 0 < sz < 4096:
            out += [(o, o + sz)] * 2
    return [(a, z) for a, z in out if a < z <= len(b)]


def hostile(rng, b):
    ranges = hot(b)
    W = 8 if b[4] == 2 else 4
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
        lo, hi = rng.choice(ranges)
        hi = min(hi, len(b))
        if lo >= hi:
            continue
        i, c = rng.randrange(lo, hi), rng.random()
        if c < .4:
            b[i] = rng.choice([0, 1, 0xff, 0x7f, 0x80, ord("P"), ord("R"), ord("z"), ord("L"), 8, rng.randrange(256)])
        elif c < .55:
            b[i] ^= 1 << rng.randrange(8)
        elif c < .65:
            v = rng.choice([b"\xff" * 4, bytes(4), b"\x10\0\0\0", b"\xff\xff\xff\x7f", b"zPPP", b"zPR\0", b"zLLL"])
            b[i:i + 4] = v[:max(0, len(b) - i)]
        elif c < .72:
            del b[rng.choice([i, rng.randrange(len(b))]):]
        elif c < .78:
            b[i:i] = bytes(rng.randrange(1, 9))
        elif c < .84:
            del b[i:i + rng.randrange(1, 9)]
        else:                                  # one field of a section header
            so = int.from_bytes(b[0x28:0x30] if W == 8 else b[0x20:0x24], "little")
            esz = 64 if W == 8 else 40
            if so + esz < len(b):
                k = so + esz * rng.randrange((len(b) - so) // esz)
                f = rng.choice([4, 4, 16, 24, 32, 40, 44] if W == 8 else [4, 4, 12, 16, 20, 24, 28])
                cur = int.from_bytes(b[k + f:k + f + 4], "little")
                v = rng.choice([0, 8, 1, 0xffffffff, cur + 1, max(0, cur - 1), max(0, cur - 8), rng.randrange(64), rng.randrange(2 ** 32)])
                b[k + f:k + f + 4] = num(v, 4)
        if len(b) < 64:
            break
    return bytes(b) or b"\x7f"
