"""C26: textual renderings state the stacktrace faithfully."""
import re

from vf import gen, texts, known_frames
from vf.core import Check
from vf.driver import spec


def java_thread_text(th):
    dest = exc = ""
    for f in th["frames"]:
        if f["is_exception"] and exc:
            dest = "Caused by: %s\t...\n" % exc + dest
            exc = ""
        exc += texts.frame_text("java", f) + "\n"
    return 'Exception in thread "%s" ' % (th["name"] or "") + exc + dest


class C26(Check):
    id = "C26"
    quick_n, thorough_n, chunk = 27000, 300000, 250
    rule = ("one case = a stacktrace rendered as short text under several limits, crash reason, every frame's text, and for GDB/Java the thread "
            "and full texts, each compared with the documented rendering; distinct = (type, short text, reason)")
    assumptions = ["GDB short text is the optimised crash thread (libraries resolved, normalised, main and nameless frames dropped), as documented"]

    def make(self, rng, i):
        t = gen.TYPES[i % 7]
        o = known_frames.stacktrace(rng, t) if rng.random() < .4 else gen.stacktrace(rng, t, rng.choice(["plain", "hostile", "small"]), minf=rng.randrange(2))
        if t == "ruby":
            for f in o["frames"]:
                f["rescue_level"] %= 50
        if t == "koops" and rng.random() < .5:
            o["reason"] = rng.choice(["general protection fault: 0000 [#1]", "BUG: unable to handle kernel paging request at ffff", "kernel BUG at x",
                                      "general protection fault", "BUG: unable to handle kernel paging request", "x general protection fault: "])
        if t == "gdb" and o["libs"]:
            for th in o["threads"]:
                for f in th["frames"]:
                    if rng.random() < .5:
                        l = rng.choice(o["libs"])
                        f["address"] = rng.choice([l["from"], l["to"], (l["from"] + l["to"]) // 2, l["to"] + 1]) % 2**64
        cmds, want = [["build", 0, t, spec(o)]], []
        idx = texts.find_crash(t, o)
        tie = isinstance(idx, tuple)
        for m in rng.sample([0, 1, 2, 3, 5, 10, 2**31 - 1], 3):
            cmds.append(["short", 0, m])
            want.append(["short", [texts.short_text(t, o, k, m) for k in (idx[1] if tie else [idx])]])
        cmds.append(["reason", 0])
        want.append(["reason", [texts.reason(t, o)]])
        for ti, th in enumerate(gen.threads(t, o)):
            for fi, f in enumerate(th["frames"]):
                if t == "gdb" or rng.random() < .6:
                    cmds.append(["fstr", 0, ti, fi])
                    want.append(["frame", [texts.frame_text(t, f)]])
            if t == "gdb":
                v = rng.randrange(2)
                cmds += [["tstr", 0, ti, v], ["tfuns", 0, ti]]
                want += [["thread", [texts.gdb_thread_text(th, v)]],
                         ["funs", ["".join(f["function_name"] + (" " + f["library_name"] if f["library_name"] is not None else "") + "\n"
                                           for f in th["frames"] if f["function_name"] is not None)]]]
                # the list of functions can be read back
                if all(re.fullmatch(r"[^\n]*[^\n ]", "-" if f["function_name"] is None else f["function_name"]) and re.fullmatch(r"[^\n ]+", f["library_name"] or "-") and f["library_name"] != ""
                       for f in th["frames"]):
                    cmds += [["parsex", 1, "gdb_funs", want[-1][1][0].encode("latin-1")], ["tfuns", 1, 0], ["free", 1]]
                    want += [None, ["funs-parsed", want[-1][1]], None]
            if t == "java":
                cmds += [["tstr", 0, ti, 0], ["tfuns", 0, ti]]
                want += [["thread", [java_thread_text(th)]], ["funs", ["".join(f["name"] + "\n" for f in th["frames"] if f["name"] is not None)]]]
        if t == "gdb":
            for v in (0, 1):
                cmds.append(["gdb", "text", 0, v])
                want.append(["text", [texts.gdb_text(o, v)]])
        cmds.append(["dump", 0])
        want.append(["dump", [o]])
        return cmds, {"t": t, "want": want}

    def judge(self, cmds, meta, res, obs):
        t, out = meta["t"], []
        for c, w, g in zip(cmds[1:], meta["want"], res[1:]):
            if w is None:
                continue
            what, acc = w
            obs.count("texts " + what)
            if g not in acc:
                out.append(("%s:%s" % (what, t), "%r gives %r, expected %r" % (c, g, acc[0] if len(acc) == 1 else acc)))
            if what in ("short", "reason") and g:
                obs.distinct([t, what, g])
        return out


CHECK = C26
