"""Threads made of frames the normaliser knows: helpers, aborts, entry points, aliases, null frames."""
import copy
from . import gen, texts


def src_for(rng, files):
    if rng.random() < .12:
        return None
    if files and rng.random() < .75:
        f = rng.choice(files)
        return rng.choice([f, "/usr/lib64/" + f + ".6", "../sysdeps/x/" + f, f + "x", "x" + f])
    return rng.choice(["main.c", "malloc.c", "/lib64/libc.so.6", "/lib64/libc-2.31.so", "exit.c", "x.cpp", "", "/home/bob/x.c", "/home/bob",
                       "/usr/lib/libglib-2.0.so", "sysdeps/x", "/lib/libpthread.so.0"])


def pick(rng, t):
    """(name, source) of a frame."""
    T = texts.TAB
    c = rng.random()
    if c < .2:
        n = rng.choice(list(T["removable"]))
        return n, src_for(rng, T["removable"][n])
    if c < .32:
        n = rng.choice(list(T["above"]))
        return n, src_for(rng, T["above"][n])
    if c < .42:
        tab = T[t + "_exit"]
        n = rng.choice(list(tab))
        return n, src_for(rng, tab[n])
    if c < .52:
        fn = rng.choice(T["arch"])
        n = "__" + fn + rng.choice(texts.SUFFIX + ["_avx2", "_sse3", ""])
        return n, src_for(rng, [fn, "/sysdeps/", "libc.so", "/sysdeps"])
    if c < .62:
        n = rng.choice(["IA__gdk_x", "IA__g_free", "IA__gtk_main", "__GI_raise", "__GI_abort", "__GI_memcpy", "IA__", "__GI_", "IA__g",
                        "__GI___assert_fail", "IA__g_log", "__GI_" + rng.choice(list(T["above"])), "IA__" + rng.choice(["g_log", "gdk_x_error", "foo"])])
        return n, src_for(rng, ["gmessages.c", "libglib", "malloc.c", "libc"])
    if c < .7:
        return ("??" if rng.random() < .8 else None), src_for(rng, [])
    return rng.choice(["main", "f", "g", "h", "foo", "bar", "raise_x", "xabort", "poll2", "log2", "", "work"]), src_for(rng, [])


def frame(rng, t):
    f = gen.frame(rng, t)
    if t in ("gdb", "core"):
        n, s = pick(rng, t)
        f["function_name"] = n
        f["source_file" if t == "gdb" else "file_name"] = s
        if rng.random() < .25:
            f["address"] = 0
            if rng.random() < .6:
                f["function_name"] = "??" if t == "gdb" else None
    elif t == "koops":
        f["function_name"] = rng.choice(["schedule", "schedule.part.3", "do_softirq.4", ".foo", "x.", None, "vfs_read", "kthreadd", "worker",
                                        "zz", "aa"] + texts.TAB["koops"] * 2)
        if rng.random() < .3:
            f["function_name"] = rng.choice(texts.TAB["koops"]) + rng.choice([".isra.1", "", "x", ".cold"])
        f["module_name"] = rng.choice([None, None, "nfs", ""])
    return f


def thread(rng, t, nf=None, maxf=10):
    th = gen.thread(rng, t, "plain", nf=0)
    n = gen.count(rng, maxf) if nf is None else nf
    fr = []
    for _ in range(n):
        if fr and rng.random() < .15:
            fr.append(copy.deepcopy(fr[-1]))
        elif t in ("gdb", "core") and rng.random() < .4:
            f = gen.frame(rng, t)
            f["function_name"] = rng.choice(["f", "g", "h", "work", "main", "run"])
            fr.append(f)
        else:
            fr.append(frame(rng, t))
    th["frames"] = fr
    return th


def stacktrace(rng, t, maxt=4, mint=0, maxf=10):
    if t not in gen.MULTI:
        return thread(rng, t, maxf=maxf)
    o = gen.stacktrace(rng, t, "plain", maxt=0)
    o["threads"] = [thread(rng, t, maxf=maxf) for _ in range(max(mint, gen.count(rng, maxt)))]
    if t == "core":
        o["crash_thread"] = rng.choice([-1, rng.randrange(-1, len(o["threads"]))])
    if t == "gdb":
        tops = [th["frames"][0] for th in o["threads"] if th["frames"]]
        if tops and rng.random() < .7:
            o["crash"] = copy.deepcopy(rng.choice(tops))
            if rng.random() < .3:
                for th in o["threads"]:
                    if th["frames"] and rng.random() < .6:
                        th["frames"][0]["function_name"] = o["crash"]["function_name"]
        for k, th in enumerate(o["threads"]):
            th["tid"] = rng.choice([k, 100 + k, 7, th["tid"]])
        o["crash_tid"] = rng.choice([2 ** 32 - 1, 2 ** 32 - 1, 100, 101, 7, o["crash_tid"]])
    return o
