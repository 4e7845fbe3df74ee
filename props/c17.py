"""C17: home-directory user names never leave through parsed traces."""
from vf import traces, texts, gen, tracecheck
from vf.core import Check
from vf.driver import spec

PLACE = "/home/anonymized"


def user(rng):
    """A user directory name no other part of a trace contains."""
    u = "Us3r" + "".join(rng.choice("abcdefghijklmnopqrstuvwxyz0123456789") for _ in range(rng.choice([4, 4, 12, 40])))
    return rng.choice(["", "", ".", "-", "a.", "\xe9", "x_"]) + u + rng.choice(["", "", ".old", "-1", "+", "@dom", "$", "\xfc", "%s"])


class C17(Check):
    id = "C17"
    quick_n, thorough_n, chunk = 60000, 400000, 250
    rule = ("one case = a generated Python, Ruby, Java or JavaScript trace whose frames lie under home directories of unique users (or under lookalikes), "
            "a core thread to normalise, or a bare path; the user must be nowhere in the paths of the result, its JSON or text, and the rest of "
            "every path intact; distinct = (kind, path shape)")
    assumptions = ["a path is below a home directory when it starts with /home/<user>/ and the user component is followed by a slash; /home/<user> alone, "
                   "relative paths and other prefixes are other paths, kept byte for byte",
                   "frames of GDB and kernel traces are not anonymised by design; exception messages and source lines are not paths"]

    def path(self, rng, users):
        def f(r, exts, chars=traces.AL + traces._s.digits + "_-.+", weird=""):
            if r.random() < .25:
                return orig(r, exts, chars, weird)
            u = user(r)
            if weird and r.random() < .3:
                i = r.randrange(len(u))
                u = u[:i] + r.choice(weird.replace("(", "").replace(")", "")) + u[i:]
            if not weird:
                u = u.replace("@", "").replace("%", "").replace("$", "").replace("\xe9", "").replace("\xfc", "")
            users.append(u)
            rest = "/".join(traces.word(r, chars + weird) for _ in range(r.choice([1, 1, 2, 5])))
            if r.random() < .1:
                rest = r.choice(["home/", "/", "home/anonymized/", "./", "../"]) + rest
            return "/home/" + u + "/" + rest + r.choice(exts)
        orig = traces.path
        return f

    def make(self, rng, i):
        c = rng.random()
        if c < .7:
            k = rng.choice(["python", "ruby", "java", "js"])
            users = []
            orig, traces.path = traces.path, self.path(rng, users)
            try:
                text, exp = traces.GEN[k](rng)
            finally:
                traces.path = orig
            return [["parse", 0, k, text], ["?dump", 0], ["?tojson", 0], ["?short", 0, 0]], {"kind": "trace", "k": k, "users": users, "exp": exp}
        if c < .85:
            o = gen.stacktrace(rng, "core", maxt=3, maxf=6, minf=1)
            users, f = [], self.path(rng, [])
            for th in o["threads"]:
                for fr in th["frames"]:
                    if rng.random() < .8:
                        fr["file_name"] = f(rng, ["", ".so", ".so.6"], weird=" ")
            cmds = [["build", 0, "core", spec(o)]] + [["tnorm", 0, j] for j in range(len(o["threads"]))] + [["dump", 0], ["tojson", 0]]
            return cmds, {"kind": "core", "o": o}
        p = self.path(rng, [])(rng, ["", ".py", ".c", "/"], weird=" ():'")
        if rng.random() < .3:
            p = rng.choice(["", "/", "/home", "/home/", "/home/x", "/home//", "/home//x", "/home/x/", "home/x/y", " /home/x/y", "/home/" + "u" * 5000 + "/z",
                            "/home/anonymized", "/home/anonymized/", "/home/anonymized/x", "/hom/x/y", "/homework/x/y", "/home/\xff/\xfe", "//home/x/y"])
        return [["prim", "anon", p], ["prim", "anon", traces.anon(p)]], {"kind": "path", "p": p}

    def judge(self, cmds, meta, res, obs):
        out, kind = [], meta["kind"]
        if kind == "path":
            p = meta["p"]
            e = traces.anon(p)
            if res[0]["s"] != e:
                out.append(("path", "%r became %r, not %r" % (p, res[0]["s"], e)))
            if res[1]["s"] != e:
                out.append(("idempotence", "%r, already anonymised, became %r" % (e, res[1]["s"])))
            obs.count("paths")
            obs.distinct([kind, shape(p)])
            return out
        if kind == "core":
            got = res[-2]
            for j, th in enumerate(meta["o"]["threads"]):
                e = texts.normalize("core", th)
                names = [f["file_name"] for f in e["frames"]]
                g = [f["file_name"] for f in got["threads"][j]["frames"]]
                if len(g) == len(names):
                    for a, b, fr in zip(g, [traces.anon(n) for n in names], th["frames"]):
                        if a != b:
                            out.append(("core", "file name %r after normalisation, expected %r" % (a, b)))
                        obs.distinct([kind, shape(b)])
                        obs.count("core frames")
                for a in g:
                    if a and a != traces.anon(a):
                        out.append(("core", "user kept in %r" % a))
            return out
        k = meta["k"]
        if not res[0]["ok"]:
            return [(k + ":refused", "a well-formed trace is refused: %r" % res[0].get("err"))]
        for f, e in zip(tracecheck.frames(res[1]), tracecheck.frames(meta["exp"])):
            for n in ("file_name", "class_path"):
                if n in e:
                    if f[n] != e[n]:
                        out.append((k + ":" + n, "path %r, expected %r" % (f[n], e[n])))
                    if e[n]:
                        obs.count("%s %s" % (k, "anonymised" if e[n].startswith(PLACE + "/") else "kept"))
                        obs.distinct([k, n, shape(e[n])])
        if len(tracecheck.frames(res[1])) != len(tracecheck.frames(meta["exp"])):
            out.append((k + ":count", "%d frames, the trace shows %d" % (len(tracecheck.frames(res[1])), len(tracecheck.frames(meta["exp"])))))
        # the user names are unique, so none may be found in anything derived from the paths
        for u in meta["users"]:
            for what, txt in (("JSON", res[2]), ("text", res[3])):
                if txt and "/home/" + u + "/" in txt:
                    out.append((k + ":leak", "the %s names the user %r" % (what, u)))
        return out


def shape(p):
    return None if p is None else "".join("/" if c == "/" else "a" if c.isalnum() else c for c in p)[:60]


CHECK = C17
