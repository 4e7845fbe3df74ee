"""C15: duplicate hashes depend exactly on the documented crash identity."""
import copy
from vf import gen, texts, known_frames
from vf.core import Check
from vf.driver import spec

IDENT = {"gdb": {"function_name", "function_type", "signal_handler_called"}, "core": {"build_id", "build_id_offset", "function_name", "fingerprint", "address"},
         "java": {"name", "class_path", "file_name", "file_line"}, "koops": {"function_name", "address", "reliable"},
         "python": {"file_name", "file_line"}, "ruby": {"file_name", "file_line"}, "js": {"file_name", "file_line"}}


class C15(Check):
    id = "C15"
    quick_n, thorough_n, chunk = 32000, 300000, 250
    rule = ("one case = a thread hashed under several (limit, prefix, flags) settings, then hashed again after an edit of fields outside the "
            "identity and after an edit inside it; distinct = the unhashed texts observed")
    assumptions = ["normalisation before hashing follows the rules checked by C14"]

    def make(self, rng, i):
        t = rng.choice(gen.TYPES)
        o = known_frames.stacktrace(rng, t, mint=1) if rng.random() < .6 else gen.stacktrace(rng, t, rng.choice(["plain", "hostile"]), minf=rng.randrange(3))
        if not gen.threads(t, o):
            o = known_frames.stacktrace(rng, t, mint=1)
        ti = rng.randrange(len(gen.threads(t, o)))
        cmds, plan = [["build", 0, t, spec(o)]], []
        base = rng.randrange(16)
        for k in range(rng.randrange(1, 4)):
            n = rng.choice([0, 0, 1, 2, 3, 5, 100, 2**31 - 1])
            pre = rng.choice([None, "", "pkg", "component\n", "p" + gen.hostile(rng)])
            fl = rng.choice([2, 0, 4, 6, 10, 8, 14, 12])
            for f in {fl, fl ^ 2}:
                cmds.append(["duphash", 0, ti, n, "\x01" if pre is None else pre, f])
                plan.append([0, n, pre, f])
        cmds.append(["dump", 0])
        # an edit outside the identity keeps the hash, one inside changes it
        n, pre, fl = plan[0][1], plan[0][2], plan[0][3]
        objs = [o]
        for s in (1, 2):
            e = copy.deepcopy(o)
            fr = gen.threads(t, e)[ti]["frames"]
            for f in fr:
                for name, kind in gen.FRAME[t]:
                    if (name in IDENT[t]) == (s == 2) and rng.random() < .3:
                        f[name] = gen.edited_value(rng, kind, f[name])
            cmds += [["build", s, t, spec(e)], ["duphash", s, ti, n, "\x01" if pre is None else pre, fl]]
            plan.append([s, n, pre, fl])
            objs.append(e)
        return cmds, {"t": t, "objs": objs, "ti": ti, "plan": plan}

    def judge(self, cmds, meta, res, obs):
        t, ti, objs, out = meta["t"], meta["ti"], meta["objs"], []
        got = [r for c, r in zip(cmds, res) if c[0] == "duphash"]
        for (s, n, pre, fl), g in zip(meta["plan"], got):
            th = gen.threads(t, objs[s])[ti]
            e = texts.duphash(t, th, n, pre, fl)
            obs.count("hashes compared")
            if e is None:
                obs.count("threads without hash")
            if g != e:
                out.append(("hash:" + t, "duplicate hash (limit %d, prefix %r, flags %d) is %r, expected %r (text %r)" % (
                    n, pre, fl, g, e, texts.duphash(t, th, n, pre, fl | 2))))
            tx = texts.duphash(t, th, n, pre, fl | 2)
            if tx is not None and len(tx) > len(pre or "") + 8:
                obs.distinct([t, fl, tx])
        d = [r for c, r in zip(cmds, res) if c[0] == "dump"][0]
        if d != objs[0]:
            out.append(("modified:" + t, "hashing changed the stacktrace: %r, was %r" % (d, objs[0])))
        same = got[-2] == got[0]
        obs.count("edit outside identity keeps hash" if same else "edit outside identity changes normalised frames")
        obs.count("edit inside identity changes hash" if got[-1] != got[0] else "edit inside identity not visible")
        return out


CHECK = C15
