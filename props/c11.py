"""C11: kernel oopses are parsed to exactly what they show."""
from vf import tracecheck


class C11(tracecheck.TraceCheck):
    id = "C11"
    quick_n, thorough_n = 72000, 800000
    kinds = [("koops", 1)]
    rule = ("one case = a generated oops text of one architecture's format (x86_64, i386, ARM in two forms, s390, ppc, bare addresses; with or without "
            "timestamps) with noise lines, parsed and compared field by field with the stacktrace it shows; distinct = (shape of the fields of the first frames, count)")

    def shape(self, k, exp, fs, obs):
        super().shape(k, exp, fs, obs)
        obs.count("frames in a special stack", sum(1 for f in fs if f["special_stack"]))
        obs.count("frames with a from function", sum(1 for f in fs if f["from_function_name"]))
        obs.count("unreliable frames", sum(1 for f in fs if not f["reliable"]))
        obs.count("modules", len(exp["modules"] or []))
        obs.count("taint flags", sum(1 for n, v in exp.items() if n.startswith("taint_") and v))


CHECK = C11
