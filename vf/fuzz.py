"""Coverage-guided fuzzing (libFuzzer, AddressSanitizer, UBSan) as an additional workload of a check."""
import glob, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from . import build, driver
from .core import SEED

ENV = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": "/nonexistent", "LC_ALL": "C", "TZ": "UTC",
       "ASAN_OPTIONS": driver.ASAN_ENV.replace("detect_stack_use_after_return=1", "detect_stack_use_after_return=0").replace("exitcode=87:", ""), "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1"}


def run(chk, name, runs, seeds, obs, report, jobs=8, max_len=4096, to_case=None, dictionary=()):
    """Runs the fuzz target in parallel jobs with fixed seeds; a finding is replayed through the driver."""
    prog = build.program("fuzz", name, [name + ".c"], "-fsanitize=fuzzer")
    top = tempfile.mkdtemp(prefix="vf-fuzz-")
    try:
        dic = os.path.join(top, "dict")
        with open(dic, "wb") as f:
            for t in dictionary:
                f.write(b'"' + b"".join(b"\\x%02x" % c for c in t.encode("latin-1")) + b'"\n')
        def one(j):
            d = os.path.join(top, "j%d" % j)
            os.makedirs(d + "/corpus")
            os.makedirs(d + "/art")
            for i, s in enumerate(seeds):
                if i % jobs == j or len(seeds) < 40:
                    with open("%s/corpus/s%04d" % (d, i), "wb") as f:
                        f.write(s)
            cmd = [prog, "-seed=%d" % (SEED * 1000 + j + 1), "-runs=%d" % (runs // jobs), "-max_len=%d" % max_len, "-timeout=60", "-rss_limit_mb=3000", "-detect_leaks=0",
                   "-print_final_stats=1", "-artifact_prefix=%s/art/" % d, "-max_total_time=%d" % (200 if chk.tier == "quick" else 7200), "-dict=" + dic, d + "/corpus"]
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, cwd=d)
            return p.returncode, p.stdout.decode("utf8", "replace"), sorted(glob.glob(d + "/art/*"))
        with ThreadPoolExecutor(jobs) as ex:
            rs = list(ex.map(one, range(jobs)))
        for rc, out, arts in rs:
            m = re.search(r"stat::number_of_executed_units:\s+(\d+)", out)
            obs.count("fuzzed inputs", int(m.group(1)) if m else 0)
            m = re.findall(r"cov: (\d+) ft: (\d+)", out)
            if m:
                obs.n["coverage edges reached by fuzzing"] = max(obs.n["coverage edges reached by fuzzing"], int(m[-1][0]))
                obs.n["coverage features reached by fuzzing"] = max(obs.n["coverage features reached by fuzzing"], int(m[-1][1]))
            if rc != 0:
                if not arts:
                    raise build.HarnessError("fuzzer ended with %d: %s" % (rc, out[-2000:]))
                with open(arts[0], "rb") as f:
                    data = f.read()
                sig = driver.describe(rc, out)
                m = re.search(r"ORACLE: (.*)", out)
                if m:
                    sig = "oracle: " + m.group(1)
                i = max(0, out.find("ERROR:") - 200)
                rep = {"cmds": driver_case(chk, data, to_case), "meta": None, "fuzz_input_latin1": data.decode("latin-1")}
                if "cmds" in rep and rep["cmds"]:
                    rep["cmds"], rep["meta"] = rep["cmds"]
                report("fuzz:" + sig, "input %r\n%s" % (data[:400], out[i:i + 2500]), rep)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def driver_case(chk, data, to_case):
    return to_case(data) if to_case else None
