"""Seeded crashing programs with known call chains, and the facts about a run of one.

A program is an executable and up to three shared libraries full of functions that all have the
type int f(struct ctx *): each notes its own return address and calls the next function of a
script given on the command line, so one binary can take any chain through any of its modules.
Threads walk their script and park; one thread walks its script and dies."""
import json, os, random, re, shutil, struct, subprocess

HDR = r'''
#pragma once
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
struct ctx;
typedef int (*fn)(struct ctx *);
struct ctx { int *script; int n, pos, idx, tid, nr; fn *tab; uintptr_t *ret; volatile int spins; };
#ifdef __cplusplus
}
#endif
#define ENTER(c) do { (c)->ret[(c)->nr++] = (uintptr_t)__builtin_return_address(0); } while (0)
#define NEXT(c) ((c)->tab[(c)->script[(c)->pos++]])
#define NI __attribute__((noinline,noclone,used))
'''

MAIN = r'''
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <pthread.h>
#include <semaphore.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <time.h>
#include "ctx.h"
#define MAXT 24
static struct ctx C[MAXT];
static int nthreads, crasher, outfd = 1;
static sem_t ready, forever;
static pthread_mutex_t held = PTHREAD_MUTEX_INITIALIZER;
static fn TAB[256];
static struct ctx *volatile sigctx;
%(decls)s
static void fill(void)
{
%(fill)s
}
NI static void report(void)
{
    char b[256], m[4096];
    for (int i = 0; i < nthreads; ++i)
    {
        int k = snprintf(b, sizeof b, "T %%d %%d %%d", i, C[i].tid, C[i].nr);
        if (write(outfd, b, k)) {}
        for (int j = 0; j < C[i].nr; ++j) { k = snprintf(b, sizeof b, " %%lx", (long)C[i].ret[j]); if (write(outfd, b, k)) {} }
        if (write(outfd, "\n", 1)) {}
    }
    int fd = open("/proc/self/maps", O_RDONLY), k;
    while ((k = read(fd, m, sizeof m)) > 0) if (write(outfd, m, k)) {}
    close(fd);
    if (write(outfd, "END\n", 4)) {}
}
extern "C" int faultfirst(struct ctx *c);
extern "C" int after_faultfirst(struct ctx *c);
asm(".text\n.globl faultfirst\n.type faultfirst,@function\nbefore_ff: nop\n.p2align 4\nfaultfirst:\n.cfi_startproc\n movl $1,0x10\n ret\n.cfi_endproc\n.size faultfirst,.-faultfirst\n");
static volatile int zero;
extern "C" NI int die(struct ctx *c)
{
    ENTER(c);
    int kind = c->script[c->pos++];
    if (c->idx != crasher) { sem_post(&ready); for (;;) pause(); }
    report();
    switch (kind)
    {
        case 0: abort();
        case 1: *(volatile int *)0x18 = 3; break;
        case 2: return 7 / zero;
        case 3: asm volatile("ud2"); break;
        case 4: raise(SIGBUS); break;
        case 5: raise(SIGQUIT); break;
        case 6: syscall(SYS_tgkill, getpid(), c->tid, SIGSYS); for (;;) pause();
        case 7: syscall(SYS_tgkill, getpid(), c->tid, SIGXCPU); for (;;) pause();
        case 8: asm volatile("int3"); break;
        case 9: c->tab = NULL; return c->tab[3](c);
        case 10: raise(SIGFPE); break;
        case 12: { char b[64]; while (read(0, b, sizeof b) > 0) ; _exit(0); }
        case 11: { char *p = (char *)mmap(NULL, 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); p[8] = 1; } break;
    }
    return 1 + c->pos;
}
/* the call to abort is the last thing in the function: its return address belongs to the next one */
extern "C" NI __attribute__((noreturn)) int die_last(struct ctx *c)
{
    ENTER(c); c->pos++; report(); abort();
}
extern "C" NI int jump_null(struct ctx *c)
{
    ENTER(c); c->pos++; report();
    fn volatile f = NULL; int r = f(c); return r + 2;
}
extern "C" NI int die_first(struct ctx *c)
{
    ENTER(c); c->pos++; report();
    int r = faultfirst(c); asm volatile("" ::: "memory"); return r + 3;
}
extern "C" NI int park_sem(struct ctx *c) { ENTER(c); c->pos++; sem_post(&ready); while (sem_wait(&forever)) ; return 4 + c->pos; }
extern "C" NI int park_mutex(struct ctx *c) { ENTER(c); c->pos++; sem_post(&ready); pthread_mutex_lock(&held); return 5 + c->pos; }
extern "C" NI int park_sleep(struct ctx *c) { ENTER(c); c->pos++; sem_post(&ready); for (;;) { struct timespec t = { 1000, 0 }; nanosleep(&t, NULL); } return 6 + c->pos; }
extern "C" NI int park_spin(struct ctx *c) { ENTER(c); c->pos++; sem_post(&ready); c->spins = 1; for (volatile int i = 0;; ++i) ; return 7 + c->pos; }
extern "C" NI void handler(int sig, siginfo_t *si, void *u)
{
    struct ctx *c = sigctx;
    signal(sig, SIG_DFL);
    ENTER(c);
    int r = NEXT(c)(c);
    zero += r;
}
extern "C" NI int via_signal(struct ctx *c)
{
    ENTER(c);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGUSR1, &sa, NULL);
    sigctx = c;
    raise(SIGUSR1);
    return 8 + c->pos;
}
extern "C" NI int via_fault(struct ctx *c)
{
    ENTER(c);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = handler; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGSEGV, &sa, NULL);
    sigctx = c;
    int r = faultfirst(c); asm volatile("" ::: "memory");
    return 9 + c->pos + r;
}
extern "C" NI int cmp(const void *a, const void *b) { struct ctx *c = *(struct ctx *const *)a; ENTER(c); int r = NEXT(c)(c); return r + 1; }
extern "C" NI int via_qsort(struct ctx *c)
{
    ENTER(c);
    struct ctx *v[2] = { c, c }; qsort(v, 2, sizeof v[0], cmp);
    return 10 + c->pos;
}
/* until the other threads are where they stay */
NI static void settle(void)
{
    for (int i = 0; i < nthreads - 1; ++i) while (sem_wait(&ready)) ;
    for (int i = 0; i < nthreads; ++i) for (int k = 0; i != crasher && k < 4000 && !C[i].spins; ++k)
    {
        char f[64], b[512]; snprintf(f, sizeof f, "/proc/self/task/%%d/stat", C[i].tid);
        int fd = open(f, O_RDONLY), n = fd < 0 ? 0 : read(fd, b, sizeof b - 1);
        if (fd >= 0) close(fd);
        b[n < 0 ? 0 : n] = 0;
        char *q = strrchr(b, ')');
        if (q && q[1] && q[2] == 'S') break;
        usleep(1000);
    }
}
extern "C" NI void *entry(void *p)
{
    struct ctx *c = (struct ctx *)p;
    c->tid = syscall(SYS_gettid);
    if (c->idx == crasher) settle();
    int r = NEXT(c)(c);
    return (void *)(long)(r + 1);
}
int main(int argc, char **argv)
{
    /* whoever started us may ignore or block some */
    sigset_t none; sigemptyset(&none); sigprocmask(SIG_SETMASK, &none, NULL);
    for (int i = 1; i < 32; ++i) signal(i, SIG_DFL);
    fill();
    sem_init(&ready, 0, 0); sem_init(&forever, 0, 0); pthread_mutex_lock(&held);
    outfd = open(argv[1], O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
    crasher = atoi(argv[2]); nthreads = argc - 3;
    for (int i = 0; i < nthreads; ++i)
    {
        struct ctx *c = &C[i]; c->idx = i; c->tab = TAB;
        c->script = (int *)calloc(70000, sizeof(int)); c->ret = (uintptr_t *)calloc(70000, sizeof(uintptr_t));
        for (char *p = argv[3 + i]; *p; ) { int v = strtol(p, &p, 10), k = 1; if (*p == 'x') k = strtol(p + 1, &p, 10);
            while (k--) c->script[c->n++] = v; if (*p == ',') ++p; }
    }
    C[0].tid = syscall(SYS_gettid);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 8 << 20);
    for (int i = 1; i < nthreads; ++i) { pthread_t t; if (pthread_create(&t, &at, entry, &C[i])) _exit(3); }
    if (crasher == 0) settle();
    struct ctx *c = &C[0];
    int r = NEXT(c)(c);
    printf("%%d\n", r);
    return r + 1;
}
'''
# specials: name -> (kind, walks on)
SPECIALS = ["die", "die_last", "jump_null", "die_first", "park_sem", "park_mutex", "park_sleep", "park_spin",
            "via_signal", "via_fault", "via_qsort", "handler", "cmp"]
PARKS = ["park_sem", "park_mutex", "park_sleep", "park_spin", "die"]


def read_info(path):
    """What the process noted before it died: {thread: (tid, return addresses)} and its mappings."""
    threads, maps = {}, []
    for l in open(path):
        w = l.split()
        if w[0] == "T":
            threads[int(w[1])] = (int(w[2]), [int(x, 16) for x in w[4:]])
        elif w[0] == "END":
            break
        else:
            lo, hi = w[0].split("-")
            maps.append((int(lo, 16), int(hi, 16), w[1], int(w[2], 16), l.rstrip("\n")[73:] if len(l) > 73 else ""))
    return {"threads": threads, "maps": maps}


def body(rng, k):
    t = rng.randrange(7)
    if t == 0:
        return "ENTER(c); int r = NEXT(c)(c); return r + %d;" % k
    if t == 1:
        return "ENTER(c); volatile char b[%d]; b[0] = c->pos; int r = NEXT(c)(c); return r + b[0];" % rng.choice([16, 300, 5000])
    if t == 2:
        return "ENTER(c); volatile char *b = (volatile char *)__builtin_alloca(16 + (c->pos & 63)); b[3] = 1; int r = NEXT(c)(c); return r * 3 + b[3];"
    if t == 3:
        return "ENTER(c); int s = 0; for (int i = 0; i < 2; ++i) s += NEXT(c)(c); return s;"
    if t == 4:
        return "ENTER(c); if (c->pos & 1) return NEXT(c)(c) + 1; else return NEXT(c)(c) * 2;"
    if t == 5:
        return "ENTER(c); double d = c->pos * 0.5; int r = NEXT(c)(c); return (int)(r * d) + c->n;"
    return "ENTER(c); int a = c->pos, b = c->n, e = c->idx, f = c->tid; int r = NEXT(c)(c); return r + a * b - e * f;"


class Program:
    """Compiles into directory d (kept by the caller)."""
    def __init__(self, rng, d):
        self.d = d
        os.makedirs(d, exist_ok=True)
        self.cc = rng.choice(["gcc", "gcc", "clang"]) if shutil.which("clang") else "gcc"
        self.opt = rng.choice(["-O0", "-O1", "-O2", "-O2 -fomit-frame-pointer", "-Os", "-O3 -fno-plt"])
        self.pie = rng.random() < .7
        self.static = rng.random() < .08
        self.rdynamic = rng.random() < .3
        self.exe_strip = rng.choice(["", "", "", "-s"])
        self.exe_bid = rng.choice(["sha1", "sha1", "sha1", "md5", "0x" + "".join(rng.choice("0123456789abcdef") for _ in range(rng.choice([16, 40, 64])))])
        self.funcs = []      # (name in the trace or None, module index)
        self.mods = ["exe"]
        names = set()
        open(os.path.join(d, "ctx.h"), "w").write(HDR)
        nlib = 0 if self.static else rng.choice([0, 1, 1, 2, 3])
        src = [[] for _ in range(nlib + 1)]
        tabs = [[] for _ in range(nlib + 1)]
        strips = [self.exe_strip] + [rng.choice(["", "", "-s"]) for _ in range(nlib)]
        for k in range(rng.randint(4, 14)):
            m = rng.randrange(nlib + 1)
            base = "%s_%d" % (rng.choice(["step", "do_work", "x", "handle_request", "g_main", "Process"]), k)
            kind = rng.choice(["c", "c", "static", "ns", "tmpl", "anon", "method"])
            b = body(rng, k)
            if kind == "c":
                src[m].append('extern "C" NI int %s(struct ctx *c) { %s }' % (base, b)); ref, shown, exp = base, base, True
            elif kind == "static":
                src[m].append('static NI int %s(struct ctx *c) { %s }' % (base, b)); ref, shown, exp = base, base + "(ctx*)", False
            elif kind == "ns":
                src[m].append('namespace n%d { NI int %s(struct ctx *c) { %s } }' % (k, base, b)); ref = "n%d::%s" % (k, base); shown, exp = ref + "(ctx*)", True
            elif kind == "tmpl":
                src[m].append('template <int N> NI int %s(struct ctx *c) { %s } template int %s<%d>(struct ctx *);' % (base, b, base, k)); ref = "%s<%d>" % (base, k); shown, exp = "int %s(ctx*)" % ref, True
            elif kind == "anon":
                src[m].append('namespace { NI int %s(struct ctx *c) { %s } }' % (base, b)); ref, shown, exp = base, "(anonymous namespace)::%s(ctx*)" % base, False
            else:
                src[m].append('struct S%d { static NI int %s(struct ctx *c); }; int S%d::%s(struct ctx *c) { %s }' % (k, base, k, base, b)); ref = "S%d::%s" % (k, base); shown, exp = ref + "(ctx*)", True
            vis = not strips[m] or (exp and (m > 0 or self.rdynamic))
            tabs[m].append((k, ref))
            self.funcs.append((shown if vis else None, m))
        self.nplain = len(self.funcs)
        vis = not strips[0] or self.rdynamic
        self.idx = {}
        for s in SPECIALS:
            self.idx[s] = len(self.funcs)
            self.funcs.append((s if vis else None, 0))
        self.visible0 = vis
        self.visible_static0 = not strips[0]
        libs = []
        for m in range(1, nlib + 1):
            so = "lib%s%d.so" % (rng.choice(["foo", "bar-1.2", "x y"]), m)
            self.mods.append(so)
            txt = '#include "ctx.h"\n%s\nextern "C" void lib%d_fill(fn *t) { %s }\n' % ("\n".join(src[m]), m, " ".join("t[%d] = %s;" % x for x in tabs[m]))
            open(os.path.join(d, "l%d.cc" % m), "w").write(txt)
            bid = rng.choice(["sha1", "sha1", "md5"])
            self.cc_run(["-shared", "-fPIC"] + self.opt.split() + ["-Wl,--build-id=" + bid] + [strips[m]] * bool(strips[m]) +
                        ["-o", so, "l%d.cc" % m])
            libs.append("-l:" + so)
        decls = "\n".join('extern "C" void lib%d_fill(fn *);' % m for m in range(1, nlib + 1)) + "\n" + "\n".join(src[0])
        fill = " ".join("lib%d_fill(TAB);" % m for m in range(1, nlib + 1)) + " ".join("TAB[%d] = %s;" % x for x in tabs[0])
        # specials are defined after fill()
        pre = "\n".join('extern "C" int %s(struct ctx *);' % s for s in SPECIALS if s not in ("handler", "cmp", "die_last")) + '\nextern "C" int die_last(struct ctx *);'
        fill += " ".join("TAB[%d] = %s;" % (self.idx[s], s) for s in SPECIALS if s not in ("handler", "cmp"))
        open(os.path.join(d, "main.cc"), "w").write(MAIN % {"decls": decls + "\n" + pre, "fill": fill})
        flags = (["-fPIE", "-pie"] if self.pie else ["-fno-pie", "-no-pie"])
        if self.static:
            flags = ["-static"]
        self.cc_run(flags + self.opt.split() + ["-Wl,--build-id=" + self.exe_bid] + ["-rdynamic"] * (self.rdynamic and not self.static) +
                    [strips[0]] * bool(strips[0]) + ["-o", "prog", "main.cc", "-L."] + libs + ["-lpthread", "-Wl,-rpath," + os.path.abspath(d)])
        self.exe = os.path.join(os.path.abspath(d), "prog")

    def cc_run(self, args):
        fl = ["-w", "-fno-optimize-sibling-calls", "-fasynchronous-unwind-tables"] + ["-fno-ipa-icf", "-fno-reorder-blocks-and-partition", "-fno-partial-inlining"] * (self.cc == "gcc")
        r = subprocess.run([self.cc] + fl + args, cwd=self.d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError("compiling: %s" % r.stdout.decode("latin-1")[-1500:])

    def vis0(self, name):
        return name if self.visible0 else None

    def spec(self, rng, big=False):
        """A scenario: one script per thread and the index of the thread that dies."""
        nt = rng.choice([1, 1, 1, 2, 3, 4, 8, 20])
        crasher = rng.randrange(nt)
        scripts = []
        for t in range(nt):
            sc = []
            for _ in range(rng.choice([0, 1, 2, 3, 5, 8, 12, 30])):
                f = rng.randrange(self.nplain)
                sc.append((f, rng.choice([1, 1, 1, 1, 2, 5])))
            if big and t == crasher or rng.random() < .06:
                sc.append((rng.randrange(self.nplain), rng.choice([200, 230, 240, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 700])))
                sc.append((rng.randrange(self.nplain), 1))
            if rng.random() < .12:
                sc.insert(rng.randint(0, len(sc)), (self.idx["via_qsort"], 1))
            # handlers share one context, so only the thread that dies takes signals
            if t == crasher and rng.random() < .3:
                sc.insert(rng.randint(0, len(sc)), (self.idx[rng.choice(["via_signal", "via_fault"])], 1))
            if t == crasher:
                x = rng.random()
                end = "die" if x < .7 else "die_last" if x < .85 else "die_first" if x < .95 else "jump_null"
            else:
                end = rng.choice(PARKS)
            sc.append((self.idx[end], 1))
            sc.append((rng.randrange(12), 1))     # how die() dies
            scripts.append(sc)
        return {"crasher": crasher, "scripts": scripts}

    def run(self, sc, d, exe=None):
        """Runs a scenario in the scratch directory d; {"core", "signal", "threads", "maps"} or None
        when no core file was written."""
        import resource
        os.makedirs(d, exist_ok=True)
        info = os.path.join(d, "info")
        argv = [exe or self.exe, info, str(sc["crasher"])] + [",".join("%d" % f if k == 1 else "%dx%d" % (f, k) for f, k in t) for t in sc["scripts"]]
        def lim():
            resource.setrlimit(resource.RLIMIT_CORE, (1 << 30, 1 << 30))
            os.setsid()
        p = subprocess.Popen(argv, cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=lim)
        try:
            rc = p.wait(60)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait()
            return None
        cores = [f for f in os.listdir(d) if f.startswith("core")]
        if rc >= 0 or len(cores) != 1:
            return None
        r = read_info(info) if os.path.exists(info) else {"threads": {}}
        if len(r["threads"]) != len(sc["scripts"]):
            return None
        return dict(r, core=os.path.join(d, cores[0]), signal=-rc)

    def chain(self, sc, t):
        """The functions thread t was in, innermost first: (name, module, index of the return address in the
        trace of calls, or None when it was interrupted rather than calling)"""
        fl = [f for f, k in sc["scripts"][t][:-1] for _ in range(k)]
        # number of the noted return address that tells where each frame stopped
        out = []
        nr = 0
        for j, f in enumerate(fl):
            nm, m = self.funcs[f]
            nr += 1
            out.append([nm, m, nr])
            if f == self.idx["via_fault"]:
                out[-1][2] = None
                out.append([self.vis0("faultfirst"), 0, None])
            if f in (self.idx["via_signal"], self.idx["via_fault"], self.idx["via_qsort"]):
                out[-1][2] = None
                nr += 1
                out.append([self.vis0("cmp" if f == self.idx["via_qsort"] else "handler"), 0, nr])
            elif f == self.idx["die_first"]:
                out[-1][2] = None
                out.append([self.vis0("faultfirst"), 0, None])
        out[-1][2] = None
        if t == 0:
            out.insert(0, [self.vis0("main"), 0, 0])
        else:
            out.insert(0, [self.vis0("entry"), 0, 0])
        return out[::-1]
