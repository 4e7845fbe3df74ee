/* Fault injection and observation at the system-call level. A seccomp filter traps the file calls
 * of this process; the handler performs, fails, shortens or disturbs them and keeps a log, whatever
 * library function they were made through. The handler's own calls carry a mark in an unused
 * argument. */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include "faults.h"

#define MARK 0x7a3c91e5u
static long raw(long nr, long a, long b, long c, long d, long e)
{
    register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = MARK;
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}
#define NFD 256
static char names[NFD][96];
static struct { int on, nth, seen, hit; char item[96], call[16]; long mode; char kind; } F;
static char flog_[8192]; static size_t flen; static int logfd = -1;
struct call { long nr; const char *name; };
static const struct call calls[] = {
    { SYS_open, "open" }, { SYS_openat, "open" }, { SYS_read, "read" }, { SYS_pread64, "read" }, { SYS_readv, "read" },
    { SYS_write, "write" }, { SYS_pwrite64, "write" }, { SYS_writev, "write" }, { SYS_lseek, "lseek" }, { SYS_close, "close" },
    { SYS_fsync, "fsync" }, { SYS_ftruncate, "ftruncate" }, { SYS_rename, "rename" }, { SYS_creat, "open" } };
#define NCALLS (sizeof calls / sizeof *calls)

static void logline(const char *call, const char *item, long ret, int hit)
{
    char b[192];
    int n = snprintf(b, sizeof b, "%s %s %ld%s\n", call, item, ret, hit ? " !" : "");
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    if (logfd >= 0) raw(SYS_write, logfd, (long)b, n, 0, 0);
    if (flen + n < sizeof flog_) { memcpy(flog_ + flen, b, n); flen += n; }
}
static void on_sys(int sig, siginfo_t *si, void *uc_)
{
    ucontext_t *uc = uc_; greg_t *g = uc->uc_mcontext.gregs; int saved = errno;
    long nr = si->si_syscall, a = g[REG_RDI], b = g[REG_RSI], c = g[REG_RDX], d = g[REG_R10], e = g[REG_R8], ret;
    const char *call = "?", *path = NULL;
    for (size_t i = 0; i < NCALLS; ++i) if (calls[i].nr == nr) call = calls[i].name;
    if (nr == SYS_open || nr == SYS_creat || nr == SYS_rename) path = (const char *)a; else if (nr == SYS_openat) path = (const char *)b;
    const char *item = "";
    if (path) { const char *s = strrchr(path, '/'); item = s ? s + 1 : path; }
    else if (a >= 0 && a < NFD) item = names[a];
    int hit = 0;
    if (F.on && !strcmp(call, F.call) && !strcmp(item, F.item) && F.seen++ == F.nth) { hit = 1; F.hit = 1; }
    if (hit && F.kind == 'e')
    {
        if (nr == SYS_close) raw(nr, a, 0, 0, 0, 0); /* the descriptor goes away all the same */
        ret = -F.mode;
    }
    else
    {
        if (hit && F.kind == 't')
        {   /* the file changes underneath */
            char p[64]; snprintf(p, sizeof p, "/proc/self/fd/%ld", a);
            long w = raw(SYS_open, (long)p, O_WRONLY, 0, 0, 0);
            if (w >= 0) { raw(SYS_ftruncate, w, F.mode, 0, 0, 0); raw(SYS_close, w, 0, 0, 0, 0); }
        }
        if (hit && F.kind == 's' && (nr == SYS_read || nr == SYS_pread64 || nr == SYS_write || nr == SYS_pwrite64))
        { if (c > F.mode) c = F.mode; }
        struct iovec one;
        if (hit && F.kind == 's' && (nr == SYS_readv || nr == SYS_writev))
        {
            one = *(struct iovec *)b; if ((long)one.iov_len > F.mode) one.iov_len = F.mode;
            b = (long)&one; c = 1;
        }
        ret = raw(nr, a, b, c, d, e);
    }
    if (path && ret >= 0 && ret < NFD && nr != SYS_rename) { snprintf(names[ret], sizeof names[0], "%s", item); }
    if (F.on && *item) logline(call, item, ret, hit);
    if (nr == SYS_close && a >= 0 && a < NFD) names[a][0] = '\0';
    g[REG_RAX] = ret;
    errno = saved;
}
void flt_install(void)
{
    static int done;
    if (done++) return;
    struct sigaction sa = { .sa_sigaction = on_sys, .sa_flags = SA_SIGINFO | SA_NODEFER };
    sigaction(SIGSYS, &sa, NULL);
    struct sock_filter f[8 + 2 * NCALLS]; int n = 0;
    f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[5]));
    f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, MARK, 0, 1);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    f[n++] = (struct sock_filter)BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr));
    for (size_t i = 0; i < NCALLS; ++i)
    {
        f[n++] = (struct sock_filter)BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned)calls[i].nr, 0, 1);
        f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_TRAP);
    }
    f[n++] = (struct sock_filter)BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
    struct sock_fprog p = { n, f };
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p))
    {
        static const char m[] = "HARNESS-ERROR: no seccomp filter\n";
        raw(SYS_write, 2, (long)m, sizeof m - 1, 0, 0);
        _exit(99);
    }
    strcpy(names[1], "<stdout>"); strcpy(names[2], "<stderr>");
}
/* mode: "eN" fail with errno N, "sN" transfer at most N bytes, "tN" set the file's size to N before, "-" only observe */
void flt_arm(const char *item, const char *call, int nth, const char *mode)
{
    flt_install();
    memset(&F, 0, sizeof F); flen = 0;
    snprintf(F.item, sizeof F.item, "%s", item); snprintf(F.call, sizeof F.call, "%s", call);
    F.nth = nth; F.kind = mode[0]; F.mode = strtol(mode + (mode[0] != 0), NULL, 10);
    F.on = 1;
}
const char *flt_disarm(int *hit) { F.on = 0; *hit = F.hit; flog_[flen] = '\0'; return flog_; }

#ifdef FAULT_PROGRAM
/* For a whole program: FAULT="item call nth mode" and FAULTFD=descriptor of the log. */
__attribute__((constructor)) static void start(void)
{
    const char *s = getenv("FAULT"); char item[96], call[16], mode[32]; int nth;
    if (!s) return;
    if (sscanf(s, "%95s %15s %d %31s", item, call, &nth, mode) != 4) _exit(99);
    if (getenv("FAULTFD")) logfd = atoi(getenv("FAULTFD"));
    flt_arm(item, call, nth, mode);
}
#endif
