/* Case runner: reads cases on stdin, runs each on the real library under the sanitizers and
 * prints what it observed. One result line-pair per case; a crash stops the process and is
 * attributed by the caller to the first case without a result. */
#include <fcntl.h>
#include "drv.h"
#include <signal.h>
#include <stdarg.h>
#include <unistd.h>
#include <math.h>
#include <sys/time.h>
#include <sys/resource.h>

#if defined(__SANITIZE_ADDRESS__)
extern void __asan_describe_address(void *);
extern int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#define ASAN 1
#endif

PERTHREAD struct slot SL[NSLOT];
static long net; static int leakmode; static unsigned long allocs;
#ifdef ASAN
#define LIVE 65536
static const volatile void *live[LIVE]; static int track; /* live blocks of the current case, for diagnosis */
static size_t hs(const volatile void *p) { return (((uintptr_t)p) >> 4) * 2654435761u % LIVE; }
static void mh(const volatile void *p, size_t n)
{
    ++net; ++allocs;
    if (track) for (size_t i = hs(p), c = 0; c < 64; ++c, i = (i + 1) % LIVE) if (!live[i]) { live[i] = p; break; }
}
static void fh(const volatile void *p)
{
    if (!p) return;
    --net;
    if (track) for (size_t i = hs(p), c = 0; c < 64; ++c, i = (i + 1) % LIVE) if (live[i] == p) { live[i] = NULL; break; }
}
#endif

void harness_die(const char *fmt, ...)
{
    va_list ap; va_start(ap, fmt);
    fprintf(stderr, "HARNESS-ERROR: "); vfprintf(stderr, fmt, ap); fputc('\n', stderr);
    va_end(ap); fflush(stderr); _exit(99);
}
static PERTHREAD GString *lastraw; static PERTHREAD bool lastset;
void o_bytes(GString *o, const char *s, size_t n)
{
    g_string_truncate(lastraw, 0); g_string_append_len(lastraw, s, n); lastset = true;
    g_string_append_c(o, '"');
    for (size_t i = 0; i < n; ++i)
    {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { g_string_append_c(o, '\\'); g_string_append_c(o, c); }
        else if (c < 0x20 || c >= 0x7f) g_string_append_printf(o, "\\u%04x", c);
        else g_string_append_c(o, c);
    }
    g_string_append_c(o, '"');
}
void o_str(GString *o, const char *s) { if (s) o_bytes(o, s, strlen(s)); else g_string_append(o, "null"); }
void o_float(GString *o, float f)
{
    if (isnan(f)) g_string_append(o, "\"nan\""); else if (isinf(f)) g_string_append(o, f > 0 ? "\"inf\"" : "\"-inf\"");
    else g_string_append_printf(o, "%.9g", (double)f);
}
int argi(struct arg *a)
{
    char *e; long v = strtol(a->s, &e, 10);
    if (*e || e == a->s) harness_die("integer expected, got '%s'", a->s);
    return (int)v;
}
void slot_free(int i)
{
    struct slot *s = &SL[i]; void *p = s->p;
    enum kind k = s->kind; s->kind = K_NONE; s->p = NULL;
    if (!p) return;
    switch (k)
    {
    case K_NONE: case K_UNSTRIP: case K_FDE: case K_LIBS: break;
    case K_ST: sr_stacktrace_free(p); break;
    case K_TH: sr_thread_free(p); break;
    case K_DIST: sr_distances_free(p); break;
    case K_PART: for (int j = 0; j < s->n; ++j) { ((struct sr_distances_part **)p)[j]->next = NULL; sr_distances_part_free(((struct sr_distances_part **)p)[j], false); } g_free(p); break;
    case K_DEND: sr_dendrogram_free(p); break;
    case K_PKG: sr_rpm_package_free(p, true); break;
    case K_OS: sr_operating_system_free(p); break;
    case K_REP:
    {
        struct sr_report *r = p;
        char *n = r->reporter_name != rep_default(0) ? r->reporter_name : NULL, *v = r->reporter_version != rep_default(1) ? r->reporter_version : NULL;
        sr_report_free(r); g_free(n); g_free(v);
        break;
    }
    }
}
void slot_set(int i, enum kind k, int type, void *p, int n)
{
    if (i < 0 || i >= NSLOT) harness_die("slot %d", i);
    if (SL[i].kind != K_NONE) slot_free(i);
    SL[i] = (struct slot){ k, type, p, n };
}

/* ---- protocol ---- */
static long rd_num(void)
{
    char b[64];
    if (!fgets(b, sizeof b, stdin)) return -1;
    return strtol(b, NULL, 10);
}
static char msg[256];
static void hang(int sig)
{
    ssize_t r = write(2, msg, strlen(msg)); (void)r;
    _exit(88);
}
static struct op *find_op(const char *n)
{
    for (struct op *p = ops_st; p->name; ++p) if (!strcmp(p->name, n)) return p;
    for (struct op *p = ops_misc; p->name; ++p) if (!strcmp(p->name, n)) return p;
#ifdef FAULTS
    for (struct op *p = ops_fault; p->name; ++p) if (!strcmp(p->name, n)) return p;
#endif
    harness_die("no op %s", n);
}
/* onstack KB op args...: runs the operation on a thread with a stack of that size */
struct onstack { struct op *op; struct arg *a; int n; GString *o; };
static void *onstack_run(void *x) { struct onstack *t = x; t->op->fn(t->a, t->n, t->o); return NULL; }
void op_onstack(struct arg *a, int n, GString *o)
{
    struct onstack t = { find_op(a[1].s), a + 2, n - 2, o };
    if (t.n < t.op->min) harness_die("op %s: too few args", t.op->name);
    pthread_attr_t at; pthread_t th;
    pthread_attr_init(&at);
    if (pthread_attr_setstacksize(&at, atoi(a[0].s) * 1024) || pthread_create(&th, &at, onstack_run, &t)) harness_die("cannot create a thread");
    pthread_attr_destroy(&at);
    pthread_join(th, NULL);
}
static int open_fds(void)
{
    int n = 0;
    for (int i = 0; i < 256; ++i) n += fcntl(i, F_GETFD) != -1;
    return n;
}
struct cmd { int n; struct arg *a; char *raw; size_t rawlen; };

/* Reads the "CASE n" line's commands; NULL at the end of input. */
static struct cmd *read_case(int *ncp)
{
    char b[64];
    if (!fgets(b, sizeof b, stdin)) return NULL;
    if (strncmp(b, "CASE ", 5)) harness_die("protocol: %s", b);
    int nc = *ncp = atoi(b + 5);
    struct cmd *cs = calloc(nc ? nc : 1, sizeof *cs);
    for (int i = 0; i < nc; ++i)
    {
        cs[i].n = rd_num();
        if (cs[i].n < 1) harness_die("protocol: arg count");
        cs[i].a = calloc(cs[i].n, sizeof(struct arg));
        for (int j = 0; j < cs[i].n; ++j)
        {
            long l = rd_num();
            if (l < 0) harness_die("protocol: arg length");
            cs[i].a[j].s = malloc(l + 1); /* exact size: one byte past the terminator is poisoned */
            cs[i].a[j].len = l;
            if (l && fread(cs[i].a[j].s, 1, l, stdin) != (size_t)l) harness_die("protocol: short arg");
            cs[i].a[j].s[l] = '\0';
            if (getchar() != '\n') harness_die("protocol: newline");
        }
    }
    return cs;
}
static void free_case(struct cmd *cs, int nc)
{
    for (int i = 0; i < nc; ++i)
    { for (int j = 0; j < cs[i].n; ++j) free(cs[i].a[j].s); free(cs[i].a); }
    free(cs);
}
#ifdef MT
#define MAXORD 65536
static unsigned char order[MAXORD]; static unsigned seqno; static PERTHREAD int me = -1;
static void note_step(void)
{   /* relaxed: must not order the threads */
    if (me < 0) return;
    unsigned k = __atomic_fetch_add(&seqno, 1, __ATOMIC_RELAXED);
    if (k < MAXORD) order[k] = me;
}
#else
static void note_step(void) { }
#endif
/* Runs the commands, appending their results separated by commas. */
static void run_case(struct cmd *cs, int nc, GString *o)
{
    for (int i = 0; i < nc; ++i)
    {
        if (i) g_string_append_c(o, ',');
        /* "?op slot ..." is skipped (null) when the slot is empty */
        bool maybe = cs[i].a[0].s[0] == '?';
        struct op *p = find_op(cs[i].a[0].s + maybe);
        if (maybe && SL[argi(&cs[i].a[g_ascii_isdigit(cs[i].a[1].s[0]) ? 1 : 2])].kind == K_NONE) { g_string_append(o, "null"); continue; }
        if (cs[i].n - 1 < p->min) harness_die("op %s: too few args", p->name);
        size_t l0 = o->len;
        /* "@@k" stands for the last string that command k returned */
        for (int j = 1; j < cs[i].n; ++j)
            if (cs[i].a[j].len > 2 && cs[i].a[j].len < 6 && !strncmp(cs[i].a[j].s, "@@", 2))
            {
                int k = atoi(cs[i].a[j].s + 2);
                if (k < 0 || k >= i) harness_die("bad reference %s", cs[i].a[j].s);
                size_t l = cs[k].raw ? cs[k].rawlen : 0;
                free(cs[i].a[j].s);
                cs[i].a[j].s = malloc(l + 1); cs[i].a[j].len = l;
                if (l) memcpy(cs[i].a[j].s, cs[k].raw, l);
                cs[i].a[j].s[l] = '\0';
            }
        lastset = false;
        note_step();
        p->fn(cs[i].a + 1, cs[i].n - 1, o);
        if (o->len == l0) g_string_append(o, "null");
        if (lastset) { cs[i].raw = malloc(lastraw->len + 1); cs[i].rawlen = lastraw->len; memcpy(cs[i].raw, lastraw->str, lastraw->len + 1); }
    }
    for (int i = 0; i < nc; ++i) { free(cs[i].raw); cs[i].raw = NULL; }
}
static void emit(GString *o)
{
    printf("%zu\n", o->len);
    fwrite(o->str, 1, o->len, stdout);
    putchar('\n');
    fflush(stdout);
}

#ifdef MT
/* Rounds: one preparing case filling the shared slots (80 and up), then t cases run by t threads at once
 * and, afterwards, one after the other. */
#include <pthread.h>
#define SHARED 80
struct job { struct cmd *cs; int nc; GString *o; struct slot *shared; pthread_barrier_t *bar; unsigned delay; int id; };
static struct cmd *copy_case(struct cmd *cs, int nc)
{
    struct cmd *r = calloc(nc ? nc : 1, sizeof *r);
    for (int i = 0; i < nc; ++i)
    {
        r[i].n = cs[i].n; r[i].a = calloc(cs[i].n, sizeof(struct arg));
        for (int j = 0; j < cs[i].n; ++j)
        { size_t l = r[i].a[j].len = cs[i].a[j].len; r[i].a[j].s = malloc(l + 1); memcpy(r[i].a[j].s, cs[i].a[j].s, l + 1); }
    }
    return r;
}
static void *work(void *v)
{
    struct job *j = v;
    lastraw = g_string_sized_new(1 << 16);
    memcpy(SL + SHARED, j->shared, (NSLOT - SHARED) * sizeof *SL);
    if (j->bar) pthread_barrier_wait(j->bar);
    for (volatile unsigned i = 0; i < j->delay; ++i) ;
    me = j->id;
    run_case(j->cs, j->nc, j->o);
    me = -1;
    for (int i = SHARED; i-- > 0;) if (SL[i].kind != K_NONE) slot_free(i);
    g_string_free(lastraw, TRUE);
    return NULL;
}
int main(int argc, char **argv)
{
    sr_debug_parser = false;
    char b[64];
    while (fgets(b, sizeof b, stdin))
    {
        int t = 0; unsigned seed = 0;
        if (sscanf(b, "ROUND %d %u", &t, &seed) != 2 || t < 1 || t > 16) harness_die("protocol: %s", b);
        struct cmd *cs[17]; int nc[17];
        for (int i = 0; i <= t; ++i) if (!(cs[i] = read_case(&nc[i]))) harness_die("protocol: short round");
        GString *o = g_string_new("[[");
        lastraw = g_string_sized_new(1 << 16);
        run_case(cs[0], nc[0], o);
        pthread_barrier_t bar; seqno = 0;
        struct job j[16]; pthread_t th[16];
        for (int phase = 0; phase < 2; ++phase)
        {
            pthread_barrier_init(&bar, NULL, t);
            for (int i = 0; i < t; ++i)
            {
                seed = seed * 1103515245 + 12345;
                j[i] = (struct job){ phase ? cs[i + 1] : copy_case(cs[i + 1], nc[i + 1]), nc[i + 1], g_string_new(NULL), SL + SHARED, phase ? NULL : &bar, phase ? 0 : (seed >> 16) % 4000, phase ? -1 : i };
                if (pthread_create(&th[i], NULL, work, &j[i])) harness_die("pthread_create");
                if (phase) pthread_join(th[i], NULL);
            }
            g_string_append(o, "],[");
            for (int i = 0; i < t; ++i)
            {
                if (!phase) { pthread_join(th[i], NULL); free_case(j[i].cs, j[i].nc); }
                g_string_append_printf(o, "%s[", i ? "," : "");
                g_string_append_len(o, j[i].o->str, j[i].o->len);
                g_string_append_c(o, ']');
                g_string_free(j[i].o, TRUE);
            }
            pthread_barrier_destroy(&bar);
        }
        g_string_append(o, "],\"");
        for (unsigned i = 0; i < seqno && i < MAXORD; ++i) g_string_append_c(o, 'a' + order[i]);
        g_string_append(o, "\"]");
        for (int i = NSLOT; i-- > 0;) if (SL[i].kind != K_NONE) slot_free(i);
        for (int i = 0; i <= t; ++i) free_case(cs[i], nc[i]);
        g_string_free(lastraw, TRUE);
        emit(o);
        g_string_free(o, TRUE);
    }
    fflush(stdout);
    return 0;
}
#else
int main(int argc, char **argv)
{
    leakmode = getenv("DRV_LEAK") != NULL;
    int cpu = getenv("DRV_CPU") ? atoi(getenv("DRV_CPU")) : 20;
    static char obuf[1 << 16];
    setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
    sr_debug_parser = false;
    lastraw = g_string_sized_new(1 << 20);
    signal(SIGPROF, hang);
#ifdef ASAN
    if (leakmode) __sanitizer_install_malloc_and_free_hooks(mh, fh);
    track = getenv("DRV_LEAKDESC") != NULL;
#endif
    for (int caseno = 0;; ++caseno)
    {
        int nc;
        struct cmd *cs = read_case(&nc);
        if (!cs) break;
        struct itimerval it = { { 0, 0 }, { cpu, 0 } };
        snprintf(msg, sizeof msg, "HANG: case %d used more than %d s of CPU\n", caseno, cpu);
        setitimer(ITIMER_PROF, &it, NULL);
        GString *o = g_string_sized_new(4096);
        int fds = leakmode ? open_fds() : 0;
        long before = net; unsigned long al0 = allocs;
        /* every other case (whichever its position) runs with the standard input closed, as ABRT's core hook does: files get descriptor 0 */
        size_t par = nc; bool hook = false;
        for (int i = 0; i < nc; ++i)
        {
            for (int j = 0; j < cs[i].n; ++j) par += cs[i].a[j].len;
            hook |= cs[i].n > 1 && !strcmp(cs[i].a[0].s, "core") && !strcmp(cs[i].a[1].s, "hook");    /* closes it itself */
        }
        bool noin = par % 2 && !hook && dup2(0, 250) == 250 && !close(0);
        g_string_append_c(o, '[');
        run_case(cs, nc, o);
        for (int i = NSLOT; i-- > 0;) if (SL[i].kind != K_NONE) slot_free(i);
        if (leakmode)
        {
            long d = net - before;
#ifdef ASAN
            if (d > 0 && track)
            {
                int shown = 0; track = 0;
                fprintf(stderr, "LEAK: case %d leaves %ld blocks allocated\n", caseno, d);
                for (int i = 0; i < LIVE; ++i) if (live[i])
                { if (live[i] != (void *)o && live[i] != (void *)o->str && shown++ < 4) __asan_describe_address((void *)live[i]); live[i] = NULL; }
                track = 1;
            }
#endif
            g_string_append_printf(o, "%s{\"net\":%ld,\"allocs\":%lu,\"fds\":%d}", nc ? "," : "", d, allocs - al0, open_fds() - fds);
        }
        g_string_append_c(o, ']');
        if (noin && (dup2(250, 0) || close(250))) harness_die("standard input lost");
        it.it_value.tv_sec = 0; setitimer(ITIMER_PROF, &it, NULL);
        emit(o);
        g_string_free(o, TRUE);
        free_case(cs, nc);
    }
    fflush(stdout);
    _exit(0);
}
#endif
