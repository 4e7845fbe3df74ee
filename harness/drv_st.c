/* Operations on stacktraces, threads, frames, distances and clusters. */
#define _GNU_SOURCE
#include "drv.h"
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/ptrace.h>
#include <elfutils/libdwfl.h>
#include <gelf.h>
#include <sys/wait.h>

static struct tdesc const *slot_td(int i)
{
    if (SL[i].kind != K_ST && SL[i].kind != K_TH) harness_die("slot %d holds no stacktrace/thread (%d)", i, SL[i].kind);
    return td_by_type(SL[i].type);
}
void *st_of(int i)
{
    if (SL[i].kind != K_ST) harness_die("slot %d holds no stacktrace", i);
    return SL[i].p;
}
static void *nth(void *p, int n, size_t off) { while (p && n-- > 0) p = NEXT(p, off); return p; }
struct sr_thread *get_thread(int s, int ti)
{
    const struct tdesc *d = slot_td(s);
    if (SL[s].kind == K_TH || !d->multi) return SL[s].p;
    void *t = nth(NEXT(SL[s].p, d->s_threads), ti, d->t_next);
    if (!t) harness_die("no thread %d in slot %d", ti, s);
    return t;
}
struct sr_frame *get_frame(int s, int ti, int fi)
{
    const struct tdesc *d = slot_td(s);
    void *f = nth(NEXT(get_thread(s, ti), d->t_frames), fi, d->f_next);
    if (!f) harness_die("no frame %d in thread %d of slot %d", fi, ti, s);
    return f;
}
static void take(GString *o, char *s) { o_str(o, s); g_free(s); }

/* parse S type text : generic entry point */
static void op_parse(struct arg *a, int n, GString *o)
{
    const struct tdesc *d = td_by_name(a[1].s);
    char *err = NULL;
    struct sr_stacktrace *st = sr_stacktrace_parse(d->type, a[2].s, &err);
    if (st) slot_set(argi(&a[0]), K_ST, d->type, st, 0);
    g_string_append_printf(o, "{\"ok\":%s,\"err\":", st ? "true" : "false");
    take(o, err);
    g_string_append_c(o, '}');
}

/* parsex S kind text : specific entry point with location */
static void op_parsex(struct arg *a, int n, GString *o)
{
    const char *k = a[1].s, *in = a[2].s;
    struct sr_location l; sr_location_init(&l);
    int t = 0; void *p = NULL; enum kind kd = K_ST;
    if (!strcmp(k, "gdb")) { t = SR_REPORT_GDB; p = sr_gdb_stacktrace_parse(&in, &l); }
    else if (!strcmp(k, "gdb_thread")) { t = SR_REPORT_GDB; kd = K_TH; p = sr_gdb_thread_parse(&in, &l); }
    else if (!strcmp(k, "gdb_funs")) { t = SR_REPORT_GDB; kd = K_TH; p = sr_gdb_thread_parse_funs(in); }
    else if (!strcmp(k, "java")) { t = SR_REPORT_JAVA; p = sr_java_stacktrace_parse(&in, &l); }
    else if (!strcmp(k, "java_thread")) { t = SR_REPORT_JAVA; kd = K_TH; p = sr_java_thread_parse(&in, &l); }
    else if (!strcmp(k, "koops")) { t = SR_REPORT_KERNELOOPS; p = sr_koops_stacktrace_parse(&in, &l); }
    else if (!strcmp(k, "python")) { t = SR_REPORT_PYTHON; p = sr_python_stacktrace_parse(&in, &l); }
    else if (!strcmp(k, "ruby")) { t = SR_REPORT_RUBY; p = sr_ruby_stacktrace_parse(&in, &l); }
    else if (!strcmp(k, "js")) { t = SR_REPORT_JAVASCRIPT; p = sr_js_stacktrace_parse(&in, &l); }
    else if (!strcmp(k, "js_v8")) { t = SR_REPORT_JAVASCRIPT; p = sr_js_stacktrace_parse_v8(&in, &l); }
    else if (!strcmp(k, "js_platform")) { t = SR_REPORT_JAVASCRIPT; p = sr_js_platform_parse_stacktrace(0x11, &in, &l); }
    else harness_die("parsex %s", k);
    if (p) slot_set(argi(&a[0]), kd, t, p, 0);
    g_string_append_printf(o, "{\"ok\":%s,\"consumed\":%ld,\"loc\":", p ? "true" : "false", (long)(in - a[2].s));
    dump_loc(o, &l);
    g_string_append_c(o, '}');
}

/* parsef kind text : single frame parsers, dumped at once */
static void op_parsef(struct arg *a, int n, GString *o)
{
    const char *k = a[0].s, *in = a[1].s;
    struct sr_location l; sr_location_init(&l);
    int t = 0; void *p = NULL;
    if (!strcmp(k, "gdb")) { t = SR_REPORT_GDB; p = sr_gdb_frame_parse(&in, &l); }
    else if (!strcmp(k, "gdb_header")) { t = SR_REPORT_GDB; p = sr_gdb_frame_parse_header(&in, &l); }
    else if (!strcmp(k, "java")) { t = SR_REPORT_JAVA; p = sr_java_frame_parse(&in, &l); }
    else if (!strcmp(k, "java_exc")) { t = SR_REPORT_JAVA; p = sr_java_frame_parse_exception(&in, &l); }
    else if (!strcmp(k, "koops")) { t = SR_REPORT_KERNELOOPS; p = sr_koops_frame_parse(&in); }
    else if (!strcmp(k, "python")) { t = SR_REPORT_PYTHON; p = sr_python_frame_parse(&in, &l); }
    else if (!strcmp(k, "ruby")) { t = SR_REPORT_RUBY; p = sr_ruby_frame_parse(&in, &l); }
    else if (!strcmp(k, "js")) { t = SR_REPORT_JAVASCRIPT; p = sr_js_frame_parse(&in, &l); }
    else if (!strcmp(k, "js_v8")) { t = SR_REPORT_JAVASCRIPT; p = sr_js_frame_parse_v8(&in, &l); }
    else if (!strcmp(k, "js_platform")) { t = SR_REPORT_JAVASCRIPT; p = sr_js_platform_parse_frame(0x11, &in, &l); }
    else harness_die("parsef %s", k);
    g_string_append_printf(o, "{\"ok\":%s,\"consumed\":%ld,\"frames\":", p ? "true" : "false", (long)(in - a[1].s));
    dump_frames(o, td_by_type(t), p);
    g_string_append(o, ",\"loc\":");
    dump_loc(o, &l);
    g_string_append_c(o, '}');
    if (!p && !strcmp(k, "ruby")) g_free((char *)l.message); /* allocated, as the repository's own test has it */
    if (!strcmp(k, "java_exc")) sr_java_frame_free_full(p);
    else if (p) sr_frame_free(p);
}

/* gdbp which text : low-level GDB grammar entry points */
static void op_gdbp(struct arg *a, int n, GString *o)
{
    const char *k = a[0].s, *in = a[1].s;
    struct sr_location l; sr_location_init(&l);
    char *s1 = NULL, *s2 = NULL; long ret = -1; uint64_t q = 0; uint32_t u = 0;
    if (!strcmp(k, "start")) ret = sr_gdb_frame_parse_frame_start(&in, &u);
    else if (!strcmp(k, "operator")) { GString *g = g_string_new(NULL); ret = sr_gdb_frame_parseadd_operator(&in, g); s1 = g_string_free(g, FALSE); }
    else if (!strcmp(k, "chunk")) ret = sr_gdb_frame_parse_function_name_chunk(&in, false, &s1);
    else if (!strcmp(k, "chunks")) ret = sr_gdb_frame_parse_function_name_chunk(&in, true, &s1);
    else if (!strcmp(k, "braces")) ret = sr_gdb_frame_parse_function_name_braces(&in, &s1);
    else if (!strcmp(k, "template")) ret = sr_gdb_frame_parse_function_name_template(&in, &s1);
    else if (!strcmp(k, "template_args")) ret = sr_gdb_frame_parse_function_name_template_args(&in, &s1);
    else if (!strcmp(k, "name")) ret = sr_gdb_frame_parse_function_name(&in, &s1, &s2, &l);
    else if (!strcmp(k, "skip_args")) ret = sr_gdb_frame_skip_function_args(&in, &l);
    else if (!strcmp(k, "call")) ret = sr_gdb_frame_parse_function_call(&in, &s1, &s2, &l);
    else if (!strcmp(k, "addr_in")) ret = sr_gdb_frame_parse_address_in_function(&in, &q, &s1, &s2, &l);
    else if (!strcmp(k, "file_loc")) ret = sr_gdb_frame_parse_file_location(&in, &s1, &u, &l);
    else if (!strcmp(k, "lwp")) ret = sr_gdb_thread_parse_lwp(&in, &u);
    else if (!strcmp(k, "skip_lwp")) ret = sr_gdb_thread_skip_lwp(&in);
    else if (!strcmp(k, "header"))
    {
        struct sr_gdb_frame *f = NULL;
        ret = sr_gdb_stacktrace_parse_header(&in, &f, &l);
        if (ret && f) sr_gdb_frame_free(f);
    }
    else harness_die("gdbp %s", k);
    g_string_append_printf(o, "{\"ret\":%ld,\"consumed\":%ld,\"u\":%u,\"q\":%" PRIu64 ",\"s1\":", ret, (long)(in - a[1].s), u, q);
    bool own = ret > 0 || !strcmp(k, "operator");
    if (own) o_str(o, s1); else g_string_append(o, "null");
    g_string_append(o, ",\"s2\":");
    if (own) o_str(o, s2); else g_string_append(o, "null");
    g_string_append_c(o, '}');
    if (own) { g_free(s1); g_free(s2); }
}

/* koopsp which text */
static void op_koopsp(struct arg *a, int n, GString *o)
{
    const char *k = a[0].s, *in = a[1].s;
    char *s1 = NULL, *s2 = NULL; bool ret = false; uint64_t q = 0, q2 = 0; char **mods = NULL;
    if (!strcmp(k, "ts")) ret = sr_koops_skip_timestamp(&in);
    else if (!strcmp(k, "addr")) ret = sr_koops_parse_address(&in, &q);
    else if (!strcmp(k, "mod")) ret = sr_koops_parse_module_name(&in, &s1);
    else if (!strcmp(k, "func")) ret = sr_koops_parse_function(&in, &s1, &q, &q2, &s2);
    else if (!strcmp(k, "modules")) { mods = sr_koops_stacktrace_parse_modules(&in); ret = mods != NULL; }
    else harness_die("koopsp %s", k);
    g_string_append_printf(o, "{\"ret\":%d,\"consumed\":%ld,\"q\":%" PRIu64 ",\"q2\":%" PRIu64 ",\"s1\":", ret, (long)(in - a[1].s), q, q2);
    if (ret) o_str(o, s1); else g_string_append(o, "null");
    g_string_append(o, ",\"s2\":");
    if (ret) o_str(o, s2); else g_string_append(o, "null");
    g_free(s1); g_free(s2);
    if (mods)
    {
        g_string_append(o, ",\"mods\":[");
        for (char **m = mods; *m; ++m) { if (m != mods) g_string_append_c(o, ','); o_str(o, *m); g_free(*m); }
        g_string_append_c(o, ']');
        g_free(mods);
    }
    g_string_append_c(o, '}');
}

static void op_fromjson(struct arg *a, int n, GString *o)
{
    const struct tdesc *d = td_by_name(a[1].s);
    char *err = NULL;
    struct sr_stacktrace *st = NULL;
    bool noerr = n > 3 && a[3].s[0] == '0'; /* caller not interested in the message */
    if (d->type == SR_REPORT_CORE && !noerr && n > 3)
        st = (void *)sr_core_stacktrace_from_json_text(a[2].s, &err);
    else
        st = sr_stacktrace_from_json_text(d->type, a[2].s, noerr ? NULL : &err);
    if (st) slot_set(argi(&a[0]), K_ST, d->type, st, 0);
    g_string_append_printf(o, "{\"ok\":%s,\"err\":", st ? "true" : "false");
    take(o, err);
    g_string_append_c(o, '}');
}

/* fromroot S type json : json_object level entry points with a NULL-able message */
static void op_fromroot(struct arg *a, int n, GString *o)
{
    const struct tdesc *d = td_by_name(a[1].s);
    json_object *root = json_tokener_parse(a[2].s);
    char *err = NULL;
    struct sr_stacktrace *st = sr_stacktrace_from_json(d->type, root, &err);
    json_object_put(root);
    if (st) slot_set(argi(&a[0]), K_ST, d->type, st, 0);
    g_string_append_printf(o, "{\"ok\":%s,\"err\":", st ? "true" : "false");
    take(o, err);
    g_string_append_c(o, '}');
}

json_object *spec_parse(struct arg *a)
{
    json_object *s = json_tokener_parse(a->s);
    if (!s) harness_die("bad spec: %s", a->s);
    return s;
}
static void op_build(struct arg *a, int n, GString *o)
{
    const struct tdesc *d = td_by_name(a[1].s);
    json_object *s = spec_parse(&a[2]);
    slot_set(argi(&a[0]), K_ST, d->type, build_stacktrace(d, s), 0);
    json_object_put(s);
    g_string_append(o, "null");
}
static void op_dump(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]);
    if (SL[i].kind == K_ST) dump_stacktrace(o, td_by_type(SL[i].type), SL[i].p);
    else if (SL[i].kind == K_TH) dump_thread(o, td_by_type(SL[i].type), SL[i].p);
    else g_string_append(o, "null");
}
static void op_tojson(struct arg *a, int n, GString *o) { take(o, sr_stacktrace_to_json(st_of(argi(&a[0])))); }
static void op_dup(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]); void *p = st_of(i), *q = NULL;
    switch (SL[i].type)
    {
    case SR_REPORT_GDB: q = sr_gdb_stacktrace_dup(p); break;
    case SR_REPORT_CORE: q = sr_core_stacktrace_dup(p); break;
    case SR_REPORT_JAVA: q = sr_java_stacktrace_dup(p); break;
    case SR_REPORT_KERNELOOPS: q = sr_koops_stacktrace_dup(p); break;
    case SR_REPORT_PYTHON: q = sr_python_stacktrace_dup(p); break;
    case SR_REPORT_RUBY: q = sr_ruby_stacktrace_dup(p); break;
    case SR_REPORT_JAVASCRIPT: q = sr_js_stacktrace_dup(p); break;
    }
    slot_set(argi(&a[1]), K_ST, SL[i].type, q, 0);
    g_string_append(o, "null");
}
static void op_poke(struct arg *a, int n, GString *o) { int i = argi(&a[0]); poke_stacktrace(td_by_type(SL[i].type), st_of(i)); g_string_append(o, "null"); }
static void op_free(struct arg *a, int n, GString *o) { slot_free(argi(&a[0])); g_string_append(o, "null"); }
static void op_tdup(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]);
    struct sr_thread *t = sr_thread_dup(get_thread(i, argi(&a[1])));
    slot_set(argi(&a[2]), K_TH, SL[i].type, t, 0);
    g_string_append_printf(o, "{\"next\":%s}", (td_by_type(SL[i].type)->multi && sr_thread_next(t)) ? "true" : "false");
}
static void op_fdup(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]); bool sib = argi(&a[3]);
    struct sr_frame *f = get_frame(i, argi(&a[1]), argi(&a[2])); void *q = NULL;
    switch (SL[i].type)
    {
    case SR_REPORT_GDB: q = sr_gdb_frame_dup((void *)f, sib); break;
    case SR_REPORT_CORE: q = sr_core_frame_dup((void *)f, sib); break;
    case SR_REPORT_JAVA: q = sr_java_frame_dup((void *)f, sib); break;
    case SR_REPORT_KERNELOOPS: q = sr_koops_frame_dup((void *)f, sib); break;
    case SR_REPORT_PYTHON: q = sr_python_frame_dup((void *)f, sib); break;
    case SR_REPORT_RUBY: q = sr_ruby_frame_dup((void *)f, sib); break;
    case SR_REPORT_JAVASCRIPT: q = sr_js_frame_dup((void *)f, sib); break;
    }
    const struct tdesc *d = td_by_type(SL[i].type);
    dump_frames(o, d, q);
    while (q) { void *nx = NEXT(q, d->f_next); sr_frame_free(q); q = nx; }
}
static void op_bthash(struct arg *a, int n, GString *o) { take(o, sr_stacktrace_get_bthash(st_of(argi(&a[0])), argi(&a[1]))); }
static void op_reason(struct arg *a, int n, GString *o) { take(o, sr_stacktrace_get_reason(st_of(argi(&a[0])))); }
static void op_short(struct arg *a, int n, GString *o) { take(o, sr_stacktrace_to_short_text(st_of(argi(&a[0])), argi(&a[1]))); }
static void op_crash(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]);
    const struct tdesc *d = td_by_type(SL[i].type);
    void *t = sr_stacktrace_find_crash_thread(st_of(i));
    int idx = t ? -2 : -1, j = 0;
    if (!d->multi) { if (t == SL[i].p) idx = 0; }
    else for (void *x = NEXT(SL[i].p, d->s_threads); x; x = NEXT(x, d->t_next), ++j) if (x == t) idx = j;
    g_string_append_printf(o, "%d", idx);
}
static void op_threads(struct arg *a, int n, GString *o)
{
    int c = 0;
    for (struct sr_thread *t = sr_stacktrace_threads(st_of(argi(&a[0]))); t; t = sr_thread_next(t)) ++c;
    g_string_append_printf(o, "%d", c);
}
static void op_tcount(struct arg *a, int n, GString *o) { g_string_append_printf(o, "%d", sr_thread_frame_count(get_thread(argi(&a[0]), argi(&a[1])))); }
static void op_tcmp(struct arg *a, int n, GString *o)
{
    g_string_append_printf(o, "%d", sr_thread_cmp(get_thread(argi(&a[0]), argi(&a[1])), get_thread(argi(&a[2]), argi(&a[3]))));
}
static void op_stcmp(struct arg *a, int n, GString *o)
{ g_string_append_printf(o, "%d", sr_java_stacktrace_cmp(st_of(argi(&a[0])), st_of(argi(&a[1])))); }
static void op_fcmp(struct arg *a, int n, GString *o)
{
    struct sr_frame *x = get_frame(argi(&a[0]), argi(&a[1]), argi(&a[2])), *y = get_frame(argi(&a[3]), argi(&a[4]), argi(&a[5]));
    int nn = n > 6 ? argi(&a[6]) : -1;
    int r = nn < 0 ? sr_frame_cmp(x, y) : sr_gdb_frame_cmp((void *)x, (void *)y, nn);
    g_string_append_printf(o, "[%d,%d]", r, sr_frame_cmp_distance(x, y));
}
/* fcmpall S ti -> matrix of frame_cmp signs and cmp_distance signs among all frames */
static void op_fcmpall(struct arg *a, int n, GString *o)
{
    int s = argi(&a[0]), ti = argi(&a[1]), c = 0;
    const struct tdesc *d = td_by_type(SL[s].type);
    struct sr_frame *fs[64];
    for (void *f = NEXT(get_thread(s, ti), d->t_frames); f && c < 64; f = NEXT(f, d->f_next)) fs[c++] = f;
    for (int w = 0; w < 2; ++w)
    {
        g_string_append(o, w ? ",[" : "[[");
        for (int i = 0; i < c; ++i) for (int j = 0; j < c; ++j)
        {
            int r = w ? sr_frame_cmp_distance(fs[i], fs[j]) : sr_frame_cmp(fs[i], fs[j]);
            g_string_append_printf(o, "%s%d", i + j ? "," : "", r < 0 ? -1 : r > 0);
        }
        g_string_append_c(o, ']');
    }
    g_string_append_c(o, ']');
}
static void op_tcmpall(struct arg *a, int n, GString *o)
{
    int s = argi(&a[0]), c = 0;
    const struct tdesc *d = td_by_type(SL[s].type);
    struct sr_thread *ts[64];
    for (void *t = NEXT(st_of(s), d->s_threads); t && c < 64; t = NEXT(t, d->t_next)) ts[c++] = t;
    g_string_append_c(o, '[');
    for (int i = 0; i < c; ++i) for (int j = 0; j < c; ++j)
    { int r = sr_thread_cmp(ts[i], ts[j]); g_string_append_printf(o, "%s%d", i + j ? "," : "", r < 0 ? -1 : r > 0); }
    g_string_append_c(o, ']');
}
/* tcmps S...: every ordered pair of the first threads of the slots */
static void op_tcmps(struct arg *a, int n, GString *o)
{
    g_string_append_c(o, '[');
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j)
    { int r = sr_thread_cmp(get_thread(argi(&a[i]), 0), get_thread(argi(&a[j]), 0)); g_string_append_printf(o, "%s%d", i + j ? "," : "", r < 0 ? -1 : r > 0); }
    g_string_append_c(o, ']');
}
static void op_fstr(struct arg *a, int n, GString *o)
{
    GString *g = g_string_new(NULL);
    sr_frame_append_to_str(get_frame(argi(&a[0]), argi(&a[1]), argi(&a[2])), g);
    o_bytes(o, g->str, g->len);
    g_string_free(g, TRUE);
}
static void op_tnorm(struct arg *a, int n, GString *o) { sr_thread_normalize(get_thread(argi(&a[0]), argi(&a[1]))); g_string_append(o, "null"); }
static void op_duphash(struct arg *a, int n, GString *o)
{   /* S ti frames prefix|"\x01" flags */
    take(o, sr_thread_get_duphash(get_thread(argi(&a[0]), argi(&a[1])), argi(&a[2]), a[3].s[0] == 1 ? NULL : a[3].s, argi(&a[4])));
}
static void op_tremove(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]);
    struct sr_thread *t = get_thread(i, argi(&a[1]));
    int fi = argi(&a[2]);
    struct sr_frame *f, *foreign = NULL;
    if (fi < 0) foreign = f = td_by_type(SL[i].type)->f_new(); /* a frame that is not in this thread */
    else f = get_frame(i, argi(&a[1]), fi);
    bool own = n > 3 && argi(&a[3]); /* through the function of the type itself */
    bool r;
    if (own && SL[i].type == SR_REPORT_GDB) r = sr_gdb_thread_remove_frame((void *)t, (void *)f);
    else if (own && SL[i].type == SR_REPORT_JAVA) r = sr_java_thread_remove_frame((void *)t, (void *)f);
    else r = sr_thread_remove_frame(t, f);
    if (foreign) sr_frame_free(foreign);
    g_string_append_printf(o, "%s", r ? "true" : "false");
}
static void op_tremove_above(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]);
    struct sr_thread *t = get_thread(i, argi(&a[1]));
    int fi = argi(&a[2]);
    struct sr_frame *f, *foreign = NULL;
    if (fi < 0) foreign = f = td_by_type(SL[i].type)->f_new();
    else f = get_frame(i, argi(&a[1]), fi);
    bool own = n > 3 && argi(&a[3]); /* through the function of the type itself */
    bool r;
    if (own && SL[i].type == SR_REPORT_GDB) r = sr_gdb_thread_remove_frames_above((void *)t, (void *)f);
    else if (own && SL[i].type == SR_REPORT_JAVA) r = sr_java_thread_remove_frames_above((void *)t, (void *)f);
    else r = sr_thread_remove_frames_above(t, f);
    if (foreign) sr_frame_free(foreign);
    g_string_append_printf(o, "%s", r ? "true" : "false");
}
/* relink S ti fi,fi,... : sets the frames of a thread, in a new order, through the generic interface */
static void op_relink(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]);
    bool ths = !strcmp(a[1].s, "threads");
    struct sr_thread *t = ths ? NULL : get_thread(i, argi(&a[1]));
    char **w = a[2].s[0] ? g_strsplit(a[2].s, ",", -1) : NULL;
    int c = w ? g_strv_length(w) : 0;
    void **v = g_new0(void *, c + 1);
    for (int k = 0; k < c; k++) v[k] = ths ? (void *)get_thread(i, atoi(w[k])) : (void *)get_frame(i, argi(&a[1]), atoi(w[k]));
    for (int k = 0; k < c; k++)
        if (ths) sr_thread_set_next(v[k], v[k + 1]);
        else sr_frame_set_next(v[k], v[k + 1]);
    if (ths) sr_stacktrace_set_threads(st_of(i), v[0]);
    else sr_thread_set_frames(t, v[0]);
    /* read back through the getters */
    void *x = ths ? (void *)sr_stacktrace_threads(st_of(i)) : (void *)sr_thread_frames(t);
    int k = 0;
    while (x && k < c && x == v[k]) { k++; x = ths ? (void *)sr_thread_next(x) : (void *)sr_frame_next(x); }
    g_string_append_printf(o, "%s", k == c && !x ? "true" : "false");
    g_free(v); g_strfreev(w);
}
/* flast S ti fi : index distance from frame fi to the last one (java); fprepend S : koops frames moved to a new list by prepending */
static void op_flast(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]), k = 0;
    struct sr_java_frame *f = (void *)get_frame(i, argi(&a[1]), argi(&a[2])), *l = sr_java_frame_get_last(f);
    while (f && f != l) { f = f->next; k++; }
    g_string_append_printf(o, "%d", f ? k : -1);
}
static void op_fprepend(struct arg *a, int n, GString *o)
{
    struct sr_koops_stacktrace *s = st_of(argi(&a[0]));
    struct sr_koops_frame *f = s->frames, *r = NULL;
    while (f)
    {
        struct sr_koops_frame *next = f->next;
        f->next = NULL;
        r = sr_koops_frame_prepend(r, f);
        f = next;
    }
    s->frames = r;
    g_string_append(o, "true");
}
static void op_tbelow(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]); void *t = get_thread(i, argi(&a[1])); int k = argi(&a[2]);
    if (SL[i].type == SR_REPORT_GDB) sr_gdb_thread_remove_frames_below_n(t, k);
    else if (SL[i].type == SR_REPORT_JAVA) sr_java_thread_remove_frames_below_n(t, k);
    else harness_die("below_n");
    g_string_append(o, "null");
}
static void op_tquality(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]), ok = 0, all = 0; void *t = get_thread(i, argi(&a[1])); float q;
    if (SL[i].type == SR_REPORT_GDB) { sr_gdb_thread_quality_counts(t, &ok, &all); q = sr_gdb_thread_quality(t); }
    else { sr_java_thread_quality_counts(t, &ok, &all); q = sr_java_thread_quality(t); }
    g_string_append_printf(o, "[%d,%d,", ok, all); o_float(o, q); g_string_append_c(o, ']');
}
static void op_tfuns(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]); void *t = get_thread(i, argi(&a[1]));
    take(o, SL[i].type == SR_REPORT_GDB ? sr_gdb_thread_format_funs(t) : sr_java_thread_format_funs(t));
}
static void op_tstr(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]); void *t = get_thread(i, argi(&a[1])); GString *g = g_string_new(NULL);
    if (SL[i].type == SR_REPORT_GDB) sr_gdb_thread_append_to_str(t, g, argi(&a[2])); else sr_java_thread_append_to_str(t, g);
    o_bytes(o, g->str, g->len); g_string_free(g, TRUE);
}
/* gdb what S [arg] */
static void op_gdb(struct arg *a, int n, GString *o)
{
    const char *k = a[0].s; struct sr_gdb_stacktrace *s = st_of(argi(&a[1]));
    int x = n > 2 ? argi(&a[2]) : 0;
    if (!strcmp(k, "crash_frame"))
    { struct sr_gdb_frame *f = sr_gdb_stacktrace_get_crash_frame(s); dump_frame(o, td_by_type(SR_REPORT_GDB), f); if (f) sr_gdb_frame_free(f); return; }
    else if (!strcmp(k, "set_tid")) sr_gdb_stacktrace_set_crash_tid(s, strtoul(a[2].s, NULL, 10));
    else if (!strcmp(k, "find_crash")) { void *t = sr_gdb_stacktrace_find_crash_thread(s); int i = 0; for (struct sr_gdb_thread *y = s->threads; y && y != t; y = y->next) ++i; g_string_append_printf(o, "%d", t ? i : -1); return; }
    else if (!strcmp(k, "quality")) { g_string_append_c(o, '['); o_float(o, sr_gdb_stacktrace_quality_simple(s)); g_string_append_c(o, ','); o_float(o, sr_gdb_stacktrace_quality_complex(s)); g_string_append_c(o, ']'); return; }
    else if (!strcmp(k, "text")) { take(o, sr_gdb_stacktrace_to_text(s, x)); return; }
    else if (!strcmp(k, "limit")) sr_gdb_stacktrace_limit_frame_depth(s, x);
    else if (!strcmp(k, "keep")) sr_gdb_stacktrace_remove_threads_except_one(s, (void *)get_thread(argi(&a[1]), x));
    else if (!strcmp(k, "libnames")) sr_gdb_stacktrace_set_libnames(s);
    else if (!strcmp(k, "norm")) sr_normalize_gdb_stacktrace(s);
    else if (!strcmp(k, "tnormgdb")) sr_normalize_gdb_thread((void *)get_thread(argi(&a[1]), x));
    else if (!strcmp(k, "toptim")) sr_gdb_normalize_optimize_thread((void *)get_thread(argi(&a[1]), x));
    else if (!strcmp(k, "exit_frame"))
    { struct sr_gdb_frame *f = sr_glibc_thread_find_exit_frame((void *)get_thread(argi(&a[1]), x)); int i = 0; for (struct sr_gdb_frame *y = (void *)sr_thread_frames(get_thread(argi(&a[1]), x)); y && y != f; y = y->next) ++i; g_string_append_printf(o, "%d", f ? i : -1); return; }
    else if (!strcmp(k, "pair")) sr_normalize_gdb_paired_unknown_function_names((void *)get_thread(argi(&a[1]), x), (void *)get_thread(argi(&a[1]), argi(&a[3])));
    else if (!strcmp(k, "count")) { g_string_append_printf(o, "%d", sr_gdb_stacktrace_get_thread_count(s)); return; }
    else if (!strcmp(k, "optimized"))
    { /* S ti max destslot */
        void *t = sr_gdb_thread_get_optimized((void *)get_thread(argi(&a[1]), x), s->libs, argi(&a[3]));
        if (t) slot_set(argi(&a[4]), K_TH, SR_REPORT_GDB, t, 0);
        g_string_append(o, t ? "true" : "false"); return; }
    else if (!strcmp(k, "find_lib"))
    { struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_find_address(s->libs, strtoull(a[2].s, NULL, 10)); int i = 0; for (struct sr_gdb_sharedlib *y = s->libs; y && y != l; y = y->next) ++i; g_string_append_printf(o, "%d", l ? i : -1); return; }
    else harness_die("gdb %s", k);
    g_string_append(o, "null");
}
static void op_libparse(struct arg *a, int n, GString *o)
{
    struct sr_gdb_sharedlib *l = sr_gdb_sharedlib_parse(a[0].s), *m = l ? sr_gdb_sharedlib_dup(l, true) : NULL;
    g_string_append_printf(o, "{\"count\":%d,\"libs\":", l ? sr_gdb_sharedlib_count(l) : 0); dump_libs(o, l);
    g_string_append(o, ",\"dup\":"); dump_libs(o, m); g_string_append_c(o, '}');
    while (l) { struct sr_gdb_sharedlib *x = l->next; sr_gdb_sharedlib_free(l); l = x; }
    while (m) { struct sr_gdb_sharedlib *x = m->next; sr_gdb_sharedlib_free(m); m = x; }
}
/* core ref S core exe: the calls into libdw that reading a core needs and nothing of satyr, to tell what libdw
 * itself leaves behind, or breaks on */
static const char *ref_exe;
static GString *ref_out;   /* where the addresses of the frames go, if anywhere */
static int ref_find(Dwfl_Module *mod, void **u, const char *name, Dwarf_Addr base, char **file, Elf **elf)
{
    if (strcmp(name, "[exe]") && strcmp(name, "[pie]")) return dwfl_build_id_find_elf(mod, u, name, base, file, elf);
    int fd = open(ref_exe, O_RDONLY);
    if (fd < 0) return -1;
    *file = realpath(ref_exe, NULL); *elf = elf_begin(fd, ELF_C_READ_MMAP, NULL);
    if (!*elf) { close(fd); return -1; }
    return fd;
}
static int ref_nodebug(Dwfl_Module *m, void **u, const char *n, GElf_Addr b, const char *f, const char *l, GElf_Word c, char **d) { return -1; }
static int ref_mod(Dwfl_Module *m, void **u, const char *n, Dwarf_Addr s, void *a) { GElf_Addr b; dwfl_module_getelf(m, &b); return DWARF_CB_OK; }
static int ref_frame(Dwfl_Frame *f, void *a)
{
    Dwarf_Addr pc; bool act; const unsigned char *id; GElf_Addr b;
    if (!dwfl_frame_pc(f, &pc, &act)) return DWARF_CB_ABORT;
    Dwfl_Module *m = dwfl_addrmodule(dwfl_thread_dwfl(dwfl_frame_thread(f)), pc - !act);
    if (m) { dwfl_module_getelf(m, &b); dwfl_module_build_id(m, &id, &b); dwfl_module_addrname(m, pc - !act); }
    if (ref_out && *(int *)a < 3000) g_string_append_printf(ref_out, "%s\"%llu\"", *(int *)a ? "," : "", (unsigned long long)pc);
    return ++*(int *)a > 1 << 20 ? DWARF_CB_ABORT : DWARF_CB_OK;
}
static int ref_thread(Dwfl_Thread *t, void *a)
{
    int n = 0;
    if (ref_out) g_string_append_printf(ref_out, "%s\"%d\":[", (*(int *)a)++ ? "," : "", (int)dwfl_thread_tid(t));
    dwfl_thread_getframes(t, ref_frame, &n);
    if (ref_out) g_string_append_c(ref_out, ']');
    return DWARF_CB_OK;
}
static void op_coreref(const char *core, const char *exe, int addresses, GString *o)
{
    Dwfl_Callbacks cb = { .find_elf = ref_find, .find_debuginfo = ref_nodebug, .section_address = dwfl_offline_section_address };
    int fd = open(core, O_RDONLY), nt = 0;
    ref_exe = exe; ref_out = addresses ? o : NULL;
    if (ref_out) g_string_append_c(o, '{');
    elf_version(EV_CURRENT);
    Elf *e = fd < 0 ? NULL : elf_begin(fd, ELF_C_READ_MMAP, NULL);
    GElf_Ehdr eh;
    if (e && gelf_getehdr(e, &eh) && eh.e_type == ET_CORE)
    {
        Dwfl *d = dwfl_begin(&cb);
        if (dwfl_core_file_report(d, e, exe) != -1 && !dwfl_report_end(d, NULL, NULL) && dwfl_getmodules(d, ref_mod, NULL, 0) != -1
            && dwfl_core_file_attach(d, e) >= 0) dwfl_getthreads(d, ref_thread, &nt);
        dwfl_end(d);
    }
    if (e) elf_end(e);
    if (fd >= 0) close(fd);
    if (ref_out) g_string_append_c(o, '}'); else g_string_append(o, "null");
}
/* core hook S how exe signal info crasher script..: runs a program and takes the stack of one of its threads the way
 * the kernel's core hook does. The program notes its calls in the file info, waits for the end of its standard input, which the
 * library brings about by closing the descriptor it was given for the core, and exits. how: 0 one call, 1 prepare
 * and generate, 2 the same but the program is killed in between, 3 the thread does not exist, 4 abrt's JSON */
static void reap(pid_t c, pid_t tid)
{
    kill(c, SIGKILL);
    for (int k = 0; k < 5000; ++k)
    {
        int st;
        ptrace(PTRACE_CONT, tid, NULL, NULL);
        if (tid != c) waitpid(tid, &st, WNOHANG | __WALL);
        if (waitpid(c, &st, WNOHANG | __WALL) == c && !WIFSTOPPED(st)) return;
        usleep(1000);
    }
    harness_die("process %d cannot be reaped", c);
}
static void op_hook(struct arg *a, int n, GString *o)
{
    int i = argi(&a[1]), how = argi(&a[2]), sig = argi(&a[4]), p[2], tid = 0, saved;
    const char *exe = a[3].s, *info = a[5].s;
    char *argv[64], *err = NULL, *json = NULL; int m = 0;
    argv[m++] = (char *)exe;
    for (int j = 5; j < n && m < 63; ++j) argv[m++] = a[j].s;
    argv[m] = NULL;
    if (pipe2(p, O_CLOEXEC)) harness_die("pipe");
    pid_t c = fork();
    if (!c) { dup2(p[0], 0); int z = open("/dev/null", O_WRONLY); dup2(z, 1); dup2(z, 2); setsid(); execv(exe, argv); _exit(127); }
    close(p[0]);
    for (int k = 0; k < 20000 && !tid; ++k)
    {
        FILE *f = fopen(info, "r"); char l[1 << 16]; int t = 0;
        while (f && fgets(l, sizeof l, f)) { int x, y; if (sscanf(l, "T %d %d", &x, &y) == 2 && x == atoi(a[6].s)) t = y; if (!strcmp(l, "END\n")) tid = t; }
        if (f) fclose(f);
        if (!tid) usleep(1000);
    }
    if (!tid) { reap(c, c); close(p[1]); g_string_append(o, "{\"ran\":false}"); return; }
    saved = dup(0); dup2(p[1], 0); close(p[1]);
    struct sr_core_stacktrace *s = NULL;
    int ask = how == 3 ? 0x3ffffff0 : tid;
    if (how == 0 || how == 3) s = sr_core_stacktrace_from_core_hook(ask, exe, sig, &err);
    else if (how == 4) json = sr_abrt_get_core_stacktrace_from_core_hook(tid, exe, sig, &err);
    else
    {
        struct sr_core_stracetrace_unwind_state *u = sr_core_stacktrace_from_core_hook_prepare(tid, &err);
        if (how == 2) reap(c, tid);
        if (u) s = sr_core_stacktrace_from_core_hook_generate(tid, exe, sig, u, &err);
    }
    bool closed = fcntl(0, F_GETFD) == -1;
    dup2(saved, 0); close(saved);
    if (how != 2) reap(c, tid);
    if (s) slot_set(i, K_ST, SR_REPORT_CORE, s, 0);
    g_string_append_printf(o, "{\"ran\":true,\"ok\":%s,\"closed\":%s,\"tid\":%d,\"err\":", s || json ? "true" : "false", closed ? "true" : "false", tid);
    take(o, err); g_string_append(o, ",\"json\":"); take(o, json); g_string_append_c(o, '}');
}
#ifdef MT
/* libdw does not promise to be usable from several threads, so its uses do not overlap. The lock is invisible to
   ThreadSanitizer: accesses of the library to its own variables are still judged as unordered. */
static int dw_held;
__attribute__((no_sanitize_thread, noinline)) static void dw_lock(void) { while (__atomic_exchange_n(&dw_held, 1, __ATOMIC_ACQUIRE)) usleep(50); }
__attribute__((no_sanitize_thread, noinline)) static void dw_unlock(void) { __atomic_store_n(&dw_held, 0, __ATOMIC_RELEASE); }
#else
static void dw_lock(void) { }
static void dw_unlock(void) { }
#endif
static void op_core(struct arg *a, int n, GString *o)
{
    const char *k = a[0].s; int i = argi(&a[1]);
    if (!strcmp(k, "norm")) { sr_normalize_core_thread((void *)get_thread(i, argi(&a[2]))); g_string_append(o, "null"); }
    else if (!strcmp(k, "exit_frame"))
    { struct sr_core_thread *t = (void *)get_thread(i, argi(&a[2])); struct sr_core_frame *f = sr_core_thread_find_exit_frame(t); int j = 0;
      for (struct sr_core_frame *y = t->frames; y && y != f; y = y->next) ++j; g_string_append_printf(o, "%d", f ? j : -1); }
    else if (!strcmp(k, "count")) g_string_append_printf(o, "%d", sr_core_stacktrace_get_thread_count(st_of(i)));
    else if (!strcmp(k, "create"))
    { struct sr_core_stacktrace *s = sr_core_stacktrace_create(a[2].s, a[3].s, a[4].s); if (s) slot_set(i, K_ST, SR_REPORT_CORE, s, 0); g_string_append(o, s ? "true" : "false"); }
    else if (!strcmp(k, "dump") || !strcmp(k, "dump_gdb"))
    { char *err = NULL;
      dw_lock();
      struct sr_core_stacktrace *s = !strcmp(k, "dump") ? sr_parse_coredump(a[2].s, a[3].s, &err) : sr_core_stacktrace_from_gdb(a[4].s, a[2].s, a[3].s, &err);
      dw_unlock();
      if (s) slot_set(i, K_ST, SR_REPORT_CORE, s, 0);
      g_string_append_printf(o, "{\"ok\":%s,\"err\":", s ? "true" : "false"); take(o, err); g_string_append_c(o, '}'); }
    else if (!strcmp(k, "ref")) op_coreref(a[2].s, a[3].s, n > 4, o);
    else if (!strcmp(k, "hook")) op_hook(a, n, o);
    else harness_die("core %s", k);
}
static void op_koops_rm(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]); void *f = get_frame(i, 0, argi(&a[1]));
    g_string_append(o, sr_koops_stacktrace_remove_frame(st_of(i), f) ? "true" : "false");
}
static void op_koops_norm(struct arg *a, int n, GString *o) { sr_normalize_koops_stacktrace(st_of(argi(&a[0]))); g_string_append(o, "null"); }
/* calls S ti fi name [file..] : "\x01" stands for "no source file" */
static void op_calls(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]); void *f = get_frame(i, argi(&a[1]), argi(&a[2])); bool r;
    const char *x[3] = { NULL, NULL, NULL };
    for (int j = 4; j < n && j < 7; ++j) x[j - 4] = a[j].s;
    if (SL[i].type == SR_REPORT_GDB) r = sr_gdb_frame_calls_func(f, a[3].s, x[0], x[1], x[2], NULL);
    else r = sr_core_frame_calls_func(f, a[3].s, x[0], x[1], x[2], NULL);
    g_string_append(o, r ? "true" : "false");
}
/* list concatenation through the per-type append functions; the source's list is moved */
static void op_fappend(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]); struct sr_thread *d = get_thread(i, argi(&a[1])), *s = get_thread(argi(&a[2]), argi(&a[3]));
    const struct tdesc *td = td_by_type(SL[i].type);
    void *df = NEXT(d, td->t_frames), *sf = NEXT(s, td->t_frames), *r;
    switch (SL[i].type) {
    case SR_REPORT_GDB: r = sr_gdb_frame_append(df, sf); break;
    case SR_REPORT_CORE: r = sr_core_frame_append(df, sf); break;
    case SR_REPORT_JAVA: r = sr_java_frame_append(df, sf); break;
    case SR_REPORT_KERNELOOPS: r = sr_koops_frame_append(df, sf); break;
    case SR_REPORT_PYTHON: r = sr_python_frame_append(df, sf); break;
    case SR_REPORT_RUBY: r = sr_ruby_frame_append(df, sf); break;
    default: r = sr_js_frame_append(df, sf); break;
    }
    NEXT(s, td->t_frames) = NULL;
    NEXT(d, td->t_frames) = r;
    g_string_append(o, "null");
}
static void op_tappend(struct arg *a, int n, GString *o)
{
    int i = argi(&a[0]); const struct tdesc *td = td_by_type(SL[i].type);
    void *d = SL[i].p, *s = SL[argi(&a[1])].p, *dt = NEXT(d, td->s_threads), *st = NEXT(s, td->s_threads), *r;
    switch (SL[i].type) {
    case SR_REPORT_GDB: r = sr_gdb_thread_append(dt, st); break;
    case SR_REPORT_CORE: r = sr_core_thread_append(dt, st); ((struct sr_core_stacktrace *)s)->crash_thread = NULL; break;
    default: r = sr_java_thread_append(dt, st); break;
    }
    NEXT(s, td->s_threads) = NULL;
    NEXT(d, td->s_threads) = r;
    if (SL[i].type == SR_REPORT_GDB)
    {
        struct sr_gdb_stacktrace *x = d, *y = s;
        x->libs = sr_gdb_sharedlib_append(x->libs, y->libs); y->libs = NULL;
        g_string_append_printf(o, "%d", x->libs ? sr_gdb_sharedlib_count(x->libs) : 0);
    }
    else g_string_append(o, "null");
}
/* jsplat: string runtime [version] | json platform | from json text */
static void op_jsplat(struct arg *a, int n, GString *o)
{
    const char *k = a[0].s; char *err = NULL;
    if (!strcmp(k, "str")) { uint32_t p = sr_js_platform_from_string(a[1].s, a[2].s[0] ? a[2].s : NULL, &err); g_string_append_printf(o, "{\"p\":%u,\"err\":", p); take(o, err); g_string_append_c(o, '}'); }
    else if (!strcmp(k, "json")) take(o, sr_js_platform_to_json(strtoul(a[1].s, NULL, 10)));
    else if (!strcmp(k, "from")) { json_object *r = json_tokener_parse(a[1].s); uint32_t p = sr_js_platform_from_json(r, n > 2 ? NULL : &err); json_object_put(r); g_string_append_printf(o, "{\"p\":%u,\"err\":", p); take(o, err); g_string_append_c(o, '}'); }
    else if (!strcmp(k, "names"))
    {   /* engine code, runtime code, engine name, runtime name: the codes are valid */
        g_string_append(o, "[");
        o_str(o, sr_js_engine_to_string(argi(&a[1]))); g_string_append(o, ","); o_str(o, sr_js_runtime_to_string(argi(&a[2])));
        g_string_append_printf(o, ",%d,%d]", (int)sr_js_engine_from_string(a[3].s), (int)sr_js_runtime_from_string(a[4].s));
    }
    else harness_die("jsplat %s", k);
}

/* ---- distances and clustering ---- */
static void op_distance(struct arg *a, int n, GString *o)
{ o_float(o, sr_distance(argi(&a[0]), get_thread(argi(&a[1]), argi(&a[2])), get_thread(argi(&a[3]), argi(&a[4])))); }
static int thread_array(struct arg *a, int n, struct sr_thread ***out)
{
    int c = n / 2;
    struct sr_thread **t = g_malloc((c ? c : 1) * sizeof(*t));
    for (int i = 0; i < c; ++i) t[i] = get_thread(argi(&a[2 * i]), argi(&a[2 * i + 1]));
    *out = t; return c;
}
static void dump_dist(GString *o, struct sr_distances *d)
{
    if (!d) { g_string_append(o, "null"); return; }
    g_string_append_printf(o, "{\"m\":%d,\"n\":%d,\"d\":[", d->m, d->n);
    bool first = true;
    for (int i = 0; i < d->m; ++i) for (int j = i + 1; j < d->n; ++j)
    { if (!first) g_string_append_c(o, ','); first = false; o_float(o, sr_distances_get_distance(d, i, j)); }
    g_string_append(o, "]}");
}
static void dump_dist_full(GString *o, struct sr_distances *d, int rows)
{
    g_string_append_c(o, '[');
    bool first = true;
    for (int i = 0; i < rows; ++i) for (int j = 0; j < d->n; ++j)
    { if (!first) g_string_append_c(o, ','); first = false; o_float(o, sr_distances_get_distance(d, i, j)); }
    g_string_append_c(o, ']');
}
static void op_dist(struct arg *a, int n, GString *o)
{
    const char *k = a[0].s; int i = argi(&a[1]);
    if (!strcmp(k, "threads")) { struct sr_thread **t; int c = thread_array(a + 4, n - 4, &t); struct sr_distances *d = sr_threads_compare(t, argi(&a[2]), c, argi(&a[3])); g_free(t); if (d) slot_set(i, K_DIST, 0, d, 0); dump_dist(o, d); return; }
    if (!strcmp(k, "new")) { slot_set(i, K_DIST, 0, sr_distances_new(argi(&a[2]), argi(&a[3])), 0); dump_dist(o, NULL); return; }
    struct sr_distances *d = SL[i].p;
    if (!strcmp(k, "setall")) { int c = 4; c = 2; for (int x = 0; x < d->m; ++x) for (int y = x + 1; y < d->n; ++y) { if (c < n) sr_distances_set_distance(d, x, y, strtof(a[c].s, NULL)); ++c; } g_string_append(o, "null"); }
    else if (!strcmp(k, "set")) { sr_distances_set_distance(d, argi(&a[2]), argi(&a[3]), strtof(a[4].s, NULL)); g_string_append(o, "null"); }
    else if (!strcmp(k, "get")) o_float(o, sr_distances_get_distance(d, argi(&a[2]), argi(&a[3])));
    else if (!strcmp(k, "full")) dump_dist_full(o, d, argi(&a[2]));
    else if (!strcmp(k, "dump")) dump_dist(o, d);
    else if (!strcmp(k, "dup")) { slot_set(argi(&a[2]), K_DIST, 0, sr_distances_dup(d), 0); g_string_append(o, "null"); }
    else harness_die("dist %s", k);
}
static void op_parts(struct arg *a, int n, GString *o)
{
    const char *k = a[0].s; int i = argi(&a[1]);
    if (!strcmp(k, "create"))
    {
        struct sr_distances_part *p = sr_distances_part_create(argi(&a[2]), argi(&a[3]), argi(&a[4]), argi(&a[5])), *x = p;
        int c = 0; for (; x; x = x->next) ++c;
        struct sr_distances_part **arr = g_malloc((c ? c : 1) * sizeof(*arr));
        c = 0;
        g_string_append_c(o, '[');
        while (p) { g_string_append_printf(o, "%s[%d,%d,%d,%d,%zu,%d]", c ? "," : "", p->m, p->n, p->m_begin, p->n_begin, p->len, p->dist_type); arr[c++] = p; x = p->next; p->next = NULL; p = x; }
        g_string_append_c(o, ']');
        slot_set(i, K_PART, 0, arr, c);
        return;
    }
    if (!strcmp(k, "load"))
    {   /* load S [[m,n,mb,nb,len,type,checksum,[d..]|null]..] */
        json_object *s = spec_parse(&a[2]), *v, *w; int c = json_object_array_length(s);
        struct sr_distances_part **arr = g_malloc((c ? c : 1) * sizeof(*arr));
        for (int j = 0; j < c; ++j)
        {
            v = json_object_array_get_idx(s, j);
            #define I(x) json_object_get_int64(json_object_array_get_idx(v, x))
            arr[j] = sr_distances_part_new(I(0), I(1), I(5), I(2), I(3), I(4));
            arr[j]->checksum = I(6);
            #undef I
            if ((w = json_object_array_get_idx(v, 7)))
            {
                arr[j]->distances = g_malloc_n(sizeof(float), arr[j]->len);
                for (size_t x = 0; x < arr[j]->len; ++x) arr[j]->distances[x] = json_object_get_double(json_object_array_get_idx(w, x));
            }
        }
        json_object_put(s);
        slot_set(i, K_PART, 0, arr, c);
        g_string_append(o, "null");
        return;
    }
    struct sr_distances_part **arr = SL[i].p;
    if (!strcmp(k, "info"))
    {   /* info S idx */
        struct sr_distances_part *p = arr[argi(&a[2])];
        g_string_append_printf(o, "[%d,%d,%d,%d,%zu,%d,%u,", p->m, p->n, p->m_begin, p->n_begin, p->len, p->dist_type, p->checksum);
        if (!p->distances) g_string_append(o, "null]");
        else { g_string_append_c(o, '['); for (size_t x = 0; x < p->len; ++x) { if (x) g_string_append_c(o, ','); o_float(o, p->distances[x]); } g_string_append(o, "]]"); }
        return;
    }
    if (!strcmp(k, "compute")) { struct sr_thread **t; thread_array(a + 3, n - 3, &t); sr_distances_part_compute(arr[argi(&a[2])], t); g_free(t); g_string_append(o, "null"); }
    else if (!strcmp(k, "compute_all")) { struct sr_thread **t; thread_array(a + 2, n - 2, &t); for (int j = 0; j < SL[i].n; ++j) sr_distances_part_compute(arr[j], t); g_free(t); g_string_append(o, "null"); }
    else if (!strcmp(k, "merge"))
    {   /* merge S D idx... : link the named parts in the given order */
        struct sr_distances_part *head = NULL, *last = NULL;
        for (int j = 3; j < n; ++j) { struct sr_distances_part *p = arr[argi(&a[j])]; p->next = NULL; if (last) last->next = p; else head = p; last = p; }
        struct sr_distances *d = sr_distances_part_merge(head);
        for (int j = 0; j < SL[i].n; ++j) arr[j]->next = NULL;
        if (d) slot_set(argi(&a[2]), K_DIST, 0, d, 0);
        dump_dist(o, d);
    }
    else if (!strcmp(k, "merge2"))
    {   /* merge2 S D S2 i0 i1 ..: entries "s:idx" from two slots */
        struct sr_distances_part *head = NULL, *last = NULL, **arr2 = SL[argi(&a[3])].p;
        for (int j = 4; j < n; ++j) { struct sr_distances_part *p = a[j].s[0] == 'a' ? arr[atoi(a[j].s + 1)] : arr2[atoi(a[j].s + 1)]; p->next = NULL; if (last) last->next = p; else head = p; last = p; }
        struct sr_distances *d = sr_distances_part_merge(head);
        for (int j = 0; j < SL[i].n; ++j) arr[j]->next = NULL;
        for (int j = 0; j < SL[argi(&a[3])].n; ++j) arr2[j]->next = NULL;
        if (d) slot_set(argi(&a[2]), K_DIST, 0, d, 0);
        dump_dist(o, d);
    }
    else harness_die("parts %s", k);
}
static void dump_dend(GString *o, struct sr_dendrogram *d)
{
    if (!d) { g_string_append(o, "null"); return; }
    g_string_append_printf(o, "{\"size\":%d,\"order\":[", d->size);
    for (int i = 0; i < d->size; ++i) g_string_append_printf(o, "%s%d", i ? "," : "", d->order[i]);
    g_string_append(o, "],\"levels\":[");
    for (int i = 0; i < d->size - 1; ++i) { if (i) g_string_append_c(o, ','); o_float(o, d->merge_levels[i]); }
    g_string_append(o, "]}");
}
static void op_cluster(struct arg *a, int n, GString *o)
{
    struct sr_dendrogram *d = sr_distances_cluster_objects(SL[argi(&a[0])].p);
    slot_set(argi(&a[1]), K_DEND, 0, d, 0);
    dump_dend(o, d);
}
static void op_dend(struct arg *a, int n, GString *o)
{   /* dend S size order.. levels.. */
    int c = argi(&a[1]); struct sr_dendrogram *d = sr_dendrogram_new(c);
    for (int i = 0; i < c; ++i) d->order[i] = argi(&a[2 + i]);
    for (int i = 0; i < c - 1; ++i) d->merge_levels[i] = strtof(a[2 + c + i].s, NULL);
    slot_set(argi(&a[0]), K_DEND, 0, d, 0);
    g_string_append(o, "null");
}
static void op_cut(struct arg *a, int n, GString *o)
{
    struct sr_cluster *c = sr_dendrogram_cut(SL[argi(&a[0])].p, strtof(a[1].s, NULL), argi(&a[2]));
    g_string_append_c(o, '[');
    for (struct sr_cluster *x = c; x; x = x->next)
    { g_string_append_printf(o, "%s[", x == c ? "" : ","); for (int i = 0; i < x->size; ++i) g_string_append_printf(o, "%s%d", i ? "," : "", x->objects[i]); g_string_append_c(o, ']'); }
    g_string_append_c(o, ']');
    while (c) { struct sr_cluster *x = c->next; sr_cluster_free(c); c = x; }
}

void op_onstack(struct arg *a, int n, GString *o);
struct op ops_st[] = {{"onstack",op_onstack,2},
 {"parse",op_parse,3},{"parsex",op_parsex,3},{"parsef",op_parsef,2},{"gdbp",op_gdbp,2},{"koopsp",op_koopsp,2},
 {"fromjson",op_fromjson,3},{"fromroot",op_fromroot,3},{"build",op_build,3},{"dump",op_dump,1},{"tojson",op_tojson,1},
 {"dup",op_dup,2},{"free",op_free,1},{"poke",op_poke,1},{"tdup",op_tdup,3},{"fdup",op_fdup,4},{"bthash",op_bthash,2},{"reason",op_reason,1},
 {"short",op_short,2},{"crash",op_crash,1},{"threads",op_threads,1},{"tcount",op_tcount,2},{"tcmp",op_tcmp,4},{"stcmp",op_stcmp,2},
 {"fcmp",op_fcmp,6},{"fcmpall",op_fcmpall,2},{"tcmpall",op_tcmpall,1},{"tcmps",op_tcmps,1},{"fstr",op_fstr,3},{"tnorm",op_tnorm,2},{"duphash",op_duphash,5},{"tremove",op_tremove,3},
 {"tremove_above",op_tremove_above,3},{"relink",op_relink,3},{"flast",op_flast,3},{"fprepend",op_fprepend,1},{"tbelow",op_tbelow,3},{"tquality",op_tquality,2},{"tfuns",op_tfuns,2},{"tstr",op_tstr,3},
 {"gdb",op_gdb,2},{"libparse",op_libparse,1},{"core",op_core,2},{"koops_rm",op_koops_rm,2},{"koops_norm",op_koops_norm,1},{"calls",op_calls,4},{"jsplat",op_jsplat,2},
 {"fappend",op_fappend,4},{"tappend",op_tappend,2},{"distance",op_distance,5},{"dist",op_dist,2},{"parts",op_parts,2},{"cluster",op_cluster,2},{"dend",op_dend,2},{"cut",op_cut,3},
 {NULL}};
