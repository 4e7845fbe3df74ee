/* Operations on packages, operating systems, reports, problem directories and primitives. */
#include "drv.h"
#include "unstrip.h"
#include "elves.h"
#include "disasm.h"
#include "callgraph.h"
#include <fcntl.h>
#include <unistd.h>

static void take(GString *o, char *s) { o_str(o, s); g_free(s); }
static json_object *get(json_object *o, const char *k)
{
    json_object *v = NULL;
    json_object_object_get_ex(o, k, &v);
    return v;
}
#define F(st, k, m) { #m, k, offsetof(struct st, m) }
#define END { NULL, 0, 0 }
static const struct field pkg_f[] = { F(sr_rpm_package,'s',name), F(sr_rpm_package,'u',epoch), F(sr_rpm_package,'s',version),
    F(sr_rpm_package,'s',release), F(sr_rpm_package,'s',architecture), F(sr_rpm_package,'q',install_time),
    F(sr_rpm_package,'u',role), END };
#define C(m) F(sr_rpm_consistency,'b',m)
static const struct field cons_f[] = { F(sr_rpm_consistency,'s',path), C(owner_changed), C(group_changed), C(mode_changed),
    C(md5_mismatch), C(size_changed), C(major_number_changed), C(minor_number_changed), C(symlink_changed),
    C(modification_time_changed), END };
static const struct field os_f[] = { F(sr_operating_system,'s',name), F(sr_operating_system,'s',version),
    F(sr_operating_system,'s',architecture), F(sr_operating_system,'s',cpe), F(sr_operating_system,'q',uptime),
    F(sr_operating_system,'s',desktop), F(sr_operating_system,'s',variant), END };
static const struct field rep_f[] = { F(sr_report,'u',report_version), F(sr_report,'u',report_type), F(sr_report,'s',reporter_name),
    F(sr_report,'s',reporter_version), F(sr_report,'b',user_root), F(sr_report,'b',user_local), F(sr_report,'s',component_name),
    F(sr_report,'u',serial), END };

void op_rpmdb(struct arg *a, int n, GString *o);
void dump_pkgs(GString *o, struct sr_rpm_package *p);
void dump_pkgs(GString *o, struct sr_rpm_package *p)
{
    struct sr_rpm_package *x; bool fst;
    g_string_append_c(o, '[');
    for (x = p; x; x = x->next)
    {
        g_string_append(o, x == p ? "{" : ",{"); fst = true;
        dump_fields(o, pkg_f, x, &fst);
        g_string_append(o, ",\"consistency\":[");
        for (struct sr_rpm_consistency *c = x->consistency; c; c = c->next)
        { g_string_append(o, c == x->consistency ? "{" : ",{"); fst = true; dump_fields(o, cons_f, c, &fst); g_string_append_c(o, '}'); }
        g_string_append(o, "]}");
    }
    g_string_append_c(o, ']');
}
static struct sr_rpm_package *build_pkgs(json_object *arr)
{
    struct sr_rpm_package *head = NULL, *last = NULL;
    for (size_t i = 0; arr && i < json_object_array_length(arr); ++i)
    {
        json_object *s = json_object_array_get_idx(arr, i), *cs = get(s, "consistency");
        struct sr_rpm_package *p = sr_rpm_package_new();
        build_fields(pkg_f, p, s);
        for (size_t j = 0; cs && j < json_object_array_length(cs); ++j)
        {
            struct sr_rpm_consistency *c = sr_rpm_consistency_new();
            build_fields(cons_f, c, json_object_array_get_idx(cs, j));
            p->consistency = sr_rpm_consistency_append(p->consistency, c);
        }
        if (last) last->next = p; else head = p;
        last = p;
    }
    return head;
}
static void dump_os(GString *o, struct sr_operating_system *os)
{
    bool f = true;
    if (!os) { g_string_append(o, "null"); return; }
    g_string_append_c(o, '{'); dump_fields(o, os_f, os, &f); g_string_append_c(o, '}');
}
static void dump_rep(GString *o, struct sr_report *r)
{
    bool f = true;
    if (!r) { g_string_append(o, "null"); return; }
    g_string_append_c(o, '{');
    dump_fields(o, rep_f, r, &f);
    g_string_append(o, ",\"os\":"); dump_os(o, r->operating_system);
    g_string_append(o, ",\"packages\":"); dump_pkgs(o, r->rpm_packages);
    g_string_append(o, ",\"stacktrace\":");
    if (r->stacktrace) dump_stacktrace(o, td_by_type(*(enum sr_report_type *)r->stacktrace), r->stacktrace); else g_string_append(o, "null");
    g_string_append(o, ",\"auth\":[");
    for (struct sr_report_custom_entry *e = r->auth_entries; e; e = e->next)
    { g_string_append(o, e == r->auth_entries ? "[" : ",["); o_str(o, e->key); g_string_append_c(o, ','); o_str(o, e->value); g_string_append_c(o, ']'); }
    g_string_append(o, "]}");
}

static void op_pkg(struct arg *a, int n, GString *o)
{
    const char *k = a[0].s; int i = argi(&a[1]);
    if (!strcmp(k, "build")) { json_object *s = spec_parse(&a[2]); slot_set(i, K_PKG, 0, build_pkgs(s), 0); json_object_put(s); g_string_append(o, "null"); return; }
    if (!strcmp(k, "fromjson"))
    {
        json_object *root = json_tokener_parse(a[2].s); struct sr_rpm_package *p = NULL; char *err = NULL;
        int r = sr_rpm_package_from_json(&p, root, argi(&a[3]), n > 4 ? NULL : &err);
        json_object_put(root);
        slot_set(i, K_PKG, 0, r >= 0 ? p : NULL, 0);
        g_string_append_printf(o, "{\"ret\":%d,\"err\":", r); take(o, err); g_string_append_c(o, '}');
        return;
    }
    if (!strcmp(k, "dso")) { struct sr_rpm_package *p = sr_abrt_parse_dso_list(a[2].s); slot_set(i, K_PKG, 0, p, 0); dump_pkgs(o, p); return; }
    if (!strcmp(k, "fromdir"))
    {
        char *err = NULL; struct sr_rpm_package *p = NULL; int r = sr_abrt_rpm_packages_from_dir(a[2].s, &p, &err);
        slot_set(i, K_PKG, 0, p, 0);
        g_string_append_printf(o, "{\"ret\":%d,\"pkgs\":", r); dump_pkgs(o, p); g_string_append(o, ",\"err\":"); take(o, err); g_string_append_c(o, '}');
        return;
    }
    struct sr_rpm_package *p = SL[i].p;
    if (!strcmp(k, "dump")) dump_pkgs(o, p);
    else if (!strcmp(k, "sort")) { SL[i].p = sr_rpm_package_sort(p); dump_pkgs(o, SL[i].p); }
    else if (!strcmp(k, "uniq")) { SL[i].p = sr_rpm_package_uniq(p); dump_pkgs(o, SL[i].p); }
    else if (!strcmp(k, "count")) g_string_append_printf(o, "%d", sr_rpm_package_count(p));
    else if (!strcmp(k, "append")) { int j = argi(&a[2]); SL[i].p = sr_rpm_package_append(p, SL[j].p); SL[j].kind = K_NONE; dump_pkgs(o, SL[i].p); }
    else if (!strcmp(k, "tojson")) take(o, sr_rpm_package_to_json(p, argi(&a[2])));
    else if (!strcmp(k, "cmpall"))
    {   /* sign matrices: cmp, nvr, nevra, consistency, first entries of the consistency */
        struct sr_rpm_package *v[64]; int c = 0;
        for (; p && c < 64; p = p->next) v[c++] = p;
        for (int w = 0; w < 5; ++w)
        {
            g_string_append(o, w ? ",[" : "[[");
            for (int x = 0; x < c; ++x) for (int y = 0; y < c; ++y)
            {
                int r = w == 0 ? sr_rpm_package_cmp(v[x], v[y]) : w == 1 ? sr_rpm_package_cmp_nvr(v[x], v[y]) :
                        w == 2 ? sr_rpm_package_cmp_nevra(v[x], v[y]) :
                        w == 4 ? (v[x]->consistency && v[y]->consistency ? sr_rpm_consistency_cmp(v[x]->consistency, v[y]->consistency) : 0) : sr_rpm_consistency_cmp_recursive(v[x]->consistency, v[y]->consistency);
                g_string_append_printf(o, "%s%d", x + y ? "," : "", r < 0 ? -1 : r > 0);
            }
            g_string_append_c(o, ']');
        }
        g_string_append_c(o, ']');
    }
    else harness_die("pkg %s", k);
}
static void op_nvr(struct arg *a, int n, GString *o)
{
    char *x = NULL, *v = NULL, *r = NULL;
    bool ok = sr_rpm_package_parse_nvr(a[0].s, &x, &v, &r);
    if (!ok) { g_string_append(o, x || v || r ? "\"leftovers\"" : "null"); return; }
    g_string_append_c(o, '['); take(o, x); g_string_append_c(o, ','); take(o, v); g_string_append_c(o, ','); take(o, r); g_string_append_c(o, ']');
}
static void op_nevra(struct arg *a, int n, GString *o)
{
    char *x = NULL, *v = NULL, *r = NULL, *ar = NULL; uint32_t e = 77777;
    bool ok = sr_rpm_package_parse_nevra(a[0].s, &x, &e, &v, &r, &ar);
    if (!ok) { g_string_append(o, x || v || r || ar || e != 77777 ? "\"leftovers\"" : "null"); return; }
    g_string_append_c(o, '['); take(o, x); g_string_append_printf(o, ",%u,", e); take(o, v); g_string_append_c(o, ','); take(o, r); g_string_append_c(o, ','); take(o, ar); g_string_append_c(o, ']');
}
static void op_os(struct arg *a, int n, GString *o)
{
    const char *k = a[0].s; int i = argi(&a[1]); char *err = NULL;
    if (!strcmp(k, "build"))
    {
        json_object *s = spec_parse(&a[2]); struct sr_operating_system *os = sr_operating_system_new();
        build_fields(os_f, os, s); json_object_put(s); slot_set(i, K_OS, 0, os, 0); g_string_append(o, "null");
    }
    else if (!strcmp(k, "dump")) dump_os(o, SL[i].p);
    else if (!strcmp(k, "tojson")) take(o, sr_operating_system_to_json(SL[i].p));
    else if (!strcmp(k, "fromjson") || !strcmp(k, "fromdir"))
    {
        struct sr_operating_system *os;
        if (k[4] == 'j') { json_object *root = json_tokener_parse(a[2].s); os = sr_operating_system_from_json(root, n > 3 ? NULL : &err); json_object_put(root); }
        else os = sr_abrt_operating_system_from_dir(a[2].s, &err);
        if (os) slot_set(i, K_OS, 0, os, 0);
        g_string_append(o, "{\"os\":"); dump_os(o, os); g_string_append(o, ",\"err\":"); take(o, err); g_string_append_c(o, '}');
    }
    else if (!strcmp(k, "release"))
    {
        struct sr_operating_system *os = sr_operating_system_new();
        bool r = sr_operating_system_parse_etc_os_release(a[2].s, os);
        slot_set(i, K_OS, 0, os, 0);
        g_string_append_printf(o, "{\"ret\":%d,\"os\":", r); dump_os(o, os); g_string_append_c(o, '}');
    }
    else if (!strcmp(k, "sysrel"))
    {
        char *x = NULL, *v = NULL;
        bool r = sr_operating_system_parse_etc_system_release(a[2].s, &x, &v);
        if (!r) { g_string_append(o, x || v ? "\"leftovers\"" : "null"); g_free(x); g_free(v); return; }
        g_string_append_c(o, '['); take(o, x); g_string_append_c(o, ','); take(o, v); g_string_append_c(o, ']');
    }
    else harness_die("os %s", k);
}
static void osrel_cb(char *k, char *v, void *data)
{
    GString *o = data;
    if (o->str[o->len - 1] == ']') g_string_append_c(o, ',');
    g_string_append_c(o, '['); take(o, k); g_string_append_c(o, ','); take(o, v); g_string_append_c(o, ']');
}
static void op_osrelcb(struct arg *a, int n, GString *o)
{
    GString *g = g_string_new("[");
    sr_parse_os_release(a[0].s, osrel_cb, g);
    g_string_append_len(o, g->str, g->len); g_string_append_c(o, ']');
    g_string_free(g, TRUE);
}
/* reporter strings are literals in a new report and the caller's when decoded */
const char *rep_default(int version)
{
    struct sr_report *r = sr_report_new(); const char *s = version ? r->reporter_version : r->reporter_name;
    sr_report_free(r); return s;
}
static void op_rep(struct arg *a, int n, GString *o)
{
    const char *k = a[0].s; int i = argi(&a[1]); char *err = NULL;
    if (!strcmp(k, "build"))
    {   /* rep build S spec stslot|-1 */
        json_object *s = spec_parse(&a[2]), *v; struct sr_report *r = sr_report_new(); int st = argi(&a[3]);
        r->reporter_name = r->reporter_version = NULL; build_fields(rep_f, r, s);
        if (!r->reporter_name) r->reporter_name = g_strdup(rep_default(0));
        if (!r->reporter_version) r->reporter_version = g_strdup(rep_default(1));
        if ((v = get(s, "os"))) { if (!r->operating_system) r->operating_system = sr_operating_system_new(); build_fields(os_f, r->operating_system, v); }
        if ((v = get(s, "packages"))) r->rpm_packages = build_pkgs(v);
        if ((v = get(s, "auth")))
            for (size_t j = 0; j < json_object_array_length(v); ++j)
            {
                json_object *e = json_object_array_get_idx(v, j);
                sr_report_add_auth(r, json_object_get_string(json_object_array_get_idx(e, 0)), json_object_get_string(json_object_array_get_idx(e, 1)));
            }
        json_object_put(s);
        if (st >= 0) { r->stacktrace = SL[st].p; SL[st].kind = K_NONE; }
        slot_set(i, K_REP, 0, r, 0);
        g_string_append(o, "null");
    }
    else if (!strcmp(k, "dump")) dump_rep(o, SL[i].p);
    else if (!strcmp(k, "tojson")) take(o, sr_report_to_json(SL[i].p));
    else if (!strcmp(k, "fromjson") || !strcmp(k, "fromdir"))
    {
        struct sr_report *r = k[4] == 'j' ? sr_report_from_json_text(a[2].s, n > 3 ? NULL : &err) : sr_abrt_report_from_dir(a[2].s, &err);
        if (r) slot_set(i, K_REP, 0, r, 0);
        g_string_append_printf(o, "{\"ok\":%s,\"err\":", r ? "true" : "false"); take(o, err);
        g_string_append(o, ",\"rep\":"); if (r && k[4] == 'd') dump_rep(o, r); else g_string_append(o, "null");
        g_string_append_c(o, '}');
    }
    else if (!strcmp(k, "typestr")) { take(o, sr_report_type_to_string(i)); }
    else if (!strcmp(k, "strtype")) g_string_append_printf(o, "%d", sr_report_type_from_string(a[2].s));
    else if (!strcmp(k, "analyzer")) g_string_append_printf(o, "%d", sr_abrt_type_from_analyzer(a[2].s));
    else if (!strcmp(k, "type")) g_string_append_printf(o, "%d", sr_abrt_type_from_type(a[2].s));
    else if (!strcmp(k, "corest")) { bool r = sr_abrt_create_core_stacktrace(a[2].s, false, &err); g_string_append_printf(o, "{\"ok\":%s,\"err\":", r ? "true" : "false"); take(o, err); g_string_append_c(o, '}'); }
    else if (!strcmp(k, "corest_gdb")) { bool r = sr_abrt_create_core_stacktrace_from_gdb(a[2].s, n > 3 ? a[3].s : NULL, false, &err); g_string_append_printf(o, "{\"ok\":%s,\"err\":", r ? "true" : "false"); take(o, err); g_string_append_c(o, '}'); }
    else if (!strcmp(k, "print"))
    {   /* the text printed by sr_abrt_print_report_from_dir goes to a scratch file a[3] */
        fflush(stdout);
        int save = dup(1), fd = open(a[3].s, O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 1); close(fd);
        bool r = sr_abrt_print_report_from_dir(a[2].s, &err);
        fflush(stdout); dup2(save, 1); close(save);
        g_string_append_printf(o, "{\"ok\":%s,\"err\":", r ? "true" : "false"); take(o, err); g_string_append_c(o, '}');
    }
    else harness_die("rep %s", k);
}
/* repdup TEXT (frames prefix flags)...: what the library answers for the crash thread of a report */
static void op_repdup(struct arg *a, int n, GString *o)
{
    char *err = NULL; struct sr_report *r = sr_report_from_json_text(a[0].s, &err);
    g_string_append(o, "{\"err\":"); take(o, err);
    if (r && r->stacktrace)
    {
        struct sr_thread *t = sr_stacktrace_find_crash_thread(r->stacktrace);
        g_string_append(o, t ? ",\"thread\":true,\"hash\":[" : ",\"thread\":false,\"hash\":[");
        for (int i = 1; t && i + 2 < n; i += 3)
        {
            if (i > 1) g_string_append_c(o, ',');
            take(o, sr_thread_get_duphash(t, argi(&a[i]), a[i + 1].s, argi(&a[i + 2])));
        }
        g_string_append_c(o, ']');
    }
    g_string_append_printf(o, ",\"ok\":%s,\"st\":%s}", r ? "true" : "false", r && r->stacktrace ? "true" : "false");
    if (r) sr_report_free(r);
}
/* file: string filename | write filename contents */
static void op_file(struct arg *a, int n, GString *o)
{
    const char *k = a[0].s; char *err = NULL;
    if (!strcmp(k, "read")) { char *s = sr_file_to_string(a[1].s, &err); g_string_append(o, "{\"s\":"); take(o, s); }
    else if (!strcmp(k, "write")) g_string_append_printf(o, "{\"ok\":%s", sr_string_to_file(a[1].s, a[2].s, &err) ? "true" : "false");
    else harness_die("file %s", k);
    g_string_append(o, ",\"err\":"); take(o, err); g_string_append_c(o, '}');
}
/* prim name text [extra..] -> {ret, consumed, value} */
static void op_prim(struct arg *a, int n, GString *o)
{
    const char *k = a[0].s, *in = a[1].s, *x = n > 2 ? a[2].s : ""; long ret = 0; char *s = NULL; uint64_t q = 0; uint32_t u = 0;
    int line = -7, col = -7; char c = 0; bool has = false, loc = false, owns = true;
    if (!strcmp(k, "skip_char")) ret = sr_skip_char(&in, x[0]);
    else if (!strcmp(k, "skip_char_limited")) ret = sr_skip_char_limited(&in, x);
    else if (!strcmp(k, "parse_char_limited")) { ret = sr_parse_char_limited(&in, x, &c); q = (unsigned char)c; has = ret; }
    else if (!strcmp(k, "skip_char_sequence")) ret = sr_skip_char_sequence(&in, x[0]);
    else if (!strcmp(k, "skip_char_span")) ret = sr_skip_char_span(&in, x);
    else if (!strcmp(k, "skip_char_span_location")) { ret = sr_skip_char_span_location(&in, x, &line, &col); loc = true; }
    else if (!strcmp(k, "parse_char_span")) ret = sr_parse_char_span(&in, x, &s);
    else if (!strcmp(k, "skip_char_cspan")) ret = sr_skip_char_cspan(&in, x);
    else if (!strcmp(k, "parse_char_cspan")) ret = sr_parse_char_cspan(&in, x, &s);
    else if (!strcmp(k, "skip_string")) ret = sr_skip_string(&in, x);
    else if (!strcmp(k, "parse_string")) ret = sr_parse_string(&in, x, &s);
    else if (!strcmp(k, "parse_digit")) { c = sr_parse_digit(&in); ret = c != 0; q = c; has = ret; }
    else if (!strcmp(k, "skip_uint")) ret = sr_skip_uint(&in);
    else if (!strcmp(k, "parse_uint32")) { ret = sr_parse_uint32(&in, &u); q = u; has = ret; }
    else if (!strcmp(k, "parse_uint64")) { ret = sr_parse_uint64(&in, &q); has = ret; }
    else if (!strcmp(k, "skip_hex")) ret = sr_skip_hexadecimal_uint(&in);
    else if (!strcmp(k, "skip_0x")) ret = sr_skip_hexadecimal_0xuint(&in);
    else if (!strcmp(k, "parse_hex")) { ret = sr_parse_hexadecimal_uint64(&in, &q); has = ret; }
    else if (!strcmp(k, "parse_0x")) { ret = sr_parse_hexadecimal_0xuint64(&in, &q); has = ret; }
    else if (!strcmp(k, "skip_ws")) { in = sr_skip_whitespace(in); }
    else if (!strcmp(k, "skip_nws")) { in = sr_skip_non_whitespace(in); }
    else if (!strcmp(k, "next_line")) { line = atoi(a[2].s); col = atoi(a[3].s); ret = sr_skip_to_next_line_location(&in, &line, &col); loc = true; }
    else if (!strcmp(k, "strchr")) { char *p = sr_strchr_location(in, (unsigned char)x[0], &line, &col); ret = p ? p - in : -1; loc = true; }
    else if (!strcmp(k, "strstr")) { char *p = sr_strstr_location(in, x, &line, &col); ret = p ? p - in : -1; loc = true; }
    else if (!strcmp(k, "strspn")) { ret = sr_strspn_location(in, x, &line, &col); loc = true; }
    else if (!strcmp(k, "bin2hex")) { s = g_malloc(2 * a[1].len + 1); char *e = sr_bin2hex(s, in, a[1].len); *e = '\0'; ret = e - s; }
    else if (!strcmp(k, "indent")) { s = sr_indent(in, atoi(x)); }
    else if (!strcmp(k, "indent1")) { s = sr_indent_except_first_line(in, atoi(x)); }
    else if (!strcmp(k, "path")) { s = n > 3 ? sr_build_path(in, x, a[3].s, NULL) : n > 2 ? sr_build_path(in, x, NULL) : sr_build_path(in, NULL); }
    else if (!strcmp(k, "anon")) { s = anonymize_path(g_strdup(in)); }
    else if (!strcmp(k, "demangle")) { s = sr_demangle_symbol(in); if (s) { o_str(o, s); free(s); } else g_string_append(o, "null"); return; }
    else if (!strcmp(k, "op1")) { ret = sr_disasm_instruction_parse_single_address_operand((char *)in, &q); has = ret; }
    else harness_die("prim %s", k);
    g_string_append_printf(o, "{\"ret\":%ld,\"consumed\":%ld,\"q\":", ret, (long)(in - a[1].s));
    if (has) g_string_append_printf(o, "%" PRIu64, q); else g_string_append(o, "null");
    g_string_append(o, ",\"s\":"); o_str(o, s);
    if (loc) g_string_append_printf(o, ",\"line\":%d,\"col\":%d", line, col);
    g_string_append_c(o, '}');
    (void)owns;
    g_free(s);
}
static void op_struniq(struct arg *a, int n, GString *o)
{   /* sorts with the library's comparator, then removes duplicates */
    char **v = g_malloc((n ? n : 1) * sizeof(char *)); size_t c = n;
    for (int i = 0; i < n; ++i) v[i] = a[i].s;
    qsort(v, c, sizeof(char *), sr_ptrstrcmp);
    sr_struniq(v, &c);
    g_string_append_c(o, '[');
    for (size_t i = 0; i < c; ++i) { if (i) g_string_append_c(o, ','); o_str(o, v[i]); }
    g_string_append_c(o, ']');
    g_free(v);
}
static void op_loc(struct arg *a, int n, GString *o)
{
    const char *k = a[0].s; struct sr_location l; sr_location_init(&l);
    l.line = argi(&a[1]); l.column = argi(&a[2]);
    if (!strcmp(k, "eat")) for (size_t i = 0; i < a[3].len; ++i) sr_location_eat_char(&l, a[3].s[i]);
    else if (!strcmp(k, "add")) sr_location_add(&l, argi(&a[3]), argi(&a[4]));
    else if (!strcmp(k, "str")) { l.message = n > 3 ? a[3].s : NULL; take(o, sr_location_to_string(&l)); return; }
    else if (!strcmp(k, "cmp"))
    {
        struct sr_location m; sr_location_init(&m); m.line = argi(&a[3]); m.column = argi(&a[4]);
        l.message = a[5].s[0] == 1 ? NULL : a[5].s; m.message = a[6].s[0] == 1 ? NULL : a[6].s;
        int r = sr_location_cmp(&l, &m, argi(&a[7])); g_string_append_printf(o, "%d", r < 0 ? -1 : r > 0); return;
    }
    else harness_die("loc %s", k);
    dump_loc(o, &l);
}
static void op_unstrip(struct arg *a, int n, GString *o)
{   /* unstrip text addr.. */
    struct sr_unstrip_entry *e = sr_unstrip_parse(a[0].s), *x;
    g_string_append(o, "{\"e\":[");
    for (x = e; x; x = x->next)
    {
        g_string_append_printf(o, "%s[%" PRIu64 ",%" PRIu64 ",", x == e ? "" : ",", x->start, x->length);
        o_str(o, x->build_id); g_string_append_c(o, ','); o_str(o, x->file_name); g_string_append_c(o, ','); o_str(o, x->mod_name); g_string_append_c(o, ']');
    }
    g_string_append(o, "],\"f\":[");
    for (int i = 1; i < n; ++i)
    {
        struct sr_unstrip_entry *f = sr_unstrip_find_address(e, strtoull(a[i].s, NULL, 10)); int idx = 0;
        for (x = e; x && x != f; x = x->next) ++idx;
        g_string_append_printf(o, "%s%d", i > 1 ? "," : "", f ? idx : -1);
    }
    g_string_append(o, "]}");
    sr_unstrip_free(e);
}
static void op_fde(struct arg *a, int n, GString *o)
{   /* fde base,start,len;... o|a|s addr.. : lookups on a built list, then JSON */
    struct sr_elf_fde *h = NULL, *last = NULL; char *sp = NULL, *txt = g_strdup(a[0].s);
    for (char *t = strtok_r(txt, ";", &sp); t; t = strtok_r(NULL, ";", &sp))
    {
        struct sr_elf_fde *f = g_malloc0(sizeof(*f));
        sscanf(t, "%" SCNu64 ",%" SCNu64 ",%" SCNu64, &f->exec_base, &f->start_address, &f->length);
        if (last) last->next = f; else h = f;
        last = f;
    }
    g_free(txt);
    g_string_append_c(o, '[');
    for (int i = 1; i < n; ++i)
    {
        uint64_t v = strtoull(a[i].s + 1, NULL, 10); int idx = 0;
        struct sr_elf_fde *f = a[i].s[0] == 'o' ? sr_elf_find_fde_for_offset(h, v) : a[i].s[0] == 'a' ? sr_elf_find_fde_for_address(h, v) : sr_elf_find_fde_for_start_address(h, v);
        for (struct sr_elf_fde *x = h; x && x != f; x = x->next) ++idx;
        g_string_append_printf(o, "%s%d", i > 1 ? "," : "", f ? idx : -1);
    }
    if (h) { g_string_append(o, n > 1 ? "," : ""); take(o, sr_elf_fde_to_json(h, true)); }
    g_string_append_c(o, ']');
    sr_elf_eh_frame_free(h);
}
#ifdef MT   /* other threads open files, too */
static int nfds(void) { return 0; }
#else
static int nfds(void) { int k = 0; for (int i = 0; i < 256; ++i) k += fcntl(i, F_GETFD) != -1; return k; }
#endif
static void elf_one(const char *kind, char *path, struct arg *a, int n, GString *o)
{
    char *err = NULL;
    if (kind[0] == 'e')
    {
        struct sr_elf_fde *h = sr_elf_get_eh_frame(path, &err);
        if (!h) { o_str(o, err); g_free(err); return; }
        for (struct sr_elf_fde *f = h; f; f = f->next)
            g_string_append_printf(o, "%s[\"%" PRIu64 "\",\"%" PRIu64 "\",\"%" PRIu64 "\"]", f == h ? "[" : ",", f->exec_base, f->start_address, f->length);
        g_string_append_c(o, ']');
        if (err) { o_str(o, "error set on success"); g_free(err); }
        sr_elf_eh_frame_free(h);
        return;
    }
    struct sr_elf_plt_entry *h = sr_elf_get_procedure_linkage_table(path, &err);
    if (!h) { o_str(o, err); g_free(err); return; }
    g_string_append(o, "[[");
    for (struct sr_elf_plt_entry *f = h; f; f = f->next)
    {
        g_string_append_printf(o, "%s[\"%" PRIu64 "\",", f == h ? "" : ",", f->address);
        o_str(o, f->symbol_name); g_string_append_c(o, ']');
    }
    g_string_append(o, "],[");
    for (int i = 2; i < n; ++i)
    {
        struct sr_elf_plt_entry *f = sr_elf_plt_find_for_address(h, strtoull(a[i].s, NULL, 10)); int idx = 0;
        for (struct sr_elf_plt_entry *x = h; x && x != f; x = x->next) ++idx;
        g_string_append_printf(o, "%s%d", i > 2 ? "," : "", f ? idx : -1);
    }
    g_string_append(o, "]]");
    if (err) { o_str(o, "error set on success"); g_free(err); }
    sr_elf_procedure_linkage_table_free(h);
}
static void op_elf(struct arg *a, int n, GString *o)
{   /* elf eh|plt BYTES [addr..]: the unwind ranges or PLT slots of an ELF file with these bytes as a list (with slot lookups), or the error as a string */
    int fd = memfd_create("elf", 0); char path[64]; size_t done = 0;
    while (done < a[1].len) { ssize_t w = write(fd, a[1].s + done, a[1].len - done); if (w <= 0) abort(); done += w; }
    snprintf(path, sizeof(path), "/proc/self/fd/%d", fd);
    int before = nfds();
    g_string_append_c(o, '[');
    size_t at = o->len;
    elf_one(a[0].s, path, a, n, o);
#ifdef MT   /* the number of the descriptor depends on the other threads */
    for (char *p; (p = strstr(o->str + at, path)); ) memset(p, '*', strlen(path)), g_string_erase(o, p - o->str, strlen(path));
#endif
    g_string_append_printf(o, ",%d]", nfds() - before);
    close(fd);
}
/* A stand-in for the disassembler (compiled out in this configuration), linked with --wrap: it returns the listing
 * a call graph case supplies, and counts what was asked. */
struct listing { uint64_t start, len; char **ins; int n, asked; };
static __thread struct listing *listings; static __thread int nlistings;
char **__wrap_sr_disasm_get_function_instructions(struct sr_disasm_state *state, uint64_t start, uint64_t size, char **err)
{
    for (int i = 0; i < nlistings; ++i)
        if (listings[i].start == start && listings[i].len == size)
        {
            char **r = malloc((listings[i].n + 1) * sizeof(char *));
            for (int k = 0; k < listings[i].n; ++k) r[k] = strdup(listings[i].ins[k]);
            r[listings[i].n] = NULL; ++listings[i].asked;
            return r;
        }
    *err = g_strdup_printf("no code at 0x%" PRIx64 "+0x%" PRIx64, start, size);
    return NULL;
}
static void o_graph(GString *o, struct sr_callgraph *g)
{
    g_string_append_c(o, '[');
    for (struct sr_callgraph *x = g; x; x = x->next)
    {
        g_string_append_printf(o, "%s[\"%" PRIu64 "\"", x == g ? "" : ",", x->address);
        for (uint64_t *c = x->callees; *c; ++c) g_string_append_printf(o, ",\"%" PRIu64 "\"", *c);
        g_string_append_c(o, ']');
    }
    g_string_append_c(o, ']');
}
static void op_callgraph(struct arg *a, int n, GString *o)
{   /* callgraph JSON: {fdes:[[base,start,len]..], code:[[addr,len,ins..]..], extend:[addr..] or null, find:[addr..]} (numbers as strings) */
    json_object *d = json_tokener_parse(a[0].s), *l, *x; struct sr_elf_fde *h = NULL, *last = NULL;
#define N(o, i) strtoull(json_object_get_string(json_object_array_get_idx(o, i)), NULL, 10)
    l = get(d, "fdes");
    for (size_t i = 0; i < json_object_array_length(l); ++i)
    {
        struct sr_elf_fde *f = g_malloc0(sizeof(*f)); x = json_object_array_get_idx(l, i);
        f->exec_base = N(x, 0); f->start_address = N(x, 1); f->length = N(x, 2);
        if (last) last->next = f; else h = f;
        last = f;
    }
    l = get(d, "code"); nlistings = json_object_array_length(l); listings = g_malloc0((nlistings + 1) * sizeof(*listings));
    for (int i = 0; i < nlistings; ++i)
    {
        x = json_object_array_get_idx(l, i);
        listings[i].start = N(x, 0); listings[i].len = N(x, 1); listings[i].n = json_object_array_length(x) - 2;
        listings[i].ins = g_malloc0((listings[i].n + 1) * sizeof(char *));
        for (int k = 0; k < listings[i].n; ++k) listings[i].ins[k] = (char *)json_object_get_string(json_object_array_get_idx(x, k + 2));
    }
    struct sr_callgraph *g = NULL; char *err = NULL;
    g_string_append(o, "{\"steps\":[");
    if ((l = get(d, "extend")))
        for (size_t i = 0; i < json_object_array_length(l); ++i)
        {
            struct sr_callgraph *r = sr_callgraph_extend(g, N(l, i), NULL, h, &err);
            if (i) g_string_append_c(o, ',');
            if (!r) { o_str(o, err); g_free(err); err = NULL; continue; }
            g = r;
            if (err) { g_string_append(o, "\"error left on success\""); g_free(err); err = NULL; } else g_string_append(o, "true");
        }
    else if ((g = sr_callgraph_compute(NULL, h, &err))) g_string_append(o, "true");
    else { o_str(o, err); g_free(err); }
    g_string_append(o, "],\"graph\":"); o_graph(o, g);
    g_string_append(o, ",\"find\":["); l = get(d, "find");
    for (size_t i = 0; i < json_object_array_length(l); ++i)
    {
        struct sr_callgraph *f = sr_callgraph_find(g, N(l, i)); int idx = 0;
        for (struct sr_callgraph *y = g; y && y != f; y = y->next) ++idx;
        g_string_append_printf(o, "%s%d", i ? "," : "", f ? idx : -1);
    }
    int idx = -1; struct sr_callgraph *e = sr_callgraph_last(g);
    for (struct sr_callgraph *y = g; e; y = y->next) { ++idx; if (y == e) break; }
    g_string_append_printf(o, "],\"last\":%d,\"asked\":[", idx);
    for (int i = 0; i < nlistings; ++i) g_string_append_printf(o, "%s%d", i ? "," : "", listings[i].asked);
    g_string_append(o, "]}");
    sr_callgraph_free(g); sr_elf_eh_frame_free(h);
    for (int i = 0; i < nlistings; ++i) g_free(listings[i].ins);
    g_free(listings); listings = NULL; nlistings = 0;
    json_object_put(d);
}
static void op_callees(struct arg *a, int n, GString *o)
{
    char **v = g_malloc0((n + 1) * sizeof(char *));
    for (int i = 0; i < n; ++i) v[i] = a[i].s;
    uint64_t *r = sr_disasm_get_callee_addresses(v);
    g_string_append_c(o, '[');
    for (uint64_t *x = r; *x; ++x) g_string_append_printf(o, "%s%" PRIu64, x == r ? "" : ",", *x);
    g_string_append_c(o, ']');
    g_free(r); g_free(v);
}
/* dmnem k mnemonic{k} instruction... : [is_one_of per instruction..., present] */
static void op_dmnem(struct arg *a, int n, GString *o)
{
    int k = argi(&a[0]);
    const char **m = g_malloc0((k + 1) * sizeof(char *));
    char **v = g_malloc0((n + 1) * sizeof(char *));
    for (int i = 0; i < k; ++i) m[i] = a[1 + i].s;
    for (int i = 1 + k; i < n; ++i) v[i - 1 - k] = a[i].s;
    g_string_append_c(o, '[');
    for (char **x = v; *x; ++x) g_string_append_printf(o, "%d,", sr_disasm_instruction_is_one_of(*x, m));
    g_string_append_printf(o, "%d]", sr_disasm_instruction_present(v, m));
    g_free(m); g_free(v);
}
static void op_dtext(struct arg *a, int n, GString *o)
{
    char **v = g_malloc0((n + 1) * sizeof(char *));
    for (int i = 0; i < n; ++i) v[i] = a[i].s;
    take(o, sr_disasm_instructions_to_text(v));
    g_free(v);
}
static void op_echo(struct arg *a, int n, GString *o) { o_bytes(o, a[0].s, a[0].len); }

struct op ops_misc[] = {
 {"pkg",op_pkg,2},{"nvr",op_nvr,1},{"nevra",op_nevra,1},{"os",op_os,2},{"osrelcb",op_osrelcb,1},{"rep",op_rep,2},{"file",op_file,2},
 {"prim",op_prim,2},{"struniq",op_struniq,0},{"loc",op_loc,3},{"unstrip",op_unstrip,1},{"fde",op_fde,1},{"callees",op_callees,0},{"elf",op_elf,2},{"repdup",op_repdup,1},{"callgraph",op_callgraph,1},
 {"rpmdb",op_rpmdb,1},{"dtext",op_dtext,0},{"dmnem",op_dmnem,1},{"echo",op_echo,1},{NULL}};
