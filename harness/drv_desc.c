/* Structure descriptors: an independent, table-driven view of satyr's public structures,
 * used to build objects from a specification and to dump what is really in them. */
#include "drv.h"

#define F(st, k, m) { #m, k, offsetof(struct st, m) }
#define END { NULL, 0, 0 }

static const struct field gdb_ff[] = { F(sr_gdb_frame,'s',function_name), F(sr_gdb_frame,'s',function_type),
    F(sr_gdb_frame,'u',number), F(sr_gdb_frame,'s',source_file), F(sr_gdb_frame,'u',source_line),
    F(sr_gdb_frame,'b',signal_handler_called), F(sr_gdb_frame,'q',address), F(sr_gdb_frame,'s',library_name), END };
static const struct field gdb_tf[] = { F(sr_gdb_thread,'u',number), F(sr_gdb_thread,'u',tid), END };
static const struct field gdb_sf[] = { F(sr_gdb_stacktrace,'u',crash_tid), END };
static const struct field core_ff[] = { F(sr_core_frame,'q',address), F(sr_core_frame,'s',build_id),
    F(sr_core_frame,'q',build_id_offset), F(sr_core_frame,'s',function_name), F(sr_core_frame,'s',file_name),
    F(sr_core_frame,'s',fingerprint), F(sr_core_frame,'b',fingerprint_hashed), END };
static const struct field core_tf[] = { F(sr_core_thread,'l',id), END };
static const struct field core_sf[] = { F(sr_core_stacktrace,'w',signal), F(sr_core_stacktrace,'s',executable),
    F(sr_core_stacktrace,'b',only_crash_thread), END };
static const struct field java_ff[] = { F(sr_java_frame,'s',name), F(sr_java_frame,'s',file_name),
    F(sr_java_frame,'u',file_line), F(sr_java_frame,'s',class_path), F(sr_java_frame,'b',is_native),
    F(sr_java_frame,'b',is_exception), F(sr_java_frame,'s',message), END };
static const struct field java_tf[] = { F(sr_java_thread,'s',name), END };
static const struct field java_sf[] = { END };
static const struct field koops_ff[] = { F(sr_koops_frame,'q',address), F(sr_koops_frame,'b',reliable),
    F(sr_koops_frame,'s',function_name), F(sr_koops_frame,'q',function_offset), F(sr_koops_frame,'q',function_length),
    F(sr_koops_frame,'s',module_name), F(sr_koops_frame,'q',from_address), F(sr_koops_frame,'s',from_function_name),
    F(sr_koops_frame,'q',from_function_offset), F(sr_koops_frame,'q',from_function_length),
    F(sr_koops_frame,'s',from_module_name), F(sr_koops_frame,'s',special_stack), END };
#define T(m) F(sr_koops_stacktrace,'b',taint_##m)
static const struct field koops_sf[] = { F(sr_koops_stacktrace,'s',version), T(module_proprietary), T(module_out_of_tree),
    T(forced_module), T(forced_removal), T(smp_unsafe), T(mce), T(page_release), T(userspace), T(died_recently),
    T(acpi_overridden), T(warning), T(staging_driver), T(firmware_workaround), T(unsigned_module), T(soft_lockup),
    T(live_patched), F(sr_koops_stacktrace,'s',raw_oops), F(sr_koops_stacktrace,'s',reason), END };
static const struct field py_ff[] = { F(sr_python_frame,'b',special_file), F(sr_python_frame,'s',file_name),
    F(sr_python_frame,'u',file_line), F(sr_python_frame,'b',special_function), F(sr_python_frame,'s',function_name),
    F(sr_python_frame,'s',line_contents), END };
static const struct field py_sf[] = { F(sr_python_stacktrace,'s',exception_name), END };
static const struct field rb_ff[] = { F(sr_ruby_frame,'s',file_name), F(sr_ruby_frame,'u',file_line),
    F(sr_ruby_frame,'b',special_function), F(sr_ruby_frame,'s',function_name), F(sr_ruby_frame,'u',block_level),
    F(sr_ruby_frame,'u',rescue_level), END };
static const struct field rb_sf[] = { F(sr_ruby_stacktrace,'s',exception_name), END };
static const struct field js_ff[] = { F(sr_js_frame,'s',file_name), F(sr_js_frame,'u',file_line),
    F(sr_js_frame,'u',line_column), F(sr_js_frame,'s',function_name), END };
static const struct field js_sf[] = { F(sr_js_stacktrace,'s',exception_name), F(sr_js_stacktrace,'u',platform), END };

#define N(f) ((void *(*)(void))f)
const struct tdesc TD[] = {
 { SR_REPORT_GDB, "gdb", true, gdb_ff, offsetof(struct sr_gdb_frame, next), N(sr_gdb_frame_new),
   gdb_tf, offsetof(struct sr_gdb_thread, frames), offsetof(struct sr_gdb_thread, next), N(sr_gdb_thread_new),
   gdb_sf, offsetof(struct sr_gdb_stacktrace, threads), N(sr_gdb_stacktrace_new) },
 { SR_REPORT_CORE, "core", true, core_ff, offsetof(struct sr_core_frame, next), N(sr_core_frame_new),
   core_tf, offsetof(struct sr_core_thread, frames), offsetof(struct sr_core_thread, next), N(sr_core_thread_new),
   core_sf, offsetof(struct sr_core_stacktrace, threads), N(sr_core_stacktrace_new) },
 { SR_REPORT_JAVA, "java", true, java_ff, offsetof(struct sr_java_frame, next), N(sr_java_frame_new),
   java_tf, offsetof(struct sr_java_thread, frames), offsetof(struct sr_java_thread, next), N(sr_java_thread_new),
   java_sf, offsetof(struct sr_java_stacktrace, threads), N(sr_java_stacktrace_new) },
 { SR_REPORT_KERNELOOPS, "koops", false, koops_ff, offsetof(struct sr_koops_frame, next), N(sr_koops_frame_new),
   koops_sf, offsetof(struct sr_koops_stacktrace, frames), 0, N(sr_koops_stacktrace_new),
   koops_sf, 0, N(sr_koops_stacktrace_new) },
 { SR_REPORT_PYTHON, "python", false, py_ff, offsetof(struct sr_python_frame, next), N(sr_python_frame_new),
   py_sf, offsetof(struct sr_python_stacktrace, frames), 0, N(sr_python_stacktrace_new),
   py_sf, 0, N(sr_python_stacktrace_new) },
 { SR_REPORT_RUBY, "ruby", false, rb_ff, offsetof(struct sr_ruby_frame, next), N(sr_ruby_frame_new),
   rb_sf, offsetof(struct sr_ruby_stacktrace, frames), 0, N(sr_ruby_stacktrace_new),
   rb_sf, 0, N(sr_ruby_stacktrace_new) },
 { SR_REPORT_JAVASCRIPT, "js", false, js_ff, offsetof(struct sr_js_frame, next), N(sr_js_frame_new),
   js_sf, offsetof(struct sr_js_stacktrace, frames), 0, N(sr_js_stacktrace_new),
   js_sf, 0, N(sr_js_stacktrace_new) },
 { 0 } };

const struct tdesc *td_by_name(const char *n)
{
    for (const struct tdesc *d = TD; d->name; ++d)
        if (0 == strcmp(d->name, n)) return d;
    harness_die("unknown type %s", n);
}
const struct tdesc *td_by_type(int t)
{
    for (const struct tdesc *d = TD; d->name; ++d)
        if (d->type == t) return d;
    harness_die("unknown type number %d", t);
}

void dump_fields(GString *o, const struct field *f, void *p, bool *first)
{
    for (; f->name; ++f)
    {
        char *m = (char *)p + f->off;
        g_string_append_printf(o, "%s\"%s\":", *first ? "" : ",", f->name);
        *first = false;
        switch (f->kind)
        {
        case 's': o_str(o, *(char **)m); break;
        case 'b': g_string_append_printf(o, "%d", *(unsigned char *)m); break;
        case 'i': g_string_append_printf(o, "%d", *(int *)m); break;
        case 'u': g_string_append_printf(o, "%" PRIu32, *(uint32_t *)m); break;
        case 'w': g_string_append_printf(o, "%u", *(uint16_t *)m); break;
        case 'q': g_string_append_printf(o, "%" PRIu64, *(uint64_t *)m); break;
        case 'l': g_string_append_printf(o, "%" PRId64, *(int64_t *)m); break;
        }
    }
}

void build_fields(const struct field *f, void *p, json_object *spec)
{
    for (; f->name; ++f)
    {
        json_object *v;
        if (!json_object_object_get_ex(spec, f->name, &v)) continue;
        char *m = (char *)p + f->off;
        const char *s = v ? json_object_get_string(v) : NULL;
        switch (f->kind)
        {
        case 's': g_free(*(char **)m); *(char **)m = s ? g_strdup(s) : NULL; break;
        case 'b': *(bool *)m = json_object_get_boolean(v); break;
        case 'i': *(int *)m = strtol(s, NULL, 10); break;
        case 'u': *(uint32_t *)m = strtoull(s, NULL, 10); break;
        case 'w': *(uint16_t *)m = strtoull(s, NULL, 10); break;
        case 'q': *(uint64_t *)m = strtoull(s, NULL, 10); break;
        case 'l': *(int64_t *)m = strtoll(s, NULL, 10); break;
        }
    }
}

void dump_frame(GString *o, const struct tdesc *d, void *f)
{
    if (!f) { g_string_append(o, "null"); return; }
    bool first = true;
    g_string_append_c(o, '{');
    if (*(enum sr_report_type *)f != d->type)
    { g_string_append_printf(o, "\"_type\":%d", *(int *)f); first = false; }
    dump_fields(o, d->ff, f, &first);
    g_string_append_c(o, '}');
}

void dump_frames(GString *o, const struct tdesc *d, void *f)
{
    g_string_append_c(o, '[');
    for (void *x = f; x; x = NEXT(x, d->f_next))
    {
        if (x != f) g_string_append_c(o, ',');
        dump_frame(o, d, x);
    }
    g_string_append_c(o, ']');
}

void dump_thread(GString *o, const struct tdesc *d, void *t)
{
    bool first = true;
    g_string_append_c(o, '{');
    if (*(enum sr_report_type *)t != d->type)
    { g_string_append_printf(o, "\"_type\":%d", *(int *)t); first = false; }
    dump_fields(o, d->tf, t, &first);
    g_string_append_printf(o, "%s\"frames\":", first ? "" : ",");
    dump_frames(o, d, NEXT(t, d->t_frames));
    if (!d->multi && d->type == SR_REPORT_KERNELOOPS)
    {
        char **m = ((struct sr_koops_stacktrace *)t)->modules;
        g_string_append(o, ",\"modules\":");
        if (!m) g_string_append(o, "null");
        else
        {
            g_string_append_c(o, '[');
            for (char **i = m; *i; ++i) { if (i != m) g_string_append_c(o, ','); o_str(o, *i); }
            g_string_append_c(o, ']');
        }
    }
    g_string_append_c(o, '}');
}

void dump_libs(GString *o, struct sr_gdb_sharedlib *l)
{
    g_string_append_c(o, '[');
    for (struct sr_gdb_sharedlib *x = l; x; x = x->next)
    {
        g_string_append_printf(o, "%s{\"from\":%" PRIu64 ",\"to\":%" PRIu64 ",\"symbols\":%d,\"soname\":",
                               x == l ? "" : ",", x->from, x->to, x->symbols);
        o_str(o, x->soname);
        g_string_append_c(o, '}');
    }
    g_string_append_c(o, ']');
}

void dump_loc(GString *o, struct sr_location *l)
{
    g_string_append_printf(o, "{\"line\":%d,\"column\":%d,\"message\":", l->line, l->column);
    o_str(o, l->message);
    g_string_append_c(o, '}');
}

void dump_stacktrace(GString *o, const struct tdesc *d, void *s)
{
    if (!s) { g_string_append(o, "null"); return; }
    if (!d->multi) { dump_thread(o, d, s); return; }
    bool first = true;
    g_string_append_c(o, '{');
    if (*(enum sr_report_type *)s != d->type)
    { g_string_append_printf(o, "\"_type\":%d", *(int *)s); first = false; }
    dump_fields(o, d->sf, s, &first);
    g_string_append_printf(o, "%s\"threads\":[", first ? "" : ",");
    void *head = NEXT(s, d->s_threads);
    for (void *t = head; t; t = NEXT(t, d->t_next))
    {
        if (t != head) g_string_append_c(o, ',');
        dump_thread(o, d, t);
    }
    g_string_append_c(o, ']');
    if (d->type == SR_REPORT_GDB)
    {
        struct sr_gdb_stacktrace *g = s;
        g_string_append(o, ",\"crash\":");
        dump_frame(o, d, g->crash);
        g_string_append(o, ",\"libs\":");
        dump_libs(o, g->libs);
    }
    if (d->type == SR_REPORT_CORE)
    {
        struct sr_core_stacktrace *c = s;
        int idx = c->crash_thread ? -2 : -1, i = 0; /* -2: points outside this stacktrace */
        for (struct sr_core_thread *t = c->threads; t; t = t->next, ++i)
            if (t == c->crash_thread) idx = i;
        g_string_append_printf(o, ",\"crash_thread\":%d", idx);
    }
    g_string_append_c(o, '}');
}

void *build_frame(const struct tdesc *d, json_object *spec)
{
    void *f = d->f_new();
    build_fields(d->ff, f, spec);
    return f;
}

void *build_frames(const struct tdesc *d, json_object *arr)
{
    void *head = NULL, *last = NULL;
    size_t n = arr ? json_object_array_length(arr) : 0;
    for (size_t i = 0; i < n; ++i)
    {
        void *f = build_frame(d, json_object_array_get_idx(arr, i));
        if (last) NEXT(last, d->f_next) = f; else head = f;
        last = f;
    }
    return head;
}

static json_object *get(json_object *o, const char *k)
{
    json_object *v = NULL;
    json_object_object_get_ex(o, k, &v);
    return v;
}

static void build_thread_into(const struct tdesc *d, void *t, json_object *spec)
{
    build_fields(d->tf, t, spec);
    NEXT(t, d->t_frames) = build_frames(d, get(spec, "frames"));
    json_object *m;
    if (!d->multi && d->type == SR_REPORT_KERNELOOPS && (m = get(spec, "modules")))
    {
        size_t n = json_object_array_length(m);
        char **mods = g_malloc((n + 1) * sizeof(char *));
        for (size_t i = 0; i < n; ++i)
            mods[i] = g_strdup(json_object_get_string(json_object_array_get_idx(m, i)));
        mods[n] = NULL;
        ((struct sr_koops_stacktrace *)t)->modules = mods;
    }
}

void *build_stacktrace(const struct tdesc *d, json_object *spec)
{
    void *s = d->s_new();
    if (!d->multi) { build_thread_into(d, s, spec); return s; }
    build_fields(d->sf, s, spec);
    json_object *ts = get(spec, "threads");
    size_t n = ts ? json_object_array_length(ts) : 0;
    void *last = NULL;
    int crash = get(spec, "crash_thread") ? json_object_get_int(get(spec, "crash_thread")) : -1;
    for (size_t i = 0; i < n; ++i)
    {
        void *t = d->t_new();
        build_thread_into(d, t, json_object_array_get_idx(ts, i));
        if (last) NEXT(last, d->t_next) = t; else NEXT(s, d->s_threads) = t;
        last = t;
        if (d->type == SR_REPORT_CORE && (int)i == crash)
            ((struct sr_core_stacktrace *)s)->crash_thread = t;
    }
    if (d->type == SR_REPORT_GDB)
    {
        struct sr_gdb_stacktrace *g = s;
        if (get(spec, "crash")) g->crash = build_frame(d, get(spec, "crash"));
        json_object *ls = get(spec, "libs");
        struct sr_gdb_sharedlib *ll = NULL;
        for (size_t i = 0; ls && i < json_object_array_length(ls); ++i)
        {
            json_object *l = json_object_array_get_idx(ls, i);
            struct sr_gdb_sharedlib *x = sr_gdb_sharedlib_new();
            if (get(l, "from")) x->from = strtoull(json_object_get_string(get(l, "from")), NULL, 10);
            if (get(l, "to")) x->to = strtoull(json_object_get_string(get(l, "to")), NULL, 10);
            if (get(l, "symbols")) x->symbols = json_object_get_int(get(l, "symbols"));
            x->soname = get(l, "soname") ? g_strdup(json_object_get_string(get(l, "soname"))) : NULL;
            if (ll) ll->next = x; else g->libs = x;
            ll = x;
        }
    }
    return s;
}

/* Overwrites every field in place: whatever shares memory with this object shows it. */
static void poke_fields(const struct field *f, void *p)
{
    for (; f->name; ++f)
    {
        char *m = (char *)p + f->off;
        switch (f->kind)
        {
        case 's': if (*(char **)m) memset(*(char **)m, 'Z', strlen(*(char **)m)); break;
        case 'b': *(bool *)m = !*(bool *)m; break;
        case 'i': case 'u': *(uint32_t *)m ^= 5; break;
        case 'w': *(uint16_t *)m ^= 5; break;
        case 'q': case 'l': *(uint64_t *)m ^= 5; break;
        }
    }
}
static void poke_thread(const struct tdesc *d, void *t)
{
    poke_fields(d->tf, t);
    for (void *f = NEXT(t, d->t_frames); f; f = NEXT(f, d->f_next)) poke_fields(d->ff, f);
    if (!d->multi && d->type == SR_REPORT_KERNELOOPS)
        for (char **m = ((struct sr_koops_stacktrace *)t)->modules; m && *m; ++m) memset(*m, 'Z', strlen(*m));
}
void poke_stacktrace(const struct tdesc *d, void *s)
{
    if (!d->multi) { poke_thread(d, s); return; }
    poke_fields(d->sf, s);
    for (void *t = NEXT(s, d->s_threads); t; t = NEXT(t, d->t_next)) poke_thread(d, t);
    if (d->type == SR_REPORT_GDB)
    {
        struct sr_gdb_stacktrace *g = s;
        if (g->crash) poke_fields(d->ff, g->crash);
        for (struct sr_gdb_sharedlib *l = g->libs; l; l = l->next) { l->from ^= 5; l->to ^= 5; l->symbols ^= 1; if (l->soname) memset(l->soname, 'Z', strlen(l->soname)); }
    }
}
