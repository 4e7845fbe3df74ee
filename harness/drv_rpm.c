/* Package database queries: a scratch database under the current directory is filled through librpm, then the library is asked. */
#include "drv.h"
#include <dirent.h>
#include <errno.h>
#include <sys/stat.h>
#include <unistd.h>
#include <rpm/rpmlib.h>
#include <rpm/rpmts.h>
#include <rpm/rpmdb.h>
#include <rpm/header.h>
void dump_pkgs(GString *o, struct sr_rpm_package *p);
#ifdef __SANITIZE_ADDRESS__
size_t __sanitizer_get_current_allocated_bytes(void);
#else
static size_t __sanitizer_get_current_allocated_bytes(void) { return 0; }
#endif
static json_object *get(json_object *o, const char *k) { json_object *v = NULL; json_object_object_get_ex(o, k, &v); return v; }
static const char *str(json_object *o, const char *k) { json_object *v = get(o, k); return v ? json_object_get_string(v) : NULL; }
static int fds(void)
{
    int n = 0; DIR *d = opendir("/proc/self/fd"); struct dirent *e;
    while ((e = readdir(d))) ++n;
    closedir(d); return n;
}
static void put(const char *dir, const char *name, const char *fmt, const char *a)
{
    char *p = g_strdup_printf("%s/%s", dir, name); FILE *f = fopen(p, "w");
    if (!f) harness_die("%s", p);
    fprintf(f, fmt, a, a); fclose(f); g_free(p);
}
static void clean(const char *dir)
{
    DIR *d = opendir(dir); struct dirent *e;
    while (d && (e = readdir(d))) if (e->d_name[0] != '.') { char *p = g_strdup_printf("%s/%s", dir, e->d_name); unlink(p); g_free(p); }
    if (d) closedir(d);
}
static void s_put(Header h, rpmTag t, const char *v) { if (v && !headerPutString(h, t, v)) harness_die("header string"); }
static void u_put(Header h, rpmTag t, json_object *v)
{ if (v) { uint32_t x = json_object_get_int64(v); if (!headerPutUint32(h, t, &x, 1)) harness_die("header number"); } }
static void fill(json_object *pk)
{
    rpmts ts = rpmtsCreate();
    if (rpmtsInitDB(ts, 0644) || rpmtsOpenDB(ts, 2)) harness_die("database");
    rpmtxn x = rpmtxnBegin(ts, RPMTXN_WRITE);
    if (!x) harness_die("transaction");
    for (size_t i = 0; i < json_object_array_length(pk); ++i)
    {
        json_object *p = json_object_array_get_idx(pk, i), *f = get(p, "files");
        Header h = headerNew();
        s_put(h, RPMTAG_NAME, str(p, "name")); u_put(h, RPMTAG_EPOCH, get(p, "epoch")); s_put(h, RPMTAG_VERSION, str(p, "version"));
        s_put(h, RPMTAG_RELEASE, str(p, "release")); s_put(h, RPMTAG_ARCH, str(p, "architecture")); u_put(h, RPMTAG_INSTALLTIME, get(p, "install_time"));
        for (size_t k = 0; f && k < json_object_array_length(f); ++k)
        {
            json_object *e = json_object_array_get_idx(f, k); uint32_t ix = k;
            const char *d = json_object_get_string(json_object_array_get_idx(e, 0)), *b = json_object_get_string(json_object_array_get_idx(e, 1));
            if (!headerPutStringArray(h, RPMTAG_DIRNAMES, &d, 1) || !headerPutStringArray(h, RPMTAG_BASENAMES, &b, 1) || !headerPutUint32(h, RPMTAG_DIRINDEXES, &ix, 1))
                harness_die("header files");
        }
        if (rpmtsImportHeader(x, h, 0) != RPMRC_OK) harness_die("import");
        headerFree(h);
    }
    rpmtxnEnd(x); rpmtsFree(ts);
}
/* rpmdb SPEC: {"packages":[..], "queries":[[by, key]..], "rounds":n, "config":bool} */
void op_rpmdb(struct arg *a, int n, GString *o)
{
    static char *dir, *db; static bool broken;
    json_object *s = spec_parse(&a[0]), *q = get(s, "queries"), *pk = get(s, "packages");
    int rounds = json_object_get_int(get(s, "rounds")); bool config = json_object_get_boolean(get(s, "config"));
    if (!dir)
    {
        char *c = g_get_current_dir();
        dir = g_strdup_printf("%s/%d", c, getpid()); db = g_strdup_printf("%s/db", dir); broken = !config;
        if (mkdir(dir, 0700)) harness_die("%s", dir);
        if (!broken) { put(dir, "rpmrc", "arch_compat: x86_64: noarch\nbuildarch_compat: x86_64: noarch\nos_compat: Linux: linux\n", "");
                       put(dir, "macros", "%%_dbpath %s/db\n%%_db_backend sqlite\n%%_rpmlock_path %s/lock\n", dir); }
        setenv("RPM_CONFIGDIR", dir, 1); setenv("HOME", dir, 1); g_free(c);
    }
    if (config == broken) harness_die("the configuration is fixed for the process");
    clean(db);
    if (pk) { if (rpmReadConfigFiles(NULL, NULL)) harness_die("configuration"); fill(pk); }
    size_t nq = json_object_array_length(q);
    g_string_append(o, "{\"answers\":[");
    GString *mem = g_string_new(NULL);
    for (int r = 0; r < rounds; ++r)
    {
        for (size_t i = 0; i < nq; ++i)
        {
            json_object *e = json_object_array_get_idx(q, i); const char *by = json_object_get_string(json_object_array_get_idx(e, 0));
            char *key = g_strdup(json_object_get_string(json_object_array_get_idx(e, 1))), *err = NULL;
            struct sr_rpm_package *p = *by == 'n' ? sr_rpm_package_get_by_name(key, &err) : sr_rpm_package_get_by_path(key, &err);
            g_free(key);
            if (!r)
            {
                g_string_append(o, i ? ",{\"pkgs\":" : "{\"pkgs\":"); if (p) dump_pkgs(o, p); else g_string_append(o, "null");
                g_string_append(o, ",\"err\":"); if (err) o_str(o, err); else g_string_append(o, "null"); g_string_append_c(o, '}');
            }
            g_free(err);
            if (p) sr_rpm_package_free(p, true);
        }
        int nf = fds();
        g_string_append_printf(mem, "%s[%zu,%d]", r ? "," : "", __sanitizer_get_current_allocated_bytes(), nf);
    }
    /* what librpm itself keeps for every reading of the configuration */
    size_t base[4];
    for (int r = 0; r < 4; ++r)
    {
        base[r] = __sanitizer_get_current_allocated_bytes();
        for (size_t i = 0; i < nq && rounds > 5; ++i) rpmReadConfigFiles(NULL, NULL);
    }
    g_string_append_printf(o, "],\"base\":[%zu,%zu,%zu,%zu],\"rounds\":[%s]}", base[0], base[1], base[2], base[3], mem->str);
    g_string_free(mem, TRUE);
    clean(db); json_object_put(s);
}
