/* Driver operations around faults.c: arm item call nth mode / disarm / install. */
#include <sys/resource.h>
#include <signal.h>
#include "drv.h"
#include "faults.h"
static void op_arm(struct arg *a, int n, GString *o) { flt_arm(a[0].s, a[1].s, argi(&a[2]), a[3].s); }
static void op_disarm(struct arg *a, int n, GString *o)
{
    int hit; const char *l = flt_disarm(&hit);
    g_string_append_printf(o, "{\"hit\":%s,\"log\":", hit ? "true" : "false"); o_str(o, l); g_string_append_c(o, '}');
}
/* fsize limit|-1: the largest file the process may write */
static void op_fsize(struct arg *a, int n, GString *o)
{
    struct rlimit r; getrlimit(RLIMIT_FSIZE, &r);
    signal(SIGXFSZ, SIG_IGN);
    r.rlim_cur = argi(&a[0]) < 0 ? r.rlim_max : (rlim_t)argi(&a[0]);
    setrlimit(RLIMIT_FSIZE, &r);
}
struct op ops_fault[] = { {"arm",op_arm,4},{"disarm",op_disarm,0},{"fsize",op_fsize,1},{NULL} };
