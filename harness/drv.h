#ifndef DRV_H
#define DRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <inttypes.h>
#include <glib.h>
#include <json.h>
#include "report_type.h"
#include "location.h"
#include "stacktrace.h"
#include "thread.h"
#include "frame.h"
#include "distance.h"
#include "cluster.h"
#include "normalize.h"
#include "utils.h"
#include "rpm.h"
#include "operating_system.h"
#include "report.h"
#include "abrt.h"
#include "gdb/frame.h"
#include "gdb/thread.h"
#include "gdb/sharedlib.h"
#include "gdb/stacktrace.h"
#include "core/frame.h"
#include "core/thread.h"
#include "core/stacktrace.h"
#include "core/unwind.h"
#include "java/frame.h"
#include "java/thread.h"
#include "java/stacktrace.h"
#include "koops/frame.h"
#include "koops/stacktrace.h"
#include "python/frame.h"
#include "python/stacktrace.h"
#include "ruby/frame.h"
#include "ruby/stacktrace.h"
#include "js/platform.h"
#include "js/frame.h"
#include "js/stacktrace.h"

enum kind { K_NONE, K_ST, K_TH, K_DIST, K_PART, K_DEND, K_PKG, K_OS, K_REP, K_LIBS, K_UNSTRIP, K_FDE };

struct slot { enum kind kind; int type; void *p; int n; };
#define NSLOT 96
#ifdef MT
#define PERTHREAD __thread
#else
#define PERTHREAD
#endif
extern PERTHREAD struct slot SL[NSLOT];

struct arg { char *s; size_t len; };
typedef void (*opfn)(struct arg *a, int n, GString *o);
struct op { const char *name; opfn fn; int min; };
extern struct op ops_st[], ops_misc[], ops_fault[];

void harness_die(const char *fmt, ...) __attribute__((noreturn, format(printf, 1, 2)));
/* output helpers: JSON with bytes mapped to latin-1 */
void o_str(GString *o, const char *s);
void o_bytes(GString *o, const char *s, size_t n);
void o_float(GString *o, float f);

struct field { const char *name; char kind; size_t off; };
struct tdesc {
    int type; const char *name; bool multi;
    const struct field *ff; size_t f_next; void *(*f_new)(void);
    const struct field *tf; size_t t_frames, t_next; void *(*t_new)(void);
    const struct field *sf; size_t s_threads; void *(*s_new)(void);
};
extern const struct tdesc TD[];
const struct tdesc *td_by_name(const char *n);
const struct tdesc *td_by_type(int type);
void dump_fields(GString *o, const struct field *f, void *p, bool *first);
void build_fields(const struct field *f, void *p, json_object *spec);
void dump_frame(GString *o, const struct tdesc *d, void *f);
void dump_frames(GString *o, const struct tdesc *d, void *f);
void dump_thread(GString *o, const struct tdesc *d, void *t);
void dump_stacktrace(GString *o, const struct tdesc *d, void *s);
void poke_stacktrace(const struct tdesc *d, void *s);
void *build_frame(const struct tdesc *d, json_object *spec);
void *build_frames(const struct tdesc *d, json_object *arr);
void *build_stacktrace(const struct tdesc *d, json_object *spec);
void dump_libs(GString *o, struct sr_gdb_sharedlib *l);
void dump_loc(GString *o, struct sr_location *l);
void slot_free(int i);
const char *rep_default(int version);
void slot_set(int i, enum kind k, int type, void *p, int n);
int argi(struct arg *a);
/* thread / frame addressing: slot, thread index, frame index */
struct sr_thread *get_thread(int s, int ti);
struct sr_frame *get_frame(int s, int ti, int fi);
void *st_of(int s);
json_object *spec_parse(struct arg *a);
#define NEXT(p, off) (*(void **)((char *)(p) + (off)))
#endif
