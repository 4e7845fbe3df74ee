#pragma once
#include <glib.h>
#include "report_type.h"
#include "stacktrace.h"
#include "thread.h"
#include "frame.h"
#include "location.h"
#include "gdb/stacktrace.h"
#include "gdb/thread.h"
#include "gdb/frame.h"
#include "gdb/sharedlib.h"
#include "koops/frame.h"
#include "python/frame.h"
#include "ruby/frame.h"
#include "java/frame.h"
#include "js/frame.h"

static inline void use_stacktrace(struct sr_stacktrace *st)
{
    g_free(sr_stacktrace_to_json(st));
    g_free(sr_stacktrace_get_bthash(st, SR_BTHASH_NORMAL));
    g_free(sr_stacktrace_get_reason(st));
    g_free(sr_stacktrace_to_short_text(st, 5));
    struct sr_thread *t = sr_stacktrace_find_crash_thread(st);
    if (t)
    {
        sr_thread_normalize(t);
        g_free(sr_thread_get_duphash(t, 3, "x", SR_DUPHASH_NORMAL));
    }
}
