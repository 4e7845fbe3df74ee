/* Coverage-guided fuzzing of the text parsers: the first byte selects the format. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdio.h>
#include "drv_fuzz.h"

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    static const enum sr_report_type T[] = { SR_REPORT_GDB, SR_REPORT_KERNELOOPS, SR_REPORT_PYTHON, SR_REPORT_RUBY, SR_REPORT_JAVA, SR_REPORT_JAVASCRIPT };
    if (size < 1 || data[0] >= 6)
        return -1;
    size_t n = strnlen((const char *)data + 1, size - 1);
    char *text = malloc(n + 1);
    memcpy(text, data + 1, n);
    text[n] = '\0';
    char *err = NULL;
    struct sr_stacktrace *st = sr_stacktrace_parse(T[data[0]], text, &err);
    if (st)
    {
        use_stacktrace(st);
        sr_stacktrace_free(st);
    }
    else if (!err || !*err)
    {
        fprintf(stderr, "ORACLE: refused without a message\n");
        abort();
    }
    g_free(err);
    const char *in = text;
    struct sr_location l;
    sr_location_init(&l);
    void *p = NULL;
    switch (data[0])
    {
    case 0: if ((p = sr_gdb_frame_parse(&in, &l))) sr_gdb_frame_free(p); break;
    case 1: if ((p = sr_koops_frame_parse(&in))) sr_koops_frame_free(p); break;
    case 2: if ((p = sr_python_frame_parse(&in, &l))) sr_python_frame_free(p); break;
    case 3: if ((p = sr_ruby_frame_parse(&in, &l))) sr_ruby_frame_free(p); else g_free((char *)l.message); break;
    case 4: if ((p = sr_java_frame_parse(&in, &l))) sr_java_frame_free(p); break;
    case 5: if ((p = sr_js_frame_parse(&in, &l))) sr_js_frame_free(p); break;
    }
    if (in < text || in > text + n)
    {
        fprintf(stderr, "ORACLE: cursor outside of the input\n");
        abort();
    }
    if (data[0] == 0)
    {
        struct sr_gdb_sharedlib *libs = sr_gdb_sharedlib_parse(text);
        while (libs) { struct sr_gdb_sharedlib *x = libs; libs = libs->next; sr_gdb_sharedlib_free(x); }
        in = text;
        if ((p = sr_gdb_thread_parse(&in, &l))) sr_gdb_thread_free(p);
    }
    free(text);
    return 0;
}
