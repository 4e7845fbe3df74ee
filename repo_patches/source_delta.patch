From 75841588838d973c5973f297ad6bbb13505e6e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 001/129] fix: core: make the copy's crash thread point into
 the copy

---
 lib/core_stacktrace.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index a22b469..f789d71 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -117,6 +117,16 @@ sr_core_stacktrace_dup(struct sr_core_stacktrace *stacktrace)
     if (stacktrace->executable)
         result->executable = g_strdup(stacktrace->executable);
 
+    /* The crash thread of the copy must be one of the copied threads. */
+    struct sr_core_thread *thread = stacktrace->threads,
+        *copy = result->threads;
+    while (thread && thread != stacktrace->crash_thread)
+    {
+        thread = thread->next;
+        copy = copy->next;
+    }
+    result->crash_thread = thread ? copy : NULL;
+
     return result;
 }
 
-- 
2.43.0


From 52bfdf9b312e2b5b9a49bdae7c35818ebf093a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 002/129] fix: compare integer frame and thread fields without
 truncation

---
 lib/core_frame.c     |  4 ++--
 lib/gdb_frame.c      |  4 ++--
 lib/gdb_thread.c     |  2 +-
 lib/internal_utils.h |  4 ++++
 lib/java_frame.c     |  2 +-
 lib/js_frame.c       |  6 +++---
 lib/koops_frame.c    | 12 ++++++------
 lib/python_frame.c   |  2 +-
 lib/ruby_frame.c     |  6 +++---
 9 files changed, 23 insertions(+), 19 deletions(-)

diff --git a/lib/core_frame.c b/lib/core_frame.c
index 84661c0..2cf70d4 100644
--- a/lib/core_frame.c
+++ b/lib/core_frame.c
@@ -166,7 +166,7 @@ sr_core_frame_cmp(struct sr_core_frame *frame1,
         return build_id;
 
     /* Build ID offset */
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
+    int build_id_offset = SR_CMP(frame1->build_id_offset, frame2->build_id_offset);
     if (build_id_offset != 0)
         return build_id_offset;
 
@@ -203,7 +203,7 @@ sr_core_frame_cmp_distance(struct sr_core_frame *frame1,
     int build_id = g_strcmp0(frame1->build_id,
                               frame2->build_id);
 
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
+    int build_id_offset = SR_CMP(frame1->build_id_offset, frame2->build_id_offset);
 
     if (build_id == 0 && build_id_offset == 0)
         return 0;
diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 1a87d41..2ffa353 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -203,7 +203,7 @@ sr_gdb_frame_cmp(struct sr_gdb_frame *frame1,
         return source_file;
 
     /* Sourceline. */
-    int source_line = frame1->source_line - frame2->source_line;
+    int source_line = SR_CMP(frame1->source_line, frame2->source_line);
     if (source_line != 0)
         return source_line;
 
@@ -216,7 +216,7 @@ sr_gdb_frame_cmp(struct sr_gdb_frame *frame1,
     /* Frame number. */
     if (compare_number)
     {
-        int number = frame1->number - frame2->number;
+        int number = SR_CMP(frame1->number, frame2->number);
         if (number != 0)
             return number;
     }
diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index 26c8f7d..60b7c88 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -121,7 +121,7 @@ int
 sr_gdb_thread_cmp(struct sr_gdb_thread *thread1,
                   struct sr_gdb_thread *thread2)
 {
-    int number = thread1->number - thread2->number;
+    int number = SR_CMP(thread1->number, thread2->number);
     if (number != 0)
         return number;
 
diff --git a/lib/internal_utils.h b/lib/internal_utils.h
index bb66cac..d22a33c 100644
--- a/lib/internal_utils.h
+++ b/lib/internal_utils.h
@@ -55,6 +55,10 @@ warn(const char *fmt, ...) __sr_printf(1, 2);
 #define DEFINE_NEXT_FUNC(name, abstract_t, concrete_t) DEFINE_GETTER(name, next, abstract_t, concrete_t, abstract_t)
 #define DEFINE_SET_NEXT_FUNC(name, abstract_t, concrete_t) DEFINE_SETTER(name, next, abstract_t, concrete_t, abstract_t)
 
+/* Three-way comparison of numbers; unlike a subtraction it can not overflow
+ * or lose bits. Beware the side effects. */
+#define SR_CMP(a, b) (((a) > (b)) - ((a) < (b)))
+
 /* beware the side effects */
 #define OR_UNKNOWN(s) ((s) ? (s) : "<unknown>")
 
diff --git a/lib/java_frame.c b/lib/java_frame.c
index 19a0c26..27dcfd8 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -180,7 +180,7 @@ sr_java_frame_cmp(struct sr_java_frame *frame1,
     if (frame1->is_native != frame2->is_native)
         return frame1->is_native ? 1 : -1;
 
-    return frame1->file_line - frame2->file_line;
+    return SR_CMP(frame1->file_line, frame2->file_line);
 }
 
 int
diff --git a/lib/js_frame.c b/lib/js_frame.c
index c0be8ba..9fafdfb 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -132,12 +132,12 @@ sr_js_frame_cmp(struct sr_js_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
     /* line_column */
-    int line_column = frame1->line_column - frame2->line_column;
+    int line_column = SR_CMP(frame1->line_column, frame2->line_column);
     if (line_column != 0)
         return line_column;
 
@@ -149,7 +149,7 @@ sr_js_frame_cmp_distance(struct sr_js_frame *frame1,
                          struct sr_js_frame *frame2)
 {
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
diff --git a/lib/koops_frame.c b/lib/koops_frame.c
index 56b3cae..cdfdeef 100644
--- a/lib/koops_frame.c
+++ b/lib/koops_frame.c
@@ -127,7 +127,7 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
                    struct sr_koops_frame *frame2)
 {
     /* Address. */
-    int address = frame2->address - frame1->address;
+    int address = SR_CMP(frame2->address, frame1->address);
     if (address != 0)
         return address;
 
@@ -144,12 +144,12 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return function_name;
 
     /* Function offset. */
-    int64_t function_offset = frame2->function_offset - frame1->function_offset;
+    int function_offset = SR_CMP(frame2->function_offset, frame1->function_offset);
     if (function_offset != 0)
         return function_offset;
 
     /* Function length. */
-    int64_t function_length = frame2->function_length - frame1->function_length;
+    int function_length = SR_CMP(frame2->function_length, frame1->function_length);
     if (function_length != 0)
         return function_length;
 
@@ -161,7 +161,7 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return module_name;
 
     /* From address. */
-    int from_address = frame2->from_address - frame1->from_address;
+    int from_address = SR_CMP(frame2->from_address, frame1->from_address);
     if (from_address != 0)
         return from_address;
 
@@ -173,12 +173,12 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return from_function_name;
 
     /* From function offset. */
-    int64_t from_function_offset = frame2->from_function_offset - frame1->from_function_offset;
+    int from_function_offset = SR_CMP(frame2->from_function_offset, frame1->from_function_offset);
     if (from_function_offset != 0)
         return from_function_offset;
 
     /* From function length. */
-    int64_t from_function_length = frame2->from_function_length - frame1->from_function_length;
+    int from_function_length = SR_CMP(frame2->from_function_length, frame1->from_function_length);
     if (from_function_length != 0)
         return from_function_length;
 
diff --git a/lib/python_frame.c b/lib/python_frame.c
index a454127..b63f752 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -130,7 +130,7 @@ sr_python_frame_cmp(struct sr_python_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index b4233db..576d9e9 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -127,7 +127,7 @@ sr_ruby_frame_cmp(struct sr_ruby_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
@@ -137,12 +137,12 @@ sr_ruby_frame_cmp(struct sr_ruby_frame *frame1,
         return special_function;
 
     /* block_level */
-    int block_level = frame1->block_level - frame2->block_level;
+    int block_level = SR_CMP(frame1->block_level, frame2->block_level);
     if (block_level != 0)
             return block_level;
 
     /* rescue_level */
-    int rescue_level = frame1->rescue_level - frame2->rescue_level;
+    int rescue_level = SR_CMP(frame1->rescue_level, frame2->rescue_level);
     if (rescue_level != 0)
             return rescue_level;
 
-- 
2.43.0


From 9b917157ced4b36e7d4b3172ff0b92839c31b8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:04 +0000
Subject: [PATCH 003/129] fix: java: compare all frames of the threads, not
 just the first

---
 lib/java_thread.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/lib/java_thread.c b/lib/java_thread.c
index fa054db..881dd89 100644
--- a/lib/java_thread.c
+++ b/lib/java_thread.c
@@ -127,12 +127,20 @@ sr_java_thread_cmp(struct sr_java_thread *thread1,
     struct sr_java_frame *frame1 = thread1->frames;
     struct sr_java_frame *frame2 = thread2->frames;
 
-    if (frame1 && !frame2)
+    while (frame1 && frame2)
+    {
+        res = sr_java_frame_cmp(frame1, frame2);
+        if (res)
+            return res;
+
+        frame1 = frame1->next;
+        frame2 = frame2->next;
+    }
+
+    if (frame1)
         return 1;
-    else if (frame2 && !frame1)
+    else if (frame2)
         return -1;
-    else if (frame1 && frame2)
-        return sr_java_frame_cmp(frame1, frame2);
 
     return 0;
 }
-- 
2.43.0


From 73dc71f83880346f47f3c0b01dbee60eaa96f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 004/129] fix: distance: refuse to merge incomplete, duplicate
 or mixed matrix parts

---
 lib/distance.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/distance.c b/lib/distance.c
index 43c4d59..7fa1157 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -642,12 +642,22 @@ sr_distances_part_merge(struct sr_distances_part *parts)
 
     struct sr_distances *distances = sr_distances_new(parts->m, parts->n);
 
+    /* Every entry of the matrix must be provided by exactly one part. */
+    size_t size = get_distance_position(distances, distances->m - 1,
+                                        distances->n - 1) + 1;
+    size_t missing = 0;
+    g_autofree bool *seen = g_new0(bool, size);
+
+    for (int row = 0; row < distances->m; row++)
+        missing += distances->n - 1 - row;
+
     for (struct sr_distances_part *it = parts;
          it != NULL;
          it = it->next)
     {
         if (it->m != parts->m || it->n != parts->n
             || it->distances == NULL
+            || it->dist_type != parts->dist_type
             || it->checksum != parts->checksum)
         {
             goto error;
@@ -663,8 +673,13 @@ sr_distances_part_merge(struct sr_distances_part *parts)
             if (j <= i || i >= it->m || j >= it->n)
                 goto error;
 
-            distances->distances[get_distance_position(distances, i, j)]
-                = it->distances[dist_idx];
+            int position = get_distance_position(distances, i, j);
+            if (seen[position])
+                goto error;
+
+            seen[position] = true;
+            missing--;
+            distances->distances[position] = it->distances[dist_idx];
 
             j++;
             if (j >= it->n)
@@ -676,6 +691,9 @@ sr_distances_part_merge(struct sr_distances_part *parts)
 
     }
 
+    if (missing != 0)
+        goto error;
+
     return distances;
 error:
     sr_distances_free(distances);
-- 
2.43.0


From 89fca79caed2a90f1dcfad70249c974ecb92d6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 005/129] fix: koops: include the taint flags in the backtrace
 hash

---
 lib/koops_stacktrace.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 593cdee..e2d05af 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -802,6 +802,8 @@ koops_append_bthash_text(struct sr_koops_stacktrace *stacktrace,
         bool val = *(bool *)((void *)stacktrace + f->member_offset);
         if (val == false)
             continue;
+
+        g_string_append_c(strbuf, f->letter);
     }
     g_string_append_c(strbuf, '\n');
 
-- 
2.43.0


From 1a2b9f7a3a0838d348f9ece5121ac69719ec4547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 006/129] fix: print <unknown> for absent strings in frame
 texts and reasons

---
 lib/core_frame.c        | 2 +-
 lib/js_frame.c          | 2 +-
 lib/js_stacktrace.c     | 3 ++-
 lib/python_stacktrace.c | 3 ++-
 lib/ruby_stacktrace.c   | 3 ++-
 5 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/core_frame.c b/lib/core_frame.c
index 2cf70d4..f49c4ad 100644
--- a/lib/core_frame.c
+++ b/lib/core_frame.c
@@ -341,7 +341,7 @@ sr_core_frame_append_to_str(struct sr_core_frame *frame,
     }
     else
     {
-        g_string_append_printf(dest, " %s+%"PRIu64, frame->build_id,
+        g_string_append_printf(dest, " %s+%"PRIu64, OR_UNKNOWN(frame->build_id),
                               frame->build_id_offset);
     }
 }
diff --git a/lib/js_frame.c b/lib/js_frame.c
index 9fafdfb..71e2f08 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -470,7 +470,7 @@ sr_js_frame_append_to_str(struct sr_js_frame *frame,
         g_string_append_printf(dest, "%s (", frame->function_name);
 
     g_string_append_printf(dest, "%s:%"PRIu32":%"PRIu32,
-                          frame->file_name,
+                          OR_UNKNOWN(frame->file_name),
                           frame->file_line,
                           frame->line_column);
 
diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 6b21672..778e46e 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -359,7 +359,8 @@ sr_js_stacktrace_get_reason(struct sr_js_stacktrace *stacktrace)
     struct sr_js_frame *frame = stacktrace->frames;
     if (frame)
     {
-        file = frame->file_name;
+        if (frame->file_name)
+            file = frame->file_name;
         line = frame->file_line;
         column = frame->line_column;
     }
diff --git a/lib/python_stacktrace.c b/lib/python_stacktrace.c
index ce913a1..1230030 100644
--- a/lib/python_stacktrace.c
+++ b/lib/python_stacktrace.c
@@ -335,7 +335,8 @@ sr_python_stacktrace_get_reason(struct sr_python_stacktrace *stacktrace)
 
     if (frame)
     {
-        file = frame->file_name;
+        if (frame->file_name)
+            file = frame->file_name;
         line = frame->file_line;
     }
 
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 109ad7d..28452f1 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -371,7 +371,8 @@ sr_ruby_stacktrace_get_reason(struct sr_ruby_stacktrace *stacktrace)
     struct sr_ruby_frame *frame = stacktrace->frames;
     if (frame)
     {
-        file = frame->file_name;
+        if (frame->file_name)
+            file = frame->file_name;
         line = frame->file_line;
     }
 
-- 
2.43.0


From 631b4133003f7fa785a2a5fbfe177c46f5bbffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:58 +0000
Subject: [PATCH 007/129] fix: gdb: pass the verbosity when rendering a frame
 through the generic interface

---
 lib/gdb_frame.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 2ffa353..bec28f7 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -48,9 +48,15 @@ frame_cmp_without_number(struct sr_gdb_frame *frame1, struct sr_gdb_frame *frame
     return sr_gdb_frame_cmp(frame1, frame2, false);
 }
 
+static void
+frame_append_to_str_verbose(struct sr_gdb_frame *frame, GString *dest)
+{
+    sr_gdb_frame_append_to_str(frame, dest, true);
+}
+
 struct frame_methods gdb_frame_methods =
 {
-    .append_to_str = (append_to_str_fn_t) sr_gdb_frame_append_to_str,
+    .append_to_str = (append_to_str_fn_t) frame_append_to_str_verbose,
     .next = (next_frame_fn_t) gdb_next,
     .set_next = (set_next_frame_fn_t) gdb_set_next,
     .cmp = (frame_cmp_fn_t) frame_cmp_without_number,
-- 
2.43.0


From e8c9ff8232b49c184c42cbe560f205bd9d6d8f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:04 +0000
Subject: [PATCH 008/129] fix: json: escape all control characters

---
 lib/json_utils.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/json_utils.c b/lib/json_utils.c
index 4492a22..98a8bfc 100644
--- a/lib/json_utils.c
+++ b/lib/json_utils.c
@@ -97,7 +97,10 @@ sr_json_escape(const char *text)
             g_string_append(strbuf, "\\t");
             break;
         default:
-            g_string_append_c(strbuf, *c);
+            if ((unsigned char)*c < 0x20)
+                g_string_append_printf(strbuf, "\\u%04x", *c);
+            else
+                g_string_append_c(strbuf, *c);
         }
 
         ++c;
-- 
2.43.0


From 3dfce781958157a270ac78f5e4747f8950cd4486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:04 +0000
Subject: [PATCH 009/129] fix: json: read unsigned integers without clamping
 them to the signed range

---
 lib/json_utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/json_utils.c b/lib/json_utils.c
index 98a8bfc..2145fb0 100644
--- a/lib/json_utils.c
+++ b/lib/json_utils.c
@@ -38,9 +38,9 @@
 
 #define NOOP
 
-DEFINE_JSON_READ(json_read_uint64, uint64_t, json_type_int, int64, NOOP)
-DEFINE_JSON_READ(json_read_uint32, uint32_t, json_type_int, int, NOOP)
-DEFINE_JSON_READ(json_read_uint16, uint16_t, json_type_int, int, NOOP)
+DEFINE_JSON_READ(json_read_uint64, uint64_t, json_type_int, uint64, NOOP)
+DEFINE_JSON_READ(json_read_uint32, uint32_t, json_type_int, int64, NOOP)
+DEFINE_JSON_READ(json_read_uint16, uint16_t, json_type_int, int64, NOOP)
 DEFINE_JSON_READ(json_read_string, char *, json_type_string, string, g_strdup)
 DEFINE_JSON_READ(json_read_bool, bool, json_type_boolean, boolean, NOOP)
 
-- 
2.43.0


From 100f0a49f8e79b4c28d7156566f760ee210ac1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:04 +0000
Subject: [PATCH 010/129] fix: core: encode a stacktrace without threads as
 valid JSON

---
 lib/core_stacktrace.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index f789d71..3f15127 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -281,6 +281,9 @@ sr_core_stacktrace_to_json(struct sr_core_stacktrace *stacktrace)
     g_string_append(strbuf, ",   \"stacktrace\":\n");
 
     struct sr_core_thread *thread = stacktrace->threads;
+    if (!thread)
+        g_string_append(strbuf, "      [");
+
     while (thread)
     {
         if (thread == stacktrace->threads)
-- 
2.43.0


From e1cfad27d419c9ce7b264ee080561166ef7c459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:04 +0000
Subject: [PATCH 011/129] fix: core: keep the crash thread mark of a thread
 without frames in JSON

---
 lib/core_thread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core_thread.c b/lib/core_thread.c
index 3522846..2b6cebb 100644
--- a/lib/core_thread.c
+++ b/lib/core_thread.c
@@ -257,6 +257,8 @@ sr_core_thread_to_json(struct sr_core_thread *thread, bool is_crash_thread)
         g_string_append(strbuf, " ]\n");
         g_string_append(strbuf, "}");
     }
+    else if (is_crash_thread)
+        g_string_append(strbuf, "{   \"crash_thread\": true\n}");
     else
         g_string_append(strbuf, "{}");
 
-- 
2.43.0


From 0b4ec18e96065627a33659f33f4f525608bd9542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:04 +0000
Subject: [PATCH 012/129] fix: python, ruby, js: encode a frame without any
 data as valid JSON

---
 lib/js_frame.c     | 6 +++++-
 lib/python_frame.c | 6 +++++-
 lib/ruby_frame.c   | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/js_frame.c b/lib/js_frame.c
index 71e2f08..cb2c7cf 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -456,7 +456,11 @@ sr_js_frame_to_json(struct sr_js_frame *frame)
         g_string_append(strbuf, "\n");
     }
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
diff --git a/lib/python_frame.c b/lib/python_frame.c
index b63f752..e92387a 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -397,7 +397,11 @@ sr_python_frame_to_json(struct sr_python_frame *frame)
         g_string_append(strbuf, "\n");
     }
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index 576d9e9..91e7272 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -390,7 +390,11 @@ sr_ruby_frame_to_json(struct sr_ruby_frame *frame)
     }
 
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
-- 
2.43.0


From 36cd102ad49744ff96f428751e9010e16a4ed064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:04 +0000
Subject: [PATCH 013/129] fix: js: do not swap engine and runtime when decoding
 a platform

---
 lib/js_platform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/js_platform.c b/lib/js_platform.c
index 738b59f..4d85182 100644
--- a/lib/js_platform.c
+++ b/lib/js_platform.c
@@ -231,7 +231,7 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     }
 
     platform = sr_js_platform_new();
-    sr_js_platform_init(platform, engine, runtime);
+    sr_js_platform_init(platform, runtime, engine);
 
 fail:
     g_free(engine_str);
-- 
2.43.0


From a55afb3173a5a72bb64daa4d6e278126227ec021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:04 +0000
Subject: [PATCH 014/129] fix: koops: grow the list of decoded modules by the
 size of its elements

---
 lib/koops_stacktrace.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index e2d05af..6fef5b4 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -714,7 +714,7 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
             if (i + 1 == allocated)
             {
                 allocated *= 2;
-                result->modules = g_realloc(result->modules, allocated);
+                result->modules = g_realloc_n(result->modules, allocated, sizeof(char*));
             }
             result->modules[i] = g_strdup(module);
         }
-- 
2.43.0


From f98f26d326c86faee5a03d279f3ef18c30dd22ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:45 +0000
Subject: [PATCH 015/129] fix: report: escape the reporter name and version in
 JSON

---
 lib/report.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index 2e3a9de..f645057 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -209,9 +209,12 @@ sr_report_to_json(struct sr_report *report)
     assert(report->reporter_name);
     assert(report->reporter_version);
 
-    char *reporter = g_strdup_printf("{   \"name\": \"%s\"\n,   \"version\": \"%s\"\n}",
-                                 report->reporter_name,
-                                 report->reporter_version);
+    GString *reporter_buf = g_string_new("{   \"name\": ");
+    sr_json_append_escaped(reporter_buf, report->reporter_name);
+    g_string_append(reporter_buf, "\n,   \"version\": ");
+    sr_json_append_escaped(reporter_buf, report->reporter_version);
+    g_string_append(reporter_buf, "\n}");
+    char *reporter = g_string_free(reporter_buf, FALSE);
     char *reporter_indented = sr_indent_except_first_line(reporter, strlen(",   \"reporter\": "));
     g_free(reporter);
     g_string_append_printf(strbuf,
-- 
2.43.0


From 84c4b1760efaaf55fbe7292749d9dd4ed1e44af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 016/129] fix: report: read the user flags from the problem
 object, where they are written

---
 lib/report.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index f645057..d3602af 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -381,7 +381,7 @@ sr_report_from_json(json_object *root, char **error_message)
         /* User. */
         json_object *user;
 
-        if (json_object_object_get_ex(root, "user", &user))
+        if (json_object_object_get_ex(problem, "user", &user))
         {
             success =
                 json_check_type(user, json_type_object, "user", error_message) &&
-- 
2.43.0


From 3483748b9c27e9782c1b8a1c1df8012246d51d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:50 +0000
Subject: [PATCH 017/129] fix: report: decode the stacktrace of JavaScript
 reports

---
 lib/report.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/report.c b/lib/report.c
index d3602af..8110e23 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -404,6 +404,7 @@ sr_report_from_json(json_object *root, char **error_message)
         case SR_REPORT_KERNELOOPS:
         case SR_REPORT_JAVA:
         case SR_REPORT_RUBY:
+        case SR_REPORT_JAVASCRIPT:
             report->stacktrace = sr_stacktrace_from_json(report->report_type, problem, error_message);
             break;
         default:
-- 
2.43.0


From 9c5ed87f33e9731b983c02ebe9880650871e2276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:53 +0000
Subject: [PATCH 018/129] fix: report: refuse a report whose stacktrace cannot
 be decoded

---
 lib/report.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/report.c b/lib/report.c
index 8110e23..79ef174 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -406,6 +406,8 @@ sr_report_from_json(json_object *root, char **error_message)
         case SR_REPORT_RUBY:
         case SR_REPORT_JAVASCRIPT:
             report->stacktrace = sr_stacktrace_from_json(report->report_type, problem, error_message);
+            if (!report->stacktrace)
+                goto fail;
             break;
         default:
             /* Invalid report type -> no stacktrace. */
-- 
2.43.0


From 71a4337d6a155967fb7a7aef60564c5d8680c52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:56 +0000
Subject: [PATCH 019/129] fix: report: refuse authentication entries that are
 not strings

---
 lib/report.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index 79ef174..340d5ac 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -438,7 +438,7 @@ sr_report_from_json(json_object *root, char **error_message)
             child_value = lh_entry_v(entry);
 
             if (!json_check_type(child_value, json_type_string, child_name, error_message))
-                continue;
+                goto fail;
 
             string = json_object_get_string(child_value);
 
-- 
2.43.0


From bbb51cfd69d58b23ec8de35c096fda4a94665f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:59 +0000
Subject: [PATCH 020/129] fix: report: encode a report whose stacktrace has no
 data as valid JSON

---
 lib/report.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index 340d5ac..b62ca3c 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -158,8 +158,11 @@ problem_object_string(struct sr_report *report, const char *report_type)
     if (report->stacktrace)
     {
         char *stacktrace = sr_stacktrace_to_json(report->stacktrace);
-        dismantle_object(stacktrace);
-        g_string_append(strbuf, stacktrace);
+        if (0 != strcmp(stacktrace, "{}"))
+        {
+            dismantle_object(stacktrace);
+            g_string_append(strbuf, stacktrace);
+        }
         g_free(stacktrace);
     }
 
-- 
2.43.0


From f1c1b61cd09be146a5d0aa2818213e2e1ebd4974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:01 +0000
Subject: [PATCH 021/129] fix: operating system: read the CPE name from JSON

---
 lib/operating_system.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index ae9a08f..429c4cb 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -137,6 +137,7 @@ sr_operating_system_from_json(json_object *root, char **error_message)
         JSON_READ_STRING(root, "name", &result->name) &&
         JSON_READ_STRING(root, "version", &result->version) &&
         JSON_READ_STRING(root, "architecture", &result->architecture) &&
+        JSON_READ_STRING(root, "cpe", &result->cpe) &&
         JSON_READ_UINT64(root, "uptime", &result->uptime);
 
     /* desktop is optional - failure is not fatal */
-- 
2.43.0


From 42cb051ac722936d99da701bababd61b569f156d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:36 +0000
Subject: [PATCH 022/129] fix: operating system: do not report an error for
 ignored optional fields

---
 lib/operating_system.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 429c4cb..4983cde 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -141,9 +141,9 @@ sr_operating_system_from_json(json_object *root, char **error_message)
         JSON_READ_UINT64(root, "uptime", &result->uptime);
 
     /* desktop is optional - failure is not fatal */
-    JSON_READ_STRING(root, "desktop", &result->desktop);
+    json_read_string(root, "desktop", &result->desktop, NULL);
     /* variant is optional - failure is not fatal */
-    JSON_READ_STRING(root, "variant", &result->variant);
+    json_read_string(root, "variant", &result->variant, NULL);
 
     if (!success)
     {
-- 
2.43.0


From 80b1b5ab057ec3e8f249c4278a1c7264e450d0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:38 +0000
Subject: [PATCH 023/129] fix: rpm: report the failure to decode a single
 package

---
 lib/rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 5488d73..60cb91b 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -625,7 +625,7 @@ sr_rpm_package_from_json(struct sr_rpm_package **rpm_package, json_object *json,
     if (!recursive)
     {
         *rpm_package = single_rpm_package_from_json(json, error_message);
-        return 0;
+        return *rpm_package ? 0 : -2;
     }
     else
     {
-- 
2.43.0


From 7ec5bada1f9d07744b3316857cc0a8e994658486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:41 +0000
Subject: [PATCH 024/129] fix: report: free the reporter strings when decoding
 fails

---
 lib/report.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index b62ca3c..24ade27 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -324,6 +324,8 @@ sr_report_from_json(json_object *root, char **error_message)
         return NULL;
 
     bool success;
+    g_autofree char *reporter_name = NULL;
+    g_autofree char *reporter_version = NULL;
     struct sr_report *report = sr_report_new();
 
     /* Report version. */
@@ -337,8 +339,8 @@ sr_report_from_json(json_object *root, char **error_message)
     {
         success =
             json_check_type(reporter, json_type_object, "reporter", error_message) &&
-            JSON_READ_STRING(reporter, "name", &report->reporter_name) &&
-            JSON_READ_STRING(reporter, "version", &report->reporter_version);
+            JSON_READ_STRING(reporter, "name", &reporter_name) &&
+            JSON_READ_STRING(reporter, "version", &reporter_version);
 
         if (!success)
             goto fail;
@@ -449,6 +451,11 @@ sr_report_from_json(json_object *root, char **error_message)
         }
     }
 
+    if (reporter_name)
+        report->reporter_name = g_steal_pointer(&reporter_name);
+    if (reporter_version)
+        report->reporter_version = g_steal_pointer(&reporter_version);
+
     return report;
 
 fail:
-- 
2.43.0


From 17bf42532812139696f2a0990ae601a6091e0f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:41 +0000
Subject: [PATCH 025/129] fix: gdb: do not dereference a missing error message
 when decoding JSON

---
 lib/gdb_stacktrace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_stacktrace.c b/lib/gdb_stacktrace.c
index 3380b67..6aa6314 100644
--- a/lib/gdb_stacktrace.c
+++ b/lib/gdb_stacktrace.c
@@ -48,7 +48,8 @@ gdb_return_null(struct sr_stacktrace *stacktrace)
 static struct sr_gdb_stacktrace *
 gdb_from_json(json_object *root, char **error_message)
 {
-    *error_message = g_strdup("Not implemented");
+    if (error_message)
+        *error_message = g_strdup("Not implemented");
     return NULL;
 }
 
-- 
2.43.0


From c41858386a4d76ed30a60325fc9f8db0a45f87d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:43 +0000
Subject: [PATCH 026/129] fix: js: do not dereference a missing error message
 when decoding JSON

---
 lib/js_platform.c   | 12 ++++++++----
 lib/js_stacktrace.c | 12 ++++++++++--
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/js_platform.c b/lib/js_platform.c
index 4d85182..1ccace8 100644
--- a/lib/js_platform.c
+++ b/lib/js_platform.c
@@ -201,7 +201,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
 
     if (engine_str == NULL)
     {
-        *error_message = g_strdup("No 'engine' member");
+        if (error_message)
+            *error_message = g_strdup("No 'engine' member");
         goto fail;
     }
 
@@ -209,7 +210,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     if (     strcmp(engine_str, "<unknown>") != 0
         && !(engine = sr_js_engine_from_string(engine_str)))
     {
-        *error_message = g_strdup_printf("Unknown JavaScript engine '%s'", engine_str);
+        if (error_message)
+            *error_message = g_strdup_printf("Unknown JavaScript engine '%s'", engine_str);
         goto fail;
     }
 
@@ -218,7 +220,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
 
     if (runtime_str == NULL)
     {
-        *error_message = g_strdup("No 'runtime' member");
+        if (error_message)
+            *error_message = g_strdup("No 'runtime' member");
         goto fail;
     }
 
@@ -226,7 +229,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     if (     strcmp(runtime_str, "<unknown>") != 0
         && !(runtime = sr_js_runtime_from_string(runtime_str)))
     {
-        *error_message = g_strdup_printf("Unknown JavaScript runtime '%s'", runtime_str);
+        if (error_message)
+            *error_message = g_strdup_printf("Unknown JavaScript runtime '%s'", runtime_str);
         goto fail;
     }
 
diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 778e46e..26c5b6a 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -337,9 +337,17 @@ sr_js_stacktrace_from_json(json_object *root, char **error_message)
 
     if (json_object_object_get_ex(root, "platform", &platform))
     {
-        result->platform = sr_js_platform_from_json(platform, error_message);
-        if (*error_message)
+        char *platform_error = NULL;
+
+        result->platform = sr_js_platform_from_json(platform, &platform_error);
+        if (platform_error)
+        {
+            if (error_message)
+                *error_message = platform_error;
+            else
+                g_free(platform_error);
             goto fail;
+        }
     }
 
     return result;
-- 
2.43.0


From 074a1e04e437e76057892d61a495be75be857067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:45 +0000
Subject: [PATCH 027/129] fix: koops: keep the decoded module list terminated
 when decoding fails

---
 lib/koops_stacktrace.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 6fef5b4..5e58041 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -697,6 +697,7 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
 
         size_t allocated = 128;
         result->modules = g_malloc_n(allocated, sizeof(char*));
+        result->modules[0] = NULL;
 
         for (i = 0; i < array_length; i++)
         {
@@ -717,9 +718,8 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
                 result->modules = g_realloc_n(result->modules, allocated, sizeof(char*));
             }
             result->modules[i] = g_strdup(module);
+            result->modules[i + 1] = NULL;
         }
-
-        result->modules[i] = NULL;
     }
 
     /* Frames. */
-- 
2.43.0


From e3d624b24a7b3f240cbc5db7db61b97d48415ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:21 +0000
Subject: [PATCH 028/129] fix: report: encode a report of a known type without
 a stacktrace

---
 lib/report.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index 24ade27..98880c5 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -199,7 +199,8 @@ sr_report_to_json(struct sr_report *report)
     case SR_REPORT_RUBY:
     case SR_REPORT_JAVASCRIPT:
         report_type = sr_report_type_to_string(report->report_type);
-        reason = sr_stacktrace_get_reason(report->stacktrace);
+        reason = report->stacktrace ? sr_stacktrace_get_reason(report->stacktrace)
+                                    : g_strdup("invalid");
         break;
     }
 
-- 
2.43.0


From 077b23167ea8565137ac91cf661dc8fabaa3340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 029/129] fix: report: encode a report with a stacktrace that
 has no JSON form

---
 lib/report.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index 98880c5..20ae003 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -158,7 +158,7 @@ problem_object_string(struct sr_report *report, const char *report_type)
     if (report->stacktrace)
     {
         char *stacktrace = sr_stacktrace_to_json(report->stacktrace);
-        if (0 != strcmp(stacktrace, "{}"))
+        if (stacktrace && 0 != strcmp(stacktrace, "{}"))
         {
             dismantle_object(stacktrace);
             g_string_append(strbuf, stacktrace);
-- 
2.43.0


From 84015df4d3905e1a3fb58f4b857e5f4d5811e9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:11 +0000
Subject: [PATCH 030/129] fix: parse Ruby operator methods containing angle
 brackets

---
 lib/ruby_frame.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index 91e7272..8227e4d 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -298,13 +298,19 @@ sr_ruby_frame_parse(const char **input,
         location->column += len + strlen(" levels) in ");
     }
 
-    if (sr_skip_char(&local_input, '<'))
+    /* Special functions are enclosed in angle brackets: `<main>', `<class:Foo>'.
+     * Operator methods may contain the brackets as well: `<=>', `>>', `<'.
+     */
+    if (local_input[0] == '<' && g_ascii_isalpha(local_input[1]))
     {
+        local_input++;
         location->column++;
         frame->special_function = true;
     }
 
-    if (!sr_parse_char_cspan(&local_input, "'>", &frame->function_name))
+    if (!sr_parse_char_cspan(&local_input,
+                             frame->special_function ? "'>" : "'",
+                             &frame->function_name))
     {
         location->message = g_strdup("Unable to find the \"'\" character "
                                       "delimiting the function name.");
-- 
2.43.0


From efe5ac319adb038a79a79b4f2a0c41663b377552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:42 +0000
Subject: [PATCH 031/129] fix: do not take the line after a Java exception with
 an empty message as its message

---
 lib/java_frame.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index 27dcfd8..9580a42 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -300,8 +300,8 @@ sr_java_frame_parse_exception(const char **input,
         mark = cursor;
 
         /* foo */
-        cursor = sr_skip_whitespace(mark);
-        sr_location_add(location, 0, cursor - mark);
+        /* the message may be empty, do not take the next line instead of it */
+        sr_location_add(location, 0, sr_skip_char_span(&cursor, " \t"));
         mark = cursor;
 
         sr_location_add(location, 0, sr_skip_char_cspan(&cursor, "\n"));
-- 
2.43.0


From af0fd3935ce7040ddbc7803eb9ba53679c5236a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:44 +0000
Subject: [PATCH 032/129] fix: keep the cause of a Java exception that follows
 its suppressed exceptions

---
 lib/java_frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index 9580a42..3164cde 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -339,7 +339,7 @@ sr_java_frame_parse_exception(const char **input,
 
         /* Suppressed exceptions follow after the end of current exception */
         if (strncmp("Suppressed: ", cursor, strlen("Suppressed: ")) == 0)
-            goto current_exception_done;
+            goto skip_suppressed;
 
         /* The top most exception does not have '...' at its end */
         if (strncmp("Caused by: ", cursor, strlen("Caused by: ")) == 0)
@@ -378,6 +378,7 @@ current_exception_done:
 
     if (strncmp("Suppressed: ", cursor, strlen("Suppressed: ")) == 0)
     {
+skip_suppressed:
         /* Skip all lines related to the suppressed exception. We can do
          * this by skipping all lines that begin with a whitespace - the
          * main exception chain always begins without preceding whitespace.
-- 
2.43.0


From 6c05654008c692c4c5e634e6a4516359f90ef5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 033/129] fix: gdb: do not read behind the end of an argument
 list cut after its opening brace

---
 lib/gdb_frame.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index bec28f7..90d7362 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -820,7 +820,7 @@ sr_gdb_frame_skip_function_args(const char **input,
     int depth = 0;
     bool string = false;
     bool escape = false;
-    do
+    while (*local_input)
     {
         /* Sometimes function args would be too long so printer
          * truncates them. See frame #33 in rhbz#803600.
@@ -859,7 +859,6 @@ sr_gdb_frame_skip_function_args(const char **input,
         sr_location_eat_char(location, *local_input);
         ++local_input;
     }
-    while (*local_input);
 
     if (depth != 0 || string || escape)
     {
-- 
2.43.0


From f68c04a49093784399dc8e17b9c5c7536ff767d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:09 +0000
Subject: [PATCH 034/129] fix: gdb: do not read behind the end of a function
 name cut after an operator

---
 lib/gdb_frame.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 90d7362..8a3f04c 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -448,6 +448,10 @@ sr_gdb_frame_parse_function_name_chunk(const char **input,
             }
         }
 
+        /* The operator may be the end of the input. */
+        if (*local_input == '\0')
+            break;
+
         if (strchr(FUNCTION_NAME_CHARS, *local_input) == NULL)
         {
             if (!space_allowed || strchr(" ", *local_input) == NULL)
-- 
2.43.0


From eab24776a8251b70eef94c80ff76fdff0e225bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:12 +0000
Subject: [PATCH 035/129] fix: do not skip the terminating null character as
 one of the allowed characters

---
 lib/utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/utils.c b/lib/utils.c
index 50b22dc..272bdd5 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -260,6 +260,8 @@ sr_skip_char(const char **input, char c)
 bool
 sr_skip_char_limited(const char **input, const char *allowed)
 {
+    if (**input == '\0')
+        return false;
     if (strchr(allowed, **input) == NULL)
         return false;
     ++*input;
-- 
2.43.0


From c6266a4f3d68a32a4e7f3cdbcc9dbcfd39da2a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:15 +0000
Subject: [PATCH 036/129] fix: gdb: do not free a missing second part of the
 function name

---
 lib/gdb_frame.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 8a3f04c..4bdba0e 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -785,7 +785,8 @@ sr_gdb_frame_parse_function_name(const char **input,
         {
             /* Function name MUST be ended by empty space. */
             g_string_free(buf0, TRUE);
-            g_string_free(buf1, TRUE);
+            if (buf1)
+                g_string_free(buf1, TRUE);
             location->message = "Space or newline expected after function name.";
             return false;
         }
-- 
2.43.0


From a6f28fa028d75e6041ec2de0d658289c7ba7bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:17 +0000
Subject: [PATCH 037/129] fix: gdb: do not read behind the end of a shared
 library list without the last newline

---
 lib/gdb_sharedlib.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/gdb_sharedlib.c b/lib/gdb_sharedlib.c
index 2123f3c..e4e83c3 100644
--- a/lib/gdb_sharedlib.c
+++ b/lib/gdb_sharedlib.c
@@ -244,6 +244,9 @@ sr_gdb_sharedlib_parse(const char *input)
         current->soname = g_string_free(buf, FALSE);
 
         /* we are on '\n' character, jump to next line */
+        if (*tmp == '\0')
+            break;
+
         ++tmp;
     }
 
-- 
2.43.0


From 4e528fb6d2f14a641f9efcb83b04dea03a9e2848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:19 +0000
Subject: [PATCH 038/129] fix: python: do not read behind the end of the input
 after the last frame

---
 lib/python_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/python_frame.c b/lib/python_frame.c
index e92387a..5ae0c44 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -236,7 +236,7 @@ sr_python_frame_parse(const char **input,
     {
         /* Skip the error location line */
         sr_skip_char_cspan(&local_input, "\n");
-        ++local_input;
+        sr_skip_char(&local_input, '\n');
         *input = local_input;
     }
 
-- 
2.43.0


From f2832a741e06626b5cfb0fbde9d1c59a0d6990f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:21 +0000
Subject: [PATCH 039/129] fix: python, ruby: do not leak the messages of parse
 failures

---
 lib/internal_utils.h   |  5 +++++
 lib/python_frame.c     | 16 +++++++-------
 lib/ruby_frame.c       | 49 ++++++++++++++++++++++++++----------------
 lib/ruby_stacktrace.c  | 32 +++++++++++++--------------
 python/py_ruby_frame.c |  1 +
 5 files changed, 61 insertions(+), 42 deletions(-)

diff --git a/lib/internal_utils.h b/lib/internal_utils.h
index d22a33c..be10483 100644
--- a/lib/internal_utils.h
+++ b/lib/internal_utils.h
@@ -30,6 +30,11 @@
 #include <stdio.h>
 
 struct sr_location;
+struct sr_ruby_frame;
+
+/* Same as sr_ruby_frame_parse(), but the message in the location is constant. */
+struct sr_ruby_frame *
+ruby_frame_parse(const char **input, struct sr_location *location);
 
 void
 warn(const char *fmt, ...) __sr_printf(1, 2);
diff --git a/lib/python_frame.c b/lib/python_frame.c
index 5ae0c44..b4de900 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -242,7 +242,7 @@ sr_python_frame_parse(const char **input,
 
     if (0 == sr_skip_string(&local_input, "  File \""))
     {
-        location->message = g_strdup_printf("Frame header not found.");
+        location->message = "Frame header not found.";
         return NULL;
     }
 
@@ -252,8 +252,8 @@ sr_python_frame_parse(const char **input,
     /* Parse file name */
     if (!sr_parse_char_cspan(&local_input, "\"", &frame->file_name))
     {
-        location->message = g_strdup_printf("Unable to find the '\"' character "
-                "identifying the beginning of file name.");
+        location->message = "Unable to find the '\"' character "
+                "identifying the beginning of file name.";
 
         goto fail;
     }
@@ -275,7 +275,7 @@ sr_python_frame_parse(const char **input,
 
     if (0 == sr_skip_string(&local_input, "\", line "))
     {
-        location->message = g_strdup_printf("Line separator not found.");
+        location->message = "Line separator not found.";
         goto fail;
     }
 
@@ -285,7 +285,7 @@ sr_python_frame_parse(const char **input,
     int length = sr_parse_uint32(&local_input, &frame->file_line);
     if (0 == length)
     {
-        location->message = g_strdup_printf("Line number not found.");
+        location->message = "Line number not found.";
         goto fail;
     }
 
@@ -295,7 +295,7 @@ sr_python_frame_parse(const char **input,
     {
         if (local_input[0] != '\n')
         {
-            location->message = g_strdup_printf("Function name separator not found.");
+            location->message = "Function name separator not found.";
             goto fail;
         }
 
@@ -313,8 +313,8 @@ sr_python_frame_parse(const char **input,
         /* Parse function name */
         if (!sr_parse_char_cspan(&local_input, "\n", &frame->function_name))
         {
-            location->message = g_strdup_printf("Unable to find the newline character "
-                    "identifying the end of function name.");
+            location->message = "Unable to find the newline character "
+                    "identifying the end of function name.";
 
             goto fail;
         }
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index 8227e4d..c0ef566 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -189,8 +189,8 @@ sr_ruby_frame_append(struct sr_ruby_frame *dest,
 }
 
 struct sr_ruby_frame *
-sr_ruby_frame_parse(const char **input,
-                    struct sr_location *location)
+ruby_frame_parse(const char **input,
+                 struct sr_location *location)
 {
     const char *local_input = *input;
     struct sr_ruby_frame *frame = sr_ruby_frame_new();
@@ -202,8 +202,8 @@ sr_ruby_frame_parse(const char **input,
     char *filename_lineno_in = NULL;
     if (!sr_parse_char_cspan(&local_input, "`", &filename_lineno_in))
     {
-        location->message = g_strdup("Unable to find the '`' character "
-                                      "identifying the beginning of function name.");
+        location->message = "Unable to find the '`' character "
+                                      "identifying the beginning of function name.";
         goto fail;
     }
 
@@ -219,8 +219,8 @@ sr_ruby_frame_parse(const char **input,
     if (p < filename_lineno_in || 0 != strcmp(":in ", p))
     {
         location->column -= strlen(":in ");
-        location->message = g_strdup("Unable to find ':in ' preceding the "
-                                      "backtick character.");
+        location->message = "Unable to find ':in ' preceding the "
+                                      "backtick character.";
         goto fail;
     }
 
@@ -238,7 +238,7 @@ sr_ruby_frame_parse(const char **input,
     int lineno_len = sr_parse_uint32((const char **)&p_copy, &frame->file_line);
     if (lineno_len <= 0)
     {
-        location->message = g_strdup("Unable to find line number before ':in '");
+        location->message = "Unable to find line number before ':in '";
         goto fail;
     }
 
@@ -249,8 +249,8 @@ sr_ruby_frame_parse(const char **input,
     if (p < filename_lineno_in || *p != ':')
     {
         location->column -= lineno_len;
-        location->message = g_strdup("Unable to fin the ':' character "
-                                      "preceding the line number");
+        location->message = "Unable to fin the ':' character "
+                                      "preceding the line number";
         goto fail;
     }
 
@@ -263,8 +263,8 @@ sr_ruby_frame_parse(const char **input,
 
     if(!sr_skip_char(&local_input, '`'))
     {
-        location->message = g_strdup("Unable to find the '`' character "
-                                      "identifying the beginning of function name.");
+        location->message = "Unable to find the '`' character "
+                                      "identifying the beginning of function name.";
         goto fail;
     }
 
@@ -292,7 +292,7 @@ sr_ruby_frame_parse(const char **input,
         int len = sr_parse_uint32(&local_input, &frame->block_level);
         if (len == 0 || !sr_skip_string(&local_input, " levels) in "))
         {
-            location->message = g_strdup("Unable to parse block depth.");
+            location->message = "Unable to parse block depth.";
             goto fail;
         }
         location->column += len + strlen(" levels) in ");
@@ -312,8 +312,8 @@ sr_ruby_frame_parse(const char **input,
                              frame->special_function ? "'>" : "'",
                              &frame->function_name))
     {
-        location->message = g_strdup("Unable to find the \"'\" character "
-                                      "delimiting the function name.");
+        location->message = "Unable to find the \"'\" character "
+                                      "delimiting the function name.";
         goto fail;
     }
     location->column += strlen(frame->function_name);
@@ -322,8 +322,8 @@ sr_ruby_frame_parse(const char **input,
     {
         if (!sr_skip_char(&local_input, '>'))
         {
-            location->message = g_strdup("Unable to find the \">\" character "
-                                          "delimiting the function name.");
+            location->message = "Unable to find the \">\" character "
+                                          "delimiting the function name.";
             goto fail;
         }
         location->column++;
@@ -331,8 +331,8 @@ sr_ruby_frame_parse(const char **input,
 
     if (!sr_skip_char(&local_input, '\''))
     {
-        location->message = g_strdup("Unable to find the \"'\" character "
-                                      "delimiting the function name.");
+        location->message = "Unable to find the \"'\" character "
+                                      "delimiting the function name.";
         goto fail;
     }
     location->column++;
@@ -346,6 +346,19 @@ fail:
     return NULL;
 }
 
+struct sr_ruby_frame *
+sr_ruby_frame_parse(const char **input,
+                    struct sr_location *location)
+{
+    struct sr_ruby_frame *frame = ruby_frame_parse(input, location);
+
+    /* The callers of this function release the message. */
+    if (!frame)
+        location->message = g_strdup(location->message);
+
+    return frame;
+}
+
 char *
 sr_ruby_frame_to_json(struct sr_ruby_frame *frame)
 {
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 28452f1..f79e4f0 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -136,11 +136,11 @@ sr_ruby_stacktrace_parse(const char **input,
     /* /some/thing.rb:13:in `method': exception message (Exception::Class)\n\tfrom ...
      * ^^^^^^^^^^^^^^^^^^^^^^^^^^^^^
      */
-    stacktrace->frames = sr_ruby_frame_parse(&local_input, location);
+    stacktrace->frames = ruby_frame_parse(&local_input, location);
     if (!stacktrace->frames)
     {
-        location->message = g_strdup_printf("Topmost stacktrace frame not found: %s",
-                            location->message ? location->message : "(unknown reason)");
+        if (!location->message)
+            location->message = "Topmost stacktrace frame not found.";
         goto fail;
     }
 
@@ -149,7 +149,7 @@ sr_ruby_stacktrace_parse(const char **input,
      */
     if (!sr_skip_string(&local_input, ": "))
     {
-        location->message = g_strdup("Unable to find the colon after first function name.");
+        location->message = "Unable to find the colon after first function name.";
         goto fail;
     }
     location->column += strlen(": ");
@@ -159,7 +159,7 @@ sr_ruby_stacktrace_parse(const char **input,
      */
     if (!sr_parse_char_cspan(&local_input, "\t", &message_and_class))
     {
-        location->message = g_strdup("Unable to find the exception type and message.");
+        location->message = "Unable to find the exception type and message.";
         goto fail;
     }
 
@@ -173,8 +173,8 @@ sr_ruby_stacktrace_parse(const char **input,
     if (p < message_and_class || *p != '\n')
     {
         location->column--;
-        location->message = g_strdup("Unable to find the new line character after "
-                                      "the end of exception class");
+        location->message = "Unable to find the new line character after "
+                                      "the end of exception class";
         goto fail;
     }
 
@@ -185,8 +185,8 @@ sr_ruby_stacktrace_parse(const char **input,
     if (p < message_and_class || *p != ')')
     {
         location->column -= 2;
-        location->message = g_strdup("Unable to find the ')' character identifying "
-                                      "the end of exception class");
+        location->message = "Unable to find the ')' character identifying "
+                                      "the end of exception class";
         goto fail;
     }
 
@@ -201,8 +201,8 @@ sr_ruby_stacktrace_parse(const char **input,
 
     if (strlen(p) <= 0)
     {
-        location->message = g_strdup("Unable to find the '(' character identifying "
-                                      "the beginning of the exception class");
+        location->message = "Unable to find the '(' character identifying "
+                                      "the beginning of the exception class";
         goto fail;
     }
     stacktrace->exception_name = g_strdup(p);
@@ -213,8 +213,8 @@ sr_ruby_stacktrace_parse(const char **input,
     p--;
     if (p < message_and_class || *p != '(')
     {
-        location->message = g_strdup("Unable to find the '(' character identifying "
-                                      "the beginning of the exception class");
+        location->message = "Unable to find the '(' character identifying "
+                                      "the beginning of the exception class";
         goto fail;
     }
 
@@ -237,12 +237,12 @@ sr_ruby_stacktrace_parse(const char **input,
         int skipped = sr_skip_string(&local_input, "\tfrom ");
         if (!skipped)
         {
-            location->message = g_strdup("Frame header not found.");
+            location->message = "Frame header not found.";
             goto fail;
         }
         location->column += skipped;
 
-        last_frame->next = sr_ruby_frame_parse(&local_input, location);
+        last_frame->next = ruby_frame_parse(&local_input, location);
         if (!last_frame->next)
         {
             /* location->message is already set */
@@ -252,7 +252,7 @@ sr_ruby_stacktrace_parse(const char **input,
         /* Eat newline (except at the end of file). */
         if (!sr_skip_char(&local_input, '\n') && *local_input != '\0')
         {
-            location->message = g_strdup("Expected newline after stacktrace frame.");
+            location->message = "Expected newline after stacktrace frame.";
             goto fail;
         }
         location->column = 0;
diff --git a/python/py_ruby_frame.c b/python/py_ruby_frame.c
index d1a5ca2..8a529ef 100644
--- a/python/py_ruby_frame.c
+++ b/python/py_ruby_frame.c
@@ -141,6 +141,7 @@ sr_py_ruby_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            g_free((void *)location.message);
             return NULL;
         }
     }
-- 
2.43.0


From 675f74667da01da35eff4ff0081f37b62115a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:37 +0000
Subject: [PATCH 040/129] fix: java: release all frames on a parse failure, and
 do not recurse for each cause of an exception

---
 lib/java_frame.c | 51 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index 3164cde..40b55e4 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -272,11 +272,17 @@ sr_java_frame_parse_is_unknown_source(const char *input_mark)
                                     strlen(SR_JF_MARK_UNKNOWN_SOURCE));
 }
 
-struct sr_java_frame *
-sr_java_frame_parse_exception(const char **input,
-                              struct sr_location *location)
+/* Parses one exception with its frames, and skips the suppressed exceptions
+ * following it. Sets inner to true and moves the input to the name of the inner
+ * exception if the exception was caused by another one.
+ */
+static struct sr_java_frame *
+java_frame_parse_one_exception(const char **input,
+                               struct sr_location *location,
+                               bool *inner)
 {
     /* java.lang.NullPointerException: foo */
+    *inner = false;
     const char *cursor = sr_skip_whitespace(*input);
     sr_location_add(location, 0, cursor - *input);
     const char *mark = cursor;
@@ -349,7 +355,7 @@ sr_java_frame_parse_exception(const char **input,
 
         if (parsed == NULL)
         {
-            sr_java_frame_free(exception);
+            sr_java_frame_free_full(exception);
             return NULL;
         }
 
@@ -395,22 +401,43 @@ parse_inner_exception:
         cursor += strlen("Caused by: ");
         sr_location_add(location, 0, strlen("Caused by: "));
 
-        struct sr_java_frame *inner = sr_java_frame_parse_exception(&cursor, location);
-        if (inner == NULL)
+        *inner = true;
+    }
+
+exception_parsing_successful:
+    *input = cursor;
+
+    return exception;
+}
+
+struct sr_java_frame *
+sr_java_frame_parse_exception(const char **input,
+                              struct sr_location *location)
+{
+    const char *cursor = *input;
+    struct sr_java_frame *result = NULL;
+    bool inner;
+
+    /* The innermost exception comes first in the result. */
+    do
+    {
+        struct sr_java_frame *exception =
+            java_frame_parse_one_exception(&cursor, location, &inner);
+
+        if (exception == NULL)
         {
-            sr_java_frame_free(exception);
+            sr_java_frame_free_full(result);
             return NULL;
         }
 
-        struct sr_java_frame *last_inner = sr_java_frame_get_last(inner);
-        last_inner->next = exception;
-        exception = inner;
+        sr_java_frame_get_last(exception)->next = result;
+        result = exception;
     }
+    while (inner);
 
-exception_parsing_successful:
     *input = cursor;
 
-    return exception;
+    return result;
 }
 
 
-- 
2.43.0


From a7f1c88af2909b56510585faca4f4a5d12aead8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:40 +0000
Subject: [PATCH 041/129] fix: koops: do not leak the label of a stack and the
 rest of a split module name

---
 lib/koops_stacktrace.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 5e58041..2b8f574 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -391,6 +391,7 @@ sr_koops_stacktrace_parse(const char **input,
         char *new_alt_stack = parse_alt_stack_start(&local_input);
         if (new_alt_stack)
         {
+            g_free(alt_stack);
             alt_stack = new_alt_stack;
         }
 
@@ -504,6 +505,7 @@ sr_koops_stacktrace_parse_modules(const char **input)
 
                 char *tmp = g_strdup_printf("%s%s", result[result_offset-1], therest);
                 g_free(result[result_offset-1]);
+                g_free(therest);
                 result[result_offset-1] = tmp;
             }
 
-- 
2.43.0


From 6f2dfc4b9b68b47ae90b0725d215dad6414f3f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:57 +0000
Subject: [PATCH 042/129] fix: gdb: limit the nesting of braces and templates
 in a function name

---
 lib/gdb_frame.c | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 4bdba0e..82a412d 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -523,9 +523,21 @@ int sr_gdb_frame_parse_function_name_template_args(const char **input,
     return total_char_count;
 }
 
-int
-sr_gdb_frame_parse_function_name_braces(const char **input, char **target)
+/* The braces and templates in a function name can be nested, but a sane name
+ * has just a few levels. The limit keeps the recursion from exhausting the stack
+ * on an input that is not sane.
+ */
+#define FUNCTION_NAME_MAX_DEPTH 500
+
+static int
+parse_function_name_template(const char **input, char **target, int depth);
+
+static int
+parse_function_name_braces(const char **input, char **target, int depth)
 {
+    if (depth > FUNCTION_NAME_MAX_DEPTH)
+        return 0;
+
     const char *local_input = *input;
     if (!sr_skip_char(&local_input, '('))
         return 0;
@@ -536,8 +548,8 @@ sr_gdb_frame_parse_function_name_braces(const char **input, char **target)
     {
         char *namechunk = NULL;
         if (0 < sr_gdb_frame_parse_function_name_chunk(&local_input, true, &namechunk) ||
-            0 < sr_gdb_frame_parse_function_name_braces(&local_input, &namechunk) ||
-            0 < sr_gdb_frame_parse_function_name_template(&local_input, &namechunk))
+            0 < parse_function_name_braces(&local_input, &namechunk, depth + 1) ||
+            0 < parse_function_name_template(&local_input, &namechunk, depth + 1))
         {
             g_string_append(buf, namechunk);
             g_free(namechunk);
@@ -559,9 +571,12 @@ sr_gdb_frame_parse_function_name_braces(const char **input, char **target)
     return total_char_count;
 }
 
-int
-sr_gdb_frame_parse_function_name_template(const char **input, char **target)
+static int
+parse_function_name_template(const char **input, char **target, int depth)
 {
+    if (depth > FUNCTION_NAME_MAX_DEPTH)
+        return 0;
+
     const char *local_input = *input;
     if (!sr_skip_char(&local_input, '<'))
         return 0;
@@ -582,8 +597,8 @@ sr_gdb_frame_parse_function_name_template(const char **input, char **target)
          */
         if (0 < sr_gdb_frame_parse_function_name_template_args(&local_input, &namechunk) ||
             0 < sr_gdb_frame_parse_function_name_chunk(&local_input, true, &namechunk) ||
-            0 < sr_gdb_frame_parse_function_name_braces(&local_input, &namechunk) ||
-            0 < sr_gdb_frame_parse_function_name_template(&local_input, &namechunk))
+            0 < parse_function_name_braces(&local_input, &namechunk, depth + 1) ||
+            0 < parse_function_name_template(&local_input, &namechunk, depth + 1))
         {
             g_string_append(buf, namechunk);
             g_free(namechunk);
@@ -605,6 +620,18 @@ sr_gdb_frame_parse_function_name_template(const char **input, char **target)
     return total_char_count;
 }
 
+int
+sr_gdb_frame_parse_function_name_braces(const char **input, char **target)
+{
+    return parse_function_name_braces(input, target, 0);
+}
+
+int
+sr_gdb_frame_parse_function_name_template(const char **input, char **target)
+{
+    return parse_function_name_template(input, target, 0);
+}
+
 bool
 sr_gdb_frame_parse_function_name(const char **input,
                                  char **function_name,
-- 
2.43.0


From 5a9fc03948a0057ad599173bc18c2fbf5190833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:58 +0000
Subject: [PATCH 043/129] fix: koops: recognise the end mark of a special stack
 used by Linux 4.9 and newer

---
 lib/koops_stacktrace.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 2b8f574..c7da841 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -298,6 +298,17 @@ parse_alt_stack_end(const char **input)
     const char *local_input = *input;
     sr_skip_char_span(&local_input, " \t");
 
+    /* Since Linux 4.9 the stacks are enclosed in <IRQ> and </IRQ>. */
+    if (sr_skip_string(&local_input, "</"))
+    {
+        if (!sr_skip_char_cspan(&local_input, "> \t\n") ||
+            !sr_skip_char(&local_input, '>'))
+            return false;
+
+        *input = local_input;
+        return true;
+    }
+
     /* Multiple '<' because of "<<EOE>>" */
     if (!sr_skip_char_span(&local_input, "<") ||
         !sr_skip_string(&local_input, "EO") ||
-- 
2.43.0


From bc66d21e8d900c8741dbc3e2ce46268ff4d4fea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:18 +0000
Subject: [PATCH 044/129] fix: js: keep the name of a constructor or of an
 asynchronous function

---
 lib/js_frame.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/js_frame.c b/lib/js_frame.c
index cb2c7cf..eee1132 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -235,7 +235,21 @@ sr_js_frame_parse_v8(const char **input,
          * ------------------^
          */
         const char *name_beg = local_input;
-        columns = sr_skip_char_cspan(&local_input, " \n");
+        columns = 0;
+
+        /* Constructor calls and asynchronous functions are marked:
+         * new Object (foo.js:6:22), async foo (foo.js:6:22)
+         */
+        int mark = sr_skip_string(&local_input, "new ");
+        if (!mark)
+            mark = sr_skip_string(&local_input, "async ");
+
+        if (mark && *local_input == '(')
+            local_input -= mark; /* A function of that name. */
+        else
+            columns = mark;
+
+        columns += sr_skip_char_cspan(&local_input, " \n");
         if (!columns || *local_input != ' ')
         {
             location->message = "White space right behind function name not found.";
-- 
2.43.0


From b8759ccee36524bd5703b44baae690424ee7d94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:16 +0000
Subject: [PATCH 045/129] fix: koops: do not skip the line that follows the RIP
 line

---
 lib/koops_stacktrace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index c7da841..13f77df 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -253,6 +253,10 @@ parse_IP(const char **input)
         frame = sr_koops_frame_parse(&local_input);
         if (!frame)
             return NULL;
+
+        /* The frame includes the end of the line. */
+        *input = local_input;
+        return frame;
     }
     else if(sr_skip_string(&local_input, "EIP:"))
     {
-- 
2.43.0


From 9d9d9e3324bf1ae2f9644f7bb895e6d888d253a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:47 +0000
Subject: [PATCH 046/129] fix: rpm: compare epochs and install times without
 truncation

---
 lib/rpm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 60cb91b..4f5962c 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -77,7 +77,7 @@ sr_rpm_package_cmp(struct sr_rpm_package *package1,
         return nevra;
 
     /* Install time. */
-    int64_t install_time = package1->install_time - package2->install_time;
+    int install_time = SR_CMP(package1->install_time, package2->install_time);
     if (install_time != 0)
         return install_time;
 
@@ -100,7 +100,7 @@ sr_rpm_package_cmp_nevra(struct sr_rpm_package *package1,
         return nvr;
 
     /* Epoch. */
-    int32_t epoch = package1->epoch - package2->epoch;
+    int epoch = SR_CMP(package1->epoch, package2->epoch);
     if (epoch != 0)
         return epoch;
 
-- 
2.43.0


From caa85bfd51cfc1647ea05cf07899ca8058d23d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:50 +0000
Subject: [PATCH 047/129] fix: rpm: sort an empty list of packages

---
 lib/rpm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 4f5962c..15f70a0 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -175,6 +175,9 @@ struct sr_rpm_package *
 sr_rpm_package_sort(struct sr_rpm_package *packages)
 {
     size_t count = sr_rpm_package_count(packages);
+    if (count == 0)
+        return NULL;
+
     struct sr_rpm_package **array = g_malloc_n(count, sizeof(struct sr_rpm_package*));
 
     /* Copy the linked list to an array. */
-- 
2.43.0


From 2912b6bc22528304efb42589725b8f1c1e2b487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:53 +0000
Subject: [PATCH 048/129] fix: rpm: encode an empty list of packages as valid
 JSON

---
 lib/rpm.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 15f70a0..03bbe2f 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -474,11 +474,10 @@ sr_rpm_package_to_json(struct sr_rpm_package *package,
     if (recursive)
     {
         struct sr_rpm_package *p = package;
+        g_string_append(strbuf, "[ ");
         while (p)
         {
-            if (p == package)
-                g_string_append(strbuf, "[ ");
-            else
+            if (p != package)
                 g_string_append(strbuf, ", ");
 
             char *package_json = sr_rpm_package_to_json(p, false);
-- 
2.43.0


From 79ce583c541a0c31d776b6d3be5d9a9e165aa749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:56 +0000
Subject: [PATCH 049/129] fix: rpm: leave nothing behind when the epoch in a
 package name is malformed

---
 lib/rpm.c | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 03bbe2f..1c85913 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -741,38 +741,29 @@ sr_rpm_package_parse_nevra(const char *text,
         return false;
     }
 
-    // Architecture is after the last dot.
-    *architecture = g_strdup(last_dot + 1);
-
-    // Release is after the last dash.
-    *release = g_strndup(last_dash + 1, last_dot - last_dash - 1);
-
     // Epoch is optional.
     if (colon)
     {
-        // Version is before the last dash.
-        *version = g_strndup(colon + 1,
-                              last_dash - colon - 1);
-
         char *epoch_str = g_strndup(last_but_one_dash + 1,
                                      colon - last_but_one_dash - 1);
 
         char *endptr;
         errno = 0;
         unsigned long r = strtoul(epoch_str, &endptr, 10);
+        // strtoul accepts white space and a sign in front of the number.
         bool failure = (errno || epoch_str == endptr || *endptr != '\0'
-                        || r > UINT32_MAX);
+                        || !g_ascii_isdigit(*epoch_str) || r > UINT32_MAX);
+
+        g_free(epoch_str);
 
         if (failure)
-        {
-            g_free(epoch_str);
-            g_free(*release);
-            g_free(*architecture);
             return false;
-        }
 
         *epoch = r;
-        g_free(epoch_str);
+
+        // Version is before the last dash.
+        *version = g_strndup(colon + 1,
+                              last_dash - colon - 1);
     }
     else
     {
@@ -783,6 +774,12 @@ sr_rpm_package_parse_nevra(const char *text,
         *epoch = 0;
     }
 
+    // Architecture is after the last dot.
+    *architecture = g_strdup(last_dot + 1);
+
+    // Release is after the last dash.
+    *release = g_strndup(last_dash + 1, last_dot - last_dash - 1);
+
     // Name is before version.
     *name = g_strndup(text, last_but_one_dash - text);
 
-- 
2.43.0


From 7c959f7d0329b4bcbc1c13c08cf4aea2890ff859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:59 +0000
Subject: [PATCH 050/129] fix: rpm: refuse package names with an empty release
 or architecture

---
 lib/rpm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 1c85913..967651c 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -671,7 +671,7 @@ sr_rpm_package_parse_nvr(const char *text,
     if (!last_dash)
         return false;
 
-    if (0 == strlen(last_dash))
+    if (0 == strlen(last_dash + 1))
         return false;
 
     char *last_but_one_dash = last_dash;
@@ -710,7 +710,7 @@ sr_rpm_package_parse_nevra(const char *text,
                            char **architecture)
 {
     char *last_dot = strrchr(text, '.');
-    if (!last_dot || 0 == strlen(last_dot))
+    if (!last_dot || 0 == strlen(last_dot + 1))
         return false;
 
     char *last_dash = strrchr(text, '-');
-- 
2.43.0


From 132b4e767a9b398808c4ad27e51371684a4d467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:02 +0000
Subject: [PATCH 051/129] fix: rpm: keep the verification results of packages
 merged by uniq

---
 lib/rpm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 967651c..735bc4e 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -236,6 +236,11 @@ package_merge(struct sr_rpm_package *p1, struct sr_rpm_package *p2)
 
     merged->role = (p1->role ? p1->role : p2->role);
 
+    /* p1 and p2 are about to be released */
+    struct sr_rpm_package *source = p1->consistency ? p1 : p2;
+    merged->consistency = source->consistency;
+    source->consistency = NULL;
+
     return merged;
 }
 
-- 
2.43.0


From 8615212f5b2bdd3e306d8e27b665258f41da9501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:03 +0000
Subject: [PATCH 052/129] fix: operating system: do not leak the values of
 repeated os-release keys

---
 lib/operating_system.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 4983cde..f1cc5b9 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -204,12 +204,15 @@ os_release_callback(char *key, char *value, void *data)
 
     if (0 == strcmp(key, "ID"))
     {
+        g_free(operating_system->name);
         operating_system->name = value;
     }
     else if (0 == strcmp(key, "VERSION_ID"))
     {
         if (operating_system->version == NULL)
             operating_system->version = value;
+        else
+            g_free(value);
     }
     /* fedora rawhide workaround */
     else if (0 == strcmp(key, "VERSION") && strstr(value, "(Rawhide)"))
@@ -221,10 +224,12 @@ os_release_callback(char *key, char *value, void *data)
     }
     else if (0 == strcmp(key, "CPE_NAME"))
     {
+        g_free(operating_system->cpe);
         operating_system->cpe = value;
     }
     else if (0 == strcmp(key, "VARIANT_ID"))
     {
+        g_free(operating_system->variant);
         operating_system->variant = value;
     }
     else
-- 
2.43.0


From cd798714bccd1d4801b6ffe87a30bdfffc57b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:06 +0000
Subject: [PATCH 053/129] fix: operating system: leave no name behind when a
 system-release line has none

---
 lib/operating_system.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index f1cc5b9..c149315 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -160,7 +160,7 @@ sr_operating_system_parse_etc_system_release(const char *etc_system_release,
                                              char **version)
 {
     const char *release = strstr(etc_system_release, " release ");
-    if (!release)
+    if (!release || release == etc_system_release)
         return false;
 
     /* Normal form of Red Hat Enterprise Linux's name is "rhel" */
@@ -170,9 +170,6 @@ sr_operating_system_parse_etc_system_release(const char *etc_system_release,
     {
         *name = g_strndup(etc_system_release, release - etc_system_release);
 
-        if (0 == strlen(*name))
-            return false;
-
         /* make the name all lower case */
         char *a = *name;
         while (*a)
-- 
2.43.0


From acf1ef6e644b67a75282b888f6fefffaf6877099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:21 +0000
Subject: [PATCH 054/129] fix: abrt: do not take JavaScript problems for Java
 ones

---
 lib/abrt.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 2ed28d4..9d39630 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -853,6 +853,9 @@ sr_abrt_type_from_type(const char *type)
         return SR_REPORT_PYTHON;
     else if (0 == strncmp(type, "Kerneloops", 10))
         return SR_REPORT_KERNELOOPS;
+    /* Must precede Java. */
+    else if (0 == strncmp(type, "JavaScript", 10))
+        return SR_REPORT_JAVASCRIPT;
     else if (0 == strncmp(type, "Java", 4))
         return SR_REPORT_JAVA;
     else if (0 == strncmp(type, "Ruby", 4))
-- 
2.43.0


From 8bfc2fa80b94ae7bdf801d195fdd47272ca0b215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:23 +0000
Subject: [PATCH 055/129] fix: abrt: do not report an error of an earlier call
 as a malformed count

---
 lib/abrt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 9d39630..09e364d 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -479,6 +479,7 @@ occurrences_from_dir(const char *directory,
 
     char *endptr = NULL;
     bool result = false;
+    errno = 0;
     const long count = strtol(count_contents, &endptr , 10);
 
     /* Check for various possible errors */
-- 
2.43.0


From bc497286bcd351447a00d79455d080153091202f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:25 +0000
Subject: [PATCH 056/129] fix: abrt: find DESKTOP_SESSION behind a variable
 whose name or value contains it

---
 lib/abrt.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 09e364d..40d14c1 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -443,16 +443,13 @@ desktop_from_dir(const char *directory,
     if (!environ_contents)
         return NULL;
 
-    char *desktop = strstr(environ_contents, "DESKTOP_SESSION=");
-    if (!desktop)
-    {
-        g_free(environ_contents);
-        return NULL;
-    }
-
     /* avoid prefixes - DESKTOP_SESSION= must either be
        the very first variable or preceeded by a newline */
-    if (desktop != environ_contents && *(desktop - 1) != '\n')
+    char *desktop = strstr(environ_contents, "DESKTOP_SESSION=");
+    while (desktop && desktop != environ_contents && *(desktop - 1) != '\n')
+        desktop = strstr(desktop + 1, "DESKTOP_SESSION=");
+
+    if (!desktop)
     {
         g_free(environ_contents);
         return NULL;
-- 
2.43.0


From 2edce73f7bcf5878d8c45469d507ae792fa86e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:27 +0000
Subject: [PATCH 057/129] fix: abrt: refuse a package epoch that is not a
 number and do not leak when package data is missing

---
 lib/abrt.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 40d14c1..622c729 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -301,26 +301,33 @@ rpm_pkg_from_dir(struct sr_rpm_package *packages,
     char *epoch_str = file_contents(directory, "pkg_epoch", error_message);
     if (!epoch_str)
     {
+        sr_rpm_package_free(packages, false);
         return NULL;
     }
-    unsigned long epoch = strtoul(epoch_str, NULL, 10);
-    if (epoch == ULONG_MAX)
+
+    strip_newline(epoch_str);
+
+    char *endptr;
+    errno = 0;
+    unsigned long epoch = strtoul(epoch_str, &endptr, 10);
+    // strtoul accepts white space and a sign in front of the number.
+    if (errno || *endptr != '\0' || !g_ascii_isdigit(*epoch_str) ||
+        epoch > UINT32_MAX)
     {
         *error_message = g_strdup_printf("Epoch '%s' is not a number", epoch_str);
+        g_free(epoch_str);
+        sr_rpm_package_free(packages, false);
         return NULL;
     }
     g_free(epoch_str);
 
-
     packages->epoch = (uint32_t)epoch;
-    packages->name = file_contents(directory, "pkg_name", error_message);
-    packages->version = file_contents(directory, "pkg_version", error_message);
-    packages->release = file_contents(directory, "pkg_release", error_message);
-    packages->architecture = file_contents(directory, "pkg_arch", error_message);
     packages->role = SR_ROLE_AFFECTED;
 
-    if (!(packages->name && packages->version && packages->release &&
-          packages->architecture))
+    if (!(packages->name = file_contents(directory, "pkg_name", error_message)) ||
+        !(packages->version = file_contents(directory, "pkg_version", error_message)) ||
+        !(packages->release = file_contents(directory, "pkg_release", error_message)) ||
+        !(packages->architecture = file_contents(directory, "pkg_arch", error_message)))
     {
         sr_rpm_package_free(packages, false);
         return NULL;
-- 
2.43.0


From cd563e94a03950a408f85a924e476cdb0d315c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:29 +0000
Subject: [PATCH 058/129] fix: abrt: accept a list of shared libraries that
 names no package

---
 lib/abrt.c | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 622c729..9cb3d6c 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -343,29 +343,29 @@ rpm_pkg_from_dir(struct sr_rpm_package *packages,
     return packages;
 }
 
-static struct sr_rpm_package *
-rpm_dso_list_from_dir(struct sr_rpm_package *packages,
+static bool
+rpm_dso_list_from_dir(struct sr_rpm_package **packages,
                       const char *directory,
                       char **error_message)
 {
     char *dso_list_contents = file_contents(directory, "dso_list",
                                             error_message);
-    if (dso_list_contents)
-    {
-        struct sr_rpm_package *dso_packages =
-            sr_abrt_parse_dso_list(dso_list_contents);
+    if (!dso_list_contents)
+        return false;
 
-        if (dso_packages)
-        {
-            packages = sr_rpm_package_append(packages, dso_packages);
-            packages = sr_rpm_package_sort(packages);
-            packages = sr_rpm_package_uniq(packages);
-        }
+    struct sr_rpm_package *dso_packages =
+        sr_abrt_parse_dso_list(dso_list_contents);
 
-        g_free(dso_list_contents);
+    /* no package may be listed if the program is not packaged */
+    if (dso_packages)
+    {
+        *packages = sr_rpm_package_append(*packages, dso_packages);
+        *packages = sr_rpm_package_sort(*packages);
+        *packages = sr_rpm_package_uniq(*packages);
     }
 
-    return packages;
+    g_free(dso_list_contents);
+    return true;
 }
 
 static struct sr_rpm_package *
@@ -430,9 +430,12 @@ sr_abrt_rpm_packages_from_dir(const char *directory, struct sr_rpm_package **pac
     /* if dso_list doesn't exist, do not attach it */
     if (file_exist(directory, "dso_list"))
     {
-        *packages = rpm_dso_list_from_dir(*packages, directory, error_message);
-        if (!*packages)
+        if (!rpm_dso_list_from_dir(packages, directory, error_message))
+        {
+            sr_rpm_package_free(*packages, true);
+            *packages = NULL;
             return -2;
+        }
     }
 
     /* attach interpreter as related package if exists */
-- 
2.43.0


From b0b5218c965983d0bcafc219dd2524f26c6d1d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:56 +0000
Subject: [PATCH 059/129] fix: abrt: do not set an error message when only
 optional items are missing, and do not leak it

---
 lib/abrt.c | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 9cb3d6c..527c2b7 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -51,6 +51,17 @@ file_contents(const char *directory, const char *file, char **error_message)
     return contents;
 }
 
+/* A missing item is not an error. */
+static char*
+optional_file_contents(const char *directory, const char *file)
+{
+    char *error_message = NULL;
+    char *contents = file_contents(directory, file, &error_message);
+
+    g_free(error_message);
+    return contents;
+}
+
 bool
 sr_abrt_print_report_from_dir(const char *directory,
                                char **error_message)
@@ -370,11 +381,9 @@ rpm_dso_list_from_dir(struct sr_rpm_package **packages,
 
 static struct sr_rpm_package *
 rpm_interpreter_from_dir(struct sr_rpm_package *packages,
-                         const char *directory,
-                         char **error_message)
+                         const char *directory)
 {
-    char *interpreter_str = file_contents(directory, "interpreter",
-                                          error_message);
+    char *interpreter_str = optional_file_contents(directory, "interpreter");
     if (interpreter_str)
     {
         struct sr_rpm_package *interpreter_package = sr_rpm_package_new();
@@ -440,16 +449,15 @@ sr_abrt_rpm_packages_from_dir(const char *directory, struct sr_rpm_package **pac
 
     /* attach interpreter as related package if exists */
     if (file_exist(directory, "interpreter"))
-        *packages = rpm_interpreter_from_dir(*packages, directory, error_message);
+        *packages = rpm_interpreter_from_dir(*packages, directory);
 
     return 0;
 }
 
 static char *
-desktop_from_dir(const char *directory,
-                    char **error_message)
+desktop_from_dir(const char *directory)
 {
-    char *environ_contents = file_contents(directory, "environ", error_message);
+    char *environ_contents = optional_file_contents(directory, "environ");
     if (!environ_contents)
         return NULL;
 
@@ -524,16 +532,15 @@ finito:
 }
 
 static char *
-get_component(const char *directory,
-              char **error_message)
+get_component(const char *directory)
 {
     if (is_packaged(directory))
-        return file_contents(directory, "component", error_message);
+        return optional_file_contents(directory, "component");
 
     /* create component from executable basename concatenated with '-unpackaged' str */
     if (file_exist(directory, "executable"))
     {
-        char *executable = file_contents(directory, "executable", error_message);
+        char *executable = optional_file_contents(directory, "executable");
         if (executable)
         {
             const char *basename = strrchr(executable, '/');
@@ -559,7 +566,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     bool success = false;
     struct sr_operating_system *os = sr_operating_system_new();
 
-    char *osinfo_contents = file_contents(directory, "os_info", error_message);
+    char *osinfo_contents = optional_file_contents(directory, "os_info");
     if (osinfo_contents)
     {
         success = sr_operating_system_parse_etc_os_release(osinfo_contents, os);
@@ -569,10 +576,14 @@ sr_abrt_operating_system_from_dir(const char *directory,
     /* fall back to os_release if parsing os_info fails */
     if (!success)
     {
-        char *release_contents = file_contents(directory, "os_release",
-                                               error_message);
+        char *release_contents = optional_file_contents(directory, "os_release");
         if (release_contents)
         {
+            /* os_info may have stated one of them */
+            g_free(os->name);
+            g_free(os->version);
+            os->name = os->version = NULL;
+
             success = sr_operating_system_parse_etc_system_release(release_contents,
                                                                    &os->name,
                                                                    &os->version);
@@ -595,7 +606,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     }
 
     /* optional - failure is not fatal */
-    os->desktop = desktop_from_dir(directory, error_message);
+    os->desktop = desktop_from_dir(directory);
 
     return os;
 }
@@ -628,7 +639,7 @@ sr_abrt_report_from_dir(const char *directory,
     }
 
     /* Component name. */
-    report->component_name = get_component(directory, error_message);
+    report->component_name = get_component(directory);
 
     /* RPM packages. */
     if (sr_abrt_rpm_packages_from_dir(directory, &report->rpm_packages, error_message) < 0 )
-- 
2.43.0


From 6322d7b025827404452b823e17cbf2e1abcda916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:59 +0000
Subject: [PATCH 060/129] fix: abrt: do not leak the items read when another
 one is missing

---
 lib/abrt.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 527c2b7..7061859 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -721,6 +721,7 @@ sr_abrt_report_from_dir(const char *directory,
         char *backtrace_contents = file_contents(directory, "backtrace", error_message);
         if (!backtrace_contents)
         {
+            g_free(kernel_contents);
             sr_report_free(report);
             return NULL;
         }
@@ -733,16 +734,18 @@ sr_abrt_report_from_dir(const char *directory,
             &contents_pointer,
             &location);
 
-        stacktrace->version = kernel_contents;
-        report->stacktrace = (struct sr_stacktrace *)stacktrace;
-
         g_free(backtrace_contents);
-        if (!report->stacktrace)
+        if (!stacktrace)
         {
             *error_message = sr_location_to_string(&location);
+            g_free(kernel_contents);
             sr_report_free(report);
             return NULL;
         }
+
+        g_free(stacktrace->version);
+        stacktrace->version = kernel_contents;
+        report->stacktrace = (struct sr_stacktrace *)stacktrace;
     }
 
     /* Java stacktrace. */
@@ -816,6 +819,7 @@ sr_abrt_report_from_dir(const char *directory,
                                                 error_message);
         if (!analyzer_contents)
         {
+            g_free(backtrace_contents);
             sr_report_free(report);
             return NULL;
         }
-- 
2.43.0


From 8b75e07552a8500cc553e9fd6e005f029363b17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:49 +0000
Subject: [PATCH 061/129] fix: abrt: do not drop the last shared library when
 the list does not end with a newline

---
 lib/abrt.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 7061859..4ba3cef 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -257,12 +257,7 @@ sr_abrt_parse_dso_list(const char *text)
         }
 
         // Find the package install time.
-        char *eol = strchr(pos, '\n');
-        if (!eol)
-        {
-            sr_rpm_package_free(dso_package, true);
-            break;
-        }
+        char *eol = strchrnul(pos, '\n');
 
         char *line = g_strndup(pos, eol - pos);
         pos = strrchr(line, ' ');
-- 
2.43.0


From 9183b293a37c71ae8d93a815d56904ecc35be9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:46 +0000
Subject: [PATCH 062/129] fix: unstrip: keep to the line of a module and find
 addresses of modules ending at the end of memory

---
 lib/unstrip.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/unstrip.c b/lib/unstrip.c
index cd81e2b..7dd8587 100644
--- a/lib/unstrip.c
+++ b/lib/unstrip.c
@@ -25,6 +25,16 @@
 #include <ctype.h>
 #include <string.h>
 
+/* Skips whitespace, but stays on the current line. */
+static const char *
+skip_blanks(const char *s)
+{
+    while (*s != '\n' && isspace((unsigned char)*s))
+        ++s;
+
+    return s;
+}
+
 struct sr_unstrip_entry *
 sr_unstrip_parse(const char *unstrip_output)
 {
@@ -39,13 +49,13 @@ sr_unstrip_parse(const char *unstrip_output)
         uint64_t start;
         uint64_t length;
         int chars_read;
-        int ret = sscanf(line, "0x%"PRIx64"+0x%"PRIx64" %n",
+        int ret = sscanf(line, "0x%"PRIx64"+0x%"PRIx64"%n",
                          &start, &length, &chars_read);
 
         if (ret < 2)
             goto eat_line;
 
-        line += chars_read;
+        line = skip_blanks(line + chars_read);
 
         /* BUILDID */
         const char *build_id = line;
@@ -56,17 +66,17 @@ sr_unstrip_parse(const char *unstrip_output)
 
         /* there may be @ADDR after the ID */
         line = sr_skip_non_whitespace(line);
-        line = sr_skip_whitespace(line);
+        line = skip_blanks(line);
 
         /* FILE */
         const char *file_name = line;
         line = sr_skip_non_whitespace(line);
         unsigned file_name_len = line - file_name;
-        line = sr_skip_whitespace(line);
+        line = skip_blanks(line);
 
         /* DEBUGFILE */
         line = sr_skip_non_whitespace(line);
-        line = sr_skip_whitespace(line);
+        line = skip_blanks(line);
 
         /* MODULENAME */
         const char *mod_name = line;
@@ -104,7 +114,7 @@ sr_unstrip_find_address(struct sr_unstrip_entry *entries,
     struct sr_unstrip_entry *loop = entries;
     while (loop)
     {
-        if (loop->start <= address && loop->start + loop->length > address)
+        if (loop->start <= address && address - loop->start < loop->length)
             return loop;
 
         loop = loop->next;
-- 
2.43.0


From 1ac4de0b206a8b0b1f89a08c61b0bb3b3d061a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:48 +0000
Subject: [PATCH 063/129] fix: elves: find addresses of ranges ending at the
 end of memory

---
 lib/elves.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/elves.c b/lib/elves.c
index 45ae61c..b103c75 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -798,7 +798,7 @@ sr_elf_find_fde_for_offset(struct sr_elf_fde *eh_frame,
     while (fde)
     {
         if (build_id_offset >= fde->start_address &&
-            build_id_offset < fde->start_address + fde->length)
+            build_id_offset - fde->start_address < fde->length)
         {
             return fde;
         }
@@ -817,7 +817,7 @@ sr_elf_find_fde_for_address(struct sr_elf_fde *eh_frame,
     while (fde)
     {
         if (address >= fde->start_address + fde->exec_base &&
-            address < fde->start_address + fde->exec_base + fde->length)
+            address - (fde->start_address + fde->exec_base) < fde->length)
         {
             return fde;
         }
-- 
2.43.0


From 1ad802bfedd2398ecd3bab86ec868dab2d34c3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:51 +0000
Subject: [PATCH 064/129] fix: disasm: reserve room for the terminator of the
 callee list

---
 lib/disasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disasm.c b/lib/disasm.c
index e38a91d..87a25e3 100644
--- a/lib/disasm.c
+++ b/lib/disasm.c
@@ -160,7 +160,7 @@ sr_disasm_get_callee_addresses(char **instructions)
     }
 
     /* Create the output array and fill it */
-    uint64_t *result = g_malloc(result_size * sizeof(*result) + 1);
+    uint64_t *result = g_malloc((result_size + 1) * sizeof(*result));
     size_t result_offset = 0;
     instruction_offset = 0;
     while (instructions[instruction_offset])
-- 
2.43.0


From 73c5eac68695c0c202a48f4019a2498df4cf09d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:53 +0000
Subject: [PATCH 065/129] fix: disasm: compare whole mnemonics

---
 lib/disasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disasm.c b/lib/disasm.c
index 87a25e3..a800bc5 100644
--- a/lib/disasm.c
+++ b/lib/disasm.c
@@ -81,7 +81,7 @@ sr_disasm_instruction_is_one_of(char *instruction,
     {
         size_t len = strlen(*mnemonics);
         if (0 == strncmp(instruction, *mnemonics, len) &&
-            (' ' == *(*mnemonics + len) || '\0' == *(*mnemonics + len)))
+            (' ' == instruction[len] || '\0' == instruction[len]))
         {
             return true;
         }
-- 
2.43.0


From bd9d64e2939484f8aa04d9ad03a7e98530fcdcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:56 +0000
Subject: [PATCH 066/129] fix: utils: parse the largest 64-bit number

---
 lib/utils.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index 272bdd5..ba6f213 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -438,8 +438,7 @@ sr_parse_uint64(const char **input, uint64_t *result)
     char *endptr;
     errno = 0;
     unsigned long long result_tmp = strtoull(numstr, &endptr, 10);
-    bool failure = (errno || numstr == endptr || *endptr != '\0'
-                    || result_tmp == UINT64_MAX);
+    bool failure = (errno || numstr == endptr || *endptr != '\0');
     g_free(numstr);
     if (failure) /* number too big or some other error */
         return 0;
-- 
2.43.0


From f806b96d4a125a41878a5c1702868c35dd0fe031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:58 +0000
Subject: [PATCH 067/129] fix: utils: find characters above 127 given as
 unsigned char

---
 lib/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils.c b/lib/utils.c
index ba6f213..45dd7a1 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -99,7 +99,7 @@ sr_strchr_location(const char *s, int c, int *line, int *column)
         sr_location_eat_char_ext(line, column, *s);
         ++s;
     }
-    return ((*s == c) ? (char*)s : NULL);
+    return ((*s == (char)c) ? (char*)s : NULL);
 }
 
 char *
-- 
2.43.0


From e3228a602e54278825572d388981c31fb696ceaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:44 +0000
Subject: [PATCH 068/129] fix: core: initialize the thread id

---
 lib/core_thread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/core_thread.c b/lib/core_thread.c
index 2b6cebb..770c745 100644
--- a/lib/core_thread.c
+++ b/lib/core_thread.c
@@ -66,6 +66,7 @@ sr_core_thread_new()
 void
 sr_core_thread_init(struct sr_core_thread *thread)
 {
+    thread->id = 0;
     thread->frames = NULL;
     thread->next = NULL;
     thread->type = SR_REPORT_CORE;
-- 
2.43.0


From 3d87412af6241994139ae8c8c317c35601c70474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:02 +0000
Subject: [PATCH 069/129] fix: satyr: fail when the output cannot be written

---
 satyr.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/satyr.c b/satyr.c
index 83d3ac1..ba9a314 100644
--- a/satyr.c
+++ b/satyr.c
@@ -399,5 +399,12 @@ main(int argc, char **argv)
         return 1;
     }
 
+    /* The output is buffered, writing it may fail as late as here. */
+    if (fflush(stdout) != 0 || ferror(stdout))
+    {
+        fprintf(stderr, "Unable to write to the standard output.\n");
+        return 1;
+    }
+
     return 0;
 }
-- 
2.43.0


From b88d583de9c20b2700758cdf7ebf7227e0bfec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:02 +0000
Subject: [PATCH 070/129] fix: satyr: abrt-report-dir: fail as nothing is
 reported

---
 satyr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satyr.c b/satyr.c
index ba9a314..19e784b 100644
--- a/satyr.c
+++ b/satyr.c
@@ -105,6 +105,7 @@ static void
 abrt_report_dir(int argc, char **argv)
 {
     fprintf(stderr, "Not implemented.\n");
+    exit(1);
 }
 
 static void
-- 
2.43.0


From 1ef724b24b0050e859f2e817d0e931d278fe92d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:39 +0000
Subject: [PATCH 071/129] fix: bindings: reject values that the C fields cannot
 hold

---
 python/py_common.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/python/py_common.c b/python/py_common.c
index 40129b3..88145a4 100644
--- a/python/py_common.c
+++ b/python/py_common.c
@@ -50,9 +50,15 @@ sr_py_setter_string(PyObject *self, PyObject *rhs, void *data)
 
     struct getset_offsets *gsoff = data;
 
-    const char *newvalue = PyUnicode_AsUTF8(rhs);
+    Py_ssize_t size;
+    const char *newvalue = PyUnicode_AsUTF8AndSize(rhs, &size);
     if (!newvalue)
         return -1;
+    if (strlen(newvalue) != (size_t)size)
+    {
+        PyErr_SetString(PyExc_ValueError, "Embedded null character.");
+        return -1;
+    }
 
     char *str = MEMB_T(char*, MEMB(self, gsoff->c_struct_offset), gsoff->member_offset);
     g_free(str);
@@ -118,9 +124,9 @@ sr_py_setter_uint32(PyObject *self, PyObject *rhs, void *data)
     if (PyErr_Occurred())
         return -1;
 
-    if (newvalue < 0)
+    if (newvalue < 0 || newvalue > UINT32_MAX)
     {
-        PyErr_SetString(PyExc_ValueError, "Value must not be negative.");
+        PyErr_SetString(PyExc_ValueError, "Negative or too large value.");
         return -1;
     }
 
@@ -149,8 +155,10 @@ sr_py_setter_bool(PyObject *self, PyObject *rhs, void *data)
 
     struct getset_offsets *gsoff = data;
 
-    bool newvalue = PyObject_IsTrue(rhs);
-    MEMB_T(bool, MEMB(self, gsoff->c_struct_offset), gsoff->member_offset) = newvalue;
+    int newvalue = PyObject_IsTrue(rhs);
+    if (newvalue < 0)
+        return -1;
+    MEMB_T(bool, MEMB(self, gsoff->c_struct_offset), gsoff->member_offset) = newvalue != 0;
 
     return 0;
 }
@@ -188,7 +196,12 @@ sr_py_setter_uint64(PyObject *self, PyObject *rhs, void *data)
     }
     else
     {
-        newvalue = (uint64_t)PyInt_AsUnsignedLongLongMask(rhs);
+        PyObject *num = PyNumber_Index(rhs);
+        if (!num)
+            return -1;
+
+        newvalue = PyLong_AsUnsignedLongLong(num);
+        Py_DECREF(num);
         if (PyErr_Occurred())
             return -1;
     }
-- 
2.43.0


From 83a56ac47b1947f979a474ca923b7625dced8231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:07 +0000
Subject: [PATCH 072/129] fix: bindings: accept only lists where lists are
 expected

Deleting "frames", "threads", "libs", "packages", "stacktrace" or
"operating_system", or setting one of the lists to something else than a
list, crashed the interpreter at the next use of the object.
---
 python/py_base_stacktrace.c | 10 ++--------
 python/py_base_thread.c     | 10 +++++-----
 python/py_common.c          | 36 ++++++++++++++++++++++++++++++++++++
 python/py_common.h          | 12 ++++++++++++
 python/py_gdb_stacktrace.c  | 12 +++++++++---
 python/py_report.c          | 17 ++++-------------
 6 files changed, 68 insertions(+), 29 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index a2f60ad..fa688ba 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -107,13 +107,6 @@ PyTypeObject sr_py_single_stacktrace_type = {
     NULL,                           /* tp_weaklist */
 };
 
-static PyMemberDef
-multi_members[] =
-{
-    { (char *)"threads", T_OBJECT_EX, offsetof(struct sr_py_multi_stacktrace, threads), 0, (char *)threads_doc },
-    { NULL },
-};
-
 static PyMethodDef
 multi_methods[] =
 {
@@ -126,6 +119,7 @@ multi_methods[] =
 static PyGetSetDef
 multi_getset[] =
 {
+    SR_ATTRIBUTE_LIST(sr_py_multi_stacktrace, threads, threads_doc),
     { (char *)"crash_thread", sr_py_multi_stacktrace_get_crash, sr_py_multi_stacktrace_set_crash, (char *)crash_thread_doc, NULL },
     { NULL },
 };
@@ -159,7 +153,7 @@ PyTypeObject sr_py_multi_stacktrace_type = {
     NULL,                           /* tp_iter */
     NULL,                           /* tp_iternext */
     multi_methods,                  /* tp_methods */
-    multi_members,                  /* tp_members */
+    NULL,                           /* tp_members */
     multi_getset,                   /* tp_getset */
     NULL,                           /* tp_base */
     NULL,                           /* tp_dict */
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index a61348d..ca15dc4 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -54,10 +54,10 @@ thread_methods[] =
     { NULL },
 };
 
-static PyMemberDef
-thread_members[] =
+static PyGetSetDef
+thread_getset[] =
 {
-    { (char *)"frames", T_OBJECT_EX, offsetof(struct sr_py_base_thread, frames), 0, (char *)frames_doc },
+    SR_ATTRIBUTE_LIST(sr_py_base_thread, frames, frames_doc),
     { NULL },
 };
 
@@ -92,8 +92,8 @@ sr_py_base_thread_type =
     NULL,                       /* tp_iter */
     NULL,                       /* tp_iternext */
     thread_methods,             /* tp_methods */
-    thread_members,             /* tp_members */
-    NULL,                       /* tp_getset */
+    NULL,                       /* tp_members */
+    thread_getset,              /* tp_getset */
     NULL,                       /* tp_base */
     NULL,                       /* tp_dict */
     NULL,                       /* tp_descr_get */
diff --git a/python/py_common.c b/python/py_common.c
index 88145a4..999df61 100644
--- a/python/py_common.c
+++ b/python/py_common.c
@@ -211,6 +211,42 @@ sr_py_setter_uint64(PyObject *self, PyObject *rhs, void *data)
     return 0;
 }
 
+PyObject *
+sr_py_getter_object(PyObject *self, void *data)
+{
+    PyObject *value = MEMB_T(PyObject*, self, (size_t)data);
+    Py_INCREF(value);
+    return value;
+}
+
+int
+sr_py_setter_object(PyObject *self, PyObject *rhs, void *data)
+{
+    if (rhs == NULL)
+    {
+        PyErr_SetString(PyExc_TypeError, "Cannot delete this attribute.");
+        return -1;
+    }
+
+    PyObject *old = MEMB_T(PyObject*, self, (size_t)data);
+    Py_INCREF(rhs);
+    MEMB_T(PyObject*, self, (size_t)data) = rhs;
+    Py_DECREF(old);
+    return 0;
+}
+
+int
+sr_py_setter_list(PyObject *self, PyObject *rhs, void *data)
+{
+    if (rhs != NULL && !PyList_Check(rhs))
+    {
+        PyErr_SetString(PyExc_TypeError, "This attribute must be a list.");
+        return -1;
+    }
+
+    return sr_py_setter_object(self, rhs, data);
+}
+
 int
 sr_py_setter_readonly(PyObject *self, PyObject *rhs, void *data)
 {
diff --git a/python/py_common.h b/python/py_common.h
index f8bd726..4f000a8 100644
--- a/python/py_common.h
+++ b/python/py_common.h
@@ -107,6 +107,12 @@ struct getset_offsets
         { (char*)name, sr_py_getter_bool, sr_py_setter_bool, (char*)doc_str, &gsoff_ ## c_member }
 #define SR_ATTRIBUTE_BOOL(c_member, doc_str) SR_ATTRIBUTE_BOOL_R(#c_member, c_member, doc_str)
 
+#define SR_ATTRIBUTE_OBJECT(py_struct, member, doc_str) \
+        { (char*)#member, sr_py_getter_object, sr_py_setter_object, (char*)doc_str, (void*)offsetof(struct py_struct, member) }
+
+#define SR_ATTRIBUTE_LIST(py_struct, member, doc_str) \
+        { (char*)#member, sr_py_getter_object, sr_py_setter_list, (char*)doc_str, (void*)offsetof(struct py_struct, member) }
+
 /*
  * Generic getters/setters that accept a struct getset_offsets as the data
  * argument.
@@ -128,6 +134,12 @@ PyObject *sr_py_getter_uint64(PyObject *self, void *data);
 /* NOTE: when rhs is None, the attribute is set to UINT64_MAX */
 int sr_py_setter_uint64(PyObject *self, PyObject *rhs, void *data);
 
+/* The data argument of these is the offset of the member in the python object. */
+PyObject *sr_py_getter_object(PyObject *self, void *data);
+int sr_py_setter_object(PyObject *self, PyObject *rhs, void *data);
+/* Only accepts lists. */
+int sr_py_setter_list(PyObject *self, PyObject *rhs, void *data);
+
 /* Just throws an exception. */
 int
 sr_py_setter_readonly(PyObject *self, PyObject *rhs, void *data);
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 35d9d65..5ec7d36 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -85,7 +85,13 @@ static PyMemberDef
 gdb_stacktrace_members[] =
 {
     { (char *)"crashframe",  T_OBJECT_EX, offsetof(struct sr_py_gdb_stacktrace, crashframe),  READONLY, b_crashframe_doc  },
-    { (char *)"libs",        T_OBJECT_EX, offsetof(struct sr_py_gdb_stacktrace, libs),        0,        b_libs_doc        },
+    { NULL },
+};
+
+static PyGetSetDef
+gdb_stacktrace_getset[] =
+{
+    SR_ATTRIBUTE_LIST(sr_py_gdb_stacktrace, libs, b_libs_doc),
     { NULL },
 };
 
@@ -118,8 +124,8 @@ PyTypeObject sr_py_gdb_stacktrace_type = {
     NULL,                           /* tp_iter */
     NULL,                           /* tp_iternext */
     gdb_stacktrace_methods,               /* tp_methods */
-    gdb_stacktrace_members,               /* tp_members */
-    NULL,                           /* tp_getset */
+    gdb_stacktrace_members,         /* tp_members */
+    gdb_stacktrace_getset,          /* tp_getset */
     &sr_py_multi_stacktrace_type,   /* tp_base */
     NULL,                           /* tp_dict */
     NULL,                           /* tp_descr_get */
diff --git a/python/py_report.c b/python/py_report.c
index e2286ae..6001029 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -69,22 +69,13 @@ report_getset[] =
     SR_ATTRIBUTE_UINT32(serial,           "Serial number of the report (int)"                                     ),
     { (char*)"report_version", sr_py_report_get_version, sr_py_setter_readonly, (char*)"Version of the report (int)", NULL },
     { (char*)"report_type", sr_py_report_get_type, sr_py_report_set_type, (char*)"Report type (string)", NULL },
+    SR_ATTRIBUTE_OBJECT(sr_py_report, stacktrace, "Problem stacktrace (:class:`SingleThreadStacktrace` or :class:`MultiThreadStacktrace` object)"),
+    SR_ATTRIBUTE_OBJECT(sr_py_report, operating_system, "Operating system (:class:`OperatingSystem` object)"),
+    SR_ATTRIBUTE_LIST(sr_py_report, packages, "List of packages (currently a list of :class:`RpmPackage` objects)"),
     { (char*)"auth",        sr_py_report_get_auth, sr_py_report_set_auth, (char*)auth_doc, NULL               },
     { NULL },
 };
 
-static PyMemberDef
-report_members[] =
-{
-    { (char*)"stacktrace", T_OBJECT_EX, offsetof(struct sr_py_report, stacktrace), 0,
-      (char*)"Problem stacktrace (:class:`SingleThreadStacktrace` or :class:`MultiThreadStacktrace` object)" },
-    { (char*)"operating_system", T_OBJECT_EX, offsetof(struct sr_py_report, operating_system), 0,
-      (char *)"Operating system (:class:`OperatingSystem` object)" },
-    { (char*)"packages", T_OBJECT_EX, offsetof(struct sr_py_report, packages), 0,
-      (char *)"List of packages (currently a list of :class:`RpmPackage` objects)" },
-    { NULL },
-};
-
 static PyMethodDef
 report_methods[] =
 {
@@ -123,7 +114,7 @@ sr_py_report_type =
     NULL,                       /* tp_iter */
     NULL,                       /* tp_iternext */
     report_methods,             /* tp_methods */
-    report_members,             /* tp_members */
+    NULL,                       /* tp_members */
     report_getset,              /* tp_getset */
     NULL,                       /* tp_base */
     NULL,                       /* tp_dict */
-- 
2.43.0


From 1c6e7d4c138c88ee8bbabfaedb2706ef31d84c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:22 +0000
Subject: [PATCH 073/129] fix: bindings: let the C lists follow the Python
 lists

An emptied list was not noticed: the C list kept the items which it had
before, freed by then.  The crash thread of a core stacktrace stayed
remembered even if it had been removed from the list and freed.  The
references were not counted correctly when an item had a wrong type.
---
 python/py_base_stacktrace.c | 40 ++++++++++++++++++++++++-------------
 python/py_base_thread.c     | 18 +++++------------
 python/py_gdb_stacktrace.c  | 18 ++++++-----------
 python/py_metrics.c         | 28 ++++++++++----------------
 python/py_report.c          | 24 +++++-----------------
 5 files changed, 53 insertions(+), 75 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index fa688ba..f9a89a0 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -23,6 +23,8 @@
 
 #include "stacktrace.h"
 #include "thread.h"
+#include "core/stacktrace.h"
+#include "core/thread.h"
 
 #define single_stacktrace_doc "satyr.SingleThreadStacktrace - base class for stacktrace with single thread"
 #define multi_stacktrace_doc "satyr.MultiThreadStacktrace - base class for stacktrace with multiple threads"
@@ -177,7 +179,7 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
 {
     int i;
     PyObject *item;
-    struct sr_py_base_thread *current = NULL, *prev = NULL;
+    struct sr_py_base_thread *current, *prev = NULL;
 
     for (i = 0; i < PyList_Size(stacktrace->threads); ++i)
     {
@@ -185,11 +187,8 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
         if (!item)
             return -1;
 
-        Py_INCREF(item);
         if (!PyObject_TypeCheck(item, stacktrace->thread_type))
         {
-            Py_XDECREF(current);
-            Py_XDECREF(prev);
             PyErr_Format(PyExc_TypeError,
                          "threads must be a list of %s objects",
                          stacktrace->thread_type->tp_name);
@@ -197,25 +196,38 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
         }
 
         /* Note: this line is not present in frames_prepare_linked_list. */
-        current = (struct sr_py_base_thread*)item;
-        if (frames_prepare_linked_list(current) < 0)
+        if (frames_prepare_linked_list((struct sr_py_base_thread*)item) < 0)
             return -1;
+    }
+
+    /* Core stacktrace remembers its crash thread, which is not necessarily in
+     * the list anymore. */
+    struct sr_core_thread *crash_thread = NULL;
+    struct sr_core_stacktrace *core = NULL;
+    if (stacktrace->stacktrace->type == SR_REPORT_CORE)
+    {
+        core = (struct sr_core_stacktrace*)stacktrace->stacktrace;
+        crash_thread = core->crash_thread;
+        core->crash_thread = NULL;
+    }
 
-        if (i == 0)
+    sr_stacktrace_set_threads(stacktrace->stacktrace, NULL);
+
+    for (i = 0; i < PyList_Size(stacktrace->threads); ++i)
+    {
+        current = (struct sr_py_base_thread*)PyList_GetItem(stacktrace->threads, i);
+        if (core && current->thread == (struct sr_thread*)crash_thread)
+            core->crash_thread = crash_thread;
+
+        sr_thread_set_next(current->thread, NULL);
+        if (!prev)
             sr_stacktrace_set_threads(stacktrace->stacktrace, current->thread);
         else
             sr_thread_set_next(prev->thread, current->thread);
 
-        Py_XDECREF(prev);
         prev = current;
     }
 
-    if (current)
-    {
-        sr_thread_set_next(current->thread, NULL);
-        Py_XDECREF(current);
-    }
-
     return 0;
 }
 
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index ca15dc4..d9ee2cb 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -117,7 +117,9 @@ frames_prepare_linked_list(struct sr_py_base_thread *thread)
 {
     int i;
     PyObject *item;
-    struct sr_py_base_frame *current = NULL, *prev = NULL;
+    struct sr_py_base_frame *current, *prev = NULL;
+
+    sr_thread_set_frames(thread->thread, NULL);
 
     for (i = 0; i < PyList_Size(thread->frames); ++i)
     {
@@ -125,33 +127,23 @@ frames_prepare_linked_list(struct sr_py_base_thread *thread)
         if (!item)
             return -1;
 
-        Py_INCREF(item);
-
         if (!PyObject_TypeCheck(item, thread->frame_type))
         {
-            Py_XDECREF(item);
-            Py_XDECREF(prev);
             PyErr_Format(PyExc_TypeError, "frames must be a list of %s objects",
                          thread->frame_type->tp_name);
             return -1;
         }
 
         current = (struct sr_py_base_frame*)item;
-        if (i == 0)
+        sr_frame_set_next(current->frame, NULL);
+        if (!prev)
             sr_thread_set_frames(thread->thread, current->frame);
         else
             sr_frame_set_next(prev->frame, current->frame);
 
-        Py_XDECREF(prev);
         prev = current;
     }
 
-    if (current)
-    {
-        sr_frame_set_next(current->frame, NULL);
-        Py_DECREF(current);
-    }
-
     return 0;
 }
 
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 5ec7d36..e209fcc 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -153,39 +153,33 @@ gdb_prepare_linked_lists(struct sr_py_gdb_stacktrace *stacktrace)
     /* sharedlib */
     int i;
     PyObject *item;
-    struct sr_py_gdb_sharedlib *currentlib = NULL, *prevlib = NULL;
+    struct sr_py_gdb_sharedlib *currentlib, *prevlib = NULL;
+
+    stacktrace->stacktrace->libs = NULL;
+
     for (i = 0; i < PyList_Size(stacktrace->libs); ++i)
     {
         item = PyList_GetItem(stacktrace->libs, i);
         if (!item)
             return -1;
 
-        Py_INCREF(item);
         if (!PyObject_TypeCheck(item, &sr_py_gdb_sharedlib_type))
         {
-            Py_XDECREF(currentlib);
-            Py_XDECREF(prevlib);
             PyErr_SetString(PyExc_TypeError,
                             "libs must be a list of satyr.Sharedlib objects");
             return -1;
         }
 
         currentlib = (struct sr_py_gdb_sharedlib*)item;
-        if (i == 0)
+        currentlib->sharedlib->next = NULL;
+        if (!prevlib)
             stacktrace->stacktrace->libs = currentlib->sharedlib;
         else
             prevlib->sharedlib->next = currentlib->sharedlib;
 
-        Py_XDECREF(prevlib);
         prevlib = currentlib;
     }
 
-    if (currentlib)
-    {
-        currentlib->sharedlib->next = NULL;
-        Py_XDECREF(currentlib);
-    }
-
     return 0;
 }
 
diff --git a/python/py_metrics.c b/python/py_metrics.c
index 5eb09a9..52abc2e 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -354,7 +354,14 @@ parts_prepare_linked_list(PyObject *part_list)
 {
     int i;
     PyObject *item;
-    struct sr_py_distances_part *current = NULL, *prev = NULL;
+    struct sr_py_distances_part *current, *prev = NULL;
+
+    if (PyList_Size(part_list) == 0)
+    {
+        PyErr_SetString(PyExc_ValueError,
+                "argument must not be an empty list");
+        return NULL;
+    }
 
     for (i = 0; i < PyList_Size(part_list); ++i)
     {
@@ -362,35 +369,22 @@ parts_prepare_linked_list(PyObject *part_list)
         if (!item)
             return NULL;
 
-        Py_INCREF(item);
-
         if (!PyObject_TypeCheck(item, &sr_py_distances_part_type))
         {
-            Py_XDECREF(item);
-            Py_XDECREF(prev);
             PyErr_SetString(PyExc_TypeError,
                     "argument must be a list of satyr.DistancePart objects");
             return NULL;
         }
 
         current = (struct sr_py_distances_part*)item;
-        if (i != 0)
+        current->distances_part->next = NULL;
+        if (prev)
             prev->distances_part->next = current->distances_part;
 
-        Py_XDECREF(prev);
         prev = current;
     }
 
-    if (current)
-    {
-        current->distances_part->next = NULL;
-        Py_DECREF(current);
-    }
-
-    if (PyList_Size(part_list) > 0)
-        return ((struct sr_py_distances_part*)PyList_GetItem(part_list, 0))->distances_part;
-    else
-        return NULL;
+    return ((struct sr_py_distances_part*)PyList_GetItem(part_list, 0))->distances_part;
 }
 
 PyObject *
diff --git a/python/py_report.c b/python/py_report.c
index 6001029..2fda9bc 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -160,15 +160,11 @@ rpms_to_python_list(struct sr_rpm_package *rpm)
 int
 rpms_prepare_linked_list(struct sr_py_report *report)
 {
-    if (!PyList_Check(report->packages))
-    {
-        PyErr_SetString(PyExc_TypeError, "Attribute 'packages' is not a list.");
-        return -1;
-    }
-
     int i;
     PyObject *item;
-    struct sr_py_rpm_package *current = NULL, *prev = NULL;
+    struct sr_py_rpm_package *current, *prev = NULL;
+
+    report->report->rpm_packages = NULL;
 
     for (i = 0; i < PyList_Size(report->packages); ++i)
     {
@@ -176,32 +172,22 @@ rpms_prepare_linked_list(struct sr_py_report *report)
         if (!item)
             return -1;
 
-        Py_INCREF(item);
-
         if (!PyObject_TypeCheck(item, &sr_py_rpm_package_type))
         {
-            Py_XDECREF(item);
-            Py_XDECREF(prev);
             PyErr_SetString(PyExc_TypeError, "packages must be a list of RpmPackage objects");
             return -1;
         }
 
         current = (struct sr_py_rpm_package*)item;
-        if (i == 0)
+        current->rpm_package->next = NULL;
+        if (!prev)
             report->report->rpm_packages = current->rpm_package;
         else
             prev->rpm_package->next = current->rpm_package;
 
-        Py_XDECREF(prev);
         prev = current;
     }
 
-    if (current)
-    {
-        current->rpm_package->next = NULL;
-        Py_DECREF(current);
-    }
-
     return 0;
 }
 
-- 
2.43.0


From 01356f284498bc52eda35ae1553f2ee187e10314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 074/129] fix: gdb: set_libnames: a library does not need to
 have a name

---
 lib/gdb_thread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index 60b7c88..8e2b4d6 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -529,7 +529,7 @@ sr_gdb_thread_set_libnames(struct sr_gdb_thread *thread, struct sr_gdb_sharedlib
     {
         struct sr_gdb_sharedlib *lib = sr_gdb_sharedlib_find_address(libs,
                                                                      frame->address);
-        if (lib)
+        if (lib && lib->soname)
         {
             char *s1, *s2;
 
-- 
2.43.0


From c6258b726257ae342eee540bf88735d883064388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 075/129] fix: bindings: format_funs: free the string, follow
 the list of frames

---
 python/py_gdb_thread.c  | 10 +++++++++-
 python/py_java_thread.c | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/python/py_gdb_thread.c b/python/py_gdb_thread.c
index 6201738..1dcc6c1 100644
--- a/python/py_gdb_thread.c
+++ b/python/py_gdb_thread.c
@@ -231,5 +231,13 @@ sr_py_gdb_thread_quality(PyObject *self, PyObject *args)
 PyObject *
 sr_py_gdb_thread_format_funs(PyObject *self, PyObject *args)
 {
-    return Py_BuildValue("s", sr_gdb_thread_format_funs(((struct sr_py_gdb_thread *)self)->thread));
+    struct sr_py_gdb_thread *this = (struct sr_py_gdb_thread *)self;
+    if (frames_prepare_linked_list((struct sr_py_base_thread *)this) < 0)
+        return NULL;
+
+    char *funs = sr_gdb_thread_format_funs(this->thread);
+    PyObject *result = PyString_FromString(funs);
+
+    g_free(funs);
+    return result;
 }
diff --git a/python/py_java_thread.c b/python/py_java_thread.c
index 99d44f7..fb3f5b1 100644
--- a/python/py_java_thread.c
+++ b/python/py_java_thread.c
@@ -222,5 +222,13 @@ sr_py_java_thread_quality(PyObject *self, PyObject *args)
 PyObject *
 sr_py_java_thread_format_funs(PyObject *self, PyObject *args)
 {
-    return Py_BuildValue("s", sr_java_thread_format_funs(((struct sr_py_java_thread *)self)->thread));
+    struct sr_py_java_thread *this = (struct sr_py_java_thread *)self;
+    if (frames_prepare_linked_list((struct sr_py_base_thread *)this) < 0)
+        return NULL;
+
+    char *funs = sr_java_thread_format_funs(this->thread);
+    PyObject *result = PyString_FromString(funs);
+
+    g_free(funs);
+    return result;
 }
-- 
2.43.0


From 497db965e4a1dc36d11a5b875805e98f1b0bf7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:19 +0000
Subject: [PATCH 076/129] fix: bindings: gdb stacktrace: keep the ownership of
 frames and threads

The crash frame was duplicated as if it were a thread, and it was freed
together with the object returned by find_crash_frame.  Cutting the
threads to a depth freed frames which the Python objects owned; a depth
of zero or an empty list of threads was not survived.  find_address
did not accept the upper half of the address space.
---
 python/py_gdb_stacktrace.c | 103 +++++++++++++++++--------------------
 1 file changed, 48 insertions(+), 55 deletions(-)

diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index e209fcc..e491f33 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -237,38 +237,27 @@ sharedlib_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
     return result;
 }
 
-/* XXX Why GDB stacktrace needs this function while other types do not? Is it
- * because the methods here modify the linked lists and other types have no
- * such methods? Shouldn't we do a copy of the linked list *before* we call the
- * C function on it?
+/* Replaces the threads by those of tmp, and frees tmp. The threads must not be
+ * changed in place: the python objects own the frames.
  */
-int
-stacktrace_rebuild_thread_python_list(struct sr_py_gdb_stacktrace *stacktrace)
+static int
+stacktrace_replace_threads(struct sr_py_gdb_stacktrace *stacktrace,
+                           struct sr_gdb_stacktrace *tmp)
 {
-    struct sr_gdb_thread *newlinkedlist = sr_gdb_thread_dup(stacktrace->stacktrace->threads, true);
-    if (!newlinkedlist)
+    PyObject *threads = thread_linked_list_to_python_list(tmp);
+    if (!threads)
+    {
+        sr_gdb_stacktrace_free(tmp);
         return -1;
+    }
 
-    /* the list will decref all of its elements */
-    Py_DECREF(stacktrace->threads);
-
-    stacktrace->stacktrace->threads = newlinkedlist;
-    stacktrace->threads = threads_to_python_list((struct sr_stacktrace *)stacktrace->stacktrace,
-                                                 &sr_py_gdb_thread_type, &sr_py_gdb_frame_type);
-    return 0;
-}
-
-int
-stacktrace_rebuild_sharedlib_python_list(struct sr_py_gdb_stacktrace *stacktrace)
-{
-    struct sr_gdb_sharedlib *newlinkedlist = sr_gdb_sharedlib_dup(stacktrace->stacktrace->libs, true);
-    if (!newlinkedlist)
-        return -1;
+    stacktrace->stacktrace->threads = tmp->threads;
+    tmp->threads = NULL;
+    sr_gdb_stacktrace_free(tmp);
 
     /* the list will decref all of its elements */
-    Py_DECREF(stacktrace->libs);
-    stacktrace->stacktrace->libs = newlinkedlist;
-    stacktrace->libs = sharedlib_linked_list_to_python_list(stacktrace->stacktrace);
+    Py_DECREF(stacktrace->threads);
+    stacktrace->threads = threads;
     return 0;
 }
 
@@ -291,6 +280,7 @@ sr_py_gdb_stacktrace_new(PyTypeObject *object,
 
     bo->thread_type = &sr_py_gdb_thread_type;
     bo->frame_type = &sr_py_gdb_frame_type;
+    Py_INCREF(Py_None);
     bo->crashframe = (struct sr_py_gdb_frame*)Py_None;
     if (str)
     {
@@ -328,6 +318,7 @@ sr_py_gdb_stacktrace_free(PyObject *object)
     /* the list will decref all of its elements */
     Py_DECREF(this->threads);
     Py_DECREF(this->libs);
+    Py_DECREF(this->crashframe);
     this->stacktrace->threads = NULL;
     this->stacktrace->libs = NULL;
     sr_gdb_stacktrace_free(this->stacktrace);
@@ -379,12 +370,15 @@ sr_py_gdb_stacktrace_dup(PyObject *self, PyObject *args)
 
     if (PyObject_TypeCheck(this->crashframe, &sr_py_gdb_frame_type))
     {
-        bo->crashframe = (struct sr_py_gdb_frame*)sr_py_gdb_thread_dup((PyObject*)this->crashframe, PyTuple_New(0));
+        bo->crashframe = (struct sr_py_gdb_frame*)sr_py_gdb_frame_dup((PyObject*)this->crashframe, NULL);
         if (!bo->crashframe)
             return NULL;
     }
     else
+    {
+        Py_INCREF(Py_None);
         bo->crashframe = (struct sr_py_gdb_frame*)Py_None;
+    }
 
     return (PyObject*)bo;
 }
@@ -396,7 +390,6 @@ sr_py_gdb_stacktrace_find_crash_frame(PyObject *self, PyObject *args)
     if (gdb_prepare_linked_lists(this) < 0)
         return NULL;
 
-    /* destroys linked list - need to rebuild python list */
     struct sr_gdb_frame *frame = sr_gdb_stacktrace_get_crash_frame(this->stacktrace);
     if (!frame)
     {
@@ -414,14 +407,11 @@ sr_py_gdb_stacktrace_find_crash_frame(PyObject *self, PyObject *args)
     }
 
     result->frame = frame;
-    this->crashframe = result;
 
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
-    {
-        sr_gdb_frame_free(frame);
-        Py_DECREF(result);
-        return NULL;
-    }
+    /* one reference for the attribute, one for the caller */
+    Py_INCREF(result);
+    Py_DECREF(this->crashframe);
+    this->crashframe = result;
 
     return (PyObject *)result;
 }
@@ -437,9 +427,15 @@ sr_py_gdb_stacktrace_limit_frame_depth(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "i", &depth))
         return NULL;
 
-    /* destroys linked list - need to rebuild python list */
-    sr_gdb_stacktrace_limit_frame_depth(this->stacktrace, depth);
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
+    if (depth <= 0)
+    {
+        PyErr_SetString(PyExc_ValueError, "Depth must be positive.");
+        return NULL;
+    }
+
+    struct sr_gdb_stacktrace *tmp = sr_gdb_stacktrace_dup(this->stacktrace);
+    sr_gdb_stacktrace_limit_frame_depth(tmp, depth);
+    if (stacktrace_replace_threads(this, tmp) < 0)
         return NULL;
 
     Py_RETURN_NONE;
@@ -476,8 +472,17 @@ sr_py_gdb_stacktrace_find_address(PyObject *self, PyObject *args)
     if (gdb_prepare_linked_lists(this) < 0)
         return NULL;
 
-    unsigned long long address;
-    if (!PyArg_ParseTuple(args, "l", &address))
+    PyObject *address_obj;
+    if (!PyArg_ParseTuple(args, "O", &address_obj))
+        return NULL;
+
+    PyObject *num = PyNumber_Index(address_obj);
+    if (!num)
+        return NULL;
+
+    unsigned long long address = PyLong_AsUnsignedLongLong(num);
+    Py_DECREF(num);
+    if (PyErr_Occurred())
         return NULL;
 
     if (address == (unsigned long long) -1)
@@ -511,8 +516,6 @@ sr_py_gdb_stacktrace_set_libnames(PyObject *self, PyObject *args)
 
     /* does not destroy the linked list */
     sr_gdb_stacktrace_set_libnames(this->stacktrace);
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
-        return NULL;
 
     Py_RETURN_NONE;
 }
@@ -524,22 +527,15 @@ sr_py_gdb_stacktrace_normalize(PyObject *self, PyObject *args)
     if (gdb_prepare_linked_lists(this) < 0)
         return NULL;
 
-    /* destroys the linked list and frees some parts */
-    /* need to rebuild python list manually */
     struct sr_gdb_stacktrace *tmp = sr_gdb_stacktrace_dup(this->stacktrace);
     sr_normalize_gdb_stacktrace(tmp);
-    /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
 
-    this->stacktrace->threads = tmp->threads;
+    struct sr_gdb_frame *old_crash = this->stacktrace->crash;
     this->stacktrace->crash = tmp->crash;
     this->stacktrace->crash_tid = tmp->crash_tid;
-    tmp->threads = NULL;
-    tmp->crash = NULL;
-    sr_gdb_stacktrace_free(tmp);
+    tmp->crash = old_crash;
 
-    this->threads = thread_linked_list_to_python_list(this->stacktrace);
-    if (!this->threads)
+    if (stacktrace_replace_threads(this, tmp) < 0)
         return NULL;
 
     Py_RETURN_NONE;
@@ -564,9 +560,6 @@ sr_py_gdb_stacktrace_to_short_text(PyObject *self, PyObject *args)
         return NULL;
     }
 
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
-        return NULL;
-
     PyObject *result = PyString_FromString(text);
 
     g_free(text);
-- 
2.43.0


From cc7794267e1b7f06d1fca5b811c537a10b030553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:04 +0000
Subject: [PATCH 077/129] fix: bindings: do not leak a reference to every list
 item

---
 python/py_base_stacktrace.c  |  1 +
 python/py_base_thread.c      |  1 +
 python/py_cluster.c          |  9 +++++++--
 python/py_gdb_stacktrace.c   |  2 ++
 python/py_koops_stacktrace.c | 14 +++++++++++++-
 python/py_metrics.c          |  2 ++
 python/py_report.c           | 13 +++++++++----
 7 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index f9a89a0..84ce6f6 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -255,6 +255,7 @@ threads_to_python_list(struct sr_stacktrace *stacktrace, PyTypeObject *thread_ty
 
         if (PyList_Append(result, (PyObject*)item) < 0)
             return NULL;
+        Py_DECREF(item);
 
         thread = sr_thread_next(thread);
     }
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index d9ee2cb..3f4eb08 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -170,6 +170,7 @@ frames_to_python_list(struct sr_thread *thread, PyTypeObject *frame_type)
         item->frame = frame;
         if (PyList_Append(result, (PyObject *)item) < 0)
             return NULL;
+        Py_DECREF(item);
 
         frame = sr_frame_next(frame);
     }
diff --git a/python/py_cluster.c b/python/py_cluster.c
index 30cdce1..9ce6444 100644
--- a/python/py_cluster.c
+++ b/python/py_cluster.c
@@ -188,9 +188,14 @@ sr_py_dendrogram_cut(PyObject *self, PyObject *args)
     {
         listc = PyList_New(0);
         for (i = 0; i < cluster->size; i++)
-            PyList_Append(listc, PyInt_FromLong(cluster->objects[i]));
-        PyList_Append(list, listc);
+        {
+            PyObject *object = PyInt_FromLong(cluster->objects[i]);
+            PyList_Append(listc, object);
+            Py_DECREF(object);
+        }
 
+        PyList_Append(list, listc);
+        Py_DECREF(listc);
         cl = cluster;
         cluster = cluster->next;
         sr_cluster_free(cl);
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index e491f33..528d8ed 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -206,6 +206,7 @@ thread_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
 
         if (PyList_Append(result, (PyObject*)item) < 0)
             return NULL;
+        Py_DECREF(item);
 
         thread = thread->next;
     }
@@ -230,6 +231,7 @@ sharedlib_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
         item->sharedlib = sharedlib;
         if (PyList_Append(result, (PyObject *)item) < 0)
             return NULL;
+        Py_DECREF(item);
 
         sharedlib = sharedlib->next;
     }
diff --git a/python/py_koops_stacktrace.c b/python/py_koops_stacktrace.c
index 0faa5a7..803d1a2 100644
--- a/python/py_koops_stacktrace.c
+++ b/python/py_koops_stacktrace.c
@@ -115,7 +115,14 @@ sr_py_koops_stacktrace_get_modules(PyObject *self, void *data)
 
     while(iter && *iter)
     {
-      PyList_Append(result, Py_BuildValue("s", *iter++));
+      PyObject *module = PyString_FromString(*iter++);
+      if (!module || PyList_Append(result, module) < 0)
+      {
+          Py_XDECREF(module);
+          Py_DECREF(result);
+          return NULL;
+      }
+      Py_DECREF(module);
     }
 
     return result;
@@ -133,13 +140,18 @@ sr_py_koops_stacktrace_get_taint_flags(PyObject *self, void *data)
 {
     struct sr_koops_stacktrace *st = ((struct sr_py_koops_stacktrace*)self)->stacktrace;
     PyObject *flags = PyDict_New();
+    if (!flags)
+        return NULL;
 
     struct sr_taint_flag *f;
     for (f = sr_flags; f->letter; f++)
     {
         PyObject *val = MEMB_T(bool, st, f->member_offset) ? Py_True : Py_False;
         if (PyDict_SetItemString(flags, f->name, val) == -1)
+        {
+            Py_DECREF(flags);
             return NULL;
+        }
     }
 
     return flags;
diff --git a/python/py_metrics.c b/python/py_metrics.c
index 52abc2e..0e00a24 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -514,6 +514,7 @@ sr_py_distances_part_reduce(PyObject *self, PyObject *args)
                 Py_XDECREF(dist_list);
                 return NULL;
             }
+            Py_DECREF(f);
         }
     }
     else
@@ -568,6 +569,7 @@ sr_py_distances_part_create(PyObject *self, PyObject *args, PyObject *kwds)
             sr_distances_part_free(it, true);
             return NULL;
         }
+        Py_DECREF(py_part);
     }
 
     return part_list;
diff --git a/python/py_report.c b/python/py_report.c
index 2fda9bc..2ffbca5 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -150,6 +150,7 @@ rpms_to_python_list(struct sr_rpm_package *rpm)
         item->rpm_package = rpm;
         if (PyList_Append(result, (PyObject *)item) < 0)
             return NULL;
+        Py_DECREF(item);
 
         rpm = rpm->next;
     }
@@ -490,14 +491,18 @@ sr_py_report_get_auth(PyObject *self, void *data)
     struct sr_report_custom_entry *ae;
 
     PyObject *auth = PyDict_New();
+    if (!auth)
+        return NULL;
     for (ae = report->auth_entries; ae; ae = ae->next)
     {
         PyObject *val = PyString_FromString(ae->value);
-        if (!val)
-            return NULL;
-
-        if (PyDict_SetItemString(auth, ae->key, val) == -1)
+        if (!val || PyDict_SetItemString(auth, ae->key, val) == -1)
+        {
+            Py_XDECREF(val);
+            Py_DECREF(auth);
             return NULL;
+        }
+        Py_DECREF(val);
     }
 
     return auth;
-- 
2.43.0


From a37db5fe5a4fbf265fb8605b9e41b55801ad01a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:16 +0000
Subject: [PATCH 078/129] fix: bindings: from_json: survive a failure

The base classes cannot be instantiated, which was not expected.  When the
text could not be parsed, the object was left without the C structure and
the error message leaked.
---
 python/py_base_stacktrace.c | 68 +++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 21 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index 84ce6f6..80e8654 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -422,33 +422,45 @@ sr_py_multi_stacktrace_get_crash(PyObject *self, void *unused)
 PyObject *
 sr_py_single_stacktrace_from_json(PyObject *class, PyObject *args)
 {
-    char *json_str, *error_message;
+    char *json_str, *error_message = NULL;
+
     if (!PyArg_ParseTuple(args, "s", &json_str))
         return NULL;
 
     /* Create new stacktrace */
     PyObject *noargs = PyTuple_New(0);
     PyObject *result = PyObject_CallObject(class, noargs);
-    Py_DECREF(noargs);
+    Py_XDECREF(noargs);
+    if (!result)
+        return NULL;
 
-    /* Free the C structure and thread list */
     struct sr_py_base_thread *this = (struct sr_py_base_thread*)result;
     enum sr_report_type type = this->thread->type;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
-    sr_thread_set_frames(this->thread, NULL);
-    sr_thread_free(this->thread);
 
     /* Parse json */
-    this->thread = (struct sr_thread*)
+    struct sr_thread *thread = (struct sr_thread*)
         sr_stacktrace_from_json_text(type, json_str, &error_message);
-
-    if (!this->thread)
+    if (!thread)
     {
         PyErr_SetString(PyExc_ValueError, error_message);
+        g_free(error_message);
+        Py_DECREF(result);
         return NULL;
     }
-    this->frames = frames_to_python_list((struct sr_thread *)this->thread, this->frame_type);
+
+    PyObject *frames = frames_to_python_list(thread, this->frame_type);
+    if (!frames)
+    {
+        Py_DECREF(result);
+        return NULL;
+    }
+
+    /* Replace the C structure and the list of its frames */
+    Py_DECREF(this->frames);
+    this->frames = frames;
+    sr_thread_set_frames(this->thread, NULL);
+    sr_thread_free(this->thread);
+    this->thread = thread;
 
     return result;
 }
@@ -456,31 +468,45 @@ sr_py_single_stacktrace_from_json(PyObject *class, PyObject *args)
 PyObject *
 sr_py_multi_stacktrace_from_json(PyObject *class, PyObject *args)
 {
-    char *json_str, *error_message;
+    char *json_str, *error_message = NULL;
+
     if (!PyArg_ParseTuple(args, "s", &json_str))
         return NULL;
 
     /* Create new stacktrace */
     PyObject *noargs = PyTuple_New(0);
     PyObject *result = PyObject_CallObject(class, noargs);
-    Py_DECREF(noargs);
+    Py_XDECREF(noargs);
+    if (!result)
+        return NULL;
 
-    /* Free the C structure and thread list */
     struct sr_py_multi_stacktrace *this = (struct sr_py_multi_stacktrace*)result;
     enum sr_report_type type = this->stacktrace->type;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
-    sr_stacktrace_set_threads(this->stacktrace, NULL);
-    sr_stacktrace_free(this->stacktrace);
 
     /* Parse json */
-    this->stacktrace = sr_stacktrace_from_json_text(type, json_str, &error_message);
-    if (!this->stacktrace)
+    struct sr_stacktrace *stacktrace = (struct sr_stacktrace*)
+        sr_stacktrace_from_json_text(type, json_str, &error_message);
+    if (!stacktrace)
     {
         PyErr_SetString(PyExc_ValueError, error_message);
+        g_free(error_message);
+        Py_DECREF(result);
         return NULL;
     }
-    this->threads = threads_to_python_list(this->stacktrace, this->thread_type, this->frame_type);
+
+    PyObject *threads = threads_to_python_list(stacktrace, this->thread_type, this->frame_type);
+    if (!threads)
+    {
+        Py_DECREF(result);
+        return NULL;
+    }
+
+    /* Replace the C structure and the list of its threads */
+    Py_DECREF(this->threads);
+    this->threads = threads;
+    sr_stacktrace_set_threads(this->stacktrace, NULL);
+    sr_stacktrace_free(this->stacktrace);
+    this->stacktrace = stacktrace;
 
     return result;
 }
-- 
2.43.0


From d947fa9588e0c798962c4cd227ba443769be01d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:36 +0000
Subject: [PATCH 079/129] fix: thread_cmp: compare threads of every type

sr_thread_cmp() aborted on JavaScript, kerneloops, Python and Ruby
stacktraces.
---
 lib/generic_thread.c    | 24 ++++++++++++++++++++++++
 lib/generic_thread.h    |  4 ++++
 lib/js_stacktrace.c     |  2 +-
 lib/koops_stacktrace.c  |  2 +-
 lib/python_stacktrace.c |  2 +-
 lib/ruby_stacktrace.c   |  2 +-
 6 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/lib/generic_thread.c b/lib/generic_thread.c
index 4d2fc96..58a10e2 100644
--- a/lib/generic_thread.c
+++ b/lib/generic_thread.c
@@ -99,6 +99,30 @@ thread_remove_frames_above(struct sr_thread *thread, struct sr_frame *frame)
     return true;
 }
 
+int
+thread_cmp_frames(struct sr_thread *thread1, struct sr_thread *thread2)
+{
+    struct sr_frame *frame1 = sr_thread_frames(thread1),
+        *frame2 = sr_thread_frames(thread2);
+
+    while (frame1 && frame2)
+    {
+        int frames = sr_frame_cmp(frame1, frame2);
+        if (frames != 0)
+            return frames;
+
+        frame1 = sr_frame_next(frame1);
+        frame2 = sr_frame_next(frame2);
+    }
+
+    if (frame1)
+        return 1;
+    if (frame2)
+        return -1;
+
+    return 0;
+}
+
 struct sr_thread *
 thread_no_next_thread(struct sr_thread *thread)
 {
diff --git a/lib/generic_thread.h b/lib/generic_thread.h
index 93d71ca..cd55bc9 100644
--- a/lib/generic_thread.h
+++ b/lib/generic_thread.h
@@ -83,6 +83,10 @@ thread_remove_frame(struct sr_thread *thread, struct sr_frame *frame);
 bool
 thread_remove_frames_above(struct sr_thread *thread, struct sr_frame *frame);
 
+/* Compares the frames one by one. */
+int
+thread_cmp_frames(struct sr_thread *thread1, struct sr_thread *thread2);
+
 struct sr_thread *
 thread_no_next_thread(struct sr_thread *thread);
 
diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 26c5b6a..ff6a06c 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -46,7 +46,7 @@ struct thread_methods js_thread_methods =
 {
     .frames = (frames_fn_t) js_frames,
     .set_frames = (set_frames_fn_t) js_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 13f77df..bc7c8f9 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -70,7 +70,7 @@ struct thread_methods koops_thread_methods =
 {
     .frames = (frames_fn_t) koops_frames,
     .set_frames = (set_frames_fn_t) koops_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/python_stacktrace.c b/lib/python_stacktrace.c
index 1230030..73119a4 100644
--- a/lib/python_stacktrace.c
+++ b/lib/python_stacktrace.c
@@ -45,7 +45,7 @@ struct thread_methods python_thread_methods =
 {
     .frames = (frames_fn_t) python_frames,
     .set_frames = (set_frames_fn_t) python_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index f79e4f0..3c755dc 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -44,7 +44,7 @@ struct thread_methods ruby_thread_methods =
 {
     .frames = (frames_fn_t) ruby_frames,
     .set_frames = (set_frames_fn_t) ruby_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
-- 
2.43.0


From 53e3f1c41a8cd2a0d4a16fff642b65701b53126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:37 +0000
Subject: [PATCH 080/129] fix: bindings: equals, to_short_text: raise the
 exception which is due

---
 python/py_base_stacktrace.c | 6 ++++++
 python/py_base_thread.c     | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index 80e8654..3ea3498 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -277,7 +277,10 @@ sr_py_single_stacktrace_to_short_text(PyObject *self, PyObject *args)
     char *text =
         sr_stacktrace_to_short_text((struct sr_stacktrace *)this->thread, max_frames);
     if (!text)
+    {
+        PyErr_SetString(PyExc_LookupError, "Crash thread not found");
         return NULL;
+    }
 
     PyObject *result = PyString_FromString(text);
 
@@ -300,7 +303,10 @@ sr_py_multi_stacktrace_to_short_text(PyObject *self, PyObject *args)
     char *text =
         sr_stacktrace_to_short_text((struct sr_stacktrace *)this->stacktrace, max_frames);
     if (!text)
+    {
+        PyErr_SetString(PyExc_LookupError, "Crash thread not found");
         return NULL;
+    }
 
     PyObject *result = PyString_FromString(text);
 
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index 3f4eb08..5dc6f0e 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -206,8 +206,12 @@ sr_py_base_thread_equals(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "O!", &sr_py_base_thread_type, &other))
         return NULL;
 
-    if (sr_py_base_thread_cmp((struct sr_py_base_thread *)self,
-                              (struct sr_py_base_thread *)other) == 0)
+    int cmp = sr_py_base_thread_cmp((struct sr_py_base_thread *)self,
+                                    (struct sr_py_base_thread *)other);
+    if (PyErr_Occurred())
+        return NULL;
+
+    if (cmp == 0)
         Py_RETURN_TRUE;
     else
         Py_RETURN_FALSE;
-- 
2.43.0


From 0ed1c04203d933a2b0ad850bc0d72deefae7041c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:46 +0000
Subject: [PATCH 081/129] fix: bindings: constructors: do not leave half-made
 objects

A failed constructor leaked the object, or the epoch of the package was
random when it was not given.  A kerneloops frame which could not be
parsed became an object which crashed at its first use.
---
 python/py_cluster.c          | 10 +++----
 python/py_gdb_frame.c        | 25 +++++++++-------
 python/py_gdb_stacktrace.c   | 46 +++++++++++++++---------------
 python/py_gdb_thread.c       | 55 +++++++++++++++++-------------------
 python/py_java_frame.c       | 25 +++++++++-------
 python/py_java_thread.c      | 35 ++++++++++++-----------
 python/py_js_frame.c         | 25 +++++++++-------
 python/py_koops_frame.c      | 27 ++++++++++++------
 python/py_operating_system.c | 10 +++----
 python/py_python_frame.c     | 25 +++++++++-------
 python/py_rpm_package.c      | 16 +++++++----
 python/py_ruby_frame.c       | 25 +++++++++-------
 12 files changed, 182 insertions(+), 142 deletions(-)

diff --git a/python/py_cluster.c b/python/py_cluster.c
index 9ce6444..215ff93 100644
--- a/python/py_cluster.c
+++ b/python/py_cluster.c
@@ -88,17 +88,15 @@ sr_py_dendrogram_new(PyTypeObject *object,
                      PyObject *args,
                      PyObject *kwds)
 {
+    struct sr_py_distances *distances;
+    if (!PyArg_ParseTuple(args, "O!", &sr_py_distances_type, &distances))
+        return NULL;
+
     struct sr_py_dendrogram *o = (struct sr_py_dendrogram*)
         PyObject_New(struct sr_py_dendrogram, &sr_py_dendrogram_type);
 
     if (!o)
         return PyErr_NoMemory();
-
-    struct sr_py_distances *distances;
-
-    if (!PyArg_ParseTuple(args, "O!", &sr_py_distances_type, &distances))
-        return NULL;
-
     o->dendrogram = sr_distances_cluster_objects(distances->distances);
 
     return (PyObject*)o;
diff --git a/python/py_gdb_frame.c b/python/py_gdb_frame.c
index 647b509..607c80e 100644
--- a/python/py_gdb_frame.c
+++ b/python/py_gdb_frame.c
@@ -176,30 +176,35 @@ sr_py_gdb_frame_type =
 PyObject *
 sr_py_gdb_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
-    struct sr_py_gdb_frame *fo = (struct sr_py_gdb_frame*)
-        PyObject_New(struct sr_py_gdb_frame, &sr_py_gdb_frame_type);
-
-    if (!fo)
-        return PyErr_NoMemory();
-
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
         return NULL;
 
+    struct sr_gdb_frame *frame;
     if (str)
     {
         struct sr_location location;
         sr_location_init(&location);
-        fo->frame = sr_gdb_frame_parse(&str, &location);
-
-        if (!fo->frame)
+        frame = sr_gdb_frame_parse(&str, &location);
+        if (!frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
             return NULL;
         }
     }
     else
-        fo->frame = sr_gdb_frame_new();
+        frame = sr_gdb_frame_new();
+
+    struct sr_py_gdb_frame *fo = (struct sr_py_gdb_frame*)
+        PyObject_New(struct sr_py_gdb_frame, &sr_py_gdb_frame_type);
+
+    if (!fo)
+    {
+        sr_gdb_frame_free(frame);
+        return PyErr_NoMemory();
+    }
+
+    fo->frame = frame;
 
     return (PyObject*)fo;
 }
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 528d8ed..f94b0a3 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -269,46 +269,48 @@ sr_py_gdb_stacktrace_new(PyTypeObject *object,
                           PyObject *args,
                           PyObject *kwds)
 {
-    struct sr_py_gdb_stacktrace *bo = (struct sr_py_gdb_stacktrace*)
-        PyObject_New(struct sr_py_gdb_stacktrace,
-                     &sr_py_gdb_stacktrace_type);
-
-    if (!bo)
-        return PyErr_NoMemory();
-
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
         return NULL;
 
-    bo->thread_type = &sr_py_gdb_thread_type;
-    bo->frame_type = &sr_py_gdb_frame_type;
-    Py_INCREF(Py_None);
-    bo->crashframe = (struct sr_py_gdb_frame*)Py_None;
+    struct sr_gdb_stacktrace *stacktrace;
     if (str)
     {
         /* ToDo parse */
         struct sr_location location;
         sr_location_init(&location);
-        bo->stacktrace = sr_gdb_stacktrace_parse(&str, &location);
-        if (!bo->stacktrace)
+        stacktrace = sr_gdb_stacktrace_parse(&str, &location);
+        if (!stacktrace)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
             return NULL;
         }
-        bo->threads = thread_linked_list_to_python_list(bo->stacktrace);
-        if (!bo->threads)
-            return NULL;
-        bo->libs = sharedlib_linked_list_to_python_list(bo->stacktrace);
-        if (!bo->libs)
-            return NULL;
     }
     else
+        stacktrace = sr_gdb_stacktrace_new();
+
+    struct sr_py_gdb_stacktrace *bo = (struct sr_py_gdb_stacktrace*)
+        PyObject_New(struct sr_py_gdb_stacktrace,
+                     &sr_py_gdb_stacktrace_type);
+
+    if (!bo)
     {
-        bo->threads = PyList_New(0);
-        bo->stacktrace = sr_gdb_stacktrace_new();
-        bo->libs = PyList_New(0);
+        sr_gdb_stacktrace_free(stacktrace);
+        return PyErr_NoMemory();
     }
 
+    bo->thread_type = &sr_py_gdb_thread_type;
+    bo->frame_type = &sr_py_gdb_frame_type;
+    bo->stacktrace = stacktrace;
+    Py_INCREF(Py_None);
+    bo->crashframe = (struct sr_py_gdb_frame*)Py_None;
+    bo->threads = thread_linked_list_to_python_list(bo->stacktrace);
+    if (!bo->threads)
+        return NULL;
+    bo->libs = sharedlib_linked_list_to_python_list(bo->stacktrace);
+    if (!bo->libs)
+        return NULL;
+
     return (PyObject *)bo;
 }
 
diff --git a/python/py_gdb_thread.c b/python/py_gdb_thread.c
index 1dcc6c1..594b826 100644
--- a/python/py_gdb_thread.c
+++ b/python/py_gdb_thread.c
@@ -109,48 +109,45 @@ PyTypeObject sr_py_gdb_thread_type =
 PyObject *
 sr_py_gdb_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
-    struct sr_py_gdb_thread *to = (struct sr_py_gdb_thread*)
-        PyObject_New(struct sr_py_gdb_thread,
-                     &sr_py_gdb_thread_type);
-
-    if (!to)
-        return PyErr_NoMemory();
-
-    to->frame_type = &sr_py_gdb_frame_type;
-
     const char *str = NULL;
     int only_funs = 0;
     if (!PyArg_ParseTuple(args, "|si", &str, &only_funs))
         return NULL;
 
-    if (str)
+    struct sr_gdb_thread *thread;
+    if (str && only_funs)
+        thread = sr_gdb_thread_parse_funs(str);
+    else if (str)
     {
-        if (!only_funs)
-        {
-            struct sr_location location;
-            sr_location_init(&location);
-            to->thread = sr_gdb_thread_parse(&str, &location);
-            if (!to->thread)
-            {
-                PyErr_SetString(PyExc_ValueError, location.message);
-                return NULL;
-            }
-        }
-        else
+        struct sr_location location;
+        sr_location_init(&location);
+        thread = sr_gdb_thread_parse(&str, &location);
+        if (!thread)
         {
-            to->thread = sr_gdb_thread_parse_funs(str);
-        }
-        to->frames = frames_to_python_list((struct sr_thread*)to->thread,
-                                           to->frame_type);
-        if (!to->frames)
+            PyErr_SetString(PyExc_ValueError, location.message);
             return NULL;
+        }
     }
     else
+        thread = sr_gdb_thread_new();
+
+    struct sr_py_gdb_thread *to = (struct sr_py_gdb_thread*)
+        PyObject_New(struct sr_py_gdb_thread,
+                     &sr_py_gdb_thread_type);
+
+    if (!to)
     {
-        to->frames = PyList_New(0);
-        to->thread = sr_gdb_thread_new();
+        sr_gdb_thread_free(thread);
+        return PyErr_NoMemory();
     }
 
+    to->frame_type = &sr_py_gdb_frame_type;
+    to->thread = thread;
+    to->frames = frames_to_python_list((struct sr_thread*)to->thread,
+                                       to->frame_type);
+    if (!to->frames)
+        return NULL;
+
     return (PyObject *)to;
 }
 
diff --git a/python/py_java_frame.c b/python/py_java_frame.c
index 271d937..e4f18d6 100644
--- a/python/py_java_frame.c
+++ b/python/py_java_frame.c
@@ -125,30 +125,35 @@ sr_py_java_frame_type =
 PyObject *
 sr_py_java_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
-    struct sr_py_java_frame *fo = (struct sr_py_java_frame*)
-        PyObject_New(struct sr_py_java_frame, &sr_py_java_frame_type);
-
-    if (!fo)
-        return PyErr_NoMemory();
-
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
         return NULL;
 
+    struct sr_java_frame *frame;
     if (str)
     {
         struct sr_location location;
         sr_location_init(&location);
-        fo->frame = sr_java_frame_parse(&str, &location);
-
-        if (!fo->frame)
+        frame = sr_java_frame_parse(&str, &location);
+        if (!frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
             return NULL;
         }
     }
     else
-        fo->frame = sr_java_frame_new();
+        frame = sr_java_frame_new();
+
+    struct sr_py_java_frame *fo = (struct sr_py_java_frame*)
+        PyObject_New(struct sr_py_java_frame, &sr_py_java_frame_type);
+
+    if (!fo)
+    {
+        sr_java_frame_free(frame);
+        return PyErr_NoMemory();
+    }
+
+    fo->frame = frame;
 
     return (PyObject*)fo;
 }
diff --git a/python/py_java_thread.c b/python/py_java_thread.c
index fb3f5b1..65f1274 100644
--- a/python/py_java_thread.c
+++ b/python/py_java_thread.c
@@ -109,39 +109,42 @@ PyTypeObject sr_py_java_thread_type =
 PyObject *
 sr_py_java_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
-    struct sr_py_java_thread *to = (struct sr_py_java_thread*)
-        PyObject_New(struct sr_py_java_thread,
-                     &sr_py_java_thread_type);
-
-    if (!to)
-        return PyErr_NoMemory();
-
-    to->frame_type = &sr_py_java_frame_type;
-
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
         return NULL;
 
+    struct sr_java_thread *thread;
     if (str)
     {
         struct sr_location location;
         sr_location_init(&location);
-        to->thread = sr_java_thread_parse(&str, &location);
-        if (!to->thread)
+        thread = sr_java_thread_parse(&str, &location);
+        if (!thread)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
             return NULL;
         }
-        to->frames = frames_to_python_list((struct sr_thread *)to->thread, to->frame_type);
-        if (!to->frames)
-            return NULL;
     }
     else
+        thread = sr_java_thread_new();
+
+    struct sr_py_java_thread *to = (struct sr_py_java_thread*)
+        PyObject_New(struct sr_py_java_thread,
+                     &sr_py_java_thread_type);
+
+    if (!to)
     {
-        to->frames = PyList_New(0);
-        to->thread = sr_java_thread_new();
+        sr_java_thread_free(thread);
+        return PyErr_NoMemory();
     }
 
+    to->frame_type = &sr_py_java_frame_type;
+    to->thread = thread;
+    to->frames = frames_to_python_list((struct sr_thread*)to->thread,
+                                       to->frame_type);
+    if (!to->frames)
+        return NULL;
+
     return (PyObject *)to;
 }
 
diff --git a/python/py_js_frame.c b/python/py_js_frame.c
index bb1534b..56f29a4 100644
--- a/python/py_js_frame.c
+++ b/python/py_js_frame.c
@@ -118,30 +118,35 @@ sr_py_js_frame_type =
 PyObject *
 sr_py_js_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
-    struct sr_py_js_frame *fo = (struct sr_py_js_frame*)
-        PyObject_New(struct sr_py_js_frame, &sr_py_js_frame_type);
-
-    if (!fo)
-        return PyErr_NoMemory();
-
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
         return NULL;
 
+    struct sr_js_frame *frame;
     if (str)
     {
         struct sr_location location;
         sr_location_init(&location);
-        fo->frame = sr_js_frame_parse(&str, &location);
-
-        if (!fo->frame)
+        frame = sr_js_frame_parse(&str, &location);
+        if (!frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
             return NULL;
         }
     }
     else
-        fo->frame = sr_js_frame_new();
+        frame = sr_js_frame_new();
+
+    struct sr_py_js_frame *fo = (struct sr_py_js_frame*)
+        PyObject_New(struct sr_py_js_frame, &sr_py_js_frame_type);
+
+    if (!fo)
+    {
+        sr_js_frame_free(frame);
+        return PyErr_NoMemory();
+    }
+
+    fo->frame = frame;
 
     return (PyObject*)fo;
 }
diff --git a/python/py_koops_frame.c b/python/py_koops_frame.c
index b564f9f..453fc14 100644
--- a/python/py_koops_frame.c
+++ b/python/py_koops_frame.c
@@ -137,22 +137,33 @@ sr_py_koops_frame_type =
 PyObject *
 sr_py_koops_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
-    struct sr_py_koops_frame *fo = (struct sr_py_koops_frame*)
-        PyObject_New(struct sr_py_koops_frame, &sr_py_koops_frame_type);
-
-    if (!fo)
-        return PyErr_NoMemory();
-
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
         return NULL;
 
+    struct sr_koops_frame *frame;
     if (str)
     {
-        fo->frame = sr_koops_frame_parse(&str);
+        frame = sr_koops_frame_parse(&str);
+        if (!frame)
+        {
+            PyErr_SetString(PyExc_ValueError, "Failed to parse the frame.");
+            return NULL;
+        }
     }
     else
-        fo->frame = sr_koops_frame_new();
+        frame = sr_koops_frame_new();
+
+    struct sr_py_koops_frame *fo = (struct sr_py_koops_frame*)
+        PyObject_New(struct sr_py_koops_frame, &sr_py_koops_frame_type);
+
+    if (!fo)
+    {
+        sr_koops_frame_free(frame);
+        return PyErr_NoMemory();
+    }
+
+    fo->frame = frame;
 
     return (PyObject*)fo;
 }
diff --git a/python/py_operating_system.c b/python/py_operating_system.c
index 9a9981c..97daf74 100644
--- a/python/py_operating_system.c
+++ b/python/py_operating_system.c
@@ -101,6 +101,11 @@ sr_py_operating_system_type =
 PyObject *
 sr_py_operating_system_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
+    const char *name = NULL, *version = NULL, *arch = NULL;
+
+    if (!PyArg_ParseTuple(args, "|sss", &name, &version, &arch))
+        return NULL;
+
     struct sr_py_operating_system *os =
         PyObject_New(struct sr_py_operating_system, &sr_py_operating_system_type);
 
@@ -108,11 +113,6 @@ sr_py_operating_system_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         return PyErr_NoMemory();
 
     os->operating_system = sr_operating_system_new();
-
-    const char *name = NULL, *version = NULL, *arch = NULL;
-    if (!PyArg_ParseTuple(args, "|sss", &name, &version, &arch))
-        return NULL;
-
     if (name)
         os->operating_system->name = g_strdup(name);
 
diff --git a/python/py_python_frame.c b/python/py_python_frame.c
index 15a3353..6fa8807 100644
--- a/python/py_python_frame.c
+++ b/python/py_python_frame.c
@@ -122,30 +122,35 @@ sr_py_python_frame_type =
 PyObject *
 sr_py_python_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
-    struct sr_py_python_frame *fo = (struct sr_py_python_frame*)
-        PyObject_New(struct sr_py_python_frame, &sr_py_python_frame_type);
-
-    if (!fo)
-        return PyErr_NoMemory();
-
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
         return NULL;
 
+    struct sr_python_frame *frame;
     if (str)
     {
         struct sr_location location;
         sr_location_init(&location);
-        fo->frame = sr_python_frame_parse(&str, &location);
-
-        if (!fo->frame)
+        frame = sr_python_frame_parse(&str, &location);
+        if (!frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
             return NULL;
         }
     }
     else
-        fo->frame = sr_python_frame_new();
+        frame = sr_python_frame_new();
+
+    struct sr_py_python_frame *fo = (struct sr_py_python_frame*)
+        PyObject_New(struct sr_py_python_frame, &sr_py_python_frame_type);
+
+    if (!fo)
+    {
+        sr_python_frame_free(frame);
+        return PyErr_NoMemory();
+    }
+
+    fo->frame = frame;
 
     return (PyObject*)fo;
 }
diff --git a/python/py_rpm_package.c b/python/py_rpm_package.c
index 3bd907a..140b37f 100644
--- a/python/py_rpm_package.c
+++ b/python/py_rpm_package.c
@@ -114,6 +114,12 @@ sr_py_rpm_package_type =
 PyObject *
 sr_py_rpm_package_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
+    PyObject *epoch_obj = NULL;
+    const char *name = NULL, *version = NULL, *rel = NULL, *arch = NULL;
+
+    if (!PyArg_ParseTuple(args, "|sOsss", &name, &epoch_obj, &version, &rel, &arch))
+        return NULL;
+
     struct sr_py_rpm_package *rpm =
         PyObject_New(struct sr_py_rpm_package, &sr_py_rpm_package_type);
 
@@ -122,11 +128,11 @@ sr_py_rpm_package_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     rpm->rpm_package = sr_rpm_package_new();
 
-    unsigned int epoch;
-    const char *name = NULL, *version = NULL, *rel = NULL, *arch = NULL;
-    if (!PyArg_ParseTuple(args, "|sIsss", &name, &epoch, &version, &rel, &arch))
+    if (epoch_obj && sr_py_setter_uint32((PyObject*)rpm, epoch_obj, &gsoff_epoch) < 0)
+    {
+        Py_DECREF(rpm);
         return NULL;
-
+    }
     if (name)
         rpm->rpm_package->name = g_strdup(name);
 
@@ -139,8 +145,6 @@ sr_py_rpm_package_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     if (arch)
         rpm->rpm_package->architecture = g_strdup(arch);
 
-    rpm->rpm_package->epoch = (uint32_t)epoch;
-
     return (PyObject*)rpm;
 }
 
diff --git a/python/py_ruby_frame.c b/python/py_ruby_frame.c
index 8a529ef..890d625 100644
--- a/python/py_ruby_frame.c
+++ b/python/py_ruby_frame.c
@@ -122,23 +122,17 @@ sr_py_ruby_frame_type =
 PyObject *
 sr_py_ruby_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
-    struct sr_py_ruby_frame *fo = (struct sr_py_ruby_frame*)
-        PyObject_New(struct sr_py_ruby_frame, &sr_py_ruby_frame_type);
-
-    if (!fo)
-        return PyErr_NoMemory();
-
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
         return NULL;
 
+    struct sr_ruby_frame *frame;
     if (str)
     {
         struct sr_location location;
         sr_location_init(&location);
-        fo->frame = sr_ruby_frame_parse(&str, &location);
-
-        if (!fo->frame)
+        frame = sr_ruby_frame_parse(&str, &location);
+        if (!frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
             g_free((void *)location.message);
@@ -146,7 +140,18 @@ sr_py_ruby_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         }
     }
     else
-        fo->frame = sr_ruby_frame_new();
+        frame = sr_ruby_frame_new();
+
+    struct sr_py_ruby_frame *fo = (struct sr_py_ruby_frame*)
+        PyObject_New(struct sr_py_ruby_frame, &sr_py_ruby_frame_type);
+
+    if (!fo)
+    {
+        sr_ruby_frame_free(frame);
+        return PyErr_NoMemory();
+    }
+
+    fo->frame = frame;
 
     return (PyObject*)fo;
 }
-- 
2.43.0


From a92f79cb754164bfbc78efd018cb29cde833928d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 082/129] fix: bindings: str: unsigned lines, exceptions
 without a name

---
 python/py_java_frame.c   | 6 ++++--
 python/py_js_frame.c     | 3 ++-
 python/py_python_frame.c | 3 ++-
 python/py_ruby_frame.c   | 5 +++--
 4 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/python/py_java_frame.c b/python/py_java_frame.c
index e4f18d6..ce31cee 100644
--- a/python/py_java_frame.c
+++ b/python/py_java_frame.c
@@ -17,6 +17,7 @@
     with this program; if not, write to the Free Software Foundation, Inc.,
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
+#include <inttypes.h>
 #include "py_common.h"
 #include "py_base_frame.h"
 #include "py_java_frame.h"
@@ -176,7 +177,8 @@ sr_py_java_frame_str(PyObject *self)
 
     if (this->frame->is_exception)
     {
-        g_string_append(buf, this->frame->name);
+        if (this->frame->name)
+            g_string_append(buf, this->frame->name);
         if (this->frame->message)
             g_string_append_printf(buf, ": %s", this->frame->message);
     }
@@ -190,7 +192,7 @@ sr_py_java_frame_str(PyObject *self)
             g_string_append_printf(buf, "(%s", this->frame->file_name);
 
         if (this->frame->file_line)
-            g_string_append_printf(buf, ":%d", this->frame->file_line);
+            g_string_append_printf(buf, ":%"PRIu32, this->frame->file_line);
 
         if (this->frame->is_native)
             g_string_append(buf, "(Native Method");
diff --git a/python/py_js_frame.c b/python/py_js_frame.c
index 56f29a4..152ba08 100644
--- a/python/py_js_frame.c
+++ b/python/py_js_frame.c
@@ -17,6 +17,7 @@
     with this program; if not, write to the Free Software Foundation, Inc.,
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
+#include <inttypes.h>
 #include "py_common.h"
 #include "py_base_frame.h"
 #include "py_js_frame.h"
@@ -183,7 +184,7 @@ sr_py_js_frame_str(PyObject *self)
         g_string_append(buf, "<unknown>");
     }
 
-    g_string_append_printf(buf, ":%d:%d", this->frame->file_line, this->frame->line_column);
+    g_string_append_printf(buf, ":%"PRIu32":%"PRIu32, this->frame->file_line, this->frame->line_column);
 
     if (this->frame->function_name)
     {
diff --git a/python/py_python_frame.c b/python/py_python_frame.c
index 6fa8807..a0341c0 100644
--- a/python/py_python_frame.c
+++ b/python/py_python_frame.c
@@ -17,6 +17,7 @@
     with this program; if not, write to the Free Software Foundation, Inc.,
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
+#include <inttypes.h>
 #include "py_common.h"
 #include "py_base_frame.h"
 #include "py_python_frame.h"
@@ -179,7 +180,7 @@ sr_py_python_frame_str(PyObject *self)
                             (this->frame->special_file ? ">" : ""));
 
     if (this->frame->file_line)
-      g_string_append_printf(buf, ", %d", this->frame->file_line);
+      g_string_append_printf(buf, ", %"PRIu32, this->frame->file_line);
 
     if (this->frame->function_name)
       g_string_append_printf(buf, ", in %s%s%s",
diff --git a/python/py_ruby_frame.c b/python/py_ruby_frame.c
index 890d625..8ff908f 100644
--- a/python/py_ruby_frame.c
+++ b/python/py_ruby_frame.c
@@ -17,6 +17,7 @@
     with this program; if not, write to the Free Software Foundation, Inc.,
     51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 */
+#include <inttypes.h>
 #include "py_common.h"
 #include "py_base_frame.h"
 #include "py_ruby_frame.h"
@@ -180,7 +181,7 @@ sr_py_ruby_frame_str(PyObject *self)
 
     if (this->frame->file_line)
     {
-        g_string_append_printf(buf, ":%d", this->frame->file_line);
+        g_string_append_printf(buf, ":%"PRIu32, this->frame->file_line);
     }
 
     if (this->frame->function_name)
@@ -199,7 +200,7 @@ sr_py_ruby_frame_str(PyObject *self)
         }
         else if (this->frame->block_level > 1)
         {
-            g_string_append_printf(buf, "block (%d levels) in ", this->frame->block_level);
+            g_string_append_printf(buf, "block (%"PRIu32" levels) in ", this->frame->block_level);
         }
 
         g_string_append_printf(buf, "%s%s%s'",
-- 
2.43.0


From d66774f6b157ae97495ddb5362106fdee0d07b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:18 +0000
Subject: [PATCH 083/129] fix: distances: count the entries of large matrices
 without overflow

Also let sr_distances_part_create() fail when asked for no parts instead
of dividing by zero.
---
 lib/distance.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/lib/distance.c b/lib/distance.c
index 7fa1157..282f249 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -295,19 +295,18 @@ sr_distance(enum sr_distance_type distance_type,
     }
 }
 
-static int
+static size_t
 get_distance_position_mn(int m, int n, int i, int j)
 {
     /* The array holds only matrix entries (i, j) where i < j,
      * locate the position in the array. */
     assert(i < j && i >= 0 && i < m && j < n);
 
-    int h = n, l = n - i;
-
+    size_t h = n, l = n - i;
     return ((h * h - h) - (l * l - l)) / 2 + j - 1;
 }
 
-static int
+static size_t
 get_distance_position(const struct sr_distances *distances, int i, int j)
 {
     return get_distance_position_mn(distances->m, distances->n, i, j);
@@ -528,14 +527,17 @@ sr_distances_part_create(int m, int n, enum sr_distance_type dist_type,
 
     assert(m > 0 && n > 1 && m < n);
 
-    int triangle_twice = m * (m-1);
+    if (nparts == 0)
+        return NULL;
+
+    size_t triangle_twice = (size_t)m * (m-1);
     assert(triangle_twice % 2 == 0);
 
-    int nelems = triangle_twice / 2 + (m*(n-m));
+    size_t nelems = triangle_twice / 2 + ((size_t)m*(n-m));
 
-    int nelems_per_part = nelems / nparts;
+    size_t nelems_per_part = nelems / nparts;
     /* First $leftover parts will be (nelems_per_part+1) long */
-    int leftover = nelems % nparts;
+    size_t leftover = nelems % nparts;
     if (leftover)
         nelems_per_part++;
 
@@ -544,7 +546,7 @@ sr_distances_part_create(int m, int n, enum sr_distance_type dist_type,
     int m_begin = 0;
     int n_begin = 1;
     /* How many items we've enountered that will go into the next part. */
-    int counter = 0;
+    size_t counter = 0;
     for (int i = 0; i < m; i++)
     {
         for (int j = i+1; j < n; j++)
@@ -673,7 +675,7 @@ sr_distances_part_merge(struct sr_distances_part *parts)
             if (j <= i || i >= it->m || j >= it->n)
                 goto error;
 
-            int position = get_distance_position(distances, i, j);
+            size_t position = get_distance_position(distances, i, j);
             if (seen[position])
                 goto error;
 
-- 
2.43.0


From 938028f5b274862e30932fe5df4a96cb0d849bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:21 +0000
Subject: [PATCH 084/129] fix: distances: a part can be computed again

---
 lib/distance.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/distance.c b/lib/distance.c
index 282f249..439599c 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -613,6 +613,7 @@ sr_distances_part_compute(struct sr_distances_part *part,
 
     int i,j;
     size_t dist_idx;
+    g_free(part->distances);
     part->distances = g_malloc_n(sizeof(float), part->len);
 
     for (dist_idx = 0, i = part->m_begin, j = part->n_begin;
-- 
2.43.0


From 1d12e3ecfa23aa45d4a382ec0a19b4fa339c01d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:35 +0000
Subject: [PATCH 085/129] fix: bindings: Dendrogram.get_merge_level: check the
 upper bound

---
 python/py_cluster.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/py_cluster.c b/python/py_cluster.c
index 215ff93..7cc5983 100644
--- a/python/py_cluster.c
+++ b/python/py_cluster.c
@@ -157,7 +157,7 @@ sr_py_dendrogram_get_merge_level(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "i", &i))
         return NULL;
 
-    if (i < 0 || i > this->dendrogram->size)
+    if (i < 0 || i >= this->dendrogram->size - 1)
     {
         PyErr_SetString(PyExc_ValueError, "Merge level position out of range");
         return NULL;
-- 
2.43.0


From 8ce71c22033490fc7507c3e5422857881adbb266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:35 +0000
Subject: [PATCH 086/129] fix: bindings: validate the parts of distance
 matrices

The constructor of DistancesPart wrote behind its array when it was given
more distances than announced; unsuitable positions aborted the
interpreter in compute().  Long lists of threads overflew the stack.
---
 python/py_metrics.c | 94 +++++++++++++++++++++++++++++++++------------
 1 file changed, 69 insertions(+), 25 deletions(-)

diff --git a/python/py_metrics.c b/python/py_metrics.c
index 0e00a24..89a8f72 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -186,11 +186,12 @@ validate_distance_params(int m, int n, int dist_type)
     return false;
 }
 
-static bool
-prepare_thread_array(PyObject *thread_list, struct sr_thread *threads[], int n)
+static struct sr_thread **
+prepare_thread_array(PyObject *thread_list, int n)
 {
     int i;
     PyTypeObject *thread_type = NULL;
+    struct sr_thread **threads = g_new0(struct sr_thread *, n);
 
     for (i = 0; i < n; i++)
     {
@@ -198,70 +199,81 @@ prepare_thread_array(PyObject *thread_list, struct sr_thread *threads[], int n)
         if (!PyObject_TypeCheck(obj, &sr_py_base_thread_type))
         {
             PyErr_SetString(PyExc_TypeError, "Must be a list of satyr.BaseThread objects");
-            return false;
+            goto error;
         }
 
         /* check that the type is the same as in the previous thread */
         if (thread_type && obj->ob_type != thread_type)
         {
             PyErr_SetString(PyExc_TypeError, "All threads in the list must have the same type");
-            return false;
+            goto error;
         }
         thread_type = obj->ob_type;
 
         struct sr_py_base_thread *to = (struct sr_py_base_thread*)obj;
         if (frames_prepare_linked_list(to) < 0)
-            return false;
+            goto error;
 
         threads[i] = (struct sr_thread*)to->thread;
     }
 
-    return true;
+    return threads;
+
+error:
+    g_free(threads);
+    return NULL;
 }
 
 /* constructor */
 PyObject *
 sr_py_distances_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
-    struct sr_py_distances *o = (struct sr_py_distances*)
-        PyObject_New(struct sr_py_distances, &sr_py_distances_type);
-
-    if (!o)
-        return PyErr_NoMemory();
-
     PyObject *thread_list;
     int m, n;
     int dist_type = SR_DISTANCE_LEVENSHTEIN;
     static const char *kwlist[] = { "threads", "m", "dist_type", NULL };
+    struct sr_distances *distances;
 
     if (PyArg_ParseTupleAndKeywords(args, kwds, "O!i|i", (char **)kwlist,
                                     &PyList_Type, &thread_list, &m, &dist_type))
     {
         n = PyList_Size(thread_list);
-        struct sr_thread *threads[n];
 
         if (!validate_distance_params(m, n, dist_type))
             return NULL;
 
-        if (!prepare_thread_array(thread_list, threads, n))
+        struct sr_thread **threads = prepare_thread_array(thread_list, n);
+        if (!threads)
             return NULL;
 
-        o->distances = sr_threads_compare(threads, m, n, dist_type);
+        distances = sr_threads_compare(threads, m, n, dist_type);
+        g_free(threads);
     }
     else if (PyArg_ParseTuple(args, "ii", &m, &n))
     {
         PyErr_Clear();
+
         if (m < 1 || n < 2)
         {
             PyErr_SetString(PyExc_ValueError, "Distance matrix must have at least 1 row and 2 columns");
             return NULL;
         }
 
-        o->distances = sr_distances_new(m, n);
+        distances = sr_distances_new(m, n);
     }
     else
         return NULL;
 
+    struct sr_py_distances *o = (struct sr_py_distances*)
+        PyObject_New(struct sr_py_distances, &sr_py_distances_type);
+    if (!o)
+    {
+        sr_distances_free(distances);
+        return PyErr_NoMemory();
+    }
+
+    o->distances = distances;
+
     return (PyObject *)o;
 }
 
@@ -419,7 +431,7 @@ sr_py_distances_part_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
     int m, n, m_begin, n_begin;
     unsigned long long len;
-    enum sr_distance_type dist_type;
+    int dist_type;
     unsigned long long checksum;
     PyObject *dist_list;
 
@@ -427,12 +439,39 @@ sr_py_distances_part_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
                           &checksum, &dist_list))
         return NULL;
 
+    if (!validate_distance_params(m, n, dist_type))
+        return NULL;
+
+    if (m >= n || m_begin < 0 || m_begin >= m || n_begin <= m_begin || n_begin >= n)
+    {
+        PyErr_SetString(PyExc_ValueError, "Distance matrix index out of range");
+        return NULL;
+    }
+
+    /* Number of the entries from the beginning of the part on. */
+    unsigned long long available = n - n_begin;
+    int row;
+    for (row = m_begin + 1; row < m; row++)
+        available += n - 1 - row;
+
+    if (len > available)
+    {
+        PyErr_SetString(PyExc_ValueError, "Too many entries of the distance matrix");
+        return NULL;
+    }
+
     struct sr_distances_part *part = sr_distances_part_new(m, n, dist_type, m_begin, n_begin,
                                                            (size_t)len);
     part->checksum = (uint32_t)checksum;
 
     if (PyList_Check(dist_list))
     {
+        if ((size_t)PyList_Size(dist_list) != part->len)
+        {
+            PyErr_SetString(PyExc_ValueError, "Wrong number of distances provided");
+            goto error;
+        }
+
         part->distances = g_malloc_n(sizeof(float), part->len);
         int i;
         for (i = 0; i < PyList_Size(dist_list); i++)
@@ -456,8 +495,10 @@ sr_py_distances_part_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     struct sr_py_distances_part *py_part =
         PyObject_New(struct sr_py_distances_part, &sr_py_distances_part_type);
-    py_part->distances_part = part;
+    if (!py_part)
+        goto error;
 
+    py_part->distances_part = part;
     return (PyObject *)py_part;
 error:
     sr_distances_part_free(part, false);
@@ -542,10 +583,13 @@ sr_py_distances_part_create(PyObject *self, PyObject *args, PyObject *kwds)
 
     if (m == 0)
         m = n - 1;
-
     if (!validate_distance_params(m, n, dist_type))
         return NULL;
-
+    if (nparts == 0)
+    {
+        PyErr_SetString(PyExc_ValueError, "There must be at least one part");
+        return NULL;
+    }
     struct sr_distances_part *parts = sr_distances_part_create(m, n, dist_type, nparts);
     if (parts == NULL)
     {
@@ -585,17 +629,17 @@ sr_py_distances_part_compute(PyObject *self, PyObject *args)
         return NULL;
 
     int n = PyList_Size(thread_list);
-    struct sr_thread *threads[n];
-
-    if (!prepare_thread_array(thread_list, threads, n))
-        return NULL;
-
     if (n != this->distances_part->n)
     {
         PyErr_SetString(PyExc_ValueError, "Wrong number of threads provided");
         return NULL;
     }
 
+    struct sr_thread **threads = prepare_thread_array(thread_list, n);
+    if (!threads)
+        return NULL;
+
     sr_distances_part_compute(this->distances_part, threads);
+    g_free(threads);
     Py_RETURN_NONE;
 }
-- 
2.43.0


From 3cf93614bf20c2d020997f2368aa1595d49fa581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:58 +0000
Subject: [PATCH 087/129] fix: bindings: report: follow the changes of the
 stacktrace

Frames or threads which were added to or removed from the stacktrace of a
report were written to JSON as they had been before, even if freed.
---
 python/py_report.c | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/python/py_report.c b/python/py_report.c
index 2ffbca5..5f9e0d9 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -29,7 +29,7 @@
 #include "py_koops_stacktrace.h"
 #include "py_java_stacktrace.h"
 #include "py_ruby_stacktrace.h"
-
+#include "py_js_stacktrace.h"
 #include "report.h"
 #include "operating_system.h"
 #include "rpm.h"
@@ -203,13 +203,23 @@ stacktrace_prepare(struct sr_py_report *report, PyTypeObject *type, bool multi_t
 
     if (multi_thread)
     {
-        report->report->stacktrace =
-            ((struct sr_py_multi_stacktrace *)report->stacktrace)->stacktrace;
+        struct sr_py_multi_stacktrace *stacktrace =
+            (struct sr_py_multi_stacktrace *)report->stacktrace;
+
+        if (threads_prepare_linked_list(stacktrace) < 0)
+            return -1;
+
+        report->report->stacktrace = stacktrace->stacktrace;
     }
     else
     {
-        report->report->stacktrace =
-            (struct sr_stacktrace *)((struct sr_py_base_thread *)report->stacktrace)->thread;
+        struct sr_py_base_thread *stacktrace =
+            (struct sr_py_base_thread *)report->stacktrace;
+
+        if (frames_prepare_linked_list(stacktrace) < 0)
+            return -1;
+
+        report->report->stacktrace = (struct sr_stacktrace *)stacktrace->thread;
     }
 
     return 0;
-- 
2.43.0


From 17d6dcc7402abf772d7540072dbc6b510c7e112d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:59 +0000
Subject: [PATCH 088/129] fix: bindings: report: expose JavaScript stacktraces

They were lost when the report was written back to JSON.
---
 python/py_report.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/py_report.c b/python/py_report.c
index 5f9e0d9..0e50a94 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -278,6 +278,10 @@ report_prepare_subobjects(struct sr_py_report *report)
             if (stacktrace_prepare(report, &sr_py_ruby_stacktrace_type, false) < 0)
                 return -1;
             break;
+        case SR_REPORT_JAVASCRIPT:
+            if (stacktrace_prepare(report, &sr_py_js_stacktrace_type, false) < 0)
+                return -1;
+            break;
         default:
             report->report->stacktrace = NULL;
             break;
@@ -345,6 +349,10 @@ report_to_python_obj(struct sr_report *report)
             ro->stacktrace = ruby_stacktrace_to_python_obj(
                     (struct sr_ruby_stacktrace *)report->stacktrace);
             break;
+        case SR_REPORT_JAVASCRIPT:
+            ro->stacktrace = js_stacktrace_to_python_obj(
+                    (struct sr_js_stacktrace *)report->stacktrace);
+            break;
         default:
             Py_INCREF(Py_None);
             ro->stacktrace = Py_None;
-- 
2.43.0


From 8b3e5f2de3c51dbde93394f08d405858c614e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:00 +0000
Subject: [PATCH 089/129] fix: bindings: report: reporter_name and
 reporter_version can be set

The setters tried to free string literals.
---
 python/py_report.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/py_report.c b/python/py_report.c
index 0e50a94..0a081e6 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -301,6 +301,14 @@ report_to_python_obj(struct sr_report *report)
 
     ro->report = report;
 
+    /* The setters release the previous value. */
+    struct sr_report defaults;
+    sr_report_init(&defaults);
+    if (report->reporter_name == defaults.reporter_name)
+        report->reporter_name = g_strdup(defaults.reporter_name);
+    if (report->reporter_version == defaults.reporter_version)
+        report->reporter_version = g_strdup(defaults.reporter_version);
+
     /* wrap operating system in a python object */
     if (report->operating_system)
     {
@@ -419,6 +427,9 @@ sr_py_report_free(PyObject *object)
     this->report->operating_system = NULL;
     this->report->stacktrace = NULL;
 
+    /* sr_report_free() does not release these, see report_to_python_obj() */
+    g_free(this->report->reporter_name);
+    g_free(this->report->reporter_version);
     sr_report_free(this->report);
     PyObject_Del(object);
 }
-- 
2.43.0


From 86e3e44ce8ba34d4f9001b49f0030ece837e3057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:38 +0000
Subject: [PATCH 090/129] fix: bindings: refuse lists that contain an object
 twice

---
 python/py_base_stacktrace.c | 12 +++++++++++-
 python/py_base_thread.c     | 14 ++++++++++++--
 python/py_gdb_stacktrace.c  | 14 ++++++++++++--
 python/py_metrics.c         | 15 +++++++++++++--
 python/py_report.c          | 14 ++++++++++++--
 5 files changed, 60 insertions(+), 9 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index 3ea3498..bcd2046 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -198,6 +198,8 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
         /* Note: this line is not present in frames_prepare_linked_list. */
         if (frames_prepare_linked_list((struct sr_py_base_thread*)item) < 0)
             return -1;
+
+        sr_thread_set_next(((struct sr_py_base_thread*)item)->thread, NULL);
     }
 
     /* Core stacktrace remembers its crash thread, which is not necessarily in
@@ -219,7 +221,15 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
         if (core && current->thread == (struct sr_thread*)crash_thread)
             core->crash_thread = crash_thread;
 
-        sr_thread_set_next(current->thread, NULL);
+        if (current == prev || sr_thread_next(current->thread))
+        {
+            if (core)
+                core->crash_thread = crash_thread;
+
+            PyErr_SetString(PyExc_ValueError, "threads must not contain an object twice");
+            return -1;
+        }
+
         if (!prev)
             sr_stacktrace_set_threads(stacktrace->stacktrace, current->thread);
         else
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index 5dc6f0e..4a44125 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -134,8 +134,18 @@ frames_prepare_linked_list(struct sr_py_base_thread *thread)
             return -1;
         }
 
-        current = (struct sr_py_base_frame*)item;
-        sr_frame_set_next(current->frame, NULL);
+        sr_frame_set_next(((struct sr_py_base_frame*)item)->frame, NULL);
+    }
+
+    for (i = 0; i < PyList_Size(thread->frames); ++i)
+    {
+        current = (struct sr_py_base_frame*)PyList_GetItem(thread->frames, i);
+        if (current == prev || sr_frame_next(current->frame))
+        {
+            PyErr_SetString(PyExc_ValueError, "frames must not contain an object twice");
+            return -1;
+        }
+
         if (!prev)
             sr_thread_set_frames(thread->thread, current->frame);
         else
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index f94b0a3..581415f 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -170,8 +170,18 @@ gdb_prepare_linked_lists(struct sr_py_gdb_stacktrace *stacktrace)
             return -1;
         }
 
-        currentlib = (struct sr_py_gdb_sharedlib*)item;
-        currentlib->sharedlib->next = NULL;
+        ((struct sr_py_gdb_sharedlib*)item)->sharedlib->next = NULL;
+    }
+
+    for (i = 0; i < PyList_Size(stacktrace->libs); ++i)
+    {
+        currentlib = (struct sr_py_gdb_sharedlib*)PyList_GetItem(stacktrace->libs, i);
+        if (currentlib == prevlib || currentlib->sharedlib->next)
+        {
+            PyErr_SetString(PyExc_ValueError, "libs must not contain an object twice");
+            return -1;
+        }
+
         if (!prevlib)
             stacktrace->stacktrace->libs = currentlib->sharedlib;
         else
diff --git a/python/py_metrics.c b/python/py_metrics.c
index 89a8f72..c8ef822 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -388,8 +388,19 @@ parts_prepare_linked_list(PyObject *part_list)
             return NULL;
         }
 
-        current = (struct sr_py_distances_part*)item;
-        current->distances_part->next = NULL;
+        ((struct sr_py_distances_part*)item)->distances_part->next = NULL;
+    }
+
+    for (i = 0; i < PyList_Size(part_list); ++i)
+    {
+        current = (struct sr_py_distances_part*)PyList_GetItem(part_list, i);
+        if (current == prev || current->distances_part->next)
+        {
+            PyErr_SetString(PyExc_ValueError,
+                    "argument must not contain an object twice");
+            return NULL;
+        }
+
         if (prev)
             prev->distances_part->next = current->distances_part;
 
diff --git a/python/py_report.c b/python/py_report.c
index 0a081e6..73576d5 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -179,8 +179,18 @@ rpms_prepare_linked_list(struct sr_py_report *report)
             return -1;
         }
 
-        current = (struct sr_py_rpm_package*)item;
-        current->rpm_package->next = NULL;
+        ((struct sr_py_rpm_package*)item)->rpm_package->next = NULL;
+    }
+
+    for (i = 0; i < PyList_Size(report->packages); ++i)
+    {
+        current = (struct sr_py_rpm_package*)PyList_GetItem(report->packages, i);
+        if (current == prev || current->rpm_package->next)
+        {
+            PyErr_SetString(PyExc_ValueError, "packages must not contain an object twice");
+            return -1;
+        }
+
         if (!prev)
             report->report->rpm_packages = current->rpm_package;
         else
-- 
2.43.0


From 7927ddaee7be54ae6539f6a98532b28cd1c78bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:41 +0000
Subject: [PATCH 091/129] fix: gdb: calls_func: succeed when no source files
 are given

---
 lib/gdb_frame.c       | 8 ++++++++
 python/py_gdb_frame.c | 4 +++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 82a412d..324d83b 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -151,6 +151,7 @@ sr_gdb_frame_calls_func(struct sr_gdb_frame *frame,
     va_list source_files;
     va_start(source_files, function_name);
     bool success = false;
+    bool empty = true;
 
     while (true)
     {
@@ -158,6 +159,8 @@ sr_gdb_frame_calls_func(struct sr_gdb_frame *frame,
         if (!source_file)
             break;
 
+        empty = false;
+
         if (frame->source_file &&
             NULL != strstr(frame->source_file, source_file))
         {
@@ -167,6 +170,11 @@ sr_gdb_frame_calls_func(struct sr_gdb_frame *frame,
     }
 
    va_end(source_files);
+
+   /* No source files given, none is expected. */
+   if (empty)
+       success = !frame->source_file;
+
    return success;
 }
 
diff --git a/python/py_gdb_frame.c b/python/py_gdb_frame.c
index 607c80e..e33385d 100644
--- a/python/py_gdb_frame.c
+++ b/python/py_gdb_frame.c
@@ -265,7 +265,9 @@ sr_py_gdb_frame_calls_func(PyObject *self, PyObject *args)
         return NULL;
 
     struct sr_gdb_frame *frame = ((struct sr_py_gdb_frame*)self)->frame;
-    return Py_BuildValue("i", sr_gdb_frame_calls_func(frame, func_name, NULL));
+    /* with any source file, or without it */
+    return Py_BuildValue("i", sr_gdb_frame_calls_func(frame, func_name, "", NULL) ||
+                              sr_gdb_frame_calls_func(frame, func_name, NULL));
 }
 
 PyObject *
-- 
2.43.0


From f786920489de59e44feb0c015344eff2b5b179a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:10 +0000
Subject: [PATCH 092/129] fix: bindings: gdb: get_bthash: bring the shared
 libraries up to date first

---
 python/py_gdb_stacktrace.c | 16 ++++++++++++++++
 python/py_gdb_stacktrace.h |  1 +
 2 files changed, 17 insertions(+)

diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 581415f..2d527b3 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -55,6 +55,10 @@
                         "Returns short text representation of the crash thread. If max_frames is\n" \
                         "specified, the result includes only that much topmost frames."
 
+#define b_get_bthash_doc "Usage: stacktrace.get_bthash([flags])\n\n" \
+                         "Returns: string - hash of the stacktrace\n\n" \
+                         "flags: integer - bitwise sum of flags (BTHASH_NORMAL, BTHASH_NOHASH)"
+
 #define b_crashframe_doc (char *)"Readonly. By default the field contains None. After\n" \
                          "calling the find_crash_frame method, a reference to\n" \
                          "satyr.Frame object is stored into the field."
@@ -78,6 +82,7 @@ gdb_stacktrace_methods[] =
     { "set_libnames",         sr_py_gdb_stacktrace_set_libnames,         METH_NOARGS,  b_set_libnames_doc         },
     { "normalize",            sr_py_gdb_stacktrace_normalize,            METH_NOARGS,  b_normalize_doc            },
     { "to_short_text",        sr_py_gdb_stacktrace_to_short_text,        METH_VARARGS, b_to_short_text            },
+    { "get_bthash",           sr_py_gdb_stacktrace_get_bthash,           METH_VARARGS, b_get_bthash_doc           },
     { NULL },
 };
 
@@ -555,6 +560,17 @@ sr_py_gdb_stacktrace_normalize(PyObject *self, PyObject *args)
     Py_RETURN_NONE;
 }
 
+PyObject *
+sr_py_gdb_stacktrace_get_bthash(PyObject *self, PyObject *args)
+{
+    /* the hash covers the shared libraries */
+    struct sr_py_gdb_stacktrace *this = (struct sr_py_gdb_stacktrace*)self;
+    if (gdb_prepare_linked_lists(this) < 0)
+        return NULL;
+
+    return sr_py_multi_stacktrace_get_bthash(self, args);
+}
+
 PyObject *
 sr_py_gdb_stacktrace_to_short_text(PyObject *self, PyObject *args)
 {
diff --git a/python/py_gdb_stacktrace.h b/python/py_gdb_stacktrace.h
index 6c977be..bd255e0 100644
--- a/python/py_gdb_stacktrace.h
+++ b/python/py_gdb_stacktrace.h
@@ -72,6 +72,7 @@ PyObject *sr_py_gdb_stacktrace_find_address(PyObject *self, PyObject *args);
 PyObject *sr_py_gdb_stacktrace_set_libnames(PyObject *self, PyObject *args);
 PyObject *sr_py_gdb_stacktrace_normalize(PyObject *self, PyObject *args);
 PyObject * sr_py_gdb_stacktrace_to_short_text(PyObject *self, PyObject *args);
+PyObject * sr_py_gdb_stacktrace_get_bthash(PyObject *self, PyObject *args);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From 5e1602ab18ec50e5511b122c18050139501224a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:20 +0000
Subject: [PATCH 093/129] fix: bindings: convert arguments before looking at
 lists

---
 python/py_gdb_stacktrace.c | 34 ++++++++++++++++++++++++----------
 python/py_metrics.c        |  5 +++--
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 2d527b3..84f8314 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -5,6 +5,7 @@
 #include "py_gdb_sharedlib.h"
 #include "py_base_thread.h"
 #include "py_base_stacktrace.h"
+#include "stacktrace.h"
 #include "gdb/stacktrace.h"
 #include "gdb/thread.h"
 #include "gdb/frame.h"
@@ -439,13 +440,13 @@ PyObject *
 sr_py_gdb_stacktrace_limit_frame_depth(PyObject *self, PyObject *args)
 {
     struct sr_py_gdb_stacktrace *this = (struct sr_py_gdb_stacktrace*)self;
-    if (gdb_prepare_linked_lists(this) < 0)
-        return NULL;
-
     int depth;
     if (!PyArg_ParseTuple(args, "i", &depth))
         return NULL;
 
+    if (gdb_prepare_linked_lists(this) < 0)
+        return NULL;
+
     if (depth <= 0)
     {
         PyErr_SetString(PyExc_ValueError, "Depth must be positive.");
@@ -488,9 +489,6 @@ PyObject *
 sr_py_gdb_stacktrace_find_address(PyObject *self, PyObject *args)
 {
     struct sr_py_gdb_stacktrace *this = (struct sr_py_gdb_stacktrace*)self;
-    if (gdb_prepare_linked_lists(this) < 0)
-        return NULL;
-
     PyObject *address_obj;
     if (!PyArg_ParseTuple(args, "O", &address_obj))
         return NULL;
@@ -504,6 +502,9 @@ sr_py_gdb_stacktrace_find_address(PyObject *self, PyObject *args)
     if (PyErr_Occurred())
         return NULL;
 
+    if (gdb_prepare_linked_lists(this) < 0)
+        return NULL;
+
     if (address == (unsigned long long) -1)
         Py_RETURN_NONE;
 
@@ -563,25 +564,38 @@ sr_py_gdb_stacktrace_normalize(PyObject *self, PyObject *args)
 PyObject *
 sr_py_gdb_stacktrace_get_bthash(PyObject *self, PyObject *args)
 {
+    int flags = 0;
+    if (!PyArg_ParseTuple(args, "|i", &flags))
+        return NULL;
+
     /* the hash covers the shared libraries */
     struct sr_py_gdb_stacktrace *this = (struct sr_py_gdb_stacktrace*)self;
     if (gdb_prepare_linked_lists(this) < 0)
         return NULL;
 
-    return sr_py_multi_stacktrace_get_bthash(self, args);
+    char *hash = sr_stacktrace_get_bthash((struct sr_stacktrace *)this->stacktrace, flags);
+    if (!hash)
+    {
+        PyErr_SetString(PyExc_RuntimeError, "cannot obtain bthash");
+        return NULL;
+    }
+
+    PyObject *result = PyString_FromString(hash);
+    g_free(hash);
+    return result;
 }
 
 PyObject *
 sr_py_gdb_stacktrace_to_short_text(PyObject *self, PyObject *args)
 {
     struct sr_py_gdb_stacktrace *this = (struct sr_py_gdb_stacktrace*)self;
-    if (gdb_prepare_linked_lists(this) < 0)
-        return NULL;
-
     int max_frames = 0;
     if (!PyArg_ParseTuple(args, "|i", &max_frames))
         return NULL;
 
+    if (gdb_prepare_linked_lists(this) < 0)
+        return NULL;
+
     char *text =
         sr_gdb_stacktrace_to_short_text(this->stacktrace, max_frames);
     if (!text)
diff --git a/python/py_metrics.c b/python/py_metrics.c
index c8ef822..0f43e78 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -484,9 +484,10 @@ sr_py_distances_part_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         }
 
         part->distances = g_malloc_n(sizeof(float), part->len);
-        int i;
-        for (i = 0; i < PyList_Size(dist_list); i++)
+        size_t i;
+        for (i = 0; i < part->len; i++)
         {
+            /* the conversion of an item can change the list */
             PyObject *item = PyList_GetItem(dist_list, i);
             if (!item)
                 goto error;
-- 
2.43.0


From abebdd19a52288e63694c3d4412cb1cb4d39fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:44 +0000
Subject: [PATCH 094/129] fix: unwind: prstatus notes need not be aligned

---
 lib/core_unwind.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 6a5be9b..e369118 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -410,8 +410,10 @@ get_signal_number(Elf *e, const char *elf_file)
                 continue;
             }
 
-            struct elf_prstatus *prstatus = (struct elf_prstatus*)desc_data->d_buf;
-            short signal = prstatus->pr_cursig;
+            /* The note is not necessarily aligned for the structure. */
+            struct elf_prstatus prstatus;
+            memcpy(&prstatus, desc_data->d_buf, sizeof(prstatus));
+            short signal = prstatus.pr_cursig;
             if (signal)
                 return signal;
         }
-- 
2.43.0


From ef98a797358c21838eb1f451fdfec97f10a793d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:46 +0000
Subject: [PATCH 095/129] fix: unwind: take the calling instruction for
 callers, not for the innermost frame

---
 lib/core_unwind_elfutils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/core_unwind_elfutils.c b/lib/core_unwind_elfutils.c
index 67841cd..6554a19 100644
--- a/lib/core_unwind_elfutils.c
+++ b/lib/core_unwind_elfutils.c
@@ -61,15 +61,15 @@ frame_callback(Dwfl_Frame *frame, void *data)
     char **error_msg = &frame_arg->error_msg;
 
     Dwarf_Addr pc;
-    bool minus_one;
-    if (!dwfl_frame_pc(frame, &pc, &minus_one))
+    bool activation;
+    if (!dwfl_frame_pc(frame, &pc, &activation))
     {
         set_error_dwfl("dwfl_frame_pc");
         return DWARF_CB_ABORT;
     }
 
     Dwfl *dwfl = dwfl_thread_dwfl(dwfl_frame_thread(frame));
-    struct sr_core_frame *result = resolve_frame(dwfl, pc, minus_one);
+    struct sr_core_frame *result = resolve_frame(dwfl, pc, !activation);
 
     /* Do not unwind below __libc_start_main. */
     if (0 == g_strcmp0(result->function_name, "__libc_start_main"))
-- 
2.43.0


From 15e4b834b4dd3a4c5d3edf25a938ebb62dfc2959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:03 +0000
Subject: [PATCH 096/129] fix: unwind: create: do not step past the frames
 while reading them

---
 lib/core_stacktrace.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index 3f15127..a38d5e6 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -352,10 +352,8 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
         struct sr_core_thread *core_thread = sr_core_thread_new();
 
         struct sr_gdb_frame *gdb_frame = gdb_thread->frames;
-        while (gdb_frame)
+        for (; gdb_frame; gdb_frame = gdb_frame->next)
         {
-            gdb_frame = gdb_frame->next;
-
             struct sr_core_frame *core_frame = sr_core_frame_new();
             core_frame->address = gdb_frame->address;
 
-- 
2.43.0


From b0d6ba5c6a798cfdffb36344799c7ef342c06036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:39 +0000
Subject: [PATCH 097/129] fix: unwind: give up on a thread whose frames form a
 cycle

---
 lib/core_unwind_elfutils.c | 39 +++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/lib/core_unwind_elfutils.c b/lib/core_unwind_elfutils.c
index 6554a19..eb57a10 100644
--- a/lib/core_unwind_elfutils.c
+++ b/lib/core_unwind_elfutils.c
@@ -34,11 +34,18 @@
 #include <sys/ptrace.h>
 #include <sys/wait.h>
 
+/* The number of frames after which unwinding of a thread is given up. It is
+ * more than fits into a stack of the usual size; only a damaged stack whose
+ * frames form a cycle gets this far. */
+#define UNWIND_FRAME_LIMIT (1 << 20)
+
 struct frame_callback_arg
 {
+    struct sr_core_frame **frames;
     struct sr_core_frame **frames_tail;
     char *error_msg;
     unsigned nframes;
+    unsigned nunwound;
 };
 
 struct thread_callback_arg
@@ -82,20 +89,22 @@ frame_callback(Dwfl_Frame *frame, void *data)
     frame_arg->frames_tail = &result->next;
     frame_arg->nframes++;
 
-    return DWARF_CB_OK;
-}
-
-static void
-truncate_long_thread(struct sr_core_thread *thread, struct frame_callback_arg *frame_arg)
-{
     /* Truncate the stacktrace to CORE_STACKTRACE_FRAME_LIMIT least recent frames. */
-    while (thread->frames && frame_arg->nframes > CORE_STACKTRACE_FRAME_LIMIT)
+    if (frame_arg->nframes > CORE_STACKTRACE_FRAME_LIMIT)
     {
-        struct sr_core_frame *old_frame = thread->frames;
-        thread->frames = old_frame->next;
+        struct sr_core_frame *old_frame = *frame_arg->frames;
+        *frame_arg->frames = old_frame->next;
         sr_core_frame_free(old_frame);
         frame_arg->nframes--;
     }
+
+    if (++frame_arg->nunwound >= UNWIND_FRAME_LIMIT)
+    {
+        warn("Unwinding stopped after %u frames", frame_arg->nunwound);
+        return CB_STOP_UNWIND;
+    }
+
+    return DWARF_CB_OK;
 }
 
 static int
@@ -114,9 +123,11 @@ unwind_thread(Dwfl_Thread *thread, void *data)
 
     struct frame_callback_arg frame_arg =
     {
+        .frames = &(result->frames),
         .frames_tail = &(result->frames),
         .error_msg = NULL,
-        .nframes = 0
+        .nframes = 0,
+        .nunwound = 0
     };
 
     int ret = dwfl_thread_getframes(thread, frame_callback, &frame_arg);
@@ -142,8 +153,6 @@ unwind_thread(Dwfl_Thread *thread, void *data)
         goto abort;
     }
 
-    truncate_long_thread(result, &frame_arg);
-
     *thread_arg->threads_tail = result;
     thread_arg->threads_tail = &result->next;
 
@@ -336,9 +345,11 @@ sr_core_stacktrace_from_core_hook_generate(pid_t tid,
 
     struct frame_callback_arg frame_arg =
     {
+        .frames = &(stacktrace->threads->frames),
         .frames_tail = &(stacktrace->threads->frames),
         .error_msg = NULL,
-        .nframes = 0
+        .nframes = 0,
+        .nunwound = 0
     };
 
     int ret = dwfl_getthread_frames(state->dwfl, tid, frame_callback, &frame_arg);
@@ -359,8 +370,6 @@ sr_core_stacktrace_from_core_hook_generate(pid_t tid,
         goto fail;
     }
 
-    truncate_long_thread(stacktrace->threads, &frame_arg);
-
     if (executable)
         stacktrace->executable = g_strdup(executable);
     if (signum > 0)
-- 
2.43.0


From 1f28219cc97680763006db18a6af20ee9a6fb6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:57 +0000
Subject: [PATCH 098/129] fix: unwind: from_gdb: resolve callers by the calling
 instruction

---
 lib/core_unwind.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index e369118..7c15846 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -470,15 +470,22 @@ sr_core_stacktrace_from_gdb(const char *gdb_output, const char *core_file,
                 top_frame = top_frame->next;
         }
 
+        /* The innermost frame and a frame interrupted by a signal stopped at
+         * their address, the others called from just before it. */
+        bool caller = top_frame != gdb_thread->frames;
         for (struct sr_gdb_frame *gdb_frame = top_frame;
              gdb_frame;
              gdb_frame = gdb_frame->next)
         {
             if (gdb_frame->signal_handler_called)
+            {
+                caller = false;
                 continue;
+            }
 
             struct sr_core_frame *core_frame = resolve_frame(ch->dwfl,
-                    gdb_frame->address, false);
+                    gdb_frame->address, caller);
+            caller = true;
 
             core_thread->frames = sr_core_frame_append(core_thread->frames,
                     core_frame);
-- 
2.43.0


From 0fc91f08afc3a4067fb06acf107fd99c35d4d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:03 +0000
Subject: [PATCH 099/129] fix: unwind: hook: no stacktrace when attaching
 failed

---
 lib/core_unwind_elfutils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core_unwind_elfutils.c b/lib/core_unwind_elfutils.c
index eb57a10..257f879 100644
--- a/lib/core_unwind_elfutils.c
+++ b/lib/core_unwind_elfutils.c
@@ -340,6 +340,8 @@ sr_core_stacktrace_from_core_hook_generate(pid_t tid,
     if (dwfl_linux_proc_attach(state->dwfl, tid, true) != 0)
     {
         set_error_dwfl("dwfl_linux_proc_attach");
+        sr_core_stacktrace_free(stacktrace);
+        stacktrace = NULL;
         goto fail;
     }
 
-- 
2.43.0


From 3d9f3de2ae0cba510b3d65563663ad43e76a78b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:35 +0000
Subject: [PATCH 100/129] fix: unwind: cores of statically linked executables
 have modules too

---
 lib/core_unwind.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 7c15846..2ef7b35 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -189,6 +189,10 @@ touch_module(Dwfl_Module *mod, void **userdata, const char *name,
 
     dwfl_module_info(mod, NULL, &base, NULL, NULL, NULL, &filename, NULL);
 
+    /* The file of a statically linked executable is known as the name only. */
+    if (!filename)
+        filename = name;
+
     if (filename)
     {
         **tailp = g_malloc0(sizeof(struct exe_mapping_data));
-- 
2.43.0


From 1947f6b518b0971a4c9c93e7571a7a521d87c46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:40 +0000
Subject: [PATCH 101/129] fix: do not copy lists of siblings recursively

Copying a trace of some hundred thousand frames, which a stack overflow
leaves behind, exhausted the stack.
---
 lib/core_frame.c    | 11 +++++++----
 lib/core_thread.c   | 11 +++++++----
 lib/gdb_frame.c     | 11 +++++++----
 lib/gdb_sharedlib.c | 11 +++++++----
 lib/gdb_thread.c    | 11 +++++++----
 lib/java_frame.c    | 11 +++++++----
 lib/java_thread.c   | 11 +++++++----
 lib/js_frame.c      | 11 +++++++----
 lib/koops_frame.c   | 11 +++++++----
 lib/python_frame.c  | 11 +++++++----
 lib/ruby_frame.c    | 11 +++++++----
 11 files changed, 77 insertions(+), 44 deletions(-)

diff --git a/lib/core_frame.c b/lib/core_frame.c
index f49c4ad..067133f 100644
--- a/lib/core_frame.c
+++ b/lib/core_frame.c
@@ -98,13 +98,16 @@ sr_core_frame_dup(struct sr_core_frame *frame, bool siblings)
     memcpy(result, frame, sizeof(struct sr_core_frame));
 
     /* Handle siblings. */
+    result->next = NULL;
     if (siblings)
     {
-        if (result->next)
-            result->next = sr_core_frame_dup(result->next, true);
+        struct sr_core_frame *last = result;
+        for (struct sr_core_frame *item = frame->next; item; item = item->next)
+        {
+            last->next = sr_core_frame_dup(item, false);
+            last = last->next;
+        }
     }
-    else
-        result->next = NULL; /* Do not copy that. */
 
     /* Duplicate all strings if the copy is not shallow. */
     if (result->build_id)
diff --git a/lib/core_thread.c b/lib/core_thread.c
index 770c745..2f87791 100644
--- a/lib/core_thread.c
+++ b/lib/core_thread.c
@@ -96,13 +96,16 @@ sr_core_thread_dup(struct sr_core_thread *thread,
     memcpy(result, thread, sizeof(struct sr_core_thread));
 
     /* Handle siblings. */
+    result->next = NULL;
     if (siblings)
     {
-        if (result->next)
-            result->next = sr_core_thread_dup(result->next, true);
+        struct sr_core_thread *last = result;
+        for (struct sr_core_thread *item = thread->next; item; item = item->next)
+        {
+            last->next = sr_core_thread_dup(item, false);
+            last = last->next;
+        }
     }
-    else
-        result->next = NULL; /* Do not copy that. */
 
     if (result->frames)
         result->frames = sr_core_frame_dup(result->frames, true);
diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 324d83b..f66bfb4 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -116,13 +116,16 @@ sr_gdb_frame_dup(struct sr_gdb_frame *frame, bool siblings)
     memcpy(result, frame, sizeof(struct sr_gdb_frame));
 
     /* Handle siblings. */
+    result->next = NULL;
     if (siblings)
     {
-        if (result->next)
-            result->next = sr_gdb_frame_dup(result->next, true);
+        struct sr_gdb_frame *last = result;
+        for (struct sr_gdb_frame *item = frame->next; item; item = item->next)
+        {
+            last->next = sr_gdb_frame_dup(item, false);
+            last = last->next;
+        }
     }
-    else
-        result->next = NULL; /* Do not copy that. */
 
     /* Duplicate all strings. */
     if (result->function_name)
diff --git a/lib/gdb_sharedlib.c b/lib/gdb_sharedlib.c
index e4e83c3..b3b97b8 100644
--- a/lib/gdb_sharedlib.c
+++ b/lib/gdb_sharedlib.c
@@ -60,13 +60,16 @@ sr_gdb_sharedlib_dup(struct sr_gdb_sharedlib *sharedlib,
     memcpy(result, sharedlib, sizeof(struct sr_gdb_sharedlib));
     result->soname = g_strdup(sharedlib->soname);
 
+    result->next = NULL;
     if (siblings)
     {
-        if (result->next)
-            result->next = sr_gdb_sharedlib_dup(result->next, true);
+        struct sr_gdb_sharedlib *last = result;
+        for (struct sr_gdb_sharedlib *item = sharedlib->next; item; item = item->next)
+        {
+            last->next = sr_gdb_sharedlib_dup(item, false);
+            last = last->next;
+        }
     }
-    else
-        result->next = NULL;
 
     return result;
 }
diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index 8e2b4d6..8a02628 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -103,13 +103,16 @@ sr_gdb_thread_dup(struct sr_gdb_thread *thread, bool siblings)
     memcpy(result, thread, sizeof(struct sr_gdb_thread));
 
     /* Handle siblings. */
+    result->next = NULL;
     if (siblings)
     {
-        if (result->next)
-            result->next = sr_gdb_thread_dup(result->next, true);
+        struct sr_gdb_thread *last = result;
+        for (struct sr_gdb_thread *item = thread->next; item; item = item->next)
+        {
+            last->next = sr_gdb_thread_dup(item, false);
+            last = last->next;
+        }
     }
-    else
-        result->next = NULL; /* Do not copy that. */
 
     if (result->frames)
         result->frames = sr_gdb_frame_dup(result->frames, true);
diff --git a/lib/java_frame.c b/lib/java_frame.c
index 40b55e4..a5cac01 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -129,13 +129,16 @@ sr_java_frame_dup(struct sr_java_frame *frame, bool siblings)
     memcpy(result, frame, sizeof(*result));
 
     /* Handle siblings. */
+    result->next = NULL;
     if (siblings)
     {
-        if (result->next)
-            result->next = sr_java_frame_dup(result->next, true);
+        struct sr_java_frame *last = result;
+        for (struct sr_java_frame *item = frame->next; item; item = item->next)
+        {
+            last->next = sr_java_frame_dup(item, false);
+            last = last->next;
+        }
     }
-    else
-        result->next = NULL; /* Do not copy that. */
 
     /* Duplicate all strings. */
     if (result->file_name)
diff --git a/lib/java_thread.c b/lib/java_thread.c
index 881dd89..96e40f1 100644
--- a/lib/java_thread.c
+++ b/lib/java_thread.c
@@ -99,13 +99,16 @@ sr_java_thread_dup(struct sr_java_thread *thread, bool siblings)
     memcpy(result, thread, sizeof(*result));
 
     /* Handle siblings. */
+    result->next = NULL;
     if (siblings)
     {
-        if (result->next)
-            result->next = sr_java_thread_dup(result->next, true);
+        struct sr_java_thread *last = result;
+        for (struct sr_java_thread *item = thread->next; item; item = item->next)
+        {
+            last->next = sr_java_thread_dup(item, false);
+            last = last->next;
+        }
     }
-    else
-        result->next = NULL; /* Do not copy that. */
 
     if (result->frames)
         result->frames = sr_java_frame_dup(result->frames, true);
diff --git a/lib/js_frame.c b/lib/js_frame.c
index eee1132..9f46e53 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -97,13 +97,16 @@ sr_js_frame_dup(struct sr_js_frame *frame, bool siblings)
     memcpy(result, frame, sizeof(struct sr_js_frame));
 
     /* Handle siblings. */
+    result->next = NULL;
     if (siblings)
     {
-        if (result->next)
-            result->next = sr_js_frame_dup(result->next, true);
+        struct sr_js_frame *last = result;
+        for (struct sr_js_frame *item = frame->next; item; item = item->next)
+        {
+            last->next = sr_js_frame_dup(item, false);
+            last = last->next;
+        }
     }
-    else
-        result->next = NULL; /* Do not copy that. */
 
     /* Duplicate all strings. */
     if (result->file_name)
diff --git a/lib/koops_frame.c b/lib/koops_frame.c
index cdfdeef..f0c0a27 100644
--- a/lib/koops_frame.c
+++ b/lib/koops_frame.c
@@ -95,13 +95,16 @@ sr_koops_frame_dup(struct sr_koops_frame *frame, bool siblings)
     memcpy(result, frame, sizeof(struct sr_koops_frame));
 
     /* Handle siblings. */
+    result->next = NULL;
     if (siblings)
     {
-        if (result->next)
-            result->next = sr_koops_frame_dup(result->next, true);
+        struct sr_koops_frame *last = result;
+        for (struct sr_koops_frame *item = frame->next; item; item = item->next)
+        {
+            last->next = sr_koops_frame_dup(item, false);
+            last = last->next;
+        }
     }
-    else
-        result->next = NULL; /* Do not copy that. */
 
     /* Duplicate all strings. */
     if (result->function_name)
diff --git a/lib/python_frame.c b/lib/python_frame.c
index b4de900..84d7b84 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -92,13 +92,16 @@ sr_python_frame_dup(struct sr_python_frame *frame, bool siblings)
     memcpy(result, frame, sizeof(struct sr_python_frame));
 
     /* Handle siblings. */
+    result->next = NULL;
     if (siblings)
     {
-        if (result->next)
-            result->next = sr_python_frame_dup(result->next, true);
+        struct sr_python_frame *last = result;
+        for (struct sr_python_frame *item = frame->next; item; item = item->next)
+        {
+            last->next = sr_python_frame_dup(item, false);
+            last = last->next;
+        }
     }
-    else
-        result->next = NULL; /* Do not copy that. */
 
     /* Duplicate all strings. */
     if (result->file_name)
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index c0ef566..3e1bdf0 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -92,13 +92,16 @@ sr_ruby_frame_dup(struct sr_ruby_frame *frame, bool siblings)
     memcpy(result, frame, sizeof(struct sr_ruby_frame));
 
     /* Handle siblings. */
+    result->next = NULL;
     if (siblings)
     {
-        if (result->next)
-            result->next = sr_ruby_frame_dup(result->next, true);
+        struct sr_ruby_frame *last = result;
+        for (struct sr_ruby_frame *item = frame->next; item; item = item->next)
+        {
+            last->next = sr_ruby_frame_dup(item, false);
+            last = last->next;
+        }
     }
-    else
-        result->next = NULL; /* Do not copy that. */
 
     /* Duplicate all strings. */
     if (result->file_name)
-- 
2.43.0


From f1721da1750544a4568540ed952a3aabc7bbe569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:42 +0000
Subject: [PATCH 102/129] fix: cluster: do not keep arrays of all objects on
 the stack

---
 lib/cluster.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/cluster.c b/lib/cluster.c
index 6af947f..25548e4 100644
--- a/lib/cluster.c
+++ b/lib/cluster.c
@@ -111,11 +111,8 @@ sr_distances_cluster_objects(struct sr_distances *distances)
     int i, j, merges, m = distances->m, n = distances->n;
 
     struct sr_distances *cluster_distances;
-    struct cluster clusters[n];
-    /* to stop gcc 11 from complaining about uninitialized variables */
-    clusters[0].objects = NULL;
-
-    float merge_levels[n];
+    struct cluster *clusters = g_malloc_n(n, sizeof(*clusters));
+    float *merge_levels = g_malloc_n(n, sizeof(*merge_levels));
 
     cluster_distances = sr_distances_dup(distances);
 
@@ -259,6 +256,8 @@ sr_distances_cluster_objects(struct sr_distances *distances)
         dendrogram->merge_levels[i - 1] = merge_levels[clusters[0].objects[i]];
 
     cluster_clean(&clusters[0]);
+    g_free(clusters);
+    g_free(merge_levels);
     sr_distances_free(cluster_distances);
 
     return dendrogram;
-- 
2.43.0


From f38e05ccc15722c6be9b464c95e83771191fa966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:45 +0000
Subject: [PATCH 103/129] fix: elves: initialise libelf before opening a file

Every reading failed with 'ELF version not set' unless the caller happened to call elf_version() first.
---
 lib/elves.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/elves.c b/lib/elves.c
index b103c75..917ae36 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -132,6 +132,7 @@ sr_elf_get_procedure_linkage_table(const char *filename,
     }
 
     /* Initialize libelf on the opened file. */
+    elf_version(EV_CURRENT);
     Elf *elf = elf_begin(fd, ELF_C_READ, NULL);
     if (!elf)
     {
@@ -512,6 +513,7 @@ sr_elf_get_eh_frame(const char *filename,
     }
 
     /* Initialize libelf on the opened file. */
+    elf_version(EV_CURRENT);
     Elf *elf = elf_begin(fd, ELF_C_READ, NULL);
     if (!elf)
     {
-- 
2.43.0


From 5e8778926f36639b01284ceb0358d54a3b9e8c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:45 +0000
Subject: [PATCH 104/129] fix: elves: compute function starts from load
 addresses

PC-relative starts were taken relative to the file offset of .eh_frame, and were not made relative to the executable segment, so start_address + exec_base was not the function's address unless that segment starts the file. Records in the 64-bit format were read 4 bytes off, and negative 4-byte absolute addresses lost their sign.
---
 lib/elves.c | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/lib/elves.c b/lib/elves.c
index 917ae36..d47454b 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -385,6 +385,7 @@ struct cie
     Dwarf_Off cie_offset;
     int ptr_len;
     bool pcrel;
+    bool is_signed;
 
     struct cie *next;
 };
@@ -441,6 +442,9 @@ read_cie(Dwarf_CFI_Entry *cfi,
             if ((*augmentation_data & 0x70) == DW_EH_PE_pcrel)
                 cie->pcrel = true;
 
+            if (*augmentation_data & DW_EH_PE_signed)
+                cie->is_signed = true;
+
             return cie;
         case 'L':
             ++augmentation_data;
@@ -722,8 +726,8 @@ sr_elf_get_eh_frame(const char *filename,
                 return NULL;
             }
 
-            /* Read the two numbers we need and if they are PC-relative,
-             * compute the offset from VMA base
+            /* Read the two numbers we need and convert the first one to an
+             * offset from the executable base.
              */
 
             uint64_t initial_location = fde_read_address(cfi.fde.start,
@@ -732,25 +736,19 @@ sr_elf_get_eh_frame(const char *filename,
             uint64_t address_range = fde_read_address(cfi.fde.start + cie->ptr_len,
                                                       cie->ptr_len);
 
+            if (cie->is_signed && cie->ptr_len == 4)
+                initial_location = (int64_t)(int32_t)initial_location;
+
+            /* PC-relative means relative to the address at which the number
+             * itself is loaded; otherwise the number is the address. */
             if (cie->pcrel)
-            {
-                /* We need to determine how long is the 'length' (and
-                 * consequently CIE id) field of this FDE -- it can be
-                 * either 4 or 12 bytes long. */
-                uint64_t length = fde_read_address(section_data->d_buf + cfi_offset, 4);
-                uint64_t skip = (length == 0xffffffffUL ? 12 : 4);
-                uint64_t mask = (cie->ptr_len == 4 ? 0xffffffffUL : 0xffffffffffffffffUL);
-                initial_location += shdr.sh_offset + cfi_offset + 2 * skip;
-                initial_location &= mask;
-            }
-            else
-            {
-                /* Assuming that not pcrel means absolute address
-                 * (what if the file is a library?).  Convert to
-                 * text-section-start-relative.
-                 */
-                initial_location -= exec_base;
-            }
+                initial_location += shdr.sh_addr +
+                    (cfi.fde.start - (const uint8_t *)section_data->d_buf);
+
+            /* Convert to executable-segment-start-relative. */
+            initial_location -= exec_base;
+            if (e_ident[EI_CLASS] == ELFCLASS32)
+                initial_location &= 0xffffffffUL;
 
             struct sr_elf_fde *fde = g_malloc(sizeof(*fde));
             fde->exec_base = exec_base;
-- 
2.43.0


From 69affe83f7060f5c2b70e4dfbfac9c15c180ae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:45 +0000
Subject: [PATCH 105/129] fix: elves: find the relocations of .plt of current
 linkers

Their sh_info names .got.plt (or .got), so that no PLT could be read.
---
 lib/elves.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/lib/elves.c b/lib/elves.c
index d47454b..a88bfe5 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -168,6 +168,18 @@ sr_elf_get_procedure_linkage_table(const char *filename,
     /* Find the relocation section for .plt (typically .rela.plt), together
      * with its symbol and string table
      */
+    size_t shdr_string_index;
+    if (0 != elf_getshdrstrndx(elf, &shdr_string_index))
+    {
+        *error_message = g_strdup_printf("elf_getshdrstrndx failed for %s: %s",
+                                     filename,
+                                     elf_errmsg(-1));
+
+        elf_end(elf);
+        close(fd);
+        return NULL;
+    }
+
     uint64_t plt_base = shdr.sh_addr;
     Elf_Data *rela_plt_data = NULL;
     Elf_Data *plt_symbols = NULL;
@@ -186,8 +198,13 @@ sr_elf_get_procedure_linkage_table(const char *filename,
             return NULL;
         }
 
+        /* The section whose relocations these are (sh_info) is .plt for old
+         * linkers, and the table .plt jumps through (.got.plt or .got) for
+         * new ones. */
+        const char *section_name = elf_strptr(elf, shdr_string_index, shdr.sh_name);
         if (shdr.sh_type == SHT_RELA &&
-            shdr.sh_info == plt_section_index)
+            (shdr.sh_info == plt_section_index ||
+             (section_name && 0 == strcmp(section_name, ".rela.plt"))))
         {
             rela_plt_data = elf_getdata(section, NULL);
             if (!rela_plt_data)
-- 
2.43.0


From 2cfc1a73c0888897469a9143e8100e80ff3b8f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:45 +0000
Subject: [PATCH 106/129] fix: elves: read PLT slots within the section and
 unaligned

---
 lib/elves.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/elves.c b/lib/elves.c
index a88bfe5..ee6a5bf 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -290,12 +290,13 @@ sr_elf_get_procedure_linkage_table(const char *filename,
      *   3463e0103b:   e9 d0 ff ff ff          jmpq   3463e01010 <_init+0x18>
      */
     struct sr_elf_plt_entry *result = NULL, *last = NULL;
-    for (unsigned plt_offset = 16; plt_offset < plt_data->d_size; plt_offset += 16)
+    for (size_t plt_offset = 16; plt_offset + 16 <= plt_data->d_size; plt_offset += 16)
     {
-        uint32_t *plt_index = (uint32_t*)(plt_data->d_buf + plt_offset + 7);
+        uint32_t plt_index;
+        memcpy(&plt_index, (const char *)plt_data->d_buf + plt_offset + 7, sizeof(plt_index));
 
         GElf_Rela rela;
-        if (gelf_getrela(rela_plt_data, *plt_index, &rela) != &rela)
+        if (gelf_getrela(rela_plt_data, plt_index, &rela) != &rela)
         {
             *error_message = g_strdup_printf("gelf_getrela failed for %s: %s",
                                          filename,
-- 
2.43.0


From 33b1d1172416ecb7f9f9d60a0a57bffd38ecd221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:45 +0000
Subject: [PATCH 107/129] fix: elves: refuse sections without data

.plt and .eh_frame of separate debuginfo files have a size but no data, which crashed the reader.
---
 lib/elves.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/elves.c b/lib/elves.c
index ee6a5bf..999aaf3 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -104,6 +104,13 @@ find_elf_section_by_name(Elf *elf,
                 return 0;
             }
 
+            /* E.g. most sections of separate debuginfo files. */
+            if (!(*data_dest)->d_buf)
+            {
+                *error_message = g_strdup_printf("Section %s has no data", section_name);
+                return 0;
+            }
+
             /* Save the section header. */
             *shdr_dest = shdr;
             return section_index;
-- 
2.43.0


From f0b78e81543f44f038403a5c83cd282a183786c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:45 +0000
Subject: [PATCH 108/129] fix: elves: do not read past truncated CIEs and FDEs

---
 lib/elves.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/lib/elves.c b/lib/elves.c
index 999aaf3..dd3a14e 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -447,11 +447,21 @@ read_cie(Dwarf_CFI_Entry *cfi,
      */
     const char *augmentation = cfi->cie.augmentation;
     const uint8_t *augmentation_data = cfi->cie.augmentation_data;
+    const uint8_t *augmentation_end = augmentation_data + cfi->cie.augmentation_data_size;
     if (*augmentation == 'z')
         ++augmentation;
 
     while (*augmentation != '\0')
     {
+        /* Each of 'R', 'L' and 'P' starts with an encoding byte. */
+        if (strchr("RLP", *augmentation) && augmentation_data >= augmentation_end)
+        {
+            *error_message = g_strdup_printf("Truncated augmentation data (CIE %jx)",
+                                         (uintmax_t)cfi_offset);
+            g_free(cie);
+            return NULL;
+        }
+
         switch (*augmentation)
         {
         case 'R':
@@ -486,7 +496,10 @@ read_cie(Dwarf_CFI_Entry *cfi,
                 return NULL;
             }
 
-            augmentation_data += size + 1;
+            if (size >= augmentation_end - augmentation_data)
+                augmentation_data = augmentation_end;
+            else
+                augmentation_data += size + 1;
             break;
         }
         default:
@@ -751,6 +764,19 @@ sr_elf_get_eh_frame(const char *filename,
                 return NULL;
             }
 
+            if (cfi.fde.end - cfi.fde.start < 2 * cie->ptr_len)
+            {
+                *error_message = g_strdup_printf("Truncated FDE %jx in %s",
+                                             (uintmax_t)cfi_offset,
+                                             filename);
+
+                cie_free(cie_list);
+                sr_elf_eh_frame_free(result);
+                elf_end(elf);
+                close(fd);
+                return NULL;
+            }
+
             /* Read the two numbers we need and convert the first one to an
              * offset from the executable base.
              */
-- 
2.43.0


From b713859e741e85f0c299565bcc7a9d442397da59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:46 +0000
Subject: [PATCH 109/129] fix: callgraph: free the instructions of each
 function

---
 lib/callgraph.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/callgraph.c b/lib/callgraph.c
index 530e8a6..1b8845d 100644
--- a/lib/callgraph.c
+++ b/lib/callgraph.c
@@ -52,6 +52,7 @@ sr_callgraph_compute(struct sr_disasm_state *disassembler,
         }
 
         entry->callees = sr_disasm_get_callee_addresses(instructions);
+        sr_disasm_instructions_free(instructions);
 
         if (result)
         {
@@ -109,6 +110,7 @@ sr_callgraph_extend(struct sr_callgraph *callgraph,
     }
 
     entry->callees = sr_disasm_get_callee_addresses(instructions);
+    sr_disasm_instructions_free(instructions);
 
     if (callgraph)
     {
-- 
2.43.0


From 18dcbf6d73a293847d4cc2642a4afb7410027cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:46 +0000
Subject: [PATCH 110/129] fix: callgraph: use function addresses in
 sr_callgraph_compute

Its entries held starts relative to the executable segment, while callees (and the entries made by sr_callgraph_extend) are addresses.
---
 lib/callgraph.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/callgraph.c b/lib/callgraph.c
index 1b8845d..35d584e 100644
--- a/lib/callgraph.c
+++ b/lib/callgraph.c
@@ -34,13 +34,13 @@ sr_callgraph_compute(struct sr_disasm_state *disassembler,
     while (fde_entry)
     {
         struct sr_callgraph *entry = g_malloc(sizeof(*entry));
-        entry->address = fde_entry->start_address;
+        entry->address = fde_entry->exec_base + fde_entry->start_address;
         entry->callees = NULL;
         entry->next = NULL;
 
         char **instructions = sr_disasm_get_function_instructions(
             disassembler,
-            fde_entry->start_address,
+            entry->address,
             fde_entry->length,
             error_message);
 
-- 
2.43.0


From 5facecdd9fc48f5eb901fde04a10464af12ae09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:57 +0000
Subject: [PATCH 111/129] fix: ruby: open the stack traces of Ruby and
 JavaScript reports

---
 ruby/lib/satyr.rb | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ruby/lib/satyr.rb b/ruby/lib/satyr.rb
index 1a3a2ed..9fcf89c 100644
--- a/ruby/lib/satyr.rb
+++ b/ruby/lib/satyr.rb
@@ -19,7 +19,9 @@ module Satyr
                          :python,
                          :kerneloops,
                          :java,
-                         :gdb ]
+                         :gdb,
+                         :ruby,
+                         :javascript ]
 
     enum :duphash_flags, [ :normal, 1 << 0,
                            :nohash, 1 << 1,
@@ -35,6 +37,8 @@ module Satyr
     attach_function :sr_koops_stacktrace_dup, [:pointer], :pointer
     attach_function :sr_java_stacktrace_dup, [:pointer], :pointer
     attach_function :sr_gdb_stacktrace_dup, [:pointer], :pointer
+    attach_function :sr_ruby_stacktrace_dup, [:pointer], :pointer
+    attach_function :sr_js_stacktrace_dup, [:pointer], :pointer
     attach_function :sr_stacktrace_free, [:pointer], :void
 
     attach_function :sr_thread_dup, [:pointer], :pointer
@@ -122,6 +126,10 @@ module Satyr
         Satyr::FFI.sr_java_stacktrace_dup(stacktrace)
       when :gdb
         Satyr::FFI.sr_gdb_stacktrace_dup(stacktrace)
+      when :ruby
+        Satyr::FFI.sr_ruby_stacktrace_dup(stacktrace)
+      when :javascript
+        Satyr::FFI.sr_js_stacktrace_dup(stacktrace)
       else
         raise SatyrError, "Invalid report type"
       end
-- 
2.43.0


From ad1844e44780a93ea4455beaa2442167a72eb814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:11 +0000
Subject: [PATCH 112/129] fix: ruby: release the name and version of the
 reporter

---
 ruby/lib/satyr.rb | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ruby/lib/satyr.rb b/ruby/lib/satyr.rb
index 9fcf89c..a3eda4b 100644
--- a/ruby/lib/satyr.rb
+++ b/ruby/lib/satyr.rb
@@ -29,6 +29,7 @@ module Satyr
                            :koops_compat, 1 << 3 ]
 
     attach_function :sr_report_from_json_text, [:string, :pointer], :pointer
+    attach_function :sr_report_new, [], :pointer
     attach_function :sr_report_free, [:pointer], :void
 
     attach_function :sr_stacktrace_find_crash_thread, [:pointer], :pointer
@@ -59,7 +60,15 @@ module Satyr
         :rpm_packages, :pointer,
         :stacktrace, :pointer
 
+      # sr_report_free does not release the name and version of the reporter,
+      # the ones that do not come from JSON are constants
       def self.release(pointer)
+        defaults = Satyr::FFI.sr_report_new
+        [:reporter_name, :reporter_version].each do |field|
+          string = pointer.get_pointer offset_of(field)
+          Satyr::FFI.free string if string != defaults.get_pointer(offset_of(field))
+        end
+        Satyr::FFI.sr_report_free defaults
         Satyr::FFI.sr_report_free pointer
       end
     end
-- 
2.43.0


From c03b084964918abbf18acc2f42a06184d10ae2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:43 +0000
Subject: [PATCH 113/129] fix: ruby: load the library of the current version

---
 ruby/lib/satyr.rb | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ruby/lib/satyr.rb b/ruby/lib/satyr.rb
index a3eda4b..f5f39b6 100644
--- a/ruby/lib/satyr.rb
+++ b/ruby/lib/satyr.rb
@@ -12,7 +12,7 @@ module Satyr
   module FFI
     extend ::FFI::Library
 
-    ffi_lib 'libsatyr.so.3', ::FFI::Library::LIBC
+    ffi_lib 'libsatyr.so.4', ::FFI::Library::LIBC
 
     enum :report_type, [ :invalid, 0,
                          :core,
@@ -122,7 +122,7 @@ module Satyr
       stacktrace = @struct[:stacktrace]
       return nil if stacktrace.null?
 
-      # There's no sr_stacktrace_dup in libsatyr.so.3, we've got to find out
+      # There's no sr_stacktrace_dup in libsatyr.so.4, we've got to find out
       # the type ourselves.
       dup = case @struct[:type]
       when :core
-- 
2.43.0


From be81108b037d2a55fe42e886c9c83e136da92a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:49 +0000
Subject: [PATCH 114/129] fix: rpm: find installed packages without epoch

---
 lib/rpm.c | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 735bc4e..35a63b6 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -336,15 +336,11 @@ header_to_rpm_info(Header header,
         return NULL;
     }
 
-    bool success = header_get_uint32(header, RPMTAG_EPOCH, &rpm->epoch);
-    if (!success)
-    {
-        *error_message = g_strdup_printf("Failed to find package epoch.");
-        sr_rpm_package_free(rpm, false);
-        return NULL;
-    }
+    /* Most packages have no epoch, which is the same as zero. */
+    if (!header_get_uint32(header, RPMTAG_EPOCH, &rpm->epoch))
+        rpm->epoch = 0;
 
-    success = header_get_string(header, RPMTAG_VERSION, &rpm->version);
+    bool success = header_get_string(header, RPMTAG_VERSION, &rpm->version);
     if (!success)
     {
         *error_message = g_strdup_printf("Failed to find package version.");
-- 
2.43.0


From 95720baeaceddbc2ffaf52e95047cc399e8ff5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:44 +0000
Subject: [PATCH 115/129] fix: rpm: do not leak the tag data of missing tags

---
 lib/rpm.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 35a63b6..5fbaf38 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -293,7 +293,10 @@ header_get_string(Header header,
                             HEADERGET_DEFAULT);
 
     if (success != 1)
+    {
+        rpmtdFree(tag_data);
         return false;
+    }
 
     const char *str = rpmtdGetString(tag_data);
     *result = (str ? g_strdup(str) : NULL);
@@ -313,7 +316,10 @@ header_get_uint32(Header header,
                             HEADERGET_DEFAULT);
 
     if (success != 1)
+    {
+        rpmtdFree(tag_data);
         return false;
+    }
 
     uint32_t *num = rpmtdGetUint32(tag_data);
     if (num)
-- 
2.43.0


From 842bae6c65e89f8267634dc664b1d6b474fac2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:56 +0000
Subject: [PATCH 116/129] fix: unstrip: do not read the numbers of a module
 from the next line

scanf conversions skip whitespace including newlines, so a truncated
line "0x" followed by a line starting with a number was taken for a
module.
---
 lib/unstrip.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/unstrip.c b/lib/unstrip.c
index 7dd8587..920726d 100644
--- a/lib/unstrip.c
+++ b/lib/unstrip.c
@@ -48,14 +48,15 @@ sr_unstrip_parse(const char *unstrip_output)
         /* START+SIZE */
         uint64_t start;
         uint64_t length;
-        int chars_read;
-        int ret = sscanf(line, "0x%"PRIx64"+0x%"PRIx64"%n",
-                         &start, &length, &chars_read);
-
-        if (ret < 2)
+        const char *numbers = line;
+        if (!sr_parse_hexadecimal_0xuint64(&numbers, &start) ||
+            !sr_skip_char(&numbers, '+') ||
+            !sr_parse_hexadecimal_0xuint64(&numbers, &length))
+        {
             goto eat_line;
+        }
 
-        line = skip_blanks(line + chars_read);
+        line = skip_blanks(numbers);
 
         /* BUILDID */
         const char *build_id = line;
-- 
2.43.0


From 067c2f366bf36646b60b6ebe7479e04ba0421cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:09 +0000
Subject: [PATCH 117/129] fix: gdb_frame: read the whole name of a source file

---
 lib/gdb_frame.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index f66bfb4..7992aab 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -1091,15 +1091,30 @@ sr_gdb_frame_parse_file_location(const char **input,
         return false;
     }
 
-    char *file_name;
-    chars = sr_parse_char_span(&local_input, SR_alnum "_/\\+.-", &file_name);
-    location->column += chars;
-    if (0 == chars)
+    /* The file name may contain any characters, it ends at the end of the line
+     * or at the line number that ends the line.
+     */
+    size_t name_length = strcspn(local_input, "\r\n");
+    while (name_length > 0 && g_ascii_isspace(local_input[name_length - 1]))
+        --name_length;
+
+    size_t digits_start = name_length;
+    while (digits_start > 0 && g_ascii_isdigit(local_input[digits_start - 1]))
+        --digits_start;
+
+    if (digits_start < name_length && digits_start > 0 && local_input[digits_start - 1] == ':')
+        name_length = digits_start - 1;
+
+    if (0 == name_length)
     {
         location->message = "Expected a file name.";
         return false;
     }
-    
+
+    char *file_name = g_strndup(local_input, name_length);
+    local_input += name_length;
+    location->column += name_length;
+
     /* If the parsed file_name contains "/lib" and then ".so." or ends with ".so",
      * it is most certainly a shared object, not a source file, so disregard it.
      * See RHBZ#1239318 */
-- 
2.43.0


From e939dec9533688a86b1bc49b1712ce2b12859006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:36 +0000
Subject: [PATCH 118/129] fix: gdb_frame: accept parentheses and quotes as
 characters in the arguments

---
 lib/gdb_frame.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 7992aab..d9896fa 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -889,6 +889,13 @@ sr_gdb_frame_skip_function_args(const char **input,
         {
             if (*local_input == '"')
                 string = true;
+            else if (*local_input == '\'' && local_input[1] != '\0' &&
+                     local_input[2] == '\'')
+            {
+                /* A character, which may be a parenthesis or a quote: 40 '(' */
+                for (int i = 0; i < 2; ++i)
+                    sr_location_eat_char(location, *local_input++);
+            }
             else if (*local_input == '(')
                 ++depth;
             else if (*local_input == ')')
-- 
2.43.0


From 0216e7673ee5634e8684cf9b2c5db3aea32736cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:04 +0000
Subject: [PATCH 119/129] fix: gdb_frame: accept the names of lambda functions
 and the spaceship operator

---
 lib/gdb_frame.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index d9896fa..f84ea77 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -407,7 +407,7 @@ sr_gdb_frame_parseadd_operator(const char **input,
     }
 
     OP(">>=")OP(">>")OP(">=")OP(">");
-    OP("<<=")OP("<<")OP("<=")OP("<");
+    OP("<<=")OP("<<")OP("<=>")OP("<=")OP("<");
     OP("->*")OP("->")OP("-");
     OP("==")OP("=");
     OP("&&")OP("&=")OP("&");
@@ -431,7 +431,10 @@ sr_gdb_frame_parseadd_operator(const char **input,
     return 0;
 }
 
-#define FUNCTION_NAME_CHARS SR_alnum "@.:=!*+-[]~&/%^|,_"
+/* The braces, the hash sign, the dollar sign and the apostrophe appear in the
+ * names of lambda functions and unnamed types: {lambda(int)#1}, $_0, 'lambda'
+ */
+#define FUNCTION_NAME_CHARS SR_alnum "@.:=!*+-[]~&/%^|,_{}#$'"
 
 int
 sr_gdb_frame_parse_function_name_chunk(const char **input,
@@ -668,6 +671,7 @@ sr_gdb_frame_parse_function_name(const char **input,
        '.' on ppc64
        '_a-zA-Z' for mangled/nonmangled function name
        '(' to start "(anonymous namespace)::" or something
+       '<' to start "<lambda()>::" or "<Type as Trait>::"
      */
     char first;
     char *namechunk;
@@ -686,6 +690,19 @@ sr_gdb_frame_parse_function_name(const char **input,
     {
         int chars = sr_gdb_frame_parse_function_name_braces(&local_input,
                                                             &namechunk);
+        if (0 == chars)
+        {
+            chars = sr_gdb_frame_parse_function_name_template(&local_input,
+                                                              &namechunk);
+
+            /* Unlike "<signal handler called>". */
+            if (0 < chars && 0 != strncmp(local_input, "::", strlen("::")))
+            {
+                g_free(namechunk);
+                chars = 0;
+            }
+        }
+
         if (0 < chars)
         {
             g_string_append(buf0, namechunk);
-- 
2.43.0


From 72fcec9a8e6edff386a61bdf07d47b75d0a59a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:23 +0000
Subject: [PATCH 120/129] fix: gdb_frame: parse conversion operators, thunks
 and clones

---
 lib/gdb_frame.c | 90 ++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 89 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index f84ea77..b7e989d 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -431,6 +431,41 @@ sr_gdb_frame_parseadd_operator(const char **input,
     return 0;
 }
 
+/* Conversion to a type, which may consist of several words: operator bool,
+ * operator char const*
+ */
+static int
+parseadd_conversion(const char **input, GString *target)
+{
+    const char *local_input = *input;
+
+    /* The end of a longer name? */
+    if (target->len > 0 && (g_ascii_isalnum(target->str[target->len - 1]) ||
+                            target->str[target->len - 1] == '_'))
+    {
+        return 0;
+    }
+
+    if (0 == sr_skip_string(&local_input, "operator"))
+        return 0;
+
+    const char *type = local_input;
+    while (*type == ' ' && (g_ascii_isalpha(type[1]) || type[1] == '_'))
+    {
+        ++type;
+        while (g_ascii_isalnum(*type) || (*type != '\0' && strchr("_:*&", *type)))
+            ++type;
+    }
+
+    if (type == local_input)
+        return 0;
+
+    int length = type - *input;
+    g_string_append_len(target, *input, length);
+    *input = type;
+    return length;
+}
+
 /* The braces, the hash sign, the dollar sign and the apostrophe appear in the
  * names of lambda functions and unnamed types: {lambda(int)#1}, $_0, 'lambda'
  */
@@ -461,6 +496,8 @@ sr_gdb_frame_parse_function_name_chunk(const char **input,
                     g_string_append_c(buf, ' ');
             }
         }
+        else if (0 < parseadd_conversion(&local_input, buf))
+            continue;
 
         /* The operator may be the end of the input. */
         if (*local_input == '\0')
@@ -646,6 +683,32 @@ sr_gdb_frame_parse_function_name_template(const char **input, char **target)
     return parse_function_name_template(input, target, 0);
 }
 
+/* Functions made by the compiler from other ones have suffixes such as
+ * " [clone .isra.0]". The space preceding the first one is already read; reads
+ * the space after the last one.
+ */
+static bool
+parse_clone_suffixes(const char **input, GString *target, char *space,
+                     struct sr_location *location)
+{
+    while (0 < sr_skip_string(input, "[clone "))
+    {
+        size_t length = strcspn(*input, "]\n");
+        g_string_append_printf(target, "%c[clone %.*s]", *space, (int)length, *input);
+        sr_location_eat_char(location, *space);
+        location->column += strlen("[clone ]") + length;
+        *input += length;
+
+        if (!sr_skip_char(input, ']') ||
+            !sr_parse_char_limited(input, SR_space, space))
+        {
+            return false;
+        }
+    }
+
+    return true;
+}
+
 bool
 sr_gdb_frame_parse_function_name(const char **input,
                                  char **function_name,
@@ -669,13 +732,14 @@ sr_gdb_frame_parse_function_name(const char **input,
        '~' for destructor
        '*' for ????
        '.' on ppc64
+       '$', '{' for lambda functions
        '_a-zA-Z' for mangled/nonmangled function name
        '(' to start "(anonymous namespace)::" or something
        '<' to start "<lambda()>::" or "<Type as Trait>::"
      */
     char first;
     char *namechunk;
-    if (sr_parse_char_limited(&local_input, "~*._" SR_alnum, &first))
+    if (sr_parse_char_limited(&local_input, "~*._${" SR_alnum, &first))
     {
         /* If it's a start of 'o'perator, put the 'o' back! */
         if (first == 'o')
@@ -774,6 +838,13 @@ sr_gdb_frame_parse_function_name(const char **input,
         }
     }
 
+    if (!parse_clone_suffixes(&local_input, buf0, &space, location))
+    {
+        g_string_free(buf0, TRUE);
+        location->message = "Space or newline expected after function name.";
+        return false;
+    }
+
     /* Maybe the first series was just a type of the function, and now
        the real function follows. Now, we know it must not start with
        '(', nor with '<'. */
@@ -847,6 +918,14 @@ sr_gdb_frame_parse_function_name(const char **input,
         }
     }
 
+    if (buf1 && !parse_clone_suffixes(&local_input, buf1, &space, location))
+    {
+        g_string_free(buf0, TRUE);
+        g_string_free(buf1, TRUE);
+        location->message = "Space or newline expected after function name.";
+        return false;
+    }
+
     /* Return back to the empty space. */
     --local_input;
 
@@ -1064,6 +1143,15 @@ sr_gdb_frame_parse_address_in_function(const char **input,
                 return false;
             }
         }
+        else
+        {
+            /* C++ specific case for "0xfafa in non-virtual thunk to function ()" */
+            chars = sr_skip_string(&local_input, "non-virtual thunk to ");
+            if (0 == chars)
+                chars = sr_skip_string(&local_input, "virtual thunk to ");
+
+            location->column += chars;
+        }
     }
 
     if (!sr_gdb_frame_parse_function_call(&local_input,
-- 
2.43.0


From 0cbb886fa5303dc76886cc900bf8bbc55aaecc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:54 +0000
Subject: [PATCH 121/129] fix: gdb_thread: accept the name and the state of a
 thread in its header

---
 lib/gdb_thread.c | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index 8a02628..26d300f 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -308,6 +308,32 @@ sr_gdb_thread_append_to_str(struct sr_gdb_thread *thread,
     }
 }
 
+/* Newer GDB prints the name of the thread and what else it knows about its
+ * state after the identification numbers:
+ * "Thread 8 (Thread 0xb07fdb70 (LWP 6357) "gmain"):"
+ * "Thread 8 (Thread 0xb07fdb70 (LWP 6357) "gmain" (Exiting)):"
+ * "Thread 8 (LWP 6357 "gmain"):"
+ * The name might contain any characters, so only the end of the header line
+ * tells where it ends.
+ */
+static int
+skip_thread_details(const char **input)
+{
+    const char *local_input = *input;
+
+    sr_skip_char_sequence(&local_input, ' ');
+    if (*local_input != '"' && *local_input != '(')
+        return 0;
+
+    const char *end = strchr(local_input, '\n');
+    if (!end || end - local_input < 3 || 0 != strncmp(end - 2, "):", 2))
+        return 0;
+
+    int count = end - 2 - *input;
+    *input = end - 2;
+    return count;
+}
+
 struct sr_gdb_thread *
 sr_gdb_thread_parse(const char **input,
                     struct sr_location *location)
@@ -380,6 +406,7 @@ sr_gdb_thread_parse(const char **input,
             /* Handle the optional " (LWP [0-9]+)" section. */
             location->column += sr_skip_char_sequence(&local_input, ' ');
             location->column += sr_gdb_thread_parse_lwp(&local_input, &imthread->tid);
+            location->column += skip_thread_details(&local_input);
 
             /* Read the end of the parenthesis. */
             if (!sr_skip_char(&local_input, ')'))
@@ -450,6 +477,7 @@ sr_gdb_thread_parse_lwp(const char **input, uint32_t *tid)
     if (0 == digits)
         return 0;
     count += digits;
+    count += skip_thread_details(&local_input);
     if (!sr_skip_char(&local_input, ')'))
         return 0;
     *input = local_input;
-- 
2.43.0


From f0ed1e0f63c561cb1c84a798d06249bf5a03f4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:20 +0000
Subject: [PATCH 122/129] fix: gdb_frame: accept the names of literal operators

---
 lib/gdb_frame.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index b7e989d..1fb0205 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -432,7 +432,7 @@ sr_gdb_frame_parseadd_operator(const char **input,
 }
 
 /* Conversion to a type, which may consist of several words: operator bool,
- * operator char const*
+ * operator char const*, or a literal operator: operator"" _km
  */
 static int
 parseadd_conversion(const char **input, GString *target)
@@ -450,6 +450,13 @@ parseadd_conversion(const char **input, GString *target)
         return 0;
 
     const char *type = local_input;
+    if (0 < sr_skip_string(&type, "\"\""))
+    {
+        sr_skip_char(&type, ' ');
+        while (g_ascii_isalnum(*type) || *type == '_')
+            ++type;
+    }
+
     while (*type == ' ' && (g_ascii_isalpha(type[1]) || type[1] == '_'))
     {
         ++type;
-- 
2.43.0


From ebb6eb3bf5f1e351ff50e42d8b5a62c9d3eec242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:22 +0000
Subject: [PATCH 123/129] fix: ruby_stacktrace: parse what the interpreter
 prints

The interpreter puts the class behind the first line of a message of
several lines, error_highlight and did_you_mean make every such message
longer, and long stacktraces have their middle left out. The causes of
the exception follow its frames. A tab in the message is no frame.
---
 lib/ruby_stacktrace.c | 143 +++++++++++++++++++++++++-----------------
 1 file changed, 85 insertions(+), 58 deletions(-)

diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 3c755dc..4313d7b 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -125,13 +125,42 @@ sr_ruby_stacktrace_dup(struct sr_ruby_stacktrace *stacktrace)
     return result;
 }
 
+/* The class in parentheses at the end of the line, NULL when there is none. */
+static char *
+ruby_parse_class(const char *line, const char *end)
+{
+    if (end == line || *--end != ')')
+        return NULL;
+
+    const char *begin = end;
+    while (begin > line && begin[-1] != '(')
+        begin--;
+
+    return begin == line || begin == end ? NULL : g_strndup(begin, end - begin);
+}
+
+/* Other text may be in parentheses at the end of the line as well. */
+static bool
+ruby_is_class_name(const char *name)
+{
+    if (g_str_has_prefix(name, "#<Class:"))
+        return true;
+
+    if (!g_ascii_isupper(*name) && !(*name & 0x80))
+        return false;
+
+    while (g_ascii_isalnum(*name) || *name == '_' || *name == ':' || *name & 0x80)
+        name++;
+
+    return *name == '\0';
+}
+
 struct sr_ruby_stacktrace *
 sr_ruby_stacktrace_parse(const char **input,
                          struct sr_location *location)
 {
     const char *local_input = *input;
     struct sr_ruby_stacktrace *stacktrace = sr_ruby_stacktrace_new();
-    char *message_and_class = NULL;
 
     /* /some/thing.rb:13:in `method': exception message (Exception::Class)\n\tfrom ...
      * ^^^^^^^^^^^^^^^^^^^^^^^^^^^^^
@@ -155,85 +184,84 @@ sr_ruby_stacktrace_parse(const char **input,
     location->column += strlen(": ");
 
     /* /some/thing.rb:13:in `method': exception message (Exception::Class)\n\tfrom ...
-     *                                ^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^
+     *                                ^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^
      */
-    if (!sr_parse_char_cspan(&local_input, "\t", &message_and_class))
+    const char *end = strstr(local_input, "\n\tfrom ");
+    if (!end)
     {
-        location->message = "Unable to find the exception type and message.";
-        goto fail;
+        end = local_input + strlen(local_input);
+        if (end == local_input || end[-1] != '\n')
+        {
+            location->column += end - local_input;
+            location->message = "Unable to find the new line character after "
+                                          "the end of exception class";
+            goto fail;
+        }
+        end--;
     }
 
-    /* /some/thing.rb:13:in `method': exception message (Exception::Class)\n\tfrom ...
-     *                                                                    ^^
+    /* The message may have several lines. The class follows the last of them,
+     * but the interpreter itself prints it at the end of the first one.
      */
-    size_t l = strlen(message_and_class);
-    location->column += l;
-
-    char *p = message_and_class + l - 1;
-    if (p < message_and_class || *p != '\n')
+    const char *last_line = end;
+    while (last_line > local_input && last_line[-1] != '\n')
+        last_line--;
+
+    stacktrace->exception_name = ruby_parse_class(last_line, end);
+    if (last_line != local_input &&
+        (!stacktrace->exception_name ||
+         !ruby_is_class_name(stacktrace->exception_name)))
     {
-        location->column--;
-        location->message = "Unable to find the new line character after "
-                                      "the end of exception class";
-        goto fail;
-    }
+        char *name = ruby_parse_class(local_input,
+                                      local_input + strcspn(local_input, "\n"));
 
-    /* /some/thing.rb:13:in `method': exception message (Exception::Class)\n\tfrom ...
-     *                                                                   ^
-     */
-    p--;
-    if (p < message_and_class || *p != ')')
-    {
-        location->column -= 2;
-        location->message = "Unable to find the ')' character identifying "
-                                      "the end of exception class";
-        goto fail;
+        if (name && (!stacktrace->exception_name || ruby_is_class_name(name)))
+        {
+            g_free(stacktrace->exception_name);
+            stacktrace->exception_name = name;
+        }
+        else
+            g_free(name);
     }
 
-    /* /some/thing.rb:13:in `method': exception message (Exception::Class)\n\tfrom ...
-     *                                                   ^^^^^^^^^^^^^^^^
-     */
-    *p = '\0';
-    do {
-        p--;
-    } while (p >= message_and_class && *p != '(');
-    p++;
-
-    if (strlen(p) <= 0)
+    if (!stacktrace->exception_name)
     {
-        location->message = "Unable to find the '(' character identifying "
-                                      "the beginning of the exception class";
+        location->column += end - local_input;
+        location->message = "Unable to find the exception class in "
+                                      "parentheses after the message.";
         goto fail;
     }
-    stacktrace->exception_name = g_strdup(p);
 
     /* /some/thing.rb:13:in `method': exception message (Exception::Class)\n\tfrom ...
-     *                                                  ^
+     *                                   we're here now, increment the line ^^
      */
-    p--;
-    if (p < message_and_class || *p != '(')
+    while (local_input <= end)
     {
-        location->message = "Unable to find the '(' character identifying "
-                                      "the beginning of the exception class";
-        goto fail;
+        if (*local_input++ == '\n')
+            location->line++;
     }
-
-    /* Throw away the message, it may contain sensitive data. */
-    g_free(message_and_class);
-    message_and_class = p = NULL;
-
-    /* /some/thing.rb:13:in `method': exception message (Exception::Class)\n\tfrom ...
-     *                                   we're here now, increment the line ^^
-     */
     location->column = 0;
-    location->line++;
 
     struct sr_ruby_frame *last_frame = stacktrace->frames;
     while (*local_input)
     {
-        /* The exception message can continue on the lines after the topmost frame
-         * - skip those.
+        /* The exceptions that caused this one may follow its frames. */
+        if (*local_input != '\t')
+            break;
+
+        /* The interpreter leaves out the middle of long stacktraces:
+         * \t ... 11885 levels...
          */
+        if (g_str_has_prefix(local_input, "\t ... "))
+        {
+            sr_skip_char_cspan(&local_input, "\n");
+            if (!sr_skip_char(&local_input, '\n'))
+                break;
+
+            location->line++;
+            continue;
+        }
+
         int skipped = sr_skip_string(&local_input, "\tfrom ");
         if (!skipped)
         {
@@ -265,7 +293,6 @@ sr_ruby_stacktrace_parse(const char **input,
 
 fail:
     sr_ruby_stacktrace_free(stacktrace);
-    g_free(message_and_class);
     return NULL;
 }
 
-- 
2.43.0


From bd5df8654b9d903600df84c90150e01ad9c4491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:22 +0000
Subject: [PATCH 124/129] fix: java_frame: skip the further lines of a message

A line of the message with "at" in it became a frame, and a reference
to an exception already shown another exception. White space at the end
of the text was refused.
---
 lib/java_frame.c | 46 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index a5cac01..54e4e04 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -32,6 +32,7 @@
 
 #define SR_JF_MARK_NATIVE_METHOD "Native Method"
 #define SR_JF_MARK_UNKNOWN_SOURCE "Unknown Source"
+#define SR_JF_MARK_CIRCULAR_REFERENCE "[CIRCULAR REFERENCE:"
 
 /* Method table */
 
@@ -275,6 +276,19 @@ sr_java_frame_parse_is_unknown_source(const char *input_mark)
                                     strlen(SR_JF_MARK_UNKNOWN_SOURCE));
 }
 
+/* Is it the first line after the message of an exception? */
+static bool
+java_line_follows_message(const char *line)
+{
+    const char *text = line;
+    bool indented = sr_skip_char_span(&text, " \t") > 0;
+
+    return g_str_has_prefix(text, "Caused by: ") ||
+           (indented && (g_str_has_prefix(text, "at ") ||
+                         g_str_has_prefix(text, "... ") ||
+                         g_str_has_prefix(text, "Suppressed: ")));
+}
+
 /* Parses one exception with its frames, and skips the suppressed exceptions
  * following it. Sets inner to true and moves the input to the name of the inner
  * exception if the exception was caused by another one.
@@ -329,6 +343,19 @@ java_frame_parse_one_exception(const char **input,
         ++cursor;
         /* this adds one line */
         sr_location_add(location, 2, 0);
+
+        /* The message may have several lines, only the first one is kept. */
+        const char *next = cursor;
+        int line = location->line, column = location->column;
+        while (*next && !java_line_follows_message(next))
+            sr_skip_to_next_line_location(&next, &line, &column);
+
+        if (*next)
+        {
+            cursor = next;
+            location->line = line;
+            location->column = column;
+        }
     }
     /* else *cursor == '\0' */
 
@@ -354,6 +381,13 @@ java_frame_parse_one_exception(const char **input,
         if (strncmp("Caused by: ", cursor, strlen("Caused by: ")) == 0)
             goto parse_inner_exception;
 
+        /* The chain of causes may get back to an exception already shown */
+        if (g_str_has_prefix(cursor, SR_JF_MARK_CIRCULAR_REFERENCE))
+            goto current_exception_done;
+
+        if (*cursor == '\0')
+            break;
+
         struct sr_java_frame *parsed = sr_java_frame_parse(&cursor, location);
 
         if (parsed == NULL)
@@ -396,6 +430,12 @@ skip_suppressed:
 
         while (cursor && isspace(*cursor))
             sr_skip_to_next_line_location(&cursor, &location->line, &location->column);
+
+        /* The further lines of a message may begin without a whitespace. */
+        const char *cause = g_str_has_prefix(cursor, "Caused by: ") ?
+                            cursor : strstr(cursor, "\nCaused by: ");
+        while (cause && cursor < cause)
+            sr_skip_to_next_line_location(&cursor, &location->line, &location->column);
     }
 
     if (strncmp("Caused by: ", cursor, strlen("Caused by: ")) == 0)
@@ -404,7 +444,11 @@ parse_inner_exception:
         cursor += strlen("Caused by: ");
         sr_location_add(location, 0, strlen("Caused by: "));
 
-        *inner = true;
+        /* An exception already shown */
+        if (g_str_has_prefix(cursor, SR_JF_MARK_CIRCULAR_REFERENCE))
+            sr_skip_to_next_line_location(&cursor, &location->line, &location->column);
+        else
+            *inner = true;
     }
 
 exception_parsing_successful:
-- 
2.43.0


From ddf3155e2ea2c081f711be32feae7de6f8e1c3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:32 +0000
Subject: [PATCH 125/129] fix: java_thread: accept quotation marks in the name

The name of a thread ended at the first of them and the rest of it was
taken for the name of the exception.
---
 lib/java_thread.c | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/lib/java_thread.c b/lib/java_thread.c
index 96e40f1..0fe26f6 100644
--- a/lib/java_thread.c
+++ b/lib/java_thread.c
@@ -312,6 +312,26 @@ sr_java_thread_append_to_str(struct sr_java_thread *thread,
     g_string_free(exception, TRUE);
 }
 
+/* The first quotation mark with a space and an exception name behind it. */
+static const char *
+java_thread_name_end(const char *name)
+{
+    const char *line_end = strchrnul(name, '\n');
+
+    for (const char *end = name; end < line_end; end++)
+    {
+        if (*end != '"' || end[1] != ' ')
+            continue;
+
+        const char *exception = end + 2;
+        size_t length = strcspn(exception, "\": \t\n");
+        if (length > 0 && exception[length] != '"')
+            return end;
+    }
+
+    return NULL;
+}
+
 struct sr_java_thread *
 sr_java_thread_parse(const char **input,
                      struct sr_location *location)
@@ -326,7 +346,13 @@ sr_java_thread_parse(const char **input,
     {
         const char *mark = cursor;
         /* main" java.lang.NullPointerException: foo */
-        sr_location_add(location, 0, sr_skip_char_cspan(&cursor, "\"\n"));
+        /* the name may contain quotes as well */
+        const char *end = java_thread_name_end(cursor);
+        if (!end)
+            end = cursor + strcspn(cursor, "\"\n");
+
+        sr_location_add(location, 0, end - cursor);
+        cursor = end;
 
         /* " java.lang.NullPointerException: foo */
         if (*cursor != '"')
-- 
2.43.0


From b06c722c3998def39d2683aa43ed7a72e2fc7ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:04 +0000
Subject: [PATCH 126/129] fix: js: parse what V8 prints

A function of the engine, whose frame has no line and column, made the
whole stacktrace refused, and so did a message of several lines and the
lack of a message. The name of a getter lost everything but "get", and
an anonymous asynchronous function had its mark in the file name.
---
 lib/js_frame.c      | 70 ++++++++++++++++++++++++++++++++++++---------
 lib/js_stacktrace.c | 36 +++++++++++++++++++++--
 2 files changed, 90 insertions(+), 16 deletions(-)

diff --git a/lib/js_frame.c b/lib/js_frame.c
index 9f46e53..b6cff47 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -186,6 +186,35 @@ sr_js_frame_append(struct sr_js_frame *dest,
     return dest;
 }
 
+/* Functions of the engine and WebAssembly have no line and column:
+ *
+ * Array.map (<anonymous>)
+ * async Promise.all (index 0)
+ * foo (wasm://wasm/c3baf37a:wasm-function[0]:0x1f)
+ */
+static bool
+js_frame_has_no_position(const char *location, const char *end, char **file_name)
+{
+    static const char *const names[] = { "<anonymous>", "native", "unknown location" };
+    const char *index = location;
+
+    if (sr_skip_string(&index, "index ") &&
+        sr_skip_char_span(&index, "0123456789") && index == end)
+    {
+        return true;
+    }
+
+    const size_t length = end - location;
+    bool found = g_str_has_prefix(location, "wasm://");
+    for (size_t i = 0; !found && i < G_N_ELEMENTS(names); ++i)
+        found = length == strlen(names[i]) && strncmp(location, names[i], length) == 0;
+
+    if (found)
+        *file_name = g_strndup(location, length);
+
+    return found;
+}
+
 struct sr_js_frame *
 sr_js_frame_parse_v8(const char **input,
                      struct sr_location *location)
@@ -240,29 +269,27 @@ sr_js_frame_parse_v8(const char **input,
         const char *name_beg = local_input;
         columns = 0;
 
-        /* Constructor calls and asynchronous functions are marked:
-         * new Object (foo.js:6:22), async foo (foo.js:6:22)
-         */
-        int mark = sr_skip_string(&local_input, "new ");
-        if (!mark)
-            mark = sr_skip_string(&local_input, "async ");
-
-        if (mark && *local_input == '(')
-            local_input -= mark; /* A function of that name. */
-        else
-            columns = mark;
+        /* The name may contain spaces: new Foo, async foo, get foo. */
+        const char *name_end = strstr(local_input, " (");
+        if (!name_end || name_end > cursor)
+            name_end = local_input + strcspn(local_input, " \n");
 
-        columns += sr_skip_char_cspan(&local_input, " \n");
-        if (!columns || *local_input != ' ')
+        columns = name_end - name_beg;
+        if (!columns || *name_end != ' ')
         {
             location->message = "White space right behind function name not found.";
             goto fail;
         }
+        local_input = name_end;
 
         /* Object.<anonymous> ([stdin]-wrapper:6:22)
          * ^^^^^^^^^^^^^^^^^^
+         *
+         * Leave out the alias: Object.foo [as bar] ([stdin]-wrapper:6:22)
          */
-        frame->function_name = g_strndup(name_beg, columns);
+        const char *alias = g_strstr_len(name_beg, columns, " [as ");
+        frame->function_name = g_strndup(name_beg, alias ? alias - name_beg : columns);
+        g_strchomp(frame->function_name);
 
         sr_location_add(location, 0, columns);
 
@@ -287,6 +314,21 @@ sr_js_frame_parse_v8(const char **input,
          */
          --cursor;
     }
+    else
+    {
+        /* Anonymous asynchronous function: async /tmp/foo.js:6:22 */
+        columns = strlen("async ");
+        if (local_input + columns <= cursor && sr_skip_string(&local_input, "async "))
+            sr_location_add(location, 0, columns);
+    }
+
+    if (js_frame_has_no_position(local_input, cursor + 1, &frame->file_name))
+    {
+        location->column += sr_skip_char_cspan(&local_input, "\n");
+
+        *input = local_input;
+        return frame;
+    }
 
     /* Beware of file name containing colon, bracket or white space.
      * That's the reason why parse these information backwards.
diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index ff6a06c..14a808f 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -130,6 +130,21 @@ sr_js_stacktrace_dup(struct sr_js_stacktrace *stacktrace)
     return result;
 }
 
+/* The engine indents the frames, a line of the message may begin with "at" too. */
+static bool
+js_is_frame(const char *line)
+{
+    const char *text = line;
+    if (sr_skip_char_span(&text, " ") > 0)
+        return g_str_has_prefix(text, "at ");
+
+    struct sr_location location;
+    sr_location_init(&location);
+    struct sr_js_frame *frame = sr_js_frame_parse_v8(&line, &location);
+    sr_js_frame_free(frame);
+    return frame != NULL;
+}
+
 struct sr_js_stacktrace *
 sr_js_stacktrace_parse_v8(const char **input,
                           struct sr_location *location)
@@ -142,7 +157,11 @@ sr_js_stacktrace_parse_v8(const char **input,
      * ^^^^^^^^^^^^^^
      */
     const int columns = sr_parse_char_cspan(&local_input, ":\n", &stacktrace->exception_name);
-    if (local_input[0] != ':')
+
+    /* There is no colon when the message is empty. */
+    const bool no_message = columns > 0 && local_input[0] == '\n' && js_is_frame(local_input + 1) &&
+                            strchr(stacktrace->exception_name, ' ') == NULL;
+    if (local_input[0] != ':' && !no_message)
     {
         location->message = "Unable to find the colon right behind exception type.";
         goto fail;
@@ -160,7 +179,7 @@ sr_js_stacktrace_parse_v8(const char **input,
      * ReferenceError: nonexistentFunc is not defined
      *               ^^
      */
-    if (!sr_skip_string(&local_input, ": "))
+    if (!no_message && !sr_skip_string(&local_input, ": "))
     {
         location->message = "Exception type not followed by white space.";
         goto fail;
@@ -178,6 +197,19 @@ sr_js_stacktrace_parse_v8(const char **input,
         goto fail;
     }
 
+    /* The message may have several lines. */
+    const char *next = local_input;
+    int line = location->line, column = location->column;
+    while (*next && !js_is_frame(next))
+        sr_skip_to_next_line_location(&next, &line, &column);
+
+    if (*next)
+    {
+        local_input = next;
+        location->line = line;
+        location->column = column;
+    }
+
     struct sr_js_frame *last_frame = NULL;
     while (*local_input != '\0')
     {
-- 
2.43.0


From db576b57b84728a10d17a8747d8e9688c9f09afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:37 +0000
Subject: [PATCH 127/129] fix: python_frame: parse repeated lines and file
 names with quotation marks

A line "[Previous line repeated 994 more times]" ended the stacktrace and
became the name of the exception.
---
 lib/python_frame.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/python_frame.c b/lib/python_frame.c
index 84d7b84..9eea710 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -243,6 +243,14 @@ sr_python_frame_parse(const char **input,
         *input = local_input;
     }
 
+    /* Recursion is shortened: [Previous line repeated 994 more times] */
+    if (g_str_has_prefix(local_input, "  [Previous line repeated "))
+    {
+        sr_skip_char_cspan(&local_input, "\n");
+        sr_skip_char(&local_input, '\n');
+        *input = local_input;
+    }
+
     if (0 == sr_skip_string(&local_input, "  File \""))
     {
         location->message = "Frame header not found.";
@@ -253,7 +261,15 @@ sr_python_frame_parse(const char **input,
     struct sr_python_frame *frame = sr_python_frame_new();
 
     /* Parse file name */
-    if (!sr_parse_char_cspan(&local_input, "\"", &frame->file_name))
+    const char *name_end = g_strstr_len(local_input, strcspn(local_input, "\n"),
+                                        "\", line ");
+    if (name_end && name_end > local_input)
+    {
+        /* The name itself may contain quotation marks. */
+        frame->file_name = g_strndup(local_input, name_end - local_input);
+        local_input = name_end;
+    }
+    else if (!sr_parse_char_cspan(&local_input, "\"", &frame->file_name))
     {
         location->message = "Unable to find the '\"' character "
                 "identifying the beginning of file name.";
-- 
2.43.0


From 482a3fdb3f114095a418653bf80f5ac6d7d78e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:50 +0000
Subject: [PATCH 128/129] fix: unwind: do not share the executable among
 threads

Two threads that read core dumps at once overwrote each other's executable,
whose symbols then were given to the other's frames.
---
 lib/core_unwind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 2ef7b35..b251dc5 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -89,7 +89,7 @@ sr_core_stacktrace_from_core_hook(pid_t thread_id,
 
 /* FIXME: is there another way to pass the executable name to the find_elf
  * callback? */
-const char *executable_file = NULL;
+static __thread const char *executable_file = NULL;
 
 void
 _set_error(char **error_msg, const char *fmt, ...)
-- 
2.43.0


From fc0ce3942dc451382661c4756ec87228ce01f6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:04 +0000
Subject: [PATCH 129/129] fix: unwind: close the core file whatever its
 descriptor is

---
 lib/core_unwind.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index b251dc5..5b860f8 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -123,7 +123,7 @@ core_handle_free(struct core_handle *ch)
             dwfl_end(ch->dwfl);
         if (ch->eh)
             elf_end(ch->eh);
-        if (ch->fd > 0)
+        if (ch->fd >= 0)
             close(ch->fd);
         g_free(ch);
     }
-- 
2.43.0

