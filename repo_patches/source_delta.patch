From 34ac9c4c5baf8e52632f61d84df540251cc0ca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 001/145] fix: sr_skip_char_limited skipped the terminating NUL

strchr() finds the terminator of the set of allowed characters, so the
cursor was moved past the end of the input.
---
 lib/utils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/utils.c b/lib/utils.c
index 50b22dc..272bdd5 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -260,6 +260,8 @@ sr_skip_char(const char **input, char c)
 bool
 sr_skip_char_limited(const char **input, const char *allowed)
 {
+    if (**input == '\0')
+        return false;
     if (strchr(allowed, **input) == NULL)
         return false;
     ++*input;
-- 
2.43.0


From 081a635a458c7e9f8c6af720778307050d31998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:18 +0000
Subject: [PATCH 002/145] fix: GDB function name parser read past the end of
 the input

When the text ended right after an operator, strchr() matched the
terminating NUL and the parser continued behind it.
---
 lib/gdb_frame.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 1a87d41..8cc8a14 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -442,6 +442,10 @@ sr_gdb_frame_parse_function_name_chunk(const char **input,
             }
         }
 
+        /* The input might end with the operator. */
+        if (*local_input == '\0')
+            break;
+
         if (strchr(FUNCTION_NAME_CHARS, *local_input) == NULL)
         {
             if (!space_allowed || strchr(" ", *local_input) == NULL)
-- 
2.43.0


From 9f64b739001579b9e852fc16303661976ba6f3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 003/145] fix: GDB argument list skipper read past the end of
 the input

An argument list consisting only of the opening parenthesis at the very
end of the text made it step over the terminating NUL.
---
 lib/gdb_frame.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 8cc8a14..4ce6e6f 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -818,7 +818,7 @@ sr_gdb_frame_skip_function_args(const char **input,
     int depth = 0;
     bool string = false;
     bool escape = false;
-    do
+    while (*local_input)
     {
         /* Sometimes function args would be too long so printer
          * truncates them. See frame #33 in rhbz#803600.
@@ -857,7 +857,6 @@ sr_gdb_frame_skip_function_args(const char **input,
         sr_location_eat_char(location, *local_input);
         ++local_input;
     }
-    while (*local_input);
 
     if (depth != 0 || string || escape)
     {
-- 
2.43.0


From 7d9641d749f5836a8dc61408c84986937a069f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 004/145] fix: GDB shared library parser read past the end of
 the input

The last line of the list does not have to end with a newline.
---
 lib/gdb_sharedlib.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/gdb_sharedlib.c b/lib/gdb_sharedlib.c
index 2123f3c..1219e4c 100644
--- a/lib/gdb_sharedlib.c
+++ b/lib/gdb_sharedlib.c
@@ -244,6 +244,8 @@ sr_gdb_sharedlib_parse(const char *input)
         current->soname = g_string_free(buf, FALSE);
 
         /* we are on '\n' character, jump to next line */
+        if (*tmp == '\0')
+            break;
         ++tmp;
     }
 
-- 
2.43.0


From e7d6e397647e53f2561b9bc155712a10a014007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:06 +0000
Subject: [PATCH 005/145] fix: comparison of 64-bit numbers in frames and
 packages was truncated

The difference of two 64-bit offsets, addresses or install times was
stored in an int, so numbers differing by a multiple of 2^32 compared
as equal and the order was not transitive.
---
 lib/core_frame.c     |  4 ++--
 lib/internal_utils.h |  4 ++++
 lib/koops_frame.c    | 12 ++++++------
 lib/rpm.c            |  4 ++--
 4 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/lib/core_frame.c b/lib/core_frame.c
index 84661c0..54f8fda 100644
--- a/lib/core_frame.c
+++ b/lib/core_frame.c
@@ -166,7 +166,7 @@ sr_core_frame_cmp(struct sr_core_frame *frame1,
         return build_id;
 
     /* Build ID offset */
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
+    int build_id_offset = SR_CMP_NUM(frame1->build_id_offset, frame2->build_id_offset);
     if (build_id_offset != 0)
         return build_id_offset;
 
@@ -203,7 +203,7 @@ sr_core_frame_cmp_distance(struct sr_core_frame *frame1,
     int build_id = g_strcmp0(frame1->build_id,
                               frame2->build_id);
 
-    int build_id_offset = frame1->build_id_offset - frame2->build_id_offset;
+    int build_id_offset = SR_CMP_NUM(frame1->build_id_offset, frame2->build_id_offset);
 
     if (build_id == 0 && build_id_offset == 0)
         return 0;
diff --git a/lib/internal_utils.h b/lib/internal_utils.h
index bb66cac..517d240 100644
--- a/lib/internal_utils.h
+++ b/lib/internal_utils.h
@@ -55,6 +55,10 @@ warn(const char *fmt, ...) __sr_printf(1, 2);
 #define DEFINE_NEXT_FUNC(name, abstract_t, concrete_t) DEFINE_GETTER(name, next, abstract_t, concrete_t, abstract_t)
 #define DEFINE_SET_NEXT_FUNC(name, abstract_t, concrete_t) DEFINE_SETTER(name, next, abstract_t, concrete_t, abstract_t)
 
+/* Three-way comparison of two numbers. A plain difference does not fit into
+ * int and loses the order or even the inequality of the numbers. */
+#define SR_CMP_NUM(a, b) (((a) > (b)) - ((a) < (b)))
+
 /* beware the side effects */
 #define OR_UNKNOWN(s) ((s) ? (s) : "<unknown>")
 
diff --git a/lib/koops_frame.c b/lib/koops_frame.c
index 56b3cae..7993fc3 100644
--- a/lib/koops_frame.c
+++ b/lib/koops_frame.c
@@ -127,7 +127,7 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
                    struct sr_koops_frame *frame2)
 {
     /* Address. */
-    int address = frame2->address - frame1->address;
+    int address = SR_CMP_NUM(frame2->address, frame1->address);
     if (address != 0)
         return address;
 
@@ -144,12 +144,12 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return function_name;
 
     /* Function offset. */
-    int64_t function_offset = frame2->function_offset - frame1->function_offset;
+    int function_offset = SR_CMP_NUM(frame2->function_offset, frame1->function_offset);
     if (function_offset != 0)
         return function_offset;
 
     /* Function length. */
-    int64_t function_length = frame2->function_length - frame1->function_length;
+    int function_length = SR_CMP_NUM(frame2->function_length, frame1->function_length);
     if (function_length != 0)
         return function_length;
 
@@ -161,7 +161,7 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return module_name;
 
     /* From address. */
-    int from_address = frame2->from_address - frame1->from_address;
+    int from_address = SR_CMP_NUM(frame2->from_address, frame1->from_address);
     if (from_address != 0)
         return from_address;
 
@@ -173,12 +173,12 @@ sr_koops_frame_cmp(struct sr_koops_frame *frame1,
         return from_function_name;
 
     /* From function offset. */
-    int64_t from_function_offset = frame2->from_function_offset - frame1->from_function_offset;
+    int from_function_offset = SR_CMP_NUM(frame2->from_function_offset, frame1->from_function_offset);
     if (from_function_offset != 0)
         return from_function_offset;
 
     /* From function length. */
-    int64_t from_function_length = frame2->from_function_length - frame1->from_function_length;
+    int from_function_length = SR_CMP_NUM(frame2->from_function_length, frame1->from_function_length);
     if (from_function_length != 0)
         return from_function_length;
 
diff --git a/lib/rpm.c b/lib/rpm.c
index 5488d73..3587e59 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -77,7 +77,7 @@ sr_rpm_package_cmp(struct sr_rpm_package *package1,
         return nevra;
 
     /* Install time. */
-    int64_t install_time = package1->install_time - package2->install_time;
+    int install_time = SR_CMP_NUM(package1->install_time, package2->install_time);
     if (install_time != 0)
         return install_time;
 
@@ -100,7 +100,7 @@ sr_rpm_package_cmp_nevra(struct sr_rpm_package *package1,
         return nvr;
 
     /* Epoch. */
-    int32_t epoch = package1->epoch - package2->epoch;
+    int epoch = SR_CMP_NUM(package1->epoch, package2->epoch);
     if (epoch != 0)
         return epoch;
 
-- 
2.43.0


From 56c851261093a933cbf0e2c48daca122d9319751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 006/145] fix: order of frames broke for line numbers far apart

The difference of two unsigned 32-bit numbers was used as the result of
the comparison, so the order was neither antisymmetric nor transitive
for distances of 2^31 and more.
---
 lib/gdb_frame.c    | 4 ++--
 lib/gdb_thread.c   | 2 +-
 lib/java_frame.c   | 2 +-
 lib/js_frame.c     | 6 +++---
 lib/python_frame.c | 2 +-
 lib/ruby_frame.c   | 6 +++---
 6 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 4ce6e6f..90dab03 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -203,7 +203,7 @@ sr_gdb_frame_cmp(struct sr_gdb_frame *frame1,
         return source_file;
 
     /* Sourceline. */
-    int source_line = frame1->source_line - frame2->source_line;
+    int source_line = SR_CMP_NUM(frame1->source_line, frame2->source_line);
     if (source_line != 0)
         return source_line;
 
@@ -216,7 +216,7 @@ sr_gdb_frame_cmp(struct sr_gdb_frame *frame1,
     /* Frame number. */
     if (compare_number)
     {
-        int number = frame1->number - frame2->number;
+        int number = SR_CMP_NUM(frame1->number, frame2->number);
         if (number != 0)
             return number;
     }
diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index 26c8f7d..3c5071b 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -121,7 +121,7 @@ int
 sr_gdb_thread_cmp(struct sr_gdb_thread *thread1,
                   struct sr_gdb_thread *thread2)
 {
-    int number = thread1->number - thread2->number;
+    int number = SR_CMP_NUM(thread1->number, thread2->number);
     if (number != 0)
         return number;
 
diff --git a/lib/java_frame.c b/lib/java_frame.c
index 19a0c26..bc7e802 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -180,7 +180,7 @@ sr_java_frame_cmp(struct sr_java_frame *frame1,
     if (frame1->is_native != frame2->is_native)
         return frame1->is_native ? 1 : -1;
 
-    return frame1->file_line - frame2->file_line;
+    return SR_CMP_NUM(frame1->file_line, frame2->file_line);
 }
 
 int
diff --git a/lib/js_frame.c b/lib/js_frame.c
index c0be8ba..df006dc 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -132,12 +132,12 @@ sr_js_frame_cmp(struct sr_js_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP_NUM(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
     /* line_column */
-    int line_column = frame1->line_column - frame2->line_column;
+    int line_column = SR_CMP_NUM(frame1->line_column, frame2->line_column);
     if (line_column != 0)
         return line_column;
 
@@ -149,7 +149,7 @@ sr_js_frame_cmp_distance(struct sr_js_frame *frame1,
                          struct sr_js_frame *frame2)
 {
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP_NUM(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
diff --git a/lib/python_frame.c b/lib/python_frame.c
index a454127..094071b 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -130,7 +130,7 @@ sr_python_frame_cmp(struct sr_python_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP_NUM(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index b4233db..e3ed6dd 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -127,7 +127,7 @@ sr_ruby_frame_cmp(struct sr_ruby_frame *frame1,
         return file_name;
 
     /* file_line */
-    int file_line = frame1->file_line - frame2->file_line;
+    int file_line = SR_CMP_NUM(frame1->file_line, frame2->file_line);
     if (file_line != 0)
         return file_line;
 
@@ -137,12 +137,12 @@ sr_ruby_frame_cmp(struct sr_ruby_frame *frame1,
         return special_function;
 
     /* block_level */
-    int block_level = frame1->block_level - frame2->block_level;
+    int block_level = SR_CMP_NUM(frame1->block_level, frame2->block_level);
     if (block_level != 0)
             return block_level;
 
     /* rescue_level */
-    int rescue_level = frame1->rescue_level - frame2->rescue_level;
+    int rescue_level = SR_CMP_NUM(frame1->rescue_level, frame2->rescue_level);
     if (rescue_level != 0)
             return rescue_level;
 
-- 
2.43.0


From 6245b8f7cf70cc9bc942e2dd1841829f68784759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 007/145] fix: comparing single-threaded stacktraces aborted
 the program

sr_thread_cmp() of kernel oops, Python, Ruby and JavaScript stacktraces
(equals() in the Python bindings) ran into a missing method assertion.
Compare the frames like the other thread types do.
---
 lib/generic_thread.c    | 22 ++++++++++++++++++++++
 lib/generic_thread.h    |  3 +++
 lib/js_stacktrace.c     |  2 +-
 lib/koops_stacktrace.c  |  2 +-
 lib/python_stacktrace.c |  2 +-
 lib/ruby_stacktrace.c   |  2 +-
 6 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/lib/generic_thread.c b/lib/generic_thread.c
index 4d2fc96..ceb758f 100644
--- a/lib/generic_thread.c
+++ b/lib/generic_thread.c
@@ -46,6 +46,28 @@ thread_frame_count(struct sr_thread *thread)
     return count;
 }
 
+int
+thread_cmp_frames(struct sr_thread *thread1, struct sr_thread *thread2)
+{
+    struct sr_frame *frame1 = sr_thread_frames(thread1),
+        *frame2 = sr_thread_frames(thread2);
+
+    while (frame1 && frame2)
+    {
+        int res = sr_frame_cmp(frame1, frame2);
+        if (res != 0)
+            return res;
+
+        frame1 = sr_frame_next(frame1);
+        frame2 = sr_frame_next(frame2);
+    }
+
+    if (frame1)
+        return 1;
+
+    return frame2 ? -1 : 0;
+}
+
 bool
 thread_remove_frame(struct sr_thread *thread, struct sr_frame *frame)
 {
diff --git a/lib/generic_thread.h b/lib/generic_thread.h
index 93d71ca..b4ac7ff 100644
--- a/lib/generic_thread.h
+++ b/lib/generic_thread.h
@@ -77,6 +77,9 @@ extern struct thread_methods core_thread_methods, python_thread_methods,
 int
 thread_frame_count(struct sr_thread *thread);
 
+int
+thread_cmp_frames(struct sr_thread *thread1, struct sr_thread *thread2);
+
 bool
 thread_remove_frame(struct sr_thread *thread, struct sr_frame *frame);
 
diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 6b21672..777304f 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -46,7 +46,7 @@ struct thread_methods js_thread_methods =
 {
     .frames = (frames_fn_t) js_frames,
     .set_frames = (set_frames_fn_t) js_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 593cdee..3fff176 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -70,7 +70,7 @@ struct thread_methods koops_thread_methods =
 {
     .frames = (frames_fn_t) koops_frames,
     .set_frames = (set_frames_fn_t) koops_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/python_stacktrace.c b/lib/python_stacktrace.c
index ce913a1..86bdffe 100644
--- a/lib/python_stacktrace.c
+++ b/lib/python_stacktrace.c
@@ -45,7 +45,7 @@ struct thread_methods python_thread_methods =
 {
     .frames = (frames_fn_t) python_frames,
     .set_frames = (set_frames_fn_t) python_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 109ad7d..d0888c1 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -44,7 +44,7 @@ struct thread_methods ruby_thread_methods =
 {
     .frames = (frames_fn_t) ruby_frames,
     .set_frames = (set_frames_fn_t) ruby_set_frames,
-    .cmp = (thread_cmp_fn_t) NULL,
+    .cmp = (thread_cmp_fn_t) thread_cmp_frames,
     .frame_count = (frame_count_fn_t) thread_frame_count,
     .next = (next_thread_fn_t) thread_no_next_thread,
     .set_next = (set_next_thread_fn_t) NULL,
-- 
2.43.0


From bd8b47e3723ae939690785282e26c293a81b499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:33 +0000
Subject: [PATCH 008/145] fix: Java threads were compared by their first frame
 only

---
 lib/java_thread.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/java_thread.c b/lib/java_thread.c
index fa054db..f12e65a 100644
--- a/lib/java_thread.c
+++ b/lib/java_thread.c
@@ -127,14 +127,20 @@ sr_java_thread_cmp(struct sr_java_thread *thread1,
     struct sr_java_frame *frame1 = thread1->frames;
     struct sr_java_frame *frame2 = thread2->frames;
 
-    if (frame1 && !frame2)
+    while (frame1 && frame2)
+    {
+        res = sr_java_frame_cmp(frame1, frame2);
+        if (res != 0)
+            return res;
+
+        frame1 = frame1->next;
+        frame2 = frame2->next;
+    }
+
+    if (frame1)
         return 1;
-    else if (frame2 && !frame1)
-        return -1;
-    else if (frame1 && frame2)
-        return sr_java_frame_cmp(frame1, frame2);
 
-    return 0;
+    return frame2 ? -1 : 0;
 }
 
 struct sr_java_thread *
-- 
2.43.0


From 79a0df924f60ea0774c6d5cb4655b87a77e9bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 009/145] fix: Java exception parser leaked frames when it
 failed

Only the exception was released, not the frames parsed before the error.
---
 lib/java_frame.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index bc7e802..611c3c6 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -349,7 +349,7 @@ sr_java_frame_parse_exception(const char **input,
 
         if (parsed == NULL)
         {
-            sr_java_frame_free(exception);
+            sr_java_frame_free_full(exception);
             return NULL;
         }
 
@@ -397,7 +397,7 @@ parse_inner_exception:
         struct sr_java_frame *inner = sr_java_frame_parse_exception(&cursor, location);
         if (inner == NULL)
         {
-            sr_java_frame_free(exception);
+            sr_java_frame_free_full(exception);
             return NULL;
         }
 
-- 
2.43.0


From c3896ba2b528daa27d8680bd55c2fc6b2307e43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 010/145] fix: kernel oops parser leaked stack labels and
 function names

A stack label following another one without the end marker, and a
function name that is not followed by an offset, were never released.
---
 lib/koops_frame.c      | 2 ++
 lib/koops_stacktrace.c | 1 +
 2 files changed, 3 insertions(+)

diff --git a/lib/koops_frame.c b/lib/koops_frame.c
index 7993fc3..412276c 100644
--- a/lib/koops_frame.c
+++ b/lib/koops_frame.c
@@ -563,6 +563,8 @@ sr_koops_parse_function(const char **input,
     }
     else
     {
+        g_free(*function_name);
+        *function_name = NULL;
         return false;
     }
 
diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 3fff176..ea9ae7d 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -391,6 +391,7 @@ sr_koops_stacktrace_parse(const char **input,
         char *new_alt_stack = parse_alt_stack_start(&local_input);
         if (new_alt_stack)
         {
+            g_free(alt_stack);
             alt_stack = new_alt_stack;
         }
 
-- 
2.43.0


From 0b0e643dcda0ae204eb25d3b6b0ee15558d1a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 011/145] fix: parsing of a nameless system release leaked
 memory

The function failed, but left an allocated empty name behind.
---
 lib/operating_system.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index ae9a08f..9ab2c3a 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -170,7 +170,11 @@ sr_operating_system_parse_etc_system_release(const char *etc_system_release,
         *name = g_strndup(etc_system_release, release - etc_system_release);
 
         if (0 == strlen(*name))
+        {
+            g_free(*name);
+            *name = NULL;
             return false;
+        }
 
         /* make the name all lower case */
         char *a = *name;
-- 
2.43.0


From e6545d83d29c5bcb15cf139aaeb25efabf9ec5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 012/145] fix: double free of package fields when the NEVRA
 epoch is invalid

sr_rpm_package_parse_nevra() released the strings but returned the
dangling pointers to the caller (sr_abrt_parse_dso_list() then freed
them again), and leaked the version.
---
 lib/rpm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 3587e59..cbeede6 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -764,8 +764,10 @@ sr_rpm_package_parse_nevra(const char *text,
         if (failure)
         {
             g_free(epoch_str);
+            g_free(*version);
             g_free(*release);
             g_free(*architecture);
+            *version = *release = *architecture = NULL;
             return false;
         }
 
-- 
2.43.0


From 034aea61c60efe512af949ea5bd962d55288492a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 013/145] fix: Python frame parser moved the input even when it
 failed

It skipped an error location line (possibly behind the terminating NUL)
before it knew whether a frame follows. Let the stacktrace parser skip
the line that precedes the exception.
---
 lib/internal_utils.h    |  5 ++++
 lib/python_frame.c      | 54 +++++++++++++++++------------------------
 lib/python_stacktrace.c |  3 +++
 3 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/lib/internal_utils.h b/lib/internal_utils.h
index 517d240..dc4a327 100644
--- a/lib/internal_utils.h
+++ b/lib/internal_utils.h
@@ -34,6 +34,11 @@ struct sr_location;
 void
 warn(const char *fmt, ...) __sr_printf(1, 2);
 
+/* Returns the position after the line with error location markers (^ and ~)
+ * of a Python stacktrace, or the input itself if there is no such line. */
+const char *
+python_skip_error_location_line(const char *input);
+
 #define DISPATCH(table, type, method) \
     (assert((type > SR_REPORT_INVALID) && (type) < SR_REPORT_NUM && table[type]->method), \
     table[type]->method)
diff --git a/lib/python_frame.c b/lib/python_frame.c
index 094071b..4a8072c 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -201,44 +201,34 @@ sr_python_frame_append(struct sr_python_frame *dest,
     return dest;
 }
 
+/*
+ * Skip fine-grained error location lines (See: PEP 657),
+ * and syntax error lines. Such lines only contain '^' and '~'
+ * characters.
+ *
+ * Example:
+ *
+ * Traceback (most recent call last):
+ *   File "test.py", line 2, in <module>
+ *     x['a']['b']['c']['d'] = 1
+ *     ~~~~~~~~~~~^^^^^
+ * TypeError: 'NoneType' object is not subscriptable
+ */
+const char *
+python_skip_error_location_line(const char *input)
+{
+    const char *end = input + strspn(input, " ^~");
+
+    return *end == '\n' ? end + 1 : input;
+}
+
 struct sr_python_frame *
 sr_python_frame_parse(const char **input,
                       struct sr_location *location)
 {
     const char *local_input = *input;
 
-    /*
-     * Skip fine-grained error location lines (See: PEP 657),
-     * and syntax error lines. Such lines only contain '^' and '~'
-     * characters.
-     *
-     * Example:
-     *
-     * Traceback (most recent call last):
-     *   File "test.py", line 2, in <module>
-     *     x['a']['b']['c']['d'] = 1
-     *     ~~~~~~~~~~~^^^^^
-     * TypeError: 'NoneType' object is not subscriptable
-     */
-    bool is_error_location_line = true;
-    const char *tmp_input = local_input;
-    while (*tmp_input != '\n' && *tmp_input != '\0')
-    {
-        if (*tmp_input != ' ' && *tmp_input != '^' && *tmp_input != '~')
-        {
-            is_error_location_line = false;
-            break;
-        }
-        ++tmp_input;
-    }
-
-    if (is_error_location_line)
-    {
-        /* Skip the error location line */
-        sr_skip_char_cspan(&local_input, "\n");
-        ++local_input;
-        *input = local_input;
-    }
+    local_input = python_skip_error_location_line(local_input);
 
     if (0 == sr_skip_string(&local_input, "  File \""))
     {
diff --git a/lib/python_stacktrace.c b/lib/python_stacktrace.c
index 86bdffe..11e013f 100644
--- a/lib/python_stacktrace.c
+++ b/lib/python_stacktrace.c
@@ -208,6 +208,9 @@ sr_python_stacktrace_parse(const char **input,
                         frame_location.column);
     }
 
+    /* The last frame might be followed by a line with error location. */
+    local_input = python_skip_error_location_line(local_input);
+
     if (!stacktrace->frames)
     {
         location->message = frame_location.message;
-- 
2.43.0


From 67fd17d3693c0895a4a59471867a739c25e1b7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 014/145] fix: Python frame parser leaked its error messages

Nobody releases the message of a location. Every successfully parsed
stacktrace leaked one, because its end is found by a failure to parse
another frame.
---
 lib/python_frame.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/python_frame.c b/lib/python_frame.c
index 4a8072c..f01808f 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -232,7 +232,7 @@ sr_python_frame_parse(const char **input,
 
     if (0 == sr_skip_string(&local_input, "  File \""))
     {
-        location->message = g_strdup_printf("Frame header not found.");
+        location->message = "Frame header not found.";
         return NULL;
     }
 
@@ -242,8 +242,8 @@ sr_python_frame_parse(const char **input,
     /* Parse file name */
     if (!sr_parse_char_cspan(&local_input, "\"", &frame->file_name))
     {
-        location->message = g_strdup_printf("Unable to find the '\"' character "
-                "identifying the beginning of file name.");
+        location->message = "Unable to find the '\"' character "
+                "identifying the beginning of file name.";
 
         goto fail;
     }
@@ -265,7 +265,7 @@ sr_python_frame_parse(const char **input,
 
     if (0 == sr_skip_string(&local_input, "\", line "))
     {
-        location->message = g_strdup_printf("Line separator not found.");
+        location->message = "Line separator not found.";
         goto fail;
     }
 
@@ -275,7 +275,7 @@ sr_python_frame_parse(const char **input,
     int length = sr_parse_uint32(&local_input, &frame->file_line);
     if (0 == length)
     {
-        location->message = g_strdup_printf("Line number not found.");
+        location->message = "Line number not found.";
         goto fail;
     }
 
@@ -285,7 +285,7 @@ sr_python_frame_parse(const char **input,
     {
         if (local_input[0] != '\n')
         {
-            location->message = g_strdup_printf("Function name separator not found.");
+            location->message = "Function name separator not found.";
             goto fail;
         }
 
@@ -303,8 +303,8 @@ sr_python_frame_parse(const char **input,
         /* Parse function name */
         if (!sr_parse_char_cspan(&local_input, "\n", &frame->function_name))
         {
-            location->message = g_strdup_printf("Unable to find the newline character "
-                    "identifying the end of function name.");
+            location->message = "Unable to find the newline character "
+                    "identifying the end of function name.";
 
             goto fail;
         }
-- 
2.43.0


From 1f74f3f8c7d8830ab193db2264e589febe1a8fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 015/145] fix: Ruby stacktrace parser leaked the error message
 of its first frame

---
 lib/ruby_stacktrace.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index d0888c1..03c2fe4 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -139,8 +139,10 @@ sr_ruby_stacktrace_parse(const char **input,
     stacktrace->frames = sr_ruby_frame_parse(&local_input, location);
     if (!stacktrace->frames)
     {
+        char *reason = (char *)location->message;
         location->message = g_strdup_printf("Topmost stacktrace frame not found: %s",
-                            location->message ? location->message : "(unknown reason)");
+                            reason ? reason : "(unknown reason)");
+        g_free(reason);
         goto fail;
     }
 
-- 
2.43.0


From 4ddd9186f8fc96bff3b7c5624223f6e7a52af416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 016/145] fix: heap corruption when reading the module list of
 a kernel oops from JSON

The array was grown to a number of bytes instead of a number of
pointers, so 128 and more modules overflowed it. It also was not
terminated yet when a malformed item made the function release it.
---
 lib/koops_stacktrace.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index ea9ae7d..f55d528 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -698,6 +698,7 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
 
         size_t allocated = 128;
         result->modules = g_malloc_n(allocated, sizeof(char*));
+        result->modules[0] = NULL;
 
         for (i = 0; i < array_length; i++)
         {
@@ -715,12 +716,11 @@ sr_koops_stacktrace_from_json(json_object *root, char **error_message)
             if (i + 1 == allocated)
             {
                 allocated *= 2;
-                result->modules = g_realloc(result->modules, allocated);
+                result->modules = g_realloc_n(result->modules, allocated, sizeof(char*));
             }
             result->modules[i] = g_strdup(module);
+            result->modules[i + 1] = NULL;
         }
-
-        result->modules[i] = NULL;
     }
 
     /* Frames. */
-- 
2.43.0


From ae8630c79eeea3b4cb1a07c868c37210a6c92b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 017/145] fix: repeated os-release keys leaked the earlier
 value

---
 lib/operating_system.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 9ab2c3a..b354845 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -207,12 +207,15 @@ os_release_callback(char *key, char *value, void *data)
 
     if (0 == strcmp(key, "ID"))
     {
+        g_free(operating_system->name);
         operating_system->name = value;
     }
     else if (0 == strcmp(key, "VERSION_ID"))
     {
         if (operating_system->version == NULL)
             operating_system->version = value;
+        else
+            g_free(value);
     }
     /* fedora rawhide workaround */
     else if (0 == strcmp(key, "VERSION") && strstr(value, "(Rawhide)"))
@@ -224,10 +227,12 @@ os_release_callback(char *key, char *value, void *data)
     }
     else if (0 == strcmp(key, "CPE_NAME"))
     {
+        g_free(operating_system->cpe);
         operating_system->cpe = value;
     }
     else if (0 == strcmp(key, "VARIANT_ID"))
     {
+        g_free(operating_system->variant);
         operating_system->variant = value;
     }
     else
-- 
2.43.0


From f90ce744e5d40ebfaa83a09c0d5f12962478f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 018/145] fix: kernel oops parser leaked the rest of a split
 module name

---
 lib/koops_stacktrace.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index f55d528..8dcce6a 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -505,6 +505,7 @@ sr_koops_stacktrace_parse_modules(const char **input)
 
                 char *tmp = g_strdup_printf("%s%s", result[result_offset-1], therest);
                 g_free(result[result_offset-1]);
+                g_free(therest);
                 result[result_offset-1] = tmp;
             }
 
-- 
2.43.0


From 59e3355fdf4374419afee7fdec47ba5b83a6c477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:15 +0000
Subject: [PATCH 019/145] fix: GDB frame and header parsers counted the header
 twice and moved the input on failure

---
 lib/gdb_frame.c      |  2 +-
 lib/gdb_stacktrace.c | 13 +++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 90dab03..a32261b 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -324,7 +324,7 @@ sr_gdb_frame_parse(const char **input,
                    struct sr_location *location)
 {
     const char *local_input = *input;
-    struct sr_gdb_frame *header = sr_gdb_frame_parse_header(input, location);
+    struct sr_gdb_frame *header = sr_gdb_frame_parse_header(&local_input, location);
     if (!header)
         return NULL;
 
diff --git a/lib/gdb_stacktrace.c b/lib/gdb_stacktrace.c
index 3380b67..51e1b56 100644
--- a/lib/gdb_stacktrace.c
+++ b/lib/gdb_stacktrace.c
@@ -485,6 +485,7 @@ sr_gdb_stacktrace_parse_header(const char **input,
                                struct sr_gdb_frame **frame,
                                struct sr_location *location)
 {
+    const char *local_input = *input;
     int first_thread_line, first_thread_column;
     const char *first_thread = sr_strstr_location(*input,
                                                   "\nThread ",
@@ -520,7 +521,7 @@ sr_gdb_stacktrace_parse_header(const char **input,
             /* Common case. The crash frame is present in the input
              * before the list of threads begins.
              */
-            *input = first_frame;
+            local_input = first_frame;
             sr_location_add(location, first_frame_line, first_frame_column);
         }
         else
@@ -543,7 +544,7 @@ sr_gdb_stacktrace_parse_header(const char **input,
         /* Degenerate case when the stacktrace contains no thread, but
          * the frame is there.
          */
-        *input = first_frame;
+        local_input = first_frame;
         sr_location_add(location, first_frame_line, first_frame_column);
     }
     else
@@ -556,8 +557,12 @@ sr_gdb_stacktrace_parse_header(const char **input,
     }
 
     /* Parse the frame header. */
-    *frame = sr_gdb_frame_parse(input, location);
-    return *frame;
+    *frame = sr_gdb_frame_parse(&local_input, location);
+    if (!*frame)
+        return false;
+
+    *input = local_input;
+    return true;
 }
 
 void
-- 
2.43.0


From 30a43f6b5c8232980ccf123fbe689cca3d0462fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:45 +0000
Subject: [PATCH 020/145] fix: error locations of the Python stacktrace parser
 lay outside the text

---
 lib/python_stacktrace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/python_stacktrace.c b/lib/python_stacktrace.c
index 11e013f..224bdcc 100644
--- a/lib/python_stacktrace.c
+++ b/lib/python_stacktrace.c
@@ -183,7 +183,7 @@ sr_python_stacktrace_parse(const char **input,
     else
     {
         local_input += strlen(HEADER);
-        location->line += 2;
+        location->line += 1;
         location->column = 0;
     }
 
@@ -206,6 +206,7 @@ sr_python_stacktrace_parse(const char **input,
         sr_location_add(location,
                         frame_location.line,
                         frame_location.column);
+        sr_location_init(&frame_location);
     }
 
     /* The last frame might be followed by a line with error location. */
-- 
2.43.0


From d32bc247cd7976f3337a358919eda645fed9c8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:45 +0000
Subject: [PATCH 021/145] fix: error locations of the Java parser ignored
 skipped newlines

---
 lib/java_frame.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index 611c3c6..df7a209 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -272,13 +272,24 @@ sr_java_frame_parse_is_unknown_source(const char *input_mark)
                                     strlen(SR_JF_MARK_UNKNOWN_SOURCE));
 }
 
+/* Skips whitespace, newlines included, and keeps the location in step. */
+static const char *
+skip_whitespace_location(const char *cursor, struct sr_location *location)
+{
+    const char *end = sr_skip_whitespace(cursor);
+
+    while (cursor < end)
+        sr_location_eat_char(location, *cursor++);
+
+    return cursor;
+}
+
 struct sr_java_frame *
 sr_java_frame_parse_exception(const char **input,
                               struct sr_location *location)
 {
     /* java.lang.NullPointerException: foo */
-    const char *cursor = sr_skip_whitespace(*input);
-    sr_location_add(location, 0, cursor - *input);
+    const char *cursor = skip_whitespace_location(*input, location);
     const char *mark = cursor;
 
     sr_location_add(location, 0, sr_skip_char_cspan(&cursor, ": \t\n"));
@@ -300,8 +311,7 @@ sr_java_frame_parse_exception(const char **input,
         mark = cursor;
 
         /* foo */
-        cursor = sr_skip_whitespace(mark);
-        sr_location_add(location, 0, cursor - mark);
+        cursor = skip_whitespace_location(mark, location);
         mark = cursor;
 
         sr_location_add(location, 0, sr_skip_char_cspan(&cursor, "\n"));
@@ -330,8 +340,7 @@ sr_java_frame_parse_exception(const char **input,
        best effort - continue on error */
     while (*cursor != '\0')
     {
-        cursor = sr_skip_whitespace(mark);
-        sr_location_add(location, 0, cursor - mark);
+        cursor = skip_whitespace_location(mark, location);
 
         /* Each inner exception has '...' at its end */
         if (strncmp("... ", cursor, strlen("... ")) == 0)
@@ -373,8 +382,7 @@ current_exception_done:
     sr_skip_to_next_line_location(&cursor, &location->line, &location->column);
 
     mark = cursor;
-    cursor = sr_skip_whitespace(mark);
-    sr_location_add(location, 0, cursor - mark);
+    cursor = skip_whitespace_location(mark, location);
 
     if (strncmp("Suppressed: ", cursor, strlen("Suppressed: ")) == 0)
     {
@@ -499,8 +507,7 @@ sr_java_frame_parse(const char **input,
     sr_location_add(location, lines, columns + 2);
 
     /* SimpleTest.throwNullPointerException(SimpleTest.java:36) [file:/usr/lib/java/foo.class] */
-    cursor = sr_skip_whitespace(cursor);
-    sr_location_add(location, 0, cursor - mark);
+    cursor = skip_whitespace_location(cursor, location);
     mark = cursor;
 
     sr_location_add(location, 0, sr_skip_char_cspan(&cursor, "(\n"));
-- 
2.43.0


From 3d60f6957c4f6600b2603c2c8587f5e1af12b5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:54 +0000
Subject: [PATCH 022/145] fix: text of a GDB frame depended on an uninitialized
 verbosity argument

---
 lib/gdb_frame.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index a32261b..fb1c5a5 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -48,9 +48,15 @@ frame_cmp_without_number(struct sr_gdb_frame *frame1, struct sr_gdb_frame *frame
     return sr_gdb_frame_cmp(frame1, frame2, false);
 }
 
+static void
+append_to_str_not_verbose(struct sr_gdb_frame *frame, GString *dest)
+{
+    sr_gdb_frame_append_to_str(frame, dest, false);
+}
+
 struct frame_methods gdb_frame_methods =
 {
-    .append_to_str = (append_to_str_fn_t) sr_gdb_frame_append_to_str,
+    .append_to_str = (append_to_str_fn_t) append_to_str_not_verbose,
     .next = (next_frame_fn_t) gdb_next,
     .set_next = (set_next_frame_fn_t) gdb_set_next,
     .cmp = (frame_cmp_fn_t) frame_cmp_without_number,
-- 
2.43.0


From a1f931a36c690d3be951bf22227540f334b88223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 023/145] fix: bracket or quote in a character argument broke
 the GDB frame

---
 lib/gdb_frame.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index fb1c5a5..788a13e 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -848,7 +848,14 @@ sr_gdb_frame_skip_function_args(const char **input,
         }
         else
         {
-            if (*local_input == '"')
+            if (*local_input == '\'' && local_input[1] != '\0'
+                && local_input[2] == '\'')
+            {
+                /* Character literal, such as '(' or '"'. */
+                sr_location_eat_char(location, *local_input++);
+                sr_location_eat_char(location, *local_input++);
+            }
+            else if (*local_input == '"')
                 string = true;
             else if (*local_input == '(')
                 ++depth;
-- 
2.43.0


From ce40613a40cd734251d40483bb9199ba2829edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 024/145] fix: control characters in strings made the JSON
 output invalid

---
 lib/json_utils.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/json_utils.c b/lib/json_utils.c
index 4492a22..39365dc 100644
--- a/lib/json_utils.c
+++ b/lib/json_utils.c
@@ -97,7 +97,11 @@ sr_json_escape(const char *text)
             g_string_append(strbuf, "\\t");
             break;
         default:
-            g_string_append_c(strbuf, *c);
+            /* The remaining control characters have no short form. */
+            if ((unsigned char)*c < 0x20)
+                g_string_append_printf(strbuf, "\\u%04x", (unsigned char)*c);
+            else
+                g_string_append_c(strbuf, *c);
         }
 
         ++c;
-- 
2.43.0


From 395c069db4e12fba524d3a6e2fad5ddd9433723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 025/145] fix: large unsigned numbers were clipped when read
 from JSON

---
 lib/json_utils.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/json_utils.c b/lib/json_utils.c
index 39365dc..1850317 100644
--- a/lib/json_utils.c
+++ b/lib/json_utils.c
@@ -38,9 +38,9 @@
 
 #define NOOP
 
-DEFINE_JSON_READ(json_read_uint64, uint64_t, json_type_int, int64, NOOP)
-DEFINE_JSON_READ(json_read_uint32, uint32_t, json_type_int, int, NOOP)
-DEFINE_JSON_READ(json_read_uint16, uint16_t, json_type_int, int, NOOP)
+DEFINE_JSON_READ(json_read_uint64, uint64_t, json_type_int, uint64, NOOP)
+DEFINE_JSON_READ(json_read_uint32, uint32_t, json_type_int, int64, NOOP)
+DEFINE_JSON_READ(json_read_uint16, uint16_t, json_type_int, int64, NOOP)
 DEFINE_JSON_READ(json_read_string, char *, json_type_string, string, g_strdup)
 DEFINE_JSON_READ(json_read_bool, bool, json_type_boolean, boolean, NOOP)
 
-- 
2.43.0


From 0f2bb49e74e37a8c8e4d141bac679add817ad032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 026/145] fix: JSON of empty Python, Ruby and JavaScript frames
 was invalid

---
 lib/js_frame.c     | 6 +++++-
 lib/python_frame.c | 6 +++++-
 lib/ruby_frame.c   | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/js_frame.c b/lib/js_frame.c
index df006dc..d2f02bc 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -456,7 +456,11 @@ sr_js_frame_to_json(struct sr_js_frame *frame)
         g_string_append(strbuf, "\n");
     }
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
diff --git a/lib/python_frame.c b/lib/python_frame.c
index f01808f..782ab15 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -387,7 +387,11 @@ sr_python_frame_to_json(struct sr_python_frame *frame)
         g_string_append(strbuf, "\n");
     }
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index e3ed6dd..722ecee 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -390,7 +390,11 @@ sr_ruby_frame_to_json(struct sr_ruby_frame *frame)
     }
 
 
-    strbuf->str[0] = '{';
+    if (strbuf->len > 0)
+        strbuf->str[0] = '{';
+    else
+        g_string_append_c(strbuf, '{');
+
     g_string_append_c(strbuf, '}');
     return g_string_free(strbuf, FALSE);
 }
-- 
2.43.0


From 3e4b7e47ad7fd385d5437dabcf5cbdc0072ea4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 027/145] fix: JSON of a core stacktrace without threads was
 invalid

---
 lib/core_stacktrace.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index a22b469..6202732 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -268,7 +268,11 @@ sr_core_stacktrace_to_json(struct sr_core_stacktrace *stacktrace)
     if (stacktrace->only_crash_thread)
         g_string_append(strbuf, ",   \"only_crash_thread\": true\n");
 
-    g_string_append(strbuf, ",   \"stacktrace\":\n");
+    g_string_append(strbuf, ",   \"stacktrace\":");
+    if (stacktrace->threads)
+        g_string_append(strbuf, "\n");
+    else
+        g_string_append(strbuf, " [");
 
     struct sr_core_thread *thread = stacktrace->threads;
     while (thread)
-- 
2.43.0


From db5eb650c11a3895f1338fd61c2a103cad39542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 028/145] fix: JSON of a crash thread without frames lost the
 crash mark

---
 lib/core_thread.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core_thread.c b/lib/core_thread.c
index 3522846..2b6cebb 100644
--- a/lib/core_thread.c
+++ b/lib/core_thread.c
@@ -257,6 +257,8 @@ sr_core_thread_to_json(struct sr_core_thread *thread, bool is_crash_thread)
         g_string_append(strbuf, " ]\n");
         g_string_append(strbuf, "}");
     }
+    else if (is_crash_thread)
+        g_string_append(strbuf, "{   \"crash_thread\": true\n}");
     else
         g_string_append(strbuf, "{}");
 
-- 
2.43.0


From 9baa2533eef06647bc6855255e5370abd710a215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 029/145] fix: line of a Java frame without a file name was
 lost in JSON

---
 lib/java_frame.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index df7a209..079326c 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -588,8 +588,11 @@ sr_java_frame_to_json(struct sr_java_frame *frame)
         g_string_append(strbuf, ",   \"file_name\": ");
         sr_json_append_escaped(strbuf, frame->file_name);
         g_string_append(strbuf, "\n");
+    }
 
-        /* File line. */
+    /* File line. */
+    if (frame->file_name || frame->file_line)
+    {
         g_string_append_printf(strbuf,
                               ",   \"file_line\": %"PRIu32"\n",
                               frame->file_line);
-- 
2.43.0


From 75495f57ea6ac450d536271b01252eab346694e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 030/145] fix: engine and runtime were swapped when a
 JavaScript platform was read from JSON

---
 lib/js_platform.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/js_platform.c b/lib/js_platform.c
index 738b59f..4d85182 100644
--- a/lib/js_platform.c
+++ b/lib/js_platform.c
@@ -231,7 +231,7 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     }
 
     platform = sr_js_platform_new();
-    sr_js_platform_init(platform, engine, runtime);
+    sr_js_platform_init(platform, runtime, engine);
 
 fail:
     g_free(engine_str);
-- 
2.43.0


From 20f1ae171760deddccee69aea3dd0810919c910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 031/145] fix: CPE name of the operating system was not read
 from JSON

---
 lib/operating_system.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index b354845..10436f3 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -137,6 +137,7 @@ sr_operating_system_from_json(json_object *root, char **error_message)
         JSON_READ_STRING(root, "name", &result->name) &&
         JSON_READ_STRING(root, "version", &result->version) &&
         JSON_READ_STRING(root, "architecture", &result->architecture) &&
+        JSON_READ_STRING(root, "cpe", &result->cpe) &&
         JSON_READ_UINT64(root, "uptime", &result->uptime);
 
     /* desktop is optional - failure is not fatal */
-- 
2.43.0


From dc9cf661c6a6fbce413f7d8ec021b1f3bd5a30e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:40 +0000
Subject: [PATCH 032/145] fix: JSON of an empty package list was invalid

---
 lib/rpm.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index cbeede6..82a4997 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -471,11 +471,10 @@ sr_rpm_package_to_json(struct sr_rpm_package *package,
     if (recursive)
     {
         struct sr_rpm_package *p = package;
+        g_string_append(strbuf, "[ ");
         while (p)
         {
-            if (p == package)
-                g_string_append(strbuf, "[ ");
-            else
+            if (p != package)
                 g_string_append(strbuf, ", ");
 
             char *package_json = sr_rpm_package_to_json(p, false);
-- 
2.43.0


From f21e8f9c8cba9f8bea0f2ea8150bed5b008d4158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 033/145] fix: user of a report was not read from where it is
 written

---
 lib/report.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index 2e3a9de..a19653e 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -378,7 +378,7 @@ sr_report_from_json(json_object *root, char **error_message)
         /* User. */
         json_object *user;
 
-        if (json_object_object_get_ex(root, "user", &user))
+        if (json_object_object_get_ex(problem, "user", &user))
         {
             success =
                 json_check_type(user, json_type_object, "user", error_message) &&
-- 
2.43.0


From d988ca4dfc703dd8979d47cabf3a68f4f350e0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 034/145] fix: JavaScript stacktrace of a report was not read

---
 lib/report.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/report.c b/lib/report.c
index a19653e..9e88d75 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -401,6 +401,7 @@ sr_report_from_json(json_object *root, char **error_message)
         case SR_REPORT_KERNELOOPS:
         case SR_REPORT_JAVA:
         case SR_REPORT_RUBY:
+        case SR_REPORT_JAVASCRIPT:
             report->stacktrace = sr_stacktrace_from_json(report->report_type, problem, error_message);
             break;
         default:
-- 
2.43.0


From fdee381926cc9e46c54490bc51feb5761e65aadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 035/145] fix: report with a malformed stacktrace was accepted
 without it

---
 lib/report.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/report.c b/lib/report.c
index 9e88d75..c2caead 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -403,6 +403,8 @@ sr_report_from_json(json_object *root, char **error_message)
         case SR_REPORT_RUBY:
         case SR_REPORT_JAVASCRIPT:
             report->stacktrace = sr_stacktrace_from_json(report->report_type, problem, error_message);
+            if (!report->stacktrace)
+                goto fail;
             break;
         default:
             /* Invalid report type -> no stacktrace. */
-- 
2.43.0


From 9d3067fdd2a05915269f646a268c6deb9df5d93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 036/145] fix: ignored authentication entries of a report left
 an error message

---
 lib/report.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index c2caead..5f32d07 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -434,7 +434,8 @@ sr_report_from_json(json_object *root, char **error_message)
             child_name = lh_entry_k(entry);
             child_value = lh_entry_v(entry);
 
-            if (!json_check_type(child_value, json_type_string, child_name, error_message))
+            /* entries of other types are ignored */
+            if (!json_check_type(child_value, json_type_string, child_name, NULL))
                 continue;
 
             string = json_object_get_string(child_value);
-- 
2.43.0


From a053fc74b396daa54d0454e76f6715efbaca9817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 037/145] fix: reading of a malformed report leaked the
 reporter name and version

---
 lib/report.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index 5f32d07..187faac 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -318,6 +318,8 @@ sr_report_from_json(json_object *root, char **error_message)
         return NULL;
 
     bool success;
+    char *reporter_name = NULL;
+    char *reporter_version = NULL;
     struct sr_report *report = sr_report_new();
 
     /* Report version. */
@@ -331,8 +333,8 @@ sr_report_from_json(json_object *root, char **error_message)
     {
         success =
             json_check_type(reporter, json_type_object, "reporter", error_message) &&
-            JSON_READ_STRING(reporter, "name", &report->reporter_name) &&
-            JSON_READ_STRING(reporter, "version", &report->reporter_version);
+            JSON_READ_STRING(reporter, "name", &reporter_name) &&
+            JSON_READ_STRING(reporter, "version", &reporter_version);
 
         if (!success)
             goto fail;
@@ -444,9 +446,16 @@ sr_report_from_json(json_object *root, char **error_message)
         }
     }
 
+    if (reporter_name)
+        report->reporter_name = reporter_name;
+    if (reporter_version)
+        report->reporter_version = reporter_version;
+
     return report;
 
 fail:
+    g_free(reporter_name);
+    g_free(reporter_version);
     sr_report_free(report);
     return NULL;
 }
-- 
2.43.0


From 55ef6b45a51325a7b48cfc0821459f86b73cdccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 038/145] fix: reporter name and version were not escaped in
 the JSON of a report

---
 lib/report.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index 187faac..d5e0ae9 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -209,9 +209,12 @@ sr_report_to_json(struct sr_report *report)
     assert(report->reporter_name);
     assert(report->reporter_version);
 
-    char *reporter = g_strdup_printf("{   \"name\": \"%s\"\n,   \"version\": \"%s\"\n}",
-                                 report->reporter_name,
-                                 report->reporter_version);
+    GString *reporter_buf = g_string_new("{   \"name\": ");
+    sr_json_append_escaped(reporter_buf, report->reporter_name);
+    g_string_append(reporter_buf, "\n,   \"version\": ");
+    sr_json_append_escaped(reporter_buf, report->reporter_version);
+    g_string_append(reporter_buf, "\n}");
+    char *reporter = g_string_free(reporter_buf, FALSE);
     char *reporter_indented = sr_indent_except_first_line(reporter, strlen(",   \"reporter\": "));
     g_free(reporter);
     g_string_append_printf(strbuf,
-- 
2.43.0


From dcbc000c9eb0e63f9743046894390a45d71fed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 039/145] fix: writing a report without a stacktrace crashed

---
 lib/report.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/report.c b/lib/report.c
index d5e0ae9..a57ccaa 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -196,7 +196,8 @@ sr_report_to_json(struct sr_report *report)
     case SR_REPORT_RUBY:
     case SR_REPORT_JAVASCRIPT:
         report_type = sr_report_type_to_string(report->report_type);
-        reason = sr_stacktrace_get_reason(report->stacktrace);
+        reason = report->stacktrace ? sr_stacktrace_get_reason(report->stacktrace)
+                                    : g_strdup("<unknown>");
         break;
     }
 
-- 
2.43.0


From d6029969ad8d6b4b6ba30e91e840c716fb4289b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 040/145] fix: report with an empty stacktrace was written as
 invalid JSON

---
 lib/report.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index a57ccaa..2b71025 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -108,7 +108,6 @@ sr_report_add_auth(struct sr_report *report, const char *key, const char *value)
     report->auth_entries = new_entry;
 }
 
-/* The object has to be non-empty, i.e. contain at least one key-value pair. */
 static void
 dismantle_object(char *obj)
 {
@@ -119,7 +118,8 @@ dismantle_object(char *obj)
     assert(obj[0] == '{');
     assert(obj[last] == '}');
 
-    obj[0] = ',';
+    /* There is nothing to separate from if the object is empty. */
+    obj[0] = (last == 1) ? '\0' : ',';
     obj[last] = '\0';
 }
 
-- 
2.43.0


From 8dfe30be08c0b2ec2fb14d0ed5a5ad94600e0105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 041/145] fix: writing a report with a GDB stacktrace aborted

---
 lib/report.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/report.c b/lib/report.c
index 2b71025..100a5b2 100644
--- a/lib/report.c
+++ b/lib/report.c
@@ -154,8 +154,8 @@ problem_object_string(struct sr_report *report, const char *report_type)
 
     g_string_append_printf(strbuf, ",   \"serial\": %"PRIu32"\n", report->serial);
 
-    /* Stacktrace. */
-    if (report->stacktrace)
+    /* Stacktrace. (gdb ureports are not supported) */
+    if (report->stacktrace && report->stacktrace->type != SR_REPORT_GDB)
     {
         char *stacktrace = sr_stacktrace_to_json(report->stacktrace);
         dismantle_object(stacktrace);
-- 
2.43.0


From 2015c6ce597f8470e2370502d18b854a6c240fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 042/145] fix: ignored fields of the operating system left an
 error message

---
 lib/operating_system.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 10436f3..9795f8a 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -141,9 +141,9 @@ sr_operating_system_from_json(json_object *root, char **error_message)
         JSON_READ_UINT64(root, "uptime", &result->uptime);
 
     /* desktop is optional - failure is not fatal */
-    JSON_READ_STRING(root, "desktop", &result->desktop);
+    json_read_string(root, "desktop", &result->desktop, NULL);
     /* variant is optional - failure is not fatal */
-    JSON_READ_STRING(root, "variant", &result->variant);
+    json_read_string(root, "variant", &result->variant, NULL);
 
     if (!success)
     {
-- 
2.43.0


From ebca19eb3575e15ba3b91bd1b09d7c91fb2f9c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 043/145] fix: reading of a malformed package from JSON
 reported success

---
 lib/rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 82a4997..2653edd 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -624,7 +624,7 @@ sr_rpm_package_from_json(struct sr_rpm_package **rpm_package, json_object *json,
     if (!recursive)
     {
         *rpm_package = single_rpm_package_from_json(json, error_message);
-        return 0;
+        return *rpm_package ? 0 : -2;
     }
     else
     {
-- 
2.43.0


From 34b5288567b0099e9655f9dbc620ade32b01692c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:35 +0000
Subject: [PATCH 044/145] fix: JavaScript platform readers crashed without a
 place for the error message

---
 lib/js_platform.c   | 18 ++++++++++++------
 lib/js_stacktrace.c | 12 ++++++++++--
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/lib/js_platform.c b/lib/js_platform.c
index 4d85182..da39efd 100644
--- a/lib/js_platform.c
+++ b/lib/js_platform.c
@@ -98,7 +98,8 @@ sr_js_platform_from_string(const char *runtime_name,
     enum sr_js_runtime runtime = sr_js_runtime_from_string(runtime_name);
     if (!runtime)
     {
-        *error_message = g_strdup_printf("No known JavaScript platform with runtime "
+        if (error_message)
+            *error_message = g_strdup_printf("No known JavaScript platform with runtime "
                                     "'%s'", runtime_name);
 
         return SR_JS_PLATFORM_NULL;
@@ -119,7 +120,8 @@ sr_js_platform_from_string(const char *runtime_name,
 
     if (!engine)
     {
-        *error_message = g_strdup_printf("No known JavaScript engine for runtime"
+        if (error_message)
+            *error_message = g_strdup_printf("No known JavaScript engine for runtime"
                                     "by '%s%s%s'",
                                     runtime_name,
                                     runtime_version ? " " : "",
@@ -201,7 +203,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
 
     if (engine_str == NULL)
     {
-        *error_message = g_strdup("No 'engine' member");
+        if (error_message)
+            *error_message = g_strdup("No 'engine' member");
         goto fail;
     }
 
@@ -209,7 +212,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     if (     strcmp(engine_str, "<unknown>") != 0
         && !(engine = sr_js_engine_from_string(engine_str)))
     {
-        *error_message = g_strdup_printf("Unknown JavaScript engine '%s'", engine_str);
+        if (error_message)
+            *error_message = g_strdup_printf("Unknown JavaScript engine '%s'", engine_str);
         goto fail;
     }
 
@@ -218,7 +222,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
 
     if (runtime_str == NULL)
     {
-        *error_message = g_strdup("No 'runtime' member");
+        if (error_message)
+            *error_message = g_strdup("No 'runtime' member");
         goto fail;
     }
 
@@ -226,7 +231,8 @@ sr_js_platform_from_json(json_object *root, char **error_message)
     if (     strcmp(runtime_str, "<unknown>") != 0
         && !(runtime = sr_js_runtime_from_string(runtime_str)))
     {
-        *error_message = g_strdup_printf("Unknown JavaScript runtime '%s'", runtime_str);
+        if (error_message)
+            *error_message = g_strdup_printf("Unknown JavaScript runtime '%s'", runtime_str);
         goto fail;
     }
 
diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 777304f..17646e4 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -337,9 +337,17 @@ sr_js_stacktrace_from_json(json_object *root, char **error_message)
 
     if (json_object_object_get_ex(root, "platform", &platform))
     {
-        result->platform = sr_js_platform_from_json(platform, error_message);
-        if (*error_message)
+        char *platform_error = NULL;
+
+        result->platform = sr_js_platform_from_json(platform, &platform_error);
+        if (platform_error)
+        {
+            if (error_message)
+                *error_message = platform_error;
+            else
+                g_free(platform_error);
             goto fail;
+        }
     }
 
     return result;
-- 
2.43.0


From 84e292b9c884048a82b8708bb8c0f357c81fb651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:51 +0000
Subject: [PATCH 045/145] fix: reading a GDB stacktrace from JSON crashed
 without a place for the error message

---
 lib/gdb_stacktrace.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_stacktrace.c b/lib/gdb_stacktrace.c
index 51e1b56..59a4e97 100644
--- a/lib/gdb_stacktrace.c
+++ b/lib/gdb_stacktrace.c
@@ -48,7 +48,8 @@ gdb_return_null(struct sr_stacktrace *stacktrace)
 static struct sr_gdb_stacktrace *
 gdb_from_json(json_object *root, char **error_message)
 {
-    *error_message = g_strdup("Not implemented");
+    if (error_message)
+        *error_message = g_strdup("Not implemented");
     return NULL;
 }
 
-- 
2.43.0


From 308b63eee69c184f4a061dac66fc2a1116477f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:28 +0000
Subject: [PATCH 046/145] fix: initialise the id of a new core thread

---
 lib/core_thread.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/core_thread.c b/lib/core_thread.c
index 2b6cebb..f6e6cf9 100644
--- a/lib/core_thread.c
+++ b/lib/core_thread.c
@@ -68,6 +68,7 @@ sr_core_thread_init(struct sr_core_thread *thread)
 {
     thread->frames = NULL;
     thread->next = NULL;
+    thread->id = 0;
     thread->type = SR_REPORT_CORE;
 }
 
-- 
2.43.0


From a5348c2daab0205ca3367aa716734597700ad6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:37 +0000
Subject: [PATCH 047/145] fix: the copy of a core stacktrace pointed to the
 original's crash thread

---
 lib/core_stacktrace.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index 6202732..140b537 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -117,6 +117,17 @@ sr_core_stacktrace_dup(struct sr_core_stacktrace *stacktrace)
     if (stacktrace->executable)
         result->executable = g_strdup(stacktrace->executable);
 
+    /* The crash thread of the copy is the counterpart of the original's. */
+    result->crash_thread = NULL;
+    struct sr_core_thread *copy = result->threads;
+    for (struct sr_core_thread *thread = stacktrace->threads;
+         thread && copy;
+         thread = thread->next, copy = copy->next)
+    {
+        if (thread == stacktrace->crash_thread)
+            result->crash_thread = copy;
+    }
+
     return result;
 }
 
-- 
2.43.0


From 7c972e8f2ed764e3aa7bdd17b6de9d3ea18a96da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:20 +0000
Subject: [PATCH 048/145] fix: the Jaro-Winkler distance found no similarity
 between identical one-frame threads

---
 lib/distance.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/distance.c b/lib/distance.c
index 43c4d59..1500ff9 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -46,6 +46,11 @@ distance_jaro_winkler(struct sr_thread *thread1,
     if (max_frame_count < frame1_count)
         max_frame_count = frame1_count;
 
+    /* How far away from each other can matching frames be. */
+    int window = max_frame_count / 2 - 1;
+    if (window < 0)
+        window = 0;
+
     int prefix_len = 0;
     bool still_prefix = true;
     float trans_count = 0, match_count = 0;
@@ -67,7 +72,7 @@ distance_jaro_winkler(struct sr_thread *thread1,
              * other and if functions aren't both unpaired unknown
              * functions.
              */
-            if (abs(i - j) <= max_frame_count / 2 - 1 &&
+            if (abs(i - j) <= window &&
                 0 == sr_frame_cmp_distance(curr_frame, curr_frame2))
             {
                 match = true;
-- 
2.43.0


From 98543af724c7da75baa099ed3387fbf666261eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:20 +0000
Subject: [PATCH 049/145] fix: the common prefix in the Jaro-Winkler distance
 continued past the end of the second thread

---
 lib/distance.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/distance.c b/lib/distance.c
index 1500ff9..010ad61 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -83,6 +83,10 @@ distance_jaro_winkler(struct sr_thread *thread1,
             curr_frame2 = sr_frame_next(curr_frame2);
         }
 
+        /* The prefix ends with the shorter thread. */
+        if (i > frame2_count)
+            still_prefix = false;
+
         if (still_prefix)
             ++prefix_len;
 
-- 
2.43.0


From d108deedf7444f79d4014981b104e8165031078a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:21 +0000
Subject: [PATCH 050/145] fix: the Jaro-Winkler distance exceeded 1 when frames
 repeat

---
 lib/distance.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/distance.c b/lib/distance.c
index 010ad61..bdc7a11 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -104,8 +104,13 @@ distance_jaro_winkler(struct sr_thread *thread1,
     if (0 == match_count)
         return 0;  // so as not to divide by 0
 
+    /* Several frames of the first thread may match one frame of the second. */
+    float match2_count = match_count;
+    if (match2_count > frame2_count)
+        match2_count = frame2_count;
+
     float dist_jaro = (match_count / (float)frame1_count +
-                       match_count / (float)frame2_count +
+                       match2_count / (float)frame2_count +
                        (match_count - trans_count) / match_count) / 3;
 
     /* How much weight we give to having common prefixes
-- 
2.43.0


From 16776eefbee227daf654278dd165d07866a41a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:21 +0000
Subject: [PATCH 051/145] fix: the Jaccard distance depended on the order of
 the threads when some libraries are unknown

---
 lib/distance.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/distance.c b/lib/distance.c
index bdc7a11..04de0d8 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -144,7 +144,8 @@ distance_jaccard(struct sr_thread *thread1,
 {
     assert(thread1->type == thread2->type);
 
-    int intersection_size = 0, set1_size = 0, set2_size = 0;
+    int intersection1_size = 0, set1_size = 0;
+    int intersection2_size = 0, set2_size = 0;
 
     for (struct sr_frame *curr_frame = sr_thread_frames(thread1);
          curr_frame;
@@ -163,7 +164,7 @@ distance_jaccard(struct sr_thread *thread1,
                 sr_thread_frames(thread2),
                 curr_frame))
         {
-            ++intersection_size;
+            ++intersection1_size;
         }
     }
 
@@ -179,8 +180,21 @@ distance_jaccard(struct sr_thread *thread1,
         }
 
         ++set2_size;
+
+        if (distance_jaccard_frames_contain(
+                sr_thread_frames(thread1),
+                curr_frame))
+        {
+            ++intersection2_size;
+        }
     }
 
+    /* The sizes differ when a frame without known library is the same as
+     * several different frames of the other thread. */
+    int intersection_size = intersection1_size;
+    if (intersection_size > intersection2_size)
+        intersection_size = intersection2_size;
+
     int union_size = set1_size + set2_size - intersection_size;
     if (!union_size)
         return 0.0;
-- 
2.43.0


From 91de448e49b7113ef77aaaf76766f228114679f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:51 +0000
Subject: [PATCH 052/145] fix: dividing a distance matrix into no parts divided
 by zero

---
 lib/distance.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/distance.c b/lib/distance.c
index 04de0d8..da0daf1 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -556,6 +556,9 @@ sr_distances_part_create(int m, int n, enum sr_distance_type dist_type,
 
     assert(m > 0 && n > 1 && m < n);
 
+    if (nparts == 0)
+        return NULL;
+
     int triangle_twice = m * (m-1);
     assert(triangle_twice % 2 == 0);
 
-- 
2.43.0


From 4286b78cf02b2e39f04455f48913e9a47c31c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:51 +0000
Subject: [PATCH 053/145] fix: computing a distance matrix part again leaked
 its distances

---
 lib/distance.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/distance.c b/lib/distance.c
index da0daf1..875118d 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -642,6 +642,7 @@ sr_distances_part_compute(struct sr_distances_part *part,
 
     int i,j;
     size_t dist_idx;
+    g_free(part->distances);
     part->distances = g_malloc_n(sizeof(float), part->len);
 
     for (dist_idx = 0, i = part->m_begin, j = part->n_begin;
-- 
2.43.0


From c85c02684f8ad16e3244ba04cd3914fca9e1e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:39 +0000
Subject: [PATCH 054/145] fix: merging an incomplete or inconsistent set of
 distance matrix parts succeeded

---
 lib/distance.c | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/distance.c b/lib/distance.c
index 875118d..77ea47b 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -674,11 +674,19 @@ sr_distances_part_merge(struct sr_distances_part *parts)
 
     struct sr_distances *distances = sr_distances_new(parts->m, parts->n);
 
+    /* Every entry of the matrix has to be in exactly one part. */
+    int m = distances->m, n = distances->n;
+    size_t nelems = m * (m - 1) / 2 + m * (n - m);
+    size_t nmerged = 0;
+    bool *merged = g_malloc0_n(get_distance_position(distances, m - 1, n - 1) + 1,
+                               sizeof(*merged));
+
     for (struct sr_distances_part *it = parts;
          it != NULL;
          it = it->next)
     {
         if (it->m != parts->m || it->n != parts->n
+            || it->dist_type != parts->dist_type
             || it->distances == NULL
             || it->checksum != parts->checksum)
         {
@@ -695,8 +703,13 @@ sr_distances_part_merge(struct sr_distances_part *parts)
             if (j <= i || i >= it->m || j >= it->n)
                 goto error;
 
-            distances->distances[get_distance_position(distances, i, j)]
-                = it->distances[dist_idx];
+            int position = get_distance_position(distances, i, j);
+            if (merged[position])
+                goto error;
+
+            merged[position] = true;
+            ++nmerged;
+            distances->distances[position] = it->distances[dist_idx];
 
             j++;
             if (j >= it->n)
@@ -708,8 +721,13 @@ sr_distances_part_merge(struct sr_distances_part *parts)
 
     }
 
+    if (nmerged != nelems)
+        goto error;
+
+    g_free(merged);
     return distances;
 error:
+    g_free(merged);
     sr_distances_free(distances);
     return NULL;
 }
-- 
2.43.0


From 93637151674ec729b962d8f6fec55b4b382157c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:16 +0000
Subject: [PATCH 055/145] fix: the common prefix in the Jaro-Winkler distance
 continued over a differing frame that matches an earlier one

---
 lib/distance.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/distance.c b/lib/distance.c
index 77ea47b..ac91abf 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -60,7 +60,7 @@ distance_jaro_winkler(struct sr_thread *thread1,
     {
         bool match = false;
         struct sr_frame *curr_frame2 = sr_thread_frames(thread2);
-        for (int j = 1; !match && curr_frame2; ++j)
+        for (int j = 1; curr_frame2 && (!match || (still_prefix && j <= i)); ++j)
         {
             /* Whether the prefix continues to be the same for both
              * threads or not.
@@ -72,7 +72,7 @@ distance_jaro_winkler(struct sr_thread *thread1,
              * other and if functions aren't both unpaired unknown
              * functions.
              */
-            if (abs(i - j) <= window &&
+            if (!match && abs(i - j) <= window &&
                 0 == sr_frame_cmp_distance(curr_frame, curr_frame2))
             {
                 match = true;
-- 
2.43.0


From 5f8ec0a7908467afadf042a055ca0ae936ca9af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:07 +0000
Subject: [PATCH 056/145] fix: koops backtrace hash ignored the taint flags

The hashed text has a line for the flags but the loop writing them never
wrote anything, so oopses with different taint flags had the same hash.
---
 lib/koops_stacktrace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 8dcce6a..a64bdf5 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -799,11 +799,15 @@ koops_append_bthash_text(struct sr_koops_stacktrace *stacktrace,
     g_string_append_printf(strbuf, "Version: %s\n", OR_UNKNOWN(stacktrace->version));
 
     g_string_append(strbuf, "Flags: ");
+    const char *separator = "";
     for (struct sr_taint_flag *f = sr_flags; f->letter; f++)
     {
         bool val = *(bool *)((void *)stacktrace + f->member_offset);
         if (val == false)
             continue;
+
+        g_string_append_printf(strbuf, "%s%s", separator, f->name);
+        separator = ", ";
     }
     g_string_append_c(strbuf, '\n');
 
-- 
2.43.0


From 09a8d25292f66cfdf8ee629f6a2aa9c200113abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:06 +0000
Subject: [PATCH 057/145] fix: NULL strings printed in reasons and short texts

The reason of Python, Ruby and JavaScript stack traces and the text form of
core and JavaScript frames passed absent file names and build ids to %s.
---
 lib/core_frame.c        | 2 +-
 lib/js_frame.c          | 2 +-
 lib/js_stacktrace.c     | 3 ++-
 lib/python_stacktrace.c | 3 ++-
 lib/ruby_stacktrace.c   | 3 ++-
 5 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/core_frame.c b/lib/core_frame.c
index 54f8fda..7d47331 100644
--- a/lib/core_frame.c
+++ b/lib/core_frame.c
@@ -341,7 +341,7 @@ sr_core_frame_append_to_str(struct sr_core_frame *frame,
     }
     else
     {
-        g_string_append_printf(dest, " %s+%"PRIu64, frame->build_id,
+        g_string_append_printf(dest, " %s+%"PRIu64, OR_UNKNOWN(frame->build_id),
                               frame->build_id_offset);
     }
 }
diff --git a/lib/js_frame.c b/lib/js_frame.c
index d2f02bc..7e3f5a2 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -474,7 +474,7 @@ sr_js_frame_append_to_str(struct sr_js_frame *frame,
         g_string_append_printf(dest, "%s (", frame->function_name);
 
     g_string_append_printf(dest, "%s:%"PRIu32":%"PRIu32,
-                          frame->file_name,
+                          OR_UNKNOWN(frame->file_name),
                           frame->file_line,
                           frame->line_column);
 
diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index 17646e4..ff6a06c 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -367,7 +367,8 @@ sr_js_stacktrace_get_reason(struct sr_js_stacktrace *stacktrace)
     struct sr_js_frame *frame = stacktrace->frames;
     if (frame)
     {
-        file = frame->file_name;
+        if (frame->file_name)
+            file = frame->file_name;
         line = frame->file_line;
         column = frame->line_column;
     }
diff --git a/lib/python_stacktrace.c b/lib/python_stacktrace.c
index 224bdcc..82a1637 100644
--- a/lib/python_stacktrace.c
+++ b/lib/python_stacktrace.c
@@ -339,7 +339,8 @@ sr_python_stacktrace_get_reason(struct sr_python_stacktrace *stacktrace)
 
     if (frame)
     {
-        file = frame->file_name;
+        if (frame->file_name)
+            file = frame->file_name;
         line = frame->file_line;
     }
 
diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index 03c2fe4..b3660d1 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -373,7 +373,8 @@ sr_ruby_stacktrace_get_reason(struct sr_ruby_stacktrace *stacktrace)
     struct sr_ruby_frame *frame = stacktrace->frames;
     if (frame)
     {
-        file = frame->file_name;
+        if (frame->file_name)
+            file = frame->file_name;
         line = frame->file_line;
     }
 
-- 
2.43.0


From 0b8782b9c74c4f79d1b926711a75788912b81b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 058/145] fix: sr_strchr_location missed characters outside the
 range of char

---
 lib/utils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils.c b/lib/utils.c
index 272bdd5..0a70a8e 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -99,7 +99,7 @@ sr_strchr_location(const char *s, int c, int *line, int *column)
         sr_location_eat_char_ext(line, column, *s);
         ++s;
     }
-    return ((*s == c) ? (char*)s : NULL);
+    return ((*s == (char)c) ? (char*)s : NULL);
 }
 
 char *
-- 
2.43.0


From 80bdc1eabe55b118be92bcea9b9863fe0b09fc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 059/145] fix: sr_parse_uint64 rejected UINT64_MAX

---
 lib/utils.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index 0a70a8e..45dd7a1 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -438,8 +438,7 @@ sr_parse_uint64(const char **input, uint64_t *result)
     char *endptr;
     errno = 0;
     unsigned long long result_tmp = strtoull(numstr, &endptr, 10);
-    bool failure = (errno || numstr == endptr || *endptr != '\0'
-                    || result_tmp == UINT64_MAX);
+    bool failure = (errno || numstr == endptr || *endptr != '\0');
     g_free(numstr);
     if (failure) /* number too big or some other error */
         return 0;
-- 
2.43.0


From 143c609096ca5ef6f5d6fc4d9abe4587b5866bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:30 +0000
Subject: [PATCH 060/145] fix: python: recursion notes and multi-line
 statements no longer end the traceback

---
 lib/python_frame.c | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/lib/python_frame.c b/lib/python_frame.c
index 782ab15..954ebb9 100644
--- a/lib/python_frame.c
+++ b/lib/python_frame.c
@@ -213,13 +213,37 @@ sr_python_frame_append(struct sr_python_frame *dest,
  *     x['a']['b']['c']['d'] = 1
  *     ~~~~~~~~~~~^^^^^
  * TypeError: 'NoneType' object is not subscriptable
+ *
+ * Also skip further lines of a statement that spans several lines, and the
+ * note that replaces repeated frames of a recursion:
+ *
+ *   [Previous line repeated 996 more times]
  */
 const char *
 python_skip_error_location_line(const char *input)
 {
-    const char *end = input + strspn(input, " ^~");
+    const char *end;
 
-    return *end == '\n' ? end + 1 : input;
+    for (;;)
+    {
+        end = input + strspn(input, " ^~");
+        if (*end == '\n')
+        {
+            input = end + 1;
+            continue;
+        }
+
+        /* Recursion note or another line of a multi-line statement. */
+        if (strncmp(input, "  [Previous line repeated ", strlen("  [Previous line repeated ")) != 0
+            && strncmp(input, "    ", strlen("    ")) != 0)
+            return input;
+
+        end = strchr(input, '\n');
+        if (!end)
+            return input;
+
+        input = end + 1;
+    }
 }
 
 struct sr_python_frame *
-- 
2.43.0


From 0f5d06ec2b2e4b68cb3482b2838ba5c6f07393ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:10 +0000
Subject: [PATCH 061/145] fix: ruby: names of operator methods such as << or
 <=> broke the parser

---
 lib/ruby_frame.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/lib/ruby_frame.c b/lib/ruby_frame.c
index 722ecee..a7658bb 100644
--- a/lib/ruby_frame.c
+++ b/lib/ruby_frame.c
@@ -298,29 +298,27 @@ sr_ruby_frame_parse(const char **input,
         location->column += len + strlen(" levels) in ");
     }
 
-    if (sr_skip_char(&local_input, '<'))
-    {
-        location->column++;
-        frame->special_function = true;
-    }
-
-    if (!sr_parse_char_cspan(&local_input, "'>", &frame->function_name))
+    if (!sr_parse_char_cspan(&local_input, "'", &frame->function_name))
     {
         location->message = g_strdup("Unable to find the \"'\" character "
                                       "delimiting the function name.");
         goto fail;
     }
-    location->column += strlen(frame->function_name);
 
-    if (frame->special_function)
+    size_t name_len = strlen(frame->function_name);
+    location->column += name_len;
+
+    /* `<main>', `<class:Foo>', `<top (required)>' are special; operator methods
+     * such as `<<', `<=>' or `>' are not.
+     */
+    if (name_len > 2 && frame->function_name[0] == '<'
+        && g_ascii_isalpha(frame->function_name[1])
+        && frame->function_name[name_len - 1] == '>')
     {
-        if (!sr_skip_char(&local_input, '>'))
-        {
-            location->message = g_strdup("Unable to find the \">\" character "
-                                          "delimiting the function name.");
-            goto fail;
-        }
-        location->column++;
+        char *inside = g_strndup(frame->function_name + 1, name_len - 2);
+        g_free(frame->function_name);
+        frame->function_name = inside;
+        frame->special_function = true;
     }
 
     if (!sr_skip_char(&local_input, '\''))
-- 
2.43.0


From c050b8c9b9c75f675724e5dc0e8b8b03feed112f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:32 +0000
Subject: [PATCH 062/145] fix: ruby: exception messages containing a tab made
 the parser fail

---
 lib/ruby_stacktrace.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index b3660d1..dc79bdb 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -159,11 +159,20 @@ sr_ruby_stacktrace_parse(const char **input,
     /* /some/thing.rb:13:in `method': exception message (Exception::Class)\n\tfrom ...
      *                                ^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^^
      */
-    if (!sr_parse_char_cspan(&local_input, "\t", &message_and_class))
+    /* The message can contain tabs and newlines. */
+    const char *message_end = strstr(local_input, ")\n\tfrom ");
+    if (message_end)
+        message_end += strlen(")\n");
+    else
+        message_end = local_input + strlen(local_input);
+
+    if (message_end == local_input)
     {
         location->message = g_strdup("Unable to find the exception type and message.");
         goto fail;
     }
+    message_and_class = g_strndup(local_input, message_end - local_input);
+    local_input = message_end;
 
     /* /some/thing.rb:13:in `method': exception message (Exception::Class)\n\tfrom ...
      *                                                                    ^^
-- 
2.43.0


From 63aef4dc04be82895fee2274091d6384f8c23f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:42 +0000
Subject: [PATCH 063/145] fix: js: function names with several words (new Foo,
 async foo) lost all but the first

---
 lib/js_frame.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/js_frame.c b/lib/js_frame.c
index 7e3f5a2..1216391 100644
--- a/lib/js_frame.c
+++ b/lib/js_frame.c
@@ -242,6 +242,22 @@ sr_js_frame_parse_v8(const char **input,
             goto fail;
         }
 
+        /* new Foo ([stdin]-wrapper:6:22)
+         *    ^---
+         *
+         * The name can have several words: "new Foo", "async foo", "Object.get x"
+         */
+        for (;;)
+        {
+            const char *word = local_input + strspn(local_input, " ");
+            const char *word_end = word + strcspn(word, " \n");
+            if (*word == '(' || *word == '[' || *word_end != ' ')
+                break;
+
+            local_input = word_end;
+        }
+        columns = local_input - name_beg;
+
         /* Object.<anonymous> ([stdin]-wrapper:6:22)
          * ^^^^^^^^^^^^^^^^^^
          */
-- 
2.43.0


From effd81d3131894eb39ee213698433e2449b45031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:22 +0000
Subject: [PATCH 064/145] fix: js: exception messages with several lines made
 the parser fail

---
 lib/js_stacktrace.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/js_stacktrace.c b/lib/js_stacktrace.c
index ff6a06c..f06fc39 100644
--- a/lib/js_stacktrace.c
+++ b/lib/js_stacktrace.c
@@ -178,6 +178,23 @@ sr_js_stacktrace_parse_v8(const char **input,
         goto fail;
     }
 
+    /* The message can continue on the following lines, skip to the first frame. */
+    const char *line = local_input;
+    int lines = 0;
+    while (line && strncmp(line + strspn(line, " "), "at ", strlen("at ")) != 0)
+    {
+        line = strchr(line, '\n');
+        if (line)
+            ++line;
+        ++lines;
+    }
+
+    if (line)
+    {
+        local_input = line;
+        location->line += lines;
+    }
+
     struct sr_js_frame *last_frame = NULL;
     while (*local_input != '\0')
     {
-- 
2.43.0


From 3a983f5b699d5f0a53804a9d573a8eb780168ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:05 +0000
Subject: [PATCH 065/145] fix: java: an empty exception message swallowed the
 first frame

---
 lib/java_frame.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index 079326c..86aadde 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -311,7 +311,7 @@ sr_java_frame_parse_exception(const char **input,
         mark = cursor;
 
         /* foo */
-        cursor = skip_whitespace_location(mark, location);
+        sr_location_add(location, 0, sr_skip_char_span(&cursor, " \t"));
         mark = cursor;
 
         sr_location_add(location, 0, sr_skip_char_cspan(&cursor, "\n"));
-- 
2.43.0


From 8040abf93cc95fb360d39d1749fc1aa83910d851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:13 +0000
Subject: [PATCH 066/145] fix: java: white space after the last frame made the
 parser fail

---
 lib/java_frame.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index 86aadde..b1b1246 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -342,6 +342,10 @@ sr_java_frame_parse_exception(const char **input,
     {
         cursor = skip_whitespace_location(mark, location);
 
+        /* Only white space was left */
+        if (*cursor == '\0')
+            break;
+
         /* Each inner exception has '...' at its end */
         if (strncmp("... ", cursor, strlen("... ")) == 0)
             goto current_exception_done;
-- 
2.43.0


From 69b13c093a1a56e3e6576ae9a4e989eb99e16860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:20 +0000
Subject: [PATCH 067/145] fix: java: a suppressed exception right after the
 frames dropped the causes

---
 lib/java_frame.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/java_frame.c b/lib/java_frame.c
index b1b1246..26962c0 100644
--- a/lib/java_frame.c
+++ b/lib/java_frame.c
@@ -383,10 +383,13 @@ sr_java_frame_parse_exception(const char **input,
     goto exception_parsing_successful;
 
 current_exception_done:
-    sr_skip_to_next_line_location(&cursor, &location->line, &location->column);
+    if (strncmp("... ", cursor, strlen("... ")) == 0)
+    {
+        sr_skip_to_next_line_location(&cursor, &location->line, &location->column);
 
-    mark = cursor;
-    cursor = skip_whitespace_location(mark, location);
+        mark = cursor;
+        cursor = skip_whitespace_location(mark, location);
+    }
 
     if (strncmp("Suppressed: ", cursor, strlen("Suppressed: ")) == 0)
     {
-- 
2.43.0


From bf1157196d529771cde0577db6aee07d569b8c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:37 +0000
Subject: [PATCH 068/145] fix: koops: the line after the RIP line was skipped

---
 lib/koops_stacktrace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index a64bdf5..9f4194d 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -253,6 +253,10 @@ parse_IP(const char **input)
         frame = sr_koops_frame_parse(&local_input);
         if (!frame)
             return NULL;
+
+        /* The frame parser has already moved to the next line. */
+        *input = local_input;
+        return frame;
     }
     else if(sr_skip_string(&local_input, "EIP:"))
     {
-- 
2.43.0


From 4cec71f9c335c4c60e0503cac2738671f68c38ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:44 +0000
Subject: [PATCH 069/145] fix: koops: an address in the place of an ARM
 function was taken as the function name

---
 lib/koops_frame.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/koops_frame.c b/lib/koops_frame.c
index 412276c..217d42b 100644
--- a/lib/koops_frame.c
+++ b/lib/koops_frame.c
@@ -306,6 +306,12 @@ koops_frame_parse_arm_reduced(const char **input)
     if (!sr_skip_char(&local_input, '('))
         goto fail;
 
+    /* An address is not a function name. */
+    const char *address_input = local_input;
+    uint64_t unused;
+    if (sr_parse_hexadecimal_0xuint64(&address_input, &unused) && *address_input == ')')
+        goto fail;
+
     if (!sr_parse_char_cspan(&local_input, " \t\n)+<", &frame->function_name))
         goto fail;
 
-- 
2.43.0


From 723101b38ecf8d85a0d37dc6206f9ee34d2a2b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:38 +0000
Subject: [PATCH 070/145] fix: koops: a RIP line without a frame took the
 following line for its frame

---
 lib/koops_stacktrace.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/koops_stacktrace.c b/lib/koops_stacktrace.c
index 9f4194d..473e0ff 100644
--- a/lib/koops_stacktrace.c
+++ b/lib/koops_stacktrace.c
@@ -244,7 +244,7 @@ parse_IP(const char **input)
             return NULL;
 
         /* The address is there twice, skip the first one */
-        if (!sr_skip_char_cspan(&local_input, " \t"))
+        if (!sr_skip_char_cspan(&local_input, " \t\n"))
             return NULL;
 
         if (!sr_skip_char_span(&local_input, " \t"))
-- 
2.43.0


From 9231660017fd10506a63c1a22bd4d694112e8782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:03 +0000
Subject: [PATCH 071/145] fix: do not dereference NULL when sorting an empty
 package list

---
 lib/rpm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 2653edd..58d3c6f 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -175,6 +175,9 @@ struct sr_rpm_package *
 sr_rpm_package_sort(struct sr_rpm_package *packages)
 {
     size_t count = sr_rpm_package_count(packages);
+    if (count == 0)
+        return NULL;
+
     struct sr_rpm_package **array = g_malloc_n(count, sizeof(struct sr_rpm_package*));
 
     /* Copy the linked list to an array. */
-- 
2.43.0


From 8dd25aaf7cc2a47965f608aea7f9c1bb5d0b857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:03 +0000
Subject: [PATCH 072/145] fix: keep the consistency data when merging duplicate
 packages

---
 lib/rpm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 58d3c6f..8282ec6 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -236,6 +236,11 @@ package_merge(struct sr_rpm_package *p1, struct sr_rpm_package *p2)
 
     merged->role = (p1->role ? p1->role : p2->role);
 
+    /* the merged packages are going to be freed, take over their data */
+    merged->consistency = sr_rpm_consistency_append(p1->consistency,
+                                                    p2->consistency);
+    p1->consistency = p2->consistency = NULL;
+
     return merged;
 }
 
-- 
2.43.0


From 555d127d139152b6760e2a40448cf649043bc4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:03 +0000
Subject: [PATCH 073/145] fix: reject a name-version-release string with empty
 release

---
 lib/rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 8282ec6..b99f41a 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -676,7 +676,7 @@ sr_rpm_package_parse_nvr(const char *text,
     if (!last_dash)
         return false;
 
-    if (0 == strlen(last_dash))
+    if ('\0' == last_dash[1])
         return false;
 
     char *last_but_one_dash = last_dash;
-- 
2.43.0


From 454048a7ff22f2e22328b6045dac7c83472add15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:03 +0000
Subject: [PATCH 074/145] fix: reject a NEVRA string with empty architecture

---
 lib/rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index b99f41a..8d4e177 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -715,7 +715,7 @@ sr_rpm_package_parse_nevra(const char *text,
                            char **architecture)
 {
     char *last_dot = strrchr(text, '.');
-    if (!last_dot || 0 == strlen(last_dot))
+    if (!last_dot || '\0' == last_dot[1])
         return false;
 
     char *last_dash = strrchr(text, '-');
-- 
2.43.0


From d02786d7d08529f28cee977fcd7047b610de2737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:03 +0000
Subject: [PATCH 075/145] fix: reject a NEVRA string with a sign or a space in
 front of the epoch

---
 lib/rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 8d4e177..8fedce8 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -765,7 +765,7 @@ sr_rpm_package_parse_nevra(const char *text,
         char *endptr;
         errno = 0;
         unsigned long r = strtoul(epoch_str, &endptr, 10);
-        bool failure = (errno || epoch_str == endptr || *endptr != '\0'
+        bool failure = (errno || !g_ascii_isdigit(epoch_str[0]) || epoch_str == endptr || *endptr != '\0'
                         || r > UINT32_MAX);
 
         if (failure)
-- 
2.43.0


From 579a95bbf6abac92ff916082421527f8af012218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:03 +0000
Subject: [PATCH 076/145] fix: do not leak the tag container when an RPM header
 has no such string

---
 lib/rpm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 8fedce8..4153481 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -293,7 +293,10 @@ header_get_string(Header header,
                             HEADERGET_DEFAULT);
 
     if (success != 1)
+    {
+        rpmtdFree(tag_data);
         return false;
+    }
 
     const char *str = rpmtdGetString(tag_data);
     *result = (str ? g_strdup(str) : NULL);
-- 
2.43.0


From 23a75613b08768fa6a24686cb044baef6974d537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:03 +0000
Subject: [PATCH 077/145] fix: do not leak the tag container when an RPM header
 has no such number

---
 lib/rpm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/rpm.c b/lib/rpm.c
index 4153481..207b2ea 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -316,7 +316,10 @@ header_get_uint32(Header header,
                             HEADERGET_DEFAULT);
 
     if (success != 1)
+    {
+        rpmtdFree(tag_data);
         return false;
+    }
 
     uint32_t *num = rpmtdGetUint32(tag_data);
     if (num)
-- 
2.43.0


From 235bf8ddd75956b1a2b5d6f2feed9e89fecc7eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:03 +0000
Subject: [PATCH 078/145] fix: read the last line of a DSO list even if it is
 not terminated by a newline

---
 lib/abrt.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 2ed28d4..609353e 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -246,12 +246,7 @@ sr_abrt_parse_dso_list(const char *text)
         }
 
         // Find the package install time.
-        char *eol = strchr(pos, '\n');
-        if (!eol)
-        {
-            sr_rpm_package_free(dso_package, true);
-            break;
-        }
+        char *eol = strchrnul(pos, '\n');
 
         char *line = g_strndup(pos, eol - pos);
         pos = strrchr(line, ' ');
-- 
2.43.0


From 2ca63dd12905032d8d2350175c3f01f59ef1df71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:44 +0000
Subject: [PATCH 079/145] fix: read the whole file even if the system splits
 the transfer

---
 lib/utils.c | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index 45dd7a1..81b1c5e 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -188,12 +188,23 @@ sr_file_to_string(const char *filename,
     }
 
     char *contents = g_malloc(size + 1);
-    if (size != read(fd, contents, size))
+    off_t done = 0;
+    while (done < size)
     {
-        *error_message = g_strdup_printf("Unable to read from '%s'.", filename);
-        close(fd);
-        g_free(contents);
-        return NULL;
+        /* A read may legally return less than it was asked for. */
+        ssize_t read_result = read(fd, contents + done, size - done);
+        if (-1 == read_result && EINTR == errno)
+            continue;
+
+        if (read_result <= 0)
+        {
+            *error_message = g_strdup_printf("Unable to read from '%s'.", filename);
+            close(fd);
+            g_free(contents);
+            return NULL;
+        }
+
+        done += read_result;
     }
 
     /* Just reading, so no need to check the returned value. */
-- 
2.43.0


From 6c9c04f7ad5f98de8ba566117972a06ef0e64ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:44 +0000
Subject: [PATCH 080/145] fix: write the whole string even if the system splits
 the transfer

---
 lib/utils.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/lib/utils.c b/lib/utils.c
index 81b1c5e..ec65a05 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -231,19 +231,29 @@ sr_string_to_file(const char *filename,
     }
 
     size_t count = strlen(contents);
-    ssize_t write_result = write(fd, contents, count);
-    if (count != write_result)
+    size_t done = 0;
+    while (done < count)
     {
-        char *error = "Failed to write the contents to a file at once.";
-        if (-1 == write_result)
-            error = strerror(errno);
+        /* A write may legally store less than it was asked for. */
+        ssize_t write_result = write(fd, contents + done, count - done);
+        if (-1 == write_result && EINTR == errno)
+            continue;
 
-        *error_message = g_strdup_printf("Unable to write to '%s': %s.",
-                                     filename,
-                                     error);
+        if (write_result <= 0)
+        {
+            char *error = "Failed to write the contents to a file.";
+            if (-1 == write_result)
+                error = strerror(errno);
 
-        close(fd);
-        return false;
+            *error_message = g_strdup_printf("Unable to write to '%s': %s.",
+                                         filename,
+                                         error);
+
+            close(fd);
+            return false;
+        }
+
+        done += write_result;
     }
 
     int close_result = close(fd);
-- 
2.43.0


From 7f714fef2598fdaca5f48a1ccd0e8a51c3e5bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:44 +0000
Subject: [PATCH 081/145] fix: reject os-release with empty identifier or
 version

---
 lib/operating_system.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index 9795f8a..dc03ae5 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -249,5 +249,7 @@ sr_operating_system_parse_etc_os_release(const char *etc_os_release,
 {
     sr_parse_os_release(etc_os_release, os_release_callback, (void*)operating_system);
 
-    return (operating_system->name && operating_system->version);
+    /* an empty value does not identify anything */
+    return (operating_system->name && operating_system->name[0] != '\0' &&
+            operating_system->version && operating_system->version[0] != '\0');
 }
-- 
2.43.0


From d17a50affd3f23d0cb2d30c93ffe10f0f528c2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:44 +0000
Subject: [PATCH 082/145] fix: take the version only from its line and reject
 system-release without any

---
 lib/operating_system.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index dc03ae5..d20cc8c 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -194,7 +194,14 @@ sr_operating_system_parse_etc_system_release(const char *etc_system_release,
     // Fallback when parsing of version fails.
     ptrdiff_t version_len = version_end - version_begin;
     if (0 == version_len)
-        version_end = version_begin + strlen(version_begin);
+        version_end = strchrnul(version_begin, '\n');
+
+    if (version_begin == version_end)
+    {
+        g_free(*name);
+        *name = NULL;
+        return false;
+    }
 
     *version = g_strndup(version_begin, version_end - version_begin);
     return true;
-- 
2.43.0


From 31e7f1b89446b9bb98d0dcc6feb371e7fa37a344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:44 +0000
Subject: [PATCH 083/145] fix: let the last VERSION_ID of os-release win

---
 lib/operating_system.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/operating_system.c b/lib/operating_system.c
index d20cc8c..989d948 100644
--- a/lib/operating_system.c
+++ b/lib/operating_system.c
@@ -220,8 +220,11 @@ os_release_callback(char *key, char *value, void *data)
     }
     else if (0 == strcmp(key, "VERSION_ID"))
     {
-        if (operating_system->version == NULL)
+        if (g_strcmp0(operating_system->version, "rawhide") != 0)
+        {
+            g_free(operating_system->version);
             operating_system->version = value;
+        }
         else
             g_free(value);
     }
-- 
2.43.0


From adf38f7b9000c9d94026dff90d18a1899f88c49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:44 +0000
Subject: [PATCH 084/145] fix: keep a quote inside of a value quoted by the
 other kind of quotes

---
 lib/utils.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/utils.c b/lib/utils.c
index ec65a05..1bad485 100644
--- a/lib/utils.c
+++ b/lib/utils.c
@@ -655,6 +655,7 @@ sr_build_path(const char *first_element, ...)
 static void
 unescape_osinfo_value(const char *source, char* dest)
 {
+    char quote = '\0';
     while (source[0] != '\0')
     {
         if (source[0] == '\\')
@@ -664,8 +665,9 @@ unescape_osinfo_value(const char *source, char* dest)
                 break;
             *dest++ = *source++;
         }
-        else if (source[0] == '\'' || source[0] == '"')
+        else if (quote ? source[0] == quote : (source[0] == '\'' || source[0] == '"'))
         {   /* skip non escaped quotes and don't care where they are */
+            quote = (quote ? '\0' : source[0]);
             ++source;
         }
         else
-- 
2.43.0


From a3393741ff362ff98111065a77dec2742425e4b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:03 +0000
Subject: [PATCH 085/145] fix: find addresses in modules that end at the end of
 the address space

---
 lib/unstrip.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/unstrip.c b/lib/unstrip.c
index cd81e2b..94e5f71 100644
--- a/lib/unstrip.c
+++ b/lib/unstrip.c
@@ -104,7 +104,7 @@ sr_unstrip_find_address(struct sr_unstrip_entry *entries,
     struct sr_unstrip_entry *loop = entries;
     while (loop)
     {
-        if (loop->start <= address && loop->start + loop->length > address)
+        if (loop->start <= address && address - loop->start < loop->length)
             return loop;
 
         loop = loop->next;
-- 
2.43.0


From 141d86e1cf54c9e3f1a85d9156f383b9c0424fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:03 +0000
Subject: [PATCH 086/145] fix: do not take fields missing on a line of unstrip
 output from the next line

---
 lib/unstrip.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/unstrip.c b/lib/unstrip.c
index 94e5f71..d1c2b62 100644
--- a/lib/unstrip.c
+++ b/lib/unstrip.c
@@ -25,6 +25,13 @@
 #include <ctype.h>
 #include <string.h>
 
+/* A line may lack fields, do not take them from the next one. */
+static const char *
+skip_blanks(const char *s)
+{
+    return s + strspn(s, " \t");
+}
+
 struct sr_unstrip_entry *
 sr_unstrip_parse(const char *unstrip_output)
 {
@@ -56,17 +63,17 @@ sr_unstrip_parse(const char *unstrip_output)
 
         /* there may be @ADDR after the ID */
         line = sr_skip_non_whitespace(line);
-        line = sr_skip_whitespace(line);
+        line = skip_blanks(line);
 
         /* FILE */
         const char *file_name = line;
         line = sr_skip_non_whitespace(line);
         unsigned file_name_len = line - file_name;
-        line = sr_skip_whitespace(line);
+        line = skip_blanks(line);
 
         /* DEBUGFILE */
         line = sr_skip_non_whitespace(line);
-        line = sr_skip_whitespace(line);
+        line = skip_blanks(line);
 
         /* MODULENAME */
         const char *mod_name = line;
-- 
2.43.0


From 6eb55d1c3c18c2f4e422dca67a70b299bb0c64f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:03 +0000
Subject: [PATCH 087/145] fix: find functions that end at the end of the
 address space

---
 lib/elves.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/elves.c b/lib/elves.c
index 45ae61c..b103c75 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -798,7 +798,7 @@ sr_elf_find_fde_for_offset(struct sr_elf_fde *eh_frame,
     while (fde)
     {
         if (build_id_offset >= fde->start_address &&
-            build_id_offset < fde->start_address + fde->length)
+            build_id_offset - fde->start_address < fde->length)
         {
             return fde;
         }
@@ -817,7 +817,7 @@ sr_elf_find_fde_for_address(struct sr_elf_fde *eh_frame,
     while (fde)
     {
         if (address >= fde->start_address + fde->exec_base &&
-            address < fde->start_address + fde->exec_base + fde->length)
+            address - (fde->start_address + fde->exec_base) < fde->length)
         {
             return fde;
         }
-- 
2.43.0


From 3fafd6fe54ebf72d278a06fa3430c45ad992d1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:03 +0000
Subject: [PATCH 088/145] fix: do not read beyond the end of the .plt section

---
 lib/elves.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/elves.c b/lib/elves.c
index b103c75..18cf0d7 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -272,12 +272,14 @@ sr_elf_get_procedure_linkage_table(const char *filename,
      *   3463e0103b:   e9 d0 ff ff ff          jmpq   3463e01010 <_init+0x18>
      */
     struct sr_elf_plt_entry *result = NULL, *last = NULL;
-    for (unsigned plt_offset = 16; plt_offset < plt_data->d_size; plt_offset += 16)
+    for (size_t plt_offset = 16; plt_data->d_buf && plt_offset + 16 <= plt_data->d_size; plt_offset += 16)
     {
-        uint32_t *plt_index = (uint32_t*)(plt_data->d_buf + plt_offset + 7);
+        /* The number is not aligned. */
+        uint32_t plt_index;
+        memcpy(&plt_index, (const char *)plt_data->d_buf + plt_offset + 7, sizeof(plt_index));
 
         GElf_Rela rela;
-        if (gelf_getrela(rela_plt_data, *plt_index, &rela) != &rela)
+        if (gelf_getrela(rela_plt_data, plt_index, &rela) != &rela)
         {
             *error_message = g_strdup_printf("gelf_getrela failed for %s: %s",
                                          filename,
-- 
2.43.0


From 53b160212d6f189174b5fd21cdef40fc98e2b22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:03 +0000
Subject: [PATCH 089/145] fix: read .eh_frame with signal frames and do not
 read beyond the augmentation data

---
 lib/elves.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/elves.c b/lib/elves.c
index 18cf0d7..14a1f63 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -422,11 +422,20 @@ read_cie(Dwarf_CFI_Entry *cfi,
      */
     const char *augmentation = cfi->cie.augmentation;
     const uint8_t *augmentation_data = cfi->cie.augmentation_data;
+    const uint8_t *augmentation_data_end = augmentation_data + cfi->cie.augmentation_data_size;
     if (*augmentation == 'z')
         ++augmentation;
 
     while (*augmentation != '\0')
     {
+        if (*augmentation != 'S' && augmentation_data >= augmentation_data_end)
+        {
+            *error_message = g_strdup_printf("Augmentation data too short (CIE %jx)",
+                                         (uintmax_t)cfi_offset);
+            g_free(cie);
+            return NULL;
+        }
+
         switch (*augmentation)
         {
         case 'R':
@@ -443,6 +452,9 @@ read_cie(Dwarf_CFI_Entry *cfi,
                 cie->pcrel = true;
 
             return cie;
+        case 'S':
+            /* Signal frame, there is no data for it. */
+            break;
         case 'L':
             ++augmentation_data;
             break;
-- 
2.43.0


From e40d9043e9291bc89399bedee4f7f9876923b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:03 +0000
Subject: [PATCH 090/145] fix: do not read beyond the end of an FDE

---
 lib/elves.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/elves.c b/lib/elves.c
index 14a1f63..cf65697 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -738,6 +738,19 @@ sr_elf_get_eh_frame(const char *filename,
              * compute the offset from VMA base
              */
 
+            if (cfi.fde.end - cfi.fde.start < 2 * cie->ptr_len)
+            {
+                *error_message = g_strdup_printf("Too short FDE %jx in %s",
+                                             (uintmax_t)cfi_offset,
+                                             filename);
+
+                cie_free(cie_list);
+                sr_elf_eh_frame_free(result);
+                elf_end(elf);
+                close(fd);
+                return NULL;
+            }
+
             uint64_t initial_location = fde_read_address(cfi.fde.start,
                                                          cie->ptr_len);
 
-- 
2.43.0


From 745c4193a47e5653d702636c40e5f665aa68d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:03 +0000
Subject: [PATCH 091/145] fix: allocate room for the terminator of callee
 addresses

---
 lib/disasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disasm.c b/lib/disasm.c
index e38a91d..0198e01 100644
--- a/lib/disasm.c
+++ b/lib/disasm.c
@@ -160,7 +160,7 @@ sr_disasm_get_callee_addresses(char **instructions)
     }
 
     /* Create the output array and fill it */
-    uint64_t *result = g_malloc(result_size * sizeof(*result) + 1);
+    uint64_t *result = g_malloc_n(result_size + 1, sizeof(*result));
     size_t result_offset = 0;
     instruction_offset = 0;
     while (instructions[instruction_offset])
-- 
2.43.0


From 56c3a5a890e21c0e521f2aa9bb13844e7712cb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:03 +0000
Subject: [PATCH 092/145] fix: compare whole mnemonics when looking for an
 instruction

---
 lib/disasm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/disasm.c b/lib/disasm.c
index 0198e01..50ecc54 100644
--- a/lib/disasm.c
+++ b/lib/disasm.c
@@ -81,7 +81,7 @@ sr_disasm_instruction_is_one_of(char *instruction,
     {
         size_t len = strlen(*mnemonics);
         if (0 == strncmp(instruction, *mnemonics, len) &&
-            (' ' == *(*mnemonics + len) || '\0' == *(*mnemonics + len)))
+            (' ' == instruction[len] || '\0' == instruction[len]))
         {
             return true;
         }
-- 
2.43.0


From 2eec4fcecc6c479d38d2333e121a4dea7a8c8c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:03 +0000
Subject: [PATCH 093/145] fix: do not skip the first frame and crash after the
 last one when creating a core stacktrace from GDB and unstrip output

---
 lib/core_stacktrace.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index 140b537..bb6e58f 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -356,8 +356,6 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
         struct sr_gdb_frame *gdb_frame = gdb_thread->frames;
         while (gdb_frame)
         {
-            gdb_frame = gdb_frame->next;
-
             struct sr_core_frame *core_frame = sr_core_frame_new();
             core_frame->address = gdb_frame->address;
 
@@ -379,6 +377,7 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
             }
 
             core_thread->frames = sr_core_frame_append(core_thread->frames, core_frame);
+            gdb_frame = gdb_frame->next;
         }
 
         core_stacktrace->threads =
-- 
2.43.0


From 85dd568772de22913cb8b21d5e563ac1d5602bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:03 +0000
Subject: [PATCH 094/145] fix: do not return an empty stacktrace when attaching
 to the process fails

---
 lib/core_unwind_elfutils.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/core_unwind_elfutils.c b/lib/core_unwind_elfutils.c
index 67841cd..1f56bf3 100644
--- a/lib/core_unwind_elfutils.c
+++ b/lib/core_unwind_elfutils.c
@@ -331,6 +331,8 @@ sr_core_stacktrace_from_core_hook_generate(pid_t tid,
     if (dwfl_linux_proc_attach(state->dwfl, tid, true) != 0)
     {
         set_error_dwfl("dwfl_linux_proc_attach");
+        sr_core_stacktrace_free(stacktrace);
+        stacktrace = NULL;
         goto fail;
     }
 
-- 
2.43.0


From c402e2d9e4c524252ccb2bd75c3dfff6706d4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:28 +0000
Subject: [PATCH 095/145] fix: compute function addresses correctly when the
 executable segment is not at the beginning of the file

---
 lib/elves.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/elves.c b/lib/elves.c
index cf65697..dbbfc3b 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -600,7 +600,9 @@ sr_elf_get_eh_frame(const char *filename,
 
         if (phdr.p_type == PT_LOAD && phdr.p_flags & PF_X)
         {
-            exec_base = phdr.p_vaddr;
+            /* The segment does not have to start at the beginning of
+             * the file. */
+            exec_base = phdr.p_vaddr - phdr.p_offset;
             break;
         }
     }
@@ -765,7 +767,7 @@ sr_elf_get_eh_frame(const char *filename,
                 uint64_t length = fde_read_address(section_data->d_buf + cfi_offset, 4);
                 uint64_t skip = (length == 0xffffffffUL ? 12 : 4);
                 uint64_t mask = (cie->ptr_len == 4 ? 0xffffffffUL : 0xffffffffffffffffUL);
-                initial_location += shdr.sh_offset + cfi_offset + 2 * skip;
+                initial_location += shdr.sh_addr - exec_base + cfi_offset + 2 * skip;
                 initial_location &= mask;
             }
             else
-- 
2.43.0


From c8e2228ce0e6a2f67abe68550cfa3f7591ad801b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:46 +0000
Subject: [PATCH 096/145] fix: tell libelf the version of ELF before reading
 files

---
 lib/elves.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/elves.c b/lib/elves.c
index dbbfc3b..8da6561 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -132,6 +132,7 @@ sr_elf_get_procedure_linkage_table(const char *filename,
     }
 
     /* Initialize libelf on the opened file. */
+    elf_version(EV_CURRENT);
     Elf *elf = elf_begin(fd, ELF_C_READ, NULL);
     if (!elf)
     {
@@ -526,6 +527,7 @@ sr_elf_get_eh_frame(const char *filename,
     }
 
     /* Initialize libelf on the opened file. */
+    elf_version(EV_CURRENT);
     Elf *elf = elf_begin(fd, ELF_C_READ, NULL);
     if (!elf)
     {
-- 
2.43.0


From f3af9183c39effa864765e2b5e95c4fd7aaa924a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:57 +0000
Subject: [PATCH 097/145] fix: do not take the build ID of an unstrip line from
 the next line

---
 lib/unstrip.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/unstrip.c b/lib/unstrip.c
index d1c2b62..b35b2d9 100644
--- a/lib/unstrip.c
+++ b/lib/unstrip.c
@@ -46,13 +46,13 @@ sr_unstrip_parse(const char *unstrip_output)
         uint64_t start;
         uint64_t length;
         int chars_read;
-        int ret = sscanf(line, "0x%"PRIx64"+0x%"PRIx64" %n",
+        int ret = sscanf(line, "0x%"PRIx64"+0x%"PRIx64"%n",
                          &start, &length, &chars_read);
 
         if (ret < 2)
             goto eat_line;
 
-        line += chars_read;
+        line = skip_blanks(line + chars_read);
 
         /* BUILDID */
         const char *build_id = line;
-- 
2.43.0


From 7491095a0253662a04ea840ce0e4a405a0dc3451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:58 +0000
Subject: [PATCH 098/145] fix: do not read ELF sections without data

---
 lib/elves.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/elves.c b/lib/elves.c
index 8da6561..8317ab3 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -104,6 +104,13 @@ find_elf_section_by_name(Elf *elf,
                 return 0;
             }
 
+            /* A section of the NOBITS type has size, but no data. */
+            if (!(*data_dest)->d_buf && (*data_dest)->d_size > 0)
+            {
+                *error_message = g_strdup_printf("Section %s has no data", section_name);
+                return 0;
+            }
+
             /* Save the section header. */
             *shdr_dest = shdr;
             return section_index;
-- 
2.43.0


From 873b1fd2f8dcfb2001e30ace69761e0bdefd777e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 099/145] fix: do not take JavaScript problem directories for
 Java ones

---
 lib/abrt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 609353e..affd9ba 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -848,6 +848,8 @@ sr_abrt_type_from_type(const char *type)
         return SR_REPORT_PYTHON;
     else if (0 == strncmp(type, "Kerneloops", 10))
         return SR_REPORT_KERNELOOPS;
+    else if (0 == strncmp(type, "JavaScript", 10))
+        return SR_REPORT_JAVASCRIPT;
     else if (0 == strncmp(type, "Java", 4))
         return SR_REPORT_JAVA;
     else if (0 == strncmp(type, "Ruby", 4))
-- 
2.43.0


From 4f70700325b73a5d477507a5c909feac22a9a30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 100/145] fix: free the kernel version when the backtrace of a
 kernel oops is missing

---
 lib/abrt.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index affd9ba..49a96b5 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -697,6 +697,7 @@ sr_abrt_report_from_dir(const char *directory,
         char *backtrace_contents = file_contents(directory, "backtrace", error_message);
         if (!backtrace_contents)
         {
+            g_free(kernel_contents);
             sr_report_free(report);
             return NULL;
         }
@@ -709,16 +710,18 @@ sr_abrt_report_from_dir(const char *directory,
             &contents_pointer,
             &location);
 
-        stacktrace->version = kernel_contents;
-        report->stacktrace = (struct sr_stacktrace *)stacktrace;
-
         g_free(backtrace_contents);
-        if (!report->stacktrace)
+        if (!stacktrace)
         {
             *error_message = sr_location_to_string(&location);
+            g_free(kernel_contents);
             sr_report_free(report);
             return NULL;
         }
+
+        g_free(stacktrace->version);
+        stacktrace->version = kernel_contents;
+        report->stacktrace = (struct sr_stacktrace *)stacktrace;
     }
 
     /* Java stacktrace. */
-- 
2.43.0


From 65f8a3b3ce3aaf2aadfeaa472da75062ed2da7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 101/145] fix: free the backtrace when the analyzer of a
 problem directory is missing

---
 lib/abrt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 49a96b5..95c52f4 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -795,6 +795,7 @@ sr_abrt_report_from_dir(const char *directory,
                                                 error_message);
         if (!analyzer_contents)
         {
+            g_free(backtrace_contents);
             sr_report_free(report);
             return NULL;
         }
-- 
2.43.0


From a1dfc03c4be5d390c46345ffefc496a841a766d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 102/145] fix: do not reject a count of 0 because of an earlier
 error

---
 lib/abrt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 95c52f4..82eefd7 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -474,6 +474,7 @@ occurrences_from_dir(const char *directory,
 
     char *endptr = NULL;
     bool result = false;
+    errno = 0;
     const long count = strtol(count_contents, &endptr , 10);
 
     /* Check for various possible errors */
-- 
2.43.0


From 894a6329712d97bc02fc3fdb3274bc9327a22d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 103/145] fix: reject a package epoch that is not a number and
 free what was read

---
 lib/abrt.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 82eefd7..51ab493 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -296,26 +296,32 @@ rpm_pkg_from_dir(struct sr_rpm_package *packages,
     char *epoch_str = file_contents(directory, "pkg_epoch", error_message);
     if (!epoch_str)
     {
+        sr_rpm_package_free(packages, false);
         return NULL;
     }
-    unsigned long epoch = strtoul(epoch_str, NULL, 10);
-    if (epoch == ULONG_MAX)
+    strip_newline(epoch_str);
+
+    char *endptr = NULL;
+    errno = 0;
+    unsigned long epoch = strtoul(epoch_str, &endptr, 10);
+    if (errno != 0 || endptr == epoch_str || *endptr != '\0'
+        || strchr(epoch_str, '-') || epoch > UINT32_MAX)
     {
         *error_message = g_strdup_printf("Epoch '%s' is not a number", epoch_str);
+        g_free(epoch_str);
+        sr_rpm_package_free(packages, false);
         return NULL;
     }
     g_free(epoch_str);
 
-
     packages->epoch = (uint32_t)epoch;
-    packages->name = file_contents(directory, "pkg_name", error_message);
-    packages->version = file_contents(directory, "pkg_version", error_message);
-    packages->release = file_contents(directory, "pkg_release", error_message);
-    packages->architecture = file_contents(directory, "pkg_arch", error_message);
     packages->role = SR_ROLE_AFFECTED;
 
-    if (!(packages->name && packages->version && packages->release &&
-          packages->architecture))
+    /* Stop at the first failure, so that its error message is kept. */
+    if (!(packages->name = file_contents(directory, "pkg_name", error_message)) ||
+        !(packages->version = file_contents(directory, "pkg_version", error_message)) ||
+        !(packages->release = file_contents(directory, "pkg_release", error_message)) ||
+        !(packages->architecture = file_contents(directory, "pkg_arch", error_message)))
     {
         sr_rpm_package_free(packages, false);
         return NULL;
-- 
2.43.0


From 65c5d6514b5cad9ad6030ba9ee4557fb238cc82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:56 +0000
Subject: [PATCH 104/145] fix: accept an empty list of shared objects of an
 unpackaged program and report an unreadable one

---
 lib/abrt.c | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 51ab493..daf236b 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -337,29 +337,29 @@ rpm_pkg_from_dir(struct sr_rpm_package *packages,
     return packages;
 }
 
-static struct sr_rpm_package *
-rpm_dso_list_from_dir(struct sr_rpm_package *packages,
+static bool
+rpm_dso_list_from_dir(struct sr_rpm_package **packages,
                       const char *directory,
                       char **error_message)
 {
     char *dso_list_contents = file_contents(directory, "dso_list",
                                             error_message);
-    if (dso_list_contents)
-    {
-        struct sr_rpm_package *dso_packages =
-            sr_abrt_parse_dso_list(dso_list_contents);
+    if (!dso_list_contents)
+        return false;
 
-        if (dso_packages)
-        {
-            packages = sr_rpm_package_append(packages, dso_packages);
-            packages = sr_rpm_package_sort(packages);
-            packages = sr_rpm_package_uniq(packages);
-        }
+    /* The list may be empty. */
+    struct sr_rpm_package *dso_packages =
+        sr_abrt_parse_dso_list(dso_list_contents);
 
-        g_free(dso_list_contents);
+    if (dso_packages)
+    {
+        *packages = sr_rpm_package_append(*packages, dso_packages);
+        *packages = sr_rpm_package_sort(*packages);
+        *packages = sr_rpm_package_uniq(*packages);
     }
 
-    return packages;
+    g_free(dso_list_contents);
+    return true;
 }
 
 static struct sr_rpm_package *
@@ -424,8 +424,7 @@ sr_abrt_rpm_packages_from_dir(const char *directory, struct sr_rpm_package **pac
     /* if dso_list doesn't exist, do not attach it */
     if (file_exist(directory, "dso_list"))
     {
-        *packages = rpm_dso_list_from_dir(*packages, directory, error_message);
-        if (!*packages)
+        if (!rpm_dso_list_from_dir(packages, directory, error_message))
             return -2;
     }
 
-- 
2.43.0


From fbb13910da62eeef8b6b777eee6b9fa76e68d694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:56 +0000
Subject: [PATCH 105/145] fix: do not leave error messages behind when a report
 is made despite of a missing optional file

---
 lib/abrt.c | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index daf236b..33c190d 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -51,6 +51,17 @@ file_contents(const char *directory, const char *file, char **error_message)
     return contents;
 }
 
+/* For files whose absence is not a failure of the caller. */
+static char*
+optional_file_contents(const char *directory, const char *file)
+{
+    char *error_message = NULL;
+    char *contents = file_contents(directory, file, &error_message);
+
+    g_free(error_message);
+    return contents;
+}
+
 bool
 sr_abrt_print_report_from_dir(const char *directory,
                                char **error_message)
@@ -364,11 +375,9 @@ rpm_dso_list_from_dir(struct sr_rpm_package **packages,
 
 static struct sr_rpm_package *
 rpm_interpreter_from_dir(struct sr_rpm_package *packages,
-                         const char *directory,
-                         char **error_message)
+                         const char *directory)
 {
-    char *interpreter_str = file_contents(directory, "interpreter",
-                                          error_message);
+    char *interpreter_str = optional_file_contents(directory, "interpreter");
     if (interpreter_str)
     {
         struct sr_rpm_package *interpreter_package = sr_rpm_package_new();
@@ -430,16 +439,15 @@ sr_abrt_rpm_packages_from_dir(const char *directory, struct sr_rpm_package **pac
 
     /* attach interpreter as related package if exists */
     if (file_exist(directory, "interpreter"))
-        *packages = rpm_interpreter_from_dir(*packages, directory, error_message);
+        *packages = rpm_interpreter_from_dir(*packages, directory);
 
     return 0;
 }
 
 static char *
-desktop_from_dir(const char *directory,
-                    char **error_message)
+desktop_from_dir(const char *directory)
 {
-    char *environ_contents = file_contents(directory, "environ", error_message);
+    char *environ_contents = optional_file_contents(directory, "environ");
     if (!environ_contents)
         return NULL;
 
@@ -517,16 +525,15 @@ finito:
 }
 
 static char *
-get_component(const char *directory,
-              char **error_message)
+get_component(const char *directory)
 {
     if (is_packaged(directory))
-        return file_contents(directory, "component", error_message);
+        return optional_file_contents(directory, "component");
 
     /* create component from executable basename concatenated with '-unpackaged' str */
     if (file_exist(directory, "executable"))
     {
-        char *executable = file_contents(directory, "executable", error_message);
+        char *executable = optional_file_contents(directory, "executable");
         if (executable)
         {
             const char *basename = strrchr(executable, '/');
@@ -552,7 +559,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     bool success = false;
     struct sr_operating_system *os = sr_operating_system_new();
 
-    char *osinfo_contents = file_contents(directory, "os_info", error_message);
+    char *osinfo_contents = optional_file_contents(directory, "os_info");
     if (osinfo_contents)
     {
         success = sr_operating_system_parse_etc_os_release(osinfo_contents, os);
@@ -562,8 +569,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     /* fall back to os_release if parsing os_info fails */
     if (!success)
     {
-        char *release_contents = file_contents(directory, "os_release",
-                                               error_message);
+        char *release_contents = optional_file_contents(directory, "os_release");
         if (release_contents)
         {
             success = sr_operating_system_parse_etc_system_release(release_contents,
@@ -588,7 +594,7 @@ sr_abrt_operating_system_from_dir(const char *directory,
     }
 
     /* optional - failure is not fatal */
-    os->desktop = desktop_from_dir(directory, error_message);
+    os->desktop = desktop_from_dir(directory);
 
     return os;
 }
@@ -621,7 +627,7 @@ sr_abrt_report_from_dir(const char *directory,
     }
 
     /* Component name. */
-    report->component_name = get_component(directory, error_message);
+    report->component_name = get_component(directory);
 
     /* RPM packages. */
     if (sr_abrt_rpm_packages_from_dir(directory, &report->rpm_packages, error_message) < 0 )
@@ -807,9 +813,10 @@ sr_abrt_report_from_dir(const char *directory,
         }
 
         /* Determine platform */
+        char *platform_error = NULL;
         sr_js_platform_t platform = sr_js_platform_from_string(analyzer_contents,
                                                                NULL,
-                                                               error_message);
+                                                               &platform_error);
         g_free(analyzer_contents);
 
         struct sr_location location;
@@ -828,9 +835,8 @@ sr_abrt_report_from_dir(const char *directory,
 
             /* This message should help maintainers when a new platform
              * appears. */
-            warn("Have to try to guess JavaScript platform: %s", *error_message);
-            g_free(*error_message);
-            *error_message = NULL;
+            warn("Have to try to guess JavaScript platform: %s", platform_error);
+            g_free(platform_error);
 
             report->stacktrace = (struct sr_stacktrace *)sr_js_stacktrace_parse(
                 &contents_pointer,
-- 
2.43.0


From c61920c521330c916bfdd4b8665e5d8741f1058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:56 +0000
Subject: [PATCH 106/145] fix: do not mix a malformed os_info with os_release

---
 lib/abrt.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 33c190d..6e40449 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -564,6 +564,13 @@ sr_abrt_operating_system_from_dir(const char *directory,
     {
         success = sr_operating_system_parse_etc_os_release(osinfo_contents, os);
         g_free(osinfo_contents);
+
+        if (!success)
+        {
+            /* Drop what was read before the failure. */
+            sr_operating_system_free(os);
+            os = sr_operating_system_new();
+        }
     }
 
     /* fall back to os_release if parsing os_info fails */
-- 
2.43.0


From a844467f7c6d5c31062eef58454ed5f1c48e4209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:56 +0000
Subject: [PATCH 107/145] fix: find DESKTOP_SESSION after a variable whose name
 ends with it

---
 lib/abrt.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/lib/abrt.c b/lib/abrt.c
index 6e40449..02da469 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -451,16 +451,13 @@ desktop_from_dir(const char *directory)
     if (!environ_contents)
         return NULL;
 
-    char *desktop = strstr(environ_contents, "DESKTOP_SESSION=");
-    if (!desktop)
-    {
-        g_free(environ_contents);
-        return NULL;
-    }
-
     /* avoid prefixes - DESKTOP_SESSION= must either be
        the very first variable or preceeded by a newline */
-    if (desktop != environ_contents && *(desktop - 1) != '\n')
+    char *desktop = strstr(environ_contents, "DESKTOP_SESSION=");
+    while (desktop && desktop != environ_contents && *(desktop - 1) != '\n')
+        desktop = strstr(desktop + 1, "DESKTOP_SESSION=");
+
+    if (!desktop)
     {
         g_free(environ_contents);
         return NULL;
-- 
2.43.0


From aaf8bb08ec435fb4707fa057cd27cb48851ddbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:56 +0000
Subject: [PATCH 108/145] fix: do not keep a newline in the architecture of the
 interpreter package

---
 lib/abrt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/abrt.c b/lib/abrt.c
index 02da469..3e1b08e 100644
--- a/lib/abrt.c
+++ b/lib/abrt.c
@@ -380,6 +380,7 @@ rpm_interpreter_from_dir(struct sr_rpm_package *packages,
     char *interpreter_str = optional_file_contents(directory, "interpreter");
     if (interpreter_str)
     {
+        strip_newline(interpreter_str);
         struct sr_rpm_package *interpreter_package = sr_rpm_package_new();
         bool success = sr_rpm_package_parse_nevra(interpreter_str,
                                                   &interpreter_package->name,
-- 
2.43.0


From cb4cf56241decddcdf9533f566b15b9ff0d22fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:09 +0000
Subject: [PATCH 109/145] fix: do not leak messages of locations of Ruby parser
 errors

---
 lib/ruby_stacktrace.c | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/lib/ruby_stacktrace.c b/lib/ruby_stacktrace.c
index dc79bdb..cc59c09 100644
--- a/lib/ruby_stacktrace.c
+++ b/lib/ruby_stacktrace.c
@@ -140,8 +140,10 @@ sr_ruby_stacktrace_parse(const char **input,
     if (!stacktrace->frames)
     {
         char *reason = (char *)location->message;
-        location->message = g_strdup_printf("Topmost stacktrace frame not found: %s",
+        char *message = g_strdup_printf("Topmost stacktrace frame not found: %s",
                             reason ? reason : "(unknown reason)");
+        location->message = g_intern_string(message);
+        g_free(message);
         g_free(reason);
         goto fail;
     }
@@ -151,7 +153,7 @@ sr_ruby_stacktrace_parse(const char **input,
      */
     if (!sr_skip_string(&local_input, ": "))
     {
-        location->message = g_strdup("Unable to find the colon after first function name.");
+        location->message = "Unable to find the colon after first function name.";
         goto fail;
     }
     location->column += strlen(": ");
@@ -168,7 +170,7 @@ sr_ruby_stacktrace_parse(const char **input,
 
     if (message_end == local_input)
     {
-        location->message = g_strdup("Unable to find the exception type and message.");
+        location->message = "Unable to find the exception type and message.";
         goto fail;
     }
     message_and_class = g_strndup(local_input, message_end - local_input);
@@ -184,8 +186,8 @@ sr_ruby_stacktrace_parse(const char **input,
     if (p < message_and_class || *p != '\n')
     {
         location->column--;
-        location->message = g_strdup("Unable to find the new line character after "
-                                      "the end of exception class");
+        location->message = "Unable to find the new line character after "
+                            "the end of exception class";
         goto fail;
     }
 
@@ -196,8 +198,8 @@ sr_ruby_stacktrace_parse(const char **input,
     if (p < message_and_class || *p != ')')
     {
         location->column -= 2;
-        location->message = g_strdup("Unable to find the ')' character identifying "
-                                      "the end of exception class");
+        location->message = "Unable to find the ')' character identifying "
+                            "the end of exception class";
         goto fail;
     }
 
@@ -212,8 +214,8 @@ sr_ruby_stacktrace_parse(const char **input,
 
     if (strlen(p) <= 0)
     {
-        location->message = g_strdup("Unable to find the '(' character identifying "
-                                      "the beginning of the exception class");
+        location->message = "Unable to find the '(' character identifying "
+                            "the beginning of the exception class";
         goto fail;
     }
     stacktrace->exception_name = g_strdup(p);
@@ -224,8 +226,8 @@ sr_ruby_stacktrace_parse(const char **input,
     p--;
     if (p < message_and_class || *p != '(')
     {
-        location->message = g_strdup("Unable to find the '(' character identifying "
-                                      "the beginning of the exception class");
+        location->message = "Unable to find the '(' character identifying "
+                            "the beginning of the exception class";
         goto fail;
     }
 
@@ -248,7 +250,7 @@ sr_ruby_stacktrace_parse(const char **input,
         int skipped = sr_skip_string(&local_input, "\tfrom ");
         if (!skipped)
         {
-            location->message = g_strdup("Frame header not found.");
+            location->message = "Frame header not found.";
             goto fail;
         }
         location->column += skipped;
@@ -256,14 +258,18 @@ sr_ruby_stacktrace_parse(const char **input,
         last_frame->next = sr_ruby_frame_parse(&local_input, location);
         if (!last_frame->next)
         {
-            /* location->message is already set */
+            /* location->message is already set, but it is allocated and our
+             * caller does not release messages. */
+            char *reason = (char *)location->message;
+            location->message = g_intern_string(reason);
+            g_free(reason);
             goto fail;
         }
 
         /* Eat newline (except at the end of file). */
         if (!sr_skip_char(&local_input, '\n') && *local_input != '\0')
         {
-            location->message = g_strdup("Expected newline after stacktrace frame.");
+            location->message = "Expected newline after stacktrace frame.";
             goto fail;
         }
         location->column = 0;
-- 
2.43.0


From a8fdf922602b9fda889cf684b8887adde66f1e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:49 +0000
Subject: [PATCH 110/145] fix: set the executable and the crash thread of core
 stacktraces created from GDB output

sr_core_stacktrace_create() ignored the path of the executable it was
given and left the crash thread unset even when the GDB output tells
which thread it is.
---
 lib/core_stacktrace.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/core_stacktrace.c b/lib/core_stacktrace.c
index bb6e58f..11f014a 100644
--- a/lib/core_stacktrace.c
+++ b/lib/core_stacktrace.c
@@ -348,6 +348,9 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
     struct sr_core_stacktrace *core_stacktrace =
         sr_core_stacktrace_new();
 
+    struct sr_gdb_thread *gdb_crash_thread =
+        sr_gdb_stacktrace_find_crash_thread(gdb_stacktrace);
+
     struct sr_gdb_thread *gdb_thread = gdb_stacktrace->threads;
     while (gdb_thread)
     {
@@ -384,9 +387,14 @@ sr_core_stacktrace_create(const char *gdb_stacktrace_text,
             sr_core_thread_append(core_stacktrace->threads,
                                   core_thread);
 
+        if (gdb_thread == gdb_crash_thread)
+            core_stacktrace->crash_thread = core_thread;
+
         gdb_thread = gdb_thread->next;
     }
 
+    core_stacktrace->executable = g_strdup(executable_path);
+
     sr_unstrip_free(unstrip);
     sr_gdb_stacktrace_free(gdb_stacktrace);
     return core_stacktrace;
-- 
2.43.0


From 005d0a443143ff03fe8650489790959188b11b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:49 +0000
Subject: [PATCH 111/145] fix: keep at most CORE_STACKTRACE_FRAME_LIMIT frames
 of a GDB thread

The top frames of a long thread were dropped one for one, but the signal
handler markers among them are not frames of the result, so more frames
than the limit remained.
---
 lib/core_unwind.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 6a5be9b..619f383 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -463,9 +463,16 @@ sr_core_stacktrace_from_gdb(const char *gdb_output, const char *core_file,
                 continue;
 
             if (nframes)
+            {
                 --nframes;
-            else
+                continue;
+            }
+
+            /* Drop one frame from the top, together with the signal handler
+             * markers above it, which do not count. */
+            while (top_frame->signal_handler_called)
                 top_frame = top_frame->next;
+            top_frame = top_frame->next;
         }
 
         for (struct sr_gdb_frame *gdb_frame = top_frame;
-- 
2.43.0


From 41ac5d2a45be0903d89f4ecd1df6a58004c89cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:49 +0000
Subject: [PATCH 112/145] fix: release a core dump opened as file descriptor 0

---
 lib/core_unwind.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 619f383..54a0c26 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -123,7 +123,7 @@ core_handle_free(struct core_handle *ch)
             dwfl_end(ch->dwfl);
         if (ch->eh)
             elf_end(ch->eh);
-        if (ch->fd > 0)
+        if (ch->fd >= 0)
             close(ch->fd);
         g_free(ch);
     }
@@ -263,6 +263,13 @@ open_coredump(const char *elf_file, const char *exe_file, char **error_msg)
     if (ret == -1)
     {
         set_error_dwfl("dwfl_getmodules");
+        while (head)
+        {
+            struct exe_mapping_data *next = head->next;
+            g_free(head->filename);
+            g_free(head);
+            head = next;
+        }
         goto fail_dwfl;
     }
     ch->segments = head;
-- 
2.43.0


From e0e81d06523b4ff342cc542211c14e2bb2d668ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:02 +0000
Subject: [PATCH 113/145] fix: look up functions of unwound frames at the right
 address

dwfl_frame_pc() tells whether the frame is an activation, i.e. whether its
address must NOT be decremented to find the function.  The flag was used
in the opposite sense: the function of the crash frame was looked up one
byte before its address and those of its callers at the return address,
so that a crash in the first instruction of a function, or a call at its
end, was reported in the neighbouring function.
---
 lib/core_unwind.c          | 4 +++-
 lib/core_unwind_elfutils.c | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 54a0c26..7130646 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -301,7 +301,9 @@ resolve_frame(Dwfl *dwfl, Dwarf_Addr ip, bool minus_one)
     struct sr_core_frame *frame = sr_core_frame_new();
     frame->address = frame->build_id_offset = (uint64_t)ip;
 
-    /* see dwfl_frame_state_pc for meaning of this parameter */
+    /* A return address may lie just after the end of the calling function, the
+     * address of an activation (see dwfl_frame_pc) may be the first one of the
+     * function. */
     Dwarf_Addr ip_adjusted = ip - (minus_one ? 1 : 0);
 
     Dwfl_Module *mod = dwfl_addrmodule(dwfl, ip_adjusted);
diff --git a/lib/core_unwind_elfutils.c b/lib/core_unwind_elfutils.c
index 1f56bf3..3ded664 100644
--- a/lib/core_unwind_elfutils.c
+++ b/lib/core_unwind_elfutils.c
@@ -61,15 +61,15 @@ frame_callback(Dwfl_Frame *frame, void *data)
     char **error_msg = &frame_arg->error_msg;
 
     Dwarf_Addr pc;
-    bool minus_one;
-    if (!dwfl_frame_pc(frame, &pc, &minus_one))
+    bool is_activation;
+    if (!dwfl_frame_pc(frame, &pc, &is_activation))
     {
         set_error_dwfl("dwfl_frame_pc");
         return DWARF_CB_ABORT;
     }
 
     Dwfl *dwfl = dwfl_thread_dwfl(dwfl_frame_thread(frame));
-    struct sr_core_frame *result = resolve_frame(dwfl, pc, minus_one);
+    struct sr_core_frame *result = resolve_frame(dwfl, pc, !is_activation);
 
     /* Do not unwind below __libc_start_main. */
     if (0 == g_strcmp0(result->function_name, "__libc_start_main"))
-- 
2.43.0


From 0af5516bab991b8c32dca32448daca4db556e7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:02 +0000
Subject: [PATCH 114/145] fix: look up functions of calling frames of GDB
 output at the call

The address of a frame which called another function is a return address
and may lie just after the end of the calling function.
---
 lib/core_unwind.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/core_unwind.c b/lib/core_unwind.c
index 7130646..1e68b76 100644
--- a/lib/core_unwind.c
+++ b/lib/core_unwind.c
@@ -484,15 +484,23 @@ sr_core_stacktrace_from_gdb(const char *gdb_output, const char *core_file,
             top_frame = top_frame->next;
         }
 
+        /* Addresses of frames that called another function are return
+         * addresses. */
+        bool return_address = (top_frame != gdb_thread->frames);
+
         for (struct sr_gdb_frame *gdb_frame = top_frame;
              gdb_frame;
              gdb_frame = gdb_frame->next)
         {
             if (gdb_frame->signal_handler_called)
+            {
+                return_address = false;
                 continue;
+            }
 
             struct sr_core_frame *core_frame = resolve_frame(ch->dwfl,
-                    gdb_frame->address, false);
+                    gdb_frame->address, return_address);
+            return_address = true;
 
             core_thread->frames = sr_core_frame_append(core_thread->frames,
                     core_frame);
-- 
2.43.0


From a7294024bb0d5ea257ea3b2e0c34c67de506267c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:47 +0000
Subject: [PATCH 115/145] fix: reject values Python attributes cannot hold

Strings with embedded null characters and 32bit values above UINT32_MAX
were silently truncated, 64bit values out of range were masked and an
exception raised when evaluating a boolean was left pending.
---
 python/py_common.c | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/python/py_common.c b/python/py_common.c
index 40129b3..94be57f 100644
--- a/python/py_common.c
+++ b/python/py_common.c
@@ -20,6 +20,8 @@
 
 #include "py_common.h"
 
+#include <string.h>
+
 #include "utils.h"
 
 /*
@@ -50,10 +52,17 @@ sr_py_setter_string(PyObject *self, PyObject *rhs, void *data)
 
     struct getset_offsets *gsoff = data;
 
-    const char *newvalue = PyUnicode_AsUTF8(rhs);
+    Py_ssize_t length;
+    const char *newvalue = PyUnicode_AsUTF8AndSize(rhs, &length);
     if (!newvalue)
         return -1;
 
+    if (strlen(newvalue) != (size_t)length)
+    {
+        PyErr_SetString(PyExc_ValueError, "Embedded null character.");
+        return -1;
+    }
+
     char *str = MEMB_T(char*, MEMB(self, gsoff->c_struct_offset), gsoff->member_offset);
     g_free(str);
     MEMB_T(char*, MEMB(self, gsoff->c_struct_offset), gsoff->member_offset) = g_strdup(newvalue);
@@ -100,7 +109,7 @@ sr_py_getter_uint32(PyObject *self, void *data)
 {
     struct getset_offsets *gsoff = data;
     uint32_t num = MEMB_T(uint32_t, MEMB(self, gsoff->c_struct_offset), gsoff->member_offset);
-    return PyInt_FromLong(num);
+    return PyLong_FromUnsignedLong(num);
 }
 
 int
@@ -118,9 +127,9 @@ sr_py_setter_uint32(PyObject *self, PyObject *rhs, void *data)
     if (PyErr_Occurred())
         return -1;
 
-    if (newvalue < 0)
+    if (newvalue < 0 || newvalue > UINT32_MAX)
     {
-        PyErr_SetString(PyExc_ValueError, "Value must not be negative.");
+        PyErr_SetString(PyExc_ValueError, "Negative or too large value.");
         return -1;
     }
 
@@ -149,7 +158,10 @@ sr_py_setter_bool(PyObject *self, PyObject *rhs, void *data)
 
     struct getset_offsets *gsoff = data;
 
-    bool newvalue = PyObject_IsTrue(rhs);
+    int newvalue = PyObject_IsTrue(rhs);
+    if (newvalue < 0)
+        return -1;
+
     MEMB_T(bool, MEMB(self, gsoff->c_struct_offset), gsoff->member_offset) = newvalue;
 
     return 0;
@@ -188,7 +200,13 @@ sr_py_setter_uint64(PyObject *self, PyObject *rhs, void *data)
     }
     else
     {
-        newvalue = (uint64_t)PyInt_AsUnsignedLongLongMask(rhs);
+        /* Unlike PyLong_AsUnsignedLongLong, this accepts any integral type. */
+        PyObject *index = PyNumber_Index(rhs);
+        if (!index)
+            return -1;
+
+        newvalue = (uint64_t)PyLong_AsUnsignedLongLong(index);
+        Py_DECREF(index);
         if (PyErr_Occurred())
             return -1;
     }
-- 
2.43.0


From 95d28cb8de25d7ef4edce47f0bf102fd698fef27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:47 +0000
Subject: [PATCH 116/145] fix: do not let Python lists of frames, threads and
 libraries be deleted

Deleting the attribute left a null reference behind, which crashed the
interpreter when the object was used or destroyed. Assigning anything
but a list led to SystemError when the object was used.
---
 python/py_base_stacktrace.c | 10 ++--------
 python/py_base_thread.c     | 10 +++++-----
 python/py_common.c          | 33 +++++++++++++++++++++++++++++++++
 python/py_common.h          |  9 +++++++++
 python/py_gdb_stacktrace.c  | 10 ++++++++--
 5 files changed, 57 insertions(+), 15 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index a2f60ad..bbb6ba8 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -107,13 +107,6 @@ PyTypeObject sr_py_single_stacktrace_type = {
     NULL,                           /* tp_weaklist */
 };
 
-static PyMemberDef
-multi_members[] =
-{
-    { (char *)"threads", T_OBJECT_EX, offsetof(struct sr_py_multi_stacktrace, threads), 0, (char *)threads_doc },
-    { NULL },
-};
-
 static PyMethodDef
 multi_methods[] =
 {
@@ -126,6 +119,7 @@ multi_methods[] =
 static PyGetSetDef
 multi_getset[] =
 {
+    { (char *)"threads", sr_py_getter_object, sr_py_setter_list, (char *)threads_doc, (void *)offsetof(struct sr_py_multi_stacktrace, threads) },
     { (char *)"crash_thread", sr_py_multi_stacktrace_get_crash, sr_py_multi_stacktrace_set_crash, (char *)crash_thread_doc, NULL },
     { NULL },
 };
@@ -159,7 +153,7 @@ PyTypeObject sr_py_multi_stacktrace_type = {
     NULL,                           /* tp_iter */
     NULL,                           /* tp_iternext */
     multi_methods,                  /* tp_methods */
-    multi_members,                  /* tp_members */
+    NULL,                           /* tp_members */
     multi_getset,                   /* tp_getset */
     NULL,                           /* tp_base */
     NULL,                           /* tp_dict */
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index a61348d..6e498a5 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -54,10 +54,10 @@ thread_methods[] =
     { NULL },
 };
 
-static PyMemberDef
-thread_members[] =
+static PyGetSetDef
+thread_getset[] =
 {
-    { (char *)"frames", T_OBJECT_EX, offsetof(struct sr_py_base_thread, frames), 0, (char *)frames_doc },
+    { (char *)"frames", sr_py_getter_object, sr_py_setter_list, (char *)frames_doc, (void *)offsetof(struct sr_py_base_thread, frames) },
     { NULL },
 };
 
@@ -92,8 +92,8 @@ sr_py_base_thread_type =
     NULL,                       /* tp_iter */
     NULL,                       /* tp_iternext */
     thread_methods,             /* tp_methods */
-    thread_members,             /* tp_members */
-    NULL,                       /* tp_getset */
+    NULL,                       /* tp_members */
+    thread_getset,              /* tp_getset */
     NULL,                       /* tp_base */
     NULL,                       /* tp_dict */
     NULL,                       /* tp_descr_get */
diff --git a/python/py_common.c b/python/py_common.c
index 94be57f..82a51d1 100644
--- a/python/py_common.c
+++ b/python/py_common.c
@@ -216,6 +216,39 @@ sr_py_setter_uint64(PyObject *self, PyObject *rhs, void *data)
     return 0;
 }
 
+PyObject *
+sr_py_getter_object(PyObject *self, void *data)
+{
+    PyObject *object = MEMB(self, (size_t)data);
+
+    Py_INCREF(object);
+    return object;
+}
+
+int
+sr_py_setter_list(PyObject *self, PyObject *rhs, void *data)
+{
+    if (rhs == NULL)
+    {
+        PyErr_SetString(PyExc_TypeError, "Cannot delete this attribute.");
+        return -1;
+    }
+
+    if (!PyList_Check(rhs))
+    {
+        PyErr_SetString(PyExc_TypeError, "Value must be a list.");
+        return -1;
+    }
+
+    PyObject *old = MEMB(self, (size_t)data);
+
+    Py_INCREF(rhs);
+    MEMB(self, (size_t)data) = rhs;
+    Py_DECREF(old);
+
+    return 0;
+}
+
 int
 sr_py_setter_readonly(PyObject *self, PyObject *rhs, void *data)
 {
diff --git a/python/py_common.h b/python/py_common.h
index f8bd726..9d16684 100644
--- a/python/py_common.h
+++ b/python/py_common.h
@@ -128,6 +128,15 @@ PyObject *sr_py_getter_uint64(PyObject *self, void *data);
 /* NOTE: when rhs is None, the attribute is set to UINT64_MAX */
 int sr_py_setter_uint64(PyObject *self, PyObject *rhs, void *data);
 
+/*
+ * Getter and setter for attributes that are references to python objects. The
+ * last parameter is the offset of the reference in the python object structure.
+ * Unlike T_OBJECT_EX members, these attributes can't be deleted, and the setter
+ * only accepts lists.
+ */
+PyObject *sr_py_getter_object(PyObject *self, void *data);
+int sr_py_setter_list(PyObject *self, PyObject *rhs, void *data);
+
 /* Just throws an exception. */
 int
 sr_py_setter_readonly(PyObject *self, PyObject *rhs, void *data);
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 35d9d65..e4cada4 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -85,7 +85,13 @@ static PyMemberDef
 gdb_stacktrace_members[] =
 {
     { (char *)"crashframe",  T_OBJECT_EX, offsetof(struct sr_py_gdb_stacktrace, crashframe),  READONLY, b_crashframe_doc  },
-    { (char *)"libs",        T_OBJECT_EX, offsetof(struct sr_py_gdb_stacktrace, libs),        0,        b_libs_doc        },
+    { NULL },
+};
+
+static PyGetSetDef
+gdb_stacktrace_getset[] =
+{
+    { (char *)"libs", sr_py_getter_object, sr_py_setter_list, b_libs_doc, (void *)offsetof(struct sr_py_gdb_stacktrace, libs) },
     { NULL },
 };
 
@@ -119,7 +125,7 @@ PyTypeObject sr_py_gdb_stacktrace_type = {
     NULL,                           /* tp_iternext */
     gdb_stacktrace_methods,               /* tp_methods */
     gdb_stacktrace_members,               /* tp_members */
-    NULL,                           /* tp_getset */
+    gdb_stacktrace_getset,          /* tp_getset */
     &sr_py_multi_stacktrace_type,   /* tp_base */
     NULL,                           /* tp_dict */
     NULL,                           /* tp_descr_get */
-- 
2.43.0


From f0df2b0cbe04577f8f6263e349b46e9512955191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:58 +0000
Subject: [PATCH 117/145] fix: link Python lists to the native ones properly

Clearing a list did not clear the native one, which kept pointing to
structures freed together with their Python objects. An object occurring
in the lists more than once made the native list cyclic or truncated.
The objects created for native structures were never released.
---
 python/py_base_stacktrace.c | 65 +++++++++++++--------------
 python/py_base_thread.c     | 87 +++++++++++++++++++++++++------------
 python/py_base_thread.h     |  7 +++
 python/py_gdb_stacktrace.c  | 64 +++++++++++++--------------
 4 files changed, 126 insertions(+), 97 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index bbb6ba8..b551265 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -20,6 +20,7 @@
 #include <glib.h>
 #include "py_common.h"
 #include "py_base_stacktrace.h"
+#include "py_base_thread.h"
 
 #include "stacktrace.h"
 #include "thread.h"
@@ -175,48 +176,40 @@ PyTypeObject sr_py_multi_stacktrace_type = {
 int
 threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
 {
-    int i;
-    PyObject *item;
-    struct sr_py_base_thread *current = NULL, *prev = NULL;
+    int result = -1;
+    PyObject *seen = PySet_New(NULL);
+    if (!seen)
+        return -1;
+
+    if (check_list_items(stacktrace->threads, stacktrace->thread_type, "threads", seen) < 0)
+        goto end;
 
+    struct sr_thread *prev = NULL;
+    sr_stacktrace_set_threads(stacktrace->stacktrace, NULL);
+
+    Py_ssize_t i;
     for (i = 0; i < PyList_Size(stacktrace->threads); ++i)
     {
-        item = PyList_GetItem(stacktrace->threads, i);
-        if (!item)
-            return -1;
+        struct sr_py_base_thread *current =
+            (struct sr_py_base_thread *)PyList_GetItem(stacktrace->threads, i);
 
-        Py_INCREF(item);
-        if (!PyObject_TypeCheck(item, stacktrace->thread_type))
-        {
-            Py_XDECREF(current);
-            Py_XDECREF(prev);
-            PyErr_Format(PyExc_TypeError,
-                         "threads must be a list of %s objects",
-                         stacktrace->thread_type->tp_name);
-            return -1;
-        }
-
-        /* Note: this line is not present in frames_prepare_linked_list. */
-        current = (struct sr_py_base_thread*)item;
-        if (frames_prepare_linked_list(current) < 0)
-            return -1;
+        if (frames_prepare_linked_list_unique(current, seen) < 0)
+            goto end;
 
-        if (i == 0)
-            sr_stacktrace_set_threads(stacktrace->stacktrace, current->thread);
+        if (prev)
+            sr_thread_set_next(prev, current->thread);
         else
-            sr_thread_set_next(prev->thread, current->thread);
-
-        Py_XDECREF(prev);
-        prev = current;
-    }
+            sr_stacktrace_set_threads(stacktrace->stacktrace, current->thread);
 
-    if (current)
-    {
         sr_thread_set_next(current->thread, NULL);
-        Py_XDECREF(current);
+        prev = current->thread;
     }
 
-    return 0;
+    result = 0;
+
+end:
+    Py_DECREF(seen);
+    return result;
 }
 
 PyObject *
@@ -241,10 +234,12 @@ threads_to_python_list(struct sr_stacktrace *stacktrace, PyTypeObject *thread_ty
         if (!item->frames)
             return NULL;
 
-        if (PyList_Append(result, (PyObject*)item) < 0)
-            return NULL;
-
         thread = sr_thread_next(thread);
+
+        int appended = PyList_Append(result, (PyObject*)item);
+        Py_DECREF(item);
+        if (appended < 0)
+            return NULL;
     }
 
     return result;
diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index 6e498a5..6c8daea 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -113,48 +113,77 @@ sr_py_base_thread_type =
 
 /* helpers */
 int
-frames_prepare_linked_list(struct sr_py_base_thread *thread)
+check_list_items(PyObject *list, PyTypeObject *type, const char *name, PyObject *seen)
 {
-    int i;
-    PyObject *item;
-    struct sr_py_base_frame *current = NULL, *prev = NULL;
-
-    for (i = 0; i < PyList_Size(thread->frames); ++i)
+    Py_ssize_t i;
+    for (i = 0; i < PyList_Size(list); ++i)
     {
-        item = PyList_GetItem(thread->frames, i);
-        if (!item)
+        PyObject *item = PyList_GetItem(list, i);
+        if (!PyObject_TypeCheck(item, type))
+        {
+            PyErr_Format(PyExc_TypeError, "%s must be a list of %s objects",
+                         name, type->tp_name);
             return -1;
+        }
 
-        Py_INCREF(item);
+        /* One structure can't be linked to the list more than once. */
+        int contains = PySet_Contains(seen, item);
+        if (contains < 0)
+            return -1;
 
-        if (!PyObject_TypeCheck(item, thread->frame_type))
+        if (contains)
         {
-            Py_XDECREF(item);
-            Py_XDECREF(prev);
-            PyErr_Format(PyExc_TypeError, "frames must be a list of %s objects",
-                         thread->frame_type->tp_name);
+            PyErr_Format(PyExc_ValueError, "%s contain the same %s object more than once",
+                         name, type->tp_name);
             return -1;
         }
 
-        current = (struct sr_py_base_frame*)item;
-        if (i == 0)
-            sr_thread_set_frames(thread->thread, current->frame);
-        else
-            sr_frame_set_next(prev->frame, current->frame);
-
-        Py_XDECREF(prev);
-        prev = current;
+        if (PySet_Add(seen, item) < 0)
+            return -1;
     }
 
-    if (current)
+    return 0;
+}
+
+int
+frames_prepare_linked_list_unique(struct sr_py_base_thread *thread, PyObject *seen)
+{
+    if (check_list_items(thread->frames, thread->frame_type, "frames", seen) < 0)
+        return -1;
+
+    struct sr_frame *prev = NULL;
+    sr_thread_set_frames(thread->thread, NULL);
+
+    Py_ssize_t i;
+    for (i = 0; i < PyList_Size(thread->frames); ++i)
     {
-        sr_frame_set_next(current->frame, NULL);
-        Py_DECREF(current);
+        struct sr_frame *frame =
+            ((struct sr_py_base_frame *)PyList_GetItem(thread->frames, i))->frame;
+
+        if (prev)
+            sr_frame_set_next(prev, frame);
+        else
+            sr_thread_set_frames(thread->thread, frame);
+
+        sr_frame_set_next(frame, NULL);
+        prev = frame;
     }
 
     return 0;
 }
 
+int
+frames_prepare_linked_list(struct sr_py_base_thread *thread)
+{
+    PyObject *seen = PySet_New(NULL);
+    if (!seen)
+        return -1;
+
+    int result = frames_prepare_linked_list_unique(thread, seen);
+    Py_DECREF(seen);
+    return result;
+}
+
 PyObject *
 frames_to_python_list(struct sr_thread *thread, PyTypeObject *frame_type)
 {
@@ -176,10 +205,12 @@ frames_to_python_list(struct sr_thread *thread, PyTypeObject *frame_type)
          * don't miss setting some attribute. As opposed to using PyObject_New
          * directly. */
         item->frame = frame;
-        if (PyList_Append(result, (PyObject *)item) < 0)
-            return NULL;
-
         frame = sr_frame_next(frame);
+
+        int appended = PyList_Append(result, (PyObject *)item);
+        Py_DECREF(item);
+        if (appended < 0)
+            return NULL;
     }
 
     return result;
diff --git a/python/py_base_thread.h b/python/py_base_thread.h
index 95cce02..942c31a 100644
--- a/python/py_base_thread.h
+++ b/python/py_base_thread.h
@@ -43,7 +43,14 @@ struct sr_py_base_thread
 };
 
 /* helpers */
+
+/* Checks that the list contains only objects of given type, and none of the
+ * objects is in the set of already seen objects. Adds them to the set.
+ */
+int check_list_items(PyObject *list, PyTypeObject *type, const char *name, PyObject *seen);
 int frames_prepare_linked_list(struct sr_py_base_thread *thread);
+/* Same as above, but fails if any of the frames is in the set. */
+int frames_prepare_linked_list_unique(struct sr_py_base_thread *thread, PyObject *seen);
 PyObject *frames_to_python_list(struct sr_thread *thread, PyTypeObject *frame_type);
 
 PyObject *sr_py_base_thread_equals(PyObject *self, PyObject *args);
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index e4cada4..0af4186 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -151,39 +151,31 @@ gdb_prepare_linked_lists(struct sr_py_gdb_stacktrace *stacktrace)
         return -1;
 
     /* sharedlib */
-    int i;
-    PyObject *item;
-    struct sr_py_gdb_sharedlib *currentlib = NULL, *prevlib = NULL;
+    PyObject *seen = PySet_New(NULL);
+    if (!seen)
+        return -1;
+
+    int checked = check_list_items(stacktrace->libs, &sr_py_gdb_sharedlib_type, "libs", seen);
+    Py_DECREF(seen);
+    if (checked < 0)
+        return -1;
+
+    struct sr_gdb_sharedlib *prev = NULL;
+    stacktrace->stacktrace->libs = NULL;
+
+    Py_ssize_t i;
     for (i = 0; i < PyList_Size(stacktrace->libs); ++i)
     {
-        item = PyList_GetItem(stacktrace->libs, i);
-        if (!item)
-            return -1;
+        struct sr_gdb_sharedlib *current =
+            ((struct sr_py_gdb_sharedlib *)PyList_GetItem(stacktrace->libs, i))->sharedlib;
 
-        Py_INCREF(item);
-        if (!PyObject_TypeCheck(item, &sr_py_gdb_sharedlib_type))
-        {
-            Py_XDECREF(currentlib);
-            Py_XDECREF(prevlib);
-            PyErr_SetString(PyExc_TypeError,
-                            "libs must be a list of satyr.Sharedlib objects");
-            return -1;
-        }
-
-        currentlib = (struct sr_py_gdb_sharedlib*)item;
-        if (i == 0)
-            stacktrace->stacktrace->libs = currentlib->sharedlib;
+        if (prev)
+            prev->next = current;
         else
-            prevlib->sharedlib->next = currentlib->sharedlib;
+            stacktrace->stacktrace->libs = current;
 
-        Py_XDECREF(prevlib);
-        prevlib = currentlib;
-    }
-
-    if (currentlib)
-    {
-        currentlib->sharedlib->next = NULL;
-        Py_XDECREF(currentlib);
+        current->next = NULL;
+        prev = current;
     }
 
     return 0;
@@ -210,10 +202,12 @@ thread_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
         if (!item->frames)
             return NULL;
 
-        if (PyList_Append(result, (PyObject*)item) < 0)
-            return NULL;
-
         thread = thread->next;
+
+        int appended = PyList_Append(result, (PyObject*)item);
+        Py_DECREF(item);
+        if (appended < 0)
+            return NULL;
     }
 
     return result;
@@ -234,10 +228,12 @@ sharedlib_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
             PyObject_New(struct sr_py_gdb_sharedlib, &sr_py_gdb_sharedlib_type);
 
         item->sharedlib = sharedlib;
-        if (PyList_Append(result, (PyObject *)item) < 0)
-            return NULL;
-
         sharedlib = sharedlib->next;
+
+        int appended = PyList_Append(result, (PyObject *)item);
+        Py_DECREF(item);
+        if (appended < 0)
+            return NULL;
     }
 
     return result;
-- 
2.43.0


From 4ef418028ac853ef2d705ea17b10244d41c683f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:44 +0000
Subject: [PATCH 118/145] fix: compare Python threads having frames in common

Linking the frames of one thread broke the links of the threads linked
before when they shared frame objects. Exceptions raised while linking
in equals() were lost, which resulted in SystemError.
---
 python/py_base_thread.c | 58 ++++++++++++++++++++++++++++-------------
 python/py_base_thread.h |  4 +++
 python/py_metrics.c     | 52 ++++++++++++++++++++++++------------
 3 files changed, 79 insertions(+), 35 deletions(-)

diff --git a/python/py_base_thread.c b/python/py_base_thread.c
index 6c8daea..89886e9 100644
--- a/python/py_base_thread.c
+++ b/python/py_base_thread.c
@@ -184,6 +184,19 @@ frames_prepare_linked_list(struct sr_py_base_thread *thread)
     return result;
 }
 
+struct sr_thread *
+thread_to_native_copy(struct sr_py_base_thread *thread)
+{
+    if (frames_prepare_linked_list(thread) < 0)
+        return NULL;
+
+    struct sr_thread *copy = sr_thread_dup(thread->thread);
+    if (!copy)
+        PyErr_SetString(PyExc_RuntimeError, "cannot copy thread");
+
+    return copy;
+}
+
 PyObject *
 frames_to_python_list(struct sr_thread *thread, PyTypeObject *frame_type)
 {
@@ -226,14 +239,17 @@ sr_py_base_thread_cmp(struct sr_py_base_thread *self, struct sr_py_base_thread *
         return normalize_cmp(Py_TYPE(self) - Py_TYPE(other));
     }
 
-    if (frames_prepare_linked_list(self) < 0
-        || frames_prepare_linked_list(other) < 0)
-    {
-        /* exception is already set */
+    /* exception is set in case of failure */
+    struct sr_thread *copy = thread_to_native_copy(self);
+    if (!copy)
         return -1;
-    }
 
-    return normalize_cmp(sr_thread_cmp(self->thread, other->thread));
+    int result = -1;
+    if (frames_prepare_linked_list(other) == 0)
+        result = normalize_cmp(sr_thread_cmp(copy, other->thread));
+
+    sr_thread_free(copy);
+    return result;
 }
 
 PyObject *
@@ -244,11 +260,12 @@ sr_py_base_thread_equals(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "O!", &sr_py_base_thread_type, &other))
         return NULL;
 
-    if (sr_py_base_thread_cmp((struct sr_py_base_thread *)self,
-                              (struct sr_py_base_thread *)other) == 0)
-        Py_RETURN_TRUE;
-    else
-        Py_RETURN_FALSE;
+    int result = sr_py_base_thread_cmp((struct sr_py_base_thread *)self,
+                                       (struct sr_py_base_thread *)other);
+    if (PyErr_Occurred())
+        return NULL;
+
+    return PyBool_FromLong(result == 0);
 }
 
 /* methods */
@@ -266,12 +283,6 @@ sr_py_base_thread_distance(PyObject *self, PyObject *args, PyObject *kwds)
     struct sr_py_base_thread *t1 = (struct sr_py_base_thread *)self;
     struct sr_py_base_thread *t2 = (struct sr_py_base_thread *)other;
 
-    if (frames_prepare_linked_list(t1) < 0)
-        return NULL;
-
-    if (frames_prepare_linked_list(t2) < 0)
-        return NULL;
-
     if (Py_TYPE(self) != Py_TYPE(other))
     {
         PyErr_SetString(PyExc_TypeError, "Both threads must have the same type");
@@ -284,7 +295,18 @@ sr_py_base_thread_distance(PyObject *self, PyObject *args, PyObject *kwds)
         return NULL;
     }
 
-    float dist = sr_distance(dist_type, t1->thread, t2->thread);
+    struct sr_thread *copy = thread_to_native_copy(t1);
+    if (!copy)
+        return NULL;
+
+    if (frames_prepare_linked_list(t2) < 0)
+    {
+        sr_thread_free(copy);
+        return NULL;
+    }
+
+    float dist = sr_distance(dist_type, copy, t2->thread);
+    sr_thread_free(copy);
     return PyFloat_FromDouble((double)dist);
 }
 
diff --git a/python/py_base_thread.h b/python/py_base_thread.h
index 942c31a..0f52a23 100644
--- a/python/py_base_thread.h
+++ b/python/py_base_thread.h
@@ -51,6 +51,10 @@ int check_list_items(PyObject *list, PyTypeObject *type, const char *name, PyObj
 int frames_prepare_linked_list(struct sr_py_base_thread *thread);
 /* Same as above, but fails if any of the frames is in the set. */
 int frames_prepare_linked_list_unique(struct sr_py_base_thread *thread, PyObject *seen);
+/* Returns a native copy of the thread, which doesn't share any structures with
+ * other threads (python threads can have frame objects in common).
+ */
+struct sr_thread *thread_to_native_copy(struct sr_py_base_thread *thread);
 PyObject *frames_to_python_list(struct sr_thread *thread, PyTypeObject *frame_type);
 
 PyObject *sr_py_base_thread_equals(PyObject *self, PyObject *args);
diff --git a/python/py_metrics.c b/python/py_metrics.c
index 5eb09a9..42bc6c2 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -3,6 +3,7 @@
 #include "py_common.h"
 #include "utils.h"
 #include "distance.h"
+#include "thread.h"
 #include <glib.h>
 
 #define distances_doc "satyr.Distances - class representing distances between objects\n\n" \
@@ -186,11 +187,25 @@ validate_distance_params(int m, int n, int dist_type)
     return false;
 }
 
-static bool
-prepare_thread_array(PyObject *thread_list, struct sr_thread *threads[], int n)
+static void
+free_thread_array(struct sr_thread **threads, int n)
+{
+    int i;
+    for (i = 0; i < n; i++)
+        sr_thread_free(threads[i]);
+
+    g_free(threads);
+}
+
+/* Returns array of copies of the threads, because distinct thread objects can
+ * have frames in common.
+ */
+static struct sr_thread **
+prepare_thread_array(PyObject *thread_list, int n)
 {
     int i;
     PyTypeObject *thread_type = NULL;
+    struct sr_thread **threads = g_malloc0_n(n, sizeof(*threads));
 
     for (i = 0; i < n; i++)
     {
@@ -198,25 +213,27 @@ prepare_thread_array(PyObject *thread_list, struct sr_thread *threads[], int n)
         if (!PyObject_TypeCheck(obj, &sr_py_base_thread_type))
         {
             PyErr_SetString(PyExc_TypeError, "Must be a list of satyr.BaseThread objects");
-            return false;
+            goto error;
         }
 
         /* check that the type is the same as in the previous thread */
         if (thread_type && obj->ob_type != thread_type)
         {
             PyErr_SetString(PyExc_TypeError, "All threads in the list must have the same type");
-            return false;
+            goto error;
         }
         thread_type = obj->ob_type;
 
-        struct sr_py_base_thread *to = (struct sr_py_base_thread*)obj;
-        if (frames_prepare_linked_list(to) < 0)
-            return false;
-
-        threads[i] = (struct sr_thread*)to->thread;
+        threads[i] = thread_to_native_copy((struct sr_py_base_thread*)obj);
+        if (!threads[i])
+            goto error;
     }
 
-    return true;
+    return threads;
+
+error:
+    free_thread_array(threads, i);
+    return NULL;
 }
 
 /* constructor */
@@ -238,15 +255,16 @@ sr_py_distances_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
                                     &PyList_Type, &thread_list, &m, &dist_type))
     {
         n = PyList_Size(thread_list);
-        struct sr_thread *threads[n];
 
         if (!validate_distance_params(m, n, dist_type))
             return NULL;
 
-        if (!prepare_thread_array(thread_list, threads, n))
+        struct sr_thread **threads = prepare_thread_array(thread_list, n);
+        if (!threads)
             return NULL;
 
         o->distances = sr_threads_compare(threads, m, n, dist_type);
+        free_thread_array(threads, n);
     }
     else if (PyArg_ParseTuple(args, "ii", &m, &n))
     {
@@ -589,17 +607,17 @@ sr_py_distances_part_compute(PyObject *self, PyObject *args)
         return NULL;
 
     int n = PyList_Size(thread_list);
-    struct sr_thread *threads[n];
-
-    if (!prepare_thread_array(thread_list, threads, n))
-        return NULL;
-
     if (n != this->distances_part->n)
     {
         PyErr_SetString(PyExc_ValueError, "Wrong number of threads provided");
         return NULL;
     }
 
+    struct sr_thread **threads = prepare_thread_array(thread_list, n);
+    if (!threads)
+        return NULL;
+
     sr_distances_part_compute(this->distances_part, threads);
+    free_thread_array(threads, n);
     Py_RETURN_NONE;
 }
-- 
2.43.0


From 1f0d64a0e91e1cb9cb3c471effafb4678b42147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:12 +0000
Subject: [PATCH 119/145] fix: handle errors when creating Python stacktraces
 from JSON

The object was left with dangling references when the JSON was invalid,
and abstract classes without a constructor crashed.
---
 python/py_base_stacktrace.c | 82 +++++++++++++++++++++++--------------
 1 file changed, 52 insertions(+), 30 deletions(-)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index b551265..1a0dacc 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -404,33 +404,43 @@ sr_py_multi_stacktrace_get_crash(PyObject *self, void *unused)
 PyObject *
 sr_py_single_stacktrace_from_json(PyObject *class, PyObject *args)
 {
-    char *json_str, *error_message;
+    char *json_str, *error_message = NULL;
     if (!PyArg_ParseTuple(args, "s", &json_str))
         return NULL;
 
     /* Create new stacktrace */
-    PyObject *noargs = PyTuple_New(0);
-    PyObject *result = PyObject_CallObject(class, noargs);
-    Py_DECREF(noargs);
+    PyObject *result = PyObject_CallObject(class, NULL);
+    if (!result)
+        return NULL;
 
-    /* Free the C structure and thread list */
+    /* Parse json */
     struct sr_py_base_thread *this = (struct sr_py_base_thread*)result;
-    enum sr_report_type type = this->thread->type;
-    /* the list will decref all of its elements */
-    Py_DECREF(this->frames);
-    sr_thread_set_frames(this->thread, NULL);
-    sr_thread_free(this->thread);
+    struct sr_thread *thread = (struct sr_thread*)
+        sr_stacktrace_from_json_text(this->thread->type, json_str, &error_message);
 
-    /* Parse json */
-    this->thread = (struct sr_thread*)
-        sr_stacktrace_from_json_text(type, json_str, &error_message);
+    if (!thread)
+    {
+        PyErr_SetString(PyExc_ValueError, error_message ? error_message : "Invalid JSON");
+        g_free(error_message);
+        Py_DECREF(result);
+        return NULL;
+    }
 
-    if (!this->thread)
+    PyObject *frames = frames_to_python_list(thread, this->frame_type);
+    if (!frames)
     {
-        PyErr_SetString(PyExc_ValueError, error_message);
+        Py_DECREF(result);
         return NULL;
     }
-    this->frames = frames_to_python_list((struct sr_thread *)this->thread, this->frame_type);
+
+    /* Replace the C structure and frame list */
+    /* the list will decref all of its elements */
+    Py_DECREF(this->frames);
+    sr_thread_set_frames(this->thread, NULL);
+    sr_thread_free(this->thread);
+
+    this->thread = thread;
+    this->frames = frames;
 
     return result;
 }
@@ -438,31 +448,43 @@ sr_py_single_stacktrace_from_json(PyObject *class, PyObject *args)
 PyObject *
 sr_py_multi_stacktrace_from_json(PyObject *class, PyObject *args)
 {
-    char *json_str, *error_message;
+    char *json_str, *error_message = NULL;
     if (!PyArg_ParseTuple(args, "s", &json_str))
         return NULL;
 
     /* Create new stacktrace */
-    PyObject *noargs = PyTuple_New(0);
-    PyObject *result = PyObject_CallObject(class, noargs);
-    Py_DECREF(noargs);
+    PyObject *result = PyObject_CallObject(class, NULL);
+    if (!result)
+        return NULL;
 
-    /* Free the C structure and thread list */
+    /* Parse json */
     struct sr_py_multi_stacktrace *this = (struct sr_py_multi_stacktrace*)result;
-    enum sr_report_type type = this->stacktrace->type;
+    struct sr_stacktrace *stacktrace =
+        sr_stacktrace_from_json_text(this->stacktrace->type, json_str, &error_message);
+
+    if (!stacktrace)
+    {
+        PyErr_SetString(PyExc_ValueError, error_message ? error_message : "Invalid JSON");
+        g_free(error_message);
+        Py_DECREF(result);
+        return NULL;
+    }
+
+    PyObject *threads = threads_to_python_list(stacktrace, this->thread_type, this->frame_type);
+    if (!threads)
+    {
+        Py_DECREF(result);
+        return NULL;
+    }
+
+    /* Replace the C structure and thread list */
     /* the list will decref all of its elements */
     Py_DECREF(this->threads);
     sr_stacktrace_set_threads(this->stacktrace, NULL);
     sr_stacktrace_free(this->stacktrace);
 
-    /* Parse json */
-    this->stacktrace = sr_stacktrace_from_json_text(type, json_str, &error_message);
-    if (!this->stacktrace)
-    {
-        PyErr_SetString(PyExc_ValueError, error_message);
-        return NULL;
-    }
-    this->threads = threads_to_python_list(this->stacktrace, this->thread_type, this->frame_type);
+    this->stacktrace = stacktrace;
+    this->threads = threads;
 
     return result;
 }
-- 
2.43.0


From aac8a74ec3b7f4e54d27e5b5ffedbda49be40eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:33 +0000
Subject: [PATCH 120/145] fix: do not use crash thread removed from Python core
 stacktrace

The native stacktrace kept referring to the thread after it was removed
from the list and released.
---
 python/py_base_stacktrace.c |  7 ++++++
 python/py_core_stacktrace.c | 43 +++++++++++++++++++++++++++++++++++++
 python/py_core_stacktrace.h |  6 ++++++
 3 files changed, 56 insertions(+)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index 1a0dacc..4cfd936 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -21,6 +21,7 @@
 #include "py_common.h"
 #include "py_base_stacktrace.h"
 #include "py_base_thread.h"
+#include "py_core_stacktrace.h"
 
 #include "stacktrace.h"
 #include "thread.h"
@@ -205,6 +206,9 @@ threads_prepare_linked_list(struct sr_py_multi_stacktrace *stacktrace)
         prev = current->thread;
     }
 
+    if (stacktrace->stacktrace->type == SR_REPORT_CORE)
+        core_stacktrace_set_crash_thread((struct sr_py_core_stacktrace *)stacktrace);
+
     result = 0;
 
 end:
@@ -486,6 +490,9 @@ sr_py_multi_stacktrace_from_json(PyObject *class, PyObject *args)
     this->stacktrace = stacktrace;
     this->threads = threads;
 
+    if (stacktrace->type == SR_REPORT_CORE)
+        core_stacktrace_find_crash_thread((struct sr_py_core_stacktrace *)this);
+
     return result;
 }
 
diff --git a/python/py_core_stacktrace.c b/python/py_core_stacktrace.c
index 1feea4c..d953e27 100644
--- a/python/py_core_stacktrace.c
+++ b/python/py_core_stacktrace.c
@@ -112,6 +112,45 @@ PyTypeObject sr_py_core_stacktrace_type = {
     NULL,                           /* tp_weaklist */
 };
 
+static PyObject *
+find_thread_object(PyObject *threads, struct sr_core_thread *thread)
+{
+    Py_ssize_t i;
+    for (i = 0; thread && i < PyList_Size(threads); ++i)
+    {
+        PyObject *item = PyList_GetItem(threads, i);
+        if (PyObject_TypeCheck(item, &sr_py_core_thread_type) &&
+            ((struct sr_py_core_thread *)item)->thread == thread)
+            return item;
+    }
+
+    return NULL;
+}
+
+void
+core_stacktrace_find_crash_thread(struct sr_py_core_stacktrace *stacktrace)
+{
+    PyObject *thread = find_thread_object(stacktrace->threads,
+                                          stacktrace->stacktrace->crash_thread);
+
+    /* Keep the thread alive as long as the C structure refers to it. */
+    Py_XINCREF(thread);
+    Py_XSETREF(stacktrace->crash_thread, thread);
+}
+
+void
+core_stacktrace_set_crash_thread(struct sr_py_core_stacktrace *stacktrace)
+{
+    struct sr_core_thread *thread = NULL;
+    if (stacktrace->crash_thread)
+        thread = ((struct sr_py_core_thread *)stacktrace->crash_thread)->thread;
+
+    if (!find_thread_object(stacktrace->threads, thread))
+        thread = NULL;
+
+    stacktrace->stacktrace->crash_thread = thread;
+}
+
 PyObject *
 core_stacktrace_to_python_obj(struct sr_core_stacktrace *stacktrace)
 {
@@ -129,6 +168,9 @@ core_stacktrace_to_python_obj(struct sr_core_stacktrace *stacktrace)
     if (!bo->threads)
         return NULL;
 
+    bo->crash_thread = NULL;
+    core_stacktrace_find_crash_thread(bo);
+
     return (PyObject *)bo;
 }
 
@@ -169,6 +211,7 @@ sr_py_core_stacktrace_free(PyObject *object)
     /* the list will decref all of its elements */
     Py_DECREF(this->threads);
     this->stacktrace->threads = NULL;
+    Py_XDECREF(this->crash_thread);
     sr_core_stacktrace_free(this->stacktrace);
     PyObject_Del(object);
 }
diff --git a/python/py_core_stacktrace.h b/python/py_core_stacktrace.h
index 6d91e40..4a1c45e 100644
--- a/python/py_core_stacktrace.h
+++ b/python/py_core_stacktrace.h
@@ -47,9 +47,15 @@ struct sr_py_core_stacktrace
     PyObject *threads;
     PyTypeObject *thread_type;
     PyTypeObject *frame_type;
+    /* The crash thread, if known, otherwise NULL. */
+    PyObject *crash_thread;
 };
 
 /* helpers */
+/* Finds the object of the crash thread in a newly created list of threads. */
+void core_stacktrace_find_crash_thread(struct sr_py_core_stacktrace *stacktrace);
+/* Makes the C structure refer to the crash thread if it is in the list of threads. */
+void core_stacktrace_set_crash_thread(struct sr_py_core_stacktrace *stacktrace);
 PyObject *core_stacktrace_to_python_obj(struct sr_core_stacktrace *stacktrace);
 
 /* constructor */
-- 
2.43.0


From f07009cfbf34eabf4bb9fd57c7cd7905335ec09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:56 +0000
Subject: [PATCH 121/145] fix: look for crash frame of GDB stacktraces whose
 crash thread is empty

---
 lib/gdb_stacktrace.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/gdb_stacktrace.c b/lib/gdb_stacktrace.c
index 59a4e97..0c77461 100644
--- a/lib/gdb_stacktrace.c
+++ b/lib/gdb_stacktrace.c
@@ -427,7 +427,9 @@ sr_gdb_stacktrace_get_crash_frame(struct sr_gdb_stacktrace *stacktrace)
 
     sr_normalize_gdb_stacktrace(stacktrace);
     struct sr_gdb_frame *crash_frame = crash_thread->frames;
-    crash_frame = sr_gdb_frame_dup(crash_frame, false);
+    if (crash_frame)
+        crash_frame = sr_gdb_frame_dup(crash_frame, false);
+
     sr_gdb_stacktrace_free(stacktrace);
     return crash_frame;
 }
-- 
2.43.0


From bc678c7991a21abc3873fd1188d9abc30864ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:56 +0000
Subject: [PATCH 122/145] fix: do not lose and double free objects in Python
 GDB stacktrace methods

limit_frame_depth() freed frames which are owned by Python objects, dup() of a
stacktrace with crash frame treated the frame as a thread, find_crash_frame()
returned a reference owned by the stacktrace, and all methods which rebuilt the
list of threads failed if the list was empty.
---
 python/py_gdb_stacktrace.c | 98 ++++++++++++++++----------------------
 1 file changed, 40 insertions(+), 58 deletions(-)

diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index 0af4186..cf9508c 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -239,38 +239,28 @@ sharedlib_linked_list_to_python_list(struct sr_gdb_stacktrace *stacktrace)
     return result;
 }
 
-/* XXX Why GDB stacktrace needs this function while other types do not? Is it
- * because the methods here modify the linked lists and other types have no
- * such methods? Shouldn't we do a copy of the linked list *before* we call the
- * C function on it?
+/* Replaces threads of the stacktrace with the ones of tmp, which is freed. The
+ * old threads are owned by the python objects in the old list.
  */
-int
-stacktrace_rebuild_thread_python_list(struct sr_py_gdb_stacktrace *stacktrace)
+static int
+replace_threads(struct sr_py_gdb_stacktrace *this, struct sr_gdb_stacktrace *tmp)
 {
-    struct sr_gdb_thread *newlinkedlist = sr_gdb_thread_dup(stacktrace->stacktrace->threads, true);
-    if (!newlinkedlist)
+    PyObject *threads = thread_linked_list_to_python_list(tmp);
+    if (!threads)
+    {
+        sr_gdb_stacktrace_free(tmp);
         return -1;
+    }
 
-    /* the list will decref all of its elements */
-    Py_DECREF(stacktrace->threads);
-
-    stacktrace->stacktrace->threads = newlinkedlist;
-    stacktrace->threads = threads_to_python_list((struct sr_stacktrace *)stacktrace->stacktrace,
-                                                 &sr_py_gdb_thread_type, &sr_py_gdb_frame_type);
-    return 0;
-}
+    this->stacktrace->threads = tmp->threads;
+    this->stacktrace->crash_tid = tmp->crash_tid;
+    tmp->threads = NULL;
+    sr_gdb_stacktrace_free(tmp);
 
-int
-stacktrace_rebuild_sharedlib_python_list(struct sr_py_gdb_stacktrace *stacktrace)
-{
-    struct sr_gdb_sharedlib *newlinkedlist = sr_gdb_sharedlib_dup(stacktrace->stacktrace->libs, true);
-    if (!newlinkedlist)
-        return -1;
+    PyObject *old = this->threads;
+    this->threads = threads;
+    Py_DECREF(old);
 
-    /* the list will decref all of its elements */
-    Py_DECREF(stacktrace->libs);
-    stacktrace->stacktrace->libs = newlinkedlist;
-    stacktrace->libs = sharedlib_linked_list_to_python_list(stacktrace->stacktrace);
     return 0;
 }
 
@@ -293,6 +283,7 @@ sr_py_gdb_stacktrace_new(PyTypeObject *object,
 
     bo->thread_type = &sr_py_gdb_thread_type;
     bo->frame_type = &sr_py_gdb_frame_type;
+    Py_INCREF(Py_None);
     bo->crashframe = (struct sr_py_gdb_frame*)Py_None;
     if (str)
     {
@@ -330,6 +321,7 @@ sr_py_gdb_stacktrace_free(PyObject *object)
     /* the list will decref all of its elements */
     Py_DECREF(this->threads);
     Py_DECREF(this->libs);
+    Py_DECREF(this->crashframe);
     this->stacktrace->threads = NULL;
     this->stacktrace->libs = NULL;
     sr_gdb_stacktrace_free(this->stacktrace);
@@ -381,12 +373,15 @@ sr_py_gdb_stacktrace_dup(PyObject *self, PyObject *args)
 
     if (PyObject_TypeCheck(this->crashframe, &sr_py_gdb_frame_type))
     {
-        bo->crashframe = (struct sr_py_gdb_frame*)sr_py_gdb_thread_dup((PyObject*)this->crashframe, PyTuple_New(0));
+        bo->crashframe = (struct sr_py_gdb_frame*)sr_py_gdb_frame_dup((PyObject*)this->crashframe, NULL);
         if (!bo->crashframe)
             return NULL;
     }
     else
+    {
+        Py_INCREF(Py_None);
         bo->crashframe = (struct sr_py_gdb_frame*)Py_None;
+    }
 
     return (PyObject*)bo;
 }
@@ -398,7 +393,7 @@ sr_py_gdb_stacktrace_find_crash_frame(PyObject *self, PyObject *args)
     if (gdb_prepare_linked_lists(this) < 0)
         return NULL;
 
-    /* destroys linked list - need to rebuild python list */
+    /* does not destroy the linked list */
     struct sr_gdb_frame *frame = sr_gdb_stacktrace_get_crash_frame(this->stacktrace);
     if (!frame)
     {
@@ -416,14 +411,11 @@ sr_py_gdb_stacktrace_find_crash_frame(PyObject *self, PyObject *args)
     }
 
     result->frame = frame;
-    this->crashframe = result;
 
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
-    {
-        sr_gdb_frame_free(frame);
-        Py_DECREF(result);
-        return NULL;
-    }
+    struct sr_py_gdb_frame *old = this->crashframe;
+    Py_INCREF(result);
+    this->crashframe = result;
+    Py_DECREF(old);
 
     return (PyObject *)result;
 }
@@ -439,9 +431,16 @@ sr_py_gdb_stacktrace_limit_frame_depth(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "i", &depth))
         return NULL;
 
-    /* destroys linked list - need to rebuild python list */
-    sr_gdb_stacktrace_limit_frame_depth(this->stacktrace, depth);
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
+    if (depth <= 0)
+    {
+        PyErr_SetString(PyExc_ValueError, "Frame depth must be positive");
+        return NULL;
+    }
+
+    /* frees some frames, need to use a copy and rebuild python list */
+    struct sr_gdb_stacktrace *tmp = sr_gdb_stacktrace_dup(this->stacktrace);
+    sr_gdb_stacktrace_limit_frame_depth(tmp, depth);
+    if (replace_threads(this, tmp) < 0)
         return NULL;
 
     Py_RETURN_NONE;
@@ -479,7 +478,7 @@ sr_py_gdb_stacktrace_find_address(PyObject *self, PyObject *args)
         return NULL;
 
     unsigned long long address;
-    if (!PyArg_ParseTuple(args, "l", &address))
+    if (!PyArg_ParseTuple(args, "K", &address))
         return NULL;
 
     if (address == (unsigned long long) -1)
@@ -513,8 +512,6 @@ sr_py_gdb_stacktrace_set_libnames(PyObject *self, PyObject *args)
 
     /* does not destroy the linked list */
     sr_gdb_stacktrace_set_libnames(this->stacktrace);
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
-        return NULL;
 
     Py_RETURN_NONE;
 }
@@ -526,22 +523,10 @@ sr_py_gdb_stacktrace_normalize(PyObject *self, PyObject *args)
     if (gdb_prepare_linked_lists(this) < 0)
         return NULL;
 
-    /* destroys the linked list and frees some parts */
-    /* need to rebuild python list manually */
+    /* frees some frames, need to use a copy and rebuild python list */
     struct sr_gdb_stacktrace *tmp = sr_gdb_stacktrace_dup(this->stacktrace);
     sr_normalize_gdb_stacktrace(tmp);
-    /* the list will decref all of its elements */
-    Py_DECREF(this->threads);
-
-    this->stacktrace->threads = tmp->threads;
-    this->stacktrace->crash = tmp->crash;
-    this->stacktrace->crash_tid = tmp->crash_tid;
-    tmp->threads = NULL;
-    tmp->crash = NULL;
-    sr_gdb_stacktrace_free(tmp);
-
-    this->threads = thread_linked_list_to_python_list(this->stacktrace);
-    if (!this->threads)
+    if (replace_threads(this, tmp) < 0)
         return NULL;
 
     Py_RETURN_NONE;
@@ -566,9 +551,6 @@ sr_py_gdb_stacktrace_to_short_text(PyObject *self, PyObject *args)
         return NULL;
     }
 
-    if (stacktrace_rebuild_thread_python_list(this) < 0)
-        return NULL;
-
     PyObject *result = PyString_FromString(text);
 
     g_free(text);
-- 
2.43.0


From 4083c4d40cfa4be314cf3028fd12e412433ec90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:41 +0000
Subject: [PATCH 123/145] fix: do not name libraries of GDB frames after a
 library without a name

---
 lib/gdb_thread.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gdb_thread.c b/lib/gdb_thread.c
index 3c5071b..ed7ed5c 100644
--- a/lib/gdb_thread.c
+++ b/lib/gdb_thread.c
@@ -529,7 +529,7 @@ sr_gdb_thread_set_libnames(struct sr_gdb_thread *thread, struct sr_gdb_sharedlib
     {
         struct sr_gdb_sharedlib *lib = sr_gdb_sharedlib_find_address(libs,
                                                                      frame->address);
-        if (lib)
+        if (lib && lib->soname)
         {
             char *s1, *s2;
 
-- 
2.43.0


From c13113ec65ea1cbe2b30ffcb93441a36c121a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:41 +0000
Subject: [PATCH 124/145] fix: format functions of current frames in Python
 format_funs()

---
 python/py_gdb_thread.c  | 9 ++++++++-
 python/py_java_thread.c | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/py_gdb_thread.c b/python/py_gdb_thread.c
index 6201738..8afc6f1 100644
--- a/python/py_gdb_thread.c
+++ b/python/py_gdb_thread.c
@@ -231,5 +231,12 @@ sr_py_gdb_thread_quality(PyObject *self, PyObject *args)
 PyObject *
 sr_py_gdb_thread_format_funs(PyObject *self, PyObject *args)
 {
-    return Py_BuildValue("s", sr_gdb_thread_format_funs(((struct sr_py_gdb_thread *)self)->thread));
+    struct sr_py_gdb_thread *this = (struct sr_py_gdb_thread *)self;
+    if (frames_prepare_linked_list((struct sr_py_base_thread *)this) < 0)
+        return NULL;
+
+    char *funs = sr_gdb_thread_format_funs(this->thread);
+    PyObject *result = Py_BuildValue("s", funs);
+    g_free(funs);
+    return result;
 }
diff --git a/python/py_java_thread.c b/python/py_java_thread.c
index 99d44f7..49dc1d5 100644
--- a/python/py_java_thread.c
+++ b/python/py_java_thread.c
@@ -222,5 +222,12 @@ sr_py_java_thread_quality(PyObject *self, PyObject *args)
 PyObject *
 sr_py_java_thread_format_funs(PyObject *self, PyObject *args)
 {
-    return Py_BuildValue("s", sr_java_thread_format_funs(((struct sr_py_java_thread *)self)->thread));
+    struct sr_py_java_thread *this = (struct sr_py_java_thread *)self;
+    if (frames_prepare_linked_list((struct sr_py_base_thread *)this) < 0)
+        return NULL;
+
+    char *funs = sr_java_thread_format_funs(this->thread);
+    PyObject *result = Py_BuildValue("s", funs);
+    g_free(funs);
+    return result;
 }
-- 
2.43.0


From 8228bc848e94cd569f60aa6b8f34db79aa657718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:41 +0000
Subject: [PATCH 125/145] fix: raise ValueError for kernel oops frames which
 can't be parsed

---
 python/py_koops_frame.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/py_koops_frame.c b/python/py_koops_frame.c
index b564f9f..f75c592 100644
--- a/python/py_koops_frame.c
+++ b/python/py_koops_frame.c
@@ -150,6 +150,12 @@ sr_py_koops_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     if (str)
     {
         fo->frame = sr_koops_frame_parse(&str);
+        if (!fo->frame)
+        {
+            PyErr_SetString(PyExc_ValueError, "Failed to parse the frame");
+            PyObject_Del(fo);
+            return NULL;
+        }
     }
     else
         fo->frame = sr_koops_frame_new();
-- 
2.43.0


From 6079d714478c8c67215e0b2db8eb822ccede9c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:41 +0000
Subject: [PATCH 126/145] fix: raise LookupError for short text without crash
 thread

---
 python/py_base_stacktrace.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/py_base_stacktrace.c b/python/py_base_stacktrace.c
index 4cfd936..853a1ff 100644
--- a/python/py_base_stacktrace.c
+++ b/python/py_base_stacktrace.c
@@ -263,7 +263,10 @@ sr_py_single_stacktrace_to_short_text(PyObject *self, PyObject *args)
     char *text =
         sr_stacktrace_to_short_text((struct sr_stacktrace *)this->thread, max_frames);
     if (!text)
+    {
+        PyErr_SetString(PyExc_LookupError, "Crash thread not found");
         return NULL;
+    }
 
     PyObject *result = PyString_FromString(text);
 
@@ -286,7 +289,10 @@ sr_py_multi_stacktrace_to_short_text(PyObject *self, PyObject *args)
     char *text =
         sr_stacktrace_to_short_text((struct sr_stacktrace *)this->stacktrace, max_frames);
     if (!text)
+    {
+        PyErr_SetString(PyExc_LookupError, "Crash thread not found");
         return NULL;
+    }
 
     PyObject *result = PyString_FromString(text);
 
-- 
2.43.0


From 1464bf0e9f0e622e95a1e7e4bb34d3bdb5be5dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:41 +0000
Subject: [PATCH 127/145] fix: do not leak names of kernel modules in Python

---
 python/py_koops_stacktrace.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/py_koops_stacktrace.c b/python/py_koops_stacktrace.c
index 0faa5a7..ae75b16 100644
--- a/python/py_koops_stacktrace.c
+++ b/python/py_koops_stacktrace.c
@@ -115,7 +115,14 @@ sr_py_koops_stacktrace_get_modules(PyObject *self, void *data)
 
     while(iter && *iter)
     {
-      PyList_Append(result, Py_BuildValue("s", *iter++));
+      PyObject *module = Py_BuildValue("s", *iter++);
+      if (!module || PyList_Append(result, module) < 0)
+      {
+          Py_XDECREF(module);
+          Py_DECREF(result);
+          return NULL;
+      }
+      Py_DECREF(module);
     }
 
     return result;
-- 
2.43.0


From f9f19675519d15e6ccdb2c735580f8bb715c859b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:41 +0000
Subject: [PATCH 128/145] fix: convert Python frames with any attributes to
 string

---
 python/py_java_frame.c   | 6 ++++--
 python/py_js_frame.c     | 2 +-
 python/py_python_frame.c | 2 +-
 python/py_ruby_frame.c   | 4 ++--
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/py_java_frame.c b/python/py_java_frame.c
index 271d937..ce9922c 100644
--- a/python/py_java_frame.c
+++ b/python/py_java_frame.c
@@ -171,7 +171,9 @@ sr_py_java_frame_str(PyObject *self)
 
     if (this->frame->is_exception)
     {
-        g_string_append(buf, this->frame->name);
+        if (this->frame->name)
+            g_string_append(buf, this->frame->name);
+
         if (this->frame->message)
             g_string_append_printf(buf, ": %s", this->frame->message);
     }
@@ -185,7 +187,7 @@ sr_py_java_frame_str(PyObject *self)
             g_string_append_printf(buf, "(%s", this->frame->file_name);
 
         if (this->frame->file_line)
-            g_string_append_printf(buf, ":%d", this->frame->file_line);
+            g_string_append_printf(buf, ":%u", this->frame->file_line);
 
         if (this->frame->is_native)
             g_string_append(buf, "(Native Method");
diff --git a/python/py_js_frame.c b/python/py_js_frame.c
index bb1534b..d0581dc 100644
--- a/python/py_js_frame.c
+++ b/python/py_js_frame.c
@@ -178,7 +178,7 @@ sr_py_js_frame_str(PyObject *self)
         g_string_append(buf, "<unknown>");
     }
 
-    g_string_append_printf(buf, ":%d:%d", this->frame->file_line, this->frame->line_column);
+    g_string_append_printf(buf, ":%u:%u", this->frame->file_line, this->frame->line_column);
 
     if (this->frame->function_name)
     {
diff --git a/python/py_python_frame.c b/python/py_python_frame.c
index 15a3353..5184bda 100644
--- a/python/py_python_frame.c
+++ b/python/py_python_frame.c
@@ -174,7 +174,7 @@ sr_py_python_frame_str(PyObject *self)
                             (this->frame->special_file ? ">" : ""));
 
     if (this->frame->file_line)
-      g_string_append_printf(buf, ", %d", this->frame->file_line);
+      g_string_append_printf(buf, ", %u", this->frame->file_line);
 
     if (this->frame->function_name)
       g_string_append_printf(buf, ", in %s%s%s",
diff --git a/python/py_ruby_frame.c b/python/py_ruby_frame.c
index d1a5ca2..e895047 100644
--- a/python/py_ruby_frame.c
+++ b/python/py_ruby_frame.c
@@ -174,7 +174,7 @@ sr_py_ruby_frame_str(PyObject *self)
 
     if (this->frame->file_line)
     {
-        g_string_append_printf(buf, ":%d", this->frame->file_line);
+        g_string_append_printf(buf, ":%u", this->frame->file_line);
     }
 
     if (this->frame->function_name)
@@ -193,7 +193,7 @@ sr_py_ruby_frame_str(PyObject *self)
         }
         else if (this->frame->block_level > 1)
         {
-            g_string_append_printf(buf, "block (%d levels) in ", this->frame->block_level);
+            g_string_append_printf(buf, "block (%u levels) in ", this->frame->block_level);
         }
 
         g_string_append_printf(buf, "%s%s%s'",
-- 
2.43.0


From 6894747569237e51fdeb4aa2c9a145f262252f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:54 +0000
Subject: [PATCH 129/145] fix: link packages of Python reports properly, do not
 let them be deleted

An empty list kept the previous packages, one package in the list twice made the
native list infinite, deleted attributes crashed, and all packages leaked.
---
 python/py_common.c | 14 +++++---
 python/py_common.h |  6 ++--
 python/py_report.c | 79 +++++++++++++++++++---------------------------
 3 files changed, 46 insertions(+), 53 deletions(-)

diff --git a/python/py_common.c b/python/py_common.c
index 82a51d1..3d974c3 100644
--- a/python/py_common.c
+++ b/python/py_common.c
@@ -228,15 +228,21 @@ sr_py_getter_object(PyObject *self, void *data)
 int
 sr_py_setter_list(PyObject *self, PyObject *rhs, void *data)
 {
-    if (rhs == NULL)
+    if (rhs != NULL && !PyList_Check(rhs))
     {
-        PyErr_SetString(PyExc_TypeError, "Cannot delete this attribute.");
+        PyErr_SetString(PyExc_TypeError, "Value must be a list.");
         return -1;
     }
 
-    if (!PyList_Check(rhs))
+    return sr_py_setter_object(self, rhs, data);
+}
+
+int
+sr_py_setter_object(PyObject *self, PyObject *rhs, void *data)
+{
+    if (rhs == NULL)
     {
-        PyErr_SetString(PyExc_TypeError, "Value must be a list.");
+        PyErr_SetString(PyExc_TypeError, "Cannot delete this attribute.");
         return -1;
     }
 
diff --git a/python/py_common.h b/python/py_common.h
index 9d16684..f66b92c 100644
--- a/python/py_common.h
+++ b/python/py_common.h
@@ -131,11 +131,13 @@ int sr_py_setter_uint64(PyObject *self, PyObject *rhs, void *data);
 /*
  * Getter and setter for attributes that are references to python objects. The
  * last parameter is the offset of the reference in the python object structure.
- * Unlike T_OBJECT_EX members, these attributes can't be deleted, and the setter
- * only accepts lists.
+ * Unlike T_OBJECT_EX members, these attributes can't be deleted, and
+ * sr_py_setter_list only accepts lists.
  */
 PyObject *sr_py_getter_object(PyObject *self, void *data);
 int sr_py_setter_list(PyObject *self, PyObject *rhs, void *data);
+/* This one accepts any object. */
+int sr_py_setter_object(PyObject *self, PyObject *rhs, void *data);
 
 /* Just throws an exception. */
 int
diff --git a/python/py_report.c b/python/py_report.c
index e2286ae..72ea006 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -23,6 +23,7 @@
 #include "py_rpm_package.h"
 #include "py_operating_system.h"
 
+#include "py_base_thread.h"
 #include "py_base_stacktrace.h"
 #include "py_core_stacktrace.h"
 #include "py_python_stacktrace.h"
@@ -70,18 +71,15 @@ report_getset[] =
     { (char*)"report_version", sr_py_report_get_version, sr_py_setter_readonly, (char*)"Version of the report (int)", NULL },
     { (char*)"report_type", sr_py_report_get_type, sr_py_report_set_type, (char*)"Report type (string)", NULL },
     { (char*)"auth",        sr_py_report_get_auth, sr_py_report_set_auth, (char*)auth_doc, NULL               },
-    { NULL },
-};
-
-static PyMemberDef
-report_members[] =
-{
-    { (char*)"stacktrace", T_OBJECT_EX, offsetof(struct sr_py_report, stacktrace), 0,
-      (char*)"Problem stacktrace (:class:`SingleThreadStacktrace` or :class:`MultiThreadStacktrace` object)" },
-    { (char*)"operating_system", T_OBJECT_EX, offsetof(struct sr_py_report, operating_system), 0,
-      (char *)"Operating system (:class:`OperatingSystem` object)" },
-    { (char*)"packages", T_OBJECT_EX, offsetof(struct sr_py_report, packages), 0,
-      (char *)"List of packages (currently a list of :class:`RpmPackage` objects)" },
+    { (char*)"stacktrace", sr_py_getter_object, sr_py_setter_object,
+      (char*)"Problem stacktrace (:class:`SingleThreadStacktrace` or :class:`MultiThreadStacktrace` object)",
+      (void *)offsetof(struct sr_py_report, stacktrace) },
+    { (char*)"operating_system", sr_py_getter_object, sr_py_setter_object,
+      (char *)"Operating system (:class:`OperatingSystem` object)",
+      (void *)offsetof(struct sr_py_report, operating_system) },
+    { (char*)"packages", sr_py_getter_object, sr_py_setter_list,
+      (char *)"List of packages (currently a list of :class:`RpmPackage` objects)",
+      (void *)offsetof(struct sr_py_report, packages) },
     { NULL },
 };
 
@@ -123,7 +121,7 @@ sr_py_report_type =
     NULL,                       /* tp_iter */
     NULL,                       /* tp_iternext */
     report_methods,             /* tp_methods */
-    report_members,             /* tp_members */
+    NULL,                       /* tp_members */
     report_getset,              /* tp_getset */
     NULL,                       /* tp_base */
     NULL,                       /* tp_dict */
@@ -157,10 +155,12 @@ rpms_to_python_list(struct sr_rpm_package *rpm)
             return PyErr_NoMemory();
 
         item->rpm_package = rpm;
-        if (PyList_Append(result, (PyObject *)item) < 0)
-            return NULL;
-
         rpm = rpm->next;
+
+        int appended = PyList_Append(result, (PyObject *)item);
+        Py_DECREF(item);
+        if (appended < 0)
+            return NULL;
     }
 
     return result;
@@ -169,48 +169,33 @@ rpms_to_python_list(struct sr_rpm_package *rpm)
 int
 rpms_prepare_linked_list(struct sr_py_report *report)
 {
-    if (!PyList_Check(report->packages))
-    {
-        PyErr_SetString(PyExc_TypeError, "Attribute 'packages' is not a list.");
+    PyObject *seen = PySet_New(NULL);
+    if (!seen)
+        return -1;
+
+    int checked = check_list_items(report->packages, &sr_py_rpm_package_type, "packages", seen);
+    Py_DECREF(seen);
+    if (checked < 0)
         return -1;
-    }
 
-    int i;
-    PyObject *item;
-    struct sr_py_rpm_package *current = NULL, *prev = NULL;
+    struct sr_rpm_package *prev = NULL;
+    report->report->rpm_packages = NULL;
 
+    Py_ssize_t i;
     for (i = 0; i < PyList_Size(report->packages); ++i)
     {
-        item = PyList_GetItem(report->packages, i);
-        if (!item)
-            return -1;
+        struct sr_rpm_package *current =
+            ((struct sr_py_rpm_package *)PyList_GetItem(report->packages, i))->rpm_package;
 
-        Py_INCREF(item);
-
-        if (!PyObject_TypeCheck(item, &sr_py_rpm_package_type))
-        {
-            Py_XDECREF(item);
-            Py_XDECREF(prev);
-            PyErr_SetString(PyExc_TypeError, "packages must be a list of RpmPackage objects");
-            return -1;
-        }
-
-        current = (struct sr_py_rpm_package*)item;
-        if (i == 0)
-            report->report->rpm_packages = current->rpm_package;
+        if (prev)
+            prev->next = current;
         else
-            prev->rpm_package->next = current->rpm_package;
+            report->report->rpm_packages = current;
 
-        Py_XDECREF(prev);
+        current->next = NULL;
         prev = current;
     }
 
-    if (current)
-    {
-        current->rpm_package->next = NULL;
-        Py_DECREF(current);
-    }
-
     return 0;
 }
 
-- 
2.43.0


From f392702a3f375182b4547be7c1281d1ff447d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:58 +0000
Subject: [PATCH 130/145] fix: serialize current threads and frames of Python
 reports

---
 python/py_report.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/py_report.c b/python/py_report.c
index 72ea006..589a759 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -210,11 +210,17 @@ stacktrace_prepare(struct sr_py_report *report, PyTypeObject *type, bool multi_t
 
     if (multi_thread)
     {
+        if (threads_prepare_linked_list((struct sr_py_multi_stacktrace *)report->stacktrace) < 0)
+            return -1;
+
         report->report->stacktrace =
             ((struct sr_py_multi_stacktrace *)report->stacktrace)->stacktrace;
     }
     else
     {
+        if (frames_prepare_linked_list((struct sr_py_base_thread *)report->stacktrace) < 0)
+            return -1;
+
         report->report->stacktrace =
             (struct sr_stacktrace *)((struct sr_py_base_thread *)report->stacktrace)->thread;
     }
-- 
2.43.0


From 370207bf991223373362e75505b741e5e11ef80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:01 +0000
Subject: [PATCH 131/145] fix: support JavaScript stacktraces in Python reports

---
 python/py_report.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/py_report.c b/python/py_report.c
index 589a759..610b6e3 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -30,6 +30,7 @@
 #include "py_koops_stacktrace.h"
 #include "py_java_stacktrace.h"
 #include "py_ruby_stacktrace.h"
+#include "py_js_stacktrace.h"
 
 #include "report.h"
 #include "operating_system.h"
@@ -281,6 +282,10 @@ report_prepare_subobjects(struct sr_py_report *report)
             if (stacktrace_prepare(report, &sr_py_ruby_stacktrace_type, false) < 0)
                 return -1;
             break;
+        case SR_REPORT_JAVASCRIPT:
+            if (stacktrace_prepare(report, &sr_py_js_stacktrace_type, false) < 0)
+                return -1;
+            break;
         default:
             report->report->stacktrace = NULL;
             break;
@@ -348,6 +353,10 @@ report_to_python_obj(struct sr_report *report)
             ro->stacktrace = ruby_stacktrace_to_python_obj(
                     (struct sr_ruby_stacktrace *)report->stacktrace);
             break;
+        case SR_REPORT_JAVASCRIPT:
+            ro->stacktrace = js_stacktrace_to_python_obj(
+                    (struct sr_js_stacktrace *)report->stacktrace);
+            break;
         default:
             Py_INCREF(Py_None);
             ro->stacktrace = Py_None;
-- 
2.43.0


From b44e09e6a57e08aff62cf7038b16025fbd99ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:05 +0000
Subject: [PATCH 132/145] fix: do not free string literals when setting
 reporter in Python

---
 python/py_report.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/python/py_report.c b/python/py_report.c
index 610b6e3..b95b2d3 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -295,6 +295,21 @@ report_prepare_subobjects(struct sr_py_report *report)
     return 0;
 }
 
+/* Default name and version of the reporter are string literals, while the setters
+ * of these attributes expect strings they can free.
+ */
+static void
+own_reporter(struct sr_report *report)
+{
+    struct sr_report defaults;
+    sr_report_init(&defaults);
+
+    if (report->reporter_name == defaults.reporter_name)
+        report->reporter_name = g_strdup(defaults.reporter_name);
+    if (report->reporter_version == defaults.reporter_version)
+        report->reporter_version = g_strdup(defaults.reporter_version);
+}
+
 PyObject *
 report_to_python_obj(struct sr_report *report)
 {
@@ -304,6 +319,7 @@ report_to_python_obj(struct sr_report *report)
         return PyErr_NoMemory();
 
     ro->report = report;
+    own_reporter(report);
 
     /* wrap operating system in a python object */
     if (report->operating_system)
@@ -423,6 +439,8 @@ sr_py_report_free(PyObject *object)
     this->report->operating_system = NULL;
     this->report->stacktrace = NULL;
 
+    g_free(this->report->reporter_name);
+    g_free(this->report->reporter_version);
     sr_report_free(this->report);
     PyObject_Del(object);
 }
-- 
2.43.0


From eba99a693a83a69a67e44fa828adddf422fae873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:08 +0000
Subject: [PATCH 133/145] fix: set epoch of Python RPM packages created without
 it

---
 python/py_rpm_package.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/py_rpm_package.c b/python/py_rpm_package.c
index 3bd907a..87a6791 100644
--- a/python/py_rpm_package.c
+++ b/python/py_rpm_package.c
@@ -122,7 +122,7 @@ sr_py_rpm_package_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     rpm->rpm_package = sr_rpm_package_new();
 
-    unsigned int epoch;
+    unsigned int epoch = 0;
     const char *name = NULL, *version = NULL, *rel = NULL, *arch = NULL;
     if (!PyArg_ParseTuple(args, "|sIsss", &name, &epoch, &version, &rel, &arch))
         return NULL;
-- 
2.43.0


From 66777849c2573cd54a8923a6a5620aac76c328b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:08 +0000
Subject: [PATCH 134/145] fix: handle errors when creating Python reports

---
 python/py_report.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/python/py_report.c b/python/py_report.c
index b95b2d3..e9b1c2f 100644
--- a/python/py_report.c
+++ b/python/py_report.c
@@ -403,11 +403,11 @@ sr_py_report_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     if (report_json)
     {
-        char *error_msg;
+        char *error_msg = NULL;
         report = sr_report_from_json_text(report_json, &error_msg);
         if (!report)
         {
-            PyErr_SetString(PyExc_ValueError, error_msg);
+            PyErr_SetString(PyExc_ValueError, error_msg ? error_msg : "Invalid JSON");
             g_free(error_msg);
             return NULL;
         }
@@ -534,11 +534,13 @@ sr_py_report_get_auth(PyObject *self, void *data)
     for (ae = report->auth_entries; ae; ae = ae->next)
     {
         PyObject *val = PyString_FromString(ae->value);
-        if (!val)
-            return NULL;
-
-        if (PyDict_SetItemString(auth, ae->key, val) == -1)
+        if (!val || PyDict_SetItemString(auth, ae->key, val) == -1)
+        {
+            Py_XDECREF(val);
+            Py_XDECREF(auth);
             return NULL;
+        }
+        Py_DECREF(val);
     }
 
     return auth;
-- 
2.43.0


From 1a0dcd3a0108e20021d64302eec652a084eb4f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:40 +0000
Subject: [PATCH 135/145] fix: link Python distance matrix parts properly
 before merging

Merging of an empty list returned NULL without an exception, and one part in the
list twice made the native list infinite.
---
 python/py_metrics.c | 56 ++++++++++++++++++++-------------------------
 1 file changed, 25 insertions(+), 31 deletions(-)

diff --git a/python/py_metrics.c b/python/py_metrics.c
index 42bc6c2..48e2bc0 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -370,45 +370,39 @@ sr_py_distances_dup(PyObject *self, PyObject *args)
 static struct sr_distances_part*
 parts_prepare_linked_list(PyObject *part_list)
 {
-    int i;
-    PyObject *item;
-    struct sr_py_distances_part *current = NULL, *prev = NULL;
-
-    for (i = 0; i < PyList_Size(part_list); ++i)
+    if (PyList_Size(part_list) == 0)
     {
-        item = PyList_GetItem(part_list, i);
-        if (!item)
-            return NULL;
-
-        Py_INCREF(item);
+        PyErr_SetString(PyExc_ValueError, "No distance matrix parts to merge");
+        return NULL;
+    }
 
-        if (!PyObject_TypeCheck(item, &sr_py_distances_part_type))
-        {
-            Py_XDECREF(item);
-            Py_XDECREF(prev);
-            PyErr_SetString(PyExc_TypeError,
-                    "argument must be a list of satyr.DistancePart objects");
-            return NULL;
-        }
+    PyObject *seen = PySet_New(NULL);
+    if (!seen)
+        return NULL;
 
-        current = (struct sr_py_distances_part*)item;
-        if (i != 0)
-            prev->distances_part->next = current->distances_part;
+    int checked = check_list_items(part_list, &sr_py_distances_part_type, "parts", seen);
+    Py_DECREF(seen);
+    if (checked < 0)
+        return NULL;
 
-        Py_XDECREF(prev);
-        prev = current;
-    }
+    struct sr_distances_part *parts = NULL, *prev = NULL;
 
-    if (current)
+    Py_ssize_t i;
+    for (i = 0; i < PyList_Size(part_list); ++i)
     {
-        current->distances_part->next = NULL;
-        Py_DECREF(current);
+        struct sr_distances_part *current =
+            ((struct sr_py_distances_part *)PyList_GetItem(part_list, i))->distances_part;
+
+        if (prev)
+            prev->next = current;
+        else
+            parts = current;
+
+        current->next = NULL;
+        prev = current;
     }
 
-    if (PyList_Size(part_list) > 0)
-        return ((struct sr_py_distances_part*)PyList_GetItem(part_list, 0))->distances_part;
-    else
-        return NULL;
+    return parts;
 }
 
 PyObject *
-- 
2.43.0


From 796d158801e8806a51d46d23dbdd892cdbf178d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:12 +0000
Subject: [PATCH 136/145] fix: check parameters of Python distance matrix parts

A list of distances longer than the part was written past its end, and the parts
outside of their matrix aborted in compute().
---
 python/py_metrics.c | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/python/py_metrics.c b/python/py_metrics.c
index 48e2bc0..450a7cf 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -431,13 +431,26 @@ sr_py_distances_merge_parts(PyObject *self, PyObject *args)
     return (PyObject *)o;
 }
 
+/* Returns number of distances in the matrix from the given position to the end. */
+static unsigned long long
+count_distances(int m, int n, int m_begin, int n_begin)
+{
+    unsigned long long count = n - n_begin;
+
+    int i;
+    for (i = m_begin + 1; i < m; i++)
+        count += n - i - 1;
+
+    return count;
+}
+
 /* constructor */
 PyObject *
 sr_py_distances_part_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
     int m, n, m_begin, n_begin;
     unsigned long long len;
-    enum sr_distance_type dist_type;
+    int dist_type;
     unsigned long long checksum;
     PyObject *dist_list;
 
@@ -445,6 +458,23 @@ sr_py_distances_part_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
                           &checksum, &dist_list))
         return NULL;
 
+    if (!validate_distance_params(m, n, dist_type))
+        return NULL;
+
+    /* The part must be inside of the matrix. */
+    if (m >= n || m_begin < 0 || m_begin >= m || n_begin <= m_begin || n_begin >= n
+        || len > count_distances(m, n, m_begin, n_begin))
+    {
+        PyErr_SetString(PyExc_ValueError, "Invalid position of distance matrix part");
+        return NULL;
+    }
+
+    if (PyList_Check(dist_list) && (size_t)PyList_Size(dist_list) != len)
+    {
+        PyErr_SetString(PyExc_ValueError, "Wrong number of distances provided");
+        return NULL;
+    }
+
     struct sr_distances_part *part = sr_distances_part_new(m, n, dist_type, m_begin, n_begin,
                                                            (size_t)len);
     part->checksum = (uint32_t)checksum;
@@ -452,9 +482,10 @@ sr_py_distances_part_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     if (PyList_Check(dist_list))
     {
         part->distances = g_malloc_n(sizeof(float), part->len);
-        int i;
-        for (i = 0; i < PyList_Size(dist_list); i++)
+        size_t i;
+        for (i = 0; i < part->len; i++)
         {
+            /* The list can be changed when the item is converted to float. */
             PyObject *item = PyList_GetItem(dist_list, i);
             if (!item)
                 goto error;
@@ -474,6 +505,11 @@ sr_py_distances_part_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     struct sr_py_distances_part *py_part =
         PyObject_New(struct sr_py_distances_part, &sr_py_distances_part_type);
+    if (!py_part)
+    {
+        PyErr_NoMemory();
+        goto error;
+    }
     py_part->distances_part = part;
 
     return (PyObject *)py_part;
-- 
2.43.0


From d61fd252b8f1e6eb879d5448fb3bd426def11d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:15 +0000
Subject: [PATCH 137/145] fix: do not leak Python distance matrix parts

---
 python/py_metrics.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/python/py_metrics.c b/python/py_metrics.c
index 450a7cf..82a46f9 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -562,9 +562,10 @@ sr_py_distances_part_reduce(PyObject *self, PyObject *args)
                 return NULL;
             }
 
-            if (PyList_Append(dist_list, f) != 0)
+            int appended = PyList_Append(dist_list, f);
+            Py_DECREF(f);
+            if (appended != 0)
             {
-                Py_XDECREF(f);
                 Py_XDECREF(dist_list);
                 return NULL;
             }
@@ -607,14 +608,18 @@ sr_py_distances_part_create(PyObject *self, PyObject *args, PyObject *kwds)
     }
 
     PyObject *part_list = PyList_New(0);
-    struct sr_distances_part *it;
-    for (it = parts; it != NULL; it = it->next)
+    struct sr_distances_part *it = parts;
+    while (it != NULL)
     {
         struct sr_py_distances_part *py_part =
             PyObject_New(struct sr_py_distances_part, &sr_py_distances_part_type);
 
         py_part->distances_part = it;
-        if (PyList_Append(part_list, (PyObject*)py_part) != 0)
+        it = it->next;
+
+        int appended = PyList_Append(part_list, (PyObject*)py_part);
+        Py_DECREF(py_part);
+        if (appended != 0)
         {
             /* Decrementing list refcount should free all its elements. */
             Py_XDECREF(part_list);
-- 
2.43.0


From 5137a170c25d6fc14b2b38d8e8469e40dc809631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:27 +0000
Subject: [PATCH 138/145] fix: check position of Python dendrogram merge level

---
 python/py_cluster.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/py_cluster.c b/python/py_cluster.c
index 30cdce1..5e3fbc8 100644
--- a/python/py_cluster.c
+++ b/python/py_cluster.c
@@ -159,7 +159,7 @@ sr_py_dendrogram_get_merge_level(PyObject *self, PyObject *args)
     if (!PyArg_ParseTuple(args, "i", &i))
         return NULL;
 
-    if (i < 0 || i > this->dendrogram->size)
+    if (i < 0 || i >= this->dendrogram->size - 1)
     {
         PyErr_SetString(PyExc_ValueError, "Merge level position out of range");
         return NULL;
-- 
2.43.0


From bebefd66c496bcb3f42c44204f0eb3f64bf9d468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:31 +0000
Subject: [PATCH 139/145] fix: do not leak clusters returned to Python

---
 python/py_cluster.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/py_cluster.c b/python/py_cluster.c
index 5e3fbc8..d5d8f0c 100644
--- a/python/py_cluster.c
+++ b/python/py_cluster.c
@@ -188,8 +188,13 @@ sr_py_dendrogram_cut(PyObject *self, PyObject *args)
     {
         listc = PyList_New(0);
         for (i = 0; i < cluster->size; i++)
-            PyList_Append(listc, PyInt_FromLong(cluster->objects[i]));
+        {
+            PyObject *object = PyInt_FromLong(cluster->objects[i]);
+            PyList_Append(listc, object);
+            Py_DECREF(object);
+        }
         PyList_Append(list, listc);
+        Py_DECREF(listc);
 
         cl = cluster;
         cluster = cluster->next;
-- 
2.43.0


From bd720f02b957f3ef9f3ff30984bbc32da5f93960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:52 +0000
Subject: [PATCH 140/145] fix: check range of epoch in Python RpmPackage
 constructor

A negative or too large epoch silently became another one.
---
 python/py_rpm_package.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/python/py_rpm_package.c b/python/py_rpm_package.c
index 87a6791..2428d15 100644
--- a/python/py_rpm_package.c
+++ b/python/py_rpm_package.c
@@ -114,6 +114,17 @@ sr_py_rpm_package_type =
 PyObject *
 sr_py_rpm_package_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 {
+    long long epoch = 0;
+    const char *name = NULL, *version = NULL, *rel = NULL, *arch = NULL;
+    if (!PyArg_ParseTuple(args, "|sLsss", &name, &epoch, &version, &rel, &arch))
+        return NULL;
+
+    if (epoch < 0 || epoch > UINT32_MAX)
+    {
+        PyErr_SetString(PyExc_ValueError, "Negative or too large value.");
+        return NULL;
+    }
+
     struct sr_py_rpm_package *rpm =
         PyObject_New(struct sr_py_rpm_package, &sr_py_rpm_package_type);
 
@@ -122,11 +133,6 @@ sr_py_rpm_package_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     rpm->rpm_package = sr_rpm_package_new();
 
-    unsigned int epoch = 0;
-    const char *name = NULL, *version = NULL, *rel = NULL, *arch = NULL;
-    if (!PyArg_ParseTuple(args, "|sIsss", &name, &epoch, &version, &rel, &arch))
-        return NULL;
-
     if (name)
         rpm->rpm_package->name = g_strdup(name);
 
-- 
2.43.0


From 649047854bca99e41f7a5cc3d57d9ab82cc62853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:15 +0000
Subject: [PATCH 141/145] fix: read packages without an epoch from the RPM
 database

Most packages do not record an epoch, which means epoch 0. Queries by
name and by path failed with 'Failed to find package epoch.' for them.
---
 lib/rpm.c | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/rpm.c b/lib/rpm.c
index 207b2ea..55f51b4 100644
--- a/lib/rpm.c
+++ b/lib/rpm.c
@@ -342,15 +342,10 @@ header_to_rpm_info(Header header,
         return NULL;
     }
 
-    bool success = header_get_uint32(header, RPMTAG_EPOCH, &rpm->epoch);
-    if (!success)
-    {
-        *error_message = g_strdup_printf("Failed to find package epoch.");
-        sr_rpm_package_free(rpm, false);
-        return NULL;
-    }
+    /* The epoch is optional and most packages have none, which means 0. */
+    header_get_uint32(header, RPMTAG_EPOCH, &rpm->epoch);
 
-    success = header_get_string(header, RPMTAG_VERSION, &rpm->version);
+    bool success = header_get_string(header, RPMTAG_VERSION, &rpm->version);
     if (!success)
     {
         *error_message = g_strdup_printf("Failed to find package version.");
-- 
2.43.0


From d26670ae93bf91ad36466d3332160739e6438587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:12 +0000
Subject: [PATCH 142/145] fix: split the distances of more than 46341 threads
 into parts

The number of distances was computed in int, which overflowed and made
sr_distances_part_create abort.
---
 lib/distance.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/distance.c b/lib/distance.c
index ac91abf..fe23e20 100644
--- a/lib/distance.c
+++ b/lib/distance.c
@@ -323,19 +323,19 @@ sr_distance(enum sr_distance_type distance_type,
     }
 }
 
-static int
+static size_t
 get_distance_position_mn(int m, int n, int i, int j)
 {
     /* The array holds only matrix entries (i, j) where i < j,
      * locate the position in the array. */
     assert(i < j && i >= 0 && i < m && j < n);
 
-    int h = n, l = n - i;
+    size_t h = n, l = n - i;
 
     return ((h * h - h) - (l * l - l)) / 2 + j - 1;
 }
 
-static int
+static size_t
 get_distance_position(const struct sr_distances *distances, int i, int j)
 {
     return get_distance_position_mn(distances->m, distances->n, i, j);
@@ -559,14 +559,14 @@ sr_distances_part_create(int m, int n, enum sr_distance_type dist_type,
     if (nparts == 0)
         return NULL;
 
-    int triangle_twice = m * (m-1);
+    size_t triangle_twice = (size_t)m * (m-1);
     assert(triangle_twice % 2 == 0);
 
-    int nelems = triangle_twice / 2 + (m*(n-m));
+    size_t nelems = triangle_twice / 2 + ((size_t)m*(n-m));
 
-    int nelems_per_part = nelems / nparts;
+    size_t nelems_per_part = nelems / nparts;
     /* First $leftover parts will be (nelems_per_part+1) long */
-    int leftover = nelems % nparts;
+    size_t leftover = nelems % nparts;
     if (leftover)
         nelems_per_part++;
 
@@ -575,7 +575,7 @@ sr_distances_part_create(int m, int n, enum sr_distance_type dist_type,
     int m_begin = 0;
     int n_begin = 1;
     /* How many items we've enountered that will go into the next part. */
-    int counter = 0;
+    size_t counter = 0;
     for (int i = 0; i < m; i++)
     {
         for (int j = i+1; j < n; j++)
@@ -675,7 +675,7 @@ sr_distances_part_merge(struct sr_distances_part *parts)
     struct sr_distances *distances = sr_distances_new(parts->m, parts->n);
 
     /* Every entry of the matrix has to be in exactly one part. */
-    int m = distances->m, n = distances->n;
+    size_t m = distances->m, n = distances->n;
     size_t nelems = m * (m - 1) / 2 + m * (n - m);
     size_t nmerged = 0;
     bool *merged = g_malloc0_n(get_distance_position(distances, m - 1, n - 1) + 1,
@@ -703,7 +703,7 @@ sr_distances_part_merge(struct sr_distances_part *parts)
             if (j <= i || i >= it->m || j >= it->n)
                 goto error;
 
-            int position = get_distance_position(distances, i, j);
+            size_t position = get_distance_position(distances, i, j);
             if (merged[position])
                 goto error;
 
-- 
2.43.0


From 17d7690ccd9d8719b055163ac767ab82763cb867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:26 +0000
Subject: [PATCH 143/145] fix: limit the nesting of brackets in GDB function
 names

A backtrace with tens of thousands of nested brackets exhausted the stack
of the process that parsed it.
---
 lib/gdb_frame.c | 37 ++++++++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/lib/gdb_frame.c b/lib/gdb_frame.c
index 788a13e..4f7b933 100644
--- a/lib/gdb_frame.c
+++ b/lib/gdb_frame.c
@@ -523,11 +523,18 @@ int sr_gdb_frame_parse_function_name_template_args(const char **input,
     return total_char_count;
 }
 
-int
-sr_gdb_frame_parse_function_name_braces(const char **input, char **target)
+/* Brackets nested deeper than this are not parsed, so that no text exhausts the
+ * stack. Compilers refuse to instantiate templates nested deeper by default. */
+#define MAX_FUNCTION_NAME_DEPTH 1024
+
+static int
+parse_function_name_template(const char **input, char **target, int depth);
+
+static int
+parse_function_name_braces(const char **input, char **target, int depth)
 {
     const char *local_input = *input;
-    if (!sr_skip_char(&local_input, '('))
+    if (depth > MAX_FUNCTION_NAME_DEPTH || !sr_skip_char(&local_input, '('))
         return 0;
 
     GString *buf = g_string_new(NULL);
@@ -536,8 +543,8 @@ sr_gdb_frame_parse_function_name_braces(const char **input, char **target)
     {
         char *namechunk = NULL;
         if (0 < sr_gdb_frame_parse_function_name_chunk(&local_input, true, &namechunk) ||
-            0 < sr_gdb_frame_parse_function_name_braces(&local_input, &namechunk) ||
-            0 < sr_gdb_frame_parse_function_name_template(&local_input, &namechunk))
+            0 < parse_function_name_braces(&local_input, &namechunk, depth + 1) ||
+            0 < parse_function_name_template(&local_input, &namechunk, depth + 1))
         {
             g_string_append(buf, namechunk);
             g_free(namechunk);
@@ -560,10 +567,16 @@ sr_gdb_frame_parse_function_name_braces(const char **input, char **target)
 }
 
 int
-sr_gdb_frame_parse_function_name_template(const char **input, char **target)
+sr_gdb_frame_parse_function_name_braces(const char **input, char **target)
+{
+    return parse_function_name_braces(input, target, 1);
+}
+
+static int
+parse_function_name_template(const char **input, char **target, int depth)
 {
     const char *local_input = *input;
-    if (!sr_skip_char(&local_input, '<'))
+    if (depth > MAX_FUNCTION_NAME_DEPTH || !sr_skip_char(&local_input, '<'))
         return 0;
 
     GString *buf = g_string_new(NULL);
@@ -582,8 +595,8 @@ sr_gdb_frame_parse_function_name_template(const char **input, char **target)
          */
         if (0 < sr_gdb_frame_parse_function_name_template_args(&local_input, &namechunk) ||
             0 < sr_gdb_frame_parse_function_name_chunk(&local_input, true, &namechunk) ||
-            0 < sr_gdb_frame_parse_function_name_braces(&local_input, &namechunk) ||
-            0 < sr_gdb_frame_parse_function_name_template(&local_input, &namechunk))
+            0 < parse_function_name_braces(&local_input, &namechunk, depth + 1) ||
+            0 < parse_function_name_template(&local_input, &namechunk, depth + 1))
         {
             g_string_append(buf, namechunk);
             g_free(namechunk);
@@ -605,6 +618,12 @@ sr_gdb_frame_parse_function_name_template(const char **input, char **target)
     return total_char_count;
 }
 
+int
+sr_gdb_frame_parse_function_name_template(const char **input, char **target)
+{
+    return parse_function_name_template(input, target, 1);
+}
+
 bool
 sr_gdb_frame_parse_function_name(const char **input,
                                  char **function_name,
-- 
2.43.0


From 1494af875c69618ac1e4b8f41a8ea06e09c45de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:34 +0000
Subject: [PATCH 144/145] fix: locate functions of .eh_frame records with a
 64-bit length

The address of a PC-relative FDE is relative to its own place in the
section. With a 64-bit length that place is 20 bytes after the start of
the record (12 bytes of length and 8 of the CIE pointer), not 24.
---
 lib/elves.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/lib/elves.c b/lib/elves.c
index 8317ab3..ef45290 100644
--- a/lib/elves.c
+++ b/lib/elves.c
@@ -770,13 +770,12 @@ sr_elf_get_eh_frame(const char *filename,
 
             if (cie->pcrel)
             {
-                /* We need to determine how long is the 'length' (and
-                 * consequently CIE id) field of this FDE -- it can be
-                 * either 4 or 12 bytes long. */
-                uint64_t length = fde_read_address(section_data->d_buf + cfi_offset, 4);
-                uint64_t skip = (length == 0xffffffffUL ? 12 : 4);
+                /* The address is relative to its own place in the section,
+                 * which depends on how long are the 'length' and CIE pointer
+                 * fields of this FDE. */
+                uint64_t offset = cfi.fde.start - (const uint8_t *)section_data->d_buf;
                 uint64_t mask = (cie->ptr_len == 4 ? 0xffffffffUL : 0xffffffffffffffffUL);
-                initial_location += shdr.sh_addr - exec_base + cfi_offset + 2 * skip;
+                initial_location += shdr.sh_addr - exec_base + offset;
                 initial_location &= mask;
             }
             else
-- 
2.43.0


From d2182b08658e5148e506e805cbfcd0b0026b781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:26 +0000
Subject: [PATCH 145/145] fix: do not leak Python objects whose construction is
 refused

---
 python/py_cluster.c          |  3 +++
 python/py_gdb_frame.c        |  4 ++++
 python/py_gdb_stacktrace.c   |  5 +++++
 python/py_gdb_thread.c       |  4 ++++
 python/py_java_frame.c       |  4 ++++
 python/py_java_thread.c      |  4 ++++
 python/py_js_frame.c         |  4 ++++
 python/py_koops_frame.c      |  3 +++
 python/py_metrics.c          | 12 ++++++++----
 python/py_operating_system.c |  4 ++++
 python/py_python_frame.c     |  4 ++++
 python/py_ruby_frame.c       |  6 ++++++
 12 files changed, 53 insertions(+), 4 deletions(-)

diff --git a/python/py_cluster.c b/python/py_cluster.c
index d5d8f0c..3cfd04f 100644
--- a/python/py_cluster.c
+++ b/python/py_cluster.c
@@ -97,7 +97,10 @@ sr_py_dendrogram_new(PyTypeObject *object,
     struct sr_py_distances *distances;
 
     if (!PyArg_ParseTuple(args, "O!", &sr_py_distances_type, &distances))
+    {
+        PyObject_Del(o);
         return NULL;
+    }
 
     o->dendrogram = sr_distances_cluster_objects(distances->distances);
 
diff --git a/python/py_gdb_frame.c b/python/py_gdb_frame.c
index 647b509..04e8e81 100644
--- a/python/py_gdb_frame.c
+++ b/python/py_gdb_frame.c
@@ -184,7 +184,10 @@ sr_py_gdb_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -195,6 +198,7 @@ sr_py_gdb_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(fo);
             return NULL;
         }
     }
diff --git a/python/py_gdb_stacktrace.c b/python/py_gdb_stacktrace.c
index cf9508c..5bb16ec 100644
--- a/python/py_gdb_stacktrace.c
+++ b/python/py_gdb_stacktrace.c
@@ -279,7 +279,10 @@ sr_py_gdb_stacktrace_new(PyTypeObject *object,
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(bo);
         return NULL;
+    }
 
     bo->thread_type = &sr_py_gdb_thread_type;
     bo->frame_type = &sr_py_gdb_frame_type;
@@ -294,6 +297,8 @@ sr_py_gdb_stacktrace_new(PyTypeObject *object,
         if (!bo->stacktrace)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            Py_DECREF(Py_None);
+            PyObject_Del(bo);
             return NULL;
         }
         bo->threads = thread_linked_list_to_python_list(bo->stacktrace);
diff --git a/python/py_gdb_thread.c b/python/py_gdb_thread.c
index 8afc6f1..c4f5997 100644
--- a/python/py_gdb_thread.c
+++ b/python/py_gdb_thread.c
@@ -121,7 +121,10 @@ sr_py_gdb_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
     const char *str = NULL;
     int only_funs = 0;
     if (!PyArg_ParseTuple(args, "|si", &str, &only_funs))
+    {
+        PyObject_Del(to);
         return NULL;
+    }
 
     if (str)
     {
@@ -133,6 +136,7 @@ sr_py_gdb_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
             if (!to->thread)
             {
                 PyErr_SetString(PyExc_ValueError, location.message);
+                PyObject_Del(to);
                 return NULL;
             }
         }
diff --git a/python/py_java_frame.c b/python/py_java_frame.c
index ce9922c..e31af3b 100644
--- a/python/py_java_frame.c
+++ b/python/py_java_frame.c
@@ -133,7 +133,10 @@ sr_py_java_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -144,6 +147,7 @@ sr_py_java_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(fo);
             return NULL;
         }
     }
diff --git a/python/py_java_thread.c b/python/py_java_thread.c
index 49dc1d5..d36c41c 100644
--- a/python/py_java_thread.c
+++ b/python/py_java_thread.c
@@ -120,7 +120,10 @@ sr_py_java_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(to);
         return NULL;
+    }
 
     if (str)
     {
@@ -130,6 +133,7 @@ sr_py_java_thread_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!to->thread)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(to);
             return NULL;
         }
         to->frames = frames_to_python_list((struct sr_thread *)to->thread, to->frame_type);
diff --git a/python/py_js_frame.c b/python/py_js_frame.c
index d0581dc..9445e12 100644
--- a/python/py_js_frame.c
+++ b/python/py_js_frame.c
@@ -126,7 +126,10 @@ sr_py_js_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -137,6 +140,7 @@ sr_py_js_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(fo);
             return NULL;
         }
     }
diff --git a/python/py_koops_frame.c b/python/py_koops_frame.c
index f75c592..f4a15d6 100644
--- a/python/py_koops_frame.c
+++ b/python/py_koops_frame.c
@@ -145,7 +145,10 @@ sr_py_koops_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
diff --git a/python/py_metrics.c b/python/py_metrics.c
index 82a46f9..971a7e4 100644
--- a/python/py_metrics.c
+++ b/python/py_metrics.c
@@ -257,11 +257,11 @@ sr_py_distances_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         n = PyList_Size(thread_list);
 
         if (!validate_distance_params(m, n, dist_type))
-            return NULL;
+            goto error;
 
         struct sr_thread **threads = prepare_thread_array(thread_list, n);
         if (!threads)
-            return NULL;
+            goto error;
 
         o->distances = sr_threads_compare(threads, m, n, dist_type);
         free_thread_array(threads, n);
@@ -272,15 +272,19 @@ sr_py_distances_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (m < 1 || n < 2)
         {
             PyErr_SetString(PyExc_ValueError, "Distance matrix must have at least 1 row and 2 columns");
-            return NULL;
+            goto error;
         }
 
         o->distances = sr_distances_new(m, n);
     }
     else
-        return NULL;
+        goto error;
 
     return (PyObject *)o;
+
+error:
+    PyObject_Del(o);
+    return NULL;
 }
 
 /* destructor */
diff --git a/python/py_operating_system.c b/python/py_operating_system.c
index 9a9981c..d400468 100644
--- a/python/py_operating_system.c
+++ b/python/py_operating_system.c
@@ -111,7 +111,11 @@ sr_py_operating_system_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *name = NULL, *version = NULL, *arch = NULL;
     if (!PyArg_ParseTuple(args, "|sss", &name, &version, &arch))
+    {
+        sr_operating_system_free(os->operating_system);
+        PyObject_Del(os);
         return NULL;
+    }
 
     if (name)
         os->operating_system->name = g_strdup(name);
diff --git a/python/py_python_frame.c b/python/py_python_frame.c
index 5184bda..e29db8d 100644
--- a/python/py_python_frame.c
+++ b/python/py_python_frame.c
@@ -130,7 +130,10 @@ sr_py_python_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -141,6 +144,7 @@ sr_py_python_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            PyObject_Del(fo);
             return NULL;
         }
     }
diff --git a/python/py_ruby_frame.c b/python/py_ruby_frame.c
index e895047..044049d 100644
--- a/python/py_ruby_frame.c
+++ b/python/py_ruby_frame.c
@@ -130,7 +130,10 @@ sr_py_ruby_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
 
     const char *str = NULL;
     if (!PyArg_ParseTuple(args, "|s", &str))
+    {
+        PyObject_Del(fo);
         return NULL;
+    }
 
     if (str)
     {
@@ -141,6 +144,9 @@ sr_py_ruby_frame_new(PyTypeObject *object, PyObject *args, PyObject *kwds)
         if (!fo->frame)
         {
             PyErr_SetString(PyExc_ValueError, location.message);
+            /* Messages of Ruby frames are allocated. */
+            g_free((char *)location.message);
+            PyObject_Del(fo);
             return NULL;
         }
     }
-- 
2.43.0

