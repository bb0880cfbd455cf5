From 13e80c787121ff28feeb239e668dbc1a9e12dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 01/58] fix: coco_suite_get_instance_from_instance_index()
 returned function numbers

---
 src/coco_suite.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 8511109..af92471 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -401,7 +401,7 @@ size_t coco_suite_get_instance_from_instance_index(const coco_suite_t *suite,
     return 0; /* Never reached*/
   }
 
-  return suite->functions[instance_idx];
+  return suite->instances[instance_idx];
 }
 
 void coco_suite_free(coco_suite_t *suite) {
-- 
2.43.0


From 9602a5f03fa099603eb3a2306ef2a10742bd90e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 02/58] fix: coco_suite_decode_problem_index() left its outputs
 unset for a too large index

---
 src/coco_suite.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index af92471..4497f25 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -982,9 +982,9 @@ void coco_suite_decode_problem_index(const coco_suite_t *suite, const size_t pro
                        suite->number_of_dimensions) -
                           1) {
     coco_warning("coco_suite_decode_problem_index(): problem_index too large");
-    function_idx = 0;
-    instance_idx = 0;
-    dimension_idx = 0;
+    *function_idx = 0;
+    *instance_idx = 0;
+    *dimension_idx = 0;
     return;
   }
 
-- 
2.43.0


From 5afb5b992ee92cbe6032e75e3e2a0dce25ab4a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 03/58] fix: size the buffers for suite option values after the
 option strings

---
 src/coco_suite.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 4497f25..dd0403d 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -532,7 +532,7 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
     }
   }
 
-  instances = coco_allocate_string(COCO_MAX_INSTANCES);
+  instances = coco_allocate_string(strlen(suite_instance) + 1);
   if ((instances_found >= 0) && (parse_instances == 1)) {
     if (coco_options_read_values(suite_instance, "instances", instances) > 0) {
       result = coco_string_parse_ranges(instances, 1, 0, "instances",
@@ -746,7 +746,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
 
   /* Apply filter if any given by the suite_options */
   if ((suite_options) && (strlen(suite_options) > 0)) {
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if (coco_options_read_values(suite_options, "function_indices", option_string) > 0) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_functions, "function_indices",
                                          COCO_MAX_INSTANCES);
@@ -758,7 +758,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     }
     coco_free_memory(option_string);
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if (coco_options_read_values(suite_options, "instance_indices", option_string) > 0) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_instances, "instance_indices",
                                          COCO_MAX_INSTANCES);
@@ -784,7 +784,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
       }
     }
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if ((dim_idx_found >= 0) && (parce_dim_idx == 1) &&
         (coco_options_read_values(suite_options, "dimension_indices", option_string) > 0)) {
       indices = coco_string_parse_ranges(option_string, 1, suite->number_of_dimensions, "dimension_indices",
@@ -798,7 +798,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     }
     coco_free_memory(option_string);
 
-    option_string = coco_allocate_string(COCO_PATH_MAX + 1);
+    option_string = coco_allocate_string(strlen(suite_options) + 1);
     if ((dim_found >= 0) && (parce_dim == 1) &&
         (coco_options_read_values(suite_options, "dimensions", option_string) > 0)) {
       ptr = option_string;
-- 
2.43.0


From 17e04e5e45368ab97f8e8af17cb3f0049b14f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 04/58] fix: coco_suite() leaked the suite when rejecting the
 suite options

---
 src/coco_suite.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index dd0403d..3bc233e 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -806,6 +806,8 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
       while (*ptr != '\0') {
         if ((*ptr != ',') && !isdigit((unsigned char)*ptr)) {
           coco_warning("coco_suite(): 'dimensions' suite option ignored because of disallowed characters");
+          coco_free_memory(option_string);
+          coco_suite_free(suite);
           return NULL;
         } else
           ptr++;
@@ -854,6 +856,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
   if ((number_of_active_dimensions < 1) || (suite->number_of_dimensions < 1) || (suite->number_of_functions < 1) ||
       (suite->number_of_instances < 1)) {
     coco_warning("coco_suite(): the suite does not contain at least one dimension, function and instance");
+    coco_suite_free(suite);
     return NULL;
   }
 
-- 
2.43.0


From d2fbe89d5cabcfb814006791a187f06fd68d60ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 05/58] fix: ignore the second of two exclusive suite options
 also when the first starts the string

---
 src/coco_suite.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 3bc233e..076e9a0 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -510,7 +510,7 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
   if ((year_found < 0) && (instances_found < 0))
     return NULL;
 
-  if ((year_found > 0) && (instances_found > 0)) {
+  if ((year_found >= 0) && (instances_found >= 0)) {
     if (year_found < instances_found) {
       parse_instances = 0;
       coco_warning("coco_suite_get_instance_indices(): 'instances' suite option ignored because it follows 'year'");
@@ -773,7 +773,7 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     dim_found = coco_strfind(suite_options, "dimensions");
     dim_idx_found = coco_strfind(suite_options, "dimension_indices");
 
-    if ((dim_found > 0) && (dim_idx_found > 0)) {
+    if ((dim_found >= 0) && (dim_idx_found >= 0)) {
       if (dim_found < dim_idx_found) {
         parce_dim_idx = 0;
         coco_warning("coco_suite(): 'dimension_indices' suite option ignored because it follows 'dimensions'");
-- 
2.43.0


From c05a7cf6a562e31353cf16d6c4f6220339ae3759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 06/58] fix: do not use option strings as a format string

---
 src/coco_utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 4f31ef4..944b7d9 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -655,7 +655,7 @@ static coco_option_keys_t *coco_option_keys(const char *option_string) {
   if (keys) {
     for (i = 0; *(keys + i); i++) {
       if (i == 0)
-        cleaned_option_string = coco_strdupf(*(keys + i));
+        cleaned_option_string = coco_strdup(*(keys + i));
       else {
         string_pointer = cleaned_option_string;
         if (i % 2 == 0) {
-- 
2.43.0


From bb3e1ce25386449cb4a0b09056ed28725ff6b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 07/58] fix: coco_string_trim() passed a negative char to
 isspace()

---
 src/coco_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_string.c b/src/coco_string.c
index 9b54cc4..a8a44b1 100644
--- a/src/coco_string.c
+++ b/src/coco_string.c
@@ -449,7 +449,7 @@ static char *coco_string_trim(char *string) {
   endp = string + len;
 
   for (i = 0; ((i < len) && all_whitespaces); i++)
-    all_whitespaces = all_whitespaces && isspace(string[i]);
+    all_whitespaces = all_whitespaces && isspace((unsigned char)string[i]);
   if (all_whitespaces) {
     string[0] = '\0';
     return string;
-- 
2.43.0


From a8271494d3893906aeb08c5c8e3c6790c8951223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 08/58] fix: coco_problem_duplicate() leaked the nadir value of
 multi-objective problems

---
 src/coco_problem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index 751095e..6ae785f 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -248,7 +248,7 @@ static coco_problem_t *coco_problem_duplicate(const coco_problem_t *other) {
     }
 
   if (other->nadir_value) {
-    problem->nadir_value = coco_allocate_vector(problem->number_of_objectives);
+    /* nadir_value is already allocated by coco_problem_allocate */
     for (i = 0; i < problem->number_of_objectives; ++i) {
       problem->nadir_value[i] = other->nadir_value[i];
     }
-- 
2.43.0


From 9772de30cd65f4b253bbd3ec2bb02a3005d2629e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 09/58] fix: coco_get_biobj_problem() leaked the table of new
 instances

---
 src/suite_biobj_utilities.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index 6a899a2..88d6b3f 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -441,7 +441,9 @@ static coco_problem_t *coco_get_biobj_problem(const size_t function, const size_
         suite_biobj_get_new_instance((*new_inst_data), instance, instance1, all_bbob_functions, num_all_bbob_functions,
                                      sel_bbob_functions, num_sel_bbob_functions, dimensions, num_dimensions);
     if (must_free) {
+      suite_biobj_new_inst_free(*new_inst_data);
       coco_free_memory(*new_inst_data);
+      *new_inst_data = NULL;
     }
   }
 
-- 
2.43.0


From 3d34cbddcfbc48c2e5b71dd3017f383280abb159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 10/58] fix: logger_bbob used uninitialized values when no
 solution was evaluated before free

---
 src/logger_bbob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index b6eb134..16e9a80 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -699,6 +699,8 @@ static coco_problem_t *logger_bbob(coco_observer_t *observer, coco_problem_t *in
 
   logger_data->num_func_evaluations = 0;
   logger_data->num_cons_evaluations = 0;
+  logger_data->last_logged_eval_dat = 0;
+  logger_data->last_logged_eval_tdat = 0;
   logger_data->last_logged_eval_mdat = 0;
   /* logger_data->last_logged_evaluation = 0; */
 
-- 
2.43.0


From e05dd05c064852e6e137b5e4a06dd0cf588baaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 11/58] fix: coco_observer() crashed with observer_name NULL
 instead of returning NULL

---
 src/coco_observer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 727e134..883bae6 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -593,7 +593,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
                               "log_discrete_as_int"};
   additional_option_keys = NULL; /* To be set by the chosen observer */
 
-  if (0 == strcmp(observer_name, "no_observer")) {
+  if ((observer_name == NULL) || (0 == strcmp(observer_name, "no_observer"))) {
     return NULL;
   } else if (strlen(observer_name) == 0) {
     coco_warning("coco_observer(): An empty observer_name has no effect. To "
-- 
2.43.0


From 01ee2cc45bd91e1608946e3a738583032e82233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 12/58] fix: unparsable base_evaluation_triggers dereferenced a
 NULL pointer

---
 src/coco_observer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 883bae6..018969e 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -328,6 +328,11 @@ static coco_observer_evaluations_t *coco_observer_evaluations(const char *base_e
   /* Second trigger */
   evaluations->base_evaluations =
       coco_string_parse_ranges(base_evaluations, 1, 0, "base_evaluations", COCO_MAX_EVALS_TO_LOG);
+  if (evaluations->base_evaluations == NULL) {
+    coco_warning("coco_observer_evaluations(): base evaluations '%s' cannot be parsed, using '1,2,5'", base_evaluations);
+    evaluations->base_evaluations =
+        coco_string_parse_ranges("1,2,5", 1, 0, "base_evaluations", COCO_MAX_EVALS_TO_LOG);
+  }
   evaluations->dimension = dimension;
   evaluations->base_count =
       coco_count_numbers(evaluations->base_evaluations, COCO_MAX_EVALS_TO_LOG, "base_evaluations");
-- 
2.43.0


From 4d44bb27025e2663f79b3881e891d0c6dd293f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 13/58] fix: reject the unsuitable observer option
 number_target_triggers: 0

---
 src/coco_observer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 018969e..82eb2ac 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -637,7 +637,7 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
 
   number_target_triggers = 100;
   if (coco_options_read_size_t(observer_options, "number_target_triggers", &number_target_triggers) != 0) {
-    if (number_target_triggers < 0) {
+    if (number_target_triggers < 1) {
       coco_warning("coco_observer(): Unsuitable observer option value "
                    "(number_target_triggers: %lu) ignored",
                    number_target_triggers);
-- 
2.43.0


From c043d2bb30e68e044f78bb7dab01b247f8142fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 14/58] fix: coco_options_read_string() wrote long option
 values past the end of its buffer

---
 src/coco_utilities.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 944b7d9..346992f 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -824,11 +824,14 @@ static int coco_options_read_double(const char *options, const char *name, doubl
  * - the value corresponding to the given name needs to be a string - either a single word or multiple words
  * in double quotes
  *
+ * @note The pointer must be able to accommodate COCO_PATH_MAX + 1 characters, longer values are cut.
+ *
  * @return The number of successful assignments.
  */
 static int coco_options_read_string(const char *options, const char *name, char *pointer) {
 
   long i1, i2;
+  char format[64];
 
   if ((!options) || (strlen(options) == 0))
     return 0;
@@ -848,9 +851,10 @@ static int coco_options_read_string(const char *options, const char *name, char
 
   if (options[i2] == '\"') {
     /* The value starts with a quote: read everything between two quotes into a string */
-    return sscanf(&options[i2], "\"%[^\"]\"", pointer);
+    sprintf(format, "\"%%%lu[^\"]\"", (unsigned long)COCO_PATH_MAX);
   } else
-    return sscanf(&options[i2], "%s", pointer);
+    sprintf(format, "%%%lus", (unsigned long)COCO_PATH_MAX);
+  return sscanf(&options[i2], format, pointer);
 }
 
 /**
-- 
2.43.0


From 573a8aa8f97bdd153824d4cfd7acf57136a16745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 15/58] fix: coco_remove_directory() followed symbolic links
 and removed files outside of the directory

---
 src/coco_utilities.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 346992f..48281c5 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -406,12 +406,11 @@ int coco_remove_directory(const char *path) {
 
       buf = coco_strdupf("%s/%s", path, p->d_name);
       if (buf) {
-        if (coco_directory_exists(buf)) {
+        /* Buf is a file or a (not to be followed) symbolic link, delete it */
+        r2 = unlink(buf);
+        if ((r2 != 0) && coco_directory_exists(buf)) {
           /* Buf is a directory, recurse on it */
           r2 = coco_remove_directory(buf);
-        } else {
-          /* Buf is a file, delete it */
-          r2 = unlink(buf);
         }
       }
       coco_free_memory(buf);
-- 
2.43.0


From b7a85323f951424d83b2169f8d231a61ac21b3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 16/58] fix: coco_join_path() checked the length of all but the
 first component against the base path only

---
 src/coco_utilities.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 48281c5..c42d707 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -106,6 +106,7 @@ static void coco_join_path(char *path, const size_t path_max_length, ...) {
   va_start(args, path_max_length);
   while (NULL != (path_component = va_arg(args, char *))) {
     size_t component_length = strlen(path_component);
+    path_length = strlen(path);
     if (path_length + path_separator_length + component_length >= path_max_length) {
       coco_error("coco_join_path() failed because the ${path} is too short.");
       return; /* never reached */
-- 
2.43.0


From c7ae620a2f2d4522a68395446bafd2a3a618cf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:02 +0000
Subject: [PATCH 17/58] fix: coco_strdupf() wrote long strings past the end of
 its static buffer

---
 src/coco_string.c | 46 ++++++++++++++--------------------------------
 1 file changed, 14 insertions(+), 32 deletions(-)

diff --git a/src/coco_string.c b/src/coco_string.c
index a8a44b1..473a13c 100644
--- a/src/coco_string.c
+++ b/src/coco_string.c
@@ -29,44 +29,26 @@ static char *coco_strdup(const char *string) {
   return duplicate;
 }
 
-/**
- * @brief The length of the buffer used in the coco_vstrdupf function.
- *
- * @note This should be handled differently!
- */
-#define COCO_VSTRDUPF_BUFLEN 444
-
 /**
  * @brief Formatted string duplication, with va_list arguments.
  */
 static char *coco_vstrdupf(const char *str, va_list args) {
-  static char buf[COCO_VSTRDUPF_BUFLEN];
-  long written;
-  /* apparently args can only be used once, therefore
-   * len = vsnprintf(NULL, 0, str, args) to find out the
-   * length does not work. Therefore we use a buffer
-   * which limits the max length. Longer strings should
-   * never appear anyway, so this is rather a non-issue. */
-
-#if 0
-  written = vsnprintf(buf, COCO_VSTRDUPF_BUFLEN - 2, str, args);
-  if (written < 0)
-  coco_error("coco_vstrdupf(): vsnprintf failed on '%s'", str);
-#else /* less safe alternative, if vsnprintf is not available */
-  assert(strlen(str) < COCO_VSTRDUPF_BUFLEN / 2 - 2);
-  if (strlen(str) >= COCO_VSTRDUPF_BUFLEN / 2 - 2)
-    coco_error("coco_vstrdupf(): string is too long");
-  written = vsprintf(buf, str, args);
-  if (written < 0)
-    coco_error("coco_vstrdupf(): vsprintf failed on '%s'", str);
-#endif
-  if (written > COCO_VSTRDUPF_BUFLEN - 3)
-    coco_error("coco_vstrdupf(): A suspiciously long string is tried to being duplicated '%s'", buf);
-  return coco_strdup(buf);
+  char *buf;
+  int length;
+  va_list args_copy;
+
+  /* args can only be used once */
+  va_copy(args_copy, args);
+  length = vsnprintf(NULL, 0, str, args_copy);
+  va_end(args_copy);
+  if (length < 0)
+    coco_error("coco_vstrdupf(): vsnprintf failed on '%s'", str);
+
+  buf = coco_allocate_string((size_t)length + 1);
+  vsnprintf(buf, (size_t)length + 1, str, args);
+  return buf;
 }
 
-#undef COCO_VSTRDUPF_BUFLEN
-
 /**
  * Optional arguments are used like in sprintf.
  */
-- 
2.43.0


From e1cc20f2c065c85f721c9b02df3b42f0ae03b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:53 +0000
Subject: [PATCH 18/58] fix: evaluating a feasible point next to the optimum of
 a constrained problem aborted by round-off

The sanity check that no feasible point undercuts the optimal value allowed for an
absolute error of 1e-13 only, which is below the resolution of values around 1000.
---
 src/coco_problem.c               | 2 +-
 src/transform_obj_scale.c        | 2 +-
 src/transform_obj_shift.c        | 2 +-
 src/transform_vars_affine.c      | 2 +-
 src/transform_vars_asymmetric.c  | 2 +-
 src/transform_vars_enforce_box.c | 2 +-
 src/transform_vars_oscillate.c   | 2 +-
 src/transform_vars_shift.c       | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index 6ae785f..1fd2472 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -908,7 +908,7 @@ static void coco_problem_stacked_evaluate_function(coco_problem_t *problem, cons
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   }
 }
 
diff --git a/src/transform_obj_scale.c b/src/transform_obj_scale.c
index 9b76e76..f61d3f0 100644
--- a/src/transform_obj_scale.c
+++ b/src/transform_obj_scale.c
@@ -40,7 +40,7 @@ static void transform_obj_scale_evaluate_function(coco_problem_t *problem, const
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
diff --git a/src/transform_obj_shift.c b/src/transform_obj_shift.c
index d2c8e15..38d21fc 100644
--- a/src/transform_obj_shift.c
+++ b/src/transform_obj_shift.c
@@ -40,7 +40,7 @@ static void transform_obj_shift_evaluate_function(coco_problem_t *problem, const
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
diff --git a/src/transform_vars_affine.c b/src/transform_vars_affine.c
index c9b72c4..a9e9f8c 100644
--- a/src/transform_vars_affine.c
+++ b/src/transform_vars_affine.c
@@ -57,7 +57,7 @@ static void transform_vars_affine_evaluate_function(coco_problem_t *problem, con
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
diff --git a/src/transform_vars_asymmetric.c b/src/transform_vars_asymmetric.c
index da7cd9c..ccf9d6c 100644
--- a/src/transform_vars_asymmetric.c
+++ b/src/transform_vars_asymmetric.c
@@ -99,7 +99,7 @@ static void transform_vars_asymmetric_evaluate_function(coco_problem_t *problem,
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
diff --git a/src/transform_vars_enforce_box.c b/src/transform_vars_enforce_box.c
index 9768598..d52d473 100644
--- a/src/transform_vars_enforce_box.c
+++ b/src/transform_vars_enforce_box.c
@@ -39,7 +39,7 @@ static void transform_vars_enforce_box_evaluate_function(coco_problem_t *problem
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible) {
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
     }
   } else {
     assert(y[0] + 1e-13 >= problem->best_value[0]);
diff --git a/src/transform_vars_oscillate.c b/src/transform_vars_oscillate.c
index 39f33ef..6254fce 100644
--- a/src/transform_vars_oscillate.c
+++ b/src/transform_vars_oscillate.c
@@ -100,7 +100,7 @@ static void transform_vars_oscillate_evaluate_function(coco_problem_t *problem,
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
diff --git a/src/transform_vars_shift.c b/src/transform_vars_shift.c
index b095ea1..188eb7c 100644
--- a/src/transform_vars_shift.c
+++ b/src/transform_vars_shift.c
@@ -45,7 +45,7 @@ static void transform_vars_shift_evaluate_function(coco_problem_t *problem, cons
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-13 >= problem->best_value[0]);
+      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
     assert(y[0] + 1e-13 >= problem->best_value[0]);
 }
-- 
2.43.0


From 34aa9d63a4f6ef96b8db916ffa7d2e7e803191bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:29 +0000
Subject: [PATCH 19/58] fix: logging a feasible point next to the optimum of a
 constrained problem aborted by round-off

The sanity check of the single-objective logger allowed for an absolute error of 1e-13 only,
which is below the resolution of values around 1000.
---
 src/logger_bbob.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 16e9a80..38d463c 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -400,7 +400,7 @@ static void logger_bbob_evaluate(coco_problem_t *problem, const double *x, doubl
   /* Do sanity check */
   if ((problem->is_opt_known) && (is_feasible)) {
     /* Infeasible solutions can have much better y0 values */
-    assert(y_logged + 1e-13 >= logger->optimal_value);
+    assert(y_logged + 1e-10 * (1 + fabs(logger->optimal_value)) >= logger->optimal_value);
   }
 
   /* Evaluate the constraints */
@@ -499,7 +499,7 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
   /* Do sanity check */
   if ((problem->is_opt_known) && (is_feasible)) {
     /* Infeasible solutions can have much better y0 values */
-    assert(y_logged + 1e-13 >= logger->optimal_value);
+    assert(y_logged + 1e-10 * (1 + fabs(logger->optimal_value)) >= logger->optimal_value);
   }
 
   /* Evaluate the constraints */
-- 
2.43.0


From 36b0dbdad0dc5954cd9d0c052e1032305f2af36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:29 +0000
Subject: [PATCH 20/58] fix: recommendations on noisy problems were logged with
 their noisy instead of their noise-free value

The columns of the .mdat file are declared as noise-free fitness, like those of the other data files.
---
 src/logger_bbob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 38d463c..f58ba57 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -490,6 +490,8 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
   coco_evaluate_function(inner_problem, x, y);
 
   y_logged = y[0];
+  if (inner_problem->is_noisy == 1)
+    y_logged = inner_problem->last_noise_free_values[0];
   if (coco_is_nan(y_logged))
     y_logged = NAN_FOR_LOGGING;
   else if (coco_is_inf(y_logged))
-- 
2.43.0


From 2a61b587964df2efd3aebaac216b1d7210b54bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:05 +0000
Subject: [PATCH 21/58] fix: the old single-objective logger aborted by
 round-off next to the optimum as well

---
 src/logger_bbob_old.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logger_bbob_old.c b/src/logger_bbob_old.c
index 491edd3..fbdce4b 100644
--- a/src/logger_bbob_old.c
+++ b/src/logger_bbob_old.c
@@ -436,7 +436,7 @@ static void logger_bbob_old_evaluate(coco_problem_t *problem, const double *x, d
     y_logged = fvalue_logged_for_infinite;
   /* do sanity check */
   if (is_feasible) /* infeasible solutions can have much better y0 values */
-    assert(y_logged + 1e-13 >= logger->optimal_fvalue);
+    assert(y_logged + 1e-10 * (1 + fabs(logger->optimal_fvalue)) >= logger->optimal_fvalue);
 
   /* Evaluate the constraints */
   if (problem->number_of_constraints > 0) {
-- 
2.43.0


From 0048c8443db92379070c926b325943c6577df262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:35 +0000
Subject: [PATCH 22/58] fix: a linear target precision of 1e-12 or less aborted
 at the first logged evaluation

---
 src/coco_observer.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 82eb2ac..1f0e430 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -657,9 +657,10 @@ coco_observer_t *coco_observer(const char *observer_name, const char *observer_o
 
   lin_target_precision = 1e-5;
   if (coco_options_read_double(observer_options, "lin_target_precision", &lin_target_precision) != 0) {
-    if (lin_target_precision <= 0) {
+    /* Rounding to linear targets needs a precision larger than 1e-12 */
+    if (lin_target_precision <= 1e-12) {
       coco_warning("coco_observer(): Unsuitable observer option value "
-                   "(lin_target_precision: %f) ignored",
+                   "(lin_target_precision: %g) ignored",
                    lin_target_precision);
       lin_target_precision = 1e-5;
     }
-- 
2.43.0


From d0d1f03d52dee59565d1c90247c44da142d54d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:43 +0000
Subject: [PATCH 23/58] fix: negative values of integer variables were logged
 rounded towards zero instead of to the nearest integer

---
 src/coco_utilities.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index c42d707..d49da62 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -982,7 +982,7 @@ static int coco_double_to_int(const double number) {
     coco_error("coco_double_to_int(): Cannot cast %f to the nearest integer, min %d allowed", number, INT_MIN);
     return -1; /* Never reached */
   } else {
-    return (int)(number + 0.5);
+    return (int)coco_double_round(number);
   }
 }
 
-- 
2.43.0


From 257b14a795f50a50009d200ccf5e351d0fd2593b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:45 +0000
Subject: [PATCH 24/58] fix: an infinite function value was taken for the
 smallest logarithmic target by the toy logger

---
 src/coco_observer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/coco_observer.c b/src/coco_observer.c
index 1f0e430..7cbd3d0 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -134,7 +134,8 @@ static int coco_observer_log_targets_trigger(coco_observer_log_targets_t *log_ta
   int current_exponent = 0;
   int adjusted_exponent = 0;
 
-  if (log_targets == NULL) {
+  /* Values that are not finite do not reach any target */
+  if ((log_targets == NULL) || coco_is_nan(given_value) || coco_is_inf(given_value)) {
     return 0;
   }
 
-- 
2.43.0


From 4002ee42ce85dfabcadaff9dd45b9d9bebbe1bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:32 +0000
Subject: [PATCH 25/58] fix: recommending a solution after the bi-objective
 observer was freed dereferenced a NULL pointer

---
 src/logger_biobj.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index 1e40963..d085374 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -803,13 +803,14 @@ static void logger_biobj_recommend(coco_problem_t *problem, const double *x) {
 
   logger_biobj_data_t *logger;
   coco_problem_t *inner_problem;
-  observer_biobj_data_t *observer_data;
+  observer_biobj_data_t *observer_data = NULL;
   size_t i, j;
   double *y = NULL;
   double *constraints = NULL;
 
   logger = (logger_biobj_data_t *)coco_problem_transformed_get_data(problem);
-  observer_data = (observer_biobj_data_t *)(((coco_observer_t *)logger->observer)->data);
+  if (logger->observer != NULL) /* The observer might have been freed already */
+    observer_data = (observer_biobj_data_t *)(((coco_observer_t *)logger->observer)->data);
   inner_problem = coco_problem_transformed_get_inner_problem(problem);
 
   /* Evaluate the objectives */
@@ -825,7 +826,7 @@ static void logger_biobj_recommend(coco_problem_t *problem, const double *x) {
 
   /* If this is the first call to the recommend function (on any problem), warn about the large 
   resulting files */
-  if (observer_data->large_mdat_file_warning == 0) {
+  if ((observer_data != NULL) && (observer_data->large_mdat_file_warning == 0)) {
     coco_warning("Using the logger_biobj_recommend function may result in the creation of large "
                  "mdat files since every recommended solution is logged");
     observer_data->large_mdat_file_warning = 1;
-- 
2.43.0


From 719ae8511e20f0edca137c42e0ea0d19cfbdbaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:42 +0000
Subject: [PATCH 26/58] fix: an option string of nothing but quotation marks
 dereferenced a NULL pointer

---
 src/coco_utilities.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index d49da62..39aaff4 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -675,6 +675,11 @@ static coco_option_keys_t *coco_option_keys(const char *option_string) {
   }
   coco_free_memory(keys);
 
+  /* There are no keys if the string contained nothing but quotation marks */
+  if (cleaned_option_string == NULL) {
+    return NULL;
+  }
+
   /* Split the options w.r.t ':' */
   keys = coco_string_split(cleaned_option_string, ':');
 
-- 
2.43.0


From 20633fbc253aa53002f157c09a4a35096be7cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:23 +0000
Subject: [PATCH 27/58] fix: a bbob-biobj-mixint problem of an instance outside
 of the table aborted in dimensions above 40

---
 src/suite_biobj_utilities.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/suite_biobj_utilities.c b/src/suite_biobj_utilities.c
index 88d6b3f..292dac5 100644
--- a/src/suite_biobj_utilities.c
+++ b/src/suite_biobj_utilities.c
@@ -12,6 +12,7 @@
 
 #include "coco.h"
 #include "suite_biobj_best_values_hyp.c"
+#include "suite_largescale.c"
 
 /**
  * @brief The array of triples biobj_instance - problem1_instance - problem2_instance connecting bi-objective
@@ -71,9 +72,15 @@ static int suite_biobj_check_inst_consistency(const size_t dimension, size_t fun
   double norm;
   double *smallest_values_of_interest, *largest_values_of_interest;
   const double apart_enough = 1e-4;
+  const size_t dim_large_scale = 50; /* The bi-objective suites use large-scale functions for dimensions over 50 */
 
-  problem1 = coco_get_bbob_problem(function1, dimension, instance1);
-  problem2 = coco_get_bbob_problem(function2, dimension, instance2);
+  if (dimension < dim_large_scale) {
+    problem1 = coco_get_bbob_problem(function1, dimension, instance1);
+    problem2 = coco_get_bbob_problem(function2, dimension, instance2);
+  } else {
+    problem1 = coco_get_largescale_problem(function1, dimension, instance1);
+    problem2 = coco_get_largescale_problem(function2, dimension, instance2);
+  }
 
   /* Set smallest and largest values of interest to some value (not important which, it just needs to be a
    * vector of doubles of the right dimension) */
-- 
2.43.0


From 99c985d73ba8700c2c19b8cdf4604637aaa44fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:35 +0000
Subject: [PATCH 28/58] fix: an observed problem whose optimum was looked up
 was no longer tainted when its observer was removed

---
 src/coco_problem.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index 1fd2472..52908ec 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -622,6 +622,9 @@ static size_t coco_problem_get_suite_dep_instance(const coco_problem_t *problem)
 }
 /**@}*/
 
+static void coco_problem_transformed_free(coco_problem_t *problem);
+static coco_problem_t *coco_problem_transformed_get_inner_problem(const coco_problem_t *problem);
+
 /**
  * Copies problem->best_parameter into best_parameter and returns 1 if not null,
  * otherwise returns 0. Only works for single objective problems.
@@ -639,13 +642,17 @@ int coco_problem_get_best_parameter(coco_problem_t *problem, double *best_parame
     return 0;
   }
 
-  // No more benchmarking on this problem!
-  problem->is_tainted = 1;
-
   for (i = 0; i < problem->number_of_variables; ++i) {
     best_parameter[i] = problem->best_parameter[i];
   }
 
+  // No more benchmarking on this problem, whether or not an observer is added to or removed from it!
+  problem->is_tainted = 1;
+  while (problem->problem_free_function == coco_problem_transformed_free) {
+    problem = coco_problem_transformed_get_inner_problem(problem);
+    problem->is_tainted = 1;
+  }
+
   return 1;
 }
 
-- 
2.43.0


From 6ed5daf86cc58b6d3a3ca848b3aa8b327b1ed768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:30 +0000
Subject: [PATCH 29/58] fix: coco_random_uniform() returned 1 for some seeds
 instead of a value in [0, 1)

---
 src/coco_random.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/coco_random.c b/src/coco_random.c
index a6be159..f6b4e0b 100644
--- a/src/coco_random.c
+++ b/src/coco_random.c
@@ -55,6 +55,9 @@ coco_random_state_t *coco_random_new(uint32_t seed) {
   for (i = 0; i < COCO_LONG_LAG; ++i) {
     /* Uses uint64_t to silence the compiler ("shift count negative or too big, undefined behavior" warning) */
     state->x[i] = ((double)seed) / (double)(((uint64_t)1UL << 32) - 1);
+    /* All values need to be smaller than 1, as in coco_random_generate() */
+    if (state->x[i] >= 1.0)
+      state->x[i] -= 1.0;
     /* Advance seed based on simple RNG from TAOCP */
     seed = (uint32_t)1812433253UL * (seed ^ (seed >> 30)) + ((uint32_t)i + 1);
   }
-- 
2.43.0


From 3450c2548b5177c106879370a0fb89859ccda164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:30 +0000
Subject: [PATCH 30/58] fix: coco_random_normal() returned an infinite value
 for some seeds

---
 src/coco_random.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/coco_random.c b/src/coco_random.c
index f6b4e0b..8bf3273 100644
--- a/src/coco_random.c
+++ b/src/coco_random.c
@@ -84,8 +84,11 @@ double coco_random_uniform(coco_random_state_t *state) {
 double coco_random_normal(coco_random_state_t *state) {
   double normal;
 #ifdef COCO_NORMAL_POLAR
-  const double u1 = coco_random_uniform(state);
+  double u1 = coco_random_uniform(state);
   const double u2 = coco_random_uniform(state);
+  /* Zero is a possible value, but has no logarithm (same replacement as in the legacy generator) */
+  if (u1 == 0.0)
+    u1 = 1e-99;
   normal = sqrt(-2 * log(u1)) * cos(2 * coco_pi * u2);
 #else
   int i;
-- 
2.43.0


From 8e2cbf743116f4a6faca8da480909a7216b85288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:39:40 +0000
Subject: [PATCH 31/58] fix: coco_remove_directory() followed a symbolic link
 which it could not delete

---
 src/coco_utilities.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index 39aaff4..effcd5e 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -407,9 +407,11 @@ int coco_remove_directory(const char *path) {
 
       buf = coco_strdupf("%s/%s", path, p->d_name);
       if (buf) {
-        /* Buf is a file or a (not to be followed) symbolic link, delete it */
+        /* Delete buf if it is a file, a (not to be followed) symbolic link or an empty directory */
         r2 = unlink(buf);
-        if ((r2 != 0) && coco_directory_exists(buf)) {
+        if (r2 != 0)
+          r2 = rmdir(buf);
+        if ((r2 != 0) && ((errno == ENOTEMPTY) || (errno == EEXIST))) {
           /* Buf is a directory, recurse on it */
           r2 = coco_remove_directory(buf);
         }
-- 
2.43.0


From bb1ca39f6b703adb3a77b13b610e78efe3d211c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:14 +0000
Subject: [PATCH 32/58] fix: a result folder given with a trailing slash was
 created inside of the existing one

---
 src/coco_utilities.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index effcd5e..b41d5a5 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -300,6 +300,11 @@ static void coco_create_unique_directory(char **path) {
 
   int counter = 1;
   char *new_path;
+  size_t len = strlen(*path);
+
+  /* Remove possible trailing (back)slashes, the unique directory is not to be created inside of an existing one */
+  while ((len > 1) && ((*path)[len - 1] == coco_path_separator[0]))
+    (*path)[--len] = 0;
 
   if (coco_create_directory(*path) == 0) {
     /* Directory created */
-- 
2.43.0


From ad9372663a76f1d7a5b9bda79ce07801cbdab847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:38 +0000
Subject: [PATCH 33/58] fix: option names were also found inside of other names
 and values

---
 src/coco_suite.c     |  8 ++++----
 src/coco_utilities.c | 35 ++++++++++++++++++++++++++++++++---
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index 076e9a0..fa3f4a5 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -504,8 +504,8 @@ static size_t *coco_suite_get_instance_indices(const coco_suite_t *suite,
   if (suite_instance == NULL)
     return NULL;
 
-  year_found = coco_strfind(suite_instance, "year");
-  instances_found = coco_strfind(suite_instance, "instances");
+  year_found = coco_options_find(suite_instance, "year");
+  instances_found = coco_options_find(suite_instance, "instances");
 
   if ((year_found < 0) && (instances_found < 0))
     return NULL;
@@ -770,8 +770,8 @@ coco_suite_t *coco_suite(const char *suite_name, const char *suite_instance,
     }
     coco_free_memory(option_string);
 
-    dim_found = coco_strfind(suite_options, "dimensions");
-    dim_idx_found = coco_strfind(suite_options, "dimension_indices");
+    dim_found = coco_options_find(suite_options, "dimensions");
+    dim_idx_found = coco_options_find(suite_options, "dimension_indices");
 
     if ((dim_found >= 0) && (dim_idx_found >= 0)) {
       if (dim_found < dim_idx_found) {
diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index b41d5a5..f414149 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -757,6 +757,35 @@ static char *coco_option_keys_get_output_string(const coco_option_keys_t *option
   return string;
 }
 
+/**
+ * @brief Returns the position of the option with the given name in options (the start of its name) or -1 if
+ * there is no such option.
+ *
+ * The name needs to be followed by a colon (spaces are optional). Parts of longer names as well as anything
+ * between two quotation marks are disregarded.
+ */
+static long coco_options_find(const char *options, const char *name) {
+
+  size_t i, end;
+  int quoted = 0;
+
+  for (i = 0; options[i] != '\0'; i++) {
+    if (options[i] == '\"') {
+      quoted = !quoted && (strchr(&options[i + 1], '\"') != NULL);
+    } else if (!quoted && (strncmp(&options[i], name, strlen(name)) == 0)) {
+      if ((i > 0) && (isalnum((unsigned char)options[i - 1]) || options[i - 1] == '_' || options[i - 1] == '-'))
+        continue;
+      end = i + strlen(name);
+      while (isspace((unsigned char)options[end]))
+        end++;
+      if (options[end] == ':')
+        return (long)i;
+    }
+  }
+
+  return -1;
+}
+
 /**
  * @brief Parses options in the form "name1: value1 name2: value2".
  *
@@ -773,7 +802,7 @@ static int coco_options_read(const char *options, const char *name, const char *
   if ((!options) || (strlen(options) == 0))
     return 0;
 
-  i1 = coco_strfind(options, name);
+  i1 = coco_options_find(options, name);
   if (i1 < 0)
     return 0;
   i2 = i1 + coco_strfind(&options[i1], ":") + 1;
@@ -848,7 +877,7 @@ static int coco_options_read_string(const char *options, const char *name, char
   if ((!options) || (strlen(options) == 0))
     return 0;
 
-  i1 = coco_strfind(options, name);
+  i1 = coco_options_find(options, name);
   if (i1 < 0)
     return 0;
   i2 = i1 + coco_strfind(&options[i1], ":") + 1;
@@ -889,7 +918,7 @@ static int coco_options_read_values(const char *options, const char *name, char
   if ((!options) || (strlen(options) == 0))
     return 0;
 
-  i1 = coco_strfind(options, name);
+  i1 = coco_options_find(options, name);
   if (i1 < 0)
     return 0;
   i2 = i1 + coco_strfind(&options[i1], ":") + 1;
-- 
2.43.0


From fb2ee6a4ab6d73bcfe31abafc0d673b41945f073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:38 +0000
Subject: [PATCH 34/58] fix: coco_observer_signal_restart() wrote into the
 wrong object unless the logger of this observer was outermost

---
 src/coco_internal.h  |  5 +++--
 src/coco_observer.c  | 16 +++++++++++++---
 src/logger_bbob.c    |  7 ++++++-
 src/logger_biobj.c   |  7 ++++++-
 src/observer_bbob.c  |  2 +-
 src/observer_biobj.c |  2 +-
 6 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/coco_internal.h b/src/coco_internal.h
index 0fb934b..ce57542 100644
--- a/src/coco_internal.h
+++ b/src/coco_internal.h
@@ -53,9 +53,10 @@ typedef void (*coco_recommend_function_t)(coco_problem_t *problem, const double
 /**
  * @brief The restart function type.
  *
- * This is a template for functions that signal an algorithm restart for the problem.
+ * This is a template for functions that signal an algorithm restart for the problem if it is the logger of
+ * the observer (and return 1) and that do nothing otherwise (and return 0).
  */
-typedef void (*coco_restart_function_t)(coco_problem_t *problem);
+typedef int (*coco_restart_function_t)(const coco_observer_t *observer, coco_problem_t *problem);
 
 /**
  * @brief The allocate logger function type.
diff --git a/src/coco_observer.c b/src/coco_observer.c
index 7cbd3d0..c68037a 100644
--- a/src/coco_observer.c
+++ b/src/coco_observer.c
@@ -901,10 +901,20 @@ void coco_observer_signal_restart(coco_observer_t *observer, coco_problem_t *pro
     return;
   }
 
-  if (observer->restart_function == NULL)
+  if (observer->restart_function == NULL) {
     coco_info("coco_observer_signal_restart(): Restart signaling not supported "
               "for observer %s",
               observer->observer_name);
-  else
-    observer->restart_function(problem);
+    return;
+  }
+
+  /* Find the logger of this observer, which is not necessarily the outermost one */
+  while ((problem != NULL) && (problem->problem_free_function == coco_problem_transformed_free)) {
+    if ((((coco_problem_transformed_data_t *)problem->data)->data_free_function == observer->logger_free_function) &&
+        (observer->restart_function(observer, problem)))
+      return;
+    problem = coco_problem_transformed_get_inner_problem(problem);
+  }
+
+  coco_warning("coco_observer_signal_restart(): The problem is not being observed. (another observer)");
 }
diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index f58ba57..58cac86 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -654,13 +654,18 @@ static void logger_bbob_data_nullify_observer(void *stuff) {
 /**
  * @brief Saves the information that the algorithm has restarted
  */
-static void logger_bbob_signal_restart(coco_problem_t *problem) {
+static int logger_bbob_signal_restart(const coco_observer_t *observer, coco_problem_t *problem) {
 
   logger_bbob_data_t *logger = (logger_bbob_data_t *)coco_problem_transformed_get_data(problem);
   assert(logger);
 
+  if (logger->observer != observer)
+    return 0;
+
   if (logger->num_func_evaluations > 0)
     logger->algorithm_restarted = 1;
+
+  return 1;
 }
 
 static coco_problem_t *logger_bbob(coco_observer_t *observer, coco_problem_t *inner_problem) {
diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index d085374..5ee1936 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -1001,13 +1001,18 @@ static void logger_biobj_data_nullify_observer(void *stuff) {
 /**
  * @brief Saves the information that the algorithm has restarted
  */
-static void logger_biobj_signal_restart(coco_problem_t *problem) {
+static int logger_biobj_signal_restart(const coco_observer_t *observer, coco_problem_t *problem) {
 
   logger_biobj_data_t *logger = (logger_biobj_data_t *)coco_problem_transformed_get_data(problem);
   assert(logger);
 
+  if (logger->observer != observer)
+    return 0;
+
   if (logger->num_func_evaluations > 0)
     logger->algorithm_restarted = 1;
+
+  return 1;
 }
 
 /**
diff --git a/src/observer_bbob.c b/src/observer_bbob.c
index 7cbcffd..f717d84 100644
--- a/src/observer_bbob.c
+++ b/src/observer_bbob.c
@@ -8,7 +8,7 @@
 
 static coco_problem_t *logger_bbob(coco_observer_t *observer, coco_problem_t *problem);
 static void logger_bbob_free(void *logger);
-static void logger_bbob_signal_restart(coco_problem_t *problem);
+static int logger_bbob_signal_restart(const coco_observer_t *observer, coco_problem_t *problem);
 static void logger_bbob_data_nullify_observer(void *logger_data);
 
 /**
diff --git a/src/observer_biobj.c b/src/observer_biobj.c
index b0fe9a8..87e95a0 100644
--- a/src/observer_biobj.c
+++ b/src/observer_biobj.c
@@ -17,7 +17,7 @@ typedef enum { LOG_VARS_NEVER, LOG_VARS_LOW_DIM, LOG_VARS_ALWAYS } observer_biob
 
 static coco_problem_t *logger_biobj(coco_observer_t *observer, coco_problem_t *problem);
 static void logger_biobj_free(void *logger);
-static void logger_biobj_signal_restart(coco_problem_t *problem);
+static int logger_biobj_signal_restart(const coco_observer_t *observer, coco_problem_t *problem);
 static void logger_biobj_data_nullify_observer(void *logger_data);
 
 /**
-- 
2.43.0


From 4602efb20c685f6f6f4dad5bd04f203817cc7ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:38 +0000
Subject: [PATCH 35/58] fix: coco_logger_biobj_feed_solution() read the wrong
 object if the problem was not observed

---
 src/logger_biobj.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index 5ee1936..8410f8f 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -877,6 +877,9 @@ int coco_logger_biobj_feed_solution(coco_problem_t *problem, const size_t evalua
   size_t i;
 
   assert(problem != NULL);
+  if ((problem->problem_free_function != coco_problem_transformed_free) ||
+      (((coco_problem_transformed_data_t *)problem->data)->data_free_function != logger_biobj_free))
+    coco_error("coco_logger_biobj_feed_solution(): The problem is not being observed by a biobjective observer");
   logger = (logger_biobj_data_t *)coco_problem_transformed_get_data(problem);
   inner_problem = coco_problem_transformed_get_inner_problem(problem);
   assert(logger->log_nondom_mode == LOG_NONDOM_READ);
-- 
2.43.0


From 1eb8bcdfb078d5b25be8b3271091d1ee285999a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:38 +0000
Subject: [PATCH 36/58] fix: the rotation matrix overflowed the stack in
 dimension 45 and above

---
 src/suite_bbob_legacy_code.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/suite_bbob_legacy_code.c b/src/suite_bbob_legacy_code.c
index a10aeb8..4ccc6c7 100644
--- a/src/suite_bbob_legacy_code.c
+++ b/src/suite_bbob_legacy_code.c
@@ -130,7 +130,8 @@ static void bbob2009_compute_rotation(double **B, const long seed, const size_t
   double gvect[2000];
   size_t i, j, k; /* Loop over pairs of column vectors. */
 
-  assert(DIM * DIM < 2000);
+  if (DIM * DIM >= 2000)
+    coco_error("bbob2009_compute_rotation(): cannot compute a rotation matrix in %luD", (unsigned long)DIM);
 
   bbob2009_gauss(gvect, DIM * DIM, seed);
   bbob2009_reshape(B, gvect, DIM, DIM);
-- 
2.43.0


From 754c8c9dc908f2a867dba8ef4a3a62615cd5fb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:38 +0000
Subject: [PATCH 37/58] fix: properties of a freed Python Problem crashed the
 interpreter

---
 build/python/src/cocoex/interface.pyx | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index f2adcbc..65bb22e 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -488,6 +488,8 @@ cdef class Observer:
     def signal_restart(self, problem: Problem):
         """Signal a restart on `problem: Problem` by calling `coco_observer_signal_restart`.
         """
+        if problem.problem is NULL:
+            raise InvalidProblemException()
         coco_observer_signal_restart(self._observer, problem.problem)
 
     @property
@@ -723,6 +725,8 @@ cdef class Problem:
     @property
     def initial_solution(self):
         """return feasible initial solution"""
+        if self.problem is NULL:
+            raise InvalidProblemException()
         coco_problem_get_initial_solution(self.problem,
                                           <double *>np.PyArray_DATA(self.x_initial))
         return np.array(self.x_initial, copy=True)
@@ -771,9 +775,13 @@ cdef class Problem:
         return self._upper_bounds
     @property
     def evaluations(self):
+        if self.problem is NULL:
+            raise InvalidProblemException()
         return coco_problem_get_evaluations(self.problem)
     @property
     def evaluations_constraints(self):
+        if self.problem is NULL:
+            raise InvalidProblemException()
         return coco_problem_get_evaluations_constraints(self.problem)
     @property
     def final_target_hit(self):
@@ -799,6 +807,8 @@ cdef class Problem:
         return self._largest_fvalues_of_interest
 
     def _best_parameter(self, what=None):
+        if self.problem is NULL:
+            raise InvalidProblemException()
         if what == 'print':
             if self._number_of_objectives == 2:
                 bbob_biobj_problem_best_parameter_print(self.problem)
-- 
2.43.0


From 6b902b37d3e8217135ba5211c5613c50d25dd659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:38 +0000
Subject: [PATCH 38/58] fix: a Python Problem crashed after its Suite or
 Observer was freed

---
 build/python/src/cocoex/interface.pyx | 56 ++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index 65bb22e..d2b5f1c 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -3,6 +3,7 @@
 
 import sys
 import numpy as np
+cimport cython
 cimport numpy as np
 
 from .exceptions import InvalidProblemException, NoSuchProblemException, NoSuchSuiteException
@@ -97,9 +98,29 @@ cdef bytes _bstring(s):
 cdef coco_observer_t* _current_observer
 
 
+cdef class _SuiteHandle:
+    """owner of the C suite, which must outlive the problems taken from it"""
+    cdef coco_suite_t* suite
+    def __dealloc__(self):
+        if self.suite != NULL:
+            coco_suite_free(self.suite)
+
+
+cdef class _ObserverHandle:
+    """owner of the C observer, which must outlive the problems it observes"""
+    cdef coco_observer_t* observer
+    def __dealloc__(self):
+        if self.observer != NULL:
+            coco_observer_free(self.observer)
+
+
+cdef _ObserverHandle _current_observer_handle = None
+
+
 cdef class Suite:
     """see __init__.py"""
     cdef coco_suite_t* suite  # AKA _self
+    cdef _SuiteHandle _handle  # owns suite, also referenced by the problems
     cdef coco_problem_t* _current_problem
     cdef bytes _name  # used in @property name
     cdef bytes _instance
@@ -166,6 +187,8 @@ cdef class Suite:
             self._number_of_objectives.append(coco_problem_get_number_of_objectives(p))
         coco_suite_free(suite)
         self.suite = coco_suite(self._name, self._instance, self._options)
+        self._handle = _SuiteHandle()
+        self._handle.suite = self.suite
         self.initialized = True
         return self
     def reset(self):
@@ -200,7 +223,7 @@ cdef class Suite:
             self._current_problem = coco_suite_get_problem(
                                         self.suite, index)
             self.current_problem_ = Problem_init(self._current_problem,
-                                                True, self._name)
+                                                True, self._name, self._handle)
             self.current_problem_.observe_with(observer)
         return self.current_problem_
     def get_problem(self, id, observer=None):
@@ -243,7 +266,7 @@ cdef class Suite:
             index = self._ids.index(id)
         try:
             return Problem_init(coco_suite_get_problem(self.suite, self._indices[index]),
-                                True, self._name).observe_with(observer)
+                                True, self._name, self._handle).observe_with(observer)
         except:
             raise NoSuchProblemException(self.name, str(id))
 
@@ -280,7 +303,7 @@ cdef class Suite:
         try:
             return Problem_init(coco_suite_get_problem_by_function_dimension_instance(self.suite, _function,
                                                                                       _dimension, _instance),
-                                True, self._name).observe_with(observer)
+                                True, self._name, self._handle).observe_with(observer)
         except:
             raise NoSuchProblemException(self.name, 'function: {}, dimension: {}, instance: {}'.format(function,
                                                                                                        dimension,
@@ -293,13 +316,9 @@ cdef class Suite:
 
     def free(self):
         """free underlying C structures"""
-        if self.suite:  # for some reason __dealloc__ cannot be called here
-            coco_suite_free(self.suite)
+        self._handle = None  # frees the C suite as soon as its problems are gone
         self.suite = NULL
         self.initialized = False  # not (yet) visible from outside
-    def __dealloc__(self):
-        if self.suite:
-            coco_suite_free(self.suite)
 
     def find_problem_ids(self, *args, **kwargs):
         """has been renamed to `ids`"""
@@ -457,6 +476,7 @@ cdef class Suite:
 cdef class Observer:
     """see __init__.py"""
     cdef coco_observer_t* _observer
+    cdef _ObserverHandle _handle  # owns _observer, also referenced by the observed problems
     cdef bytes _name
     cdef bytes _options
     cdef _state
@@ -470,13 +490,16 @@ cdef class Observer:
         self._name = _bstring(name)
         self._options = _bstring(options if options is not None else "")
         self._observer = coco_observer(self._name, self._options)
+        self._handle = _ObserverHandle()
+        self._handle.observer = self._observer
         self._state = 'initialized'
 
     def _update_current_observer_global(self):
         """assign the global _current_observer variable to self._observer,
         for purely technical reasons"""
-        global _current_observer
+        global _current_observer, _current_observer_handle
         _current_observer = self._observer
+        _current_observer_handle = self._handle
 
     def observe(self, problem):
         """`observe(problem)` let `self` observe the `problem: Problem` by
@@ -509,15 +532,12 @@ cdef class Observer:
         return coco_observer_get_result_folder(self._observer)
 
     def free(self):
-        self.__dealloc__()
+        self._handle = None  # frees the C observer as soon as the observed problems are gone
         self._observer = NULL
         self._state = 'deactivated'
-    def __dealloc__(self):
-        if self._observer !=  NULL:
-            coco_observer_free(self._observer)
 
 
-cdef Problem_init(coco_problem_t* problem, free=True, suite_name=None):
+cdef Problem_init(coco_problem_t* problem, free=True, suite_name=None, suite_handle=None):
     """`Problem` class instance initialization wrapper passing
     a `problem_t*` C-variable to `__init__`.
 
@@ -525,9 +545,11 @@ cdef Problem_init(coco_problem_t* problem, free=True, suite_name=None):
     """
     res = Problem()
     res._suite_name = suite_name
+    res._suite_handle = suite_handle
     return res._initialize(problem, free)
 
 
+@cython.no_gc_clear  # the handles must be there until __dealloc__
 cdef class Problem:
     """see __init__.py"""
     cdef coco_problem_t* problem
@@ -542,7 +564,9 @@ cdef class Problem:
     cdef size_t _number_of_constraints
     cdef size_t _number_of_integer_variables
     cdef _suite_name  # for the record
+    cdef _suite_handle  # keeps the C suite alive
     cdef _list_of_observers  # for the record
+    cdef _observer_handles  # keep the C observers alive
     cdef _problem_index  # for the record, this is not public but used in index property
     cdef _do_free
     cdef _initial_solution_proposal_calls
@@ -560,6 +584,7 @@ cdef class Problem:
         self._problem_index = coco_problem_get_suite_dep_index(self.problem)
         self._do_free = free
         self._list_of_observers = []
+        self._observer_handles = []
         # _problem_suite = _bstring(problem_suite)
         # self.problem_suite = _problem_suite
         # Implicit type conversion via passing safe,
@@ -664,10 +689,13 @@ cdef class Problem:
 
         See also: class `Observer`
         """
+        global _current_observer_handle
         if observer:
             assert self.problem
             observer._update_current_observer_global()
             self.problem = coco_problem_add_observer(self.problem, _current_observer)
+            self._observer_handles.append(_current_observer_handle)
+            _current_observer_handle = None
             self._list_of_observers.append(observer)
         return self
 
-- 
2.43.0


From a9cb433f882ba26809524d2dfa6ac227d1ebf8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:38 +0000
Subject: [PATCH 39/58] fix: BareProblem crashed on input of the wrong
 dimension and on unknown functions

---
 build/python/src/cocoex/bare_problem.pyx | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/build/python/src/cocoex/bare_problem.pyx b/build/python/src/cocoex/bare_problem.pyx
index dfeac09..bfeb794 100644
--- a/build/python/src/cocoex/bare_problem.pyx
+++ b/build/python/src/cocoex/bare_problem.pyx
@@ -4,7 +4,7 @@
 import numpy as np
 cimport numpy as np
 
-from .exceptions import NoSuchProblemException, NoSuchSuiteException
+from .exceptions import InvalidProblemException, NoSuchProblemException, NoSuchSuiteException
 
 np.import_array()
 
@@ -58,8 +58,8 @@ cdef class BareProblem:
     """
 
     cdef coco_problem_t *_problem
-    cdef readonly char* suite_name
-    cdef readonly char* id
+    cdef readonly str suite_name
+    cdef readonly str id
     cdef readonly int function
     cdef readonly int dimension
     cdef readonly int instance
@@ -98,6 +98,8 @@ cdef class BareProblem:
         self.instance = instance
         self._problem = NULL
         if suite_name == "bbob":
+            if not 1 <= function <= 24 or dimension < 1:
+                raise NoSuchProblemException(suite_name, function)
             self._problem = coco_get_bbob_problem(function, dimension, instance)
             if self._problem == NULL:
                 # FIXME: Possibly extend Exception to include dimension and instance?
@@ -113,10 +115,14 @@ cdef class BareProblem:
 
     def best_value(self):
         """Return the best (lowest) possible function value"""
+        if self._problem == NULL:
+            raise InvalidProblemException()
         return coco_problem_get_best_value(self._problem)
 
     def best_parameter(self):            
         cdef double[::1] x
+        if self._problem == NULL:
+            raise InvalidProblemException()
         x = np.zeros(self.dimension, dtype=np.float64)
 
         res = coco_problem_get_best_parameter(self._problem, &x[0])
@@ -127,6 +133,8 @@ cdef class BareProblem:
 
     @property
     def is_tainted(self):
+        if self._problem == NULL:
+            raise InvalidProblemException()
         is_tainted = coco_problem_is_tainted(self._problem)
         return is_tainted != 0
     
@@ -142,8 +150,13 @@ cdef class BareProblem:
         cdef Py_ssize_t N, D, i
         cdef double[::1] y_view
         cdef double y
+        if self._problem == NULL:
+            raise InvalidProblemException()
         if isinstance(x, list):
             x = np.array(x, dtype=float)
+        if x.ndim in (1, 2) and x.shape[-1] != self.dimension:
+            raise ValueError("Dimension, %d, of input `x` does not match the problem dimension %d."
+                             % (x.shape[-1], self.dimension))
         if x.ndim == 1:
             # Evaluate a single parameter
             xi = np.array(x, dtype=float)
-- 
2.43.0


From badf721458aafee040b8b9dc38bdcc32f1621e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:31 +0000
Subject: [PATCH 40/58] fix: recommending a point that is not finite on a noisy
 problem logged an earlier or undefined value

---
 src/logger_bbob.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 58cac86..18092c8 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -490,7 +490,8 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
   coco_evaluate_function(inner_problem, x, y);
 
   y_logged = y[0];
-  if (inner_problem->is_noisy == 1)
+  /* A point that is not finite has not been evaluated */
+  if ((inner_problem->is_noisy == 1) && coco_vector_isfinite(x, problem->number_of_variables))
     y_logged = inner_problem->last_noise_free_values[0];
   if (coco_is_nan(y_logged))
     y_logged = NAN_FOR_LOGGING;
-- 
2.43.0


From 6464d730bd0c8e369fe09146ef1578210a37c033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:44 +0000
Subject: [PATCH 41/58] fix: a bbob logger on top of another logger logged the
 noisy values of a noisy problem

---
 src/logger_bbob.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 18092c8..7ca4aad 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -356,6 +356,19 @@ static void logger_bbob_initialize(logger_bbob_data_t *logger, int is_opt_known)
   coco_debug("Ended   logger_bbob_initialize()");
 }
 
+/**
+ * @brief Returns the problem that keeps the noise-free values, which is not necessarily the given one, as the
+ * latter can be observed also by other observers. Returns NULL if the problem is not noisy.
+ */
+static const coco_problem_t *logger_bbob_get_noisy_problem(const coco_problem_t *problem) {
+  while (problem->is_noisy != 1) {
+    if (problem->problem_free_function != coco_problem_transformed_free)
+      return NULL;
+    problem = coco_problem_transformed_get_inner_problem(problem);
+  }
+  return problem;
+}
+
 /**
  * @brief Evaluates the function, increases the number of evaluations and outputs information according to
  * observer options.
@@ -366,6 +379,7 @@ static void logger_bbob_evaluate(coco_problem_t *problem, const double *x, doubl
   double *constraints = NULL;
   logger_bbob_data_t *logger = (logger_bbob_data_t *)coco_problem_transformed_get_data(problem);
   coco_problem_t *inner_problem = coco_problem_transformed_get_inner_problem(problem);
+  const coco_problem_t *noisy_problem;
   const int is_feasible = problem->number_of_constraints <= 0 || coco_is_feasible(inner_problem, x, NULL);
 
   if (problem->is_tainted || inner_problem->is_tainted) {
@@ -388,9 +402,10 @@ static void logger_bbob_evaluate(coco_problem_t *problem, const double *x, doubl
   logger->num_func_evaluations++;
   logger->current_value = y[0];
   y_logged = y[0];
-  if (inner_problem->is_noisy == 1) {
-    logger->current_value = inner_problem->last_noise_free_values[0];
-    y_logged = inner_problem->last_noise_free_values[0];
+  noisy_problem = logger_bbob_get_noisy_problem(inner_problem);
+  if (noisy_problem != NULL) {
+    logger->current_value = noisy_problem->last_noise_free_values[0];
+    y_logged = noisy_problem->last_noise_free_values[0];
   }
   if (coco_is_nan(y_logged))
     y_logged = NAN_FOR_LOGGING;
@@ -479,6 +494,7 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
   double *constraints = NULL, *y = NULL;
   logger_bbob_data_t *logger = (logger_bbob_data_t *)coco_problem_transformed_get_data(problem);
   coco_problem_t *inner_problem = coco_problem_transformed_get_inner_problem(problem);
+  const coco_problem_t *noisy_problem;
   const int is_feasible = problem->number_of_constraints <= 0 || coco_is_feasible(inner_problem, x, NULL);
 
   if (!logger->is_initialized) {
@@ -491,8 +507,9 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
 
   y_logged = y[0];
   /* A point that is not finite has not been evaluated */
-  if ((inner_problem->is_noisy == 1) && coco_vector_isfinite(x, problem->number_of_variables))
-    y_logged = inner_problem->last_noise_free_values[0];
+  noisy_problem = logger_bbob_get_noisy_problem(inner_problem);
+  if ((noisy_problem != NULL) && coco_vector_isfinite(x, problem->number_of_variables))
+    y_logged = noisy_problem->last_noise_free_values[0];
   if (coco_is_nan(y_logged))
     y_logged = NAN_FOR_LOGGING;
   else if (coco_is_inf(y_logged))
-- 
2.43.0


From 567263553f72bdb3b3e0d7a635e4d8c48767a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:52 +0000
Subject: [PATCH 42/58] fix: printing the best parameters of a biobjective
 problem crashed under the rw and toy observers

---
 src/coco_problem.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index 52908ec..b51b085 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -678,9 +678,6 @@ void bbob_problem_best_parameter_print(const coco_problem_t *problem) {
   }
 }
 
-/* We need a forward declaration of this for `bbob_biobj_problem_best_parameter_print` */
-static void logger_biobj_evaluate(coco_problem_t *problem, const double *x, double *y);
-
 void bbob_biobj_problem_best_parameter_print(const coco_problem_t *problem) {
   size_t i;
   FILE *file;
@@ -693,10 +690,10 @@ void bbob_biobj_problem_best_parameter_print(const coco_problem_t *problem) {
    * order to access the underlying single objective functions.
    *
    * There's no easy way to check if a problem is wrapped by a logger, here we
-   * rely on checking if the ->evaluate_function is the logger one.
+   * rely on checking if it is a transformed problem, which the original is not.
    *
    */
-  if (problem->evaluate_function == &logger_biobj_evaluate) {
+  if (problem->problem_free_function == coco_problem_transformed_free) {
     coco_warning("I'm sorry, Dave. I'm afraid I can't do that.");
     /* In case this function was called previously, overwrite any results. */
     file = fopen("._bbob_biobj_problem_best_parameter.txt", "w");
-- 
2.43.0


From 63199efa4ec9b67c11cf081a058b9586aaa7b0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:20:05 +0000
Subject: [PATCH 43/58] fix: a recommendation was counted as an evaluation of
 the observed problem

---
 src/logger_bbob.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 7ca4aad..38a3537 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -503,7 +503,10 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
 
   /* Fulfill contract of a COCO evaluate function, but do not increase the evaluation counters */
   y = coco_allocate_vector(problem->number_of_objectives);
-  coco_evaluate_function(inner_problem, x, y);
+  if (coco_vector_isfinite(x, problem->number_of_variables))
+    inner_problem->evaluate_function(inner_problem, x, y);
+  else
+    coco_evaluate_function(inner_problem, x, y);
 
   y_logged = y[0];
   /* A point that is not finite has not been evaluated */
-- 
2.43.0


From 86311646eabde0e271f40dafafc2f3f880c0f411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:17 +0000
Subject: [PATCH 44/58] fix: options separated by tabs or newlines were
 reported as unknown

---
 src/coco_utilities.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index f414149..da3dc1b 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -705,14 +705,12 @@ static coco_option_keys_t *coco_option_keys(const char *option_string) {
         break;
       }
 
-      /* Disregard everything before the last space */
-      key = strrchr(string_to_parse, ' ');
-      if ((key == NULL) || (i == 0)) {
-        /* No spaces left (or this is the first key), everything is the key */
-        key = string_to_parse;
-      } else {
-        /* Move to the start of the key (one char after the space) */
-        key++;
+      /* Disregard everything before the last white space (unless this is the first key) */
+      key = string_to_parse;
+      if (i > 0) {
+        key += strlen(string_to_parse);
+        while ((key > string_to_parse) && !isspace((unsigned char)*(key - 1)))
+          key--;
       }
 
       /* Put the key in keys */
-- 
2.43.0


From 4ca943fdde4cf1dc89bd3e534a57654d6565cf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:03 +0000
Subject: [PATCH 45/58] fix: random_search returned a wrong solution on
 constrained problems

---
 build/python/src/cocoex/solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/solvers.py b/build/python/src/cocoex/solvers.py
index d5218fe..3dd15c4 100644
--- a/build/python/src/cocoex/solvers.py
+++ b/build/python/src/cocoex/solvers.py
@@ -16,7 +16,9 @@ def random_search(fun, lbounds, ubounds, budget):
         X = lbounds + (ubounds - lbounds) * np.random.rand(chunk, dim)
         if fun.number_of_constraints > 0:
             FC = [(fun(x), fun.constraint(x)) for x in X]  # call  objective and constraints
-            F = [fc[0] for fc in FC if all(fc[1] <= 0)]
+            feasible = [all(fc[1] <= 0) for fc in FC]
+            F = [fc[0] for (fc, ok) in zip(FC, feasible) if ok]
+            X = X[feasible]  # in accordance with F
             budget -= chunk  # one more to account for constraint evals
         else:
             F = [fun(x) for x in X]
-- 
2.43.0


From 8251c57335367f65e6f77d320dc0ee099999d1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:03 +0000
Subject: [PATCH 46/58] fix: asking the ExperimentRepeater for the trials of an
 instance recorded the instance

---
 build/python/src/cocoex/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/utilities.py b/build/python/src/cocoex/utilities.py
index cf1fed6..33d9431 100644
--- a/build/python/src/cocoex/utilities.py
+++ b/build/python/src/cocoex/utilities.py
@@ -787,7 +787,7 @@ class ExperimentRepeater:
         """
         dd = self.data(problem)  # dictionary of all data related to problem
         if instance is not None:
-            return len(dd[instance])
+            return len(dd.get(instance, ()))  # do not create an entry
         return [len(dd[iinst]) for iinst in sorted(dd)]
     def successes(self, problem):
         """return `list` of successes per instance"""
-- 
2.43.0


From 9e82081cbe52a7ac31c375dd615a48ebe7266c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:03 +0000
Subject: [PATCH 47/58] fix: ascetime was off by one second for about half of
 its arguments

---
 build/python/src/cocoex/utilities.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/build/python/src/cocoex/utilities.py b/build/python/src/cocoex/utilities.py
index 33d9431..1134c27 100644
--- a/build/python/src/cocoex/utilities.py
+++ b/build/python/src/cocoex/utilities.py
@@ -579,9 +579,9 @@ def ascetime(sec, decimals=0):
     #     return "%d%s sec" % (sec, str(sec % 1)[1:2+max((1, decimals))])
     if sec < 100 and decimals:
         return "%d%s sec" % (sec, ds)
-    h = sec / 60**2  # hours
-    m = 60 * (h % 1)  # minutes
-    s = 60 * (m % 1)  # seconds
+    h = sec // 60**2  # hours
+    m = sec // 60 % 60  # minutes
+    s = sec % 60  # seconds
     return "%dh%02d:%02d%s" % (h, m, s, ds)
 
 
-- 
2.43.0


From fcb8318567929dd1684bc4b20c813dde4a0d35f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:03 +0000
Subject: [PATCH 48/58] fix: observer options given as dict lost commas, quotes
 and braces of their values

---
 build/python/src/cocoex/interface.pyx | 5 +----
 build/python/src/cocoex/utilities.py  | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/build/python/src/cocoex/interface.pyx b/build/python/src/cocoex/interface.pyx
index d2b5f1c..a3a698b 100644
--- a/build/python/src/cocoex/interface.pyx
+++ b/build/python/src/cocoex/interface.pyx
@@ -483,10 +483,7 @@ cdef class Observer:
 
     def __cinit__(self, name, options):
         if isinstance(options, dict):
-            s = str(options).replace(',', ' ')
-            for c in ["u'", 'u"', "'", '"', "{", "}"]:
-                s = s.replace(c, '')
-            options = s
+            options = ' '.join('{}: {}'.format(key, value) for key, value in options.items())
         self._name = _bstring(name)
         self._options = _bstring(options if options is not None else "")
         self._observer = coco_observer(self._name, self._options)
diff --git a/build/python/src/cocoex/utilities.py b/build/python/src/cocoex/utilities.py
index 1134c27..786e29d 100644
--- a/build/python/src/cocoex/utilities.py
+++ b/build/python/src/cocoex/utilities.py
@@ -240,10 +240,7 @@ class ObserverOptions(dict):
         """string representation which is accepted by `Observer` class,
         which calls the underlying C interface
         """
-        s = str(self).replace(',', ' ')
-        for c in ["u'", "'", "{", "}"]:
-            s = s.replace(c, '')
-        return s
+        return ' '.join('{}: {}'.format(key, value) for key, value in self.items())
 
 
 class ProblemNonAnytime:
-- 
2.43.0


From e727dd7a4dfb76f857080106757a71b5bcd7c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:03 +0000
Subject: [PATCH 49/58] fix: the single-objective loggers ignored the option
 algorithm_info

---
 src/logger_bbob.c     | 3 ++-
 src/logger_bbob_old.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index 38a3537..de5659a 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -275,7 +275,8 @@ static void logger_bbob_open_info_file(logger_bbob_data_t *logger, const char *f
               suite_name, (unsigned long)logger->function, (unsigned long)logger->number_of_variables, pow(10, -8),
               logger->observer->algorithm_name, coco_version, ((coco_observer_t *)logger->observer)->observer_name,
               logger_bbob_data_format);
-      fprintf(*info_file, "%%\n");
+      fprintf(*info_file, "%%%s%s\n", (logger->observer->algorithm_info[0] == '\0') ? "" : " ",
+              logger->observer->algorithm_info);
       /* data_file_path does not have the extension */
       fprintf(*info_file, "%s.dat", data_file_path);
     }
diff --git a/src/logger_bbob_old.c b/src/logger_bbob_old.c
index fbdce4b..483b233 100644
--- a/src/logger_bbob_old.c
+++ b/src/logger_bbob_old.c
@@ -336,7 +336,8 @@ static void logger_bbob_old_openIndexFile(logger_bbob_old_data_t *logger, const
               suite_name, (int)strtol(function_id, NULL, 10), (unsigned long)logger->number_of_variables, pow(10, -8),
               logger->observer->algorithm_name, coco_version, logger_name, data_format);
 
-      fprintf(*target_file, "%%\n");
+      fprintf(*target_file, "%%%s%s\n", (logger->observer->algorithm_info[0] == '\0') ? "" : " ",
+              logger->observer->algorithm_info);
       strncat(used_dataFile_path, "_i", COCO_PATH_MAX - strlen(used_dataFile_path) - 1);
       strncat(used_dataFile_path, bbob_old_infoFile_firstInstance_char, COCO_PATH_MAX - strlen(used_dataFile_path) - 1);
       fprintf(*target_file, "%s.dat", used_dataFile_path); /* dataFile_path does not have the extension */
-- 
2.43.0


From 63a1b51a9f2f21e391d5cd00702e4b533a1fa689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:12 +0000
Subject: [PATCH 50/58] fix: iterating a suite again after its end skipped the
 first problem

---
 src/coco_suite.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coco_suite.c b/src/coco_suite.c
index fa3f4a5..eedb828 100644
--- a/src/coco_suite.c
+++ b/src/coco_suite.c
@@ -906,6 +906,8 @@ coco_problem_t *coco_suite_get_next_problem(coco_suite_t *suite, coco_observer_t
   if (!coco_suite_is_next_instance_found(suite) && !coco_suite_is_next_function_found(suite) &&
       !coco_suite_is_next_dimension_found(suite)) {
     coco_info_partial("done\n");
+    /* A further call starts over, with the first instance included */
+    suite->current_instance_idx = -1;
     return NULL;
   }
 
-- 
2.43.0


From f157d257bc75a7a2350c9e9a9fe7e651e4818c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:12 +0000
Subject: [PATCH 51/58] fix: huge finite points, whose values overflow to NaN,
 aborted the process

---
 src/f_attractive_sector.c                    | 2 +-
 src/f_bent_cigar.c                           | 2 +-
 src/f_bent_cigar_generalized.c               | 2 +-
 src/f_bueche_rastrigin.c                     | 2 +-
 src/f_different_powers.c                     | 2 +-
 src/f_discus.c                               | 2 +-
 src/f_discus_generalized.c                   | 2 +-
 src/f_ellipsoid.c                            | 2 +-
 src/f_gallagher.c                            | 6 +++---
 src/f_griewank_rosenbrock.c                  | 2 +-
 src/f_katsuura.c                             | 2 +-
 src/f_linear_slope.c                         | 2 +-
 src/f_lunacek_bi_rastrigin.c                 | 4 ++--
 src/f_rastrigin.c                            | 2 +-
 src/f_rosenbrock.c                           | 2 +-
 src/f_schaffers.c                            | 2 +-
 src/f_schwefel.c                             | 2 +-
 src/f_schwefel_generalized.c                 | 2 +-
 src/f_sharp_ridge.c                          | 2 +-
 src/f_sharp_ridge_generalized.c              | 2 +-
 src/f_sphere.c                               | 2 +-
 src/f_step_ellipsoid.c                       | 4 ++--
 src/f_weierstrass.c                          | 2 +-
 src/transform_obj_norm_by_dim.c              | 2 +-
 src/transform_obj_oscillate.c                | 2 +-
 src/transform_obj_penalize.c                 | 2 +-
 src/transform_obj_power.c                    | 2 +-
 src/transform_obj_scale.c                    | 2 +-
 src/transform_obj_shift.c                    | 2 +-
 src/transform_vars_affine.c                  | 2 +-
 src/transform_vars_asymmetric.c              | 2 +-
 src/transform_vars_blockrotation.c           | 2 +-
 src/transform_vars_brs.c                     | 2 +-
 src/transform_vars_conditioning.c            | 2 +-
 src/transform_vars_enforce_box.c             | 2 +-
 src/transform_vars_gallagher_blockrotation.c | 2 +-
 src/transform_vars_oscillate.c               | 2 +-
 src/transform_vars_permblockdiag.c           | 2 +-
 src/transform_vars_permutation.c             | 4 ++--
 src/transform_vars_round_step.c              | 2 +-
 src/transform_vars_scale.c                   | 2 +-
 src/transform_vars_shift.c                   | 2 +-
 src/transform_vars_x_hat.c                   | 2 +-
 src/transform_vars_x_hat_generic.c           | 2 +-
 src/transform_vars_z_hat.c                   | 2 +-
 45 files changed, 50 insertions(+), 50 deletions(-)

diff --git a/src/f_attractive_sector.c b/src/f_attractive_sector.c
index 47816ea..121d94d 100644
--- a/src/f_attractive_sector.c
+++ b/src/f_attractive_sector.c
@@ -57,7 +57,7 @@ static void f_attractive_sector_evaluate(coco_problem_t *problem,
   assert(problem->number_of_objectives == 1);
   y[0] = f_attractive_sector_raw(x, problem->number_of_variables,
                                  (f_attractive_sector_data_t *)problem->data);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_bent_cigar.c b/src/f_bent_cigar.c
index 24257e3..bb3c312 100644
--- a/src/f_bent_cigar.c
+++ b/src/f_bent_cigar.c
@@ -42,7 +42,7 @@ static void f_bent_cigar_evaluate(coco_problem_t *problem, const double *x,
                                   double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_bent_cigar_raw(x, problem->number_of_variables);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_bent_cigar_generalized.c b/src/f_bent_cigar_generalized.c
index 3e866ac..3a7f299 100644
--- a/src/f_bent_cigar_generalized.c
+++ b/src/f_bent_cigar_generalized.c
@@ -75,7 +75,7 @@ static void f_bent_cigar_generalized_evaluate(coco_problem_t *problem,
   assert(problem->number_of_objectives == 1);
   y[0] = f_bent_cigar_generalized_raw(x, problem->number_of_variables,
                                       (f_bent_cigar_generalized_versatile_data_t *)problem->versatile_data);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_bueche_rastrigin.c b/src/f_bueche_rastrigin.c
index eca149d..4db2d42 100644
--- a/src/f_bueche_rastrigin.c
+++ b/src/f_bueche_rastrigin.c
@@ -45,7 +45,7 @@ static void f_bueche_rastrigin_evaluate(coco_problem_t *problem,
                                         const double *x, double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_bueche_rastrigin_raw(x, problem->number_of_variables);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_different_powers.c b/src/f_different_powers.c
index 62ac87f..a62dfc2 100644
--- a/src/f_different_powers.c
+++ b/src/f_different_powers.c
@@ -46,7 +46,7 @@ static void f_different_powers_evaluate(coco_problem_t *problem,
                                         const double *x, double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_different_powers_raw(x, problem->number_of_variables);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_discus.c b/src/f_discus.c
index 1fe65b9..0b5bf3c 100644
--- a/src/f_discus.c
+++ b/src/f_discus.c
@@ -41,7 +41,7 @@ static void f_discus_evaluate(coco_problem_t *problem, const double *x,
                               double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_discus_raw(x, problem->number_of_variables);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_discus_generalized.c b/src/f_discus_generalized.c
index 51b6779..7bcb6a9 100644
--- a/src/f_discus_generalized.c
+++ b/src/f_discus_generalized.c
@@ -75,7 +75,7 @@ static void f_discus_generalized_evaluate(coco_problem_t *problem,
   assert(problem->number_of_objectives == 1);
   y[0] = f_discus_generalized_raw(x, problem->number_of_variables,
                                   (f_discus_generalized_versatile_data_t *)problem->versatile_data);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_ellipsoid.c b/src/f_ellipsoid.c
index 5c266c4..ff55599 100644
--- a/src/f_ellipsoid.c
+++ b/src/f_ellipsoid.c
@@ -53,7 +53,7 @@ static void f_ellipsoid_evaluate(coco_problem_t *problem, const double *x,
                                  double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_ellipsoid_raw(x, problem->number_of_variables, (f_ellipsoid_data_t *)problem->data);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_gallagher.c b/src/f_gallagher.c
index e5f4146..878e208 100644
--- a/src/f_gallagher.c
+++ b/src/f_gallagher.c
@@ -133,7 +133,7 @@ static void f_gallagher_evaluate(coco_problem_t *problem, const double *x,
                                  double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_gallagher_raw(x, problem->number_of_variables, (f_gallagher_data_t *)problem->data);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
@@ -307,7 +307,7 @@ static void f_gallagher_sub_evaluate_core(coco_problem_t *problem_i,
 
   assert(problem_i->number_of_objectives == 1);
   y[0] = f_sphere_raw(x, problem_i->number_of_variables);
-  /*assert(y[0] + 1e-13 >= problem->best_value[0]);*/
+  /*assert(!(y[0] + 1e-13 < problem->best_value[0]));*/
 }
 
 /**
@@ -390,7 +390,7 @@ static void f_gallagher_evaluate_core(coco_problem_t *problem, const double *x,
   if (!(y[0] + 1e-13 >= problem->best_value[0])) {
     coco_warning("x[0]= %f: %f < %f", x[0], y[0] + 1e-13, problem->best_value[0]);
   }
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_griewank_rosenbrock.c b/src/f_griewank_rosenbrock.c
index b269bfb..7465073 100644
--- a/src/f_griewank_rosenbrock.c
+++ b/src/f_griewank_rosenbrock.c
@@ -59,7 +59,7 @@ static void f_griewank_rosenbrock_evaluate(coco_problem_t *problem,
                                            const double *x, double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_griewank_rosenbrock_raw(x, problem->number_of_variables, (f_griewank_rosenbrock_data_t *)problem->data);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_katsuura.c b/src/f_katsuura.c
index d0aeb17..349d689 100644
--- a/src/f_katsuura.c
+++ b/src/f_katsuura.c
@@ -57,7 +57,7 @@ static void f_katsuura_evaluate(coco_problem_t *problem, const double *x,
                                 double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_katsuura_raw(x, problem->number_of_variables);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_linear_slope.c b/src/f_linear_slope.c
index 36a5f82..f4845d7 100644
--- a/src/f_linear_slope.c
+++ b/src/f_linear_slope.c
@@ -55,7 +55,7 @@ static void f_linear_slope_evaluate(coco_problem_t *problem, const double *x,
   assert(problem->number_of_objectives == 1);
   y[0] = f_linear_slope_raw(x, problem->number_of_variables,
                             problem->best_parameter);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_lunacek_bi_rastrigin.c b/src/f_lunacek_bi_rastrigin.c
index 8522d7c..c2519b9 100644
--- a/src/f_lunacek_bi_rastrigin.c
+++ b/src/f_lunacek_bi_rastrigin.c
@@ -98,7 +98,7 @@ static void f_lunacek_bi_rastrigin_evaluate(coco_problem_t *problem,
                                             const double *x, double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_lunacek_bi_rastrigin_raw(x, problem->number_of_variables, (f_lunacek_bi_rastrigin_data_t *)problem->data);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
@@ -282,7 +282,7 @@ static void f_lunacek_bi_rastrigin_evaluate_core(coco_problem_t *problem,
   assert(problem->number_of_objectives == 1);
   y[0] = f_lunacek_bi_rastrigin_core(x, problem->number_of_variables,
                                      ((f_lunacek_bi_rastrigin_versatile_data_t *)problem->versatile_data));
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_rastrigin.c b/src/f_rastrigin.c
index 3fc4db0..b0f4895 100644
--- a/src/f_rastrigin.c
+++ b/src/f_rastrigin.c
@@ -53,7 +53,7 @@ static void f_rastrigin_evaluate(coco_problem_t *problem, const double *x,
                                  double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_rastrigin_raw(x, problem->number_of_variables);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_rosenbrock.c b/src/f_rosenbrock.c
index 1520bf0..20364ab 100644
--- a/src/f_rosenbrock.c
+++ b/src/f_rosenbrock.c
@@ -50,7 +50,7 @@ static void f_rosenbrock_evaluate(coco_problem_t *problem, const double *x,
                                   double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_rosenbrock_raw(x, problem->number_of_variables);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_schaffers.c b/src/f_schaffers.c
index f82e7f5..54cd48a 100644
--- a/src/f_schaffers.c
+++ b/src/f_schaffers.c
@@ -55,7 +55,7 @@ static void f_schaffers_evaluate(coco_problem_t *problem, const double *x,
                                  double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_schaffers_raw(x, problem->number_of_variables);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_schwefel.c b/src/f_schwefel.c
index 450d85e..35335bf 100644
--- a/src/f_schwefel.c
+++ b/src/f_schwefel.c
@@ -57,7 +57,7 @@ static void f_schwefel_evaluate(coco_problem_t *problem, const double *x,
                                 double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_schwefel_raw(x, problem->number_of_variables);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_schwefel_generalized.c b/src/f_schwefel_generalized.c
index 54d06a7..2c757cd 100644
--- a/src/f_schwefel_generalized.c
+++ b/src/f_schwefel_generalized.c
@@ -56,7 +56,7 @@ static void f_schwefel_generalized_evaluate(coco_problem_t *problem,
                                             const double *x, double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_schwefel_generalized_raw(x, problem->number_of_variables);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_sharp_ridge.c b/src/f_sharp_ridge.c
index f07fb4b..557273a 100644
--- a/src/f_sharp_ridge.c
+++ b/src/f_sharp_ridge.c
@@ -50,7 +50,7 @@ static void f_sharp_ridge_evaluate(coco_problem_t *problem, const double *x,
                                    double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_sharp_ridge_raw(x, problem->number_of_variables);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_sharp_ridge_generalized.c b/src/f_sharp_ridge_generalized.c
index 5dd488b..66c6016 100644
--- a/src/f_sharp_ridge_generalized.c
+++ b/src/f_sharp_ridge_generalized.c
@@ -82,7 +82,7 @@ static void f_sharp_ridge_generalized_evaluate(coco_problem_t *problem,
   assert(problem->number_of_objectives == 1);
   y[0] = f_sharp_ridge_generalized_raw(x, problem->number_of_variables,
                                        (f_sharp_ridge_generalized_versatile_data_t *)problem->versatile_data);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_sphere.c b/src/f_sphere.c
index dc0831a..636bd83 100644
--- a/src/f_sphere.c
+++ b/src/f_sphere.c
@@ -40,7 +40,7 @@ static void f_sphere_evaluate(coco_problem_t *problem, const double *x,
                               double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_sphere_raw(x, problem->number_of_variables);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_step_ellipsoid.c b/src/f_step_ellipsoid.c
index 5431bd7..a009e70 100644
--- a/src/f_step_ellipsoid.c
+++ b/src/f_step_ellipsoid.c
@@ -105,7 +105,7 @@ static void f_step_ellipsoid_evaluate(coco_problem_t *problem, const double *x,
                                       double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_step_ellipsoid_raw(x, problem->number_of_variables, (f_step_ellipsoid_data_t *)problem->data);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
@@ -210,7 +210,7 @@ static void f_step_ellipsoid_permblock_evaluate(coco_problem_t *problem,
   assert(problem->number_of_objectives == 1);
   y[0] = f_step_ellipsoid_core(x, problem->number_of_variables,
                                (f_step_ellipsoid_versatile_data_t *)problem->versatile_data);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/f_weierstrass.c b/src/f_weierstrass.c
index f6f68b4..4a48f25 100644
--- a/src/f_weierstrass.c
+++ b/src/f_weierstrass.c
@@ -62,7 +62,7 @@ static double f_weierstrass_raw(const double *x,
 static void f_weierstrass_evaluate(coco_problem_t *problem, const double *x, double *y) {
   assert(problem->number_of_objectives == 1);
   y[0] = f_weierstrass_raw(x, problem->number_of_variables, (f_weierstrass_data_t *)problem->data);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_obj_norm_by_dim.c b/src/transform_obj_norm_by_dim.c
index 943722c..423972a 100644
--- a/src/transform_obj_norm_by_dim.c
+++ b/src/transform_obj_norm_by_dim.c
@@ -18,7 +18,7 @@ static void transform_obj_norm_by_dim_evaluate(coco_problem_t *problem, const do
   y[0] *= bbob2009_fmin(1, 40. / ((double)problem->number_of_variables));
   /* Wassim: might want to use a function (with no 40) here that we can put in a helpers file */
 
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_obj_oscillate.c b/src/transform_obj_oscillate.c
index 4c0dbf4..8d9fc74 100644
--- a/src/transform_obj_oscillate.c
+++ b/src/transform_obj_oscillate.c
@@ -33,7 +33,7 @@ static void transform_obj_oscillate_evaluate(coco_problem_t *problem, const doub
       }
     }
   }
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_obj_penalize.c b/src/transform_obj_penalize.c
index a51e286..9ab5951 100644
--- a/src/transform_obj_penalize.c
+++ b/src/transform_obj_penalize.c
@@ -47,7 +47,7 @@ static void transform_obj_penalize_evaluate(coco_problem_t *problem, const doubl
   for (i = 0; i < problem->number_of_objectives; ++i) {
     y[i] += data->factor * penalty;
   }
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_obj_power.c b/src/transform_obj_power.c
index 1c0a149..0de7519 100644
--- a/src/transform_obj_power.c
+++ b/src/transform_obj_power.c
@@ -34,7 +34,7 @@ static void transform_obj_power_evaluate(coco_problem_t *problem, const double *
   for (i = 0; i < problem->number_of_objectives; i++) {
     y[i] = pow(y[i], data->exponent);
   }
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_obj_scale.c b/src/transform_obj_scale.c
index f61d3f0..f21a9ae 100644
--- a/src/transform_obj_scale.c
+++ b/src/transform_obj_scale.c
@@ -42,7 +42,7 @@ static void transform_obj_scale_evaluate_function(coco_problem_t *problem, const
     if (is_feasible)
       assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_obj_shift.c b/src/transform_obj_shift.c
index 38d21fc..0a91807 100644
--- a/src/transform_obj_shift.c
+++ b/src/transform_obj_shift.c
@@ -42,7 +42,7 @@ static void transform_obj_shift_evaluate_function(coco_problem_t *problem, const
     if (is_feasible)
       assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_vars_affine.c b/src/transform_vars_affine.c
index a9e9f8c..6d48f48 100644
--- a/src/transform_vars_affine.c
+++ b/src/transform_vars_affine.c
@@ -59,7 +59,7 @@ static void transform_vars_affine_evaluate_function(coco_problem_t *problem, con
     if (is_feasible)
       assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_vars_asymmetric.c b/src/transform_vars_asymmetric.c
index ccf9d6c..f67b5a3 100644
--- a/src/transform_vars_asymmetric.c
+++ b/src/transform_vars_asymmetric.c
@@ -101,7 +101,7 @@ static void transform_vars_asymmetric_evaluate_function(coco_problem_t *problem,
     if (is_feasible)
       assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_vars_blockrotation.c b/src/transform_vars_blockrotation.c
index a80132a..7b1d2b7 100644
--- a/src/transform_vars_blockrotation.c
+++ b/src/transform_vars_blockrotation.c
@@ -82,7 +82,7 @@ static void transform_vars_blockrotation_evaluate(coco_problem_t *problem, const
   transform_vars_blockrotation_apply(problem, x, data->Bx);
 
   coco_evaluate_function(inner_problem, data->Bx, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 static void transform_vars_blockrotation_free(void *stuff) {
diff --git a/src/transform_vars_brs.c b/src/transform_vars_brs.c
index c1b38ff..5d2b20a 100644
--- a/src/transform_vars_brs.c
+++ b/src/transform_vars_brs.c
@@ -49,7 +49,7 @@ static void transform_vars_brs_evaluate(coco_problem_t *problem, const double *x
     data->x[i] = factor * x[i];
   }
   coco_evaluate_function(inner_problem, data->x, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_vars_conditioning.c b/src/transform_vars_conditioning.c
index a315296..7aac09d 100644
--- a/src/transform_vars_conditioning.c
+++ b/src/transform_vars_conditioning.c
@@ -40,7 +40,7 @@ static void transform_vars_conditioning_evaluate(coco_problem_t *problem, const
     data->x[i] = pow(data->alpha, 0.5 * (double)(long)i / ((double)(long)problem->number_of_variables - 1.0)) * x[i];
   }
   coco_evaluate_function(inner_problem, data->x, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_vars_enforce_box.c b/src/transform_vars_enforce_box.c
index d52d473..1e25695 100644
--- a/src/transform_vars_enforce_box.c
+++ b/src/transform_vars_enforce_box.c
@@ -42,7 +42,7 @@ static void transform_vars_enforce_box_evaluate_function(coco_problem_t *problem
       assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
     }
   } else {
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(!(y[0] + 1e-13 < problem->best_value[0]));
   }
 }
 
diff --git a/src/transform_vars_gallagher_blockrotation.c b/src/transform_vars_gallagher_blockrotation.c
index 9c5cbe5..db94604 100644
--- a/src/transform_vars_gallagher_blockrotation.c
+++ b/src/transform_vars_gallagher_blockrotation.c
@@ -100,7 +100,7 @@ static void transform_vars_gallagher_blockrotation_evaluate(coco_problem_t *prob
       y); /* does not modify the argument of the call since rotated_x will be used later in the sub_problems*/
   /* this function serves only to compute rotated_x on the problem level, not for each sub-problem
    */
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 static COCO_UNUSED coco_problem_t *transform_vars_gallagher_blockrotation(coco_problem_t *inner_problem);
diff --git a/src/transform_vars_oscillate.c b/src/transform_vars_oscillate.c
index 6254fce..a2cb726 100644
--- a/src/transform_vars_oscillate.c
+++ b/src/transform_vars_oscillate.c
@@ -102,7 +102,7 @@ static void transform_vars_oscillate_evaluate_function(coco_problem_t *problem,
     if (is_feasible)
       assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_vars_permblockdiag.c b/src/transform_vars_permblockdiag.c
index 3ae20af..1a339c4 100644
--- a/src/transform_vars_permblockdiag.c
+++ b/src/transform_vars_permblockdiag.c
@@ -46,7 +46,7 @@ static void transform_vars_permblockdiag_evaluate(coco_problem_t *problem, const
   }
 
   coco_evaluate_function(inner_problem, data->x, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 static void transform_vars_permblockdiag_free(void *thing) {
diff --git a/src/transform_vars_permutation.c b/src/transform_vars_permutation.c
index 695174f..597c823 100644
--- a/src/transform_vars_permutation.c
+++ b/src/transform_vars_permutation.c
@@ -29,7 +29,7 @@ static void transform_vars_permutation_evaluate(coco_problem_t *problem, const d
   }
 
   coco_evaluate_function(inner_problem, data->x, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 static void transform_vars_permutation_free(void *thing) {
@@ -67,7 +67,7 @@ static void transform_vars_inverse_permutation_evaluate(coco_problem_t *problem,
   }
 
   coco_evaluate_function(inner_problem, data->x, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 static coco_problem_t *transform_vars_inverse_permutation(coco_problem_t *inner_problem, const size_t *P,
diff --git a/src/transform_vars_round_step.c b/src/transform_vars_round_step.c
index b9f2702..1fd21da 100644
--- a/src/transform_vars_round_step.c
+++ b/src/transform_vars_round_step.c
@@ -50,7 +50,7 @@ static void transform_vars_round_step_evaluate(coco_problem_t *problem, const do
     }
   }
   coco_evaluate_function(inner_problem, data->rounded_x, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_vars_scale.c b/src/transform_vars_scale.c
index c0f95cf..bcfbff9 100644
--- a/src/transform_vars_scale.c
+++ b/src/transform_vars_scale.c
@@ -38,7 +38,7 @@ static void transform_vars_scale_evaluate(coco_problem_t *problem, const double
       data->x[i] = factor * x[i];
     }
     coco_evaluate_function(inner_problem, data->x, y);
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(!(y[0] + 1e-13 < problem->best_value[0]));
   } while (0);
 }
 
diff --git a/src/transform_vars_shift.c b/src/transform_vars_shift.c
index 188eb7c..cb1e330 100644
--- a/src/transform_vars_shift.c
+++ b/src/transform_vars_shift.c
@@ -47,7 +47,7 @@ static void transform_vars_shift_evaluate_function(coco_problem_t *problem, cons
     if (is_feasible)
       assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
   } else
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_vars_x_hat.c b/src/transform_vars_x_hat.c
index af1ee34..72fa233 100644
--- a/src/transform_vars_x_hat.c
+++ b/src/transform_vars_x_hat.c
@@ -44,7 +44,7 @@ static void transform_vars_x_hat_evaluate(coco_problem_t *problem, const double
       }
     }
     coco_evaluate_function(inner_problem, data->x, y);
-    assert(y[0] + 1e-13 >= problem->best_value[0]);
+    assert(!(y[0] + 1e-13 < problem->best_value[0]));
   } while (0);
 }
 
diff --git a/src/transform_vars_x_hat_generic.c b/src/transform_vars_x_hat_generic.c
index e4ad418..1fe1917 100644
--- a/src/transform_vars_x_hat_generic.c
+++ b/src/transform_vars_x_hat_generic.c
@@ -44,7 +44,7 @@ static void transform_vars_x_hat_generic_evaluate(coco_problem_t *problem, const
     ((f_lunacek_bi_rastrigin_versatile_data_t *)problem->versatile_data)->x_hat[i] = data->x[i];
   }
   coco_evaluate_function(inner_problem, data->x, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
diff --git a/src/transform_vars_z_hat.c b/src/transform_vars_z_hat.c
index ed59ee1..6e132eb 100644
--- a/src/transform_vars_z_hat.c
+++ b/src/transform_vars_z_hat.c
@@ -39,7 +39,7 @@ static void transform_vars_z_hat_evaluate(coco_problem_t *problem, const double
     data->z[i] = x[i] + 0.25 * (x[i - 1] - 2.0 * fabs(data->xopt[i - 1]));
   }
   coco_evaluate_function(inner_problem, data->z, y);
-  assert(y[0] + 1e-13 >= problem->best_value[0]);
+  assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
 
 /**
-- 
2.43.0


From 4a349ca9905786c069fd1c01812b0ca7aed21b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:12 +0000
Subject: [PATCH 52/58] fix: solutions with NaN objective values corrupted the
 order of the bi-objective archive

---
 src/logger_biobj.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/logger_biobj.c b/src/logger_biobj.c
index 8410f8f..5cc2caf 100644
--- a/src/logger_biobj.c
+++ b/src/logger_biobj.c
@@ -200,15 +200,16 @@ static logger_biobj_avl_item_t *logger_biobj_node_create(const coco_problem_t *p
   for (i = 0; i < LOGGER_BIOBJ_NUMBER_OF_INDICATORS; i++)
     item->indicator_contribution[i] = 0;
 
-  /* Determine whether the solution is feasible */
-  item->is_feasible = 1;
+  /* Determine whether the solution is feasible (undefined objective values cannot be compared to others) */
+  item->is_feasible = !coco_vector_contains_nan(y, num_obj);
   if (num_const > 0) {
     assert(constraints != NULL);
     for (i = 0; i < num_const; i++) {
       if (constraints[i] > 0)
         sum_constraints += constraints[i];
     }
-    item->is_feasible = !(sum_constraints > 0);
+    if (sum_constraints > 0)
+      item->is_feasible = 0;
   }
 
   return item;
@@ -749,7 +750,7 @@ static void logger_biobj_evaluate(coco_problem_t *problem, const double *x, doub
 
   logger_biobj_data_t *logger;
   logger_biobj_avl_item_t *node_item;
-  int update_performed;
+  int update_performed, is_feasible;
   coco_problem_t *inner_problem;
   double *constraints = NULL;
 
@@ -773,6 +774,7 @@ static void logger_biobj_evaluate(coco_problem_t *problem, const double *x, doub
 
   /* Update the archive with the new solution, if it is not dominated by or equal to existing solutions in
    * the archive */
+  is_feasible = node_item->is_feasible;
   update_performed = logger_biobj_tree_update(logger, node_item);
 
   /* If the archive was updated and you need to log all nondominated solutions, output the new solution to
@@ -789,6 +791,8 @@ static void logger_biobj_evaluate(coco_problem_t *problem, const double *x, doub
 
   /* Output according to observer options */
   logger_biobj_output(logger, update_performed, node_item);
+  if (!is_feasible) /* The node was not handed over to the archive */
+    logger_biobj_node_free(node_item, NULL);
 
   /* Free allocated memory */
   if (problem->number_of_constraints > 0)
@@ -871,7 +875,7 @@ int coco_logger_biobj_feed_solution(coco_problem_t *problem, const size_t evalua
 
   logger_biobj_data_t *logger;
   logger_biobj_avl_item_t *node_item;
-  int update_performed;
+  int update_performed, is_feasible;
   coco_problem_t *inner_problem;
   double *x;
   size_t i;
@@ -901,10 +905,13 @@ int coco_logger_biobj_feed_solution(coco_problem_t *problem, const size_t evalua
   coco_free_memory(x);
 
   /* Update the archive */
+  is_feasible = node_item->is_feasible;
   update_performed = logger_biobj_tree_update(logger, node_item);
 
   /* Output according to observer options */
   logger_biobj_output(logger, update_performed, node_item);
+  if (!is_feasible) /* The node was not handed over to the archive */
+    logger_biobj_node_free(node_item, NULL);
 
   return update_performed;
 }
-- 
2.43.0


From c60b79391c297cad7d219e9e8536974be64c1191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:42 +0000
Subject: [PATCH 53/58] fix: huge finite points, whose values overflow to NaN,
 aborted the process on the constrained suites

---
 src/coco_problem.c               | 2 +-
 src/transform_obj_scale.c        | 2 +-
 src/transform_obj_shift.c        | 2 +-
 src/transform_vars_affine.c      | 2 +-
 src/transform_vars_asymmetric.c  | 2 +-
 src/transform_vars_enforce_box.c | 2 +-
 src/transform_vars_oscillate.c   | 2 +-
 src/transform_vars_shift.c       | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/coco_problem.c b/src/coco_problem.c
index b51b085..10f8479 100644
--- a/src/coco_problem.c
+++ b/src/coco_problem.c
@@ -912,7 +912,7 @@ static void coco_problem_stacked_evaluate_function(coco_problem_t *problem, cons
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
+      assert(!(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) < problem->best_value[0]));
   }
 }
 
diff --git a/src/transform_obj_scale.c b/src/transform_obj_scale.c
index f21a9ae..d1d589f 100644
--- a/src/transform_obj_scale.c
+++ b/src/transform_obj_scale.c
@@ -40,7 +40,7 @@ static void transform_obj_scale_evaluate_function(coco_problem_t *problem, const
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
+      assert(!(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) < problem->best_value[0]));
   } else
     assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
diff --git a/src/transform_obj_shift.c b/src/transform_obj_shift.c
index 0a91807..f6dc0a6 100644
--- a/src/transform_obj_shift.c
+++ b/src/transform_obj_shift.c
@@ -40,7 +40,7 @@ static void transform_obj_shift_evaluate_function(coco_problem_t *problem, const
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
+      assert(!(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) < problem->best_value[0]));
   } else
     assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
diff --git a/src/transform_vars_affine.c b/src/transform_vars_affine.c
index 6d48f48..91ca32b 100644
--- a/src/transform_vars_affine.c
+++ b/src/transform_vars_affine.c
@@ -57,7 +57,7 @@ static void transform_vars_affine_evaluate_function(coco_problem_t *problem, con
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
+      assert(!(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) < problem->best_value[0]));
   } else
     assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
diff --git a/src/transform_vars_asymmetric.c b/src/transform_vars_asymmetric.c
index f67b5a3..b3d3f9a 100644
--- a/src/transform_vars_asymmetric.c
+++ b/src/transform_vars_asymmetric.c
@@ -99,7 +99,7 @@ static void transform_vars_asymmetric_evaluate_function(coco_problem_t *problem,
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
+      assert(!(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) < problem->best_value[0]));
   } else
     assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
diff --git a/src/transform_vars_enforce_box.c b/src/transform_vars_enforce_box.c
index 1e25695..a14bce5 100644
--- a/src/transform_vars_enforce_box.c
+++ b/src/transform_vars_enforce_box.c
@@ -39,7 +39,7 @@ static void transform_vars_enforce_box_evaluate_function(coco_problem_t *problem
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible) {
-      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
+      assert(!(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) < problem->best_value[0]));
     }
   } else {
     assert(!(y[0] + 1e-13 < problem->best_value[0]));
diff --git a/src/transform_vars_oscillate.c b/src/transform_vars_oscillate.c
index a2cb726..9f6ab1e 100644
--- a/src/transform_vars_oscillate.c
+++ b/src/transform_vars_oscillate.c
@@ -100,7 +100,7 @@ static void transform_vars_oscillate_evaluate_function(coco_problem_t *problem,
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
+      assert(!(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) < problem->best_value[0]));
   } else
     assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
diff --git a/src/transform_vars_shift.c b/src/transform_vars_shift.c
index cb1e330..eb9c2be 100644
--- a/src/transform_vars_shift.c
+++ b/src/transform_vars_shift.c
@@ -45,7 +45,7 @@ static void transform_vars_shift_evaluate_function(coco_problem_t *problem, cons
     is_feasible = coco_is_feasible(problem, x, cons_values);
     coco_free_memory(cons_values);
     if (is_feasible)
-      assert(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) >= problem->best_value[0]);
+      assert(!(y[0] + 1e-10 * (1 + fabs(problem->best_value[0])) < problem->best_value[0]));
   } else
     assert(!(y[0] + 1e-13 < problem->best_value[0]));
 }
-- 
2.43.0


From 07dfd21d14b0797edcf71d3e5bf596ebf58bfb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:42 +0000
Subject: [PATCH 54/58] fix: the old logger wrote beyond its list of dimensions
 at the seventh dimension

---
 src/logger_bbob_old.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logger_bbob_old.c b/src/logger_bbob_old.c
index 483b233..82ea626 100644
--- a/src/logger_bbob_old.c
+++ b/src/logger_bbob_old.c
@@ -310,7 +310,7 @@ static void logger_bbob_old_openIndexFile(logger_bbob_old_data_t *logger, const
           for (j = 0; j < bbob_old_number_of_dimensions; j++) { /* new info file, reinitialize list of dims */
             bbob_old_dimensions_in_current_infoFile[j] = 0;
           }
-          bbob_old_dimensions_in_current_infoFile[i] = logger->number_of_variables;
+          bbob_old_dimensions_in_current_infoFile[0] = logger->number_of_variables;
         }
       } else {
         if (bbob_old_current_funId != logger->function_id) {
-- 
2.43.0


From ecb943de90f49610b7637b371b9f1843f321e155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:42 +0000
Subject: [PATCH 55/58] fix: the old logger appended a header without a line
 break when a dimension is revisited

---
 src/logger_bbob_old.c | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/logger_bbob_old.c b/src/logger_bbob_old.c
index 82ea626..7f829f2 100644
--- a/src/logger_bbob_old.c
+++ b/src/logger_bbob_old.c
@@ -292,10 +292,8 @@ static void logger_bbob_old_openIndexFile(logger_bbob_old_data_t *logger, const
         if (i < bbob_old_number_of_dimensions && bbob_old_dimensions_in_current_infoFile[i] == 0) {
           /* new dimension seen for the first time */
           bbob_old_dimensions_in_current_infoFile[i] = logger->number_of_variables;
-          newLine = 1;
         } else {
           if (i < bbob_old_number_of_dimensions) { /* dimension already present, need to create a new file */
-            newLine = 0;
             file_path[strlen(file_path) - strlen(bbob_old_infoFile_firstInstance_char) - 7] =
                 0; /* truncate the instance part */
             bbob_old_infoFile_firstInstance = logger->instance_id;
@@ -304,29 +302,23 @@ static void logger_bbob_old_openIndexFile(logger_bbob_old_data_t *logger, const
             strncat(file_path, "_i", COCO_PATH_MAX - strlen(file_name) - 1);
             strncat(file_path, bbob_old_infoFile_firstInstance_char, COCO_PATH_MAX - strlen(file_name) - 1);
             strncat(file_path, ".info", COCO_PATH_MAX - strlen(file_name) - 1);
-          } else { /* we have all dimensions */
-            newLine = 1;
           }
           for (j = 0; j < bbob_old_number_of_dimensions; j++) { /* new info file, reinitialize list of dims */
             bbob_old_dimensions_in_current_infoFile[j] = 0;
           }
           bbob_old_dimensions_in_current_infoFile[0] = logger->number_of_variables;
         }
-      } else {
-        if (bbob_old_current_funId != logger->function_id) {
-          /*new function in the same file */
-          newLine = 1;
-        }
       }
+      newLine = coco_file_exists(file_path); /* a new dimension or function in the same file */
       *target_file = fopen(file_path, "a+"); /* in any case, we append */
       if (*target_file == NULL) {
         errnum = errno;
         logger_bbob_old_error_io(*target_file, errnum);
       }
-      if (tmp_file) { /* File already exists, new dim so just a new line. Also, close the tmp_file */
-        if (newLine) {
-          fprintf(*target_file, "\n");
-        }
+      if (newLine) {
+        fprintf(*target_file, "\n");
+      }
+      if (tmp_file) {
         fclose(tmp_file);
       }
       /* data_format = coco_strdup("bbob-constrained"); */
-- 
2.43.0


From 15383adcced97196c08893ddae82c7955d18a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:07 +0000
Subject: [PATCH 56/58] fix: constraints whose values overflow to NaN counted
 as satisfied

---
 src/coco_utilities.c | 2 +-
 src/logger_bbob.c    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coco_utilities.c b/src/coco_utilities.c
index da3dc1b..b3a27be 100644
--- a/src/coco_utilities.c
+++ b/src/coco_utilities.c
@@ -1133,7 +1133,7 @@ static int coco_is_feasible(coco_problem_t *problem, const double *x, double *co
   problem->evaluate_constraint(problem, x, cons_values, 0);
 
   for (i = 0; i < coco_problem_get_number_of_constraints(problem); ++i) {
-    if (cons_values[i] > 0.0) {
+    if (!(cons_values[i] <= 0.0)) {
       ret_val = 0;
       break;
     }
diff --git a/src/logger_bbob.c b/src/logger_bbob.c
index de5659a..eebbf07 100644
--- a/src/logger_bbob.c
+++ b/src/logger_bbob.c
@@ -429,7 +429,7 @@ static void logger_bbob_evaluate(coco_problem_t *problem, const double *x, doubl
   /* Compute the sum of positive constraint values */
   sum_constraints = 0;
   for (i = 0; i < problem->number_of_constraints; ++i) {
-    if (constraints[i] > 0)
+    if (!(constraints[i] <= 0))
       sum_constraints += constraints[i];
   }
   sum_constraints *= LOGGER_BBOB_WEIGHT_CONSTRAINTS; /* do this before the checks */
@@ -536,7 +536,7 @@ static void logger_bbob_recommend(coco_problem_t *problem, const double *x) {
   double sum_constraints;
   sum_constraints = 0.0;
   for (size_t i = 0; i < problem->number_of_constraints; ++i) {
-    if (constraints[i] > 0)
+    if (!(constraints[i] <= 0))
       sum_constraints += constraints[i];
   }
   sum_constraints *= LOGGER_BBOB_WEIGHT_CONSTRAINTS; /* do this before the checks */
-- 
2.43.0


From 9d71c9d4a84c573bda2db95a821a63eadb780609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:47 +0000
Subject: [PATCH 57/58] fix: the old logger counted constraints whose values
 overflow to NaN as satisfied

---
 src/logger_bbob_old.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logger_bbob_old.c b/src/logger_bbob_old.c
index 7f829f2..c46b4f9 100644
--- a/src/logger_bbob_old.c
+++ b/src/logger_bbob_old.c
@@ -440,7 +440,7 @@ static void logger_bbob_old_evaluate(coco_problem_t *problem, const double *x, d
   /* Compute the sum of positive constraint values */
   sum_cons = 0;
   for (i = 0; i < problem->number_of_constraints; ++i) {
-    if (cons[i] > 0)
+    if (!(cons[i] <= 0))
       sum_cons += cons[i];
   }
   sum_cons *= weight_constraints; /* do this before the checks */
-- 
2.43.0


From 27c0864bfe6832df530e037771f9f7606b842d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:59 +0000
Subject: [PATCH 58/58] fix: ascetime with decimals showed an exponent for tiny
 fractions of a second

---
 build/python/src/cocoex/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/build/python/src/cocoex/utilities.py b/build/python/src/cocoex/utilities.py
index 786e29d..61c257d 100644
--- a/build/python/src/cocoex/utilities.py
+++ b/build/python/src/cocoex/utilities.py
@@ -571,7 +571,7 @@ def ascetime(sec, decimals=0):
     """
     if sec < 0:  # sort-of ValueError?
         return "%.1f sec" % (sec)
-    ds = str(sec % 1)[1:2+decimals] if decimals else ""  # fraction
+    ds = ("%.*f" % (decimals + 9, sec % 1))[1:2+decimals] if decimals else ""  # fraction
     # if sec < 10:  # breaks backwards compatibility of processing printed output
     #     return "%d%s sec" % (sec, str(sec % 1)[1:2+max((1, decimals))])
     if sec < 100 and decimals:
-- 
2.43.0

