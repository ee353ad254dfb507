From 18a4a0750ff02ad6e3010c6226c8ebab5dcb4890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 01/48] hook: cache limits of drpm_block.c settable at run time
 under DRPM_SIM

---
 src/drpm_block.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index c5607da..08f6748 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -34,8 +34,16 @@
 #include <sys/wait.h>
 #include <fcntl.h>
 
+#ifdef DRPM_SIM
+/* limits are set at run time by the simulator */
+extern unsigned drpm_sim_max_open_files;
+extern unsigned drpm_sim_max_core_blocks;
+#define MAX_OPEN_FILES drpm_sim_max_open_files
+#define MAX_CORE_BLOCKS drpm_sim_max_core_blocks
+#else
 #define MAX_OPEN_FILES 50
 #define MAX_CORE_BLOCKS 5000
+#endif
 
 #define BLOCK_SIZE (1 << 13)
 
-- 
2.43.0


From 60bfa1db49b94effaf80b2f9195881728d110424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 02/48] fix: drpm_read leaks the result structure when filling
 it in fails

---
 src/drpm.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/drpm.c b/src/drpm.c
index 204ab79..e02b96d 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -79,8 +79,10 @@ int drpm_read(struct drpm **delta_ret, const char *filename)
         goto cleanup;
     }
 
-    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK)
+    if ((error = deltarpm_to_drpm(&delta, *delta_ret)) != DRPM_ERR_OK) {
+        free(*delta_ret);
         goto cleanup;
+    }
 
 cleanup:
     free_deltarpm(&delta);
-- 
2.43.0


From 754be1a0beb3670c976cc46263b3e84a916a1daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:56 +0000
Subject: [PATCH 03/48] fix: drpm_make_options_copy reports success when it
 runs out of memory

---
 src/drpm_options.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index 7df5af4..a9a59c9 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -86,6 +86,9 @@ int drpm_make_options_copy(struct drpm_make_options *opts_dst, const struct drpm
     if (opts_dst == NULL || opts_src == NULL)
         return DRPM_ERR_ARGS;
 
+    if (opts_dst == opts_src)
+        return DRPM_ERR_OK;
+
     opts_dst->rpm_only = opts_src->rpm_only;
     opts_dst->version = opts_src->version;
     opts_dst->comp_from_rpm = opts_src->comp_from_rpm;
@@ -105,19 +108,19 @@ int drpm_make_options_copy(struct drpm_make_options *opts_dst, const struct drpm
 
     if (opts_src->seqfile != NULL) {
         if ((opts_dst->seqfile = malloc(strlen(opts_src->seqfile) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->seqfile, opts_src->seqfile);
     }
 
     if (opts_src->oldrpmprint != NULL) {
         if ((opts_dst->oldrpmprint = malloc(strlen(opts_src->oldrpmprint) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->oldrpmprint, opts_src->oldrpmprint);
     }
 
     if (opts_src->oldpatchrpm != NULL) {
         if ((opts_dst->oldpatchrpm = malloc(strlen(opts_src->oldpatchrpm) + 1)) == NULL)
-            return DRPM_ERR_OK;
+            return DRPM_ERR_MEMORY;
         strcpy(opts_dst->oldpatchrpm, opts_src->oldpatchrpm);
     }
 
-- 
2.43.0


From 2dfbd34fbbf59dae2a18caac5d1f95bcfd170d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:57 +0000
Subject: [PATCH 04/48] fix: drpm_make_options_destroy dereferences a NULL
 options object

---
 src/drpm_options.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index a9a59c9..301cb62 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -44,7 +44,7 @@ int drpm_make_options_init(struct drpm_make_options **opts)
 
 int drpm_make_options_destroy(struct drpm_make_options **opts)
 {
-    if (opts == NULL)
+    if (opts == NULL || *opts == NULL)
         return DRPM_ERR_ARGS;
 
     free((*opts)->seqfile);
-- 
2.43.0


From e15c406da155d84615b8113dd075efb6173d81bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:58 +0000
Subject: [PATCH 05/48] fix: drpm_make_options_add_patches leaves an
 uninitialised name behind on failure

---
 src/drpm_options.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/drpm_options.c b/src/drpm_options.c
index 301cb62..7c594a9 100644
--- a/src/drpm_options.c
+++ b/src/drpm_options.c
@@ -254,24 +254,27 @@ int drpm_make_options_set_seqfile(struct drpm_make_options *opts, const char *se
 
 int drpm_make_options_add_patches(struct drpm_make_options *opts, const char *oldrpmprint, const char *oldpatchrpm)
 {
-    char *tmp;
+    char *rpmprint;
+    char *patchrpm;
 
     if (opts == NULL || oldrpmprint == NULL || oldpatchrpm == NULL)
         return DRPM_ERR_ARGS;
 
-    if (opts->oldrpmprint == NULL || strlen(opts->oldrpmprint) < strlen(oldrpmprint)) {
-        if ((tmp = realloc(opts->oldrpmprint, strlen(oldrpmprint) + 1)) == NULL)
-            return DRPM_ERR_MEMORY;
-        opts->oldrpmprint = tmp;
-    }
-    if (opts->oldpatchrpm == NULL || strlen(opts->oldpatchrpm) < strlen(oldpatchrpm)) {
-        if ((tmp = realloc(opts->oldpatchrpm, strlen(oldpatchrpm) + 1)) == NULL)
-            return DRPM_ERR_MEMORY;
-        opts->oldpatchrpm = tmp;
+    /* either both names are replaced or neither is */
+    if ((rpmprint = malloc(strlen(oldrpmprint) + 1)) == NULL)
+        return DRPM_ERR_MEMORY;
+    if ((patchrpm = malloc(strlen(oldpatchrpm) + 1)) == NULL) {
+        free(rpmprint);
+        return DRPM_ERR_MEMORY;
     }
 
-    strcpy(opts->oldrpmprint, oldrpmprint);
-    strcpy(opts->oldpatchrpm, oldpatchrpm);
+    strcpy(rpmprint, oldrpmprint);
+    strcpy(patchrpm, oldpatchrpm);
+
+    free(opts->oldrpmprint);
+    free(opts->oldpatchrpm);
+    opts->oldrpmprint = rpmprint;
+    opts->oldpatchrpm = patchrpm;
 
     return DRPM_ERR_OK;
 }
-- 
2.43.0


From 899d3357d12f21ede30923aac95c62f9a4233323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 06/48] fix: drpm_make leaks or frees twice its options, RPMs
 and archives when it fails

---
 src/drpm.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index e02b96d..f45b21a 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -329,12 +329,16 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
         solo_rpm_name = (old_rpm_name == NULL) ? new_rpm_name : old_rpm_name;
 
     if (user_opts == NULL)
-        drpm_make_options_defaults(&opts);
+        error = drpm_make_options_defaults(&opts);
     else
-        drpm_make_options_copy(&opts, user_opts);
+        error = drpm_make_options_copy(&opts, user_opts);
+    if (error != DRPM_ERR_OK)
+        goto cleanup;
 
-    if (rpm_only && opts.version < 3)
-        return DRPM_ERR_ARGS;
+    if (rpm_only && opts.version < 3) {
+        error = DRPM_ERR_ARGS;
+        goto cleanup;
+    }
 
     delta.filename = deltarpm_name;
     delta.type = rpm_only ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
@@ -419,12 +423,15 @@ int drpm_make(const char *old_rpm_name, const char *new_rpm_name,
             (error = rpm_fetch_archive(new_rpm, &new_cpio, &new_cpio_len)) != DRPM_ERR_OK)
             goto cleanup;
 
-        if ((old_cpio_tmp = realloc(old_cpio, old_header_len + old_cpio_len)) == NULL ||
-            (new_cpio_tmp = realloc(new_cpio, new_header_len + new_cpio_len)) == NULL) {
+        if ((old_cpio_tmp = realloc(old_cpio, old_header_len + old_cpio_len)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
         old_cpio = old_cpio_tmp;
+        if ((new_cpio_tmp = realloc(new_cpio, new_header_len + new_cpio_len)) == NULL) {
+            error = DRPM_ERR_MEMORY;
+            goto cleanup;
+        }
         new_cpio = new_cpio_tmp;
 
         memmove(old_cpio + old_header_len, old_cpio, old_cpio_len);
@@ -475,11 +482,13 @@ write_files:
 
 cleanup:
 
+    if (!rpm_only) // preventing double free (either solo_rpm or new_rpm)
+        delta.head.tgt_rpm = NULL;
     free_deltarpm(&delta);
 
+    rpm_destroy(&solo_rpm);
     rpm_destroy(&old_rpm);
-    if (rpm_only) // preventing double free (delta.head.tgt_rpm)
-        rpm_destroy(&new_rpm);
+    rpm_destroy(&new_rpm);
 
     free(old_cpio);
     free(new_cpio);
-- 
2.43.0


From 197066963907155a056c67509a37b072552f041d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 07/48] fix: drpm_apply leaks everything it opened when the
 delta needs an old RPM

---
 src/drpm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index f45b21a..68b86d3 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -581,11 +581,15 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
         }
     } else {
         // rpm-only deltarpms do not work from filesystem
-        if (rpm_only)
-            return DRPM_ERR_ARGS;
+        if (rpm_only) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         // cannot reconstruct source RPMs from filesystem
-        if (rpm_is_sourcerpm(delta.head.tgt_rpm))
-            return DRPM_ERR_ARGS;
+        if (rpm_is_sourcerpm(delta.head.tgt_rpm)) {
+            error = DRPM_ERR_ARGS;
+            goto cleanup;
+        }
         /* reading old RPM header from database */
         if ((error = rpm_read_header(&old_rpm, delta.src_nevr, NULL)) != DRPM_ERR_OK)
             goto cleanup;
-- 
2.43.0


From f09a5451450342d2957f20d599c30fd057c8487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:20 +0000
Subject: [PATCH 08/48] fix: drpm_apply ignores a write error reported when the
 target is closed

---
 src/drpm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm.c b/src/drpm.c
index 68b86d3..53d2b3d 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -771,7 +771,8 @@ final_check:
 
 cleanup:
 
-    close(filedesc);
+    if (close(filedesc) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     for (size_t i = 0; i < file_count; i++) {
         free(files[i].name);
-- 
2.43.0


From 64b1258304845de4f43b1ec070a417b36500f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:23 +0000
Subject: [PATCH 09/48] fix: drpm_apply of an identity rpm-only delta writes
 the payload decompressed

---
 src/drpm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/drpm.c b/src/drpm.c
index 53d2b3d..a62d2bd 100644
--- a/src/drpm.c
+++ b/src/drpm.c
@@ -512,6 +512,7 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     struct deltarpm delta = {0};
     const bool from_rpm = (old_rpm_name != NULL);
     bool rpm_only;
+    bool no_diff;
     struct rpm *old_rpm = NULL;
     struct rpm *patched_rpm = NULL;
     unsigned char oldsig_md5[MD5_DIGEST_LENGTH];
@@ -561,10 +562,14 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
         goto cleanup;
     rpm_only = (delta.type == DRPM_TYPE_RPMONLY);
     no_full_md5 = (memcmp(empty_md5, delta.tgt_md5, MD5_DIGEST_LENGTH) == 0);
+    no_diff = (rpm_only && delta.tgt_comp == DRPM_COMP_NONE &&
+               delta.int_copies_count == 0 && delta.ext_copies_count == 0);
 
     if (from_rpm) {
-        /* reading old RPM */
-        if ((error = rpm_read(&old_rpm, old_rpm_name, RPM_ARCHIVE_READ_DECOMP, NULL, NULL, NULL)) != DRPM_ERR_OK)
+        /* reading old RPM (no-diff DeltaRPMs copy its archive as is) */
+        if ((error = rpm_read(&old_rpm, old_rpm_name,
+                              no_diff ? RPM_ARCHIVE_READ_UNCOMP : RPM_ARCHIVE_READ_DECOMP,
+                              NULL, NULL, NULL)) != DRPM_ERR_OK)
             goto cleanup;
         if (rpm_only) {
             /* comparing signature MD5 with DeltaRPM sequence */
@@ -619,8 +624,7 @@ int drpm_apply(const char *old_rpm_name, const char *deltarpm_name, const char *
     if ((error = rpm_replace_lead_and_signature(patched_rpm, delta.tgt_leadsig, delta.tgt_leadsig_len)) != DRPM_ERR_OK)
         goto cleanup;
 
-    if (rpm_only && delta.tgt_comp == DRPM_COMP_NONE &&
-        delta.int_copies_count == 0 && delta.ext_copies_count == 0) {
+    if (no_diff) {
     /* no-diff DeltaRPM, no need for reconstruction */
         if ((error = rpm_write(patched_rpm, new_rpm_name, true, md5_digest, !no_full_md5)) != DRPM_ERR_OK)
             goto cleanup;
-- 
2.43.0


From 6829acb05f6f41337c5e4f8ffe566a09a7381ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:57 +0000
Subject: [PATCH 10/48] fix: reading a standard delta leaks the RPM header on
 failure

---
 src/drpm_read.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 6e2ffea..ca2a6f6 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -417,6 +417,8 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
     if ((error = rpm_read(&rpmst, delta->filename, RPM_ARCHIVE_DONT_READ, NULL, NULL, NULL)) != DRPM_ERR_OK)
         return error;
 
+    delta->head.tgt_rpm = rpmst;
+
     /* reading target compression from header (used for older delta versions) */
     if ((error = rpm_get_comp(rpmst, &delta->tgt_comp)) != DRPM_ERR_OK)
         return error;
@@ -424,8 +426,6 @@ int readdelta_standard(int filedesc, struct deltarpm *delta)
     if (lseek(filedesc, rpm_size_full(rpmst), SEEK_SET) == (off_t)-1)
         return DRPM_ERR_IO;
 
-    delta->head.tgt_rpm = rpmst;
-
     return DRPM_ERR_OK;
 }
 
-- 
2.43.0


From 4561d533cfa2e94c448ee7b94785f4f39afbb5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 11/48] fix: size computations overflow when reading a
 corrupted delta

---
 src/drpm_read.c | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index ca2a6f6..7bf1e1b 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -121,7 +121,7 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     if ((error = decompstrm_read_be32(stream, &src_nevr_len)) != DRPM_ERR_OK)
         goto cleanup;
 
-    if ((delta->src_nevr = malloc(src_nevr_len + 1)) == NULL) {
+    if ((delta->src_nevr = malloc((size_t)src_nevr_len + 1)) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
@@ -191,8 +191,12 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
                 goto cleanup;
 
             if (delta->offadj_elems_count > 0) {
+                if (delta->offadj_elems_count > UINT32_MAX / 2) {
+                    error = DRPM_ERR_OVERFLOW;
+                    goto cleanup;
+                }
                 offadj_elems_size = delta->offadj_elems_count * 2;
-                if ((delta->offadj_elems = malloc(offadj_elems_size * 4)) == NULL) {
+                if ((delta->offadj_elems = malloc((size_t)offadj_elems_size * 4)) == NULL) {
                     error = DRPM_ERR_MEMORY;
                     goto cleanup;
                 }
@@ -240,11 +244,17 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
         (error = decompstrm_read_be32(stream, &delta->ext_copies_count)) != DRPM_ERR_OK)
         goto cleanup;
 
+    if (delta->int_copies_count > UINT32_MAX / 2 ||
+        delta->ext_copies_count > UINT32_MAX / 2) {
+        error = DRPM_ERR_OVERFLOW;
+        goto cleanup;
+    }
+
     int_copies_size = delta->int_copies_count * 2;
     ext_copies_size = delta->ext_copies_count * 2;
 
     if (int_copies_size > 0) {
-        if ((delta->int_copies = malloc(int_copies_size * 4)) == NULL) {
+        if ((delta->int_copies = malloc((size_t)int_copies_size * 4)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
@@ -257,7 +267,7 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
     }
 
     if (ext_copies_size > 0) {
-        if ((delta->ext_copies = malloc(ext_copies_size * 4)) == NULL) {
+        if ((delta->ext_copies = malloc((size_t)ext_copies_size * 4)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
@@ -379,7 +389,7 @@ int readdelta_rpmonly(int filedesc, struct deltarpm *delta)
 
     /* reading target NEVR */
 
-    if ((delta->head.tgt_nevr = malloc(tgt_nevr_len + 1)) == NULL)
+    if ((delta->head.tgt_nevr = malloc((size_t)tgt_nevr_len + 1)) == NULL)
         return DRPM_ERR_MEMORY;
 
     if ((bytes_read = read(filedesc, delta->head.tgt_nevr, tgt_nevr_len)) < 0)
@@ -506,17 +516,17 @@ int deltarpm_to_drpm(const struct deltarpm *src, struct drpm *dst)
     dst->ext_copies_size = src->ext_copies_count * 2;
 
     if ((dst->filename = malloc(strlen(src->filename) + 1)) == NULL ||
-        (dst->sequence = malloc(src->sequence_len * 2 + 1)) == NULL ||
+        (dst->sequence = malloc((size_t)src->sequence_len * 2 + 1)) == NULL ||
         (dst->src_nevr = malloc(strlen(src->src_nevr) + 1)) == NULL ||
         (src->tgt_comp_param_len > 0 &&
-         (dst->tgt_comp_param = malloc(src->tgt_comp_param_len * 2 + 1)) == NULL) ||
-        (dst->tgt_leadsig = malloc(src->tgt_leadsig_len * 2 + 1)) == NULL ||
+         (dst->tgt_comp_param = malloc((size_t)src->tgt_comp_param_len * 2 + 1)) == NULL) ||
+        (dst->tgt_leadsig = malloc((size_t)src->tgt_leadsig_len * 2 + 1)) == NULL ||
         (dst->offadj_elems_size > 0 &&
-         (dst->offadj_elems = malloc(dst->offadj_elems_size * 4)) == NULL) ||
+         (dst->offadj_elems = malloc((size_t)dst->offadj_elems_size * 4)) == NULL) ||
         (dst->int_copies_size > 0 &&
-         (dst->int_copies = malloc(dst->int_copies_size * 4)) == NULL) ||
+         (dst->int_copies = malloc((size_t)dst->int_copies_size * 4)) == NULL) ||
         (dst->ext_copies_size > 0 &&
-         (dst->ext_copies = malloc(dst->ext_copies_size * 4)) == NULL)) {
+         (dst->ext_copies = malloc((size_t)dst->ext_copies_size * 4)) == NULL)) {
         error = DRPM_ERR_MEMORY;
         goto cleanup_fail;
     }
@@ -531,11 +541,11 @@ int deltarpm_to_drpm(const struct deltarpm *src, struct drpm *dst)
         dump_hex(dst->tgt_comp_param, src->tgt_comp_param, src->tgt_comp_param_len);
 
     if (dst->offadj_elems_size > 0)
-        memcpy(dst->offadj_elems, src->offadj_elems, dst->offadj_elems_size * 4);
+        memcpy(dst->offadj_elems, src->offadj_elems, (size_t)dst->offadj_elems_size * 4);
     if (dst->int_copies_size > 0)
-        memcpy(dst->int_copies, src->int_copies, dst->int_copies_size * 4);
+        memcpy(dst->int_copies, src->int_copies, (size_t)dst->int_copies_size * 4);
     if (dst->ext_copies_size > 0)
-        memcpy(dst->ext_copies, src->ext_copies, dst->ext_copies_size * 4);
+        memcpy(dst->ext_copies, src->ext_copies, (size_t)dst->ext_copies_size * 4);
 
     if (src->type == DRPM_TYPE_STANDARD) {
         if ((error = rpm_get_nevr(src->head.tgt_rpm, &dst->tgt_nevr)) != DRPM_ERR_OK)
-- 
2.43.0


From eefacb10683d29aa06dcaf1b03b854741ff0e3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 12/48] fix: deltas of an unknown version are read as if they
 were of version 2

---
 src/drpm_read.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/drpm_read.c b/src/drpm_read.c
index 7bf1e1b..dbacecd 100644
--- a/src/drpm_read.c
+++ b/src/drpm_read.c
@@ -110,6 +110,11 @@ int readdelta_rest(int filedesc, struct deltarpm *delta)
 
     delta->version = version % 256 - '0';
 
+    if (delta->version < 1 || delta->version > 3) {
+        error = DRPM_ERR_FORMAT;
+        goto cleanup;
+    }
+
     if (delta->version < 3 && delta->type == DRPM_TYPE_RPMONLY) {
         // rpm-only deltas only supported since version 3
         error = DRPM_ERR_FORMAT;
-- 
2.43.0


From 477f319533d7df5a1edc1db716d913efb07e82dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 13/48] fix: rpm_read leaks the structure it allocated when it
 fails

---
 src/drpm_rpm.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index a39510a..6dd1a48 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -285,8 +285,10 @@ int rpm_read(struct rpm **rpmst, const char *filename,
     rpm_init(*rpmst);
 
     // hack: extra '\0' to prevent rpmlib from compressing (see rpmio.c)
-    if ((file = Fopen(filename, "rb\0")) == NULL)
-        return DRPM_ERR_IO;
+    if ((file = Fopen(filename, "rb\0")) == NULL) {
+        error = DRPM_ERR_IO;
+        goto cleanup_fail;
+    }
 
     if (Fread((*rpmst)->lead, 1, RPMLEAD_SIZE, file) != RPMLEAD_SIZE ||
         memcmp((*rpmst)->lead, magic_rpm, 4) != 0 ||
@@ -342,12 +344,13 @@ int rpm_read(struct rpm **rpmst, const char *filename,
     goto cleanup;
 
 cleanup_fail:
-    rpm_free(*rpmst);
+    rpm_destroy(rpmst);
 
 cleanup:
     free(signature);
     free(header);
-    Fclose(file);
+    if (file != NULL)
+        Fclose(file);
 
     return error;
 }
-- 
2.43.0


From 3757b354a78510fd3b146d2b6b82434b14cb192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:44 +0000
Subject: [PATCH 14/48] fix: rpm_write ignores a write error reported when the
 file is closed

---
 src/drpm_rpm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 6dd1a48..fdf319a 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -542,7 +542,8 @@ int rpm_write(struct rpm *rpmst, const char *filename, bool include_archive, uns
     }
 
 cleanup:
-    Fclose(file);
+    if (Fclose(file) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
     free(signature);
     free(header);
 
-- 
2.43.0


From e08d662c341f874825f47767ea09e103e9d5bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:17 +0000
Subject: [PATCH 15/48] fix: rpm_read_header frees memory it does not own and
 leaks the exported header

---
 src/drpm_rpm.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index fdf319a..434725d 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -1019,14 +1019,16 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
     if (rpmst == NULL || nevr == NULL)
         return DRPM_ERR_PROG;
 
-    if ((*rpmst = malloc(sizeof(struct rpm))) == NULL ||
-        (str = malloc(strlen(nevr) + 1)) == NULL) {
+    if ((*rpmst = malloc(sizeof(struct rpm))) == NULL)
+        return DRPM_ERR_MEMORY;
+
+    rpm_init(*rpmst);
+
+    if ((str = malloc(strlen(nevr) + 1)) == NULL) {
         error = DRPM_ERR_MEMORY;
         goto cleanup_fail;
     }
 
-    rpm_init(*rpmst);
-
     strcpy(str, nevr);
     release = strrchr(str, '-');
     if (release == NULL || release == str) {
@@ -1073,7 +1075,9 @@ int rpm_read_header(struct rpm **rpmst, const char *nevr, const char *arch)
         goto cleanup_fail;
     }
 
-    if ((error = rpm_export_header(*rpmst, &header, &header_size)) != DRPM_ERR_OK)
+    error = rpm_export_header(*rpmst, &header, &header_size);
+    (*rpmst)->header = NULL; // belongs to the iterator
+    if (error != DRPM_ERR_OK)
         goto cleanup_fail;
 
     if (((*rpmst)->header = headerImport(header + sizeof(rpm_header_magic), 0, HEADERIMPORT_COPY)) == NULL) {
@@ -1094,6 +1098,7 @@ cleanup:
     rpmdbFreeIterator(iter);
     rpmtsFree(trans);
     free(str);
+    free(header);
 
     return error;
 }
-- 
2.43.0


From 8cf4586e3f13c90ff07034d8384e52027806a46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:19 +0000
Subject: [PATCH 16/48] fix: drpm_apply reads past the end of a corrupted lead
 and signature

---
 src/drpm_rpm.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 434725d..f003eca 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -554,6 +554,8 @@ cleanup:
 int rpm_replace_lead_and_signature(struct rpm *rpmst, unsigned char *leadsig, size_t leadsig_len)
 {
     const size_t skip = RPMLEAD_SIZE + sizeof(rpm_header_magic);
+    uint64_t signature_len;
+    Header signature;
 
     if (rpmst == NULL || leadsig == NULL || leadsig_len < RPM_LEADSIG_MIN_LEN)
         return DRPM_ERR_PROG;
@@ -561,12 +563,19 @@ int rpm_replace_lead_and_signature(struct rpm *rpmst, unsigned char *leadsig, si
     if (memcmp(leadsig + RPMLEAD_SIZE, rpm_header_magic, 4) != 0)
         return DRPM_ERR_FORMAT;
 
+    // index and data counts, index entries and data
+    signature_len = 8 + 16 * (uint64_t)parse_be32(leadsig + skip) +
+                    parse_be32(leadsig + skip + 4);
+    if (signature_len > leadsig_len - skip)
+        return DRPM_ERR_FORMAT;
+
+    if ((signature = headerImport(leadsig + skip, signature_len, HEADERIMPORT_COPY)) == NULL)
+        return DRPM_ERR_FORMAT;
+
     memcpy(rpmst->lead, leadsig, RPMLEAD_SIZE);
 
     headerFree(rpmst->signature);
-
-    if ((rpmst->signature = headerImport(leadsig + skip, 0, HEADERIMPORT_COPY)) == NULL)
-        return DRPM_ERR_FORMAT;
+    rpmst->signature = signature;
 
     return DRPM_ERR_OK;
 }
-- 
2.43.0


From 61d6b7e8450634494f65085934da8b5b816658b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 17/48] fix: write_deltarpm leaks the compressed data when
 writing the head fails

---
 src/drpm_write.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 87da972..22406bf 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -209,28 +209,34 @@ int write_deltarpm(struct deltarpm *delta)
     switch (delta->type) {
     case DRPM_TYPE_STANDARD:
         if ((error = rpm_fetch_header(delta->head.tgt_rpm, &header, &header_size)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
         if (MD5_Init(&md5) != 1 ||
             MD5_Update(&md5, header, header_size) != 1 ||
             MD5_Update(&md5, strm_data, strm_data_len) != 1 ||
-            MD5_Final(md5_digest, &md5) != 1)
-            return DRPM_ERR_OTHER;
+            MD5_Final(md5_digest, &md5) != 1) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
 
         if ((error = rpm_signature_empty(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_size(delta->head.tgt_rpm, header_size + strm_data_len)) != DRPM_ERR_OK ||
             (error = rpm_signature_set_md5(delta->head.tgt_rpm, md5_digest)) != DRPM_ERR_OK ||
             (error = rpm_signature_reload(delta->head.tgt_rpm)) != DRPM_ERR_OK ||
             (error = rpm_write(delta->head.tgt_rpm, delta->filename, false, NULL, false)) != DRPM_ERR_OK)
-            return error;
+            goto cleanup;
 
-        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = open(delta->filename, O_WRONLY | O_APPEND)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
         break;
 
     case DRPM_TYPE_RPMONLY:
-        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0)
-            return DRPM_ERR_IO;
+        if ((filedesc = creat(delta->filename, CREAT_MODE)) < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
 
         if (write(filedesc, "drpm", 4) != 4 ||
             write(filedesc, version, 4) != 4) {
-- 
2.43.0


From d547d7a32288b8e4788d0b620487780ca317b620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 18/48] fix: write errors reported on close of the delta or the
 sequence file are ignored

---
 src/drpm_write.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 22406bf..0ff05d6 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -272,7 +272,9 @@ cleanup:
 
     free(header);
     free(strm_data);
-    close(filedesc);
+
+    if (filedesc >= 0 && close(filedesc) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     return error;
 }
@@ -293,11 +295,13 @@ int write_seqfile(struct deltarpm *delta, const char *filename)
 
     dump_hex(sequence, delta->sequence, delta->sequence_len);
 
-    fprintf(file, "%s-%s\n", delta->src_nevr, sequence);
+    if (fprintf(file, "%s-%s\n", delta->src_nevr, sequence) < 0)
+        error = DRPM_ERR_IO;
 
 cleanup:
     free(sequence);
-    fclose(file);
+    if (fclose(file) != 0 && error == DRPM_ERR_OK)
+        error = DRPM_ERR_IO;
 
     return error;
 }
-- 
2.43.0


From 077f8a2472dad2ea3afba02715d1371c7d125511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:52 +0000
Subject: [PATCH 19/48] fix: drpm_apply frees the compressed data twice when it
 runs out of memory

---
 src/drpm_write.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drpm_write.c b/src/drpm_write.c
index 0ff05d6..99e38d3 100644
--- a/src/drpm_write.c
+++ b/src/drpm_write.c
@@ -388,6 +388,7 @@ int compstrm_wrapper_finish(struct compstrm_wrapper *csw, unsigned char **data,
 
     if ((data_tmp = realloc(*data, csw->uncomp_len + *data_len)) == NULL) {
         free(*data);
+        *data = NULL;
         return DRPM_ERR_MEMORY;
     }
 
-- 
2.43.0


From 671958b73d996632a88900d1f8f2a55fe641e30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 20/48] fix: compression streams leak their compressor when not
 finished properly

---
 src/drpm_compstrm.c | 153 +++++++++++++++++++++++++++-----------------
 1 file changed, 95 insertions(+), 58 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 758dea1..8499201 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -55,9 +55,13 @@ struct compstrm {
     } stream;
     int (*write_chunk)(struct compstrm *, size_t, const void *);
     int (*finish)(struct compstrm *);
+    void (*end)(struct compstrm *);
     bool finished;
 };
 
+static void end_bzip2(struct compstrm *);
+static void end_gzip(struct compstrm *);
+static void end_lzma(struct compstrm *);
 static int finish_bzip2(struct compstrm *);
 static int finish_gzip(struct compstrm *);
 static int finish_lzma(struct compstrm *);
@@ -71,6 +75,7 @@ static int writechunk_gzip(struct compstrm *, size_t, const void *);
 static int writechunk_lzma(struct compstrm *, size_t, const void *);
 
 #ifdef HAVE_LZLIB_DEVEL
+static void end_lzip(struct compstrm *);
 static int finish_lzip(struct compstrm *);
 static int init_lzip(struct compstrm *, int);
 static int writechunk_lzip(struct compstrm *, size_t, const void *);
@@ -92,16 +97,47 @@ static int lzip_error(struct compstrm *strm)
 #endif
 
 #ifdef WITH_ZSTD
+static void end_zstd(struct compstrm *);
 static int finish_zstd(struct compstrm *);
 static int init_zstd(struct compstrm *, int);
 static int writechunk_zstd(struct compstrm *, size_t, const void *);
 #endif
 
+/* Functions for releasing compressors of individual methods. */
+
+void end_bzip2(struct compstrm *strm)
+{
+    BZ2_bzCompressEnd(&strm->stream.bzip2);
+}
+
+void end_gzip(struct compstrm *strm)
+{
+    deflateEnd(&strm->stream.gzip);
+}
+
+void end_lzma(struct compstrm *strm)
+{
+    lzma_end(&strm->stream.lzma);
+}
+
+#ifdef HAVE_LZLIB_DEVEL
+void end_lzip(struct compstrm *strm)
+{
+    LZ_compress_close(strm->stream.lzip);
+}
+#endif
+
+#ifdef WITH_ZSTD
+void end_zstd(struct compstrm *strm)
+{
+    ZSTD_freeCCtx(strm->stream.zstd_context);
+}
+#endif
+
 /* Functions for finishing compression for individual methods. */
 
 int finish_bzip2(struct compstrm *strm)
 {
-    int error = DRPM_ERR_OK;
     int ret;
     unsigned char *data_tmp;
     char out_buffer[CHUNK_SIZE];
@@ -113,28 +149,23 @@ int finish_bzip2(struct compstrm *strm)
     do {
         strm->stream.bzip2.next_out = out_buffer;
         strm->stream.bzip2.avail_out = CHUNK_SIZE;
-        ret = BZ2_bzCompress(&strm->stream.bzip2, BZ_FINISH);
+        if ((ret = BZ2_bzCompress(&strm->stream.bzip2, BZ_FINISH)) < 0)
+            return DRPM_ERR_OTHER;
         out_len = CHUNK_SIZE - strm->stream.bzip2.avail_out;
         if (out_len == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL) {
-            error = DRPM_ERR_MEMORY;
-            goto cleanup;
-        }
+        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL)
+            return DRPM_ERR_MEMORY;
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, out_buffer, out_len);
         strm->data_len += out_len;
     } while (ret != BZ_STREAM_END);
 
-cleanup:
-    BZ2_bzCompressEnd(&strm->stream.bzip2);
-
-    return error;
+    return DRPM_ERR_OK;
 }
 
 int finish_gzip(struct compstrm *strm)
 {
-    int error = DRPM_ERR_OK;
     unsigned char *data_tmp;
     unsigned char out_buffer[CHUNK_SIZE];
     size_t out_len;
@@ -145,28 +176,23 @@ int finish_gzip(struct compstrm *strm)
     do {
         strm->stream.gzip.next_out = out_buffer;
         strm->stream.gzip.avail_out = CHUNK_SIZE;
-        deflate(&strm->stream.gzip, Z_FINISH);
+        if (deflate(&strm->stream.gzip, Z_FINISH) == Z_STREAM_ERROR)
+            return DRPM_ERR_OTHER;
         out_len = CHUNK_SIZE - strm->stream.gzip.avail_out;
         if (out_len == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL) {
-            error = DRPM_ERR_MEMORY;
-            goto cleanup;
-        }
+        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL)
+            return DRPM_ERR_MEMORY;
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, out_buffer, out_len);
         strm->data_len += out_len;
     } while (strm->stream.gzip.avail_out == 0);
 
-cleanup:
-    deflateEnd(&strm->stream.gzip);
-
-    return error;
+    return DRPM_ERR_OK;
 }
 
 int finish_lzma(struct compstrm *strm)
 {
-    int error = DRPM_ERR_OK;
     int ret;
     unsigned char *data_tmp;
     unsigned char out_buffer[CHUNK_SIZE];
@@ -183,34 +209,27 @@ int finish_lzma(struct compstrm *strm)
         case LZMA_STREAM_END:
             break;
         case LZMA_MEM_ERROR:
-            error = DRPM_ERR_MEMORY;
-            goto cleanup;
+            return DRPM_ERR_MEMORY;
         default:
-            error = DRPM_ERR_FORMAT;
-            goto cleanup;
+            return DRPM_ERR_FORMAT;
         }
         out_len = CHUNK_SIZE - strm->stream.lzma.avail_out;
         if (out_len == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL) {
-            error = DRPM_ERR_MEMORY;
-            goto cleanup;
-        }
+        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL)
+            return DRPM_ERR_MEMORY;
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, out_buffer, out_len);
         strm->data_len += out_len;
     } while (ret != LZMA_STREAM_END);
 
-cleanup:
-    lzma_end(&strm->stream.lzma);
-
-    return error;
+    return DRPM_ERR_OK;
 }
 
 #ifdef HAVE_LZLIB_DEVEL
 int finish_lzip(struct compstrm *strm)
 {
-    int error = DRPM_ERR_OK;
+    int error;
     int rd;
     unsigned char *data_tmp;
     unsigned char out_buffer[CHUNK_SIZE];
@@ -221,32 +240,26 @@ int finish_lzip(struct compstrm *strm)
     do {
         if ((rd = LZ_compress_read(strm->stream.lzip, out_buffer, CHUNK_SIZE)) < 0) {
             error = lzip_error(strm);
-            if (error == DRPM_ERR_OK)
-                error = DRPM_ERR_OTHER;
-            goto cleanup;
+            return error == DRPM_ERR_OK ? DRPM_ERR_OTHER : error;
         }
         out_len = rd;
         if (out_len == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL) {
-            error = DRPM_ERR_MEMORY;
-            goto cleanup;
-        }
+        if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL)
+            return DRPM_ERR_MEMORY;
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, out_buffer, out_len);
         strm->data_len += out_len;
     } while (!LZ_compress_finished(strm->stream.lzip));
 
-cleanup:
-    LZ_compress_close(strm->stream.lzip);
-
-    return error;
+    return DRPM_ERR_OK;
 }
 #endif
 
 #ifdef WITH_ZSTD
 int finish_zstd(struct compstrm *strm)
 {
+    int error = DRPM_ERR_OK;
     size_t const buffOutSize = ZSTD_CStreamOutSize();
     void* const buffOut = malloc(buffOutSize);
     if (buffOut == NULL)
@@ -259,21 +272,26 @@ int finish_zstd(struct compstrm *strm)
     do{
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         remaining = ZSTD_compressStream2(strm->stream.zstd_context, &output , &input, ZSTD_e_end);
-        if (ZSTD_isError(remaining))
-            return DRPM_ERR_OTHER;
+        if (ZSTD_isError(remaining)) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
 
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
-            return DRPM_ERR_MEMORY;
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            error = DRPM_ERR_MEMORY;
+            goto cleanup;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
     } while(remaining != 0);
 
+cleanup:
     free(buffOut);
-    ZSTD_freeCCtx(strm->stream.zstd_context);
-    return DRPM_ERR_OK;
+
+    return error;
 }
 
 #endif
@@ -284,6 +302,7 @@ int init_bzip2(struct compstrm *strm, int level)
 {
     strm->write_chunk = writechunk_bzip2;
     strm->finish = finish_bzip2;
+    strm->end = end_bzip2;
 
     strm->stream.bzip2.bzalloc = NULL;
     strm->stream.bzip2.bzfree = NULL;
@@ -310,6 +329,7 @@ int init_gzip(struct compstrm *strm, int level)
 {
     strm->write_chunk = writechunk_gzip;
     strm->finish = finish_gzip;
+    strm->end = end_gzip;
 
     strm->stream.gzip.zalloc = Z_NULL;
     strm->stream.gzip.zfree = Z_NULL;
@@ -338,6 +358,7 @@ int init_lzma(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_lzma;
     strm->finish = finish_lzma;
+    strm->end = end_lzma;
     strm->stream.lzma = stream;
 
     if (level == DRPM_COMP_LEVEL_DEFAULT)
@@ -363,6 +384,7 @@ int init_xz(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_lzma;
     strm->finish = finish_lzma;
+    strm->end = end_lzma;
     strm->stream.lzma = stream;
     memset(&strm->stream.lzma, 0, sizeof(lzma_stream));
 
@@ -388,6 +410,7 @@ int init_lzip(struct compstrm *strm, int level)
 
     strm->write_chunk = writechunk_lzip;
     strm->finish = finish_lzip;
+    strm->end = end_lzip;
 
     if ((strm->stream.lzip = LZ_compress_open(65535, 16, SIZE_MAX)) == NULL)
         return DRPM_ERR_MEMORY;
@@ -408,11 +431,14 @@ int init_zstd(struct compstrm *strm, int level)
     if (level == DRPM_COMP_LEVEL_DEFAULT)
         level = 19;
 
-    if (ZSTD_isError(ZSTD_CCtx_setParameter(strm->stream.zstd_context, ZSTD_c_compressionLevel, level)))
+    if (ZSTD_isError(ZSTD_CCtx_setParameter(strm->stream.zstd_context, ZSTD_c_compressionLevel, level))) {
+        ZSTD_freeCCtx(strm->stream.zstd_context);
         return DRPM_ERR_OTHER;
+    }
 
     strm->write_chunk = writechunk_zstd;
     strm->finish = finish_zstd;
+    strm->end = end_zstd;
 
     return DRPM_ERR_OK;
 }
@@ -424,6 +450,9 @@ int compstrm_destroy(struct compstrm **strm)
     if (strm == NULL || *strm == NULL)
         return DRPM_ERR_PROG;
 
+    if ((*strm)->end != NULL)
+        (*strm)->end(*strm);
+
     free((*strm)->data);
     free(*strm);
     *strm = NULL;
@@ -454,6 +483,7 @@ int compstrm_init(struct compstrm **strm, int filedesc, unsigned short comp, int
     case DRPM_COMP_NONE:
         (*strm)->write_chunk = writechunk;
         (*strm)->finish = NULL;
+        (*strm)->end = NULL;
         break;
     case DRPM_COMP_GZIP:
         if ((error = init_gzip(*strm, level)) != DRPM_ERR_OK)
@@ -484,7 +514,8 @@ int compstrm_init(struct compstrm **strm, int filedesc, unsigned short comp, int
         break;
 #endif
     default:
-        return DRPM_ERR_PROG;
+        error = DRPM_ERR_PROG;
+        goto cleanup_fail;
     }
 
     return DRPM_ERR_OK;
@@ -734,6 +765,7 @@ int writechunk_lzip(struct compstrm *strm, size_t in_len, const void *in_buffer)
 #ifdef WITH_ZSTD
 int writechunk_zstd(struct compstrm *strm, size_t in_len, const void *in_buffer)
 {
+    int error = DRPM_ERR_OK;
     size_t const buffOutSize = ZSTD_CStreamOutSize();
     void* const buffOut = malloc(buffOutSize);
     if (buffOut == NULL)
@@ -744,20 +776,25 @@ int writechunk_zstd(struct compstrm *strm, size_t in_len, const void *in_buffer)
     do{
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         size_t const remaining = ZSTD_compressStream2(strm->stream.zstd_context, &output , &input, ZSTD_e_continue);
-        if (ZSTD_isError(remaining))
-            return DRPM_ERR_OTHER;
+        if (ZSTD_isError(remaining)) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
 
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
-            return DRPM_ERR_MEMORY;
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            error = DRPM_ERR_MEMORY;
+            goto cleanup;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
     } while(input.pos != input.size);
 
+cleanup:
     free(buffOut);
 
-    return DRPM_ERR_OK;
+    return error;
 }
 #endif
-- 
2.43.0


From 7f26f5bd15c552b6ca5becf9db187016aef66348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 21/48] fix: compression levels a compressor does not support
 produce broken output

---
 src/drpm_compstrm.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/drpm_compstrm.c b/src/drpm_compstrm.c
index 8499201..8dfe4f0 100644
--- a/src/drpm_compstrm.c
+++ b/src/drpm_compstrm.c
@@ -314,12 +314,14 @@ int init_bzip2(struct compstrm *strm, int level)
         level = 9;
 
     switch (BZ2_bzCompressInit(&strm->stream.bzip2, level, 0, 0)) {
+    case BZ_OK:
+        break;
     case BZ_CONFIG_ERROR:
-        BZ2_bzCompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_CONFIG;
     case BZ_MEM_ERROR:
-        BZ2_bzCompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_MEMORY;
+    default:
+        return DRPM_ERR_FORMAT;
     }
 
     return DRPM_ERR_OK;
@@ -340,12 +342,14 @@ int init_gzip(struct compstrm *strm, int level)
 
     switch (deflateInit2(&strm->stream.gzip, level, Z_DEFLATED,
             16 + MAX_WBITS, 8, Z_DEFAULT_STRATEGY)) {
+    case Z_OK:
+        break;
     case Z_VERSION_ERROR:
-        deflateEnd(&strm->stream.gzip);
         return DRPM_ERR_CONFIG;
     case Z_MEM_ERROR:
-        deflateEnd(&strm->stream.gzip);
         return DRPM_ERR_MEMORY;
+    default:
+        return DRPM_ERR_FORMAT;
     }
 
     return DRPM_ERR_OK;
@@ -364,7 +368,8 @@ int init_lzma(struct compstrm *strm, int level)
     if (level == DRPM_COMP_LEVEL_DEFAULT)
         level = 2;
 
-    lzma_lzma_preset(&options, level);
+    if (lzma_lzma_preset(&options, level))
+        return DRPM_ERR_FORMAT;
 
     switch (lzma_alone_encoder(&strm->stream.lzma, &options)) {
     case LZMA_OK:
-- 
2.43.0


From 0da8e467af941b5e6906cdd5075e7225acb59b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 22/48] fix: decompressing zstd leaks its output buffer on
 errors

---
 src/drpm_decompstrm.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index ec3115e..3429cd2 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -732,6 +732,7 @@ int readchunk_lzip(struct decompstrm *strm)
 #ifdef WITH_ZSTD
 int readchunk_zstd(struct decompstrm *strm)
 {
+    int error = DRPM_ERR_OK;
     ssize_t in_len;
     unsigned char *data_tmp;
     unsigned char in_buffer[CHUNK_SIZE];
@@ -759,12 +760,16 @@ int readchunk_zstd(struct decompstrm *strm)
     while (input.pos < input.size) {
         ZSTD_outBuffer output = { buffOut, buffOutSize, 0 };
         size_t const ret = ZSTD_decompressStream(strm->stream.zstd_context, &output , &input);
-        if (ZSTD_isError(ret))
-            return DRPM_ERR_OTHER;
+        if (ZSTD_isError(ret)) {
+            error = DRPM_ERR_OTHER;
+            goto cleanup;
+        }
         if (output.pos == 0)
             continue;
-        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL)
-            return DRPM_ERR_MEMORY;
+        if ((data_tmp = realloc(strm->data, strm->data_len + output.pos)) == NULL) {
+            error = DRPM_ERR_MEMORY;
+            goto cleanup;
+        }
         strm->data = data_tmp;
         memcpy(strm->data + strm->data_len, buffOut, output.pos);
         strm->data_len += output.pos;
@@ -773,9 +778,11 @@ int readchunk_zstd(struct decompstrm *strm)
     strm->comp_size += in_len;
 
     if (strm->md5 != NULL && MD5_Update(strm->md5, in_buffer, in_len) != 1)
-        return DRPM_ERR_OTHER;
+        error = DRPM_ERR_OTHER;
 
+cleanup:
     free(buffOut);
-    return DRPM_ERR_OK;
+
+    return error;
 }
 #endif
-- 
2.43.0


From 87b1affb0c1bb6caf8a8eb91c106c93c38434f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:49 +0000
Subject: [PATCH 23/48] fix: decompressing lzip never ends when there is
 trailing data

---
 src/drpm_decompstrm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index 3429cd2..27b0faa 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -696,6 +696,7 @@ int readchunk_lzip(struct decompstrm *strm)
         } while (!LZ_decompress_finished(strm->stream.lzip));
     } else {
         while (written < in_len) {
+            wr = 0;
             if (LZ_decompress_write_size(strm->stream.lzip) > 0) {
                 if ((wr = LZ_decompress_write(strm->stream.lzip,
                                               in_buffer + written,
@@ -710,8 +711,11 @@ int readchunk_lzip(struct decompstrm *strm)
                 return error == DRPM_ERR_OK ? DRPM_ERR_OTHER : error;
             }
             out_len = rd;
-            if (out_len == 0)
+            if (out_len == 0) {
+                if (wr == 0) // no progress: trailing data after the last member
+                    break;
                 continue;
+            }
             if ((data_tmp = realloc(strm->data, strm->data_len + out_len)) == NULL)
                 return DRPM_ERR_MEMORY;
             strm->data = data_tmp;
-- 
2.43.0


From bda4858cac38b9b7b96fa475bf7acc4720e064fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 24/48] fix: corrupted compressed archives are silently cut off
 where they break

---
 src/drpm_decompstrm.c | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index 27b0faa..03134a0 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -63,7 +63,7 @@ struct decompstrm {
         ZSTD_DCtx *zstd_context;
 #endif
     } stream;
-    bool lzip_eof;
+    bool eof;
     int (*read_chunk)(struct decompstrm *);
     void (*finish)(struct decompstrm *);
     size_t comp_size;
@@ -215,7 +215,6 @@ int init_lzip(struct decompstrm *strm)
 
     strm->read_chunk = readchunk_lzip;
     strm->finish = finish_lzip;
-    strm->lzip_eof = false;
 
     if ((strm->stream.lzip = LZ_decompress_open()) == NULL)
         return DRPM_ERR_MEMORY;
@@ -286,6 +285,7 @@ int decompstrm_init(struct decompstrm **strm, int filedesc, unsigned short *comp
     (*strm)->data_len = 0;
     (*strm)->data_pos = 0;
     (*strm)->filedesc = filedesc;
+    (*strm)->eof = false;
     (*strm)->comp_size = 0;
     (*strm)->md5 = md5;
     (*strm)->buffer = buffer;
@@ -424,8 +424,10 @@ int decompstrm_read_until_eof(struct decompstrm *strm,
         switch ((error = strm->read_chunk(strm))) {
         case DRPM_ERR_OK:
             break;
-        case DRPM_ERR_FORMAT: // nothing more to read
-            eof = true;
+        case DRPM_ERR_FORMAT:
+            if (!strm->eof) // corrupted data
+                return error;
+            eof = true; // nothing more to read
             break;
         default:
             return error;
@@ -466,8 +468,10 @@ int readchunk(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     if ((data_tmp = realloc(strm->data, strm->data_len + in_len)) == NULL)
         return DRPM_ERR_MEMORY;
@@ -502,8 +506,10 @@ int readchunk_bzip2(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     strm->stream.bzip2.next_in = in_buffer;
     strm->stream.bzip2.avail_in = in_len;
@@ -555,8 +561,10 @@ int readchunk_gzip(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     strm->stream.gzip.next_in = in_buffer;
     strm->stream.gzip.avail_in = in_len;
@@ -609,8 +617,10 @@ int readchunk_lzma(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     strm->stream.lzma.next_in = in_buffer;
     strm->stream.lzma.avail_in = in_len;
@@ -664,7 +674,7 @@ int readchunk_lzip(struct decompstrm *strm)
     int wr;
     int rd;
 
-    if (strm->lzip_eof)
+    if (strm->eof)
         return DRPM_ERR_FORMAT;
 
     if (strm->filedesc < 0) {
@@ -678,7 +688,7 @@ int readchunk_lzip(struct decompstrm *strm)
     }
 
     if (in_len == 0) {
-        strm->lzip_eof = true;
+        strm->eof = true;
         LZ_decompress_finish(strm->stream.lzip);
         do {
             if ((rd = LZ_decompress_read(strm->stream.lzip, out_buffer, CHUNK_SIZE)) < 0) {
@@ -751,8 +761,10 @@ int readchunk_zstd(struct decompstrm *strm)
             return DRPM_ERR_IO;
     }
 
-    if (in_len == 0)
+    if (in_len == 0) {
+        strm->eof = true;
         return DRPM_ERR_FORMAT;
+    }
 
     size_t const buffOutSize = ZSTD_DStreamOutSize();
     void* const buffOut = malloc(buffOutSize);
-- 
2.43.0


From 70bbf18909e001886ba1d5691f5deeaebdae9c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 25/48] fix: drpm_apply rejects uncompressed add blocks shorter
 than 8 bytes

---
 src/drpm_decompstrm.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index 03134a0..2b68ee6 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -264,13 +264,15 @@ int decompstrm_init(struct decompstrm **strm, int filedesc, unsigned short *comp
                     const unsigned char *buffer, size_t buffer_len)
 {
     uint64_t magic;
+    unsigned char magic_bytes[8] = {0};
     int error = DRPM_ERR_OK;
 
-    if (strm == NULL || (filedesc < 0 && (buffer == NULL || buffer_len < 8)))
+    if (strm == NULL || (filedesc < 0 && buffer == NULL))
         return DRPM_ERR_PROG;
 
     if (filedesc < 0) {
-        magic = parse_be64(buffer);
+        memcpy(magic_bytes, buffer, MIN(buffer_len, 8));
+        magic = parse_be64(magic_bytes);
     } else {
         if ((error = read_be64(filedesc, &magic)) != DRPM_ERR_OK)
             return error;
-- 
2.43.0


From b2ca00fedd342981a8b88d8f3f0b0b30f2b67ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 26/48] fix: make_diff frees memory it never allocated, or
 twice, when it fails

---
 src/drpm_diff.c   | 8 +++++---
 src/drpm_search.c | 4 ++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/drpm_diff.c b/src/drpm_diff.c
index 8de8bf8..5aa6c9b 100644
--- a/src/drpm_diff.c
+++ b/src/drpm_diff.c
@@ -86,13 +86,13 @@ int make_diff(const unsigned char *old, size_t old_len,
 
     const bool addblk = (add_block_ret != NULL && add_block_len_ret != NULL);
     size_t add_block_len;
-    struct compstrm *stream;
+    struct compstrm *stream = NULL;
 
     struct diff_copy *diff_copies = NULL;
     size_t diff_copies_len = 0;
 
     //struct sfxsrt *suffix;
-    struct hash *hashtab;
+    struct hash *hashtab = NULL;
 
     size_t old_pos = 0;
     size_t new_pos = 0;
@@ -261,8 +261,10 @@ int make_diff(const unsigned char *old, size_t old_len,
     goto cleanup;
 
 cleanup_fail:
-    if (addblk)
+    if (addblk) {
         free(*add_block_ret);
+        *add_block_ret = NULL;
+    }
 
 cleanup:
     free(diff_copies);
diff --git a/src/drpm_search.c b/src/drpm_search.c
index 008b7f8..86ddc3d 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -178,6 +178,7 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
 
     if ((hash_table = calloc(ht_len, sizeof(size_t))) == NULL) {
         free(*hsh);
+        *hsh = NULL;
         return DRPM_ERR_MEMORY;
     }
 
@@ -201,6 +202,9 @@ int hash_create(struct hash **hsh, const unsigned char *old, size_t old_len)
 
 void hash_free(struct hash **hsh)
 {
+    if (*hsh == NULL)
+        return;
+
     free((*hsh)->hash_table);
     free(*hsh);
 }
-- 
2.43.0


From 1aa598b1a4ee6bb500d00488f879915cdbafaef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:23 +0000
Subject: [PATCH 27/48] fix: file digests of an unexpected length overflow the
 buffers they are parsed into

---
 src/drpm_utils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_utils.c b/src/drpm_utils.c
index 6ef0f2f..ff3ad89 100644
--- a/src/drpm_utils.c
+++ b/src/drpm_utils.c
@@ -146,12 +146,14 @@ ssize_t parse_hexnum(const char *str, size_t size)
 
 bool parse_md5(unsigned char *dest, const char *source)
 {
-    return parse_hex(dest, source) == MD5_DIGEST_LENGTH;
+    return strlen(source) / 2 == MD5_DIGEST_LENGTH &&
+           parse_hex(dest, source) == MD5_DIGEST_LENGTH;
 }
 
 bool parse_sha256(unsigned char *dest, const char *source)
 {
-    return parse_hex(dest, source) == SHA256_DIGEST_LENGTH;
+    return strlen(source) / 2 == SHA256_DIGEST_LENGTH &&
+           parse_hex(dest, source) == SHA256_DIGEST_LENGTH;
 }
 
 /* Reallocates memory for <*buffer> <threshold> bytes at a time>. */
-- 
2.43.0


From 8908b92e898f84725b43e0faa45b47d0bc2f509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 28/48] fix: a corrupted sequence makes expand_sequence write
 past its buffer

---
 src/drpm_apply.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index fc6e032..add50b2 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -115,6 +115,10 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
             i++;
         }
         even = !even;
+        if (shift >= 60) {
+            error = DRPM_ERR_FORMAT;
+            goto cleanup_fail;
+        }
         if ((num_buf & (1 << 3)) != 0) {
             num_buf ^= 1 << 3;
             if (shift)
@@ -146,7 +150,7 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
         }
 
         while (number-- > 0) {
-            if (positions_len > file_count || pos > file_count) {
+            if (positions_len >= file_count || pos >= file_count) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup_fail;
             }
-- 
2.43.0


From 3bba6f6dff9d71d67841ce45781465dbd397a7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 29/48] fix: checking files leaks descriptors and memory on
 errors

---
 src/drpm_apply.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index add50b2..bb976bd 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -233,7 +233,7 @@ int expand_sequence(struct cpio_file **seqfiles_ret, size_t *seqfiles_len_ret,
                 break;
             }
             if (check != NULL && (error = check(files[i].name, digest_algo, digest, filesize)) != DRPM_ERR_OK)
-                goto cleanup;
+                goto cleanup_fail;
         }
 
         if (want_seq) {
@@ -306,8 +306,10 @@ int check_filesize(const char *filename, unsigned short digest_algo,
         if ((filedesc = open(filename, O_RDONLY)) < 0)
             return DRPM_ERR_IO;
         if ((read_len = read(filedesc, buf, 128)) > 0) {
-            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
+            if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK) {
+                close(filedesc);
                 return error;
+            }
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
@@ -349,7 +351,7 @@ int check_full(const char *filename, unsigned short digest_algo,
     if (stats.st_size > (off_t)filesize) {
         if ((read_len = read(filedesc, buf, BUFFER_SIZE)) > 0) {
             if ((error = is_prelinked(&prelink, filedesc, buf, read_len)) != DRPM_ERR_OK)
-                return error;
+                goto cleanup;
             if (prelink) {
                 close(filedesc);
                 return check_prelink(filename, digest_algo, digest, filesize);
-- 
2.43.0


From 09b043f50e4c96e658c60a68a0a49678894d95b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:05 +0000
Subject: [PATCH 30/48] fix: a full check reports read errors as changed files

---
 src/drpm_apply.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index bb976bd..3d23cbb 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -362,6 +362,10 @@ int check_full(const char *filename, unsigned short digest_algo,
                 goto cleanup;
             filesize -= read_len;
         }
+        if (read_len < 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
     }
 
     while (filesize > 0 && (read_len = read(filedesc, buf, BUFFER_SIZE)) > 0) {
@@ -372,6 +376,11 @@ int check_full(const char *filename, unsigned short digest_algo,
         filesize -= read_len;
     }
 
+    if (filesize > 0 && read_len < 0) {
+        error = DRPM_ERR_IO;
+        goto cleanup;
+    }
+
     if ((error = checksum_final(&chsm, chsm_digest)) != DRPM_ERR_OK)
         goto cleanup;
 
-- 
2.43.0


From 1638ed5ad78e10a780ffd08289821e3acc7512a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:06 +0000
Subject: [PATCH 31/48] fix: is_prelinked frees a pointer into the section
 table of unusual ELF files

---
 src/drpm_apply.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 3d23cbb..73d97d7 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -541,6 +541,7 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
     int i;
     int stridx;
     unsigned char *sects = NULL;
+    const unsigned char *strhdr;
     unsigned char *strsect = NULL;
     unsigned slen;
     unsigned o;
@@ -594,14 +595,14 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
         goto cleanup;
     }
 
-    strsect = sects + stridx * ssiz;
-    if (elf32(strsect + 4, le) != 3) {
+    strhdr = sects + stridx * ssiz;
+    if (elf32(strhdr + 4, le) != 3) {
         is_prelinked = false;
         goto cleanup;
     }
 
-    soff = elf64(is64 ? strsect + 24 : strsect + 16, le, is64);
-    slen = elf64(is64 ? strsect + 32 : strsect + 20, le, is64);
+    soff = elf64(is64 ? strhdr + 24 : strhdr + 16, le, is64);
+    slen = elf64(is64 ? strhdr + 32 : strhdr + 20, le, is64);
     if (soff == (off_t)~0 || slen == (unsigned)~0 || (int)slen < 0) {
         is_prelinked = false;
         goto cleanup;
-- 
2.43.0


From dace860f27672a1660c7d08103783d53a8d3d2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:07 +0000
Subject: [PATCH 32/48] fix: prelink_open leaves its temporary file behind and
 may wait forever

---
 src/drpm_apply.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 73d97d7..2b3ee90 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -22,6 +22,7 @@
 #include "drpm.h"
 #include "drpm_private.h"
 
+#include <errno.h>
 #include <stdlib.h>
 #include <stdint.h>
 #include <stdbool.h>
@@ -656,6 +657,7 @@ int prelink_open(const char *filename, int *filedesc)
 
     pid = fork();
     if (pid == (pid_t)-1) {
+        unlink(template);
         return DRPM_ERR_OTHER;
     }
     if (pid == 0) {
@@ -663,13 +665,16 @@ int prelink_open(const char *filename, int *filedesc)
         _exit(1);
     }
 
-    while (waitpid(pid, &status, 0) == (pid_t)-1);
+    // only to be repeated when interrupted (there may be no status to collect)
+    while (waitpid(pid, &status, 0) == (pid_t)-1 && errno == EINTR);
 
-    if ((fd = open(template, O_RDONLY)) < 0)
-        return DRPM_ERR_IO;
+    fd = open(template, O_RDONLY);
 
     unlink(template);
 
+    if (fd < 0)
+        return DRPM_ERR_IO;
+
     *filedesc = fd;
 
     return DRPM_ERR_OK;
-- 
2.43.0


From 7ca8651b4c336140003d684298099d35c4ff8a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:11 +0000
Subject: [PATCH 33/48] fix: blocks_create leaks and leaves a dangling pointer
 on failure

---
 src/drpm_block.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 08f6748..4607e8d 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -167,6 +167,8 @@ int blocks_create(struct blocks **blks_ret,
     if (blks_ret == NULL)
         return DRPM_ERR_PROG;
 
+    *blks_ret = NULL;
+
     if (block_count >= UINT32_MAX)
         return DRPM_ERR_OVERFLOW;
 
@@ -231,9 +233,14 @@ int blocks_create(struct blocks **blks_ret,
 
 cleanup:
     free(*blks_ret);
+    *blks_ret = NULL;
     free(blks.blocks_table);
     free(blks.blocks_max);
     free(blks.cpio_buffer);
+    if (blks.from_rpm)
+        free(blks.rpm_files.from_rpm.old_header);
+    else
+        free(blks.rpm_files.from_filesytem.open_files);
 
     return error;
 }
-- 
2.43.0


From 2a0025019915b3e6af09c52f07eb6e0cad0ccdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:12 +0000
Subject: [PATCH 34/48] fix: a failing page file makes write_page_block free a
 block still in use

---
 src/drpm_block.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 4607e8d..e51e931 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -486,6 +486,11 @@ int write_page_block(struct blocks *blks, const struct block *blk, size_t copy_c
             break;
 
     if (new == NULL) {
+        if (blks->page_filedesc < 0) {
+            if ((blks->page_filedesc = mkstemp(template)) < 0)
+                return DRPM_ERR_IO;
+            unlink(template);
+        }
         if ((new = malloc(sizeof(struct block))) == NULL)
             return DRPM_ERR_MEMORY;
         new->type = BLK_PAGE;
@@ -493,21 +498,12 @@ int write_page_block(struct blocks *blks, const struct block *blk, size_t copy_c
         new->next = blks->page_blocks;
         blks->page_blocks = new;
         blks->page_blocks_count++;
-        if (blks->page_filedesc < 0) {
-            if ((blks->page_filedesc = mkstemp(template)) < 0) {
-                free(new);
-                return DRPM_ERR_IO;
-            }
-            unlink(template);
-        }
     }
 
     new->id = blk->id;
 
-    if (pwrite(blks->page_filedesc, blk->data.buffer, BLOCK_SIZE, new->data.offset * BLOCK_SIZE) != BLOCK_SIZE) {
-        free(new);
+    if (pwrite(blks->page_filedesc, blk->data.buffer, BLOCK_SIZE, new->data.offset * BLOCK_SIZE) != BLOCK_SIZE)
         return DRPM_ERR_IO;
-    }
 
     blks->blocks_table[new->id] = new;
 
-- 
2.43.0


From 77c5397bdc3f91321f0bfccac9cb349d88d87f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:14 +0000
Subject: [PATCH 35/48] fix: archive entries without a name cause writes before
 the name buffer

---
 src/drpm_block.c | 5 +++++
 src/drpm_make.c  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index e51e931..2354e9f 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -788,6 +788,11 @@ int fillblock_rpm_standard(struct blocks *blks, struct block *blk, size_t id, si
             c_filesize = cpio_hdr.filesize;
             c_filesize += CPIO_PADDING(c_filesize);
 
+            if (c_namesize == 0) {
+                error = DRPM_ERR_FORMAT;
+                break;
+            }
+
             if (c_namesize > name_buffer_len) {
                 if ((name_buffer_tmp = realloc(name_buffer, c_namesize)) == NULL) {
                     error = DRPM_ERR_MEMORY;
diff --git a/src/drpm_make.c b/src/drpm_make.c
index 00d2f10..37940e7 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -353,6 +353,11 @@ int parse_cpio_from_rpm_filedata(struct rpm *rpm_file,
         c_filesize = cpio_hdr.filesize;
         c_namesize = cpio_hdr.namesize;
 
+        if (c_namesize == 0) {
+            error = DRPM_ERR_FORMAT;
+            goto cleanup_fail;
+        }
+
         if (c_namesize > name_buffer_len) {
             if ((name_buffer_tmp = realloc(name_buffer, c_namesize)) == NULL) {
                 error = DRPM_ERR_MEMORY;
-- 
2.43.0


From 3807de9827b1b733f124874b485142850ef23f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:15 +0000
Subject: [PATCH 36/48] fix: applying from the filesystem confuses open files

---
 src/drpm_block.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 2354e9f..e1fa7bb 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -60,6 +60,7 @@ struct open_file {
     struct open_file *next;
     int filedesc;
     const char *name;
+    size_t index;
     off_t offset;
 };
 
@@ -622,10 +623,12 @@ int open_new_file(struct blocks *blks, bool *prelinked, size_t index)
         else
             files_head->prev = NULL;
         close(new->filedesc);
+        blks->rpm_files.from_filesytem.open_files[new->index] = NULL;
     }
 
     new->filedesc = filedesc;
     new->name = file.name;
+    new->index = index;
     new->offset = 0;
     new->prev = NULL;
     new->next = NULL;
@@ -992,15 +995,16 @@ int fillblock_filesystem(struct blocks *blks, struct block *blk, size_t id, size
                     strncpy((char *)buf_ptr, blks->linkto + file_off, read_len);
             } else if (file_off < blks->files[cpio->index].size) {
                 read_len = MIN(len, blks->files[cpio->index].size - file_off);
-                file = get_open_file(blks, cpio->index);
+                i = cpio - blks->cpio_files;
+                file = get_open_file(blks, i);
                 if (file == NULL) {
-                    if ((error = open_new_file(blks, &prelinked, cpio->index)) != DRPM_ERR_OK)
+                    if ((error = open_new_file(blks, &prelinked, i)) != DRPM_ERR_OK)
                         break;
                     if (prelinked) {
                         blks->cpio_files_index = -1;
                         return fillblock_prelink(blks, blk, id, copy_cnt, cpio);
                     }
-                    file = get_open_file(blks, cpio->index);
+                    file = get_open_file(blks, i);
                 }
                 if (file->offset != (off_t)file_off && lseek(file->filedesc, file_off, SEEK_SET) != (off_t)file_off) {
                     error = DRPM_ERR_IO;
-- 
2.43.0


From 54d927f3a5b087c3c70da07184ba02932a8c4058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:17 +0000
Subject: [PATCH 37/48] fix: blocks of prelinked files use bad descriptors and
 link targets

---
 src/drpm_block.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index e1fa7bb..50d3f99 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -1043,7 +1043,7 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
     struct stat stats;
     uint64_t off = id * BLOCK_SIZE;
     int filedesc = -1;
-    bool prelinked;
+    bool prelinked = false;
     unsigned char plnk_buf[128];
     size_t read_len;
     size_t id_orig = id;
@@ -1131,7 +1131,7 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
             } else if (S_ISLNK(blks->files[cpio->index].mode)) {
                 file_off = off - (cpio->offset + cpio->header_len);
                 linkto = blks->files[cpio->index].linkto;
-                read_len = MIN(len, strlen(linkto) < file_off ? 0 : strlen(linkto));
+                read_len = MIN(len, strlen(linkto) < file_off ? 0 : strlen(linkto) - file_off);
                 if (read_len) {
                     memcpy(buf_ptr, linkto + file_off, read_len);
                     buf_ptr += read_len;
@@ -1164,6 +1164,7 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
                                 goto cleanup;
                             if (prelinked) {
                                 close(filedesc);
+                                filedesc = -1;
                                 if ((error = prelink_open(blks->files[cpio->index].name, &filedesc)) != DRPM_ERR_OK)
                                     goto cleanup;
                             }
-- 
2.43.0


From 125b0381b12e9eb20c011c899c9ed5e5ae8a8eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 38/48] fix: concurrent calls of drpm_apply share an
 unprotected counter

---
 src/drpm_block.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drpm_block.c b/src/drpm_block.c
index 50d3f99..e082e01 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -82,6 +82,7 @@ struct blocks {
     struct block *free_core_blocks;
     struct block *core_blocks;
     size_t core_blocks_count;
+    size_t cleanup_count;
 
     struct block *page_blocks;
     size_t page_blocks_count;
@@ -325,7 +326,6 @@ int blocks_next(struct blocks *blks, unsigned char buffer[BLOCK_SIZE], size_t *b
 /* gets new block and fills it */
 int get_block(struct blocks *blks, struct block **blk_ret, size_t id, size_t copy_cnt)
 {
-    static size_t cleanup_count = 0;
     int error;
     struct block *blk;
     struct block *page_blk;
@@ -342,7 +342,7 @@ int get_block(struct blocks *blks, struct block **blk_ret, size_t id, size_t cop
     }
 
     if ((blk = get_free_core_block(blks)) == NULL) {
-        if (blks->core_blocks_count < MAX_CORE_BLOCKS && (++cleanup_count % 8) != 0) {
+        if (blks->core_blocks_count < MAX_CORE_BLOCKS && (++blks->cleanup_count % 8) != 0) {
             if ((error = new_core_block(blks, &blk)) != DRPM_ERR_OK)
                 return error;
         } else {
-- 
2.43.0


From 15b70e15339e2de91d25bb16f2c26d37b40d6e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 39/48] fix: the file sequence is leaked when making a delta
 fails

---
 src/drpm_make.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 37940e7..687c90c 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -101,6 +101,7 @@ bool seq_append(struct files_seq *seq, unsigned val)
 {
     size_t len = 1;
     unsigned tmp = val;
+    unsigned char *data_tmp;
 
     while (tmp >= (1<<3)) {
         tmp >>= 3;
@@ -108,8 +109,9 @@ bool seq_append(struct files_seq *seq, unsigned val)
     }
 
     if (SEQ_BYTE_LEN(seq->index + len) > seq->alloc_len) {
-        if ((seq->data = realloc(seq->data, seq->alloc_len + SEQ_ALLOC_SIZE)) == NULL)
+        if ((data_tmp = realloc(seq->data, seq->alloc_len + SEQ_ALLOC_SIZE)) == NULL)
             return false;
+        seq->data = data_tmp;
         seq->alloc_len += SEQ_ALLOC_SIZE;
     }
 
@@ -618,7 +620,7 @@ cleanup:
     }
     free(files);
     free(name_buffer);
-    free(seq_files);
+    free(seq.data);
 
     return error;
 }
-- 
2.43.0


From 5630134241608b2a3f5315b74da03e8e4dd84adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:09 +0000
Subject: [PATCH 40/48] fix: an rpm-only identity delta destroys an
 uninitialised RPM on failure

---
 src/drpm_make.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 687c90c..b3cd41c 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -1027,7 +1027,7 @@ bool is_unpatched(const struct rpm_patches *patches, const char *name,
 int fill_nodiff_deltarpm(struct deltarpm *delta, const char *rpm_filename,
                          bool comp_not_set)
 {
-    struct rpm *solo_rpm;
+    struct rpm *solo_rpm = NULL;
     char *nevr = NULL;
     int error = DRPM_ERR_OK;
 
-- 
2.43.0


From 4eea17cd629aab7ab85095c8e85e5ae909f2c24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 41/48] fix: reading RPM patch lists corrupts memory and
 misreads entries

---
 src/drpm_make.c | 80 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 30 deletions(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index b3cd41c..2bc9479 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -660,16 +660,20 @@ int rpml_get_string(int filedesc, char **ret)
     if (read(filedesc, &len, 1) != 1)
         return DRPM_ERR_FORMAT;
 
-    if (ret != NULL) {
-        if ((*ret = malloc(len + 1)) == NULL)
-            return DRPM_ERR_MEMORY;
-        if (read(filedesc, *ret, len) != len) {
-            free(*ret);
-            return DRPM_ERR_FORMAT;
-        }
-        (*ret)[len] = '\0';
+    if (ret == NULL)
+        return rpml_skip(filedesc, len);
+
+    if ((*ret = malloc(len + 1)) == NULL)
+        return DRPM_ERR_MEMORY;
+
+    if (read(filedesc, *ret, len) != len) {
+        free(*ret);
+        *ret = NULL;
+        return DRPM_ERR_FORMAT;
     }
 
+    (*ret)[len] = '\0';
+
     return DRPM_ERR_OK;
 }
 
@@ -694,6 +698,9 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
 
     off = buf[0];
 
+    if (off > 0 && (filename == NULL || off > strlen(filename)))
+        return DRPM_ERR_FORMAT;
+
     if (buf[1] == 0xFF) {
         if ((error = rpml_get_uint16(filedesc, &len)) != DRPM_ERR_OK)
             return error;
@@ -707,16 +714,17 @@ int rpml_get_filename(int filedesc, char **filename_ret, uint32_t *filename_len_
         if ((filename = realloc(filename, new_filename_len)) == NULL)
             return DRPM_ERR_MEMORY;
         filename_len = new_filename_len;
+        *filename_ret = filename;
+        *filename_len_ret = filename_len;
     }
 
-    if (read(filedesc, filename + off, len) != len)
+    if (read(filedesc, filename + off, len) != len) {
+        filename[off] = '\0';
         return DRPM_ERR_FORMAT;
+    }
 
     filename[off + len] = '\0';
 
-    *filename_ret = filename;
-    *filename_len_ret = filename_len;
-
     return DRPM_ERR_OK;
 }
 
@@ -731,8 +739,9 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
 {
     int error = DRPM_ERR_OK;
     char *filename = NULL;
-    uint32_t filename_len;
+    uint32_t filename_len = 0;
     const char *fname;
+    struct patch_file *file;
     uint32_t magic;
     char *name = NULL;
     char *evr = NULL;
@@ -755,7 +764,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
         goto cleanup;
 
     if ((patch->nevr = malloc(strlen(name) + strlen(evr) + 2)) == NULL) {
-        error = DRPM_ERR_FORMAT;
+        error = DRPM_ERR_MEMORY;
         goto cleanup;
     }
 
@@ -783,6 +792,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
                 goto cleanup;
             if ((patch->files[patch->file_count].name = malloc(strlen(filename) + 1)) == NULL) {
                 error = DRPM_ERR_MEMORY;
+                goto cleanup;
             }
             strcpy(patch->files[patch->file_count].name, filename);
             patch->files[patch->file_count].mode = S_IFREG;
@@ -804,20 +814,22 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
             goto cleanup;
         }
 
+        file = &patch->files[patch->file_count];
         fname = (strncmp(filename, "./", 2) == 0) ? filename + 2 : filename;
 
-        if ((patch->files[patch->file_count].name = malloc(strlen(fname) + 1)) == NULL) {
+        if ((file->name = malloc(strlen(fname) + 1)) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
+        patch->file_count++;
 
-        patch->files[patch->file_count].flags = RPMFILE_NONE;
-        memset(patch->files[patch->file_count].md5, 0, MD5_DIGEST_LENGTH);
+        file->flags = RPMFILE_NONE;
+        memset(file->md5, 0, MD5_DIGEST_LENGTH);
 
-        if ((error = rpml_get_uint16(filedesc, &patch->files[patch->file_count].mode)) != DRPM_ERR_OK)
+        if ((error = rpml_get_uint16(filedesc, &file->mode)) != DRPM_ERR_OK)
             goto cleanup;
 
-        if (patch->files[patch->file_count].mode != 0) {
+        if (file->mode != 0) {
             if (read(filedesc, &num, 1) != 1) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup;
@@ -838,23 +850,22 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
                     goto cleanup;
             }
 
-            if ((S_ISCHR(patch->files[patch->file_count].mode) || S_ISBLK(patch->files[patch->file_count].mode)) &&
+            if ((S_ISCHR(file->mode) || S_ISBLK(file->mode)) &&
                 (error = rpml_get_uint32(filedesc, NULL)) != DRPM_ERR_OK) // rdev
                 goto cleanup;
 
-            if (S_ISREG(patch->files[patch->file_count].mode) || S_ISLNK(patch->files[patch->file_count].mode)) {
+            if (S_ISREG(file->mode) || S_ISLNK(file->mode)) {
                 read_bytes = (num % 4) + 1;
                 memset(buf, 0, 4);
-                if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes &&
-                    parse_be32(buf) > 0 &&
-                    read(filedesc, patch->files[patch->file_count].md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH) {
+                if (read(filedesc, buf + (4 - read_bytes), read_bytes) != read_bytes ||
+                    (parse_be32(buf) > 0 &&
+                     read(filedesc, file->md5, MD5_DIGEST_LENGTH) != MD5_DIGEST_LENGTH)) {
                     error = DRPM_ERR_FORMAT;
                     goto cleanup;
                 }
             }
         }
 
-        patch->file_count++;
     }
 
 cleanup:
@@ -874,8 +885,8 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
     struct patch_info *patchrpm;
     uint32_t magic;
     struct rpm *rpmst = NULL;
-    struct file_info *files;
-    size_t file_count;
+    struct file_info *files = NULL;
+    size_t file_count = 0;
     char *fname;
 
     if (patches == NULL)
@@ -887,7 +898,7 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
         return DRPM_ERR_OK;
     }
 
-    if ((*patches = malloc(sizeof(struct rpm_patches))) == NULL)
+    if ((*patches = calloc(1, sizeof(struct rpm_patches))) == NULL)
         return DRPM_ERR_MEMORY;
 
     rpmprint = &(*patches)->rpmprint;
@@ -917,7 +928,7 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
             (error = rpm_get_nevr(rpmst, &rpmprint->nevr)) != DRPM_ERR_OK ||
             (error = rpm_get_file_info(rpmst, &files, &file_count, NULL)) != DRPM_ERR_OK)
             goto cleanup_fail;
-        if ((rpmprint->files = malloc(file_count)) == NULL) {
+        if (file_count > 0 && (rpmprint->files = calloc(file_count, sizeof(struct patch_file))) == NULL) {
             error = DRPM_ERR_MEMORY;
             goto cleanup_fail;
         }
@@ -954,7 +965,16 @@ cleanup_fail:
     patches_destroy(patches);
 
 cleanup:
-    close(filedesc);
+    if (!(filedesc < 0))
+        close(filedesc);
+
+    for (size_t i = 0; i < file_count; i++) {
+        free(files[i].name);
+        free(files[i].md5);
+        free(files[i].linkto);
+    }
+    free(files);
+    rpm_destroy(&rpmst);
 
     return error;
 }
-- 
2.43.0


From 0aff2cdb62532b6ad534d84a2e08f7e95a0ce42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:27 +0000
Subject: [PATCH 42/48] fix: a decompressor which cannot be set up is torn down

---
 src/drpm_decompstrm.c | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/drpm_decompstrm.c b/src/drpm_decompstrm.c
index 2b68ee6..13b537d 100644
--- a/src/drpm_decompstrm.c
+++ b/src/drpm_decompstrm.c
@@ -156,10 +156,8 @@ int init_bzip2(struct decompstrm *strm)
 
     switch (BZ2_bzDecompressInit(&strm->stream.bzip2, 0, 1)) {
     case BZ_CONFIG_ERROR:
-        BZ2_bzDecompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_CONFIG;
     case BZ_MEM_ERROR:
-        BZ2_bzDecompressEnd(&strm->stream.bzip2);
         return DRPM_ERR_MEMORY;
     }
 
@@ -178,10 +176,8 @@ int init_gzip(struct decompstrm *strm)
 
     switch (inflateInit2(&strm->stream.gzip, 16 + MAX_WBITS)) {
     case Z_VERSION_ERROR:
-        inflateEnd(&strm->stream.gzip);
         return DRPM_ERR_CONFIG;
     case Z_MEM_ERROR:
-        inflateEnd(&strm->stream.gzip);
         return DRPM_ERR_MEMORY;
     }
 
-- 
2.43.0


From ecc46bd97c473b339c72e66909f5ec9bfe1da8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:53 +0000
Subject: [PATCH 43/48] fix: a target archive shorter than a hash window is
 read out of bounds

---
 src/drpm_search.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/drpm_search.c b/src/drpm_search.c
index 86ddc3d..6e669b8 100644
--- a/src/drpm_search.c
+++ b/src/drpm_search.c
@@ -235,20 +235,20 @@ size_t hash_search(struct hash *hsh,
 
     uint32_t key;
     uint32_t key2;
-    uint32_t prekey = (scan <= new_len - HSIZE) ? buzhash(new + scan) : 0;
+    uint32_t prekey = (scan + HSIZE <= new_len) ? buzhash(new + scan) : 0;
     uint32_t xprekey;
 
     hash_table = hsh->hash_table;
     ht_len = hsh->ht_len;
     scan_start = scan;
     old_score = old_score_num = old_score_start = 0;
-    prekey = (scan <= new_len - HSIZE) ? buzhash(new + scan) : 0;
+    prekey = (scan + HSIZE <= new_len) ? buzhash(new + scan) : 0;
     pos = 0;
     len = 0;
     last_pos = last_scan = last_len = 0;
 
     while (true) {
-        if (scan >= new_len - HSIZE) {
+        if (scan + HSIZE >= new_len) {
             if (last_len >= 32)
                 goto gotit;
             break;
@@ -357,7 +357,7 @@ gotit:
         last_len = 0;
     }
 
-    if (scan >= new_len - HSIZE) {
+    if (scan + HSIZE >= new_len) {
       scan = new_len;
       pos = 0;
       len = 0;
-- 
2.43.0


From d25e082b2d1d542ce1f5c453cf18097878807482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 44/48] fix: check the file name tags of a header before librpm
 expands them

librpm casts the values of RPMTAG_BASENAMES and RPMTAG_DIRNAMES to string
arrays without looking at their types, so that a damaged header crashed
all functions reading the list of files.
---
 src/drpm_rpm.c | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index f003eca..2aa1d5e 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -55,6 +55,7 @@ static void rpm_free(struct rpm *);
 static int rpm_export_header(struct rpm *, unsigned char **, size_t *);
 static int rpm_export_signature(struct rpm *, unsigned char **, size_t *);
 static void rpm_header_unload_region(struct rpm *, rpmTagVal);
+static bool rpm_filenames_valid(Header);
 static int rpm_read_archive(struct rpm *, const char *, off_t, bool,
                             unsigned short *, MD5_CTX *, MD5_CTX *);
 
@@ -733,6 +734,41 @@ int rpm_patch_payload_format(struct rpm *rpmst, const char *new_payfmt)
     return DRPM_ERR_OK;
 }
 
+/* Checks that librpm can build the list of file names out of the header's
+ * base names, directory names and directory indexes, whose types, counts
+ * and values it does not verify itself. */
+bool rpm_filenames_valid(Header header)
+{
+    bool valid = true;
+    rpmtd basenames = rpmtdNew();
+    rpmtd dirnames = rpmtdNew();
+    rpmtd dirindexes = rpmtdNew();
+    uint32_t *index;
+
+    if (headerGet(header, RPMTAG_BASENAMES, basenames, HEADERGET_MINMEM | HEADERGET_RAW) == 1) {
+        valid = headerGet(header, RPMTAG_DIRNAMES, dirnames, HEADERGET_MINMEM | HEADERGET_RAW) == 1 &&
+                headerGet(header, RPMTAG_DIRINDEXES, dirindexes, HEADERGET_MINMEM | HEADERGET_RAW) == 1 &&
+                rpmtdType(basenames) == RPM_STRING_ARRAY_TYPE &&
+                rpmtdType(dirnames) == RPM_STRING_ARRAY_TYPE &&
+                rpmtdType(dirindexes) == RPM_INT32_TYPE &&
+                rpmtdCount(basenames) == rpmtdCount(dirindexes);
+
+        for (uint32_t i = 0; valid && i < rpmtdCount(dirindexes); i++)
+            valid = (index = rpmtdNextUint32(dirindexes)) != NULL &&
+                    *index < rpmtdCount(dirnames);
+    }
+
+    rpmtdFreeData(basenames);
+    rpmtdFreeData(dirnames);
+    rpmtdFreeData(dirindexes);
+
+    rpmtdFree(basenames);
+    rpmtdFree(dirnames);
+    rpmtdFree(dirindexes);
+
+    return valid;
+}
+
 /* Fetches a list of file information from the header. */
 int rpm_get_file_info(struct rpm *rpmst, struct file_info **files_ret,
                       size_t *count_ret, bool *colors_ret)
@@ -764,6 +800,9 @@ int rpm_get_file_info(struct rpm *rpmst, struct file_info **files_ret,
     if (rpmst == NULL || files_ret == NULL || count_ret == NULL)
         return DRPM_ERR_PROG;
 
+    if (!rpm_filenames_valid(rpmst->header))
+        return DRPM_ERR_FORMAT;
+
     filenames = rpmtdNew();
     fileflags = rpmtdNew();
     filemd5s = rpmtdNew();
-- 
2.43.0


From 1139859a9f5d53eea578f067adb4b68ca73ed57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 45/48] fix: keep the names of the files a patch list describes

read_rpmlist() never stored the name it had read, so that no entry of a patch
list ever matched a file of the package.
---
 src/drpm_make.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 2bc9479..10e089d 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -821,6 +821,7 @@ int read_rpmlist(int filedesc, struct patch_info *patch, bool skip_magic)
             error = DRPM_ERR_MEMORY;
             goto cleanup;
         }
+        strcpy(file->name, fname);
         patch->file_count++;
 
         file->flags = RPMFILE_NONE;
-- 
2.43.0


From 72c8d2c60975363d2034ae8088cdf77a2661a4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:11 +0000
Subject: [PATCH 46/48] fix: accept packages with files other than regular ones
 as printed RPM

patches_read() demanded a digest of every file when the list of patched files
was an RPM, although directories, links and devices have none.
---
 src/drpm_make.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/drpm_make.c b/src/drpm_make.c
index 10e089d..a634ac6 100644
--- a/src/drpm_make.c
+++ b/src/drpm_make.c
@@ -945,7 +945,8 @@ int patches_read(const char *oldrpmprint, const char *oldpatchrpm, struct rpm_pa
             strcpy(rpmprint->files[i].name, fname);
             rpmprint->files[i].mode = files[i].mode;
             rpmprint->files[i].flags = files[i].flags;
-            if (!parse_md5(rpmprint->files[i].md5, files[i].md5)) {
+            /* only regular files have a digest */
+            if (files[i].md5[0] != '\0' && !parse_md5(rpmprint->files[i].md5, files[i].md5)) {
                 error = DRPM_ERR_FORMAT;
                 goto cleanup_fail;
             }
-- 
2.43.0


From a55d2e920c78380aef622684ef5639156f90f2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:35 +0000
Subject: [PATCH 47/48] fix: no dangling archive pointer when a digest update
 fails while a package is read

---
 src/drpm_rpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drpm_rpm.c b/src/drpm_rpm.c
index 2aa1d5e..335d9d9 100644
--- a/src/drpm_rpm.c
+++ b/src/drpm_rpm.c
@@ -211,12 +211,12 @@ int rpm_read_archive(struct rpm *rpmst, const char *filename,
                 error = DRPM_ERR_MEMORY;
                 goto cleanup;
             }
+            rpmst->archive = archive_tmp;
             if ((seq_md5 != NULL && MD5_Update(seq_md5, buffer, bytes_read) != 1) ||
                 (full_md5 != NULL && MD5_Update(full_md5, buffer, bytes_read) != 1)) {
                 error = DRPM_ERR_OTHER;
                 goto cleanup;
             }
-            rpmst->archive = archive_tmp;
             memcpy(rpmst->archive + rpmst->archive_size, buffer, bytes_read);
             rpmst->archive_size += bytes_read;
         }
-- 
2.43.0


From 8144d5b70ba7d10725c366c20d124d52a64f3405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:22 +0000
Subject: [PATCH 48/48] fix: report a failed read of an installed ELF file as
 such, not as a mistake inside the library

---
 src/drpm_apply.c |  9 +++++++--
 src/drpm_block.c | 17 ++++++++++++-----
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/drpm_apply.c b/src/drpm_apply.c
index 2b3ee90..f13406d 100644
--- a/src/drpm_apply.c
+++ b/src/drpm_apply.c
@@ -541,6 +541,7 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
     int ssiz;
     int i;
     int stridx;
+    ssize_t got;
     unsigned char *sects = NULL;
     const unsigned char *strhdr;
     unsigned char *strsect = NULL;
@@ -591,8 +592,10 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
         goto cleanup;
     }
 
-    if (pread(fd, sects, snum * ssiz, soff) != snum * ssiz) {
+    if ((got = pread(fd, sects, snum * ssiz, soff)) != snum * ssiz) {
         is_prelinked = false;
+        if (got < 0 && errno != EINVAL) // not an offset beyond any file
+            error = DRPM_ERR_IO;
         goto cleanup;
     }
 
@@ -614,8 +617,10 @@ int is_prelinked(bool *is_prelinked_ret, int fd, const unsigned char *buf, ssize
         goto cleanup;
     }
 
-    if (pread(fd, strsect, slen, soff) != (ssize_t)slen) {
+    if ((got = pread(fd, strsect, slen, soff)) != (ssize_t)slen) {
         is_prelinked = false;
+        if (got < 0 && errno != EINVAL)
+            error = DRPM_ERR_IO;
         goto cleanup;
     }
 
diff --git a/src/drpm_block.c b/src/drpm_block.c
index e082e01..aa244e0 100644
--- a/src/drpm_block.c
+++ b/src/drpm_block.c
@@ -1070,7 +1070,12 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
             goto cleanup;
         }
 
-        if (fstat(filedesc, &stats) != 0 || stats.st_size == blks->files[cpio->index].size)
+        if (fstat(filedesc, &stats) != 0) {
+            error = DRPM_ERR_IO;
+            goto cleanup;
+        }
+
+        if (stats.st_size == blks->files[cpio->index].size)
             break;
 
         if ((error = is_prelinked(&prelinked, filedesc, plnk_buf, pread(filedesc, plnk_buf, 128, 0))) != DRPM_ERR_OK)
@@ -1158,8 +1163,10 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
                         if ((filedesc = open(blks->files[cpio->index].name, O_RDONLY)) < 0) {
                             error = DRPM_ERR_IO;
                             goto cleanup;
-                        } else if (fstat(filedesc, &stats) == 0 &&
-                                   stats.st_size != blks->files[cpio->index].size) {
+                        } else if (fstat(filedesc, &stats) != 0) {
+                            error = DRPM_ERR_IO;
+                            goto cleanup;
+                        } else if (stats.st_size != blks->files[cpio->index].size) {
                             if ((error = is_prelinked(&prelinked, filedesc, plnk_buf, pread(filedesc, plnk_buf, 128, 0))) != DRPM_ERR_OK)
                                 goto cleanup;
                             if (prelinked) {
@@ -1215,8 +1222,8 @@ int fillblock_prelink(struct blocks *blks, struct block *blk, size_t id, size_t
         off = id * BLOCK_SIZE;
     }
 
-    if (id < id_orig) {
-        error = DRPM_ERR_PROG;
+    if (id < id_orig) { // no longer prelinked: the file was replaced meanwhile
+        error = DRPM_ERR_MISMATCH;
         goto cleanup;
     }
 
-- 
2.43.0

