From 6adb3502fcf5378db9040cb40a8c58cd58f414f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:46 +0000
Subject: [PATCH 001/139] fix: don't read past the last buffer in ramo_write_to
 when the length is a multiple of BUFFER_SIZE

---
 c/src/ram_store.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 6052fb1..787e74e 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -247,7 +247,9 @@ void ramo_write_to(OutStream *os, OutStream *other_o)
     last_buffer_offset = rf->len % BUFFER_SIZE;
     for (i = 0; i <= last_buffer_number; i++) {
         len = (i == last_buffer_number ? last_buffer_offset : BUFFER_SIZE);
-        os_write_bytes(other_o, rf->buffers[i], len);
+        if (len > 0) {
+            os_write_bytes(other_o, rf->buffers[i], len);
+        }
     }
 }
 
-- 
2.43.0


From dd5fe0cc7512d77c58ffab1b51da8caa1baec49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:28 +0000
Subject: [PATCH 002/139] fix: raise EOF_ERROR when a block read runs past the
 end of a RAM or file-system stream

---
 c/src/fs_store.c  | 11 ++++++++---
 c/src/ram_store.c |  6 ++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index b57a697..a0937ac 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -284,18 +284,23 @@ static OutStream *fs_new_output(Store *store, const char *filename)
     return os;
 }
 
-static void fsi_read_i(InStream *is, uchar *path, int len)
+static void fsi_read_i(InStream *is, uchar *buf, int len)
 {
     int fd = is->file.fd;
+    int cnt;
     off_t pos = is_pos(is);
     if (pos != lseek(fd, 0, SEEK_CUR)) {
         lseek(fd, pos, SEEK_SET);
     }
-    if (read(fd, path, len) != len) {
+    if ((cnt = (int)read(fd, buf, len)) != len) {
         /* win: the wrong value can be returned for some reason so double check */
         if (lseek(fd, 0, SEEK_CUR) != (pos + len)) {
+            if (cnt >= 0) {
+                RAISE(EOF_ERROR, "couldn't read %d chars at %"OFF_T_PFX"d "
+                      "from %s: end of file", len, pos, is->d.path);
+            }
             RAISE(IO_ERROR, "couldn't read %d chars from %s: <%s>",
-                  len, path, strerror(errno));
+                  len, is->d.path, strerror(errno));
         }
     }
 }
diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 787e74e..32ed7e0 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -303,6 +303,12 @@ static void rami_read_i(InStream *is, uchar *b, int len)
     off_t start = is->d.pointer;
     uchar *buffer;
 
+    if (start + len > rf->len) {
+        RAISE(EOF_ERROR, "tried to read past the end of the file. current pos "
+              "= %"OFF_T_PFX"d, length to read = %d, file length = "
+              "%"OFF_T_PFX"d", start, len, rf->len);
+    }
+
     while (remainder > 0) {
         buffer_number = (int) (start / BUFFER_SIZE);
         buffer_offset = start % BUFFER_SIZE;
-- 
2.43.0


From c7fe92242445a1164bfa6d66b432bf106f910c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:08 +0000
Subject: [PATCH 003/139] fix: RAM store's remove returns 0 on success and -1
 on failure as documented

---
 c/src/ram_store.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 32ed7e0..62fa66e 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -60,10 +60,10 @@ static int ram_remove(Store *store, const char *filename)
     if (rf != NULL) {
         DEREF(rf);
         rf_close(rf);
-        return true;
+        return 0;
     }
     else {
-        return false;
+        return -1;
     }
 }
 
-- 
2.43.0


From e23195f33ccb416e875526134d6f92deed19d996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:08 +0000
Subject: [PATCH 004/139] fix: RAM store's touch keyed the new file by the
 caller's string instead of its own copy

---
 c/src/ram_store.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 62fa66e..1b1e603 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -40,7 +40,8 @@ static void rf_close(void *p)
 static void ram_touch(Store *store, const char *filename)
 {
     if (h_get(store->dir.ht, filename) == NULL) {
-        h_set(store->dir.ht, filename, rf_new(filename));
+        RAMFile *rf = rf_new(filename);
+        h_set(store->dir.ht, rf->name, rf);
     }
 }
 
-- 
2.43.0


From 3b17f1c9b6a623e010636865b0037854b86d382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:08 +0000
Subject: [PATCH 005/139] fix: touching an existing file in an FSDirectory
 truncated it and missed creation errors

---
 c/src/fs_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index a0937ac..5cf7e1c 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -49,7 +49,7 @@ static void fs_touch(Store *store, const char *filename)
     int f;
     char path[MAX_FILE_PATH];
     join_path(path, store->dir.path, filename);
-    if ((f = creat(path, store->file_mode)) == 0) {
+    if ((f = open(path, O_WRONLY | O_CREAT | O_BINARY, store->file_mode)) < 0) {
         RAISE(IO_ERROR, "couldn't create file %s: <%s>", path,
               strerror(errno));
     }
-- 
2.43.0


From 110b37c6a26816e0ce6ec0a79c7afb8f6f1a1135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:08 +0000
Subject: [PATCH 006/139] fix: overwriting a file with a shorter one left the
 tail of the old content in place

---
 c/src/fs_store.c  | 2 +-
 c/src/ram_store.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 5cf7e1c..b144c1d 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -271,7 +271,7 @@ static OutStream *fs_new_output(Store *store, const char *filename)
 {
     char path[MAX_FILE_PATH];
     int fd = open(join_path(path, store->dir.path, filename),
-                  O_WRONLY | O_CREAT | O_BINARY, store->file_mode);
+                  O_WRONLY | O_CREAT | O_TRUNC | O_BINARY, store->file_mode);
     OutStream *os;
     if (fd < 0) {
         RAISE(IO_ERROR, "couldn't create OutStream %s: <%s>",
diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index 1b1e603..cfd7c90 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -287,6 +287,7 @@ static OutStream *ram_new_output(Store *store, const char *filename)
         rf = rf_new(filename);
         h_set(store->dir.ht, rf->name, rf);
     }
+    rf->len = 0;
     REF(rf);
     os->pointer = 0;
     os->file.rf = rf;
-- 
2.43.0


From 3739c85c8658a584e90f5204be3ccabac3ab022f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:05 +0000
Subject: [PATCH 007/139] fix: heap overflow when max_buffer_memory is smaller
 than chunk_size

---
 c/src/mempool.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/mempool.c b/c/src/mempool.c
index d438227..5a60c63 100644
--- a/c/src/mempool.c
+++ b/c/src/mempool.c
@@ -7,6 +7,9 @@ MemoryPool *mp_new_capa(int chuck_size, int init_buf_capa)
 {
     MemoryPool *mp = ALLOC(MemoryPool);
     mp->chunk_size = chuck_size;
+    if (init_buf_capa < 1) {
+        init_buf_capa = 1;
+    }
     mp->buf_capa = init_buf_capa;
     mp->buffers = ALLOC_N(char *, init_buf_capa);
 
-- 
2.43.0


From 15885b1c059794bc4f2ab573bd4b2cbe85e0e5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:06 +0000
Subject: [PATCH 008/139] fix: raising max_buffered_docs on an open IndexWriter
 overflowed the buffered norms

---
 c/src/index.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 289a1b7..71a61b9 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6339,11 +6339,13 @@ void iw_add_doc(IndexWriter *iw, Document *doc)
         iw->dw = dw_open(iw, sis_new_segment(iw->sis, 0, iw->store));
     }
     else if (NULL == iw->dw->fw) {
+        iw->dw->max_buffered_docs = iw->config.max_buffered_docs;
         dw_new_segment(iw->dw, sis_new_segment(iw->sis, 0, iw->store));
     }
     dw_add_doc(iw->dw, doc);
     if (mp_used(iw->dw->mp) > iw->config.max_buffer_memory
-        || iw->dw->doc_num >= iw->config.max_buffered_docs) {
+        || iw->dw->doc_num >= iw->config.max_buffered_docs
+        || iw->dw->doc_num >= iw->dw->max_buffered_docs) {
         iw_flush_ram_segment(iw);
     }
     mutex_unlock(&iw->mutex);
-- 
2.43.0


From 208bf1bad769a2da863aa2067b6c86606cc213e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:32 +0000
Subject: [PATCH 009/139] fix: untokenized value of exactly MAX_WORD_SIZE bytes
 overflowed term buffers

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 71a61b9..3b69d6d 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -5622,7 +5622,7 @@ Hash *dw_invert_field(DocWriter *dw,
         for (i = 0; i < df_size; i++) {
             int len = df->lengths[i];
             char *data_ptr = df->data[i];
-            if (len > MAX_WORD_SIZE) {
+            if (len >= MAX_WORD_SIZE) {
                 len = MAX_WORD_SIZE - 1;
                 data_ptr = (char *)memcpy(buf, df->data[i], len);
             }
-- 
2.43.0


From 6daf053263bbbcea5ece282070bca7448164f760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:32 +0000
Subject: [PATCH 010/139] fix: max_field_length indexed one term too many, plus
 one more per further value

---
 c/src/index.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 3b69d6d..59c3b55 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -5580,7 +5580,7 @@ Hash *dw_invert_field(DocWriter *dw,
         Token *tk;
         int pos = -1, num_terms = 0;
 
-        for (i = 0; i < df_size; i++) {
+        for (i = 0; i < df_size && num_terms < dw->max_field_length; i++) {
             TokenStream *ts = a_get_ts(a, df->name, df->data[i]);
             /* ts->reset(ts, df->data[i]); no longer being called */
             if (store_offsets) {
@@ -5596,7 +5596,7 @@ Hash *dw_invert_field(DocWriter *dw,
                     dw_add_offsets(dw, pos,
                                    start_offset + tk->start,
                                    start_offset + tk->end);
-                    if (num_terms++ >= dw->max_field_length) {
+                    if (++num_terms >= dw->max_field_length) {
                         break;
                     }
                 }
@@ -5606,7 +5606,7 @@ Hash *dw_invert_field(DocWriter *dw,
                     pos += tk->pos_inc;
                     dw_add_posting(mp, curr_plists, fld_plists, doc_num,
                                    tk->text, tk->len, pos);
-                    if (num_terms++ >= dw->max_field_length) {
+                    if (++num_terms >= dw->max_field_length) {
                         break;
                     }
                 }
-- 
2.43.0


From f6b80778a10f09c308787f4d36b3a9cb7dc81230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:48 +0000
Subject: [PATCH 011/139] fix: compressed stored values larger than one zip
 buffer looped forever or overflowed

---
 c/src/index.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 59c3b55..018bc93 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1266,14 +1266,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
 
     do {
         read_len = zip_len > ZIP_BUFFER_SIZE ? ZIP_BUFFER_SIZE : zip_len;
-        is_read_bytes(is, buf_in, zip_len);
+        is_read_bytes(is, buf_in, read_len);
         zip_len -= read_len;
         zstrm.avail_in = read_len;
         zstrm.next_in = buf_in;
-        zstrm.avail_out = ZIP_BUFFER_SIZE;
 
         do {
-            REALLOC_N(buf_out, uchar, buf_out_idx + ZIP_BUFFER_SIZE);
+            REALLOC_N(buf_out, uchar, buf_out_idx + ZIP_BUFFER_SIZE + 1);
+            zstrm.avail_out = ZIP_BUFFER_SIZE;
             zstrm.next_out = buf_out + buf_out_idx;
             ret = inflate(&zstrm, Z_NO_FLUSH);
             assert(ret != Z_STREAM_ERROR);  /* state not clobbered */
@@ -1286,7 +1286,7 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
                 zraise(ret);
             }
             buf_out_idx += ZIP_BUFFER_SIZE - zstrm.avail_out;
-        } while (zstrm.avail_out == 0);
+        } while (zstrm.avail_out == 0 && ret != Z_STREAM_END);
     } while (ret != Z_STREAM_END && zip_len != 0);
 
     /* clean up */
@@ -1356,14 +1356,14 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
 
     do {
         read_len = zip_len > ZIP_BUFFER_SIZE ? ZIP_BUFFER_SIZE : zip_len;
-        is_read_bytes(is, (uchar *)buf_in, zip_len);
+        is_read_bytes(is, (uchar *)buf_in, read_len);
         zip_len -= read_len;
         zstrm.avail_in = read_len;
         zstrm.next_in = buf_in;
-        zstrm.avail_out = ZIP_BUFFER_SIZE;
 
         do {
-            REALLOC_N(buf_out, char, buf_out_idx + ZIP_BUFFER_SIZE);
+            REALLOC_N(buf_out, char, buf_out_idx + ZIP_BUFFER_SIZE + 1);
+            zstrm.avail_out = ZIP_BUFFER_SIZE;
             zstrm.next_out = buf_out + buf_out_idx;
             ret = BZ2_bzDecompress(&zstrm);
             assert(ret != BZ_SEQUENCE_ERROR);  /* state not clobbered */
@@ -1372,7 +1372,7 @@ static char *is_read_zipped_bytes(InStream *is, int zip_len, int *len)
                 zraise(ret);
             }
             buf_out_idx += ZIP_BUFFER_SIZE - zstrm.avail_out;
-        } while (zstrm.avail_out == 0);
+        } while (zstrm.avail_out == 0 && ret != BZ_STREAM_END);
     } while (ret != BZ_STREAM_END && zip_len != 0);
 
     /* clean up */
@@ -1849,15 +1849,15 @@ static int os_write_zipped_bytes(OutStream* out_stream, uchar *data, int length)
 
     zstrm.avail_in = length;
     zstrm.next_in = data;
-    zstrm.avail_out = ZIP_BUFFER_SIZE;
-    zstrm.next_out = out_buffer;
 
     do {
+        zstrm.avail_out = ZIP_BUFFER_SIZE;
+        zstrm.next_out = out_buffer;
         ret = deflate(&zstrm, Z_FINISH); /* no bad return value */
         assert(ret != Z_STREAM_ERROR) ;  /* state not clobbered */
         zip_len += buf_size = ZIP_BUFFER_SIZE - zstrm.avail_out;
         os_write_bytes(out_stream, out_buffer, buf_size);
-    } while (zstrm.avail_out == 0);
+    } while (ret != Z_STREAM_END);
     assert(zstrm.avail_in == 0);         /* all input will be used */
 
     /* clean up */
@@ -1877,15 +1877,15 @@ static int os_write_zipped_bytes(OutStream* out_stream, uchar *data, int length)
 
     zstrm.avail_in = length;
     zstrm.next_in = (char *)data;
-    zstrm.avail_out = ZIP_BUFFER_SIZE;
-    zstrm.next_out = out_buffer;
 
     do {
+        zstrm.avail_out = ZIP_BUFFER_SIZE;
+        zstrm.next_out = out_buffer;
         ret = BZ2_bzCompress(&zstrm, BZ_FINISH); /* no bad return value */
         assert(ret != BZ_SEQUENCE_ERROR);        /* state not clobbered */
         zip_len += buf_size = ZIP_BUFFER_SIZE - zstrm.avail_out;
         os_write_bytes(out_stream, (uchar *)out_buffer, buf_size);
-    } while (zstrm.avail_out == 0);
+    } while (ret != BZ_STREAM_END);
     assert(zstrm.avail_in == 0);       /* all input will be used */
 
     /* clean up */
-- 
2.43.0


From 8cd5258b9e9d9e965f964aba5d42cac37bf0edca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:56 +0000
Subject: [PATCH 012/139] fix: reading a compressed lazy field from a value
 separator dropped the separator

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 018bc93..6c64ba0 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1438,7 +1438,7 @@ void lazy_df_get_bytes(LazyDocField *self, char *buf, int start, int len)
         int cur_start = 0, buf_start = 0, cur_end, i, copy_start, copy_len;
         for (i = 0; i < self->size; i++) {
             cur_end = cur_start + self->data[i].length;
-            if (start < cur_end) {
+            if (start <= cur_end) {
                 copy_start = start > cur_start ? start - cur_start : 0;
                 copy_len = cur_end - cur_start - copy_start;
                 if (copy_len >= len) {
-- 
2.43.0


From 65a765957a2fa1c1595d40af3b192e6fbeb42922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:14 +0000
Subject: [PATCH 013/139] fix: reading all term vectors of an index without any
 used an uncreated thread key

---
 c/src/index.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 6c64ba0..75ac964 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4568,6 +4568,10 @@ static TermVector *sr_term_vector(IndexReader *ir, int doc_num,
 static Hash *sr_term_vectors(IndexReader *ir, int doc_num)
 {
     FieldsReader *fr;
+    /* thread_fr and fr_bucket only exist when some field has term vectors */
+    if (!SR(ir)->fr_bucket) {
+        return h_new_ptr((free_ft)&tv_destroy);
+    }
     if (!SR(ir)->fr || NULL == (fr = sr_fr(SR(ir)))) {
         return NULL;
     }
-- 
2.43.0


From 89f5004af49b14545a7272cc4a91574ce0f49f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:03:07 +0000
Subject: [PATCH 014/139] fix: add_readers dropped the deletions of the added
 segments

---
 c/src/index.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 75ac964..61b9fe1 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6553,16 +6553,6 @@ static void iw_cp_fields(IndexWriter *iw, SegmentReader *sr,
     sprintf(file_name, "%s.fdx", sr_segment);
     fdx_in = store_in->open_input(store_in, file_name);
 
-    sprintf(file_name, "%s.del", sr_segment);
-    if (store_in->exists(store_in, file_name)) {
-        OutStream *del_out;
-        InStream *del_in = store_in->open_input(store_in, file_name);
-        sprintf(file_name, "%s.del", segment);
-        del_out = store_out->new_output(store_out, file_name);
-        is2os_copy_bytes(del_in, del_out, is_length(del_in));
-    }
-
-
     if (map) {
         int i;
         const int max_doc = sr_max_doc(IR(sr));
@@ -6779,6 +6769,13 @@ static void iw_add_segment(IndexWriter *iw, SegmentReader *sr)
     else {
         iw_cp_files(iw, sr, si);
     }
+
+    if (sr->deleted_docs) {
+        char file_name[SEGMENT_NAME_MAX_LENGTH];
+        si->del_gen = 0;
+        fn_for_generation(file_name, si->name, "del", si->del_gen);
+        bv_write(sr->deleted_docs, iw->store, file_name);
+    }
 }
 
 static void iw_add_segments(IndexWriter *iw, IndexReader *ir)
-- 
2.43.0


From 55318b91d4a23130c4ec94d9558023e9bdb44fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:37 +0000
Subject: [PATCH 015/139] fix: ir_index_exists reported every store except one
 at generation 1 as holding an index

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 61b9fe1..d27c0e3 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3945,7 +3945,7 @@ static IndexReader *ir_setup(IndexReader *ir, Store *store, SegmentInfos *sis,
 
 bool ir_index_exists(Store *store)
 {
-    return sis_current_segment_generation(store) != 1;
+    return sis_current_segment_generation(store) != -1;
 }
 
 int ir_get_field_num(IndexReader *ir, Symbol field)
-- 
2.43.0


From 7ad9c3314799da82fda0efadd8cc03ce1ccc1ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:37 +0000
Subject: [PATCH 016/139] fix: closing a file-system lock object removed the
 lock file of whoever held the lock

---
 c/src/fs_store.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index b144c1d..0ad41e7 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -413,7 +413,6 @@ static Lock *fs_open_lock_i(Store *store, const char *lockname)
 
 static void fs_close_lock_i(Lock *lock)
 {
-    remove(lock->name);
     free(lock->name);
     free(lock);
 }
-- 
2.43.0


From 5d43d8e75eb3960c592b78d78116ebfdf998a80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:37 +0000
Subject: [PATCH 017/139] fix: closing a file-system store removed the locks
 that others hold on the directory

---
 c/src/fs_store.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 0ad41e7..9b2b190 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -212,15 +212,9 @@ static void fs_clear_all(Store *store)
  * Destroy the store.
  *
  * @param p the store to destroy
- * @raise IO_ERROR if there is an error deleting the locks
  */
 static void fs_destroy(Store *store)
 {
-    TRY
-        fs_clear_locks(store);
-    XCATCHALL
-        HANDLED();
-    XENDTRY
     free(store->dir.path);
     store_destroy(store);
 }
-- 
2.43.0


From fc8bd09405303f36df91620014f455fb33219551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:37 +0000
Subject: [PATCH 018/139] fix: a writer that could not get the write lock
 released the lock of its holder

---
 c/src/index.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index d27c0e3..cb40887 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6501,6 +6501,8 @@ IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
     TRY
         iw->write_lock = open_lock(store, WRITE_LOCK_NAME);
         if (!iw->write_lock->obtain(iw->write_lock)) {
+            close_lock(iw->write_lock);
+            iw->write_lock = NULL;
             RAISE(LOCK_ERROR,
                   "Couldn't obtain write lock when opening IndexWriter");
         }
-- 
2.43.0


From 92eae2c9435e19382e4f7175f8dcb5a69f5f6fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:37 +0000
Subject: [PATCH 019/139] fix: a reader refused the write lock kept its mutex
 locked and believed to hold the lock

---
 c/src/index.c | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index cb40887..c33d035 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3891,6 +3891,8 @@ static void ir_acquire_write_lock(IndexReader *ir)
     if (NULL == ir->write_lock) {
         ir->write_lock = open_lock(ir->store, WRITE_LOCK_NAME);
         if (!ir->write_lock->obtain(ir->write_lock)) {/* obtain write lock */
+            close_lock(ir->write_lock);
+            ir->write_lock = NULL;
             RAISE(LOCK_ERROR, "Could not obtain write lock when trying to "
                               "write changes to the index. Check that there "
                               "are no stale locks in the index. Look for "
@@ -3972,10 +3974,13 @@ int ir_doc_freq(IndexReader *ir, Symbol field, const char *term)
 static void ir_set_norm_i(IndexReader *ir, int doc_num, int field_num, uchar val)
 {
     mutex_lock(&ir->mutex);
-    ir->acquire_write_lock(ir);
-    ir->set_norm_i(ir, doc_num, field_num, val);
-    ir->has_changes = true;
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir->acquire_write_lock(ir);
+        ir->set_norm_i(ir, doc_num, field_num, val);
+        ir->has_changes = true;
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_set_norm(IndexReader *ir, int doc_num, Symbol field, uchar val)
@@ -4022,20 +4027,26 @@ uchar *ir_get_norms_into(IndexReader *ir, Symbol field, uchar *buf)
 void ir_undelete_all(IndexReader *ir)
 {
     mutex_lock(&ir->mutex);
-    ir->acquire_write_lock(ir);
-    ir->undelete_all_i(ir);
-    ir->has_changes = true;
-    mutex_unlock(&ir->mutex);
+    TRY
+        ir->acquire_write_lock(ir);
+        ir->undelete_all_i(ir);
+        ir->has_changes = true;
+    XFINALLY
+        mutex_unlock(&ir->mutex);
+    XENDTRY
 }
 
 void ir_delete_doc(IndexReader *ir, int doc_num)
 {
     if (doc_num >= 0 && doc_num < ir->max_doc(ir)) {
         mutex_lock(&ir->mutex);
-        ir->acquire_write_lock(ir);
-        ir->delete_doc_i(ir, doc_num);
-        ir->has_changes = true;
-        mutex_unlock(&ir->mutex);
+        TRY
+            ir->acquire_write_lock(ir);
+            ir->delete_doc_i(ir, doc_num);
+            ir->has_changes = true;
+        XFINALLY
+            mutex_unlock(&ir->mutex);
+        XENDTRY
     }
 }
 
-- 
2.43.0


From 89399630387b2be2656bc8cb1613ff244cdfa117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:37 +0000
Subject: [PATCH 020/139] fix: deleting through a MultiReader modified the
 sub-indexes without their write lock

---
 c/src/index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index c33d035..725ce9f 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4909,7 +4909,7 @@ static void mr_delete_doc_i(IndexReader *ir, int doc_num)
     MR(ir)->num_docs_cache = -1; /* invalidate cache */
 
     /* dispatch to segment reader */
-    reader->delete_doc_i(reader, doc_num - MR(ir)->starts[i]);
+    ir_delete_doc(reader, doc_num - MR(ir)->starts[i]);
     MR(ir)->has_deletions = true;
     ir->has_changes = true;
 }
@@ -4922,7 +4922,7 @@ static void mr_undelete_all_i(IndexReader *ir)
     MR(ir)->num_docs_cache = -1;                     /* invalidate cache */
     for (i = 0; i < mr_reader_cnt; i++) {
         IndexReader *reader = MR(ir)->sub_readers[i];
-        reader->undelete_all_i(reader);
+        ir_undelete_all(reader);
     }
     MR(ir)->has_deletions = false;
     ir->has_changes = true;
-- 
2.43.0


From 78bfc02ed14785954d37ab244b7cee744330d671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:09 +0000
Subject: [PATCH 021/139] fix: setting a norm through a MultiReader cleared the
 cached norms of the wrong field

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 725ce9f..efdd205 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4898,7 +4898,7 @@ static void mr_set_norm_i(IndexReader *ir, int doc_num, int field_num, uchar val
     if (fnum >= 0) {
         IndexReader *reader = MR(ir)->sub_readers[i];
         ir->has_changes = true;
-        h_del_int(MR(ir)->norms_cache, fnum);/* clear cache */
+        h_del_int(MR(ir)->norms_cache, field_num);/* clear cache */
         ir_set_norm_i(reader, doc_num - MR(ir)->starts[i], fnum, val);
     }
 }
-- 
2.43.0


From 530639802c1f1d0661be28d3a37755364bd079ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:09 +0000
Subject: [PATCH 022/139] fix: overwriting an index could reuse the version of
 the old one, so its readers passed as latest

---
 c/src/index.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index efdd205..362449e 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6182,6 +6182,20 @@ static int sm_merge(SegmentMerger *sm)
 void index_create(Store *store, FieldInfos *fis)
 {
     SegmentInfos *sis = sis_new(fis);
+    if (ir_index_exists(store)) {
+        /* versions must go on increasing when an index is overwritten or
+         * readers of the old index would take themselves for up to date */
+        TRY
+        {
+            u64 version = sis_read_current_version(store);
+            if (sis->version < version) {
+                sis->version = version;
+            }
+        }
+        XCATCHALL
+            HANDLED();
+        XENDTRY
+    }
     store->clear_all(store);
     sis_write(sis, store, NULL);
     sis_destroy(sis);
-- 
2.43.0


From a7c2d419d5679193afee9f83e8cff36663c0f707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:06 +0000
Subject: [PATCH 023/139] fix: a crash during the first commit left an index
 that could not be opened

---
 c/src/index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 362449e..4101329 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -974,10 +974,10 @@ static void sis_find_segments_file(Store *store, FindSegmentsFile *fsf,
             /* TODO:LOG "primary Exception on '" + segmentFileName + "': " +
              * err + "'; will retry: retry=" + retry + "; gen = " + gen */
 
-            if (!retry && gen > 1) {
+            if (!retry && gen > 0) {
                 /* This is our first time trying this segments file (because
                  * retry is false), and, there is possibly a segments_(N-1)
-                 * (because gen > 1).  So, check if the segments_(N-1) exists
+                 * (because gen > 0).  So, check if the segments_(N-1) exists
                  * and try it if so: */
                 char prev_seg_file_name[SEGMENT_NAME_MAX_LENGTH];
                 segfn_for_generation(prev_seg_file_name, gen - 1);
-- 
2.43.0


From fc1deb49102a8e28eca82c829d1978474edb8082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:26 +0000
Subject: [PATCH 024/139] fix: after a crash part-way through a commit new
 readers took themselves for stale

---
 c/src/index.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 4101329..60148b5 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1168,19 +1168,13 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
 
 static void sis_read_ver_i(Store *store, FindSegmentsFile *fsf)
 {
-    InStream *is;
-    u64 version = 0;
-    char seg_file_name[SEGMENT_NAME_MAX_LENGTH];
+    u64 version;
 
-    segfn_for_generation(seg_file_name, (u64)fsf->generation);
-    is = store->open_input(store, seg_file_name);
-
-    TRY
-        is_read_u32(is); // format
-        version = is_read_u64(is);
-    XFINALLY
-        is_close(is);
-    XENDTRY
+    /* read the whole file so that the version of a partly written segments
+     * file, which readers fall back from, isn't taken for the current one */
+    sis_read_i(store, fsf);
+    version = fsf->ret.sis->version;
+    sis_destroy(fsf->ret.sis);
 
     fsf->ret.uint64 = version;
 }
-- 
2.43.0


From 2220b8cbf5ceeb72abe807407648dc636daa47f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:15:48 +0000
Subject: [PATCH 025/139] fix: reading a segments file cut short before its
 field infos crashed

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 60148b5..062b884 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -433,7 +433,7 @@ FieldInfos *fis_read(InStream *is)
             }
         } while (0);
     XCATCHALL
-        fis_deref(fis);
+        if (fis) fis_deref(fis);
     XENDTRY
 
     return fis;
-- 
2.43.0


From fa9cae0b4e3766c73f18b6362b5d976b6b05658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:03 +0000
Subject: [PATCH 026/139] fix: after a crash part-way through a commit the next
 writer deleted the last good segments file

---
 c/src/index.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 062b884..861cb25 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3841,7 +3841,7 @@ void deleter_find_deletable_files(Deleter *dlr)
     /* Then go through all files in the Directory that are Ferret index files,
      * and add to deletable if they are not referenced by the current segments
      * info: */
-    sis_curr_seg_file_name(dfa.curr_seg_file_name, store);
+    segfn_for_generation(dfa.curr_seg_file_name, sis->generation);
 
     store->each(store, &deleter_find_deletable_files_i, &dfa);
     h_destroy(dfa.current);
-- 
2.43.0


From eb83b3a7e04b5aeb8730f7d568af7423d8d1d1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:23 +0000
Subject: [PATCH 027/139] fix: after a crash part-way through a commit the next
 commit by a reader deleted its own segments file

---
 c/src/index.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 861cb25..c4dd63e 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4111,16 +4111,12 @@ static void ir_commit_i(IndexReader *ir)
             ir->set_deleter_i(ir, deleter_new(ir->sis, ir->store));
         }
         if (ir->is_owner) {
-            char curr_seg_fn[MAX_FILE_PATH];
             mutex_lock(&ir->store->mutex);
 
-            sis_curr_seg_file_name(curr_seg_fn, ir->store);
-
             ir->commit_i(ir);
+            /* also deletes the segments file that this one replaces */
             sis_write(ir->sis, ir->store, ir->deleter);
 
-            if (ir->deleter) deleter_delete_file(ir->deleter, curr_seg_fn);
-
             mutex_unlock(&ir->store->mutex);
 
             if (NULL != ir->write_lock) {
-- 
2.43.0


From 37b4ded1f6ea315cdaf4778cd5dbf17c405ddff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:30 +0000
Subject: [PATCH 028/139] fix: failing to create a segments file crashed

---
 c/src/index.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index c4dd63e..a5f0fab 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1146,9 +1146,10 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
         }
         fis_write(sis->fis, os);
     XFINALLY
-        os_close(os);
+        if (os) os_close(os);
     XENDTRY
 
+    os = NULL;
     TRY
         os = store->new_output(store, SEGMENTS_GEN_FILE_NAME);
         os_write_u64(os, sis->generation);
@@ -1156,8 +1157,8 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
     XFINALLY
         /* It's OK if we fail to write this file since it's
          * used only as one of the retry fallbacks. */
+        if (os) os_close(os);
         HANDLED();
-        os_close(os);
     XENDTRY
 
     if (deleter && sis->generation > 0) {
-- 
2.43.0


From 658bdcb267356e869c763055c282c0b111a2930d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:54 +0000
Subject: [PATCH 029/139] fix: a commit that failed to write its segments file
 left a corrupt one behind

---
 c/src/index.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index a5f0fab..03cfd74 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -1147,6 +1147,12 @@ void sis_write(SegmentInfos *sis, Store *store, Deleter *deleter)
         fis_write(sis->fis, os);
     XFINALLY
         if (os) os_close(os);
+        if (!xcontext.handled) {
+            /* don't leave a broken segments file behind and let the next
+             * attempt replace the same commit */
+            store->remove(store, segfn_for_generation(buf, sis->generation));
+            sis->generation--;
+        }
     XENDTRY
 
     os = NULL;
-- 
2.43.0


From 52b6c8d981be30849997613a3464478a3f62e57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:21 +0000
Subject: [PATCH 030/139] fix: an I/O error during a commit left the store
 locked, so that later users of it hung

---
 c/src/index.c | 86 +++++++++++++++++++++++++++++----------------------
 1 file changed, 49 insertions(+), 37 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 03cfd74..3183580 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4119,12 +4119,13 @@ static void ir_commit_i(IndexReader *ir)
         }
         if (ir->is_owner) {
             mutex_lock(&ir->store->mutex);
-
-            ir->commit_i(ir);
-            /* also deletes the segments file that this one replaces */
-            sis_write(ir->sis, ir->store, ir->deleter);
-
-            mutex_unlock(&ir->store->mutex);
+            TRY
+                ir->commit_i(ir);
+                /* also deletes the segments file that this one replaces */
+                sis_write(ir->sis, ir->store, ir->deleter);
+            XFINALLY
+                mutex_unlock(&ir->store->mutex);
+            XENDTRY
 
             if (NULL != ir->write_lock) {
                 /* release write lock */
@@ -6278,22 +6279,24 @@ static void iw_merge_segments(IndexWriter *iw, const int min_seg,
     si->doc_cnt = sm_merge(merger);
 
     mutex_lock(&iw->store->mutex);
-    /* delete merged segments */
-    for (i = min_seg; i < max_seg; i++) {
-        si_delete_files(sis->segs[i], iw->fis, iw->deleter);
-    }
+    TRY
+        /* delete merged segments */
+        for (i = min_seg; i < max_seg; i++) {
+            si_delete_files(sis->segs[i], iw->fis, iw->deleter);
+        }
 
-    sis_del_from_to(sis, min_seg, max_seg);
+        sis_del_from_to(sis, min_seg, max_seg);
 
-    if (iw->config.use_compound_file) {
-        iw_commit_compound_file(iw, si);
-        si->use_compound_file = true;
-    }
-
-    sis_write(sis, iw->store, iw->deleter);
-    deleter_commit_pending_deletions(iw->deleter);
+        if (iw->config.use_compound_file) {
+            iw_commit_compound_file(iw, si);
+            si->use_compound_file = true;
+        }
 
-    mutex_unlock(&iw->store->mutex);
+        sis_write(sis, iw->store, iw->deleter);
+        deleter_commit_pending_deletions(iw->deleter);
+    XFINALLY
+        mutex_unlock(&iw->store->mutex);
+    XENDTRY
 
     sm_destroy(merger);
 }
@@ -6344,16 +6347,17 @@ static void iw_flush_ram_segment(IndexWriter *iw)
     dw_flush(iw->dw);
 
     mutex_lock(&iw->store->mutex);
-
-    if (iw->config.use_compound_file) {
-        iw_commit_compound_file(iw, si);
-        si->use_compound_file = true;
-    }
-    /* commit the segments file and the fields file */
-    sis_write(iw->sis, iw->store, iw->deleter);
-    deleter_commit_pending_deletions(iw->deleter);
-
-    mutex_unlock(&iw->store->mutex);
+    TRY
+        if (iw->config.use_compound_file) {
+            iw_commit_compound_file(iw, si);
+            si->use_compound_file = true;
+        }
+        /* commit the segments file and the fields file */
+        sis_write(iw->sis, iw->store, iw->deleter);
+        deleter_commit_pending_deletions(iw->deleter);
+    XFINALLY
+        mutex_unlock(&iw->store->mutex);
+    XENDTRY
 
     iw_maybe_merge_segments(iw);
 }
@@ -6417,8 +6421,11 @@ void iw_delete_term(IndexWriter *iw, Symbol field, const char *term)
             }
             if (did_delete) {
                 mutex_lock(&iw->store->mutex);
-                sis_write(iw->sis, iw->store, iw->deleter);
-                mutex_unlock(&iw->store->mutex);
+                TRY
+                    sis_write(iw->sis, iw->store, iw->deleter);
+                XFINALLY
+                    mutex_unlock(&iw->store->mutex);
+                XENDTRY
             }
         } while (0);
         mutex_unlock(&iw->mutex);
@@ -6456,8 +6463,11 @@ void iw_delete_terms(IndexWriter *iw, Symbol field,
             }
             if (did_delete) {
                 mutex_lock(&iw->store->mutex);
-                sis_write(iw->sis, iw->store, iw->deleter);
-                mutex_unlock(&iw->store->mutex);
+                TRY
+                    sis_write(iw->sis, iw->store, iw->deleter);
+                XFINALLY
+                    mutex_unlock(&iw->store->mutex);
+                XENDTRY
             }
         } while (0);
         mutex_unlock(&iw->mutex);
@@ -6828,10 +6838,12 @@ void iw_add_readers(IndexWriter *iw, IndexReader **readers, const int r_cnt)
     }
 
     mutex_lock(&iw->store->mutex);
-
-    /* commit the segments file and the fields file */
-    sis_write(iw->sis, iw->store, iw->deleter);
-    mutex_unlock(&iw->store->mutex);
+    TRY
+        /* commit the segments file and the fields file */
+        sis_write(iw->sis, iw->store, iw->deleter);
+    XFINALLY
+        mutex_unlock(&iw->store->mutex);
+    XENDTRY
 
     iw_optimize_i(iw);
     mutex_unlock(&iw->mutex);
-- 
2.43.0


From d47b2d35b486c3b6f1bfd97488634c1620652712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:19 +0000
Subject: [PATCH 031/139] fix: enumerating terms of several segments from the
 empty term dropped segments that contain it

---
 c/src/index.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 3183580..fb6a429 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -2581,16 +2581,10 @@ TermEnum *mte_new(MultiReader *mr, int field_num, const char *term)
         if (fnum >= 0) {
             TermEnumWrapper *tew;
 
-            if (NULL != term) {
-                sub_te = reader->terms_from(reader, fnum, term);
-            }
-            else {
-                sub_te = reader->terms(reader, fnum);
-            }
+            sub_te = reader->terms(reader, fnum);
 
             tew = tew_setup(&(mte->tews[i]), i, sub_te, reader);
-            if (((NULL == term) && tew_next(tew))
-                || (tew->term && (tew->term[0] != '\0'))) {
+            if ((NULL == term) ? tew_next(tew) : tew_skip_to(tew, term)) {
                 pq_push(mte->tew_queue, tew);          /* initialize queue */
             }
         }
-- 
2.43.0


From e38d9dc333edce96a38f6cc254ed81480728a50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:33 +0000
Subject: [PATCH 032/139] fix: merging long terms overwrote the last indexed
 term while it was still needed

---
 c/src/index.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index fb6a429..1ed0b9f 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -6089,7 +6089,9 @@ static void sm_merge_terms(SegmentMerger *sm)
      * term put in the index with the next one. So the size of the buffer must
      * by index_interval + 2. */
     sm->term_buf_ptr = 0;
-    sm->term_buf_size = (sm->config->index_interval + 1) * MAX_WORD_SIZE;
+    /* the last term added to the term index must survive until
+     * index_interval + 1 more terms have been cached */
+    sm->term_buf_size = (sm->config->index_interval + 2) * MAX_WORD_SIZE;
     sm->term_buf = ALLOC_N(char, sm->term_buf_size + MAX_WORD_SIZE);
 
     sm->queue = pq_new(sm->seg_cnt, (lt_ft)&smi_lt, NULL);
-- 
2.43.0


From b5afafb25aa30729eb6368b2851b2fb13636273e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:09 +0000
Subject: [PATCH 033/139] fix: skipping in a posting list with a skip interval
 of 1 miscounted its documents

---
 c/src/index.c | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 1ed0b9f..bfb4197 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3000,7 +3000,7 @@ static bool stde_skip_to(TermDocEnum *tde, int target_doc_num)
         int last_skip_doc;
         off_t last_frq_ptr;
         off_t last_prx_ptr;
-        int num_skipped;
+        int last_skip_count;
 
         if (NULL == stde->skip_in) {
             stde->skip_in = is_clone(stde->frq_in);/* lazily clone */
@@ -3016,17 +3016,13 @@ static bool stde_skip_to(TermDocEnum *tde, int target_doc_num)
         last_skip_doc = stde->skip_doc;
         last_frq_ptr = is_pos(stde->frq_in);
         last_prx_ptr = -1;
-        num_skipped = -1 - (stde->count % stde->skip_interval);
-        //printf("%d, %d, %d, %d\n", last_skip_doc, last_frq_ptr, last_prx_ptr, num_skipped);
+        last_skip_count = stde->skip_count;
 
         while (target_doc_num > stde->skip_doc) {
             last_skip_doc = stde->skip_doc;
             last_frq_ptr = stde->frq_ptr;
             last_prx_ptr = stde->prx_ptr;
-
-            if (0 != stde->skip_doc && stde->skip_doc >= stde->doc_num) {
-                num_skipped += stde->skip_interval;
-            }
+            last_skip_count = stde->skip_count;
 
             if (stde->skip_count >= stde->num_skips) {
                 break;
@@ -3046,7 +3042,8 @@ static bool stde_skip_to(TermDocEnum *tde, int target_doc_num)
             stde->seek_prox(stde, last_prx_ptr);
 
             stde->doc_num = last_skip_doc;
-            stde->count += num_skipped;
+            /* each skip entry points in front of every skip_interval-th doc */
+            stde->count = last_skip_count * stde->skip_interval - 1;
         }
     }
 
-- 
2.43.0


From 04e52367720b0901c9ff0384a05f56d6285949de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:42 +0000
Subject: [PATCH 034/139] fix: seeking a missing term over several segments
 left the previous term's documents to be enumerated

---
 c/src/index.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/src/index.c b/c/src/index.c
index bfb4197..9dfaea3 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3290,6 +3290,7 @@ static void mtde_seek(TermDocEnum *tde, int field_num, const char *term)
     }
     else {
         memset(mtde->state, 0, mtde->ir_cnt);
+        mtde->curr_tde = NULL;
     }
 }
 
-- 
2.43.0


From 8118a8a50a57adcfb468aa0add9f42affe383a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:48 +0000
Subject: [PATCH 035/139] fix: seek_te on a segment's TermPosEnum left it at
 the positions of the previous term

---
 c/src/index.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/c/src/index.c b/c/src/index.c
index 9dfaea3..d157371 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3124,6 +3124,7 @@ static void stpe_seek_ti(SegmentTermDocEnum *stde, TermInfo *ti)
         stde_seek_ti(stde, ti);
         is_seek(stde->prx_in, ti->prx_ptr);
     }
+    stde->prx_cnt = 0;
 }
 
 static void stpe_seek(TermDocEnum *tde, int field_num, const char *term)
@@ -3131,7 +3132,16 @@ static void stpe_seek(TermDocEnum *tde, int field_num, const char *term)
     SegmentTermDocEnum *stde = STDE(tde);
     TermInfo *ti = tir_get_ti_field(stde->tir, field_num, term);
     stpe_seek_ti(stde, ti);
-    stde->prx_cnt = 0;
+}
+
+static void stpe_seek_te(TermDocEnum *tde, TermEnum *te)
+{
+#ifdef DEBUG
+    if (te->set_field != &ste_set_field) {
+        RAISE(ARG_ERROR, "Passed an incorrect TermEnum type");
+    }
+#endif
+    stpe_seek_ti(STDE(tde), &(te->curr_ti));
 }
 
 static bool stpe_next(TermDocEnum *tde)
@@ -3195,6 +3205,7 @@ TermDocEnum *stpe_new(TermInfosReader *tir,
 
     /* TermDocEnum methods */
     tde->seek                = &stpe_seek;
+    tde->seek_te             = &stpe_seek_te;
     tde->next                = &stpe_next;
     tde->read                = &stpe_read;
     tde->next_position       = &stpe_next_position;
-- 
2.43.0


From 118ecde5d6ae6ce656aeaacaf219eb61656163d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:32 +0000
Subject: [PATCH 036/139] fix: skipping in a conjunction could return documents
 that match only some of its clauses

---
 c/src/q_boolean.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 17028ab..dc6fb59 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -396,12 +396,12 @@ static bool csc_skip_to(Scorer *self, int doc_num)
             more = sub_scorer->skip_to(sub_scorer, doc_num);
         }
     }
+    csc->more = more;
     if (more) {
         /* resort the scorers */
         csc_sort_scorers(csc);
     }
 
-    csc->more = more;
     return csc_do_next(self);
 }
 
-- 
2.43.0


From 0680a803cf5ade87dfd95d9dc92f5f7baf38ec41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:45 +0000
Subject: [PATCH 037/139] fix: a constant score query used a second time, or
 twice in one query, lost documents

---
 c/src/q_const_score.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/c/src/q_const_score.c b/c/src/q_const_score.c
index 0269f3d..e551127 100644
--- a/c/src/q_const_score.c
+++ b/c/src/q_const_score.c
@@ -23,14 +23,21 @@ static float cssc_score(Scorer *self)
     return CScSc(self)->score;
 }
 
-static bool cssc_next(Scorer *self)
+static bool cssc_skip_to(Scorer *self, int doc_num)
 {
-    return ((self->doc = bv_scan_next(CScSc(self)->bv)) >= 0);
+    /* the bit vector is cached by the filter and shared with other scorers so
+     * the position has to be kept here */
+    int doc = bv_scan_next_from(CScSc(self)->bv, doc_num);
+    if (doc < 0) {
+        return false;
+    }
+    self->doc = doc;
+    return true;
 }
 
-static bool cssc_skip_to(Scorer *self, int doc_num)
+static bool cssc_next(Scorer *self)
 {
-    return ((self->doc = bv_scan_next_from(CScSc(self)->bv, doc_num)) >= 0);
+    return cssc_skip_to(self, self->doc + 1);
 }
 
 static Explanation *cssc_explain(Scorer *self, int doc_num)
@@ -47,6 +54,7 @@ static Scorer *cssc_new(Weight *weight, IndexReader *ir)
     CScSc(self)->score  = weight->value;
     CScSc(self)->bv     = filt_get_bv(filter, ir);
 
+    self->doc       = -1;
     self->score     = &cssc_score;
     self->next      = &cssc_next;
     self->skip_to   = &cssc_skip_to;
-- 
2.43.0


From 06d826334712ec0885c52b0f30521519cd219d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:45 +0000
Subject: [PATCH 038/139] fix: scanning a bit vector from beyond its end read
 past its memory

---
 c/include/bitvector.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index 032283d..1f91c42 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -271,11 +271,13 @@ static FRT_ATTR_ALWAYS_INLINE
 int frt_bv_scan_next_from(FrtBitVector *bv, const int bit)
 {
     frt_u32 pos  = bit >> 5;
-    frt_u32 word = bv->bits[pos];
+    frt_u32 word;
 
     if (bit >= bv->size)
         return -1;
 
+    word = bv->bits[pos];
+
     /* Keep only the bits above this position */
     word &= ~0 << (bit & 31);
     if (word) {
@@ -321,11 +323,13 @@ static FRT_ATTR_ALWAYS_INLINE
 int frt_bv_scan_next_unset_from(FrtBitVector *bv, const int bit)
 {
     frt_u32 pos  = bit >> 5;
-    frt_u32 word = bv->bits[pos];
+    frt_u32 word;
 
     if (bit >= bv->size)
         return -1;
 
+    word = bv->bits[pos];
+
     /* Set all of the bits below this position */
     word |= (1 << (bit & 31)) - 1;
     if (~word) {
-- 
2.43.0


From 1fccc9ccd1f011144391e7115a10197e5733048e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:03 +0000
Subject: [PATCH 039/139] fix: a filtered query whose query has no matches to
 score crashed

---
 c/src/q_filtered_query.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 31f8c07..964f685 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -127,6 +127,9 @@ static Scorer *fqw_scorer(Weight *self, IndexReader *ir)
     Scorer *scorer = sub_weight->scorer(sub_weight, ir);
     Filter *filter = FQQ(self->query)->filter;
 
+    if (!scorer) {
+        return NULL;
+    }
     return fqsc_new(scorer, filt_get_bv(filter, ir), self->similarity);
 }
 
-- 
2.43.0


From 49a5ad8d699113686a59b0646f0c9895bf65a6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:54 +0000
Subject: [PATCH 040/139] fix: a constant score query returned documents
 deleted since its filter was cached

---
 c/src/q_const_score.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/c/src/q_const_score.c b/c/src/q_const_score.c
index e551127..ebd4a4d 100644
--- a/c/src/q_const_score.c
+++ b/c/src/q_const_score.c
@@ -14,6 +14,7 @@
 typedef struct ConstantScoreScorer
 {
     Scorer      super;
+    IndexReader *ir;
     BitVector  *bv;
     float       score;
 } ConstantScoreScorer;
@@ -27,7 +28,13 @@ static bool cssc_skip_to(Scorer *self, int doc_num)
 {
     /* the bit vector is cached by the filter and shared with other scorers so
      * the position has to be kept here */
-    int doc = bv_scan_next_from(CScSc(self)->bv, doc_num);
+    BitVector *bv = CScSc(self)->bv;
+    IndexReader *ir = CScSc(self)->ir;
+    int doc = bv_scan_next_from(bv, doc_num);
+    /* documents may have been deleted since the filter was cached */
+    while (doc >= 0 && ir->is_deleted(ir, doc)) {
+        doc = bv_scan_next_from(bv, doc + 1);
+    }
     if (doc < 0) {
         return false;
     }
@@ -52,6 +59,7 @@ static Scorer *cssc_new(Weight *weight, IndexReader *ir)
     Filter *filter  = CScQ(weight->query)->filter;
 
     CScSc(self)->score  = weight->value;
+    CScSc(self)->ir     = ir;
     CScSc(self)->bv     = filt_get_bv(filter, ir);
 
     self->doc       = -1;
-- 
2.43.0


From e88939ca6214cd254b13ab10ec9a5781e864c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:03 +0000
Subject: [PATCH 041/139] fix: searching for a query of only prohibited clauses
 added a match-all clause to it

---
 c/src/q_boolean.c | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index dc6fb59..00167d5 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1336,6 +1336,25 @@ static MatchVector *bq_get_matchv_i(Query *self, MatchVector *mv,
     return mv;
 }
 
+/* Make a copy of the BooleanQuery which shares its clauses. The caller's
+ * reference to +self+ is replaced by a reference to the copy. */
+static Query *bq_copy_for_rewrite(Query *self)
+{
+    int i;
+    Query *new_self = q_new(BooleanQuery);
+    memcpy(new_self, self, sizeof(BooleanQuery));
+    BQ(new_self)->similarity = NULL;
+    BQ(new_self)->clauses = ALLOC_N(BooleanClause *, BQ(self)->clause_capa);
+    memcpy(BQ(new_self)->clauses, BQ(self)->clauses,
+           BQ(self)->clause_capa * sizeof(BooleanClause *));
+    for (i = 0; i < BQ(self)->clause_cnt; i++) {
+        REF(BQ(self)->clauses[i]);
+    }
+    self->ref_cnt--;
+    new_self->ref_cnt = 1;
+    return new_self;
+}
+
 static Query *bq_rewrite(Query *self, IndexReader *ir)
 {
     int i;
@@ -1378,19 +1397,7 @@ static Query *bq_rewrite(Query *self, IndexReader *ir)
         if (clause->is_prohibited == false) has_non_prohibited_clause = true;
         if (rq != clause->query) {
             if (!rewritten) {
-                int j;
-                Query *new_self = q_new(BooleanQuery);
-                memcpy(new_self, self, sizeof(BooleanQuery));
-                BQ(new_self)->clauses = ALLOC_N(BooleanClause *,
-                                                BQ(self)->clause_capa);
-                memcpy(BQ(new_self)->clauses, BQ(self)->clauses,
-                       BQ(self)->clause_capa * sizeof(BooleanClause *));
-                for (j = 0; j < clause_cnt; j++) {
-                    REF(BQ(self)->clauses[j]);
-                }
-                self->ref_cnt--;
-                self = new_self;
-                self->ref_cnt = 1;
+                self = bq_copy_for_rewrite(self);
                 rewritten = true;
             }
             DEREF(clause);
@@ -1400,6 +1407,9 @@ static Query *bq_rewrite(Query *self, IndexReader *ir)
         }
     }
     if (clause_cnt > 0 && !has_non_prohibited_clause) {
+        if (!rewritten) {
+            self = bq_copy_for_rewrite(self);
+        }
         bq_add_query_nr(self, maq_new(), BC_MUST);
     }
 
-- 
2.43.0


From 1520715ac81ecf7b9c146a816157ed22f90f637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:59 +0000
Subject: [PATCH 042/139] fix: a sloppy phrase repeating a word matched the
 same occurrence twice

The check for repeated words compared each new position with all the earlier
ones but the last, so "a a"~1 matched a document with a single a.
---
 c/src/q_phrase.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 03e37c7..3475c70 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -471,7 +471,7 @@ static float sphsc_phrase_freq(Scorer *self)
         res = pp_first_position(pp);
         assert(res);(void)res;
         if (check_repeats && i > 0) {
-            if (!sphsc_check_repeats(pp, phsc->phrase_pos, i - 1)) {
+            if (!sphsc_check_repeats(pp, phsc->phrase_pos, i)) {
                 goto return_freq;
             }
         }
-- 
2.43.0


From 0dfdefec212e21efb29340ef83865a741d960128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:06 +0000
Subject: [PATCH 043/139] fix: a sloppy phrase whose first position is not 0
 missed matches at the start of a field

The largest relative position was initialised with 0, but relative positions
are negative when all the offsets are larger than the positions.
---
 c/src/q_phrase.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 3475c70..1634b66 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -458,7 +458,7 @@ static float sphsc_phrase_freq(Scorer *self)
     PriorityQueue *pq = pq_new(phsc->pp_cnt, (lt_ft)&pp_less_than, NULL);
     const int pp_cnt = phsc->pp_cnt;
 
-    int last_pos = 0, pos, next_pos, start, match_length, i;
+    int last_pos = INT_MIN, pos, next_pos, start, match_length, i;
     bool done = false;
     bool check_repeats = phsc->check_repeats;
     float freq = 0.0;
@@ -842,7 +842,7 @@ static MatchVector *phq_get_matchv_i(Query *self, MatchVector *mv,
 
         if (slop > 0) {
             PriorityQueue *tvpe_pq = pq_new(pos_cnt, (lt_ft)tvpe_lt, &free);
-            int last_pos = 0;
+            int last_pos = INT_MIN;
             for (i = 0; i < pos_cnt; i++) {
                 PhrasePosition *pp = &(PhQ(self)->positions[i]);
                 const int t_cnt = ary_size(pp->terms);
-- 
2.43.0


From 245763293cefdec8b909cbd19d2aa6f1607d3775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:31 +0000
Subject: [PATCH 044/139] fix: a span-or query inside a span-near or span-not
 query crashed

Its document was asked for before it was first advanced or after it was
exhausted, when it has no current span.
---
 c/src/q_span.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index da844a8..a7b708d 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -847,6 +847,9 @@ static bool spanoe_skip_to(SpanEnum *self, int target)
 static int spanoe_doc(SpanEnum *self)
 {
     SpanEnum *se = SpOEn_Top_SE(self);
+    if (NULL == se) {   /* not positioned yet or exhausted */
+        return SpOEn(self)->first_time ? -1 : INT_MAX;
+    }
     return se->doc(se);
 }
 
-- 
2.43.0


From 37eaa0353db71147982ec025c1804ee85f95ff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:55 +0000
Subject: [PATCH 045/139] fix: span multi-term and span prefix queries failed
 on indexes of several segments

The first position was read before the enumeration was moved to its first
document, which raises an error for a MultiReader.
---
 c/src/q_span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index a7b708d..c9331f6 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -471,7 +471,7 @@ static bool tpew_less_than(const TermPosEnumWrapper *tpew1,
 static bool tpew_next(TermPosEnumWrapper *self)
 {
     TermDocEnum *tpe = self->tpe;
-    if (0 > (self->pos = tpe->next_position(tpe))) {
+    if (self->doc < 0 || 0 > (self->pos = tpe->next_position(tpe))) {
         if (!tpe->next(tpe)) return false;
         self->doc = tpe->doc_num(tpe);
         self->pos = tpe->next_position(tpe);
-- 
2.43.0


From 33902b8cd9d014dc741041bce36b13de84783545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:25 +0000
Subject: [PATCH 046/139] fix: skipping in a span query lost matching documents
 and their frequencies

The span enumeration is one document ahead of the scorer, so skipping it
again jumped over the document it was at; and the frequency was only counted
when the document found was the target itself.
---
 c/src/q_span.c | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index c9331f6..9c7960f 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -243,23 +243,14 @@ static bool spansc_skip_to(Scorer *self, int target)
     SpanScorer *spansc = SpSc(self);
     SpanEnum *se = spansc->spans;
 
-    spansc->more = se->skip_to(se, target);
-    if (!spansc->more) {
-        return false;
-    }
-
-    spansc->freq = 0.0;
-    self->doc = se->doc(se);
-
-    while (spansc->more && (se->doc(se) == target)) {
-        spansc->freq += sim_sloppy_freq(spansc->sim, se->end(se) - se->start(se));
-        spansc->more = se->next(se);
-        if (spansc->first_time) {
-            spansc->first_time = false;
-        }
+    /* the spans are already beyond the current document, maybe at the target */
+    if (spansc->first_time
+        || (spansc->more && (se->doc(se) < target))) {
+        spansc->more = se->skip_to(se, target);
+        spansc->first_time = false;
     }
 
-    return (spansc->more || (spansc->freq != 0.0));
+    return spansc_next(self);
 }
 
 static Explanation *spansc_explain(Scorer *self, int target)
-- 
2.43.0


From fe681f25d69e34cdf81ed012739ed43d1a443ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:40 +0000
Subject: [PATCH 047/139] fix: searching replaced the clauses of a span query
 by their rewritten forms

A span prefix query inside another span query was replaced, in the query
itself, by the terms it matched in that index, so that searching again with
the same query missed the terms added since, or those of another index.
Rewrite a copy instead.
---
 c/src/q_span.c | 75 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 21 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 9c7960f..459189c 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1739,8 +1739,12 @@ static Query *spanfq_rewrite(Query *self, IndexReader *ir)
 
     q = SpFQ(self)->match;
     rq = q->rewrite(q, ir);
-    q_deref(q);
-    SpFQ(self)->match = rq;
+    if (rq != q) {
+        q = spanfq_new_nr(rq, SpFQ(self)->end);
+        q->boost = self->boost;
+        return q;
+    }
+    q_deref(rq);
 
     self->ref_cnt++;
     return self;                    /* no clauses rewrote */
@@ -1867,14 +1871,29 @@ static SpanEnum *spanoq_get_spans(Query *self, IndexReader *ir)
 static Query *spanoq_rewrite(Query *self, IndexReader *ir)
 {
     SpanOrQuery *soq = SpOQ(self);
-    int i;
+    Query *q = NULL;
+    int i, j;
 
-    /* replace clauses with their rewritten queries */
     for (i = 0; i < soq->c_cnt; i++) {
         Query *clause = soq->clauses[i];
         Query *rewritten = clause->rewrite(clause, ir);
-        q_deref(clause);
-        soq->clauses[i] = rewritten;
+        if (NULL == q && rewritten != clause) {
+            /* self may be used again so put the clauses in a new query */
+            q = spanoq_new();
+            q->boost = self->boost;
+            for (j = 0; j < i; j++) {
+                spanoq_add_clause(q, soq->clauses[j]);
+            }
+        }
+        if (q) {
+            spanoq_add_clause_nr(q, rewritten);
+        }
+        else {
+            q_deref(rewritten);
+        }
+    }
+    if (q) {
+        return q;
     }
 
     self->ref_cnt++;
@@ -2052,12 +2071,29 @@ static SpanEnum *spannq_get_spans(Query *self, IndexReader *ir)
 static Query *spannq_rewrite(Query *self, IndexReader *ir)
 {
     SpanNearQuery *snq = SpNQ(self);
-    int i;
+    Query *q = NULL;
+    int i, j;
+
     for (i = 0; i < snq->c_cnt; i++) {
         Query *clause = snq->clauses[i];
         Query *rewritten = clause->rewrite(clause, ir);
-        q_deref(clause);
-        snq->clauses[i] = rewritten;
+        if (NULL == q && rewritten != clause) {
+            /* self may be used again so put the clauses in a new query */
+            q = spannq_new(snq->slop, snq->in_order);
+            q->boost = self->boost;
+            for (j = 0; j < i; j++) {
+                spannq_add_clause(q, snq->clauses[j]);
+            }
+        }
+        if (q) {
+            spannq_add_clause_nr(q, rewritten);
+        }
+        else {
+            q_deref(rewritten);
+        }
+    }
+    if (q) {
+        return q;
     }
 
     self->ref_cnt++;
@@ -2201,19 +2237,16 @@ static HashSet *spanxq_get_terms(Query *self)
 static Query *spanxq_rewrite(Query *self, IndexReader *ir)
 {
     SpanNotQuery *sxq = SpXQ(self);
-    Query *q, *rq;
-
-    /* rewrite inclusive query */
-    q = sxq->inc;
-    rq = q->rewrite(q, ir);
-    q_deref(q);
-    sxq->inc = rq;
+    Query *inc = sxq->inc->rewrite(sxq->inc, ir);
+    Query *exc = sxq->exc->rewrite(sxq->exc, ir);
 
-    /* rewrite exclusive query */
-    q = sxq->exc;
-    rq = q->rewrite(q, ir);
-    q_deref(q);
-    sxq->exc = rq;
+    if (inc != sxq->inc || exc != sxq->exc) {
+        Query *q = spanxq_new_nr(inc, exc);
+        q->boost = self->boost;
+        return q;
+    }
+    q_deref(inc);
+    q_deref(exc);
 
     self->ref_cnt++;
     return self;
-- 
2.43.0


From 9f76d489841cb16c625440fe3839b8db59859c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:40 +0000
Subject: [PATCH 048/139] fix: a clause refused by a span-or or span-near query
 was still counted

Using or destroying the query afterwards read an uninitialised clause.
---
 c/src/q_span.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 459189c..87cc672 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1972,7 +1972,7 @@ Query *spanoq_new()
 
 Query *spanoq_add_clause_nr(Query *self, Query *clause)
 {
-    const int curr_index = SpOQ(self)->c_cnt++;
+    const int curr_index = SpOQ(self)->c_cnt;
     if (clause->type < SPAN_TERM_QUERY || clause->type > SPAN_NEAR_QUERY) {
         RAISE(ARG_ERROR, "Tried to add a %s to a SpanOrQuery. This is not a "
               "SpanQuery.", q_get_query_name(clause->type));
@@ -1990,6 +1990,7 @@ Query *spanoq_add_clause_nr(Query *self, Query *clause)
         REALLOC_N(SpOQ(self)->clauses, Query *, SpOQ(self)->c_capa);
     }
     SpOQ(self)->clauses[curr_index] = clause;
+    SpOQ(self)->c_cnt++;
     return clause;
 }
 
@@ -2179,7 +2180,7 @@ Query *spannq_new(int slop, bool in_order)
 
 Query *spannq_add_clause_nr(Query *self, Query *clause)
 {
-    const int curr_index = SpNQ(self)->c_cnt++;
+    const int curr_index = SpNQ(self)->c_cnt;
     if (clause->type < SPAN_TERM_QUERY || clause->type > SPAN_NEAR_QUERY) {
         RAISE(ARG_ERROR, "Tried to add a %s to a SpanNearQuery. This is not a "
               "SpanQuery.", q_get_query_name(clause->type));
@@ -2197,6 +2198,7 @@ Query *spannq_add_clause_nr(Query *self, Query *clause)
         REALLOC_N(SpNQ(self)->clauses, Query *, SpNQ(self)->c_capa);
     }
     SpNQ(self)->clauses[curr_index] = clause;
+    SpNQ(self)->c_cnt++;
     return clause;
 }
 
-- 
2.43.0


From 468b80140e86acb9cf428a5b110522972a4cde4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:03 +0000
Subject: [PATCH 049/139] fix: a span-not query over two different fields was
 not refused

---
 c/src/q_span.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 87cc672..34d360f 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -2283,7 +2283,7 @@ static int spanxq_eq(Query *self, Query *o)
 Query *spanxq_new_nr(Query *inc, Query *exc)
 {
     Query *self;
-    if (SpQ(inc)->field != SpQ(inc)->field) {
+    if (SpQ(inc)->field != SpQ(exc)->field) {
         RAISE(ARG_ERROR, "All clauses in a SpanQuery must have the same field. "
               "Attempted to add a SpanQuery with field \"%s\" along with a "
               "SpanQuery with field \"%s\" to an SpanNotQuery",
-- 
2.43.0


From 9d30f109c9709ee02159d937baefb7adb9656e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:58 +0000
Subject: [PATCH 050/139] fix: a typed range matched terms that are no numbers

When a term could not be read as a number, the number and length of the
previous one were used.
---
 c/src/q_range.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/src/q_range.c b/c/src/q_range.c
index 4270909..d179b51 100644
--- a/c/src/q_range.c
+++ b/c/src/q_range.c
@@ -330,8 +330,8 @@ typedef enum {
 #define SET_DOCS(cond)\
 do {\
     if (term[0] > '9') break; /* done */\
-    sscanf(term, "%lg%n", &num, &len);\
-    if (len == te->curr_term_len) { /* We have a number */\
+    if (sscanf(term, "%lg%n", &num, &len) == 1\
+        && len == te->curr_term_len) { /* We have a number */\
         if (cond) {\
             tde->seek_te(tde, te);\
             while (tde->next(tde)) {\
@@ -560,8 +560,8 @@ for (i = tv->term_cnt - 1; i >= 0; i--) {\
     TVTerm *tv_term = &(tv->terms[i]);\
     char *text = tv_term->text;\
     double num;\
-    sscanf(text, "%lg%n", &num, &len);\
-    if ((int)strlen(text) == len) { /* We have a number */\
+    if (sscanf(text, "%lg%n", &num, &len) == 1\
+        && (int)strlen(text) == len) { /* We have a number */\
         if (cond) {\
             const int tv_term_freq = tv_term->freq;\
             for (j = 0; j < tv_term_freq; j++) {\
-- 
2.43.0


From 99a2740eac34df42e7fcb5ebf3ad9885ef9d573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:59 +0000
Subject: [PATCH 051/139] fix: a wildcard pattern starting with a very long
 word overflowed a buffer

---
 c/src/q_wildcard.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/c/src/q_wildcard.c b/c/src/q_wildcard.c
index d46ce02..c7cd7dd 100644
--- a/c/src/q_wildcard.c
+++ b/c/src/q_wildcard.c
@@ -91,17 +91,18 @@ static Query *wcq_rewrite(Query *self, IndexReader *ir)
     }
     else {
         const int field_num = fis_get_field_num(ir->fis, WCQ(self)->field);
+        int prefix_len;
+
+        pattern = (first_ques && (!first_star || first_star > first_ques))
+            ? first_ques : first_star;
+        prefix_len = (int)(pattern - WCQ(self)->pattern);
+
         q = multi_tq_new_conf(WCQ(self)->field, MTQMaxTerms(self), 0.0);
 
-        if (field_num >= 0) {
+        /* no term is as long as MAX_WORD_SIZE */
+        if (field_num >= 0 && prefix_len < MAX_WORD_SIZE) {
             TermEnum *te;
             char prefix[MAX_WORD_SIZE] = "";
-            int prefix_len;
-
-            pattern = (first_ques && (!first_star || first_star > first_ques))
-                ? first_ques : first_star;
-
-            prefix_len = (int)(pattern - WCQ(self)->pattern);
 
             if (prefix_len > 0) {
                 memcpy(prefix, WCQ(self)->pattern, prefix_len);
-- 
2.43.0


From 4e2010884fc4098bd51c6d0550cf75fd8881ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:38 +0000
Subject: [PATCH 052/139] fix: rendering an explanation as HTML used freed
 memory

---
 c/src/search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/search.c b/c/src/search.c
index 9f7a937..250b89e 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -65,7 +65,7 @@ char *expl_to_html(Explanation *expl)
     buffer = strfmt("<ul>\n<li>%f = %s</li>\n", expl->value, expl->description);
 
     for (i = 0; i < num_details; i++) {
-        estrcat(buffer, expl_to_html(expl->details[i]));
+        buffer = estrcat(buffer, expl_to_html(expl->details[i]));
     }
 
     REALLOC_N(buffer, char, strlen(buffer) + 10);
-- 
2.43.0


From dbb0687f94806af70dce7f1d72114e3a67e60ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:38 +0000
Subject: [PATCH 053/139] fix: an optional clause that can match nothing was
 left out of the coord factor

---
 c/src/q_boolean.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 00167d5..f75e55b 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1154,6 +1154,10 @@ static Scorer *bw_scorer(Weight *self, IndexReader *ir)
             bsc->destroy(bsc);
             return NULL;
         }
+        else if (!clause->is_prohibited) {
+            /* the clause can't match but counts for the coord factor */
+            BSc(bsc)->coordinator->max_coord++;
+        }
     }
 
     return bsc;
-- 
2.43.0


From 383893383817042fed420373e3f9c01834d869d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:38 +0000
Subject: [PATCH 054/139] fix: scoring a span query on a field without norms
 crashed and explanations of such fields were 0

---
 c/src/q_multi_term.c | 2 +-
 c/src/q_phrase.c     | 2 +-
 c/src/q_span.c       | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/src/q_multi_term.c b/c/src/q_multi_term.c
index 873f93f..6023d99 100644
--- a/c/src/q_multi_term.c
+++ b/c/src/q_multi_term.c
@@ -449,7 +449,7 @@ static Explanation *multi_tw_explain(Weight *self, IndexReader *ir, int doc_num)
     expl_add_detail(field_expl, tf_expl);
     expl_add_detail(field_expl, idf_expl2);
 
-    field_norms = ir->get_norms(ir, field_num);
+    field_norms = ir_get_norms_i(ir, field_num);
     field_norm = (field_norms != NULL)
         ? sim_decode_norm(self->similarity, field_norms[doc_num])
         : (float)0.0;
diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 1634b66..cfc1c58 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -670,7 +670,7 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
     expl_add_detail(field_expl, tf_expl);
     expl_add_detail(field_expl, idf_expl2);
 
-    field_norms = ir->get_norms(ir, field_num);
+    field_norms = ir_get_norms_i(ir, field_num);
     field_norm = (field_norms != NULL)
         ? sim_decode_norm(self->similarity, field_norms[doc_num])
         : (float)0.0;
diff --git a/c/src/q_span.c b/c/src/q_span.c
index 34d360f..67e0458 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -288,7 +288,7 @@ static Scorer *spansc_new(Weight *weight, IndexReader *ir)
         SpSc(self)->more        = true;
         SpSc(self)->spans       = SpQ(spanq)->get_spans(spanq, ir);
         SpSc(self)->sim         = weight->similarity;
-        SpSc(self)->norms       = ir->get_norms(ir, field_num);
+        SpSc(self)->norms       = ir_get_norms_i(ir, field_num);
         SpSc(self)->weight      = weight;
         SpSc(self)->value       = weight->value;
         SpSc(self)->freq        = 0.0;
@@ -1464,7 +1464,7 @@ static Explanation *spanw_explain(Weight *self, IndexReader *ir, int target)
     expl_add_detail(field_expl, tf_expl);
     expl_add_detail(field_expl, idf_expl2);
 
-    field_norms = ir->get_norms(ir, field_num);
+    field_norms = ir_get_norms_i(ir, field_num);
     field_norm = (field_norms
                   ? sim_decode_norm(self->similarity, field_norms[target])
                   : (float)0.0);
-- 
2.43.0


From b8374ed10e427667b23998fe4f74d1e45ab51ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:38 +0000
Subject: [PATCH 055/139] fix: a tiny positive norm was encoded as 0

---
 c/src/helper.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/helper.c b/c/src/helper.c
index 6aace5e..03af17d 100644
--- a/c/src/helper.c
+++ b/c/src/helper.c
@@ -54,7 +54,7 @@ unsigned char float2byte(float f)
             mantissa = 0x07;   /* 0x07 =  7 = 0b00000111 */
         }
 
-        if (exponent < 0) {
+        if (exponent < 0 || (exponent == 0 && mantissa == 0)) {
             exponent = 0;
             mantissa = 1;
         }
-- 
2.43.0


From 30b9a656a8f9ae57f87e0395c2a20114f34d336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:38 +0000
Subject: [PATCH 056/139] fix: documents that do not match a filter or were
 deleted were explained by a score

---
 c/src/q_const_score.c    | 4 ++--
 c/src/q_filtered_query.c | 4 ++++
 c/src/q_match_all.c      | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/c/src/q_const_score.c b/c/src/q_const_score.c
index ebd4a4d..18519bb 100644
--- a/c/src/q_const_score.c
+++ b/c/src/q_const_score.c
@@ -89,14 +89,14 @@ static Explanation *csw_explain(Weight *self, IndexReader *ir, int doc_num)
     char *filter_str = filter->to_s(filter);
     BitVector *bv = filt_get_bv(filter, ir);
 
-    if (bv_get(bv, doc_num)) {
+    if (bv_get(bv, doc_num) && !ir->is_deleted(ir, doc_num)) {
         expl = expl_new(self->value,
                         "ConstantScoreQuery(%s), product of:", filter_str);
         expl_add_detail(expl, expl_new(self->query->boost, "boost"));
         expl_add_detail(expl, expl_new(self->qnorm, "query_norm"));
     }
     else {
-        expl = expl_new(self->value,
+        expl = expl_new(0.0,
                         "ConstantScoreQuery(%s), does not match id %d",
                         filter_str, doc_num);
     }
diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 964f685..1eedd17 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -118,6 +118,10 @@ static float fqw_get_value(Weight *self)
 static Explanation *fqw_explain(Weight *self, IndexReader *ir, int doc_num)
 {
     Weight *sub_weight = FQW(self)->sub_weight;
+    Filter *filter = FQQ(self->query)->filter;
+    if (!bv_get(filt_get_bv(filter, ir), doc_num)) {
+        return expl_new(0.0, "doc %d is filtered out", doc_num);
+    }
     return sub_weight->explain(sub_weight, ir, doc_num);
 }
 
diff --git a/c/src/q_match_all.c b/c/src/q_match_all.c
index 2c865aa..f2df880 100644
--- a/c/src/q_match_all.c
+++ b/c/src/q_match_all.c
@@ -84,7 +84,7 @@ static Explanation *maw_explain(Weight *self, IndexReader *ir, int doc_num)
         expl_add_detail(expl, expl_new(self->query->boost, "boost"));
         expl_add_detail(expl, expl_new(self->qnorm, "query_norm"));
     } else {
-        expl = expl_new(self->value,
+        expl = expl_new(0.0,
                         "MatchAllQuery: doc %d was deleted", doc_num);
     }
 
-- 
2.43.0


From e61df40c16ad70f2bbb940354d2a8f33a13b58ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:38 +0000
Subject: [PATCH 057/139] fix: the boost of a filtered query was ignored

---
 c/src/q_filtered_query.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index 1eedd17..ddc7d7c 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -100,13 +100,15 @@ static char *fqw_to_s(Weight *self)
 static float fqw_sum_of_squared_weights(Weight *self)
 {
     Weight *sub_weight = FQW(self)->sub_weight;
-    return sub_weight->sum_of_squared_weights(sub_weight);
+    float boost = self->query->boost;
+    return sub_weight->sum_of_squared_weights(sub_weight) * boost * boost;
 }
 
 static void fqw_normalize(Weight *self, float normalization_factor)
 {
     Weight *sub_weight = FQW(self)->sub_weight;
-    sub_weight->normalize(sub_weight, normalization_factor);
+    sub_weight->normalize(sub_weight,
+                          normalization_factor * self->query->boost);
 }
 
 static float fqw_get_value(Weight *self)
-- 
2.43.0


From b1bc2f267d383fab2fa56e6004c5f53442463f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:38 +0000
Subject: [PATCH 058/139] fix: searching a boosted boolean query of one clause
 changed the boost of the clause

---
 c/src/q_boolean.c | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index f75e55b..796cdc2 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1366,29 +1366,12 @@ static Query *bq_rewrite(Query *self, IndexReader *ir)
     bool rewritten = false;
     bool has_non_prohibited_clause = false;
 
-    if (clause_cnt == 1) { 
+    if (clause_cnt == 1 && self->boost == 1.0) { 
         /* optimize 1-clause queries */
         BooleanClause *clause = BQ(self)->clauses[0];
         if (! clause->is_prohibited) {
             /* just return clause. Re-write first. */
-            Query *q = clause->query->rewrite(clause->query, ir);
-
-            if (self->boost != 1.0) {
-                /* original_boost is initialized to 0.0. If it has been set to
-                 * something else it means this query has already been boosted
-                 * before so boost from the original value */
-                if ((q == clause->query) && BQ(self)->original_boost) {
-                    /* rewrite was no-op */
-                    q->boost = BQ(self)->original_boost * self->boost;
-                }
-                else {
-                    /* save original boost in case query is rewritten again */
-                    BQ(self)->original_boost = q->boost;
-                    q->boost *= self->boost;
-                }
-            }
-
-            return q;
+            return clause->query->rewrite(clause->query, ir);
         }
     }
 
-- 
2.43.0


From 36c86f4e700723ea1b341929e19f8797ff4c81dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:38 +0000
Subject: [PATCH 059/139] fix: the boosts of wildcard, fuzzy and range queries
 were ignored

---
 c/src/q_fuzzy.c    | 5 ++++-
 c/src/q_range.c    | 2 ++
 c/src/q_wildcard.c | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/c/src/q_fuzzy.c b/c/src/q_fuzzy.c
index cce8219..f4faf81 100644
--- a/c/src/q_fuzzy.c
+++ b/c/src/q_fuzzy.c
@@ -189,10 +189,13 @@ static Query *fuzq_rewrite(Query *self, IndexReader *ir)
         return bq_new(true);
     }
     if (fuzq->pre_len >= (int)strlen(term)) {
-        return tq_new(fuzq->field, term);
+        q = tq_new(fuzq->field, term);
+        q->boost = self->boost;
+        return q;
     }
 
     q = multi_tq_new_conf(fuzq->field, MTQMaxTerms(self), fuzq->min_sim);
+    q->boost = self->boost;
     if (pre_len > 0) {
         prefix = ALLOC_N(char, pre_len + 1);
         strncpy(prefix, term, pre_len);
diff --git a/c/src/q_range.c b/c/src/q_range.c
index d179b51..0bcece4 100644
--- a/c/src/q_range.c
+++ b/c/src/q_range.c
@@ -503,6 +503,7 @@ static Query *rq_rewrite(Query *self, IndexReader *ir)
                                r->include_lower, r->include_upper);
     (void)ir;
     csq = csq_new_nr(filter);
+    csq->boost = self->boost;
     ((ConstantScoreQuery *)csq)->original = self;
     csq->get_matchv_i = &rq_get_matchv_i;
     return (Query *)csq;
@@ -645,6 +646,7 @@ static Query *trq_rewrite(Query *self, IndexReader *ir)
                                 r->include_lower, r->include_upper);
     (void)ir;
     csq = csq_new_nr(filter);
+    csq->boost = self->boost;
     ((ConstantScoreQuery *)csq)->original = self;
     csq->get_matchv_i = &trq_get_matchv_i;
     return (Query *)csq;
diff --git a/c/src/q_wildcard.c b/c/src/q_wildcard.c
index c7cd7dd..4ddc356 100644
--- a/c/src/q_wildcard.c
+++ b/c/src/q_wildcard.c
@@ -98,6 +98,7 @@ static Query *wcq_rewrite(Query *self, IndexReader *ir)
         prefix_len = (int)(pattern - WCQ(self)->pattern);
 
         q = multi_tq_new_conf(WCQ(self)->field, MTQMaxTerms(self), 0.0);
+        q->boost = self->boost;
 
         /* no term is as long as MAX_WORD_SIZE */
         if (field_num >= 0 && prefix_len < MAX_WORD_SIZE) {
-- 
2.43.0


From 05dd3fe73a6c0744f1987760931dce958c82cd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:38 +0000
Subject: [PATCH 060/139] fix: explaining a multi-term or phrase query without
 terms wrote out of bounds

---
 c/src/q_multi_term.c |  4 +++-
 c/src/q_phrase.c     | 16 +++++++++++-----
 c/src/q_span.c       |  4 +---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/c/src/q_multi_term.c b/c/src/q_multi_term.c
index 6023d99..178e117 100644
--- a/c/src/q_multi_term.c
+++ b/c/src/q_multi_term.c
@@ -412,7 +412,9 @@ static Explanation *multi_tw_explain(Weight *self, IndexReader *ir, int doc_num)
         pos += sprintf(doc_freqs + pos, "(%s=%d) + ", term, doc_freq);
         total_doc_freqs += doc_freq;
     }
-    pos -= 2; /* remove " + " from the end */
+    if (pos > 0) {
+        pos -= 2; /* remove " + " from the end */
+    }
     sprintf(doc_freqs + pos, "= %d", total_doc_freqs);
 
     idf_expl1 = expl_new(self->idf, "idf(%s:<%s>)", field, doc_freqs);
diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index cfc1c58..f8988b9 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -627,7 +627,7 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
             len += strlen(terms[j]) + 30;
         }
     }
-    doc_freqs = ALLOC_N(char, len);
+    doc_freqs = ALLOC_N(char, len + 1);
     for (i = 0; i < phq->pos_cnt; i++) {
         char **terms = phq->positions[i].terms;
         const int t_cnt = ary_size(terms);
@@ -637,7 +637,9 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
                            term, ir->doc_freq(ir, field_num, term));
         }
     }
-    pos -= 2; /* remove ", " from the end */
+    if (pos > 0) {
+        pos -= 2; /* remove ", " from the end */
+    }
     doc_freqs[pos] = 0;
 
     idf_expl1 = expl_new(self->idf, "idf(%s:<%s>)", field, doc_freqs);
@@ -664,9 +666,13 @@ static Explanation *phw_explain(Weight *self, IndexReader *ir, int doc_num)
                           query_str, doc_num);
     free(query_str);
 
-    scorer = self->scorer(self, ir);
-    tf_expl = scorer->explain(scorer, doc_num);
-    scorer->destroy(scorer);
+    if ((scorer = self->scorer(self, ir)) != NULL) {
+        tf_expl = scorer->explain(scorer, doc_num);
+        scorer->destroy(scorer);
+    }
+    else {
+        tf_expl = expl_new(0.0, "no terms were found");
+    }
     expl_add_detail(field_expl, tf_expl);
     expl_add_detail(field_expl, idf_expl2);
 
diff --git a/c/src/q_span.c b/c/src/q_span.c
index 67e0458..05fb4fb 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -1433,9 +1433,7 @@ static Explanation *spanw_explain(Weight *self, IndexReader *ir, int target)
      * and the field explanation */
     idf_expl1 = expl_new(self->idf, "idf(%s: %s)", field, doc_freqs);
     idf_expl2 = expl_new(self->idf, "idf(%s: %s)", field, doc_freqs);
-    if (terms->size > 0) {
-        free(doc_freqs); /* only free if allocated */
-    }
+    free(doc_freqs);
 
     /* explain query weight */
     query_expl = expl_new(0.0, "query_weight(%s), product of:", query_str);
-- 
2.43.0


From 1ea8dd433c214ecff1f766b5d19a822a93276697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:36 +0000
Subject: [PATCH 061/139] fix: the explanation of an empty boolean query was
 not a number

---
 c/src/q_boolean.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/src/q_boolean.c b/c/src/q_boolean.c
index 796cdc2..aedf87e 100644
--- a/c/src/q_boolean.c
+++ b/c/src/q_boolean.c
@@ -1228,7 +1228,9 @@ static Explanation *bw_explain(Weight *self, IndexReader *ir, int doc_num)
         expl_destroy(explanation);
     }
 
-    coord_factor = sim_coord(self->similarity, coord, max_coord);
+    if (coord > 0) {                 /* the query may have no clauses */
+        coord_factor = sim_coord(self->similarity, coord, max_coord);
+    }
 
     if (coord_factor == 1.0) {       /* coord is no-op */
         return sum_expl;             /* eliminate wrapper */
-- 
2.43.0


From e5a785072de378bd1872bd8663f903187dc627d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:37 +0000
Subject: [PATCH 062/139] fix: queries without weight were scored and explained
 by values that are not numbers

---
 c/src/search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/search.c b/c/src/search.c
index 250b89e..eaa1c6c 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -358,7 +358,7 @@ Weight *q_weight(Query *self, Searcher *searcher)
     Weight     *weight  = query->create_weight_i(query, searcher);
     float       sum     = weight->sum_of_squared_weights(weight);
     Similarity *sim     = query->get_similarity(query, searcher);
-    float       norm    = sim_query_norm(sim, sum);
+    float       norm    = (sum > 0.0) ? sim_query_norm(sim, sum) : (float)1.0;
     q_deref(query);
 
     weight->normalize(weight, norm);
-- 
2.43.0


From 316ff0d8bdf59d1b8747c9ae5ce9362ab446385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:03 +0000
Subject: [PATCH 063/139] fix: a number of documents near the largest integer
 overflowed when paging

---
 c/src/search.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index eaa1c6c..c80c33f 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -1033,7 +1033,7 @@ static TopDocs *isea_search_w(Searcher *self,
                               PostFilter *post_filter,
                               bool load_fields)
 {
-    int max_size = num_docs + (num_docs == INT_MAX ? 0 : first_doc);
+    int max_size;
     int i;
     Scorer *scorer;
     Hit **score_docs = NULL;
@@ -1050,6 +1050,8 @@ static TopDocs *isea_search_w(Searcher *self,
     PriorityQueue *hq;
 
     sea_check_args(num_docs, first_doc);
+    max_size = (num_docs > INT_MAX - first_doc) ? INT_MAX
+                                                : num_docs + first_doc;
 
     scorer = weight->scorer(weight, ISEA(self)->ir);
     if (!scorer || 0 == ISEA(self)->ir->num_docs(ISEA(self)->ir)) {
@@ -1669,7 +1671,7 @@ static TopDocs *msea_search_w(Searcher *self,
                               PostFilter *post_filter,
                               bool load_fields)
 {
-    int max_size = num_docs + (num_docs == INT_MAX ? 0 : first_doc);
+    int max_size;
     int i;
     int total_hits = 0;
     Hit **score_docs = NULL;
@@ -1680,6 +1682,8 @@ static TopDocs *msea_search_w(Searcher *self,
     (void)load_fields; /* does it automatically */
 
     sea_check_args(num_docs, first_doc);
+    max_size = (num_docs > INT_MAX - first_doc) ? INT_MAX
+                                                : num_docs + first_doc;
 
     if (sort) {
         hq = pq_new(max_size, (lt_ft)fdshq_lt, &free);
-- 
2.43.0


From 78040ca364abf1bd6b7fcdb047a52251481c6df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:03 +0000
Subject: [PATCH 064/139] fix: printing hits used freed memory

---
 c/src/search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/search.c b/c/src/search.c
index c80c33f..f2de14c 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -214,7 +214,7 @@ char *td_to_s(TopDocs *td)
                           td->total_hits);
     for (i = 0; i < td->size; i++) {
         hit = td->hits[i];
-        estrcat(buffer, strfmt("\t%d:%f\n", hit->doc, hit->score));
+        buffer = estrcat(buffer, strfmt("\t%d:%f\n", hit->doc, hit->score));
     }
     return buffer;
 }
-- 
2.43.0


From 6daa2929aca39af52d8905aa1fb1b0287ba12b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:03 +0000
Subject: [PATCH 065/139] fix: sorting by an unknown field of automatic type
 crashed

---
 c/src/sort.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/src/sort.c b/c/src/sort.c
index 82c7588..7130840 100644
--- a/c/src/sort.c
+++ b/c/src/sort.c
@@ -428,6 +428,11 @@ static Comparator *sorter_get_comparator(SortField *sf, IndexReader *ir)
         FieldIndex *field_index = NULL;
         if (sf->type == SORT_TYPE_AUTO) {
             TermEnum *te = ir_terms(ir, sf->field);
+            if (!te) {
+                RAISE(ARG_ERROR,
+                      "Cannot sort by field \"%s\". It doesn't exist in the "
+                      "index.", S(sf->field));
+            }
             if (!te->next(te) && (ir->num_docs(ir) > 0)) {
                 RAISE(ARG_ERROR,
                       "Cannot sort by field \"%s\" as there are no terms "
-- 
2.43.0


From d8c8f90723e27eeb35cf32f15596256c746f3cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:11 +0000
Subject: [PATCH 066/139] fix: sorting by an unknown field left the reader
 locked for later sorts

---
 c/src/sort.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/c/src/sort.c b/c/src/sort.c
index 7130840..b534756 100644
--- a/c/src/sort.c
+++ b/c/src/sort.c
@@ -425,7 +425,7 @@ static Comparator *sorter_get_comparator(SortField *sf, IndexReader *ir)
     void *index = NULL;
 
     if (sf->type > SORT_TYPE_DOC) {
-        FieldIndex *field_index = NULL;
+        FieldIndex *volatile field_index = NULL;
         if (sf->type == SORT_TYPE_AUTO) {
             TermEnum *te = ir_terms(ir, sf->field);
             if (!te) {
@@ -442,8 +442,11 @@ static Comparator *sorter_get_comparator(SortField *sf, IndexReader *ir)
             te->close(te);
         }
         mutex_lock(&ir->field_index_mutex);
-        field_index = field_index_get(ir, sf->field, sf->field_index_class);
-        mutex_unlock(&ir->field_index_mutex);
+        TRY
+            field_index = field_index_get(ir, sf->field, sf->field_index_class);
+        XFINALLY
+            mutex_unlock(&ir->field_index_mutex);
+        XENDTRY
         index = field_index->index;
     }
     return comparator_new(index, sf->reverse, sf->compare);
-- 
2.43.0


From c48d51ca62e934267f72a42c47f4f2aa1a26fa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:39 +0000
Subject: [PATCH 067/139] fix: sorting as numbers gave values that are no
 numbers an undefined place

---
 c/src/field_index.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/field_index.c b/c/src/field_index.c
index c99357f..72fbf33 100644
--- a/c/src/field_index.c
+++ b/c/src/field_index.c
@@ -141,7 +141,7 @@ static void integer_handle_term(void *index_ptr,
                                 const char *text)
 {
     long *index = (long *)index_ptr;
-    long val;
+    long val = 0;  /* not a number, same as documents without a value */
     sscanf(text, "%ld", &val);
     while (tde->next(tde)) {
         index[tde->doc_num(tde)] = val;
@@ -178,7 +178,7 @@ static void float_handle_term(void *index_ptr,
                               const char *text)
 {
     float *index = (float *)index_ptr;
-    float val;
+    float val = 0.0;  /* not a number, same as documents without a value */
     sscanf(text, "%g", &val);
     while (tde->next(tde)) {
         index[tde->doc_num(tde)] = val;
-- 
2.43.0


From 0727937c0949899fb153a3427746fe354d322612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:03 +0000
Subject: [PATCH 068/139] fix: norms of a field missing in some of several
 indexes were left uninitialized

---
 c/src/index.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index d157371..d730d68 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4828,6 +4828,10 @@ static uchar *mr_get_norms_into(IndexReader *ir, int field_num, uchar *buf)
                 IndexReader *reader = MR(ir)->sub_readers[i];
                 reader->get_norms_into(reader, fnum, buf + MR(ir)->starts[i]);
             }
+            else {
+                memset(buf + MR(ir)->starts[i], 0,
+                       MR(ir)->starts[i + 1] - MR(ir)->starts[i]);
+            }
         }
     }
     mutex_unlock(&ir->mutex);
-- 
2.43.0


From b71c5fa069254f5576cbb08e8c2e01855167b4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:06 +0000
Subject: [PATCH 069/139] fix: comparing a filtered query or using it in a
 multi-searcher crashed

---
 c/src/q_filtered_query.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index ddc7d7c..e417951 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -198,6 +198,17 @@ static void fq_destroy(Query *self)
     q_destroy_i(self);
 }
 
+static unsigned long fq_hash(Query *self)
+{
+    return (q_hash(FQQ(self)->query) << 1) ^ filt_hash(FQQ(self)->filter);
+}
+
+static int fq_eq(Query *self, Query *o)
+{
+    return q_eq(FQQ(self)->query, FQQ(o)->query)
+        && filt_eq(FQQ(self)->filter, FQQ(o)->filter);
+}
+
 static Weight *fq_new_weight(Query *self, Searcher *searcher)
 {
     Query *sub_query = FQQ(self)->query;
@@ -214,6 +225,8 @@ Query *fq_new(Query *query, Filter *filter)
 
     self->type              = FILTERED_QUERY;
     self->to_s              = &fq_to_s;
+    self->hash              = &fq_hash;
+    self->eq                = &fq_eq;
     self->destroy_i         = &fq_destroy;
     self->create_weight_i   = &fq_new_weight;
 
-- 
2.43.0


From fe7d1e654f9cb01032bfcfbf5fcfe82480853513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:06 +0000
Subject: [PATCH 070/139] fix: queries rewritten by a multi-searcher matched
 and scored wrongly

---
 c/src/search.c | 55 ++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index f2de14c..1688033 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -1760,13 +1760,64 @@ static TopDocs *msea_search(Searcher *self,
     return td;
 }
 
+static Query *msea_rewrite(Searcher *self, Query *original);
+
+/* Count the IndexReaders +self+ searches and add them to +readers+ unless it is
+ * NULL. Returns -1 if there are searchers of an unknown type. */
+static int msea_get_readers(Searcher *self, IndexReader **readers)
+{
+    int i, cnt = 0;
+    MultiSearcher *msea = MSEA(self);
+
+    for (i = 0; i < msea->s_cnt; i++) {
+        Searcher *s = msea->searchers[i];
+        if (s->rewrite == &isea_rewrite) {
+            if (readers) {
+                readers[cnt] = ISEA(s)->ir;
+                REF(readers[cnt]);
+            }
+            cnt++;
+        }
+        else if (s->rewrite == &msea_rewrite) {
+            int sub_cnt = msea_get_readers(s, readers ? readers + cnt : NULL);
+            if (sub_cnt < 0) {
+                return -1;
+            }
+            cnt += sub_cnt;
+        }
+        else {
+            return -1;
+        }
+    }
+    return cnt;
+}
+
 static Query *msea_rewrite(Searcher *self, Query *original)
 {
     int i;
     Searcher *s;
     MultiSearcher *msea = MSEA(self);
-    Query **queries = ALLOC_N(Query *, msea->s_cnt), *rewritten;
-
+    Query **queries, *rewritten;
+    const int reader_cnt = msea_get_readers(self, NULL);
+
+    if (reader_cnt > 0) {
+        /* rewrite the query once for the terms of all the indexes. A
+         * combination of the queries rewritten for each of the indexes would
+         * not have the same meaning. */
+        IndexReader **readers = ALLOC_N(IndexReader *, reader_cnt);
+        Searcher *sea;
+        Query *volatile q = NULL;
+        msea_get_readers(self, readers);
+        sea = isea_new(mr_open(readers, reader_cnt));
+        TRY
+            q = isea_rewrite(sea, original);
+        XFINALLY
+            isea_close(sea);
+        XENDTRY
+        return q;
+    }
+
+    queries = ALLOC_N(Query *, msea->s_cnt);
     for (i = 0; i < msea->s_cnt; i++) {
         s = msea->searchers[i];
         queries[i] = s->rewrite(s, original);
-- 
2.43.0


From a763a05107d3f6126df29d0d9f0a0809c0863bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:28 +0000
Subject: [PATCH 071/139] fix: the weight of a filtered query made by a
 multi-searcher ignored document frequencies

---
 c/src/q_filtered_query.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/src/q_filtered_query.c b/c/src/q_filtered_query.c
index e417951..534b756 100644
--- a/c/src/q_filtered_query.c
+++ b/c/src/q_filtered_query.c
@@ -209,6 +209,11 @@ static int fq_eq(Query *self, Query *o)
         && filt_eq(FQQ(self)->filter, FQQ(o)->filter);
 }
 
+static void fq_extract_terms(Query *self, HashSet *terms)
+{
+    FQQ(self)->query->extract_terms(FQQ(self)->query, terms);
+}
+
 static Weight *fq_new_weight(Query *self, Searcher *searcher)
 {
     Query *sub_query = FQQ(self)->query;
@@ -227,6 +232,7 @@ Query *fq_new(Query *query, Filter *filter)
     self->to_s              = &fq_to_s;
     self->hash              = &fq_hash;
     self->eq                = &fq_eq;
+    self->extract_terms     = &fq_extract_terms;
     self->destroy_i         = &fq_destroy;
     self->create_weight_i   = &fq_new_weight;
 
-- 
2.43.0


From 29505a284ab687a3d86b33e78c2270be5d5cf4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:33 +0000
Subject: [PATCH 072/139] fix: a slop that is no number gave a phrase query an
 undefined slop

---
 c/src/q_parser.c | 5 +++--
 c/src/q_parser.y | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 3178852..93e86eb 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2714,8 +2714,9 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
         q = phq_new(field);
         if (slop_str) {
             int slop;
-            sscanf(slop_str,"%d",&slop);
-            ((PhraseQuery *)q)->slop = slop;
+            if (sscanf(slop_str,"%d",&slop) == 1) {
+                ((PhraseQuery *)q)->slop = slop;
+            }
         }
 
         for (i = 0; i < pos_cnt; i++) {
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 5e9a9c7..889800b 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -977,8 +977,9 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
         q = phq_new(field);
         if (slop_str) {
             int slop;
-            sscanf(slop_str,"%d",&slop);
-            ((PhraseQuery *)q)->slop = slop;
+            if (sscanf(slop_str,"%d",&slop) == 1) {
+                ((PhraseQuery *)q)->slop = slop;
+            }
         }
 
         for (i = 0; i < pos_cnt; i++) {
-- 
2.43.0


From 24af87bd79f96f0d52da10ff3efe8afb0e3f1489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:33 +0000
Subject: [PATCH 073/139] fix: an invalid range in a query crashed or locked
 the query parser

---
 c/src/q_parser.c | 17 ++++++++++-------
 c/src/q_parser.y | 17 ++++++++++-------
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 93e86eb..41c6e24 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -215,6 +215,7 @@ static void qp_pop_fields(QParser *self);
  * return value of +func+ is assigned to +q+ directly.
  */
 #define FLDS(q, func) do {\
+    q = NULL; /* func may raise before q is set */\
     TRY {\
         Symbol field;\
         if (qp->fields->size == 0) {\
@@ -2190,17 +2191,10 @@ static int yyerror(QParser *qp, char const *msg)
         char buf[1024];
         buf[1023] = '\0';
         strncpy(buf, qp->qstr, 1023);
-        if (qp->clean_str) {
-            free(qp->qstr);
-        }
-        mutex_unlock(&qp->mutex);
         snprintf(xmsg_buffer, XMSG_BUFFER_SIZE,
                  "couldn't parse query ``%s''. Error message "
                  " was %s", buf, (char *)msg);
     }
-    while (qp->fields_top->next != NULL) {
-        qp_pop_fields(qp);
-    }
     return 0;
 }
 
@@ -3084,11 +3078,20 @@ Query *qp_parse(QParser *self, char *qstr)
     self->result = NULL;
 
     if (0 == yyparse(self)) result = self->result;
+    /* whether the error was found by the parser or raised in an action, some
+     * fields may not have been popped */
+    while (self->fields_top->next != NULL) {
+        qp_pop_fields(self);
+    }
     if (!result && self->handle_parse_errors) {
         self->destruct = false;
         result = qp_get_bad_query(self, self->qstr);
     }
     if (self->destruct && !self->handle_parse_errors) {
+        if (self->clean_str) {
+            free(self->qstr);
+        }
+        mutex_unlock(&self->mutex);
         xraise(PARSE_ERROR, xmsg_buffer);
     }
     if (!result) {
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 889800b..717bb1d 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -163,6 +163,7 @@ static void qp_pop_fields(QParser *self);
  * return value of +func+ is assigned to +q+ directly.
  */
 #define FLDS(q, func) do {\
+    q = NULL; /* func may raise before q is set */\
     TRY {\
         Symbol field;\
         if (qp->fields->size == 0) {\
@@ -453,17 +454,10 @@ static int yyerror(QParser *qp, char const *msg)
         char buf[1024];
         buf[1023] = '\0';
         strncpy(buf, qp->qstr, 1023);
-        if (qp->clean_str) {
-            free(qp->qstr);
-        }
-        mutex_unlock(&qp->mutex);
         snprintf(xmsg_buffer, XMSG_BUFFER_SIZE,
                  "couldn't parse query ``%s''. Error message "
                  " was %s", buf, (char *)msg);
     }
-    while (qp->fields_top->next != NULL) {
-        qp_pop_fields(qp);
-    }
     return 0;
 }
 
@@ -1347,11 +1341,20 @@ Query *qp_parse(QParser *self, char *qstr)
     self->result = NULL;
 
     if (0 == yyparse(self)) result = self->result;
+    /* whether the error was found by the parser or raised in an action, some
+     * fields may not have been popped */
+    while (self->fields_top->next != NULL) {
+        qp_pop_fields(self);
+    }
     if (!result && self->handle_parse_errors) {
         self->destruct = false;
         result = qp_get_bad_query(self, self->qstr);
     }
     if (self->destruct && !self->handle_parse_errors) {
+        if (self->clean_str) {
+            free(self->qstr);
+        }
+        mutex_unlock(&self->mutex);
         xraise(PARSE_ERROR, xmsg_buffer);
     }
     if (!result) {
-- 
2.43.0


From 01152e422f82e814e6a3af040269af6a0ec723e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:34 +0000
Subject: [PATCH 074/139] fix: patterns and ranges for several fields were
 downcased for untokenized fields too

---
 c/src/q_parser.c | 53 ++++++++++++++++++++++++++++++------------------
 c/src/q_parser.y | 53 ++++++++++++++++++++++++++++++------------------
 2 files changed, 66 insertions(+), 40 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 41c6e24..34f7b0e 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2441,32 +2441,34 @@ static Query *get_fuzzy_q(QParser *qp, Symbol field, char *word,
 }
 
 /**
- * Downcase a string taking locale into account and works for multibyte
- * character sets.
+ * Returns a downcased copy of a string taking locale into account and works
+ * for multibyte character sets. The copy must be freed.
  */
-static char *lower_str(char *str)
+static char *lower_str(const char *str)
 {
     const int max_len = (int)strlen(str) + 1;
-    int cnt;
+    /* the downcased character may need more bytes than the original one */
+    const int max_bytes = max_len * MB_CUR_MAX;
+    char *lower = ALLOC_N(char, max_bytes);
     wchar_t *wstr = ALLOC_N(wchar_t, max_len);
-    if ((cnt = mbstowcs(wstr, str, max_len)) > 0) {
+    int cnt = (int)mbstowcs(wstr, str, max_len);
+    if (cnt > 0) {
         wchar_t *w = wstr;
         while (*w) {
             *w = towlower(*w);
             w++;
         }
-        wcstombs(str, wstr, max_len);
+        cnt = (int)wcstombs(lower, wstr, max_bytes);
     }
-    else {
-        char *s = str;
+    if (cnt <= 0) {
+        char *s = strcpy(lower, str);
         while (*s) {
-            *s = tolower(*s);
+            *s = tolower((unsigned char)*s);
             s++;
         }
     }
     free(wstr);
-    str[max_len] = '\0';
-    return str;
+    return lower;
 }
 
 /**
@@ -2482,19 +2484,23 @@ static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
 {
     Query *q;
     bool is_prefix = false;
-    char *p;
-    int len = (int)strlen(pattern);
+    char *p, *lower = NULL;
+    int len;
 
+    /* the pattern itself must not be changed as it may be used for other
+     * fields too */
     if (qp->wild_lower
         && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
-        lower_str(pattern);
+        pattern = lower = lower_str(pattern);
     }
+    len = (int)strlen(pattern);
     
     /* simplify the wildcard query to a prefix query if possible. Basically a
      * prefix query is any wildcard query that has a '*' as the last character
      * and no other wildcard characters before it. "*" by itself will expand
      * to a MatchAllQuery */
     if (strcmp(pattern, "*") == 0) {
+        free(lower);
         return maq_new();
     }
     if (pattern[len - 1] == '*') {
@@ -2515,6 +2521,7 @@ static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
     else {
         q = wcq_new(field, pattern);
     }
+    free(lower);
     MTQMaxTerms(q) = qp->max_clauses;
     return q;
 }
@@ -2780,14 +2787,15 @@ static Query *get_phrase_q(QParser *qp, Phrase *phrase, char *slop_str)
 static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
                       bool inc_lower, bool inc_upper)
 {
-    Query *rq;
+    Query *volatile rq = NULL;
+    char *lower_from = NULL, *lower_to = NULL;
     if (qp->wild_lower
         && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
         if (from) {
-            lower_str(from);
+            from = lower_from = lower_str(from);
         }
         if (to) {
-            lower_str(to);
+            to = lower_to = lower_str(to);
         }
     }
 /*
@@ -2806,9 +2814,14 @@ static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
     }
 */
 
-    rq = qp->use_typed_range_query ?
-        trq_new(field, from, to, inc_lower, inc_upper) :
-        rq_new(field, from, to, inc_lower, inc_upper);
+    TRY
+        rq = qp->use_typed_range_query ?
+            trq_new(field, from, to, inc_lower, inc_upper) :
+            rq_new(field, from, to, inc_lower, inc_upper);
+    XFINALLY
+        free(lower_from);
+        free(lower_to);
+    XENDTRY
     return rq;
 }
 
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 717bb1d..1aacaf6 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -704,32 +704,34 @@ static Query *get_fuzzy_q(QParser *qp, Symbol field, char *word,
 }
 
 /**
- * Downcase a string taking locale into account and works for multibyte
- * character sets.
+ * Returns a downcased copy of a string taking locale into account and works
+ * for multibyte character sets. The copy must be freed.
  */
-static char *lower_str(char *str)
+static char *lower_str(const char *str)
 {
     const int max_len = (int)strlen(str) + 1;
-    int cnt;
+    /* the downcased character may need more bytes than the original one */
+    const int max_bytes = max_len * MB_CUR_MAX;
+    char *lower = ALLOC_N(char, max_bytes);
     wchar_t *wstr = ALLOC_N(wchar_t, max_len);
-    if ((cnt = mbstowcs(wstr, str, max_len)) > 0) {
+    int cnt = (int)mbstowcs(wstr, str, max_len);
+    if (cnt > 0) {
         wchar_t *w = wstr;
         while (*w) {
             *w = towlower(*w);
             w++;
         }
-        wcstombs(str, wstr, max_len);
+        cnt = (int)wcstombs(lower, wstr, max_bytes);
     }
-    else {
-        char *s = str;
+    if (cnt <= 0) {
+        char *s = strcpy(lower, str);
         while (*s) {
-            *s = tolower(*s);
+            *s = tolower((unsigned char)*s);
             s++;
         }
     }
     free(wstr);
-    str[max_len] = '\0';
-    return str;
+    return lower;
 }
 
 /**
@@ -745,19 +747,23 @@ static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
 {
     Query *q;
     bool is_prefix = false;
-    char *p;
-    int len = (int)strlen(pattern);
+    char *p, *lower = NULL;
+    int len;
 
+    /* the pattern itself must not be changed as it may be used for other
+     * fields too */
     if (qp->wild_lower
         && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
-        lower_str(pattern);
+        pattern = lower = lower_str(pattern);
     }
+    len = (int)strlen(pattern);
     
     /* simplify the wildcard query to a prefix query if possible. Basically a
      * prefix query is any wildcard query that has a '*' as the last character
      * and no other wildcard characters before it. "*" by itself will expand
      * to a MatchAllQuery */
     if (strcmp(pattern, "*") == 0) {
+        free(lower);
         return maq_new();
     }
     if (pattern[len - 1] == '*') {
@@ -778,6 +784,7 @@ static Query *get_wild_q(QParser *qp, Symbol field, char *pattern)
     else {
         q = wcq_new(field, pattern);
     }
+    free(lower);
     MTQMaxTerms(q) = qp->max_clauses;
     return q;
 }
@@ -1043,14 +1050,15 @@ static Query *get_phrase_q(QParser *qp, Phrase *phrase, char *slop_str)
 static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
                       bool inc_lower, bool inc_upper)
 {
-    Query *rq;
+    Query *volatile rq = NULL;
+    char *lower_from = NULL, *lower_to = NULL;
     if (qp->wild_lower
         && (!qp->tokenized_fields || hs_exists(qp->tokenized_fields, field))) {
         if (from) {
-            lower_str(from);
+            from = lower_from = lower_str(from);
         }
         if (to) {
-            lower_str(to);
+            to = lower_to = lower_str(to);
         }
     }
 /*
@@ -1069,9 +1077,14 @@ static Query *get_r_q(QParser *qp, Symbol field, char *from, char *to,
     }
 */
 
-    rq = qp->use_typed_range_query ?
-        trq_new(field, from, to, inc_lower, inc_upper) :
-        rq_new(field, from, to, inc_lower, inc_upper);
+    TRY
+        rq = qp->use_typed_range_query ?
+            trq_new(field, from, to, inc_lower, inc_upper) :
+            rq_new(field, from, to, inc_lower, inc_upper);
+    XFINALLY
+        free(lower_from);
+        free(lower_to);
+    XENDTRY
     return rq;
 }
 
-- 
2.43.0


From d30d92d46aa6f8dda6c3560e15a91ba3db9adb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:34 +0000
Subject: [PATCH 075/139] fix: alternatives for several fields were tokenized
 by the first field's analyzer for all

---
 c/src/q_parser.c | 26 ++++++++++++--------------
 c/src/q_parser.y | 26 ++++++++++++--------------
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index 34f7b0e..dbaa9d4 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2673,18 +2673,15 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
             int i;
             int term_cnt = 0;
             Token *token;
-            char *last_word = NULL;
+            /* the words may be tokenized differently for other fields so
+             * they must not be changed here */
+            char **terms = ALLOC_N(char *, word_count);
 
             for (i = 0; i < word_count; i++) {
                 token = ts_next(get_cached_ts(qp, field, words[i]));
+                /* empty words are ignored */
                 if (token) {
-                    free(words[i]);
-                    last_word = words[i] = estrdup(token->text);
-                    ++term_cnt;
-                }
-                else {
-                    /* empty words will later be ignored */
-                    words[i][0] = '\0';
+                    terms[term_cnt++] = estrdup(token->text);
                 }
             }
 
@@ -2693,18 +2690,19 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
                     q = bq_new(false);
                     break;
                 case 1:
-                    q = tq_new(field, last_word);
+                    q = tq_new(field, terms[0]);
                     break;
                 default:
                     q = multi_tq_new_conf(field, term_cnt, 0.0);
-                    for (i = 0; i < word_count; i++) {
-                        /* ignore empty words */
-                        if (words[i][0]) {
-                            multi_tq_add_term(q, words[i]);
-                        }
+                    for (i = 0; i < term_cnt; i++) {
+                        multi_tq_add_term(q, terms[i]);
                     }
                     break;
             }
+            for (i = 0; i < term_cnt; i++) {
+                free(terms[i]);
+            }
+            free(terms);
         }
     }
     else if (pos_cnt > 1) {
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 1aacaf6..4624b8c 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -936,18 +936,15 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
             int i;
             int term_cnt = 0;
             Token *token;
-            char *last_word = NULL;
+            /* the words may be tokenized differently for other fields so
+             * they must not be changed here */
+            char **terms = ALLOC_N(char *, word_count);
 
             for (i = 0; i < word_count; i++) {
                 token = ts_next(get_cached_ts(qp, field, words[i]));
+                /* empty words are ignored */
                 if (token) {
-                    free(words[i]);
-                    last_word = words[i] = estrdup(token->text);
-                    ++term_cnt;
-                }
-                else {
-                    /* empty words will later be ignored */
-                    words[i][0] = '\0';
+                    terms[term_cnt++] = estrdup(token->text);
                 }
             }
 
@@ -956,18 +953,19 @@ static Query *get_phrase_query(QParser *qp, Symbol field,
                     q = bq_new(false);
                     break;
                 case 1:
-                    q = tq_new(field, last_word);
+                    q = tq_new(field, terms[0]);
                     break;
                 default:
                     q = multi_tq_new_conf(field, term_cnt, 0.0);
-                    for (i = 0; i < word_count; i++) {
-                        /* ignore empty words */
-                        if (words[i][0]) {
-                            multi_tq_add_term(q, words[i]);
-                        }
+                    for (i = 0; i < term_cnt; i++) {
+                        multi_tq_add_term(q, terms[i]);
                     }
                     break;
             }
+            for (i = 0; i < term_cnt; i++) {
+                free(terms[i]);
+            }
+            free(terms);
         }
     }
     else if (pos_cnt > 1) {
-- 
2.43.0


From 5eddb11096aab6339dc18317b04bae0fadf9539e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:34 +0000
Subject: [PATCH 076/139] fix: long words in a query used freed memory or wrote
 out of bounds

---
 c/include/search.h |  2 +-
 c/src/q_parser.c   | 27 ++++++++++++++++++---------
 c/src/q_parser.y   | 27 ++++++++++++++++++---------
 3 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/c/include/search.h b/c/include/search.h
index 3b7b538..55d0bee 100644
--- a/c/include/search.h
+++ b/c/include/search.h
@@ -912,7 +912,7 @@ typedef struct FrtQueryParser
     char *qstr;
     char *qstrp;
     char buf[FRT_QP_CONC_WORDS][FRT_MAX_WORD_SIZE];
-    char *dynbuf;
+    char *dynbuf[FRT_QP_CONC_WORDS];
     int  buf_index;
     FrtHash *field_cache;
     FrtHashSet *def_fields;
diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index dbaa9d4..e830da4 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2044,11 +2044,13 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
     char c;
     char *buf = qp->buf[qp->buf_index];
     char *bufp = buf;
+    /* the previous word may still be needed so its buffer is left alone */
+    char **dynbuf = &qp->dynbuf[qp->buf_index];
     qp->buf_index = (qp->buf_index + 1) % QP_CONC_WORDS;
 
-    if (qp->dynbuf) {
-        free(qp->dynbuf);
-        qp->dynbuf = NULL;
+    if (*dynbuf) {
+        free(*dynbuf);
+        *dynbuf = NULL;
     }
 
     qp->qstrp--; /* need to back up one character */
@@ -2084,11 +2086,11 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
          * dynamic buffer is allocated enough space to hold the whole query
          * string so it's capacity doesn't need to be checked again once
          * allocated. */
-        if (!qp->dynbuf && ((bufp - buf) == MAX_WORD_SIZE)) {
-            qp->dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
-            strncpy(qp->dynbuf, buf, MAX_WORD_SIZE);
-            buf = qp->dynbuf;
-            bufp = buf + MAX_WORD_SIZE;
+        if (!*dynbuf && ((bufp - buf) >= MAX_WORD_SIZE - 1)) {
+            *dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
+            memcpy(*dynbuf, buf, bufp - buf);
+            bufp = *dynbuf + (bufp - buf);
+            buf = *dynbuf;
         }
     }
 get_word_done:
@@ -2867,6 +2869,7 @@ static void qp_pop_fields(QParser *self)
  */
 void qp_destroy(QParser *self)
 {
+    int i;
     if (self->tokenized_fields != self->all_fields) {
         hs_destroy(self->tokenized_fields);
     }
@@ -2878,6 +2881,9 @@ void qp_destroy(QParser *self)
     qp_pop_fields(self);
     assert(NULL == self->fields_top);
 
+    for (i = 0; i < QP_CONC_WORDS; i++) {
+        free(self->dynbuf[i]);
+    }
     h_destroy(self->ts_cache);
     tk_destroy(self->non_tokenizer);
     a_deref(self->analyzer);
@@ -2892,6 +2898,7 @@ void qp_destroy(QParser *self)
  */
 QParser *qp_new(Analyzer *analyzer)
 {
+    int i;
     QParser *self = ALLOC(QParser);
     self->or_default = true;
     self->wild_lower = true;
@@ -2914,7 +2921,9 @@ QParser *qp_new(Analyzer *analyzer)
     self->analyzer = analyzer;
     self->ts_cache = h_new_ptr((free_ft)&ts_deref);
     self->buf_index = 0;
-    self->dynbuf = NULL;
+    for (i = 0; i < QP_CONC_WORDS; i++) {
+        self->dynbuf[i] = NULL;
+    }
     self->non_tokenizer = non_tokenizer_new();
     mutex_init(&self->mutex, NULL);
     return self;
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index 4624b8c..ed7fcf3 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -307,11 +307,13 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
     char c;
     char *buf = qp->buf[qp->buf_index];
     char *bufp = buf;
+    /* the previous word may still be needed so its buffer is left alone */
+    char **dynbuf = &qp->dynbuf[qp->buf_index];
     qp->buf_index = (qp->buf_index + 1) % QP_CONC_WORDS;
 
-    if (qp->dynbuf) {
-        free(qp->dynbuf);
-        qp->dynbuf = NULL;
+    if (*dynbuf) {
+        free(*dynbuf);
+        *dynbuf = NULL;
     }
 
     qp->qstrp--; /* need to back up one character */
@@ -347,11 +349,11 @@ static int get_word(YYSTYPE *lvalp, QParser *qp)
          * dynamic buffer is allocated enough space to hold the whole query
          * string so it's capacity doesn't need to be checked again once
          * allocated. */
-        if (!qp->dynbuf && ((bufp - buf) == MAX_WORD_SIZE)) {
-            qp->dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
-            strncpy(qp->dynbuf, buf, MAX_WORD_SIZE);
-            buf = qp->dynbuf;
-            bufp = buf + MAX_WORD_SIZE;
+        if (!*dynbuf && ((bufp - buf) >= MAX_WORD_SIZE - 1)) {
+            *dynbuf = ALLOC_AND_ZERO_N(char, strlen(qp->qstr) + 1);
+            memcpy(*dynbuf, buf, bufp - buf);
+            bufp = *dynbuf + (bufp - buf);
+            buf = *dynbuf;
         }
     }
 get_word_done:
@@ -1130,6 +1132,7 @@ static void qp_pop_fields(QParser *self)
  */
 void qp_destroy(QParser *self)
 {
+    int i;
     if (self->tokenized_fields != self->all_fields) {
         hs_destroy(self->tokenized_fields);
     }
@@ -1141,6 +1144,9 @@ void qp_destroy(QParser *self)
     qp_pop_fields(self);
     assert(NULL == self->fields_top);
 
+    for (i = 0; i < QP_CONC_WORDS; i++) {
+        free(self->dynbuf[i]);
+    }
     h_destroy(self->ts_cache);
     tk_destroy(self->non_tokenizer);
     a_deref(self->analyzer);
@@ -1155,6 +1161,7 @@ void qp_destroy(QParser *self)
  */
 QParser *qp_new(Analyzer *analyzer)
 {
+    int i;
     QParser *self = ALLOC(QParser);
     self->or_default = true;
     self->wild_lower = true;
@@ -1177,7 +1184,9 @@ QParser *qp_new(Analyzer *analyzer)
     self->analyzer = analyzer;
     self->ts_cache = h_new_ptr((free_ft)&ts_deref);
     self->buf_index = 0;
-    self->dynbuf = NULL;
+    for (i = 0; i < QP_CONC_WORDS; i++) {
+        self->dynbuf[i] = NULL;
+    }
     self->non_tokenizer = non_tokenizer_new();
     mutex_init(&self->mutex, NULL);
     return self;
-- 
2.43.0


From d6822f54cb3b6a61277e14ad2839f3d0e9dffa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:24 +0000
Subject: [PATCH 077/139] fix: cleaning a query dropped the escapes within
 phrases

---
 c/src/q_parser.c | 5 +----
 c/src/q_parser.y | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index e830da4..e0e42ec 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2943,9 +2943,6 @@ void qp_add_field(QParser *self,
     }
 }
 
-/* these chars have meaning within phrases */
-static const char *PHRASE_CHARS = "<>|\"";
-
 /**
  * +str_insert_char+ inserts a character at the beginning of a string by
  * shifting the rest of the string right.
@@ -2983,7 +2980,7 @@ char *qp_clean_str(char *str)
         b = *sp;
         /* ignore escaped characters */
         if (pb == '\\') {
-            if (quote_open && strrchr(PHRASE_CHARS, b)) {
+            if (quote_open && b != '\\') {
                 *nsp++ = '\\'; /* this was left off the first time through */
             }
             *nsp++ = b;
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index ed7fcf3..d74a8f5 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -1206,9 +1206,6 @@ void qp_add_field(QParser *self,
     }
 }
 
-/* these chars have meaning within phrases */
-static const char *PHRASE_CHARS = "<>|\"";
-
 /**
  * +str_insert_char+ inserts a character at the beginning of a string by
  * shifting the rest of the string right.
@@ -1246,7 +1243,7 @@ char *qp_clean_str(char *str)
         b = *sp;
         /* ignore escaped characters */
         if (pb == '\\') {
-            if (quote_open && strrchr(PHRASE_CHARS, b)) {
+            if (quote_open && b != '\\') {
                 *nsp++ = '\\'; /* this was left off the first time through */
             }
             *nsp++ = b;
-- 
2.43.0


From c2a329ebb21c6f4a22a841f744b356a35bae0b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:24 +0000
Subject: [PATCH 078/139] fix: an alternative without a word before it in a
 phrase wrote out of bounds

---
 c/src/q_parser.c | 3 +++
 c/src/q_parser.y | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/c/src/q_parser.c b/c/src/q_parser.c
index e0e42ec..32ecc6d 100644
--- a/c/src/q_parser.c
+++ b/c/src/q_parser.c
@@ -2625,6 +2625,9 @@ static Phrase *ph_add_multi_word(Phrase *self, char *word)
     const int index = self->size - 1;
     PhrasePosition *pp = self->positions;
 
+    if (index < 0) { /* there were only gaps so far */
+        return ph_add_word(self, word);
+    }
     if (word) {
         ary_push(pp[index].terms, estrdup(word));
     }
diff --git a/c/src/q_parser.y b/c/src/q_parser.y
index d74a8f5..77767c9 100644
--- a/c/src/q_parser.y
+++ b/c/src/q_parser.y
@@ -888,6 +888,9 @@ static Phrase *ph_add_multi_word(Phrase *self, char *word)
     const int index = self->size - 1;
     PhrasePosition *pp = self->positions;
 
+    if (index < 0) { /* there were only gaps so far */
+        return ph_add_word(self, word);
+    }
     if (word) {
         ary_push(pp[index].terms, estrdup(word));
     }
-- 
2.43.0


From 5b2f56c61fdf3c55f4a2fc8dd61c4135fc1221be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:39 +0000
Subject: [PATCH 079/139] fix: multi-term queries with the same terms in
 another order were not equal

---
 c/src/q_multi_term.c | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/c/src/q_multi_term.c b/c/src/q_multi_term.c
index 178e117..0859ed2 100644
--- a/c/src/q_multi_term.c
+++ b/c/src/q_multi_term.c
@@ -584,7 +584,8 @@ static unsigned long multi_tq_hash(Query *self)
 
 static int multi_tq_eq(Query *self, Query *o)
 {
-    int i;
+    int is_eq = true;
+    BoostedTerm *bt1, *bt2;
     PriorityQueue *boosted_terms1 = MTQ(self)->boosted_terms;
     PriorityQueue *boosted_terms2 = MTQ(o)->boosted_terms;
 
@@ -592,14 +593,17 @@ static int multi_tq_eq(Query *self, Query *o)
         || boosted_terms1->size != boosted_terms2->size) {
         return false;
     }
-    for (i = boosted_terms1->size; i > 0; i--) {
-        BoostedTerm *bt1 = (BoostedTerm *)boosted_terms1->heap[i];
-        BoostedTerm *bt2 = (BoostedTerm *)boosted_terms2->heap[i];
-        if ((strcmp(bt1->term, bt2->term) != 0) || (bt1->boost != bt2->boost)) {
-            return false;
-        }
-    }
-    return true;
+    /* the order within the heaps depends on the order of insertion */
+    boosted_terms1 = pq_clone(boosted_terms1);
+    boosted_terms2 = pq_clone(boosted_terms2);
+    while (is_eq && (bt1 = (BoostedTerm *)pq_pop(boosted_terms1)) != NULL) {
+        bt2 = (BoostedTerm *)pq_pop(boosted_terms2);
+        is_eq = (strcmp(bt1->term, bt2->term) == 0)
+            && (bt1->boost == bt2->boost);
+    }
+    pq_free(boosted_terms1);
+    pq_free(boosted_terms2);
+    return is_eq;
 }
 
 static MatchVector *multi_tq_get_matchv_i(Query *self, MatchVector *mv,
-- 
2.43.0


From cada6de4ef883381487e4b12b00abce4d971788c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:42 +0000
Subject: [PATCH 080/139] fix: standard scanners cut the last character of a
 URL with a path

The action that strips a trailing slash ran for every slash which could be
the last one, and its effect stayed when the URL went on after it, so
http://x/y gave the token x/ instead of x/y (and an e-mail address that
starts like a URL lost its last letter).  Make the trailing slash a rule of
its own and regenerate the scanners with ragel 6.10.
---
 c/src/scanner.c      | 155 +++++++++++++++++----------------
 c/src/scanner.in     |   5 +-
 c/src/scanner_mb.c   | 159 +++++++++++++++++-----------------
 c/src/scanner_utf8.c | 201 ++++++++++++++++++++++---------------------
 c/src/url.rl         |   4 +-
 5 files changed, 266 insertions(+), 258 deletions(-)

diff --git a/c/src/scanner.c b/c/src/scanner.c
index 3ba8fae..43ec442 100644
--- a/c/src/scanner.c
+++ b/c/src/scanner.c
@@ -21,20 +21,20 @@
 
 
 
-#line 25 "src/scanner.c"
+#line 20 "src/scanner.c"
 static const char _StdTok_actions[] = {
-	0, 1, 0, 1, 1, 1, 2, 1, 
-	3, 1, 4, 1, 5, 1, 17, 1, 
-	19, 1, 20, 1, 21, 1, 22, 1, 
-	23, 1, 24, 1, 25, 1, 26, 1, 
-	27, 1, 28, 1, 29, 1, 30, 1, 
-	31, 1, 32, 1, 33, 1, 34, 1, 
-	35, 1, 36, 1, 37, 2, 1, 18, 
-	2, 5, 6, 2, 5, 7, 2, 5, 
-	8, 2, 5, 9, 2, 5, 10, 2, 
-	5, 11, 2, 5, 12, 2, 5, 13, 
-	2, 5, 14, 2, 5, 15, 2, 5, 
-	16, 3, 5, 1, 12
+	0, 1, 1, 1, 2, 1, 3, 1, 
+	4, 1, 17, 1, 18, 1, 19, 1, 
+	20, 1, 21, 1, 22, 1, 23, 1, 
+	24, 1, 25, 1, 26, 1, 27, 1, 
+	28, 1, 29, 1, 30, 1, 31, 1, 
+	32, 1, 33, 1, 34, 1, 35, 1, 
+	36, 1, 37, 2, 4, 5, 2, 4, 
+	6, 2, 4, 7, 2, 4, 8, 2, 
+	4, 9, 2, 4, 10, 2, 4, 11, 
+	2, 4, 12, 2, 4, 13, 2, 4, 
+	14, 2, 4, 15, 2, 4, 16, 3, 
+	4, 0, 12
 };
 
 static const short _StdTok_key_offsets[] = {
@@ -383,7 +383,7 @@ static const char _StdTok_indicies[] = {
 	2, 40, 40, 2, 40, 2, 75, 2, 
 	16, 19, 2, 2, 2, 4, 2, 2, 
 	42, 18, 2, 18, 2, 74, 86, 44, 
-	44, 44, 44, 81, 2, 76, 19, 2, 
+	44, 44, 44, 1, 2, 76, 19, 2, 
 	78, 2, 2, 4, 80, 2, 2, 79, 
 	79, 2, 79, 2, 75, 2, 88, 89, 
 	76, 90, 2, 78, 2, 2, 92, 80, 
@@ -433,7 +433,7 @@ static const char _StdTok_indicies[] = {
 	88, 89, 76, 19, 2, 107, 2, 2, 
 	92, 80, 2, 2, 91, 93, 2, 93, 
 	2, 87, 56, 108, 44, 44, 56, 44, 
-	56, 56, 56, 81, 2, 88, 89, 76, 
+	56, 56, 56, 1, 2, 88, 89, 76, 
 	19, 2, 78, 2, 2, 92, 80, 106, 
 	2, 2, 91, 93, 2, 93, 2, 87, 
 	2, 88, 89, 76, 90, 2, 78, 2, 
@@ -467,28 +467,28 @@ static const char _StdTok_trans_targs[] = {
 };
 
 static const char _StdTok_trans_actions[] = {
-	5, 51, 0, 0, 0, 11, 0, 39, 
-	0, 13, 49, 0, 0, 0, 47, 83, 
-	0, 68, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 74, 45, 0, 
-	74, 74, 74, 74, 74, 74, 74, 74, 
-	68, 43, 83, 0, 0, 77, 77, 77, 
-	77, 77, 77, 77, 77, 77, 41, 0, 
-	1, 0, 0, 15, 17, 86, 86, 86, 
-	68, 56, 56, 56, 19, 0, 37, 80, 
-	33, 0, 35, 25, 0, 0, 0, 68, 
-	0, 29, 89, 0, 53, 0, 3, 21, 
-	71, 59, 0, 56, 71, 56, 27, 71, 
-	23, 65, 62, 31, 59, 62, 11, 56, 
-	56, 56, 56, 0, 3, 56, 56, 56
+	1, 49, 0, 0, 0, 7, 0, 37, 
+	0, 9, 47, 0, 0, 0, 45, 81, 
+	0, 63, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 72, 43, 0, 
+	72, 72, 72, 72, 72, 72, 72, 72, 
+	63, 41, 81, 0, 72, 75, 75, 75, 
+	75, 75, 75, 75, 75, 75, 39, 0, 
+	87, 72, 0, 13, 15, 84, 84, 84, 
+	63, 51, 51, 51, 17, 0, 35, 78, 
+	31, 0, 33, 23, 0, 0, 0, 63, 
+	0, 27, 69, 0, 11, 0, 69, 19, 
+	66, 54, 0, 51, 66, 51, 25, 66, 
+	21, 60, 57, 29, 54, 57, 7, 51, 
+	51, 51, 51, 0, 69, 51, 51, 51
 };
 
 static const char _StdTok_to_state_actions[] = {
-	0, 7, 0, 0, 0, 0, 0, 0, 
+	0, 3, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 7, 7, 0, 0, 0, 0, 
+	0, 0, 3, 3, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -502,7 +502,7 @@ static const char _StdTok_from_state_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 9, 0, 0, 0, 0, 
+	0, 0, 0, 5, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -519,10 +519,10 @@ static const short _StdTok_eof_trans[] = {
 	55, 55, 0, 0, 2, 69, 71, 71, 
 	73, 75, 76, 82, 82, 82, 82, 82, 
 	82, 82, 82, 82, 82, 76, 76, 75, 
-	82, 76, 88, 95, 95, 97, 2, 100, 
+	2, 76, 88, 95, 95, 97, 2, 100, 
 	100, 100, 100, 100, 100, 100, 100, 100, 
 	88, 97, 95, 69, 88, 88, 88, 88, 
-	88, 82, 88, 88, 88, 88, 88
+	88, 2, 88, 88, 88, 88, 88
 };
 
 static const int StdTok_start = 1;
@@ -545,7 +545,7 @@ void frt_std_scan(const char *in,
     char *ts = 0, *te = 0;
 
     
-#line 549 "src/scanner.c"
+#line 540 "src/scanner.c"
 	{
 	cs = StdTok_start;
 	top = 0;
@@ -566,7 +566,7 @@ void frt_std_scan(const char *in,
     *token_size = 0;
 
     
-#line 570 "src/scanner.c"
+#line 557 "src/scanner.c"
 	{
 	int _klen;
 	unsigned int _trans;
@@ -583,11 +583,11 @@ _resume:
 	_nacts = (unsigned int) *_acts++;
 	while ( _nacts-- > 0 ) {
 		switch ( *_acts++ ) {
-	case 4:
+	case 3:
 #line 1 "NONE"
 	{ts = p;}
 	break;
-#line 591 "src/scanner.c"
+#line 576 "src/scanner.c"
 		}
 	}
 
@@ -658,60 +658,60 @@ _eof_trans:
 	{ skip = p - ts; }
 	break;
 	case 1:
-#line 26 "src/url.rl"
-	{ trunc = 1; }
-	break;
-	case 2:
 #line 27 "src/scanner.rl"
-	{ p--; {stack[top++] = cs; cs = 35; goto _again;} }
+	{ p--; {stack[top++] = cs; cs = 35;goto _again;} }
 	break;
-	case 5:
+	case 4:
 #line 1 "NONE"
 	{te = p+1;}
 	break;
-	case 6:
+	case 5:
 #line 15 "src/scanner.in"
 	{act = 2;}
 	break;
-	case 7:
+	case 6:
 #line 16 "src/scanner.in"
 	{act = 3;}
 	break;
-	case 8:
+	case 7:
 #line 17 "src/scanner.in"
 	{act = 4;}
 	break;
-	case 9:
+	case 8:
 #line 20 "src/scanner.in"
 	{act = 5;}
 	break;
-	case 10:
+	case 9:
 #line 23 "src/scanner.in"
 	{act = 6;}
 	break;
-	case 11:
+	case 10:
 #line 26 "src/scanner.in"
 	{act = 7;}
 	break;
-	case 12:
+	case 11:
 #line 29 "src/scanner.in"
 	{act = 8;}
 	break;
-	case 13:
-#line 32 "src/scanner.in"
+	case 12:
+#line 30 "src/scanner.in"
 	{act = 9;}
 	break;
-	case 14:
-#line 35 "src/scanner.in"
+	case 13:
+#line 33 "src/scanner.in"
 	{act = 10;}
 	break;
-	case 15:
+	case 14:
 #line 36 "src/scanner.in"
 	{act = 11;}
 	break;
+	case 15:
+#line 37 "src/scanner.in"
+	{act = 12;}
+	break;
 	case 16:
-#line 40 "src/scanner.in"
-	{act = 13;}
+#line 41 "src/scanner.in"
+	{act = 14;}
 	break;
 	case 17:
 #line 12 "src/scanner.in"
@@ -719,14 +719,14 @@ _eof_trans:
 	break;
 	case 18:
 #line 29 "src/scanner.in"
-	{te = p+1;{ RET; }}
+	{te = p+1;{ trunc = 1; RET; }}
 	break;
 	case 19:
-#line 39 "src/scanner.in"
+#line 40 "src/scanner.in"
 	{te = p+1;{ return; }}
 	break;
 	case 20:
-#line 40 "src/scanner.in"
+#line 41 "src/scanner.in"
 	{te = p+1;}
 	break;
 	case 21:
@@ -750,23 +750,23 @@ _eof_trans:
 	{te = p;p--;{ RET; }}
 	break;
 	case 26:
-#line 29 "src/scanner.in"
+#line 30 "src/scanner.in"
 	{te = p;p--;{ RET; }}
 	break;
 	case 27:
-#line 32 "src/scanner.in"
+#line 33 "src/scanner.in"
 	{te = p;p--;{ STRIP('.'); }}
 	break;
 	case 28:
-#line 35 "src/scanner.in"
+#line 36 "src/scanner.in"
 	{te = p;p--;{ RET; }}
 	break;
 	case 29:
-#line 36 "src/scanner.in"
+#line 37 "src/scanner.in"
 	{te = p;p--;{ RET; }}
 	break;
 	case 30:
-#line 40 "src/scanner.in"
+#line 41 "src/scanner.in"
 	{te = p;p--;}
 	break;
 	case 31:
@@ -782,15 +782,15 @@ _eof_trans:
 	{{p = ((te))-1;}{ RET; }}
 	break;
 	case 34:
-#line 29 "src/scanner.in"
+#line 30 "src/scanner.in"
 	{{p = ((te))-1;}{ RET; }}
 	break;
 	case 35:
-#line 35 "src/scanner.in"
+#line 36 "src/scanner.in"
 	{{p = ((te))-1;}{ RET; }}
 	break;
 	case 36:
-#line 40 "src/scanner.in"
+#line 41 "src/scanner.in"
 	{{p = ((te))-1;}}
 	break;
 	case 37:
@@ -815,24 +815,27 @@ _eof_trans:
 	{{p = ((te))-1;} RET; }
 	break;
 	case 8:
-	{{p = ((te))-1;} RET; }
+	{{p = ((te))-1;} trunc = 1; RET; }
 	break;
 	case 9:
-	{{p = ((te))-1;} STRIP('.'); }
+	{{p = ((te))-1;} RET; }
 	break;
 	case 10:
-	{{p = ((te))-1;} RET; }
+	{{p = ((te))-1;} STRIP('.'); }
 	break;
 	case 11:
 	{{p = ((te))-1;} RET; }
 	break;
-	case 13:
+	case 12:
+	{{p = ((te))-1;} RET; }
+	break;
+	case 14:
 	{{p = ((te))-1;}}
 	break;
 	}
 	}
 	break;
-#line 836 "src/scanner.c"
+#line 787 "src/scanner.c"
 		}
 	}
 
@@ -841,11 +844,11 @@ _again:
 	_nacts = (unsigned int) *_acts++;
 	while ( _nacts-- > 0 ) {
 		switch ( *_acts++ ) {
-	case 3:
+	case 2:
 #line 1 "NONE"
 	{ts = 0;}
 	break;
-#line 849 "src/scanner.c"
+#line 798 "src/scanner.c"
 		}
 	}
 
diff --git a/c/src/scanner.in b/c/src/scanner.in
index e5d6589..5815a7f 100644
--- a/c/src/scanner.in
+++ b/c/src/scanner.in
@@ -25,8 +25,9 @@
         #// Company name
         token [\&\@] token* { RET; };
 
-        #// URL
-        url { RET; };
+        #// URL, without a trailing slash
+        url [/] { trunc = 1; RET; };
+        url     { RET; };
 
         #// Acronym
         (frt_alpha '.')+ frt_alpha { STRIP('.'); };
diff --git a/c/src/scanner_mb.c b/c/src/scanner_mb.c
index f7298eb..e78daa6 100644
--- a/c/src/scanner_mb.c
+++ b/c/src/scanner_mb.c
@@ -23,20 +23,20 @@
 
 
 
-#line 27 "src/scanner_mb.c"
+#line 22 "src/scanner_mb.c"
 static const char _StdTok_actions[] = {
-	0, 1, 0, 1, 1, 1, 2, 1, 
-	3, 1, 4, 1, 5, 1, 17, 1, 
-	18, 1, 20, 1, 21, 1, 22, 1, 
-	23, 1, 24, 1, 25, 1, 26, 1, 
-	27, 1, 28, 1, 29, 1, 30, 1, 
-	31, 1, 32, 1, 33, 1, 34, 1, 
-	35, 1, 36, 1, 37, 1, 38, 2, 
-	1, 19, 2, 5, 6, 2, 5, 7, 
-	2, 5, 8, 2, 5, 9, 2, 5, 
-	10, 2, 5, 11, 2, 5, 12, 2, 
-	5, 13, 2, 5, 14, 2, 5, 15, 
-	2, 5, 16, 3, 5, 1, 12
+	0, 1, 1, 1, 2, 1, 3, 1, 
+	4, 1, 17, 1, 18, 1, 19, 1, 
+	20, 1, 21, 1, 22, 1, 23, 1, 
+	24, 1, 25, 1, 26, 1, 27, 1, 
+	28, 1, 29, 1, 30, 1, 31, 1, 
+	32, 1, 33, 1, 34, 1, 35, 1, 
+	36, 1, 37, 1, 38, 2, 4, 5, 
+	2, 4, 6, 2, 4, 7, 2, 4, 
+	8, 2, 4, 9, 2, 4, 10, 2, 
+	4, 11, 2, 4, 12, 2, 4, 13, 
+	2, 4, 14, 2, 4, 15, 2, 4, 
+	16, 3, 4, 0, 12
 };
 
 static const short _StdTok_key_offsets[] = {
@@ -4623,7 +4623,7 @@ static const char _StdTok_indicies[] = {
 	18, 18, 18, 18, 18, 78, 2, 16, 
 	20, 2, 2, 2, 4, 2, 2, 43, 
 	19, 2, 19, 2, 77, 90, 45, 45, 
-	45, 45, 84, 2, 79, 20, 2, 81, 
+	45, 45, 1, 2, 79, 20, 2, 81, 
 	2, 2, 4, 83, 18, 18, 18, 18, 
 	18, 18, 18, 18, 18, 18, 18, 18, 
 	18, 18, 18, 18, 18, 18, 18, 18, 
@@ -5780,7 +5780,7 @@ static const char _StdTok_indicies[] = {
 	98, 98, 98, 98, 98, 98, 98, 98, 
 	98, 98, 98, 98, 98, 98, 98, 98, 
 	98, 98, 91, 58, 122, 45, 45, 58, 
-	45, 58, 58, 58, 84, 2, 92, 93, 
+	45, 58, 58, 58, 1, 2, 92, 93, 
 	79, 20, 2, 81, 2, 2, 96, 83, 
 	120, 98, 98, 98, 98, 98, 98, 98, 
 	98, 98, 98, 98, 98, 98, 98, 98, 
@@ -6148,30 +6148,30 @@ static const char _StdTok_trans_targs[] = {
 };
 
 static const char _StdTok_trans_actions[] = {
-	5, 53, 0, 0, 0, 11, 0, 41, 
-	0, 13, 51, 0, 0, 0, 49, 85, 
-	0, 70, 70, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 76, 47, 
-	0, 76, 76, 76, 76, 76, 76, 76, 
-	76, 70, 45, 85, 0, 0, 79, 79, 
-	79, 79, 79, 79, 79, 79, 79, 79, 
-	43, 0, 1, 0, 0, 17, 19, 88, 
-	88, 88, 70, 58, 58, 58, 58, 21, 
-	0, 39, 82, 35, 0, 37, 27, 0, 
-	0, 0, 70, 0, 31, 91, 0, 55, 
-	0, 0, 3, 23, 73, 61, 0, 58, 
-	73, 58, 58, 29, 73, 0, 25, 67, 
-	64, 67, 33, 0, 61, 58, 64, 11, 
-	0, 0, 15, 0, 64, 58, 58, 58, 
-	58, 0, 3, 58, 58, 58
+	1, 51, 0, 0, 0, 7, 0, 39, 
+	0, 9, 49, 0, 0, 0, 47, 83, 
+	0, 65, 65, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 74, 45, 
+	0, 74, 74, 74, 74, 74, 74, 74, 
+	74, 65, 43, 83, 0, 74, 77, 77, 
+	77, 77, 77, 77, 77, 77, 77, 77, 
+	41, 0, 89, 74, 0, 15, 17, 86, 
+	86, 86, 65, 53, 53, 53, 53, 19, 
+	0, 37, 80, 33, 0, 35, 25, 0, 
+	0, 0, 65, 0, 29, 71, 0, 13, 
+	0, 0, 71, 21, 68, 56, 0, 53, 
+	68, 53, 53, 27, 68, 0, 23, 62, 
+	59, 62, 31, 0, 56, 53, 59, 7, 
+	0, 0, 11, 0, 59, 53, 53, 53, 
+	53, 0, 71, 53, 53, 53
 };
 
 static const char _StdTok_to_state_actions[] = {
-	0, 7, 0, 0, 0, 0, 0, 0, 
+	0, 3, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 7, 7, 0, 0, 
+	0, 0, 0, 0, 3, 3, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -6187,7 +6187,7 @@ static const char _StdTok_from_state_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 9, 0, 0, 
+	0, 0, 0, 0, 0, 5, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -6206,11 +6206,11 @@ static const short _StdTok_eof_trans[] = {
 	2, 2, 57, 57, 0, 0, 2, 72, 
 	74, 74, 76, 78, 79, 85, 85, 85, 
 	85, 85, 85, 85, 85, 85, 85, 79, 
-	79, 79, 78, 85, 79, 92, 100, 100, 
+	79, 79, 78, 2, 79, 92, 100, 100, 
 	100, 103, 2, 2, 107, 107, 107, 107, 
 	107, 107, 107, 107, 107, 107, 92, 103, 
 	100, 72, 92, 100, 103, 92, 92, 103, 
-	92, 92, 92, 92, 85, 92, 92, 92, 
+	92, 92, 92, 92, 2, 92, 92, 92, 
 	92, 92, 92
 };
 
@@ -6346,7 +6346,7 @@ void frt_std_scan_mb(const char *in_mb,
     unsigned int *ts = 0, *te = 0;
 
     
-#line 6350 "src/scanner_mb.c"
+#line 6341 "src/scanner_mb.c"
 	{
 	cs = StdTok_start;
 	top = 0;
@@ -6370,7 +6370,7 @@ void frt_std_scan_mb(const char *in_mb,
     *token_size = 0;
 
     
-#line 6374 "src/scanner_mb.c"
+#line 6361 "src/scanner_mb.c"
 	{
 	int _klen;
 	unsigned int _trans;
@@ -6387,11 +6387,11 @@ _resume:
 	_nacts = (unsigned int) *_acts++;
 	while ( _nacts-- > 0 ) {
 		switch ( *_acts++ ) {
-	case 4:
+	case 3:
 #line 1 "NONE"
 	{ts = p;}
 	break;
-#line 6395 "src/scanner_mb.c"
+#line 6380 "src/scanner_mb.c"
 		}
 	}
 
@@ -6462,60 +6462,60 @@ _eof_trans:
 	{ skip = p - ts; }
 	break;
 	case 1:
-#line 26 "src/url.rl"
-	{ trunc = 1; }
-	break;
-	case 2:
 #line 30 "src/scanner_mb.rl"
-	{ p--; {stack[top++] = cs; cs = 37; goto _again;} }
+	{ p--; {stack[top++] = cs; cs = 37;goto _again;} }
 	break;
-	case 5:
+	case 4:
 #line 1 "NONE"
 	{te = p+1;}
 	break;
-	case 6:
+	case 5:
 #line 15 "src/scanner.in"
 	{act = 2;}
 	break;
-	case 7:
+	case 6:
 #line 16 "src/scanner.in"
 	{act = 3;}
 	break;
-	case 8:
+	case 7:
 #line 17 "src/scanner.in"
 	{act = 4;}
 	break;
-	case 9:
+	case 8:
 #line 20 "src/scanner.in"
 	{act = 5;}
 	break;
-	case 10:
+	case 9:
 #line 23 "src/scanner.in"
 	{act = 6;}
 	break;
-	case 11:
+	case 10:
 #line 26 "src/scanner.in"
 	{act = 7;}
 	break;
-	case 12:
+	case 11:
 #line 29 "src/scanner.in"
 	{act = 8;}
 	break;
-	case 13:
-#line 32 "src/scanner.in"
+	case 12:
+#line 30 "src/scanner.in"
 	{act = 9;}
 	break;
-	case 14:
-#line 35 "src/scanner.in"
+	case 13:
+#line 33 "src/scanner.in"
 	{act = 10;}
 	break;
-	case 15:
+	case 14:
 #line 36 "src/scanner.in"
 	{act = 11;}
 	break;
+	case 15:
+#line 37 "src/scanner.in"
+	{act = 12;}
+	break;
 	case 16:
-#line 40 "src/scanner.in"
-	{act = 13;}
+#line 41 "src/scanner.in"
+	{act = 14;}
 	break;
 	case 17:
 #line 12 "src/scanner.in"
@@ -6527,14 +6527,14 @@ _eof_trans:
 	break;
 	case 19:
 #line 29 "src/scanner.in"
-	{te = p+1;{ RET; }}
+	{te = p+1;{ trunc = 1; RET; }}
 	break;
 	case 20:
-#line 39 "src/scanner.in"
+#line 40 "src/scanner.in"
 	{te = p+1;{ return; }}
 	break;
 	case 21:
-#line 40 "src/scanner.in"
+#line 41 "src/scanner.in"
 	{te = p+1;}
 	break;
 	case 22:
@@ -6558,23 +6558,23 @@ _eof_trans:
 	{te = p;p--;{ RET; }}
 	break;
 	case 27:
-#line 29 "src/scanner.in"
+#line 30 "src/scanner.in"
 	{te = p;p--;{ RET; }}
 	break;
 	case 28:
-#line 32 "src/scanner.in"
+#line 33 "src/scanner.in"
 	{te = p;p--;{ STRIP('.'); }}
 	break;
 	case 29:
-#line 35 "src/scanner.in"
+#line 36 "src/scanner.in"
 	{te = p;p--;{ RET; }}
 	break;
 	case 30:
-#line 36 "src/scanner.in"
+#line 37 "src/scanner.in"
 	{te = p;p--;{ RET; }}
 	break;
 	case 31:
-#line 40 "src/scanner.in"
+#line 41 "src/scanner.in"
 	{te = p;p--;}
 	break;
 	case 32:
@@ -6590,15 +6590,15 @@ _eof_trans:
 	{{p = ((te))-1;}{ RET; }}
 	break;
 	case 35:
-#line 29 "src/scanner.in"
+#line 30 "src/scanner.in"
 	{{p = ((te))-1;}{ RET; }}
 	break;
 	case 36:
-#line 35 "src/scanner.in"
+#line 36 "src/scanner.in"
 	{{p = ((te))-1;}{ RET; }}
 	break;
 	case 37:
-#line 40 "src/scanner.in"
+#line 41 "src/scanner.in"
 	{{p = ((te))-1;}}
 	break;
 	case 38:
@@ -6623,24 +6623,27 @@ _eof_trans:
 	{{p = ((te))-1;} RET; }
 	break;
 	case 8:
-	{{p = ((te))-1;} RET; }
+	{{p = ((te))-1;} trunc = 1; RET; }
 	break;
 	case 9:
-	{{p = ((te))-1;} STRIP('.'); }
+	{{p = ((te))-1;} RET; }
 	break;
 	case 10:
-	{{p = ((te))-1;} RET; }
+	{{p = ((te))-1;} STRIP('.'); }
 	break;
 	case 11:
 	{{p = ((te))-1;} RET; }
 	break;
-	case 13:
+	case 12:
+	{{p = ((te))-1;} RET; }
+	break;
+	case 14:
 	{{p = ((te))-1;}}
 	break;
 	}
 	}
 	break;
-#line 6644 "src/scanner_mb.c"
+#line 6594 "src/scanner_mb.c"
 		}
 	}
 
@@ -6649,11 +6652,11 @@ _again:
 	_nacts = (unsigned int) *_acts++;
 	while ( _nacts-- > 0 ) {
 		switch ( *_acts++ ) {
-	case 3:
+	case 2:
 #line 1 "NONE"
 	{ts = 0;}
 	break;
-#line 6657 "src/scanner_mb.c"
+#line 6605 "src/scanner_mb.c"
 		}
 	}
 
diff --git a/c/src/scanner_utf8.c b/c/src/scanner_utf8.c
index ad02f83..0f312fa 100644
--- a/c/src/scanner_utf8.c
+++ b/c/src/scanner_utf8.c
@@ -21,21 +21,21 @@
 
 
 
-#line 25 "src/scanner_utf8.c"
+#line 20 "src/scanner_utf8.c"
 static const char _StdTok_actions[] = {
-	0, 1, 0, 1, 1, 1, 2, 1, 
-	3, 1, 4, 1, 5, 1, 18, 1, 
-	19, 1, 21, 1, 22, 1, 23, 1, 
-	24, 1, 25, 1, 26, 1, 27, 1, 
-	28, 1, 29, 1, 30, 1, 31, 1, 
-	32, 1, 33, 1, 34, 1, 35, 1, 
-	36, 1, 37, 1, 38, 1, 39, 2, 
-	1, 20, 2, 5, 6, 2, 5, 7, 
-	2, 5, 8, 2, 5, 9, 2, 5, 
-	10, 2, 5, 11, 2, 5, 12, 2, 
-	5, 13, 2, 5, 14, 2, 5, 15, 
-	2, 5, 16, 2, 5, 17, 3, 5, 
-	1, 13
+	0, 1, 1, 1, 2, 1, 3, 1, 
+	4, 1, 18, 1, 19, 1, 20, 1, 
+	21, 1, 22, 1, 23, 1, 24, 1, 
+	25, 1, 26, 1, 27, 1, 28, 1, 
+	29, 1, 30, 1, 31, 1, 32, 1, 
+	33, 1, 34, 1, 35, 1, 36, 1, 
+	37, 1, 38, 1, 39, 2, 4, 5, 
+	2, 4, 6, 2, 4, 7, 2, 4, 
+	8, 2, 4, 9, 2, 4, 10, 2, 
+	4, 11, 2, 4, 12, 2, 4, 13, 
+	2, 4, 14, 2, 4, 15, 2, 4, 
+	16, 2, 4, 17, 3, 4, 0, 13
+	
 };
 
 static const short _StdTok_key_offsets[] = {
@@ -979,7 +979,7 @@ static const unsigned char _StdTok_trans_keys[] = {
 	140u, 255u, 128u, 129u, 255u, 155u, 156u, 255u, 
 	151u, 255u, 160u, 168u, 161u, 167u, 170u, 181u, 
 	186u, 128u, 150u, 152u, 182u, 184u, 255u, 192u, 
-	255u, 128u, 255u, 173u, 130u, 133u, 146u, 159u, 
+	255u, 0u, 127u, 173u, 130u, 133u, 146u, 159u, 
 	165u, 171u, 175u, 255u, 133u, 176u, 180u, 182u, 
 	183u, 186u, 189u, 134u, 140u, 136u, 138u, 142u, 
 	161u, 163u, 255u, 182u, 130u, 137u, 164u, 176u, 
@@ -1153,7 +1153,7 @@ static const unsigned char _StdTok_trans_keys[] = {
 	136u, 139u, 144u, 151u, 153u, 188u, 184u, 128u, 
 	182u, 187u, 191u, 144u, 162u, 165u, 168u, 174u, 
 	255u, 135u, 141u, 143u, 159u, 187u, 134u, 143u, 
-	189u, 255u, 128u, 255u, 154u, 158u, 163u, 167u, 
+	189u, 255u, 0u, 127u, 154u, 158u, 163u, 167u, 
 	186u, 255u, 137u, 151u, 153u, 142u, 143u, 158u, 
 	159u, 137u, 177u, 142u, 143u, 182u, 183u, 191u, 
 	255u, 128u, 130u, 133u, 136u, 150u, 152u, 255u, 
@@ -1503,7 +1503,7 @@ static const unsigned char _StdTok_trans_keys[] = {
 	233u, 234u, 237u, 239u, 240u, 48u, 57u, 65u, 
 	90u, 97u, 122u, 196u, 202u, 208u, 218u, 229u, 
 	236u, 128u, 150u, 152u, 182u, 184u, 255u, 192u, 
-	255u, 128u, 255u, 173u, 130u, 133u, 146u, 159u, 
+	255u, 0u, 127u, 173u, 130u, 133u, 146u, 159u, 
 	165u, 171u, 175u, 255u, 133u, 176u, 180u, 182u, 
 	183u, 186u, 189u, 134u, 140u, 136u, 138u, 142u, 
 	161u, 163u, 255u, 182u, 130u, 137u, 164u, 176u, 
@@ -2680,8 +2680,8 @@ static const short _StdTok_indicies[] = {
 	744, 745, 744, 744, 745, 744, 744, 745, 
 	777, 789, 744, 903, 744, 789, 744, 745, 
 	777, 886, 789, 744, 904, 904, 904, 744, 
-	904, 904, 904, 744, 904, 744, 904, 904, 
-	744, 744, 744, 744, 744, 744, 904, 904, 
+	904, 904, 904, 744, 904, 744, 904, 744, 
+	904, 744, 744, 744, 744, 744, 904, 904, 
 	904, 904, 904, 744, 904, 904, 904, 904, 
 	904, 744, 744, 904, 744, 904, 744, 904, 
 	744, 744, 904, 744, 744, 744, 904, 904, 
@@ -2814,7 +2814,7 @@ static const short _StdTok_indicies[] = {
 	10, 1066, 1066, 1066, 10, 1066, 1066, 1066, 
 	1066, 10, 1066, 1066, 1066, 10, 1066, 1066, 
 	1066, 10, 10, 10, 1066, 10, 10, 10, 
-	1066, 1066, 10, 10, 1066, 10, 1066, 10, 
+	1066, 10, 1066, 10, 1066, 10, 1066, 10, 
 	1066, 10, 10, 10, 10, 10, 1066, 10, 
 	10, 10, 10, 10, 1066, 1066, 1066, 1066, 
 	1066, 10, 10, 10, 1066, 10, 10, 1066, 
@@ -2927,7 +2927,7 @@ static const short _StdTok_indicies[] = {
 	73, 73, 73, 20, 20, 44, 1146, 2, 
 	16, 51, 2, 2, 2, 4, 2, 2, 
 	228, 50, 2, 50, 2, 1145, 1158, 230, 
-	230, 230, 230, 1152, 2, 1147, 51, 2, 
+	230, 230, 230, 1, 2, 1147, 51, 2, 
 	1149, 2, 2, 4, 1151, 18, 19, 21, 
 	22, 23, 24, 25, 26, 27, 28, 29, 
 	30, 31, 32, 33, 34, 35, 36, 37, 
@@ -3064,7 +3064,7 @@ static const short _StdTok_indicies[] = {
 	1184, 1185, 1186, 1187, 1188, 1189, 1190, 1191, 
 	1192, 2, 2, 1163, 1165, 2, 1165, 2, 
 	948, 948, 1032, 1159, 1064, 1294, 230, 230, 
-	1064, 230, 1064, 1064, 1064, 1152, 2, 1160, 
+	1064, 230, 1064, 1064, 1064, 1, 2, 1160, 
 	1161, 1147, 51, 2, 1149, 2, 2, 1164, 
 	1151, 1292, 1166, 1167, 969, 936, 1168, 1169, 
 	1170, 1171, 1172, 1173, 1174, 1175, 1176, 1177, 
@@ -3104,7 +3104,7 @@ static const short _StdTok_indicies[] = {
 	1179, 1180, 1181, 1016, 1182, 1183, 1184, 1185, 
 	1186, 1187, 1188, 1189, 1190, 1191, 1192, 745, 
 	904, 904, 948, 948, 1032, 1159, 1066, 1066, 
-	1066, 1141, 1066, 1141, 1066, 1066, 1141, 1141, 
+	1066, 1141, 1066, 1141, 1066, 1141, 1066, 1141, 
 	1141, 1141, 1141, 1141, 1066, 1066, 1066, 1066, 
 	1066, 1141, 1066, 1066, 1066, 1066, 1066, 1141, 
 	1141, 1066, 1141, 1066, 1141, 1066, 1141, 1141, 
@@ -3319,16 +3319,16 @@ static const short _StdTok_trans_targs[] = {
 };
 
 static const char _StdTok_trans_actions[] = {
-	5, 53, 0, 0, 0, 11, 0, 41, 
-	0, 13, 51, 0, 0, 0, 49, 88, 
-	0, 73, 0, 0, 0, 0, 0, 0, 
+	1, 51, 0, 0, 0, 7, 0, 39, 
+	0, 9, 49, 0, 0, 0, 47, 86, 
+	0, 68, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 79, 47, 0, 
-	79, 79, 79, 79, 79, 79, 79, 79, 
-	73, 73, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 77, 45, 0, 
+	77, 77, 77, 77, 77, 77, 77, 77, 
+	68, 68, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3347,7 +3347,7 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 45, 88, 0, 0, 76, 
+	0, 0, 0, 43, 86, 0, 77, 71, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3367,7 +3367,7 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 70, 0, 
+	0, 0, 0, 0, 0, 0, 65, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3387,12 +3387,12 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 82, 82, 82, 
-	82, 82, 82, 82, 82, 82, 0, 0, 
+	0, 0, 0, 0, 0, 80, 80, 80, 
+	80, 80, 80, 80, 80, 80, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 82, 0, 
+	0, 0, 0, 0, 0, 0, 80, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3412,7 +3412,7 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	43, 61, 0, 0, 0, 0, 0, 0, 
+	41, 56, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3432,7 +3432,7 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	61, 0, 0, 0, 0, 0, 0, 0, 
+	56, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3452,36 +3452,36 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	1, 0, 61, 0, 0, 0, 0, 0, 
+	92, 77, 56, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 17, 19, 91, 91, 91, 73, 
-	61, 61, 61, 0, 0, 0, 0, 0, 
+	0, 0, 15, 17, 89, 89, 89, 68, 
+	56, 56, 56, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	11, 11, 11, 11, 11, 11, 11, 11, 
-	11, 11, 11, 21, 0, 39, 85, 35, 
-	0, 37, 27, 0, 0, 0, 73, 0, 
-	31, 94, 0, 55, 0, 0, 3, 23, 
-	76, 64, 0, 61, 76, 61, 0, 0, 
+	7, 7, 7, 7, 7, 7, 7, 7, 
+	7, 7, 7, 19, 0, 37, 83, 33, 
+	0, 35, 25, 0, 0, 0, 68, 0, 
+	29, 74, 0, 13, 0, 0, 74, 21, 
+	71, 59, 0, 56, 71, 56, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 29, 76, 0, 0, 0, 0, 0, 
+	0, 27, 71, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 25, 70, 
-	67, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 23, 65, 
+	62, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 33, 0, 64, 0, 
+	0, 0, 0, 0, 31, 0, 59, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 67, 58, 76, 0, 15, 64, 
-	67, 61, 61, 61, 61, 0, 3, 61, 
-	61, 61, 0, 0, 0, 0, 0, 0, 
+	0, 0, 62, 53, 71, 0, 11, 59, 
+	62, 56, 56, 56, 56, 0, 74, 56, 
+	56, 56, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3501,7 +3501,7 @@ static const char _StdTok_trans_actions[] = {
 };
 
 static const char _StdTok_to_state_actions[] = {
-	0, 7, 0, 0, 0, 0, 0, 0, 
+	0, 3, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3664,7 +3664,7 @@ static const char _StdTok_to_state_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	7, 7, 0, 0, 0, 0, 0, 0, 
+	3, 3, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3842,7 +3842,7 @@ static const char _StdTok_from_state_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 9, 0, 0, 0, 0, 0, 0, 
+	0, 5, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -4022,12 +4022,12 @@ static const short _StdTok_eof_trans[] = {
 	11, 11, 11, 11, 11, 11, 11, 11, 
 	0, 0, 2, 1140, 1142, 1142, 1144, 1146, 
 	1147, 1153, 1153, 1153, 1153, 1153, 1153, 1153, 
-	1153, 1153, 1153, 1147, 1147, 1147, 1146, 1153, 
+	1153, 1153, 1153, 1147, 1147, 1147, 1146, 2, 
 	1147, 1160, 1194, 1194, 1194, 1223, 2, 2, 
 	1253, 1253, 1253, 1253, 1253, 1253, 1253, 1253, 
 	1253, 1253, 1160, 1223, 1194, 1140, 1160, 1194, 
 	1223, 1160, 1160, 1223, 1160, 1160, 1160, 1160, 
-	1153, 1160, 1160, 1160, 1160, 1160, 1142, 1160, 
+	2, 1160, 1160, 1160, 1160, 1160, 1142, 1160, 
 	1142, 1142, 1142, 1142, 1142, 1142, 1142, 1142, 
 	1142, 1142, 1142, 1142, 1142, 1142, 1142, 1142, 
 	1142, 1142, 1142, 1142, 1142, 1142, 1142, 1142, 
@@ -4054,7 +4054,7 @@ void frt_std_scan_utf8(const char *in,
     char *ts = 0, *te = 0;
 
     
-#line 4058 "src/scanner_utf8.c"
+#line 4049 "src/scanner_utf8.c"
 	{
 	cs = StdTok_start;
 	top = 0;
@@ -4075,7 +4075,7 @@ void frt_std_scan_utf8(const char *in,
     *token_size = 0;
 
     
-#line 4079 "src/scanner_utf8.c"
+#line 4066 "src/scanner_utf8.c"
 	{
 	int _klen;
 	unsigned int _trans;
@@ -4092,11 +4092,11 @@ _resume:
 	_nacts = (unsigned int) *_acts++;
 	while ( _nacts-- > 0 ) {
 		switch ( *_acts++ ) {
-	case 4:
+	case 3:
 #line 1 "NONE"
 	{ts = p;}
 	break;
-#line 4100 "src/scanner_utf8.c"
+#line 4085 "src/scanner_utf8.c"
 		}
 	}
 
@@ -4167,64 +4167,64 @@ _eof_trans:
 	{ skip = p - ts; }
 	break;
 	case 1:
-#line 26 "src/url.rl"
-	{ trunc = 1; }
-	break;
-	case 2:
 #line 28 "src/scanner_utf8.rl"
-	{ p--; {stack[top++] = cs; cs = 1305; goto _again;} }
+	{ p--; {stack[top++] = cs; cs = 1305;goto _again;} }
 	break;
-	case 5:
+	case 4:
 #line 1 "NONE"
 	{te = p+1;}
 	break;
-	case 6:
+	case 5:
 #line 12 "src/scanner.in"
 	{act = 1;}
 	break;
-	case 7:
+	case 6:
 #line 15 "src/scanner.in"
 	{act = 2;}
 	break;
-	case 8:
+	case 7:
 #line 16 "src/scanner.in"
 	{act = 3;}
 	break;
-	case 9:
+	case 8:
 #line 17 "src/scanner.in"
 	{act = 4;}
 	break;
-	case 10:
+	case 9:
 #line 20 "src/scanner.in"
 	{act = 5;}
 	break;
-	case 11:
+	case 10:
 #line 23 "src/scanner.in"
 	{act = 6;}
 	break;
-	case 12:
+	case 11:
 #line 26 "src/scanner.in"
 	{act = 7;}
 	break;
-	case 13:
+	case 12:
 #line 29 "src/scanner.in"
 	{act = 8;}
 	break;
-	case 14:
-#line 32 "src/scanner.in"
+	case 13:
+#line 30 "src/scanner.in"
 	{act = 9;}
 	break;
-	case 15:
-#line 35 "src/scanner.in"
+	case 14:
+#line 33 "src/scanner.in"
 	{act = 10;}
 	break;
-	case 16:
+	case 15:
 #line 36 "src/scanner.in"
 	{act = 11;}
 	break;
+	case 16:
+#line 37 "src/scanner.in"
+	{act = 12;}
+	break;
 	case 17:
-#line 40 "src/scanner.in"
-	{act = 13;}
+#line 41 "src/scanner.in"
+	{act = 14;}
 	break;
 	case 18:
 #line 12 "src/scanner.in"
@@ -4236,14 +4236,14 @@ _eof_trans:
 	break;
 	case 20:
 #line 29 "src/scanner.in"
-	{te = p+1;{ RET; }}
+	{te = p+1;{ trunc = 1; RET; }}
 	break;
 	case 21:
-#line 39 "src/scanner.in"
+#line 40 "src/scanner.in"
 	{te = p+1;{ return; }}
 	break;
 	case 22:
-#line 40 "src/scanner.in"
+#line 41 "src/scanner.in"
 	{te = p+1;}
 	break;
 	case 23:
@@ -4267,23 +4267,23 @@ _eof_trans:
 	{te = p;p--;{ RET; }}
 	break;
 	case 28:
-#line 29 "src/scanner.in"
+#line 30 "src/scanner.in"
 	{te = p;p--;{ RET; }}
 	break;
 	case 29:
-#line 32 "src/scanner.in"
+#line 33 "src/scanner.in"
 	{te = p;p--;{ STRIP('.'); }}
 	break;
 	case 30:
-#line 35 "src/scanner.in"
+#line 36 "src/scanner.in"
 	{te = p;p--;{ RET; }}
 	break;
 	case 31:
-#line 36 "src/scanner.in"
+#line 37 "src/scanner.in"
 	{te = p;p--;{ RET; }}
 	break;
 	case 32:
-#line 40 "src/scanner.in"
+#line 41 "src/scanner.in"
 	{te = p;p--;}
 	break;
 	case 33:
@@ -4299,15 +4299,15 @@ _eof_trans:
 	{{p = ((te))-1;}{ RET; }}
 	break;
 	case 36:
-#line 29 "src/scanner.in"
+#line 30 "src/scanner.in"
 	{{p = ((te))-1;}{ RET; }}
 	break;
 	case 37:
-#line 35 "src/scanner.in"
+#line 36 "src/scanner.in"
 	{{p = ((te))-1;}{ RET; }}
 	break;
 	case 38:
-#line 40 "src/scanner.in"
+#line 41 "src/scanner.in"
 	{{p = ((te))-1;}}
 	break;
 	case 39:
@@ -4335,24 +4335,27 @@ _eof_trans:
 	{{p = ((te))-1;} RET; }
 	break;
 	case 8:
-	{{p = ((te))-1;} RET; }
+	{{p = ((te))-1;} trunc = 1; RET; }
 	break;
 	case 9:
-	{{p = ((te))-1;} STRIP('.'); }
+	{{p = ((te))-1;} RET; }
 	break;
 	case 10:
-	{{p = ((te))-1;} RET; }
+	{{p = ((te))-1;} STRIP('.'); }
 	break;
 	case 11:
 	{{p = ((te))-1;} RET; }
 	break;
-	case 13:
+	case 12:
+	{{p = ((te))-1;} RET; }
+	break;
+	case 14:
 	{{p = ((te))-1;}}
 	break;
 	}
 	}
 	break;
-#line 4356 "src/scanner_utf8.c"
+#line 4305 "src/scanner_utf8.c"
 		}
 	}
 
@@ -4361,11 +4364,11 @@ _again:
 	_nacts = (unsigned int) *_acts++;
 	while ( _nacts-- > 0 ) {
 		switch ( *_acts++ ) {
-	case 3:
+	case 2:
 #line 1 "NONE"
 	{ts = 0;}
 	break;
-#line 4369 "src/scanner_utf8.c"
+#line 4316 "src/scanner_utf8.c"
 		}
 	}
 
diff --git a/c/src/url.rl b/c/src/url.rl
index 36ff3b7..d4752d2 100644
--- a/c/src/url.rl
+++ b/c/src/url.rl
@@ -21,7 +21,5 @@
         )
 
         #// Port
-        ( [:] digit+ )?
-
-        ([/]? @{ trunc = 1; });
+        ( [:] digit+ )?;
 }%%
-- 
2.43.0


From 969e3ee4be917ea288af578005a0c43f071c86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:54 +0000
Subject: [PATCH 081/139] fix: the UTF-8 standard scanner did not see any
 non-ASCII letter

The input was scanned as (signed) char while the table is of unsigned
characters, so no byte of a multi-byte letter ever matched.  Scan unsigned
characters.  The letter table also took any byte, even the terminating NUL,
as a continuation byte in many ranges: restrict them to 0x80..0xBF.
Regenerated with ragel 6.10.
---
 c/src/scanner_utf8.c  | 6300 ++++++++++++++++++++---------------------
 c/src/scanner_utf8.rl |   10 +-
 c/src/uchar-utf8.rl   |  512 ++--
 3 files changed, 3397 insertions(+), 3425 deletions(-)

diff --git a/c/src/scanner_utf8.c b/c/src/scanner_utf8.c
index 0f312fa..b00be40 100644
--- a/c/src/scanner_utf8.c
+++ b/c/src/scanner_utf8.c
@@ -40,180 +40,175 @@ static const char _StdTok_actions[] = {
 
 static const short _StdTok_key_offsets[] = {
 	0, 0, 0, 14, 28, 43, 57, 69, 
-	75, 85, 86, 92, 107, 164, 185, 206, 
-	233, 254, 256, 278, 300, 322, 344, 366, 
-	388, 410, 432, 454, 511, 514, 556, 562, 
-	562, 564, 566, 575, 582, 590, 591, 593, 
-	595, 599, 604, 613, 617, 623, 634, 636, 
-	638, 640, 645, 672, 676, 686, 701, 715, 
-	733, 746, 762, 770, 786, 799, 820, 828, 
-	842, 851, 865, 876, 888, 898, 907, 916, 
-	918, 921, 942, 948, 949, 955, 963, 1012, 
-	1017, 1023, 1027, 1032, 1034, 1036, 1038, 1045, 
-	1053, 1060, 1063, 1067, 1071, 1073, 1075, 1079, 
-	1083, 1087, 1093, 1101, 1105, 1111, 1113, 1115, 
-	1117, 1123, 1127, 1131, 1133, 1135, 1139, 1142, 
-	1146, 1148, 1152, 1156, 1166, 1171, 1185, 1201, 
-	1203, 1205, 1221, 1226, 1228, 1230, 1232, 1236, 
-	1240, 1242, 1246, 1250, 1260, 1270, 1271, 1282, 
-	1290, 1293, 1296, 1300, 1304, 1306, 1309, 1311, 
-	1311, 1314, 1316, 1341, 1343, 1349, 1354, 1356, 
-	1360, 1364, 1366, 1371, 1373, 1377, 1379, 1381, 
-	1383, 1386, 1388, 1409, 1411, 1413, 1415, 1426, 
-	1432, 1434, 1436, 1438, 1440, 1444, 1448, 1450, 
-	1452, 1456, 1458, 1466, 1474, 1491, 1501, 1505, 
-	1507, 1509, 1513, 1515, 1519, 1521, 1525, 1530, 
-	1532, 1541, 1545, 1555, 1561, 1563, 1565, 1579, 
-	1580, 1590, 1591, 1599, 1606, 1608, 1611, 1613, 
-	1615, 1617, 1620, 1623, 1626, 1628, 1632, 1659, 
-	1660, 1667, 1670, 1676, 1676, 1678, 1680, 1689, 
-	1696, 1704, 1705, 1707, 1709, 1713, 1718, 1727, 
-	1731, 1737, 1748, 1750, 1752, 1754, 1759, 1786, 
-	1790, 1800, 1815, 1829, 1847, 1860, 1876, 1884, 
-	1900, 1913, 1934, 1942, 1956, 1965, 1979, 1990, 
-	2002, 2012, 2021, 2030, 2032, 2035, 2056, 2062, 
-	2063, 2069, 2077, 2126, 2131, 2137, 2141, 2146, 
-	2148, 2150, 2152, 2159, 2167, 2174, 2177, 2181, 
-	2185, 2187, 2189, 2193, 2197, 2201, 2207, 2215, 
-	2219, 2225, 2227, 2229, 2231, 2237, 2241, 2245, 
-	2247, 2249, 2253, 2256, 2260, 2262, 2266, 2270, 
-	2280, 2285, 2299, 2315, 2317, 2319, 2335, 2340, 
-	2342, 2344, 2346, 2350, 2354, 2356, 2360, 2364, 
-	2374, 2384, 2385, 2396, 2404, 2407, 2410, 2414, 
-	2418, 2420, 2423, 2425, 2425, 2428, 2430, 2455, 
-	2457, 2463, 2468, 2470, 2474, 2478, 2480, 2485, 
-	2487, 2491, 2493, 2495, 2497, 2500, 2502, 2523, 
-	2525, 2527, 2529, 2540, 2546, 2548, 2550, 2552, 
-	2554, 2558, 2562, 2564, 2566, 2570, 2572, 2580, 
-	2588, 2605, 2615, 2619, 2621, 2623, 2627, 2629, 
-	2633, 2635, 2639, 2644, 2646, 2655, 2659, 2669, 
-	2675, 2677, 2679, 2693, 2694, 2704, 2705, 2713, 
-	2720, 2722, 2725, 2727, 2729, 2731, 2734, 2737, 
-	2740, 2742, 2746, 2749, 2755, 2755, 2757, 2759, 
-	2768, 2775, 2783, 2784, 2786, 2788, 2792, 2797, 
-	2806, 2810, 2816, 2827, 2829, 2831, 2833, 2838, 
-	2865, 2869, 2879, 2894, 2908, 2926, 2939, 2955, 
-	2963, 2979, 2992, 3013, 3021, 3035, 3044, 3058, 
-	3069, 3081, 3091, 3100, 3109, 3111, 3114, 3135, 
-	3141, 3142, 3148, 3156, 3205, 3210, 3216, 3220, 
-	3225, 3227, 3229, 3231, 3238, 3246, 3253, 3256, 
-	3260, 3264, 3266, 3268, 3272, 3276, 3280, 3286, 
-	3294, 3298, 3304, 3306, 3308, 3310, 3316, 3320, 
-	3324, 3326, 3328, 3332, 3335, 3339, 3341, 3345, 
-	3349, 3359, 3364, 3378, 3394, 3396, 3398, 3414, 
-	3419, 3421, 3423, 3425, 3429, 3433, 3435, 3439, 
-	3443, 3453, 3463, 3464, 3475, 3483, 3486, 3489, 
-	3493, 3497, 3499, 3502, 3504, 3504, 3507, 3509, 
-	3534, 3536, 3542, 3547, 3549, 3553, 3557, 3559, 
-	3564, 3566, 3570, 3572, 3574, 3576, 3579, 3581, 
-	3602, 3604, 3606, 3608, 3619, 3625, 3627, 3629, 
-	3631, 3633, 3637, 3641, 3643, 3645, 3649, 3651, 
-	3659, 3667, 3684, 3694, 3698, 3700, 3702, 3706, 
-	3708, 3712, 3714, 3718, 3723, 3725, 3734, 3738, 
-	3748, 3754, 3756, 3758, 3772, 3773, 3783, 3784, 
-	3792, 3799, 3801, 3804, 3806, 3808, 3810, 3813, 
-	3816, 3819, 3821, 3825, 3888, 3891, 3931, 3937, 
-	3937, 3939, 3941, 3950, 3957, 3965, 3966, 3968, 
-	3970, 3974, 3979, 3988, 3992, 3998, 4009, 4011, 
-	4013, 4015, 4020, 4047, 4051, 4061, 4076, 4090, 
-	4108, 4121, 4137, 4145, 4161, 4174, 4195, 4203, 
-	4217, 4226, 4240, 4251, 4263, 4273, 4282, 4291, 
-	4293, 4296, 4317, 4323, 4324, 4330, 4338, 4387, 
-	4392, 4398, 4402, 4407, 4409, 4411, 4413, 4420, 
-	4428, 4435, 4438, 4442, 4446, 4448, 4450, 4454, 
-	4458, 4462, 4468, 4476, 4480, 4486, 4488, 4490, 
-	4492, 4498, 4502, 4506, 4508, 4510, 4514, 4517, 
-	4521, 4523, 4527, 4531, 4541, 4546, 4560, 4576, 
-	4578, 4580, 4596, 4601, 4603, 4605, 4607, 4611, 
-	4615, 4617, 4621, 4625, 4635, 4645, 4646, 4657, 
-	4665, 4668, 4671, 4675, 4679, 4681, 4684, 4686, 
-	4686, 4689, 4691, 4716, 4718, 4724, 4729, 4731, 
-	4735, 4739, 4741, 4746, 4748, 4752, 4754, 4756, 
-	4758, 4761, 4763, 4784, 4786, 4788, 4790, 4801, 
-	4807, 4809, 4811, 4813, 4815, 4819, 4823, 4825, 
-	4827, 4831, 4833, 4841, 4849, 4866, 4876, 4880, 
-	4882, 4884, 4888, 4890, 4894, 4896, 4900, 4905, 
-	4907, 4916, 4920, 4930, 4936, 4938, 4940, 4954, 
-	4955, 4965, 4966, 4974, 4981, 4983, 4986, 4988, 
-	4990, 4992, 4995, 4998, 5001, 5003, 5007, 5010, 
-	5016, 5016, 5018, 5020, 5029, 5036, 5044, 5045, 
-	5047, 5049, 5053, 5058, 5067, 5071, 5077, 5088, 
-	5090, 5092, 5094, 5099, 5126, 5130, 5140, 5155, 
-	5169, 5187, 5200, 5216, 5224, 5240, 5253, 5274, 
-	5282, 5296, 5305, 5319, 5330, 5342, 5352, 5361, 
-	5370, 5372, 5375, 5396, 5402, 5403, 5409, 5417, 
-	5466, 5471, 5477, 5481, 5486, 5488, 5490, 5492, 
-	5499, 5507, 5514, 5517, 5521, 5525, 5527, 5529, 
-	5533, 5537, 5541, 5547, 5555, 5559, 5565, 5567, 
-	5569, 5571, 5577, 5581, 5585, 5587, 5589, 5593, 
-	5596, 5600, 5602, 5606, 5610, 5620, 5625, 5639, 
-	5655, 5657, 5659, 5675, 5680, 5682, 5684, 5686, 
-	5690, 5694, 5696, 5700, 5704, 5714, 5724, 5725, 
-	5736, 5744, 5747, 5750, 5754, 5758, 5760, 5763, 
-	5765, 5765, 5768, 5770, 5795, 5797, 5803, 5808, 
-	5810, 5814, 5818, 5820, 5825, 5827, 5831, 5833, 
-	5835, 5837, 5840, 5842, 5863, 5865, 5867, 5869, 
-	5880, 5886, 5888, 5890, 5892, 5894, 5898, 5902, 
-	5904, 5906, 5910, 5912, 5920, 5928, 5945, 5955, 
-	5959, 5961, 5963, 5967, 5969, 5973, 5975, 5979, 
-	5984, 5986, 5995, 5999, 6009, 6015, 6017, 6019, 
-	6033, 6034, 6044, 6045, 6053, 6060, 6062, 6065, 
-	6067, 6069, 6071, 6074, 6077, 6080, 6082, 6086, 
-	6089, 6095, 6095, 6097, 6099, 6108, 6115, 6123, 
-	6124, 6126, 6128, 6132, 6137, 6146, 6150, 6156, 
-	6167, 6169, 6171, 6173, 6178, 6205, 6209, 6219, 
-	6234, 6248, 6266, 6279, 6295, 6303, 6319, 6332, 
-	6353, 6361, 6375, 6384, 6398, 6409, 6421, 6431, 
-	6440, 6449, 6451, 6454, 6475, 6481, 6482, 6488, 
-	6496, 6545, 6550, 6556, 6560, 6565, 6567, 6569, 
-	6571, 6578, 6586, 6593, 6596, 6600, 6604, 6606, 
-	6608, 6612, 6616, 6620, 6626, 6634, 6638, 6644, 
-	6646, 6648, 6650, 6656, 6660, 6664, 6666, 6668, 
-	6672, 6675, 6679, 6681, 6685, 6689, 6699, 6704, 
-	6718, 6734, 6736, 6738, 6754, 6759, 6761, 6763, 
-	6765, 6769, 6773, 6775, 6779, 6783, 6793, 6803, 
-	6804, 6815, 6823, 6826, 6829, 6833, 6837, 6839, 
-	6842, 6844, 6844, 6847, 6849, 6874, 6876, 6882, 
-	6887, 6889, 6893, 6897, 6899, 6904, 6906, 6910, 
-	6912, 6914, 6916, 6919, 6921, 6942, 6944, 6946, 
-	6948, 6959, 6965, 6967, 6969, 6971, 6973, 6977, 
-	6981, 6983, 6985, 6989, 6991, 6999, 7007, 7024, 
-	7034, 7038, 7040, 7042, 7046, 7048, 7052, 7054, 
-	7058, 7063, 7065, 7074, 7078, 7088, 7094, 7096, 
-	7098, 7112, 7113, 7123, 7124, 7132, 7139, 7141, 
-	7144, 7146, 7148, 7150, 7153, 7156, 7159, 7161, 
-	7165, 7166, 7179, 7183, 7193, 7208, 7222, 7240, 
-	7253, 7269, 7277, 7293, 7306, 7327, 7335, 7349, 
-	7358, 7372, 7383, 7395, 7405, 7414, 7423, 7425, 
-	7428, 7449, 7455, 7456, 7462, 7470, 7475, 7481, 
-	7485, 7490, 7492, 7494, 7496, 7498, 7505, 7513, 
-	7520, 7523, 7527, 7531, 7533, 7535, 7535, 7539, 
-	7543, 7547, 7553, 7561, 7565, 7571, 7573, 7575, 
-	7577, 7583, 7587, 7591, 7593, 7595, 7599, 7602, 
-	7606, 7608, 7612, 7614, 7618, 7628, 7633, 7647, 
-	7649, 7651, 7667, 7672, 7674, 7676, 7678, 7682, 
-	7686, 7688, 7692, 7696, 7706, 7716, 7717, 7725, 
-	7728, 7731, 7735, 7739, 7741, 7743, 7745, 7747, 
-	7753, 7758, 7760, 7764, 7768, 7770, 7775, 7777, 
-	7781, 7783, 7785, 7787, 7789, 7791, 7793, 7795, 
-	7806, 7812, 7814, 7816, 7818, 7820, 7822, 7826, 
-	7830, 7832, 7834, 7838, 7840, 7848, 7865, 7875, 
-	7879, 7881, 7883, 7887, 7889, 7893, 7895, 7899, 
-	7904, 7906, 7915, 7919, 7929, 7935, 7937, 7939, 
-	7953, 7954, 7964, 7965, 7973, 7980, 7982, 7985, 
-	7987, 7989, 7991, 7994, 7997, 7997, 8000, 8002, 
-	8006, 8006, 8064, 8078, 8092, 8102, 8118, 8134, 
-	8150, 8209, 8231, 8234, 8257, 8280, 8303, 8326, 
-	8350, 8373, 8396, 8419, 8477, 8535, 8579, 8600, 
-	8608, 8667, 8728, 8783, 8840, 8882, 8939, 8994, 
-	9034, 9055, 9077, 9099, 9121, 9143, 9165, 9187, 
-	9209, 9231, 9232, 9293, 9309, 9364, 9420, 9467, 
-	9507, 9509, 9570, 9617, 9659, 9722, 9784, 9846, 
-	9907, 9920, 9982, 10044, 10106, 10168, 10230, 10233, 
-	10281, 10287, 10287, 10289, 10291, 10300, 10307, 10315, 
-	10316, 10318, 10320, 10324, 10329, 10338, 10342, 10348, 
-	10359, 10361, 10363, 10365, 10370, 10397, 10446, 10462, 
-	10473, 10476, 10476, 10479, 10504, 10507, 10528
+	75, 85, 86, 92, 107, 162, 183, 204, 
+	231, 252, 254, 276, 298, 320, 342, 364, 
+	386, 408, 430, 452, 507, 510, 550, 556, 
+	558, 566, 573, 581, 585, 589, 593, 598, 
+	603, 612, 616, 622, 633, 635, 637, 639, 
+	644, 671, 675, 684, 699, 713, 731, 743, 
+	759, 768, 784, 797, 818, 826, 840, 852, 
+	866, 877, 889, 900, 909, 918, 920, 923, 
+	944, 950, 951, 957, 965, 1010, 1015, 1021, 
+	1026, 1031, 1035, 1039, 1041, 1052, 1062, 1069, 
+	1075, 1078, 1082, 1084, 1086, 1090, 1094, 1098, 
+	1104, 1112, 1116, 1120, 1122, 1124, 1126, 1132, 
+	1136, 1140, 1142, 1144, 1148, 1152, 1156, 1158, 
+	1162, 1168, 1179, 1184, 1198, 1214, 1216, 1218, 
+	1234, 1239, 1241, 1243, 1245, 1249, 1255, 1257, 
+	1261, 1264, 1274, 1284, 1285, 1295, 1303, 1309, 
+	1313, 1317, 1321, 1323, 1328, 1330, 1333, 1335, 
+	1357, 1359, 1365, 1370, 1372, 1376, 1380, 1382, 
+	1390, 1392, 1396, 1398, 1400, 1402, 1405, 1407, 
+	1427, 1431, 1435, 1437, 1448, 1454, 1456, 1458, 
+	1462, 1466, 1470, 1472, 1474, 1478, 1480, 1488, 
+	1495, 1512, 1521, 1525, 1527, 1531, 1533, 1537, 
+	1539, 1543, 1549, 1551, 1560, 1564, 1574, 1579, 
+	1581, 1583, 1596, 1600, 1614, 1618, 1630, 1637, 
+	1641, 1648, 1654, 1660, 1666, 1670, 1673, 1675, 
+	1678, 1705, 1706, 1713, 1716, 1722, 1724, 1732, 
+	1739, 1747, 1751, 1755, 1759, 1764, 1769, 1778, 
+	1782, 1788, 1799, 1801, 1803, 1805, 1810, 1837, 
+	1841, 1850, 1865, 1879, 1897, 1909, 1925, 1934, 
+	1950, 1963, 1984, 1992, 2006, 2018, 2032, 2043, 
+	2055, 2066, 2075, 2084, 2086, 2089, 2110, 2116, 
+	2117, 2123, 2131, 2176, 2181, 2187, 2192, 2197, 
+	2201, 2205, 2207, 2218, 2228, 2235, 2241, 2244, 
+	2248, 2250, 2252, 2256, 2260, 2264, 2270, 2278, 
+	2282, 2286, 2288, 2290, 2292, 2298, 2302, 2306, 
+	2308, 2310, 2314, 2318, 2322, 2324, 2328, 2334, 
+	2345, 2350, 2364, 2380, 2382, 2384, 2400, 2405, 
+	2407, 2409, 2411, 2415, 2421, 2423, 2427, 2430, 
+	2440, 2450, 2451, 2461, 2469, 2475, 2479, 2483, 
+	2487, 2489, 2494, 2496, 2499, 2501, 2523, 2525, 
+	2531, 2536, 2538, 2542, 2546, 2548, 2556, 2558, 
+	2562, 2564, 2566, 2568, 2571, 2573, 2593, 2597, 
+	2601, 2603, 2614, 2620, 2622, 2624, 2628, 2632, 
+	2636, 2638, 2640, 2644, 2646, 2654, 2661, 2678, 
+	2687, 2691, 2693, 2697, 2699, 2703, 2705, 2709, 
+	2715, 2717, 2726, 2730, 2740, 2745, 2747, 2749, 
+	2762, 2766, 2780, 2784, 2796, 2803, 2807, 2814, 
+	2820, 2826, 2832, 2836, 2839, 2841, 2844, 2847, 
+	2853, 2855, 2863, 2870, 2878, 2882, 2886, 2890, 
+	2895, 2900, 2909, 2913, 2919, 2930, 2932, 2934, 
+	2936, 2941, 2968, 2972, 2981, 2996, 3010, 3028, 
+	3040, 3056, 3065, 3081, 3094, 3115, 3123, 3137, 
+	3149, 3163, 3174, 3186, 3197, 3206, 3215, 3217, 
+	3220, 3241, 3247, 3248, 3254, 3262, 3307, 3312, 
+	3318, 3323, 3328, 3332, 3336, 3338, 3349, 3359, 
+	3366, 3372, 3375, 3379, 3381, 3383, 3387, 3391, 
+	3395, 3401, 3409, 3413, 3417, 3419, 3421, 3423, 
+	3429, 3433, 3437, 3439, 3441, 3445, 3449, 3453, 
+	3455, 3459, 3465, 3476, 3481, 3495, 3511, 3513, 
+	3515, 3531, 3536, 3538, 3540, 3542, 3546, 3552, 
+	3554, 3558, 3561, 3571, 3581, 3582, 3592, 3600, 
+	3606, 3610, 3614, 3618, 3620, 3625, 3627, 3630, 
+	3632, 3654, 3656, 3662, 3667, 3669, 3673, 3677, 
+	3679, 3687, 3689, 3693, 3695, 3697, 3699, 3702, 
+	3704, 3724, 3728, 3732, 3734, 3745, 3751, 3753, 
+	3755, 3759, 3763, 3767, 3769, 3771, 3775, 3777, 
+	3785, 3792, 3809, 3818, 3822, 3824, 3828, 3830, 
+	3834, 3836, 3840, 3846, 3848, 3857, 3861, 3871, 
+	3876, 3878, 3880, 3893, 3897, 3911, 3915, 3927, 
+	3934, 3938, 3945, 3951, 3957, 3963, 3967, 3970, 
+	3972, 3975, 4036, 4039, 4077, 4083, 4085, 4093, 
+	4100, 4108, 4112, 4116, 4120, 4125, 4130, 4139, 
+	4143, 4149, 4160, 4162, 4164, 4166, 4171, 4198, 
+	4202, 4211, 4226, 4240, 4258, 4270, 4286, 4295, 
+	4311, 4324, 4345, 4353, 4367, 4379, 4393, 4404, 
+	4416, 4427, 4436, 4445, 4447, 4450, 4471, 4477, 
+	4478, 4484, 4492, 4537, 4542, 4548, 4553, 4558, 
+	4562, 4566, 4568, 4579, 4589, 4596, 4602, 4605, 
+	4609, 4611, 4613, 4617, 4621, 4625, 4631, 4639, 
+	4643, 4647, 4649, 4651, 4653, 4659, 4663, 4667, 
+	4669, 4671, 4675, 4679, 4683, 4685, 4689, 4695, 
+	4706, 4711, 4725, 4741, 4743, 4745, 4761, 4766, 
+	4768, 4770, 4772, 4776, 4782, 4784, 4788, 4791, 
+	4801, 4811, 4812, 4822, 4830, 4836, 4840, 4844, 
+	4848, 4850, 4855, 4857, 4860, 4862, 4884, 4886, 
+	4892, 4897, 4899, 4903, 4907, 4909, 4917, 4919, 
+	4923, 4925, 4927, 4929, 4932, 4934, 4954, 4958, 
+	4962, 4964, 4975, 4981, 4983, 4985, 4989, 4993, 
+	4997, 4999, 5001, 5005, 5007, 5015, 5022, 5039, 
+	5048, 5052, 5054, 5058, 5060, 5064, 5066, 5070, 
+	5076, 5078, 5087, 5091, 5101, 5106, 5108, 5110, 
+	5123, 5127, 5141, 5145, 5157, 5164, 5168, 5175, 
+	5181, 5187, 5193, 5197, 5200, 5202, 5205, 5208, 
+	5214, 5216, 5224, 5231, 5239, 5243, 5247, 5251, 
+	5256, 5261, 5270, 5274, 5280, 5291, 5293, 5295, 
+	5297, 5302, 5329, 5333, 5342, 5357, 5371, 5389, 
+	5401, 5417, 5426, 5442, 5455, 5476, 5484, 5498, 
+	5510, 5524, 5535, 5547, 5558, 5567, 5576, 5578, 
+	5581, 5602, 5608, 5609, 5615, 5623, 5668, 5673, 
+	5679, 5684, 5689, 5693, 5697, 5699, 5710, 5720, 
+	5727, 5733, 5736, 5740, 5742, 5744, 5748, 5752, 
+	5756, 5762, 5770, 5774, 5778, 5780, 5782, 5784, 
+	5790, 5794, 5798, 5800, 5802, 5806, 5810, 5814, 
+	5816, 5820, 5826, 5837, 5842, 5856, 5872, 5874, 
+	5876, 5892, 5897, 5899, 5901, 5903, 5907, 5913, 
+	5915, 5919, 5922, 5932, 5942, 5943, 5953, 5961, 
+	5967, 5971, 5975, 5979, 5981, 5986, 5988, 5991, 
+	5993, 6015, 6017, 6023, 6028, 6030, 6034, 6038, 
+	6040, 6048, 6050, 6054, 6056, 6058, 6060, 6063, 
+	6065, 6085, 6089, 6093, 6095, 6106, 6112, 6114, 
+	6116, 6120, 6124, 6128, 6130, 6132, 6136, 6138, 
+	6146, 6153, 6170, 6179, 6183, 6185, 6189, 6191, 
+	6195, 6197, 6201, 6207, 6209, 6218, 6222, 6232, 
+	6237, 6239, 6241, 6254, 6258, 6272, 6276, 6288, 
+	6295, 6299, 6306, 6312, 6318, 6324, 6328, 6331, 
+	6333, 6336, 6339, 6345, 6347, 6355, 6362, 6370, 
+	6374, 6378, 6382, 6387, 6392, 6401, 6405, 6411, 
+	6422, 6424, 6426, 6428, 6433, 6460, 6464, 6473, 
+	6488, 6502, 6520, 6532, 6548, 6557, 6573, 6586, 
+	6607, 6615, 6629, 6641, 6655, 6666, 6678, 6689, 
+	6698, 6707, 6709, 6712, 6733, 6739, 6740, 6746, 
+	6754, 6799, 6804, 6810, 6815, 6820, 6824, 6828, 
+	6830, 6841, 6851, 6858, 6864, 6867, 6871, 6873, 
+	6875, 6879, 6883, 6887, 6893, 6901, 6905, 6909, 
+	6911, 6913, 6915, 6921, 6925, 6929, 6931, 6933, 
+	6937, 6941, 6945, 6947, 6951, 6957, 6968, 6973, 
+	6987, 7003, 7005, 7007, 7023, 7028, 7030, 7032, 
+	7034, 7038, 7044, 7046, 7050, 7053, 7063, 7073, 
+	7074, 7084, 7092, 7098, 7102, 7106, 7110, 7112, 
+	7117, 7119, 7122, 7124, 7146, 7148, 7154, 7159, 
+	7161, 7165, 7169, 7171, 7179, 7181, 7185, 7187, 
+	7189, 7191, 7194, 7196, 7216, 7220, 7224, 7226, 
+	7237, 7243, 7245, 7247, 7251, 7255, 7259, 7261, 
+	7263, 7267, 7269, 7277, 7284, 7301, 7310, 7314, 
+	7316, 7320, 7322, 7326, 7328, 7332, 7338, 7340, 
+	7349, 7353, 7363, 7368, 7370, 7372, 7385, 7389, 
+	7403, 7407, 7419, 7426, 7430, 7437, 7443, 7449, 
+	7455, 7459, 7462, 7464, 7467, 7468, 7481, 7485, 
+	7494, 7509, 7523, 7541, 7553, 7569, 7578, 7594, 
+	7607, 7628, 7636, 7650, 7662, 7676, 7687, 7699, 
+	7710, 7719, 7728, 7730, 7733, 7754, 7760, 7761, 
+	7767, 7775, 7780, 7786, 7791, 7796, 7798, 7802, 
+	7806, 7808, 7819, 7829, 7836, 7842, 7845, 7849, 
+	7851, 7853, 7857, 7861, 7865, 7871, 7879, 7883, 
+	7887, 7889, 7891, 7893, 7899, 7903, 7907, 7909, 
+	7911, 7915, 7919, 7923, 7925, 7929, 7935, 7946, 
+	7951, 7965, 7967, 7969, 7985, 7990, 7992, 7994, 
+	7996, 8000, 8006, 8008, 8012, 8015, 8025, 8035, 
+	8036, 8044, 8050, 8054, 8058, 8062, 8064, 8066, 
+	8068, 8074, 8079, 8081, 8085, 8089, 8091, 8099, 
+	8101, 8105, 8107, 8109, 8111, 8113, 8117, 8121, 
+	8123, 8134, 8140, 8142, 8144, 8146, 8148, 8152, 
+	8156, 8160, 8162, 8164, 8168, 8170, 8178, 8195, 
+	8204, 8208, 8210, 8214, 8216, 8220, 8222, 8226, 
+	8232, 8234, 8243, 8247, 8257, 8262, 8264, 8266, 
+	8279, 8283, 8297, 8301, 8313, 8320, 8324, 8331, 
+	8337, 8343, 8349, 8353, 8355, 8358, 8360, 8363, 
+	8363, 8419, 8433, 8447, 8457, 8473, 8489, 8505, 
+	8562, 8584, 8587, 8610, 8633, 8656, 8679, 8703, 
+	8726, 8749, 8772, 8828, 8884, 8926, 8947, 8955, 
+	9012, 9071, 9124, 9179, 9219, 9274, 9327, 9365, 
+	9386, 9408, 9430, 9452, 9474, 9496, 9518, 9540, 
+	9562, 9563, 9622, 9638, 9691, 9745, 9790, 9828, 
+	9830, 9889, 9934, 9974, 10035, 10095, 10155, 10214, 
+	10227, 10287, 10347, 10407, 10467, 10527, 10530, 10576, 
+	10582, 10584, 10592, 10599, 10607, 10611, 10615, 10619, 
+	10624, 10629, 10638, 10642, 10648, 10659, 10661, 10663, 
+	10665, 10670, 10697, 10742, 10758, 10768, 10773, 10775, 
+	10778, 10800, 10803, 10823
 };
 
 static const unsigned char _StdTok_trans_keys[] = {
@@ -231,244 +226,105 @@ static const unsigned char _StdTok_trans_keys[] = {
 	11u, 12u, 14u, 127u, 33u, 45u, 47u, 61u, 
 	63u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
 	90u, 94u, 126u, 33u, 45u, 46u, 47u, 61u, 
-	63u, 64u, 194u, 195u, 198u, 199u, 203u, 205u, 
-	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
-	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
-	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
-	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
-	208u, 218u, 229u, 236u, 33u, 45u, 46u, 47u, 
-	61u, 63u, 64u, 35u, 39u, 42u, 43u, 48u, 
-	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
-	126u, 33u, 45u, 46u, 47u, 61u, 63u, 64u, 
-	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
-	47u, 61u, 63u, 98u, 99u, 101u, 103u, 105u, 
-	109u, 110u, 111u, 35u, 39u, 42u, 43u, 48u, 
-	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
-	126u, 33u, 45u, 46u, 47u, 61u, 63u, 64u, 
-	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 48u, 57u, 
-	33u, 45u, 46u, 47u, 61u, 63u, 64u, 105u, 
-	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
-	46u, 47u, 61u, 63u, 64u, 111u, 35u, 39u, 
+	63u, 64u, 194u, 195u, 203u, 205u, 206u, 207u, 
+	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
+	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
+	228u, 233u, 234u, 237u, 239u, 240u, 35u, 39u, 
+	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
+	97u, 122u, 123u, 126u, 196u, 202u, 208u, 218u, 
+	229u, 236u, 33u, 45u, 46u, 47u, 61u, 63u, 
+	64u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
+	90u, 94u, 96u, 97u, 122u, 123u, 126u, 33u, 
+	45u, 46u, 47u, 61u, 63u, 64u, 35u, 39u, 
+	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
+	97u, 122u, 123u, 126u, 33u, 45u, 47u, 61u, 
+	63u, 98u, 99u, 101u, 103u, 105u, 109u, 110u, 
+	111u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
+	90u, 94u, 96u, 97u, 122u, 123u, 126u, 33u, 
+	45u, 46u, 47u, 61u, 63u, 64u, 35u, 39u, 
+	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
+	97u, 122u, 123u, 126u, 48u, 57u, 33u, 45u, 
+	46u, 47u, 61u, 63u, 64u, 105u, 35u, 39u, 
 	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
 	97u, 122u, 123u, 126u, 33u, 45u, 46u, 47u, 
-	61u, 63u, 64u, 100u, 35u, 39u, 42u, 43u, 
+	61u, 63u, 64u, 111u, 35u, 39u, 42u, 43u, 
 	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
 	123u, 126u, 33u, 45u, 46u, 47u, 61u, 63u, 
-	64u, 111u, 35u, 39u, 42u, 43u, 48u, 57u, 
+	64u, 100u, 35u, 39u, 42u, 43u, 48u, 57u, 
 	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
-	33u, 45u, 46u, 47u, 61u, 63u, 64u, 110u, 
+	33u, 45u, 46u, 47u, 61u, 63u, 64u, 111u, 
 	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
 	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
-	46u, 47u, 61u, 63u, 64u, 111u, 35u, 39u, 
+	46u, 47u, 61u, 63u, 64u, 110u, 35u, 39u, 
 	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
 	97u, 122u, 123u, 126u, 33u, 45u, 46u, 47u, 
-	61u, 63u, 64u, 105u, 35u, 39u, 42u, 43u, 
+	61u, 63u, 64u, 111u, 35u, 39u, 42u, 43u, 
 	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
 	123u, 126u, 33u, 45u, 46u, 47u, 61u, 63u, 
-	64u, 101u, 35u, 39u, 42u, 43u, 48u, 57u, 
+	64u, 105u, 35u, 39u, 42u, 43u, 48u, 57u, 
 	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
-	33u, 45u, 46u, 47u, 61u, 63u, 64u, 114u, 
+	33u, 45u, 46u, 47u, 61u, 63u, 64u, 101u, 
 	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 33u, 46u, 
-	61u, 63u, 64u, 194u, 195u, 198u, 199u, 203u, 
-	205u, 206u, 207u, 210u, 212u, 213u, 214u, 215u, 
-	216u, 217u, 219u, 220u, 221u, 222u, 223u, 224u, 
-	225u, 226u, 227u, 228u, 233u, 234u, 237u, 239u, 
-	240u, 35u, 39u, 42u, 43u, 45u, 47u, 48u, 
-	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
-	126u, 196u, 202u, 208u, 218u, 229u, 236u, 170u, 
-	181u, 186u, 194u, 195u, 198u, 199u, 203u, 205u, 
-	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
-	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
-	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
-	48u, 57u, 65u, 90u, 97u, 122u, 196u, 202u, 
-	208u, 218u, 229u, 236u, 128u, 150u, 152u, 182u, 
-	184u, 255u, 192u, 255u, 0u, 127u, 173u, 130u, 
-	133u, 146u, 159u, 165u, 171u, 175u, 255u, 133u, 
-	176u, 180u, 182u, 183u, 186u, 189u, 134u, 140u, 
-	136u, 138u, 142u, 161u, 163u, 255u, 182u, 130u, 
-	137u, 164u, 176u, 151u, 152u, 154u, 160u, 190u, 
-	136u, 175u, 192u, 255u, 135u, 129u, 130u, 132u, 
-	133u, 144u, 170u, 176u, 178u, 144u, 154u, 161u, 
-	191u, 128u, 151u, 153u, 158u, 174u, 255u, 148u, 
-	157u, 160u, 169u, 172u, 176u, 185u, 189u, 190u, 
-	192u, 255u, 144u, 191u, 141u, 255u, 178u, 255u, 
-	186u, 138u, 170u, 180u, 181u, 164u, 165u, 166u, 
-	167u, 168u, 169u, 170u, 171u, 172u, 173u, 174u, 
-	175u, 176u, 177u, 178u, 179u, 180u, 181u, 182u, 
-	183u, 184u, 185u, 186u, 187u, 188u, 189u, 190u, 
-	129u, 185u, 189u, 255u, 141u, 143u, 145u, 151u, 
-	164u, 176u, 179u, 186u, 192u, 255u, 178u, 129u, 
-	131u, 133u, 140u, 143u, 144u, 147u, 168u, 170u, 
-	176u, 182u, 185u, 189u, 255u, 141u, 158u, 133u, 
-	134u, 137u, 138u, 143u, 150u, 152u, 155u, 164u, 
-	175u, 178u, 255u, 129u, 131u, 133u, 138u, 143u, 
-	144u, 147u, 168u, 170u, 176u, 178u, 179u, 181u, 
-	182u, 184u, 185u, 190u, 255u, 157u, 131u, 134u, 
-	137u, 138u, 141u, 144u, 146u, 152u, 159u, 175u, 
-	182u, 255u, 129u, 131u, 133u, 141u, 143u, 145u, 
-	147u, 168u, 170u, 176u, 178u, 179u, 181u, 185u, 
-	189u, 255u, 134u, 138u, 141u, 143u, 145u, 159u, 
-	164u, 255u, 129u, 131u, 133u, 140u, 143u, 144u, 
-	147u, 168u, 170u, 176u, 178u, 179u, 181u, 185u, 
-	189u, 191u, 177u, 128u, 132u, 135u, 136u, 139u, 
-	140u, 150u, 151u, 156u, 157u, 159u, 163u, 156u, 
-	130u, 131u, 133u, 138u, 142u, 144u, 146u, 149u, 
-	153u, 154u, 158u, 159u, 163u, 164u, 168u, 170u, 
-	174u, 185u, 190u, 191u, 144u, 151u, 128u, 130u, 
-	134u, 136u, 138u, 140u, 129u, 131u, 133u, 140u, 
-	142u, 144u, 146u, 168u, 170u, 179u, 181u, 185u, 
-	189u, 255u, 133u, 137u, 151u, 141u, 148u, 154u, 
-	159u, 164u, 255u, 130u, 131u, 133u, 140u, 142u, 
-	144u, 146u, 168u, 170u, 179u, 181u, 185u, 189u, 
-	191u, 158u, 128u, 132u, 134u, 136u, 138u, 140u, 
-	149u, 150u, 160u, 163u, 130u, 131u, 133u, 140u, 
-	142u, 144u, 146u, 168u, 170u, 185u, 189u, 255u, 
-	133u, 137u, 141u, 150u, 152u, 159u, 164u, 185u, 
-	192u, 255u, 189u, 130u, 131u, 133u, 150u, 154u, 
-	177u, 179u, 187u, 150u, 128u, 134u, 143u, 148u, 
-	152u, 159u, 178u, 179u, 129u, 186u, 141u, 128u, 
-	134u, 132u, 138u, 141u, 165u, 167u, 129u, 130u, 
-	135u, 136u, 148u, 151u, 153u, 159u, 161u, 163u, 
-	170u, 171u, 173u, 185u, 187u, 189u, 134u, 141u, 
-	128u, 132u, 156u, 157u, 128u, 128u, 135u, 137u, 
-	172u, 177u, 191u, 128u, 129u, 136u, 139u, 144u, 
-	151u, 153u, 188u, 128u, 129u, 130u, 131u, 133u, 
-	134u, 135u, 137u, 138u, 139u, 140u, 141u, 142u, 
-	143u, 144u, 153u, 154u, 155u, 156u, 157u, 158u, 
-	159u, 160u, 161u, 162u, 164u, 165u, 166u, 167u, 
-	168u, 172u, 173u, 174u, 176u, 177u, 180u, 181u, 
-	182u, 184u, 188u, 189u, 190u, 191u, 132u, 136u, 
-	145u, 152u, 185u, 187u, 184u, 128u, 182u, 187u, 
-	191u, 144u, 162u, 165u, 168u, 174u, 255u, 135u, 
-	141u, 143u, 159u, 187u, 134u, 143u, 189u, 255u, 
-	154u, 158u, 163u, 167u, 186u, 255u, 137u, 151u, 
-	153u, 142u, 143u, 158u, 159u, 137u, 177u, 142u, 
-	143u, 182u, 183u, 191u, 255u, 128u, 130u, 133u, 
-	136u, 150u, 152u, 255u, 145u, 150u, 151u, 155u, 
-	158u, 160u, 255u, 128u, 143u, 160u, 255u, 181u, 
-	255u, 129u, 255u, 173u, 174u, 183u, 255u, 129u, 
-	154u, 160u, 255u, 171u, 173u, 177u, 255u, 128u, 
-	140u, 142u, 147u, 160u, 179u, 128u, 147u, 160u, 
-	172u, 174u, 176u, 178u, 179u, 128u, 179u, 182u, 
-	255u, 137u, 150u, 152u, 155u, 157u, 255u, 160u, 
-	255u, 184u, 255u, 128u, 170u, 128u, 156u, 160u, 
-	171u, 176u, 184u, 144u, 173u, 176u, 180u, 128u, 
-	169u, 176u, 255u, 138u, 255u, 128u, 155u, 128u, 
-	179u, 181u, 255u, 132u, 140u, 255u, 128u, 169u, 
-	174u, 175u, 128u, 181u, 141u, 143u, 154u, 189u, 
-	150u, 151u, 158u, 159u, 152u, 154u, 156u, 158u, 
-	134u, 135u, 142u, 143u, 190u, 255u, 190u, 128u, 
-	180u, 182u, 188u, 130u, 132u, 134u, 140u, 144u, 
-	147u, 150u, 155u, 160u, 172u, 178u, 180u, 182u, 
-	188u, 129u, 130u, 132u, 133u, 134u, 146u, 147u, 
+	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
+	46u, 47u, 61u, 63u, 64u, 114u, 35u, 39u, 
+	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
+	97u, 122u, 123u, 126u, 33u, 46u, 61u, 63u, 
+	64u, 194u, 195u, 203u, 205u, 206u, 207u, 210u, 
+	212u, 213u, 214u, 215u, 216u, 217u, 219u, 220u, 
+	221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 
+	233u, 234u, 237u, 239u, 240u, 35u, 39u, 42u, 
+	43u, 45u, 47u, 48u, 57u, 65u, 90u, 94u, 
+	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
+	218u, 229u, 236u, 170u, 181u, 186u, 194u, 195u, 
+	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
+	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
+	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
+	239u, 240u, 48u, 57u, 65u, 90u, 97u, 122u, 
+	196u, 202u, 208u, 218u, 229u, 236u, 128u, 150u, 
+	152u, 182u, 184u, 191u, 128u, 191u, 172u, 174u, 
+	128u, 129u, 134u, 145u, 160u, 164u, 133u, 176u, 
+	180u, 182u, 183u, 186u, 189u, 134u, 140u, 136u, 
+	138u, 142u, 161u, 163u, 191u, 128u, 181u, 183u, 
+	191u, 128u, 129u, 138u, 191u, 128u, 163u, 177u, 
+	191u, 153u, 128u, 150u, 161u, 191u, 191u, 128u, 
+	135u, 176u, 189u, 135u, 129u, 130u, 132u, 133u, 
+	144u, 170u, 176u, 178u, 144u, 154u, 161u, 191u, 
+	128u, 151u, 153u, 158u, 174u, 191u, 191u, 128u, 
+	147u, 149u, 156u, 161u, 168u, 173u, 175u, 186u, 
+	188u, 144u, 191u, 141u, 191u, 128u, 177u, 186u, 
+	138u, 170u, 180u, 181u, 164u, 165u, 166u, 167u, 
+	168u, 169u, 170u, 171u, 172u, 173u, 174u, 175u, 
 	176u, 177u, 178u, 179u, 180u, 181u, 182u, 183u, 
-	184u, 177u, 191u, 144u, 148u, 130u, 135u, 149u, 
-	164u, 166u, 168u, 138u, 147u, 153u, 157u, 170u, 
-	173u, 175u, 185u, 188u, 191u, 142u, 133u, 137u, 
-	160u, 255u, 137u, 255u, 182u, 255u, 170u, 255u, 
-	128u, 174u, 176u, 255u, 159u, 176u, 190u, 255u, 
-	165u, 255u, 128u, 165u, 176u, 255u, 166u, 174u, 
-	176u, 255u, 128u, 150u, 160u, 166u, 168u, 174u, 
-	176u, 182u, 184u, 190u, 128u, 134u, 136u, 142u, 
-	144u, 150u, 152u, 158u, 160u, 191u, 175u, 128u, 
-	129u, 130u, 131u, 132u, 133u, 134u, 135u, 144u, 
-	145u, 255u, 133u, 135u, 161u, 169u, 177u, 181u, 
-	184u, 188u, 160u, 151u, 156u, 187u, 192u, 255u, 
-	133u, 173u, 177u, 255u, 143u, 159u, 184u, 255u, 
-	176u, 191u, 182u, 183u, 184u, 182u, 255u, 191u, 
-	192u, 255u, 132u, 255u, 128u, 146u, 148u, 152u, 
-	153u, 154u, 156u, 157u, 158u, 159u, 160u, 161u, 
-	162u, 163u, 164u, 165u, 168u, 169u, 176u, 129u, 
-	145u, 149u, 151u, 177u, 255u, 141u, 255u, 141u, 
-	143u, 160u, 169u, 172u, 255u, 191u, 128u, 159u, 
-	162u, 174u, 128u, 151u, 151u, 159u, 162u, 255u, 
-	137u, 138u, 141u, 255u, 187u, 255u, 130u, 134u, 
-	139u, 168u, 255u, 128u, 179u, 138u, 170u, 176u, 
-	255u, 147u, 255u, 128u, 182u, 128u, 141u, 158u, 
-	159u, 255u, 164u, 255u, 164u, 168u, 169u, 171u, 
-	172u, 173u, 174u, 175u, 180u, 181u, 182u, 183u, 
-	185u, 186u, 187u, 188u, 189u, 190u, 191u, 165u, 
-	179u, 174u, 175u, 171u, 175u, 154u, 255u, 190u, 
-	128u, 134u, 147u, 151u, 157u, 168u, 170u, 182u, 
-	184u, 188u, 128u, 129u, 131u, 132u, 134u, 255u, 
-	147u, 255u, 190u, 255u, 144u, 255u, 144u, 145u, 
-	136u, 175u, 188u, 255u, 176u, 180u, 182u, 255u, 
-	189u, 255u, 161u, 186u, 129u, 154u, 166u, 255u, 
-	191u, 255u, 130u, 135u, 138u, 143u, 146u, 151u, 
-	154u, 156u, 144u, 146u, 157u, 160u, 170u, 175u, 
-	161u, 169u, 128u, 129u, 130u, 131u, 133u, 138u, 
-	139u, 140u, 141u, 142u, 143u, 144u, 145u, 146u, 
-	160u, 164u, 168u, 128u, 139u, 141u, 166u, 168u, 
-	186u, 188u, 189u, 191u, 255u, 142u, 143u, 158u, 
-	255u, 187u, 255u, 128u, 180u, 128u, 156u, 160u, 
-	255u, 145u, 255u, 128u, 158u, 176u, 255u, 139u, 
-	255u, 128u, 157u, 160u, 255u, 144u, 132u, 135u, 
-	150u, 255u, 158u, 255u, 136u, 188u, 191u, 128u, 
-	133u, 138u, 181u, 183u, 184u, 128u, 149u, 160u, 
-	185u, 128u, 131u, 133u, 134u, 140u, 147u, 149u, 
-	151u, 153u, 179u, 128u, 141u, 144u, 145u, 129u, 
-	140u, 175u, 255u, 163u, 255u, 144u, 145u, 146u, 
-	147u, 148u, 149u, 154u, 155u, 156u, 157u, 158u, 
-	159u, 150u, 153u, 149u, 157u, 173u, 186u, 188u, 
-	160u, 161u, 163u, 164u, 167u, 168u, 132u, 134u, 
-	149u, 157u, 186u, 139u, 140u, 191u, 255u, 134u, 
-	128u, 132u, 138u, 144u, 146u, 255u, 166u, 167u, 
-	129u, 155u, 187u, 149u, 181u, 143u, 175u, 137u, 
-	169u, 131u, 140u, 255u, 128u, 129u, 255u, 155u, 
-	156u, 255u, 151u, 255u, 160u, 168u, 161u, 167u, 
-	33u, 45u, 47u, 61u, 63u, 98u, 99u, 101u, 
-	103u, 105u, 109u, 110u, 111u, 35u, 39u, 42u, 
-	43u, 48u, 57u, 65u, 90u, 94u, 96u, 97u, 
-	122u, 123u, 126u, 47u, 95u, 44u, 58u, 64u, 
-	90u, 97u, 122u, 170u, 181u, 186u, 128u, 150u, 
-	152u, 182u, 184u, 255u, 192u, 255u, 128u, 255u, 
-	173u, 130u, 133u, 146u, 159u, 165u, 171u, 175u, 
-	255u, 133u, 176u, 180u, 182u, 183u, 186u, 189u, 
-	134u, 140u, 136u, 138u, 142u, 161u, 163u, 255u, 
-	182u, 130u, 137u, 164u, 176u, 151u, 152u, 154u, 
-	160u, 190u, 136u, 175u, 192u, 255u, 135u, 129u, 
-	130u, 132u, 133u, 144u, 170u, 176u, 178u, 144u, 
-	154u, 161u, 191u, 128u, 151u, 153u, 158u, 174u, 
-	255u, 148u, 157u, 160u, 169u, 172u, 176u, 185u, 
-	189u, 190u, 192u, 255u, 144u, 191u, 141u, 255u, 
-	178u, 255u, 186u, 138u, 170u, 180u, 181u, 164u, 
-	165u, 166u, 167u, 168u, 169u, 170u, 171u, 172u, 
-	173u, 174u, 175u, 176u, 177u, 178u, 179u, 180u, 
-	181u, 182u, 183u, 184u, 185u, 186u, 187u, 188u, 
-	189u, 190u, 129u, 185u, 189u, 255u, 141u, 143u, 
-	145u, 151u, 164u, 176u, 179u, 186u, 192u, 255u, 
-	178u, 129u, 131u, 133u, 140u, 143u, 144u, 147u, 
-	168u, 170u, 176u, 182u, 185u, 189u, 255u, 141u, 
-	158u, 133u, 134u, 137u, 138u, 143u, 150u, 152u, 
-	155u, 164u, 175u, 178u, 255u, 129u, 131u, 133u, 
-	138u, 143u, 144u, 147u, 168u, 170u, 176u, 178u, 
-	179u, 181u, 182u, 184u, 185u, 190u, 255u, 157u, 
-	131u, 134u, 137u, 138u, 141u, 144u, 146u, 152u, 
-	159u, 175u, 182u, 255u, 129u, 131u, 133u, 141u, 
-	143u, 145u, 147u, 168u, 170u, 176u, 178u, 179u, 
-	181u, 185u, 189u, 255u, 134u, 138u, 141u, 143u, 
-	145u, 159u, 164u, 255u, 129u, 131u, 133u, 140u, 
-	143u, 144u, 147u, 168u, 170u, 176u, 178u, 179u, 
-	181u, 185u, 189u, 191u, 177u, 128u, 132u, 135u, 
-	136u, 139u, 140u, 150u, 151u, 156u, 157u, 159u, 
-	163u, 156u, 130u, 131u, 133u, 138u, 142u, 144u, 
-	146u, 149u, 153u, 154u, 158u, 159u, 163u, 164u, 
-	168u, 170u, 174u, 185u, 190u, 191u, 144u, 151u, 
-	128u, 130u, 134u, 136u, 138u, 140u, 129u, 131u, 
-	133u, 140u, 142u, 144u, 146u, 168u, 170u, 179u, 
-	181u, 185u, 189u, 255u, 133u, 137u, 151u, 141u, 
-	148u, 154u, 159u, 164u, 255u, 130u, 131u, 133u, 
-	140u, 142u, 144u, 146u, 168u, 170u, 179u, 181u, 
-	185u, 189u, 191u, 158u, 128u, 132u, 134u, 136u, 
-	138u, 140u, 149u, 150u, 160u, 163u, 130u, 131u, 
-	133u, 140u, 142u, 144u, 146u, 168u, 170u, 185u, 
-	189u, 255u, 133u, 137u, 141u, 150u, 152u, 159u, 
-	164u, 185u, 192u, 255u, 189u, 130u, 131u, 133u, 
+	184u, 185u, 186u, 187u, 188u, 189u, 190u, 129u, 
+	185u, 189u, 191u, 144u, 128u, 140u, 152u, 163u, 
+	177u, 178u, 187u, 191u, 178u, 129u, 131u, 133u, 
+	140u, 143u, 144u, 147u, 168u, 170u, 176u, 182u, 
+	185u, 189u, 191u, 142u, 151u, 128u, 132u, 135u, 
+	136u, 139u, 140u, 156u, 157u, 159u, 163u, 176u, 
+	177u, 129u, 131u, 133u, 138u, 143u, 144u, 147u, 
+	168u, 170u, 176u, 178u, 179u, 181u, 182u, 184u, 
+	185u, 190u, 191u, 145u, 158u, 128u, 130u, 135u, 
+	136u, 139u, 140u, 153u, 156u, 176u, 181u, 129u, 
+	131u, 133u, 141u, 143u, 145u, 147u, 168u, 170u, 
+	176u, 178u, 179u, 181u, 185u, 189u, 191u, 144u, 
+	128u, 133u, 135u, 137u, 139u, 140u, 160u, 163u, 
+	129u, 131u, 133u, 140u, 143u, 144u, 147u, 168u, 
+	170u, 176u, 178u, 179u, 181u, 185u, 189u, 191u, 
+	177u, 128u, 132u, 135u, 136u, 139u, 140u, 150u, 
+	151u, 156u, 157u, 159u, 163u, 156u, 130u, 131u, 
+	133u, 138u, 142u, 144u, 146u, 149u, 153u, 154u, 
+	158u, 159u, 163u, 164u, 168u, 170u, 174u, 185u, 
+	190u, 191u, 144u, 151u, 128u, 130u, 134u, 136u, 
+	138u, 140u, 129u, 131u, 133u, 140u, 142u, 144u, 
+	146u, 168u, 170u, 179u, 181u, 185u, 189u, 191u, 
+	128u, 132u, 134u, 136u, 138u, 140u, 149u, 150u, 
+	152u, 153u, 160u, 163u, 130u, 131u, 133u, 140u, 
+	142u, 144u, 146u, 168u, 170u, 179u, 181u, 185u, 
+	189u, 191u, 158u, 128u, 132u, 134u, 136u, 138u, 
+	140u, 149u, 150u, 160u, 163u, 130u, 131u, 133u, 
+	140u, 142u, 144u, 146u, 168u, 170u, 185u, 189u, 
+	191u, 151u, 128u, 132u, 134u, 136u, 138u, 140u, 
+	160u, 163u, 186u, 191u, 189u, 130u, 131u, 133u, 
 	150u, 154u, 177u, 179u, 187u, 150u, 128u, 134u, 
 	143u, 148u, 152u, 159u, 178u, 179u, 129u, 186u, 
 	141u, 128u, 134u, 132u, 138u, 141u, 165u, 167u, 
@@ -481,261 +337,265 @@ static const unsigned char _StdTok_trans_keys[] = {
 	141u, 142u, 143u, 144u, 153u, 154u, 155u, 156u, 
 	157u, 158u, 159u, 160u, 161u, 162u, 164u, 165u, 
 	166u, 167u, 168u, 172u, 173u, 174u, 176u, 177u, 
-	180u, 181u, 182u, 184u, 188u, 189u, 190u, 191u, 
-	132u, 136u, 145u, 152u, 185u, 187u, 184u, 128u, 
-	182u, 187u, 191u, 144u, 162u, 165u, 168u, 174u, 
-	255u, 135u, 141u, 143u, 159u, 187u, 134u, 143u, 
-	189u, 255u, 154u, 158u, 163u, 167u, 186u, 255u, 
-	137u, 151u, 153u, 142u, 143u, 158u, 159u, 137u, 
-	177u, 142u, 143u, 182u, 183u, 191u, 255u, 128u, 
-	130u, 133u, 136u, 150u, 152u, 255u, 145u, 150u, 
-	151u, 155u, 158u, 160u, 255u, 128u, 143u, 160u, 
-	255u, 181u, 255u, 129u, 255u, 173u, 174u, 183u, 
-	255u, 129u, 154u, 160u, 255u, 171u, 173u, 177u, 
-	255u, 128u, 140u, 142u, 147u, 160u, 179u, 128u, 
-	147u, 160u, 172u, 174u, 176u, 178u, 179u, 128u, 
-	179u, 182u, 255u, 137u, 150u, 152u, 155u, 157u, 
-	255u, 160u, 255u, 184u, 255u, 128u, 170u, 128u, 
-	156u, 160u, 171u, 176u, 184u, 144u, 173u, 176u, 
-	180u, 128u, 169u, 176u, 255u, 138u, 255u, 128u, 
-	155u, 128u, 179u, 181u, 255u, 132u, 140u, 255u, 
+	188u, 189u, 190u, 191u, 132u, 152u, 180u, 182u, 
+	184u, 187u, 184u, 128u, 182u, 187u, 191u, 144u, 
+	162u, 165u, 168u, 174u, 191u, 142u, 128u, 134u, 
+	160u, 191u, 188u, 128u, 133u, 144u, 186u, 128u, 
+	153u, 159u, 191u, 128u, 162u, 168u, 191u, 128u, 
+	185u, 152u, 128u, 136u, 138u, 141u, 144u, 150u, 
+	154u, 157u, 160u, 191u, 128u, 136u, 138u, 141u, 
+	144u, 176u, 178u, 181u, 184u, 190u, 128u, 130u, 
+	133u, 136u, 150u, 152u, 191u, 128u, 144u, 146u, 
+	149u, 152u, 191u, 159u, 128u, 154u, 128u, 143u, 
+	160u, 191u, 128u, 180u, 129u, 191u, 128u, 172u, 
+	175u, 182u, 129u, 154u, 160u, 191u, 128u, 170u, 
+	174u, 176u, 128u, 140u, 142u, 147u, 160u, 179u, 
+	128u, 147u, 160u, 172u, 174u, 176u, 178u, 179u, 
+	128u, 179u, 182u, 191u, 151u, 156u, 128u, 136u, 
+	160u, 191u, 128u, 183u, 128u, 170u, 128u, 156u, 
+	160u, 171u, 176u, 184u, 144u, 173u, 176u, 180u, 
+	128u, 169u, 176u, 191u, 128u, 137u, 128u, 155u, 
+	128u, 179u, 181u, 191u, 128u, 131u, 133u, 139u, 
 	128u, 169u, 174u, 175u, 128u, 181u, 141u, 143u, 
-	154u, 189u, 150u, 151u, 158u, 159u, 152u, 154u, 
-	156u, 158u, 134u, 135u, 142u, 143u, 190u, 255u, 
-	190u, 128u, 180u, 182u, 188u, 130u, 132u, 134u, 
-	140u, 144u, 147u, 150u, 155u, 160u, 172u, 178u, 
-	180u, 182u, 188u, 129u, 130u, 132u, 133u, 134u, 
-	146u, 147u, 176u, 177u, 178u, 179u, 180u, 181u, 
-	182u, 183u, 184u, 177u, 191u, 144u, 148u, 130u, 
-	135u, 149u, 164u, 166u, 168u, 138u, 147u, 153u, 
-	157u, 170u, 173u, 175u, 185u, 188u, 191u, 142u, 
-	133u, 137u, 160u, 255u, 137u, 255u, 182u, 255u, 
-	170u, 255u, 128u, 174u, 176u, 255u, 159u, 176u, 
-	190u, 255u, 165u, 255u, 128u, 165u, 176u, 255u, 
-	166u, 174u, 176u, 255u, 128u, 150u, 160u, 166u, 
-	168u, 174u, 176u, 182u, 184u, 190u, 128u, 134u, 
-	136u, 142u, 144u, 150u, 152u, 158u, 160u, 191u, 
-	175u, 128u, 129u, 130u, 131u, 132u, 133u, 134u, 
-	135u, 144u, 145u, 255u, 133u, 135u, 161u, 169u, 
-	177u, 181u, 184u, 188u, 160u, 151u, 156u, 187u, 
-	192u, 255u, 133u, 173u, 177u, 255u, 143u, 159u, 
-	184u, 255u, 176u, 191u, 182u, 183u, 184u, 182u, 
-	255u, 191u, 192u, 255u, 132u, 255u, 128u, 146u, 
-	148u, 152u, 153u, 154u, 156u, 157u, 158u, 159u, 
-	160u, 161u, 162u, 163u, 164u, 165u, 168u, 169u, 
-	176u, 129u, 145u, 149u, 151u, 177u, 255u, 141u, 
-	255u, 141u, 143u, 160u, 169u, 172u, 255u, 191u, 
-	128u, 159u, 162u, 174u, 128u, 151u, 151u, 159u, 
-	162u, 255u, 137u, 138u, 141u, 255u, 187u, 255u, 
-	130u, 134u, 139u, 168u, 255u, 128u, 179u, 138u, 
-	170u, 176u, 255u, 147u, 255u, 128u, 182u, 128u, 
-	141u, 158u, 159u, 255u, 164u, 255u, 164u, 168u, 
+	154u, 189u, 128u, 149u, 152u, 157u, 160u, 191u, 
+	153u, 155u, 157u, 128u, 133u, 136u, 141u, 144u, 
+	151u, 159u, 189u, 190u, 128u, 180u, 182u, 188u, 
+	130u, 132u, 134u, 140u, 144u, 147u, 150u, 155u, 
+	160u, 172u, 178u, 180u, 182u, 188u, 129u, 130u, 
+	132u, 133u, 134u, 146u, 147u, 176u, 177u, 178u, 
+	179u, 180u, 181u, 182u, 183u, 184u, 177u, 191u, 
+	144u, 148u, 130u, 135u, 149u, 164u, 166u, 168u, 
+	138u, 147u, 153u, 157u, 170u, 173u, 175u, 185u, 
+	188u, 191u, 142u, 133u, 137u, 160u, 191u, 128u, 
+	136u, 182u, 191u, 128u, 169u, 128u, 174u, 176u, 
+	191u, 128u, 158u, 160u, 175u, 177u, 189u, 128u, 
+	164u, 128u, 165u, 176u, 191u, 175u, 128u, 165u, 
+	128u, 150u, 160u, 166u, 168u, 174u, 176u, 182u, 
+	184u, 190u, 128u, 134u, 136u, 142u, 144u, 150u, 
+	152u, 158u, 160u, 191u, 175u, 128u, 129u, 130u, 
+	131u, 132u, 133u, 134u, 135u, 144u, 191u, 133u, 
+	135u, 161u, 169u, 177u, 181u, 184u, 188u, 128u, 
+	150u, 157u, 159u, 161u, 191u, 128u, 186u, 188u, 
+	191u, 133u, 173u, 177u, 191u, 128u, 142u, 160u, 
+	183u, 176u, 191u, 182u, 128u, 181u, 184u, 191u, 
+	128u, 191u, 191u, 128u, 190u, 128u, 131u, 146u, 
+	152u, 153u, 154u, 156u, 158u, 159u, 160u, 161u, 
+	163u, 164u, 165u, 168u, 169u, 128u, 145u, 148u, 
+	151u, 157u, 162u, 176u, 191u, 128u, 140u, 128u, 
+	140u, 144u, 159u, 170u, 171u, 191u, 128u, 159u, 
+	162u, 174u, 128u, 151u, 151u, 159u, 162u, 191u, 
+	128u, 136u, 139u, 140u, 187u, 191u, 128u, 129u, 
+	131u, 133u, 135u, 138u, 140u, 167u, 128u, 179u, 
+	138u, 170u, 176u, 191u, 128u, 146u, 128u, 182u, 
+	128u, 141u, 158u, 128u, 157u, 128u, 163u, 168u, 
 	169u, 171u, 172u, 173u, 174u, 175u, 180u, 181u, 
 	182u, 183u, 185u, 186u, 187u, 188u, 189u, 190u, 
-	191u, 165u, 179u, 174u, 175u, 171u, 175u, 154u, 
-	255u, 190u, 128u, 134u, 147u, 151u, 157u, 168u, 
-	170u, 182u, 184u, 188u, 128u, 129u, 131u, 132u, 
-	134u, 255u, 147u, 255u, 190u, 255u, 144u, 255u, 
-	144u, 145u, 136u, 175u, 188u, 255u, 176u, 180u, 
-	182u, 255u, 189u, 255u, 161u, 186u, 129u, 154u, 
-	166u, 255u, 191u, 255u, 130u, 135u, 138u, 143u, 
-	146u, 151u, 154u, 156u, 144u, 146u, 157u, 160u, 
-	170u, 175u, 161u, 169u, 128u, 129u, 130u, 131u, 
-	133u, 138u, 139u, 140u, 141u, 142u, 143u, 144u, 
-	145u, 146u, 160u, 164u, 168u, 128u, 139u, 141u, 
-	166u, 168u, 186u, 188u, 189u, 191u, 255u, 142u, 
-	143u, 158u, 255u, 187u, 255u, 128u, 180u, 128u, 
-	156u, 160u, 255u, 145u, 255u, 128u, 158u, 176u, 
-	255u, 139u, 255u, 128u, 157u, 160u, 255u, 144u, 
-	132u, 135u, 150u, 255u, 158u, 255u, 136u, 188u, 
-	191u, 128u, 133u, 138u, 181u, 183u, 184u, 128u, 
-	149u, 160u, 185u, 128u, 131u, 133u, 134u, 140u, 
-	147u, 149u, 151u, 153u, 179u, 128u, 141u, 144u, 
-	145u, 129u, 140u, 175u, 255u, 163u, 255u, 144u, 
-	145u, 146u, 147u, 148u, 149u, 154u, 155u, 156u, 
-	157u, 158u, 159u, 150u, 153u, 149u, 157u, 173u, 
-	186u, 188u, 160u, 161u, 163u, 164u, 167u, 168u, 
-	132u, 134u, 149u, 157u, 186u, 139u, 140u, 191u, 
-	255u, 134u, 128u, 132u, 138u, 144u, 146u, 255u, 
-	166u, 167u, 129u, 155u, 187u, 149u, 181u, 143u, 
-	175u, 137u, 169u, 131u, 140u, 255u, 128u, 129u, 
-	255u, 155u, 156u, 255u, 151u, 255u, 160u, 168u, 
-	161u, 167u, 170u, 181u, 186u, 128u, 150u, 152u, 
-	182u, 184u, 255u, 192u, 255u, 128u, 255u, 173u, 
-	130u, 133u, 146u, 159u, 165u, 171u, 175u, 255u, 
-	133u, 176u, 180u, 182u, 183u, 186u, 189u, 134u, 
-	140u, 136u, 138u, 142u, 161u, 163u, 255u, 182u, 
-	130u, 137u, 164u, 176u, 151u, 152u, 154u, 160u, 
-	190u, 136u, 175u, 192u, 255u, 135u, 129u, 130u, 
-	132u, 133u, 144u, 170u, 176u, 178u, 144u, 154u, 
-	161u, 191u, 128u, 151u, 153u, 158u, 174u, 255u, 
-	148u, 157u, 160u, 169u, 172u, 176u, 185u, 189u, 
-	190u, 192u, 255u, 144u, 191u, 141u, 255u, 178u, 
-	255u, 186u, 138u, 170u, 180u, 181u, 164u, 165u, 
-	166u, 167u, 168u, 169u, 170u, 171u, 172u, 173u, 
-	174u, 175u, 176u, 177u, 178u, 179u, 180u, 181u, 
-	182u, 183u, 184u, 185u, 186u, 187u, 188u, 189u, 
-	190u, 129u, 185u, 189u, 255u, 141u, 143u, 145u, 
-	151u, 164u, 176u, 179u, 186u, 192u, 255u, 178u, 
-	129u, 131u, 133u, 140u, 143u, 144u, 147u, 168u, 
-	170u, 176u, 182u, 185u, 189u, 255u, 141u, 158u, 
-	133u, 134u, 137u, 138u, 143u, 150u, 152u, 155u, 
-	164u, 175u, 178u, 255u, 129u, 131u, 133u, 138u, 
-	143u, 144u, 147u, 168u, 170u, 176u, 178u, 179u, 
-	181u, 182u, 184u, 185u, 190u, 255u, 157u, 131u, 
-	134u, 137u, 138u, 141u, 144u, 146u, 152u, 159u, 
-	175u, 182u, 255u, 129u, 131u, 133u, 141u, 143u, 
-	145u, 147u, 168u, 170u, 176u, 178u, 179u, 181u, 
-	185u, 189u, 255u, 134u, 138u, 141u, 143u, 145u, 
-	159u, 164u, 255u, 129u, 131u, 133u, 140u, 143u, 
-	144u, 147u, 168u, 170u, 176u, 178u, 179u, 181u, 
-	185u, 189u, 191u, 177u, 128u, 132u, 135u, 136u, 
-	139u, 140u, 150u, 151u, 156u, 157u, 159u, 163u, 
-	156u, 130u, 131u, 133u, 138u, 142u, 144u, 146u, 
-	149u, 153u, 154u, 158u, 159u, 163u, 164u, 168u, 
-	170u, 174u, 185u, 190u, 191u, 144u, 151u, 128u, 
-	130u, 134u, 136u, 138u, 140u, 129u, 131u, 133u, 
-	140u, 142u, 144u, 146u, 168u, 170u, 179u, 181u, 
-	185u, 189u, 255u, 133u, 137u, 151u, 141u, 148u, 
-	154u, 159u, 164u, 255u, 130u, 131u, 133u, 140u, 
-	142u, 144u, 146u, 168u, 170u, 179u, 181u, 185u, 
-	189u, 191u, 158u, 128u, 132u, 134u, 136u, 138u, 
-	140u, 149u, 150u, 160u, 163u, 130u, 131u, 133u, 
-	140u, 142u, 144u, 146u, 168u, 170u, 185u, 189u, 
-	255u, 133u, 137u, 141u, 150u, 152u, 159u, 164u, 
-	185u, 192u, 255u, 189u, 130u, 131u, 133u, 150u, 
-	154u, 177u, 179u, 187u, 150u, 128u, 134u, 143u, 
-	148u, 152u, 159u, 178u, 179u, 129u, 186u, 141u, 
-	128u, 134u, 132u, 138u, 141u, 165u, 167u, 129u, 
-	130u, 135u, 136u, 148u, 151u, 153u, 159u, 161u, 
-	163u, 170u, 171u, 173u, 185u, 187u, 189u, 134u, 
-	141u, 128u, 132u, 156u, 157u, 128u, 128u, 135u, 
-	137u, 172u, 177u, 191u, 128u, 129u, 136u, 139u, 
-	144u, 151u, 153u, 188u, 128u, 129u, 130u, 131u, 
-	133u, 134u, 135u, 137u, 138u, 139u, 140u, 141u, 
-	142u, 143u, 144u, 153u, 154u, 155u, 156u, 157u, 
-	158u, 159u, 160u, 161u, 162u, 164u, 165u, 166u, 
-	167u, 168u, 172u, 173u, 174u, 176u, 177u, 180u, 
-	181u, 182u, 184u, 188u, 189u, 190u, 191u, 132u, 
-	136u, 145u, 152u, 185u, 187u, 184u, 128u, 182u, 
-	187u, 191u, 144u, 162u, 165u, 168u, 174u, 255u, 
-	135u, 141u, 143u, 159u, 187u, 134u, 143u, 189u, 
-	255u, 154u, 158u, 163u, 167u, 186u, 255u, 137u, 
-	151u, 153u, 142u, 143u, 158u, 159u, 137u, 177u, 
-	142u, 143u, 182u, 183u, 191u, 255u, 128u, 130u, 
-	133u, 136u, 150u, 152u, 255u, 145u, 150u, 151u, 
-	155u, 158u, 160u, 255u, 128u, 143u, 160u, 255u, 
-	181u, 255u, 129u, 255u, 173u, 174u, 183u, 255u, 
-	129u, 154u, 160u, 255u, 171u, 173u, 177u, 255u, 
+	191u, 164u, 179u, 128u, 173u, 176u, 191u, 128u, 
+	170u, 176u, 191u, 128u, 153u, 190u, 128u, 134u, 
+	147u, 151u, 157u, 168u, 170u, 182u, 184u, 188u, 
+	128u, 129u, 131u, 132u, 134u, 191u, 147u, 191u, 
+	128u, 189u, 128u, 143u, 146u, 191u, 128u, 135u, 
+	176u, 187u, 176u, 180u, 182u, 191u, 128u, 188u, 
+	161u, 186u, 129u, 154u, 166u, 191u, 128u, 190u, 
+	130u, 135u, 138u, 143u, 146u, 151u, 154u, 156u, 
+	144u, 146u, 157u, 170u, 175u, 160u, 169u, 128u, 
+	129u, 130u, 131u, 133u, 138u, 139u, 140u, 141u, 
+	142u, 143u, 146u, 160u, 164u, 168u, 144u, 145u, 
+	191u, 128u, 139u, 141u, 166u, 168u, 186u, 188u, 
+	189u, 128u, 141u, 144u, 157u, 128u, 186u, 128u, 
+	156u, 160u, 191u, 128u, 144u, 128u, 158u, 176u, 
+	191u, 128u, 138u, 128u, 157u, 160u, 191u, 128u, 
+	131u, 136u, 143u, 145u, 149u, 128u, 157u, 136u, 
+	188u, 191u, 128u, 133u, 138u, 181u, 183u, 184u, 
+	128u, 149u, 160u, 185u, 128u, 131u, 133u, 134u, 
+	140u, 147u, 149u, 151u, 153u, 179u, 141u, 144u, 
+	145u, 128u, 140u, 128u, 174u, 128u, 162u, 145u, 
+	146u, 147u, 148u, 149u, 154u, 155u, 156u, 157u, 
+	158u, 159u, 144u, 153u, 128u, 148u, 150u, 191u, 
+	162u, 187u, 128u, 156u, 158u, 159u, 165u, 166u, 
+	169u, 172u, 174u, 185u, 189u, 191u, 128u, 131u, 
+	133u, 191u, 128u, 133u, 135u, 138u, 141u, 148u, 
+	150u, 156u, 158u, 185u, 187u, 190u, 134u, 128u, 
+	132u, 138u, 144u, 146u, 191u, 128u, 165u, 168u, 
+	191u, 128u, 130u, 154u, 156u, 186u, 188u, 191u, 
+	128u, 148u, 150u, 180u, 182u, 191u, 128u, 142u, 
+	144u, 174u, 176u, 191u, 128u, 136u, 138u, 168u, 
+	170u, 191u, 128u, 130u, 132u, 139u, 155u, 128u, 
+	154u, 128u, 150u, 168u, 160u, 167u, 33u, 45u, 
+	47u, 61u, 63u, 98u, 99u, 101u, 103u, 105u, 
+	109u, 110u, 111u, 35u, 39u, 42u, 43u, 48u, 
+	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
+	126u, 47u, 95u, 44u, 58u, 64u, 90u, 97u, 
+	122u, 170u, 181u, 186u, 128u, 150u, 152u, 182u, 
+	184u, 191u, 128u, 191u, 172u, 174u, 128u, 129u, 
+	134u, 145u, 160u, 164u, 133u, 176u, 180u, 182u, 
+	183u, 186u, 189u, 134u, 140u, 136u, 138u, 142u, 
+	161u, 163u, 191u, 128u, 181u, 183u, 191u, 128u, 
+	129u, 138u, 191u, 128u, 163u, 177u, 191u, 153u, 
+	128u, 150u, 161u, 191u, 191u, 128u, 135u, 176u, 
+	189u, 135u, 129u, 130u, 132u, 133u, 144u, 170u, 
+	176u, 178u, 144u, 154u, 161u, 191u, 128u, 151u, 
+	153u, 158u, 174u, 191u, 191u, 128u, 147u, 149u, 
+	156u, 161u, 168u, 173u, 175u, 186u, 188u, 144u, 
+	191u, 141u, 191u, 128u, 177u, 186u, 138u, 170u, 
+	180u, 181u, 164u, 165u, 166u, 167u, 168u, 169u, 
+	170u, 171u, 172u, 173u, 174u, 175u, 176u, 177u, 
+	178u, 179u, 180u, 181u, 182u, 183u, 184u, 185u, 
+	186u, 187u, 188u, 189u, 190u, 129u, 185u, 189u, 
+	191u, 144u, 128u, 140u, 152u, 163u, 177u, 178u, 
+	187u, 191u, 178u, 129u, 131u, 133u, 140u, 143u, 
+	144u, 147u, 168u, 170u, 176u, 182u, 185u, 189u, 
+	191u, 142u, 151u, 128u, 132u, 135u, 136u, 139u, 
+	140u, 156u, 157u, 159u, 163u, 176u, 177u, 129u, 
+	131u, 133u, 138u, 143u, 144u, 147u, 168u, 170u, 
+	176u, 178u, 179u, 181u, 182u, 184u, 185u, 190u, 
+	191u, 145u, 158u, 128u, 130u, 135u, 136u, 139u, 
+	140u, 153u, 156u, 176u, 181u, 129u, 131u, 133u, 
+	141u, 143u, 145u, 147u, 168u, 170u, 176u, 178u, 
+	179u, 181u, 185u, 189u, 191u, 144u, 128u, 133u, 
+	135u, 137u, 139u, 140u, 160u, 163u, 129u, 131u, 
+	133u, 140u, 143u, 144u, 147u, 168u, 170u, 176u, 
+	178u, 179u, 181u, 185u, 189u, 191u, 177u, 128u, 
+	132u, 135u, 136u, 139u, 140u, 150u, 151u, 156u, 
+	157u, 159u, 163u, 156u, 130u, 131u, 133u, 138u, 
+	142u, 144u, 146u, 149u, 153u, 154u, 158u, 159u, 
+	163u, 164u, 168u, 170u, 174u, 185u, 190u, 191u, 
+	144u, 151u, 128u, 130u, 134u, 136u, 138u, 140u, 
+	129u, 131u, 133u, 140u, 142u, 144u, 146u, 168u, 
+	170u, 179u, 181u, 185u, 189u, 191u, 128u, 132u, 
+	134u, 136u, 138u, 140u, 149u, 150u, 152u, 153u, 
+	160u, 163u, 130u, 131u, 133u, 140u, 142u, 144u, 
+	146u, 168u, 170u, 179u, 181u, 185u, 189u, 191u, 
+	158u, 128u, 132u, 134u, 136u, 138u, 140u, 149u, 
+	150u, 160u, 163u, 130u, 131u, 133u, 140u, 142u, 
+	144u, 146u, 168u, 170u, 185u, 189u, 191u, 151u, 
+	128u, 132u, 134u, 136u, 138u, 140u, 160u, 163u, 
+	186u, 191u, 189u, 130u, 131u, 133u, 150u, 154u, 
+	177u, 179u, 187u, 150u, 128u, 134u, 143u, 148u, 
+	152u, 159u, 178u, 179u, 129u, 186u, 141u, 128u, 
+	134u, 132u, 138u, 141u, 165u, 167u, 129u, 130u, 
+	135u, 136u, 148u, 151u, 153u, 159u, 161u, 163u, 
+	170u, 171u, 173u, 185u, 187u, 189u, 134u, 141u, 
+	128u, 132u, 156u, 157u, 128u, 128u, 135u, 137u, 
+	172u, 177u, 191u, 128u, 129u, 136u, 139u, 144u, 
+	151u, 153u, 188u, 128u, 129u, 130u, 131u, 133u, 
+	134u, 135u, 137u, 138u, 139u, 140u, 141u, 142u, 
+	143u, 144u, 153u, 154u, 155u, 156u, 157u, 158u, 
+	159u, 160u, 161u, 162u, 164u, 165u, 166u, 167u, 
+	168u, 172u, 173u, 174u, 176u, 177u, 188u, 189u, 
+	190u, 191u, 132u, 152u, 180u, 182u, 184u, 187u, 
+	184u, 128u, 182u, 187u, 191u, 144u, 162u, 165u, 
+	168u, 174u, 191u, 142u, 128u, 134u, 160u, 191u, 
+	188u, 128u, 133u, 144u, 186u, 128u, 153u, 159u, 
+	191u, 128u, 162u, 168u, 191u, 128u, 185u, 152u, 
+	128u, 136u, 138u, 141u, 144u, 150u, 154u, 157u, 
+	160u, 191u, 128u, 136u, 138u, 141u, 144u, 176u, 
+	178u, 181u, 184u, 190u, 128u, 130u, 133u, 136u, 
+	150u, 152u, 191u, 128u, 144u, 146u, 149u, 152u, 
+	191u, 159u, 128u, 154u, 128u, 143u, 160u, 191u, 
+	128u, 180u, 129u, 191u, 128u, 172u, 175u, 182u, 
+	129u, 154u, 160u, 191u, 128u, 170u, 174u, 176u, 
 	128u, 140u, 142u, 147u, 160u, 179u, 128u, 147u, 
 	160u, 172u, 174u, 176u, 178u, 179u, 128u, 179u, 
-	182u, 255u, 137u, 150u, 152u, 155u, 157u, 255u, 
-	160u, 255u, 184u, 255u, 128u, 170u, 128u, 156u, 
-	160u, 171u, 176u, 184u, 144u, 173u, 176u, 180u, 
-	128u, 169u, 176u, 255u, 138u, 255u, 128u, 155u, 
-	128u, 179u, 181u, 255u, 132u, 140u, 255u, 128u, 
-	169u, 174u, 175u, 128u, 181u, 141u, 143u, 154u, 
-	189u, 150u, 151u, 158u, 159u, 152u, 154u, 156u, 
-	158u, 134u, 135u, 142u, 143u, 190u, 255u, 190u, 
-	128u, 180u, 182u, 188u, 130u, 132u, 134u, 140u, 
-	144u, 147u, 150u, 155u, 160u, 172u, 178u, 180u, 
-	182u, 188u, 129u, 130u, 132u, 133u, 134u, 146u, 
-	147u, 176u, 177u, 178u, 179u, 180u, 181u, 182u, 
-	183u, 184u, 177u, 191u, 144u, 148u, 130u, 135u, 
-	149u, 164u, 166u, 168u, 138u, 147u, 153u, 157u, 
-	170u, 173u, 175u, 185u, 188u, 191u, 142u, 133u, 
-	137u, 160u, 255u, 137u, 255u, 182u, 255u, 170u, 
-	255u, 128u, 174u, 176u, 255u, 159u, 176u, 190u, 
-	255u, 165u, 255u, 128u, 165u, 176u, 255u, 166u, 
-	174u, 176u, 255u, 128u, 150u, 160u, 166u, 168u, 
-	174u, 176u, 182u, 184u, 190u, 128u, 134u, 136u, 
-	142u, 144u, 150u, 152u, 158u, 160u, 191u, 175u, 
-	128u, 129u, 130u, 131u, 132u, 133u, 134u, 135u, 
-	144u, 145u, 255u, 133u, 135u, 161u, 169u, 177u, 
-	181u, 184u, 188u, 160u, 151u, 156u, 187u, 192u, 
-	255u, 133u, 173u, 177u, 255u, 143u, 159u, 184u, 
-	255u, 176u, 191u, 182u, 183u, 184u, 182u, 255u, 
-	191u, 192u, 255u, 132u, 255u, 128u, 146u, 148u, 
-	152u, 153u, 154u, 156u, 157u, 158u, 159u, 160u, 
-	161u, 162u, 163u, 164u, 165u, 168u, 169u, 176u, 
-	129u, 145u, 149u, 151u, 177u, 255u, 141u, 255u, 
-	141u, 143u, 160u, 169u, 172u, 255u, 191u, 128u, 
-	159u, 162u, 174u, 128u, 151u, 151u, 159u, 162u, 
-	255u, 137u, 138u, 141u, 255u, 187u, 255u, 130u, 
-	134u, 139u, 168u, 255u, 128u, 179u, 138u, 170u, 
-	176u, 255u, 147u, 255u, 128u, 182u, 128u, 141u, 
-	158u, 159u, 255u, 164u, 255u, 164u, 168u, 169u, 
-	171u, 172u, 173u, 174u, 175u, 180u, 181u, 182u, 
-	183u, 185u, 186u, 187u, 188u, 189u, 190u, 191u, 
-	165u, 179u, 174u, 175u, 171u, 175u, 154u, 255u, 
-	190u, 128u, 134u, 147u, 151u, 157u, 168u, 170u, 
-	182u, 184u, 188u, 128u, 129u, 131u, 132u, 134u, 
-	255u, 147u, 255u, 190u, 255u, 144u, 255u, 144u, 
-	145u, 136u, 175u, 188u, 255u, 176u, 180u, 182u, 
-	255u, 189u, 255u, 161u, 186u, 129u, 154u, 166u, 
-	255u, 191u, 255u, 130u, 135u, 138u, 143u, 146u, 
-	151u, 154u, 156u, 144u, 146u, 157u, 160u, 170u, 
-	175u, 161u, 169u, 128u, 129u, 130u, 131u, 133u, 
-	138u, 139u, 140u, 141u, 142u, 143u, 144u, 145u, 
-	146u, 160u, 164u, 168u, 128u, 139u, 141u, 166u, 
-	168u, 186u, 188u, 189u, 191u, 255u, 142u, 143u, 
-	158u, 255u, 187u, 255u, 128u, 180u, 128u, 156u, 
-	160u, 255u, 145u, 255u, 128u, 158u, 176u, 255u, 
-	139u, 255u, 128u, 157u, 160u, 255u, 144u, 132u, 
-	135u, 150u, 255u, 158u, 255u, 136u, 188u, 191u, 
+	182u, 191u, 151u, 156u, 128u, 136u, 160u, 191u, 
+	128u, 183u, 128u, 170u, 128u, 156u, 160u, 171u, 
+	176u, 184u, 144u, 173u, 176u, 180u, 128u, 169u, 
+	176u, 191u, 128u, 137u, 128u, 155u, 128u, 179u, 
+	181u, 191u, 128u, 131u, 133u, 139u, 128u, 169u, 
+	174u, 175u, 128u, 181u, 141u, 143u, 154u, 189u, 
+	128u, 149u, 152u, 157u, 160u, 191u, 153u, 155u, 
+	157u, 128u, 133u, 136u, 141u, 144u, 151u, 159u, 
+	189u, 190u, 128u, 180u, 182u, 188u, 130u, 132u, 
+	134u, 140u, 144u, 147u, 150u, 155u, 160u, 172u, 
+	178u, 180u, 182u, 188u, 129u, 130u, 132u, 133u, 
+	134u, 146u, 147u, 176u, 177u, 178u, 179u, 180u, 
+	181u, 182u, 183u, 184u, 177u, 191u, 144u, 148u, 
+	130u, 135u, 149u, 164u, 166u, 168u, 138u, 147u, 
+	153u, 157u, 170u, 173u, 175u, 185u, 188u, 191u, 
+	142u, 133u, 137u, 160u, 191u, 128u, 136u, 182u, 
+	191u, 128u, 169u, 128u, 174u, 176u, 191u, 128u, 
+	158u, 160u, 175u, 177u, 189u, 128u, 164u, 128u, 
+	165u, 176u, 191u, 175u, 128u, 165u, 128u, 150u, 
+	160u, 166u, 168u, 174u, 176u, 182u, 184u, 190u, 
+	128u, 134u, 136u, 142u, 144u, 150u, 152u, 158u, 
+	160u, 191u, 175u, 128u, 129u, 130u, 131u, 132u, 
+	133u, 134u, 135u, 144u, 191u, 133u, 135u, 161u, 
+	169u, 177u, 181u, 184u, 188u, 128u, 150u, 157u, 
+	159u, 161u, 191u, 128u, 186u, 188u, 191u, 133u, 
+	173u, 177u, 191u, 128u, 142u, 160u, 183u, 176u, 
+	191u, 182u, 128u, 181u, 184u, 191u, 128u, 191u, 
+	191u, 128u, 190u, 128u, 131u, 146u, 152u, 153u, 
+	154u, 156u, 158u, 159u, 160u, 161u, 163u, 164u, 
+	165u, 168u, 169u, 128u, 145u, 148u, 151u, 157u, 
+	162u, 176u, 191u, 128u, 140u, 128u, 140u, 144u, 
+	159u, 170u, 171u, 191u, 128u, 159u, 162u, 174u, 
+	128u, 151u, 151u, 159u, 162u, 191u, 128u, 136u, 
+	139u, 140u, 187u, 191u, 128u, 129u, 131u, 133u, 
+	135u, 138u, 140u, 167u, 128u, 179u, 138u, 170u, 
+	176u, 191u, 128u, 146u, 128u, 182u, 128u, 141u, 
+	158u, 128u, 157u, 128u, 163u, 168u, 169u, 171u, 
+	172u, 173u, 174u, 175u, 180u, 181u, 182u, 183u, 
+	185u, 186u, 187u, 188u, 189u, 190u, 191u, 164u, 
+	179u, 128u, 173u, 176u, 191u, 128u, 170u, 176u, 
+	191u, 128u, 153u, 190u, 128u, 134u, 147u, 151u, 
+	157u, 168u, 170u, 182u, 184u, 188u, 128u, 129u, 
+	131u, 132u, 134u, 191u, 147u, 191u, 128u, 189u, 
+	128u, 143u, 146u, 191u, 128u, 135u, 176u, 187u, 
+	176u, 180u, 182u, 191u, 128u, 188u, 161u, 186u, 
+	129u, 154u, 166u, 191u, 128u, 190u, 130u, 135u, 
+	138u, 143u, 146u, 151u, 154u, 156u, 144u, 146u, 
+	157u, 170u, 175u, 160u, 169u, 128u, 129u, 130u, 
+	131u, 133u, 138u, 139u, 140u, 141u, 142u, 143u, 
+	146u, 160u, 164u, 168u, 144u, 145u, 191u, 128u, 
+	139u, 141u, 166u, 168u, 186u, 188u, 189u, 128u, 
+	141u, 144u, 157u, 128u, 186u, 128u, 156u, 160u, 
+	191u, 128u, 144u, 128u, 158u, 176u, 191u, 128u, 
+	138u, 128u, 157u, 160u, 191u, 128u, 131u, 136u, 
+	143u, 145u, 149u, 128u, 157u, 136u, 188u, 191u, 
 	128u, 133u, 138u, 181u, 183u, 184u, 128u, 149u, 
 	160u, 185u, 128u, 131u, 133u, 134u, 140u, 147u, 
-	149u, 151u, 153u, 179u, 128u, 141u, 144u, 145u, 
-	129u, 140u, 175u, 255u, 163u, 255u, 144u, 145u, 
-	146u, 147u, 148u, 149u, 154u, 155u, 156u, 157u, 
-	158u, 159u, 150u, 153u, 149u, 157u, 173u, 186u, 
-	188u, 160u, 161u, 163u, 164u, 167u, 168u, 132u, 
-	134u, 149u, 157u, 186u, 139u, 140u, 191u, 255u, 
-	134u, 128u, 132u, 138u, 144u, 146u, 255u, 166u, 
-	167u, 129u, 155u, 187u, 149u, 181u, 143u, 175u, 
-	137u, 169u, 131u, 140u, 255u, 128u, 129u, 255u, 
-	155u, 156u, 255u, 151u, 255u, 160u, 168u, 161u, 
-	167u, 33u, 45u, 47u, 61u, 63u, 98u, 99u, 
-	101u, 103u, 105u, 109u, 110u, 111u, 194u, 195u, 
-	198u, 199u, 203u, 205u, 206u, 207u, 210u, 212u, 
-	213u, 214u, 215u, 216u, 217u, 219u, 220u, 221u, 
-	222u, 223u, 224u, 225u, 226u, 227u, 228u, 233u, 
-	234u, 237u, 239u, 240u, 35u, 39u, 42u, 43u, 
-	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
-	123u, 126u, 196u, 202u, 208u, 218u, 229u, 236u, 
-	170u, 181u, 186u, 194u, 195u, 198u, 199u, 203u, 
-	205u, 206u, 207u, 210u, 212u, 213u, 214u, 215u, 
-	216u, 217u, 219u, 220u, 221u, 222u, 223u, 224u, 
-	225u, 226u, 227u, 228u, 233u, 234u, 237u, 239u, 
-	240u, 65u, 90u, 97u, 122u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 128u, 150u, 152u, 182u, 184u, 
-	255u, 192u, 255u, 128u, 255u, 173u, 130u, 133u, 
-	146u, 159u, 165u, 171u, 175u, 255u, 133u, 176u, 
-	180u, 182u, 183u, 186u, 189u, 134u, 140u, 136u, 
-	138u, 142u, 161u, 163u, 255u, 182u, 130u, 137u, 
-	164u, 176u, 151u, 152u, 154u, 160u, 190u, 136u, 
-	175u, 192u, 255u, 135u, 129u, 130u, 132u, 133u, 
-	144u, 170u, 176u, 178u, 144u, 154u, 161u, 191u, 
-	128u, 151u, 153u, 158u, 174u, 255u, 148u, 157u, 
-	160u, 169u, 172u, 176u, 185u, 189u, 190u, 192u, 
-	255u, 144u, 191u, 141u, 255u, 178u, 255u, 186u, 
-	138u, 170u, 180u, 181u, 164u, 165u, 166u, 167u, 
-	168u, 169u, 170u, 171u, 172u, 173u, 174u, 175u, 
-	176u, 177u, 178u, 179u, 180u, 181u, 182u, 183u, 
-	184u, 185u, 186u, 187u, 188u, 189u, 190u, 129u, 
-	185u, 189u, 255u, 141u, 143u, 145u, 151u, 164u, 
-	176u, 179u, 186u, 192u, 255u, 178u, 129u, 131u, 
+	149u, 151u, 153u, 179u, 141u, 144u, 145u, 128u, 
+	140u, 128u, 174u, 128u, 162u, 145u, 146u, 147u, 
+	148u, 149u, 154u, 155u, 156u, 157u, 158u, 159u, 
+	144u, 153u, 128u, 148u, 150u, 191u, 162u, 187u, 
+	128u, 156u, 158u, 159u, 165u, 166u, 169u, 172u, 
+	174u, 185u, 189u, 191u, 128u, 131u, 133u, 191u, 
+	128u, 133u, 135u, 138u, 141u, 148u, 150u, 156u, 
+	158u, 185u, 187u, 190u, 134u, 128u, 132u, 138u, 
+	144u, 146u, 191u, 128u, 165u, 168u, 191u, 128u, 
+	130u, 154u, 156u, 186u, 188u, 191u, 128u, 148u, 
+	150u, 180u, 182u, 191u, 128u, 142u, 144u, 174u, 
+	176u, 191u, 128u, 136u, 138u, 168u, 170u, 191u, 
+	128u, 130u, 132u, 139u, 155u, 128u, 154u, 128u, 
+	150u, 168u, 160u, 167u, 170u, 181u, 186u, 128u, 
+	150u, 152u, 182u, 184u, 191u, 128u, 191u, 172u, 
+	174u, 128u, 129u, 134u, 145u, 160u, 164u, 133u, 
+	176u, 180u, 182u, 183u, 186u, 189u, 134u, 140u, 
+	136u, 138u, 142u, 161u, 163u, 191u, 128u, 181u, 
+	183u, 191u, 128u, 129u, 138u, 191u, 128u, 163u, 
+	177u, 191u, 153u, 128u, 150u, 161u, 191u, 191u, 
+	128u, 135u, 176u, 189u, 135u, 129u, 130u, 132u, 
+	133u, 144u, 170u, 176u, 178u, 144u, 154u, 161u, 
+	191u, 128u, 151u, 153u, 158u, 174u, 191u, 191u, 
+	128u, 147u, 149u, 156u, 161u, 168u, 173u, 175u, 
+	186u, 188u, 144u, 191u, 141u, 191u, 128u, 177u, 
+	186u, 138u, 170u, 180u, 181u, 164u, 165u, 166u, 
+	167u, 168u, 169u, 170u, 171u, 172u, 173u, 174u, 
+	175u, 176u, 177u, 178u, 179u, 180u, 181u, 182u, 
+	183u, 184u, 185u, 186u, 187u, 188u, 189u, 190u, 
+	129u, 185u, 189u, 191u, 144u, 128u, 140u, 152u, 
+	163u, 177u, 178u, 187u, 191u, 178u, 129u, 131u, 
 	133u, 140u, 143u, 144u, 147u, 168u, 170u, 176u, 
-	182u, 185u, 189u, 255u, 141u, 158u, 133u, 134u, 
-	137u, 138u, 143u, 150u, 152u, 155u, 164u, 175u, 
-	178u, 255u, 129u, 131u, 133u, 138u, 143u, 144u, 
+	182u, 185u, 189u, 191u, 142u, 151u, 128u, 132u, 
+	135u, 136u, 139u, 140u, 156u, 157u, 159u, 163u, 
+	176u, 177u, 129u, 131u, 133u, 138u, 143u, 144u, 
 	147u, 168u, 170u, 176u, 178u, 179u, 181u, 182u, 
-	184u, 185u, 190u, 255u, 157u, 131u, 134u, 137u, 
-	138u, 141u, 144u, 146u, 152u, 159u, 175u, 182u, 
-	255u, 129u, 131u, 133u, 141u, 143u, 145u, 147u, 
-	168u, 170u, 176u, 178u, 179u, 181u, 185u, 189u, 
-	255u, 134u, 138u, 141u, 143u, 145u, 159u, 164u, 
-	255u, 129u, 131u, 133u, 140u, 143u, 144u, 147u, 
+	184u, 185u, 190u, 191u, 145u, 158u, 128u, 130u, 
+	135u, 136u, 139u, 140u, 153u, 156u, 176u, 181u, 
+	129u, 131u, 133u, 141u, 143u, 145u, 147u, 168u, 
+	170u, 176u, 178u, 179u, 181u, 185u, 189u, 191u, 
+	144u, 128u, 133u, 135u, 137u, 139u, 140u, 160u, 
+	163u, 129u, 131u, 133u, 140u, 143u, 144u, 147u, 
 	168u, 170u, 176u, 178u, 179u, 181u, 185u, 189u, 
 	191u, 177u, 128u, 132u, 135u, 136u, 139u, 140u, 
 	150u, 151u, 156u, 157u, 159u, 163u, 156u, 130u, 
@@ -744,267 +604,151 @@ static const unsigned char _StdTok_trans_keys[] = {
 	185u, 190u, 191u, 144u, 151u, 128u, 130u, 134u, 
 	136u, 138u, 140u, 129u, 131u, 133u, 140u, 142u, 
 	144u, 146u, 168u, 170u, 179u, 181u, 185u, 189u, 
-	255u, 133u, 137u, 151u, 141u, 148u, 154u, 159u, 
-	164u, 255u, 130u, 131u, 133u, 140u, 142u, 144u, 
-	146u, 168u, 170u, 179u, 181u, 185u, 189u, 191u, 
-	158u, 128u, 132u, 134u, 136u, 138u, 140u, 149u, 
-	150u, 160u, 163u, 130u, 131u, 133u, 140u, 142u, 
-	144u, 146u, 168u, 170u, 185u, 189u, 255u, 133u, 
-	137u, 141u, 150u, 152u, 159u, 164u, 185u, 192u, 
-	255u, 189u, 130u, 131u, 133u, 150u, 154u, 177u, 
-	179u, 187u, 150u, 128u, 134u, 143u, 148u, 152u, 
-	159u, 178u, 179u, 129u, 186u, 141u, 128u, 134u, 
-	132u, 138u, 141u, 165u, 167u, 129u, 130u, 135u, 
-	136u, 148u, 151u, 153u, 159u, 161u, 163u, 170u, 
-	171u, 173u, 185u, 187u, 189u, 134u, 141u, 128u, 
-	132u, 156u, 157u, 128u, 128u, 135u, 137u, 172u, 
-	177u, 191u, 128u, 129u, 136u, 139u, 144u, 151u, 
-	153u, 188u, 128u, 129u, 130u, 131u, 133u, 134u, 
-	135u, 137u, 138u, 139u, 140u, 141u, 142u, 143u, 
-	144u, 153u, 154u, 155u, 156u, 157u, 158u, 159u, 
-	160u, 161u, 162u, 164u, 165u, 166u, 167u, 168u, 
-	172u, 173u, 174u, 176u, 177u, 180u, 181u, 182u, 
-	184u, 188u, 189u, 190u, 191u, 132u, 136u, 145u, 
-	152u, 185u, 187u, 184u, 128u, 182u, 187u, 191u, 
-	144u, 162u, 165u, 168u, 174u, 255u, 135u, 141u, 
-	143u, 159u, 187u, 134u, 143u, 189u, 255u, 154u, 
-	158u, 163u, 167u, 186u, 255u, 137u, 151u, 153u, 
-	142u, 143u, 158u, 159u, 137u, 177u, 142u, 143u, 
-	182u, 183u, 191u, 255u, 128u, 130u, 133u, 136u, 
-	150u, 152u, 255u, 145u, 150u, 151u, 155u, 158u, 
-	160u, 255u, 128u, 143u, 160u, 255u, 181u, 255u, 
-	129u, 255u, 173u, 174u, 183u, 255u, 129u, 154u, 
-	160u, 255u, 171u, 173u, 177u, 255u, 128u, 140u, 
-	142u, 147u, 160u, 179u, 128u, 147u, 160u, 172u, 
-	174u, 176u, 178u, 179u, 128u, 179u, 182u, 255u, 
-	137u, 150u, 152u, 155u, 157u, 255u, 160u, 255u, 
-	184u, 255u, 128u, 170u, 128u, 156u, 160u, 171u, 
-	176u, 184u, 144u, 173u, 176u, 180u, 128u, 169u, 
-	176u, 255u, 138u, 255u, 128u, 155u, 128u, 179u, 
-	181u, 255u, 132u, 140u, 255u, 128u, 169u, 174u, 
-	175u, 128u, 181u, 141u, 143u, 154u, 189u, 150u, 
-	151u, 158u, 159u, 152u, 154u, 156u, 158u, 134u, 
-	135u, 142u, 143u, 190u, 255u, 190u, 128u, 180u, 
-	182u, 188u, 130u, 132u, 134u, 140u, 144u, 147u, 
-	150u, 155u, 160u, 172u, 178u, 180u, 182u, 188u, 
-	129u, 130u, 132u, 133u, 134u, 146u, 147u, 176u, 
-	177u, 178u, 179u, 180u, 181u, 182u, 183u, 184u, 
-	177u, 191u, 144u, 148u, 130u, 135u, 149u, 164u, 
-	166u, 168u, 138u, 147u, 153u, 157u, 170u, 173u, 
-	175u, 185u, 188u, 191u, 142u, 133u, 137u, 160u, 
-	255u, 137u, 255u, 182u, 255u, 170u, 255u, 128u, 
-	174u, 176u, 255u, 159u, 176u, 190u, 255u, 165u, 
-	255u, 128u, 165u, 176u, 255u, 166u, 174u, 176u, 
-	255u, 128u, 150u, 160u, 166u, 168u, 174u, 176u, 
-	182u, 184u, 190u, 128u, 134u, 136u, 142u, 144u, 
-	150u, 152u, 158u, 160u, 191u, 175u, 128u, 129u, 
-	130u, 131u, 132u, 133u, 134u, 135u, 144u, 145u, 
-	255u, 133u, 135u, 161u, 169u, 177u, 181u, 184u, 
-	188u, 160u, 151u, 156u, 187u, 192u, 255u, 133u, 
-	173u, 177u, 255u, 143u, 159u, 184u, 255u, 176u, 
-	191u, 182u, 183u, 184u, 182u, 255u, 191u, 192u, 
-	255u, 132u, 255u, 128u, 146u, 148u, 152u, 153u, 
-	154u, 156u, 157u, 158u, 159u, 160u, 161u, 162u, 
-	163u, 164u, 165u, 168u, 169u, 176u, 129u, 145u, 
-	149u, 151u, 177u, 255u, 141u, 255u, 141u, 143u, 
-	160u, 169u, 172u, 255u, 191u, 128u, 159u, 162u, 
-	174u, 128u, 151u, 151u, 159u, 162u, 255u, 137u, 
-	138u, 141u, 255u, 187u, 255u, 130u, 134u, 139u, 
-	168u, 255u, 128u, 179u, 138u, 170u, 176u, 255u, 
-	147u, 255u, 128u, 182u, 128u, 141u, 158u, 159u, 
-	255u, 164u, 255u, 164u, 168u, 169u, 171u, 172u, 
-	173u, 174u, 175u, 180u, 181u, 182u, 183u, 185u, 
-	186u, 187u, 188u, 189u, 190u, 191u, 165u, 179u, 
-	174u, 175u, 171u, 175u, 154u, 255u, 190u, 128u, 
-	134u, 147u, 151u, 157u, 168u, 170u, 182u, 184u, 
-	188u, 128u, 129u, 131u, 132u, 134u, 255u, 147u, 
-	255u, 190u, 255u, 144u, 255u, 144u, 145u, 136u, 
-	175u, 188u, 255u, 176u, 180u, 182u, 255u, 189u, 
-	255u, 161u, 186u, 129u, 154u, 166u, 255u, 191u, 
-	255u, 130u, 135u, 138u, 143u, 146u, 151u, 154u, 
-	156u, 144u, 146u, 157u, 160u, 170u, 175u, 161u, 
-	169u, 128u, 129u, 130u, 131u, 133u, 138u, 139u, 
-	140u, 141u, 142u, 143u, 144u, 145u, 146u, 160u, 
-	164u, 168u, 128u, 139u, 141u, 166u, 168u, 186u, 
-	188u, 189u, 191u, 255u, 142u, 143u, 158u, 255u, 
-	187u, 255u, 128u, 180u, 128u, 156u, 160u, 255u, 
-	145u, 255u, 128u, 158u, 176u, 255u, 139u, 255u, 
-	128u, 157u, 160u, 255u, 144u, 132u, 135u, 150u, 
-	255u, 158u, 255u, 136u, 188u, 191u, 128u, 133u, 
-	138u, 181u, 183u, 184u, 128u, 149u, 160u, 185u, 
-	128u, 131u, 133u, 134u, 140u, 147u, 149u, 151u, 
-	153u, 179u, 128u, 141u, 144u, 145u, 129u, 140u, 
-	175u, 255u, 163u, 255u, 144u, 145u, 146u, 147u, 
-	148u, 149u, 154u, 155u, 156u, 157u, 158u, 159u, 
-	150u, 153u, 149u, 157u, 173u, 186u, 188u, 160u, 
-	161u, 163u, 164u, 167u, 168u, 132u, 134u, 149u, 
-	157u, 186u, 139u, 140u, 191u, 255u, 134u, 128u, 
-	132u, 138u, 144u, 146u, 255u, 166u, 167u, 129u, 
-	155u, 187u, 149u, 181u, 143u, 175u, 137u, 169u, 
-	131u, 140u, 255u, 128u, 129u, 255u, 155u, 156u, 
-	255u, 151u, 255u, 160u, 168u, 161u, 167u, 170u, 
-	181u, 186u, 128u, 150u, 152u, 182u, 184u, 255u, 
-	192u, 255u, 128u, 255u, 173u, 130u, 133u, 146u, 
-	159u, 165u, 171u, 175u, 255u, 133u, 176u, 180u, 
-	182u, 183u, 186u, 189u, 134u, 140u, 136u, 138u, 
-	142u, 161u, 163u, 255u, 182u, 130u, 137u, 164u, 
-	176u, 151u, 152u, 154u, 160u, 190u, 136u, 175u, 
-	192u, 255u, 135u, 129u, 130u, 132u, 133u, 144u, 
-	170u, 176u, 178u, 144u, 154u, 161u, 191u, 128u, 
-	151u, 153u, 158u, 174u, 255u, 148u, 157u, 160u, 
-	169u, 172u, 176u, 185u, 189u, 190u, 192u, 255u, 
-	144u, 191u, 141u, 255u, 178u, 255u, 186u, 138u, 
-	170u, 180u, 181u, 164u, 165u, 166u, 167u, 168u, 
-	169u, 170u, 171u, 172u, 173u, 174u, 175u, 176u, 
-	177u, 178u, 179u, 180u, 181u, 182u, 183u, 184u, 
-	185u, 186u, 187u, 188u, 189u, 190u, 129u, 185u, 
-	189u, 255u, 141u, 143u, 145u, 151u, 164u, 176u, 
-	179u, 186u, 192u, 255u, 178u, 129u, 131u, 133u, 
-	140u, 143u, 144u, 147u, 168u, 170u, 176u, 182u, 
-	185u, 189u, 255u, 141u, 158u, 133u, 134u, 137u, 
-	138u, 143u, 150u, 152u, 155u, 164u, 175u, 178u, 
-	255u, 129u, 131u, 133u, 138u, 143u, 144u, 147u, 
-	168u, 170u, 176u, 178u, 179u, 181u, 182u, 184u, 
-	185u, 190u, 255u, 157u, 131u, 134u, 137u, 138u, 
-	141u, 144u, 146u, 152u, 159u, 175u, 182u, 255u, 
-	129u, 131u, 133u, 141u, 143u, 145u, 147u, 168u, 
-	170u, 176u, 178u, 179u, 181u, 185u, 189u, 255u, 
-	134u, 138u, 141u, 143u, 145u, 159u, 164u, 255u, 
-	129u, 131u, 133u, 140u, 143u, 144u, 147u, 168u, 
-	170u, 176u, 178u, 179u, 181u, 185u, 189u, 191u, 
-	177u, 128u, 132u, 135u, 136u, 139u, 140u, 150u, 
-	151u, 156u, 157u, 159u, 163u, 156u, 130u, 131u, 
-	133u, 138u, 142u, 144u, 146u, 149u, 153u, 154u, 
-	158u, 159u, 163u, 164u, 168u, 170u, 174u, 185u, 
-	190u, 191u, 144u, 151u, 128u, 130u, 134u, 136u, 
-	138u, 140u, 129u, 131u, 133u, 140u, 142u, 144u, 
-	146u, 168u, 170u, 179u, 181u, 185u, 189u, 255u, 
-	133u, 137u, 151u, 141u, 148u, 154u, 159u, 164u, 
-	255u, 130u, 131u, 133u, 140u, 142u, 144u, 146u, 
-	168u, 170u, 179u, 181u, 185u, 189u, 191u, 158u, 
-	128u, 132u, 134u, 136u, 138u, 140u, 149u, 150u, 
-	160u, 163u, 130u, 131u, 133u, 140u, 142u, 144u, 
-	146u, 168u, 170u, 185u, 189u, 255u, 133u, 137u, 
-	141u, 150u, 152u, 159u, 164u, 185u, 192u, 255u, 
-	189u, 130u, 131u, 133u, 150u, 154u, 177u, 179u, 
-	187u, 150u, 128u, 134u, 143u, 148u, 152u, 159u, 
-	178u, 179u, 129u, 186u, 141u, 128u, 134u, 132u, 
-	138u, 141u, 165u, 167u, 129u, 130u, 135u, 136u, 
-	148u, 151u, 153u, 159u, 161u, 163u, 170u, 171u, 
-	173u, 185u, 187u, 189u, 134u, 141u, 128u, 132u, 
-	156u, 157u, 128u, 128u, 135u, 137u, 172u, 177u, 
-	191u, 128u, 129u, 136u, 139u, 144u, 151u, 153u, 
-	188u, 128u, 129u, 130u, 131u, 133u, 134u, 135u, 
-	137u, 138u, 139u, 140u, 141u, 142u, 143u, 144u, 
-	153u, 154u, 155u, 156u, 157u, 158u, 159u, 160u, 
-	161u, 162u, 164u, 165u, 166u, 167u, 168u, 172u, 
-	173u, 174u, 176u, 177u, 180u, 181u, 182u, 184u, 
-	188u, 189u, 190u, 191u, 132u, 136u, 145u, 152u, 
-	185u, 187u, 184u, 128u, 182u, 187u, 191u, 144u, 
-	162u, 165u, 168u, 174u, 255u, 135u, 141u, 143u, 
-	159u, 187u, 134u, 143u, 189u, 255u, 154u, 158u, 
-	163u, 167u, 186u, 255u, 137u, 151u, 153u, 142u, 
-	143u, 158u, 159u, 137u, 177u, 142u, 143u, 182u, 
-	183u, 191u, 255u, 128u, 130u, 133u, 136u, 150u, 
-	152u, 255u, 145u, 150u, 151u, 155u, 158u, 160u, 
-	255u, 128u, 143u, 160u, 255u, 181u, 255u, 129u, 
-	255u, 173u, 174u, 183u, 255u, 129u, 154u, 160u, 
-	255u, 171u, 173u, 177u, 255u, 128u, 140u, 142u, 
-	147u, 160u, 179u, 128u, 147u, 160u, 172u, 174u, 
-	176u, 178u, 179u, 128u, 179u, 182u, 255u, 137u, 
-	150u, 152u, 155u, 157u, 255u, 160u, 255u, 184u, 
-	255u, 128u, 170u, 128u, 156u, 160u, 171u, 176u, 
-	184u, 144u, 173u, 176u, 180u, 128u, 169u, 176u, 
-	255u, 138u, 255u, 128u, 155u, 128u, 179u, 181u, 
-	255u, 132u, 140u, 255u, 128u, 169u, 174u, 175u, 
-	128u, 181u, 141u, 143u, 154u, 189u, 150u, 151u, 
-	158u, 159u, 152u, 154u, 156u, 158u, 134u, 135u, 
-	142u, 143u, 190u, 255u, 190u, 128u, 180u, 182u, 
+	191u, 128u, 132u, 134u, 136u, 138u, 140u, 149u, 
+	150u, 152u, 153u, 160u, 163u, 130u, 131u, 133u, 
+	140u, 142u, 144u, 146u, 168u, 170u, 179u, 181u, 
+	185u, 189u, 191u, 158u, 128u, 132u, 134u, 136u, 
+	138u, 140u, 149u, 150u, 160u, 163u, 130u, 131u, 
+	133u, 140u, 142u, 144u, 146u, 168u, 170u, 185u, 
+	189u, 191u, 151u, 128u, 132u, 134u, 136u, 138u, 
+	140u, 160u, 163u, 186u, 191u, 189u, 130u, 131u, 
+	133u, 150u, 154u, 177u, 179u, 187u, 150u, 128u, 
+	134u, 143u, 148u, 152u, 159u, 178u, 179u, 129u, 
+	186u, 141u, 128u, 134u, 132u, 138u, 141u, 165u, 
+	167u, 129u, 130u, 135u, 136u, 148u, 151u, 153u, 
+	159u, 161u, 163u, 170u, 171u, 173u, 185u, 187u, 
+	189u, 134u, 141u, 128u, 132u, 156u, 157u, 128u, 
+	128u, 135u, 137u, 172u, 177u, 191u, 128u, 129u, 
+	136u, 139u, 144u, 151u, 153u, 188u, 128u, 129u, 
+	130u, 131u, 133u, 134u, 135u, 137u, 138u, 139u, 
+	140u, 141u, 142u, 143u, 144u, 153u, 154u, 155u, 
+	156u, 157u, 158u, 159u, 160u, 161u, 162u, 164u, 
+	165u, 166u, 167u, 168u, 172u, 173u, 174u, 176u, 
+	177u, 188u, 189u, 190u, 191u, 132u, 152u, 180u, 
+	182u, 184u, 187u, 184u, 128u, 182u, 187u, 191u, 
+	144u, 162u, 165u, 168u, 174u, 191u, 142u, 128u, 
+	134u, 160u, 191u, 188u, 128u, 133u, 144u, 186u, 
+	128u, 153u, 159u, 191u, 128u, 162u, 168u, 191u, 
+	128u, 185u, 152u, 128u, 136u, 138u, 141u, 144u, 
+	150u, 154u, 157u, 160u, 191u, 128u, 136u, 138u, 
+	141u, 144u, 176u, 178u, 181u, 184u, 190u, 128u, 
+	130u, 133u, 136u, 150u, 152u, 191u, 128u, 144u, 
+	146u, 149u, 152u, 191u, 159u, 128u, 154u, 128u, 
+	143u, 160u, 191u, 128u, 180u, 129u, 191u, 128u, 
+	172u, 175u, 182u, 129u, 154u, 160u, 191u, 128u, 
+	170u, 174u, 176u, 128u, 140u, 142u, 147u, 160u, 
+	179u, 128u, 147u, 160u, 172u, 174u, 176u, 178u, 
+	179u, 128u, 179u, 182u, 191u, 151u, 156u, 128u, 
+	136u, 160u, 191u, 128u, 183u, 128u, 170u, 128u, 
+	156u, 160u, 171u, 176u, 184u, 144u, 173u, 176u, 
+	180u, 128u, 169u, 176u, 191u, 128u, 137u, 128u, 
+	155u, 128u, 179u, 181u, 191u, 128u, 131u, 133u, 
+	139u, 128u, 169u, 174u, 175u, 128u, 181u, 141u, 
+	143u, 154u, 189u, 128u, 149u, 152u, 157u, 160u, 
+	191u, 153u, 155u, 157u, 128u, 133u, 136u, 141u, 
+	144u, 151u, 159u, 189u, 190u, 128u, 180u, 182u, 
 	188u, 130u, 132u, 134u, 140u, 144u, 147u, 150u, 
 	155u, 160u, 172u, 178u, 180u, 182u, 188u, 129u, 
 	130u, 132u, 133u, 134u, 146u, 147u, 176u, 177u, 
 	178u, 179u, 180u, 181u, 182u, 183u, 184u, 177u, 
 	191u, 144u, 148u, 130u, 135u, 149u, 164u, 166u, 
 	168u, 138u, 147u, 153u, 157u, 170u, 173u, 175u, 
-	185u, 188u, 191u, 142u, 133u, 137u, 160u, 255u, 
-	137u, 255u, 182u, 255u, 170u, 255u, 128u, 174u, 
-	176u, 255u, 159u, 176u, 190u, 255u, 165u, 255u, 
-	128u, 165u, 176u, 255u, 166u, 174u, 176u, 255u, 
-	128u, 150u, 160u, 166u, 168u, 174u, 176u, 182u, 
-	184u, 190u, 128u, 134u, 136u, 142u, 144u, 150u, 
-	152u, 158u, 160u, 191u, 175u, 128u, 129u, 130u, 
-	131u, 132u, 133u, 134u, 135u, 144u, 145u, 255u, 
+	185u, 188u, 191u, 142u, 133u, 137u, 160u, 191u, 
+	128u, 136u, 182u, 191u, 128u, 169u, 128u, 174u, 
+	176u, 191u, 128u, 158u, 160u, 175u, 177u, 189u, 
+	128u, 164u, 128u, 165u, 176u, 191u, 175u, 128u, 
+	165u, 128u, 150u, 160u, 166u, 168u, 174u, 176u, 
+	182u, 184u, 190u, 128u, 134u, 136u, 142u, 144u, 
+	150u, 152u, 158u, 160u, 191u, 175u, 128u, 129u, 
+	130u, 131u, 132u, 133u, 134u, 135u, 144u, 191u, 
 	133u, 135u, 161u, 169u, 177u, 181u, 184u, 188u, 
-	160u, 151u, 156u, 187u, 192u, 255u, 133u, 173u, 
-	177u, 255u, 143u, 159u, 184u, 255u, 176u, 191u, 
-	182u, 183u, 184u, 182u, 255u, 191u, 192u, 255u, 
-	132u, 255u, 128u, 146u, 148u, 152u, 153u, 154u, 
-	156u, 157u, 158u, 159u, 160u, 161u, 162u, 163u, 
-	164u, 165u, 168u, 169u, 176u, 129u, 145u, 149u, 
-	151u, 177u, 255u, 141u, 255u, 141u, 143u, 160u, 
-	169u, 172u, 255u, 191u, 128u, 159u, 162u, 174u, 
-	128u, 151u, 151u, 159u, 162u, 255u, 137u, 138u, 
-	141u, 255u, 187u, 255u, 130u, 134u, 139u, 168u, 
-	255u, 128u, 179u, 138u, 170u, 176u, 255u, 147u, 
-	255u, 128u, 182u, 128u, 141u, 158u, 159u, 255u, 
-	164u, 255u, 164u, 168u, 169u, 171u, 172u, 173u, 
-	174u, 175u, 180u, 181u, 182u, 183u, 185u, 186u, 
-	187u, 188u, 189u, 190u, 191u, 165u, 179u, 174u, 
-	175u, 171u, 175u, 154u, 255u, 190u, 128u, 134u, 
-	147u, 151u, 157u, 168u, 170u, 182u, 184u, 188u, 
-	128u, 129u, 131u, 132u, 134u, 255u, 147u, 255u, 
-	190u, 255u, 144u, 255u, 144u, 145u, 136u, 175u, 
-	188u, 255u, 176u, 180u, 182u, 255u, 189u, 255u, 
-	161u, 186u, 129u, 154u, 166u, 255u, 191u, 255u, 
-	130u, 135u, 138u, 143u, 146u, 151u, 154u, 156u, 
-	144u, 146u, 157u, 160u, 170u, 175u, 161u, 169u, 
+	128u, 150u, 157u, 159u, 161u, 191u, 128u, 186u, 
+	188u, 191u, 133u, 173u, 177u, 191u, 128u, 142u, 
+	160u, 183u, 176u, 191u, 182u, 128u, 181u, 184u, 
+	191u, 128u, 191u, 191u, 128u, 190u, 128u, 131u, 
+	146u, 152u, 153u, 154u, 156u, 158u, 159u, 160u, 
+	161u, 163u, 164u, 165u, 168u, 169u, 128u, 145u, 
+	148u, 151u, 157u, 162u, 176u, 191u, 128u, 140u, 
+	128u, 140u, 144u, 159u, 170u, 171u, 191u, 128u, 
+	159u, 162u, 174u, 128u, 151u, 151u, 159u, 162u, 
+	191u, 128u, 136u, 139u, 140u, 187u, 191u, 128u, 
+	129u, 131u, 133u, 135u, 138u, 140u, 167u, 128u, 
+	179u, 138u, 170u, 176u, 191u, 128u, 146u, 128u, 
+	182u, 128u, 141u, 158u, 128u, 157u, 128u, 163u, 
+	168u, 169u, 171u, 172u, 173u, 174u, 175u, 180u, 
+	181u, 182u, 183u, 185u, 186u, 187u, 188u, 189u, 
+	190u, 191u, 164u, 179u, 128u, 173u, 176u, 191u, 
+	128u, 170u, 176u, 191u, 128u, 153u, 190u, 128u, 
+	134u, 147u, 151u, 157u, 168u, 170u, 182u, 184u, 
+	188u, 128u, 129u, 131u, 132u, 134u, 191u, 147u, 
+	191u, 128u, 189u, 128u, 143u, 146u, 191u, 128u, 
+	135u, 176u, 187u, 176u, 180u, 182u, 191u, 128u, 
+	188u, 161u, 186u, 129u, 154u, 166u, 191u, 128u, 
+	190u, 130u, 135u, 138u, 143u, 146u, 151u, 154u, 
+	156u, 144u, 146u, 157u, 170u, 175u, 160u, 169u, 
 	128u, 129u, 130u, 131u, 133u, 138u, 139u, 140u, 
-	141u, 142u, 143u, 144u, 145u, 146u, 160u, 164u, 
-	168u, 128u, 139u, 141u, 166u, 168u, 186u, 188u, 
-	189u, 191u, 255u, 142u, 143u, 158u, 255u, 187u, 
-	255u, 128u, 180u, 128u, 156u, 160u, 255u, 145u, 
-	255u, 128u, 158u, 176u, 255u, 139u, 255u, 128u, 
-	157u, 160u, 255u, 144u, 132u, 135u, 150u, 255u, 
-	158u, 255u, 136u, 188u, 191u, 128u, 133u, 138u, 
-	181u, 183u, 184u, 128u, 149u, 160u, 185u, 128u, 
-	131u, 133u, 134u, 140u, 147u, 149u, 151u, 153u, 
-	179u, 128u, 141u, 144u, 145u, 129u, 140u, 175u, 
-	255u, 163u, 255u, 144u, 145u, 146u, 147u, 148u, 
-	149u, 154u, 155u, 156u, 157u, 158u, 159u, 150u, 
-	153u, 149u, 157u, 173u, 186u, 188u, 160u, 161u, 
-	163u, 164u, 167u, 168u, 132u, 134u, 149u, 157u, 
-	186u, 139u, 140u, 191u, 255u, 134u, 128u, 132u, 
-	138u, 144u, 146u, 255u, 166u, 167u, 129u, 155u, 
-	187u, 149u, 181u, 143u, 175u, 137u, 169u, 131u, 
-	140u, 255u, 128u, 129u, 255u, 155u, 156u, 255u, 
-	151u, 255u, 160u, 168u, 161u, 167u, 170u, 181u, 
-	186u, 128u, 150u, 152u, 182u, 184u, 255u, 192u, 
-	255u, 0u, 127u, 173u, 130u, 133u, 146u, 159u, 
-	165u, 171u, 175u, 255u, 133u, 176u, 180u, 182u, 
-	183u, 186u, 189u, 134u, 140u, 136u, 138u, 142u, 
-	161u, 163u, 255u, 182u, 130u, 137u, 164u, 176u, 
-	151u, 152u, 154u, 160u, 190u, 136u, 175u, 192u, 
-	255u, 135u, 129u, 130u, 132u, 133u, 144u, 170u, 
-	176u, 178u, 144u, 154u, 161u, 191u, 128u, 151u, 
-	153u, 158u, 174u, 255u, 148u, 157u, 160u, 169u, 
-	172u, 176u, 185u, 189u, 190u, 192u, 255u, 144u, 
-	191u, 141u, 255u, 178u, 255u, 186u, 138u, 170u, 
-	180u, 181u, 164u, 165u, 166u, 167u, 168u, 169u, 
-	170u, 171u, 172u, 173u, 174u, 175u, 176u, 177u, 
-	178u, 179u, 180u, 181u, 182u, 183u, 184u, 185u, 
-	186u, 187u, 188u, 189u, 190u, 129u, 185u, 189u, 
-	255u, 141u, 143u, 145u, 151u, 164u, 176u, 179u, 
-	186u, 192u, 255u, 178u, 129u, 131u, 133u, 140u, 
+	141u, 142u, 143u, 146u, 160u, 164u, 168u, 144u, 
+	145u, 191u, 128u, 139u, 141u, 166u, 168u, 186u, 
+	188u, 189u, 128u, 141u, 144u, 157u, 128u, 186u, 
+	128u, 156u, 160u, 191u, 128u, 144u, 128u, 158u, 
+	176u, 191u, 128u, 138u, 128u, 157u, 160u, 191u, 
+	128u, 131u, 136u, 143u, 145u, 149u, 128u, 157u, 
+	136u, 188u, 191u, 128u, 133u, 138u, 181u, 183u, 
+	184u, 128u, 149u, 160u, 185u, 128u, 131u, 133u, 
+	134u, 140u, 147u, 149u, 151u, 153u, 179u, 141u, 
+	144u, 145u, 128u, 140u, 128u, 174u, 128u, 162u, 
+	145u, 146u, 147u, 148u, 149u, 154u, 155u, 156u, 
+	157u, 158u, 159u, 144u, 153u, 128u, 148u, 150u, 
+	191u, 162u, 187u, 128u, 156u, 158u, 159u, 165u, 
+	166u, 169u, 172u, 174u, 185u, 189u, 191u, 128u, 
+	131u, 133u, 191u, 128u, 133u, 135u, 138u, 141u, 
+	148u, 150u, 156u, 158u, 185u, 187u, 190u, 134u, 
+	128u, 132u, 138u, 144u, 146u, 191u, 128u, 165u, 
+	168u, 191u, 128u, 130u, 154u, 156u, 186u, 188u, 
+	191u, 128u, 148u, 150u, 180u, 182u, 191u, 128u, 
+	142u, 144u, 174u, 176u, 191u, 128u, 136u, 138u, 
+	168u, 170u, 191u, 128u, 130u, 132u, 139u, 155u, 
+	128u, 154u, 128u, 150u, 168u, 160u, 167u, 33u, 
+	45u, 47u, 61u, 63u, 98u, 99u, 101u, 103u, 
+	105u, 109u, 110u, 111u, 194u, 195u, 203u, 205u, 
+	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
+	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
+	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
+	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
+	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
+	208u, 218u, 229u, 236u, 170u, 181u, 186u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 65u, 90u, 97u, 122u, 196u, 
+	202u, 208u, 218u, 229u, 236u, 128u, 150u, 152u, 
+	182u, 184u, 191u, 128u, 191u, 172u, 174u, 128u, 
+	129u, 134u, 145u, 160u, 164u, 133u, 176u, 180u, 
+	182u, 183u, 186u, 189u, 134u, 140u, 136u, 138u, 
+	142u, 161u, 163u, 191u, 128u, 181u, 183u, 191u, 
+	128u, 129u, 138u, 191u, 128u, 163u, 177u, 191u, 
+	153u, 128u, 150u, 161u, 191u, 191u, 128u, 135u, 
+	176u, 189u, 135u, 129u, 130u, 132u, 133u, 144u, 
+	170u, 176u, 178u, 144u, 154u, 161u, 191u, 128u, 
+	151u, 153u, 158u, 174u, 191u, 191u, 128u, 147u, 
+	149u, 156u, 161u, 168u, 173u, 175u, 186u, 188u, 
+	144u, 191u, 141u, 191u, 128u, 177u, 186u, 138u, 
+	170u, 180u, 181u, 164u, 165u, 166u, 167u, 168u, 
+	169u, 170u, 171u, 172u, 173u, 174u, 175u, 176u, 
+	177u, 178u, 179u, 180u, 181u, 182u, 183u, 184u, 
+	185u, 186u, 187u, 188u, 189u, 190u, 129u, 185u, 
+	189u, 191u, 144u, 128u, 140u, 152u, 163u, 177u, 
+	178u, 187u, 191u, 178u, 129u, 131u, 133u, 140u, 
 	143u, 144u, 147u, 168u, 170u, 176u, 182u, 185u, 
-	189u, 255u, 141u, 158u, 133u, 134u, 137u, 138u, 
-	143u, 150u, 152u, 155u, 164u, 175u, 178u, 255u, 
+	189u, 191u, 142u, 151u, 128u, 132u, 135u, 136u, 
+	139u, 140u, 156u, 157u, 159u, 163u, 176u, 177u, 
 	129u, 131u, 133u, 138u, 143u, 144u, 147u, 168u, 
 	170u, 176u, 178u, 179u, 181u, 182u, 184u, 185u, 
-	190u, 255u, 157u, 131u, 134u, 137u, 138u, 141u, 
-	144u, 146u, 152u, 159u, 175u, 182u, 255u, 129u, 
-	131u, 133u, 141u, 143u, 145u, 147u, 168u, 170u, 
-	176u, 178u, 179u, 181u, 185u, 189u, 255u, 134u, 
-	138u, 141u, 143u, 145u, 159u, 164u, 255u, 129u, 
+	190u, 191u, 145u, 158u, 128u, 130u, 135u, 136u, 
+	139u, 140u, 153u, 156u, 176u, 181u, 129u, 131u, 
+	133u, 141u, 143u, 145u, 147u, 168u, 170u, 176u, 
+	178u, 179u, 181u, 185u, 189u, 191u, 144u, 128u, 
+	133u, 135u, 137u, 139u, 140u, 160u, 163u, 129u, 
 	131u, 133u, 140u, 143u, 144u, 147u, 168u, 170u, 
 	176u, 178u, 179u, 181u, 185u, 189u, 191u, 177u, 
 	128u, 132u, 135u, 136u, 139u, 140u, 150u, 151u, 
@@ -1013,120 +757,281 @@ static const unsigned char _StdTok_trans_keys[] = {
 	159u, 163u, 164u, 168u, 170u, 174u, 185u, 190u, 
 	191u, 144u, 151u, 128u, 130u, 134u, 136u, 138u, 
 	140u, 129u, 131u, 133u, 140u, 142u, 144u, 146u, 
-	168u, 170u, 179u, 181u, 185u, 189u, 255u, 133u, 
-	137u, 151u, 141u, 148u, 154u, 159u, 164u, 255u, 
-	130u, 131u, 133u, 140u, 142u, 144u, 146u, 168u, 
-	170u, 179u, 181u, 185u, 189u, 191u, 158u, 128u, 
-	132u, 134u, 136u, 138u, 140u, 149u, 150u, 160u, 
-	163u, 130u, 131u, 133u, 140u, 142u, 144u, 146u, 
-	168u, 170u, 185u, 189u, 255u, 133u, 137u, 141u, 
-	150u, 152u, 159u, 164u, 185u, 192u, 255u, 189u, 
-	130u, 131u, 133u, 150u, 154u, 177u, 179u, 187u, 
-	150u, 128u, 134u, 143u, 148u, 152u, 159u, 178u, 
-	179u, 129u, 186u, 141u, 128u, 134u, 132u, 138u, 
-	141u, 165u, 167u, 129u, 130u, 135u, 136u, 148u, 
-	151u, 153u, 159u, 161u, 163u, 170u, 171u, 173u, 
-	185u, 187u, 189u, 134u, 141u, 128u, 132u, 156u, 
-	157u, 128u, 128u, 135u, 137u, 172u, 177u, 191u, 
-	128u, 129u, 136u, 139u, 144u, 151u, 153u, 188u, 
-	128u, 129u, 130u, 131u, 133u, 134u, 135u, 137u, 
-	138u, 139u, 140u, 141u, 142u, 143u, 144u, 153u, 
-	154u, 155u, 156u, 157u, 158u, 159u, 160u, 161u, 
-	162u, 164u, 165u, 166u, 167u, 168u, 172u, 173u, 
-	174u, 176u, 177u, 180u, 181u, 182u, 184u, 188u, 
-	189u, 190u, 191u, 132u, 136u, 145u, 152u, 185u, 
+	168u, 170u, 179u, 181u, 185u, 189u, 191u, 128u, 
+	132u, 134u, 136u, 138u, 140u, 149u, 150u, 152u, 
+	153u, 160u, 163u, 130u, 131u, 133u, 140u, 142u, 
+	144u, 146u, 168u, 170u, 179u, 181u, 185u, 189u, 
+	191u, 158u, 128u, 132u, 134u, 136u, 138u, 140u, 
+	149u, 150u, 160u, 163u, 130u, 131u, 133u, 140u, 
+	142u, 144u, 146u, 168u, 170u, 185u, 189u, 191u, 
+	151u, 128u, 132u, 134u, 136u, 138u, 140u, 160u, 
+	163u, 186u, 191u, 189u, 130u, 131u, 133u, 150u, 
+	154u, 177u, 179u, 187u, 150u, 128u, 134u, 143u, 
+	148u, 152u, 159u, 178u, 179u, 129u, 186u, 141u, 
+	128u, 134u, 132u, 138u, 141u, 165u, 167u, 129u, 
+	130u, 135u, 136u, 148u, 151u, 153u, 159u, 161u, 
+	163u, 170u, 171u, 173u, 185u, 187u, 189u, 134u, 
+	141u, 128u, 132u, 156u, 157u, 128u, 128u, 135u, 
+	137u, 172u, 177u, 191u, 128u, 129u, 136u, 139u, 
+	144u, 151u, 153u, 188u, 128u, 129u, 130u, 131u, 
+	133u, 134u, 135u, 137u, 138u, 139u, 140u, 141u, 
+	142u, 143u, 144u, 153u, 154u, 155u, 156u, 157u, 
+	158u, 159u, 160u, 161u, 162u, 164u, 165u, 166u, 
+	167u, 168u, 172u, 173u, 174u, 176u, 177u, 188u, 
+	189u, 190u, 191u, 132u, 152u, 180u, 182u, 184u, 
 	187u, 184u, 128u, 182u, 187u, 191u, 144u, 162u, 
-	165u, 168u, 174u, 255u, 135u, 141u, 143u, 159u, 
-	187u, 134u, 143u, 189u, 255u, 154u, 158u, 163u, 
-	167u, 186u, 255u, 137u, 151u, 153u, 142u, 143u, 
-	158u, 159u, 137u, 177u, 142u, 143u, 182u, 183u, 
-	191u, 255u, 128u, 130u, 133u, 136u, 150u, 152u, 
-	255u, 145u, 150u, 151u, 155u, 158u, 160u, 255u, 
-	128u, 143u, 160u, 255u, 181u, 255u, 129u, 255u, 
-	173u, 174u, 183u, 255u, 129u, 154u, 160u, 255u, 
-	171u, 173u, 177u, 255u, 128u, 140u, 142u, 147u, 
-	160u, 179u, 128u, 147u, 160u, 172u, 174u, 176u, 
-	178u, 179u, 128u, 179u, 182u, 255u, 137u, 150u, 
-	152u, 155u, 157u, 255u, 160u, 255u, 184u, 255u, 
-	128u, 170u, 128u, 156u, 160u, 171u, 176u, 184u, 
-	144u, 173u, 176u, 180u, 128u, 169u, 176u, 255u, 
-	138u, 255u, 128u, 155u, 128u, 179u, 181u, 255u, 
-	132u, 140u, 255u, 128u, 169u, 174u, 175u, 128u, 
-	181u, 141u, 143u, 154u, 189u, 150u, 151u, 158u, 
-	159u, 152u, 154u, 156u, 158u, 134u, 135u, 142u, 
-	143u, 190u, 255u, 190u, 128u, 180u, 182u, 188u, 
-	130u, 132u, 134u, 140u, 144u, 147u, 150u, 155u, 
-	160u, 172u, 178u, 180u, 182u, 188u, 129u, 130u, 
-	132u, 133u, 134u, 146u, 147u, 176u, 177u, 178u, 
-	179u, 180u, 181u, 182u, 183u, 184u, 177u, 191u, 
-	144u, 148u, 130u, 135u, 149u, 164u, 166u, 168u, 
-	138u, 147u, 153u, 157u, 170u, 173u, 175u, 185u, 
-	188u, 191u, 142u, 133u, 137u, 160u, 255u, 137u, 
-	255u, 182u, 255u, 170u, 255u, 128u, 174u, 176u, 
-	255u, 159u, 176u, 190u, 255u, 165u, 255u, 128u, 
-	165u, 176u, 255u, 166u, 174u, 176u, 255u, 128u, 
+	165u, 168u, 174u, 191u, 142u, 128u, 134u, 160u, 
+	191u, 188u, 128u, 133u, 144u, 186u, 128u, 153u, 
+	159u, 191u, 128u, 162u, 168u, 191u, 128u, 185u, 
+	152u, 128u, 136u, 138u, 141u, 144u, 150u, 154u, 
+	157u, 160u, 191u, 128u, 136u, 138u, 141u, 144u, 
+	176u, 178u, 181u, 184u, 190u, 128u, 130u, 133u, 
+	136u, 150u, 152u, 191u, 128u, 144u, 146u, 149u, 
+	152u, 191u, 159u, 128u, 154u, 128u, 143u, 160u, 
+	191u, 128u, 180u, 129u, 191u, 128u, 172u, 175u, 
+	182u, 129u, 154u, 160u, 191u, 128u, 170u, 174u, 
+	176u, 128u, 140u, 142u, 147u, 160u, 179u, 128u, 
+	147u, 160u, 172u, 174u, 176u, 178u, 179u, 128u, 
+	179u, 182u, 191u, 151u, 156u, 128u, 136u, 160u, 
+	191u, 128u, 183u, 128u, 170u, 128u, 156u, 160u, 
+	171u, 176u, 184u, 144u, 173u, 176u, 180u, 128u, 
+	169u, 176u, 191u, 128u, 137u, 128u, 155u, 128u, 
+	179u, 181u, 191u, 128u, 131u, 133u, 139u, 128u, 
+	169u, 174u, 175u, 128u, 181u, 141u, 143u, 154u, 
+	189u, 128u, 149u, 152u, 157u, 160u, 191u, 153u, 
+	155u, 157u, 128u, 133u, 136u, 141u, 144u, 151u, 
+	159u, 189u, 190u, 128u, 180u, 182u, 188u, 130u, 
+	132u, 134u, 140u, 144u, 147u, 150u, 155u, 160u, 
+	172u, 178u, 180u, 182u, 188u, 129u, 130u, 132u, 
+	133u, 134u, 146u, 147u, 176u, 177u, 178u, 179u, 
+	180u, 181u, 182u, 183u, 184u, 177u, 191u, 144u, 
+	148u, 130u, 135u, 149u, 164u, 166u, 168u, 138u, 
+	147u, 153u, 157u, 170u, 173u, 175u, 185u, 188u, 
+	191u, 142u, 133u, 137u, 160u, 191u, 128u, 136u, 
+	182u, 191u, 128u, 169u, 128u, 174u, 176u, 191u, 
+	128u, 158u, 160u, 175u, 177u, 189u, 128u, 164u, 
+	128u, 165u, 176u, 191u, 175u, 128u, 165u, 128u, 
 	150u, 160u, 166u, 168u, 174u, 176u, 182u, 184u, 
 	190u, 128u, 134u, 136u, 142u, 144u, 150u, 152u, 
 	158u, 160u, 191u, 175u, 128u, 129u, 130u, 131u, 
-	132u, 133u, 134u, 135u, 144u, 145u, 255u, 133u, 
-	135u, 161u, 169u, 177u, 181u, 184u, 188u, 160u, 
-	151u, 156u, 187u, 192u, 255u, 133u, 173u, 177u, 
-	255u, 143u, 159u, 184u, 255u, 176u, 191u, 182u, 
-	183u, 184u, 182u, 255u, 191u, 192u, 255u, 132u, 
-	255u, 128u, 146u, 148u, 152u, 153u, 154u, 156u, 
-	157u, 158u, 159u, 160u, 161u, 162u, 163u, 164u, 
-	165u, 168u, 169u, 176u, 129u, 145u, 149u, 151u, 
-	177u, 255u, 141u, 255u, 141u, 143u, 160u, 169u, 
-	172u, 255u, 191u, 128u, 159u, 162u, 174u, 128u, 
-	151u, 151u, 159u, 162u, 255u, 137u, 138u, 141u, 
-	255u, 187u, 255u, 130u, 134u, 139u, 168u, 255u, 
-	128u, 179u, 138u, 170u, 176u, 255u, 147u, 255u, 
-	128u, 182u, 128u, 141u, 158u, 159u, 255u, 164u, 
-	255u, 164u, 168u, 169u, 171u, 172u, 173u, 174u, 
-	175u, 180u, 181u, 182u, 183u, 185u, 186u, 187u, 
-	188u, 189u, 190u, 191u, 165u, 179u, 174u, 175u, 
-	171u, 175u, 154u, 255u, 190u, 128u, 134u, 147u, 
+	132u, 133u, 134u, 135u, 144u, 191u, 133u, 135u, 
+	161u, 169u, 177u, 181u, 184u, 188u, 128u, 150u, 
+	157u, 159u, 161u, 191u, 128u, 186u, 188u, 191u, 
+	133u, 173u, 177u, 191u, 128u, 142u, 160u, 183u, 
+	176u, 191u, 182u, 128u, 181u, 184u, 191u, 128u, 
+	191u, 191u, 128u, 190u, 128u, 131u, 146u, 152u, 
+	153u, 154u, 156u, 158u, 159u, 160u, 161u, 163u, 
+	164u, 165u, 168u, 169u, 128u, 145u, 148u, 151u, 
+	157u, 162u, 176u, 191u, 128u, 140u, 128u, 140u, 
+	144u, 159u, 170u, 171u, 191u, 128u, 159u, 162u, 
+	174u, 128u, 151u, 151u, 159u, 162u, 191u, 128u, 
+	136u, 139u, 140u, 187u, 191u, 128u, 129u, 131u, 
+	133u, 135u, 138u, 140u, 167u, 128u, 179u, 138u, 
+	170u, 176u, 191u, 128u, 146u, 128u, 182u, 128u, 
+	141u, 158u, 128u, 157u, 128u, 163u, 168u, 169u, 
+	171u, 172u, 173u, 174u, 175u, 180u, 181u, 182u, 
+	183u, 185u, 186u, 187u, 188u, 189u, 190u, 191u, 
+	164u, 179u, 128u, 173u, 176u, 191u, 128u, 170u, 
+	176u, 191u, 128u, 153u, 190u, 128u, 134u, 147u, 
 	151u, 157u, 168u, 170u, 182u, 184u, 188u, 128u, 
-	129u, 131u, 132u, 134u, 255u, 147u, 255u, 190u, 
-	255u, 144u, 255u, 144u, 145u, 136u, 175u, 188u, 
-	255u, 176u, 180u, 182u, 255u, 189u, 255u, 161u, 
-	186u, 129u, 154u, 166u, 255u, 191u, 255u, 130u, 
+	129u, 131u, 132u, 134u, 191u, 147u, 191u, 128u, 
+	189u, 128u, 143u, 146u, 191u, 128u, 135u, 176u, 
+	187u, 176u, 180u, 182u, 191u, 128u, 188u, 161u, 
+	186u, 129u, 154u, 166u, 191u, 128u, 190u, 130u, 
 	135u, 138u, 143u, 146u, 151u, 154u, 156u, 144u, 
-	146u, 157u, 160u, 170u, 175u, 161u, 169u, 128u, 
-	129u, 130u, 131u, 133u, 138u, 139u, 140u, 141u, 
-	142u, 143u, 144u, 145u, 146u, 160u, 164u, 168u, 
+	146u, 157u, 170u, 175u, 160u, 169u, 128u, 129u, 
+	130u, 131u, 133u, 138u, 139u, 140u, 141u, 142u, 
+	143u, 146u, 160u, 164u, 168u, 144u, 145u, 191u, 
 	128u, 139u, 141u, 166u, 168u, 186u, 188u, 189u, 
-	191u, 255u, 142u, 143u, 158u, 255u, 187u, 255u, 
-	128u, 180u, 128u, 156u, 160u, 255u, 145u, 255u, 
-	128u, 158u, 176u, 255u, 139u, 255u, 128u, 157u, 
-	160u, 255u, 144u, 132u, 135u, 150u, 255u, 158u, 
-	255u, 136u, 188u, 191u, 128u, 133u, 138u, 181u, 
+	128u, 141u, 144u, 157u, 128u, 186u, 128u, 156u, 
+	160u, 191u, 128u, 144u, 128u, 158u, 176u, 191u, 
+	128u, 138u, 128u, 157u, 160u, 191u, 128u, 131u, 
+	136u, 143u, 145u, 149u, 128u, 157u, 136u, 188u, 
+	191u, 128u, 133u, 138u, 181u, 183u, 184u, 128u, 
+	149u, 160u, 185u, 128u, 131u, 133u, 134u, 140u, 
+	147u, 149u, 151u, 153u, 179u, 141u, 144u, 145u, 
+	128u, 140u, 128u, 174u, 128u, 162u, 145u, 146u, 
+	147u, 148u, 149u, 154u, 155u, 156u, 157u, 158u, 
+	159u, 144u, 153u, 128u, 148u, 150u, 191u, 162u, 
+	187u, 128u, 156u, 158u, 159u, 165u, 166u, 169u, 
+	172u, 174u, 185u, 189u, 191u, 128u, 131u, 133u, 
+	191u, 128u, 133u, 135u, 138u, 141u, 148u, 150u, 
+	156u, 158u, 185u, 187u, 190u, 134u, 128u, 132u, 
+	138u, 144u, 146u, 191u, 128u, 165u, 168u, 191u, 
+	128u, 130u, 154u, 156u, 186u, 188u, 191u, 128u, 
+	148u, 150u, 180u, 182u, 191u, 128u, 142u, 144u, 
+	174u, 176u, 191u, 128u, 136u, 138u, 168u, 170u, 
+	191u, 128u, 130u, 132u, 139u, 155u, 128u, 154u, 
+	128u, 150u, 168u, 160u, 167u, 170u, 181u, 186u, 
+	128u, 150u, 152u, 182u, 184u, 191u, 128u, 191u, 
+	172u, 174u, 128u, 129u, 134u, 145u, 160u, 164u, 
+	133u, 176u, 180u, 182u, 183u, 186u, 189u, 134u, 
+	140u, 136u, 138u, 142u, 161u, 163u, 191u, 128u, 
+	181u, 183u, 191u, 128u, 129u, 138u, 191u, 128u, 
+	163u, 177u, 191u, 153u, 128u, 150u, 161u, 191u, 
+	191u, 128u, 135u, 176u, 189u, 135u, 129u, 130u, 
+	132u, 133u, 144u, 170u, 176u, 178u, 144u, 154u, 
+	161u, 191u, 128u, 151u, 153u, 158u, 174u, 191u, 
+	191u, 128u, 147u, 149u, 156u, 161u, 168u, 173u, 
+	175u, 186u, 188u, 144u, 191u, 141u, 191u, 128u, 
+	177u, 186u, 138u, 170u, 180u, 181u, 164u, 165u, 
+	166u, 167u, 168u, 169u, 170u, 171u, 172u, 173u, 
+	174u, 175u, 176u, 177u, 178u, 179u, 180u, 181u, 
+	182u, 183u, 184u, 185u, 186u, 187u, 188u, 189u, 
+	190u, 129u, 185u, 189u, 191u, 144u, 128u, 140u, 
+	152u, 163u, 177u, 178u, 187u, 191u, 178u, 129u, 
+	131u, 133u, 140u, 143u, 144u, 147u, 168u, 170u, 
+	176u, 182u, 185u, 189u, 191u, 142u, 151u, 128u, 
+	132u, 135u, 136u, 139u, 140u, 156u, 157u, 159u, 
+	163u, 176u, 177u, 129u, 131u, 133u, 138u, 143u, 
+	144u, 147u, 168u, 170u, 176u, 178u, 179u, 181u, 
+	182u, 184u, 185u, 190u, 191u, 145u, 158u, 128u, 
+	130u, 135u, 136u, 139u, 140u, 153u, 156u, 176u, 
+	181u, 129u, 131u, 133u, 141u, 143u, 145u, 147u, 
+	168u, 170u, 176u, 178u, 179u, 181u, 185u, 189u, 
+	191u, 144u, 128u, 133u, 135u, 137u, 139u, 140u, 
+	160u, 163u, 129u, 131u, 133u, 140u, 143u, 144u, 
+	147u, 168u, 170u, 176u, 178u, 179u, 181u, 185u, 
+	189u, 191u, 177u, 128u, 132u, 135u, 136u, 139u, 
+	140u, 150u, 151u, 156u, 157u, 159u, 163u, 156u, 
+	130u, 131u, 133u, 138u, 142u, 144u, 146u, 149u, 
+	153u, 154u, 158u, 159u, 163u, 164u, 168u, 170u, 
+	174u, 185u, 190u, 191u, 144u, 151u, 128u, 130u, 
+	134u, 136u, 138u, 140u, 129u, 131u, 133u, 140u, 
+	142u, 144u, 146u, 168u, 170u, 179u, 181u, 185u, 
+	189u, 191u, 128u, 132u, 134u, 136u, 138u, 140u, 
+	149u, 150u, 152u, 153u, 160u, 163u, 130u, 131u, 
+	133u, 140u, 142u, 144u, 146u, 168u, 170u, 179u, 
+	181u, 185u, 189u, 191u, 158u, 128u, 132u, 134u, 
+	136u, 138u, 140u, 149u, 150u, 160u, 163u, 130u, 
+	131u, 133u, 140u, 142u, 144u, 146u, 168u, 170u, 
+	185u, 189u, 191u, 151u, 128u, 132u, 134u, 136u, 
+	138u, 140u, 160u, 163u, 186u, 191u, 189u, 130u, 
+	131u, 133u, 150u, 154u, 177u, 179u, 187u, 150u, 
+	128u, 134u, 143u, 148u, 152u, 159u, 178u, 179u, 
+	129u, 186u, 141u, 128u, 134u, 132u, 138u, 141u, 
+	165u, 167u, 129u, 130u, 135u, 136u, 148u, 151u, 
+	153u, 159u, 161u, 163u, 170u, 171u, 173u, 185u, 
+	187u, 189u, 134u, 141u, 128u, 132u, 156u, 157u, 
+	128u, 128u, 135u, 137u, 172u, 177u, 191u, 128u, 
+	129u, 136u, 139u, 144u, 151u, 153u, 188u, 128u, 
+	129u, 130u, 131u, 133u, 134u, 135u, 137u, 138u, 
+	139u, 140u, 141u, 142u, 143u, 144u, 153u, 154u, 
+	155u, 156u, 157u, 158u, 159u, 160u, 161u, 162u, 
+	164u, 165u, 166u, 167u, 168u, 172u, 173u, 174u, 
+	176u, 177u, 188u, 189u, 190u, 191u, 132u, 152u, 
+	180u, 182u, 184u, 187u, 184u, 128u, 182u, 187u, 
+	191u, 144u, 162u, 165u, 168u, 174u, 191u, 142u, 
+	128u, 134u, 160u, 191u, 188u, 128u, 133u, 144u, 
+	186u, 128u, 153u, 159u, 191u, 128u, 162u, 168u, 
+	191u, 128u, 185u, 152u, 128u, 136u, 138u, 141u, 
+	144u, 150u, 154u, 157u, 160u, 191u, 128u, 136u, 
+	138u, 141u, 144u, 176u, 178u, 181u, 184u, 190u, 
+	128u, 130u, 133u, 136u, 150u, 152u, 191u, 128u, 
+	144u, 146u, 149u, 152u, 191u, 159u, 128u, 154u, 
+	128u, 143u, 160u, 191u, 128u, 180u, 129u, 191u, 
+	128u, 172u, 175u, 182u, 129u, 154u, 160u, 191u, 
+	128u, 170u, 174u, 176u, 128u, 140u, 142u, 147u, 
+	160u, 179u, 128u, 147u, 160u, 172u, 174u, 176u, 
+	178u, 179u, 128u, 179u, 182u, 191u, 151u, 156u, 
+	128u, 136u, 160u, 191u, 128u, 183u, 128u, 170u, 
+	128u, 156u, 160u, 171u, 176u, 184u, 144u, 173u, 
+	176u, 180u, 128u, 169u, 176u, 191u, 128u, 137u, 
+	128u, 155u, 128u, 179u, 181u, 191u, 128u, 131u, 
+	133u, 139u, 128u, 169u, 174u, 175u, 128u, 181u, 
+	141u, 143u, 154u, 189u, 128u, 149u, 152u, 157u, 
+	160u, 191u, 153u, 155u, 157u, 128u, 133u, 136u, 
+	141u, 144u, 151u, 159u, 189u, 190u, 128u, 180u, 
+	182u, 188u, 130u, 132u, 134u, 140u, 144u, 147u, 
+	150u, 155u, 160u, 172u, 178u, 180u, 182u, 188u, 
+	129u, 130u, 132u, 133u, 134u, 146u, 147u, 176u, 
+	177u, 178u, 179u, 180u, 181u, 182u, 183u, 184u, 
+	177u, 191u, 144u, 148u, 130u, 135u, 149u, 164u, 
+	166u, 168u, 138u, 147u, 153u, 157u, 170u, 173u, 
+	175u, 185u, 188u, 191u, 142u, 133u, 137u, 160u, 
+	191u, 128u, 136u, 182u, 191u, 128u, 169u, 128u, 
+	174u, 176u, 191u, 128u, 158u, 160u, 175u, 177u, 
+	189u, 128u, 164u, 128u, 165u, 176u, 191u, 175u, 
+	128u, 165u, 128u, 150u, 160u, 166u, 168u, 174u, 
+	176u, 182u, 184u, 190u, 128u, 134u, 136u, 142u, 
+	144u, 150u, 152u, 158u, 160u, 191u, 175u, 128u, 
+	129u, 130u, 131u, 132u, 133u, 134u, 135u, 144u, 
+	191u, 133u, 135u, 161u, 169u, 177u, 181u, 184u, 
+	188u, 128u, 150u, 157u, 159u, 161u, 191u, 128u, 
+	186u, 188u, 191u, 133u, 173u, 177u, 191u, 128u, 
+	142u, 160u, 183u, 176u, 191u, 182u, 128u, 181u, 
+	184u, 191u, 128u, 191u, 191u, 128u, 190u, 128u, 
+	131u, 146u, 152u, 153u, 154u, 156u, 158u, 159u, 
+	160u, 161u, 163u, 164u, 165u, 168u, 169u, 128u, 
+	145u, 148u, 151u, 157u, 162u, 176u, 191u, 128u, 
+	140u, 128u, 140u, 144u, 159u, 170u, 171u, 191u, 
+	128u, 159u, 162u, 174u, 128u, 151u, 151u, 159u, 
+	162u, 191u, 128u, 136u, 139u, 140u, 187u, 191u, 
+	128u, 129u, 131u, 133u, 135u, 138u, 140u, 167u, 
+	128u, 179u, 138u, 170u, 176u, 191u, 128u, 146u, 
+	128u, 182u, 128u, 141u, 158u, 128u, 157u, 128u, 
+	163u, 168u, 169u, 171u, 172u, 173u, 174u, 175u, 
+	180u, 181u, 182u, 183u, 185u, 186u, 187u, 188u, 
+	189u, 190u, 191u, 164u, 179u, 128u, 173u, 176u, 
+	191u, 128u, 170u, 176u, 191u, 128u, 153u, 190u, 
+	128u, 134u, 147u, 151u, 157u, 168u, 170u, 182u, 
+	184u, 188u, 128u, 129u, 131u, 132u, 134u, 191u, 
+	147u, 191u, 128u, 189u, 128u, 143u, 146u, 191u, 
+	128u, 135u, 176u, 187u, 176u, 180u, 182u, 191u, 
+	128u, 188u, 161u, 186u, 129u, 154u, 166u, 191u, 
+	128u, 190u, 130u, 135u, 138u, 143u, 146u, 151u, 
+	154u, 156u, 144u, 146u, 157u, 170u, 175u, 160u, 
+	169u, 128u, 129u, 130u, 131u, 133u, 138u, 139u, 
+	140u, 141u, 142u, 143u, 146u, 160u, 164u, 168u, 
+	144u, 145u, 191u, 128u, 139u, 141u, 166u, 168u, 
+	186u, 188u, 189u, 128u, 141u, 144u, 157u, 128u, 
+	186u, 128u, 156u, 160u, 191u, 128u, 144u, 128u, 
+	158u, 176u, 191u, 128u, 138u, 128u, 157u, 160u, 
+	191u, 128u, 131u, 136u, 143u, 145u, 149u, 128u, 
+	157u, 136u, 188u, 191u, 128u, 133u, 138u, 181u, 
 	183u, 184u, 128u, 149u, 160u, 185u, 128u, 131u, 
 	133u, 134u, 140u, 147u, 149u, 151u, 153u, 179u, 
-	128u, 141u, 144u, 145u, 129u, 140u, 175u, 255u, 
-	163u, 255u, 144u, 145u, 146u, 147u, 148u, 149u, 
-	154u, 155u, 156u, 157u, 158u, 159u, 150u, 153u, 
-	149u, 157u, 173u, 186u, 188u, 160u, 161u, 163u, 
-	164u, 167u, 168u, 132u, 134u, 149u, 157u, 186u, 
-	139u, 140u, 191u, 255u, 134u, 128u, 132u, 138u, 
-	144u, 146u, 255u, 166u, 167u, 129u, 155u, 187u, 
-	149u, 181u, 143u, 175u, 137u, 169u, 131u, 140u, 
-	255u, 128u, 129u, 255u, 155u, 156u, 255u, 151u, 
-	255u, 160u, 168u, 161u, 167u, 47u, 45u, 47u, 
-	58u, 64u, 95u, 44u, 46u, 48u, 57u, 65u, 
-	90u, 97u, 122u, 129u, 185u, 189u, 255u, 141u, 
-	143u, 145u, 151u, 164u, 176u, 179u, 186u, 192u, 
-	255u, 178u, 129u, 131u, 133u, 140u, 143u, 144u, 
-	147u, 168u, 170u, 176u, 182u, 185u, 189u, 255u, 
-	141u, 158u, 133u, 134u, 137u, 138u, 143u, 150u, 
-	152u, 155u, 164u, 175u, 178u, 255u, 129u, 131u, 
+	141u, 144u, 145u, 128u, 140u, 128u, 174u, 128u, 
+	162u, 145u, 146u, 147u, 148u, 149u, 154u, 155u, 
+	156u, 157u, 158u, 159u, 144u, 153u, 128u, 148u, 
+	150u, 191u, 162u, 187u, 128u, 156u, 158u, 159u, 
+	165u, 166u, 169u, 172u, 174u, 185u, 189u, 191u, 
+	128u, 131u, 133u, 191u, 128u, 133u, 135u, 138u, 
+	141u, 148u, 150u, 156u, 158u, 185u, 187u, 190u, 
+	134u, 128u, 132u, 138u, 144u, 146u, 191u, 128u, 
+	165u, 168u, 191u, 128u, 130u, 154u, 156u, 186u, 
+	188u, 191u, 128u, 148u, 150u, 180u, 182u, 191u, 
+	128u, 142u, 144u, 174u, 176u, 191u, 128u, 136u, 
+	138u, 168u, 170u, 191u, 128u, 130u, 132u, 139u, 
+	155u, 128u, 154u, 128u, 150u, 168u, 160u, 167u, 
+	170u, 181u, 186u, 128u, 150u, 152u, 182u, 184u, 
+	191u, 128u, 191u, 172u, 174u, 128u, 129u, 134u, 
+	145u, 160u, 164u, 133u, 176u, 180u, 182u, 183u, 
+	186u, 189u, 134u, 140u, 136u, 138u, 142u, 161u, 
+	163u, 191u, 128u, 181u, 183u, 191u, 128u, 129u, 
+	138u, 191u, 128u, 163u, 177u, 191u, 153u, 128u, 
+	150u, 161u, 191u, 191u, 128u, 135u, 176u, 189u, 
+	135u, 129u, 130u, 132u, 133u, 144u, 170u, 176u, 
+	178u, 144u, 154u, 161u, 191u, 128u, 151u, 153u, 
+	158u, 174u, 191u, 191u, 128u, 147u, 149u, 156u, 
+	161u, 168u, 173u, 175u, 186u, 188u, 144u, 191u, 
+	141u, 191u, 128u, 177u, 186u, 138u, 170u, 180u, 
+	181u, 164u, 165u, 166u, 167u, 168u, 169u, 170u, 
+	171u, 172u, 173u, 174u, 175u, 176u, 177u, 178u, 
+	179u, 180u, 181u, 182u, 183u, 184u, 185u, 186u, 
+	187u, 188u, 189u, 190u, 129u, 185u, 189u, 191u, 
+	144u, 128u, 140u, 152u, 163u, 177u, 178u, 187u, 
+	191u, 178u, 129u, 131u, 133u, 140u, 143u, 144u, 
+	147u, 168u, 170u, 176u, 182u, 185u, 189u, 191u, 
+	142u, 151u, 128u, 132u, 135u, 136u, 139u, 140u, 
+	156u, 157u, 159u, 163u, 176u, 177u, 129u, 131u, 
 	133u, 138u, 143u, 144u, 147u, 168u, 170u, 176u, 
-	178u, 179u, 181u, 182u, 184u, 185u, 190u, 255u, 
-	157u, 131u, 134u, 137u, 138u, 141u, 144u, 146u, 
-	152u, 159u, 175u, 182u, 255u, 129u, 131u, 133u, 
-	141u, 143u, 145u, 147u, 168u, 170u, 176u, 178u, 
-	179u, 181u, 185u, 189u, 255u, 134u, 138u, 141u, 
-	143u, 145u, 159u, 164u, 255u, 129u, 131u, 133u, 
+	178u, 179u, 181u, 182u, 184u, 185u, 190u, 191u, 
+	145u, 158u, 128u, 130u, 135u, 136u, 139u, 140u, 
+	153u, 156u, 176u, 181u, 129u, 131u, 133u, 141u, 
+	143u, 145u, 147u, 168u, 170u, 176u, 178u, 179u, 
+	181u, 185u, 189u, 191u, 144u, 128u, 133u, 135u, 
+	137u, 139u, 140u, 160u, 163u, 129u, 131u, 133u, 
 	140u, 143u, 144u, 147u, 168u, 170u, 176u, 178u, 
 	179u, 181u, 185u, 189u, 191u, 177u, 128u, 132u, 
 	135u, 136u, 139u, 140u, 150u, 151u, 156u, 157u, 
@@ -1135,940 +1040,1051 @@ static const unsigned char _StdTok_trans_keys[] = {
 	164u, 168u, 170u, 174u, 185u, 190u, 191u, 144u, 
 	151u, 128u, 130u, 134u, 136u, 138u, 140u, 129u, 
 	131u, 133u, 140u, 142u, 144u, 146u, 168u, 170u, 
-	179u, 181u, 185u, 189u, 255u, 133u, 137u, 151u, 
-	141u, 148u, 154u, 159u, 164u, 255u, 130u, 131u, 
+	179u, 181u, 185u, 189u, 191u, 128u, 132u, 134u, 
+	136u, 138u, 140u, 149u, 150u, 152u, 153u, 160u, 
+	163u, 130u, 131u, 133u, 140u, 142u, 144u, 146u, 
+	168u, 170u, 179u, 181u, 185u, 189u, 191u, 158u, 
+	128u, 132u, 134u, 136u, 138u, 140u, 149u, 150u, 
+	160u, 163u, 130u, 131u, 133u, 140u, 142u, 144u, 
+	146u, 168u, 170u, 185u, 189u, 191u, 151u, 128u, 
+	132u, 134u, 136u, 138u, 140u, 160u, 163u, 186u, 
+	191u, 189u, 130u, 131u, 133u, 150u, 154u, 177u, 
+	179u, 187u, 150u, 128u, 134u, 143u, 148u, 152u, 
+	159u, 178u, 179u, 129u, 186u, 141u, 128u, 134u, 
+	132u, 138u, 141u, 165u, 167u, 129u, 130u, 135u, 
+	136u, 148u, 151u, 153u, 159u, 161u, 163u, 170u, 
+	171u, 173u, 185u, 187u, 189u, 134u, 141u, 128u, 
+	132u, 156u, 157u, 128u, 128u, 135u, 137u, 172u, 
+	177u, 191u, 128u, 129u, 136u, 139u, 144u, 151u, 
+	153u, 188u, 128u, 129u, 130u, 131u, 133u, 134u, 
+	135u, 137u, 138u, 139u, 140u, 141u, 142u, 143u, 
+	144u, 153u, 154u, 155u, 156u, 157u, 158u, 159u, 
+	160u, 161u, 162u, 164u, 165u, 166u, 167u, 168u, 
+	172u, 173u, 174u, 176u, 177u, 188u, 189u, 190u, 
+	191u, 132u, 152u, 180u, 182u, 184u, 187u, 184u, 
+	128u, 182u, 187u, 191u, 144u, 162u, 165u, 168u, 
+	174u, 191u, 142u, 128u, 134u, 160u, 191u, 188u, 
+	128u, 133u, 144u, 186u, 128u, 153u, 159u, 191u, 
+	128u, 162u, 168u, 191u, 128u, 185u, 152u, 128u, 
+	136u, 138u, 141u, 144u, 150u, 154u, 157u, 160u, 
+	191u, 128u, 136u, 138u, 141u, 144u, 176u, 178u, 
+	181u, 184u, 190u, 128u, 130u, 133u, 136u, 150u, 
+	152u, 191u, 128u, 144u, 146u, 149u, 152u, 191u, 
+	159u, 128u, 154u, 128u, 143u, 160u, 191u, 128u, 
+	180u, 129u, 191u, 128u, 172u, 175u, 182u, 129u, 
+	154u, 160u, 191u, 128u, 170u, 174u, 176u, 128u, 
+	140u, 142u, 147u, 160u, 179u, 128u, 147u, 160u, 
+	172u, 174u, 176u, 178u, 179u, 128u, 179u, 182u, 
+	191u, 151u, 156u, 128u, 136u, 160u, 191u, 128u, 
+	183u, 128u, 170u, 128u, 156u, 160u, 171u, 176u, 
+	184u, 144u, 173u, 176u, 180u, 128u, 169u, 176u, 
+	191u, 128u, 137u, 128u, 155u, 128u, 179u, 181u, 
+	191u, 128u, 131u, 133u, 139u, 128u, 169u, 174u, 
+	175u, 128u, 181u, 141u, 143u, 154u, 189u, 128u, 
+	149u, 152u, 157u, 160u, 191u, 153u, 155u, 157u, 
+	128u, 133u, 136u, 141u, 144u, 151u, 159u, 189u, 
+	190u, 128u, 180u, 182u, 188u, 130u, 132u, 134u, 
+	140u, 144u, 147u, 150u, 155u, 160u, 172u, 178u, 
+	180u, 182u, 188u, 129u, 130u, 132u, 133u, 134u, 
+	146u, 147u, 176u, 177u, 178u, 179u, 180u, 181u, 
+	182u, 183u, 184u, 177u, 191u, 144u, 148u, 130u, 
+	135u, 149u, 164u, 166u, 168u, 138u, 147u, 153u, 
+	157u, 170u, 173u, 175u, 185u, 188u, 191u, 142u, 
+	133u, 137u, 160u, 191u, 128u, 136u, 182u, 191u, 
+	128u, 169u, 128u, 174u, 176u, 191u, 128u, 158u, 
+	160u, 175u, 177u, 189u, 128u, 164u, 128u, 165u, 
+	176u, 191u, 175u, 128u, 165u, 128u, 150u, 160u, 
+	166u, 168u, 174u, 176u, 182u, 184u, 190u, 128u, 
+	134u, 136u, 142u, 144u, 150u, 152u, 158u, 160u, 
+	191u, 175u, 128u, 129u, 130u, 131u, 132u, 133u, 
+	134u, 135u, 144u, 191u, 133u, 135u, 161u, 169u, 
+	177u, 181u, 184u, 188u, 128u, 150u, 157u, 159u, 
+	161u, 191u, 128u, 186u, 188u, 191u, 133u, 173u, 
+	177u, 191u, 128u, 142u, 160u, 183u, 176u, 191u, 
+	182u, 128u, 181u, 184u, 191u, 128u, 191u, 191u, 
+	128u, 190u, 128u, 131u, 146u, 152u, 153u, 154u, 
+	156u, 158u, 159u, 160u, 161u, 163u, 164u, 165u, 
+	168u, 169u, 128u, 145u, 148u, 151u, 157u, 162u, 
+	176u, 191u, 128u, 140u, 128u, 140u, 144u, 159u, 
+	170u, 171u, 191u, 128u, 159u, 162u, 174u, 128u, 
+	151u, 151u, 159u, 162u, 191u, 128u, 136u, 139u, 
+	140u, 187u, 191u, 128u, 129u, 131u, 133u, 135u, 
+	138u, 140u, 167u, 128u, 179u, 138u, 170u, 176u, 
+	191u, 128u, 146u, 128u, 182u, 128u, 141u, 158u, 
+	128u, 157u, 128u, 163u, 168u, 169u, 171u, 172u, 
+	173u, 174u, 175u, 180u, 181u, 182u, 183u, 185u, 
+	186u, 187u, 188u, 189u, 190u, 191u, 164u, 179u, 
+	128u, 173u, 176u, 191u, 128u, 170u, 176u, 191u, 
+	128u, 153u, 190u, 128u, 134u, 147u, 151u, 157u, 
+	168u, 170u, 182u, 184u, 188u, 128u, 129u, 131u, 
+	132u, 134u, 191u, 147u, 191u, 128u, 189u, 128u, 
+	143u, 146u, 191u, 128u, 135u, 176u, 187u, 176u, 
+	180u, 182u, 191u, 128u, 188u, 161u, 186u, 129u, 
+	154u, 166u, 191u, 128u, 190u, 130u, 135u, 138u, 
+	143u, 146u, 151u, 154u, 156u, 144u, 146u, 157u, 
+	170u, 175u, 160u, 169u, 128u, 129u, 130u, 131u, 
+	133u, 138u, 139u, 140u, 141u, 142u, 143u, 146u, 
+	160u, 164u, 168u, 144u, 145u, 191u, 128u, 139u, 
+	141u, 166u, 168u, 186u, 188u, 189u, 128u, 141u, 
+	144u, 157u, 128u, 186u, 128u, 156u, 160u, 191u, 
+	128u, 144u, 128u, 158u, 176u, 191u, 128u, 138u, 
+	128u, 157u, 160u, 191u, 128u, 131u, 136u, 143u, 
+	145u, 149u, 128u, 157u, 136u, 188u, 191u, 128u, 
+	133u, 138u, 181u, 183u, 184u, 128u, 149u, 160u, 
+	185u, 128u, 131u, 133u, 134u, 140u, 147u, 149u, 
+	151u, 153u, 179u, 141u, 144u, 145u, 128u, 140u, 
+	128u, 174u, 128u, 162u, 145u, 146u, 147u, 148u, 
+	149u, 154u, 155u, 156u, 157u, 158u, 159u, 144u, 
+	153u, 128u, 148u, 150u, 191u, 162u, 187u, 128u, 
+	156u, 158u, 159u, 165u, 166u, 169u, 172u, 174u, 
+	185u, 189u, 191u, 128u, 131u, 133u, 191u, 128u, 
+	133u, 135u, 138u, 141u, 148u, 150u, 156u, 158u, 
+	185u, 187u, 190u, 134u, 128u, 132u, 138u, 144u, 
+	146u, 191u, 128u, 165u, 168u, 191u, 128u, 130u, 
+	154u, 156u, 186u, 188u, 191u, 128u, 148u, 150u, 
+	180u, 182u, 191u, 128u, 142u, 144u, 174u, 176u, 
+	191u, 128u, 136u, 138u, 168u, 170u, 191u, 128u, 
+	130u, 132u, 139u, 155u, 128u, 154u, 128u, 150u, 
+	168u, 160u, 167u, 47u, 45u, 47u, 58u, 64u, 
+	95u, 44u, 46u, 48u, 57u, 65u, 90u, 97u, 
+	122u, 129u, 185u, 189u, 191u, 144u, 128u, 140u, 
+	152u, 163u, 177u, 178u, 187u, 191u, 178u, 129u, 
+	131u, 133u, 140u, 143u, 144u, 147u, 168u, 170u, 
+	176u, 182u, 185u, 189u, 191u, 142u, 151u, 128u, 
+	132u, 135u, 136u, 139u, 140u, 156u, 157u, 159u, 
+	163u, 176u, 177u, 129u, 131u, 133u, 138u, 143u, 
+	144u, 147u, 168u, 170u, 176u, 178u, 179u, 181u, 
+	182u, 184u, 185u, 190u, 191u, 145u, 158u, 128u, 
+	130u, 135u, 136u, 139u, 140u, 153u, 156u, 176u, 
+	181u, 129u, 131u, 133u, 141u, 143u, 145u, 147u, 
+	168u, 170u, 176u, 178u, 179u, 181u, 185u, 189u, 
+	191u, 144u, 128u, 133u, 135u, 137u, 139u, 140u, 
+	160u, 163u, 129u, 131u, 133u, 140u, 143u, 144u, 
+	147u, 168u, 170u, 176u, 178u, 179u, 181u, 185u, 
+	189u, 191u, 177u, 128u, 132u, 135u, 136u, 139u, 
+	140u, 150u, 151u, 156u, 157u, 159u, 163u, 156u, 
+	130u, 131u, 133u, 138u, 142u, 144u, 146u, 149u, 
+	153u, 154u, 158u, 159u, 163u, 164u, 168u, 170u, 
+	174u, 185u, 190u, 191u, 144u, 151u, 128u, 130u, 
+	134u, 136u, 138u, 140u, 129u, 131u, 133u, 140u, 
+	142u, 144u, 146u, 168u, 170u, 179u, 181u, 185u, 
+	189u, 191u, 128u, 132u, 134u, 136u, 138u, 140u, 
+	149u, 150u, 152u, 153u, 160u, 163u, 130u, 131u, 
 	133u, 140u, 142u, 144u, 146u, 168u, 170u, 179u, 
 	181u, 185u, 189u, 191u, 158u, 128u, 132u, 134u, 
 	136u, 138u, 140u, 149u, 150u, 160u, 163u, 130u, 
 	131u, 133u, 140u, 142u, 144u, 146u, 168u, 170u, 
-	185u, 189u, 255u, 133u, 137u, 141u, 150u, 152u, 
-	159u, 164u, 185u, 192u, 255u, 189u, 130u, 131u, 
-	133u, 150u, 154u, 177u, 179u, 187u, 150u, 128u, 
-	134u, 143u, 148u, 152u, 159u, 178u, 179u, 129u, 
-	186u, 141u, 128u, 134u, 132u, 138u, 141u, 165u, 
-	167u, 129u, 130u, 135u, 136u, 148u, 151u, 153u, 
-	159u, 161u, 163u, 170u, 171u, 173u, 185u, 187u, 
-	189u, 134u, 141u, 128u, 132u, 156u, 157u, 128u, 
-	128u, 135u, 137u, 172u, 177u, 191u, 128u, 129u, 
-	136u, 139u, 144u, 151u, 153u, 188u, 184u, 128u, 
-	182u, 187u, 191u, 144u, 162u, 165u, 168u, 174u, 
-	255u, 135u, 141u, 143u, 159u, 187u, 134u, 143u, 
-	189u, 255u, 0u, 127u, 154u, 158u, 163u, 167u, 
-	186u, 255u, 137u, 151u, 153u, 142u, 143u, 158u, 
-	159u, 137u, 177u, 142u, 143u, 182u, 183u, 191u, 
-	255u, 128u, 130u, 133u, 136u, 150u, 152u, 255u, 
-	145u, 150u, 151u, 155u, 158u, 160u, 255u, 128u, 
-	143u, 160u, 255u, 181u, 255u, 129u, 255u, 173u, 
-	174u, 183u, 255u, 129u, 154u, 160u, 255u, 171u, 
-	173u, 177u, 255u, 128u, 140u, 142u, 147u, 160u, 
-	179u, 128u, 147u, 160u, 172u, 174u, 176u, 178u, 
-	179u, 128u, 179u, 182u, 255u, 137u, 150u, 152u, 
-	155u, 157u, 255u, 160u, 255u, 184u, 255u, 128u, 
-	170u, 128u, 156u, 160u, 171u, 176u, 184u, 144u, 
-	173u, 176u, 180u, 128u, 169u, 176u, 255u, 138u, 
-	255u, 128u, 155u, 128u, 179u, 181u, 255u, 132u, 
-	140u, 255u, 128u, 169u, 174u, 175u, 128u, 181u, 
-	141u, 143u, 154u, 189u, 192u, 255u, 150u, 151u, 
-	158u, 159u, 152u, 154u, 156u, 158u, 134u, 135u, 
-	142u, 143u, 190u, 255u, 190u, 128u, 180u, 182u, 
-	188u, 130u, 132u, 134u, 140u, 144u, 147u, 150u, 
-	155u, 160u, 172u, 178u, 180u, 182u, 188u, 177u, 
-	191u, 144u, 148u, 130u, 135u, 149u, 164u, 166u, 
-	168u, 138u, 147u, 153u, 157u, 170u, 173u, 175u, 
-	185u, 188u, 191u, 142u, 133u, 137u, 160u, 255u, 
-	137u, 255u, 182u, 255u, 170u, 255u, 128u, 174u, 
-	176u, 255u, 159u, 176u, 190u, 255u, 165u, 255u, 
-	128u, 165u, 176u, 255u, 166u, 174u, 176u, 255u, 
-	128u, 150u, 160u, 166u, 168u, 174u, 176u, 182u, 
-	184u, 190u, 128u, 134u, 136u, 142u, 144u, 150u, 
-	152u, 158u, 160u, 191u, 175u, 133u, 135u, 161u, 
-	169u, 177u, 181u, 184u, 188u, 160u, 151u, 156u, 
-	187u, 192u, 255u, 133u, 173u, 177u, 255u, 143u, 
-	159u, 184u, 255u, 176u, 191u, 182u, 255u, 132u, 
-	255u, 141u, 255u, 141u, 143u, 160u, 169u, 172u, 
-	255u, 191u, 128u, 159u, 162u, 174u, 128u, 151u, 
-	151u, 159u, 162u, 255u, 137u, 138u, 141u, 255u, 
-	187u, 255u, 130u, 134u, 139u, 168u, 255u, 128u, 
-	179u, 138u, 170u, 176u, 255u, 147u, 255u, 128u, 
-	182u, 128u, 141u, 164u, 255u, 174u, 175u, 171u, 
-	175u, 154u, 255u, 190u, 128u, 134u, 147u, 151u, 
+	185u, 189u, 191u, 151u, 128u, 132u, 134u, 136u, 
+	138u, 140u, 160u, 163u, 186u, 191u, 189u, 130u, 
+	131u, 133u, 150u, 154u, 177u, 179u, 187u, 150u, 
+	128u, 134u, 143u, 148u, 152u, 159u, 178u, 179u, 
+	129u, 186u, 141u, 128u, 134u, 132u, 138u, 141u, 
+	165u, 167u, 129u, 130u, 135u, 136u, 148u, 151u, 
+	153u, 159u, 161u, 163u, 170u, 171u, 173u, 185u, 
+	187u, 189u, 134u, 141u, 128u, 132u, 156u, 157u, 
+	128u, 128u, 135u, 137u, 172u, 177u, 191u, 128u, 
+	129u, 136u, 139u, 144u, 151u, 153u, 188u, 184u, 
+	128u, 182u, 187u, 191u, 144u, 162u, 165u, 168u, 
+	174u, 191u, 142u, 128u, 134u, 160u, 191u, 188u, 
+	128u, 133u, 144u, 186u, 128u, 191u, 128u, 153u, 
+	159u, 191u, 128u, 162u, 168u, 191u, 128u, 185u, 
+	152u, 128u, 136u, 138u, 141u, 144u, 150u, 154u, 
+	157u, 160u, 191u, 128u, 136u, 138u, 141u, 144u, 
+	176u, 178u, 181u, 184u, 190u, 128u, 130u, 133u, 
+	136u, 150u, 152u, 191u, 128u, 144u, 146u, 149u, 
+	152u, 191u, 159u, 128u, 154u, 128u, 143u, 160u, 
+	191u, 128u, 180u, 129u, 191u, 128u, 172u, 175u, 
+	182u, 129u, 154u, 160u, 191u, 128u, 170u, 174u, 
+	176u, 128u, 140u, 142u, 147u, 160u, 179u, 128u, 
+	147u, 160u, 172u, 174u, 176u, 178u, 179u, 128u, 
+	179u, 182u, 191u, 151u, 156u, 128u, 136u, 160u, 
+	191u, 128u, 183u, 128u, 170u, 128u, 156u, 160u, 
+	171u, 176u, 184u, 144u, 173u, 176u, 180u, 128u, 
+	169u, 176u, 191u, 128u, 137u, 128u, 155u, 128u, 
+	179u, 181u, 191u, 128u, 131u, 133u, 139u, 128u, 
+	169u, 174u, 175u, 128u, 181u, 141u, 143u, 154u, 
+	189u, 128u, 149u, 152u, 157u, 160u, 191u, 153u, 
+	155u, 157u, 128u, 133u, 136u, 141u, 144u, 151u, 
+	159u, 189u, 190u, 128u, 180u, 182u, 188u, 130u, 
+	132u, 134u, 140u, 144u, 147u, 150u, 155u, 160u, 
+	172u, 178u, 180u, 182u, 188u, 177u, 191u, 144u, 
+	148u, 130u, 135u, 149u, 164u, 166u, 168u, 138u, 
+	147u, 153u, 157u, 170u, 173u, 175u, 185u, 188u, 
+	191u, 142u, 133u, 137u, 160u, 191u, 128u, 136u, 
+	182u, 191u, 128u, 169u, 128u, 174u, 176u, 191u, 
+	128u, 158u, 160u, 175u, 177u, 189u, 128u, 164u, 
+	128u, 165u, 176u, 191u, 175u, 128u, 165u, 128u, 
+	150u, 160u, 166u, 168u, 174u, 176u, 182u, 184u, 
+	190u, 128u, 134u, 136u, 142u, 144u, 150u, 152u, 
+	158u, 160u, 191u, 175u, 133u, 135u, 161u, 169u, 
+	177u, 181u, 184u, 188u, 128u, 150u, 157u, 159u, 
+	161u, 191u, 128u, 186u, 188u, 191u, 133u, 173u, 
+	177u, 191u, 128u, 142u, 160u, 183u, 176u, 191u, 
+	128u, 131u, 128u, 140u, 128u, 140u, 144u, 159u, 
+	170u, 171u, 191u, 128u, 159u, 162u, 174u, 128u, 
+	151u, 151u, 159u, 162u, 191u, 128u, 136u, 139u, 
+	140u, 187u, 191u, 128u, 129u, 131u, 133u, 135u, 
+	138u, 140u, 167u, 128u, 179u, 138u, 170u, 176u, 
+	191u, 128u, 146u, 128u, 182u, 128u, 141u, 128u, 
+	163u, 128u, 173u, 176u, 191u, 128u, 170u, 176u, 
+	191u, 128u, 153u, 190u, 128u, 134u, 147u, 151u, 
 	157u, 168u, 170u, 182u, 184u, 188u, 128u, 129u, 
-	131u, 132u, 134u, 255u, 178u, 255u, 147u, 255u, 
-	190u, 255u, 144u, 255u, 144u, 145u, 136u, 175u, 
-	188u, 255u, 176u, 180u, 182u, 255u, 189u, 255u, 
-	161u, 186u, 129u, 154u, 166u, 255u, 191u, 255u, 
-	130u, 135u, 138u, 143u, 146u, 151u, 154u, 156u, 
-	128u, 129u, 130u, 131u, 133u, 138u, 139u, 140u, 
-	141u, 142u, 143u, 144u, 145u, 146u, 160u, 164u, 
-	168u, 128u, 139u, 141u, 166u, 168u, 186u, 188u, 
-	189u, 191u, 255u, 142u, 143u, 158u, 255u, 187u, 
-	255u, 128u, 180u, 128u, 156u, 160u, 255u, 145u, 
-	255u, 128u, 158u, 176u, 255u, 139u, 255u, 128u, 
-	157u, 160u, 255u, 144u, 132u, 135u, 150u, 255u, 
-	158u, 255u, 136u, 188u, 191u, 128u, 133u, 138u, 
+	131u, 132u, 134u, 191u, 128u, 177u, 147u, 191u, 
+	128u, 189u, 144u, 191u, 128u, 143u, 146u, 191u, 
+	128u, 135u, 176u, 187u, 176u, 180u, 182u, 191u, 
+	128u, 188u, 161u, 186u, 129u, 154u, 166u, 191u, 
+	128u, 190u, 130u, 135u, 138u, 143u, 146u, 151u, 
+	154u, 156u, 128u, 129u, 130u, 131u, 133u, 138u, 
+	139u, 140u, 141u, 142u, 143u, 146u, 160u, 164u, 
+	168u, 144u, 145u, 191u, 128u, 139u, 141u, 166u, 
+	168u, 186u, 188u, 189u, 128u, 141u, 144u, 157u, 
+	128u, 186u, 128u, 156u, 160u, 191u, 128u, 144u, 
+	128u, 158u, 176u, 191u, 128u, 138u, 128u, 157u, 
+	160u, 191u, 128u, 131u, 136u, 143u, 145u, 149u, 
+	128u, 157u, 136u, 188u, 191u, 128u, 133u, 138u, 
 	181u, 183u, 184u, 128u, 149u, 160u, 185u, 128u, 
 	131u, 133u, 134u, 140u, 147u, 149u, 151u, 153u, 
-	179u, 128u, 141u, 144u, 145u, 129u, 140u, 175u, 
-	255u, 163u, 255u, 144u, 145u, 146u, 147u, 148u, 
-	149u, 154u, 155u, 156u, 157u, 158u, 159u, 150u, 
-	153u, 149u, 157u, 173u, 186u, 188u, 160u, 161u, 
-	163u, 164u, 167u, 168u, 132u, 134u, 149u, 157u, 
-	186u, 139u, 140u, 191u, 255u, 134u, 128u, 132u, 
-	138u, 144u, 146u, 255u, 166u, 167u, 129u, 155u, 
-	187u, 149u, 181u, 143u, 175u, 137u, 169u, 131u, 
-	140u, 255u, 128u, 129u, 255u, 155u, 156u, 255u, 
-	151u, 255u, 160u, 168u, 161u, 167u, 0u, 34u, 
-	42u, 43u, 45u, 47u, 61u, 63u, 102u, 104u, 
-	194u, 195u, 198u, 199u, 203u, 205u, 206u, 207u, 
+	179u, 141u, 144u, 145u, 128u, 140u, 128u, 174u, 
+	128u, 162u, 145u, 146u, 147u, 148u, 149u, 154u, 
+	155u, 156u, 157u, 158u, 159u, 144u, 153u, 128u, 
+	148u, 150u, 191u, 162u, 187u, 128u, 156u, 158u, 
+	159u, 165u, 166u, 169u, 172u, 174u, 185u, 189u, 
+	191u, 128u, 131u, 133u, 191u, 128u, 133u, 135u, 
+	138u, 141u, 148u, 150u, 156u, 158u, 185u, 187u, 
+	190u, 134u, 128u, 132u, 138u, 144u, 146u, 191u, 
+	128u, 165u, 168u, 191u, 128u, 130u, 154u, 156u, 
+	186u, 188u, 191u, 128u, 148u, 150u, 180u, 182u, 
+	191u, 128u, 142u, 144u, 174u, 176u, 191u, 128u, 
+	136u, 138u, 168u, 170u, 191u, 128u, 130u, 132u, 
+	139u, 128u, 191u, 155u, 128u, 154u, 128u, 150u, 
+	168u, 160u, 167u, 0u, 34u, 42u, 43u, 45u, 
+	47u, 61u, 63u, 102u, 104u, 194u, 195u, 203u, 
+	205u, 206u, 207u, 210u, 212u, 213u, 214u, 215u, 
+	216u, 217u, 219u, 220u, 221u, 222u, 223u, 224u, 
+	225u, 226u, 227u, 228u, 233u, 234u, 237u, 239u, 
+	240u, 33u, 39u, 48u, 57u, 65u, 90u, 94u, 
+	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
+	218u, 229u, 236u, 33u, 46u, 61u, 64u, 35u, 
+	39u, 42u, 43u, 45u, 57u, 63u, 90u, 94u, 
+	126u, 33u, 46u, 61u, 63u, 35u, 39u, 42u, 
+	43u, 45u, 57u, 65u, 90u, 94u, 126u, 34u, 
+	92u, 1u, 8u, 11u, 12u, 14u, 31u, 33u, 
+	127u, 33u, 46u, 61u, 64u, 35u, 39u, 42u, 
+	43u, 45u, 47u, 48u, 57u, 63u, 90u, 94u, 
+	126u, 33u, 46u, 61u, 64u, 35u, 39u, 42u, 
+	43u, 45u, 47u, 48u, 57u, 63u, 90u, 94u, 
+	126u, 33u, 46u, 61u, 64u, 35u, 39u, 42u, 
+	43u, 45u, 47u, 48u, 57u, 63u, 90u, 94u, 
+	126u, 33u, 45u, 46u, 47u, 58u, 61u, 63u, 
+	64u, 95u, 194u, 195u, 203u, 205u, 206u, 207u, 
 	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
 	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
-	228u, 233u, 234u, 237u, 239u, 240u, 33u, 39u, 
-	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
-	123u, 126u, 196u, 202u, 208u, 218u, 229u, 236u, 
-	33u, 46u, 61u, 64u, 35u, 39u, 42u, 43u, 
-	45u, 57u, 63u, 90u, 94u, 126u, 33u, 46u, 
-	61u, 63u, 35u, 39u, 42u, 43u, 45u, 57u, 
-	65u, 90u, 94u, 126u, 34u, 92u, 1u, 8u, 
-	11u, 12u, 14u, 31u, 33u, 127u, 33u, 46u, 
-	61u, 64u, 35u, 39u, 42u, 43u, 45u, 47u, 
-	48u, 57u, 63u, 90u, 94u, 126u, 33u, 46u, 
-	61u, 64u, 35u, 39u, 42u, 43u, 45u, 47u, 
-	48u, 57u, 63u, 90u, 94u, 126u, 33u, 46u, 
-	61u, 64u, 35u, 39u, 42u, 43u, 45u, 47u, 
-	48u, 57u, 63u, 90u, 94u, 126u, 33u, 45u, 
-	46u, 47u, 58u, 61u, 63u, 64u, 95u, 194u, 
-	195u, 198u, 199u, 203u, 205u, 206u, 207u, 210u, 
-	212u, 213u, 214u, 215u, 216u, 217u, 219u, 220u, 
-	221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 
-	233u, 234u, 237u, 239u, 240u, 35u, 39u, 42u, 
-	43u, 48u, 57u, 65u, 90u, 94u, 96u, 97u, 
-	122u, 123u, 126u, 196u, 202u, 208u, 218u, 229u, 
-	236u, 33u, 45u, 46u, 47u, 58u, 61u, 63u, 
-	64u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
-	90u, 94u, 96u, 97u, 122u, 123u, 126u, 47u, 
-	48u, 57u, 33u, 45u, 46u, 47u, 58u, 61u, 
-	63u, 64u, 122u, 35u, 39u, 42u, 43u, 48u, 
-	57u, 65u, 90u, 94u, 96u, 97u, 121u, 123u, 
+	228u, 233u, 234u, 237u, 239u, 240u, 35u, 39u, 
+	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
+	97u, 122u, 123u, 126u, 196u, 202u, 208u, 218u, 
+	229u, 236u, 33u, 45u, 46u, 47u, 58u, 61u, 
+	63u, 64u, 35u, 39u, 42u, 43u, 48u, 57u, 
+	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
+	47u, 48u, 57u, 33u, 45u, 46u, 47u, 58u, 
+	61u, 63u, 64u, 122u, 35u, 39u, 42u, 43u, 
+	48u, 57u, 65u, 90u, 94u, 96u, 97u, 121u, 
+	123u, 126u, 33u, 45u, 46u, 47u, 58u, 61u, 
+	63u, 64u, 109u, 35u, 39u, 42u, 43u, 48u, 
+	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
 	126u, 33u, 45u, 46u, 47u, 58u, 61u, 63u, 
-	64u, 109u, 35u, 39u, 42u, 43u, 48u, 57u, 
+	64u, 117u, 35u, 39u, 42u, 43u, 48u, 57u, 
 	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
 	33u, 45u, 46u, 47u, 58u, 61u, 63u, 64u, 
-	117u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
+	118u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
 	90u, 94u, 96u, 97u, 122u, 123u, 126u, 33u, 
-	45u, 46u, 47u, 58u, 61u, 63u, 64u, 118u, 
-	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
-	46u, 47u, 58u, 61u, 63u, 64u, 102u, 116u, 
+	45u, 46u, 47u, 58u, 61u, 63u, 64u, 102u, 
+	116u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
+	90u, 94u, 96u, 97u, 122u, 123u, 126u, 33u, 
+	45u, 46u, 47u, 58u, 61u, 63u, 64u, 108u, 
 	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
 	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
-	46u, 47u, 58u, 61u, 63u, 64u, 108u, 35u, 
+	46u, 47u, 58u, 61u, 63u, 64u, 116u, 35u, 
 	39u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
 	96u, 97u, 122u, 123u, 126u, 33u, 45u, 46u, 
-	47u, 58u, 61u, 63u, 64u, 116u, 35u, 39u, 
+	47u, 58u, 61u, 63u, 64u, 103u, 35u, 39u, 
 	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
 	97u, 122u, 123u, 126u, 33u, 45u, 46u, 47u, 
-	58u, 61u, 63u, 64u, 103u, 35u, 39u, 42u, 
-	43u, 48u, 57u, 65u, 90u, 94u, 96u, 97u, 
-	122u, 123u, 126u, 33u, 45u, 46u, 47u, 61u, 
-	63u, 64u, 95u, 194u, 195u, 198u, 199u, 203u, 
-	205u, 206u, 207u, 210u, 212u, 213u, 214u, 215u, 
-	216u, 217u, 219u, 220u, 221u, 222u, 223u, 224u, 
-	225u, 226u, 227u, 228u, 233u, 234u, 237u, 239u, 
-	240u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
-	90u, 94u, 96u, 97u, 122u, 123u, 126u, 196u, 
-	202u, 208u, 218u, 229u, 236u, 33u, 45u, 46u, 
-	47u, 61u, 63u, 64u, 95u, 194u, 195u, 198u, 
-	199u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
-	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
-	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
-	237u, 239u, 240u, 35u, 39u, 42u, 43u, 48u, 
-	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
-	126u, 196u, 202u, 208u, 218u, 229u, 236u, 45u, 
-	95u, 194u, 195u, 198u, 199u, 203u, 205u, 206u, 
-	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
-	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
-	227u, 228u, 233u, 234u, 237u, 239u, 240u, 48u, 
-	57u, 65u, 90u, 97u, 122u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 33u, 45u, 46u, 47u, 61u, 
-	63u, 64u, 35u, 39u, 42u, 43u, 48u, 57u, 
-	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
-	47u, 95u, 44u, 58u, 64u, 90u, 97u, 122u, 
-	33u, 45u, 46u, 47u, 58u, 61u, 63u, 64u, 
-	95u, 194u, 195u, 198u, 199u, 203u, 205u, 206u, 
-	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
-	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
-	227u, 228u, 233u, 234u, 237u, 239u, 240u, 35u, 
-	39u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
-	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 33u, 38u, 39u, 45u, 46u, 
-	47u, 58u, 61u, 63u, 64u, 95u, 194u, 195u, 
-	198u, 199u, 203u, 205u, 206u, 207u, 210u, 212u, 
-	213u, 214u, 215u, 216u, 217u, 219u, 220u, 221u, 
-	222u, 223u, 224u, 225u, 226u, 227u, 228u, 233u, 
-	234u, 237u, 239u, 240u, 35u, 37u, 42u, 43u, 
-	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
-	123u, 126u, 196u, 202u, 208u, 218u, 229u, 236u, 
-	33u, 46u, 61u, 63u, 64u, 194u, 195u, 198u, 
-	199u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
-	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
-	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
-	237u, 239u, 240u, 35u, 39u, 42u, 43u, 45u, 
-	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
-	126u, 196u, 202u, 208u, 218u, 229u, 236u, 33u, 
-	46u, 61u, 63u, 64u, 194u, 195u, 198u, 199u, 
-	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
-	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
-	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
-	239u, 240u, 35u, 39u, 42u, 43u, 45u, 47u, 
-	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
-	123u, 126u, 196u, 202u, 208u, 218u, 229u, 236u, 
-	194u, 195u, 198u, 199u, 203u, 205u, 206u, 207u, 
-	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
-	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
-	228u, 233u, 234u, 237u, 239u, 240u, 48u, 57u, 
-	65u, 90u, 97u, 122u, 196u, 202u, 208u, 218u, 
-	229u, 236u, 33u, 46u, 61u, 63u, 64u, 83u, 
-	115u, 194u, 195u, 198u, 199u, 203u, 205u, 206u, 
-	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
-	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
-	227u, 228u, 233u, 234u, 237u, 239u, 240u, 35u, 
-	39u, 42u, 43u, 45u, 57u, 65u, 90u, 94u, 
-	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 33u, 46u, 61u, 63u, 64u, 
-	194u, 195u, 198u, 199u, 203u, 205u, 206u, 207u, 
-	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
-	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
-	228u, 233u, 234u, 237u, 239u, 240u, 35u, 39u, 
-	42u, 43u, 45u, 57u, 65u, 90u, 94u, 96u, 
-	97u, 122u, 123u, 126u, 196u, 202u, 208u, 218u, 
-	229u, 236u, 194u, 195u, 198u, 199u, 203u, 205u, 
+	61u, 63u, 64u, 95u, 194u, 195u, 203u, 205u, 
 	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
 	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
 	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
-	65u, 90u, 97u, 122u, 196u, 202u, 208u, 218u, 
-	229u, 236u, 33u, 45u, 46u, 47u, 61u, 63u, 
-	64u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
-	90u, 94u, 96u, 97u, 122u, 123u, 126u, 33u, 
-	45u, 46u, 47u, 61u, 63u, 64u, 105u, 35u, 
-	39u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
-	96u, 97u, 122u, 123u, 126u, 33u, 45u, 46u, 
-	47u, 61u, 63u, 64u, 111u, 35u, 39u, 42u, 
-	43u, 48u, 57u, 65u, 90u, 94u, 96u, 97u, 
-	122u, 123u, 126u, 33u, 45u, 46u, 47u, 61u, 
-	63u, 64u, 100u, 35u, 39u, 42u, 43u, 48u, 
-	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
-	126u, 33u, 45u, 46u, 47u, 61u, 63u, 64u, 
-	111u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
-	90u, 94u, 96u, 97u, 122u, 123u, 126u, 33u, 
-	45u, 46u, 47u, 61u, 63u, 64u, 110u, 35u, 
-	39u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
-	96u, 97u, 122u, 123u, 126u, 33u, 45u, 46u, 
-	47u, 61u, 63u, 64u, 105u, 35u, 39u, 42u, 
+	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
+	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
+	208u, 218u, 229u, 236u, 33u, 45u, 46u, 47u, 
+	61u, 63u, 64u, 95u, 194u, 195u, 203u, 205u, 
+	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
+	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
+	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
+	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
+	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
+	208u, 218u, 229u, 236u, 45u, 95u, 194u, 195u, 
+	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
+	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
+	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
+	239u, 240u, 48u, 57u, 65u, 90u, 97u, 122u, 
+	196u, 202u, 208u, 218u, 229u, 236u, 33u, 45u, 
+	46u, 47u, 61u, 63u, 64u, 35u, 39u, 42u, 
 	43u, 48u, 57u, 65u, 90u, 94u, 96u, 97u, 
-	122u, 123u, 126u, 33u, 45u, 46u, 47u, 61u, 
-	63u, 64u, 101u, 35u, 39u, 42u, 43u, 48u, 
+	122u, 123u, 126u, 47u, 95u, 44u, 58u, 64u, 
+	90u, 97u, 122u, 33u, 45u, 46u, 47u, 58u, 
+	61u, 63u, 64u, 95u, 194u, 195u, 203u, 205u, 
+	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
+	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
+	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
+	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
+	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
+	208u, 218u, 229u, 236u, 33u, 38u, 39u, 45u, 
+	46u, 47u, 58u, 61u, 63u, 64u, 95u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 35u, 37u, 42u, 43u, 48u, 
 	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
-	126u, 33u, 45u, 46u, 47u, 61u, 63u, 64u, 
-	114u, 35u, 39u, 42u, 43u, 48u, 57u, 65u, 
-	90u, 94u, 96u, 97u, 122u, 123u, 126u, 46u, 
-	33u, 38u, 39u, 45u, 46u, 47u, 58u, 61u, 
-	63u, 64u, 95u, 194u, 195u, 198u, 199u, 203u, 
-	205u, 206u, 207u, 210u, 212u, 213u, 214u, 215u, 
-	216u, 217u, 219u, 220u, 221u, 222u, 223u, 224u, 
-	225u, 226u, 227u, 228u, 233u, 234u, 237u, 239u, 
-	240u, 35u, 37u, 42u, 43u, 48u, 57u, 65u, 
-	90u, 94u, 96u, 97u, 122u, 123u, 126u, 196u, 
-	202u, 208u, 218u, 229u, 236u, 33u, 46u, 61u, 
-	64u, 83u, 115u, 35u, 39u, 42u, 43u, 45u, 
-	57u, 63u, 90u, 94u, 126u, 33u, 45u, 61u, 
-	63u, 91u, 194u, 195u, 198u, 199u, 203u, 205u, 
+	126u, 196u, 202u, 208u, 218u, 229u, 236u, 33u, 
+	46u, 61u, 63u, 64u, 194u, 195u, 203u, 205u, 
 	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
 	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
 	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
-	35u, 39u, 42u, 43u, 47u, 57u, 65u, 90u, 
+	35u, 39u, 42u, 43u, 45u, 57u, 65u, 90u, 
 	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
 	208u, 218u, 229u, 236u, 33u, 46u, 61u, 63u, 
-	194u, 195u, 198u, 199u, 203u, 205u, 206u, 207u, 
-	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
-	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
-	228u, 233u, 234u, 237u, 239u, 240u, 35u, 39u, 
-	42u, 43u, 45u, 47u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
-	208u, 218u, 229u, 236u, 38u, 39u, 45u, 64u, 
-	95u, 194u, 195u, 198u, 199u, 203u, 205u, 206u, 
+	64u, 194u, 195u, 203u, 205u, 206u, 207u, 210u, 
+	212u, 213u, 214u, 215u, 216u, 217u, 219u, 220u, 
+	221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 
+	233u, 234u, 237u, 239u, 240u, 35u, 39u, 42u, 
+	43u, 45u, 47u, 48u, 57u, 65u, 90u, 94u, 
+	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
+	218u, 229u, 236u, 194u, 195u, 203u, 205u, 206u, 
 	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
 	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
 	227u, 228u, 233u, 234u, 237u, 239u, 240u, 48u, 
 	57u, 65u, 90u, 97u, 122u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 194u, 195u, 198u, 199u, 203u, 
-	205u, 206u, 207u, 210u, 212u, 213u, 214u, 215u, 
-	216u, 217u, 219u, 220u, 221u, 222u, 223u, 224u, 
-	225u, 226u, 227u, 228u, 233u, 234u, 237u, 239u, 
-	240u, 65u, 90u, 97u, 122u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 83u, 115u, 33u, 38u, 39u, 
-	45u, 46u, 47u, 58u, 61u, 63u, 64u, 95u, 
-	194u, 195u, 198u, 199u, 203u, 205u, 206u, 207u, 
+	218u, 229u, 236u, 33u, 46u, 61u, 63u, 64u, 
+	83u, 115u, 194u, 195u, 203u, 205u, 206u, 207u, 
 	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
 	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
-	228u, 233u, 234u, 237u, 239u, 240u, 35u, 37u, 
-	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
+	228u, 233u, 234u, 237u, 239u, 240u, 35u, 39u, 
+	42u, 43u, 45u, 57u, 65u, 90u, 94u, 96u, 
 	97u, 122u, 123u, 126u, 196u, 202u, 208u, 218u, 
-	229u, 236u, 38u, 39u, 45u, 64u, 95u, 194u, 
-	195u, 198u, 199u, 203u, 205u, 206u, 207u, 210u, 
-	212u, 213u, 214u, 215u, 216u, 217u, 219u, 220u, 
-	221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 
-	233u, 234u, 237u, 239u, 240u, 48u, 57u, 65u, 
-	90u, 97u, 122u, 196u, 202u, 208u, 218u, 229u, 
-	236u, 83u, 115u, 194u, 195u, 198u, 199u, 203u, 
-	205u, 206u, 207u, 210u, 212u, 213u, 214u, 215u, 
-	216u, 217u, 219u, 220u, 221u, 222u, 223u, 224u, 
-	225u, 226u, 227u, 228u, 233u, 234u, 237u, 239u, 
-	240u, 65u, 90u, 97u, 122u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 33u, 38u, 39u, 45u, 46u, 
-	47u, 58u, 61u, 63u, 64u, 95u, 105u, 116u, 
-	194u, 195u, 198u, 199u, 203u, 205u, 206u, 207u, 
-	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
-	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
-	228u, 233u, 234u, 237u, 239u, 240u, 35u, 37u, 
+	229u, 236u, 33u, 46u, 61u, 63u, 64u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 35u, 39u, 42u, 43u, 45u, 
+	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
+	126u, 196u, 202u, 208u, 218u, 229u, 236u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 65u, 90u, 97u, 122u, 196u, 
+	202u, 208u, 218u, 229u, 236u, 33u, 45u, 46u, 
+	47u, 61u, 63u, 64u, 35u, 39u, 42u, 43u, 
+	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
+	123u, 126u, 33u, 45u, 46u, 47u, 61u, 63u, 
+	64u, 105u, 35u, 39u, 42u, 43u, 48u, 57u, 
+	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
+	33u, 45u, 46u, 47u, 61u, 63u, 64u, 111u, 
+	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
+	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
+	46u, 47u, 61u, 63u, 64u, 100u, 35u, 39u, 
 	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
-	97u, 122u, 123u, 126u, 196u, 202u, 208u, 218u, 
-	229u, 236u, 33u, 38u, 39u, 45u, 46u, 47u, 
-	58u, 61u, 63u, 64u, 95u, 108u, 194u, 195u, 
-	198u, 199u, 203u, 205u, 206u, 207u, 210u, 212u, 
-	213u, 214u, 215u, 216u, 217u, 219u, 220u, 221u, 
-	222u, 223u, 224u, 225u, 226u, 227u, 228u, 233u, 
-	234u, 237u, 239u, 240u, 35u, 37u, 42u, 43u, 
+	97u, 122u, 123u, 126u, 33u, 45u, 46u, 47u, 
+	61u, 63u, 64u, 111u, 35u, 39u, 42u, 43u, 
+	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
+	123u, 126u, 33u, 45u, 46u, 47u, 61u, 63u, 
+	64u, 110u, 35u, 39u, 42u, 43u, 48u, 57u, 
+	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
+	33u, 45u, 46u, 47u, 61u, 63u, 64u, 105u, 
+	35u, 39u, 42u, 43u, 48u, 57u, 65u, 90u, 
+	94u, 96u, 97u, 122u, 123u, 126u, 33u, 45u, 
+	46u, 47u, 61u, 63u, 64u, 101u, 35u, 39u, 
+	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
+	97u, 122u, 123u, 126u, 33u, 45u, 46u, 47u, 
+	61u, 63u, 64u, 114u, 35u, 39u, 42u, 43u, 
 	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
-	123u, 126u, 196u, 202u, 208u, 218u, 229u, 236u, 
-	33u, 38u, 39u, 45u, 46u, 47u, 58u, 61u, 
-	63u, 64u, 95u, 101u, 194u, 195u, 198u, 199u, 
+	123u, 126u, 46u, 33u, 38u, 39u, 45u, 46u, 
+	47u, 58u, 61u, 63u, 64u, 95u, 194u, 195u, 
 	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
 	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
 	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
 	239u, 240u, 35u, 37u, 42u, 43u, 48u, 57u, 
 	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
-	196u, 202u, 208u, 218u, 229u, 236u, 33u, 38u, 
-	39u, 45u, 46u, 47u, 58u, 61u, 63u, 64u, 
-	95u, 194u, 195u, 198u, 199u, 203u, 205u, 206u, 
+	196u, 202u, 208u, 218u, 229u, 236u, 33u, 46u, 
+	61u, 64u, 83u, 115u, 35u, 39u, 42u, 43u, 
+	45u, 57u, 63u, 90u, 94u, 126u, 33u, 45u, 
+	61u, 63u, 91u, 194u, 195u, 203u, 205u, 206u, 
 	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
 	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
 	227u, 228u, 233u, 234u, 237u, 239u, 240u, 35u, 
-	37u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
+	39u, 42u, 43u, 47u, 57u, 65u, 90u, 94u, 
 	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
-	218u, 229u, 236u, 45u, 47u, 58u, 64u, 95u, 
-	44u, 46u, 48u, 57u, 65u, 90u, 97u, 122u, 
-	33u, 38u, 39u, 45u, 46u, 47u, 58u, 61u, 
-	63u, 64u, 95u, 112u, 194u, 195u, 198u, 199u, 
+	218u, 229u, 236u, 33u, 46u, 61u, 63u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 35u, 39u, 42u, 43u, 45u, 
+	47u, 48u, 57u, 65u, 90u, 94u, 96u, 97u, 
+	122u, 123u, 126u, 196u, 202u, 208u, 218u, 229u, 
+	236u, 38u, 39u, 45u, 64u, 95u, 194u, 195u, 
 	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
 	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
 	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
-	239u, 240u, 35u, 37u, 42u, 43u, 48u, 57u, 
-	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
-	196u, 202u, 208u, 218u, 229u, 236u, 33u, 38u, 
+	239u, 240u, 48u, 57u, 65u, 90u, 97u, 122u, 
+	196u, 202u, 208u, 218u, 229u, 236u, 194u, 195u, 
+	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
+	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
+	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
+	239u, 240u, 65u, 90u, 97u, 122u, 196u, 202u, 
+	208u, 218u, 229u, 236u, 83u, 115u, 33u, 38u, 
 	39u, 45u, 46u, 47u, 58u, 61u, 63u, 64u, 
-	95u, 116u, 194u, 195u, 198u, 199u, 203u, 205u, 
-	206u, 207u, 210u, 212u, 213u, 214u, 215u, 216u, 
-	217u, 219u, 220u, 221u, 222u, 223u, 224u, 225u, 
-	226u, 227u, 228u, 233u, 234u, 237u, 239u, 240u, 
-	35u, 37u, 42u, 43u, 48u, 57u, 65u, 90u, 
-	94u, 96u, 97u, 122u, 123u, 126u, 196u, 202u, 
-	208u, 218u, 229u, 236u, 33u, 38u, 39u, 45u, 
-	46u, 47u, 58u, 61u, 63u, 64u, 95u, 116u, 
-	194u, 195u, 198u, 199u, 203u, 205u, 206u, 207u, 
-	210u, 212u, 213u, 214u, 215u, 216u, 217u, 219u, 
-	220u, 221u, 222u, 223u, 224u, 225u, 226u, 227u, 
-	228u, 233u, 234u, 237u, 239u, 240u, 35u, 37u, 
-	42u, 43u, 48u, 57u, 65u, 90u, 94u, 96u, 
-	97u, 122u, 123u, 126u, 196u, 202u, 208u, 218u, 
-	229u, 236u, 33u, 38u, 39u, 45u, 46u, 47u, 
-	58u, 61u, 63u, 64u, 95u, 112u, 194u, 195u, 
-	198u, 199u, 203u, 205u, 206u, 207u, 210u, 212u, 
+	95u, 194u, 195u, 203u, 205u, 206u, 207u, 210u, 
+	212u, 213u, 214u, 215u, 216u, 217u, 219u, 220u, 
+	221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 
+	233u, 234u, 237u, 239u, 240u, 35u, 37u, 42u, 
+	43u, 48u, 57u, 65u, 90u, 94u, 96u, 97u, 
+	122u, 123u, 126u, 196u, 202u, 208u, 218u, 229u, 
+	236u, 38u, 39u, 45u, 64u, 95u, 194u, 195u, 
+	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
+	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
+	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
+	239u, 240u, 48u, 57u, 65u, 90u, 97u, 122u, 
+	196u, 202u, 208u, 218u, 229u, 236u, 83u, 115u, 
+	194u, 195u, 203u, 205u, 206u, 207u, 210u, 212u, 
 	213u, 214u, 215u, 216u, 217u, 219u, 220u, 221u, 
 	222u, 223u, 224u, 225u, 226u, 227u, 228u, 233u, 
-	234u, 237u, 239u, 240u, 35u, 37u, 42u, 43u, 
-	48u, 57u, 65u, 90u, 94u, 96u, 97u, 122u, 
-	123u, 126u, 196u, 202u, 208u, 218u, 229u, 236u, 
-	33u, 38u, 39u, 45u, 46u, 47u, 58u, 61u, 
-	63u, 64u, 95u, 115u, 194u, 195u, 198u, 199u, 
+	234u, 237u, 239u, 240u, 65u, 90u, 97u, 122u, 
+	196u, 202u, 208u, 218u, 229u, 236u, 33u, 38u, 
+	39u, 45u, 46u, 47u, 58u, 61u, 63u, 64u, 
+	95u, 105u, 116u, 194u, 195u, 203u, 205u, 206u, 
+	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
+	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
+	227u, 228u, 233u, 234u, 237u, 239u, 240u, 35u, 
+	37u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
+	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
+	218u, 229u, 236u, 33u, 38u, 39u, 45u, 46u, 
+	47u, 58u, 61u, 63u, 64u, 95u, 108u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 35u, 37u, 42u, 43u, 48u, 
+	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
+	126u, 196u, 202u, 208u, 218u, 229u, 236u, 33u, 
+	38u, 39u, 45u, 46u, 47u, 58u, 61u, 63u, 
+	64u, 95u, 101u, 194u, 195u, 203u, 205u, 206u, 
+	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
+	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
+	227u, 228u, 233u, 234u, 237u, 239u, 240u, 35u, 
+	37u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
+	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
+	218u, 229u, 236u, 33u, 38u, 39u, 45u, 46u, 
+	47u, 58u, 61u, 63u, 64u, 95u, 194u, 195u, 
 	203u, 205u, 206u, 207u, 210u, 212u, 213u, 214u, 
 	215u, 216u, 217u, 219u, 220u, 221u, 222u, 223u, 
 	224u, 225u, 226u, 227u, 228u, 233u, 234u, 237u, 
 	239u, 240u, 35u, 37u, 42u, 43u, 48u, 57u, 
 	65u, 90u, 94u, 96u, 97u, 122u, 123u, 126u, 
-	196u, 202u, 208u, 218u, 229u, 236u, 170u, 181u, 
-	186u, 38u, 39u, 45u, 46u, 64u, 95u, 194u, 
-	195u, 198u, 199u, 203u, 205u, 206u, 207u, 210u, 
-	212u, 213u, 214u, 215u, 216u, 217u, 219u, 220u, 
-	221u, 222u, 223u, 224u, 225u, 226u, 227u, 228u, 
-	233u, 234u, 237u, 239u, 240u, 48u, 57u, 65u, 
-	90u, 97u, 122u, 196u, 202u, 208u, 218u, 229u, 
-	236u, 128u, 150u, 152u, 182u, 184u, 255u, 192u, 
-	255u, 0u, 127u, 173u, 130u, 133u, 146u, 159u, 
-	165u, 171u, 175u, 255u, 133u, 176u, 180u, 182u, 
-	183u, 186u, 189u, 134u, 140u, 136u, 138u, 142u, 
-	161u, 163u, 255u, 182u, 130u, 137u, 164u, 176u, 
-	151u, 152u, 154u, 160u, 190u, 136u, 175u, 192u, 
-	255u, 135u, 129u, 130u, 132u, 133u, 144u, 170u, 
-	176u, 178u, 144u, 154u, 161u, 191u, 128u, 151u, 
-	153u, 158u, 174u, 255u, 148u, 157u, 160u, 169u, 
-	172u, 176u, 185u, 189u, 190u, 192u, 255u, 144u, 
-	191u, 141u, 255u, 178u, 255u, 186u, 138u, 170u, 
-	180u, 181u, 164u, 165u, 166u, 167u, 168u, 169u, 
-	170u, 171u, 172u, 173u, 174u, 175u, 176u, 177u, 
-	178u, 179u, 180u, 181u, 182u, 183u, 184u, 185u, 
-	186u, 187u, 188u, 189u, 190u, 128u, 129u, 130u, 
-	131u, 133u, 134u, 135u, 137u, 138u, 139u, 140u, 
-	141u, 142u, 143u, 144u, 153u, 154u, 155u, 156u, 
-	157u, 158u, 159u, 160u, 161u, 162u, 164u, 165u, 
-	166u, 167u, 168u, 172u, 173u, 174u, 176u, 177u, 
-	180u, 181u, 182u, 184u, 188u, 189u, 190u, 191u, 
-	132u, 136u, 145u, 152u, 185u, 187u, 129u, 130u, 
+	196u, 202u, 208u, 218u, 229u, 236u, 45u, 47u, 
+	58u, 64u, 95u, 44u, 46u, 48u, 57u, 65u, 
+	90u, 97u, 122u, 33u, 38u, 39u, 45u, 46u, 
+	47u, 58u, 61u, 63u, 64u, 95u, 112u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 35u, 37u, 42u, 43u, 48u, 
+	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
+	126u, 196u, 202u, 208u, 218u, 229u, 236u, 33u, 
+	38u, 39u, 45u, 46u, 47u, 58u, 61u, 63u, 
+	64u, 95u, 116u, 194u, 195u, 203u, 205u, 206u, 
+	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
+	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
+	227u, 228u, 233u, 234u, 237u, 239u, 240u, 35u, 
+	37u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
+	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
+	218u, 229u, 236u, 33u, 38u, 39u, 45u, 46u, 
+	47u, 58u, 61u, 63u, 64u, 95u, 116u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 35u, 37u, 42u, 43u, 48u, 
+	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
+	126u, 196u, 202u, 208u, 218u, 229u, 236u, 33u, 
+	38u, 39u, 45u, 46u, 47u, 58u, 61u, 63u, 
+	64u, 95u, 112u, 194u, 195u, 203u, 205u, 206u, 
+	207u, 210u, 212u, 213u, 214u, 215u, 216u, 217u, 
+	219u, 220u, 221u, 222u, 223u, 224u, 225u, 226u, 
+	227u, 228u, 233u, 234u, 237u, 239u, 240u, 35u, 
+	37u, 42u, 43u, 48u, 57u, 65u, 90u, 94u, 
+	96u, 97u, 122u, 123u, 126u, 196u, 202u, 208u, 
+	218u, 229u, 236u, 33u, 38u, 39u, 45u, 46u, 
+	47u, 58u, 61u, 63u, 64u, 95u, 115u, 194u, 
+	195u, 203u, 205u, 206u, 207u, 210u, 212u, 213u, 
+	214u, 215u, 216u, 217u, 219u, 220u, 221u, 222u, 
+	223u, 224u, 225u, 226u, 227u, 228u, 233u, 234u, 
+	237u, 239u, 240u, 35u, 37u, 42u, 43u, 48u, 
+	57u, 65u, 90u, 94u, 96u, 97u, 122u, 123u, 
+	126u, 196u, 202u, 208u, 218u, 229u, 236u, 170u, 
+	181u, 186u, 38u, 39u, 45u, 46u, 64u, 95u, 
+	194u, 195u, 203u, 205u, 206u, 207u, 210u, 212u, 
+	213u, 214u, 215u, 216u, 217u, 219u, 220u, 221u, 
+	222u, 223u, 224u, 225u, 226u, 227u, 228u, 233u, 
+	234u, 237u, 239u, 240u, 48u, 57u, 65u, 90u, 
+	97u, 122u, 196u, 202u, 208u, 218u, 229u, 236u, 
+	128u, 150u, 152u, 182u, 184u, 191u, 128u, 191u, 
+	172u, 174u, 128u, 129u, 134u, 145u, 160u, 164u, 
+	133u, 176u, 180u, 182u, 183u, 186u, 189u, 134u, 
+	140u, 136u, 138u, 142u, 161u, 163u, 191u, 128u, 
+	181u, 183u, 191u, 128u, 129u, 138u, 191u, 128u, 
+	163u, 177u, 191u, 153u, 128u, 150u, 161u, 191u, 
+	191u, 128u, 135u, 176u, 189u, 135u, 129u, 130u, 
+	132u, 133u, 144u, 170u, 176u, 178u, 144u, 154u, 
+	161u, 191u, 128u, 151u, 153u, 158u, 174u, 191u, 
+	191u, 128u, 147u, 149u, 156u, 161u, 168u, 173u, 
+	175u, 186u, 188u, 144u, 191u, 141u, 191u, 128u, 
+	177u, 186u, 138u, 170u, 180u, 181u, 164u, 165u, 
+	166u, 167u, 168u, 169u, 170u, 171u, 172u, 173u, 
+	174u, 175u, 176u, 177u, 178u, 179u, 180u, 181u, 
+	182u, 183u, 184u, 185u, 186u, 187u, 188u, 189u, 
+	190u, 128u, 129u, 130u, 131u, 133u, 134u, 135u, 
+	137u, 138u, 139u, 140u, 141u, 142u, 143u, 144u, 
+	153u, 154u, 155u, 156u, 157u, 158u, 159u, 160u, 
+	161u, 162u, 164u, 165u, 166u, 167u, 168u, 172u, 
+	173u, 174u, 176u, 177u, 188u, 189u, 190u, 191u, 
+	132u, 152u, 180u, 182u, 184u, 187u, 129u, 130u, 
 	132u, 133u, 134u, 146u, 147u, 176u, 177u, 178u, 
 	179u, 180u, 181u, 182u, 183u, 184u, 128u, 129u, 
-	130u, 131u, 132u, 133u, 134u, 135u, 144u, 145u, 
-	255u, 182u, 183u, 184u, 191u, 192u, 255u, 128u, 
-	146u, 148u, 152u, 153u, 154u, 156u, 157u, 158u, 
-	159u, 160u, 161u, 162u, 163u, 164u, 165u, 168u, 
-	169u, 176u, 129u, 145u, 149u, 151u, 177u, 255u, 
-	158u, 159u, 255u, 164u, 168u, 169u, 171u, 172u, 
-	173u, 174u, 175u, 180u, 181u, 182u, 183u, 185u, 
-	186u, 187u, 188u, 189u, 190u, 191u, 165u, 179u, 
-	144u, 146u, 157u, 160u, 170u, 175u, 161u, 169u, 
-	0
+	130u, 131u, 132u, 133u, 134u, 135u, 144u, 191u, 
+	182u, 128u, 181u, 184u, 191u, 128u, 191u, 191u, 
+	128u, 190u, 146u, 152u, 153u, 154u, 156u, 158u, 
+	159u, 160u, 161u, 163u, 164u, 165u, 168u, 169u, 
+	128u, 145u, 148u, 151u, 157u, 162u, 176u, 191u, 
+	158u, 128u, 157u, 168u, 169u, 171u, 172u, 173u, 
+	174u, 175u, 180u, 181u, 182u, 183u, 185u, 186u, 
+	187u, 188u, 189u, 190u, 191u, 164u, 179u, 144u, 
+	146u, 157u, 170u, 175u, 160u, 169u, 0
 };
 
 static const char _StdTok_single_lengths[] = {
 	0, 0, 4, 4, 5, 4, 2, 0, 
-	2, 1, 0, 5, 37, 7, 7, 13, 
+	2, 1, 0, 5, 35, 7, 7, 13, 
 	7, 0, 8, 8, 8, 8, 8, 8, 
-	8, 8, 8, 35, 3, 30, 0, 0, 
-	0, 0, 1, 1, 2, 1, 0, 0, 
-	0, 1, 1, 0, 0, 1, 0, 0, 
-	0, 1, 27, 0, 0, 1, 2, 0, 
-	1, 0, 2, 0, 1, 1, 2, 0, 
-	3, 0, 1, 0, 2, 1, 1, 0, 
-	1, 5, 2, 1, 0, 0, 43, 1, 
-	0, 0, 1, 0, 0, 0, 3, 2, 
-	1, 1, 0, 0, 0, 0, 0, 0, 
+	8, 8, 8, 33, 3, 28, 0, 0, 
+	2, 1, 2, 0, 0, 0, 1, 1, 
+	1, 0, 0, 1, 0, 0, 0, 1, 
+	27, 0, 1, 1, 2, 0, 2, 0, 
+	1, 0, 1, 1, 2, 0, 0, 0, 
+	1, 0, 1, 1, 1, 0, 1, 5, 
+	2, 1, 0, 0, 39, 1, 0, 1, 
+	1, 0, 0, 0, 1, 0, 1, 0, 
+	1, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 2, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 3, 1, 0, 16, 2, 0, 6, 
+	1, 0, 0, 0, 0, 0, 0, 0, 
+	1, 0, 0, 1, 8, 0, 0, 0, 
+	0, 0, 0, 1, 0, 1, 0, 14, 
+	0, 0, 1, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 1, 0, 18, 
+	0, 0, 0, 1, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 5, 
+	15, 1, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 3, 0, 0, 3, 0, 
+	0, 11, 0, 2, 0, 0, 1, 0, 
+	1, 0, 0, 0, 0, 1, 0, 1, 
+	13, 1, 1, 3, 0, 0, 2, 1, 
+	2, 0, 0, 0, 1, 1, 1, 0, 
+	0, 1, 0, 0, 0, 1, 27, 0, 
+	1, 1, 2, 0, 2, 0, 1, 0, 
+	1, 1, 2, 0, 0, 0, 1, 0, 
+	1, 1, 1, 0, 1, 5, 2, 1, 
+	0, 0, 39, 1, 0, 1, 1, 0, 
+	0, 0, 1, 0, 1, 0, 1, 0, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	2, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 3, 
+	1, 0, 16, 2, 0, 6, 1, 0, 
 	0, 0, 0, 0, 0, 0, 1, 0, 
-	0, 0, 0, 4, 1, 0, 16, 2, 
-	0, 6, 1, 0, 0, 0, 0, 2, 
-	0, 0, 0, 0, 0, 1, 9, 0, 
-	1, 1, 0, 0, 0, 3, 0, 0, 
-	1, 0, 19, 0, 0, 1, 0, 0, 
-	0, 0, 3, 0, 0, 0, 0, 0, 
-	1, 0, 19, 0, 0, 0, 1, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 6, 17, 0, 0, 0, 
+	0, 1, 8, 0, 0, 0, 0, 0, 
+	0, 1, 0, 1, 0, 14, 0, 0, 
+	1, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 1, 0, 18, 0, 0, 
+	0, 1, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 5, 15, 1, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 3, 0, 0, 3, 0, 0, 11, 
+	0, 2, 0, 0, 1, 0, 1, 0, 
+	0, 0, 0, 1, 0, 1, 3, 0, 
+	0, 2, 1, 2, 0, 0, 0, 1, 
+	1, 1, 0, 0, 1, 0, 0, 0, 
+	1, 27, 0, 1, 1, 2, 0, 2, 
+	0, 1, 0, 1, 1, 2, 0, 0, 
+	0, 1, 0, 1, 1, 1, 0, 1, 
+	5, 2, 1, 0, 0, 39, 1, 0, 
+	1, 1, 0, 0, 0, 1, 0, 1, 
+	0, 1, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 2, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 3, 1, 0, 16, 2, 0, 
+	6, 1, 0, 0, 0, 0, 0, 0, 
+	0, 1, 0, 0, 1, 8, 0, 0, 
+	0, 0, 0, 0, 1, 0, 1, 0, 
+	14, 0, 0, 1, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 1, 0, 
-	3, 0, 0, 4, 0, 0, 12, 1, 
-	4, 1, 4, 1, 0, 3, 2, 2, 
-	2, 1, 1, 1, 0, 2, 13, 1, 
-	1, 3, 0, 0, 0, 0, 1, 1, 
-	2, 1, 0, 0, 0, 1, 1, 0, 
+	18, 0, 0, 0, 1, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	5, 15, 1, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 3, 0, 0, 3, 
+	0, 0, 11, 0, 2, 0, 0, 1, 
+	0, 1, 0, 0, 0, 0, 1, 0, 
+	1, 41, 3, 28, 0, 0, 2, 1, 
+	2, 0, 0, 0, 1, 1, 1, 0, 
 	0, 1, 0, 0, 0, 1, 27, 0, 
-	0, 1, 2, 0, 1, 0, 2, 0, 
-	1, 1, 2, 0, 3, 0, 1, 0, 
-	2, 1, 1, 0, 1, 5, 2, 1, 
-	0, 0, 43, 1, 0, 0, 1, 0, 
-	0, 0, 3, 2, 1, 1, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 1, 0, 0, 0, 0, 4, 
+	1, 1, 2, 0, 2, 0, 1, 0, 
+	1, 1, 2, 0, 0, 0, 1, 0, 
+	1, 1, 1, 0, 1, 5, 2, 1, 
+	0, 0, 39, 1, 0, 1, 1, 0, 
+	0, 0, 1, 0, 1, 0, 1, 0, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	2, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 3, 
 	1, 0, 16, 2, 0, 6, 1, 0, 
+	0, 0, 0, 0, 0, 0, 1, 0, 
+	0, 1, 8, 0, 0, 0, 0, 0, 
+	0, 1, 0, 1, 0, 14, 0, 0, 
+	1, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 1, 0, 18, 0, 0, 
+	0, 1, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 5, 15, 1, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 3, 0, 0, 3, 0, 0, 11, 
+	0, 2, 0, 0, 1, 0, 1, 0, 
+	0, 0, 0, 1, 0, 1, 3, 0, 
+	0, 2, 1, 2, 0, 0, 0, 1, 
+	1, 1, 0, 0, 1, 0, 0, 0, 
+	1, 27, 0, 1, 1, 2, 0, 2, 
+	0, 1, 0, 1, 1, 2, 0, 0, 
+	0, 1, 0, 1, 1, 1, 0, 1, 
+	5, 2, 1, 0, 0, 39, 1, 0, 
+	1, 1, 0, 0, 0, 1, 0, 1, 
+	0, 1, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 2, 0, 0, 0, 0, 
-	0, 1, 9, 0, 1, 1, 0, 0, 
-	0, 3, 0, 0, 1, 0, 19, 0, 
-	0, 1, 0, 0, 0, 0, 3, 0, 
-	0, 0, 0, 0, 1, 0, 19, 0, 
-	0, 0, 1, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 6, 
-	17, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 1, 0, 3, 0, 0, 4, 
-	0, 0, 12, 1, 4, 1, 4, 1, 
-	0, 3, 2, 2, 2, 1, 1, 1, 
-	0, 2, 3, 0, 0, 0, 0, 1, 
-	1, 2, 1, 0, 0, 0, 1, 1, 
-	0, 0, 1, 0, 0, 0, 1, 27, 
-	0, 0, 1, 2, 0, 1, 0, 2, 
-	0, 1, 1, 2, 0, 3, 0, 1, 
-	0, 2, 1, 1, 0, 1, 5, 2, 
-	1, 0, 0, 43, 1, 0, 0, 1, 
-	0, 0, 0, 3, 2, 1, 1, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 1, 0, 0, 0, 0, 
-	4, 1, 0, 16, 2, 0, 6, 1, 
-	0, 0, 0, 0, 2, 0, 0, 0, 
-	0, 0, 1, 9, 0, 1, 1, 0, 
-	0, 0, 3, 0, 0, 1, 0, 19, 
-	0, 0, 1, 0, 0, 0, 0, 3, 
-	0, 0, 0, 0, 0, 1, 0, 19, 
-	0, 0, 0, 1, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	6, 17, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 1, 0, 3, 0, 0, 
-	4, 0, 0, 12, 1, 4, 1, 4, 
-	1, 0, 3, 2, 2, 2, 1, 1, 
-	1, 0, 2, 43, 3, 30, 0, 0, 
-	0, 0, 1, 1, 2, 1, 0, 0, 
-	0, 1, 1, 0, 0, 1, 0, 0, 
-	0, 1, 27, 0, 0, 1, 2, 0, 
-	1, 0, 2, 0, 1, 1, 2, 0, 
-	3, 0, 1, 0, 2, 1, 1, 0, 
-	1, 5, 2, 1, 0, 0, 43, 1, 
-	0, 0, 1, 0, 0, 0, 3, 2, 
-	1, 1, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 3, 1, 0, 16, 2, 0, 
+	6, 1, 0, 0, 0, 0, 0, 0, 
+	0, 1, 0, 0, 1, 8, 0, 0, 
+	0, 0, 0, 0, 1, 0, 1, 0, 
+	14, 0, 0, 1, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 1, 0, 
-	0, 0, 0, 4, 1, 0, 16, 2, 
-	0, 6, 1, 0, 0, 0, 0, 2, 
-	0, 0, 0, 0, 0, 1, 9, 0, 
-	1, 1, 0, 0, 0, 3, 0, 0, 
-	1, 0, 19, 0, 0, 1, 0, 0, 
-	0, 0, 3, 0, 0, 0, 0, 0, 
-	1, 0, 19, 0, 0, 0, 1, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 6, 17, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 1, 0, 
-	3, 0, 0, 4, 0, 0, 12, 1, 
-	4, 1, 4, 1, 0, 3, 2, 2, 
-	2, 1, 1, 1, 0, 2, 3, 0, 
-	0, 0, 0, 1, 1, 2, 1, 0, 
-	0, 0, 1, 1, 0, 0, 1, 0, 
-	0, 0, 1, 27, 0, 0, 1, 2, 
-	0, 1, 0, 2, 0, 1, 1, 2, 
-	0, 3, 0, 1, 0, 2, 1, 1, 
-	0, 1, 5, 2, 1, 0, 0, 43, 
-	1, 0, 0, 1, 0, 0, 0, 3, 
-	2, 1, 1, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 1, 
-	0, 0, 0, 0, 4, 1, 0, 16, 
-	2, 0, 6, 1, 0, 0, 0, 0, 
-	2, 0, 0, 0, 0, 0, 1, 9, 
-	0, 1, 1, 0, 0, 0, 3, 0, 
-	0, 1, 0, 19, 0, 0, 1, 0, 
-	0, 0, 0, 3, 0, 0, 0, 0, 
-	0, 1, 0, 19, 0, 0, 0, 1, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 6, 17, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 1, 
-	0, 3, 0, 0, 4, 0, 0, 12, 
-	1, 4, 1, 4, 1, 0, 3, 2, 
-	2, 2, 1, 1, 1, 0, 2, 3, 
-	0, 0, 0, 0, 1, 1, 2, 1, 
-	0, 0, 0, 1, 1, 0, 0, 1, 
-	0, 0, 0, 1, 27, 0, 0, 1, 
-	2, 0, 1, 0, 2, 0, 1, 1, 
-	2, 0, 3, 0, 1, 0, 2, 1, 
+	18, 0, 0, 0, 1, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	5, 15, 1, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 3, 0, 0, 3, 
+	0, 0, 11, 0, 2, 0, 0, 1, 
+	0, 1, 0, 0, 0, 0, 1, 0, 
+	1, 3, 0, 0, 2, 1, 2, 0, 
+	0, 0, 1, 1, 1, 0, 0, 1, 
+	0, 0, 0, 1, 27, 0, 1, 1, 
+	2, 0, 2, 0, 1, 0, 1, 1, 
+	2, 0, 0, 0, 1, 0, 1, 1, 
 	1, 0, 1, 5, 2, 1, 0, 0, 
-	43, 1, 0, 0, 1, 0, 0, 0, 
-	3, 2, 1, 1, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
+	39, 1, 0, 1, 1, 0, 0, 0, 
+	1, 0, 1, 0, 1, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 2, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	1, 0, 0, 0, 0, 4, 1, 0, 
+	0, 0, 0, 0, 0, 3, 1, 0, 
 	16, 2, 0, 6, 1, 0, 0, 0, 
-	0, 2, 0, 0, 0, 0, 0, 1, 
-	9, 0, 1, 1, 0, 0, 0, 3, 
-	0, 0, 1, 0, 19, 0, 0, 1, 
-	0, 0, 0, 0, 3, 0, 0, 0, 
-	0, 0, 1, 0, 19, 0, 0, 0, 
-	1, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 6, 17, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	1, 0, 3, 0, 0, 4, 0, 0, 
-	12, 1, 4, 1, 4, 1, 0, 3, 
-	2, 2, 2, 1, 1, 1, 0, 2, 
-	1, 5, 0, 0, 1, 2, 0, 1, 
-	0, 2, 0, 1, 1, 2, 0, 3, 
-	0, 1, 0, 2, 1, 1, 0, 1, 
-	5, 2, 1, 0, 0, 1, 0, 0, 
-	1, 0, 0, 0, 0, 3, 2, 1, 
-	1, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 1, 0, 0, 1, 
+	8, 0, 0, 0, 0, 0, 0, 1, 
+	0, 1, 0, 14, 0, 0, 1, 0, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 1, 0, 18, 0, 0, 0, 1, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 5, 15, 1, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 3, 
+	0, 0, 3, 0, 0, 11, 0, 2, 
+	0, 0, 1, 0, 1, 0, 0, 0, 
+	0, 1, 0, 1, 1, 5, 0, 1, 
+	1, 2, 0, 2, 0, 1, 0, 1, 
+	1, 2, 0, 0, 0, 1, 0, 1, 
+	1, 1, 0, 1, 5, 2, 1, 0, 
+	0, 1, 0, 1, 1, 0, 0, 0, 
+	0, 1, 0, 1, 0, 1, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 2, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 3, 1, 
+	0, 2, 0, 6, 1, 0, 0, 0, 
+	0, 0, 0, 0, 1, 0, 0, 1, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 1, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 1, 0, 
-	0, 0, 0, 0, 4, 1, 0, 2, 
-	0, 6, 1, 0, 0, 0, 0, 2, 
-	0, 0, 0, 0, 0, 1, 0, 1, 
 	1, 0, 0, 0, 0, 0, 0, 0, 
-	1, 0, 0, 0, 0, 3, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 1, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 17, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 1, 
-	0, 3, 0, 0, 4, 0, 0, 12, 
-	1, 4, 1, 4, 1, 0, 3, 2, 
-	2, 2, 1, 1, 0, 1, 0, 2, 
-	0, 40, 4, 4, 2, 4, 4, 4, 
-	39, 8, 1, 9, 9, 9, 9, 10, 
-	9, 9, 9, 38, 38, 32, 7, 2, 
-	39, 41, 35, 35, 30, 37, 35, 30, 
-	7, 8, 8, 8, 8, 8, 8, 8, 
-	8, 1, 41, 6, 35, 34, 35, 30, 
-	2, 41, 35, 32, 43, 42, 42, 41, 
-	5, 42, 42, 42, 42, 42, 3, 36, 
-	0, 0, 0, 0, 1, 1, 2, 1, 
-	0, 0, 0, 1, 1, 0, 0, 1, 
-	0, 0, 0, 1, 27, 43, 16, 9, 
-	3, 0, 1, 19, 1, 19, 6
+	0, 0, 0, 0, 0, 0, 15, 1, 
+	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 3, 0, 0, 3, 0, 0, 11, 
+	0, 2, 0, 0, 1, 0, 1, 0, 
+	0, 0, 0, 0, 1, 0, 1, 0, 
+	38, 4, 4, 2, 4, 4, 4, 37, 
+	8, 1, 9, 9, 9, 9, 10, 9, 
+	9, 9, 36, 36, 30, 7, 2, 37, 
+	39, 33, 33, 28, 35, 33, 28, 7, 
+	8, 8, 8, 8, 8, 8, 8, 8, 
+	1, 39, 6, 33, 32, 33, 28, 2, 
+	39, 33, 30, 41, 40, 40, 39, 5, 
+	40, 40, 40, 40, 40, 3, 34, 0, 
+	0, 2, 1, 2, 0, 0, 0, 1, 
+	1, 1, 0, 0, 1, 0, 0, 0, 
+	1, 27, 39, 16, 8, 1, 0, 1, 
+	14, 1, 18, 5
 };
 
 static const char _StdTok_range_lengths[] = {
 	0, 0, 5, 5, 5, 5, 5, 3, 
 	4, 0, 3, 5, 10, 7, 7, 7, 
 	7, 1, 7, 7, 7, 7, 7, 7, 
-	7, 7, 7, 11, 0, 6, 3, 0, 
-	1, 1, 4, 3, 3, 0, 1, 1, 
-	2, 2, 4, 2, 3, 5, 1, 1, 
-	1, 2, 0, 2, 5, 7, 6, 9, 
-	6, 8, 3, 8, 6, 10, 3, 7, 
-	3, 7, 5, 6, 4, 4, 4, 1, 
-	1, 8, 2, 0, 3, 4, 3, 2, 
-	3, 2, 2, 1, 1, 1, 2, 3, 
-	3, 1, 2, 2, 1, 1, 2, 2, 
-	2, 3, 4, 2, 3, 1, 1, 1, 
-	3, 2, 2, 1, 1, 2, 1, 2, 
-	1, 2, 2, 3, 2, 7, 0, 0, 
-	1, 5, 2, 1, 1, 1, 2, 1, 
-	1, 2, 2, 5, 5, 0, 1, 4, 
-	1, 1, 2, 2, 1, 0, 1, 0, 
-	1, 1, 3, 1, 3, 2, 1, 2, 
-	2, 1, 1, 1, 2, 1, 1, 1, 
-	1, 1, 1, 1, 1, 1, 5, 3, 
-	1, 1, 1, 1, 2, 2, 1, 1, 
-	2, 1, 4, 1, 0, 5, 2, 1, 
-	1, 2, 1, 2, 1, 2, 2, 1, 
-	3, 2, 5, 1, 1, 1, 1, 0, 
-	3, 0, 2, 3, 1, 0, 0, 0, 
-	0, 1, 1, 1, 1, 1, 7, 0, 
-	3, 0, 3, 0, 1, 1, 4, 3, 
-	3, 0, 1, 1, 2, 2, 4, 2, 
+	7, 7, 7, 11, 0, 6, 3, 1, 
+	3, 3, 3, 2, 2, 2, 2, 2, 
+	4, 2, 3, 5, 1, 1, 1, 2, 
+	0, 2, 4, 7, 6, 9, 5, 8, 
+	4, 8, 6, 10, 3, 7, 6, 7, 
+	5, 6, 5, 4, 4, 1, 1, 8, 
+	2, 0, 3, 4, 3, 2, 3, 2, 
+	2, 2, 2, 1, 5, 5, 3, 3, 
+	1, 2, 1, 1, 2, 2, 2, 3, 
+	4, 2, 1, 1, 1, 1, 3, 2, 
+	2, 1, 1, 2, 2, 2, 1, 2, 
+	3, 4, 2, 7, 0, 0, 1, 5, 
+	2, 1, 1, 1, 2, 3, 1, 2, 
+	1, 5, 5, 0, 1, 4, 3, 2, 
+	2, 2, 1, 2, 1, 1, 1, 4, 
+	1, 3, 2, 1, 2, 2, 1, 4, 
+	1, 2, 1, 1, 1, 1, 1, 1, 
+	2, 2, 1, 5, 3, 1, 1, 2, 
+	2, 2, 1, 1, 2, 1, 4, 1, 
+	1, 4, 2, 1, 2, 1, 2, 1, 
+	2, 3, 1, 3, 2, 5, 1, 1, 
+	1, 1, 2, 6, 2, 6, 3, 2, 
+	3, 3, 3, 3, 2, 1, 1, 1, 
+	7, 0, 3, 0, 3, 1, 3, 3, 
+	3, 2, 2, 2, 2, 2, 4, 2, 
 	3, 5, 1, 1, 1, 2, 0, 2, 
-	5, 7, 6, 9, 6, 8, 3, 8, 
-	6, 10, 3, 7, 3, 7, 5, 6, 
-	4, 4, 4, 1, 1, 8, 2, 0, 
-	3, 4, 3, 2, 3, 2, 2, 1, 
-	1, 1, 2, 3, 3, 1, 2, 2, 
+	4, 7, 6, 9, 5, 8, 4, 8, 
+	6, 10, 3, 7, 6, 7, 5, 6, 
+	5, 4, 4, 1, 1, 8, 2, 0, 
+	3, 4, 3, 2, 3, 2, 2, 2, 
+	2, 1, 5, 5, 3, 3, 1, 2, 
 	1, 1, 2, 2, 2, 3, 4, 2, 
-	3, 1, 1, 1, 3, 2, 2, 1, 
-	1, 2, 1, 2, 1, 2, 2, 3, 
+	1, 1, 1, 1, 3, 2, 2, 1, 
+	1, 2, 2, 2, 1, 2, 3, 4, 
 	2, 7, 0, 0, 1, 5, 2, 1, 
-	1, 1, 2, 1, 1, 2, 2, 5, 
-	5, 0, 1, 4, 1, 1, 2, 2, 
-	1, 0, 1, 0, 1, 1, 3, 1, 
-	3, 2, 1, 2, 2, 1, 1, 1, 
-	2, 1, 1, 1, 1, 1, 1, 1, 
-	1, 1, 5, 3, 1, 1, 1, 1, 
-	2, 2, 1, 1, 2, 1, 4, 1, 
-	0, 5, 2, 1, 1, 2, 1, 2, 
-	1, 2, 2, 1, 3, 2, 5, 1, 
-	1, 1, 1, 0, 3, 0, 2, 3, 
-	1, 0, 0, 0, 0, 1, 1, 1, 
-	1, 1, 0, 3, 0, 1, 1, 4, 
-	3, 3, 0, 1, 1, 2, 2, 4, 
-	2, 3, 5, 1, 1, 1, 2, 0, 
-	2, 5, 7, 6, 9, 6, 8, 3, 
-	8, 6, 10, 3, 7, 3, 7, 5, 
-	6, 4, 4, 4, 1, 1, 8, 2, 
-	0, 3, 4, 3, 2, 3, 2, 2, 
-	1, 1, 1, 2, 3, 3, 1, 2, 
-	2, 1, 1, 2, 2, 2, 3, 4, 
-	2, 3, 1, 1, 1, 3, 2, 2, 
-	1, 1, 2, 1, 2, 1, 2, 2, 
-	3, 2, 7, 0, 0, 1, 5, 2, 
-	1, 1, 1, 2, 1, 1, 2, 2, 
-	5, 5, 0, 1, 4, 1, 1, 2, 
-	2, 1, 0, 1, 0, 1, 1, 3, 
-	1, 3, 2, 1, 2, 2, 1, 1, 
-	1, 2, 1, 1, 1, 1, 1, 1, 
-	1, 1, 1, 5, 3, 1, 1, 1, 
-	1, 2, 2, 1, 1, 2, 1, 4, 
-	1, 0, 5, 2, 1, 1, 2, 1, 
-	2, 1, 2, 2, 1, 3, 2, 5, 
-	1, 1, 1, 1, 0, 3, 0, 2, 
-	3, 1, 0, 0, 0, 0, 1, 1, 
-	1, 1, 1, 10, 0, 5, 3, 0, 
-	1, 1, 4, 3, 3, 0, 1, 1, 
-	2, 2, 4, 2, 3, 5, 1, 1, 
-	1, 2, 0, 2, 5, 7, 6, 9, 
-	6, 8, 3, 8, 6, 10, 3, 7, 
-	3, 7, 5, 6, 4, 4, 4, 1, 
-	1, 8, 2, 0, 3, 4, 3, 2, 
-	3, 2, 2, 1, 1, 1, 2, 3, 
-	3, 1, 2, 2, 1, 1, 2, 2, 
-	2, 3, 4, 2, 3, 1, 1, 1, 
-	3, 2, 2, 1, 1, 2, 1, 2, 
-	1, 2, 2, 3, 2, 7, 0, 0, 
-	1, 5, 2, 1, 1, 1, 2, 1, 
-	1, 2, 2, 5, 5, 0, 1, 4, 
-	1, 1, 2, 2, 1, 0, 1, 0, 
-	1, 1, 3, 1, 3, 2, 1, 2, 
-	2, 1, 1, 1, 2, 1, 1, 1, 
-	1, 1, 1, 1, 1, 1, 5, 3, 
-	1, 1, 1, 1, 2, 2, 1, 1, 
-	2, 1, 4, 1, 0, 5, 2, 1, 
-	1, 2, 1, 2, 1, 2, 2, 1, 
-	3, 2, 5, 1, 1, 1, 1, 0, 
-	3, 0, 2, 3, 1, 0, 0, 0, 
-	0, 1, 1, 1, 1, 1, 0, 3, 
-	0, 1, 1, 4, 3, 3, 0, 1, 
-	1, 2, 2, 4, 2, 3, 5, 1, 
-	1, 1, 2, 0, 2, 5, 7, 6, 
-	9, 6, 8, 3, 8, 6, 10, 3, 
-	7, 3, 7, 5, 6, 4, 4, 4, 
-	1, 1, 8, 2, 0, 3, 4, 3, 
-	2, 3, 2, 2, 1, 1, 1, 2, 
-	3, 3, 1, 2, 2, 1, 1, 2, 
-	2, 2, 3, 4, 2, 3, 1, 1, 
-	1, 3, 2, 2, 1, 1, 2, 1, 
-	2, 1, 2, 2, 3, 2, 7, 0, 
-	0, 1, 5, 2, 1, 1, 1, 2, 
-	1, 1, 2, 2, 5, 5, 0, 1, 
-	4, 1, 1, 2, 2, 1, 0, 1, 
-	0, 1, 1, 3, 1, 3, 2, 1, 
-	2, 2, 1, 1, 1, 2, 1, 1, 
-	1, 1, 1, 1, 1, 1, 1, 5, 
-	3, 1, 1, 1, 1, 2, 2, 1, 
-	1, 2, 1, 4, 1, 0, 5, 2, 
-	1, 1, 2, 1, 2, 1, 2, 2, 
+	1, 1, 2, 3, 1, 2, 1, 5, 
+	5, 0, 1, 4, 3, 2, 2, 2, 
+	1, 2, 1, 1, 1, 4, 1, 3, 
+	2, 1, 2, 2, 1, 4, 1, 2, 
+	1, 1, 1, 1, 1, 1, 2, 2, 
+	1, 5, 3, 1, 1, 2, 2, 2, 
+	1, 1, 2, 1, 4, 1, 1, 4, 
+	2, 1, 2, 1, 2, 1, 2, 3, 
+	1, 3, 2, 5, 1, 1, 1, 1, 
+	2, 6, 2, 6, 3, 2, 3, 3, 
+	3, 3, 2, 1, 1, 1, 0, 3, 
+	1, 3, 3, 3, 2, 2, 2, 2, 
+	2, 4, 2, 3, 5, 1, 1, 1, 
+	2, 0, 2, 4, 7, 6, 9, 5, 
+	8, 4, 8, 6, 10, 3, 7, 6, 
+	7, 5, 6, 5, 4, 4, 1, 1, 
+	8, 2, 0, 3, 4, 3, 2, 3, 
+	2, 2, 2, 2, 1, 5, 5, 3, 
+	3, 1, 2, 1, 1, 2, 2, 2, 
+	3, 4, 2, 1, 1, 1, 1, 3, 
+	2, 2, 1, 1, 2, 2, 2, 1, 
+	2, 3, 4, 2, 7, 0, 0, 1, 
+	5, 2, 1, 1, 1, 2, 3, 1, 
+	2, 1, 5, 5, 0, 1, 4, 3, 
+	2, 2, 2, 1, 2, 1, 1, 1, 
+	4, 1, 3, 2, 1, 2, 2, 1, 
+	4, 1, 2, 1, 1, 1, 1, 1, 
+	1, 2, 2, 1, 5, 3, 1, 1, 
+	2, 2, 2, 1, 1, 2, 1, 4, 
+	1, 1, 4, 2, 1, 2, 1, 2, 
+	1, 2, 3, 1, 3, 2, 5, 1, 
+	1, 1, 1, 2, 6, 2, 6, 3, 
+	2, 3, 3, 3, 3, 2, 1, 1, 
+	1, 10, 0, 5, 3, 1, 3, 3, 
+	3, 2, 2, 2, 2, 2, 4, 2, 
+	3, 5, 1, 1, 1, 2, 0, 2, 
+	4, 7, 6, 9, 5, 8, 4, 8, 
+	6, 10, 3, 7, 6, 7, 5, 6, 
+	5, 4, 4, 1, 1, 8, 2, 0, 
+	3, 4, 3, 2, 3, 2, 2, 2, 
+	2, 1, 5, 5, 3, 3, 1, 2, 
+	1, 1, 2, 2, 2, 3, 4, 2, 
+	1, 1, 1, 1, 3, 2, 2, 1, 
+	1, 2, 2, 2, 1, 2, 3, 4, 
+	2, 7, 0, 0, 1, 5, 2, 1, 
+	1, 1, 2, 3, 1, 2, 1, 5, 
+	5, 0, 1, 4, 3, 2, 2, 2, 
+	1, 2, 1, 1, 1, 4, 1, 3, 
+	2, 1, 2, 2, 1, 4, 1, 2, 
+	1, 1, 1, 1, 1, 1, 2, 2, 
+	1, 5, 3, 1, 1, 2, 2, 2, 
+	1, 1, 2, 1, 4, 1, 1, 4, 
+	2, 1, 2, 1, 2, 1, 2, 3, 
 	1, 3, 2, 5, 1, 1, 1, 1, 
-	0, 3, 0, 2, 3, 1, 0, 0, 
-	0, 0, 1, 1, 1, 1, 1, 0, 
-	3, 0, 1, 1, 4, 3, 3, 0, 
-	1, 1, 2, 2, 4, 2, 3, 5, 
-	1, 1, 1, 2, 0, 2, 5, 7, 
-	6, 9, 6, 8, 3, 8, 6, 10, 
-	3, 7, 3, 7, 5, 6, 4, 4, 
+	2, 6, 2, 6, 3, 2, 3, 3, 
+	3, 3, 2, 1, 1, 1, 0, 3, 
+	1, 3, 3, 3, 2, 2, 2, 2, 
+	2, 4, 2, 3, 5, 1, 1, 1, 
+	2, 0, 2, 4, 7, 6, 9, 5, 
+	8, 4, 8, 6, 10, 3, 7, 6, 
+	7, 5, 6, 5, 4, 4, 1, 1, 
+	8, 2, 0, 3, 4, 3, 2, 3, 
+	2, 2, 2, 2, 1, 5, 5, 3, 
+	3, 1, 2, 1, 1, 2, 2, 2, 
+	3, 4, 2, 1, 1, 1, 1, 3, 
+	2, 2, 1, 1, 2, 2, 2, 1, 
+	2, 3, 4, 2, 7, 0, 0, 1, 
+	5, 2, 1, 1, 1, 2, 3, 1, 
+	2, 1, 5, 5, 0, 1, 4, 3, 
+	2, 2, 2, 1, 2, 1, 1, 1, 
+	4, 1, 3, 2, 1, 2, 2, 1, 
+	4, 1, 2, 1, 1, 1, 1, 1, 
+	1, 2, 2, 1, 5, 3, 1, 1, 
+	2, 2, 2, 1, 1, 2, 1, 4, 
+	1, 1, 4, 2, 1, 2, 1, 2, 
+	1, 2, 3, 1, 3, 2, 5, 1, 
+	1, 1, 1, 2, 6, 2, 6, 3, 
+	2, 3, 3, 3, 3, 2, 1, 1, 
+	1, 0, 3, 1, 3, 3, 3, 2, 
+	2, 2, 2, 2, 4, 2, 3, 5, 
+	1, 1, 1, 2, 0, 2, 4, 7, 
+	6, 9, 5, 8, 4, 8, 6, 10, 
+	3, 7, 6, 7, 5, 6, 5, 4, 
 	4, 1, 1, 8, 2, 0, 3, 4, 
-	3, 2, 3, 2, 2, 1, 1, 1, 
-	2, 3, 3, 1, 2, 2, 1, 1, 
-	2, 2, 2, 3, 4, 2, 3, 1, 
+	3, 2, 3, 2, 2, 2, 2, 1, 
+	5, 5, 3, 3, 1, 2, 1, 1, 
+	2, 2, 2, 3, 4, 2, 1, 1, 
 	1, 1, 3, 2, 2, 1, 1, 2, 
-	1, 2, 1, 2, 2, 3, 2, 7, 
+	2, 2, 1, 2, 3, 4, 2, 7, 
 	0, 0, 1, 5, 2, 1, 1, 1, 
-	2, 1, 1, 2, 2, 5, 5, 0, 
-	1, 4, 1, 1, 2, 2, 1, 0, 
-	1, 0, 1, 1, 3, 1, 3, 2, 
-	1, 2, 2, 1, 1, 1, 2, 1, 
-	1, 1, 1, 1, 1, 1, 1, 1, 
+	2, 3, 1, 2, 1, 5, 5, 0, 
+	1, 4, 3, 2, 2, 2, 1, 2, 
+	1, 1, 1, 4, 1, 3, 2, 1, 
+	2, 2, 1, 4, 1, 2, 1, 1, 
+	1, 1, 1, 1, 2, 2, 1, 5, 
+	3, 1, 1, 2, 2, 2, 1, 1, 
+	2, 1, 4, 1, 1, 4, 2, 1, 
+	2, 1, 2, 1, 2, 3, 1, 3, 
+	2, 5, 1, 1, 1, 1, 2, 6, 
+	2, 6, 3, 2, 3, 3, 3, 3, 
+	2, 1, 1, 1, 0, 4, 2, 4, 
+	7, 6, 9, 5, 8, 4, 8, 6, 
+	10, 3, 7, 6, 7, 5, 6, 5, 
+	4, 4, 1, 1, 8, 2, 0, 3, 
+	4, 2, 3, 2, 2, 1, 2, 2, 
+	1, 5, 5, 3, 3, 1, 2, 1, 
+	1, 2, 2, 2, 3, 4, 2, 1, 
+	1, 1, 1, 3, 2, 2, 1, 1, 
+	2, 2, 2, 1, 2, 3, 4, 2, 
+	7, 0, 1, 5, 2, 1, 1, 1, 
+	2, 3, 1, 2, 1, 5, 5, 0, 
+	4, 3, 2, 2, 2, 1, 1, 1, 
+	3, 2, 1, 2, 2, 1, 4, 1, 
+	2, 1, 1, 1, 1, 2, 2, 1, 
 	5, 3, 1, 1, 1, 1, 2, 2, 
-	1, 1, 2, 1, 4, 1, 0, 5, 
-	2, 1, 1, 2, 1, 2, 1, 2, 
-	2, 1, 3, 2, 5, 1, 1, 1, 
-	1, 0, 3, 0, 2, 3, 1, 0, 
-	0, 0, 0, 1, 1, 1, 1, 1, 
-	0, 4, 2, 5, 7, 6, 9, 6, 
-	8, 3, 8, 6, 10, 3, 7, 3, 
-	7, 5, 6, 4, 4, 4, 1, 1, 
-	8, 2, 0, 3, 4, 2, 3, 2, 
-	2, 1, 1, 1, 1, 2, 3, 3, 
-	1, 2, 2, 1, 1, 0, 2, 2, 
-	2, 3, 4, 2, 3, 1, 1, 1, 
-	3, 2, 2, 1, 1, 2, 1, 2, 
-	1, 2, 1, 2, 3, 2, 7, 0, 
-	1, 5, 2, 1, 1, 1, 2, 1, 
-	1, 2, 2, 5, 5, 0, 4, 1, 
-	1, 2, 2, 1, 1, 1, 1, 3, 
-	2, 1, 2, 2, 1, 1, 1, 2, 
-	1, 1, 1, 1, 1, 1, 1, 5, 
-	3, 1, 1, 1, 1, 1, 2, 2, 
-	1, 1, 2, 1, 4, 0, 5, 2, 
-	1, 1, 2, 1, 2, 1, 2, 2, 
+	2, 1, 1, 2, 1, 4, 1, 4, 
+	2, 1, 2, 1, 2, 1, 2, 3, 
 	1, 3, 2, 5, 1, 1, 1, 1, 
-	0, 3, 0, 2, 3, 1, 0, 0, 
-	0, 0, 1, 1, 0, 1, 1, 1, 
-	0, 9, 5, 5, 4, 6, 6, 6, 
-	10, 7, 1, 7, 7, 7, 7, 7, 
-	7, 7, 7, 10, 10, 6, 7, 3, 
-	10, 10, 10, 11, 6, 10, 10, 5, 
+	2, 6, 2, 6, 3, 2, 3, 3, 
+	3, 3, 2, 1, 1, 1, 1, 0, 
+	9, 5, 5, 4, 6, 6, 6, 10, 
+	7, 1, 7, 7, 7, 7, 7, 7, 
+	7, 7, 10, 10, 6, 7, 3, 10, 
+	10, 10, 11, 6, 10, 10, 5, 7, 
 	7, 7, 7, 7, 7, 7, 7, 7, 
-	7, 0, 10, 5, 10, 11, 6, 5, 
-	0, 10, 6, 5, 10, 10, 10, 10, 
-	4, 10, 10, 10, 10, 10, 0, 6, 
-	3, 0, 1, 1, 4, 3, 3, 0, 
-	1, 1, 2, 2, 4, 2, 3, 5, 
-	1, 1, 1, 2, 0, 3, 0, 1, 
-	0, 0, 1, 3, 1, 1, 1
+	0, 10, 5, 10, 11, 6, 5, 0, 
+	10, 6, 5, 10, 10, 10, 10, 4, 
+	10, 10, 10, 10, 10, 0, 6, 3, 
+	1, 3, 3, 3, 2, 2, 2, 2, 
+	2, 4, 2, 3, 5, 1, 1, 1, 
+	2, 0, 3, 0, 1, 2, 1, 1, 
+	4, 1, 1, 1
 };
 
 static const short _StdTok_index_offsets[] = {
 	0, 0, 1, 11, 21, 32, 42, 50, 
-	54, 61, 63, 67, 78, 126, 141, 156, 
-	177, 192, 194, 210, 226, 242, 258, 274, 
-	290, 306, 322, 338, 385, 389, 426, 430, 
-	431, 433, 435, 441, 446, 452, 454, 456, 
-	458, 461, 465, 471, 474, 478, 485, 487, 
-	489, 491, 495, 523, 526, 532, 541, 550, 
-	560, 568, 577, 583, 592, 600, 612, 618, 
-	626, 633, 641, 648, 655, 662, 668, 674, 
-	676, 679, 693, 698, 700, 704, 709, 756, 
-	760, 764, 767, 771, 773, 775, 777, 783, 
-	789, 794, 797, 800, 803, 805, 807, 810, 
-	813, 816, 820, 825, 828, 832, 834, 836, 
-	838, 842, 845, 848, 850, 852, 855, 858, 
-	861, 863, 866, 869, 877, 881, 889, 906, 
-	909, 911, 923, 927, 929, 931, 933, 936, 
-	940, 942, 945, 948, 954, 960, 962, 973, 
-	978, 981, 984, 987, 990, 992, 996, 998, 
-	999, 1002, 1004, 1027, 1029, 1033, 1037, 1039, 
-	1042, 1045, 1047, 1052, 1054, 1057, 1059, 1061, 
-	1063, 1066, 1068, 1089, 1091, 1093, 1095, 1102, 
-	1106, 1108, 1110, 1112, 1114, 1117, 1120, 1122, 
-	1124, 1127, 1129, 1134, 1142, 1160, 1166, 1169, 
-	1171, 1173, 1176, 1178, 1181, 1183, 1186, 1190, 
-	1192, 1199, 1202, 1208, 1214, 1216, 1218, 1232, 
-	1234, 1242, 1244, 1251, 1256, 1258, 1262, 1265, 
-	1268, 1271, 1274, 1277, 1280, 1282, 1286, 1307, 
-	1309, 1314, 1318, 1322, 1323, 1325, 1327, 1333, 
-	1338, 1344, 1346, 1348, 1350, 1353, 1357, 1363, 
-	1366, 1370, 1377, 1379, 1381, 1383, 1387, 1415, 
-	1418, 1424, 1433, 1442, 1452, 1460, 1469, 1475, 
-	1484, 1492, 1504, 1510, 1518, 1525, 1533, 1540, 
-	1547, 1554, 1560, 1566, 1568, 1571, 1585, 1590, 
-	1592, 1596, 1601, 1648, 1652, 1656, 1659, 1663, 
-	1665, 1667, 1669, 1675, 1681, 1686, 1689, 1692, 
-	1695, 1697, 1699, 1702, 1705, 1708, 1712, 1717, 
-	1720, 1724, 1726, 1728, 1730, 1734, 1737, 1740, 
-	1742, 1744, 1747, 1750, 1753, 1755, 1758, 1761, 
-	1769, 1773, 1781, 1798, 1801, 1803, 1815, 1819, 
-	1821, 1823, 1825, 1828, 1832, 1834, 1837, 1840, 
-	1846, 1852, 1854, 1865, 1870, 1873, 1876, 1879, 
-	1882, 1884, 1888, 1890, 1891, 1894, 1896, 1919, 
-	1921, 1925, 1929, 1931, 1934, 1937, 1939, 1944, 
-	1946, 1949, 1951, 1953, 1955, 1958, 1960, 1981, 
-	1983, 1985, 1987, 1994, 1998, 2000, 2002, 2004, 
-	2006, 2009, 2012, 2014, 2016, 2019, 2021, 2026, 
-	2034, 2052, 2058, 2061, 2063, 2065, 2068, 2070, 
-	2073, 2075, 2078, 2082, 2084, 2091, 2094, 2100, 
-	2106, 2108, 2110, 2124, 2126, 2134, 2136, 2143, 
-	2148, 2150, 2154, 2157, 2160, 2163, 2166, 2169, 
-	2172, 2174, 2178, 2182, 2186, 2187, 2189, 2191, 
-	2197, 2202, 2208, 2210, 2212, 2214, 2217, 2221, 
-	2227, 2230, 2234, 2241, 2243, 2245, 2247, 2251, 
-	2279, 2282, 2288, 2297, 2306, 2316, 2324, 2333, 
-	2339, 2348, 2356, 2368, 2374, 2382, 2389, 2397, 
-	2404, 2411, 2418, 2424, 2430, 2432, 2435, 2449, 
-	2454, 2456, 2460, 2465, 2512, 2516, 2520, 2523, 
-	2527, 2529, 2531, 2533, 2539, 2545, 2550, 2553, 
-	2556, 2559, 2561, 2563, 2566, 2569, 2572, 2576, 
-	2581, 2584, 2588, 2590, 2592, 2594, 2598, 2601, 
-	2604, 2606, 2608, 2611, 2614, 2617, 2619, 2622, 
-	2625, 2633, 2637, 2645, 2662, 2665, 2667, 2679, 
-	2683, 2685, 2687, 2689, 2692, 2696, 2698, 2701, 
-	2704, 2710, 2716, 2718, 2729, 2734, 2737, 2740, 
-	2743, 2746, 2748, 2752, 2754, 2755, 2758, 2760, 
-	2783, 2785, 2789, 2793, 2795, 2798, 2801, 2803, 
-	2808, 2810, 2813, 2815, 2817, 2819, 2822, 2824, 
-	2845, 2847, 2849, 2851, 2858, 2862, 2864, 2866, 
-	2868, 2870, 2873, 2876, 2878, 2880, 2883, 2885, 
-	2890, 2898, 2916, 2922, 2925, 2927, 2929, 2932, 
-	2934, 2937, 2939, 2942, 2946, 2948, 2955, 2958, 
-	2964, 2970, 2972, 2974, 2988, 2990, 2998, 3000, 
-	3007, 3012, 3014, 3018, 3021, 3024, 3027, 3030, 
-	3033, 3036, 3038, 3042, 3096, 3100, 3136, 3140, 
-	3141, 3143, 3145, 3151, 3156, 3162, 3164, 3166, 
-	3168, 3171, 3175, 3181, 3184, 3188, 3195, 3197, 
-	3199, 3201, 3205, 3233, 3236, 3242, 3251, 3260, 
-	3270, 3278, 3287, 3293, 3302, 3310, 3322, 3328, 
-	3336, 3343, 3351, 3358, 3365, 3372, 3378, 3384, 
-	3386, 3389, 3403, 3408, 3410, 3414, 3419, 3466, 
-	3470, 3474, 3477, 3481, 3483, 3485, 3487, 3493, 
-	3499, 3504, 3507, 3510, 3513, 3515, 3517, 3520, 
-	3523, 3526, 3530, 3535, 3538, 3542, 3544, 3546, 
-	3548, 3552, 3555, 3558, 3560, 3562, 3565, 3568, 
-	3571, 3573, 3576, 3579, 3587, 3591, 3599, 3616, 
-	3619, 3621, 3633, 3637, 3639, 3641, 3643, 3646, 
-	3650, 3652, 3655, 3658, 3664, 3670, 3672, 3683, 
-	3688, 3691, 3694, 3697, 3700, 3702, 3706, 3708, 
-	3709, 3712, 3714, 3737, 3739, 3743, 3747, 3749, 
-	3752, 3755, 3757, 3762, 3764, 3767, 3769, 3771, 
-	3773, 3776, 3778, 3799, 3801, 3803, 3805, 3812, 
-	3816, 3818, 3820, 3822, 3824, 3827, 3830, 3832, 
-	3834, 3837, 3839, 3844, 3852, 3870, 3876, 3879, 
-	3881, 3883, 3886, 3888, 3891, 3893, 3896, 3900, 
-	3902, 3909, 3912, 3918, 3924, 3926, 3928, 3942, 
-	3944, 3952, 3954, 3961, 3966, 3968, 3972, 3975, 
-	3978, 3981, 3984, 3987, 3990, 3992, 3996, 4000, 
-	4004, 4005, 4007, 4009, 4015, 4020, 4026, 4028, 
-	4030, 4032, 4035, 4039, 4045, 4048, 4052, 4059, 
-	4061, 4063, 4065, 4069, 4097, 4100, 4106, 4115, 
-	4124, 4134, 4142, 4151, 4157, 4166, 4174, 4186, 
-	4192, 4200, 4207, 4215, 4222, 4229, 4236, 4242, 
-	4248, 4250, 4253, 4267, 4272, 4274, 4278, 4283, 
-	4330, 4334, 4338, 4341, 4345, 4347, 4349, 4351, 
-	4357, 4363, 4368, 4371, 4374, 4377, 4379, 4381, 
-	4384, 4387, 4390, 4394, 4399, 4402, 4406, 4408, 
-	4410, 4412, 4416, 4419, 4422, 4424, 4426, 4429, 
-	4432, 4435, 4437, 4440, 4443, 4451, 4455, 4463, 
-	4480, 4483, 4485, 4497, 4501, 4503, 4505, 4507, 
-	4510, 4514, 4516, 4519, 4522, 4528, 4534, 4536, 
-	4547, 4552, 4555, 4558, 4561, 4564, 4566, 4570, 
-	4572, 4573, 4576, 4578, 4601, 4603, 4607, 4611, 
-	4613, 4616, 4619, 4621, 4626, 4628, 4631, 4633, 
-	4635, 4637, 4640, 4642, 4663, 4665, 4667, 4669, 
-	4676, 4680, 4682, 4684, 4686, 4688, 4691, 4694, 
-	4696, 4698, 4701, 4703, 4708, 4716, 4734, 4740, 
-	4743, 4745, 4747, 4750, 4752, 4755, 4757, 4760, 
-	4764, 4766, 4773, 4776, 4782, 4788, 4790, 4792, 
-	4806, 4808, 4816, 4818, 4825, 4830, 4832, 4836, 
-	4839, 4842, 4845, 4848, 4851, 4854, 4856, 4860, 
-	4864, 4868, 4869, 4871, 4873, 4879, 4884, 4890, 
-	4892, 4894, 4896, 4899, 4903, 4909, 4912, 4916, 
-	4923, 4925, 4927, 4929, 4933, 4961, 4964, 4970, 
-	4979, 4988, 4998, 5006, 5015, 5021, 5030, 5038, 
-	5050, 5056, 5064, 5071, 5079, 5086, 5093, 5100, 
-	5106, 5112, 5114, 5117, 5131, 5136, 5138, 5142, 
-	5147, 5194, 5198, 5202, 5205, 5209, 5211, 5213, 
-	5215, 5221, 5227, 5232, 5235, 5238, 5241, 5243, 
-	5245, 5248, 5251, 5254, 5258, 5263, 5266, 5270, 
-	5272, 5274, 5276, 5280, 5283, 5286, 5288, 5290, 
-	5293, 5296, 5299, 5301, 5304, 5307, 5315, 5319, 
-	5327, 5344, 5347, 5349, 5361, 5365, 5367, 5369, 
-	5371, 5374, 5378, 5380, 5383, 5386, 5392, 5398, 
-	5400, 5411, 5416, 5419, 5422, 5425, 5428, 5430, 
-	5434, 5436, 5437, 5440, 5442, 5465, 5467, 5471, 
-	5475, 5477, 5480, 5483, 5485, 5490, 5492, 5495, 
-	5497, 5499, 5501, 5504, 5506, 5527, 5529, 5531, 
-	5533, 5540, 5544, 5546, 5548, 5550, 5552, 5555, 
-	5558, 5560, 5562, 5565, 5567, 5572, 5580, 5598, 
-	5604, 5607, 5609, 5611, 5614, 5616, 5619, 5621, 
-	5624, 5628, 5630, 5637, 5640, 5646, 5652, 5654, 
-	5656, 5670, 5672, 5680, 5682, 5689, 5694, 5696, 
-	5700, 5703, 5706, 5709, 5712, 5715, 5718, 5720, 
-	5724, 5726, 5736, 5739, 5745, 5754, 5763, 5773, 
-	5781, 5790, 5796, 5805, 5813, 5825, 5831, 5839, 
-	5846, 5854, 5861, 5868, 5875, 5881, 5887, 5889, 
-	5892, 5906, 5911, 5913, 5917, 5922, 5926, 5930, 
-	5933, 5937, 5939, 5941, 5943, 5945, 5951, 5957, 
-	5962, 5965, 5968, 5971, 5973, 5975, 5976, 5979, 
-	5982, 5985, 5989, 5994, 5997, 6001, 6003, 6005, 
-	6007, 6011, 6014, 6017, 6019, 6021, 6024, 6027, 
-	6030, 6032, 6035, 6037, 6040, 6048, 6052, 6060, 
-	6063, 6065, 6077, 6081, 6083, 6085, 6087, 6090, 
-	6094, 6096, 6099, 6102, 6108, 6114, 6116, 6121, 
-	6124, 6127, 6130, 6133, 6135, 6137, 6139, 6141, 
-	6145, 6149, 6151, 6154, 6157, 6159, 6164, 6166, 
-	6169, 6171, 6173, 6175, 6177, 6179, 6181, 6183, 
-	6190, 6194, 6196, 6198, 6200, 6202, 6204, 6207, 
-	6210, 6212, 6214, 6217, 6219, 6224, 6242, 6248, 
-	6251, 6253, 6255, 6258, 6260, 6263, 6265, 6268, 
-	6272, 6274, 6281, 6284, 6290, 6296, 6298, 6300, 
-	6314, 6316, 6324, 6326, 6333, 6338, 6340, 6344, 
-	6347, 6350, 6353, 6356, 6359, 6360, 6363, 6365, 
-	6369, 6370, 6420, 6430, 6440, 6447, 6458, 6469, 
-	6480, 6530, 6546, 6549, 6566, 6583, 6600, 6617, 
-	6635, 6652, 6669, 6686, 6735, 6784, 6823, 6838, 
-	6844, 6894, 6946, 6992, 7039, 7076, 7124, 7170, 
-	7206, 7221, 7237, 7253, 7269, 7285, 7301, 7317, 
-	7333, 7349, 7351, 7403, 7415, 7461, 7507, 7549, 
-	7585, 7588, 7640, 7682, 7720, 7774, 7827, 7880, 
-	7932, 7942, 7995, 8048, 8101, 8154, 8207, 8211, 
-	8254, 8258, 8259, 8261, 8263, 8269, 8274, 8280, 
-	8282, 8284, 8286, 8289, 8293, 8299, 8302, 8306, 
-	8313, 8315, 8317, 8319, 8323, 8351, 8398, 8415, 
-	8426, 8430, 8431, 8434, 8457, 8460, 8481
+	54, 61, 63, 67, 78, 124, 139, 154, 
+	175, 190, 192, 208, 224, 240, 256, 272, 
+	288, 304, 320, 336, 381, 385, 420, 424, 
+	426, 432, 437, 443, 446, 449, 452, 456, 
+	460, 466, 469, 473, 480, 482, 484, 486, 
+	490, 518, 521, 527, 536, 545, 555, 563, 
+	572, 578, 587, 595, 607, 613, 621, 628, 
+	636, 643, 650, 657, 663, 669, 671, 674, 
+	688, 693, 695, 699, 704, 747, 751, 755, 
+	759, 763, 766, 769, 771, 778, 784, 789, 
+	793, 796, 799, 801, 803, 806, 809, 812, 
+	816, 821, 824, 828, 830, 832, 834, 838, 
+	841, 844, 846, 848, 851, 854, 857, 859, 
+	862, 866, 874, 878, 886, 903, 906, 908, 
+	920, 924, 926, 928, 930, 933, 937, 939, 
+	942, 945, 951, 957, 959, 969, 974, 978, 
+	981, 984, 987, 989, 993, 995, 998, 1000, 
+	1019, 1021, 1025, 1029, 1031, 1034, 1037, 1039, 
+	1044, 1046, 1049, 1051, 1053, 1055, 1058, 1060, 
+	1080, 1083, 1086, 1088, 1095, 1099, 1101, 1103, 
+	1106, 1109, 1112, 1114, 1116, 1119, 1121, 1126, 
+	1133, 1150, 1156, 1159, 1161, 1164, 1166, 1169, 
+	1171, 1174, 1178, 1180, 1187, 1190, 1196, 1201, 
+	1203, 1205, 1218, 1221, 1230, 1233, 1240, 1245, 
+	1248, 1253, 1257, 1261, 1265, 1268, 1271, 1273, 
+	1276, 1297, 1299, 1304, 1308, 1312, 1314, 1320, 
+	1325, 1331, 1334, 1337, 1340, 1344, 1348, 1354, 
+	1357, 1361, 1368, 1370, 1372, 1374, 1378, 1406, 
+	1409, 1415, 1424, 1433, 1443, 1451, 1460, 1466, 
+	1475, 1483, 1495, 1501, 1509, 1516, 1524, 1531, 
+	1538, 1545, 1551, 1557, 1559, 1562, 1576, 1581, 
+	1583, 1587, 1592, 1635, 1639, 1643, 1647, 1651, 
+	1654, 1657, 1659, 1666, 1672, 1677, 1681, 1684, 
+	1687, 1689, 1691, 1694, 1697, 1700, 1704, 1709, 
+	1712, 1716, 1718, 1720, 1722, 1726, 1729, 1732, 
+	1734, 1736, 1739, 1742, 1745, 1747, 1750, 1754, 
+	1762, 1766, 1774, 1791, 1794, 1796, 1808, 1812, 
+	1814, 1816, 1818, 1821, 1825, 1827, 1830, 1833, 
+	1839, 1845, 1847, 1857, 1862, 1866, 1869, 1872, 
+	1875, 1877, 1881, 1883, 1886, 1888, 1907, 1909, 
+	1913, 1917, 1919, 1922, 1925, 1927, 1932, 1934, 
+	1937, 1939, 1941, 1943, 1946, 1948, 1968, 1971, 
+	1974, 1976, 1983, 1987, 1989, 1991, 1994, 1997, 
+	2000, 2002, 2004, 2007, 2009, 2014, 2021, 2038, 
+	2044, 2047, 2049, 2052, 2054, 2057, 2059, 2062, 
+	2066, 2068, 2075, 2078, 2084, 2089, 2091, 2093, 
+	2106, 2109, 2118, 2121, 2128, 2133, 2136, 2141, 
+	2145, 2149, 2153, 2156, 2159, 2161, 2164, 2168, 
+	2172, 2174, 2180, 2185, 2191, 2194, 2197, 2200, 
+	2204, 2208, 2214, 2217, 2221, 2228, 2230, 2232, 
+	2234, 2238, 2266, 2269, 2275, 2284, 2293, 2303, 
+	2311, 2320, 2326, 2335, 2343, 2355, 2361, 2369, 
+	2376, 2384, 2391, 2398, 2405, 2411, 2417, 2419, 
+	2422, 2436, 2441, 2443, 2447, 2452, 2495, 2499, 
+	2503, 2507, 2511, 2514, 2517, 2519, 2526, 2532, 
+	2537, 2541, 2544, 2547, 2549, 2551, 2554, 2557, 
+	2560, 2564, 2569, 2572, 2576, 2578, 2580, 2582, 
+	2586, 2589, 2592, 2594, 2596, 2599, 2602, 2605, 
+	2607, 2610, 2614, 2622, 2626, 2634, 2651, 2654, 
+	2656, 2668, 2672, 2674, 2676, 2678, 2681, 2685, 
+	2687, 2690, 2693, 2699, 2705, 2707, 2717, 2722, 
+	2726, 2729, 2732, 2735, 2737, 2741, 2743, 2746, 
+	2748, 2767, 2769, 2773, 2777, 2779, 2782, 2785, 
+	2787, 2792, 2794, 2797, 2799, 2801, 2803, 2806, 
+	2808, 2828, 2831, 2834, 2836, 2843, 2847, 2849, 
+	2851, 2854, 2857, 2860, 2862, 2864, 2867, 2869, 
+	2874, 2881, 2898, 2904, 2907, 2909, 2912, 2914, 
+	2917, 2919, 2922, 2926, 2928, 2935, 2938, 2944, 
+	2949, 2951, 2953, 2966, 2969, 2978, 2981, 2988, 
+	2993, 2996, 3001, 3005, 3009, 3013, 3016, 3019, 
+	3021, 3024, 3076, 3080, 3114, 3118, 3120, 3126, 
+	3131, 3137, 3140, 3143, 3146, 3150, 3154, 3160, 
+	3163, 3167, 3174, 3176, 3178, 3180, 3184, 3212, 
+	3215, 3221, 3230, 3239, 3249, 3257, 3266, 3272, 
+	3281, 3289, 3301, 3307, 3315, 3322, 3330, 3337, 
+	3344, 3351, 3357, 3363, 3365, 3368, 3382, 3387, 
+	3389, 3393, 3398, 3441, 3445, 3449, 3453, 3457, 
+	3460, 3463, 3465, 3472, 3478, 3483, 3487, 3490, 
+	3493, 3495, 3497, 3500, 3503, 3506, 3510, 3515, 
+	3518, 3522, 3524, 3526, 3528, 3532, 3535, 3538, 
+	3540, 3542, 3545, 3548, 3551, 3553, 3556, 3560, 
+	3568, 3572, 3580, 3597, 3600, 3602, 3614, 3618, 
+	3620, 3622, 3624, 3627, 3631, 3633, 3636, 3639, 
+	3645, 3651, 3653, 3663, 3668, 3672, 3675, 3678, 
+	3681, 3683, 3687, 3689, 3692, 3694, 3713, 3715, 
+	3719, 3723, 3725, 3728, 3731, 3733, 3738, 3740, 
+	3743, 3745, 3747, 3749, 3752, 3754, 3774, 3777, 
+	3780, 3782, 3789, 3793, 3795, 3797, 3800, 3803, 
+	3806, 3808, 3810, 3813, 3815, 3820, 3827, 3844, 
+	3850, 3853, 3855, 3858, 3860, 3863, 3865, 3868, 
+	3872, 3874, 3881, 3884, 3890, 3895, 3897, 3899, 
+	3912, 3915, 3924, 3927, 3934, 3939, 3942, 3947, 
+	3951, 3955, 3959, 3962, 3965, 3967, 3970, 3974, 
+	3978, 3980, 3986, 3991, 3997, 4000, 4003, 4006, 
+	4010, 4014, 4020, 4023, 4027, 4034, 4036, 4038, 
+	4040, 4044, 4072, 4075, 4081, 4090, 4099, 4109, 
+	4117, 4126, 4132, 4141, 4149, 4161, 4167, 4175, 
+	4182, 4190, 4197, 4204, 4211, 4217, 4223, 4225, 
+	4228, 4242, 4247, 4249, 4253, 4258, 4301, 4305, 
+	4309, 4313, 4317, 4320, 4323, 4325, 4332, 4338, 
+	4343, 4347, 4350, 4353, 4355, 4357, 4360, 4363, 
+	4366, 4370, 4375, 4378, 4382, 4384, 4386, 4388, 
+	4392, 4395, 4398, 4400, 4402, 4405, 4408, 4411, 
+	4413, 4416, 4420, 4428, 4432, 4440, 4457, 4460, 
+	4462, 4474, 4478, 4480, 4482, 4484, 4487, 4491, 
+	4493, 4496, 4499, 4505, 4511, 4513, 4523, 4528, 
+	4532, 4535, 4538, 4541, 4543, 4547, 4549, 4552, 
+	4554, 4573, 4575, 4579, 4583, 4585, 4588, 4591, 
+	4593, 4598, 4600, 4603, 4605, 4607, 4609, 4612, 
+	4614, 4634, 4637, 4640, 4642, 4649, 4653, 4655, 
+	4657, 4660, 4663, 4666, 4668, 4670, 4673, 4675, 
+	4680, 4687, 4704, 4710, 4713, 4715, 4718, 4720, 
+	4723, 4725, 4728, 4732, 4734, 4741, 4744, 4750, 
+	4755, 4757, 4759, 4772, 4775, 4784, 4787, 4794, 
+	4799, 4802, 4807, 4811, 4815, 4819, 4822, 4825, 
+	4827, 4830, 4834, 4838, 4840, 4846, 4851, 4857, 
+	4860, 4863, 4866, 4870, 4874, 4880, 4883, 4887, 
+	4894, 4896, 4898, 4900, 4904, 4932, 4935, 4941, 
+	4950, 4959, 4969, 4977, 4986, 4992, 5001, 5009, 
+	5021, 5027, 5035, 5042, 5050, 5057, 5064, 5071, 
+	5077, 5083, 5085, 5088, 5102, 5107, 5109, 5113, 
+	5118, 5161, 5165, 5169, 5173, 5177, 5180, 5183, 
+	5185, 5192, 5198, 5203, 5207, 5210, 5213, 5215, 
+	5217, 5220, 5223, 5226, 5230, 5235, 5238, 5242, 
+	5244, 5246, 5248, 5252, 5255, 5258, 5260, 5262, 
+	5265, 5268, 5271, 5273, 5276, 5280, 5288, 5292, 
+	5300, 5317, 5320, 5322, 5334, 5338, 5340, 5342, 
+	5344, 5347, 5351, 5353, 5356, 5359, 5365, 5371, 
+	5373, 5383, 5388, 5392, 5395, 5398, 5401, 5403, 
+	5407, 5409, 5412, 5414, 5433, 5435, 5439, 5443, 
+	5445, 5448, 5451, 5453, 5458, 5460, 5463, 5465, 
+	5467, 5469, 5472, 5474, 5494, 5497, 5500, 5502, 
+	5509, 5513, 5515, 5517, 5520, 5523, 5526, 5528, 
+	5530, 5533, 5535, 5540, 5547, 5564, 5570, 5573, 
+	5575, 5578, 5580, 5583, 5585, 5588, 5592, 5594, 
+	5601, 5604, 5610, 5615, 5617, 5619, 5632, 5635, 
+	5644, 5647, 5654, 5659, 5662, 5667, 5671, 5675, 
+	5679, 5682, 5685, 5687, 5690, 5692, 5702, 5705, 
+	5711, 5720, 5729, 5739, 5747, 5756, 5762, 5771, 
+	5779, 5791, 5797, 5805, 5812, 5820, 5827, 5834, 
+	5841, 5847, 5853, 5855, 5858, 5872, 5877, 5879, 
+	5883, 5888, 5892, 5896, 5900, 5904, 5906, 5909, 
+	5912, 5914, 5921, 5927, 5932, 5936, 5939, 5942, 
+	5944, 5946, 5949, 5952, 5955, 5959, 5964, 5967, 
+	5971, 5973, 5975, 5977, 5981, 5984, 5987, 5989, 
+	5991, 5994, 5997, 6000, 6002, 6005, 6009, 6017, 
+	6021, 6029, 6032, 6034, 6046, 6050, 6052, 6054, 
+	6056, 6059, 6063, 6065, 6068, 6071, 6077, 6083, 
+	6085, 6090, 6094, 6097, 6100, 6103, 6105, 6107, 
+	6109, 6113, 6117, 6119, 6122, 6125, 6127, 6132, 
+	6134, 6137, 6139, 6141, 6143, 6145, 6148, 6151, 
+	6153, 6160, 6164, 6166, 6168, 6170, 6172, 6175, 
+	6178, 6181, 6183, 6185, 6188, 6190, 6195, 6212, 
+	6218, 6221, 6223, 6226, 6228, 6231, 6233, 6236, 
+	6240, 6242, 6249, 6252, 6258, 6263, 6265, 6267, 
+	6280, 6283, 6292, 6295, 6302, 6307, 6310, 6315, 
+	6319, 6323, 6327, 6330, 6332, 6335, 6337, 6340, 
+	6341, 6389, 6399, 6409, 6416, 6427, 6438, 6449, 
+	6497, 6513, 6516, 6533, 6550, 6567, 6584, 6602, 
+	6619, 6636, 6653, 6700, 6747, 6784, 6799, 6805, 
+	6853, 6903, 6947, 6992, 7027, 7073, 7117, 7151, 
+	7166, 7182, 7198, 7214, 7230, 7246, 7262, 7278, 
+	7294, 7296, 7346, 7358, 7402, 7446, 7486, 7520, 
+	7523, 7573, 7613, 7649, 7701, 7752, 7803, 7853, 
+	7863, 7914, 7965, 8016, 8067, 8118, 8122, 8163, 
+	8167, 8169, 8175, 8180, 8186, 8189, 8192, 8195, 
+	8199, 8203, 8209, 8212, 8216, 8223, 8225, 8227, 
+	8229, 8233, 8261, 8304, 8321, 8331, 8335, 8337, 
+	8340, 8359, 8362, 8382
 };
 
 static const short _StdTok_indicies[] = {
@@ -2085,1237 +2101,1218 @@ static const short _StdTok_indicies[] = {
 	3, 2, 2, 2, 4, 18, 19, 21, 
 	22, 23, 24, 25, 26, 27, 28, 29, 
 	30, 31, 32, 33, 34, 35, 36, 37, 
-	38, 39, 40, 41, 42, 43, 45, 46, 
-	47, 48, 49, 2, 2, 17, 17, 2, 
-	17, 2, 20, 20, 44, 1, 2, 16, 
-	3, 2, 2, 2, 4, 2, 2, 50, 
-	50, 2, 50, 2, 1, 2, 16, 51, 
-	2, 2, 2, 4, 2, 2, 50, 50, 
-	2, 50, 2, 1, 2, 2, 2, 2, 
-	2, 53, 54, 55, 56, 57, 58, 59, 
-	60, 2, 2, 50, 52, 2, 52, 2, 
-	1, 2, 16, 51, 2, 2, 2, 4, 
-	2, 2, 50, 61, 2, 61, 2, 1, 
-	63, 62, 2, 16, 51, 2, 2, 2, 
-	4, 64, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 16, 51, 2, 2, 2, 
-	4, 65, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 16, 51, 2, 2, 2, 
-	4, 66, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 16, 51, 2, 2, 2, 
-	4, 67, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 16, 51, 2, 2, 2, 
-	4, 68, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 16, 51, 2, 2, 2, 
-	4, 61, 2, 2, 50, 50, 2, 50, 
-	2, 62, 2, 16, 51, 2, 2, 2, 
-	4, 69, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 16, 51, 2, 2, 2, 
-	4, 70, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 16, 51, 2, 2, 2, 
-	4, 71, 2, 2, 50, 61, 2, 61, 
-	2, 1, 2, 3, 2, 2, 4, 18, 
-	19, 21, 22, 23, 24, 25, 26, 27, 
-	28, 29, 30, 31, 32, 33, 34, 35, 
-	36, 37, 38, 39, 40, 41, 42, 43, 
-	45, 46, 47, 48, 49, 2, 2, 2, 
-	72, 72, 2, 72, 2, 20, 20, 44, 
-	1, 73, 73, 73, 1, 18, 19, 21, 
+	38, 39, 40, 41, 43, 44, 45, 46, 
+	47, 2, 2, 17, 17, 2, 17, 2, 
+	20, 20, 42, 1, 2, 16, 3, 2, 
+	2, 2, 4, 2, 2, 48, 48, 2, 
+	48, 2, 1, 2, 16, 49, 2, 2, 
+	2, 4, 2, 2, 48, 48, 2, 48, 
+	2, 1, 2, 2, 2, 2, 2, 51, 
+	52, 53, 54, 55, 56, 57, 58, 2, 
+	2, 48, 50, 2, 50, 2, 1, 2, 
+	16, 49, 2, 2, 2, 4, 2, 2, 
+	48, 59, 2, 59, 2, 1, 61, 60, 
+	2, 16, 49, 2, 2, 2, 4, 62, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 16, 49, 2, 2, 2, 4, 63, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 16, 49, 2, 2, 2, 4, 64, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 16, 49, 2, 2, 2, 4, 65, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 16, 49, 2, 2, 2, 4, 66, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 16, 49, 2, 2, 2, 4, 59, 
+	2, 2, 48, 48, 2, 48, 2, 60, 
+	2, 16, 49, 2, 2, 2, 4, 67, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 16, 49, 2, 2, 2, 4, 68, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 16, 49, 2, 2, 2, 4, 69, 
+	2, 2, 48, 59, 2, 59, 2, 1, 
+	2, 3, 2, 2, 4, 18, 19, 21, 
 	22, 23, 24, 25, 26, 27, 28, 29, 
 	30, 31, 32, 33, 34, 35, 36, 37, 
-	38, 39, 40, 41, 42, 43, 45, 46, 
-	47, 48, 49, 73, 73, 73, 20, 20, 
-	44, 1, 73, 73, 73, 1, 73, 1, 
-	73, 1, 73, 1, 1, 1, 1, 1, 
-	73, 73, 73, 73, 73, 1, 73, 73, 
-	73, 73, 73, 1, 1, 73, 1, 73, 
-	1, 73, 1, 1, 73, 1, 1, 1, 
-	73, 73, 73, 73, 73, 73, 1, 73, 
-	73, 1, 73, 73, 73, 1, 1, 1, 
-	1, 1, 1, 1, 73, 73, 1, 73, 
-	1, 1, 73, 73, 73, 73, 1, 74, 
-	75, 76, 77, 78, 79, 80, 81, 82, 
-	83, 84, 85, 86, 87, 88, 89, 90, 
-	91, 92, 93, 94, 95, 96, 97, 98, 
-	99, 100, 1, 73, 73, 1, 1, 1, 
-	1, 1, 1, 73, 73, 73, 73, 73, 
-	73, 73, 73, 73, 1, 1, 1, 1, 
-	1, 1, 1, 1, 1, 73, 73, 73, 
-	73, 73, 73, 73, 73, 73, 73, 1, 
-	1, 1, 1, 1, 1, 1, 1, 73, 
-	73, 73, 73, 73, 73, 73, 73, 73, 
-	1, 1, 1, 1, 1, 1, 73, 73, 
-	73, 73, 73, 73, 73, 73, 73, 1, 
-	73, 73, 73, 73, 73, 73, 73, 1, 
-	73, 73, 73, 73, 73, 73, 73, 73, 
-	73, 73, 73, 1, 73, 73, 73, 73, 
-	73, 1, 73, 73, 73, 73, 73, 73, 
-	73, 1, 1, 1, 1, 1, 1, 1, 
-	73, 73, 73, 73, 73, 73, 73, 73, 
-	1, 73, 73, 73, 73, 73, 73, 1, 
-	73, 73, 73, 73, 73, 73, 1, 1, 
-	1, 1, 1, 1, 1, 73, 73, 73, 
-	73, 73, 73, 1, 73, 73, 73, 73, 
-	73, 1, 73, 1, 73, 73, 1, 73, 
-	73, 73, 73, 73, 73, 73, 73, 73, 
-	73, 73, 73, 73, 1, 73, 73, 73, 
-	73, 1, 73, 1, 73, 73, 73, 1, 
-	73, 73, 73, 73, 1, 101, 102, 103, 
-	104, 105, 106, 107, 108, 109, 110, 111, 
-	112, 113, 114, 115, 116, 117, 118, 119, 
-	120, 121, 122, 123, 124, 125, 126, 127, 
-	128, 129, 130, 131, 132, 133, 134, 135, 
-	22, 20, 21, 22, 136, 137, 138, 139, 
-	22, 20, 20, 1, 73, 73, 73, 1, 
-	73, 73, 73, 1, 1, 1, 73, 1, 
-	1, 1, 73, 1, 73, 1, 73, 1, 
-	73, 1, 1, 1, 1, 1, 73, 1, 
-	1, 1, 1, 1, 73, 73, 73, 73, 
-	73, 1, 1, 1, 73, 1, 1, 73, 
-	73, 73, 1, 1, 73, 73, 1, 1, 
-	1, 73, 73, 73, 1, 1, 1, 73, 
-	73, 73, 73, 1, 73, 73, 73, 73, 
-	1, 73, 73, 1, 1, 1, 1, 73, 
-	73, 1, 1, 73, 73, 1, 73, 73, 
-	73, 1, 73, 73, 1, 73, 73, 1, 
-	1, 73, 73, 1, 73, 73, 1, 1, 
-	1, 73, 73, 73, 1, 73, 1, 73, 
-	73, 1, 1, 1, 73, 1, 1, 1, 
-	1, 1, 1, 1, 73, 73, 73, 73, 
-	1, 73, 73, 73, 73, 73, 73, 73, 
-	1, 140, 141, 142, 143, 144, 145, 146, 
-	147, 148, 22, 149, 150, 151, 152, 153, 
-	154, 1, 73, 73, 1, 73, 1, 73, 
-	73, 73, 73, 73, 73, 73, 73, 73, 
-	73, 73, 1, 73, 73, 73, 1, 1, 
-	73, 73, 1, 1, 73, 73, 73, 1, 
-	1, 1, 1, 73, 1, 73, 73, 73, 
-	1, 1, 1, 73, 73, 73, 73, 73, 
-	73, 1, 73, 73, 73, 73, 73, 1, 
-	73, 1, 155, 115, 156, 157, 158, 20, 
-	159, 160, 22, 20, 1, 73, 73, 73, 
-	73, 1, 1, 1, 73, 1, 1, 73, 
-	73, 73, 1, 1, 1, 73, 73, 1, 
-	161, 1, 22, 20, 1, 73, 20, 162, 
-	1, 20, 1, 73, 22, 163, 22, 164, 
-	165, 166, 167, 20, 168, 169, 170, 171, 
-	22, 162, 172, 173, 174, 175, 22, 20, 
-	20, 20, 1, 1, 73, 1, 1, 1, 
-	73, 73, 73, 73, 1, 73, 1, 73, 
-	73, 1, 1, 1, 73, 73, 1, 1, 
-	1, 1, 1, 73, 73, 1, 73, 73, 
-	1, 1, 73, 73, 1, 73, 1, 176, 
-	1, 20, 1, 73, 22, 177, 178, 179, 
-	180, 181, 37, 182, 183, 184, 185, 186, 
-	187, 20, 188, 189, 190, 191, 192, 20, 
-	1, 1, 73, 1, 73, 1, 73, 73, 
-	73, 73, 73, 73, 73, 1, 73, 73, 
-	73, 1, 73, 1, 1, 73, 73, 1, 
-	1, 73, 1, 1, 73, 73, 73, 1, 
-	1, 73, 73, 1, 73, 73, 1, 1, 
-	73, 73, 73, 73, 73, 1, 193, 194, 
-	195, 196, 197, 198, 44, 1, 199, 200, 
-	22, 201, 202, 203, 204, 205, 206, 207, 
-	208, 22, 20, 209, 210, 211, 212, 1, 
-	73, 73, 73, 73, 73, 1, 1, 1, 
-	73, 1, 73, 73, 1, 73, 73, 1, 
-	1, 73, 73, 73, 1, 1, 73, 73, 
-	73, 1, 1, 1, 1, 73, 1, 73, 
-	73, 73, 73, 73, 73, 73, 1, 73, 
-	73, 1, 73, 73, 73, 73, 73, 1, 
-	22, 213, 22, 214, 20, 1, 1, 73, 
-	1, 73, 22, 215, 216, 217, 218, 219, 
-	220, 221, 222, 223, 224, 225, 20, 1, 
-	1, 73, 1, 1, 1, 1, 1, 1, 
-	1, 73, 1, 73, 1, 1, 1, 1, 
-	1, 1, 73, 73, 73, 73, 73, 1, 
-	1, 73, 1, 1, 1, 73, 1, 1, 
-	73, 1, 1, 73, 1, 1, 73, 1, 
-	1, 73, 22, 20, 1, 226, 1, 20, 
-	1, 73, 22, 209, 20, 1, 2, 2, 
-	2, 2, 2, 53, 54, 55, 56, 57, 
-	58, 59, 60, 2, 2, 228, 52, 2, 
-	52, 2, 227, 229, 1, 230, 230, 230, 
-	230, 1, 231, 231, 231, 1, 231, 231, 
-	231, 1, 231, 1, 231, 231, 1, 1, 
-	1, 1, 1, 1, 231, 231, 231, 231, 
-	231, 1, 231, 231, 231, 231, 231, 1, 
-	1, 231, 1, 231, 1, 231, 1, 1, 
-	231, 1, 1, 1, 231, 231, 231, 231, 
-	231, 231, 1, 231, 231, 1, 231, 231, 
-	231, 1, 1, 1, 1, 1, 1, 1, 
-	231, 231, 1, 231, 1, 1, 231, 231, 
-	231, 231, 1, 232, 233, 234, 235, 236, 
-	237, 238, 239, 240, 241, 242, 243, 244, 
-	245, 246, 247, 248, 249, 250, 251, 252, 
-	253, 254, 255, 256, 257, 258, 1, 231, 
-	231, 1, 1, 1, 1, 1, 1, 231, 
-	231, 231, 231, 231, 231, 231, 231, 231, 
-	1, 1, 1, 1, 1, 1, 1, 1, 
-	1, 231, 231, 231, 231, 231, 231, 231, 
-	231, 231, 231, 1, 1, 1, 1, 1, 
-	1, 1, 1, 231, 231, 231, 231, 231, 
-	231, 231, 231, 231, 1, 1, 1, 1, 
-	1, 1, 231, 231, 231, 231, 231, 231, 
-	231, 231, 231, 1, 231, 231, 231, 231, 
-	231, 231, 231, 1, 231, 231, 231, 231, 
-	231, 231, 231, 231, 231, 231, 231, 1, 
-	231, 231, 231, 231, 231, 1, 231, 231, 
-	231, 231, 231, 231, 231, 1, 1, 1, 
-	1, 1, 1, 1, 231, 231, 231, 231, 
-	231, 231, 231, 231, 1, 231, 231, 231, 
-	231, 231, 231, 1, 231, 231, 231, 231, 
-	231, 231, 1, 1, 1, 1, 1, 1, 
-	1, 231, 231, 231, 231, 231, 231, 1, 
-	231, 231, 231, 231, 231, 1, 231, 1, 
-	231, 231, 1, 231, 231, 231, 231, 231, 
-	231, 231, 231, 231, 231, 231, 231, 231, 
-	1, 231, 231, 231, 231, 1, 231, 1, 
-	231, 231, 231, 1, 231, 231, 231, 231, 
-	1, 259, 260, 261, 262, 264, 265, 266, 
-	267, 268, 269, 270, 271, 272, 273, 274, 
-	276, 277, 278, 279, 280, 281, 282, 283, 
-	284, 285, 286, 287, 288, 289, 290, 291, 
-	292, 293, 294, 295, 263, 275, 296, 263, 
-	297, 298, 299, 300, 263, 275, 275, 1, 
-	231, 231, 231, 1, 231, 231, 231, 1, 
-	1, 1, 231, 1, 1, 1, 231, 1, 
-	231, 1, 231, 1, 231, 1, 1, 1, 
-	1, 1, 231, 1, 1, 1, 1, 1, 
-	231, 231, 231, 231, 231, 1, 1, 1, 
-	231, 1, 1, 231, 231, 231, 1, 1, 
-	231, 231, 1, 1, 1, 231, 231, 231, 
-	1, 1, 1, 231, 231, 231, 231, 1, 
-	231, 231, 231, 231, 1, 231, 231, 1, 
-	1, 1, 1, 231, 231, 1, 1, 231, 
-	231, 1, 231, 231, 231, 1, 231, 231, 
-	1, 231, 231, 1, 1, 231, 231, 1, 
-	231, 231, 1, 1, 1, 231, 231, 231, 
-	1, 231, 1, 231, 231, 1, 1, 1, 
-	231, 1, 1, 1, 1, 1, 1, 1, 
-	231, 231, 231, 231, 1, 231, 231, 231, 
-	231, 231, 231, 231, 1, 301, 302, 303, 
-	304, 305, 306, 307, 308, 309, 263, 310, 
-	311, 312, 313, 314, 315, 1, 231, 231, 
-	1, 231, 1, 231, 231, 231, 231, 231, 
-	231, 231, 231, 231, 231, 231, 1, 231, 
-	231, 231, 1, 1, 231, 231, 1, 1, 
-	231, 231, 231, 1, 1, 1, 1, 231, 
-	1, 231, 231, 231, 1, 1, 1, 231, 
-	231, 231, 231, 231, 231, 1, 231, 231, 
-	231, 231, 231, 1, 231, 1, 316, 274, 
-	317, 318, 319, 275, 320, 321, 263, 275, 
-	1, 231, 231, 231, 231, 1, 1, 1, 
-	231, 1, 1, 231, 231, 231, 1, 1, 
-	1, 231, 231, 1, 322, 1, 263, 275, 
-	1, 231, 275, 323, 1, 275, 1, 231, 
-	263, 324, 263, 325, 326, 327, 328, 275, 
-	329, 330, 331, 332, 263, 323, 333, 334, 
-	335, 336, 263, 275, 275, 275, 1, 1, 
-	231, 1, 1, 1, 231, 231, 231, 231, 
-	1, 231, 1, 231, 231, 1, 1, 1, 
-	231, 231, 1, 1, 1, 1, 1, 231, 
-	231, 1, 231, 231, 1, 1, 231, 231, 
-	1, 231, 1, 337, 1, 275, 1, 231, 
-	263, 338, 339, 340, 341, 342, 343, 344, 
-	345, 346, 347, 348, 349, 275, 350, 351, 
-	352, 353, 354, 275, 1, 1, 231, 1, 
-	231, 1, 231, 231, 231, 231, 231, 231, 
-	231, 1, 231, 231, 231, 1, 231, 1, 
-	1, 231, 231, 1, 1, 231, 1, 1, 
-	231, 231, 231, 1, 1, 231, 231, 1, 
-	231, 231, 1, 1, 231, 231, 231, 231, 
-	231, 1, 355, 356, 357, 358, 360, 361, 
-	359, 1, 362, 363, 263, 364, 365, 366, 
-	367, 368, 369, 370, 371, 263, 275, 372, 
-	373, 374, 375, 1, 231, 231, 231, 231, 
-	231, 1, 1, 1, 231, 1, 231, 231, 
-	1, 231, 231, 1, 1, 231, 231, 231, 
-	1, 1, 231, 231, 231, 1, 1, 1, 
-	1, 231, 1, 231, 231, 231, 231, 231, 
-	231, 231, 1, 231, 231, 1, 231, 231, 
-	231, 231, 231, 1, 263, 376, 263, 377, 
-	275, 1, 1, 231, 1, 231, 263, 378, 
-	379, 380, 381, 382, 383, 384, 385, 386, 
-	387, 388, 275, 1, 1, 231, 1, 1, 
-	1, 1, 1, 1, 1, 231, 1, 231, 
-	1, 1, 1, 1, 1, 1, 231, 231, 
-	231, 231, 231, 1, 1, 231, 1, 1, 
-	1, 231, 1, 1, 231, 1, 1, 231, 
-	1, 1, 231, 1, 1, 231, 263, 275, 
-	1, 389, 1, 275, 1, 231, 263, 372, 
-	275, 1, 390, 390, 390, 1, 390, 390, 
-	390, 1, 390, 1, 390, 390, 1, 1, 
-	1, 1, 1, 1, 390, 390, 390, 390, 
-	390, 1, 390, 390, 390, 390, 390, 1, 
-	1, 390, 1, 390, 1, 390, 1, 1, 
-	390, 1, 1, 1, 390, 390, 390, 390, 
-	390, 390, 1, 390, 390, 1, 390, 390, 
-	390, 1, 1, 1, 1, 1, 1, 1, 
-	390, 390, 1, 390, 1, 1, 390, 390, 
-	390, 390, 1, 391, 392, 393, 394, 395, 
-	396, 397, 398, 399, 400, 401, 402, 403, 
-	404, 405, 406, 407, 408, 409, 410, 411, 
-	412, 413, 414, 415, 416, 417, 1, 390, 
-	390, 1, 1, 1, 1, 1, 1, 390, 
-	390, 390, 390, 390, 390, 390, 390, 390, 
-	1, 1, 1, 1, 1, 1, 1, 1, 
-	1, 390, 390, 390, 390, 390, 390, 390, 
-	390, 390, 390, 1, 1, 1, 1, 1, 
-	1, 1, 1, 390, 390, 390, 390, 390, 
-	390, 390, 390, 390, 1, 1, 1, 1, 
-	1, 1, 390, 390, 390, 390, 390, 390, 
-	390, 390, 390, 1, 390, 390, 390, 390, 
-	390, 390, 390, 1, 390, 390, 390, 390, 
-	390, 390, 390, 390, 390, 390, 390, 1, 
-	390, 390, 390, 390, 390, 1, 390, 390, 
-	390, 390, 390, 390, 390, 1, 1, 1, 
-	1, 1, 1, 1, 390, 390, 390, 390, 
-	390, 390, 390, 390, 1, 390, 390, 390, 
-	390, 390, 390, 1, 390, 390, 390, 390, 
-	390, 390, 1, 1, 1, 1, 1, 1, 
-	1, 390, 390, 390, 390, 390, 390, 1, 
-	390, 390, 390, 390, 390, 1, 390, 1, 
-	390, 390, 1, 390, 390, 390, 390, 390, 
-	390, 390, 390, 390, 390, 390, 390, 390, 
-	1, 390, 390, 390, 390, 1, 390, 1, 
-	390, 390, 390, 1, 390, 390, 390, 390, 
-	1, 418, 419, 420, 421, 423, 424, 425, 
-	426, 427, 428, 429, 430, 431, 432, 433, 
-	435, 436, 437, 438, 439, 440, 441, 442, 
-	443, 444, 445, 446, 447, 448, 449, 450, 
-	451, 452, 453, 454, 422, 434, 455, 422, 
-	456, 457, 458, 459, 422, 434, 434, 1, 
-	390, 390, 390, 1, 390, 390, 390, 1, 
-	1, 1, 390, 1, 1, 1, 390, 1, 
-	390, 1, 390, 1, 390, 1, 1, 1, 
-	1, 1, 390, 1, 1, 1, 1, 1, 
-	390, 390, 390, 390, 390, 1, 1, 1, 
-	390, 1, 1, 390, 390, 390, 1, 1, 
-	390, 390, 1, 1, 1, 390, 390, 390, 
-	1, 1, 1, 390, 390, 390, 390, 1, 
-	390, 390, 390, 390, 1, 390, 390, 1, 
-	1, 1, 1, 390, 390, 1, 1, 390, 
-	390, 1, 390, 390, 390, 1, 390, 390, 
-	1, 390, 390, 1, 1, 390, 390, 1, 
-	390, 390, 1, 1, 1, 390, 390, 390, 
-	1, 390, 1, 390, 390, 1, 1, 1, 
-	390, 1, 1, 1, 1, 1, 1, 1, 
-	390, 390, 390, 390, 1, 390, 390, 390, 
-	390, 390, 390, 390, 1, 460, 461, 462, 
-	463, 464, 465, 466, 467, 468, 422, 469, 
-	470, 471, 472, 473, 474, 1, 390, 390, 
-	1, 390, 1, 390, 390, 390, 390, 390, 
-	390, 390, 390, 390, 390, 390, 1, 390, 
-	390, 390, 1, 1, 390, 390, 1, 1, 
-	390, 390, 390, 1, 1, 1, 1, 390, 
-	1, 390, 390, 390, 1, 1, 1, 390, 
-	390, 390, 390, 390, 390, 1, 390, 390, 
-	390, 390, 390, 1, 390, 1, 475, 433, 
-	476, 477, 478, 434, 479, 480, 422, 434, 
-	1, 390, 390, 390, 390, 1, 1, 1, 
-	390, 1, 1, 390, 390, 390, 1, 1, 
-	1, 390, 390, 1, 481, 1, 422, 434, 
-	1, 390, 434, 482, 1, 434, 1, 390, 
-	422, 483, 422, 484, 485, 486, 487, 434, 
-	488, 489, 490, 491, 422, 482, 492, 493, 
-	494, 495, 422, 434, 434, 434, 1, 1, 
-	390, 1, 1, 1, 390, 390, 390, 390, 
-	1, 390, 1, 390, 390, 1, 1, 1, 
-	390, 390, 1, 1, 1, 1, 1, 390, 
-	390, 1, 390, 390, 1, 1, 390, 390, 
-	1, 390, 1, 496, 1, 434, 1, 390, 
-	422, 497, 498, 499, 500, 501, 502, 503, 
-	504, 505, 506, 507, 508, 434, 509, 510, 
-	511, 512, 513, 434, 1, 1, 390, 1, 
-	390, 1, 390, 390, 390, 390, 390, 390, 
-	390, 1, 390, 390, 390, 1, 390, 1, 
-	1, 390, 390, 1, 1, 390, 1, 1, 
-	390, 390, 390, 1, 1, 390, 390, 1, 
-	390, 390, 1, 1, 390, 390, 390, 390, 
-	390, 1, 514, 515, 516, 517, 519, 520, 
-	518, 1, 521, 522, 422, 523, 524, 525, 
-	526, 527, 528, 529, 530, 422, 434, 531, 
-	532, 533, 534, 1, 390, 390, 390, 390, 
-	390, 1, 1, 1, 390, 1, 390, 390, 
-	1, 390, 390, 1, 1, 390, 390, 390, 
-	1, 1, 390, 390, 390, 1, 1, 1, 
-	1, 390, 1, 390, 390, 390, 390, 390, 
-	390, 390, 1, 390, 390, 1, 390, 390, 
-	390, 390, 390, 1, 422, 535, 422, 536, 
-	434, 1, 1, 390, 1, 390, 422, 537, 
-	538, 539, 540, 541, 542, 543, 544, 545, 
-	546, 547, 434, 1, 1, 390, 1, 1, 
-	1, 1, 1, 1, 1, 390, 1, 390, 
-	1, 1, 1, 1, 1, 1, 390, 390, 
-	390, 390, 390, 1, 1, 390, 1, 1, 
-	1, 390, 1, 1, 390, 1, 1, 390, 
-	1, 1, 390, 1, 1, 390, 422, 434, 
-	1, 548, 1, 434, 1, 390, 422, 531, 
-	434, 1, 2, 2, 2, 2, 2, 550, 
+	38, 39, 40, 41, 43, 44, 45, 46, 
+	47, 2, 2, 2, 70, 70, 2, 70, 
+	2, 20, 20, 42, 1, 71, 71, 71, 
+	1, 18, 19, 21, 22, 23, 24, 25, 
+	26, 27, 28, 29, 30, 31, 32, 33, 
+	34, 35, 36, 37, 38, 39, 40, 41, 
+	43, 44, 45, 46, 47, 71, 71, 71, 
+	20, 20, 42, 1, 71, 71, 71, 1, 
+	71, 1, 71, 71, 71, 71, 71, 1, 
+	71, 71, 71, 71, 1, 71, 71, 71, 
+	71, 71, 1, 71, 71, 1, 71, 71, 
+	1, 71, 71, 1, 71, 71, 71, 1, 
+	71, 71, 71, 1, 71, 71, 71, 71, 
+	71, 1, 71, 71, 1, 71, 71, 71, 
+	1, 71, 71, 71, 71, 71, 71, 1, 
+	71, 1, 71, 1, 71, 1, 71, 71, 
+	71, 1, 72, 73, 74, 75, 76, 77, 
+	78, 79, 80, 81, 82, 83, 84, 85, 
+	86, 87, 88, 89, 90, 91, 92, 93, 
+	94, 95, 96, 97, 98, 1, 71, 71, 
+	1, 71, 71, 71, 71, 71, 1, 71, 
+	71, 71, 71, 71, 71, 71, 71, 1, 
+	71, 71, 71, 71, 71, 71, 71, 71, 
+	1, 71, 71, 71, 71, 71, 71, 71, 
+	71, 71, 1, 71, 71, 71, 71, 71, 
+	71, 71, 1, 71, 71, 71, 71, 71, 
+	71, 71, 71, 1, 71, 71, 71, 71, 
+	71, 1, 71, 71, 71, 71, 71, 71, 
+	71, 71, 1, 71, 71, 71, 71, 71, 
+	71, 71, 1, 71, 71, 71, 71, 71, 
+	71, 71, 71, 71, 71, 71, 1, 71, 
+	71, 71, 71, 71, 1, 71, 71, 71, 
+	71, 71, 71, 71, 1, 71, 71, 71, 
+	71, 71, 71, 1, 71, 71, 71, 71, 
+	71, 71, 71, 1, 71, 71, 71, 71, 
+	71, 71, 1, 71, 71, 71, 71, 71, 
+	71, 1, 71, 71, 71, 71, 71, 71, 
+	1, 71, 71, 71, 71, 71, 1, 71, 
+	71, 71, 71, 71, 1, 71, 1, 71, 
+	71, 1, 71, 71, 71, 71, 71, 71, 
+	71, 71, 71, 71, 71, 71, 71, 1, 
+	71, 71, 71, 71, 1, 71, 1, 71, 
+	71, 71, 1, 71, 71, 71, 71, 1, 
+	99, 100, 101, 102, 103, 104, 105, 106, 
+	107, 108, 109, 110, 111, 112, 113, 114, 
+	115, 116, 117, 118, 119, 120, 121, 122, 
+	123, 124, 125, 126, 127, 128, 129, 130, 
+	131, 132, 133, 134, 135, 136, 137, 20, 
+	20, 20, 1, 71, 71, 71, 1, 71, 
+	71, 71, 1, 71, 71, 71, 1, 71, 
+	71, 71, 1, 71, 71, 1, 71, 71, 
+	1, 71, 1, 71, 71, 71, 71, 71, 
+	71, 1, 71, 71, 71, 71, 71, 1, 
+	71, 71, 71, 71, 1, 71, 71, 71, 
+	1, 71, 71, 1, 71, 71, 1, 71, 
+	1, 71, 1, 71, 71, 1, 71, 71, 
+	1, 71, 71, 1, 71, 71, 71, 1, 
+	71, 71, 71, 71, 1, 71, 71, 1, 
+	71, 71, 71, 1, 71, 1, 71, 1, 
+	71, 1, 71, 71, 71, 1, 71, 71, 
+	1, 71, 71, 1, 71, 1, 71, 1, 
+	71, 71, 1, 71, 71, 1, 71, 71, 
+	1, 71, 1, 71, 71, 1, 71, 71, 
+	71, 1, 71, 71, 71, 71, 71, 71, 
+	71, 1, 71, 71, 71, 1, 71, 71, 
+	71, 71, 71, 71, 71, 1, 138, 139, 
+	140, 141, 142, 143, 144, 145, 146, 20, 
+	147, 148, 149, 150, 151, 152, 1, 71, 
+	71, 1, 71, 1, 71, 71, 71, 71, 
+	71, 71, 71, 71, 71, 71, 71, 1, 
+	71, 71, 71, 1, 71, 1, 71, 1, 
+	71, 1, 71, 71, 1, 71, 71, 71, 
+	1, 71, 1, 71, 71, 1, 71, 71, 
+	1, 71, 71, 71, 71, 71, 1, 71, 
+	71, 71, 71, 71, 1, 71, 1, 153, 
+	113, 154, 155, 156, 20, 157, 158, 20, 
+	1, 71, 71, 71, 71, 1, 71, 71, 
+	71, 1, 71, 71, 1, 71, 71, 1, 
+	71, 71, 1, 71, 1, 132, 20, 20, 
+	1, 20, 1, 159, 20, 1, 71, 1, 
+	160, 161, 162, 163, 164, 165, 166, 167, 
+	168, 159, 169, 170, 171, 172, 20, 20, 
+	20, 20, 1, 71, 1, 71, 71, 71, 
+	1, 71, 71, 71, 1, 71, 1, 71, 
+	71, 1, 71, 71, 1, 71, 1, 71, 
+	71, 71, 71, 1, 71, 1, 71, 71, 
+	1, 71, 1, 71, 1, 71, 1, 173, 
+	20, 1, 71, 1, 174, 175, 176, 177, 
+	178, 35, 179, 180, 33, 181, 182, 183, 
+	20, 184, 185, 186, 187, 188, 20, 1, 
+	71, 71, 1, 71, 71, 1, 71, 1, 
+	71, 71, 71, 71, 71, 71, 1, 71, 
+	71, 71, 1, 71, 1, 71, 1, 71, 
+	71, 1, 71, 71, 1, 71, 71, 1, 
+	71, 1, 71, 1, 71, 71, 1, 71, 
+	1, 71, 71, 71, 71, 1, 189, 190, 
+	191, 192, 193, 42, 1, 194, 195, 20, 
+	196, 112, 197, 198, 199, 200, 201, 202, 
+	203, 204, 205, 206, 20, 1, 71, 71, 
+	71, 71, 71, 1, 71, 71, 1, 71, 
+	1, 71, 71, 1, 71, 1, 71, 71, 
+	1, 71, 1, 71, 71, 1, 71, 71, 
+	71, 1, 71, 1, 71, 71, 71, 71, 
+	71, 71, 1, 71, 71, 1, 71, 71, 
+	71, 71, 71, 1, 207, 20, 208, 20, 
+	1, 71, 1, 71, 1, 209, 210, 211, 
+	212, 213, 214, 215, 216, 217, 218, 219, 
+	20, 1, 71, 71, 1, 71, 71, 71, 
+	71, 71, 71, 71, 71, 1, 71, 71, 
+	1, 71, 71, 71, 71, 71, 71, 1, 
+	71, 71, 71, 71, 1, 71, 71, 1, 
+	71, 71, 71, 71, 1, 71, 71, 71, 
+	1, 71, 71, 71, 1, 71, 71, 71, 
+	1, 71, 71, 1, 220, 20, 1, 71, 
+	1, 203, 20, 1, 2, 2, 2, 2, 
+	2, 51, 52, 53, 54, 55, 56, 57, 
+	58, 2, 2, 222, 50, 2, 50, 2, 
+	221, 223, 1, 224, 224, 224, 224, 1, 
+	225, 225, 225, 1, 225, 225, 225, 1, 
+	225, 1, 225, 225, 225, 225, 225, 1, 
+	225, 225, 225, 225, 1, 225, 225, 225, 
+	225, 225, 1, 225, 225, 1, 225, 225, 
+	1, 225, 225, 1, 225, 225, 225, 1, 
+	225, 225, 225, 1, 225, 225, 225, 225, 
+	225, 1, 225, 225, 1, 225, 225, 225, 
+	1, 225, 225, 225, 225, 225, 225, 1, 
+	225, 1, 225, 1, 225, 1, 225, 225, 
+	225, 1, 226, 227, 228, 229, 230, 231, 
+	232, 233, 234, 235, 236, 237, 238, 239, 
+	240, 241, 242, 243, 244, 245, 246, 247, 
+	248, 249, 250, 251, 252, 1, 225, 225, 
+	1, 225, 225, 225, 225, 225, 1, 225, 
+	225, 225, 225, 225, 225, 225, 225, 1, 
+	225, 225, 225, 225, 225, 225, 225, 225, 
+	1, 225, 225, 225, 225, 225, 225, 225, 
+	225, 225, 1, 225, 225, 225, 225, 225, 
+	225, 225, 1, 225, 225, 225, 225, 225, 
+	225, 225, 225, 1, 225, 225, 225, 225, 
+	225, 1, 225, 225, 225, 225, 225, 225, 
+	225, 225, 1, 225, 225, 225, 225, 225, 
+	225, 225, 1, 225, 225, 225, 225, 225, 
+	225, 225, 225, 225, 225, 225, 1, 225, 
+	225, 225, 225, 225, 1, 225, 225, 225, 
+	225, 225, 225, 225, 1, 225, 225, 225, 
+	225, 225, 225, 1, 225, 225, 225, 225, 
+	225, 225, 225, 1, 225, 225, 225, 225, 
+	225, 225, 1, 225, 225, 225, 225, 225, 
+	225, 1, 225, 225, 225, 225, 225, 225, 
+	1, 225, 225, 225, 225, 225, 1, 225, 
+	225, 225, 225, 225, 1, 225, 1, 225, 
+	225, 1, 225, 225, 225, 225, 225, 225, 
+	225, 225, 225, 225, 225, 225, 225, 1, 
+	225, 225, 225, 225, 1, 225, 1, 225, 
+	225, 225, 1, 225, 225, 225, 225, 1, 
+	253, 254, 255, 256, 258, 259, 260, 261, 
+	262, 263, 264, 265, 266, 267, 268, 269, 
+	270, 271, 272, 273, 274, 275, 276, 277, 
+	278, 279, 280, 281, 282, 283, 284, 285, 
+	286, 287, 288, 289, 290, 291, 292, 257, 
+	257, 257, 1, 225, 225, 225, 1, 225, 
+	225, 225, 1, 225, 225, 225, 1, 225, 
+	225, 225, 1, 225, 225, 1, 225, 225, 
+	1, 225, 1, 225, 225, 225, 225, 225, 
+	225, 1, 225, 225, 225, 225, 225, 1, 
+	225, 225, 225, 225, 1, 225, 225, 225, 
+	1, 225, 225, 1, 225, 225, 1, 225, 
+	1, 225, 1, 225, 225, 1, 225, 225, 
+	1, 225, 225, 1, 225, 225, 225, 1, 
+	225, 225, 225, 225, 1, 225, 225, 1, 
+	225, 225, 225, 1, 225, 1, 225, 1, 
+	225, 1, 225, 225, 225, 1, 225, 225, 
+	1, 225, 225, 1, 225, 1, 225, 1, 
+	225, 225, 1, 225, 225, 1, 225, 225, 
+	1, 225, 1, 225, 225, 1, 225, 225, 
+	225, 1, 225, 225, 225, 225, 225, 225, 
+	225, 1, 225, 225, 225, 1, 225, 225, 
+	225, 225, 225, 225, 225, 1, 293, 294, 
+	295, 296, 297, 298, 299, 300, 301, 257, 
+	302, 303, 304, 305, 306, 307, 1, 225, 
+	225, 1, 225, 1, 225, 225, 225, 225, 
+	225, 225, 225, 225, 225, 225, 225, 1, 
+	225, 225, 225, 1, 225, 1, 225, 1, 
+	225, 1, 225, 225, 1, 225, 225, 225, 
+	1, 225, 1, 225, 225, 1, 225, 225, 
+	1, 225, 225, 225, 225, 225, 1, 225, 
+	225, 225, 225, 225, 1, 225, 1, 308, 
+	268, 309, 310, 311, 257, 312, 313, 257, 
+	1, 225, 225, 225, 225, 1, 225, 225, 
+	225, 1, 225, 225, 1, 225, 225, 1, 
+	225, 225, 1, 225, 1, 287, 257, 257, 
+	1, 257, 1, 314, 257, 1, 225, 1, 
+	315, 316, 317, 318, 319, 320, 321, 322, 
+	323, 314, 324, 325, 326, 327, 257, 257, 
+	257, 257, 1, 225, 1, 225, 225, 225, 
+	1, 225, 225, 225, 1, 225, 1, 225, 
+	225, 1, 225, 225, 1, 225, 1, 225, 
+	225, 225, 225, 1, 225, 1, 225, 225, 
+	1, 225, 1, 225, 1, 225, 1, 328, 
+	257, 1, 225, 1, 329, 330, 331, 332, 
+	333, 334, 335, 336, 337, 338, 339, 340, 
+	257, 341, 342, 343, 344, 345, 257, 1, 
+	225, 225, 1, 225, 225, 1, 225, 1, 
+	225, 225, 225, 225, 225, 225, 1, 225, 
+	225, 225, 1, 225, 1, 225, 1, 225, 
+	225, 1, 225, 225, 1, 225, 225, 1, 
+	225, 1, 225, 1, 225, 225, 1, 225, 
+	1, 225, 225, 225, 225, 1, 346, 347, 
+	348, 350, 351, 349, 1, 352, 353, 257, 
+	354, 267, 355, 356, 357, 358, 359, 360, 
+	361, 362, 363, 364, 257, 1, 225, 225, 
+	225, 225, 225, 1, 225, 225, 1, 225, 
+	1, 225, 225, 1, 225, 1, 225, 225, 
+	1, 225, 1, 225, 225, 1, 225, 225, 
+	225, 1, 225, 1, 225, 225, 225, 225, 
+	225, 225, 1, 225, 225, 1, 225, 225, 
+	225, 225, 225, 1, 365, 257, 366, 257, 
+	1, 225, 1, 225, 1, 367, 368, 369, 
+	370, 371, 372, 373, 374, 375, 376, 377, 
+	257, 1, 225, 225, 1, 225, 225, 225, 
+	225, 225, 225, 225, 225, 1, 225, 225, 
+	1, 225, 225, 225, 225, 225, 225, 1, 
+	225, 225, 225, 225, 1, 225, 225, 1, 
+	225, 225, 225, 225, 1, 225, 225, 225, 
+	1, 225, 225, 225, 1, 225, 225, 225, 
+	1, 225, 225, 1, 378, 257, 1, 225, 
+	1, 361, 257, 1, 379, 379, 379, 1, 
+	379, 379, 379, 1, 379, 1, 379, 379, 
+	379, 379, 379, 1, 379, 379, 379, 379, 
+	1, 379, 379, 379, 379, 379, 1, 379, 
+	379, 1, 379, 379, 1, 379, 379, 1, 
+	379, 379, 379, 1, 379, 379, 379, 1, 
+	379, 379, 379, 379, 379, 1, 379, 379, 
+	1, 379, 379, 379, 1, 379, 379, 379, 
+	379, 379, 379, 1, 379, 1, 379, 1, 
+	379, 1, 379, 379, 379, 1, 380, 381, 
+	382, 383, 384, 385, 386, 387, 388, 389, 
+	390, 391, 392, 393, 394, 395, 396, 397, 
+	398, 399, 400, 401, 402, 403, 404, 405, 
+	406, 1, 379, 379, 1, 379, 379, 379, 
+	379, 379, 1, 379, 379, 379, 379, 379, 
+	379, 379, 379, 1, 379, 379, 379, 379, 
+	379, 379, 379, 379, 1, 379, 379, 379, 
+	379, 379, 379, 379, 379, 379, 1, 379, 
+	379, 379, 379, 379, 379, 379, 1, 379, 
+	379, 379, 379, 379, 379, 379, 379, 1, 
+	379, 379, 379, 379, 379, 1, 379, 379, 
+	379, 379, 379, 379, 379, 379, 1, 379, 
+	379, 379, 379, 379, 379, 379, 1, 379, 
+	379, 379, 379, 379, 379, 379, 379, 379, 
+	379, 379, 1, 379, 379, 379, 379, 379, 
+	1, 379, 379, 379, 379, 379, 379, 379, 
+	1, 379, 379, 379, 379, 379, 379, 1, 
+	379, 379, 379, 379, 379, 379, 379, 1, 
+	379, 379, 379, 379, 379, 379, 1, 379, 
+	379, 379, 379, 379, 379, 1, 379, 379, 
+	379, 379, 379, 379, 1, 379, 379, 379, 
+	379, 379, 1, 379, 379, 379, 379, 379, 
+	1, 379, 1, 379, 379, 1, 379, 379, 
+	379, 379, 379, 379, 379, 379, 379, 379, 
+	379, 379, 379, 1, 379, 379, 379, 379, 
+	1, 379, 1, 379, 379, 379, 1, 379, 
+	379, 379, 379, 1, 407, 408, 409, 410, 
+	412, 413, 414, 415, 416, 417, 418, 419, 
+	420, 421, 422, 423, 424, 425, 426, 427, 
+	428, 429, 430, 431, 432, 433, 434, 435, 
+	436, 437, 438, 439, 440, 441, 442, 443, 
+	444, 445, 446, 411, 411, 411, 1, 379, 
+	379, 379, 1, 379, 379, 379, 1, 379, 
+	379, 379, 1, 379, 379, 379, 1, 379, 
+	379, 1, 379, 379, 1, 379, 1, 379, 
+	379, 379, 379, 379, 379, 1, 379, 379, 
+	379, 379, 379, 1, 379, 379, 379, 379, 
+	1, 379, 379, 379, 1, 379, 379, 1, 
+	379, 379, 1, 379, 1, 379, 1, 379, 
+	379, 1, 379, 379, 1, 379, 379, 1, 
+	379, 379, 379, 1, 379, 379, 379, 379, 
+	1, 379, 379, 1, 379, 379, 379, 1, 
+	379, 1, 379, 1, 379, 1, 379, 379, 
+	379, 1, 379, 379, 1, 379, 379, 1, 
+	379, 1, 379, 1, 379, 379, 1, 379, 
+	379, 1, 379, 379, 1, 379, 1, 379, 
+	379, 1, 379, 379, 379, 1, 379, 379, 
+	379, 379, 379, 379, 379, 1, 379, 379, 
+	379, 1, 379, 379, 379, 379, 379, 379, 
+	379, 1, 447, 448, 449, 450, 451, 452, 
+	453, 454, 455, 411, 456, 457, 458, 459, 
+	460, 461, 1, 379, 379, 1, 379, 1, 
+	379, 379, 379, 379, 379, 379, 379, 379, 
+	379, 379, 379, 1, 379, 379, 379, 1, 
+	379, 1, 379, 1, 379, 1, 379, 379, 
+	1, 379, 379, 379, 1, 379, 1, 379, 
+	379, 1, 379, 379, 1, 379, 379, 379, 
+	379, 379, 1, 379, 379, 379, 379, 379, 
+	1, 379, 1, 462, 422, 463, 464, 465, 
+	411, 466, 467, 411, 1, 379, 379, 379, 
+	379, 1, 379, 379, 379, 1, 379, 379, 
+	1, 379, 379, 1, 379, 379, 1, 379, 
+	1, 441, 411, 411, 1, 411, 1, 468, 
+	411, 1, 379, 1, 469, 470, 471, 472, 
+	473, 474, 475, 476, 477, 468, 478, 479, 
+	480, 481, 411, 411, 411, 411, 1, 379, 
+	1, 379, 379, 379, 1, 379, 379, 379, 
+	1, 379, 1, 379, 379, 1, 379, 379, 
+	1, 379, 1, 379, 379, 379, 379, 1, 
+	379, 1, 379, 379, 1, 379, 1, 379, 
+	1, 379, 1, 482, 411, 1, 379, 1, 
+	483, 484, 485, 486, 487, 488, 489, 490, 
+	491, 492, 493, 494, 411, 495, 496, 497, 
+	498, 499, 411, 1, 379, 379, 1, 379, 
+	379, 1, 379, 1, 379, 379, 379, 379, 
+	379, 379, 1, 379, 379, 379, 1, 379, 
+	1, 379, 1, 379, 379, 1, 379, 379, 
+	1, 379, 379, 1, 379, 1, 379, 1, 
+	379, 379, 1, 379, 1, 379, 379, 379, 
+	379, 1, 500, 501, 502, 504, 505, 503, 
+	1, 506, 507, 411, 508, 421, 509, 510, 
+	511, 512, 513, 514, 515, 516, 517, 518, 
+	411, 1, 379, 379, 379, 379, 379, 1, 
+	379, 379, 1, 379, 1, 379, 379, 1, 
+	379, 1, 379, 379, 1, 379, 1, 379, 
+	379, 1, 379, 379, 379, 1, 379, 1, 
+	379, 379, 379, 379, 379, 379, 1, 379, 
+	379, 1, 379, 379, 379, 379, 379, 1, 
+	519, 411, 520, 411, 1, 379, 1, 379, 
+	1, 521, 522, 523, 524, 525, 526, 527, 
+	528, 529, 530, 531, 411, 1, 379, 379, 
+	1, 379, 379, 379, 379, 379, 379, 379, 
+	379, 1, 379, 379, 1, 379, 379, 379, 
+	379, 379, 379, 1, 379, 379, 379, 379, 
+	1, 379, 379, 1, 379, 379, 379, 379, 
+	1, 379, 379, 379, 1, 379, 379, 379, 
+	1, 379, 379, 379, 1, 379, 379, 1, 
+	532, 411, 1, 379, 1, 515, 411, 1, 
+	2, 2, 2, 2, 2, 534, 535, 536, 
+	537, 538, 539, 540, 541, 542, 543, 545, 
+	546, 547, 548, 549, 550, 551, 552, 553, 
+	554, 555, 556, 557, 558, 559, 560, 561, 
+	562, 563, 564, 565, 567, 568, 569, 570, 
+	571, 2, 2, 48, 533, 2, 533, 2, 
+	544, 544, 566, 1, 572, 572, 572, 1, 
+	542, 543, 545, 546, 547, 548, 549, 550, 
 	551, 552, 553, 554, 555, 556, 557, 558, 
-	559, 561, 562, 563, 564, 565, 566, 567, 
-	568, 569, 570, 571, 572, 573, 574, 575, 
-	576, 577, 578, 579, 580, 581, 582, 583, 
-	585, 586, 587, 588, 589, 2, 2, 50, 
-	549, 2, 549, 2, 560, 560, 584, 1, 
-	590, 590, 590, 1, 558, 559, 561, 562, 
-	563, 564, 565, 566, 567, 568, 569, 570, 
-	571, 572, 573, 574, 575, 576, 577, 578, 
-	579, 580, 581, 582, 583, 585, 586, 587, 
-	588, 589, 590, 590, 560, 560, 584, 1, 
-	590, 590, 590, 1, 590, 1, 590, 590, 
-	1, 1, 1, 1, 1, 1, 590, 590, 
-	590, 590, 590, 1, 590, 590, 590, 590, 
-	590, 1, 1, 590, 1, 590, 1, 590, 
-	1, 1, 590, 1, 1, 1, 590, 590, 
-	590, 590, 590, 590, 1, 590, 590, 1, 
-	590, 590, 590, 1, 1, 1, 1, 1, 
-	1, 1, 590, 590, 1, 590, 1, 1, 
-	590, 590, 590, 590, 1, 591, 592, 593, 
-	594, 595, 596, 597, 598, 599, 600, 601, 
+	559, 560, 561, 562, 563, 564, 565, 567, 
+	568, 569, 570, 571, 572, 572, 544, 544, 
+	566, 1, 572, 572, 572, 1, 572, 1, 
+	572, 572, 572, 572, 572, 1, 572, 572, 
+	572, 572, 1, 572, 572, 572, 572, 572, 
+	1, 572, 572, 1, 572, 572, 1, 572, 
+	572, 1, 572, 572, 572, 1, 572, 572, 
+	572, 1, 572, 572, 572, 572, 572, 1, 
+	572, 572, 1, 572, 572, 572, 1, 572, 
+	572, 572, 572, 572, 572, 1, 572, 1, 
+	572, 1, 572, 1, 572, 572, 572, 1, 
+	573, 574, 575, 576, 577, 578, 579, 580, 
+	581, 582, 583, 584, 585, 586, 587, 588, 
+	589, 590, 591, 592, 593, 594, 595, 596, 
+	597, 598, 599, 1, 572, 572, 1, 572, 
+	572, 572, 572, 572, 1, 572, 572, 572, 
+	572, 572, 572, 572, 572, 1, 572, 572, 
+	572, 572, 572, 572, 572, 572, 1, 572, 
+	572, 572, 572, 572, 572, 572, 572, 572, 
+	1, 572, 572, 572, 572, 572, 572, 572, 
+	1, 572, 572, 572, 572, 572, 572, 572, 
+	572, 1, 572, 572, 572, 572, 572, 1, 
+	572, 572, 572, 572, 572, 572, 572, 572, 
+	1, 572, 572, 572, 572, 572, 572, 572, 
+	1, 572, 572, 572, 572, 572, 572, 572, 
+	572, 572, 572, 572, 1, 572, 572, 572, 
+	572, 572, 1, 572, 572, 572, 572, 572, 
+	572, 572, 1, 572, 572, 572, 572, 572, 
+	572, 1, 572, 572, 572, 572, 572, 572, 
+	572, 1, 572, 572, 572, 572, 572, 572, 
+	1, 572, 572, 572, 572, 572, 572, 1, 
+	572, 572, 572, 572, 572, 572, 1, 572, 
+	572, 572, 572, 572, 1, 572, 572, 572, 
+	572, 572, 1, 572, 1, 572, 572, 1, 
+	572, 572, 572, 572, 572, 572, 572, 572, 
+	572, 572, 572, 572, 572, 1, 572, 572, 
+	572, 572, 1, 572, 1, 572, 572, 572, 
+	1, 572, 572, 572, 572, 1, 600, 601, 
 	602, 603, 604, 605, 606, 607, 608, 609, 
 	610, 611, 612, 613, 614, 615, 616, 617, 
-	1, 590, 590, 1, 1, 1, 1, 1, 
-	1, 590, 590, 590, 590, 590, 590, 590, 
-	590, 590, 1, 1, 1, 1, 1, 1, 
-	1, 1, 1, 590, 590, 590, 590, 590, 
-	590, 590, 590, 590, 590, 1, 1, 1, 
-	1, 1, 1, 1, 1, 590, 590, 590, 
-	590, 590, 590, 590, 590, 590, 1, 1, 
-	1, 1, 1, 1, 590, 590, 590, 590, 
-	590, 590, 590, 590, 590, 1, 590, 590, 
-	590, 590, 590, 590, 590, 1, 590, 590, 
-	590, 590, 590, 590, 590, 590, 590, 590, 
-	590, 1, 590, 590, 590, 590, 590, 1, 
-	590, 590, 590, 590, 590, 590, 590, 1, 
-	1, 1, 1, 1, 1, 1, 590, 590, 
-	590, 590, 590, 590, 590, 590, 1, 590, 
-	590, 590, 590, 590, 590, 1, 590, 590, 
-	590, 590, 590, 590, 1, 1, 1, 1, 
-	1, 1, 1, 590, 590, 590, 590, 590, 
-	590, 1, 590, 590, 590, 590, 590, 1, 
-	590, 1, 590, 590, 1, 590, 590, 590, 
-	590, 590, 590, 590, 590, 590, 590, 590, 
-	590, 590, 1, 590, 590, 590, 590, 1, 
-	590, 1, 590, 590, 590, 1, 590, 590, 
-	590, 590, 1, 618, 619, 620, 621, 622, 
-	623, 624, 625, 626, 627, 628, 629, 630, 
-	631, 632, 633, 634, 635, 636, 637, 638, 
-	639, 640, 641, 642, 643, 644, 645, 646, 
-	647, 648, 649, 650, 651, 652, 562, 560, 
-	561, 562, 653, 654, 655, 656, 562, 560, 
-	560, 1, 590, 590, 590, 1, 590, 590, 
-	590, 1, 1, 1, 590, 1, 1, 1, 
-	590, 1, 590, 1, 590, 1, 590, 1, 
-	1, 1, 1, 1, 590, 1, 1, 1, 
-	1, 1, 590, 590, 590, 590, 590, 1, 
-	1, 1, 590, 1, 1, 590, 590, 590, 
-	1, 1, 590, 590, 1, 1, 1, 590, 
-	590, 590, 1, 1, 1, 590, 590, 590, 
-	590, 1, 590, 590, 590, 590, 1, 590, 
-	590, 1, 1, 1, 1, 590, 590, 1, 
-	1, 590, 590, 1, 590, 590, 590, 1, 
-	590, 590, 1, 590, 590, 1, 1, 590, 
-	590, 1, 590, 590, 1, 1, 1, 590, 
-	590, 590, 1, 590, 1, 590, 590, 1, 
-	1, 1, 590, 1, 1, 1, 1, 1, 
-	1, 1, 590, 590, 590, 590, 1, 590, 
-	590, 590, 590, 590, 590, 590, 1, 657, 
-	658, 659, 660, 661, 662, 663, 664, 665, 
-	562, 666, 667, 668, 669, 670, 671, 1, 
-	590, 590, 1, 590, 1, 590, 590, 590, 
-	590, 590, 590, 590, 590, 590, 590, 590, 
-	1, 590, 590, 590, 1, 1, 590, 590, 
-	1, 1, 590, 590, 590, 1, 1, 1, 
-	1, 590, 1, 590, 590, 590, 1, 1, 
-	1, 590, 590, 590, 590, 590, 590, 1, 
-	590, 590, 590, 590, 590, 1, 590, 1, 
-	672, 632, 673, 674, 675, 560, 676, 677, 
-	562, 560, 1, 590, 590, 590, 590, 1, 
-	1, 1, 590, 1, 1, 590, 590, 590, 
-	1, 1, 1, 590, 590, 1, 678, 1, 
-	562, 560, 1, 590, 560, 679, 1, 560, 
-	1, 590, 562, 680, 562, 681, 682, 683, 
-	684, 560, 685, 686, 687, 688, 562, 679, 
-	689, 690, 691, 692, 562, 560, 560, 560, 
-	1, 1, 590, 1, 1, 1, 590, 590, 
-	590, 590, 1, 590, 1, 590, 590, 1, 
-	1, 1, 590, 590, 1, 1, 1, 1, 
-	1, 590, 590, 1, 590, 590, 1, 1, 
-	590, 590, 1, 590, 1, 693, 1, 560, 
-	1, 590, 562, 694, 695, 696, 697, 698, 
-	577, 699, 700, 701, 702, 703, 704, 560, 
-	705, 706, 707, 708, 709, 560, 1, 1, 
-	590, 1, 590, 1, 590, 590, 590, 590, 
-	590, 590, 590, 1, 590, 590, 590, 1, 
-	590, 1, 1, 590, 590, 1, 1, 590, 
-	1, 1, 590, 590, 590, 1, 1, 590, 
-	590, 1, 590, 590, 1, 1, 590, 590, 
-	590, 590, 590, 1, 710, 711, 712, 713, 
-	714, 715, 584, 1, 716, 717, 562, 718, 
-	719, 720, 721, 722, 723, 724, 725, 562, 
-	560, 726, 727, 728, 729, 1, 590, 590, 
-	590, 590, 590, 1, 1, 1, 590, 1, 
-	590, 590, 1, 590, 590, 1, 1, 590, 
-	590, 590, 1, 1, 590, 590, 590, 1, 
-	1, 1, 1, 590, 1, 590, 590, 590, 
-	590, 590, 590, 590, 1, 590, 590, 1, 
-	590, 590, 590, 590, 590, 1, 562, 730, 
-	562, 731, 560, 1, 1, 590, 1, 590, 
-	562, 732, 733, 734, 735, 736, 737, 738, 
-	739, 740, 741, 742, 560, 1, 1, 590, 
-	1, 1, 1, 1, 1, 1, 1, 590, 
-	1, 590, 1, 1, 1, 1, 1, 1, 
-	590, 590, 590, 590, 590, 1, 1, 590, 
-	1, 1, 1, 590, 1, 1, 590, 1, 
-	1, 590, 1, 1, 590, 1, 1, 590, 
-	562, 560, 1, 743, 1, 560, 1, 590, 
-	562, 726, 560, 1, 745, 745, 745, 744, 
-	745, 745, 745, 744, 745, 744, 745, 745, 
-	744, 744, 744, 744, 744, 744, 745, 745, 
-	745, 745, 745, 744, 745, 745, 745, 745, 
-	745, 744, 744, 745, 744, 745, 744, 745, 
-	744, 744, 745, 744, 744, 744, 745, 745, 
-	745, 745, 745, 745, 744, 745, 745, 744, 
-	745, 745, 745, 744, 744, 744, 744, 744, 
-	744, 744, 745, 745, 744, 745, 744, 744, 
-	745, 745, 745, 745, 744, 746, 747, 748, 
-	749, 750, 751, 752, 753, 754, 755, 756, 
-	757, 758, 759, 760, 761, 762, 763, 764, 
-	765, 766, 767, 768, 769, 770, 771, 772, 
-	744, 745, 745, 744, 744, 744, 744, 744, 
-	744, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 744, 744, 744, 744, 744, 744, 
-	744, 744, 744, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 744, 744, 744, 
-	744, 744, 744, 744, 744, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 744, 744, 
-	744, 744, 744, 744, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 744, 745, 745, 
-	745, 745, 745, 745, 745, 744, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 744, 745, 745, 745, 745, 745, 744, 
-	745, 745, 745, 745, 745, 745, 745, 744, 
-	744, 744, 744, 744, 744, 744, 745, 745, 
-	745, 745, 745, 745, 745, 745, 744, 745, 
-	745, 745, 745, 745, 745, 744, 745, 745, 
-	745, 745, 745, 745, 744, 744, 744, 744, 
-	744, 744, 744, 745, 745, 745, 745, 745, 
-	745, 744, 745, 745, 745, 745, 745, 744, 
-	745, 744, 745, 745, 744, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 744, 745, 745, 745, 745, 744, 
-	745, 744, 745, 745, 745, 744, 745, 745, 
-	745, 745, 744, 773, 774, 775, 776, 778, 
-	779, 780, 781, 782, 783, 784, 785, 786, 
-	787, 788, 790, 791, 792, 793, 794, 795, 
-	796, 797, 798, 799, 800, 801, 802, 803, 
-	804, 805, 806, 807, 808, 809, 777, 789, 
-	810, 777, 811, 812, 813, 814, 777, 789, 
-	789, 744, 745, 745, 745, 744, 745, 745, 
-	745, 744, 744, 744, 745, 744, 744, 744, 
-	745, 744, 745, 744, 745, 744, 745, 744, 
-	744, 744, 744, 744, 745, 744, 744, 744, 
-	744, 744, 745, 745, 745, 745, 745, 744, 
-	744, 744, 745, 744, 744, 745, 745, 745, 
-	744, 744, 745, 745, 744, 744, 744, 745, 
-	745, 745, 744, 744, 744, 745, 745, 745, 
-	745, 744, 745, 745, 745, 745, 744, 745, 
-	745, 744, 744, 744, 744, 745, 745, 744, 
-	744, 745, 745, 744, 745, 745, 745, 744, 
-	745, 745, 744, 745, 745, 744, 744, 745, 
-	745, 744, 745, 745, 744, 744, 744, 745, 
-	745, 745, 744, 745, 744, 745, 745, 744, 
-	744, 744, 745, 744, 744, 744, 744, 744, 
-	744, 744, 745, 745, 745, 745, 744, 745, 
-	745, 745, 745, 745, 745, 745, 744, 815, 
-	816, 817, 818, 819, 820, 821, 822, 823, 
-	777, 824, 825, 826, 827, 828, 829, 744, 
-	745, 745, 744, 745, 744, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	744, 745, 745, 745, 744, 744, 745, 745, 
-	744, 744, 745, 745, 745, 744, 744, 744, 
-	744, 745, 744, 745, 745, 745, 744, 744, 
-	744, 745, 745, 745, 745, 745, 745, 744, 
-	745, 745, 745, 745, 745, 744, 745, 744, 
-	830, 788, 831, 832, 833, 789, 834, 835, 
-	777, 789, 744, 745, 745, 745, 745, 744, 
-	744, 744, 745, 744, 744, 745, 745, 745, 
-	744, 744, 744, 745, 745, 744, 836, 744, 
-	777, 789, 744, 745, 789, 837, 744, 789, 
-	744, 745, 777, 838, 777, 839, 840, 841, 
-	842, 789, 843, 844, 845, 846, 777, 837, 
-	847, 848, 849, 850, 777, 789, 789, 789, 
-	744, 744, 745, 744, 744, 744, 745, 745, 
-	745, 745, 744, 745, 744, 745, 745, 744, 
-	744, 744, 745, 745, 744, 744, 744, 744, 
-	744, 745, 745, 744, 745, 745, 744, 744, 
-	745, 745, 744, 745, 744, 851, 744, 789, 
-	744, 745, 777, 852, 853, 854, 855, 856, 
-	857, 858, 859, 860, 861, 862, 863, 789, 
-	864, 865, 866, 867, 868, 789, 744, 744, 
-	745, 744, 745, 744, 745, 745, 745, 745, 
-	745, 745, 745, 744, 745, 745, 745, 744, 
-	745, 744, 744, 745, 745, 744, 744, 745, 
-	744, 744, 745, 745, 745, 744, 744, 745, 
-	745, 744, 745, 745, 744, 744, 745, 745, 
-	745, 745, 745, 744, 869, 870, 871, 872, 
-	874, 875, 873, 744, 876, 877, 777, 878, 
-	879, 880, 881, 882, 883, 884, 885, 777, 
-	789, 886, 887, 888, 889, 744, 745, 745, 
-	745, 745, 745, 744, 744, 744, 745, 744, 
-	745, 745, 744, 745, 745, 744, 744, 745, 
-	745, 745, 744, 744, 745, 745, 745, 744, 
-	744, 744, 744, 745, 744, 745, 745, 745, 
-	745, 745, 745, 745, 744, 745, 745, 744, 
-	745, 745, 745, 745, 745, 744, 777, 890, 
-	777, 891, 789, 744, 744, 745, 744, 745, 
-	777, 892, 893, 894, 895, 896, 897, 898, 
-	899, 900, 901, 902, 789, 744, 744, 745, 
-	744, 744, 744, 744, 744, 744, 744, 745, 
-	744, 745, 744, 744, 744, 744, 744, 744, 
-	745, 745, 745, 745, 745, 744, 744, 745, 
-	744, 744, 744, 745, 744, 744, 745, 744, 
-	744, 745, 744, 744, 745, 744, 744, 745, 
-	777, 789, 744, 903, 744, 789, 744, 745, 
-	777, 886, 789, 744, 904, 904, 904, 744, 
-	904, 904, 904, 744, 904, 744, 904, 744, 
-	904, 744, 744, 744, 744, 744, 904, 904, 
-	904, 904, 904, 744, 904, 904, 904, 904, 
-	904, 744, 744, 904, 744, 904, 744, 904, 
-	744, 744, 904, 744, 744, 744, 904, 904, 
-	904, 904, 904, 904, 744, 904, 904, 744, 
-	904, 904, 904, 744, 744, 744, 744, 744, 
-	744, 744, 904, 904, 744, 904, 744, 744, 
-	904, 904, 904, 904, 744, 905, 906, 907, 
-	908, 909, 910, 911, 912, 913, 914, 915, 
+	618, 619, 620, 621, 622, 623, 624, 625, 
+	626, 627, 628, 629, 630, 631, 632, 633, 
+	634, 635, 636, 637, 638, 544, 544, 544, 
+	1, 572, 572, 572, 1, 572, 572, 572, 
+	1, 572, 572, 572, 1, 572, 572, 572, 
+	1, 572, 572, 1, 572, 572, 1, 572, 
+	1, 572, 572, 572, 572, 572, 572, 1, 
+	572, 572, 572, 572, 572, 1, 572, 572, 
+	572, 572, 1, 572, 572, 572, 1, 572, 
+	572, 1, 572, 572, 1, 572, 1, 572, 
+	1, 572, 572, 1, 572, 572, 1, 572, 
+	572, 1, 572, 572, 572, 1, 572, 572, 
+	572, 572, 1, 572, 572, 1, 572, 572, 
+	572, 1, 572, 1, 572, 1, 572, 1, 
+	572, 572, 572, 1, 572, 572, 1, 572, 
+	572, 1, 572, 1, 572, 1, 572, 572, 
+	1, 572, 572, 1, 572, 572, 1, 572, 
+	1, 572, 572, 1, 572, 572, 572, 1, 
+	572, 572, 572, 572, 572, 572, 572, 1, 
+	572, 572, 572, 1, 572, 572, 572, 572, 
+	572, 572, 572, 1, 639, 640, 641, 642, 
+	643, 644, 645, 646, 647, 544, 648, 649, 
+	650, 651, 652, 653, 1, 572, 572, 1, 
+	572, 1, 572, 572, 572, 572, 572, 572, 
+	572, 572, 572, 572, 572, 1, 572, 572, 
+	572, 1, 572, 1, 572, 1, 572, 1, 
+	572, 572, 1, 572, 572, 572, 1, 572, 
+	1, 572, 572, 1, 572, 572, 1, 572, 
+	572, 572, 572, 572, 1, 572, 572, 572, 
+	572, 572, 1, 572, 1, 654, 614, 655, 
+	656, 657, 544, 658, 659, 544, 1, 572, 
+	572, 572, 572, 1, 572, 572, 572, 1, 
+	572, 572, 1, 572, 572, 1, 572, 572, 
+	1, 572, 1, 633, 544, 544, 1, 544, 
+	1, 660, 544, 1, 572, 1, 661, 662, 
+	663, 664, 665, 666, 667, 668, 669, 660, 
+	670, 671, 672, 673, 544, 544, 544, 544, 
+	1, 572, 1, 572, 572, 572, 1, 572, 
+	572, 572, 1, 572, 1, 572, 572, 1, 
+	572, 572, 1, 572, 1, 572, 572, 572, 
+	572, 1, 572, 1, 572, 572, 1, 572, 
+	1, 572, 1, 572, 1, 674, 544, 1, 
+	572, 1, 675, 676, 677, 678, 679, 559, 
+	680, 681, 557, 682, 683, 684, 544, 685, 
+	686, 687, 688, 689, 544, 1, 572, 572, 
+	1, 572, 572, 1, 572, 1, 572, 572, 
+	572, 572, 572, 572, 1, 572, 572, 572, 
+	1, 572, 1, 572, 1, 572, 572, 1, 
+	572, 572, 1, 572, 572, 1, 572, 1, 
+	572, 1, 572, 572, 1, 572, 1, 572, 
+	572, 572, 572, 1, 690, 691, 692, 693, 
+	694, 566, 1, 695, 696, 544, 697, 613, 
+	698, 699, 700, 701, 702, 703, 704, 705, 
+	706, 707, 544, 1, 572, 572, 572, 572, 
+	572, 1, 572, 572, 1, 572, 1, 572, 
+	572, 1, 572, 1, 572, 572, 1, 572, 
+	1, 572, 572, 1, 572, 572, 572, 1, 
+	572, 1, 572, 572, 572, 572, 572, 572, 
+	1, 572, 572, 1, 572, 572, 572, 572, 
+	572, 1, 708, 544, 709, 544, 1, 572, 
+	1, 572, 1, 710, 711, 712, 713, 714, 
+	715, 716, 717, 718, 719, 720, 544, 1, 
+	572, 572, 1, 572, 572, 572, 572, 572, 
+	572, 572, 572, 1, 572, 572, 1, 572, 
+	572, 572, 572, 572, 572, 1, 572, 572, 
+	572, 572, 1, 572, 572, 1, 572, 572, 
+	572, 572, 1, 572, 572, 572, 1, 572, 
+	572, 572, 1, 572, 572, 572, 1, 572, 
+	572, 1, 721, 544, 1, 572, 1, 704, 
+	544, 1, 723, 723, 723, 722, 723, 723, 
+	723, 722, 723, 722, 723, 723, 723, 723, 
+	723, 722, 723, 723, 723, 723, 722, 723, 
+	723, 723, 723, 723, 722, 723, 723, 722, 
+	723, 723, 722, 723, 723, 722, 723, 723, 
+	723, 722, 723, 723, 723, 722, 723, 723, 
+	723, 723, 723, 722, 723, 723, 722, 723, 
+	723, 723, 722, 723, 723, 723, 723, 723, 
+	723, 722, 723, 722, 723, 722, 723, 722, 
+	723, 723, 723, 722, 724, 725, 726, 727, 
+	728, 729, 730, 731, 732, 733, 734, 735, 
+	736, 737, 738, 739, 740, 741, 742, 743, 
+	744, 745, 746, 747, 748, 749, 750, 722, 
+	723, 723, 722, 723, 723, 723, 723, 723, 
+	722, 723, 723, 723, 723, 723, 723, 723, 
+	723, 722, 723, 723, 723, 723, 723, 723, 
+	723, 723, 722, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 722, 723, 723, 723, 
+	723, 723, 723, 723, 722, 723, 723, 723, 
+	723, 723, 723, 723, 723, 722, 723, 723, 
+	723, 723, 723, 722, 723, 723, 723, 723, 
+	723, 723, 723, 723, 722, 723, 723, 723, 
+	723, 723, 723, 723, 722, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	722, 723, 723, 723, 723, 723, 722, 723, 
+	723, 723, 723, 723, 723, 723, 722, 723, 
+	723, 723, 723, 723, 723, 722, 723, 723, 
+	723, 723, 723, 723, 723, 722, 723, 723, 
+	723, 723, 723, 723, 722, 723, 723, 723, 
+	723, 723, 723, 722, 723, 723, 723, 723, 
+	723, 723, 722, 723, 723, 723, 723, 723, 
+	722, 723, 723, 723, 723, 723, 722, 723, 
+	722, 723, 723, 722, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 722, 723, 723, 723, 723, 722, 723, 
+	722, 723, 723, 723, 722, 723, 723, 723, 
+	723, 722, 751, 752, 753, 754, 756, 757, 
+	758, 759, 760, 761, 762, 763, 764, 765, 
+	766, 767, 768, 769, 770, 771, 772, 773, 
+	774, 775, 776, 777, 778, 779, 780, 781, 
+	782, 783, 784, 785, 786, 787, 788, 789, 
+	790, 755, 755, 755, 722, 723, 723, 723, 
+	722, 723, 723, 723, 722, 723, 723, 723, 
+	722, 723, 723, 723, 722, 723, 723, 722, 
+	723, 723, 722, 723, 722, 723, 723, 723, 
+	723, 723, 723, 722, 723, 723, 723, 723, 
+	723, 722, 723, 723, 723, 723, 722, 723, 
+	723, 723, 722, 723, 723, 722, 723, 723, 
+	722, 723, 722, 723, 722, 723, 723, 722, 
+	723, 723, 722, 723, 723, 722, 723, 723, 
+	723, 722, 723, 723, 723, 723, 722, 723, 
+	723, 722, 723, 723, 723, 722, 723, 722, 
+	723, 722, 723, 722, 723, 723, 723, 722, 
+	723, 723, 722, 723, 723, 722, 723, 722, 
+	723, 722, 723, 723, 722, 723, 723, 722, 
+	723, 723, 722, 723, 722, 723, 723, 722, 
+	723, 723, 723, 722, 723, 723, 723, 723, 
+	723, 723, 723, 722, 723, 723, 723, 722, 
+	723, 723, 723, 723, 723, 723, 723, 722, 
+	791, 792, 793, 794, 795, 796, 797, 798, 
+	799, 755, 800, 801, 802, 803, 804, 805, 
+	722, 723, 723, 722, 723, 722, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 722, 723, 723, 723, 722, 723, 722, 
+	723, 722, 723, 722, 723, 723, 722, 723, 
+	723, 723, 722, 723, 722, 723, 723, 722, 
+	723, 723, 722, 723, 723, 723, 723, 723, 
+	722, 723, 723, 723, 723, 723, 722, 723, 
+	722, 806, 766, 807, 808, 809, 755, 810, 
+	811, 755, 722, 723, 723, 723, 723, 722, 
+	723, 723, 723, 722, 723, 723, 722, 723, 
+	723, 722, 723, 723, 722, 723, 722, 785, 
+	755, 755, 722, 755, 722, 812, 755, 722, 
+	723, 722, 813, 814, 815, 816, 817, 818, 
+	819, 820, 821, 812, 822, 823, 824, 825, 
+	755, 755, 755, 755, 722, 723, 722, 723, 
+	723, 723, 722, 723, 723, 723, 722, 723, 
+	722, 723, 723, 722, 723, 723, 722, 723, 
+	722, 723, 723, 723, 723, 722, 723, 722, 
+	723, 723, 722, 723, 722, 723, 722, 723, 
+	722, 826, 755, 722, 723, 722, 827, 828, 
+	829, 830, 831, 832, 833, 834, 835, 836, 
+	837, 838, 755, 839, 840, 841, 842, 843, 
+	755, 722, 723, 723, 722, 723, 723, 722, 
+	723, 722, 723, 723, 723, 723, 723, 723, 
+	722, 723, 723, 723, 722, 723, 722, 723, 
+	722, 723, 723, 722, 723, 723, 722, 723, 
+	723, 722, 723, 722, 723, 722, 723, 723, 
+	722, 723, 722, 723, 723, 723, 723, 722, 
+	844, 845, 846, 848, 849, 847, 722, 850, 
+	851, 755, 852, 765, 853, 854, 855, 856, 
+	857, 858, 859, 860, 861, 862, 755, 722, 
+	723, 723, 723, 723, 723, 722, 723, 723, 
+	722, 723, 722, 723, 723, 722, 723, 722, 
+	723, 723, 722, 723, 722, 723, 723, 722, 
+	723, 723, 723, 722, 723, 722, 723, 723, 
+	723, 723, 723, 723, 722, 723, 723, 722, 
+	723, 723, 723, 723, 723, 722, 863, 755, 
+	864, 755, 722, 723, 722, 723, 722, 865, 
+	866, 867, 868, 869, 870, 871, 872, 873, 
+	874, 875, 755, 722, 723, 723, 722, 723, 
+	723, 723, 723, 723, 723, 723, 723, 722, 
+	723, 723, 722, 723, 723, 723, 723, 723, 
+	723, 722, 723, 723, 723, 723, 722, 723, 
+	723, 722, 723, 723, 723, 723, 722, 723, 
+	723, 723, 722, 723, 723, 723, 722, 723, 
+	723, 723, 722, 723, 723, 722, 876, 755, 
+	722, 723, 722, 859, 755, 722, 877, 877, 
+	877, 722, 877, 877, 877, 722, 877, 722, 
+	877, 877, 877, 877, 877, 722, 877, 877, 
+	877, 877, 722, 877, 877, 877, 877, 877, 
+	722, 877, 877, 722, 877, 877, 722, 877, 
+	877, 722, 877, 877, 877, 722, 877, 877, 
+	877, 722, 877, 877, 877, 877, 877, 722, 
+	877, 877, 722, 877, 877, 877, 722, 877, 
+	877, 877, 877, 877, 877, 722, 877, 722, 
+	877, 722, 877, 722, 877, 877, 877, 722, 
+	878, 879, 880, 881, 882, 883, 884, 885, 
+	886, 887, 888, 889, 890, 891, 892, 893, 
+	894, 895, 896, 897, 898, 899, 900, 901, 
+	902, 903, 904, 722, 877, 877, 722, 877, 
+	877, 877, 877, 877, 722, 877, 877, 877, 
+	877, 877, 877, 877, 877, 722, 877, 877, 
+	877, 877, 877, 877, 877, 877, 722, 877, 
+	877, 877, 877, 877, 877, 877, 877, 877, 
+	722, 877, 877, 877, 877, 877, 877, 877, 
+	722, 877, 877, 877, 877, 877, 877, 877, 
+	877, 722, 877, 877, 877, 877, 877, 722, 
+	877, 877, 877, 877, 877, 877, 877, 877, 
+	722, 877, 877, 877, 877, 877, 877, 877, 
+	722, 877, 877, 877, 877, 877, 877, 877, 
+	877, 877, 877, 877, 722, 877, 877, 877, 
+	877, 877, 722, 877, 877, 877, 877, 877, 
+	877, 877, 722, 877, 877, 877, 877, 877, 
+	877, 722, 877, 877, 877, 877, 877, 877, 
+	877, 722, 877, 877, 877, 877, 877, 877, 
+	722, 877, 877, 877, 877, 877, 877, 722, 
+	877, 877, 877, 877, 877, 877, 722, 877, 
+	877, 877, 877, 877, 722, 877, 877, 877, 
+	877, 877, 722, 877, 722, 877, 877, 722, 
+	877, 877, 877, 877, 877, 877, 877, 877, 
+	877, 877, 877, 877, 877, 722, 877, 877, 
+	877, 877, 722, 877, 722, 877, 877, 877, 
+	722, 877, 877, 877, 877, 722, 905, 906, 
+	907, 908, 910, 911, 912, 913, 914, 915, 
 	916, 917, 918, 919, 920, 921, 922, 923, 
 	924, 925, 926, 927, 928, 929, 930, 931, 
-	744, 904, 904, 744, 744, 744, 744, 744, 
-	744, 904, 904, 904, 904, 904, 904, 904, 
-	904, 904, 744, 744, 744, 744, 744, 744, 
-	744, 744, 744, 904, 904, 904, 904, 904, 
-	904, 904, 904, 904, 904, 744, 744, 744, 
-	744, 744, 744, 744, 744, 904, 904, 904, 
-	904, 904, 904, 904, 904, 904, 744, 744, 
-	744, 744, 744, 744, 904, 904, 904, 904, 
-	904, 904, 904, 904, 904, 744, 904, 904, 
-	904, 904, 904, 904, 904, 744, 904, 904, 
-	904, 904, 904, 904, 904, 904, 904, 904, 
-	904, 744, 904, 904, 904, 904, 904, 744, 
-	904, 904, 904, 904, 904, 904, 904, 744, 
-	744, 744, 744, 744, 744, 744, 904, 904, 
-	904, 904, 904, 904, 904, 904, 744, 904, 
-	904, 904, 904, 904, 904, 744, 904, 904, 
-	904, 904, 904, 904, 744, 744, 744, 744, 
-	744, 744, 744, 904, 904, 904, 904, 904, 
-	904, 744, 904, 904, 904, 904, 904, 744, 
-	904, 744, 904, 904, 744, 904, 904, 904, 
-	904, 904, 904, 904, 904, 904, 904, 904, 
-	904, 904, 744, 904, 904, 904, 904, 744, 
-	904, 744, 904, 904, 904, 744, 904, 904, 
-	904, 904, 744, 932, 933, 934, 935, 937, 
-	938, 939, 940, 941, 942, 943, 944, 945, 
-	946, 947, 949, 950, 951, 952, 953, 954, 
-	955, 956, 957, 958, 959, 960, 961, 962, 
-	963, 964, 965, 966, 967, 968, 936, 948, 
-	969, 936, 970, 971, 972, 973, 936, 948, 
-	948, 744, 904, 904, 904, 744, 904, 904, 
-	904, 744, 744, 744, 904, 744, 744, 744, 
-	904, 744, 904, 744, 904, 744, 904, 744, 
-	744, 744, 744, 744, 904, 744, 744, 744, 
-	744, 744, 904, 904, 904, 904, 904, 744, 
-	744, 744, 904, 744, 744, 904, 904, 904, 
-	744, 744, 904, 904, 744, 744, 744, 904, 
-	904, 904, 744, 744, 744, 904, 904, 904, 
-	904, 744, 904, 904, 904, 904, 744, 904, 
-	904, 744, 744, 744, 744, 904, 904, 744, 
-	744, 904, 904, 744, 904, 904, 904, 744, 
-	904, 904, 744, 904, 904, 744, 744, 904, 
-	904, 744, 904, 904, 744, 744, 744, 904, 
-	904, 904, 744, 904, 744, 904, 904, 744, 
-	744, 744, 904, 744, 744, 744, 744, 744, 
-	744, 744, 904, 904, 904, 904, 744, 904, 
-	904, 904, 904, 904, 904, 904, 744, 974, 
-	975, 976, 977, 978, 979, 980, 981, 982, 
-	936, 983, 984, 985, 986, 987, 988, 744, 
-	904, 904, 744, 904, 744, 904, 904, 904, 
-	904, 904, 904, 904, 904, 904, 904, 904, 
-	744, 904, 904, 904, 744, 744, 904, 904, 
-	744, 744, 904, 904, 904, 744, 744, 744, 
-	744, 904, 744, 904, 904, 904, 744, 744, 
-	744, 904, 904, 904, 904, 904, 904, 744, 
-	904, 904, 904, 904, 904, 744, 904, 744, 
-	989, 947, 990, 991, 992, 948, 993, 994, 
-	936, 948, 744, 904, 904, 904, 904, 744, 
-	744, 744, 904, 744, 744, 904, 904, 904, 
-	744, 744, 744, 904, 904, 744, 995, 744, 
-	936, 948, 744, 904, 948, 996, 744, 948, 
-	744, 904, 936, 997, 936, 998, 999, 1000, 
-	1001, 948, 1002, 1003, 1004, 1005, 936, 996, 
-	1006, 1007, 1008, 1009, 936, 948, 948, 948, 
-	744, 744, 904, 744, 744, 744, 904, 904, 
-	904, 904, 744, 904, 744, 904, 904, 744, 
-	744, 744, 904, 904, 744, 744, 744, 744, 
-	744, 904, 904, 744, 904, 904, 744, 744, 
-	904, 904, 744, 904, 744, 1010, 744, 948, 
-	744, 904, 936, 1011, 1012, 1013, 1014, 1015, 
-	1016, 1017, 1018, 1019, 1020, 1021, 1022, 948, 
-	1023, 1024, 1025, 1026, 1027, 948, 744, 744, 
-	904, 744, 904, 744, 904, 904, 904, 904, 
-	904, 904, 904, 744, 904, 904, 904, 744, 
-	904, 744, 744, 904, 904, 744, 744, 904, 
-	744, 744, 904, 904, 904, 744, 744, 904, 
-	904, 744, 904, 904, 744, 744, 904, 904, 
-	904, 904, 904, 744, 1028, 1029, 1030, 1031, 
-	1033, 1034, 1032, 744, 1035, 1036, 936, 1037, 
-	1038, 1039, 1040, 1041, 1042, 1043, 1044, 936, 
-	948, 1045, 1046, 1047, 1048, 744, 904, 904, 
-	904, 904, 904, 744, 744, 744, 904, 744, 
-	904, 904, 744, 904, 904, 744, 744, 904, 
-	904, 904, 744, 744, 904, 904, 904, 744, 
-	744, 744, 744, 904, 744, 904, 904, 904, 
-	904, 904, 904, 904, 744, 904, 904, 744, 
-	904, 904, 904, 904, 904, 744, 936, 1049, 
-	936, 1050, 948, 744, 744, 904, 744, 904, 
-	936, 1051, 1052, 1053, 1054, 1055, 1056, 1057, 
-	1058, 1059, 1060, 1061, 948, 744, 744, 904, 
-	744, 744, 744, 744, 744, 744, 744, 904, 
-	744, 904, 744, 744, 744, 744, 744, 744, 
-	904, 904, 904, 904, 904, 744, 744, 904, 
-	744, 744, 744, 904, 744, 744, 904, 744, 
-	744, 904, 744, 744, 904, 744, 744, 904, 
-	936, 948, 744, 1062, 744, 948, 744, 904, 
-	936, 1045, 948, 744, 1063, 744, 1064, 1065, 
-	230, 230, 1064, 230, 1064, 1064, 1064, 744, 
-	1066, 1066, 10, 10, 10, 10, 10, 10, 
-	1066, 1066, 1066, 1066, 1066, 1066, 1066, 1066, 
-	1066, 10, 10, 10, 10, 10, 10, 10, 
-	10, 10, 1066, 1066, 1066, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 10, 10, 10, 10, 
-	10, 10, 10, 10, 1066, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 1066, 10, 10, 10, 
-	10, 10, 10, 1066, 1066, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 10, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 10, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 1066, 1066, 1066, 1066, 
-	10, 1066, 1066, 1066, 1066, 1066, 10, 1066, 
-	1066, 1066, 1066, 1066, 1066, 1066, 10, 10, 
-	10, 10, 10, 10, 10, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 1066, 10, 1066, 1066, 
-	1066, 1066, 1066, 1066, 10, 1066, 1066, 1066, 
-	1066, 1066, 1066, 10, 10, 10, 10, 10, 
-	10, 10, 1066, 1066, 1066, 1066, 1066, 1066, 
-	10, 1066, 1066, 1066, 1066, 1066, 10, 1066, 
-	10, 1066, 1066, 10, 1066, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 1066, 1066, 1066, 1066, 
-	1066, 10, 1066, 1066, 1066, 1066, 10, 1066, 
-	10, 1066, 1066, 1066, 10, 1066, 1066, 1066, 
-	1066, 10, 1066, 1066, 1066, 10, 1066, 1066, 
-	1066, 10, 10, 10, 1066, 10, 10, 10, 
-	1066, 10, 1066, 10, 1066, 10, 1066, 10, 
-	1066, 10, 10, 10, 10, 10, 1066, 10, 
-	10, 10, 10, 10, 1066, 1066, 1066, 1066, 
-	1066, 10, 10, 10, 1066, 10, 10, 1066, 
-	1066, 1066, 10, 10, 1066, 1066, 10, 1066, 
-	10, 10, 1066, 1066, 1066, 10, 10, 10, 
-	1066, 1066, 1066, 1066, 10, 1066, 1066, 1066, 
-	1066, 10, 1066, 1066, 10, 10, 10, 10, 
-	1066, 1066, 10, 10, 1066, 1066, 10, 1066, 
-	1066, 1066, 10, 1066, 1066, 10, 1066, 1066, 
-	10, 10, 1066, 1066, 10, 1066, 1066, 10, 
-	10, 10, 1066, 1066, 1066, 10, 1066, 10, 
-	1066, 1066, 10, 10, 1066, 10, 10, 1066, 
-	10, 10, 10, 10, 10, 10, 10, 1066, 
-	1066, 1066, 1066, 10, 1066, 1066, 1066, 1066, 
-	1066, 1066, 1066, 10, 1066, 1066, 10, 1066, 
-	10, 1066, 1066, 1066, 1066, 1066, 1066, 1066, 
-	1066, 1066, 1066, 1066, 10, 1066, 1066, 1066, 
-	10, 10, 1066, 1066, 10, 10, 1066, 1066, 
-	1066, 10, 10, 10, 10, 1066, 10, 1066, 
-	1066, 1066, 10, 10, 10, 1066, 1066, 1066, 
-	1066, 1066, 1066, 10, 1066, 1066, 1066, 1066, 
-	1066, 10, 1066, 10, 1066, 1066, 1066, 1066, 
-	10, 10, 10, 1066, 10, 10, 1066, 1066, 
-	1066, 10, 10, 10, 1066, 1066, 10, 10, 
-	1066, 10, 1066, 10, 1066, 10, 10, 10, 
-	1066, 1066, 1066, 1066, 10, 1066, 10, 1066, 
-	1066, 10, 10, 10, 1066, 1066, 10, 10, 
-	10, 10, 10, 1066, 1066, 10, 1066, 1066, 
-	10, 10, 1066, 1066, 10, 1066, 10, 10, 
-	1066, 10, 1066, 10, 1066, 10, 1066, 1066, 
-	1066, 1066, 1066, 1066, 1066, 10, 1066, 1066, 
-	1066, 10, 10, 1066, 1066, 10, 10, 1066, 
-	1066, 10, 10, 1066, 10, 10, 1066, 1066, 
-	1066, 10, 10, 1066, 1066, 10, 1066, 1066, 
-	10, 10, 1066, 1066, 1066, 1066, 1066, 10, 
-	1067, 1068, 1069, 1070, 1071, 1072, 1073, 1074, 
-	1075, 1076, 1077, 1069, 1078, 1079, 1080, 1081, 
-	1082, 10, 1066, 1066, 1066, 1066, 1066, 10, 
-	10, 10, 1066, 10, 1066, 1066, 10, 1066, 
-	1066, 10, 10, 1066, 1066, 1066, 10, 10, 
-	1066, 1066, 1066, 10, 10, 10, 10, 1066, 
-	10, 1066, 1066, 1066, 1066, 1066, 1066, 1066, 
-	10, 1066, 1066, 10, 1066, 1066, 1066, 1066, 
-	1066, 10, 1069, 1083, 1069, 1084, 1078, 10, 
-	10, 1066, 10, 1066, 1069, 1085, 1086, 1087, 
-	1088, 1089, 1090, 1091, 1092, 1093, 1094, 1095, 
-	1078, 10, 10, 1066, 10, 10, 10, 10, 
-	10, 10, 10, 1066, 10, 1066, 10, 10, 
-	10, 10, 10, 10, 1066, 1066, 1066, 1066, 
-	1066, 10, 10, 1066, 10, 10, 10, 1066, 
-	10, 10, 1066, 10, 10, 1066, 10, 10, 
-	1066, 10, 10, 1066, 1069, 1078, 10, 1078, 
-	1096, 10, 1078, 10, 1066, 1069, 1079, 1078, 
-	10, 1097, 1098, 1101, 1100, 1102, 1102, 1100, 
-	1100, 1100, 1105, 1106, 1107, 1108, 1110, 1111, 
-	1112, 1113, 1114, 1115, 1116, 1117, 1118, 1119, 
-	1120, 1121, 1122, 1123, 1124, 1125, 1126, 1127, 
-	1128, 1129, 1130, 1131, 1132, 1134, 1135, 1136, 
-	1137, 1138, 1100, 1103, 1104, 1100, 1104, 1100, 
-	1109, 1109, 1133, 1099, 2, 3, 2, 4, 
-	2, 2, 2, 2, 2, 1, 5, 1140, 
-	5, 5, 5, 5, 5, 5, 5, 1139, 
-	12, 13, 11, 11, 11, 11, 1141, 2, 
-	3, 2, 4, 2, 2, 2, 1142, 2, 
-	2, 1141, 2, 1144, 2, 4, 2, 2, 
-	2, 1142, 2, 2, 1143, 2, 3, 2, 
-	4, 2, 2, 2, 15, 2, 2, 1145, 
-	2, 1147, 1148, 2, 1149, 2, 2, 4, 
-	1151, 18, 19, 21, 22, 23, 24, 25, 
-	26, 27, 28, 29, 30, 31, 32, 33, 
-	34, 35, 36, 37, 38, 39, 40, 41, 
-	42, 43, 45, 46, 47, 48, 49, 2, 
-	2, 1103, 1150, 2, 1150, 2, 20, 20, 
-	44, 1146, 2, 16, 51, 1153, 1154, 2, 
-	2, 4, 2, 2, 50, 50, 2, 50, 
-	2, 1152, 1155, 63, 1152, 2, 16, 51, 
-	1153, 1154, 2, 2, 4, 61, 2, 2, 
-	50, 50, 2, 50, 2, 1152, 2, 16, 
-	51, 1153, 1154, 2, 2, 4, 61, 2, 
-	2, 50, 50, 2, 50, 2, 1152, 2, 
-	16, 51, 1153, 1154, 2, 2, 4, 61, 
-	2, 2, 50, 50, 2, 50, 2, 1152, 
-	2, 16, 51, 1153, 1154, 2, 2, 4, 
-	61, 2, 2, 50, 50, 2, 50, 2, 
-	1152, 2, 16, 51, 1153, 1154, 2, 2, 
-	4, 1156, 61, 2, 2, 50, 50, 2, 
-	50, 2, 1152, 2, 16, 51, 1153, 1154, 
-	2, 2, 4, 61, 2, 2, 50, 50, 
-	2, 50, 2, 1152, 2, 16, 51, 1153, 
-	1154, 2, 2, 4, 61, 2, 2, 50, 
-	50, 2, 50, 2, 1152, 2, 16, 51, 
-	1153, 1154, 2, 2, 4, 61, 2, 2, 
-	50, 50, 2, 50, 2, 1152, 2, 1147, 
-	51, 2, 2, 2, 4, 1151, 18, 19, 
-	21, 22, 23, 24, 25, 26, 27, 28, 
-	29, 30, 31, 32, 33, 34, 35, 36, 
-	37, 38, 39, 40, 41, 42, 43, 45, 
-	46, 47, 48, 49, 2, 2, 17, 17, 
-	2, 17, 2, 20, 20, 44, 1146, 2, 
-	1151, 3, 2, 2, 2, 4, 1151, 18, 
-	19, 21, 22, 23, 24, 25, 26, 27, 
-	28, 29, 30, 31, 32, 33, 34, 35, 
-	36, 37, 38, 39, 40, 41, 42, 43, 
-	45, 46, 47, 48, 49, 2, 2, 72, 
-	72, 2, 72, 2, 20, 20, 44, 1146, 
-	1157, 1157, 18, 19, 21, 22, 23, 24, 
+	932, 933, 934, 935, 936, 937, 938, 939, 
+	940, 941, 942, 943, 944, 909, 909, 909, 
+	722, 877, 877, 877, 722, 877, 877, 877, 
+	722, 877, 877, 877, 722, 877, 877, 877, 
+	722, 877, 877, 722, 877, 877, 722, 877, 
+	722, 877, 877, 877, 877, 877, 877, 722, 
+	877, 877, 877, 877, 877, 722, 877, 877, 
+	877, 877, 722, 877, 877, 877, 722, 877, 
+	877, 722, 877, 877, 722, 877, 722, 877, 
+	722, 877, 877, 722, 877, 877, 722, 877, 
+	877, 722, 877, 877, 877, 722, 877, 877, 
+	877, 877, 722, 877, 877, 722, 877, 877, 
+	877, 722, 877, 722, 877, 722, 877, 722, 
+	877, 877, 877, 722, 877, 877, 722, 877, 
+	877, 722, 877, 722, 877, 722, 877, 877, 
+	722, 877, 877, 722, 877, 877, 722, 877, 
+	722, 877, 877, 722, 877, 877, 877, 722, 
+	877, 877, 877, 877, 877, 877, 877, 722, 
+	877, 877, 877, 722, 877, 877, 877, 877, 
+	877, 877, 877, 722, 945, 946, 947, 948, 
+	949, 950, 951, 952, 953, 909, 954, 955, 
+	956, 957, 958, 959, 722, 877, 877, 722, 
+	877, 722, 877, 877, 877, 877, 877, 877, 
+	877, 877, 877, 877, 877, 722, 877, 877, 
+	877, 722, 877, 722, 877, 722, 877, 722, 
+	877, 877, 722, 877, 877, 877, 722, 877, 
+	722, 877, 877, 722, 877, 877, 722, 877, 
+	877, 877, 877, 877, 722, 877, 877, 877, 
+	877, 877, 722, 877, 722, 960, 920, 961, 
+	962, 963, 909, 964, 965, 909, 722, 877, 
+	877, 877, 877, 722, 877, 877, 877, 722, 
+	877, 877, 722, 877, 877, 722, 877, 877, 
+	722, 877, 722, 939, 909, 909, 722, 909, 
+	722, 966, 909, 722, 877, 722, 967, 968, 
+	969, 970, 971, 972, 973, 974, 975, 966, 
+	976, 977, 978, 979, 909, 909, 909, 909, 
+	722, 877, 722, 877, 877, 877, 722, 877, 
+	877, 877, 722, 877, 722, 877, 877, 722, 
+	877, 877, 722, 877, 722, 877, 877, 877, 
+	877, 722, 877, 722, 877, 877, 722, 877, 
+	722, 877, 722, 877, 722, 980, 909, 722, 
+	877, 722, 981, 982, 983, 984, 985, 986, 
+	987, 988, 989, 990, 991, 992, 909, 993, 
+	994, 995, 996, 997, 909, 722, 877, 877, 
+	722, 877, 877, 722, 877, 722, 877, 877, 
+	877, 877, 877, 877, 722, 877, 877, 877, 
+	722, 877, 722, 877, 722, 877, 877, 722, 
+	877, 877, 722, 877, 877, 722, 877, 722, 
+	877, 722, 877, 877, 722, 877, 722, 877, 
+	877, 877, 877, 722, 998, 999, 1000, 1002, 
+	1003, 1001, 722, 1004, 1005, 909, 1006, 919, 
+	1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 
+	1015, 1016, 909, 722, 877, 877, 877, 877, 
+	877, 722, 877, 877, 722, 877, 722, 877, 
+	877, 722, 877, 722, 877, 877, 722, 877, 
+	722, 877, 877, 722, 877, 877, 877, 722, 
+	877, 722, 877, 877, 877, 877, 877, 877, 
+	722, 877, 877, 722, 877, 877, 877, 877, 
+	877, 722, 1017, 909, 1018, 909, 722, 877, 
+	722, 877, 722, 1019, 1020, 1021, 1022, 1023, 
+	1024, 1025, 1026, 1027, 1028, 1029, 909, 722, 
+	877, 877, 722, 877, 877, 877, 877, 877, 
+	877, 877, 877, 722, 877, 877, 722, 877, 
+	877, 877, 877, 877, 877, 722, 877, 877, 
+	877, 877, 722, 877, 877, 722, 877, 877, 
+	877, 877, 722, 877, 877, 877, 722, 877, 
+	877, 877, 722, 877, 877, 877, 722, 877, 
+	877, 722, 1030, 909, 722, 877, 722, 1013, 
+	909, 722, 1031, 722, 1032, 1033, 224, 224, 
+	1032, 224, 1032, 1032, 1032, 722, 1034, 1034, 
+	10, 1034, 1034, 1034, 1034, 1034, 10, 1034, 
+	1034, 1034, 1034, 1034, 1034, 1034, 1034, 10, 
+	1034, 1034, 1034, 1034, 1034, 1034, 1034, 1034, 
+	10, 1034, 1034, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 1034, 10, 1034, 1034, 1034, 1034, 
+	1034, 10, 1034, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 1034, 1034, 1034, 1034, 10, 1034, 
+	1034, 1034, 1034, 1034, 10, 1034, 1034, 1034, 
+	1034, 1034, 1034, 1034, 10, 1034, 1034, 1034, 
+	1034, 1034, 1034, 10, 1034, 1034, 1034, 1034, 
+	1034, 1034, 1034, 10, 1034, 1034, 1034, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 1034, 1034, 
+	1034, 10, 1034, 1034, 1034, 1034, 1034, 1034, 
+	10, 1034, 1034, 1034, 1034, 1034, 10, 1034, 
+	1034, 1034, 1034, 1034, 10, 1034, 10, 1034, 
+	1034, 10, 1034, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 1034, 1034, 1034, 1034, 1034, 10, 
+	1034, 1034, 1034, 1034, 10, 1034, 10, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 1034, 10, 
+	1034, 1034, 1034, 10, 1034, 1034, 1034, 10, 
+	1034, 1034, 1034, 10, 1034, 1034, 1034, 10, 
+	1034, 10, 1034, 1034, 10, 1034, 1034, 10, 
+	1034, 10, 1034, 1034, 1034, 1034, 1034, 1034, 
+	10, 1034, 1034, 1034, 1034, 1034, 10, 1034, 
+	1034, 1034, 1034, 10, 1034, 1034, 1034, 10, 
+	1034, 1034, 10, 1034, 1034, 10, 1034, 10, 
+	1034, 10, 1034, 1034, 10, 1034, 1034, 10, 
+	1034, 1034, 10, 1034, 1034, 1034, 10, 1034, 
+	1034, 1034, 1034, 10, 1034, 1034, 10, 1034, 
+	1034, 1034, 10, 1034, 10, 1034, 10, 1034, 
+	10, 1034, 1034, 1034, 10, 1034, 1034, 10, 
+	1034, 1034, 10, 1034, 10, 1034, 10, 1034, 
+	1034, 10, 1034, 1034, 10, 1034, 1034, 10, 
+	1034, 10, 1034, 1034, 10, 1034, 1034, 1034, 
+	10, 1034, 1034, 1034, 1034, 1034, 1034, 1034, 
+	10, 1034, 1034, 1034, 10, 1034, 1034, 1034, 
+	1034, 1034, 1034, 1034, 10, 1034, 1034, 10, 
+	1034, 10, 1034, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 1034, 1034, 1034, 10, 1034, 1034, 
+	1034, 10, 1034, 10, 1034, 10, 1034, 10, 
+	1034, 1034, 10, 1034, 1034, 1034, 10, 1034, 
+	10, 1034, 1034, 10, 1034, 1034, 10, 1034, 
+	1034, 1034, 1034, 1034, 10, 1034, 1034, 1034, 
+	1034, 1034, 10, 1034, 10, 1034, 1034, 1034, 
+	1034, 10, 1034, 1034, 1034, 10, 1034, 1034, 
+	10, 1034, 1034, 10, 1034, 1034, 10, 1034, 
+	10, 1034, 10, 1034, 10, 1034, 1034, 1034, 
+	10, 1034, 1034, 1034, 10, 1034, 10, 1034, 
+	1034, 10, 1034, 1034, 10, 1034, 10, 1034, 
+	1034, 1034, 1034, 10, 1034, 10, 1034, 1034, 
+	10, 1034, 10, 1034, 10, 1034, 10, 1034, 
+	10, 1034, 1034, 10, 1034, 1034, 10, 1034, 
+	10, 1034, 1034, 1034, 1034, 1034, 1034, 10, 
+	1034, 1034, 1034, 10, 1034, 10, 1034, 10, 
+	1034, 10, 1034, 10, 1034, 1034, 10, 1034, 
+	1034, 10, 1034, 1034, 10, 1034, 10, 1034, 
+	10, 1034, 1034, 10, 1034, 10, 1034, 1034, 
+	1034, 1034, 10, 1035, 1036, 1037, 1038, 1039, 
+	1040, 1041, 1042, 1043, 1044, 1045, 1046, 1047, 
+	1048, 1049, 1037, 10, 1034, 1034, 1034, 1034, 
+	1034, 10, 1034, 1034, 10, 1034, 10, 1034, 
+	1034, 10, 1034, 10, 1034, 1034, 10, 1034, 
+	10, 1034, 1034, 10, 1034, 1034, 1034, 10, 
+	1034, 10, 1034, 1034, 1034, 1034, 1034, 1034, 
+	10, 1034, 1034, 10, 1034, 1034, 1034, 1034, 
+	1034, 10, 1050, 1037, 1051, 1037, 10, 1034, 
+	10, 1034, 10, 1052, 1053, 1054, 1055, 1056, 
+	1057, 1058, 1059, 1060, 1061, 1062, 1037, 10, 
+	1034, 1034, 10, 1034, 1034, 1034, 1034, 1034, 
+	1034, 1034, 1034, 10, 1034, 1034, 10, 1034, 
+	1034, 1034, 1034, 1034, 1034, 10, 1034, 1034, 
+	1034, 1034, 10, 1034, 1034, 10, 1034, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 10, 1034, 
+	1034, 1034, 10, 1034, 1034, 1034, 10, 1034, 
+	1034, 10, 1037, 10, 1063, 1037, 10, 1034, 
+	10, 1046, 1037, 10, 1064, 1065, 1068, 1067, 
+	1069, 1069, 1067, 1067, 1067, 1072, 1073, 1074, 
+	1075, 1077, 1078, 1079, 1080, 1081, 1082, 1083, 
+	1084, 1085, 1086, 1087, 1088, 1089, 1090, 1091, 
+	1092, 1093, 1094, 1095, 1096, 1097, 1099, 1100, 
+	1101, 1102, 1103, 1067, 1070, 1071, 1067, 1071, 
+	1067, 1076, 1076, 1098, 1066, 2, 3, 2, 
+	4, 2, 2, 2, 2, 2, 1, 5, 
+	1105, 5, 5, 5, 5, 5, 5, 5, 
+	1104, 12, 13, 11, 11, 11, 11, 1106, 
+	2, 3, 2, 4, 2, 2, 2, 1107, 
+	2, 2, 1106, 2, 1109, 2, 4, 2, 
+	2, 2, 1107, 2, 2, 1108, 2, 3, 
+	2, 4, 2, 2, 2, 15, 2, 2, 
+	1110, 2, 1112, 1113, 2, 1114, 2, 2, 
+	4, 1116, 18, 19, 21, 22, 23, 24, 
 	25, 26, 27, 28, 29, 30, 31, 32, 
 	33, 34, 35, 36, 37, 38, 39, 40, 
-	41, 42, 43, 45, 46, 47, 48, 49, 
-	73, 73, 73, 20, 20, 44, 1146, 2, 
-	16, 51, 2, 2, 2, 4, 2, 2, 
-	228, 50, 2, 50, 2, 1145, 1158, 230, 
-	230, 230, 230, 1, 2, 1147, 51, 2, 
-	1149, 2, 2, 4, 1151, 18, 19, 21, 
+	41, 43, 44, 45, 46, 47, 2, 2, 
+	1070, 1115, 2, 1115, 2, 20, 20, 42, 
+	1111, 2, 16, 49, 1118, 1119, 2, 2, 
+	4, 2, 2, 48, 48, 2, 48, 2, 
+	1117, 1120, 61, 1117, 2, 16, 49, 1118, 
+	1119, 2, 2, 4, 59, 2, 2, 48, 
+	48, 2, 48, 2, 1117, 2, 16, 49, 
+	1118, 1119, 2, 2, 4, 59, 2, 2, 
+	48, 48, 2, 48, 2, 1117, 2, 16, 
+	49, 1118, 1119, 2, 2, 4, 59, 2, 
+	2, 48, 48, 2, 48, 2, 1117, 2, 
+	16, 49, 1118, 1119, 2, 2, 4, 59, 
+	2, 2, 48, 48, 2, 48, 2, 1117, 
+	2, 16, 49, 1118, 1119, 2, 2, 4, 
+	1121, 59, 2, 2, 48, 48, 2, 48, 
+	2, 1117, 2, 16, 49, 1118, 1119, 2, 
+	2, 4, 59, 2, 2, 48, 48, 2, 
+	48, 2, 1117, 2, 16, 49, 1118, 1119, 
+	2, 2, 4, 59, 2, 2, 48, 48, 
+	2, 48, 2, 1117, 2, 16, 49, 1118, 
+	1119, 2, 2, 4, 59, 2, 2, 48, 
+	48, 2, 48, 2, 1117, 2, 1112, 49, 
+	2, 2, 2, 4, 1116, 18, 19, 21, 
 	22, 23, 24, 25, 26, 27, 28, 29, 
 	30, 31, 32, 33, 34, 35, 36, 37, 
-	38, 39, 40, 41, 42, 43, 45, 46, 
-	47, 48, 49, 2, 2, 1150, 1150, 2, 
-	1150, 2, 20, 20, 44, 1146, 2, 1160, 
-	1161, 1147, 1162, 2, 1149, 2, 2, 1164, 
-	1151, 1166, 1167, 969, 936, 1168, 1169, 1170, 
-	1171, 1172, 1173, 1174, 1175, 1176, 1177, 1178, 
-	1179, 1180, 1181, 1016, 1182, 1183, 1184, 1185, 
-	1186, 1187, 1188, 1189, 1190, 1191, 1192, 2, 
-	2, 1163, 1165, 2, 1165, 2, 948, 948, 
-	1032, 1159, 2, 3, 2, 2, 4, 1195, 
-	1196, 296, 263, 1197, 1198, 1199, 1200, 1201, 
-	1202, 1203, 1204, 1205, 1206, 1207, 1208, 1209, 
-	1210, 343, 1211, 1212, 1213, 1214, 1215, 1216, 
-	1217, 1218, 1219, 1220, 1221, 2, 2, 2, 
-	1194, 2, 1194, 2, 275, 275, 359, 1193, 
-	2, 3, 2, 2, 4, 1195, 1196, 296, 
-	263, 1197, 1198, 1199, 1200, 1201, 1202, 1203, 
-	1204, 1205, 1206, 1207, 1208, 1209, 1210, 343, 
-	1211, 1212, 1213, 1214, 1215, 1216, 1217, 1218, 
-	1219, 1220, 1221, 2, 2, 2, 1194, 1194, 
-	2, 1194, 2, 275, 275, 359, 1193, 1195, 
-	1196, 296, 263, 1197, 1198, 1199, 1200, 1201, 
-	1202, 1203, 1204, 1205, 1206, 1207, 1208, 1209, 
-	1210, 343, 1211, 1212, 1213, 1214, 1215, 1216, 
-	1217, 1218, 1219, 1220, 1221, 231, 231, 231, 
-	275, 275, 359, 1193, 2, 3, 2, 2, 
-	4, 1224, 1224, 1225, 1226, 455, 422, 1227, 
-	1228, 1229, 1230, 1231, 1232, 1233, 1234, 1235, 
-	1236, 1237, 1238, 1239, 1240, 502, 1241, 1242, 
-	1243, 1244, 1245, 1246, 1247, 1248, 1249, 1250, 
-	1251, 2, 2, 2, 1223, 2, 1223, 2, 
-	434, 434, 518, 1222, 2, 3, 2, 2, 
-	4, 1225, 1226, 455, 422, 1227, 1228, 1229, 
-	1230, 1231, 1232, 1233, 1234, 1235, 1236, 1237, 
-	1238, 1239, 1240, 502, 1241, 1242, 1243, 1244, 
-	1245, 1246, 1247, 1248, 1249, 1250, 1251, 2, 
-	2, 2, 1223, 2, 1223, 2, 434, 434, 
-	518, 1, 1225, 1226, 455, 422, 1227, 1228, 
-	1229, 1230, 1231, 1232, 1233, 1234, 1235, 1236, 
-	1237, 1238, 1239, 1240, 502, 1241, 1242, 1243, 
-	1244, 1245, 1246, 1247, 1248, 1249, 1250, 1251, 
-	390, 390, 434, 434, 518, 1, 2, 16, 
-	1162, 2, 2, 2, 4, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 64, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 65, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 66, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 67, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 68, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 69, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 70, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 2, 16, 1162, 
-	2, 2, 2, 4, 71, 2, 2, 50, 
-	61, 2, 61, 2, 1252, 1253, 1252, 2, 
-	1160, 1254, 1147, 51, 2, 1149, 2, 2, 
-	1164, 1151, 1255, 1256, 810, 777, 1257, 1258, 
-	1259, 1260, 1261, 1262, 1263, 1264, 1265, 1266, 
-	1267, 1268, 1269, 1270, 857, 1271, 1272, 1273, 
+	38, 39, 40, 41, 43, 44, 45, 46, 
+	47, 2, 2, 17, 17, 2, 17, 2, 
+	20, 20, 42, 1111, 2, 1116, 3, 2, 
+	2, 2, 4, 1116, 18, 19, 21, 22, 
+	23, 24, 25, 26, 27, 28, 29, 30, 
+	31, 32, 33, 34, 35, 36, 37, 38, 
+	39, 40, 41, 43, 44, 45, 46, 47, 
+	2, 2, 70, 70, 2, 70, 2, 20, 
+	20, 42, 1111, 1122, 1122, 18, 19, 21, 
+	22, 23, 24, 25, 26, 27, 28, 29, 
+	30, 31, 32, 33, 34, 35, 36, 37, 
+	38, 39, 40, 41, 43, 44, 45, 46, 
+	47, 71, 71, 71, 20, 20, 42, 1111, 
+	2, 16, 49, 2, 2, 2, 4, 2, 
+	2, 222, 48, 2, 48, 2, 1110, 1123, 
+	224, 224, 224, 224, 1, 2, 1112, 49, 
+	2, 1114, 2, 2, 4, 1116, 18, 19, 
+	21, 22, 23, 24, 25, 26, 27, 28, 
+	29, 30, 31, 32, 33, 34, 35, 36, 
+	37, 38, 39, 40, 41, 43, 44, 45, 
+	46, 47, 2, 2, 1115, 1115, 2, 1115, 
+	2, 20, 20, 42, 1111, 2, 1125, 1126, 
+	1112, 1127, 2, 1114, 2, 2, 1129, 1116, 
+	1131, 1132, 1133, 1134, 1135, 1136, 1137, 1138, 
+	1139, 1140, 1141, 1142, 1143, 1144, 989, 1145, 
+	986, 1146, 1147, 1148, 1149, 1150, 1151, 1152, 
+	1153, 1154, 1155, 1156, 2, 2, 1128, 1130, 
+	2, 1130, 2, 909, 909, 1001, 1124, 2, 
+	3, 2, 2, 4, 1159, 1160, 1161, 1162, 
+	1163, 1164, 1165, 1166, 1167, 1168, 1169, 1170, 
+	1171, 1172, 337, 1173, 334, 1174, 1175, 1176, 
+	1177, 1178, 1179, 1180, 1181, 1182, 1183, 1184, 
+	2, 2, 2, 1158, 2, 1158, 2, 257, 
+	257, 349, 1157, 2, 3, 2, 2, 4, 
+	1159, 1160, 1161, 1162, 1163, 1164, 1165, 1166, 
+	1167, 1168, 1169, 1170, 1171, 1172, 337, 1173, 
+	334, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 
+	1181, 1182, 1183, 1184, 2, 2, 2, 1158, 
+	1158, 2, 1158, 2, 257, 257, 349, 1157, 
+	1159, 1160, 1161, 1162, 1163, 1164, 1165, 1166, 
+	1167, 1168, 1169, 1170, 1171, 1172, 337, 1173, 
+	334, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 
+	1181, 1182, 1183, 1184, 225, 225, 225, 257, 
+	257, 349, 1157, 2, 3, 2, 2, 4, 
+	1187, 1187, 1188, 1189, 1190, 1191, 1192, 1193, 
+	1194, 1195, 1196, 1197, 1198, 1199, 1200, 1201, 
+	491, 1202, 488, 1203, 1204, 1205, 1206, 1207, 
+	1208, 1209, 1210, 1211, 1212, 1213, 2, 2, 
+	2, 1186, 2, 1186, 2, 411, 411, 503, 
+	1185, 2, 3, 2, 2, 4, 1188, 1189, 
+	1190, 1191, 1192, 1193, 1194, 1195, 1196, 1197, 
+	1198, 1199, 1200, 1201, 491, 1202, 488, 1203, 
+	1204, 1205, 1206, 1207, 1208, 1209, 1210, 1211, 
+	1212, 1213, 2, 2, 2, 1186, 2, 1186, 
+	2, 411, 411, 503, 1, 1188, 1189, 1190, 
+	1191, 1192, 1193, 1194, 1195, 1196, 1197, 1198, 
+	1199, 1200, 1201, 491, 1202, 488, 1203, 1204, 
+	1205, 1206, 1207, 1208, 1209, 1210, 1211, 1212, 
+	1213, 379, 379, 411, 411, 503, 1, 2, 
+	16, 1127, 2, 2, 2, 4, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 62, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 63, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 64, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 65, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 66, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 67, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 68, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 2, 16, 
+	1127, 2, 2, 2, 4, 69, 2, 2, 
+	48, 59, 2, 59, 2, 1214, 1215, 1214, 
+	2, 1125, 1216, 1112, 49, 2, 1114, 2, 
+	2, 1129, 1116, 1217, 1218, 1219, 1220, 1221, 
+	1222, 1223, 1224, 1225, 1226, 1227, 1228, 1229, 
+	1230, 835, 1231, 832, 1232, 1233, 1234, 1235, 
+	1236, 1237, 1238, 1239, 1240, 1241, 1242, 2, 
+	2, 1128, 1128, 2, 1128, 2, 755, 755, 
+	847, 1124, 2, 3, 2, 4, 1243, 1243, 
+	2, 2, 2, 2, 2, 1185, 5, 5, 
+	5, 5, 6, 1159, 1160, 1161, 1162, 1163, 
+	1164, 1165, 1166, 1167, 1168, 1169, 1170, 1171, 
+	1172, 337, 1173, 334, 1174, 1175, 1176, 1177, 
+	1178, 1179, 1180, 1181, 1182, 1183, 1184, 5, 
+	5, 5, 1244, 5, 1244, 5, 257, 257, 
+	349, 1157, 5, 1105, 5, 5, 1159, 1160, 
+	1161, 1162, 1163, 1164, 1165, 1166, 1167, 1168, 
+	1169, 1170, 1171, 1172, 337, 1173, 334, 1174, 
+	1175, 1176, 1177, 1178, 1179, 1180, 1181, 1182, 
+	1183, 1184, 5, 5, 5, 1244, 1244, 5, 
+	1244, 5, 257, 257, 349, 1104, 1245, 1246, 
+	1122, 1245, 1122, 1217, 1218, 1219, 1220, 1221, 
+	1222, 1223, 1224, 1225, 1226, 1227, 1228, 1229, 
+	1230, 835, 1231, 832, 1232, 1233, 1234, 1235, 
+	1236, 1237, 1238, 1239, 1240, 1241, 1242, 723, 
+	723, 723, 755, 755, 847, 1124, 1159, 1160, 
+	1161, 1162, 1163, 1164, 1165, 1166, 1167, 1168, 
+	1169, 1170, 1171, 1172, 337, 1173, 334, 1174, 
+	1175, 1176, 1177, 1178, 1179, 1180, 1181, 1182, 
+	1183, 1184, 225, 225, 257, 257, 349, 1157, 
+	1247, 1247, 1185, 2, 1125, 1126, 1112, 49, 
+	2, 1114, 2, 2, 1129, 1116, 1131, 1132, 
+	1133, 1134, 1135, 1136, 1137, 1138, 1139, 1140, 
+	1141, 1142, 1143, 1144, 989, 1145, 986, 1146, 
+	1147, 1148, 1149, 1150, 1151, 1152, 1153, 1154, 
+	1155, 1156, 2, 2, 1128, 1130, 2, 1130, 
+	2, 909, 909, 1001, 1124, 1245, 1248, 1122, 
+	1245, 1122, 1131, 1132, 1133, 1134, 1135, 1136, 
+	1137, 1138, 1139, 1140, 1141, 1142, 1143, 1144, 
+	989, 1145, 986, 1146, 1147, 1148, 1149, 1150, 
+	1151, 1152, 1153, 1154, 1155, 1156, 723, 877, 
+	877, 909, 909, 1001, 1124, 1249, 1249, 1188, 
+	1189, 1190, 1191, 1192, 1193, 1194, 1195, 1196, 
+	1197, 1198, 1199, 1200, 1201, 491, 1202, 488, 
+	1203, 1204, 1205, 1206, 1207, 1208, 1209, 1210, 
+	1211, 1212, 1213, 379, 379, 411, 411, 503, 
+	1185, 2, 1125, 1126, 1112, 1127, 2, 1114, 
+	2, 2, 1129, 1116, 1250, 1251, 1131, 1132, 
+	1133, 1134, 1135, 1136, 1137, 1138, 1139, 1140, 
+	1141, 1142, 1143, 1144, 989, 1145, 986, 1146, 
+	1147, 1148, 1149, 1150, 1151, 1152, 1153, 1154, 
+	1155, 1156, 2, 2, 1128, 1130, 2, 1130, 
+	2, 909, 909, 1001, 1124, 2, 1125, 1126, 
+	1112, 49, 2, 1114, 2, 2, 1129, 1116, 
+	1252, 1131, 1132, 1133, 1134, 1135, 1136, 1137, 
+	1138, 1139, 1140, 1141, 1142, 1143, 1144, 989, 
+	1145, 986, 1146, 1147, 1148, 1149, 1150, 1151, 
+	1152, 1153, 1154, 1155, 1156, 2, 2, 1128, 
+	1130, 2, 1130, 2, 909, 909, 1001, 1124, 
+	2, 1125, 1126, 1112, 49, 2, 1114, 2, 
+	2, 1129, 1116, 1253, 1131, 1132, 1133, 1134, 
+	1135, 1136, 1137, 1138, 1139, 1140, 1141, 1142, 
+	1143, 1144, 989, 1145, 986, 1146, 1147, 1148, 
+	1149, 1150, 1151, 1152, 1153, 1154, 1155, 1156, 
+	2, 2, 1128, 1130, 2, 1130, 2, 909, 
+	909, 1001, 1124, 2, 1125, 1126, 1112, 49, 
+	2, 1254, 2, 2, 1129, 1116, 1131, 1132, 
+	1133, 1134, 1135, 1136, 1137, 1138, 1139, 1140, 
+	1141, 1142, 1143, 1144, 989, 1145, 986, 1146, 
+	1147, 1148, 1149, 1150, 1151, 1152, 1153, 1154, 
+	1155, 1156, 2, 2, 1128, 1130, 2, 1130, 
+	2, 909, 909, 1001, 1124, 1032, 1255, 224, 
+	224, 1032, 224, 1032, 1032, 1032, 1, 2, 
+	1125, 1126, 1112, 49, 2, 1114, 2, 2, 
+	1129, 1116, 1253, 1131, 1132, 1133, 1134, 1135, 
+	1136, 1137, 1138, 1139, 1140, 1141, 1142, 1143, 
+	1144, 989, 1145, 986, 1146, 1147, 1148, 1149, 
+	1150, 1151, 1152, 1153, 1154, 1155, 1156, 2, 
+	2, 1128, 1130, 2, 1130, 2, 909, 909, 
+	1001, 1124, 2, 1125, 1126, 1112, 1127, 2, 
+	1114, 2, 2, 1129, 1116, 1256, 1131, 1132, 
+	1133, 1134, 1135, 1136, 1137, 1138, 1139, 1140, 
+	1141, 1142, 1143, 1144, 989, 1145, 986, 1146, 
+	1147, 1148, 1149, 1150, 1151, 1152, 1153, 1154, 
+	1155, 1156, 2, 2, 1128, 1130, 2, 1130, 
+	2, 909, 909, 1001, 1124, 2, 1125, 1126, 
+	1112, 49, 2, 1114, 2, 2, 1129, 1116, 
+	1257, 1131, 1132, 1133, 1134, 1135, 1136, 1137, 
+	1138, 1139, 1140, 1141, 1142, 1143, 1144, 989, 
+	1145, 986, 1146, 1147, 1148, 1149, 1150, 1151, 
+	1152, 1153, 1154, 1155, 1156, 2, 2, 1128, 
+	1130, 2, 1130, 2, 909, 909, 1001, 1124, 
+	2, 1125, 1126, 1112, 49, 2, 1114, 2, 
+	2, 1129, 1116, 1258, 1131, 1132, 1133, 1134, 
+	1135, 1136, 1137, 1138, 1139, 1140, 1141, 1142, 
+	1143, 1144, 989, 1145, 986, 1146, 1147, 1148, 
+	1149, 1150, 1151, 1152, 1153, 1154, 1155, 1156, 
+	2, 2, 1128, 1130, 2, 1130, 2, 909, 
+	909, 1001, 1124, 2, 1125, 1126, 1112, 49, 
+	2, 1254, 2, 2, 1129, 1116, 1253, 1131, 
+	1132, 1133, 1134, 1135, 1136, 1137, 1138, 1139, 
+	1140, 1141, 1142, 1143, 1144, 989, 1145, 986, 
+	1146, 1147, 1148, 1149, 1150, 1151, 1152, 1153, 
+	1154, 1155, 1156, 2, 2, 1128, 1130, 2, 
+	1130, 2, 909, 909, 1001, 1124, 1034, 1034, 
+	1034, 1106, 1245, 1248, 1122, 1215, 1245, 1122, 
+	1131, 1132, 1133, 1134, 1135, 1136, 1137, 1138, 
+	1139, 1140, 1141, 1142, 1143, 1144, 989, 1145, 
+	986, 1146, 1147, 1148, 1149, 1150, 1151, 1152, 
+	1153, 1154, 1155, 1156, 723, 877, 877, 909, 
+	909, 1001, 1124, 1034, 1034, 1034, 1106, 1034, 
+	1106, 1034, 1034, 1034, 1034, 1034, 1106, 1034, 
+	1034, 1034, 1034, 1106, 1034, 1034, 1034, 1034, 
+	1034, 1106, 1034, 1034, 1106, 1034, 1034, 1106, 
+	1034, 1034, 1106, 1034, 1034, 1034, 1106, 1034, 
+	1034, 1034, 1106, 1034, 1034, 1034, 1034, 1034, 
+	1106, 1034, 1034, 1106, 1034, 1034, 1034, 1106, 
+	1034, 1034, 1034, 1034, 1034, 1034, 1106, 1034, 
+	1106, 1034, 1106, 1034, 1106, 1034, 1034, 1034, 
+	1106, 1259, 1260, 1261, 1262, 1263, 1264, 1265, 
+	1266, 1267, 1268, 1269, 1270, 1271, 1272, 1273, 
 	1274, 1275, 1276, 1277, 1278, 1279, 1280, 1281, 
-	2, 2, 1163, 1163, 2, 1163, 2, 789, 
-	789, 873, 1159, 2, 3, 2, 4, 1282, 
-	1282, 2, 2, 2, 2, 2, 1222, 5, 
-	5, 5, 5, 6, 1195, 1196, 296, 263, 
-	1197, 1198, 1199, 1200, 1201, 1202, 1203, 1204, 
-	1205, 1206, 1207, 1208, 1209, 1210, 343, 1211, 
-	1212, 1213, 1214, 1215, 1216, 1217, 1218, 1219, 
-	1220, 1221, 5, 5, 5, 1283, 5, 1283, 
-	5, 275, 275, 359, 1193, 5, 1140, 5, 
-	5, 1195, 1196, 296, 263, 1197, 1198, 1199, 
-	1200, 1201, 1202, 1203, 1204, 1205, 1206, 1207, 
-	1208, 1209, 1210, 343, 1211, 1212, 1213, 1214, 
-	1215, 1216, 1217, 1218, 1219, 1220, 1221, 5, 
-	5, 5, 1283, 1283, 5, 1283, 5, 275, 
-	275, 359, 1139, 1284, 1285, 1157, 1284, 1157, 
-	1255, 1256, 810, 777, 1257, 1258, 1259, 1260, 
-	1261, 1262, 1263, 1264, 1265, 1266, 1267, 1268, 
-	1269, 1270, 857, 1271, 1272, 1273, 1274, 1275, 
-	1276, 1277, 1278, 1279, 1280, 1281, 745, 745, 
-	745, 789, 789, 873, 1159, 1195, 1196, 296, 
-	263, 1197, 1198, 1199, 1200, 1201, 1202, 1203, 
-	1204, 1205, 1206, 1207, 1208, 1209, 1210, 343, 
-	1211, 1212, 1213, 1214, 1215, 1216, 1217, 1218, 
-	1219, 1220, 1221, 231, 231, 275, 275, 359, 
-	1193, 1286, 1286, 1222, 2, 1160, 1161, 1147, 
-	51, 2, 1149, 2, 2, 1164, 1151, 1166, 
-	1167, 969, 936, 1168, 1169, 1170, 1171, 1172, 
-	1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 
-	1181, 1016, 1182, 1183, 1184, 1185, 1186, 1187, 
-	1188, 1189, 1190, 1191, 1192, 2, 2, 1163, 
-	1165, 2, 1165, 2, 948, 948, 1032, 1159, 
-	1284, 1287, 1157, 1284, 1157, 1166, 1167, 969, 
-	936, 1168, 1169, 1170, 1171, 1172, 1173, 1174, 
-	1175, 1176, 1177, 1178, 1179, 1180, 1181, 1016, 
-	1182, 1183, 1184, 1185, 1186, 1187, 1188, 1189, 
-	1190, 1191, 1192, 745, 904, 904, 948, 948, 
-	1032, 1159, 1288, 1288, 1225, 1226, 455, 422, 
-	1227, 1228, 1229, 1230, 1231, 1232, 1233, 1234, 
-	1235, 1236, 1237, 1238, 1239, 1240, 502, 1241, 
-	1242, 1243, 1244, 1245, 1246, 1247, 1248, 1249, 
-	1250, 1251, 390, 390, 434, 434, 518, 1222, 
-	2, 1160, 1161, 1147, 1162, 2, 1149, 2, 
-	2, 1164, 1151, 1289, 1290, 1166, 1167, 969, 
-	936, 1168, 1169, 1170, 1171, 1172, 1173, 1174, 
-	1175, 1176, 1177, 1178, 1179, 1180, 1181, 1016, 
-	1182, 1183, 1184, 1185, 1186, 1187, 1188, 1189, 
-	1190, 1191, 1192, 2, 2, 1163, 1165, 2, 
-	1165, 2, 948, 948, 1032, 1159, 2, 1160, 
-	1161, 1147, 51, 2, 1149, 2, 2, 1164, 
-	1151, 1291, 1166, 1167, 969, 936, 1168, 1169, 
-	1170, 1171, 1172, 1173, 1174, 1175, 1176, 1177, 
-	1178, 1179, 1180, 1181, 1016, 1182, 1183, 1184, 
-	1185, 1186, 1187, 1188, 1189, 1190, 1191, 1192, 
-	2, 2, 1163, 1165, 2, 1165, 2, 948, 
-	948, 1032, 1159, 2, 1160, 1161, 1147, 51, 
-	2, 1149, 2, 2, 1164, 1151, 1292, 1166, 
-	1167, 969, 936, 1168, 1169, 1170, 1171, 1172, 
-	1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 
-	1181, 1016, 1182, 1183, 1184, 1185, 1186, 1187, 
-	1188, 1189, 1190, 1191, 1192, 2, 2, 1163, 
-	1165, 2, 1165, 2, 948, 948, 1032, 1159, 
-	2, 1160, 1161, 1147, 51, 2, 1293, 2, 
-	2, 1164, 1151, 1166, 1167, 969, 936, 1168, 
-	1169, 1170, 1171, 1172, 1173, 1174, 1175, 1176, 
-	1177, 1178, 1179, 1180, 1181, 1016, 1182, 1183, 
-	1184, 1185, 1186, 1187, 1188, 1189, 1190, 1191, 
-	1192, 2, 2, 1163, 1165, 2, 1165, 2, 
-	948, 948, 1032, 1159, 1064, 1294, 230, 230, 
-	1064, 230, 1064, 1064, 1064, 1, 2, 1160, 
-	1161, 1147, 51, 2, 1149, 2, 2, 1164, 
-	1151, 1292, 1166, 1167, 969, 936, 1168, 1169, 
-	1170, 1171, 1172, 1173, 1174, 1175, 1176, 1177, 
-	1178, 1179, 1180, 1181, 1016, 1182, 1183, 1184, 
-	1185, 1186, 1187, 1188, 1189, 1190, 1191, 1192, 
-	2, 2, 1163, 1165, 2, 1165, 2, 948, 
-	948, 1032, 1159, 2, 1160, 1161, 1147, 1162, 
-	2, 1149, 2, 2, 1164, 1151, 1295, 1166, 
-	1167, 969, 936, 1168, 1169, 1170, 1171, 1172, 
-	1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 
-	1181, 1016, 1182, 1183, 1184, 1185, 1186, 1187, 
-	1188, 1189, 1190, 1191, 1192, 2, 2, 1163, 
-	1165, 2, 1165, 2, 948, 948, 1032, 1159, 
-	2, 1160, 1161, 1147, 51, 2, 1149, 2, 
-	2, 1164, 1151, 1296, 1166, 1167, 969, 936, 
-	1168, 1169, 1170, 1171, 1172, 1173, 1174, 1175, 
-	1176, 1177, 1178, 1179, 1180, 1181, 1016, 1182, 
-	1183, 1184, 1185, 1186, 1187, 1188, 1189, 1190, 
-	1191, 1192, 2, 2, 1163, 1165, 2, 1165, 
-	2, 948, 948, 1032, 1159, 2, 1160, 1161, 
-	1147, 51, 2, 1149, 2, 2, 1164, 1151, 
-	1297, 1166, 1167, 969, 936, 1168, 1169, 1170, 
-	1171, 1172, 1173, 1174, 1175, 1176, 1177, 1178, 
-	1179, 1180, 1181, 1016, 1182, 1183, 1184, 1185, 
-	1186, 1187, 1188, 1189, 1190, 1191, 1192, 2, 
-	2, 1163, 1165, 2, 1165, 2, 948, 948, 
-	1032, 1159, 2, 1160, 1161, 1147, 51, 2, 
-	1293, 2, 2, 1164, 1151, 1292, 1166, 1167, 
-	969, 936, 1168, 1169, 1170, 1171, 1172, 1173, 
-	1174, 1175, 1176, 1177, 1178, 1179, 1180, 1181, 
-	1016, 1182, 1183, 1184, 1185, 1186, 1187, 1188, 
-	1189, 1190, 1191, 1192, 2, 2, 1163, 1165, 
-	2, 1165, 2, 948, 948, 1032, 1159, 1066, 
-	1066, 1066, 1141, 1284, 1287, 1157, 1253, 1284, 
-	1157, 1166, 1167, 969, 936, 1168, 1169, 1170, 
-	1171, 1172, 1173, 1174, 1175, 1176, 1177, 1178, 
-	1179, 1180, 1181, 1016, 1182, 1183, 1184, 1185, 
-	1186, 1187, 1188, 1189, 1190, 1191, 1192, 745, 
-	904, 904, 948, 948, 1032, 1159, 1066, 1066, 
-	1066, 1141, 1066, 1141, 1066, 1141, 1066, 1141, 
-	1141, 1141, 1141, 1141, 1066, 1066, 1066, 1066, 
-	1066, 1141, 1066, 1066, 1066, 1066, 1066, 1141, 
-	1141, 1066, 1141, 1066, 1141, 1066, 1141, 1141, 
-	1066, 1141, 1141, 1141, 1066, 1066, 1066, 1066, 
-	1066, 1066, 1141, 1066, 1066, 1141, 1066, 1066, 
-	1066, 1141, 1141, 1141, 1141, 1141, 1141, 1141, 
-	1066, 1066, 1141, 1066, 1141, 1141, 1066, 1066, 
-	1066, 1066, 1141, 1298, 1299, 1300, 1301, 1302, 
-	1303, 1304, 1305, 1306, 1307, 1308, 1309, 1310, 
-	1311, 1312, 1313, 1314, 1315, 1316, 1317, 1318, 
-	1319, 1320, 1321, 1322, 1323, 1324, 1141, 1325, 
-	1326, 1327, 1328, 1329, 1330, 1331, 1332, 1333, 
-	1334, 1335, 1336, 1337, 1338, 1339, 1340, 1341, 
-	1342, 1343, 1344, 1345, 1346, 1347, 1348, 1349, 
-	1350, 1351, 1352, 1353, 1354, 1355, 1356, 1357, 
-	1358, 1359, 1069, 1078, 1360, 1069, 1361, 1362, 
-	1363, 1364, 1069, 1078, 1078, 1141, 1365, 1366, 
-	1367, 1368, 1369, 1370, 1371, 1372, 1373, 1069, 
-	1374, 1375, 1376, 1377, 1378, 1379, 1141, 1380, 
-	1339, 1381, 1382, 1383, 1078, 1384, 1385, 1069, 
-	1078, 1141, 1386, 1141, 1069, 1078, 1078, 1387, 
-	1141, 1078, 1069, 1388, 1069, 1389, 1390, 1391, 
-	1392, 1078, 1393, 1394, 1395, 1396, 1069, 1387, 
-	1397, 1398, 1399, 1400, 1069, 1078, 1078, 1078, 
-	1141, 1401, 1141, 1078, 1069, 1402, 1403, 1404, 
-	1405, 1406, 1407, 1408, 1409, 1410, 1411, 1412, 
-	1413, 1078, 1414, 1415, 1416, 1417, 1418, 1078, 
-	1141, 1419, 1420, 1421, 1422, 1424, 1425, 1423, 
-	1141, 0
+	1282, 1283, 1284, 1285, 1106, 1286, 1287, 1288, 
+	1289, 1290, 1291, 1292, 1293, 1294, 1295, 1296, 
+	1297, 1298, 1039, 1299, 1300, 1301, 1302, 1303, 
+	1304, 1305, 1306, 1307, 1308, 1309, 1310, 1311, 
+	1312, 1313, 1314, 1315, 1316, 1317, 1318, 1319, 
+	1320, 1321, 1322, 1323, 1037, 1037, 1037, 1106, 
+	1324, 1325, 1326, 1327, 1328, 1329, 1330, 1331, 
+	1332, 1037, 1333, 1334, 1335, 1336, 1337, 1338, 
+	1106, 1339, 1299, 1340, 1341, 1342, 1037, 1343, 
+	1344, 1037, 1106, 1318, 1037, 1037, 1106, 1037, 
+	1106, 1345, 1037, 1106, 1346, 1347, 1348, 1349, 
+	1350, 1351, 1352, 1353, 1354, 1345, 1355, 1356, 
+	1357, 1358, 1037, 1037, 1037, 1037, 1106, 1359, 
+	1037, 1106, 1360, 1361, 1362, 1363, 1364, 1365, 
+	1366, 1367, 1368, 1369, 1370, 1371, 1037, 1372, 
+	1373, 1374, 1375, 1376, 1037, 1106, 1377, 1378, 
+	1379, 1381, 1382, 1380, 1106, 0
 };
 
 static const short _StdTok_trans_targs[] = {
-	1304, 1305, 2, 3, 4, 1307, 6, 1305, 
-	7, 1305, 1305, 8, 9, 10, 1305, 1311, 
-	13, 1323, 28, 30, 31, 32, 33, 34, 
+	1263, 1264, 2, 3, 4, 1266, 6, 1264, 
+	7, 1264, 1264, 8, 9, 10, 1264, 1270, 
+	13, 1282, 28, 30, 31, 32, 33, 34, 
 	35, 36, 37, 38, 39, 40, 41, 42, 
-	43, 44, 45, 46, 47, 48, 49, 50, 
-	78, 118, 134, 141, 143, 144, 146, 160, 
-	162, 179, 14, 15, 16, 18, 19, 20, 
-	21, 22, 24, 25, 26, 1313, 1305, 1314, 
-	1315, 1316, 1317, 1318, 1319, 1320, 1321, 1322, 
-	1324, 1325, 51, 52, 53, 54, 55, 56, 
+	43, 44, 45, 46, 47, 48, 76, 116, 
+	132, 139, 140, 141, 143, 157, 159, 175, 
+	14, 15, 16, 18, 19, 20, 21, 22, 
+	24, 25, 26, 1272, 1264, 1273, 1274, 1275, 
+	1276, 1277, 1278, 1279, 1280, 1281, 1283, 1284, 
+	49, 50, 51, 52, 53, 54, 55, 56, 
 	57, 58, 59, 60, 61, 62, 63, 64, 
 	65, 66, 67, 68, 69, 70, 71, 72, 
-	73, 74, 75, 76, 77, 79, 80, 81, 
+	73, 74, 75, 77, 78, 79, 80, 81, 
 	82, 83, 84, 85, 86, 87, 88, 89, 
 	90, 91, 92, 93, 94, 95, 96, 97, 
 	98, 99, 100, 101, 102, 103, 104, 105, 
 	106, 107, 108, 109, 110, 111, 112, 113, 
-	114, 115, 116, 117, 119, 120, 121, 122, 
+	114, 115, 117, 118, 119, 120, 121, 122, 
 	123, 124, 125, 126, 127, 128, 129, 130, 
-	131, 132, 133, 135, 136, 137, 138, 139, 
-	140, 142, 145, 147, 148, 149, 150, 151, 
-	152, 153, 154, 155, 156, 157, 158, 159, 
-	161, 163, 164, 165, 166, 167, 168, 169, 
-	170, 171, 172, 173, 174, 175, 176, 177, 
-	178, 180, 195, 198, 210, 211, 213, 181, 
-	182, 183, 184, 185, 186, 187, 188, 189, 
-	190, 191, 192, 193, 194, 196, 197, 199, 
-	200, 201, 202, 203, 204, 205, 206, 207, 
-	208, 209, 212, 1305, 1326, 216, 1327, 1332, 
-	239, 240, 241, 242, 243, 244, 245, 246, 
-	247, 248, 249, 250, 251, 252, 253, 254, 
-	255, 256, 257, 258, 259, 260, 261, 262, 
-	263, 264, 265, 267, 268, 269, 270, 221, 
-	271, 272, 273, 274, 275, 276, 277, 278, 
-	279, 280, 281, 219, 282, 283, 284, 285, 
-	286, 287, 288, 289, 290, 291, 292, 293, 
-	294, 295, 296, 297, 298, 299, 300, 301, 
-	220, 302, 303, 304, 305, 307, 308, 309, 
-	310, 311, 312, 313, 314, 315, 316, 317, 
-	318, 319, 320, 321, 323, 324, 325, 326, 
-	327, 328, 330, 333, 335, 336, 337, 338, 
-	339, 340, 341, 342, 343, 344, 345, 346, 
-	347, 349, 351, 352, 353, 354, 355, 236, 
-	356, 357, 358, 359, 360, 361, 362, 363, 
-	364, 365, 366, 368, 383, 386, 398, 331, 
-	399, 401, 369, 370, 371, 372, 373, 374, 
-	375, 376, 377, 378, 379, 380, 381, 382, 
-	384, 385, 387, 388, 389, 390, 391, 392, 
-	393, 394, 395, 396, 397, 400, 1335, 424, 
-	425, 426, 427, 428, 429, 430, 431, 432, 
-	433, 434, 435, 436, 437, 438, 439, 440, 
-	441, 442, 443, 444, 445, 446, 447, 448, 
-	449, 450, 452, 453, 454, 455, 406, 456, 
-	457, 458, 459, 460, 461, 462, 463, 464, 
-	465, 466, 404, 467, 468, 469, 470, 471, 
-	472, 473, 474, 475, 476, 477, 478, 479, 
-	480, 481, 482, 483, 484, 485, 486, 405, 
-	487, 488, 489, 490, 492, 493, 494, 495, 
-	496, 497, 498, 499, 500, 501, 502, 503, 
-	504, 505, 506, 508, 509, 510, 511, 512, 
-	513, 515, 518, 520, 521, 522, 523, 524, 
-	525, 526, 527, 528, 529, 530, 531, 532, 
-	534, 536, 537, 538, 539, 540, 421, 541, 
-	542, 543, 544, 545, 546, 547, 548, 549, 
-	550, 551, 553, 568, 571, 583, 516, 584, 
-	586, 554, 555, 556, 557, 558, 559, 560, 
-	561, 562, 563, 564, 565, 566, 567, 569, 
-	570, 572, 573, 574, 575, 576, 577, 578, 
-	579, 580, 581, 582, 585, 1336, 1337, 1338, 
-	1339, 1340, 1341, 1342, 1343, 1344, 588, 590, 
-	591, 592, 593, 594, 595, 596, 597, 598, 
-	599, 600, 601, 602, 603, 604, 605, 606, 
-	607, 608, 609, 610, 638, 678, 694, 701, 
-	703, 704, 706, 720, 722, 739, 1345, 611, 
-	612, 613, 614, 615, 616, 617, 618, 619, 
-	620, 621, 622, 623, 624, 625, 626, 627, 
-	628, 629, 630, 631, 632, 633, 634, 635, 
-	636, 637, 639, 640, 641, 642, 643, 644, 
-	645, 646, 647, 648, 649, 650, 651, 652, 
-	653, 654, 655, 656, 657, 658, 659, 660, 
-	661, 662, 663, 664, 665, 666, 667, 668, 
-	669, 670, 671, 672, 673, 674, 675, 676, 
-	677, 679, 680, 681, 682, 683, 684, 685, 
-	686, 687, 688, 689, 690, 691, 692, 693, 
-	695, 696, 697, 698, 699, 700, 702, 705, 
+	131, 133, 134, 135, 136, 137, 138, 142, 
+	144, 145, 146, 147, 148, 149, 150, 151, 
+	152, 153, 154, 155, 156, 158, 160, 161, 
+	162, 163, 164, 165, 166, 167, 168, 169, 
+	170, 171, 172, 173, 174, 176, 190, 193, 
+	205, 207, 177, 178, 179, 180, 181, 182, 
+	183, 184, 185, 186, 187, 188, 189, 191, 
+	192, 194, 195, 196, 197, 198, 199, 200, 
+	201, 202, 203, 204, 206, 1264, 1285, 210, 
+	1286, 1291, 231, 232, 233, 234, 235, 236, 
+	237, 238, 239, 240, 241, 242, 243, 244, 
+	245, 246, 247, 248, 249, 250, 251, 252, 
+	253, 254, 255, 256, 257, 259, 260, 261, 
+	262, 213, 263, 264, 265, 266, 267, 268, 
+	269, 270, 271, 272, 273, 274, 275, 276, 
+	277, 278, 279, 280, 281, 282, 283, 284, 
+	285, 286, 287, 288, 289, 290, 291, 292, 
+	293, 294, 295, 296, 297, 299, 300, 301, 
+	302, 303, 304, 305, 306, 307, 308, 309, 
+	310, 311, 312, 313, 315, 316, 317, 318, 
+	319, 320, 324, 326, 327, 328, 329, 330, 
+	331, 332, 333, 334, 335, 336, 337, 338, 
+	340, 342, 343, 344, 345, 346, 228, 347, 
+	348, 226, 349, 350, 351, 352, 353, 354, 
+	355, 356, 358, 372, 375, 322, 387, 389, 
+	359, 360, 361, 362, 363, 364, 365, 366, 
+	367, 368, 369, 370, 371, 373, 374, 376, 
+	377, 378, 379, 380, 381, 382, 383, 384, 
+	385, 386, 388, 1294, 410, 411, 412, 413, 
+	414, 415, 416, 417, 418, 419, 420, 421, 
+	422, 423, 424, 425, 426, 427, 428, 429, 
+	430, 431, 432, 433, 434, 435, 436, 438, 
+	439, 440, 441, 392, 442, 443, 444, 445, 
+	446, 447, 448, 449, 450, 451, 452, 453, 
+	454, 455, 456, 457, 458, 459, 460, 461, 
+	462, 463, 464, 465, 466, 467, 468, 469, 
+	470, 471, 472, 473, 474, 475, 476, 478, 
+	479, 480, 481, 482, 483, 484, 485, 486, 
+	487, 488, 489, 490, 491, 492, 494, 495, 
+	496, 497, 498, 499, 503, 505, 506, 507, 
+	508, 509, 510, 511, 512, 513, 514, 515, 
+	516, 517, 519, 521, 522, 523, 524, 525, 
+	407, 526, 527, 405, 528, 529, 530, 531, 
+	532, 533, 534, 535, 537, 551, 554, 501, 
+	566, 568, 538, 539, 540, 541, 542, 543, 
+	544, 545, 546, 547, 548, 549, 550, 552, 
+	553, 555, 556, 557, 558, 559, 560, 561, 
+	562, 563, 564, 565, 567, 1295, 1296, 1297, 
+	1298, 1299, 1300, 1301, 1302, 1303, 570, 572, 
+	573, 574, 575, 576, 577, 578, 579, 580, 
+	581, 582, 583, 584, 585, 586, 587, 588, 
+	589, 590, 618, 658, 674, 681, 682, 683, 
+	685, 699, 701, 717, 1304, 591, 592, 593, 
+	594, 595, 596, 597, 598, 599, 600, 601, 
+	602, 603, 604, 605, 606, 607, 608, 609, 
+	610, 611, 612, 613, 614, 615, 616, 617, 
+	619, 620, 621, 622, 623, 624, 625, 626, 
+	627, 628, 629, 630, 631, 632, 633, 634, 
+	635, 636, 637, 638, 639, 640, 641, 642, 
+	643, 644, 645, 646, 647, 648, 649, 650, 
+	651, 652, 653, 654, 655, 656, 657, 659, 
+	660, 661, 662, 663, 664, 665, 666, 667, 
+	668, 669, 670, 671, 672, 673, 675, 676, 
+	677, 678, 679, 680, 684, 686, 687, 688, 
+	689, 690, 691, 692, 693, 694, 695, 696, 
+	697, 698, 700, 702, 703, 704, 705, 706, 
 	707, 708, 709, 710, 711, 712, 713, 714, 
-	715, 716, 717, 718, 719, 721, 723, 724, 
-	725, 726, 727, 728, 729, 730, 731, 732, 
-	733, 734, 735, 736, 737, 738, 740, 755, 
-	758, 770, 771, 773, 741, 742, 743, 744, 
-	745, 746, 747, 748, 749, 750, 751, 752, 
-	753, 754, 756, 757, 759, 760, 761, 762, 
-	763, 764, 765, 766, 767, 768, 769, 772, 
-	1305, 1350, 796, 797, 798, 799, 800, 801, 
-	802, 803, 804, 805, 806, 807, 808, 809, 
-	810, 811, 812, 813, 814, 815, 816, 817, 
-	818, 819, 820, 821, 822, 824, 825, 826, 
-	827, 778, 828, 829, 830, 831, 832, 833, 
-	834, 835, 836, 837, 838, 776, 839, 840, 
-	841, 842, 843, 844, 845, 846, 847, 848, 
-	849, 850, 851, 852, 853, 854, 855, 856, 
-	857, 858, 777, 859, 860, 861, 862, 864, 
-	865, 866, 867, 868, 869, 870, 871, 872, 
-	873, 874, 875, 876, 877, 878, 880, 881, 
-	882, 883, 884, 885, 887, 890, 892, 893, 
-	894, 895, 896, 897, 898, 899, 900, 901, 
-	902, 903, 904, 906, 908, 909, 910, 911, 
-	912, 793, 913, 914, 915, 916, 917, 918, 
-	919, 920, 921, 922, 923, 925, 940, 943, 
-	955, 888, 956, 958, 926, 927, 928, 929, 
-	930, 931, 932, 933, 934, 935, 936, 937, 
-	938, 939, 941, 942, 944, 945, 946, 947, 
-	948, 949, 950, 951, 952, 953, 954, 957, 
-	1354, 981, 982, 983, 984, 985, 986, 987, 
-	988, 989, 990, 991, 992, 993, 994, 995, 
-	996, 997, 998, 999, 1000, 1001, 1002, 1003, 
-	1004, 1005, 1006, 1007, 1009, 1010, 1011, 1012, 
-	963, 1013, 1014, 1015, 1016, 1017, 1018, 1019, 
-	1020, 1021, 1022, 1023, 961, 1024, 1025, 1026, 
-	1027, 1028, 1029, 1030, 1031, 1032, 1033, 1034, 
-	1035, 1036, 1037, 1038, 1039, 1040, 1041, 1042, 
-	1043, 962, 1044, 1045, 1046, 1047, 1049, 1050, 
-	1051, 1052, 1053, 1054, 1055, 1056, 1057, 1058, 
-	1059, 1060, 1061, 1062, 1063, 1065, 1066, 1067, 
-	1068, 1069, 1070, 1072, 1075, 1077, 1078, 1079, 
-	1080, 1081, 1082, 1083, 1084, 1085, 1086, 1087, 
-	1088, 1089, 1091, 1093, 1094, 1095, 1096, 1097, 
-	978, 1098, 1099, 1100, 1101, 1102, 1103, 1104, 
-	1105, 1106, 1107, 1108, 1110, 1125, 1128, 1140, 
-	1073, 1141, 1143, 1111, 1112, 1113, 1114, 1115, 
-	1116, 1117, 1118, 1119, 1120, 1121, 1122, 1123, 
-	1124, 1126, 1127, 1129, 1130, 1131, 1132, 1133, 
-	1134, 1135, 1136, 1137, 1138, 1139, 1142, 1145, 
-	1327, 1360, 1367, 1270, 1271, 1177, 1272, 1273, 
-	1274, 1275, 1276, 1277, 1278, 1279, 1189, 1280, 
-	1281, 1282, 1283, 1285, 1286, 1288, 1289, 1290, 
-	1291, 1292, 1293, 1294, 1295, 1296, 1297, 1298, 
-	1302, 0, 1305, 1305, 1306, 1308, 1309, 1312, 
-	1329, 1356, 1362, 1366, 1368, 1369, 1370, 1371, 
-	1372, 1373, 1374, 1375, 1376, 1377, 1378, 1379, 
-	1380, 1381, 1382, 1383, 1384, 1385, 1386, 1387, 
-	1388, 1389, 1390, 1391, 1392, 1393, 1394, 1395, 
-	1396, 1397, 1398, 1305, 5, 1305, 1310, 1305, 
-	11, 1305, 1305, 12, 214, 215, 1328, 27, 
-	1305, 1306, 17, 1305, 23, 29, 1327, 1305, 
-	1330, 1333, 587, 1346, 1348, 1353, 959, 960, 
-	964, 965, 966, 967, 968, 969, 970, 971, 
-	972, 973, 974, 975, 976, 977, 979, 980, 
-	1008, 1048, 1064, 1071, 1074, 1076, 1090, 1092, 
-	1109, 1305, 1331, 217, 218, 222, 223, 224, 
-	225, 226, 227, 228, 229, 230, 231, 232, 
-	233, 234, 235, 237, 238, 266, 306, 322, 
-	329, 332, 334, 348, 350, 367, 1305, 1334, 
-	1334, 402, 403, 407, 408, 409, 410, 411, 
-	412, 413, 414, 415, 416, 417, 418, 419, 
-	420, 422, 423, 451, 491, 507, 514, 517, 
-	519, 533, 535, 552, 1305, 589, 1347, 774, 
-	775, 779, 780, 781, 782, 783, 784, 785, 
-	786, 787, 788, 789, 790, 791, 792, 794, 
-	795, 823, 863, 879, 886, 889, 891, 905, 
-	907, 924, 1306, 1349, 1351, 1352, 1305, 1355, 
-	1335, 1357, 1361, 1358, 1359, 1144, 1360, 1363, 
-	1364, 1365, 1146, 1147, 1148, 1149, 1150, 1151, 
-	1152, 1153, 1154, 1155, 1156, 1157, 1158, 1159, 
-	1160, 1161, 1162, 1163, 1164, 1165, 1166, 1167, 
-	1168, 1169, 1170, 1171, 1172, 1173, 1174, 1175, 
-	1176, 1178, 1179, 1180, 1181, 1182, 1183, 1184, 
-	1185, 1186, 1187, 1188, 1190, 1191, 1192, 1193, 
-	1194, 1195, 1196, 1197, 1198, 1199, 1200, 1201, 
-	1202, 1203, 1204, 1205, 1206, 1207, 1208, 1209, 
-	1210, 1211, 1212, 1213, 1214, 1215, 1216, 1217, 
-	1218, 1219, 1220, 1221, 1222, 1223, 1224, 1225, 
-	1226, 1227, 1228, 1229, 1230, 1231, 1232, 1233, 
+	715, 716, 718, 732, 735, 747, 749, 719, 
+	720, 721, 722, 723, 724, 725, 726, 727, 
+	728, 729, 730, 731, 733, 734, 736, 737, 
+	738, 739, 740, 741, 742, 743, 744, 745, 
+	746, 748, 1264, 1309, 770, 771, 772, 773, 
+	774, 775, 776, 777, 778, 779, 780, 781, 
+	782, 783, 784, 785, 786, 787, 788, 789, 
+	790, 791, 792, 793, 794, 795, 796, 798, 
+	799, 800, 801, 752, 802, 803, 804, 805, 
+	806, 807, 808, 809, 810, 811, 812, 813, 
+	814, 815, 816, 817, 818, 819, 820, 821, 
+	822, 823, 824, 825, 826, 827, 828, 829, 
+	830, 831, 832, 833, 834, 835, 836, 838, 
+	839, 840, 841, 842, 843, 844, 845, 846, 
+	847, 848, 849, 850, 851, 852, 854, 855, 
+	856, 857, 858, 859, 863, 865, 866, 867, 
+	868, 869, 870, 871, 872, 873, 874, 875, 
+	876, 877, 879, 881, 882, 883, 884, 885, 
+	767, 886, 887, 765, 888, 889, 890, 891, 
+	892, 893, 894, 895, 897, 911, 914, 861, 
+	926, 928, 898, 899, 900, 901, 902, 903, 
+	904, 905, 906, 907, 908, 909, 910, 912, 
+	913, 915, 916, 917, 918, 919, 920, 921, 
+	922, 923, 924, 925, 927, 1313, 949, 950, 
+	951, 952, 953, 954, 955, 956, 957, 958, 
+	959, 960, 961, 962, 963, 964, 965, 966, 
+	967, 968, 969, 970, 971, 972, 973, 974, 
+	975, 977, 978, 979, 980, 931, 981, 982, 
+	983, 984, 985, 986, 987, 988, 989, 990, 
+	991, 992, 993, 994, 995, 996, 997, 998, 
+	999, 1000, 1001, 1002, 1003, 1004, 1005, 1006, 
+	1007, 1008, 1009, 1010, 1011, 1012, 1013, 1014, 
+	1015, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 
+	1024, 1025, 1026, 1027, 1028, 1029, 1030, 1031, 
+	1033, 1034, 1035, 1036, 1037, 1038, 1042, 1044, 
+	1045, 1046, 1047, 1048, 1049, 1050, 1051, 1052, 
+	1053, 1054, 1055, 1056, 1058, 1060, 1061, 1062, 
+	1063, 1064, 946, 1065, 1066, 944, 1067, 1068, 
+	1069, 1070, 1071, 1072, 1073, 1074, 1076, 1090, 
+	1093, 1040, 1105, 1107, 1077, 1078, 1079, 1080, 
+	1081, 1082, 1083, 1084, 1085, 1086, 1087, 1088, 
+	1089, 1091, 1092, 1094, 1095, 1096, 1097, 1098, 
+	1099, 1100, 1101, 1102, 1103, 1104, 1106, 1109, 
+	1286, 1319, 1326, 1231, 1232, 1141, 1233, 1151, 
 	1234, 1235, 1236, 1237, 1238, 1239, 1240, 1241, 
-	1242, 1243, 1244, 1245, 1246, 1247, 1248, 1249, 
-	1250, 1251, 1252, 1253, 1254, 1255, 1256, 1257, 
-	1258, 1259, 1260, 1261, 1262, 1263, 1264, 1265, 
-	1266, 1267, 1268, 1269, 1284, 1287, 1299, 1300, 
-	1301, 1303
+	1242, 1243, 1245, 1246, 1248, 1249, 1250, 1251, 
+	1252, 1253, 1254, 1255, 1256, 1257, 1258, 1261, 
+	0, 1264, 1264, 1265, 1267, 1268, 1271, 1288, 
+	1315, 1321, 1325, 1327, 1328, 1329, 1330, 1331, 
+	1332, 1333, 1334, 1335, 1336, 1337, 1338, 1339, 
+	1340, 1341, 1342, 1343, 1344, 1345, 1346, 1347, 
+	1348, 1349, 1350, 1351, 1352, 1353, 1354, 1355, 
+	1264, 5, 1264, 1269, 1264, 11, 1264, 1264, 
+	12, 208, 209, 1287, 27, 1264, 1265, 17, 
+	1264, 23, 29, 1286, 1264, 1289, 1292, 569, 
+	1305, 1307, 1312, 929, 930, 932, 933, 934, 
+	935, 936, 937, 938, 939, 940, 941, 942, 
+	943, 945, 947, 948, 976, 1016, 1032, 1039, 
+	1041, 1043, 1057, 1059, 1075, 1264, 1290, 211, 
+	212, 214, 215, 216, 217, 218, 219, 220, 
+	221, 222, 223, 224, 225, 227, 229, 230, 
+	258, 298, 314, 321, 323, 325, 339, 341, 
+	357, 1264, 1293, 1293, 390, 391, 393, 394, 
+	395, 396, 397, 398, 399, 400, 401, 402, 
+	403, 404, 406, 408, 409, 437, 477, 493, 
+	500, 502, 504, 518, 520, 536, 1264, 571, 
+	1306, 750, 751, 753, 754, 755, 756, 757, 
+	758, 759, 760, 761, 762, 763, 764, 766, 
+	768, 769, 797, 837, 853, 860, 862, 864, 
+	878, 880, 896, 1265, 1308, 1310, 1311, 1264, 
+	1314, 1294, 1316, 1320, 1317, 1318, 1108, 1319, 
+	1322, 1323, 1324, 1110, 1111, 1112, 1113, 1114, 
+	1115, 1116, 1117, 1118, 1119, 1120, 1121, 1122, 
+	1123, 1124, 1125, 1126, 1127, 1128, 1129, 1130, 
+	1131, 1132, 1133, 1134, 1135, 1136, 1137, 1138, 
+	1139, 1140, 1142, 1143, 1144, 1145, 1146, 1147, 
+	1148, 1149, 1150, 1152, 1153, 1154, 1155, 1156, 
+	1157, 1158, 1159, 1160, 1161, 1162, 1163, 1164, 
+	1165, 1166, 1167, 1168, 1169, 1170, 1171, 1172, 
+	1173, 1174, 1175, 1176, 1177, 1178, 1179, 1180, 
+	1181, 1182, 1183, 1184, 1185, 1186, 1187, 1188, 
+	1189, 1190, 1191, 1192, 1193, 1194, 1195, 1196, 
+	1197, 1198, 1199, 1200, 1201, 1202, 1203, 1204, 
+	1205, 1206, 1207, 1208, 1209, 1210, 1211, 1212, 
+	1213, 1214, 1215, 1216, 1217, 1218, 1219, 1220, 
+	1221, 1222, 1223, 1224, 1225, 1226, 1227, 1228, 
+	1229, 1230, 1244, 1247, 1259, 1260, 1262
 };
 
 static const char _StdTok_trans_actions[] = {
@@ -3326,10 +3323,8 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 77, 45, 0, 
-	77, 77, 77, 77, 77, 77, 77, 77, 
-	68, 68, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 77, 45, 0, 77, 77, 
+	77, 77, 77, 77, 77, 77, 68, 68, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3347,8 +3342,9 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 43, 86, 0, 77, 71, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 43, 86, 0, 
+	77, 71, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3367,8 +3363,7 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 65, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 65, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3392,8 +3387,7 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 80, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 80, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3412,7 +3406,7 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	41, 56, 0, 0, 0, 0, 0, 0, 
+	0, 0, 41, 56, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3431,8 +3425,7 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	56, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 56, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3456,33 +3449,31 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 15, 17, 89, 89, 89, 68, 
-	56, 56, 56, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 15, 17, 89, 89, 89, 68, 56, 
+	56, 56, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 7, 7, 7, 
 	7, 7, 7, 7, 7, 7, 7, 7, 
-	7, 7, 7, 19, 0, 37, 83, 33, 
-	0, 35, 25, 0, 0, 0, 68, 0, 
-	29, 74, 0, 13, 0, 0, 74, 21, 
-	71, 59, 0, 56, 71, 56, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
+	19, 0, 37, 83, 33, 0, 35, 25, 
+	0, 0, 0, 68, 0, 29, 74, 0, 
+	13, 0, 0, 74, 21, 71, 59, 0, 
+	56, 71, 56, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 27, 71, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 27, 71, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 23, 65, 
-	62, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 31, 0, 59, 0, 
+	0, 23, 65, 62, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 31, 0, 
+	59, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 62, 53, 71, 0, 11, 59, 
-	62, 56, 56, 56, 56, 0, 74, 56, 
-	56, 56, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 62, 53, 71, 0, 11, 
+	59, 62, 56, 56, 56, 56, 0, 74, 
+	56, 56, 56, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
@@ -3497,7 +3488,7 @@ static const char _StdTok_trans_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0
+	0, 0, 0, 0, 0, 0, 0
 };
 
 static const char _StdTok_to_state_actions[] = {
@@ -3658,24 +3649,19 @@ static const char _StdTok_to_state_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	0, 0, 0, 0, 0, 0, 0, 3, 
+	3, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	3, 3, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0
+	0, 0, 0, 0
 };
 
 static const char _StdTok_from_state_actions[] = {
@@ -3837,29 +3823,24 @@ static const char _StdTok_from_state_actions[] = {
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
+	5, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 5, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
 	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0, 0, 
-	0, 0, 0, 0, 0, 0, 0
+	0, 0, 0, 0
 };
 
 static const short _StdTok_eof_trans[] = {
 	0, 0, 2, 2, 2, 8, 2, 2, 
 	11, 11, 11, 15, 2, 2, 2, 2, 
-	2, 63, 2, 2, 2, 2, 2, 63, 
+	2, 61, 2, 2, 2, 2, 2, 61, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
@@ -3883,7 +3864,7 @@ static const short _StdTok_eof_trans[] = {
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
-	2, 2, 2, 2, 2, 2, 228, 2, 
+	222, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
@@ -3950,58 +3931,52 @@ static const short _StdTok_eof_trans[] = {
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
 	2, 2, 2, 2, 2, 2, 2, 2, 
-	2, 2, 2, 2, 2, 2, 2, 2, 
-	2, 2, 2, 2, 2, 2, 2, 2, 
-	2, 2, 2, 2, 2, 2, 2, 2, 
-	2, 2, 2, 2, 2, 2, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 745, 745, 745, 745, 745, 745, 
-	745, 745, 11, 11, 11, 11, 11, 11, 
-	11, 11, 11, 11, 11, 11, 11, 11, 
+	2, 2, 2, 2, 2, 2, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 723, 723, 
+	723, 723, 723, 723, 723, 723, 11, 11, 
 	11, 11, 11, 11, 11, 11, 11, 11, 
 	11, 11, 11, 11, 11, 11, 11, 11, 
 	11, 11, 11, 11, 11, 11, 11, 11, 
@@ -4020,24 +3995,25 @@ static const short _StdTok_eof_trans[] = {
 	11, 11, 11, 11, 11, 11, 11, 11, 
 	11, 11, 11, 11, 11, 11, 11, 11, 
 	11, 11, 11, 11, 11, 11, 11, 11, 
-	0, 0, 2, 1140, 1142, 1142, 1144, 1146, 
-	1147, 1153, 1153, 1153, 1153, 1153, 1153, 1153, 
-	1153, 1153, 1153, 1147, 1147, 1147, 1146, 2, 
-	1147, 1160, 1194, 1194, 1194, 1223, 2, 2, 
-	1253, 1253, 1253, 1253, 1253, 1253, 1253, 1253, 
-	1253, 1253, 1160, 1223, 1194, 1140, 1160, 1194, 
-	1223, 1160, 1160, 1223, 1160, 1160, 1160, 1160, 
-	2, 1160, 1160, 1160, 1160, 1160, 1142, 1160, 
-	1142, 1142, 1142, 1142, 1142, 1142, 1142, 1142, 
-	1142, 1142, 1142, 1142, 1142, 1142, 1142, 1142, 
-	1142, 1142, 1142, 1142, 1142, 1142, 1142, 1142, 
-	1142, 1142, 1142, 1142, 1142, 1142, 1142
+	11, 11, 11, 11, 11, 11, 11, 0, 
+	0, 2, 1105, 1107, 1107, 1109, 1111, 1112, 
+	1118, 1118, 1118, 1118, 1118, 1118, 1118, 1118, 
+	1118, 1118, 1112, 1112, 1112, 1111, 2, 1112, 
+	1125, 1158, 1158, 1158, 1186, 2, 2, 1215, 
+	1215, 1215, 1215, 1215, 1215, 1215, 1215, 1215, 
+	1215, 1125, 1186, 1158, 1105, 1125, 1158, 1186, 
+	1125, 1125, 1186, 1125, 1125, 1125, 1125, 2, 
+	1125, 1125, 1125, 1125, 1125, 1107, 1125, 1107, 
+	1107, 1107, 1107, 1107, 1107, 1107, 1107, 1107, 
+	1107, 1107, 1107, 1107, 1107, 1107, 1107, 1107, 
+	1107, 1107, 1107, 1107, 1107, 1107, 1107, 1107, 
+	1107, 1107, 1107, 1107
 };
 
 static const int StdTok_start = 1;
 static const int StdTok_error = 0;
 
-static const int StdTok_en_frt_tokenizer = 1305;
+static const int StdTok_en_frt_tokenizer = 1264;
 static const int StdTok_en_main = 1;
 
 
@@ -4051,10 +4027,10 @@ void frt_std_scan_utf8(const char *in,
 {
     int cs, act, top;
     int stack[32];
-    char *ts = 0, *te = 0;
+    unsigned char *ts = 0, *te = 0;
 
     
-#line 4049 "src/scanner_utf8.c"
+#line 4025 "src/scanner_utf8.c"
 	{
 	cs = StdTok_start;
 	top = 0;
@@ -4065,7 +4041,7 @@ void frt_std_scan_utf8(const char *in,
 
 #line 44 "src/scanner_utf8.rl"
 
-    char *p = (char *)in, *pe = 0, *eof = pe;
+    unsigned char *p = (unsigned char *)in, *pe = 0, *eof = pe;
     int skip = 0;
     int trunc = 0;
     char strip_char = 0;
@@ -4075,7 +4051,7 @@ void frt_std_scan_utf8(const char *in,
     *token_size = 0;
 
     
-#line 4066 "src/scanner_utf8.c"
+#line 4042 "src/scanner_utf8.c"
 	{
 	int _klen;
 	unsigned int _trans;
@@ -4096,7 +4072,7 @@ _resume:
 #line 1 "NONE"
 	{ts = p;}
 	break;
-#line 4085 "src/scanner_utf8.c"
+#line 4061 "src/scanner_utf8.c"
 		}
 	}
 
@@ -4168,7 +4144,7 @@ _eof_trans:
 	break;
 	case 1:
 #line 28 "src/scanner_utf8.rl"
-	{ p--; {stack[top++] = cs; cs = 1305;goto _again;} }
+	{ p--; {stack[top++] = cs; cs = 1264;goto _again;} }
 	break;
 	case 4:
 #line 1 "NONE"
@@ -4355,7 +4331,7 @@ _eof_trans:
 	}
 	}
 	break;
-#line 4305 "src/scanner_utf8.c"
+#line 4281 "src/scanner_utf8.c"
 		}
 	}
 
@@ -4368,7 +4344,7 @@ _again:
 #line 1 "NONE"
 	{ts = 0;}
 	break;
-#line 4316 "src/scanner_utf8.c"
+#line 4292 "src/scanner_utf8.c"
 		}
 	}
 
@@ -4401,11 +4377,11 @@ _again:
         if (__len > out_size)
             __len = out_size;
 
-        *start = ts;
-        *end   = te;
+        *start = (char *)ts;
+        *end   = (char *)te;
 
         if (strip_char) {
-            char *__p = ts + skip;
+            unsigned char *__p = ts + skip;
             char *__o = out;
             for (; __p < (ts + skip + __len); ++__p) {
                 if (*__p != strip_char)
diff --git a/c/src/scanner_utf8.rl b/c/src/scanner_utf8.rl
index dcfbd4b..c59c0d2 100644
--- a/c/src/scanner_utf8.rl
+++ b/c/src/scanner_utf8.rl
@@ -38,11 +38,11 @@ void frt_std_scan_utf8(const char *in,
 {
     int cs, act, top;
     int stack[32];
-    char *ts = 0, *te = 0;
+    unsigned char *ts = 0, *te = 0;
 
     %% write init;
 
-    char *p = (char *)in, *pe = 0, *eof = pe;
+    unsigned char *p = (unsigned char *)in, *pe = 0, *eof = pe;
     int skip = 0;
     int trunc = 0;
     char strip_char = 0;
@@ -64,11 +64,11 @@ void frt_std_scan_utf8(const char *in,
         if (__len > out_size)
             __len = out_size;
 
-        *start = ts;
-        *end   = te;
+        *start = (char *)ts;
+        *end   = (char *)te;
 
         if (strip_char) {
-            char *__p = ts + skip;
+            unsigned char *__p = ts + skip;
             char *__o = out;
             for (; __p < (ts + skip + __len); ++__p) {
                 if (*__p != strip_char)
diff --git a/c/src/uchar-utf8.rl b/c/src/uchar-utf8.rl
index f1321d8..ca6751a 100644
--- a/c/src/uchar-utf8.rl
+++ b/c/src/uchar-utf8.rl
@@ -16,19 +16,19 @@
       | 0xC2 0xBA               #L&       MASCULINE ORDINAL INDICATOR
       | 0xC3 0x80..0x96         #L&  [23] LATIN CAPITAL LETTER A WITH GRAVE....
       | 0xC3 0x98..0xB6         #L&  [31] LATIN CAPITAL LETTER O WITH STROKE...
-      | 0xC3 0xB8..0xFF         #L& [195] LATIN SMALL LETTER O WITH STROKE.....
-      | 0xC4..0xC5 0x00..0xFF   #
-      | 0xC6 0x00..0xBA         #
+      | 0xC3 0xB8..0xBF         #L& [195] LATIN SMALL LETTER O WITH STROKE.....
+      | 0xC4..0xC5 0x80..0xBF   #
+      | 0xC6 0x80..0xBA         #
       | 0xC6 0xBB               #Lo       LATIN LETTER TWO WITH STROKE
       | 0xC6 0xBC..0xBF         #L&   [4] LATIN CAPITAL LETTER TONE FIVE..LA...
       | 0xC7 0x80..0x83         #Lo   [4] LATIN LETTER DENTAL CLICK..LATIN L...
-      | 0xC7 0x84..0xFF         #L& [208] LATIN CAPITAL LETTER DZ WITH CARON...
-      | 0xC8..0xC9 0x00..0xFF   #
-      | 0xCA 0x00..0x93         #
+      | 0xC7 0x84..0xBF         #L& [208] LATIN CAPITAL LETTER DZ WITH CARON...
+      | 0xC8..0xC9 0x80..0xBF   #
+      | 0xCA 0x80..0x93         #
       | 0xCA 0x94               #Lo       LATIN LETTER GLOTTAL STOP
       | 0xCA 0x95..0xAF         #L&  [27] LATIN LETTER PHARYNGEAL VOICED FRI...
-      | 0xCA 0xB0..0xFF         #Lm  [18] MODIFIER LETTER SMALL H..MODIFIER ...
-      | 0xCB 0x00..0x81         #
+      | 0xCA 0xB0..0xBF         #Lm  [18] MODIFIER LETTER SMALL H..MODIFIER ...
+      | 0xCB 0x80..0x81         #
       | 0xCB 0x86..0x91         #Lm  [12] MODIFIER LETTER CIRCUMFLEX ACCENT....
       | 0xCB 0xA0..0xA4         #Lm   [5] MODIFIER LETTER SMALL GAMMA..MODIF...
       | 0xCB 0xAC               #Lm       MODIFIER LETTER VOICING
@@ -43,19 +43,19 @@
       | 0xCE 0x88..0x8A         #L&   [3] GREEK CAPITAL LETTER EPSILON WITH ...
       | 0xCE 0x8C               #L&       GREEK CAPITAL LETTER OMICRON WITH ...
       | 0xCE 0x8E..0xA1         #L&  [20] GREEK CAPITAL LETTER UPSILON WITH ...
-      | 0xCE 0xA3..0xFF         #L&  [83] GREEK CAPITAL LETTER SIGMA..GREEK ...
-      | 0xCF 0x00..0xB5         #
-      | 0xCF 0xB7..0xFF         #L& [139] GREEK CAPITAL LETTER SHO..CYRILLIC...
-      | 0xD0..0xD1 0x00..0xFF   #
-      | 0xD2 0x00..0x81         #
-      | 0xD2 0x8A..0xFF         #L& [154] CYRILLIC CAPITAL LETTER SHORT I WI...
-      | 0xD3..0xD3 0x00..0xFF   #
-      | 0xD4 0x00..0xA3         #
-      | 0xD4 0xB1..0xFF         #L&  [38] ARMENIAN CAPITAL LETTER AYB..ARMEN...
-      | 0xD5 0x00..0x96         #
+      | 0xCE 0xA3..0xBF         #L&  [83] GREEK CAPITAL LETTER SIGMA..GREEK ...
+      | 0xCF 0x80..0xB5         #
+      | 0xCF 0xB7..0xBF         #L& [139] GREEK CAPITAL LETTER SHO..CYRILLIC...
+      | 0xD0..0xD1 0x80..0xBF   #
+      | 0xD2 0x80..0x81         #
+      | 0xD2 0x8A..0xBF         #L& [154] CYRILLIC CAPITAL LETTER SHORT I WI...
+      | 0xD3..0xD3 0x80..0xBF   #
+      | 0xD4 0x80..0xA3         #
+      | 0xD4 0xB1..0xBF         #L&  [38] ARMENIAN CAPITAL LETTER AYB..ARMEN...
+      | 0xD5 0x80..0x96         #
       | 0xD5 0x99               #Lm       ARMENIAN MODIFIER LETTER LEFT HALF...
-      | 0xD5 0xA1..0xFF         #L&  [39] ARMENIAN SMALL LETTER AYB..ARMENIA...
-      | 0xD6 0x00..0x87         #
+      | 0xD5 0xA1..0xBF         #L&  [39] ARMENIAN SMALL LETTER AYB..ARMENIA...
+      | 0xD6 0x80..0x87         #
       | 0xD6 0xB0..0xBD         #Mn  [14] HEBREW POINT SHEVA..HEBREW POINT M...
       | 0xD6 0xBF               #Mn       HEBREW POINT RAFE
       | 0xD7 0x81..0x82         #Mn   [2] HEBREW POINT SHIN DOT..HEBREW POIN...
@@ -71,9 +71,9 @@
       | 0xD9 0x99..0x9E         #Mn   [6] ARABIC ZWARAKAY..ARABIC FATHA WITH...
       | 0xD9 0xAE..0xAF         #Lo   [2] ARABIC LETTER DOTLESS BEH..ARABIC ...
       | 0xD9 0xB0               #Mn       ARABIC LETTER SUPERSCRIPT ALEF
-      | 0xD9 0xB1..0xFF         #Lo  [99] ARABIC LETTER ALEF WASLA..ARABIC L...
-      | 0xDA..0xDA 0x00..0xFF   #
-      | 0xDB 0x00..0x93         #
+      | 0xD9 0xB1..0xBF         #Lo  [99] ARABIC LETTER ALEF WASLA..ARABIC L...
+      | 0xDA..0xDA 0x80..0xBF   #
+      | 0xDB 0x80..0x93         #
       | 0xDB 0x95               #Lo       ARABIC LETTER AE
       | 0xDB 0x96..0x9C         #Mn   [7] ARABIC SMALL HIGH LIGATURE SAD WIT...
       | 0xDB 0xA1..0xA4         #Mn   [4] ARABIC SMALL HIGH DOTLESS HEAD OF ...
@@ -87,8 +87,8 @@
       | 0xDC 0x91               #Mn       SYRIAC LETTER SUPERSCRIPT ALAPH
       | 0xDC 0x92..0xAF         #Lo  [30] SYRIAC LETTER BETH..SYRIAC LETTER ...
       | 0xDC 0xB0..0xBF         #Mn  [16] SYRIAC PTHAHA ABOVE..SYRIAC RWAHA
-      | 0xDD 0x8D..0xFF         #Lo  [89] SYRIAC LETTER SOGDIAN ZHAIN..THAAN...
-      | 0xDE 0x00..0xA5         #
+      | 0xDD 0x8D..0xBF         #Lo  [89] SYRIAC LETTER SOGDIAN ZHAIN..THAAN...
+      | 0xDE 0x80..0xA5         #
       | 0xDE 0xA6..0xB0         #Mn  [11] THAANA ABAFILI..THAANA SUKUN
       | 0xDE 0xB1               #Lo       THAANA LETTER NAA
       | 0xDF 0x8A..0xAA         #Lo  [33] NKO LETTER A..NKO LETTER JONA RA
@@ -98,8 +98,8 @@
       | 0xE0 0xA4 0x83          #Mc       DEVANAGARI SIGN VISARGA
       | 0xE0 0xA4 0x84..0xB9    #Lo  [54] DEVANAGARI LETTER SHORT A..DEVANAG...
       | 0xE0 0xA4 0xBD          #Lo       DEVANAGARI SIGN AVAGRAHA
-      | 0xE0 0xA4 0xBE..0xFF    #Mc   [3] DEVANAGARI VOWEL SIGN AA..DEVANAGA...
-      | 0xE0 0xA5 0x00..0x80    #
+      | 0xE0 0xA4 0xBE..0xBF    #Mc   [3] DEVANAGARI VOWEL SIGN AA..DEVANAGA...
+      | 0xE0 0xA5 0x80..0x80    #
       | 0xE0 0xA5 0x81..0x88    #Mn   [8] DEVANAGARI VOWEL SIGN U..DEVANAGAR...
       | 0xE0 0xA5 0x89..0x8C    #Mc   [4] DEVANAGARI VOWEL SIGN CANDRA O..DE...
       | 0xE0 0xA5 0x90          #Lo       DEVANAGARI OM
@@ -117,8 +117,8 @@
       | 0xE0 0xA6 0xB2          #Lo       BENGALI LETTER LA
       | 0xE0 0xA6 0xB6..0xB9    #Lo   [4] BENGALI LETTER SHA..BENGALI LETTER HA
       | 0xE0 0xA6 0xBD          #Lo       BENGALI SIGN AVAGRAHA
-      | 0xE0 0xA6 0xBE..0xFF    #Mc   [3] BENGALI VOWEL SIGN AA..BENGALI VOW...
-      | 0xE0 0xA7 0x00..0x80    #
+      | 0xE0 0xA6 0xBE..0xBF    #Mc   [3] BENGALI VOWEL SIGN AA..BENGALI VOW...
+      | 0xE0 0xA7 0x80..0x80    #
       | 0xE0 0xA7 0x81..0x84    #Mn   [4] BENGALI VOWEL SIGN U..BENGALI VOWE...
       | 0xE0 0xA7 0x87..0x88    #Mc   [2] BENGALI VOWEL SIGN E..BENGALI VOWE...
       | 0xE0 0xA7 0x8B..0x8C    #Mc   [2] BENGALI VOWEL SIGN O..BENGALI VOWE...
@@ -137,8 +137,8 @@
       | 0xE0 0xA8 0xB2..0xB3    #Lo   [2] GURMUKHI LETTER LA..GURMUKHI LETTE...
       | 0xE0 0xA8 0xB5..0xB6    #Lo   [2] GURMUKHI LETTER VA..GURMUKHI LETTE...
       | 0xE0 0xA8 0xB8..0xB9    #Lo   [2] GURMUKHI LETTER SA..GURMUKHI LETTE...
-      | 0xE0 0xA8 0xBE..0xFF    #Mc   [3] GURMUKHI VOWEL SIGN AA..GURMUKHI V...
-      | 0xE0 0xA9 0x00..0x80    #
+      | 0xE0 0xA8 0xBE..0xBF    #Mc   [3] GURMUKHI VOWEL SIGN AA..GURMUKHI V...
+      | 0xE0 0xA9 0x80..0x80    #
       | 0xE0 0xA9 0x81..0x82    #Mn   [2] GURMUKHI VOWEL SIGN U..GURMUKHI VO...
       | 0xE0 0xA9 0x87..0x88    #Mn   [2] GURMUKHI VOWEL SIGN EE..GURMUKHI V...
       | 0xE0 0xA9 0x8B..0x8C    #Mn   [2] GURMUKHI VOWEL SIGN OO..GURMUKHI V...
@@ -157,8 +157,8 @@
       | 0xE0 0xAA 0xB2..0xB3    #Lo   [2] GUJARATI LETTER LA..GUJARATI LETTE...
       | 0xE0 0xAA 0xB5..0xB9    #Lo   [5] GUJARATI LETTER VA..GUJARATI LETTE...
       | 0xE0 0xAA 0xBD          #Lo       GUJARATI SIGN AVAGRAHA
-      | 0xE0 0xAA 0xBE..0xFF    #Mc   [3] GUJARATI VOWEL SIGN AA..GUJARATI V...
-      | 0xE0 0xAB 0x00..0x80    #
+      | 0xE0 0xAA 0xBE..0xBF    #Mc   [3] GUJARATI VOWEL SIGN AA..GUJARATI V...
+      | 0xE0 0xAB 0x80..0x80    #
       | 0xE0 0xAB 0x81..0x85    #Mn   [5] GUJARATI VOWEL SIGN U..GUJARATI VO...
       | 0xE0 0xAB 0x87..0x88    #Mn   [2] GUJARATI VOWEL SIGN E..GUJARATI VO...
       | 0xE0 0xAB 0x89          #Mc       GUJARATI VOWEL SIGN CANDRA O
@@ -212,8 +212,8 @@
       | 0xE0 0xB0 0xAA..0xB3    #Lo  [10] TELUGU LETTER PA..TELUGU LETTER LLA
       | 0xE0 0xB0 0xB5..0xB9    #Lo   [5] TELUGU LETTER VA..TELUGU LETTER HA
       | 0xE0 0xB0 0xBD          #Lo       TELUGU SIGN AVAGRAHA
-      | 0xE0 0xB0 0xBE..0xFF    #Mn   [3] TELUGU VOWEL SIGN AA..TELUGU VOWEL...
-      | 0xE0 0xB1 0x00..0x80    #
+      | 0xE0 0xB0 0xBE..0xBF    #Mn   [3] TELUGU VOWEL SIGN AA..TELUGU VOWEL...
+      | 0xE0 0xB1 0x80..0x80    #
       | 0xE0 0xB1 0x81..0x84    #Mc   [4] TELUGU VOWEL SIGN U..TELUGU VOWEL ...
       | 0xE0 0xB1 0x86..0x88    #Mn   [3] TELUGU VOWEL SIGN E..TELUGU VOWEL ...
       | 0xE0 0xB1 0x8A..0x8C    #Mn   [3] TELUGU VOWEL SIGN O..TELUGU VOWEL ...
@@ -245,8 +245,8 @@
       | 0xE0 0xB4 0x92..0xA8    #Lo  [23] MALAYALAM LETTER O..MALAYALAM LETT...
       | 0xE0 0xB4 0xAA..0xB9    #Lo  [16] MALAYALAM LETTER PA..MALAYALAM LET...
       | 0xE0 0xB4 0xBD          #Lo       MALAYALAM SIGN AVAGRAHA
-      | 0xE0 0xB4 0xBE..0xFF    #Mc   [3] MALAYALAM VOWEL SIGN AA..MALAYALAM...
-      | 0xE0 0xB5 0x00..0x80    #
+      | 0xE0 0xB4 0xBE..0xBF    #Mc   [3] MALAYALAM VOWEL SIGN AA..MALAYALAM...
+      | 0xE0 0xB5 0x80..0x80    #
       | 0xE0 0xB5 0x81..0x84    #Mn   [4] MALAYALAM VOWEL SIGN U..MALAYALAM ...
       | 0xE0 0xB5 0x86..0x88    #Mc   [3] MALAYALAM VOWEL SIGN E..MALAYALAM ...
       | 0xE0 0xB5 0x8A..0x8C    #Mc   [3] MALAYALAM VOWEL SIGN O..MALAYALAM ...
@@ -322,30 +322,30 @@
       | 0xE1 0x81 0xA7..0xA8    #Mc   [2] MYANMAR VOWEL SIGN WESTERN PWO KAR...
       | 0xE1 0x81 0xAE..0xB0    #Lo   [3] MYANMAR LETTER EASTERN PWO KAREN N...
       | 0xE1 0x81 0xB1..0xB4    #Mn   [4] MYANMAR VOWEL SIGN GEBA KAREN I..M...
-      | 0xE1 0x81 0xB5..0xFF    #Lo  [13] MYANMAR LETTER SHAN KA..MYANMAR LE...
-      | 0xE1 0x82 0x00..0x81    #
+      | 0xE1 0x81 0xB5..0xBF    #Lo  [13] MYANMAR LETTER SHAN KA..MYANMAR LE...
+      | 0xE1 0x82 0x80..0x81    #
       | 0xE1 0x82 0x82          #Mn       MYANMAR CONSONANT SIGN SHAN MEDIAL WA
       | 0xE1 0x82 0x83..0x84    #Mc   [2] MYANMAR VOWEL SIGN SHAN AA..MYANMA...
       | 0xE1 0x82 0x85..0x86    #Mn   [2] MYANMAR VOWEL SIGN SHAN E ABOVE..M...
       | 0xE1 0x82 0x8E          #Lo       MYANMAR LETTER RUMAI PALAUNG FA
-      | 0xE1 0x82 0xA0..0xFF    #L&  [38] GEORGIAN CAPITAL LETTER AN..GEORGI...
-      | 0xE1 0x83 0x00..0x85    #
+      | 0xE1 0x82 0xA0..0xBF    #L&  [38] GEORGIAN CAPITAL LETTER AN..GEORGI...
+      | 0xE1 0x83 0x80..0x85    #
       | 0xE1 0x83 0x90..0xBA    #Lo  [43] GEORGIAN LETTER AN..GEORGIAN LETTE...
       | 0xE1 0x83 0xBC          #Lm       MODIFIER LETTER GEORGIAN NAR
-      | 0xE1 0x84 0x80..0xFF    #Lo  [90] HANGUL CHOSEONG KIYEOK..HANGUL CHO...
-      | 0xE1 0x85 0x00..0x99    #
-      | 0xE1 0x85 0x9F..0xFF    #Lo  [68] HANGUL CHOSEONG FILLER..HANGUL JUN...
-      | 0xE1 0x86 0x00..0xA2    #
-      | 0xE1 0x86 0xA8..0xFF    #Lo  [82] HANGUL JONGSEONG KIYEOK..HANGUL JO...
-      | 0xE1 0x87 0x00..0xB9    #
-      | 0xE1 0x88 0x80..0xFF    #Lo  [73] ETHIOPIC SYLLABLE HA..ETHIOPIC SYL...
-      | 0xE1 0x89 0x00..0x88    #
+      | 0xE1 0x84 0x80..0xBF    #Lo  [90] HANGUL CHOSEONG KIYEOK..HANGUL CHO...
+      | 0xE1 0x85 0x80..0x99    #
+      | 0xE1 0x85 0x9F..0xBF    #Lo  [68] HANGUL CHOSEONG FILLER..HANGUL JUN...
+      | 0xE1 0x86 0x80..0xA2    #
+      | 0xE1 0x86 0xA8..0xBF    #Lo  [82] HANGUL JONGSEONG KIYEOK..HANGUL JO...
+      | 0xE1 0x87 0x80..0xB9    #
+      | 0xE1 0x88 0x80..0xBF    #Lo  [73] ETHIOPIC SYLLABLE HA..ETHIOPIC SYL...
+      | 0xE1 0x89 0x80..0x88    #
       | 0xE1 0x89 0x8A..0x8D    #Lo   [4] ETHIOPIC SYLLABLE QWI..ETHIOPIC SY...
       | 0xE1 0x89 0x90..0x96    #Lo   [7] ETHIOPIC SYLLABLE QHA..ETHIOPIC SY...
       | 0xE1 0x89 0x98          #Lo       ETHIOPIC SYLLABLE QHWA
       | 0xE1 0x89 0x9A..0x9D    #Lo   [4] ETHIOPIC SYLLABLE QHWI..ETHIOPIC S...
-      | 0xE1 0x89 0xA0..0xFF    #Lo  [41] ETHIOPIC SYLLABLE BA..ETHIOPIC SYL...
-      | 0xE1 0x8A 0x00..0x88    #
+      | 0xE1 0x89 0xA0..0xBF    #Lo  [41] ETHIOPIC SYLLABLE BA..ETHIOPIC SYL...
+      | 0xE1 0x8A 0x80..0x88    #
       | 0xE1 0x8A 0x8A..0x8D    #Lo   [4] ETHIOPIC SYLLABLE XWI..ETHIOPIC SY...
       | 0xE1 0x8A 0x90..0xB0    #Lo  [33] ETHIOPIC SYLLABLE NA..ETHIOPIC SYL...
       | 0xE1 0x8A 0xB2..0xB5    #Lo   [4] ETHIOPIC SYLLABLE KWI..ETHIOPIC SY...
@@ -353,22 +353,22 @@
       | 0xE1 0x8B 0x80          #Lo       ETHIOPIC SYLLABLE KXWA
       | 0xE1 0x8B 0x82..0x85    #Lo   [4] ETHIOPIC SYLLABLE KXWI..ETHIOPIC S...
       | 0xE1 0x8B 0x88..0x96    #Lo  [15] ETHIOPIC SYLLABLE WA..ETHIOPIC SYL...
-      | 0xE1 0x8B 0x98..0xFF    #Lo  [57] ETHIOPIC SYLLABLE ZA..ETHIOPIC SYL...
-      | 0xE1 0x8C 0x00..0x90    #
+      | 0xE1 0x8B 0x98..0xBF    #Lo  [57] ETHIOPIC SYLLABLE ZA..ETHIOPIC SYL...
+      | 0xE1 0x8C 0x80..0x90    #
       | 0xE1 0x8C 0x92..0x95    #Lo   [4] ETHIOPIC SYLLABLE GWI..ETHIOPIC SY...
-      | 0xE1 0x8C 0x98..0xFF    #Lo  [67] ETHIOPIC SYLLABLE GGA..ETHIOPIC SY...
-      | 0xE1 0x8D 0x00..0x9A    #
+      | 0xE1 0x8C 0x98..0xBF    #Lo  [67] ETHIOPIC SYLLABLE GGA..ETHIOPIC SY...
+      | 0xE1 0x8D 0x80..0x9A    #
       | 0xE1 0x8D 0x9F          #Mn       ETHIOPIC COMBINING GEMINATION MARK
       | 0xE1 0x8E 0x80..0x8F    #Lo  [16] ETHIOPIC SYLLABLE SEBATBEIT MWA..E...
-      | 0xE1 0x8E 0xA0..0xFF    #Lo  [85] CHEROKEE LETTER A..CHEROKEE LETTER YV
-      | 0xE1 0x8F 0x00..0xB4    #
-      | 0xE1 0x90 0x81..0xFF        #Lo [620] CANADIAN SYLLABICS E..CANADIAN...
-      | 0xE1 0x91..0x98 0x00..0xFF  #
-      | 0xE1 0x99 0x00..0xAC        #
+      | 0xE1 0x8E 0xA0..0xBF    #Lo  [85] CHEROKEE LETTER A..CHEROKEE LETTER YV
+      | 0xE1 0x8F 0x80..0xB4    #
+      | 0xE1 0x90 0x81..0xBF        #Lo [620] CANADIAN SYLLABICS E..CANADIAN...
+      | 0xE1 0x91..0x98 0x80..0xBF  #
+      | 0xE1 0x99 0x80..0xAC        #
       | 0xE1 0x99 0xAF..0xB6    #Lo   [8] CANADIAN SYLLABICS QAI..CANADIAN S...
       | 0xE1 0x9A 0x81..0x9A    #Lo  [26] OGHAM LETTER BEITH..OGHAM LETTER P...
-      | 0xE1 0x9A 0xA0..0xFF    #Lo  [75] RUNIC LETTER FEHU FEOH FE F..RUNIC...
-      | 0xE1 0x9B 0x00..0xAA    #
+      | 0xE1 0x9A 0xA0..0xBF    #Lo  [75] RUNIC LETTER FEHU FEOH FE F..RUNIC...
+      | 0xE1 0x9B 0x80..0xAA    #
       | 0xE1 0x9B 0xAE..0xB0    #Nl   [3] RUNIC ARLAUG SYMBOL..RUNIC BELGTHO...
       | 0xE1 0x9C 0x80..0x8C    #Lo  [13] TAGALOG LETTER A..TAGALOG LETTER YA
       | 0xE1 0x9C 0x8E..0x91    #Lo   [4] TAGALOG LETTER LA..TAGALOG LETTER HA
@@ -383,14 +383,14 @@
       | 0xE1 0x9E 0x80..0xB3    #Lo  [52] KHMER LETTER KA..KHMER INDEPENDENT...
       | 0xE1 0x9E 0xB6          #Mc       KHMER VOWEL SIGN AA
       | 0xE1 0x9E 0xB7..0xBD    #Mn   [7] KHMER VOWEL SIGN I..KHMER VOWEL SI...
-      | 0xE1 0x9E 0xBE..0xFF    #Mc   [8] KHMER VOWEL SIGN OE..KHMER VOWEL S...
-      | 0xE1 0x9F 0x00..0x85    #
+      | 0xE1 0x9E 0xBE..0xBF    #Mc   [8] KHMER VOWEL SIGN OE..KHMER VOWEL S...
+      | 0xE1 0x9F 0x80..0x85    #
       | 0xE1 0x9F 0x86          #Mn       KHMER SIGN NIKAHIT
       | 0xE1 0x9F 0x87..0x88    #Mc   [2] KHMER SIGN REAHMUK..KHMER SIGN YUU...
       | 0xE1 0x9F 0x97          #Lm       KHMER SIGN LEK TOO
       | 0xE1 0x9F 0x9C          #Lo       KHMER SIGN AVAKRAHASANYA
-      | 0xE1 0xA0 0xA0..0xFF    #Lo  [35] MONGOLIAN LETTER A..MONGOLIAN LETT...
-      | 0xE1 0xA1 0x00..0x82    #
+      | 0xE1 0xA0 0xA0..0xBF    #Lo  [35] MONGOLIAN LETTER A..MONGOLIAN LETT...
+      | 0xE1 0xA1 0x80..0x82    #
       | 0xE1 0xA1 0x83          #Lm       MONGOLIAN LETTER TODO LONG VOWEL SIGN
       | 0xE1 0xA1 0x84..0xB7    #Lo  [52] MONGOLIAN LETTER TODO E..MONGOLIAN...
       | 0xE1 0xA2 0x80..0xA8    #Lo  [41] MONGOLIAN LETTER ALI GALI ANUSVARA...
@@ -407,8 +407,8 @@
       | 0xE1 0xA5 0x90..0xAD    #Lo  [30] TAI LE LETTER KA..TAI LE LETTER AI
       | 0xE1 0xA5 0xB0..0xB4    #Lo   [5] TAI LE LETTER TONE-2..TAI LE LETTE...
       | 0xE1 0xA6 0x80..0xA9    #Lo  [42] NEW TAI LUE LETTER HIGH QA..NEW TA...
-      | 0xE1 0xA6 0xB0..0xFF    #Mc  [17] NEW TAI LUE VOWEL SIGN VOWEL SHORT...
-      | 0xE1 0xA7 0x00..0x80    #
+      | 0xE1 0xA6 0xB0..0xBF    #Mc  [17] NEW TAI LUE VOWEL SIGN VOWEL SHORT...
+      | 0xE1 0xA7 0x80..0x80    #
       | 0xE1 0xA7 0x81..0x87    #Lo   [7] NEW TAI LUE LETTER FINAL V..NEW TA...
       | 0xE1 0xA7 0x88..0x89    #Mc   [2] NEW TAI LUE TONE MARK-1..NEW TAI L...
       | 0xE1 0xA8 0x80..0x96    #Lo  [23] BUGINESE LETTER KA..BUGINESE LETTE...
@@ -421,8 +421,8 @@
       | 0xE1 0xAC 0xB6..0xBA    #Mn   [5] BALINESE VOWEL SIGN ULU..BALINESE ...
       | 0xE1 0xAC 0xBB          #Mc       BALINESE VOWEL SIGN RA REPA TEDUNG
       | 0xE1 0xAC 0xBC          #Mn       BALINESE VOWEL SIGN LA LENGA
-      | 0xE1 0xAC 0xBD..0xFF    #Mc   [5] BALINESE VOWEL SIGN LA LENGA TEDUN...
-      | 0xE1 0xAD 0x00..0x81    #
+      | 0xE1 0xAC 0xBD..0xBF    #Mc   [5] BALINESE VOWEL SIGN LA LENGA TEDUN...
+      | 0xE1 0xAD 0x80..0x81    #
       | 0xE1 0xAD 0x82          #Mn       BALINESE VOWEL SIGN PEPET
       | 0xE1 0xAD 0x83          #Mc       BALINESE VOWEL SIGN PEPET TEDUNG
       | 0xE1 0xAD 0x85..0x8B    #Lo   [7] BALINESE LETTER KAF SASAK..BALINES...
@@ -442,19 +442,19 @@
       | 0xE1 0xB1 0x9A..0xB7    #Lo  [30] OL CHIKI LETTER LA..OL CHIKI LETTE...
       | 0xE1 0xB1 0xB8..0xBD    #Lm   [6] OL CHIKI MU TTUDDAG..OL CHIKI AHAD
       | 0xE1 0xB4 0x80..0xAB    #L&  [44] LATIN LETTER SMALL CAPITAL A..CYRI...
-      | 0xE1 0xB4 0xAC..0xFF    #Lm  [54] MODIFIER LETTER CAPITAL A..MODIFIE...
-      | 0xE1 0xB5 0x00..0xA1    #
+      | 0xE1 0xB4 0xAC..0xBF    #Lm  [54] MODIFIER LETTER CAPITAL A..MODIFIE...
+      | 0xE1 0xB5 0x80..0xA1    #
       | 0xE1 0xB5 0xA2..0xB7    #L&  [22] LATIN SUBSCRIPT SMALL LETTER I..LA...
       | 0xE1 0xB5 0xB8          #Lm       MODIFIER LETTER CYRILLIC EN
-      | 0xE1 0xB5 0xB9..0xFF    #L&  [34] LATIN SMALL LETTER INSULAR G..LATI...
-      | 0xE1 0xB6 0x00..0x9A    #
+      | 0xE1 0xB5 0xB9..0xBF    #L&  [34] LATIN SMALL LETTER INSULAR G..LATI...
+      | 0xE1 0xB6 0x80..0x9A    #
       | 0xE1 0xB6 0x9B..0xBF    #Lm  [37] MODIFIER LETTER SMALL TURNED ALPHA...
-      | 0xE1 0xB8 0x80..0xFF        #L& [278] LATIN CAPITAL LETTER A WITH RI...
-      | 0xE1 0xB9..0xBB 0x00..0xFF  #
-      | 0xE1 0xBC 0x00..0x95        #
+      | 0xE1 0xB8 0x80..0xBF        #L& [278] LATIN CAPITAL LETTER A WITH RI...
+      | 0xE1 0xB9..0xBB 0x80..0xBF  #
+      | 0xE1 0xBC 0x80..0x95        #
       | 0xE1 0xBC 0x98..0x9D    #L&   [6] GREEK CAPITAL LETTER EPSILON WITH ...
-      | 0xE1 0xBC 0xA0..0xFF    #L&  [38] GREEK SMALL LETTER ETA WITH PSILI....
-      | 0xE1 0xBD 0x00..0x85    #
+      | 0xE1 0xBC 0xA0..0xBF    #L&  [38] GREEK SMALL LETTER ETA WITH PSILI....
+      | 0xE1 0xBD 0x80..0x85    #
       | 0xE1 0xBD 0x88..0x8D    #L&   [6] GREEK CAPITAL LETTER OMICRON WITH ...
       | 0xE1 0xBD 0x90..0x97    #L&   [8] GREEK SMALL LETTER UPSILON WITH PS...
       | 0xE1 0xBD 0x99          #L&       GREEK CAPITAL LETTER UPSILON WITH ...
@@ -489,23 +489,23 @@
       | 0xE2 0x84 0xBC..0xBF    #L&   [4] DOUBLE-STRUCK SMALL PI..DOUBLE-STR...
       | 0xE2 0x85 0x85..0x89    #L&   [5] DOUBLE-STRUCK ITALIC CAPITAL D..DO...
       | 0xE2 0x85 0x8E          #L&       TURNED SMALL F
-      | 0xE2 0x85 0xA0..0xFF    #Nl  [35] ROMAN NUMERAL ONE..ROMAN NUMERAL T...
-      | 0xE2 0x86 0x00..0x82    #
+      | 0xE2 0x85 0xA0..0xBF    #Nl  [35] ROMAN NUMERAL ONE..ROMAN NUMERAL T...
+      | 0xE2 0x86 0x80..0x82    #
       | 0xE2 0x86 0x83..0x84    #L&   [2] ROMAN NUMERAL REVERSED ONE HUNDRED...
       | 0xE2 0x86 0x85..0x88    #Nl   [4] ROMAN NUMERAL SIX LATE FORM..ROMAN...
-      | 0xE2 0x92 0xB6..0xFF    #So  [52] CIRCLED LATIN CAPITAL LETTER A..CI...
-      | 0xE2 0x93 0x00..0xA9    #
+      | 0xE2 0x92 0xB6..0xBF    #So  [52] CIRCLED LATIN CAPITAL LETTER A..CI...
+      | 0xE2 0x93 0x80..0xA9    #
       | 0xE2 0xB0 0x80..0xAE    #L&  [47] GLAGOLITIC CAPITAL LETTER AZU..GLA...
-      | 0xE2 0xB0 0xB0..0xFF    #L&  [47] GLAGOLITIC SMALL LETTER AZU..GLAGO...
-      | 0xE2 0xB1 0x00..0x9E    #
+      | 0xE2 0xB0 0xB0..0xBF    #L&  [47] GLAGOLITIC SMALL LETTER AZU..GLAGO...
+      | 0xE2 0xB1 0x80..0x9E    #
       | 0xE2 0xB1 0xA0..0xAF    #L&  [16] LATIN CAPITAL LETTER L WITH DOUBLE...
       | 0xE2 0xB1 0xB1..0xBC    #L&  [12] LATIN SMALL LETTER V WITH RIGHT HO...
       | 0xE2 0xB1 0xBD          #Lm       MODIFIER LETTER CAPITAL V
-      | 0xE2 0xB2 0x80..0xFF    #L& [101] COPTIC CAPITAL LETTER ALFA..COPTIC...
-      | 0xE2 0xB3 0x00..0xA4    #
+      | 0xE2 0xB2 0x80..0xBF    #L& [101] COPTIC CAPITAL LETTER ALFA..COPTIC...
+      | 0xE2 0xB3 0x80..0xA4    #
       | 0xE2 0xB4 0x80..0xA5    #L&  [38] GEORGIAN SMALL LETTER AN..GEORGIAN...
-      | 0xE2 0xB4 0xB0..0xFF    #Lo  [54] TIFINAGH LETTER YA..TIFINAGH LETTE...
-      | 0xE2 0xB5 0x00..0xA5    #
+      | 0xE2 0xB4 0xB0..0xBF    #Lo  [54] TIFINAGH LETTER YA..TIFINAGH LETTE...
+      | 0xE2 0xB5 0x80..0xA5    #
       | 0xE2 0xB5 0xAF          #Lm       TIFINAGH MODIFIER LETTER LABIALIZA...
       | 0xE2 0xB6 0x80..0x96    #Lo  [23] ETHIOPIC SYLLABLE LOA..ETHIOPIC SY...
       | 0xE2 0xB6 0xA0..0xA6    #Lo   [7] ETHIOPIC SYLLABLE SSA..ETHIOPIC SY...
@@ -526,39 +526,37 @@
       | 0xE3 0x80 0xB8..0xBA    #Nl   [3] HANGZHOU NUMERAL TEN..HANGZHOU NUM...
       | 0xE3 0x80 0xBB          #Lm       VERTICAL IDEOGRAPHIC ITERATION MARK
       | 0xE3 0x80 0xBC          #Lo       MASU MARK
-      | 0xE3 0x81 0x81..0xFF    #Lo  [86] HIRAGANA LETTER SMALL A..HIRAGANA ...
-      | 0xE3 0x82 0x00..0x96    #
+      | 0xE3 0x81 0x81..0xBF    #Lo  [86] HIRAGANA LETTER SMALL A..HIRAGANA ...
+      | 0xE3 0x82 0x80..0x96    #
       | 0xE3 0x82 0x9D..0x9E    #Lm   [2] HIRAGANA ITERATION MARK..HIRAGANA ...
       | 0xE3 0x82 0x9F          #Lo       HIRAGANA DIGRAPH YORI
-      | 0xE3 0x82 0xA1..0xFF    #Lo  [90] KATAKANA LETTER SMALL A..KATAKANA ...
-      | 0xE3 0x83 0x00..0xBA    #
+      | 0xE3 0x82 0xA1..0xBF    #Lo  [90] KATAKANA LETTER SMALL A..KATAKANA ...
+      | 0xE3 0x83 0x80..0xBA    #
       | 0xE3 0x83 0xBC..0xBE    #Lm   [3] KATAKANA-HIRAGANA PROLONGED SOUND ...
       | 0xE3 0x83 0xBF          #Lo       KATAKANA DIGRAPH KOTO
       | 0xE3 0x84 0x85..0xAD    #Lo  [41] BOPOMOFO LETTER B..BOPOMOFO LETTER IH
-      | 0xE3 0x84 0xB1..0xFF        #Lo  [94] HANGUL LETTER KIYEOK..HANGUL L...
-      | 0xE3 0x85..0x85 0x00..0xFF  #
-      | 0xE3 0x86 0x00..0x8E        #
+      | 0xE3 0x84 0xB1..0xBF        #Lo  [94] HANGUL LETTER KIYEOK..HANGUL L...
+      | 0xE3 0x85..0x85 0x80..0xBF  #
+      | 0xE3 0x86 0x80..0x8E        #
       | 0xE3 0x86 0xA0..0xB7    #Lo  [24] BOPOMOFO LETTER BU..BOPOMOFO FINAL...
       | 0xE3 0x87 0xB0..0xBF    #Lo  [16] KATAKANA LETTER SMALL KU..KATAKANA...
-      | 0xE3 0x90 0x80..0xFF        #Lo [6582] CJK UNIFIED IDEOGRAPH-3400..C...
-      | 0xE3 0x91..0xFF 0x00..0xFF  #
-      | 0xE4 0x00 0x00..0xFF        #
-      | 0xE4 0x01..0xB5 0x00..0xFF  #
-      | 0xE4 0xB6 0x00..0xB5        #
-      | 0xE4 0xB8 0x80..0xFF              #Lo [20932] CJK UNIFIED IDEOGRAPH-...
-      | 0xE4 0xB9..0xFF 0x00..0xFF        #
-      | 0xE5..0xE8 0x00..0xFF 0x00..0xFF  #
-      | 0xE9 0x00 0x00..0xFF              #
-      | 0xE9 0x01..0xBE 0x00..0xFF        #
-      | 0xE9 0xBF 0x00..0x83              #
+      | 0xE3 0x90 0x80..0xBF        #Lo [6582] CJK UNIFIED IDEOGRAPH-3400..C...
+      | 0xE3 0x91..0xBF 0x80..0xBF  #
+      | 0xE4 0x80..0xB5 0x80..0xBF  #
+      | 0xE4 0xB6 0x80..0xB5        #
+      | 0xE4 0xB8 0x80..0xBF              #Lo [20932] CJK UNIFIED IDEOGRAPH-...
+      | 0xE4 0xB9..0xBF 0x80..0xBF        #
+      | 0xE5..0xE8 0x80..0xBF 0x80..0xBF  #
+      | 0xE9 0x80..0xBE 0x80..0xBF        #
+      | 0xE9 0xBF 0x80..0x83              #
       | 0xEA 0x80 0x80..0x94    #Lo  [21] YI SYLLABLE IT..YI SYLLABLE E
       | 0xEA 0x80 0x95          #Lm       YI SYLLABLE WU
-      | 0xEA 0x80 0x96..0xFF        #Lo [1143] YI SYLLABLE BIT..YI SYLLABLE YYR
-      | 0xEA 0x81..0x91 0x00..0xFF  #
-      | 0xEA 0x92 0x00..0x8C        #
-      | 0xEA 0x94 0x80..0xFF        #Lo [268] VAI SYLLABLE EE..VAI SYLLABLE NG
-      | 0xEA 0x95..0x97 0x00..0xFF  #
-      | 0xEA 0x98 0x00..0x8B        #
+      | 0xEA 0x80 0x96..0xBF        #Lo [1143] YI SYLLABLE BIT..YI SYLLABLE YYR
+      | 0xEA 0x81..0x91 0x80..0xBF  #
+      | 0xEA 0x92 0x80..0x8C        #
+      | 0xEA 0x94 0x80..0xBF        #Lo [268] VAI SYLLABLE EE..VAI SYLLABLE NG
+      | 0xEA 0x95..0x97 0x80..0xBF  #
+      | 0xEA 0x98 0x80..0x8B        #
       | 0xEA 0x98 0x8C          #Lm       VAI SYLLABLE LENGTHENER
       | 0xEA 0x98 0x90..0x9F    #Lo  [16] VAI SYLLABLE NDOLE FA..VAI SYMBOL ...
       | 0xEA 0x98 0xAA..0xAB    #Lo   [2] VAI SYLLABLE NDOLE MA..VAI SYLLABL...
@@ -568,15 +566,15 @@
       | 0xEA 0x99 0xBF          #Lm       CYRILLIC PAYEROK
       | 0xEA 0x9A 0x80..0x97    #L&  [24] CYRILLIC CAPITAL LETTER DWE..CYRIL...
       | 0xEA 0x9C 0x97..0x9F    #Lm   [9] MODIFIER LETTER DOT VERTICAL BAR.....
-      | 0xEA 0x9C 0xA2..0xFF    #L&  [78] LATIN CAPITAL LETTER EGYPTOLOGICAL...
-      | 0xEA 0x9D 0x00..0xAF    #
+      | 0xEA 0x9C 0xA2..0xBF    #L&  [78] LATIN CAPITAL LETTER EGYPTOLOGICAL...
+      | 0xEA 0x9D 0x80..0xAF    #
       | 0xEA 0x9D 0xB0          #Lm       MODIFIER LETTER US
-      | 0xEA 0x9D 0xB1..0xFF    #L&  [23] LATIN SMALL LETTER DUM..LATIN SMAL...
-      | 0xEA 0x9E 0x00..0x87    #
+      | 0xEA 0x9D 0xB1..0xBF    #L&  [23] LATIN SMALL LETTER DUM..LATIN SMAL...
+      | 0xEA 0x9E 0x80..0x87    #
       | 0xEA 0x9E 0x88          #Lm       MODIFIER LETTER LOW CIRCUMFLEX ACCENT
       | 0xEA 0x9E 0x8B..0x8C    #L&   [2] LATIN CAPITAL LETTER SALTILLO..LAT...
-      | 0xEA 0x9F 0xBB..0xFF    #Lo   [7] LATIN EPIGRAPHIC LETTER REVERSED F...
-      | 0xEA 0xA0 0x00..0x81    #
+      | 0xEA 0x9F 0xBB..0xBF    #Lo   [7] LATIN EPIGRAPHIC LETTER REVERSED F...
+      | 0xEA 0xA0 0x80..0x81    #
       | 0xEA 0xA0 0x83..0x85    #Lo   [3] SYLOTI NAGRI LETTER U..SYLOTI NAGR...
       | 0xEA 0xA0 0x87..0x8A    #Lo   [4] SYLOTI NAGRI LETTER KO..SYLOTI NAG...
       | 0xEA 0xA0 0x8C..0xA2    #Lo  [23] SYLOTI NAGRI LETTER CO..SYLOTI NAG...
@@ -586,12 +584,12 @@
       | 0xEA 0xA1 0x80..0xB3    #Lo  [52] PHAGS-PA LETTER KA..PHAGS-PA LETTE...
       | 0xEA 0xA2 0x80..0x81    #Mc   [2] SAURASHTRA SIGN ANUSVARA..SAURASHT...
       | 0xEA 0xA2 0x82..0xB3    #Lo  [50] SAURASHTRA LETTER A..SAURASHTRA LE...
-      | 0xEA 0xA2 0xB4..0xFF    #Mc  [16] SAURASHTRA CONSONANT SIGN HAARU..S...
-      | 0xEA 0xA3 0x00..0x83    #
+      | 0xEA 0xA2 0xB4..0xBF    #Mc  [16] SAURASHTRA CONSONANT SIGN HAARU..S...
+      | 0xEA 0xA3 0x80..0x83    #
       | 0xEA 0xA4 0x8A..0xA5    #Lo  [28] KAYAH LI LETTER KA..KAYAH LI LETTE...
       | 0xEA 0xA4 0xA6..0xAA    #Mn   [5] KAYAH LI VOWEL UE..KAYAH LI VOWEL O
-      | 0xEA 0xA4 0xB0..0xFF    #Lo  [23] REJANG LETTER KA..REJANG LETTER A
-      | 0xEA 0xA5 0x00..0x86    #
+      | 0xEA 0xA4 0xB0..0xBF    #Lo  [23] REJANG LETTER KA..REJANG LETTER A
+      | 0xEA 0xA5 0x80..0x86    #
       | 0xEA 0xA5 0x87..0x91    #Mn  [11] REJANG VOWEL SIGN I..REJANG CONSON...
       | 0xEA 0xA5 0x92          #Mc       REJANG CONSONANT SIGN H
       | 0xEA 0xA8 0x80..0xA8    #Lo  [41] CHAM LETTER A..CHAM LETTER HA
@@ -605,20 +603,19 @@
       | 0xEA 0xA9 0x84..0x8B    #Lo   [8] CHAM LETTER FINAL CH..CHAM LETTER ...
       | 0xEA 0xA9 0x8C          #Mn       CHAM CONSONANT SIGN FINAL M
       | 0xEA 0xA9 0x8D          #Mc       CHAM CONSONANT SIGN FINAL H
-      | 0xEA 0xB0 0x80..0xFF              #Lo [11172] HANGUL SYLLABLE GA..HA...
-      | 0xEA 0xB1..0xFF 0x00..0xFF        #
-      | 0xEB..0xEC 0x00..0xFF 0x00..0xFF  #
-      | 0xED 0x00 0x00..0xFF              #
-      | 0xED 0x01..0x9D 0x00..0xFF        #
-      | 0xED 0x9E 0x00..0xA3              #
-      | 0xEF 0xA4 0x80..0xFF        #Lo [302] CJK COMPATIBILITY IDEOGRAPH-F9...
-      | 0xEF 0xA5..0xA7 0x00..0xFF  #
-      | 0xEF 0xA8 0x00..0xAD        #
-      | 0xEF 0xA8 0xB0..0xFF    #Lo  [59] CJK COMPATIBILITY IDEOGRAPH-FA30.....
-      | 0xEF 0xA9 0x00..0xAA    #
-      | 0xEF 0xA9 0xB0..0xFF        #Lo [106] CJK COMPATIBILITY IDEOGRAPH-FA...
-      | 0xEF 0xAA..0xAA 0x00..0xFF  #
-      | 0xEF 0xAB 0x00..0x99        #
+      | 0xEA 0xB0 0x80..0xBF              #Lo [11172] HANGUL SYLLABLE GA..HA...
+      | 0xEA 0xB1..0xBF 0x80..0xBF        #
+      | 0xEB..0xEC 0x80..0xBF 0x80..0xBF  #
+      | 0xED 0x80..0x9D 0x80..0xBF        #
+      | 0xED 0x9E 0x80..0xA3              #
+      | 0xEF 0xA4 0x80..0xBF        #Lo [302] CJK COMPATIBILITY IDEOGRAPH-F9...
+      | 0xEF 0xA5..0xA7 0x80..0xBF  #
+      | 0xEF 0xA8 0x80..0xAD        #
+      | 0xEF 0xA8 0xB0..0xBF    #Lo  [59] CJK COMPATIBILITY IDEOGRAPH-FA30.....
+      | 0xEF 0xA9 0x80..0xAA    #
+      | 0xEF 0xA9 0xB0..0xBF        #Lo [106] CJK COMPATIBILITY IDEOGRAPH-FA...
+      | 0xEF 0xAA..0xAA 0x80..0xBF  #
+      | 0xEF 0xAB 0x80..0x99        #
       | 0xEF 0xAC 0x80..0x86    #L&   [7] LATIN SMALL LIGATURE FF..LATIN SMA...
       | 0xEF 0xAC 0x93..0x97    #L&   [5] ARMENIAN SMALL LIGATURE MEN NOW..A...
       | 0xEF 0xAC 0x9D          #Lo       HEBREW LETTER YOD WITH HIRIQ
@@ -629,26 +626,26 @@
       | 0xEF 0xAC 0xBE          #Lo       HEBREW LETTER MEM WITH DAGESH
       | 0xEF 0xAD 0x80..0x81    #Lo   [2] HEBREW LETTER NUN WITH DAGESH..HEB...
       | 0xEF 0xAD 0x83..0x84    #Lo   [2] HEBREW LETTER FINAL PE WITH DAGESH...
-      | 0xEF 0xAD 0x86..0xFF    #Lo [108] HEBREW LETTER TSADI WITH DAGESH..A...
-      | 0xEF 0xAE 0x00..0xB1    #
-      | 0xEF 0xAF 0x93..0xFF        #Lo [363] ARABIC LETTER NG ISOLATED FORM...
-      | 0xEF 0xB0..0xB3 0x00..0xFF  #
-      | 0xEF 0xB4 0x00..0xBD        #
-      | 0xEF 0xB5 0x90..0xFF    #Lo  [64] ARABIC LIGATURE TEH WITH JEEM WITH...
-      | 0xEF 0xB6 0x00..0x8F    #
-      | 0xEF 0xB6 0x92..0xFF    #Lo  [54] ARABIC LIGATURE MEEM WITH JEEM WIT...
-      | 0xEF 0xB7 0x00..0x87    #
+      | 0xEF 0xAD 0x86..0xBF    #Lo [108] HEBREW LETTER TSADI WITH DAGESH..A...
+      | 0xEF 0xAE 0x80..0xB1    #
+      | 0xEF 0xAF 0x93..0xBF        #Lo [363] ARABIC LETTER NG ISOLATED FORM...
+      | 0xEF 0xB0..0xB3 0x80..0xBF  #
+      | 0xEF 0xB4 0x80..0xBD        #
+      | 0xEF 0xB5 0x90..0xBF    #Lo  [64] ARABIC LIGATURE TEH WITH JEEM WITH...
+      | 0xEF 0xB6 0x80..0x8F    #
+      | 0xEF 0xB6 0x92..0xBF    #Lo  [54] ARABIC LIGATURE MEEM WITH JEEM WIT...
+      | 0xEF 0xB7 0x80..0x87    #
       | 0xEF 0xB7 0xB0..0xBB    #Lo  [12] ARABIC LIGATURE SALLA USED AS KORA...
       | 0xEF 0xB9 0xB0..0xB4    #Lo   [5] ARABIC FATHATAN ISOLATED FORM..ARA...
-      | 0xEF 0xB9 0xB6..0xFF        #Lo [135] ARABIC FATHA ISOLATED FORM..AR...
-      | 0xEF 0xBA..0xBA 0x00..0xFF  #
-      | 0xEF 0xBB 0x00..0xBC        #
+      | 0xEF 0xB9 0xB6..0xBF        #Lo [135] ARABIC FATHA ISOLATED FORM..AR...
+      | 0xEF 0xBA..0xBA 0x80..0xBF  #
+      | 0xEF 0xBB 0x80..0xBC        #
       | 0xEF 0xBC 0xA1..0xBA    #L&  [26] FULLWIDTH LATIN CAPITAL LETTER A.....
       | 0xEF 0xBD 0x81..0x9A    #L&  [26] FULLWIDTH LATIN SMALL LETTER A..FU...
       | 0xEF 0xBD 0xA6..0xAF    #Lo  [10] HALFWIDTH KATAKANA LETTER WO..HALF...
       | 0xEF 0xBD 0xB0          #Lm       HALFWIDTH KATAKANA-HIRAGANA PROLON...
-      | 0xEF 0xBD 0xB1..0xFF    #Lo  [45] HALFWIDTH KATAKANA LETTER A..HALFW...
-      | 0xEF 0xBE 0x00..0x9D    #
+      | 0xEF 0xBD 0xB1..0xBF    #Lo  [45] HALFWIDTH KATAKANA LETTER A..HALFW...
+      | 0xEF 0xBE 0x80..0x9D    #
       | 0xEF 0xBE 0x9E..0x9F    #Lm   [2] HALFWIDTH KATAKANA VOICED SOUND MA...
       | 0xEF 0xBE 0xA0..0xBE    #Lo  [31] HALFWIDTH HANGUL FILLER..HALFWIDTH...
       | 0xEF 0xBF 0x82..0x87    #Lo   [6] HALFWIDTH HANGUL LETTER A..HALFWID...
@@ -659,30 +656,30 @@
       | 0xF0 0x90 0x80 0x8D..0xA6  #Lo  [26] LINEAR B SYLLABLE B036 JO..LINE...
       | 0xF0 0x90 0x80 0xA8..0xBA  #Lo  [19] LINEAR B SYLLABLE B060 RA..LINE...
       | 0xF0 0x90 0x80 0xBC..0xBD  #Lo   [2] LINEAR B SYLLABLE B017 ZA..LINE...
-      | 0xF0 0x90 0x80 0xBF..0xFF  #Lo  [15] LINEAR B SYLLABLE B020 ZO..LINE...
-      | 0xF0 0x90 0x81 0x00..0x8D  #
+      | 0xF0 0x90 0x80 0xBF..0xBF  #Lo  [15] LINEAR B SYLLABLE B020 ZO..LINE...
+      | 0xF0 0x90 0x81 0x80..0x8D  #
       | 0xF0 0x90 0x81 0x90..0x9D  #Lo  [14] LINEAR B SYMBOL B018..LINEAR B ...
-      | 0xF0 0x90 0x82 0x80..0xFF  #Lo [123] LINEAR B IDEOGRAM B100 MAN..LIN...
-      | 0xF0 0x90 0x83 0x00..0xBA  #
+      | 0xF0 0x90 0x82 0x80..0xBF  #Lo [123] LINEAR B IDEOGRAM B100 MAN..LIN...
+      | 0xF0 0x90 0x83 0x80..0xBA  #
       | 0xF0 0x90 0x85 0x80..0xB4  #Nl  [53] GREEK ACROPHONIC ATTIC ONE QUAR...
       | 0xF0 0x90 0x8A 0x80..0x9C  #Lo  [29] LYCIAN LETTER A..LYCIAN LETTER X
-      | 0xF0 0x90 0x8A 0xA0..0xFF  #Lo  [49] CARIAN LETTER A..CARIAN LETTER ...
-      | 0xF0 0x90 0x8B 0x00..0x90  #
+      | 0xF0 0x90 0x8A 0xA0..0xBF  #Lo  [49] CARIAN LETTER A..CARIAN LETTER ...
+      | 0xF0 0x90 0x8B 0x80..0x90  #
       | 0xF0 0x90 0x8C 0x80..0x9E  #Lo  [31] OLD ITALIC LETTER A..OLD ITALIC...
-      | 0xF0 0x90 0x8C 0xB0..0xFF  #Lo  [17] GOTHIC LETTER AHSA..GOTHIC LETT...
-      | 0xF0 0x90 0x8D 0x00..0x80  #
+      | 0xF0 0x90 0x8C 0xB0..0xBF  #Lo  [17] GOTHIC LETTER AHSA..GOTHIC LETT...
+      | 0xF0 0x90 0x8D 0x80..0x80  #
       | 0xF0 0x90 0x8D 0x81     #Nl       GOTHIC LETTER NINETY
       | 0xF0 0x90 0x8D 0x82..0x89  #Lo   [8] GOTHIC LETTER RAIDA..GOTHIC LET...
       | 0xF0 0x90 0x8D 0x8A     #Nl       GOTHIC LETTER NINE HUNDRED
       | 0xF0 0x90 0x8E 0x80..0x9D  #Lo  [30] UGARITIC LETTER ALPA..UGARITIC ...
-      | 0xF0 0x90 0x8E 0xA0..0xFF  #Lo  [36] OLD PERSIAN SIGN A..OLD PERSIAN...
-      | 0xF0 0x90 0x8F 0x00..0x83  #
+      | 0xF0 0x90 0x8E 0xA0..0xBF  #Lo  [36] OLD PERSIAN SIGN A..OLD PERSIAN...
+      | 0xF0 0x90 0x8F 0x80..0x83  #
       | 0xF0 0x90 0x8F 0x88..0x8F  #Lo   [8] OLD PERSIAN SIGN AURAMAZDAA..OL...
       | 0xF0 0x90 0x8F 0x91..0x95  #Nl   [5] OLD PERSIAN NUMBER ONE..OLD PER...
-      | 0xF0 0x90 0x90 0x80..0xFF  #L&  [80] DESERET CAPITAL LETTER LONG I.....
-      | 0xF0 0x90 0x91 0x00..0x8F  #
-      | 0xF0 0x90 0x91 0x90..0xFF  #Lo  [78] SHAVIAN LETTER PEEP..OSMANYA LE...
-      | 0xF0 0x90 0x92 0x00..0x9D  #
+      | 0xF0 0x90 0x90 0x80..0xBF  #L&  [80] DESERET CAPITAL LETTER LONG I.....
+      | 0xF0 0x90 0x91 0x80..0x8F  #
+      | 0xF0 0x90 0x91 0x90..0xBF  #Lo  [78] SHAVIAN LETTER PEEP..OSMANYA LE...
+      | 0xF0 0x90 0x92 0x80..0x9D  #
       | 0xF0 0x90 0xA0 0x80..0x85  #Lo   [6] CYPRIOT SYLLABLE A..CYPRIOT SYL...
       | 0xF0 0x90 0xA0 0x88     #Lo       CYPRIOT SYLLABLE JO
       | 0xF0 0x90 0xA0 0x8A..0xB5  #Lo  [44] CYPRIOT SYLLABLE KA..CYPRIOT SY...
@@ -698,25 +695,25 @@
       | 0xF0 0x90 0xA8 0x90..0x93  #Lo   [4] KHAROSHTHI LETTER KA..KHAROSHTH...
       | 0xF0 0x90 0xA8 0x95..0x97  #Lo   [3] KHAROSHTHI LETTER CA..KHAROSHTH...
       | 0xF0 0x90 0xA8 0x99..0xB3  #Lo  [27] KHAROSHTHI LETTER NYA..KHAROSHT...
-      | 0xF0 0x92 0x80 0x80..0xFF        #Lo [879] CUNEIFORM SIGN A..CUNEIFO...
-      | 0xF0 0x92 0x81..0x8C 0x00..0xFF  #
-      | 0xF0 0x92 0x8D 0x00..0xAE        #
-      | 0xF0 0x92 0x90 0x80..0xFF  #Nl  [99] CUNEIFORM NUMERIC SIGN TWO ASH....
-      | 0xF0 0x92 0x91 0x00..0xA2  #
-      | 0xF0 0x9D 0x90 0x80..0xFF  #L&  [85] MATHEMATICAL BOLD CAPITAL A..MA...
-      | 0xF0 0x9D 0x91 0x00..0x94  #
-      | 0xF0 0x9D 0x91 0x96..0xFF  #L&  [71] MATHEMATICAL ITALIC SMALL I..MA...
-      | 0xF0 0x9D 0x92 0x00..0x9C  #
+      | 0xF0 0x92 0x80 0x80..0xBF        #Lo [879] CUNEIFORM SIGN A..CUNEIFO...
+      | 0xF0 0x92 0x81..0x8C 0x80..0xBF  #
+      | 0xF0 0x92 0x8D 0x80..0xAE        #
+      | 0xF0 0x92 0x90 0x80..0xBF  #Nl  [99] CUNEIFORM NUMERIC SIGN TWO ASH....
+      | 0xF0 0x92 0x91 0x80..0xA2  #
+      | 0xF0 0x9D 0x90 0x80..0xBF  #L&  [85] MATHEMATICAL BOLD CAPITAL A..MA...
+      | 0xF0 0x9D 0x91 0x80..0x94  #
+      | 0xF0 0x9D 0x91 0x96..0xBF  #L&  [71] MATHEMATICAL ITALIC SMALL I..MA...
+      | 0xF0 0x9D 0x92 0x80..0x9C  #
       | 0xF0 0x9D 0x92 0x9E..0x9F  #L&   [2] MATHEMATICAL SCRIPT CAPITAL C.....
       | 0xF0 0x9D 0x92 0xA2     #L&       MATHEMATICAL SCRIPT CAPITAL G
       | 0xF0 0x9D 0x92 0xA5..0xA6  #L&   [2] MATHEMATICAL SCRIPT CAPITAL J.....
       | 0xF0 0x9D 0x92 0xA9..0xAC  #L&   [4] MATHEMATICAL SCRIPT CAPITAL N.....
       | 0xF0 0x9D 0x92 0xAE..0xB9  #L&  [12] MATHEMATICAL SCRIPT CAPITAL S.....
       | 0xF0 0x9D 0x92 0xBB     #L&       MATHEMATICAL SCRIPT SMALL F
-      | 0xF0 0x9D 0x92 0xBD..0xFF  #L&   [7] MATHEMATICAL SCRIPT SMALL H..MA...
-      | 0xF0 0x9D 0x93 0x00..0x83  #
-      | 0xF0 0x9D 0x93 0x85..0xFF  #L&  [65] MATHEMATICAL SCRIPT SMALL P..MA...
-      | 0xF0 0x9D 0x94 0x00..0x85  #
+      | 0xF0 0x9D 0x92 0xBD..0xBF  #L&   [7] MATHEMATICAL SCRIPT SMALL H..MA...
+      | 0xF0 0x9D 0x93 0x80..0x83  #
+      | 0xF0 0x9D 0x93 0x85..0xBF  #L&  [65] MATHEMATICAL SCRIPT SMALL P..MA...
+      | 0xF0 0x9D 0x94 0x80..0x85  #
       | 0xF0 0x9D 0x94 0x87..0x8A  #L&   [4] MATHEMATICAL FRAKTUR CAPITAL D....
       | 0xF0 0x9D 0x94 0x8D..0x94  #L&   [8] MATHEMATICAL FRAKTUR CAPITAL J....
       | 0xF0 0x9D 0x94 0x96..0x9C  #L&   [7] MATHEMATICAL FRAKTUR CAPITAL S....
@@ -725,34 +722,33 @@
       | 0xF0 0x9D 0x95 0x80..0x84  #L&   [5] MATHEMATICAL DOUBLE-STRUCK CAPI...
       | 0xF0 0x9D 0x95 0x86     #L&       MATHEMATICAL DOUBLE-STRUCK CAPITAL O
       | 0xF0 0x9D 0x95 0x8A..0x90  #L&   [7] MATHEMATICAL DOUBLE-STRUCK CAPI...
-      | 0xF0 0x9D 0x95 0x92..0xFF        #L& [340] MATHEMATICAL DOUBLE-STRUC...
-      | 0xF0 0x9D 0x96..0x99 0x00..0xFF  #
-      | 0xF0 0x9D 0x9A 0x00..0xA5        #
-      | 0xF0 0x9D 0x9A 0xA8..0xFF  #L&  [25] MATHEMATICAL BOLD CAPITAL ALPHA...
-      | 0xF0 0x9D 0x9B 0x00..0x80  #
+      | 0xF0 0x9D 0x95 0x92..0xBF        #L& [340] MATHEMATICAL DOUBLE-STRUC...
+      | 0xF0 0x9D 0x96..0x99 0x80..0xBF  #
+      | 0xF0 0x9D 0x9A 0x80..0xA5        #
+      | 0xF0 0x9D 0x9A 0xA8..0xBF  #L&  [25] MATHEMATICAL BOLD CAPITAL ALPHA...
+      | 0xF0 0x9D 0x9B 0x80..0x80  #
       | 0xF0 0x9D 0x9B 0x82..0x9A  #L&  [25] MATHEMATICAL BOLD SMALL ALPHA.....
       | 0xF0 0x9D 0x9B 0x9C..0xBA  #L&  [31] MATHEMATICAL BOLD EPSILON SYMBO...
-      | 0xF0 0x9D 0x9B 0xBC..0xFF  #L&  [25] MATHEMATICAL ITALIC SMALL ALPHA...
-      | 0xF0 0x9D 0x9C 0x00..0x94  #
+      | 0xF0 0x9D 0x9B 0xBC..0xBF  #L&  [25] MATHEMATICAL ITALIC SMALL ALPHA...
+      | 0xF0 0x9D 0x9C 0x80..0x94  #
       | 0xF0 0x9D 0x9C 0x96..0xB4  #L&  [31] MATHEMATICAL ITALIC EPSILON SYM...
-      | 0xF0 0x9D 0x9C 0xB6..0xFF  #L&  [25] MATHEMATICAL BOLD ITALIC SMALL ...
-      | 0xF0 0x9D 0x9D 0x00..0x8E  #
+      | 0xF0 0x9D 0x9C 0xB6..0xBF  #L&  [25] MATHEMATICAL BOLD ITALIC SMALL ...
+      | 0xF0 0x9D 0x9D 0x80..0x8E  #
       | 0xF0 0x9D 0x9D 0x90..0xAE  #L&  [31] MATHEMATICAL BOLD ITALIC EPSILO...
-      | 0xF0 0x9D 0x9D 0xB0..0xFF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD SM...
-      | 0xF0 0x9D 0x9E 0x00..0x88  #
+      | 0xF0 0x9D 0x9D 0xB0..0xBF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD SM...
+      | 0xF0 0x9D 0x9E 0x80..0x88  #
       | 0xF0 0x9D 0x9E 0x8A..0xA8  #L&  [31] MATHEMATICAL SANS-SERIF BOLD EP...
-      | 0xF0 0x9D 0x9E 0xAA..0xFF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD IT...
-      | 0xF0 0x9D 0x9F 0x00..0x82  #
+      | 0xF0 0x9D 0x9E 0xAA..0xBF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD IT...
+      | 0xF0 0x9D 0x9F 0x80..0x82  #
       | 0xF0 0x9D 0x9F 0x84..0x8B  #L&   [8] MATHEMATICAL SANS-SERIF BOLD IT...
-      | 0xF0 0xA0 0x80 0x80..0xFF              #Lo [42711] CJK UNIFIED IDEOG...
-      | 0xF0 0xA0 0x81..0xFF 0x00..0xFF        #
-      | 0xF0 0xA1..0xA9 0x00..0xFF 0x00..0xFF  #
-      | 0xF0 0xAA 0x00 0x00..0xFF              #
-      | 0xF0 0xAA 0x01..0x9A 0x00..0xFF        #
-      | 0xF0 0xAA 0x9B 0x00..0x96              #
-      | 0xF0 0xAF 0xA0 0x80..0xFF        #Lo [542] CJK COMPATIBILITY IDEOGRA...
-      | 0xF0 0xAF 0xA1..0xA7 0x00..0xFF  #
-      | 0xF0 0xAF 0xA8 0x00..0x9D        #
+      | 0xF0 0xA0 0x80 0x80..0xBF              #Lo [42711] CJK UNIFIED IDEOG...
+      | 0xF0 0xA0 0x81..0xBF 0x80..0xBF        #
+      | 0xF0 0xA1..0xA9 0x80..0xBF 0x80..0xBF  #
+      | 0xF0 0xAA 0x80..0x9A 0x80..0xBF        #
+      | 0xF0 0xAA 0x9B 0x80..0x96              #
+      | 0xF0 0xAF 0xA0 0x80..0xBF        #Lo [542] CJK COMPATIBILITY IDEOGRA...
+      | 0xF0 0xAF 0xA1..0xA7 0x80..0xBF  #
+      | 0xF0 0xAF 0xA8 0x80..0x9D        #
       ;
 
     ulower = 
@@ -823,8 +819,8 @@
       | 0xC5 0xB7               #L&       LATIN SMALL LETTER Y WITH CIRCUMFLEX
       | 0xC5 0xBA               #L&       LATIN SMALL LETTER Z WITH ACUTE
       | 0xC5 0xBC               #L&       LATIN SMALL LETTER Z WITH DOT ABOVE
-      | 0xC5 0xBE..0xFF         #L&   [3] LATIN SMALL LETTER Z WITH CARON..L...
-      | 0xC6 0x00..0x80         #
+      | 0xC5 0xBE..0xBF         #L&   [3] LATIN SMALL LETTER Z WITH CARON..L...
+      | 0xC6 0x80..0x80         #
       | 0xC6 0x83               #L&       LATIN SMALL LETTER B WITH TOPBAR
       | 0xC6 0x85               #L&       LATIN SMALL LETTER TONE SIX
       | 0xC6 0x88               #L&       LATIN SMALL LETTER C WITH HOOK
@@ -897,15 +893,15 @@
       | 0xC8 0xB1               #L&       LATIN SMALL LETTER O WITH DOT ABOV...
       | 0xC8 0xB3..0xB9         #L&   [7] LATIN SMALL LETTER Y WITH MACRON.....
       | 0xC8 0xBC               #L&       LATIN SMALL LETTER C WITH STROKE
-      | 0xC8 0xBF..0xFF         #L&   [2] LATIN SMALL LETTER S WITH SWASH TA...
-      | 0xC9 0x00..0x80         #
+      | 0xC8 0xBF..0xBF         #L&   [2] LATIN SMALL LETTER S WITH SWASH TA...
+      | 0xC9 0x80..0x80         #
       | 0xC9 0x82               #L&       LATIN SMALL LETTER GLOTTAL STOP
       | 0xC9 0x87               #L&       LATIN SMALL LETTER E WITH STROKE
       | 0xC9 0x89               #L&       LATIN SMALL LETTER J WITH STROKE
       | 0xC9 0x8B               #L&       LATIN SMALL LETTER Q WITH HOOK TAIL
       | 0xC9 0x8D               #L&       LATIN SMALL LETTER R WITH STROKE
-      | 0xC9 0x8F..0xFF         #L&  [69] LATIN SMALL LETTER Y WITH STROKE.....
-      | 0xCA 0x00..0x93         #
+      | 0xC9 0x8F..0xBF         #L&  [69] LATIN SMALL LETTER Y WITH STROKE.....
+      | 0xCA 0x80..0x93         #
       | 0xCA 0x95..0xAF         #L&  [27] LATIN LETTER PHARYNGEAL VOICED FRI...
       | 0xCA 0xB0..0xB8         #Lm   [9] MODIFIER LETTER SMALL H..MODIFIER ...
       | 0xCB 0x80..0x81         #Lm   [2] MODIFIER LETTER GLOTTAL STOP..MODI...
@@ -917,8 +913,8 @@
       | 0xCD 0xBA               #Lm       GREEK YPOGEGRAMMENI
       | 0xCD 0xBB..0xBD         #L&   [3] GREEK SMALL REVERSED LUNATE SIGMA ...
       | 0xCE 0x90               #L&       GREEK SMALL LETTER IOTA WITH DIALY...
-      | 0xCE 0xAC..0xFF         #L&  [35] GREEK SMALL LETTER ALPHA WITH TONO...
-      | 0xCF 0x00..0x8E         #
+      | 0xCE 0xAC..0xBF         #L&  [35] GREEK SMALL LETTER ALPHA WITH TONO...
+      | 0xCF 0x80..0x8E         #
       | 0xCF 0x90..0x91         #L&   [2] GREEK BETA SYMBOL..GREEK THETA SYMBOL
       | 0xCF 0x95..0x97         #L&   [3] GREEK PHI SYMBOL..GREEK KAI SYMBOL
       | 0xCF 0x99               #L&       GREEK SMALL LETTER ARCHAIC KOPPA
@@ -936,8 +932,8 @@
       | 0xCF 0xB5               #L&       GREEK LUNATE EPSILON SYMBOL
       | 0xCF 0xB8               #L&       GREEK SMALL LETTER SHO
       | 0xCF 0xBB..0xBC         #L&   [2] GREEK SMALL LETTER SAN..GREEK RHO ...
-      | 0xD0 0xB0..0xFF         #L&  [48] CYRILLIC SMALL LETTER A..CYRILLIC ...
-      | 0xD1 0x00..0x9F         #
+      | 0xD0 0xB0..0xBF         #L&  [48] CYRILLIC SMALL LETTER A..CYRILLIC ...
+      | 0xD1 0x80..0x9F         #
       | 0xD1 0xA1               #L&       CYRILLIC SMALL LETTER OMEGA
       | 0xD1 0xA3               #L&       CYRILLIC SMALL LETTER YAT
       | 0xD1 0xA5               #L&       CYRILLIC SMALL LETTER IOTIFIED E
@@ -1031,15 +1027,15 @@
       | 0xD4 0x9F               #L&       CYRILLIC SMALL LETTER ALEUT KA
       | 0xD4 0xA1               #L&       CYRILLIC SMALL LETTER EL WITH MIDD...
       | 0xD4 0xA3               #L&       CYRILLIC SMALL LETTER EN WITH MIDD...
-      | 0xD5 0xA1..0xFF         #L&  [39] ARMENIAN SMALL LETTER AYB..ARMENIA...
-      | 0xD6 0x00..0x87         #
+      | 0xD5 0xA1..0xBF         #L&  [39] ARMENIAN SMALL LETTER AYB..ARMENIA...
+      | 0xD6 0x80..0x87         #
       | 0xE1 0xB4 0x80..0xAB    #L&  [44] LATIN LETTER SMALL CAPITAL A..CYRI...
-      | 0xE1 0xB4 0xAC..0xFF    #Lm  [54] MODIFIER LETTER CAPITAL A..MODIFIE...
-      | 0xE1 0xB5 0x00..0xA1    #
+      | 0xE1 0xB4 0xAC..0xBF    #Lm  [54] MODIFIER LETTER CAPITAL A..MODIFIE...
+      | 0xE1 0xB5 0x80..0xA1    #
       | 0xE1 0xB5 0xA2..0xB7    #L&  [22] LATIN SUBSCRIPT SMALL LETTER I..LA...
       | 0xE1 0xB5 0xB8          #Lm       MODIFIER LETTER CYRILLIC EN
-      | 0xE1 0xB5 0xB9..0xFF    #L&  [34] LATIN SMALL LETTER INSULAR G..LATI...
-      | 0xE1 0xB6 0x00..0x9A    #
+      | 0xE1 0xB5 0xB9..0xBF    #L&  [34] LATIN SMALL LETTER INSULAR G..LATI...
+      | 0xE1 0xB6 0x80..0x9A    #
       | 0xE1 0xB6 0x9B..0xBF    #Lm  [37] MODIFIER LETTER SMALL TURNED ALPHA...
       | 0xE1 0xB8 0x81          #L&       LATIN SMALL LETTER A WITH RING BELOW
       | 0xE1 0xB8 0x83          #L&       LATIN SMALL LETTER B WITH DOT ABOVE
@@ -1164,8 +1160,8 @@
       | 0xE1 0xBB 0xB9          #L&       LATIN SMALL LETTER Y WITH TILDE
       | 0xE1 0xBB 0xBB          #L&       LATIN SMALL LETTER MIDDLE-WELSH LL
       | 0xE1 0xBB 0xBD          #L&       LATIN SMALL LETTER MIDDLE-WELSH V
-      | 0xE1 0xBB 0xBF..0xFF    #L&   [9] LATIN SMALL LETTER Y WITH LOOP..GR...
-      | 0xE1 0xBC 0x00..0x87    #
+      | 0xE1 0xBB 0xBF..0xBF    #L&   [9] LATIN SMALL LETTER Y WITH LOOP..GR...
+      | 0xE1 0xBC 0x80..0x87    #
       | 0xE1 0xBC 0x90..0x95    #L&   [6] GREEK SMALL LETTER EPSILON WITH PS...
       | 0xE1 0xBC 0xA0..0xA7    #L&   [8] GREEK SMALL LETTER ETA WITH PSILI....
       | 0xE1 0xBC 0xB0..0xB7    #L&   [8] GREEK SMALL LETTER IOTA WITH PSILI...
@@ -1201,8 +1197,8 @@
       | 0xE2 0x85 0xB0..0xBF    #Nl  [16] SMALL ROMAN NUMERAL ONE..SMALL ROM...
       | 0xE2 0x86 0x84          #L&       LATIN SMALL LETTER REVERSED C
       | 0xE2 0x93 0x90..0xA9    #So  [26] CIRCLED LATIN SMALL LETTER A..CIRC...
-      | 0xE2 0xB0 0xB0..0xFF    #L&  [47] GLAGOLITIC SMALL LETTER AZU..GLAGO...
-      | 0xE2 0xB1 0x00..0x9E    #
+      | 0xE2 0xB0 0xB0..0xBF    #L&  [47] GLAGOLITIC SMALL LETTER AZU..GLAGO...
+      | 0xE2 0xB1 0x80..0x9E    #
       | 0xE2 0xB1 0xA1          #L&       LATIN SMALL LETTER L WITH DOUBLE BAR
       | 0xE2 0xB1 0xA5..0xA6    #L&   [2] LATIN SMALL LETTER A WITH STROKE.....
       | 0xE2 0xB1 0xA8          #L&       LATIN SMALL LETTER H WITH DESCENDER
@@ -1348,42 +1344,42 @@
       | 0xEF 0xAC 0x80..0x86    #L&   [7] LATIN SMALL LIGATURE FF..LATIN SMA...
       | 0xEF 0xAC 0x93..0x97    #L&   [5] ARMENIAN SMALL LIGATURE MEN NOW..A...
       | 0xEF 0xBD 0x81..0x9A    #L&  [26] FULLWIDTH LATIN SMALL LETTER A..FU...
-      | 0xF0 0x90 0x90 0xA8..0xFF  #L&  [40] DESERET SMALL LETTER LONG I..DE...
-      | 0xF0 0x90 0x91 0x00..0x8F  #
+      | 0xF0 0x90 0x90 0xA8..0xBF  #L&  [40] DESERET SMALL LETTER LONG I..DE...
+      | 0xF0 0x90 0x91 0x80..0x8F  #
       | 0xF0 0x9D 0x90 0x9A..0xB3  #L&  [26] MATHEMATICAL BOLD SMALL A..MATH...
       | 0xF0 0x9D 0x91 0x8E..0x94  #L&   [7] MATHEMATICAL ITALIC SMALL A..MA...
       | 0xF0 0x9D 0x91 0x96..0xA7  #L&  [18] MATHEMATICAL ITALIC SMALL I..MA...
       | 0xF0 0x9D 0x92 0x82..0x9B  #L&  [26] MATHEMATICAL BOLD ITALIC SMALL ...
       | 0xF0 0x9D 0x92 0xB6..0xB9  #L&   [4] MATHEMATICAL SCRIPT SMALL A..MA...
       | 0xF0 0x9D 0x92 0xBB     #L&       MATHEMATICAL SCRIPT SMALL F
-      | 0xF0 0x9D 0x92 0xBD..0xFF  #L&   [7] MATHEMATICAL SCRIPT SMALL H..MA...
-      | 0xF0 0x9D 0x93 0x00..0x83  #
+      | 0xF0 0x9D 0x92 0xBD..0xBF  #L&   [7] MATHEMATICAL SCRIPT SMALL H..MA...
+      | 0xF0 0x9D 0x93 0x80..0x83  #
       | 0xF0 0x9D 0x93 0x85..0x8F  #L&  [11] MATHEMATICAL SCRIPT SMALL P..MA...
-      | 0xF0 0x9D 0x93 0xAA..0xFF  #L&  [26] MATHEMATICAL BOLD SCRIPT SMALL ...
-      | 0xF0 0x9D 0x94 0x00..0x83  #
+      | 0xF0 0x9D 0x93 0xAA..0xBF  #L&  [26] MATHEMATICAL BOLD SCRIPT SMALL ...
+      | 0xF0 0x9D 0x94 0x80..0x83  #
       | 0xF0 0x9D 0x94 0x9E..0xB7  #L&  [26] MATHEMATICAL FRAKTUR SMALL A..M...
       | 0xF0 0x9D 0x95 0x92..0xAB  #L&  [26] MATHEMATICAL DOUBLE-STRUCK SMAL...
       | 0xF0 0x9D 0x96 0x86..0x9F  #L&  [26] MATHEMATICAL BOLD FRAKTUR SMALL...
-      | 0xF0 0x9D 0x96 0xBA..0xFF  #L&  [26] MATHEMATICAL SANS-SERIF SMALL A...
-      | 0xF0 0x9D 0x97 0x00..0x93  #
-      | 0xF0 0x9D 0x97 0xAE..0xFF  #L&  [26] MATHEMATICAL SANS-SERIF BOLD SM...
-      | 0xF0 0x9D 0x98 0x00..0x87  #
+      | 0xF0 0x9D 0x96 0xBA..0xBF  #L&  [26] MATHEMATICAL SANS-SERIF SMALL A...
+      | 0xF0 0x9D 0x97 0x80..0x93  #
+      | 0xF0 0x9D 0x97 0xAE..0xBF  #L&  [26] MATHEMATICAL SANS-SERIF BOLD SM...
+      | 0xF0 0x9D 0x98 0x80..0x87  #
       | 0xF0 0x9D 0x98 0xA2..0xBB  #L&  [26] MATHEMATICAL SANS-SERIF ITALIC ...
       | 0xF0 0x9D 0x99 0x96..0xAF  #L&  [26] MATHEMATICAL SANS-SERIF BOLD IT...
       | 0xF0 0x9D 0x9A 0x8A..0xA5  #L&  [28] MATHEMATICAL MONOSPACE SMALL A....
       | 0xF0 0x9D 0x9B 0x82..0x9A  #L&  [25] MATHEMATICAL BOLD SMALL ALPHA.....
       | 0xF0 0x9D 0x9B 0x9C..0xA1  #L&   [6] MATHEMATICAL BOLD EPSILON SYMBO...
-      | 0xF0 0x9D 0x9B 0xBC..0xFF  #L&  [25] MATHEMATICAL ITALIC SMALL ALPHA...
-      | 0xF0 0x9D 0x9C 0x00..0x94  #
+      | 0xF0 0x9D 0x9B 0xBC..0xBF  #L&  [25] MATHEMATICAL ITALIC SMALL ALPHA...
+      | 0xF0 0x9D 0x9C 0x80..0x94  #
       | 0xF0 0x9D 0x9C 0x96..0x9B  #L&   [6] MATHEMATICAL ITALIC EPSILON SYM...
-      | 0xF0 0x9D 0x9C 0xB6..0xFF  #L&  [25] MATHEMATICAL BOLD ITALIC SMALL ...
-      | 0xF0 0x9D 0x9D 0x00..0x8E  #
+      | 0xF0 0x9D 0x9C 0xB6..0xBF  #L&  [25] MATHEMATICAL BOLD ITALIC SMALL ...
+      | 0xF0 0x9D 0x9D 0x80..0x8E  #
       | 0xF0 0x9D 0x9D 0x90..0x95  #L&   [6] MATHEMATICAL BOLD ITALIC EPSILO...
-      | 0xF0 0x9D 0x9D 0xB0..0xFF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD SM...
-      | 0xF0 0x9D 0x9E 0x00..0x88  #
+      | 0xF0 0x9D 0x9D 0xB0..0xBF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD SM...
+      | 0xF0 0x9D 0x9E 0x80..0x88  #
       | 0xF0 0x9D 0x9E 0x8A..0x8F  #L&   [6] MATHEMATICAL SANS-SERIF BOLD EP...
-      | 0xF0 0x9D 0x9E 0xAA..0xFF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD IT...
-      | 0xF0 0x9D 0x9F 0x00..0x82  #
+      | 0xF0 0x9D 0x9E 0xAA..0xBF  #L&  [25] MATHEMATICAL SANS-SERIF BOLD IT...
+      | 0xF0 0x9D 0x9F 0x80..0x82  #
       | 0xF0 0x9D 0x9F 0x84..0x89  #L&   [6] MATHEMATICAL SANS-SERIF BOLD IT...
       | 0xF0 0x9D 0x9F 0x8B     #L&       MATHEMATICAL BOLD SMALL DIGAMMA
       ;
@@ -1559,8 +1555,8 @@
       | 0xCF 0xB4               #L&       GREEK CAPITAL THETA SYMBOL
       | 0xCF 0xB7               #L&       GREEK CAPITAL LETTER SHO
       | 0xCF 0xB9..0xBA         #L&   [2] GREEK CAPITAL LUNATE SIGMA SYMBOL....
-      | 0xCF 0xBD..0xFF         #L&  [51] GREEK CAPITAL REVERSED LUNATE SIGM...
-      | 0xD0 0x00..0xAF         #
+      | 0xCF 0xBD..0xBF         #L&  [51] GREEK CAPITAL REVERSED LUNATE SIGM...
+      | 0xD0 0x80..0xAF         #
       | 0xD1 0xA0               #L&       CYRILLIC CAPITAL LETTER OMEGA
       | 0xD1 0xA2               #L&       CYRILLIC CAPITAL LETTER YAT
       | 0xD1 0xA4               #L&       CYRILLIC CAPITAL LETTER IOTIFIED E
@@ -1654,10 +1650,10 @@
       | 0xD4 0x9E               #L&       CYRILLIC CAPITAL LETTER ALEUT KA
       | 0xD4 0xA0               #L&       CYRILLIC CAPITAL LETTER EL WITH MI...
       | 0xD4 0xA2               #L&       CYRILLIC CAPITAL LETTER EN WITH MI...
-      | 0xD4 0xB1..0xFF         #L&  [38] ARMENIAN CAPITAL LETTER AYB..ARMEN...
-      | 0xD5 0x00..0x96         #
-      | 0xE1 0x82 0xA0..0xFF    #L&  [38] GEORGIAN CAPITAL LETTER AN..GEORGI...
-      | 0xE1 0x83 0x00..0x85    #
+      | 0xD4 0xB1..0xBF         #L&  [38] ARMENIAN CAPITAL LETTER AYB..ARMEN...
+      | 0xD5 0x80..0x96         #
+      | 0xE1 0x82 0xA0..0xBF    #L&  [38] GEORGIAN CAPITAL LETTER AN..GEORGI...
+      | 0xE1 0x83 0x80..0x85    #
       | 0xE1 0xB8 0x80          #L&       LATIN CAPITAL LETTER A WITH RING B...
       | 0xE1 0xB8 0x82          #L&       LATIN CAPITAL LETTER B WITH DOT ABOVE
       | 0xE1 0xB8 0x84          #L&       LATIN CAPITAL LETTER B WITH DOT BELOW
@@ -1812,8 +1808,8 @@
       | 0xE2 0x85 0x85          #L&       DOUBLE-STRUCK ITALIC CAPITAL D
       | 0xE2 0x85 0xA0..0xAF    #Nl  [16] ROMAN NUMERAL ONE..ROMAN NUMERAL O...
       | 0xE2 0x86 0x83          #L&       ROMAN NUMERAL REVERSED ONE HUNDRED
-      | 0xE2 0x92 0xB6..0xFF    #So  [26] CIRCLED LATIN CAPITAL LETTER A..CI...
-      | 0xE2 0x93 0x00..0x8F    #
+      | 0xE2 0x92 0xB6..0xBF    #So  [26] CIRCLED LATIN CAPITAL LETTER A..CI...
+      | 0xE2 0x93 0x80..0x8F    #
       | 0xE2 0xB0 0x80..0xAE    #L&  [47] GLAGOLITIC CAPITAL LETTER AZU..GLA...
       | 0xE2 0xB1 0xA0          #L&       LATIN CAPITAL LETTER L WITH DOUBLE...
       | 0xE2 0xB1 0xA2..0xA4    #L&   [3] LATIN CAPITAL LETTER L WITH MIDDLE...
@@ -1956,10 +1952,10 @@
       | 0xEF 0xBC 0xA1..0xBA    #L&  [26] FULLWIDTH LATIN CAPITAL LETTER A.....
       | 0xF0 0x90 0x90 0x80..0xA7  #L&  [40] DESERET CAPITAL LETTER LONG I.....
       | 0xF0 0x9D 0x90 0x80..0x99  #L&  [26] MATHEMATICAL BOLD CAPITAL A..MA...
-      | 0xF0 0x9D 0x90 0xB4..0xFF  #L&  [26] MATHEMATICAL ITALIC CAPITAL A.....
-      | 0xF0 0x9D 0x91 0x00..0x8D  #
-      | 0xF0 0x9D 0x91 0xA8..0xFF  #L&  [26] MATHEMATICAL BOLD ITALIC CAPITA...
-      | 0xF0 0x9D 0x92 0x00..0x81  #
+      | 0xF0 0x9D 0x90 0xB4..0xBF  #L&  [26] MATHEMATICAL ITALIC CAPITAL A.....
+      | 0xF0 0x9D 0x91 0x80..0x8D  #
+      | 0xF0 0x9D 0x91 0xA8..0xBF  #L&  [26] MATHEMATICAL BOLD ITALIC CAPITA...
+      | 0xF0 0x9D 0x92 0x80..0x81  #
       | 0xF0 0x9D 0x92 0x9C     #L&       MATHEMATICAL SCRIPT CAPITAL A
       | 0xF0 0x9D 0x92 0x9E..0x9F  #L&   [2] MATHEMATICAL SCRIPT CAPITAL C.....
       | 0xF0 0x9D 0x92 0xA2     #L&       MATHEMATICAL SCRIPT CAPITAL G
@@ -1976,17 +1972,17 @@
       | 0xF0 0x9D 0x95 0x80..0x84  #L&   [5] MATHEMATICAL DOUBLE-STRUCK CAPI...
       | 0xF0 0x9D 0x95 0x86     #L&       MATHEMATICAL DOUBLE-STRUCK CAPITAL O
       | 0xF0 0x9D 0x95 0x8A..0x90  #L&   [7] MATHEMATICAL DOUBLE-STRUCK CAPI...
-      | 0xF0 0x9D 0x95 0xAC..0xFF  #L&  [26] MATHEMATICAL BOLD FRAKTUR CAPIT...
-      | 0xF0 0x9D 0x96 0x00..0x85  #
+      | 0xF0 0x9D 0x95 0xAC..0xBF  #L&  [26] MATHEMATICAL BOLD FRAKTUR CAPIT...
+      | 0xF0 0x9D 0x96 0x80..0x85  #
       | 0xF0 0x9D 0x96 0xA0..0xB9  #L&  [26] MATHEMATICAL SANS-SERIF CAPITAL...
       | 0xF0 0x9D 0x97 0x94..0xAD  #L&  [26] MATHEMATICAL SANS-SERIF BOLD CA...
       | 0xF0 0x9D 0x98 0x88..0xA1  #L&  [26] MATHEMATICAL SANS-SERIF ITALIC ...
-      | 0xF0 0x9D 0x98 0xBC..0xFF  #L&  [26] MATHEMATICAL SANS-SERIF BOLD IT...
-      | 0xF0 0x9D 0x99 0x00..0x95  #
-      | 0xF0 0x9D 0x99 0xB0..0xFF  #L&  [26] MATHEMATICAL MONOSPACE CAPITAL ...
-      | 0xF0 0x9D 0x9A 0x00..0x89  #
-      | 0xF0 0x9D 0x9A 0xA8..0xFF  #L&  [25] MATHEMATICAL BOLD CAPITAL ALPHA...
-      | 0xF0 0x9D 0x9B 0x00..0x80  #
+      | 0xF0 0x9D 0x98 0xBC..0xBF  #L&  [26] MATHEMATICAL SANS-SERIF BOLD IT...
+      | 0xF0 0x9D 0x99 0x80..0x95  #
+      | 0xF0 0x9D 0x99 0xB0..0xBF  #L&  [26] MATHEMATICAL MONOSPACE CAPITAL ...
+      | 0xF0 0x9D 0x9A 0x80..0x89  #
+      | 0xF0 0x9D 0x9A 0xA8..0xBF  #L&  [25] MATHEMATICAL BOLD CAPITAL ALPHA...
+      | 0xF0 0x9D 0x9B 0x80..0x80  #
       | 0xF0 0x9D 0x9B 0xA2..0xBA  #L&  [25] MATHEMATICAL ITALIC CAPITAL ALP...
       | 0xF0 0x9D 0x9C 0x9C..0xB4  #L&  [25] MATHEMATICAL BOLD ITALIC CAPITA...
       | 0xF0 0x9D 0x9D 0x96..0xAE  #L&  [25] MATHEMATICAL SANS-SERIF BOLD CA...
-- 
2.43.0


From 85833afc4fa582ac99f366e867efd5300dfa2f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:41 +0000
Subject: [PATCH 082/139] fix: multi-byte tokenizers doubled the character
 after an invalid byte

mb_next_char() returned the number of invalid bytes only, but delivered the
character after them, which was then read again: the lower-casing tokenizers
made "aa" of "\xffa".
---
 c/src/analysis.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index ce8ec20..5f3d83f 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -164,7 +164,8 @@ static INLINE int mb_next_char(wchar_t *wchr, const char *s, mbstate_t *state)
             ZEROSET(state, mbstate_t);
             num_bytes = (int)mbrtowc(wchr, t, MB_CUR_MAX, state);
         } while ((num_bytes < 0) && (*t != 0));
-        num_bytes = t - s;
+        /* the invalid bytes and the character that follows them */
+        num_bytes = (t - s) + (num_bytes > 0 ? num_bytes : 0);
         if (*t == 0) *wchr = 0;
     }
     return num_bytes;
-- 
2.43.0


From 2cc9f287a0fea0a35fb36db6c08048e7a8cc15d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:41 +0000
Subject: [PATCH 083/139] fix: the multi-byte standard scanner ran past its
 buffers

A text of 4096 or more characters filled the window without a terminator, so
the scanner read on behind it; text beyond the window was not scanned at all
when the window held no token; a token whose last character crossed the
254th byte was written past its buffer; and offsets were those of the text
with its invalid bytes dropped.  Scan windows one after the other and compute
offsets from the text itself.  Regenerated with ragel 6.10.
---
 c/src/scanner_mb.c  | 139 ++++++++++++++++++++++++--------------------
 c/src/scanner_mb.rl | 125 +++++++++++++++++++++------------------
 2 files changed, 143 insertions(+), 121 deletions(-)

diff --git a/c/src/scanner_mb.c b/c/src/scanner_mb.c
index e78daa6..83705a2 100644
--- a/c/src/scanner_mb.c
+++ b/c/src/scanner_mb.c
@@ -6223,23 +6223,6 @@ static const int StdTok_en_main = 1;
 
 #line 34 "src/scanner_mb.rl"
 
-static const char *position_in_mb( const unsigned int *orig_wc,
-                                   const char *orig_mb,
-                                   const unsigned int *curr_wc )
-{
-    const char         *mb = orig_mb;
-    const unsigned int *wc = orig_wc;
-
-    while (wc < curr_wc)
-    {
-        char buf[MB_LEN_MAX];
-        mb += wctomb(buf, *wc);
-        ++wc;
-    }
-
-    return mb;
-}
-
 static int mb_next_char(unsigned int *wchr, const char *s, mbstate_t *state)
 {
     int num_bytes;
@@ -6250,15 +6233,23 @@ static int mb_next_char(unsigned int *wchr, const char *s, mbstate_t *state)
             ZEROSET(state, mbstate_t);
             num_bytes = (int)mbrtowc((wchar_t*)wchr, t, MB_CUR_MAX, state);
         } while ((num_bytes < 0) && (*t != 0));
-        num_bytes = t - s;
+        /* the invalid bytes and the character that follows them */
+        num_bytes = (t - s) + (num_bytes > 0 ? num_bytes : 0);
         if (*t == 0) *wchr = 0;
     }
     return num_bytes;
 }
 
-static int wc_next_char(char *s, const unsigned int *wchr, mbstate_t *state)
+static const char *position_in_mb( const char *mb, size_t chars )
 {
-    return (int)wcrtomb(s, *wchr, state);
+    unsigned int wchr;
+    mbstate_t state;
+    ZEROSET(&state, mbstate_t);
+
+    while (chars-- > 0)
+        mb += mb_next_char(&wchr, mb, &state);
+
+    return mb;
 }
 
 /*
@@ -6283,70 +6274,65 @@ static int wc_next_char(char *s, const unsigned int *wchr, mbstate_t *state)
  * +token_size+.
  */
 
-static void mb_to_wc(const char *in,
-                     unsigned int *out, size_t out_size)
+#define SCAN_WINDOW 4096
+
+/* Convert at most SCAN_WINDOW - 1 characters; returns the first byte which
+ * was not converted. */
+static const char *mb_to_wc(const char *in, unsigned int *out)
 {
     mbstate_t state;
-    const char *in_p     = in;
-    unsigned int *out_p = out;
+    unsigned int *out_end = out + SCAN_WINDOW - 1;
     ZEROSET(&state, mbstate_t);
 
-    while (*in_p && out_p < (out + out_size/sizeof(*out)))
+    while (*in && out < out_end)
     {
         /* We can break out early here on, say, a space XXX */
-
-        int n = mb_next_char(out_p, in_p, &state);
-        if (n < 0)
-        {
-            ++in_p;
-            continue;
-        }
-
-        in_p += n;
-        ++out_p;
+        in += mb_next_char(out, in, &state);
+        if (!*out)
+            break;
+        ++out;
     }
+    *out = 0;
+    return in;
 }
 
 static void wc_to_mb(char *out, size_t out_size, int *token_size,
                      const unsigned int *in_wc, size_t in_wc_size)
 {
     mbstate_t state;
+    char buf[MB_LEN_MAX];
     char *out_p = out;
-    const unsigned int *in_wc_p = in_wc;
+    const unsigned int *in_wc_end = in_wc + in_wc_size;
     ZEROSET(&state, mbstate_t);
-    *token_size = 0;
 
-    while (out_p < (out + out_size) && in_wc_p < (in_wc + in_wc_size))
+    for (; in_wc < in_wc_end; ++in_wc)
     {
-        if (!*in_wc_p)
-            break;
-
-        int n = wc_next_char(out_p, in_wc_p, &state);
+        int n = (int)wcrtomb(buf, *in_wc, &state);
         if (n < 0)
-        {
-            ++in_wc_p;
             continue;
-        }
+        if (out_p + n > out + out_size)
+            break;
 
+        memcpy(out_p, buf, n);
         out_p += n;
-        ++in_wc_p;
     }
 
     *token_size = out_p - out;
 }
 
-void frt_std_scan_mb(const char *in_mb,
-                     char *out_mb, size_t out_mb_size,
-                     const char **start_mb,
-                     const char **end_mb,
-                     int *token_size)
+static void scan_window(const char *in_mb,
+                        char *out_mb, size_t out_mb_size,
+                        const char **start_mb,
+                        const char **end_mb,
+                        int *token_size,
+                        const char **rest)
 {
     int cs, act, top;
     int stack[32];
     unsigned int *ts = 0, *te = 0;
 
     
-#line 6341 "src/scanner_mb.c"
+#line 6327 "src/scanner_mb.c"
 	{
 	cs = StdTok_start;
 	top = 0;
@@ -6355,10 +6341,10 @@ void frt_std_scan_mb(const char *in_mb,
 	act = 0;
 	}
 
-#line 158 "src/scanner_mb.rl"
+#line 144 "src/scanner_mb.rl"
 
-    unsigned int in_wc[4096] = {0};
-    mb_to_wc(in_mb, in_wc, sizeof(in_wc));
+    unsigned int in_wc[SCAN_WINDOW];
+    *rest = mb_to_wc(in_mb, in_wc);
 
     unsigned int *p = in_wc, *pe = 0, *eof = pe;
     int skip = 0;
@@ -6370,7 +6356,7 @@ void frt_std_scan_mb(const char *in_mb,
     *token_size = 0;
 
     
-#line 6361 "src/scanner_mb.c"
+#line 6347 "src/scanner_mb.c"
 	{
 	int _klen;
 	unsigned int _trans;
@@ -6391,7 +6377,7 @@ _resume:
 #line 1 "NONE"
 	{ts = p;}
 	break;
-#line 6380 "src/scanner_mb.c"
+#line 6366 "src/scanner_mb.c"
 		}
 	}
 
@@ -6643,7 +6629,7 @@ _eof_trans:
 	}
 	}
 	break;
-#line 6594 "src/scanner_mb.c"
+#line 6580 "src/scanner_mb.c"
 		}
 	}
 
@@ -6656,7 +6642,7 @@ _again:
 #line 1 "NONE"
 	{ts = 0;}
 	break;
-#line 6605 "src/scanner_mb.c"
+#line 6591 "src/scanner_mb.c"
 		}
 	}
 
@@ -6676,7 +6662,7 @@ _again:
 	_out: {}
 	}
 
-#line 172 "src/scanner_mb.rl"
+#line 158 "src/scanner_mb.rl"
 
     if ( cs == StdTok_error )
                    fwprintf(stderr, L"PARSE ERROR\n");
@@ -6685,11 +6671,11 @@ _again:
 
  ret:
     {
-        unsigned int out_wc[4096] = {0};
+        unsigned int out_wc[SCAN_WINDOW];
         size_t __len = te - ts - skip - trunc;
 
-        *start_mb = position_in_mb(in_wc, in_mb, ts);
-        *end_mb   = position_in_mb(in_wc, in_mb, te);
+        *start_mb = position_in_mb(in_mb, ts - in_wc);
+        *end_mb   = position_in_mb(in_mb, te - in_wc);
 
         if (strip_char) {
             unsigned int *__p = ts + skip;
@@ -6698,12 +6684,37 @@ _again:
                 if (*__p != strip_char)
                     *__o++ = *__p;
             }
+            __len = __o - out_wc;
         }
         else {
             memcpy(out_wc, ts + skip, __len*sizeof(unsigned int));
         }
 
-        wc_to_mb(out_mb, out_mb_size, token_size, out_wc, sizeof(out_wc));
+        wc_to_mb(out_mb, out_mb_size, token_size, out_wc, __len);
         out_mb[*token_size] = 0;
     }
 }
+
+/* The text is scanned in windows of SCAN_WINDOW characters. */
+void frt_std_scan_mb(const char *in_mb,
+                     char *out_mb, size_t out_mb_size,
+                     const char **start_mb,
+                     const char **end_mb,
+                     int *token_size)
+{
+    const char *rest;
+
+    for (;;)
+    {
+        scan_window(in_mb, out_mb, out_mb_size,
+                    start_mb, end_mb, token_size, &rest);
+        if (!*rest)
+            return;
+        if (*token_size == 0)
+            in_mb = rest;
+        else if (*start_mb - in_mb > SCAN_WINDOW / 2)
+            in_mb = *start_mb;  /* it may go on after the window */
+        else
+            return;
+    }
+}
diff --git a/c/src/scanner_mb.rl b/c/src/scanner_mb.rl
index bc2fe19..370963a 100644
--- a/c/src/scanner_mb.rl
+++ b/c/src/scanner_mb.rl
@@ -32,23 +32,6 @@
 
 %% write data nofinal;
 
-static const char *position_in_mb( const unsigned int *orig_wc,
-                                   const char *orig_mb,
-                                   const unsigned int *curr_wc )
-{
-    const char         *mb = orig_mb;
-    const unsigned int *wc = orig_wc;
-
-    while (wc < curr_wc)
-    {
-        char buf[MB_LEN_MAX];
-        mb += wctomb(buf, *wc);
-        ++wc;
-    }
-
-    return mb;
-}
-
 static int mb_next_char(unsigned int *wchr, const char *s, mbstate_t *state)
 {
     int num_bytes;
@@ -59,15 +42,23 @@ static int mb_next_char(unsigned int *wchr, const char *s, mbstate_t *state)
             ZEROSET(state, mbstate_t);
             num_bytes = (int)mbrtowc((wchar_t*)wchr, t, MB_CUR_MAX, state);
         } while ((num_bytes < 0) && (*t != 0));
-        num_bytes = t - s;
+        /* the invalid bytes and the character that follows them */
+        num_bytes = (t - s) + (num_bytes > 0 ? num_bytes : 0);
         if (*t == 0) *wchr = 0;
     }
     return num_bytes;
 }
 
-static int wc_next_char(char *s, const unsigned int *wchr, mbstate_t *state)
+static const char *position_in_mb( const char *mb, size_t chars )
 {
-    return (int)wcrtomb(s, *wchr, state);
+    unsigned int wchr;
+    mbstate_t state;
+    ZEROSET(&state, mbstate_t);
+
+    while (chars-- > 0)
+        mb += mb_next_char(&wchr, mb, &state);
+
+    return mb;
 }
 
 /*
@@ -92,63 +83,58 @@ static int wc_next_char(char *s, const unsigned int *wchr, mbstate_t *state)
  * +token_size+.
  */
 
-static void mb_to_wc(const char *in,
-                     unsigned int *out, size_t out_size)
+#define SCAN_WINDOW 4096
+
+/* Convert at most SCAN_WINDOW - 1 characters; returns the first byte which
+ * was not converted. */
+static const char *mb_to_wc(const char *in, unsigned int *out)
 {
     mbstate_t state;
-    const char *in_p     = in;
-    unsigned int *out_p = out;
+    unsigned int *out_end = out + SCAN_WINDOW - 1;
     ZEROSET(&state, mbstate_t);
 
-    while (*in_p && out_p < (out + out_size/sizeof(*out)))
+    while (*in && out < out_end)
     {
         /* We can break out early here on, say, a space XXX */
-
-        int n = mb_next_char(out_p, in_p, &state);
-        if (n < 0)
-        {
-            ++in_p;
-            continue;
-        }
-
-        in_p += n;
-        ++out_p;
+        in += mb_next_char(out, in, &state);
+        if (!*out)
+            break;
+        ++out;
     }
+    *out = 0;
+    return in;
 }
 
 static void wc_to_mb(char *out, size_t out_size, int *token_size,
                      const unsigned int *in_wc, size_t in_wc_size)
 {
     mbstate_t state;
+    char buf[MB_LEN_MAX];
     char *out_p = out;
-    const unsigned int *in_wc_p = in_wc;
+    const unsigned int *in_wc_end = in_wc + in_wc_size;
     ZEROSET(&state, mbstate_t);
-    *token_size = 0;
 
-    while (out_p < (out + out_size) && in_wc_p < (in_wc + in_wc_size))
+    for (; in_wc < in_wc_end; ++in_wc)
     {
-        if (!*in_wc_p)
-            break;
-
-        int n = wc_next_char(out_p, in_wc_p, &state);
+        int n = (int)wcrtomb(buf, *in_wc, &state);
         if (n < 0)
-        {
-            ++in_wc_p;
             continue;
-        }
+        if (out_p + n > out + out_size)
+            break;
 
+        memcpy(out_p, buf, n);
         out_p += n;
-        ++in_wc_p;
     }
 
     *token_size = out_p - out;
 }
 
-void frt_std_scan_mb(const char *in_mb,
-                     char *out_mb, size_t out_mb_size,
-                     const char **start_mb,
-                     const char **end_mb,
-                     int *token_size)
+static void scan_window(const char *in_mb,
+                        char *out_mb, size_t out_mb_size,
+                        const char **start_mb,
+                        const char **end_mb,
+                        int *token_size,
+                        const char **rest)
 {
     int cs, act, top;
     int stack[32];
@@ -156,8 +142,8 @@ void frt_std_scan_mb(const char *in_mb,
 
     %% write init;
 
-    unsigned int in_wc[4096] = {0};
-    mb_to_wc(in_mb, in_wc, sizeof(in_wc));
+    unsigned int in_wc[SCAN_WINDOW];
+    *rest = mb_to_wc(in_mb, in_wc);
 
     unsigned int *p = in_wc, *pe = 0, *eof = pe;
     int skip = 0;
@@ -177,11 +163,11 @@ void frt_std_scan_mb(const char *in_mb,
 
  ret:
     {
-        unsigned int out_wc[4096] = {0};
+        unsigned int out_wc[SCAN_WINDOW];
         size_t __len = te - ts - skip - trunc;
 
-        *start_mb = position_in_mb(in_wc, in_mb, ts);
-        *end_mb   = position_in_mb(in_wc, in_mb, te);
+        *start_mb = position_in_mb(in_mb, ts - in_wc);
+        *end_mb   = position_in_mb(in_mb, te - in_wc);
 
         if (strip_char) {
             unsigned int *__p = ts + skip;
@@ -190,12 +176,37 @@ void frt_std_scan_mb(const char *in_mb,
                 if (*__p != strip_char)
                     *__o++ = *__p;
             }
+            __len = __o - out_wc;
         }
         else {
             memcpy(out_wc, ts + skip, __len*sizeof(unsigned int));
         }
 
-        wc_to_mb(out_mb, out_mb_size, token_size, out_wc, sizeof(out_wc));
+        wc_to_mb(out_mb, out_mb_size, token_size, out_wc, __len);
         out_mb[*token_size] = 0;
     }
 }
+
+/* The text is scanned in windows of SCAN_WINDOW characters. */
+void frt_std_scan_mb(const char *in_mb,
+                     char *out_mb, size_t out_mb_size,
+                     const char **start_mb,
+                     const char **end_mb,
+                     int *token_size)
+{
+    const char *rest;
+
+    for (;;)
+    {
+        scan_window(in_mb, out_mb, out_mb_size,
+                    start_mb, end_mb, token_size, &rest);
+        if (!*rest)
+            return;
+        if (*token_size == 0)
+            in_mb = rest;
+        else if (*start_mb - in_mb > SCAN_WINDOW / 2)
+            in_mb = *start_mb;  /* it may go on after the window */
+        else
+            return;
+    }
+}
-- 
2.43.0


From 3f7eeeba46590a5ef2f9462efb8aae4913b2c128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:36 +0000
Subject: [PATCH 084/139] fix: the legacy standard tokenizer overran its buffer
 on long words

A run of more than 255 letters or digits before ://, or as the start of an
acronym, was written past the token buffer; the multi-byte variant cut words
of more than 255 bytes in two; and the byte before the text was read.
---
 c/src/analysis.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index 5f3d83f..e85e78d 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -669,10 +669,7 @@ static int mb_legacy_std_get_alpha(TokenStream *ts, char *token)
     }
 
     i = (int)(t - ts->t);
-    if (i > MAX_WORD_SIZE) {
-        i = MAX_WORD_SIZE - 1;
-    }
-    memcpy(token, ts->t, i);
+    memcpy(token, ts->t, (i > MAX_WORD_SIZE) ? MAX_WORD_SIZE : i);
     return i;
 }
 
@@ -948,7 +945,7 @@ static Token *legacy_std_next(TokenStream *ts)
 
     if (t[0] == ':' && t[1] == '/' && t[2] == '/') {
         /* check for a known url start */
-        token[token_i] = '\0';
+        token[(token_i > MAX_WORD_SIZE) ? MAX_WORD_SIZE : token_i] = '\0';
         t += 3;
         token_i += 3;
         while (*t == '/') {
@@ -963,7 +960,8 @@ static Token *legacy_std_next(TokenStream *ts)
         }
         else {              /* still treat as url but keep the first part */
             token_i = (int)(t - start);
-            memcpy(token, start, token_i * sizeof(char));
+            memcpy(token, start,
+                   (token_i > MAX_WORD_SIZE) ? MAX_WORD_SIZE : token_i);
             ts->t = std_get_url(start, token, token_i, &len); /* keep start */
         }
         return tk_set(&(CTS(ts)->token), token, len,
@@ -978,7 +976,7 @@ static Token *legacy_std_next(TokenStream *ts)
         if (is_acronym && !isalpha(*t) && (*t != '.')) {
             is_acronym = false;
         }
-        if (isurlxatpunc(*t) && isurlxatpunc(t[-1])) {
+        if (isurlxatpunc(*t) && t > ts->text && isurlxatpunc(t[-1])) {
             break; /* can't have two punctuation characters in a row */
         }
         if (*t == '@') {
@@ -991,7 +989,7 @@ static Token *legacy_std_next(TokenStream *ts)
         }
         t++;
     }
-    while (isurlxatpunc(t[-1]) && t > ts->t) {
+    while (t > ts->t && isurlxatpunc(t[-1])) {
         t--;                /* strip trailing punctuation */
     }
 
@@ -1009,11 +1007,14 @@ static Token *legacy_std_next(TokenStream *ts)
         }
         if (is_acronym) {   /* strip '.'s */
             for (s = start + token_i; s < t; s++) {
-                if (*s != '.') {
+                if (*s != '.' && token_i < MAX_WORD_SIZE) {
                     token[token_i] = *s;
                     token_i++;
                 }
             }
+            if (token_i > MAX_WORD_SIZE) {
+                token_i = MAX_WORD_SIZE;
+            }
             tk_set(&(CTS(ts)->token), token, token_i,
                    (off_t)(start - ts->text),
                    (off_t)(t - ts->text), 1);
-- 
2.43.0


From af320e6fbdbd5a14ab40c71698f37c191c6f4385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:20 +0000
Subject: [PATCH 085/139] fix: hyphen filter: empty parts, stale parts after a
 reset, shared token

"a--b" and "-a-b" gave empty tokens; the parts of the last word came out
first after the stream was reset to another text; and a clone wrote the parts
into the token of the stream it was cloned from.
---
 c/include/analysis.h |  2 +-
 c/src/analysis.c     | 24 ++++++++++++++++++------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/c/include/analysis.h b/c/include/analysis.h
index 7766e69..4c3bf89 100644
--- a/c/include/analysis.h
+++ b/c/include/analysis.h
@@ -121,7 +121,7 @@ typedef struct FrtHyphenFilter
     int start;
     int pos;
     int len;
-    FrtToken *tk;
+    FrtToken part;
 } FrtHyphenFilter;
 
 typedef struct FrtStemFilter
diff --git a/c/src/analysis.c b/c/src/analysis.c
index e85e78d..15cd660 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -1270,20 +1270,31 @@ static TokenStream *hf_clone_i(TokenStream *orig_ts)
     return new_ts;
 }
 
+static TokenStream *hf_reset(TokenStream *ts, char *text)
+{
+    HyphenFilt(ts)->pos = HyphenFilt(ts)->len = 0;
+    return filter_reset(ts, text);
+}
+
 static Token *hf_next(TokenStream *ts)
 {
     HyphenFilter *hf = HyphenFilt(ts);
     TokenFilter *tf = TkFilt(ts);
-    Token *tk = hf->tk;
+    Token *tk;
 
     if (hf->pos < hf->len) {
         const int pos = hf->pos;
         const int text_len = strlen(hf->text + pos);
+        tk = &hf->part;
         strcpy(tk->text, hf->text + pos);
         tk->pos_inc = ((pos != 0) ? 1 : 0);
         tk->start = hf->start + pos;
         tk->end = tk->start + text_len;
         hf->pos += text_len + 1;
+        /* no part is empty */
+        while (hf->pos < hf->len && hf->text[hf->pos] == '\0') {
+            hf->pos++;
+        }
         tk->len = text_len;
         return tk;
     }
@@ -1291,8 +1302,8 @@ static Token *hf_next(TokenStream *ts)
         char *p;
         bool seen_hyphen = false;
         bool seen_other_punc = false;
-        hf->tk = tk = tf->sub_ts->next(tf->sub_ts);
-        if (NULL == tk) return NULL;
+        tk = tf->sub_ts->next(tf->sub_ts);
+        if (NULL == tk || tk->len == 0) return tk;
         p = tk->text + 1;
         while (*p) {
             if (*p == '-') {
@@ -1304,10 +1315,11 @@ static Token *hf_next(TokenStream *ts)
             }
             p++;
         }
-        if (seen_hyphen && !seen_other_punc) {
+        p = tk->text + strspn(tk->text, "-");
+        if (seen_hyphen && !seen_other_punc && *p) {
             char *q = hf->text;
             char *r = tk->text;
-            p = tk->text;
+            hf->start = tk->start + (p - tk->text);
             while (*p) {
                 if (*p == '-') {
                     *q = '\0';
@@ -1320,7 +1332,6 @@ static Token *hf_next(TokenStream *ts)
                 p++;
             }
             *r = *q = '\0';
-            hf->start = tk->start;
             hf->pos = 0;
             hf->len = q - hf->text;
             tk->len = r - tk->text;
@@ -1333,6 +1344,7 @@ TokenStream *hyphen_filter_new(TokenStream *sub_ts)
 {
     TokenStream *ts = tf_new(HyphenFilter, sub_ts);
     ts->next        = &hf_next;
+    ts->reset       = &hf_reset;
     ts->clone_i     = &hf_clone_i;
     return ts;
 }
-- 
2.43.0


From 0967d292d879cf80a648616f4dd80ee486f651a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:20 +0000
Subject: [PATCH 086/139] fix: a word that grows when lower-cased lost its
 terminator

The lower-case form of a 254 byte word may need more bytes than the upper-case
one; the terminator was then written behind the token text.
---
 c/src/analysis.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/analysis.c b/c/src/analysis.c
index 15cd660..eb94544 100644
--- a/c/src/analysis.c
+++ b/c/src/analysis.c
@@ -1371,7 +1371,7 @@ static Token *mb_lcf_next(TokenStream *ts)
         *wchr = towlower(*wchr);
         wchr++;
     }
-    tk->len = wcstombs(tk->text, wbuf, MAX_WORD_SIZE);
+    tk->len = wcstombs(tk->text, wbuf, MAX_WORD_SIZE - 1);
     if (tk->len <= 0) {
         strcpy(tk->text, "BAD_DATA");
         tk->len = 8;
-- 
2.43.0


From c5acbb462d036e7da4c7462b50c18456cd5fa5b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:54 +0000
Subject: [PATCH 087/139] fix: a key that is the empty string literal was taken
 for a deleted hash entry

---
 c/src/hash.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/src/hash.c b/c/src/hash.c
index 9d379b8..39fb297 100644
--- a/c/src/hash.c
+++ b/c/src/hash.c
@@ -11,8 +11,10 @@
  * the algorithm can be found in the file dictobject.c in Python's src
  ****************************************************************************/
 
-static char *dummy_key = "";
-static char *dummy_int_key = "i";
+/* These are compared by address so they must not be string literals, which
+ * may be merged with equal literals that are used as keys. */
+static char dummy_key[] = "";
+static char dummy_int_key[] = "i";
 
 
 #define PERTURB_SHIFT 5
-- 
2.43.0


From 58dbaf92c05ac59136bc87788018367930969db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:54 +0000
Subject: [PATCH 088/139] fix: cloning a hash table with integer keys crashed

---
 c/src/hash.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/c/src/hash.c b/c/src/hash.c
index 39fb297..c383cb4 100644
--- a/c/src/hash.c
+++ b/c/src/hash.c
@@ -479,7 +479,7 @@ void h_each(Hash *self,
 Hash *h_clone(Hash *self, h_clone_ft clone_key, h_clone_ft clone_value)
 {
     void *key, *value;
-    HashEntry *he;
+    HashEntry *he, *he_clone;
     int i = self->size;
     Hash *ht_clone;
 
@@ -487,12 +487,21 @@ Hash *h_clone(Hash *self, h_clone_ft clone_key, h_clone_ft clone_value)
                      self->eq_i,
                      self->free_key_i,
                      self->free_value_i);
+    ht_clone->lookup_i = self->lookup_i;
 
     for (he = self->table; i > 0; he++) {
         if (he->key && he->key != dummy_key) {        /* active entry */
-            key = clone_key ? clone_key(he->key) : he->key;
             value = clone_value ? clone_value(he->value) : he->value;
-            h_set(ht_clone, key, value);
+            if (self->lookup_i == &h_lookup_ptr) {
+                /* integer keys are only kept as the entry's hash value */
+                h_set_ext(ht_clone, (void *)he->hash, &he_clone);
+                he_clone->key = he->key;
+                he_clone->value = value;
+            }
+            else {
+                key = clone_key ? clone_key(he->key) : he->key;
+                h_set(ht_clone, key, value);
+            }
             i--;
         }
     }
-- 
2.43.0


From 91072845108201af2490a75972e35132f25f38db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:54 +0000
Subject: [PATCH 089/139] fix: removing an array element read beyond the end of
 the array

---
 c/src/array.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/array.c b/c/src/array.c
index 17b30b7..044268a 100644
--- a/c/src/array.c
+++ b/c/src/array.c
@@ -101,8 +101,8 @@ void *ary_remove_i(void **ary, int index)
     if (index >= 0 && index < ary_sz(ary)) {
         void *val = ary[index];
         memmove(ary + index, ary + index + 1,
-                (ary_sz(ary) - index + 1) * sizeof(void *));
-        ary_sz(ary)--;
+                (ary_sz(ary) - index - 1) * sizeof(void *));
+        ary[--ary_sz(ary)] = NULL;
         return val;
     }
     else {
-- 
2.43.0


From 3222b4911987ed45d3cbcbb57a2cd4bbce9b7e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:54 +0000
Subject: [PATCH 090/139] fix: setting bits of an inverted bit vector corrupted
 its count

---
 c/include/bitvector.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index 1f91c42..92f8f64 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -103,12 +103,17 @@ void frt_bv_set_value(FrtBitVector *bv, int bit, bool value)
     /* Set the required bit */
     word_p = &(bv->bits[word]);
     if ((!!(bitmask & *word_p)) != value) {
-        if (value) {
+        /* an inverted BitVector counts its unset bits (see bv_recount) */
+        if (value != bv->extends_as_ones) {
             bv->count++;
-            *word_p |= bitmask;
         }
         else {
             bv->count--;
+        }
+        if (value) {
+            *word_p |= bitmask;
+        }
+        else {
             *word_p &= ~bitmask;
         }
     }
-- 
2.43.0


From c5d7035d27afdfc9e1bbe9d91cdb4d48552128de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:54 +0000
Subject: [PATCH 091/139] fix: bv_recount read beyond the bits of a vector that
 fills its last word

---
 c/include/bitvector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index 92f8f64..d1c494c 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -225,7 +225,7 @@ extern void frt_bv_clear(FrtBitVector *bv);
 static FRT_ATTR_ALWAYS_INLINE
 int frt_bv_recount(FrtBitVector *bv)
 {
-    unsigned int extra = ((bv->size & 31) >> 3) + 1;
+    unsigned int extra = (bv->size & 31) ? ((bv->size & 31) >> 3) + 1 : 0;
     unsigned int len   = bv->size >> 5;
     unsigned int idx, count = 0;
 
-- 
2.43.0


From a1836ba620f0df792d09156c72780d45ae5d8eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:54 +0000
Subject: [PATCH 092/139] fix: bit vector operations in place used the result's
 extension for the operand

---
 c/include/bitvector.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/c/include/bitvector.h b/c/include/bitvector.h
index d1c494c..fe06755 100644
--- a/c/include/bitvector.h
+++ b/c/include/bitvector.h
@@ -427,7 +427,11 @@ void frt_bv_capa(FrtBitVector *bv, int capa, int size)
     int min_word_size = FRT_TO_WORD(min_size);                        \
     int capa = frt_max2(frt_round2(max_word_size), 4);                \
                                                                       \
-    bv->extends_as_ones = (a->extends_as_ones op b->extends_as_ones); \
+    /* bv may be a or b */                                            \
+    bool a_ones = a->extends_as_ones;                                 \
+    bool b_ones = b->extends_as_ones;                                 \
+                                                                      \
+    bv->extends_as_ones = (a_ones op b_ones);                         \
     frt_bv_capa(bv, capa, max_size);                                  \
                                                                       \
     for (i = 0; i < min_word_size; ++i)                               \
@@ -435,13 +439,16 @@ void frt_bv_capa(FrtBitVector *bv, int capa, int size)
                                                                       \
     if (a_wsz != b_wsz) {                                             \
         frt_u32 *bits = a->bits;                                      \
-        bool extends_as_ones = b->extends_as_ones;                    \
+        bool extends_as_ones = b_ones;                                \
         if (a_wsz < b_wsz) {                                          \
             bits = b->bits;                                           \
-            extends_as_ones = a->extends_as_ones;                     \
+            extends_as_ones = a_ones;                                 \
         }                                                             \
         ext_cb(bv->bits, bits, extends_as_ones, i, max_word_size);    \
     }                                                                 \
+    memset(bv->bits + max_word_size,                                  \
+           (bv->extends_as_ones ? 0xFF : 0),                          \
+           sizeof(frt_u32) * (bv->capa - max_word_size));             \
     frt_bv_recount(bv);                                               \
 } while(0)
 
-- 
2.43.0


From a727a9b7a4e82c4d3ddab56d75d5fded032b8d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:54 +0000
Subject: [PATCH 093/139] fix: compiling a long mapping pattern overran the
 state table

---
 c/src/multimapper.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c/src/multimapper.c b/c/src/multimapper.c
index b90e0d0..dbbe10e 100644
--- a/c/src/multimapper.c
+++ b/c/src/multimapper.c
@@ -227,7 +227,9 @@ void mulmap_compile(MultiMapper *self)
         const int plen = (int)strlen(pattern);
         ndstate_add(start, UCtoI(pattern[0]), size);
         if (size + plen + 1 >= capa) {
-            capa <<= 2;
+            while (size + plen + 1 >= capa) {
+                capa <<= 2;
+            }
             REALLOC_N(nstates, State *, capa);
         }
         for (j = 0; j < plen; j++) {
-- 
2.43.0


From a06fd2128af023b476d66e9804935d857c968810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:54 +0000
Subject: [PATCH 094/139] fix: mapping with a mapper that was not compiled yet
 used a missing state

---
 c/src/multimapper.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/c/src/multimapper.c b/c/src/multimapper.c
index dbbe10e..cd5cedc 100644
--- a/c/src/multimapper.c
+++ b/c/src/multimapper.c
@@ -263,12 +263,12 @@ void mulmap_compile(MultiMapper *self)
 
 int mulmap_map_len(MultiMapper *self, char *to, char *from, int capa)
 {
-    DeterministicState *start = self->dstates[0];
-    DeterministicState *state = start;
+    DeterministicState *start, *state;
     char *s = from, *d = to, *end = to + capa - 1;
     if (self->d_size == 0) {
         mulmap_compile(self);
     }
+    state = start = self->dstates[0];
     while (*s && d < end) {
         state = state->next[UCtoI(*s)];
         if (state->mapping) {
@@ -299,14 +299,14 @@ char *mulmap_map(MultiMapper *self, char *to, char *from, int capa)
 /* Maps a string to a dynamically allocated string */
 char *mulmap_dynamic_map(MultiMapper *self, char *from)
 {
-    DeterministicState *start = self->dstates[0];
-    DeterministicState *state = start;
+    DeterministicState *start, *state;
     int capa = strlen(from);
     char *to = (char *)ecalloc(capa);
     char *s = from, *d = to, *end = to + capa - 1;
     if (self->d_size == 0) {
         mulmap_compile(self);
     }
+    state = start = self->dstates[0];
     do {
         while (*s && d < end) {
             state = state->next[UCtoI(*s)];
-- 
2.43.0


From bb84f052a7869409d536cee30cf52686878f22ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:54 +0000
Subject: [PATCH 095/139] fix: mulmap_dynamic_map overran its buffer and cut
 replacements

---
 c/src/multimapper.c | 47 ++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/c/src/multimapper.c b/c/src/multimapper.c
index cd5cedc..8bb35e7 100644
--- a/c/src/multimapper.c
+++ b/c/src/multimapper.c
@@ -300,37 +300,36 @@ char *mulmap_map(MultiMapper *self, char *to, char *from, int capa)
 char *mulmap_dynamic_map(MultiMapper *self, char *from)
 {
     DeterministicState *start, *state;
-    int capa = strlen(from);
+    int capa = strlen(from) + 1;
     char *to = (char *)ecalloc(capa);
-    char *s = from, *d = to, *end = to + capa - 1;
+    char *s = from, *d = to;
     if (self->d_size == 0) {
         mulmap_compile(self);
     }
     state = start = self->dstates[0];
-    do {
-        while (*s && d < end) {
-            state = state->next[UCtoI(*s)];
-            if (state->mapping) {
-                int len = state->mapping_len;
-                d -= (state->longest_match - 1);
-                if ((d + len) > end) {
-                    len = end - d;
-                }
-                memcpy(d, state->mapping, len);
-                d += len;
-                state = start;
-            }
-            else {
-                *(d++) = *s;
-            }
-            s++;
+    while (*s) {
+        int len = 1;
+        state = state->next[UCtoI(*s)];
+        if (state->mapping) {
+            len = state->mapping_len;
+            d -= (state->longest_match - 1);
+        }
+        if ((d - to) + len >= capa) {
+            int offset = d - to;
+            capa = offset + len + 1024;
+            to = (char *)erealloc(to, capa);
+            d = to + offset;
         }
-        if (*s) {
-            capa += 1024;
-            erealloc(to, capa);
-            end = to + capa - 1;
+        if (state->mapping) {
+            memcpy(d, state->mapping, len);
+            state = start;
         }
-    } while(*s);
+        else {
+            *d = *s;
+        }
+        d += len;
+        s++;
+    }
     *d = '\0';
     return to;
 }
-- 
2.43.0


From 21623a4c7d7fe5b80ef19ee31bb2e2c205efefd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:55 +0000
Subject: [PATCH 096/139] fix: index_add_array refused arrays of more than one
 string

---
 c/src/ind.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c/src/ind.c b/c/src/ind.c
index 1f0df48..d1a63d8 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -268,9 +268,10 @@ void index_add_array(Index *self, char **fields)
 {
     int i;
     Document *doc = doc_new();
+    DocField *df = doc_add_field(doc, df_new(self->def_field));
+    df->destroy_data = true;
     for (i = 0; i < ary_size(fields); i++) {
-        doc_add_field(doc, df_add_data(df_new(self->def_field),
-                                       estrdup(fields[i])));
+        df_add_data(df, estrdup(fields[i]));
     }
     index_add_doc(self, doc);
     doc_destroy(doc);
-- 
2.43.0


From f7f853fbd21bad485489ec16de25e1953f4a45ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:55 +0000
Subject: [PATCH 097/139] fix: index_add_string and documents with several key
 fields leaked memory

---
 c/src/ind.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c/src/ind.c b/c/src/ind.c
index d1a63d8..7ded2e4 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -224,7 +224,7 @@ static INLINE void index_del_doc_with_key_i(Index *self, Document *doc,
         Symbol field = (Symbol)hse->elem;
         df = doc_get_field(doc, field);
         if (!df) continue;
-        bq_add_query(q, tq_new(field, df->data[0]), BC_MUST);
+        bq_add_query_nr(q, tq_new(field, df->data[0]), BC_MUST);
     }
     td = searcher_search(self->sea, q, 0, 1, NULL, NULL, NULL);
     if (td->total_hits > 1) {
@@ -259,7 +259,9 @@ void index_add_doc(Index *self, Document *doc)
 void index_add_string(Index *self, char *str)
 {
     Document *doc = doc_new();
-    doc_add_field(doc, df_add_data(df_new(self->def_field), estrdup(str)));
+    DocField *df = doc_add_field(doc, df_new(self->def_field));
+    df->destroy_data = true;
+    df_add_data(df, estrdup(str));
     index_add_doc(self, doc);
     doc_destroy(doc);
 }
-- 
2.43.0


From 781253d6315c483115199491fd14ff5d11e02c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:55 +0000
Subject: [PATCH 098/139] fix: index_delete_term used an outdated reader and
 failed

---
 c/src/ind.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/src/ind.c b/c/src/ind.c
index 7ded2e4..b690b84 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -376,6 +376,7 @@ void index_delete_term(Index *self, Symbol field, const char *term)
     mutex_lock(&self->mutex);
     {
         if (self->ir) {
+            ensure_reader_open(self);
             tde = ir_term_docs_for(self->ir, field, term);
             TRY
                 while (tde->next(tde)) {
-- 
2.43.0


From b179ef5c65f434b8ad79740a59dc93f9653b48c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:55 +0000
Subject: [PATCH 099/139] fix: index_delete_term did not flush an auto-flushing
 index

---
 c/src/ind.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/src/ind.c b/c/src/ind.c
index b690b84..da6dc4c 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -389,6 +389,7 @@ void index_delete_term(Index *self, Symbol field, const char *term)
         } else {
             ensure_writer_open(self);
             iw_delete_term(self->iw, field, term);
+            AUTOFLUSH_IW(self);
         }
     }
     mutex_unlock(&self->mutex);
-- 
2.43.0


From 23a8df5ca5b00b8b9a3f9248315915d05275b053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:49 +0000
Subject: [PATCH 100/139] fix: reading a document number out of range left the
 reader locked or crashed

---
 c/src/index.c | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index d730d68..25c3b21 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4484,9 +4484,17 @@ static int sr_max_doc(IndexReader *ir)
     return SR(ir)->fr->size;
 }
 
+static void ir_check_doc_num(IndexReader *ir, int doc_num)
+{
+    if (doc_num < 0 || doc_num >= ir->max_doc(ir)) {
+        RAISE(ARG_ERROR, "Document number %d is out of range", doc_num);
+    }
+}
+
 static Document *sr_get_doc(IndexReader *ir, int doc_num)
 {
     Document *doc;
+    ir_check_doc_num(ir, doc_num);
     mutex_lock(&ir->mutex);
     if (sr_is_deleted_i(SR(ir), doc_num)) {
         mutex_unlock(&ir->mutex);
@@ -4500,6 +4508,7 @@ static Document *sr_get_doc(IndexReader *ir, int doc_num)
 static LazyDoc *sr_get_lazy_doc(IndexReader *ir, int doc_num)
 {
     LazyDoc *lazy_doc;
+    ir_check_doc_num(ir, doc_num);
     mutex_lock(&ir->mutex);
     if (sr_is_deleted_i(SR(ir), doc_num)) {
         mutex_unlock(&ir->mutex);
@@ -4764,14 +4773,20 @@ static int mr_max_doc(IndexReader *ir)
 
 static Document *mr_get_doc(IndexReader *ir, int doc_num)
 {
-    GET_READER();
-    return reader->get_doc(reader, doc_num - MR(ir)->starts[i]);
+    ir_check_doc_num(ir, doc_num);
+    {
+        GET_READER();
+        return reader->get_doc(reader, doc_num - MR(ir)->starts[i]);
+    }
 }
 
 static LazyDoc *mr_get_lazy_doc(IndexReader *ir, int doc_num)
 {
-    GET_READER();
-    return reader->get_lazy_doc(reader, doc_num - MR(ir)->starts[i]);
+    ir_check_doc_num(ir, doc_num);
+    {
+        GET_READER();
+        return reader->get_lazy_doc(reader, doc_num - MR(ir)->starts[i]);
+    }
 }
 
 int mr_get_field_num(MultiReader *mr, int ir_num, int f_num)
-- 
2.43.0


From e0ffbb87b9aa8e79fde328a05873efe0c8d5ab21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:59 +0000
Subject: [PATCH 101/139] fix: an error inside an operation of the C index
 object left it locked forever

---
 c/src/ind.c | 77 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 44 insertions(+), 33 deletions(-)

diff --git a/c/src/ind.c b/c/src/ind.c
index da6dc4c..313801a 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -156,34 +156,37 @@ int index_size(Index *self)
 {
     int size;
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_reader_open(self);
         size = self->ir->num_docs(self->ir);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return size;
 }
 
 void index_optimize(Index *self)
 {
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_writer_open(self);
         iw_optimize(self->iw);
         AUTOFLUSH_IW(self);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 bool index_has_del(Index *self)
 {
     bool has_del;
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_reader_open(self);
         has_del = self->ir->has_deletions(self->ir);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return has_del;
 }
 
@@ -191,11 +194,12 @@ bool index_is_deleted(Index *self, int doc_num)
 {
     bool is_del;
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_reader_open(self);
         is_del = self->ir->is_deleted(self->ir, doc_num);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return is_del;
 }
 
@@ -250,10 +254,11 @@ static INLINE void index_add_doc_i(Index *self, Document *doc)
 void index_add_doc(Index *self, Document *doc)
 {
     mutex_lock(&self->mutex);
-    {
+    TRY
         index_add_doc_i(self, doc);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 void index_add_string(Index *self, char *str)
@@ -316,10 +321,11 @@ Document *index_get_doc_ts(Index *self, int doc_num)
 {
     Document *doc;
     mutex_lock(&self->mutex);
-    {
+    TRY
         doc = index_get_doc(self, doc_num);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return doc;
 }
 
@@ -342,15 +348,16 @@ Document *index_get_doc_term(Index *self, Symbol field,
     Document *doc = NULL;
     TermDocEnum *tde;
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_reader_open(self);
         tde = ir_term_docs_for(self->ir, field, term);
         if (tde->next(tde)) {
             doc = index_get_doc(self, tde->doc_num(tde));
         }
         tde->close(tde);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return doc;
 }
 
@@ -362,19 +369,20 @@ Document *index_get_doc_id(Index *self, const char *id)
 void index_delete(Index *self, int doc_num)
 {
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_reader_open(self);
         ir_delete_doc(self->ir, doc_num);
         AUTOFLUSH_IR(self);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 void index_delete_term(Index *self, Symbol field, const char *term)
 {
     TermDocEnum *tde;
     mutex_lock(&self->mutex);
-    {
+    TRY
         if (self->ir) {
             ensure_reader_open(self);
             tde = ir_term_docs_for(self->ir, field, term);
@@ -391,8 +399,9 @@ void index_delete_term(Index *self, Symbol field, const char *term)
             iw_delete_term(self->iw, field, term);
             AUTOFLUSH_IW(self);
         }
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 void index_delete_id(Index *self, const char *id)
@@ -410,12 +419,13 @@ void index_delete_query(Index *self, Query *q, Filter *f,
                         PostFilter *post_filter)
 {
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_searcher_open(self);
         searcher_search_each(self->sea, q, f, post_filter, &index_qdel_i, 0);
         AUTOFLUSH_IR(self);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
 }
 
 void index_delete_query_str(Index *self, char *qstr, Filter *f,
@@ -430,10 +440,11 @@ Explanation *index_explain(Index *self, Query *q, int doc_num)
 {
     Explanation *expl;
     mutex_lock(&self->mutex);
-    {
+    TRY
         ensure_searcher_open(self);
         expl = searcher_explain(self->sea, q, doc_num);
-    }
-    mutex_unlock(&self->mutex);
+    XFINALLY
+        mutex_unlock(&self->mutex);
+    XENDTRY
     return expl;
 }
-- 
2.43.0


From 65a2d3dd32131c5ac47ba8896b24b9f96f920014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:59 +0000
Subject: [PATCH 102/139] fix: refusing a key that is not unique leaked the
 query

---
 c/src/ind.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c/src/ind.c b/c/src/ind.c
index 313801a..e5d5d3c 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -232,6 +232,7 @@ static INLINE void index_del_doc_with_key_i(Index *self, Document *doc,
     }
     td = searcher_search(self->sea, q, 0, 1, NULL, NULL, NULL);
     if (td->total_hits > 1) {
+        q_deref(q);
         td_destroy(td);
         RAISE(ARG_ERROR, "%s", NON_UNIQUE_KEY_ERROR_MSG);
     } else if (td->total_hits == 1) {
-- 
2.43.0


From 9969658decf7ec6990d96d0b76a511777218d80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:31 +0000
Subject: [PATCH 103/139] fix: a reader of an empty index claimed to be the
 latest forever

---
 c/src/index.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 25c3b21..86a771a 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4962,6 +4962,10 @@ static bool mr_is_latest_i(IndexReader *ir)
 {
     int i;
     const int mr_reader_cnt = MR(ir)->r_cnt;
+    if (0 == mr_reader_cnt && ir->sis) {
+        /* an index without segments, so there is no sub-reader to ask */
+        return (sis_read_current_version(ir->store) == ir->sis->version);
+    }
     for (i = 0; i < mr_reader_cnt; i++) {
         if (!ir_is_latest(MR(ir)->sub_readers[i])) {
             return false;
-- 
2.43.0


From 1d04052b9c1271cf68c6ffb52e89eea56365a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:09 +0000
Subject: [PATCH 104/139] fix: a FINALLY block was skipped when its error was
 not handled

---
 c/include/except.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/include/except.h b/c/include/except.h
index ad50cc8..ac26f2a 100644
--- a/c/include/except.h
+++ b/c/include/except.h
@@ -127,10 +127,10 @@ typedef struct frt_xcontext_t
 #define FRT_ENDTRY\
     }\
     if (!xcontext.in_finally) {\
-      frt_xpop_context();\
       xcontext.in_finally = 1;\
       longjmp(xcontext.jbuf, FRT_FINALLY);\
     }\
+    frt_xpop_context();\
   } while (0);
 
 #define FRT_RETURN_EARLY() frt_xpop_context()
-- 
2.43.0


From fd40448e157156585d7e84c9b6ec49ae77a42a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:09 +0000
Subject: [PATCH 105/139] fix: an error leaving a try block within a finally
 block ran that block again

---
 c/src/except.c | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/c/src/except.c b/c/src/except.c
index 4f47613..10638db 100644
--- a/c/src/except.c
+++ b/c/src/except.c
@@ -86,17 +86,11 @@ void xraise(int excode, const char *const msg)
 
 void xpop_context()
 {
-    xcontext_t *top_cxt, *context;
+    xcontext_t *top_cxt;
     thread_once(&exception_stack_key_once, *exception_stack_alloc);
     top_cxt = (xcontext_t *)thread_getspecific(exception_stack_key);
-    context = top_cxt->next;
-    thread_setspecific(exception_stack_key, context);
+    thread_setspecific(exception_stack_key, top_cxt->next);
     if (!top_cxt->handled) {
-        if (context) {
-            xraise_context(context, top_cxt->excode, top_cxt->msg);
-        }
-        else {
-            XEXIT(ERROR_TYPES[top_cxt->excode], top_cxt->msg);
-        }
+        xraise(top_cxt->excode, top_cxt->msg);
     }
 }
-- 
2.43.0


From c5e1447e3dcf468ddf84b575d26e52b92897cdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:09 +0000
Subject: [PATCH 106/139] fix: a later error replaced the message of a pending
 one

---
 c/include/except.h   |  5 +++--
 c/src/except.c       | 23 ++++++++++++++---------
 ruby/ext/r_qparser.c | 10 +++++-----
 3 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/c/include/except.h b/c/include/except.h
index ac26f2a..7c11d45 100644
--- a/c/include/except.h
+++ b/c/include/except.h
@@ -101,11 +101,14 @@ extern "C" {
 extern const char *const FRT_UNSUPPORTED_ERROR_MSG;
 extern const char *const FRT_EOF_ERROR_MSG;
 
+#define FRT_XMSG_BUFFER_SIZE 2048
+
 typedef struct frt_xcontext_t
 {
     jmp_buf jbuf;
     struct frt_xcontext_t *next;
     const char *msg;
+    char msg_buf[FRT_XMSG_BUFFER_SIZE]; /* msg is only valid within the block */
     volatile int excode;
     unsigned int handled : 1;
     unsigned int in_finally : 1;
@@ -142,8 +145,6 @@ typedef struct frt_xcontext_t
 
 #define FRT_HANDLED() xcontext.handled = 1; /* true */
 
-#define FRT_XMSG_BUFFER_SIZE 2048
-
 #ifdef FRT_HAS_ISO_VARARGS
 # define FRT_RAISE(excode, ...) do {\
   snprintf(frt_xmsg_buffer, FRT_XMSG_BUFFER_SIZE, __VA_ARGS__);\
diff --git a/c/src/except.c b/c/src/except.c
index 10638db..851167d 100644
--- a/c/src/except.c
+++ b/c/src/except.c
@@ -1,4 +1,5 @@
 #include <stdarg.h>
+#include <string.h>
 #include "global.h"
 #include "except.h"
 #include "threading.h"
@@ -44,14 +45,19 @@ void xpush_context(xcontext_t *context)
     context->in_finally = false;
 }
 
-static INLINE void xraise_context(xcontext_t *context,
-                                    volatile int excode,
-                                    const char *const msg)
+/* Keep a copy of the message as the buffers it was written to are used by the
+ * errors that are raised while this one is pending. */
+static void xset_context(xcontext_t *context, int excode, const char *msg)
 {
-    context->msg = msg;
+    size_t len = strlen(msg);
+    if (len >= XMSG_BUFFER_SIZE) {
+        len = XMSG_BUFFER_SIZE - 1;
+    }
+    memmove(context->msg_buf, msg, len);
+    context->msg_buf[len] = '\0';
+    context->msg = context->msg_buf;
     context->excode = excode;
     context->handled = false;
-    longjmp(context->jbuf, excode);
 }
 
 #ifndef FRT_HAS_VARARGS
@@ -75,12 +81,11 @@ void xraise(int excode, const char *const msg)
         XEXIT(ERROR_TYPES[excode], msg);
     }
     else if (!top_context->in_finally) {
-        xraise_context(top_context, excode, msg);
+        xset_context(top_context, excode, msg);
+        longjmp(top_context->jbuf, excode);
     }
     else if (top_context->handled) {
-        top_context->msg = msg;
-        top_context->excode = excode;
-        top_context->handled = false;
+        xset_context(top_context, excode, msg);
     }
 }
 
diff --git a/ruby/ext/r_qparser.c b/ruby/ext/r_qparser.c
index 8122057..736c1dc 100644
--- a/ruby/ext/r_qparser.c
+++ b/ruby/ext/r_qparser.c
@@ -251,20 +251,20 @@ frb_qp_init(int argc, VALUE *argv, VALUE self)
 static VALUE
 frb_qp_parse(VALUE self, VALUE rstr)
 {
-    const char *volatile msg = NULL;
-    volatile VALUE rq;
+    volatile VALUE msg = Qnil;
+    volatile VALUE rq = Qnil;
     GET_QP;
     rstr = rb_obj_as_string(rstr);
     TRY
         rq = frb_get_q(qp_parse(qp, rs2s(rstr)));
         break;
     default:
-        msg = xcontext.msg;
+        msg = rb_str_new2(xcontext.msg);
         HANDLED();
     XENDTRY
 
-    if (msg) {
-        rb_raise(cQueryParseException, "%s", msg);
+    if (msg != Qnil) {
+        rb_raise(cQueryParseException, "%s", rs2s(msg));
     }
 
     return rq;
-- 
2.43.0


From 24e43d54ae8b6f384d8e49de65b0945cb6d3de94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:09 +0000
Subject: [PATCH 107/139] fix: errors raised at the same time in two threads
 shared one message buffer

---
 c/include/except.h | 10 ++++++++--
 c/src/except.c     |  4 ++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/c/include/except.h b/c/include/except.h
index 7c11d45..0b95e38 100644
--- a/c/include/except.h
+++ b/c/include/except.h
@@ -103,6 +103,12 @@ extern const char *const FRT_EOF_ERROR_MSG;
 
 #define FRT_XMSG_BUFFER_SIZE 2048
 
+#if defined(__GNUC__)
+# define FRT_THREAD_LOCAL __thread
+#else
+# define FRT_THREAD_LOCAL
+#endif
+
 typedef struct frt_xcontext_t
 {
     jmp_buf jbuf;
@@ -172,8 +178,8 @@ extern void frt_xraise(int excode, const char *const msg);
 extern void frt_xpush_context(frt_xcontext_t *context);
 extern void frt_xpop_context();
 
-extern char frt_xmsg_buffer[FRT_XMSG_BUFFER_SIZE];
-extern char frt_xmsg_buffer_final[FRT_XMSG_BUFFER_SIZE];
+extern FRT_THREAD_LOCAL char frt_xmsg_buffer[FRT_XMSG_BUFFER_SIZE];
+extern FRT_THREAD_LOCAL char frt_xmsg_buffer_final[FRT_XMSG_BUFFER_SIZE];
 
 #ifdef __cplusplus
 } // extern "C"
diff --git a/c/src/except.c b/c/src/except.c
index 851167d..6884fd1 100644
--- a/c/src/except.c
+++ b/c/src/except.c
@@ -23,8 +23,8 @@ static const char *const ERROR_TYPES[] = {
 
 const char *const UNSUPPORTED_ERROR_MSG = "Unsupported operation";
 const char *const EOF_ERROR_MSG = "Read past end of file";
-char xmsg_buffer[XMSG_BUFFER_SIZE];
-char xmsg_buffer_final[XMSG_BUFFER_SIZE];
+FRT_THREAD_LOCAL char xmsg_buffer[XMSG_BUFFER_SIZE];
+FRT_THREAD_LOCAL char xmsg_buffer_final[XMSG_BUFFER_SIZE];
 
 static thread_key_t exception_stack_key;
 static thread_once_t exception_stack_key_once = THREAD_ONCE_INIT;
-- 
2.43.0


From 1c6d2082d5f20c4b05d1d3e1cb0007f4513e935d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:48 +0000
Subject: [PATCH 108/139] fix: compacting an empty match vector made up a match

---
 c/src/search.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c/src/search.c b/c/src/search.c
index 1688033..4f00cbf 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -554,6 +554,9 @@ MatchVector *matchv_sort(MatchVector *self)
 MatchVector *matchv_compact(MatchVector *self)
 {
     int left, right;
+    if (self->size == 0) {
+        return self;
+    }
     matchv_sort(self);
     for (right = left = 0; right < self->size; right++) {
         /* Note the end + 1. This compacts a range 3:5 and 6:8 inleft 3:8 */
@@ -577,6 +580,9 @@ MatchVector *matchv_compact(MatchVector *self)
 MatchVector *matchv_compact_with_breaks(MatchVector *self)
 {
     int left, right;
+    if (self->size == 0) {
+        return self;
+    }
     matchv_sort(self);
     for (right = left = 0; right < self->size; right++) {
         /* Note: no end + 1. Unlike above won't compact ranges 3:5 and 6:8 */
-- 
2.43.0


From ad9d2516cd399a31ba3bc80d49c5378f87ad41ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:48 +0000
Subject: [PATCH 109/139] fix: highlighting a match longer than the excerpt
 read outside the match vector

---
 c/src/search.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 4f00cbf..15736f1 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -886,8 +886,15 @@ char **searcher_highlight(Searcher *self,
                     running_score = 0.0;
                     e_end = e_start;
                 }
-                while (e_end < mv->size && (matches[e_end].end_offset
-                                             <= start_offset + excerpt_len)) {
+                if (matches[e_start].end_offset - start_offset > excerpt_len) {
+                    /* only use a match which doesn't fit in if there is
+                     * nothing else left */
+                    pq_push(excerpt_pq, excerpt_new(e_start, e_start, 0.1));
+                    continue;
+                }
+                while (e_end < mv->size
+                       && (matches[e_end].end_offset - start_offset
+                           <= excerpt_len)) {
                     running_score += matches[e_end].score;
                     e_end++;
                 }
-- 
2.43.0


From 81972a26c907181fa5c68ebd148e6f632a9d95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:48 +0000
Subject: [PATCH 110/139] fix: the total excerpt length overflowed so that long
 excerpts hid the field

---
 c/src/search.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 15736f1..68fbf55 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -862,7 +862,7 @@ char **searcher_highlight(Searcher *self,
         query = self->rewrite(self, query);
         mv = query->get_matchv_i(query, matchv_new(), tv);
         q_deref(query);
-        if (lazy_df->len < (excerpt_len * num_excerpts)) {
+        if (lazy_df->len < ((i64)excerpt_len * num_excerpts)) {
             excerpt_strs = ary_new_type_capa(char *, 1);
             ary_push(excerpt_strs,
                      highlight_field(mv, lazy_df, tv, pre_tag, post_tag));
@@ -950,7 +950,7 @@ char **searcher_highlight(Searcher *self,
                 for (j = i + 1; j < num_excerpts; j++) {
                     Excerpt *ej = excerpts[j];
                     if ((ej->end_offset - ei->start_offset)
-                        < (j - i + 1) * excerpt_len) {
+                        < (i64)(j - i + 1) * excerpt_len) {
                         ei->end = ej->end;
                         ei->end_pos = ej->end_pos;
                         ei->end_offset = ej->end_offset;
-- 
2.43.0


From a60eef9a505ce7f0268d2c16b77e038418312dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:48 +0000
Subject: [PATCH 111/139] fix: match vectors lacked the matches of rewritten
 clauses

---
 c/src/search.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/c/src/search.c b/c/src/search.c
index 68fbf55..1b69788 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -633,18 +633,15 @@ MatchVector *searcher_get_match_vector(Searcher *self,
                                        Symbol field)
 {
     MatchVector *mv = matchv_new();
-    bool rewrite = query->get_matchv_i == q_get_matchv_i;
     TermVector *tv = self->get_term_vector(self, doc_num, field);
-    if (rewrite) {
-        query = self->rewrite(self, query);
-    }
+    query = self->rewrite(self, query);
     if (tv && tv->term_cnt > 0 && tv->terms[0].positions != NULL) {
         mv = query->get_matchv_i(query, mv, tv);
-        tv_destroy(tv);
     }
-    if (rewrite) {
-        q_deref(query);
+    if (tv) {
+        tv_destroy(tv);
     }
+    q_deref(query);
     return mv;
 }
 
-- 
2.43.0


From 34c471f9e6ae6fd3643df7ba8ace5f619ac48616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:49 +0000
Subject: [PATCH 112/139] fix: highlighting a phrase without words read outside
 its positions

---
 c/src/q_phrase.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index f8988b9..923dca7 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -840,7 +840,7 @@ static TVPosEnum *get_tvpe(TermVector *tv, char **terms, int t_cnt, int offset)
 static MatchVector *phq_get_matchv_i(Query *self, MatchVector *mv,
                                      TermVector *tv)
 {
-    if (tv->field == PhQ(self)->field) {
+    if (tv->field == PhQ(self)->field && PhQ(self)->pos_cnt > 0) {
         const int pos_cnt = PhQ(self)->pos_cnt;
         int i;
         int slop = PhQ(self)->slop;
-- 
2.43.0


From 25aee8828506a2ff7594a269bcd0c2c39879567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:49 +0000
Subject: [PATCH 113/139] fix: highlighting a phrase changed the order of its
 words

---
 c/src/q_phrase.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c/src/q_phrase.c b/c/src/q_phrase.c
index 923dca7..41a5594 100644
--- a/c/src/q_phrase.c
+++ b/c/src/q_phrase.c
@@ -901,11 +901,15 @@ static MatchVector *phq_get_matchv_i(Query *self, MatchVector *mv,
             TVPosEnum **tvpe_a = ALLOC_AND_ZERO_N(TVPosEnum *, pos_cnt);
             TVPosEnum *first, *last;
             int first_index = 0;
+            /* sort a copy as the query belongs to the caller */
+            PhrasePosition *positions = ALLOC_N(PhrasePosition, pos_cnt);
+            memcpy(positions, PhQ(self)->positions,
+                   sizeof(PhrasePosition) * pos_cnt);
             done = false;
-            qsort(PhQ(self)->positions, pos_cnt, sizeof(PhrasePosition),
+            qsort(positions, pos_cnt, sizeof(PhrasePosition),
                   &phrase_pos_cmp);
             for (i = 0; i < pos_cnt; i++) {
-                PhrasePosition *pp = &(PhQ(self)->positions[i]);
+                PhrasePosition *pp = &positions[i];
                 const int t_cnt = ary_size(pp->terms);
                 TVPosEnum *tvpe = get_tvpe(tv, pp->terms, t_cnt, pp->pos);
                 if (tvpe && ((i == 0 && tvpe_next(tvpe))
@@ -946,6 +950,7 @@ static MatchVector *phq_get_matchv_i(Query *self, MatchVector *mv,
                 free(tvpe_a[i]);
             }
             free(tvpe_a);
+            free(positions);
         }
     }
     return mv;
-- 
2.43.0


From 05df81efa22837c19cc26668df395d0aadaeb25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:49 +0000
Subject: [PATCH 114/139] fix: highlighting a span query read the positions of
 a word which is not in the field

---
 c/src/q_span.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 05fb4fb..933e13e 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -107,9 +107,8 @@ static bool tv_tde_next(TermDocEnum *tde)
 
 static bool tv_tde_skip_to(TermDocEnum *tde, int doc_num)
 {
-    if (doc_num == 0) {
-        TV_TDE(tde)->doc = 0;
-        return true;
+    if (doc_num <= 0) {
+        return tv_tde_next(tde);
     }
     else {
         TV_TDE(tde)->doc = INT_MAX;
-- 
2.43.0


From 81400e458810cea716b39681d7b6a6fb7d019609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:49 +0000
Subject: [PATCH 115/139] fix: highlighting a multi-term span query read beyond
 the positions of a word

---
 c/src/q_span.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/c/src/q_span.c b/c/src/q_span.c
index 933e13e..eb46b18 100644
--- a/c/src/q_span.c
+++ b/c/src/q_span.c
@@ -118,7 +118,10 @@ static bool tv_tde_skip_to(TermDocEnum *tde, int doc_num)
 
 static int tv_tde_next_position(TermDocEnum *tde)
 {
-    return TV_TDE(tde)->positions[TV_TDE(tde)->index++];
+    TVTermDocEnum *tv_tde = TV_TDE(tde);
+    return (tv_tde->index < tv_tde->freq)
+        ? tv_tde->positions[tv_tde->index++]
+        : -1;
 }
 
 static int tv_tde_freq(TermDocEnum *tde)
-- 
2.43.0


From 773adb19046a641c8003312fc842e0ede24cc8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:49 +0000
Subject: [PATCH 116/139] fix: an excerpt near the end of the field showed
 matches without highlighting them

---
 c/src/search.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c/src/search.c b/c/src/search.c
index 1b69788..6edd7fd 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -771,7 +771,8 @@ static char *excerpt_get_str(Excerpt *e, MatchVector *mv,
         e_ptr += post_tag_len;
         last_offset = mr->end_offset;
     }
-    if ((lazy_df->len - e->end_offset) <= ellipsis_len) {
+    if (e->end == mv->size - 1
+        && (lazy_df->len - e->end_offset) <= ellipsis_len) {
         /* no point using ellipsis if it takes up more space */
         e->end_offset = lazy_df->len;
     }
-- 
2.43.0


From bab57708ec345090f9b7240af7b0ca9d9f45e6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:49 +0000
Subject: [PATCH 117/139] fix: matches which a merged excerpt grew over were
 not highlighted

---
 c/src/search.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/c/src/search.c b/c/src/search.c
index 6edd7fd..5e9ce05 100644
--- a/c/src/search.c
+++ b/c/src/search.c
@@ -956,6 +956,16 @@ char **searcher_highlight(Searcher *self,
                     }
                 }
                 excerpt_expand(ei, merged * excerpt_len, tv);
+                /* the excerpt may have grown over further matches */
+                while (ei->start > 0 && (matches[ei->start - 1].start_offset
+                                         >= ei->start_offset)) {
+                    ei->start--;
+                }
+                while (ei->end < mv->size - 1
+                       && (matches[ei->end + 1].end_offset
+                           <= ei->end_offset)) {
+                    ei->end++;
+                }
                 ary_push(excerpt_strs,
                          excerpt_get_str(ei, mv, lazy_df,
                                          pre_tag, post_tag, ellipsis));
-- 
2.43.0


From 573dcb4d250803d3e16d398ce4176fe60057bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:11 +0000
Subject: [PATCH 118/139] fix: Integer#to_s_pad padded with spaces instead of
 zeros

---
 ruby/lib/ferret/number_tools.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/lib/ferret/number_tools.rb b/ruby/lib/ferret/number_tools.rb
index d5313ae..9cf5c82 100644
--- a/ruby/lib/ferret/number_tools.rb
+++ b/ruby/lib/ferret/number_tools.rb
@@ -46,7 +46,7 @@ class Integer
   #          123.to_s_pad(5) => 00123 and -123.to_s_pad(5) => -0123
   # return:: padding string representation of the number.
   def to_s_pad(width = 10)
-    "%#{width}d" % self
+    "%0#{width}d" % self
   end
 end
 
-- 
2.43.0


From 5d86eb8d0553f0449a66ef0b26c43750f587c0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:11 +0000
Subject: [PATCH 119/139] fix: String#to_date_lex moved years to February and
 months to their second day

---
 ruby/lib/ferret/number_tools.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/lib/ferret/number_tools.rb b/ruby/lib/ferret/number_tools.rb
index 9cf5c82..7fdd1a4 100644
--- a/ruby/lib/ferret/number_tools.rb
+++ b/ruby/lib/ferret/number_tools.rb
@@ -120,7 +120,7 @@ class String
   # Convert a string to a Date. This method will only work on strings that
   # match the format %Y%m%d %H%M%S, otherwise the result will be unpredictable.
   def to_date_lex
-    return Date.strptime(self + "-02-01", "%Y-%m-%d")
+    return Date.strptime(self + "-01-01", "%Y-%m-%d")
   end
 
   # Convert a string to a DateTime. This method will only work on strings that
-- 
2.43.0


From 5e40c74071635ff3fbea6b2d07e4faf554372c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:11 +0000
Subject: [PATCH 120/139] fix: String#to_date_time_lex failed on every
 precision but seconds

---
 ruby/lib/ferret/number_tools.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/lib/ferret/number_tools.rb b/ruby/lib/ferret/number_tools.rb
index 7fdd1a4..3d40b76 100644
--- a/ruby/lib/ferret/number_tools.rb
+++ b/ruby/lib/ferret/number_tools.rb
@@ -126,7 +126,7 @@ class String
   # Convert a string to a DateTime. This method will only work on strings that
   # match the format %Y%m%d %H%M%S, otherwise the result will be unpredictable.
   def to_date_time_lex
-    return DateTime.strptime(self + "-01-01", "%Y-%m-%d %H:%M:%S")
+    return DateTime.civil(*self.scan(/\d+/).map {|val| val.to_i})
   end
 
   private
-- 
2.43.0


From 32e39eda3b560a194fec50522d33e4c69766f698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:10 +0000
Subject: [PATCH 121/139] fix: Index#to_s showed neither fields nor the
 documents after a deleted one

---
 ruby/lib/ferret/index.rb | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index b36bafa..2616536 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -807,9 +807,7 @@ module Ferret::Index
 
     def to_s
       buf = ""
-      (0...(size)).each do |i|
-        buf << self[i].to_s + "\n" if not deleted?(i)
-      end
+      each {|doc| buf << doc.to_s + "\n"}
       buf
     end
 
-- 
2.43.0


From c76c0e4cf4767cc25ce8ed588fb614881cfd747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:14 +0000
Subject: [PATCH 122/139] fix: Index went on using a closed searcher after its
 reader was renewed

---
 ruby/lib/ferret/index.rb | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index 2616536..6a80574 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -872,6 +872,7 @@ module Ferret::Index
             end
             if not latest
               @searcher.close if @searcher
+              @searcher = nil
               @reader.close
               return @reader = IndexReader.new(@dir)
             end
-- 
2.43.0


From 77da38a82991b75ca52950381a3e0b571cf684ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:14 +0000
Subject: [PATCH 123/139] fix: Index#update by id failed with auto_flush as the
 delete closed the writer

---
 ruby/lib/ferret/index.rb | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index 6a80574..122b316 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -570,10 +570,9 @@ module Ferret::Index
       @dir.synchronize do
         ensure_writer_open()
         delete(id)
+        ensure_writer_open()
         if id.is_a?(String) or id.is_a?(Symbol)
           @writer.commit
-        else
-          ensure_writer_open()
         end
         @writer << new_doc
         flush() if @auto_flush
-- 
2.43.0


From ba84d1b10be3f3b6edf75787c4b819e66dd66223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:14 +0000
Subject: [PATCH 124/139] fix: Index#batch_update accepted documents without an
 id

---
 ruby/lib/ferret/index.rb | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index 122b316..ea2a1a3 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -627,11 +627,12 @@ module Ferret::Index
         ids = nil
         case docs
         when Array
-          ids = docs.collect{|doc| doc[@id_field].to_s}
+          ids = docs.collect{|doc| doc[@id_field]}
           if ids.include?(nil)
             raise ArgumentError, "all documents must have an #{@id_field} " 
                                  "field when doing a batch update"
           end
+          ids = ids.collect{|id| id.to_s}
         when Hash
           ids = docs.keys
           docs = docs.values
-- 
2.43.0


From 7239ce12db4b6cb819f6bb141b8dbab2e15b0ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:14 +0000
Subject: [PATCH 125/139] fix: deleting a batch with an id of a wrong type
 failed with a NameError

---
 ruby/lib/ferret/index.rb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ruby/lib/ferret/index.rb b/ruby/lib/ferret/index.rb
index ea2a1a3..5d7df76 100644
--- a/ruby/lib/ferret/index.rb
+++ b/ruby/lib/ferret/index.rb
@@ -950,7 +950,7 @@ module Ferret::Index
           when Symbol then  terms << doc.to_s
           when Integer then ids   << doc
           else
-            raise ArgumentError, "Cannot delete for arg of type #{id.class}"
+            raise ArgumentError, "Cannot delete for arg of type #{doc.class}"
           end
         end
         if ids.size > 0
-- 
2.43.0


From fc913f24ad8a79a3ad81beab94c8851ca97d1a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:36 +0000
Subject: [PATCH 126/139] fix: threads took the same hash table from the list
 of free ones

---
 c/src/hash.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/c/src/hash.c b/c/src/hash.c
index c383cb4..ef62db0 100644
--- a/c/src/hash.c
+++ b/c/src/hash.c
@@ -1,5 +1,6 @@
 #include "hash.h"
 #include "global.h"
+#include "threading.h"
 #include <string.h>
 #include "internal.h"
 
@@ -22,6 +23,9 @@ static char dummy_int_key[] = "i";
 
 static Hash *free_hts[MAX_FREE_HASH_TABLES];
 static int num_free_hts = 0;
+#ifndef UNTHREADED
+static mutex_t free_hts_mutex = MUTEX_INITIALIZER;
+#endif
 
 unsigned long str_hash(const char *const str)
 {
@@ -167,11 +171,13 @@ HashEntry *h_lookup(Hash *self, register const void *key)
 
 Hash *h_new_str(free_ft free_key, free_ft free_value)
 {
-    Hash *self;
+    Hash *self = NULL;
+    mutex_lock(&free_hts_mutex);
     if (num_free_hts > 0) {
         self = free_hts[--num_free_hts];
     }
-    else {
+    mutex_unlock(&free_hts_mutex);
+    if (self == NULL) {
         self = ALLOC(Hash);
     }
     self->fill = 0;
@@ -244,12 +250,13 @@ void h_destroy(Hash *self)
             free(self->table);
         }
 
+        mutex_lock(&free_hts_mutex);
         if (num_free_hts < MAX_FREE_HASH_TABLES) {
             free_hts[num_free_hts++] = self;
+            self = NULL;
         }
-        else {
-            free(self);
-        }
+        mutex_unlock(&free_hts_mutex);
+        free(self);
     }
 }
 
-- 
2.43.0


From d6e9669d8a77cdac2a9685d8df69c43010f4f0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:36 +0000
Subject: [PATCH 127/139] fix: threads corrupted the symbol table when
 interning at once

---
 c/src/symbol.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/c/src/symbol.c b/c/src/symbol.c
index a81f4a0..927f6cc 100644
--- a/c/src/symbol.c
+++ b/c/src/symbol.c
@@ -1,8 +1,12 @@
 #include "symbol.h"
 #include "hash.h"
+#include "threading.h"
 #include "internal.h"
 
 static Hash *symbol_table = NULL;
+#ifndef UNTHREADED
+static mutex_t symbol_table_mutex = MUTEX_INITIALIZER;
+#endif
 
 
 void symbol_init()
@@ -13,17 +17,22 @@ void symbol_init()
 
 Symbol intern(const char *str)
 {
-    Symbol symbol = (Symbol)h_get(symbol_table, str);
+    Symbol symbol;
+    mutex_lock(&symbol_table_mutex);
+    symbol = (Symbol)h_get(symbol_table, str);
     if (!symbol) {
         symbol = (Symbol)estrdup(str);
         h_set(symbol_table, (void *)symbol, (void *)symbol);
     }
+    mutex_unlock(&symbol_table_mutex);
     return symbol;
 }
 
 Symbol intern_and_free(char *str)
 {
-    Symbol symbol = (Symbol)h_get(symbol_table, str);
+    Symbol symbol;
+    mutex_lock(&symbol_table_mutex);
+    symbol = (Symbol)h_get(symbol_table, str);
     if (!symbol) {
         symbol = (Symbol)str;
         h_set(symbol_table, str, str);
@@ -31,5 +40,6 @@ Symbol intern_and_free(char *str)
     else {
         free(str);
     }
+    mutex_unlock(&symbol_table_mutex);
     return symbol;
 }
-- 
2.43.0


From 3573c2ee029c91cfc16ddb8155b67a99f60ac26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:36 +0000
Subject: [PATCH 128/139] fix: threads miscounted the streams which share a
 file

---
 c/src/store.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/c/src/store.c b/c/src/store.c
index f79ac44..53f0930 100644
--- a/c/src/store.c
+++ b/c/src/store.c
@@ -287,9 +287,18 @@ void is_seek(InStream *is, off_t pos)
     }
 }
 
+/* the streams which share a file are cloned and closed by several threads */
+#ifndef UNTHREADED
+static mutex_t is_ref_mutex = MUTEX_INITIALIZER;
+#endif
+
 void is_close(InStream *is)
 {
-    if (--(*(is->ref_cnt_ptr)) < 0) {
+    int ref_cnt;
+    mutex_lock(&is_ref_mutex);
+    ref_cnt = --(*(is->ref_cnt_ptr));
+    mutex_unlock(&is_ref_mutex);
+    if (ref_cnt < 0) {
         is->m->close_i(is);
         free(is->ref_cnt_ptr);
     }
@@ -300,7 +309,9 @@ InStream *is_clone(InStream *is)
 {
     InStream *new_index_i = ALLOC(InStream);
     memcpy(new_index_i, is, sizeof(InStream));
+    mutex_lock(&is_ref_mutex);
     (*(new_index_i->ref_cnt_ptr))++;
+    mutex_unlock(&is_ref_mutex);
     return new_index_i;
 }
 
-- 
2.43.0


From b5ad28c2db8b88eb08abb374b25b0fe6bed0dda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:36 +0000
Subject: [PATCH 129/139] fix: threads reading one file moved each other's
 position in it

---
 c/src/fs_store.c | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 9b2b190..844c4bd 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -278,24 +278,33 @@ static OutStream *fs_new_output(Store *store, const char *filename)
     return os;
 }
 
+/* clones share the file descriptor and with it the position in the file */
+#ifndef UNTHREADED
+static mutex_t fsi_mutex = MUTEX_INITIALIZER;
+#endif
+
 static void fsi_read_i(InStream *is, uchar *buf, int len)
 {
     int fd = is->file.fd;
-    int cnt;
+    int cnt, err;
+    off_t end;
     off_t pos = is_pos(is);
+    mutex_lock(&fsi_mutex);
     if (pos != lseek(fd, 0, SEEK_CUR)) {
         lseek(fd, pos, SEEK_SET);
     }
-    if ((cnt = (int)read(fd, buf, len)) != len) {
-        /* win: the wrong value can be returned for some reason so double check */
-        if (lseek(fd, 0, SEEK_CUR) != (pos + len)) {
-            if (cnt >= 0) {
-                RAISE(EOF_ERROR, "couldn't read %d chars at %"OFF_T_PFX"d "
-                      "from %s: end of file", len, pos, is->d.path);
-            }
-            RAISE(IO_ERROR, "couldn't read %d chars from %s: <%s>",
-                  len, is->d.path, strerror(errno));
+    cnt = (int)read(fd, buf, len);
+    err = errno;
+    /* win: the wrong value can be returned for some reason so double check */
+    end = cnt == len ? pos + len : lseek(fd, 0, SEEK_CUR);
+    mutex_unlock(&fsi_mutex);
+    if (end != pos + len) {
+        if (cnt >= 0) {
+            RAISE(EOF_ERROR, "couldn't read %d chars at %"OFF_T_PFX"d "
+                  "from %s: end of file", len, pos, is->d.path);
         }
+        RAISE(IO_ERROR, "couldn't read %d chars from %s: <%s>",
+              len, is->d.path, strerror(err));
     }
 }
 
-- 
2.43.0


From d75eac0e68290e4c97c9850f0409d0d4f4bac1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:36 +0000
Subject: [PATCH 130/139] fix: threads reading files of one compound file got
 each other's data

---
 c/include/store.h   |  1 +
 c/src/compound_io.c | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/c/include/store.h b/c/include/store.h
index 34ba0ee..d3e9832 100644
--- a/c/include/store.h
+++ b/c/include/store.h
@@ -135,6 +135,7 @@ struct FrtInStream
 struct FrtCompoundInStream
 {
     FrtInStream *sub;
+    frt_mutex_t *mutex; /* sub is shared by all files of the compound */
     off_t offset;
     off_t length;
 };
diff --git a/c/src/compound_io.c b/c/src/compound_io.c
index 10624a3..2bb1666 100644
--- a/c/src/compound_io.c
+++ b/c/src/compound_io.c
@@ -138,8 +138,13 @@ static void cmpdi_read_i(InStream *is, uchar *b, int len)
               cis->length, start + len);
     }
 
-    is_seek(cis->sub, cis->offset + start);
-    is_read_bytes(cis->sub, b, len);
+    mutex_lock(cis->mutex);
+    TRY
+        is_seek(cis->sub, cis->offset + start);
+        is_read_bytes(cis->sub, b, len);
+    XFINALLY
+        mutex_unlock(cis->mutex);
+    XENDTRY
 }
 
 static const struct InStreamMethods CMPD_IN_STREAM_METHODS = {
@@ -149,12 +154,14 @@ static const struct InStreamMethods CMPD_IN_STREAM_METHODS = {
     cmpdi_close_i
 };
 
-static InStream *cmpd_create_input(InStream *sub_is, off_t offset, off_t length)
+static InStream *cmpd_create_input(InStream *sub_is, mutex_t *mutex,
+                                   off_t offset, off_t length)
 {
     InStream *is = is_new();
     CompoundInStream *cis = ALLOC(CompoundInStream);
 
     cis->sub = sub_is;
+    cis->mutex = mutex;
     cis->offset = offset;
     cis->length = length;
     is->d.cis = cis;
@@ -182,7 +189,8 @@ static InStream *cmpd_open_input(Store *store, const char *file_name)
         RAISE(IO_ERROR, "File %s does not exist: ", file_name);
     }
 
-    is = cmpd_create_input(cmpd->stream, entry->offset, entry->length);
+    is = cmpd_create_input(cmpd->stream, &store->mutex,
+                           entry->offset, entry->length);
     mutex_unlock(&store->mutex);
 
     return is;
-- 
2.43.0


From 62b09fe3a92df207ead85b146788e68d8b29668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:36 +0000
Subject: [PATCH 131/139] fix: threads used a term index which another thread
 was still reading

---
 c/src/index.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 86a771a..0ed0367 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -2141,11 +2141,10 @@ static int sti_get_index_offset(SegmentTermIndex *sti, const char *term)
  ****************************************************************************/
 
 #define SFI_ENSURE_INDEX_IS_READ(sfi, sti) do {\
-    if (NULL == sti->index_terms) {\
-        mutex_lock(&sfi->mutex);\
-        sti_ensure_index_is_read(sti, sfi->index_te);\
-        mutex_unlock(&sfi->mutex);\
-    }\
+    /* index_terms is set before the index has been read */\
+    mutex_lock(&sfi->mutex);\
+    sti_ensure_index_is_read(sti, sfi->index_te);\
+    mutex_unlock(&sfi->mutex);\
 } while (0)
 
 SegmentFieldIndex *sfi_open(Store *store, const char *segment)
-- 
2.43.0


From 3478be1352fe6484996c06fbfa4483446357352b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:36 +0000
Subject: [PATCH 132/139] fix: threads looked terms up in the field another
 thread had chosen

---
 c/src/index.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 0ed0367..2ace2fe 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -2630,7 +2630,9 @@ static INLINE TermEnum *tir_enum(TermInfosReader *tir)
     if (NULL == (te = (TermEnum *)thread_getspecific(tir->thread_te))) {
         te = ste_clone(tir->orig_te);
         ste_set_field(te, tir->field_num);
+        mutex_lock(&STE(te)->sfi->mutex);
         ary_push(tir->te_bucket, te);
+        mutex_unlock(&STE(te)->sfi->mutex);
         thread_setspecific(tir->thread_te, te);
     }
     return te;
@@ -2638,9 +2640,10 @@ static INLINE TermEnum *tir_enum(TermInfosReader *tir)
 
 TermInfosReader *tir_set_field(TermInfosReader *tir, int field_num)
 {
-    if (field_num != tir->field_num) {
-        ste_set_field(tir_enum(tir), field_num);
-        tir->field_num = field_num;
+    TermEnum *te = tir_enum(tir);
+    /* each thread has its own current field */
+    if (field_num != te->field_num) {
+        ste_set_field(te, field_num);
     }
     return tir;
 }
@@ -2663,9 +2666,8 @@ static TermInfo *tir_get_ti_field(TermInfosReader *tir, int field_num,
     TermEnum *te = tir_enum(tir);
     char *match;
 
-    if (field_num != tir->field_num) {
+    if (field_num != te->field_num) {
         ste_set_field(te, field_num);
-        tir->field_num = field_num;
     }
 
     if (NULL != (match = ste_scan_to(te, term))
-- 
2.43.0


From ef85798155ebff8b9e286e7f2ba49c66a8b322a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:36 +0000
Subject: [PATCH 133/139] fix: threads copied the stored fields reader while
 another one used it

---
 c/src/index.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 2ace2fe..453888e 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4283,8 +4283,10 @@ static INLINE FieldsReader *sr_fr(SegmentReader *sr)
     FieldsReader *fr;
 
     if (NULL == (fr = (FieldsReader *)thread_getspecific(sr->thread_fr))) {
+        mutex_lock(&sr->ir.mutex);
         fr = fr_clone(sr->fr);
         ary_push(sr->fr_bucket, fr);
+        mutex_unlock(&sr->ir.mutex);
         thread_setspecific(sr->thread_fr, fr);
     }
     return fr;
-- 
2.43.0


From 74b2710a801b71da89f8c57fbaf4bd5dc29c687f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:28 +0000
Subject: [PATCH 134/139] fix: a term index which could not be read was used
 all the same

---
 c/src/index.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/c/src/index.c b/c/src/index.c
index 453888e..5edf7ca 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -2089,11 +2089,12 @@ static void sti_ensure_index_is_read(SegmentTermIndex *sti,
         int i;
         int index_cnt = sti->index_cnt;
         off_t index_ptr = 0;
+        char **index_terms;
         ste_reset(index_te);
         is_seek(STE(index_te)->is, sti->index_ptr);
         STE(index_te)->size = sti->index_cnt;
 
-        sti->index_terms = ALLOC_N(char *, index_cnt);
+        index_terms = ALLOC_N(char *, index_cnt);
         sti->index_term_lens = ALLOC_N(int, index_cnt);
         sti->index_term_infos = ALLOC_N(TermInfo, index_cnt);
         sti->index_ptrs = ALLOC_N(off_t, index_cnt);
@@ -2104,12 +2105,14 @@ static void sti_ensure_index_is_read(SegmentTermIndex *sti,
                 RAISE(FERRET_ERROR, "index term enum read too many terms");
             }
 #endif
-            sti->index_terms[i] = te_get_term(index_te);
+            index_terms[i] = te_get_term(index_te);
             sti->index_term_lens[i] = index_te->curr_term_len;
             sti->index_term_infos[i] = index_te->curr_ti;
             index_ptr += is_read_voff_t(STE(index_te)->is);
             sti->index_ptrs[i] = index_ptr;
         }
+        /* now it is complete */
+        sti->index_terms = index_terms;
     }
 }
 
@@ -2141,10 +2144,12 @@ static int sti_get_index_offset(SegmentTermIndex *sti, const char *term)
  ****************************************************************************/
 
 #define SFI_ENSURE_INDEX_IS_READ(sfi, sti) do {\
-    /* index_terms is set before the index has been read */\
     mutex_lock(&sfi->mutex);\
-    sti_ensure_index_is_read(sti, sfi->index_te);\
-    mutex_unlock(&sfi->mutex);\
+    TRY\
+        sti_ensure_index_is_read(sti, sfi->index_te);\
+    XFINALLY\
+        mutex_unlock(&sfi->mutex);\
+    XENDTRY\
 } while (0)
 
 SegmentFieldIndex *sfi_open(Store *store, const char *segment)
-- 
2.43.0


From 73e1dbc42154d1c7764516fa0a32c3212b45e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:28 +0000
Subject: [PATCH 135/139] fix: threads corrupted the file table of a RAM store
 and could both obtain a lock

---
 c/src/ram_store.c | 114 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 85 insertions(+), 29 deletions(-)

diff --git a/c/src/ram_store.c b/c/src/ram_store.c
index cfd7c90..7bd9362 100644
--- a/c/src/ram_store.c
+++ b/c/src/ram_store.c
@@ -2,6 +2,11 @@
 #include <string.h>
 #include "internal.h"
 
+/* protects the tables of files and the reference counts of the files */
+#ifndef UNTHREADED
+static mutex_t ram_mutex = MUTEX_INITIALIZER;
+#endif
+
 static RAMFile *rf_new(const char *name)
 {
     RAMFile *rf = ALLOC(RAMFile);
@@ -37,43 +42,56 @@ static void rf_close(void *p)
     free(rf);
 }
 
-static void ram_touch(Store *store, const char *filename)
+/* return true if the file had to be created */
+static int ram_touch_i(Store *store, const char *filename)
 {
+    int created = false;
+    mutex_lock(&ram_mutex);
     if (h_get(store->dir.ht, filename) == NULL) {
         RAMFile *rf = rf_new(filename);
         h_set(store->dir.ht, rf->name, rf);
+        created = true;
     }
+    mutex_unlock(&ram_mutex);
+    return created;
+}
+
+static void ram_touch(Store *store, const char *filename)
+{
+    ram_touch_i(store, filename);
 }
 
 static int ram_exists(Store *store, const char *filename)
 {
-    if (h_get(store->dir.ht, filename) != NULL) {
-        return true;
-    }
-    else {
-        return false;
-    }
+    int exists;
+    mutex_lock(&ram_mutex);
+    exists = (h_get(store->dir.ht, filename) != NULL);
+    mutex_unlock(&ram_mutex);
+    return exists;
 }
 
 static int ram_remove(Store *store, const char *filename)
 {
-    RAMFile *rf = (RAMFile *)h_rem(store->dir.ht, filename, false);
+    RAMFile *rf;
+    mutex_lock(&ram_mutex);
+    rf = (RAMFile *)h_rem(store->dir.ht, filename, false);
     if (rf != NULL) {
         DEREF(rf);
         rf_close(rf);
-        return 0;
-    }
-    else {
-        return -1;
     }
+    mutex_unlock(&ram_mutex);
+    return rf != NULL ? 0 : -1;
 }
 
 static void ram_rename(Store *store, const char *from, const char *to)
 {
-    RAMFile *rf = (RAMFile *)h_rem(store->dir.ht, from, false);
+    RAMFile *rf;
     RAMFile *tmp;
 
+    mutex_lock(&ram_mutex);
+    rf = (RAMFile *)h_rem(store->dir.ht, from, false);
     if (rf == NULL) {
+        mutex_unlock(&ram_mutex);
         RAISE(IO_ERROR, "couldn't rename \"%s\" to \"%s\". \"%s\""
               " doesn't exist", from, to, from);
     }
@@ -89,33 +107,56 @@ static void ram_rename(Store *store, const char *from, const char *to)
     }
 
     h_set(store->dir.ht, rf->name, rf);
+    mutex_unlock(&ram_mutex);
 }
 
 static int ram_count(Store *store)
 {
-    return store->dir.ht->size;
+    int count;
+    mutex_lock(&ram_mutex);
+    count = store->dir.ht->size;
+    mutex_unlock(&ram_mutex);
+    return count;
 }
 
 static void ram_each(Store *store,
                      void (*func)(const char *fname, void *arg), void *arg)
 {
     Hash *ht = store->dir.ht;
-    int i;
+    int i, cnt = 0;
+    char **names;
+
+    /* func may use the store */
+    mutex_lock(&ram_mutex);
+    names = ALLOC_N(char *, ht->size + 1);
     for (i = 0; i <= ht->mask; i++) {
         RAMFile *rf = (RAMFile *)ht->table[i].value;
         if (rf) {
             if (strncmp(rf->name, LOCK_PREFIX, strlen(LOCK_PREFIX)) == 0) {
                 continue;
             }
-            func(rf->name, arg);
+            names[cnt++] = estrdup(rf->name);
         }
     }
+    mutex_unlock(&ram_mutex);
+
+    TRY
+        for (i = 0; i < cnt; i++) {
+            func(names[i], arg);
+        }
+    XFINALLY
+        for (i = 0; i < cnt; i++) {
+            free(names[i]);
+        }
+        free(names);
+    XENDTRY
 }
 
 static void ram_close_i(Store *store)
 {
     Hash *ht = store->dir.ht;
     int i;
+    mutex_lock(&ram_mutex);
     for (i = 0; i <= ht->mask; i++) {
         RAMFile *rf = (RAMFile *)ht->table[i].value;
         if (rf) {
@@ -123,6 +164,7 @@ static void ram_close_i(Store *store)
         }
     }
     h_destroy(store->dir.ht);
+    mutex_unlock(&ram_mutex);
     store_destroy(store);
 }
 
@@ -133,6 +175,7 @@ static void ram_clear(Store *store)
 {
     int i;
     Hash *ht = store->dir.ht;
+    mutex_lock(&ram_mutex);
     for (i = 0; i <= ht->mask; i++) {
         RAMFile *rf = (RAMFile *)ht->table[i].value;
         if (rf && !file_is_lock(rf->name)) {
@@ -140,12 +183,14 @@ static void ram_clear(Store *store)
             h_del(ht, rf->name);
         }
     }
+    mutex_unlock(&ram_mutex);
 }
 
 static void ram_clear_locks(Store *store)
 {
     int i;
     Hash *ht = store->dir.ht;
+    mutex_lock(&ram_mutex);
     for (i = 0; i <= ht->mask; i++) {
         RAMFile *rf = (RAMFile *)ht->table[i].value;
         if (rf && file_is_lock(rf->name)) {
@@ -153,12 +198,14 @@ static void ram_clear_locks(Store *store)
             h_del(ht, rf->name);
         }
     }
+    mutex_unlock(&ram_mutex);
 }
 
 static void ram_clear_all(Store *store)
 {
     int i;
     Hash *ht = store->dir.ht;
+    mutex_lock(&ram_mutex);
     for (i = 0; i <= ht->mask; i++) {
         RAMFile *rf = (RAMFile *)ht->table[i].value;
         if (rf) {
@@ -166,17 +213,20 @@ static void ram_clear_all(Store *store)
             h_del(ht, rf->name);
         }
     }
+    mutex_unlock(&ram_mutex);
 }
 
 static off_t ram_length(Store *store, const char *filename)
 {
-    RAMFile *rf = (RAMFile *)h_get(store->dir.ht, filename);
+    RAMFile *rf;
+    off_t len = 0;
+    mutex_lock(&ram_mutex);
+    rf = (RAMFile *)h_get(store->dir.ht, filename);
     if (rf != NULL) {
-        return rf->len;
-    }
-    else {
-        return 0;
+        len = rf->len;
     }
+    mutex_unlock(&ram_mutex);
+    return len;
 }
 
 off_t ramo_length(OutStream *os)
@@ -232,8 +282,10 @@ void ramo_reset(OutStream *os)
 static void ramo_close_i(OutStream *os)
 {
     RAMFile *rf = os->file.rf;
+    mutex_lock(&ram_mutex);
     DEREF(rf);
     rf_close(rf);
+    mutex_unlock(&ram_mutex);
 }
 
 void ramo_write_to(OutStream *os, OutStream *other_o)
@@ -280,15 +332,18 @@ void ram_destroy_buffer(OutStream *os)
 
 static OutStream *ram_new_output(Store *store, const char *filename)
 {
-    RAMFile *rf = (RAMFile *)h_get(store->dir.ht, filename);
+    RAMFile *rf;
     OutStream *os = os_new();
 
+    mutex_lock(&ram_mutex);
+    rf = (RAMFile *)h_get(store->dir.ht, filename);
     if (rf == NULL) {
         rf = rf_new(filename);
         h_set(store->dir.ht, rf->name, rf);
     }
     rf->len = 0;
     REF(rf);
+    mutex_unlock(&ram_mutex);
     os->pointer = 0;
     os->file.rf = rf;
     os->m = &RAM_OUT_STREAM_METHODS;
@@ -345,8 +400,10 @@ static void rami_seek_i(InStream *is, off_t pos)
 static void rami_close_i(InStream *is)
 {
     RAMFile *rf = is->file.rf;
+    mutex_lock(&ram_mutex);
     DEREF(rf);
     rf_close(rf);
+    mutex_unlock(&ram_mutex);
 }
 
 static const struct InStreamMethods RAM_IN_STREAM_METHODS = {
@@ -358,10 +415,13 @@ static const struct InStreamMethods RAM_IN_STREAM_METHODS = {
 
 static InStream *ram_open_input(Store *store, const char *filename)
 {
-    RAMFile *rf = (RAMFile *)h_get(store->dir.ht, filename);
+    RAMFile *rf;
     InStream *is = NULL;
 
+    mutex_lock(&ram_mutex);
+    rf = (RAMFile *)h_get(store->dir.ht, filename);
     if (rf == NULL) {
+        mutex_unlock(&ram_mutex);
         /*
         Hash *ht = store->dir.ht;
         int i;
@@ -376,6 +436,7 @@ static InStream *ram_open_input(Store *store, const char *filename)
               "tried to open \"%s\" but it doesn't exist", filename);
     }
     REF(rf);
+    mutex_unlock(&ram_mutex);
     is = is_new();
     is->file.rf = rf;
     is->d.pointer = 0;
@@ -388,12 +449,7 @@ static InStream *ram_open_input(Store *store, const char *filename)
 
 static int ram_lock_obtain(Lock *lock)
 {
-    int ret = true;
-    if (ram_exists(lock->store, lock->name)) {
-        ret = false;
-    }
-    ram_touch(lock->store, lock->name);
-    return ret;
+    return ram_touch_i(lock->store, lock->name);
 }
 
 static int ram_lock_is_locked(Lock *lock)
-- 
2.43.0


From 35e5b63e68efee670a74f4ee1d596c92d7eed3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:04 +0000
Subject: [PATCH 136/139] fix: threads miscounted the users of a store or used
 one being closed

---
 c/include/internal.h |  2 ++
 c/include/store.h    |  7 +++++++
 c/src/fs_store.c     | 11 ++++-------
 c/src/ind.c          |  2 +-
 c/src/index.c        |  4 ++--
 c/src/store.c        | 35 +++++++++++++++++++++++++++--------
 6 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/c/include/internal.h b/c/include/internal.h
index c3db266..eb30487 100644
--- a/c/include/internal.h
+++ b/c/include/internal.h
@@ -925,6 +925,8 @@
 #define stop_filter_new_with_words                     frt_stop_filter_new_with_words
 #define stop_filter_new_with_words_len                 frt_stop_filter_new_with_words_len
 #define store_deref                                    frt_store_deref
+#define store_ref                                      frt_store_ref
+#define store_ref_mutex                                frt_store_ref_mutex
 #define store_destroy                                  frt_store_destroy
 #define store_new                                      frt_store_new
 #define store_to_s                                     frt_store_to_s
diff --git a/c/include/store.h b/c/include/store.h
index d3e9832..f74b42a 100644
--- a/c/include/store.h
+++ b/c/include/store.h
@@ -441,6 +441,13 @@ extern void frt_with_lock(FrtLock *lock, void (*func)(void *arg), void *arg);
 extern void frt_with_lock_name(FrtStore *store, const char *lock_name,
                            void (*func)(void *arg), void *arg);
 
+/**
+ * Add a reference to the store.
+ *
+ * @param store the store to be referenced
+ */
+extern void frt_store_ref(FrtStore *store);
+
 /**
  * Remove a reference to the store. If the reference count gets to zero free
  * all resources used by the store.
diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 844c4bd..9f587da 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -423,14 +423,13 @@ static void fs_close_lock_i(Lock *lock)
 static Hash *stores = NULL;
 
 #ifndef UNTHREADED
-static mutex_t stores_mutex = MUTEX_INITIALIZER;
+extern mutex_t store_ref_mutex;
 #endif
 
+/* store_ref_mutex is held */
 static void fs_close_i(Store *store)
 {
-    mutex_lock(&stores_mutex);
     h_del(stores, store->dir.path);
-    mutex_unlock(&stores_mutex);
 }
 
 static Store *fs_store_new(const char *pathname)
@@ -486,23 +485,21 @@ Store *open_fs_store(const char *pathname)
 {
     Store *store = NULL;
 
+    mutex_lock(&store_ref_mutex);
     if (!stores) {
         stores = h_new_str(NULL, (free_ft)fs_destroy);
         register_for_cleanup(stores, (free_ft)h_destroy);
     }
 
-    mutex_lock(&stores_mutex);
     store = (Store *)h_get(stores, pathname);
     if (store) {
-        mutex_lock(&store->mutex);
         store->ref_cnt++;
-        mutex_unlock(&store->mutex);
     }
     else {
         store = fs_store_new(pathname);
         h_set(stores, store->dir.path, store);
     }
-    mutex_unlock(&stores_mutex);
+    mutex_unlock(&store_ref_mutex);
 
     return store;
 }
diff --git a/c/src/ind.c b/c/src/ind.c
index e5d5d3c..e779dc8 100644
--- a/c/src/ind.c
+++ b/c/src/ind.c
@@ -53,7 +53,7 @@ Index *index_new(Store *store, Analyzer *analyzer, HashSet *def_fields,
     mutex_init(&self->mutex, NULL);
     self->has_writes = false;
     if (store) {
-        REF(store);
+        store_ref(store);
         self->store = store;
     } else {
         self->store = open_ram_store();
diff --git a/c/src/index.c b/c/src/index.c
index 5edf7ca..6fa3dec 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -3938,7 +3938,7 @@ static IndexReader *ir_setup(IndexReader *ir, Store *store, SegmentInfos *sis,
 
     if (store) {
         ir->store = store;
-        REF(store);
+        store_ref(store);
     }
     ir->sis = sis;
     ir->fis = fis;
@@ -6596,7 +6596,7 @@ IndexWriter *iw_open(Store *store, Analyzer *volatile analyzer,
     iw->deleter = deleter_new(iw->sis, store);
     deleter_delete_deletable_files(iw->deleter);
 
-    REF(store);
+    store_ref(store);
     return iw;
 }
 
diff --git a/c/src/store.c b/c/src/store.c
index 53f0930..b7b7bcb 100644
--- a/c/src/store.c
+++ b/c/src/store.c
@@ -32,27 +32,46 @@ void with_lock_name(Store *store, const char *lock_name,
     store->close_lock_i(lock);
 }
 
+/* Also held by open_fs_store so that a store is not closed while another
+ * thread opens it. */
+#ifndef UNTHREADED
+mutex_t store_ref_mutex = MUTEX_INITIALIZER;
+#endif
+
+void store_ref(Store *store)
+{
+    mutex_lock(&store_ref_mutex);
+    store->ref_cnt++;
+    mutex_unlock(&store_ref_mutex);
+}
+
 void store_deref(Store *store)
 {
-    mutex_lock(&store->mutex_i);
-    if (--store->ref_cnt <= 0) {
-        store->close_i(store);
-    }
-    else {
-        mutex_unlock(&store->mutex_i);
-    }
+    mutex_lock(&store_ref_mutex);
+    TRY
+        if (--store->ref_cnt <= 0) {
+            store->close_i(store);
+        }
+    XFINALLY
+        mutex_unlock(&store_ref_mutex);
+    XENDTRY
 }
 
 Lock *open_lock(Store *store, const char *lockname)
 {
     Lock *lock = store->open_lock_i(store, lockname);
+    mutex_lock(&store->mutex_i);
     hs_add(store->locks, lock);
+    mutex_unlock(&store->mutex_i);
     return lock;
 }
 
 void close_lock(Lock *lock)
 {
-    hs_del(lock->store->locks, lock);
+    Store *store = lock->store;
+    mutex_lock(&store->mutex_i);
+    hs_del(store->locks, lock);
+    mutex_unlock(&store->mutex_i);
 }
 
 static void close_lock_i(Lock *lock)
-- 
2.43.0


From 67dd945762454a1798187e066e3ccc061ed915cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:59 +0000
Subject: [PATCH 137/139] fix: threads allocated the norms of a field without
 norms twice

---
 c/src/index.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c/src/index.c b/c/src/index.c
index 6fa3dec..048e88a 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -4001,6 +4001,9 @@ void ir_set_norm(IndexReader *ir, int doc_num, Symbol field, uchar val)
     }
 }
 
+/* threads share a reader: only one of them allocates its fake norms */
+static mutex_t fake_norms_mutex = MUTEX_INITIALIZER;
+
 uchar *ir_get_norms_i(IndexReader *ir, int field_num)
 {
     uchar *norms = NULL;
@@ -4008,10 +4011,12 @@ uchar *ir_get_norms_i(IndexReader *ir, int field_num)
         norms = ir->get_norms(ir, field_num);
     }
     if (!norms) {
+        mutex_lock(&fake_norms_mutex);
         if (NULL == ir->fake_norms) {
             ir->fake_norms = ALLOC_AND_ZERO_N(uchar, ir->max_doc(ir));
         }
         norms = ir->fake_norms;
+        mutex_unlock(&fake_norms_mutex);
     }
     return norms;
 }
-- 
2.43.0


From 3dff1b929170320677acf0702c2070b0863e0197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:22 +0000
Subject: [PATCH 138/139] fix: threads corrupted the caches of filters

---
 c/include/index.h    |  1 +
 c/include/internal.h |  1 +
 c/include/search.h   |  1 +
 c/src/filter.c       | 28 +++++++++++++++++++++-------
 c/src/index.c        |  6 ++++++
 5 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/c/include/index.h b/c/include/index.h
index 2a6dadb..e89cc2b 100644
--- a/c/include/index.h
+++ b/c/include/index.h
@@ -63,6 +63,7 @@ extern FrtCacheObject *frt_co_create(FrtHash *ref_tab1,
                               FrtHash *ref_tab2,
             void *ref1, void *ref2, frt_free_ft destroy, void *obj);
 extern FrtHash *frt_co_hash_create();
+extern frt_mutex_t frt_co_mutex;
 
 /****************************************************************************
  *
diff --git a/c/include/internal.h b/c/include/internal.h
index eb30487..30d822c 100644
--- a/c/include/internal.h
+++ b/c/include/internal.h
@@ -427,6 +427,7 @@
 #define clean_up                                       frt_clean_up
 #define close_lock                                     frt_close_lock
 #define co_create                                      frt_co_create
+#define co_mutex                                       frt_co_mutex
 #define co_hash_create                                 frt_co_hash_create
 #define count_leading_ones                             frt_count_leading_ones
 #define count_leading_zeros                            frt_count_leading_zeros
diff --git a/c/include/search.h b/c/include/search.h
index 55d0bee..632c079 100644
--- a/c/include/search.h
+++ b/c/include/search.h
@@ -113,6 +113,7 @@ typedef struct FrtFilter
     int           (*eq)(struct FrtFilter *self, struct FrtFilter *o);
     void          (*destroy_i)(struct FrtFilter *self);
     int           ref_cnt;
+    frt_mutex_t   mutex;
 } FrtFilter;
 
 #define filt_new(type) frt_filt_create(sizeof(type), frt_intern(#type))
diff --git a/c/src/filter.c b/c/src/filter.c
index 92e61de..948df8a 100644
--- a/c/src/filter.c
+++ b/c/src/filter.c
@@ -11,7 +11,10 @@
 
 void filt_destroy_i(Filter *filt)
 {
+    mutex_lock(&co_mutex);
     h_destroy(filt->cache);
+    mutex_unlock(&co_mutex);
+    mutex_destroy(&filt->mutex);
     free(filt);
 }
 void filt_deref(Filter *filt)
@@ -23,17 +26,27 @@ void filt_deref(Filter *filt)
 
 BitVector *filt_get_bv(Filter *filt, IndexReader *ir)
 {
-    CacheObject *co = (CacheObject *)h_get(filt->cache, ir);
+    CacheObject *co = NULL;
 
-    if (!co) {
-        BitVector *bv;
+    /* only one thread at a time uses the query behind a filter */
+    mutex_lock(&filt->mutex);
+    TRY
+        mutex_lock(&co_mutex);
+        co = (CacheObject *)h_get(filt->cache, ir);
         if (!ir->cache) {
             ir_add_cache(ir);
         }
-        bv = filt->get_bv_i(filt, ir);
-        co = co_create(filt->cache, ir->cache, filt, ir,
-                       (free_ft)&bv_destroy, (void *)bv);
-    }
+        mutex_unlock(&co_mutex);
+        if (!co) {
+            BitVector *bv = filt->get_bv_i(filt, ir);
+            mutex_lock(&co_mutex);
+            co = co_create(filt->cache, ir->cache, filt, ir,
+                           (free_ft)&bv_destroy, (void *)bv);
+            mutex_unlock(&co_mutex);
+        }
+    XFINALLY
+        mutex_unlock(&filt->mutex);
+    XENDTRY
     return (BitVector *)co->obj;
 }
 
@@ -64,6 +77,7 @@ Filter *filt_create(size_t size, Symbol name)
     filt->eq        = &filt_eq_default;
     filt->destroy_i = &filt_destroy_i;
     filt->ref_cnt   = 1;
+    mutex_init(&filt->mutex, NULL);
     return filt;
 }
 
diff --git a/c/src/index.c b/c/src/index.c
index 048e88a..17e6f0e 100644
--- a/c/src/index.c
+++ b/c/src/index.c
@@ -182,6 +182,10 @@ static int co_eq(const void *key1, const void *key2)
     return (key1 == key2);
 }
 
+/* the caches of filters and readers refer to each other and are used by all
+ * threads which search with a filter or share a reader */
+mutex_t co_mutex = MUTEX_INITIALIZER;
+
 static void co_destroy(CacheObject *self)
 {
     h_rem(self->ref_tab1, self->ref2, false);
@@ -4175,7 +4179,9 @@ void ir_close(IndexReader *ir)
             sis_destroy(ir->sis);
         }
         if (ir->cache) {
+            mutex_lock(&co_mutex);
             h_destroy(ir->cache);
+            mutex_unlock(&co_mutex);
         }
         if (ir->field_index_cache) {
             h_destroy(ir->field_index_cache);
-- 
2.43.0


From e02bf59ed5cd2e7028aa57c36c8e9b54d88ab1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:40 +0000
Subject: [PATCH 139/139] fix: a thread seeking in a file moved the position
 another one was about to read from

---
 c/src/fs_store.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c/src/fs_store.c b/c/src/fs_store.c
index 9f587da..c4855fc 100644
--- a/c/src/fs_store.c
+++ b/c/src/fs_store.c
@@ -310,7 +310,11 @@ static void fsi_read_i(InStream *is, uchar *buf, int len)
 
 static void fsi_seek_i(InStream *is, off_t pos)
 {
-    if (lseek(is->file.fd, pos, SEEK_SET) < 0) {
+    off_t res;
+    mutex_lock(&fsi_mutex);
+    res = lseek(is->file.fd, pos, SEEK_SET);
+    mutex_unlock(&fsi_mutex);
+    if (res < 0) {
         RAISE(IO_ERROR, "seeking pos %"OFF_T_PFX"d: <%s>",
               pos, strerror(errno));
     }
-- 
2.43.0

