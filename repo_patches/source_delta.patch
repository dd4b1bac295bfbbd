From 97e03132acedb102b5d79536448cfcba3de470d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 01/44] fix: never use an earlier error message as a format
 string

---
 src/bigfile.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 61fc839..d32ca3d 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -156,23 +156,27 @@ _big_file_path_is_block(const char * basename)
 void
 _big_file_raise(const char * msg, const char * file, const int line, ...)
 {
+    size_t len;
+    char * errorstr;
+
     if(!msg) {
-        if(ERRORSTR) {
-            msg = ERRORSTR;
-        } else {
-            msg = "UNKNOWN ERROR";
-        }
+        /* pass on the inner error; its text is data, never a format string. */
+        const char * inner = ERRORSTR;
+        if(!inner) inner = "UNKNOWN ERROR";
+        len = strlen(inner);
+        errorstr = malloc(len + strlen(file) + 64);
+        strcpy(errorstr, inner);
+    } else {
+        va_list va;
+        va_start(va, line);
+        len = vsnprintf(NULL, 0, msg, va);
+        va_end(va);
+        errorstr = malloc(len + strlen(file) + 64);
+        va_start(va, line);
+        vsnprintf(errorstr, len + 1, msg, va);
+        va_end(va);
     }
-
-    size_t len = strlen(msg) + strlen(file) + 512;
-    char * errorstr = malloc(len);
-
-    char * fmtstr = alloca(len);
-    sprintf(fmtstr, "%s @(%s:%d)", msg, file, line);
-    va_list va;
-    va_start(va, line);
-    vsprintf(errorstr, fmtstr, va);
-    va_end(va);
+    sprintf(errorstr + len, " @(%s:%d)", file, line);
 
     big_file_set_error_message(errorstr);
     free(errorstr);
-- 
2.43.0


From ec093a64e81371571dc6a75492c09b53e7de9b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 02/44] fix: keep the error message per thread

---
 src/bigfile.c | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index d32ca3d..fb4d052 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -25,11 +25,12 @@
 #define FILEID_ATTR_V2 -3
 #define FILEID_HEADER -1
 
-#if __STDC_VERSION__ >= 201112L && !defined(__STDC_NO_ATOMICS__)
-    #include <stdatomic.h>
-static char * volatile _Atomic ERRORSTR = NULL;
+/* Every thread has its own error message: another thread must not free it
+ * while it is being read or passed on. */
+#if __STDC_VERSION__ >= 201112L && !defined(__STDC_NO_THREADS__)
+static _Thread_local char * ERRORSTR = NULL;
 #else
-static char * volatile ERRORSTR = NULL;
+static __thread char * ERRORSTR = NULL;
 #endif
 
 static size_t CHUNK_BYTES = 64 * 1024 * 1024;
@@ -106,20 +107,8 @@ big_file_set_error_message(char * msg)
     char * errorstr;
     if(msg != NULL) msg = _strdup(msg);
 
-#if __STDC_VERSION__ >= 201112L && !defined(__STDC_NO_ATOMICS__)
-    errorstr = atomic_exchange(&ERRORSTR, msg);
-#elif defined(__ATOMIC_SEQ_CST)
-    errorstr = __atomic_exchange_n(&ERRORSTR, msg, __ATOMIC_SEQ_CST);
-#elif _OPENMP >= 201307
-    /* openmp 4.0 supports swap capture*/
-    #pragma omp capture 
-     { errorstr = ERRORSTR; ERRORSTR = msg; }
-#else
     errorstr = ERRORSTR;
     ERRORSTR = msg;
-    /* really should have propagated errors over the stack! */
-    #warning "enable -std=c11 or -std=gnu11, or luse gcc for thread friendly error handling"
-#endif
 
     if(errorstr) free(errorstr);
 }
-- 
2.43.0


From 256add6d99a024c7f3db354b2cb9bbb474944d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 03/44] fix: transfer buffers smaller than a row made writes
 loop forever and reads fail

---
 src/bigfile.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index fb4d052..c0c24e7 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -790,11 +790,11 @@ ex_seek:
 int
 big_block_read(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 {
-    char * chunkbuf = malloc(CHUNK_BYTES);
-
     int nmemb = bb->nmemb ? bb->nmemb : 1;
     int felsize = big_file_dtype_itemsize(bb->dtype) * nmemb;
-    size_t CHUNK_SIZE = CHUNK_BYTES / felsize;
+    /* always move at least one row at a time */
+    size_t CHUNK_SIZE = CHUNK_BYTES < felsize ? 1 : CHUNK_BYTES / felsize;
+    char * chunkbuf = malloc(CHUNK_SIZE * felsize);
 
     BigArray chunk_array = {0};
     size_t dims[2];
@@ -886,10 +886,11 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
     if(array->size == 0) return 0;
     /* the file header is modified */
     bb->dirty = 1;
-    char * chunkbuf = malloc(CHUNK_BYTES);
     int nmemb = bb->nmemb ? bb->nmemb : 1;
     int felsize = big_file_dtype_itemsize(bb->dtype) * nmemb;
-    size_t CHUNK_SIZE = CHUNK_BYTES / felsize;
+    /* always move at least one row at a time */
+    size_t CHUNK_SIZE = CHUNK_BYTES < felsize ? 1 : CHUNK_BYTES / felsize;
+    char * chunkbuf = malloc(CHUNK_SIZE * felsize);
 
     BigArray chunk_array = {0};
     size_t dims[2];
@@ -903,7 +904,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 
     RAISEIF(chunkbuf == NULL,
             ex_malloc,
-            "not enough memory for chunkbuf of size %d bytes", CHUNK_BYTES);
+            "not enough memory for chunkbuf of size %td bytes", CHUNK_SIZE * felsize);
 
     big_array_init(&chunk_array, chunkbuf, bb->dtype, 2, dims, NULL);
     big_array_iter_init(&array_iter, array);
-- 
2.43.0


From 2acb0a3f48cb23bff81e04103114807c449e4dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 04/44] fix: removing an attribute was not written to storage

---
 src/bigfile.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index c0c24e7..98aabaf 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1697,6 +1697,7 @@ attrset_remove_attr(BigAttrSet * attrset, const char * attrname)
     memmove(&attrset->attrlist[ind], &attrset->attrlist[ind + 1],
         (attrset->listused - ind - 1) * sizeof(BigAttr));
     attrset->listused -= 1;
+    attrset->dirty = 1;
 
     return 0;
 
-- 
2.43.0


From 8deeb77b10395fdd6a58a3a16519ddd2f29009a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:49 +0000
Subject: [PATCH 05/44] fix: an attribute with an empty name made the block
 unreadable

---
 src/bigfile.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 98aabaf..48ce418 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1716,16 +1716,18 @@ static int
 attrset_set_attr(BigAttrSet * attrset, const char * attrname, const void * data, const char * dtype, int nmemb)
 {
     BigAttr * attr;
-    attrset->dirty = 1;
 
     RAISEIF (
-         strchr(attrname, ' ')
+         attrname[0] == '\0'
+      || strchr(attrname, ' ')
       || strchr(attrname, '\t')
       || strchr(attrname, '\n'),
       ex_name,
-      "Attribute name cannot contain blanks (space, tab or newline)"
+      "Attribute name cannot be empty or contain blanks (space, tab or newline)"
     );
 
+    attrset->dirty = 1;
+
     /* Remove it if it exists*/
     attr = attrset_lookup_attr(attrset, attrname);
     if(attr)
-- 
2.43.0


From a76d18eae515a9491ea0b6db28845d983dfbbad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:23 +0000
Subject: [PATCH 06/44] fix: converting byte order altered the caller's array,
 and mangled complex numbers and strings

---
 src/bigfile.c | 65 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 55 insertions(+), 10 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 48ce418..6767482 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1254,27 +1254,34 @@ dtype_convert_simple(void * dst, const char * dstdtype, const void * src, const
 }
 
 static int cast(BigArrayIter * dst, BigArrayIter * src, size_t nmemb);
+static int cast_swapped(BigArrayIter * dst, BigArrayIter * src, size_t nmemb);
 static void byte_swap(BigArrayIter * array, size_t nmemb);
 int
 _dtype_convert(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
 {
     /* cast buf2 of dtype2 into buf1 of dtype1 */
-    /* match src to machine endianness */
-    if(src->array->dtype[0] != MACHINE_ENDIANNESS) {
-        BigArrayIter iter = *src;
-        byte_swap(&iter, nmemb);
-    }
-
     BigArrayIter iter1 = *dst;
     BigArrayIter iter2 = *src;
+    char order = MACHINE_ENDIANNESS;
+
+    if(0 == strcmp(dst->array->dtype + 1, src->array->dtype + 1)) {
+        /* same type, copied as is; swapped afterwards if the byte orders differ */
+        order = src->array->dtype[0];
+    }
 
+    /* match src to machine endianness */
+    if(src->array->dtype[0] != order) {
+        if(0 != cast_swapped(&iter1, &iter2, nmemb)) {
+            return -1;
+        }
+    } else
     if(0 != cast(&iter1, &iter2, nmemb)) {
         /* cast is not supported */
         return -1;
     }
 
-    /* match dst to machine endianness */
-    if(dst->array->dtype[0] != MACHINE_ENDIANNESS) {
+    /* match dst to its endianness */
+    if(dst->array->dtype[0] != order) {
         BigArrayIter iter = *dst;
         byte_swap(&iter, nmemb);
     }
@@ -1289,14 +1296,26 @@ byte_swap(BigArrayIter * iter, size_t nmemb)
 {
     /* swap a buffer in-place */
     int elsize = big_file_dtype_itemsize(iter->array->dtype);
+    int nparts = 1;
     if(elsize == 1) return;
+    switch(iter->array->dtype[1]) {
+        case 'S':
+        case 'a':
+            /* strings have no byte order. */
+            return;
+        case 'c':
+            /* the real and the imaginary parts are swapped separately */
+            nparts = 2;
+            elsize /= 2;
+            break;
+    }
     /* need byte swap; do it now on buf2 */
-    /* XXX: this may still be wrong. */
     ptrdiff_t i;
     int half = elsize >> 1;
     for(i = 0; i < nmemb; i ++) {
-        int j;
+        int j, k;
         char * ptr = iter->dataptr;
+        for(k = 0; k < nparts; k ++, ptr += elsize)
         for(j = 0; j < half; j ++) {
             char tmp = ptr[j];
             ptr[j] = ptr[elsize - j - 1];
@@ -1306,6 +1325,32 @@ byte_swap(BigArrayIter * iter, size_t nmemb)
     }
 }
 
+/* cast from the other byte order, through small native copies: the source is
+ * the caller's and is never modified. */
+static int
+cast_swapped(BigArrayIter * dst, BigArrayIter * src, size_t nmemb)
+{
+    double buf[64];
+    size_t elsize = big_file_dtype_itemsize(src->array->dtype);
+    size_t batch = elsize ? sizeof(buf) / elsize : 0;
+    if(batch == 0) return cast(dst, src, nmemb);
+
+    while(nmemb > 0) {
+        size_t n = nmemb < batch ? nmemb : batch;
+        BigArray native;
+        BigArrayIter iter;
+        big_array_init(&native, buf, src->array->dtype, 1, &n, NULL);
+        big_array_iter_init(&iter, &native);
+        if(0 != cast(&iter, src, n)) return -1;
+        big_array_iter_init(&iter, &native);
+        byte_swap(&iter, n);
+        big_array_iter_init(&iter, &native);
+        if(0 != cast(dst, &iter, n)) return -1;
+        nmemb -= n;
+    }
+    return 0;
+}
+
 #define CAST(d1, t1, d2, t2) \
 if((0 == strcmp(d1, dst->array->dtype + 1)) && (0 == strcmp(d2, src->array->dtype + 1))) { \
     for(i = 0; i < nmemb; i ++) { \
-- 
2.43.0


From 12170211977c0f3f5a91669aef8f24b7184051f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 07/44] fix: errors reported by fclose were ignored, so lost
 writes looked successful

---
 src/bigfile-mpi.c | 12 ++++++++++--
 src/bigfile.c     | 24 +++++++++++++++++++-----
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 4bdde18..8a21c0e 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -202,7 +202,11 @@ _big_block_mpi_create(BigBlock * bb,
             rt = -1;
             break;
         }
-        fclose(fp);
+        if(0 != fclose(fp)) {
+            _big_file_raise("Failed to create a data file of block `%s'", __FILE__, __LINE__, bb->basename);
+            rt = -1;
+            break;
+        }
     }
 
     BCAST_AND_RAISEIF(rt, comm);
@@ -248,7 +252,11 @@ big_block_mpi_grow(BigBlock * bb,
             rt = -1;
             break;
         }
-        fclose(fp);
+        if(0 != fclose(fp)) {
+            _big_file_raise("Failed to create a data file of block `%s'", __FILE__, __LINE__, bb->basename);
+            rt = -1;
+            break;
+        }
     }
 
     BCAST_AND_RAISEIF(rt, comm);
diff --git a/src/bigfile.c b/src/bigfile.c
index 6767482..fa31e4c 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -454,7 +454,9 @@ big_block_grow(BigBlock * bb, int Nfile_grow, const size_t fsize_grow[])
         RAISEIF(fp == NULL, 
                 ex_fileio, 
                 NULL);
-        fclose(fp);
+        RAISEIF(0 != fclose(fp),
+                ex_fileio,
+                "Failed to create a data file of block `%s' (%s)", bb->basename, strerror(errno));
     }
     return 0;
 
@@ -560,7 +562,9 @@ _big_block_create(BigBlock * bb, const char * basename, const char * dtype, int
         RAISEIF(fp == NULL, 
                 ex_fileio, 
                 NULL);
-        fclose(fp);
+        RAISEIF(0 != fclose(fp),
+                ex_fileio,
+                "Failed to create a data file of block `%s' (%s)", bb->basename, strerror(errno));
     }
 ex_internal:
     return rt;
@@ -596,7 +600,9 @@ big_block_flush(BigBlock * block)
             RAISEIF(0 > fprintf(fheader, EXT_DATA ": %td : %u : %u\n", i, block->fsize[i], block->fchecksum[i], checksum),
                 ex_fprintf, "Writing file information to header");
         }
-        fclose(fheader);
+        RAISEIF(0 != fclose(fheader),
+                ex_fclose,
+                "Writing file header (%s)", strerror(errno));
         block->dirty = 0;
     }
     if(block->attrset->dirty) {
@@ -609,6 +615,7 @@ big_block_flush(BigBlock * block)
 
 ex_fprintf:
     fclose(fheader);
+ex_fclose:
 ex_write_attr:
 ex_fileio:
     return -1;
@@ -948,7 +955,10 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
                 ex_write,
                 "Failed to write in block `%s' at (%d:%td) (%s)",
                 bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
-        fclose(fp);
+        RAISEIF(0 != fclose(fp),
+                ex_close,
+                "Failed to write in block `%s' at (%d:%td) (%s)",
+                bb->basename, ptr->fileid, ptr->roffset * felsize, strerror(errno));
 
         towrite -= chunk_size;
         RAISEIF(0 != big_block_seek_rel(bb, ptr, chunk_size),
@@ -959,6 +969,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
 ex_write:
 ex_seek:
     fclose(fp);
+ex_close:
 ex_convert:
 ex_open:
 ex_blockseek:
@@ -1660,10 +1671,13 @@ attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
             ex_write,
             "Failed to write to file");
     } 
-    fclose(fattr);
+    RAISEIF(0 != fclose(fattr),
+        ex_fclose,
+        "Failed to write to file (%s)", strerror(errno));
     return 0;
 ex_write:
     fclose(fattr);
+ex_fclose:
 ex_open:
     return -1;
 }
-- 
2.43.0


From cda2e8de7c527964062ddb7f9f950cf8e0dfa194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 08/44] fix: a failed attribute write marked the attributes as
 written

---
 src/bigfile.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index fa31e4c..714501c 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1611,7 +1611,6 @@ static int
 attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
 {
     static char conv[] = "0123456789ABCDEF";
-    attrset->dirty = 0;
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR_V2, "w", 1);
     RAISEIF(fattr == NULL,
-- 
2.43.0


From d62b39adaf1e21f4fc5ce66f0c0a180a5ca29305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 09/44] fix: attributes that could not be opened were taken for
 none, and then lost

---
 src/bigfile.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 714501c..99b8b96 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1481,6 +1481,19 @@ sysvsum(unsigned int * sum, void * buf, size_t size)
  * Internal API for AttrSet objects;
  * */
 
+/* A file that could not be opened: fine if there is none, but attributes that
+ * are there and cannot be read must not be taken for an empty set. */
+static int
+attrset_missing_file(const char * basename, const char * filename)
+{
+    RAISEIF(errno != ENOENT && errno != ENOTDIR,
+        ex_open,
+        "Failed to open attributes `%s' of block `%s' (%s)", filename, basename, strerror(errno));
+    return 0;
+ex_open:
+    return -1;
+}
+
 static int
 attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
 {
@@ -1488,7 +1501,7 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR, "r", 0);
     if(fattr == NULL) {
-        return 0;
+        return attrset_missing_file(basename, EXT_ATTR);
     }
     int nmemb;
     int lname;
@@ -1539,7 +1552,7 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
 
     FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR_V2, "r", 0);
     if(fattr == NULL) {
-        return 0;
+        return attrset_missing_file(basename, EXT_ATTR_V2);
     }
     fseek(fattr, 0, SEEK_END);
     long size = ftell(fattr);
@@ -1964,6 +1977,7 @@ _big_file_open_a_file(const char * basename, int fileid, char * mode, int raise)
 {
     char * filename;
     int unbuffered = 0;
+    int saved;
     if(fileid == FILEID_HEADER) {
         filename = _path_join(basename, EXT_HEADER);
     } else
@@ -1993,7 +2007,9 @@ _big_file_open_a_file(const char * basename, int fileid, char * mode, int raise)
         setbuf(fp, NULL);
     }
 ex_fopen:
+    saved = errno;
     free(filename);
+    errno = saved;
     return fp;
 }
 static
-- 
2.43.0


From f10166d2fff871e81eaaff84456872fea6ef46b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 10/44] fix: attributes without elements made the block
 unreadable, and damaged ones overran buffers

---
 src/bigfile.c | 89 ++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 70 insertions(+), 19 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 99b8b96..de6654e 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1506,23 +1506,39 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
     int nmemb;
     int lname;
     char dtype[9]={0};
-    char * data;
-    char * name;
+    char * data = NULL;
+    char * name = NULL;
+    /* nothing in the file can be longer than the file. */
+    long size = -1;
+    if(0 == fseek(fattr, 0, SEEK_END)) size = ftell(fattr);
+    RAISEIF(size < 0 || 0 != fseek(fattr, 0, SEEK_SET),
+            ex_fread,
+            "Failed to find the size of the file (%s)", strerror(errno));
     while(!feof(fattr)) {
-        if(1 != fread(&nmemb, sizeof(int), 1, fattr)) break;
+        errno = 0;
+        size_t nread = fread(&nmemb, 1, sizeof(int), fattr);
+        /* a directory of this name is not an attribute file. */
+        if(nread == 0 && (!ferror(fattr) || errno == EISDIR)) break;
         RAISEIF(
+            (nread != sizeof(int)) ||
             (1 != fread(&lname, sizeof(int), 1, fattr)) ||
             (1 != fread(&dtype, 8, 1, fattr)) ||
             (!dtype_isvalid(dtype)),
             ex_fread,
             "Failed to read from file"
                 )
-        int ldata = big_file_dtype_itemsize(dtype) * nmemb;
-        data = alloca(ldata);
-        name = alloca(lname + 1);
+        size_t ldata = (size_t) big_file_dtype_itemsize(dtype) * nmemb;
+        RAISEIF(nmemb < 0 || lname < 0 || lname > size || ldata > size,
+            ex_fread,
+            "Corrupted attribute: %d elements, name of %d bytes", nmemb, lname);
+        data = malloc(ldata + 1);
+        name = malloc(lname + 1);
+        RAISEIF(data == NULL || name == NULL,
+            ex_fread,
+            "Not enough memory for an attribute");
         RAISEIF(
-            (1 != fread(name, lname, 1, fattr)) ||
-            (1 != fread(data, ldata, 1, fattr)),
+            (lname != fread(name, 1, lname, fattr)) ||
+            (ldata != fread(data, 1, ldata, fattr)),
             ex_fread,
             "Failed to read from file");
 
@@ -1530,12 +1546,18 @@ attrset_read_attr_set_v1(BigAttrSet * attrset, const char * basename)
         RAISEIF(0 != attrset_set_attr(attrset, name, data, dtype, nmemb),
             ex_set_attr,
             NULL);
+        free(data);
+        free(name);
+        data = NULL;
+        name = NULL;
     }
     attrset->dirty = 0;
     fclose(fattr);
     return 0;
 ex_set_attr:
 ex_fread:
+    free(data);
+    free(name);
     attrset->dirty = 0;
     fclose(fattr);
     return -1;
@@ -1572,25 +1594,44 @@ attrset_read_attr_set_v2(BigAttrSet * attrset, const char * basename)
     long i = 0;
     #define ATTRV2_EXPECT(variable) while(_isblank(buffer[i])) i++; \
                     char * variable = buffer + i; \
-                    while(!_isblank(buffer[i])) i++; buffer[i] = 0; i++;
-    while(buffer[i]) {
+                    while(!_isblank(buffer[i]) && buffer[i] != '\n' && buffer[i]) i++; \
+                    RAISEIF(!_isblank(buffer[i]), ex_parse_attr, \
+                            "Incomplete line in the attribute file of `%s'", basename); \
+                    buffer[i] = 0; i++;
+    while(i < size) {
         ATTRV2_EXPECT(name);
         ATTRV2_EXPECT(dtype);
         ATTRV2_EXPECT(rawlength);
-        ATTRV2_EXPECT(rawdata);
-        /* skip the reset of the line */
-        while(buffer[i] != '\n' && buffer[i]) i ++;
-        if(buffer[i] == '\n') i++;
 
-        int nmemb = atoi(rawlength);
+        char * endptr;
+        long nmemb = strtol(rawlength, &endptr, 10);
         int itemsize = big_file_dtype_itemsize(dtype);
 
-        RAISEIF(nmemb * itemsize * 2!= strlen(rawdata),
+        RAISEIF(*endptr || nmemb < 0 || nmemb > INT_MAX || itemsize <= 0,
             ex_parse_attr,
-            "NMEMB and data mismiatch: %d x %d (%s) * 2 != %d",
-            nmemb, itemsize, dtype, strlen(rawdata));
+            "Corrupted attribute: %s x %s", rawlength, dtype);
 
-        int j, k;
+        /* an attribute without any elements has no data */
+        long rawsize = nmemb * itemsize * 2;
+        if(rawsize > 0) {
+            while(_isblank(buffer[i])) i++;
+        }
+        char * rawdata = buffer + i;
+        int digits = strspn(rawdata, "0123456789ABCDEFabcdef");
+        RAISEIF(rawsize > 0 && (rawsize != digits
+            || !(_isblank(rawdata[digits]) || rawdata[digits] == '\n' || i + digits == size)),
+            ex_parse_attr,
+            "NMEMB and data mismiatch: %ld x %d (%s) * 2 != %d",
+            nmemb, itemsize, dtype, digits);
+
+        /* skip the reset of the line */
+        while(buffer[i] != '\n' && buffer[i]) i ++;
+        RAISEIF(buffer[i] != '\n' && i != size,
+            ex_parse_attr,
+            "Corrupted attribute file of `%s'", basename);
+        if(buffer[i] == '\n') i++;
+
+        long j, k;
         for(k = 0, j = 0; k < nmemb * itemsize; k ++, j += 2) {
             char buf[3];
             buf[0] = rawdata[j];
@@ -1797,6 +1838,16 @@ attrset_set_attr(BigAttrSet * attrset, const char * attrname, const void * data,
       "Attribute name cannot be empty or contain blanks (space, tab or newline)"
     );
 
+    /* only what can be read back from the file */
+    RAISEIF (
+         strpbrk(dtype, " \t\n")
+      || big_file_dtype_itemsize(dtype) <= 0
+      || nmemb < 0
+      || (long) big_file_dtype_itemsize(dtype) * nmemb > INT_MAX / 2,
+      ex_name,
+      "Attribute `%s' cannot be %d elements of `%s'", attrname, nmemb, dtype
+    );
+
     attrset->dirty = 1;
 
     /* Remove it if it exists*/
-- 
2.43.0


From 963e308ebcd2de4eea316bbec753d11c6e370e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:10 +0000
Subject: [PATCH 11/44] fix: a long dtype overran the buffers of the header
 reader and of the formatter

---
 src/bigfile.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index de6654e..02873f5 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -330,7 +330,7 @@ _big_block_open(BigBlock * bb, const char * basename)
                 NULL);
 
         RAISEIF(
-               (1 != fscanf(fheader, " DTYPE: %s", bb->dtype)) ||
+               (1 != fscanf(fheader, " DTYPE: %7s", bb->dtype)) ||
                (1 != fscanf(fheader, " NMEMB: %d", &(bb->nmemb))) ||
                (1 != fscanf(fheader, " NFILE: %d", &(bb->Nfile))),
                ex_fscanf,
@@ -1181,6 +1181,11 @@ big_file_dtype_format(char * buffer, const char * dtype, const void * data, cons
     _dtype_normalize(ndtype2, dtype);
     ndtype2[0] = '=';
     _dtype_normalize(ndtype, ndtype2);
+    if(big_file_dtype_itemsize(ndtype) > sizeof(converted)) {
+        /* no such type has a format */
+        sprintf(buffer, "<%s>", ndtype);
+        return;
+    }
     dtype_convert_simple(converted, ndtype, data, dtype, 1);
 
     p.v = converted;
-- 
2.43.0


From 7f050ba3460be5c56f8b095e65a33819e68c10bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 12/44] fix: a header or attribute file being rewritten was
 lost when the writer failed or died

---
 src/bigfile.c | 72 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 64 insertions(+), 8 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 02873f5..e8d24f4 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -130,6 +130,60 @@ static char * _path_join(const char * part1, const char * part2)
     return result;
 }
 
+/* The header and the attributes are written to a new file, which then takes the
+ * place of the old one: whoever reads them, or whenever the writer dies, the
+ * complete old one or the complete new one is there. */
+static FILE *
+_big_file_open_new(const char * basename, const char * ext, char ** newname)
+{
+    char * filename = _path_join(basename, ext);
+    FILE * fp = NULL;
+    int i;
+    *newname = malloc(strlen(filename) + 32);
+    for(i = 0; fp == NULL && i < INT_MAX; i ++) {
+        sprintf(*newname, "%s.tmp%d", filename, i);
+        fp = fopen(*newname, "wx");
+        /* left behind, or in use by someone else */
+        if(fp == NULL && errno != EEXIST) break;
+    }
+    RAISEIF(fp == NULL,
+        ex_fopen,
+        "Failed to open physical file `%s' with mode `%s' (%s)",
+        *newname, "wx", strerror(errno));
+    free(filename);
+    return fp;
+ex_fopen:
+    free(filename);
+    free(*newname);
+    return NULL;
+}
+
+static void
+_big_file_abandon_new(FILE * fp, char * newname)
+{
+    if(fp) fclose(fp);
+    unlink(newname);
+    free(newname);
+}
+
+static int
+_big_file_close_new(FILE * fp, const char * basename, const char * ext, char * newname)
+{
+    char * filename = _path_join(basename, ext);
+    int rt = fclose(fp);
+    if(rt == 0) rt = rename(newname, filename);
+    RAISEIF(rt != 0,
+        ex_close,
+        "Failed to write physical file `%s' (%s)", filename, strerror(errno));
+    free(filename);
+    free(newname);
+    return 0;
+ex_close:
+    free(filename);
+    _big_file_abandon_new(NULL, newname);
+    return -1;
+}
+
 static int
 _big_file_path_is_block(const char * basename)
 {
@@ -583,9 +637,10 @@ int
 big_block_flush(BigBlock * block)
 {
     FILE * fheader = NULL;
+    char * newheader = NULL;
     if(block->dirty) {
         int i;
-        fheader = _big_file_open_a_file(block->basename, FILEID_HEADER, "w+", 1);
+        fheader = _big_file_open_new(block->basename, EXT_HEADER, &newheader);
         RAISEIF(fheader == NULL, ex_fileio, NULL);
         RAISEIF(
             (0 > fprintf(fheader, "DTYPE: %s\n", block->dtype)) ||
@@ -600,9 +655,9 @@ big_block_flush(BigBlock * block)
             RAISEIF(0 > fprintf(fheader, EXT_DATA ": %td : %u : %u\n", i, block->fsize[i], block->fchecksum[i], checksum),
                 ex_fprintf, "Writing file information to header");
         }
-        RAISEIF(0 != fclose(fheader),
+        RAISEIF(0 != _big_file_close_new(fheader, block->basename, EXT_HEADER, newheader),
                 ex_fclose,
-                "Writing file header (%s)", strerror(errno));
+                NULL);
         block->dirty = 0;
     }
     if(block->attrset->dirty) {
@@ -614,7 +669,7 @@ big_block_flush(BigBlock * block)
     return 0;
 
 ex_fprintf:
-    fclose(fheader);
+    _big_file_abandon_new(fheader, newheader);
 ex_fclose:
 ex_write_attr:
 ex_fileio:
@@ -1671,7 +1726,8 @@ attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
 {
     static char conv[] = "0123456789ABCDEF";
 
-    FILE * fattr = _big_file_open_a_file(basename, FILEID_ATTR_V2, "w", 1);
+    char * newattr = NULL;
+    FILE * fattr = _big_file_open_new(basename, EXT_ATTR_V2, &newattr);
     RAISEIF(fattr == NULL,
             ex_open,
             NULL);
@@ -1729,12 +1785,12 @@ attrset_write_attr_set_v2(BigAttrSet * attrset, const char * basename)
             ex_write,
             "Failed to write to file");
     } 
-    RAISEIF(0 != fclose(fattr),
+    RAISEIF(0 != _big_file_close_new(fattr, basename, EXT_ATTR_V2, newattr),
         ex_fclose,
-        "Failed to write to file (%s)", strerror(errno));
+        NULL);
     return 0;
 ex_write:
-    fclose(fattr);
+    _big_file_abandon_new(fattr, newattr);
 ex_fclose:
 ex_open:
     return -1;
-- 
2.43.0


From 3fd763bdbb2eb3080f9571a31bf6dd458978d9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 13/44] fix: retrying a failed write counted its data twice in
 the checksum

---
 src/bigfile.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index e8d24f4..91d6048 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -963,11 +963,16 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
     BigArrayIter array_iter;
     ptrdiff_t towrite = 0;
     FILE * fp;
+    /* for a failed write, to leave the position and the checksums as they were */
+    BigBlockPtr oldptr = *ptr;
+    unsigned int * oldsum = malloc((bb->Nfile + 1) * sizeof(oldsum[0]));
 
-    RAISEIF(chunkbuf == NULL,
+    RAISEIF(chunkbuf == NULL || oldsum == NULL,
             ex_malloc,
             "not enough memory for chunkbuf of size %td bytes", CHUNK_SIZE * felsize);
 
+    memcpy(oldsum, bb->fchecksum, bb->Nfile * sizeof(oldsum[0]));
+
     big_array_init(&chunk_array, chunkbuf, bb->dtype, 2, dims, NULL);
     big_array_iter_init(&array_iter, array);
 
@@ -1019,6 +1024,7 @@ big_block_write(BigBlock * bb, BigBlockPtr * ptr, BigArray * array)
         RAISEIF(0 != big_block_seek_rel(bb, ptr, chunk_size),
                 ex_blockseek, NULL);
     }
+    free(oldsum);
     free(chunkbuf);
     return 0;
 ex_write:
@@ -1028,9 +1034,12 @@ ex_close:
 ex_convert:
 ex_open:
 ex_blockseek:
+    memcpy(bb->fchecksum, oldsum, bb->Nfile * sizeof(oldsum[0]));
+    *ptr = oldptr;
 ex_eof:
-    free(chunkbuf);
 ex_malloc:
+    free(oldsum);
+    free(chunkbuf);
     return -1;
 }
 
-- 
2.43.0


From a23a72b2673774de6306d3277b7a4780c26623ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:02 +0000
Subject: [PATCH 14/44] fix: blocks that could not be opened again were created

---
 src/bigfile.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 91d6048..c2fc223 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -547,6 +547,14 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
         /* always use normalized dtype in files. */
         _dtype_normalize(bb->dtype, dtype);
 
+        /* a block with these could not be opened again. */
+        RAISEIF(!dtype_isvalid(bb->dtype) || strpbrk(bb->dtype, " \t\n"), ex_fsize,
+                "Unreasonable value for dtype of block `%s' (%s)", bb->basename, dtype);
+        RAISEIF(nmemb < 0, ex_fsize,
+                "Unreasonable value for nmemb of block `%s' (%d)", bb->basename, nmemb);
+        RAISEIF(Nfile < 0, ex_fsize,
+                "Unreasonable value for Nfile of block `%s' (%d)", bb->basename, Nfile);
+
         bb->Nfile = Nfile;
         bb->nmemb = nmemb;
         bb->fsize = calloc(bb->Nfile + 1, sizeof(size_t));
-- 
2.43.0


From 6bcd071d7ab969112bea0700924a86eabbb6f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 15/44] fix: a failed grow left the block pointing at files
 that do not exist

---
 src/bigfile-mpi.c | 31 ++++++++++++++++---------------
 src/bigfile.c     | 14 ++++++++------
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 8a21c0e..0883374 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -222,7 +222,7 @@ big_block_mpi_grow(BigBlock * bb,
 
     int rank;
     int NTask;
-    int rt;
+    int rt = 0;
 
     if(comm == MPI_COMM_NULL) return 0;
 
@@ -231,20 +231,7 @@ big_block_mpi_grow(BigBlock * bb,
 
     int oldNfile = bb->Nfile;
 
-    if(rank == 0) {
-        rt = _big_block_grow_internal(bb, Nfile_grow, fsize_grow);
-    } else {
-        rt = 0;
-    }
-
-    BCAST_AND_RAISEIF(rt, comm);
-
-    if(rank != 0) {
-        /* closed on non-root because we will bcast.*/
-        _big_block_close_internal(bb);
-    }
-    big_block_mpi_broadcast(bb, 0, comm);
-
+    /* the new files first; the block is not changed if that fails */
     int i;
     for(i = (size_t) Nfile_grow * rank / NTask; i < (size_t) Nfile_grow * (rank + 1) / NTask; i ++) {
         FILE * fp = _big_file_open_a_file(bb->basename, i + oldNfile, "w", 1);
@@ -261,6 +248,20 @@ big_block_mpi_grow(BigBlock * bb,
 
     BCAST_AND_RAISEIF(rt, comm);
 
+    if(rank == 0) {
+        rt = _big_block_grow_internal(bb, Nfile_grow, fsize_grow);
+    } else {
+        rt = 0;
+    }
+
+    BCAST_AND_RAISEIF(rt, comm);
+
+    if(rank != 0) {
+        /* closed on non-root because we will bcast.*/
+        _big_block_close_internal(bb);
+    }
+    big_block_mpi_broadcast(bb, 0, comm);
+
     return rt;
 }
 
diff --git a/src/bigfile.c b/src/bigfile.c
index c2fc223..8466f7b 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -497,13 +497,14 @@ int
 big_block_grow(BigBlock * bb, int Nfile_grow, const size_t fsize_grow[])
 {
     int oldNfile = bb->Nfile;
-
-    _big_block_grow_internal(bb, Nfile_grow, fsize_grow);
-
     int i;
 
-    /* now truncate the new files */
-    for(i = oldNfile; i < bb->Nfile; i ++) {
+    RAISEIF(Nfile_grow < 0,
+            ex_fileio,
+            "Cannot grow by %d files", Nfile_grow);
+
+    /* truncate the new files; the block is not changed if that fails */
+    for(i = oldNfile; i < oldNfile + Nfile_grow; i ++) {
         FILE * fp = _big_file_open_a_file(bb->basename, i, "w", 1);
         RAISEIF(fp == NULL, 
                 ex_fileio, 
@@ -512,7 +513,8 @@ big_block_grow(BigBlock * bb, int Nfile_grow, const size_t fsize_grow[])
                 ex_fileio,
                 "Failed to create a data file of block `%s' (%s)", bb->basename, strerror(errno));
     }
-    return 0;
+
+    return _big_block_grow_internal(bb, Nfile_grow, fsize_grow);
 
 ex_fileio:
     return -1;
-- 
2.43.0


From ce1136cbc69711d389060cf07851440713580ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 16/44] fix: collective flushes counted the same checksums
 several times or lost them

---
 src/bigfile-mpi.c | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 0883374..bdc5a69 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -12,6 +12,7 @@ static size_t _BigFileAggThreshold = 0;
 static int _big_file_mpi_verbose = 0;
 
 static int big_block_mpi_broadcast(BigBlock * bb, int root, MPI_Comm comm);
+static void big_block_mpi_reduce_checksum(BigBlock * block, MPI_Comm comm);
 static int big_file_mpi_broadcast_anyerror(int rt, MPI_Comm comm);
 
 #define BCAST_AND_RAISEIF(rt, comm) \
@@ -248,6 +249,8 @@ big_block_mpi_grow(BigBlock * bb,
 
     BCAST_AND_RAISEIF(rt, comm);
 
+    big_block_mpi_reduce_checksum(bb, comm);
+
     if(rank == 0) {
         rt = _big_block_grow_internal(bb, Nfile_grow, fsize_grow);
     } else {
@@ -281,11 +284,12 @@ big_block_mpi_grow_simple(BigBlock * bb, int Nfile_grow, size_t size_grow, MPI_C
 }
 
 
-int
-big_block_mpi_flush(BigBlock * block, MPI_Comm comm)
+/* Collect the checksums on the root. The checksum of a file is the sum over the
+ * ranks; once it is collected the other ranks continue from zero, such that
+ * nothing is collected again. */
+static void
+big_block_mpi_reduce_checksum(BigBlock * block, MPI_Comm comm)
 {
-    if(comm == MPI_COMM_NULL) return 0;
-
     int rank;
     MPI_Comm_rank(comm, &rank);
 
@@ -293,14 +297,27 @@ big_block_mpi_flush(BigBlock * block, MPI_Comm comm)
     MPI_Reduce(block->fchecksum, checksum, block->Nfile, MPI_UNSIGNED, MPI_SUM, 0, comm);
     int dirty;
     MPI_Reduce(&block->dirty, &dirty, 1, MPI_INT, MPI_LOR, 0, comm);
-    int rt;
+    int i;
+    for(i = 0; i < block->Nfile; i ++) {
+        block->fchecksum[i] = rank == 0 ? checksum[i] : 0;
+    }
     if(rank == 0) {
         /* only the root rank updates */
-        int i;
         big_block_set_dirty(block, dirty);
-        for(i = 0; i < block->Nfile; i ++) {
-            block->fchecksum[i] = checksum[i];
-        }
+    }
+}
+
+int
+big_block_mpi_flush(BigBlock * block, MPI_Comm comm)
+{
+    if(comm == MPI_COMM_NULL) return 0;
+
+    int rank;
+    MPI_Comm_rank(comm, &rank);
+
+    big_block_mpi_reduce_checksum(block, comm);
+    int rt;
+    if(rank == 0) {
         rt = big_block_flush(block);
     } else {
         rt = 0;
@@ -387,6 +404,8 @@ big_block_mpi_broadcast(BigBlock * bb, int root, MPI_Comm comm)
 
     if(rank != root) {
         _big_block_unpack(bb, buf);
+        /* collected on the root, see big_block_mpi_reduce_checksum. */
+        memset(bb->fchecksum, 0, sizeof(bb->fchecksum[0]) * bb->Nfile);
     }
     free(buf);
     return 0;
@@ -440,6 +459,11 @@ _throttle_action(MPI_Comm comm, int concurrency, BigBlock * block,
 
     free(sizes);
 
+    /* a failed write may be repeated, and leaves the checksums as they were. */
+    unsigned int * oldsum = malloc(sizeof(oldsum[0]) * (block->Nfile + 1));
+    if(block->Nfile > 0)
+        memcpy(oldsum, block->fchecksum, sizeof(oldsum[0]) * block->Nfile);
+
     int rt = 0;
     int segment;
 
@@ -466,7 +490,11 @@ _throttle_action(MPI_Comm comm, int concurrency, BigBlock * block,
     if(0 == (rt = big_file_mpi_broadcast_anyerror(rt, comm))) {
         /* no errors*/
         big_block_seek_rel(block, ptr, totalsize);
+    } else
+    if(block->Nfile > 0) {
+        memcpy(block->fchecksum, oldsum, sizeof(oldsum[0]) * block->Nfile);
     }
+    free(oldsum);
 
     MPIU_Segmenter_destroy(seggrp);
     return rt;
-- 
2.43.0


From 3f0ec5bdf1a6d3443db8ca0f4649fa21c29a5b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:32 +0000
Subject: [PATCH 17/44] fix: collective transfers went on after failed
 allocations, seeks and conversions

---
 src/bigfile-mpi.c | 23 ++++++++++++++++++-----
 src/bigfile.c     |  3 +++
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index bdc5a69..7f9830c 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -560,19 +560,32 @@ _aggregated(
         big_array_init(garray, gbuf, block->dtype, 2, (size_t[]){grouptotalsize, block->nmemb}, NULL);
     }
 
+    if((lbuf == NULL && localsize * elsize > 0)
+    || (rank == root && gbuf == NULL && grouptotalsize * elsize > 0)) {
+        _big_file_raise("Not enough memory to collect the data", __FILE__, __LINE__);
+        e = -1;
+    } else
     if(action == big_block_write) {
-        _dtype_convert(ilarray, iarray, localsize * block->nmemb);
+        e = _dtype_convert(ilarray, iarray, localsize * block->nmemb);
+    }
+    /* any step that fails on any rank ends it for the segment. */
+    e = big_file_mpi_broadcast_anyerror(e, comm);
+
+    if(e == 0 && action == big_block_write) {
         MPI_Gatherv(lbuf, recvcounts[rank], mpidtype,
                     gbuf, recvcounts, recvdispls, mpidtype, root, comm);
     }
-    if(rank == root) {
-        big_block_seek_rel(block, ptr1, offset);
-        e = action(block, ptr1, garray);
+    if(e == 0 && rank == root) {
+        e = big_block_seek_rel(block, ptr1, offset);
+        if(e == 0) e = action(block, ptr1, garray);
     }
     if(action == big_block_read) {
+        e = big_file_mpi_broadcast_anyerror(e, comm);
+    }
+    if(e == 0 && action == big_block_read) {
         MPI_Scatterv(gbuf, recvcounts, recvdispls, mpidtype,
                     lbuf, localsize, mpidtype, root, comm);
-        _dtype_convert(iarray, ilarray, localsize * block->nmemb);
+        e = _dtype_convert(iarray, ilarray, localsize * block->nmemb);
     }
 
     if(rank == root) {
diff --git a/src/bigfile.c b/src/bigfile.c
index 8466f7b..741ebf7 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -842,6 +842,9 @@ big_block_read_simple(BigBlock * bb, ptrdiff_t start, ptrdiff_t size, BigArray *
             "failed to seek");
 
     buffer = malloc(size * big_file_dtype_itemsize(dtype) * bb->nmemb);
+    RAISEIF(buffer == NULL && size * big_file_dtype_itemsize(dtype) * bb->nmemb > 0,
+            ex_seek,
+            "Not enough memory for %td rows", size);
 
     dims[0] = size;
     dims[1] = bb->nmemb;
-- 
2.43.0


From 84aa26233588a22172ca8c6087c0fed0d4e2bdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 18/44] fix: blocks that could not be looked at were silently
 left out of the list

---
 src/bigfile.c | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 741ebf7..8acb7b0 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -184,12 +184,29 @@ ex_close:
     return -1;
 }
 
+/* 1 if there is nothing to list, rather than a failure to look. */
+static int
+_nothing_there(int err)
+{
+    switch(err) {
+        case ENOENT:
+        case ENOTDIR:
+        case EACCES:
+        case EPERM:
+        case ELOOP:
+        case ENAMETOOLONG:
+            return 1;
+    }
+    return 0;
+}
+
+/* 1 if it is a block, 0 if not, -1 if it cannot be told. */
 static int
 _big_file_path_is_block(const char * basename)
 {
     FILE * fheader = _big_file_open_a_file(basename, FILEID_HEADER, "r", 0);
     if(fheader == NULL) {
-        return 0;
+        return _nothing_there(errno) ? 0 : -1;
     }
     fclose(fheader);
     return 1;
@@ -268,15 +285,17 @@ _alphasort (const struct dirent **a, const struct dirent **b)
 }
 
 static struct
-bblist * listbigfile_r(const char * basename, char * blockname, struct bblist * bblist) {
+bblist * listbigfile_r(const char * basename, char * blockname, struct bblist * bblist, int * err) {
     struct dirent **namelist;
     int n;
     int i;
+    int isblock;
 
     char * current;
     current = _path_join(basename, blockname);
 
     n = scandir(current, &namelist, filter, _alphasort);
+    if (n < 0 && !_nothing_there(errno)) *err = errno;
     free(current);
     if (n < 0)
         return bblist;
@@ -284,14 +303,18 @@ bblist * listbigfile_r(const char * basename, char * blockname, struct bblist *
     for(i = 0; i < n ; i ++) {
         char * blockname1 = _path_join(blockname, namelist[i]->d_name);
         char * fullpath1 = _path_join(basename, blockname1);
-        if(_big_file_path_is_block(fullpath1)) {
+        isblock = _big_file_path_is_block(fullpath1);
+        if(isblock < 0) {
+            *err = errno;
+        } else
+        if(isblock) {
             struct bblist * n = malloc(sizeof(struct bblist) + strlen(blockname1) + 1);
             n->next = bblist;
             n->blockname = (char*) &n[1];
             strcpy(n->blockname, blockname1);
             bblist = n;
         } else {
-            bblist = listbigfile_r(basename, blockname1, bblist);
+            bblist = listbigfile_r(basename, blockname1, bblist, err);
         }
         free(fullpath1);
         free(blockname1);
@@ -304,7 +327,8 @@ bblist * listbigfile_r(const char * basename, char * blockname, struct bblist *
 int
 big_file_list(BigFile * bf, char *** blocknames, int * Nblocks)
 {
-    struct bblist * bblist = listbigfile_r(bf->basename, "", NULL);
+    int err = 0;
+    struct bblist * bblist = listbigfile_r(bf->basename, "", NULL, &err);
     struct bblist * p;
     int N = 0;
     int i;
@@ -319,7 +343,18 @@ big_file_list(BigFile * bf, char *** blocknames, int * Nblocks)
         bblist = bblist->next;
         free(p); 
     }
+    RAISEIF(err != 0,
+        ex_list,
+        "Failed to list the blocks of `%s' (%s)", bf->basename, strerror(err));
     return 0;
+ex_list:
+    for(i = 0; i < N; i ++) {
+        free((*blocknames)[i]);
+    }
+    free(*blocknames);
+    *blocknames = NULL;
+    *Nblocks = 0;
+    return -1;
 }
 
 int
-- 
2.43.0


From 9003412fb30d49d74f08224ee964707d1f717112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:31 +0000
Subject: [PATCH 19/44] fix: collective transfers past the end of a block
 changed the rows before it

---
 src/bigfile-mpi.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 7f9830c..bcdcd88 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -447,6 +447,18 @@ _throttle_action(MPI_Comm comm, int concurrency, BigBlock * block,
 
     size_t totalsize = MPIU_Segmenter_collect_sizes(localsize, sizes, &myoffset, comm);
 
+    /* like the serial functions, refuse before anything is transferred. */
+    int rt = 0;
+    if(block->foffset[ptr->fileid] + ptr->roffset + totalsize > block->size) {
+        _big_file_raise("Accessing beyond the block `%s' at (%d:%td)", __FILE__, __LINE__,
+            block->basename, ptr->fileid, ptr->roffset);
+        rt = -1;
+    }
+    if(0 != (rt = big_file_mpi_broadcast_anyerror(rt, comm))) {
+        free(sizes);
+        return rt;
+    }
+
     /* try to create as many segments as number of groups (thus one segment per group) */
     avgsegsize = totalsize / concurrency;
 
@@ -464,7 +476,6 @@ _throttle_action(MPI_Comm comm, int concurrency, BigBlock * block,
     if(block->Nfile > 0)
         memcpy(oldsum, block->fchecksum, sizeof(oldsum[0]) * block->Nfile);
 
-    int rt = 0;
     int segment;
 
     for(segment = seggrp->segment_start;
-- 
2.43.0


From 3c60c6e72cc3de974a22b4b43ff2aebf7e09ac89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 20/44] fix: bigfile-cat printed rows after the requested ones

With -c and a small -B the last chunk was not cut to the requested count.  A
buffer smaller than a row never ended, blocks without columns divided by zero,
and an output that could not be written was reported as success.
---
 utils/bigfile-cat.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/utils/bigfile-cat.c b/utils/bigfile-cat.c
index 82e1f37..d4a33f3 100644
--- a/utils/bigfile-cat.c
+++ b/utils/bigfile-cat.c
@@ -82,14 +82,16 @@ int main(int argc, char * argv[]) {
 
     ptrdiff_t end = start + size;
 
-    size_t chunksize = buffersize / (bb.nmemb * big_file_dtype_itemsize(bb.dtype));
+    size_t rowsize = bb.nmemb * big_file_dtype_itemsize(bb.dtype);
+    /* always move at least one row at a time */
+    size_t chunksize = buffersize < rowsize || rowsize == 0 ? 1 : buffersize / rowsize;
     BigBlockPtr ptr;
     BigBlockPtr ptrnew;
     ptrdiff_t offset;
     BigArray array;
 
     for(offset = start; offset < end; ) {
-        if(chunksize > size) chunksize = size;
+        if(chunksize > end - offset) chunksize = end - offset;
         if(0 != big_block_read_simple(&bb, offset, chunksize, &array, NULL)) {
             fprintf(stderr, "failed to read original: %s\n", big_file_get_error_message());
             exit(1);
@@ -116,6 +118,10 @@ int main(int argc, char * argv[]) {
         offset += array.dims[0];
         countin += array.dims[0];
     }
+    if(0 != fflush(stdout) || ferror(stdout)) {
+        fprintf(stderr, "failed to write the output\n");
+        exit(1);
+    }
     big_block_close(&bb);
     big_file_close(&bf);
     return 0;
-- 
2.43.0


From 012f800dc7cf072d1a80be6fd588eaf67d1f4f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 21/44] fix: bigfile-create reported success when input or
 output failed

Errors of reading the input, writing the rows and closing the block were
ignored; an input error or a buffer smaller than a row never ended.
---
 utils/bigfile-create.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/utils/bigfile-create.c b/utils/bigfile-create.c
index 036bc2c..b4510ef 100644
--- a/utils/bigfile-create.c
+++ b/utils/bigfile-create.c
@@ -45,7 +45,7 @@ int main(int argc, char * argv[]) {
                 usage();
         }
     }
-    if(argc - optind != 3) {
+    if(argc - optind != 3 || nmemb <= 0) {
         usage();
     }
     argv += optind - 1;
@@ -63,24 +63,41 @@ int main(int argc, char * argv[]) {
 
     signal(SIGUSR1, usr1);
 
-    size_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
+    size_t rowsize = bb.nmemb * dtype_itemsize(bb.dtype);
+    /* always move at least one row at a time */
+    if(buffersize < rowsize) buffersize = rowsize;
+    size_t chunksize = buffersize / rowsize;
     BigBlockPtr ptr;
     BigArray array;
 
     char * buffer = malloc(buffersize);
+    if(buffer == NULL) {
+        fprintf(stderr, "not enough memory for a buffer of %td bytes\n", buffersize);
+        exit(1);
+    }
     ptrdiff_t offset = 0;
     while(!feof(stdin)) {
-        size_t nread = fread(buffer, bb.nmemb * dtype_itemsize(bb.dtype), chunksize, stdin);
+        size_t nread = fread(buffer, rowsize, chunksize, stdin);
+        if(ferror(stdin)) {
+            fprintf(stderr, "failed to read the input\n");
+            exit(1);
+        }
         size_t dims[2] = {nread, bb.nmemb};
         big_array_init(&array, buffer, bb.dtype, 2, dims, NULL);
-        big_block_seek(&bb, &ptr, offset);
-        big_block_write(&bb, &ptr, &array);
+        if(0 != big_block_seek(&bb, &ptr, offset)
+        || 0 != big_block_write(&bb, &ptr, &array)) {
+            fprintf(stderr, "failed to write: %s: %s\n", argv[2], big_file_get_error_message());
+            exit(1);
+        }
         offset += nread;
         countin += nread;
     }
     bb.size = offset;
     bb.fsize[0] = offset;
-    big_block_close(&bb);
+    if(0 != big_block_close(&bb)) {
+        fprintf(stderr, "failed to close: %s: %s\n", argv[2], big_file_get_error_message());
+        exit(1);
+    }
     big_file_close(&bf);
     return 0;
 }
-- 
2.43.0


From d9ed5c0bfd0058a722e9c745695db4e69f6da542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 22/44] fix: bigfile-copy never ended with a buffer smaller
 than a row

An attribute that could not be copied is an error, too.
---
 utils/bigfile-copy.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/utils/bigfile-copy.c b/utils/bigfile-copy.c
index f87efab..cee682e 100644
--- a/utils/bigfile-copy.c
+++ b/utils/bigfile-copy.c
@@ -84,12 +84,17 @@ int main(int argc, char * argv[]) {
     BigAttr * attrs = big_block_list_attrs(&bb, &nattr);
     for(i = 0; i < nattr; i ++) {
         BigAttr * attr = &attrs[i];
-        big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
+        if(0 != big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb)) {
+            fprintf(stderr, "failed to copy attribute: %s\n", big_file_get_error_message());
+            exit(1);
+        }
     }
     
     if(bb.nmemb > 0 && bb.size > 0) {
         /* copy data */
-        size_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
+        size_t rowsize = bb.nmemb * dtype_itemsize(bb.dtype);
+        /* always move at least one row at a time */
+        size_t chunksize = buffersize < rowsize ? 1 : buffersize / rowsize;
         BigBlockPtr ptrnew;
         ptrdiff_t offset;
         BigArray array;
-- 
2.43.0


From 378001cac689ee4269349730507ac662f03bd8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 23/44] fix: bigfile-set-attr wrote past its buffer, and
 ignored errors

Without -n the buffer was allocated before the number of values was known;
without -t the type pointed into the attribute being replaced, such that another
attribute's type could be used, or nowhere if there was no such attribute.
Errors of setting the attribute and of writing it were ignored.
---
 utils/bigfile-set-attr.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/utils/bigfile-set-attr.c b/utils/bigfile-set-attr.c
index 291741d..c4e17e3 100644
--- a/utils/bigfile-set-attr.c
+++ b/utils/bigfile-set-attr.c
@@ -60,15 +60,19 @@ int main(int argc, char * argv[]) {
     attr = big_block_lookup_attr(&bb, argv[3]);
     if(attr) {
         if(dtype == NULL) {
-            dtype = attr->dtype;
+            /* the attribute goes away when the new value is set */
+            strcpy(ndtype, attr->dtype);
+            dtype = ndtype;
         }
         if(nmemb == 0) {
             nmemb = attr->nmemb;
         }
     }
-    char * data = malloc(big_file_dtype_itemsize(dtype) * nmemb);
-
-    memset(data, 0, big_file_dtype_itemsize(dtype) * nmemb);
+    if(dtype == NULL) {
+        fprintf(stderr, "no such attribute: %s, the type must be given with -t\n", argv[3]);
+        exit(1);
+    }
+    char * data;
 
     if(big_file_dtype_kind(dtype) == 'S') {
         if (nmemb == 0) nmemb = strlen(argv[4]) + 1;
@@ -76,6 +80,7 @@ int main(int argc, char * argv[]) {
             fprintf(stderr, "nmemb and number of arguments mismatch\n");
             exit(1);
         }
+        data = calloc(nmemb + 1, big_file_dtype_itemsize(dtype) + 1);
         memcpy(data, argv[4], strlen(argv[4]) + 1); 
     } else {
         if (nmemb == 0) nmemb = argc - optind + 1 - 4;
@@ -83,19 +88,26 @@ int main(int argc, char * argv[]) {
             fprintf(stderr, "nmemb and number of arguments mismatch\n");
             exit(1);
         }
+        data = calloc(nmemb + 1, big_file_dtype_itemsize(dtype) + 1);
         for(i = 4; i < argc - optind + 1; i ++) {
             char * p = data + (i - 4) * big_file_dtype_itemsize(dtype);
             if(0 != big_file_dtype_parse(argv[i], dtype, p, NULL)) {
-                fprintf(stderr, "failed to parse the data `%s`\n", p);
+                fprintf(stderr, "failed to parse the data `%s`\n", argv[i]);
                 exit(1);
             }
         }
     }
 
-    big_block_set_attr(&bb, argv[3], data, dtype, nmemb);
+    if(0 != big_block_set_attr(&bb, argv[3], data, dtype, nmemb)) {
+        fprintf(stderr, "failed to set attribute: %s\n", big_file_get_error_message());
+        exit(1);
+    }
 
     free(data);
-    big_block_close(&bb);
+    if(0 != big_block_close(&bb)) {
+        fprintf(stderr, "failed to close block: %s\n", big_file_get_error_message());
+        exit(1);
+    }
     big_file_close(&bf);
     return 0;
 }
-- 
2.43.0


From 083bd00245f899378b67e213d7640ebd7cffa984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 24/44] fix: text that is not a number was parsed to
 uninitialised data

big_file_dtype_parse reports it as a failure.
---
 src/bigfile.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bigfile.c b/src/bigfile.c
index 8acb7b0..5d744ad 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1346,12 +1346,12 @@ big_file_dtype_parse(const char * buffer, const char * dtype, void * data, const
 #define PARSE1(dtype, defaultfmt) \
     if(0 == strcmp(ndtype + 1, # dtype)) { \
         if(fmt == NULL) fmt = defaultfmt; \
-        sscanf(buffer, fmt, p.dtype); \
+        if(1 != sscanf(buffer, fmt, p.dtype)) return -1; \
     }
 #define PARSE2(dtype, defaultfmt) \
     if(0 == strcmp(ndtype + 1, # dtype)) { \
         if(fmt == NULL) fmt = defaultfmt; \
-        sscanf(buffer, fmt, &p.dtype->r, &p.dtype->i); \
+        if(2 != sscanf(buffer, fmt, &p.dtype->r, &p.dtype->i)) return -1; \
     }
     PARSE1(a1, "%c") else
     PARSE1(i8, "%ld") else
-- 
2.43.0


From 3e7384ceb573f0fe252cfb81d5b9a9ff216587c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 25/44] fix: bigfile-copy-mpi and bigfile-sample-mpi did not
 end properly

A worker that failed to read or write did not make the tool fail.  The results
of the last pieces of work were never received, which may block the workers
forever.  With one process, or with a buffer smaller than a row, nothing ever
ended.  MPI was not finalised, for which mpirun reports a failure.
---
 utils/bigfile-copy-mpi.c   | 51 +++++++++++++++++++++++++++-----------
 utils/bigfile-sample-mpi.c | 46 ++++++++++++++++++++++++----------
 2 files changed, 69 insertions(+), 28 deletions(-)

diff --git a/utils/bigfile-copy-mpi.c b/utils/bigfile-copy-mpi.c
index 38451ec..1b340ff 100644
--- a/utils/bigfile-copy-mpi.c
+++ b/utils/bigfile-copy-mpi.c
@@ -27,7 +27,7 @@ size_t buffersize = 256 * 1024 * 1024;
 int ThisTask, NTask;
 char * newfilepath = NULL;
 void slave(void);
-void server(void);
+int server(void);
 
 int main(int argc, char * argv[]) {
 
@@ -62,6 +62,10 @@ int main(int argc, char * argv[]) {
     if(argc - optind + 1 != 4) {
         usage();
     }
+    if(NTask < 2) {
+        fprintf(stderr, "at least two processes are needed\n");
+        exit(1);
+    }
     argv += optind - 1;
     if(0 != big_file_mpi_open(&bf, argv[1], MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
@@ -96,17 +100,22 @@ int main(int argc, char * argv[]) {
     int i;
     for(i = 0; i < nattr; i ++) {
         BigAttr * attr = &attrs[i];
-        big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
+        if(0 != big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb)) {
+            fprintf(stderr, "failed to copy attribute: %s\n", big_file_get_error_message());
+            exit(1);
+        }
     }
 
+    int failed = 0;
     if(bb.nmemb > 0 && bb.size > 0) {
     /* copy data */
         if(ThisTask == 0) {
-            server();
+            failed = server();
         } else {
             slave();
         }
     }
+    MPI_Bcast(&failed, 1, MPI_INT, 0, MPI_COMM_WORLD);
     if(0 != big_block_mpi_close(&bbnew, MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to close new: %s\n", big_file_get_error_message());
         exit(1);
@@ -114,20 +123,37 @@ int main(int argc, char * argv[]) {
     big_block_mpi_close(&bb, MPI_COMM_WORLD);
     big_file_mpi_close(&bf, MPI_COMM_WORLD);
     big_file_mpi_close(&bfnew, MPI_COMM_WORLD);
+    if(failed) {
+        if(ThisTask == 0) fprintf(stderr, "some of the data could not be copied\n");
+        exit(1);
+    }
+    MPI_Type_free(&MPI_TYPE_WORK);
+    MPI_Finalize();
     return 0;
 }
 
-void server() {
-    int64_t chunksize = buffersize / (bb.nmemb * dtype_itemsize(bb.dtype));
-    int64_t offset;
-    int64_t work[2];
-    for(offset = 0; offset < bb.size; ) {
+/* Every worker reports once before each piece of work, or before it ends.
+ * Returns nonzero if a worker failed. */
+int server() {
+    size_t rowsize = bb.nmemb * dtype_itemsize(bb.dtype);
+    /* always move at least one row at a time */
+    int64_t chunksize = buffersize < rowsize ? 1 : buffersize / rowsize;
+    int64_t offset = 0;
+    int64_t work[2] = {0, 0};
+    int failed = 0;
+    int nworker = NTask - 1;
+    while(nworker > 0) {
         MPI_Status status;
         int result = 0;
         MPI_Recv(&result, 1, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD,
                 &status);
         if(status.MPI_TAG == ERROR_TAG) {
-            break;
+            failed = 1;
+        }
+        if(failed || offset >= bb.size) {
+            MPI_Send(work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, DIE_TAG, MPI_COMM_WORLD);
+            nworker --;
+            continue;
         }
 
         /* never read beyond my end (read_simple caps at EOF) */
@@ -143,12 +169,7 @@ void server() {
             fprintf(stderr, "%ld / %td done (%0.4g%%)\r", offset, bb.size, (100. / bb.size) * offset);
         }
     }
-    int i;
-    for(i = 1; i < NTask; i ++) {
-        int64_t work[2];
-        MPI_Send(work, 1, MPI_TYPE_WORK, i, DIE_TAG, MPI_COMM_WORLD);
-    }
-
+    return failed;
 }
 void slave() {
     int result = 0;
diff --git a/utils/bigfile-sample-mpi.c b/utils/bigfile-sample-mpi.c
index 3dcf31b..d8439c1 100644
--- a/utils/bigfile-sample-mpi.c
+++ b/utils/bigfile-sample-mpi.c
@@ -30,7 +30,7 @@ size_t CHUNKSIZE = 1 * 1024 * 1024;
 int ThisTask, NTask;
 char * newfilepath = NULL;
 void slave(void);
-void server(void);
+int server(void);
 
 double ratio = 1.0;
 struct work {
@@ -76,6 +76,10 @@ int main(int argc, char * argv[]) {
     if(argc - optind + 1 != 4) {
         usage();
     }
+    if(NTask < 2) {
+        fprintf(stderr, "at least two processes are needed\n");
+        exit(1);
+    }
     argv += optind - 1;
     if(0 != big_file_mpi_open(&bf, argv[1], MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to open: %s\n", big_file_get_error_message());
@@ -107,17 +111,22 @@ int main(int argc, char * argv[]) {
     int i;
     for(i = 0; i < nattr; i ++) {
         BigAttr * attr = &attrs[i];
-        big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb);
+        if(0 != big_block_set_attr(&bbnew, attr->name, attr->data, attr->dtype, attr->nmemb)) {
+            fprintf(stderr, "failed to copy attribute: %s\n", big_file_get_error_message());
+            exit(1);
+        }
     }
 
+    int failed = 0;
     if(bb.nmemb > 0 && bb.size > 0) {
     /* copy data */
         if(ThisTask == 0) {
-            server();
+            failed = server();
         } else {
             slave();
         }
     }
+    MPI_Bcast(&failed, 1, MPI_INT, 0, MPI_COMM_WORLD);
     if(0 != big_block_mpi_close(&bbnew, MPI_COMM_WORLD)) {
         fprintf(stderr, "failed to close new: %s\n", big_file_get_error_message());
         exit(1);
@@ -125,6 +134,12 @@ int main(int argc, char * argv[]) {
     big_block_mpi_close(&bb, MPI_COMM_WORLD);
     big_file_mpi_close(&bf, MPI_COMM_WORLD);
     big_file_mpi_close(&bfnew, MPI_COMM_WORLD);
+    if(failed) {
+        if(ThisTask == 0) fprintf(stderr, "some of the data could not be copied\n");
+        exit(1);
+    }
+    MPI_Type_free(&MPI_TYPE_WORK);
+    MPI_Finalize();
     return 0;
 }
 static size_t filesize() {
@@ -156,20 +171,29 @@ static size_t filesize() {
     }
     return offsetnew;
 }
-void server() {
+/* Every worker reports once before each piece of work, or before it ends.
+ * Returns nonzero if a worker failed. */
+int server() {
     int64_t offset = 0;
     int64_t offsetnew = 0;
-    struct work work;
+    struct work work = {0};
+    int failed = 0;
+    int nworker = NTask - 1;
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_mt19937);
     gsl_rng_set(rng, 1984);
-    for(offset = 0; offset < bb.size; ) {
+    while(nworker > 0) {
         int64_t chunksize = CHUNKSIZE;
         MPI_Status status;
         int result = 0;
         MPI_Recv(&result, 1, MPI_INT, MPI_ANY_SOURCE, MPI_ANY_TAG, MPI_COMM_WORLD,
                 &status);
         if(status.MPI_TAG == ERROR_TAG) {
-            break;
+            failed = 1;
+        }
+        if(failed || offset >= bb.size) {
+            MPI_Send(&work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, DIE_TAG, MPI_COMM_WORLD);
+            nworker --;
+            continue;
         }
 
         /* never read beyond my end (read_simple caps at EOF) */
@@ -194,12 +218,8 @@ void server() {
             fprintf(stderr, "%td / %td done (%0.4g%%)\r", offset, bb.size, (100. / bb.size) * offset);
         }
     }
-    int i;
-    for(i = 1; i < NTask; i ++) {
-        struct work work;
-        MPI_Send(&work, 1, MPI_TYPE_WORK, i, DIE_TAG, MPI_COMM_WORLD);
-    }
-
+    gsl_rng_free(rng);
+    return failed;
 }
 void slave() {
     gsl_rng * rng = gsl_rng_alloc(gsl_rng_mt19937);
-- 
2.43.0


From a7f8e68fe757426b6d94fce26a48ced4da60dcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:26 +0000
Subject: [PATCH 26/44] fix: bigfile-sample-mpi aborted when it drew more rows
 than there are

The number of rows drawn from a chunk is random, and is now limited to the
rows of the chunk.
---
 utils/bigfile-sample-mpi.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/utils/bigfile-sample-mpi.c b/utils/bigfile-sample-mpi.c
index d8439c1..41dac11 100644
--- a/utils/bigfile-sample-mpi.c
+++ b/utils/bigfile-sample-mpi.c
@@ -164,6 +164,8 @@ static size_t filesize() {
             work.nsel = chunksize;
         } else {
             work.nsel = gsl_ran_poisson(rng, chunksize * ratio);
+            /* every row is drawn at most once */
+            if(work.nsel > chunksize) work.nsel = chunksize;
         }
 
         offset += chunksize;
@@ -209,6 +211,8 @@ int server() {
             work.nsel = chunksize;
         } else {
             work.nsel = gsl_ran_poisson(rng, chunksize * ratio);
+            /* every row is drawn at most once */
+            if(work.nsel > chunksize) work.nsel = chunksize;
         }
         MPI_Send(&work, 1, MPI_TYPE_WORK, status.MPI_SOURCE, WORK_TAG, MPI_COMM_WORLD);
 
@@ -257,6 +261,7 @@ void slave() {
         if(0 != big_block_read_simple(&bb, offset, chunksize, &array, NULL)) {
             fprintf(stderr, "failed to read original: %s\n", big_file_get_error_message());
             result = -1;
+            free(arraynew.data);
             goto bad;
         }
         q = array.data;
-- 
2.43.0


From 52f4123555dc5a537db64c44589684993af193c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 27/44] fix: Python took a failure to list or to unpickle a
 file for success

An unreadable file had no blocks, and a file unpickled where it does not exist
crashed the interpreter when it was used.
---
 bigfile/pyxbigfile.pyx | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 62b27fd..51de4cf 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -172,11 +172,13 @@ cdef class FileLowLevelAPI:
         filename = filename.encode()
         cdef char * filenameptr = filename
 
-        self._deallocated = deallocated
-
         if not deallocated:
             with nogil:
                 rt = big_file_open(&self.bf, filenameptr)
+            if rt != 0:
+                raise Error()
+
+        self._deallocated = deallocated
 
     property basename:
         def __get__(self):
@@ -186,7 +188,9 @@ cdef class FileLowLevelAPI:
         cdef char ** list
         cdef int N
         with nogil:
-            big_file_list(&self.bf, &list, &N)
+            rt = big_file_list(&self.bf, &list, &N)
+        if rt != 0:
+            raise Error()
         try:
             return sorted([str(list[i].decode()) for i in range(N)])
         finally:
-- 
2.43.0


From 8cc439da42e3e7b149ddcf7b0cc9b2e17d4b2cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 28/44] fix: Python slices without rows, and the last row, were
 misread

A slice that ends before it starts is empty: one that ended a row before its
start returned everything to the end, others failed.  The index -1 failed.
Assigning to a slice wrote as many rows as were given, whatever the slice.
---
 bigfile/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 9326613..01e0381 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -31,14 +31,15 @@ def _enhance_slicefunc(getitem, returns_none):
         elif index is Ellipsis:
             return getitem(self, slice(None, None, None), *args)
         elif numpy.isscalar(index):
-            index = slice(index, index + 1)
+            # -1 is the last one
+            index = slice(index, index + 1 if index != -1 else None)
             if returns_none:
                return getitem(self, index, *args)
             else:
                return getitem(self, index, *args)[0]
         else:
             raise TypeError("Expecting a slice or a scalar, got a `%s`" %
-                    str(type(sl)))
+                    str(type(index)))
     return enhanced
 
 def _enhance_getslice(getitem):
@@ -70,7 +71,7 @@ class Column(ColumnLowLevelAPI):
             start, end, stop = sl.indices(self.size)
             if stop != 1:
                 raise ValueError('must request a contiguous chunk')
-            return self.read(start, end-start)
+            return self.read(start, max(end-start, 0))
         else:
             raise TypeError('Expecting a slice, got a `%s`' % str(type(sl)))
 
@@ -82,6 +83,9 @@ class Column(ColumnLowLevelAPI):
             start, end, stop = sl.indices(self.size)
             if stop != 1:
                 raise ValueError('must request a contiguous chunk')
+            items = int(numpy.prod(self.dtype.shape))
+            if numpy.size(value) != max(end-start, 0) * items:
+                raise ValueError('the number of rows mismatches with the request')
             self.write(start, value)
         else:
             raise TypeError('Expecting a slice, got a `%s`' % str(type(sl)))
@@ -364,6 +368,7 @@ class Dataset(pyxbigfile.Dataset):
                     str(type(sl)))
         start, end, stop = sl.indices(self.size)
         assert stop == 1
+        end = max(start, end)
         result = numpy.empty(end - start, dtype=self.dtype)
         return self.read(start, end - start, result)
 
@@ -375,7 +380,7 @@ class Dataset(pyxbigfile.Dataset):
         start, end, stop = sl.indices(self.size)
         assert stop == 1
         assert value.dtype == self.dtype
-        assert len(value) == end - start
+        assert len(value) == max(end - start, 0)
         return self.write(start, value)
 
     def __getitem__(self, sl):
-- 
2.43.0


From c889413a048ec1cc0ed221be8637dc4ebe9b54ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 29/44] fix: Python read an empty text attribute as a NUL
 character

Characters at the end that are NUL are kept, an empty text has no characters.
---
 bigfile/pyxbigfile.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 51de4cf..341e460 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -256,7 +256,7 @@ cdef class AttrSet:
 
         if isstr(value):
             dtype = b'a1'
-            value = numpy.array(str(value).encode()).ravel().view(dtype='S1').ravel()
+            value = numpy.frombuffer(str(value).encode(), dtype='S1')
         else:
             value = numpy.array(value).ravel()
 
-- 
2.43.0


From cc79e36aad00a36ba183fc85531bc7bf3c060542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 30/44] fix: Python datasets transferred strided arrays as if
 they were contiguous

Writing a strided array stored other records, reading into one filled others,
and an output array that is too small was overrun.  The shape follows the size
when records are appended.
---
 bigfile/pyxbigfile.pyx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 341e460..842c3a0 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -637,10 +637,16 @@ cdef class Dataset:
     def read(self, numpy.intp_t start, numpy.intp_t length, numpy.ndarray out=None):
         if out is None:
             out = numpy.empty(length, self.dtype)
+        if out.dtype != self.dtype or out.ndim != 1 or out.shape[0] != length:
+            raise ValueError("output array mismatches with the request")
+        # the records are adjacent in the buffer
+        cdef numpy.ndarray buf = out if out.flags.c_contiguous else numpy.empty(length, self.dtype)
         with nogil:
-            rt = big_file_read_records(&self.file.bf, &self.rtype, start, length, out.data)
+            rt = big_file_read_records(&self.file.bf, &self.rtype, start, length, buf.data)
         if rt != 0:
             raise Error()
+        if buf is not out:
+            out[...] = buf
         return out
 
     def _create_records(self, numpy.intp_t size, numpy.intp_t Nfile=1, char * mode=b"w+"):
@@ -661,6 +667,7 @@ cdef class Dataset:
         if rt != 0:
             raise Error()
         self.size = self.size + size
+        self.shape = (self.size, )
 
     def append(self, numpy.ndarray buf, numpy.intp_t Nfile=1):
         assert buf.dtype == self.dtype
@@ -672,6 +679,8 @@ cdef class Dataset:
     def write(self, numpy.intp_t start, numpy.ndarray buf):
         assert buf.dtype == self.dtype
         assert buf.ndim == 1
+        # the records are adjacent in the buffer
+        buf = numpy.ascontiguousarray(buf)
         with nogil:
             rt = big_file_write_records(&self.file.bf, &self.rtype, start, buf.shape[0], buf.data)
         if rt != 0:
-- 
2.43.0


From a63803128ad6fecce8d3a508dac9fb758ce928c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:39 +0000
Subject: [PATCH 31/44] fix: Python could not create a block with a small
 memory limit

A limit of less than 1024 rows was rounded down to none at all.
---
 bigfile/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 01e0381..31b290d 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -185,7 +185,7 @@ class File(FileBase):
 
         # write memorylimit bytes at most (256M bytes)
         # round to 1024 items
-        itemlimit = memorylimit // dtype.itemsize // 1024 * 1024
+        itemlimit = max(memorylimit // dtype.itemsize // 1024 * 1024, 1024)
 
         with self.create(blockname, dtype, size, Nfile) as b:
             for i in range(0, len(array), itemlimit):
@@ -315,7 +315,7 @@ class FileMPI(FileBase):
 
         # write memorylimit bytes at most (256M bytes)
         # round to 1024 items
-        itemlimit = memorylimit // dtype.itemsize // 1024 * 1024
+        itemlimit = max(memorylimit // dtype.itemsize // 1024 * 1024, 1024)
 
         with self.create(blockname, dtype, size, Nfile) as b:
             for i in range(0, len(array), itemlimit):
-- 
2.43.0


From ebfda2ee02445f922538742a228f03bdbc9a5868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 32/44] fix: Python MPI columns counted checksums once per rank

After open and flush every rank had the checksums of what is stored, and the
next flush added all of them.  As in C, they are collected on the root.  An open
that failed on another rank raised a NameError.
---
 bigfile/__init__.py    |  4 +++-
 bigfile/pyxbigfile.pyx | 12 ++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 31b290d..b41431c 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -226,7 +226,9 @@ class ColumnMPI(Column):
         finally:
             error = self.comm.allgather(error)
         if any(error):
-            raise RuntimeException("open failed on other rank(s)")
+            raise Error("open failed on other rank(s)")
+        if self.comm.rank != 0:
+            self._MPI_clear_checksum()
         return r
 
     def close(self):
diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 842c3a0..fe4409f 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -71,6 +71,7 @@ cdef extern from "bigfile.h":
 
     int big_block_flush(CBigBlock * block) nogil
     int big_block_set_dirty(CBigBlock * block, int dirty) nogil
+    void big_attrset_set_dirty(CBigAttrSet * attrset, int dirty) nogil
     int big_block_seek(CBigBlock * bb, CBigBlockPtr * ptr, ptrdiff_t offset) nogil
     int big_block_seek_rel(CBigBlock * bb, CBigBlockPtr * ptr, ptrdiff_t rel) nogil
     int big_block_read(CBigBlock * bb, CBigBlockPtr * ptr, CBigArray * array) nogil
@@ -514,6 +515,16 @@ cdef class ColumnLowLevelAPI:
         if rt != 0:
             raise Error()
 
+    def _MPI_clear_checksum(self):
+        """ The checksums of what is stored are collected on the root; the other
+            ranks count only what they write until the next flush, and never
+            write the header on their own.
+        """
+        for i in range(self.bb.Nfile):
+            self.bb.fchecksum[i] = 0
+        big_block_set_dirty(&self.bb, 0)
+        big_attrset_set_dirty(self.bb.attrset, 0)
+
     def _MPI_broadcast(self, root, comm):
 
         cdef void * buf
@@ -532,6 +543,7 @@ cdef class ColumnLowLevelAPI:
         if comm.rank != root:
             _big_block_close_internal(&self.bb)
             _big_block_unpack(&self.bb, container.data)
+            self._MPI_clear_checksum()
 
         if comm.rank == root:
             free(buf)
-- 
2.43.0


From e0bb876c844a6ecec16437a682e5c3ce1c1dbd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 33/44] fix: Python MPI operations that failed on one rank hung
 the others

Creating, opening and listing on the root, and writing, could fail on one rank
only, and the other ranks waited for it forever.
---
 bigfile/__init__.py | 48 ++++++++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index b41431c..95da722 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -196,6 +196,21 @@ class File(FileBase):
     def subfile(self, key):
         return File(os.path.join(self.basename, key.lstrip('/')))
 
+class _collective(object):
+    """ What follows is left on all ranks of comm if it failed on any. """
+    def __init__(self, comm):
+        self.comm = comm
+
+    def __enter__(self):
+        return self
+
+    def __exit__(self, type, value, tb):
+        errors = self.comm.allgather(None if type is None else str(value))
+        if type is None:
+            for rank, error in enumerate(errors):
+                if error is not None:
+                    raise Error("failed on rank %d: %s" % (rank, error))
+
 class ColumnMPI(Column):
     def __init__(self, comm):
         self.comm = comm
@@ -205,9 +220,10 @@ class ColumnMPI(Column):
         if not check_unique(blockname, self.comm):
             raise BigFileError("blockname is inconsistent between ranks")
 
-        if self.comm.rank == 0:
-            super(ColumnMPI, self).create(f, blockname, dtype, size, Nfile)
-            super(ColumnMPI, self).close()
+        with _collective(self.comm):
+            if self.comm.rank == 0:
+                super(ColumnMPI, self).create(f, blockname, dtype, size, Nfile)
+                super(ColumnMPI, self).close()
         return self.open(f, blockname)
 
     @_enhance_getslice
@@ -219,14 +235,8 @@ class ColumnMPI(Column):
             raise BigFileError("blockname is inconsistent between ranks")
 
         self.comm.barrier()
-        try:
-            error = True
+        with _collective(self.comm):
             r = super(ColumnMPI, self).open(f, blockname)
-            error = False
-        finally:
-            error = self.comm.allgather(error)
-        if any(error):
-            raise Error("open failed on other rank(s)")
         if self.comm.rank != 0:
             self._MPI_clear_checksum()
         return r
@@ -253,7 +263,8 @@ class FileMPI(FileBase):
             # if create failed, the next open will fail, collectively
 
         comm.barrier()
-        FileBase.__init__(self, filename, create=False)
+        with _collective(comm):
+            FileBase.__init__(self, filename, create=False)
         self.comm = comm
         self.refresh()
 
@@ -263,11 +274,11 @@ class FileMPI(FileBase):
 
     def refresh(self):
         """ Refresh the list of blocks to the disk, collectively """
-        if self.comm.rank == 0:
-            self._blocks = self.list_blocks()
-        else:
-            self._blocks = None
-        self._blocks = self.comm.bcast(self._blocks)
+        blocks = None
+        with _collective(self.comm):
+            if self.comm.rank == 0:
+                blocks = self.list_blocks()
+        self._blocks = self.comm.bcast(blocks)
 
     def open(self, blockname):
         block = ColumnMPI(self.comm)
@@ -320,8 +331,9 @@ class FileMPI(FileBase):
         itemlimit = max(memorylimit // dtype.itemsize // 1024 * 1024, 1024)
 
         with self.create(blockname, dtype, size, Nfile) as b:
-            for i in range(0, len(array), itemlimit):
-                b.write(offset + i, numpy.array(array[i:i+itemlimit]))
+            with _collective(self.comm):
+                for i in range(0, len(array), itemlimit):
+                    b.write(offset + i, numpy.array(array[i:i+itemlimit]))
 
         return self.open(blockname)
 
-- 
2.43.0


From f8a678aeab69ea3c69daea4d716cc4c11a62aa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:16 +0000
Subject: [PATCH 34/44] fix: text attributes were shown as the name of their
 type

---
 src/bigfile.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bigfile.c b/src/bigfile.c
index 5d744ad..e6d6ce3 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -1267,6 +1267,7 @@ typedef struct {double r; double i;} cplx128_t;
 typedef struct {float r; float i;} cplx64_t;
 typedef union {
     char *a1;
+    char *S1;
     char *b1;
     int64_t *i8;
     uint64_t *u8;
@@ -1313,6 +1314,7 @@ big_file_dtype_format(char * buffer, const char * dtype, const void * data, cons
     } else
 
     FORMAT1(a1, "%c")
+    FORMAT1(S1, "%c")
     FORMAT1(b1, "%d")
     FORMAT1(i8, "%ld")
     FORMAT1(i4, "%d")
@@ -1354,6 +1356,7 @@ big_file_dtype_parse(const char * buffer, const char * dtype, void * data, const
         if(2 != sscanf(buffer, fmt, &p.dtype->r, &p.dtype->i)) return -1; \
     }
     PARSE1(a1, "%c") else
+    PARSE1(S1, "%c") else
     PARSE1(i8, "%ld") else
     PARSE1(i4, "%d") else
     PARSE1(u8, "%lu") else
-- 
2.43.0


From 9a5e2439ada7f1f8e0f975ea2f79187d3b99127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:22 +0000
Subject: [PATCH 35/44] fix: bigfile-create of no rows left a block of 2^64 - 1
 rows

---
 utils/bigfile-create.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/utils/bigfile-create.c b/utils/bigfile-create.c
index b4510ef..e1ef2d5 100644
--- a/utils/bigfile-create.c
+++ b/utils/bigfile-create.c
@@ -94,6 +94,8 @@ int main(int argc, char * argv[]) {
     }
     bb.size = offset;
     bb.fsize[0] = offset;
+    /* also when there was no row to write */
+    big_block_set_dirty(&bb, 1);
     if(0 != big_block_close(&bb)) {
         fprintf(stderr, "failed to close: %s: %s\n", argv[2], big_file_get_error_message());
         exit(1);
-- 
2.43.0


From a4d44439c9912f3c12747813aa54560abcb03258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:36 +0000
Subject: [PATCH 36/44] fix: a column opened or created a second time freed the
 first block twice or never

ColumnLowLevelAPI.create and open load a new block into the handle without
letting go of the one it may already hold, and when the library then refuses,
the handle is left with the pointers of the first one, which are freed again
with the object. ColumnMPI.create does this on the root.
---
 bigfile/pyxbigfile.pyx | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index fe4409f..67c5674 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -355,9 +355,19 @@ cdef class ColumnLowLevelAPI:
         if not deallocated:
             _big_block_unpack(&self.bb, container.data)
 
+    def _release(self):
+        """ let go of the block that was open so far """
+        if not self._deallocated:
+            self._deallocated = True
+            with nogil:
+                rt = big_block_close(&self.bb)
+            if rt != 0:
+                raise Error()
+
     def open(self, FileLowLevelAPI f, blockname):
         blockname = blockname.encode()
         cdef char * blocknameptr = blockname
+        self._release()
         with nogil:
             rt = big_file_open_block(&f.bf, &self.bb, blocknameptr)
         if rt != 0:
@@ -376,6 +386,7 @@ cdef class ColumnLowLevelAPI:
 
         blocknameptr = blockname
         if dtype is None:
+            self._release()
             with nogil:
                 rt = big_file_create_block(&f.bf, &self.bb, blocknameptr, NULL,
                         0, 0, NULL)
@@ -398,6 +409,7 @@ cdef class ColumnLowLevelAPI:
                      - (numpy.arange(Nfile)) * size // Nfile
             dtype2 = dtype.base.str.encode()
             dtypeptr = dtype2
+            self._release()
             with nogil:
                 rt = big_file_create_block(&f.bf, &self.bb, blocknameptr,
                     dtypeptr,
-- 
2.43.0


From 0afdf0ea96317ae8243c5a638f6c31d521f24ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 37/44] fix: FileMPI.subfile left the file for a key with a
 leading slash

---
 bigfile/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bigfile/__init__.py b/bigfile/__init__.py
index 95da722..610c67e 100644
--- a/bigfile/__init__.py
+++ b/bigfile/__init__.py
@@ -286,7 +286,7 @@ class FileMPI(FileBase):
         return block
 
     def subfile(self, key):
-        return FileMPI(self.comm, os.path.join(self.basename, key))
+        return FileMPI(self.comm, os.path.join(self.basename, key.lstrip('/')))
 
     def create(self, blockname, dtype=None, size=None, Nfile=1):
         block = ColumnMPI(self.comm)
-- 
2.43.0


From 3f9b84c407ebabcef266ee19540a1b58d9797447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:21 +0000
Subject: [PATCH 38/44] fix: transfers and closing on MPI_COMM_NULL crashed
 while the other calls do nothing

---
 src/bigfile-mpi.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index bcdcd88..09b7bd1 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -271,6 +271,7 @@ big_block_mpi_grow(BigBlock * bb,
 int
 big_block_mpi_grow_simple(BigBlock * bb, int Nfile_grow, size_t size_grow, MPI_Comm comm)
 {
+    if(comm == MPI_COMM_NULL) return 0;
     size_t fsize[Nfile_grow];
     int i;
     for(i = 0; i < Nfile_grow; i ++) {
@@ -333,6 +334,7 @@ big_block_mpi_flush(BigBlock * block, MPI_Comm comm)
 
 }
 int big_block_mpi_close(BigBlock * block, MPI_Comm comm) {
+    if(comm == MPI_COMM_NULL) return 0;
 
     int rt = big_block_mpi_flush(block, comm);
     _big_block_close_internal(block);
@@ -431,6 +433,8 @@ _throttle_action(MPI_Comm comm, int concurrency, BigBlock * block,
 {
     int ThisTask, NTask;
 
+    if(comm == MPI_COMM_NULL) return 0;
+
     MPI_Comm_size(comm, &NTask);
     MPI_Comm_rank(comm, &ThisTask);
 
-- 
2.43.0


From 49ff864341b8e3072863572da04cf9e99daa2edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 39/44] fix: bigfile-iosim reported failures as success, and
 hung when it could not create its file

---
 utils/bigfile-iosim.c | 53 ++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/utils/bigfile-iosim.c b/utils/bigfile-iosim.c
index 625b8f5..985f3f1 100644
--- a/utils/bigfile-iosim.c
+++ b/utils/bigfile-iosim.c
@@ -55,7 +55,7 @@ size_t size = 1024;
 int mode = MODE_CREATE;
 int purge = 0;
 
-static void
+static int
 iosim(char * filename)
 {
     size_t elsize = 8;
@@ -92,14 +92,14 @@ iosim(char * filename)
         case MODE_CREATE:
             info("Creating BigFile\n");
             t0 = MPI_Wtime();
-            big_file_mpi_create(&bf, filename, MPI_COMM_WORLD);
+            if(0 != big_file_mpi_create(&bf, filename, MPI_COMM_WORLD)) goto failed;
             t1 = MPI_Wtime();
             trank.create += t1 - t0;
             info("Created BigFile\n");
 
             info("Creating BigBlock\n");
             t0 = MPI_Wtime();
-            big_file_mpi_create_block(&bf, &bb, "TestBlock", "i8", nmemb, Nfile, size, MPI_COMM_WORLD);
+            if(0 != big_file_mpi_create_block(&bf, &bb, "TestBlock", "i8", nmemb, Nfile, size, MPI_COMM_WORLD)) goto failed;
             t1 = MPI_Wtime();
             trank.create += t1 - t0;
             info("Created BigBlock\n");
@@ -109,17 +109,14 @@ iosim(char * filename)
         case MODE_READ:
             info("Opening BigFile\n");
             t0 = MPI_Wtime();
-            if(0 != big_file_mpi_open(&bf, filename, MPI_COMM_WORLD)) {
-                printf("%s\n", big_file_get_error_message()); 
-                return;
-            }
+            if(0 != big_file_mpi_open(&bf, filename, MPI_COMM_WORLD)) goto failed;
             t1 = MPI_Wtime();
             trank.open += t1 - t0;
             info("Opened BigFile\n");
 
             info("Opening BigBlock\n");
             t0 = MPI_Wtime();
-            big_file_mpi_open_block(&bf, &bb, "TestBlock", MPI_COMM_WORLD);
+            if(0 != big_file_mpi_open_block(&bf, &bb, "TestBlock", MPI_COMM_WORLD)) goto failed;
             t1 = MPI_Wtime();
             trank.open += t1 - t0;
             info("Opened BigBlock\n");
@@ -131,19 +128,16 @@ iosim(char * filename)
         case MODE_GROW:
             info("Growing BigFile\n");
             t0 = MPI_Wtime();
-            if (0 != big_file_mpi_open(&bf, filename, MPI_COMM_WORLD)) {
-                printf("%s\n", big_file_get_error_message()); 
-                return;
-            }
+            if (0 != big_file_mpi_open(&bf, filename, MPI_COMM_WORLD)) goto failed;
             t1 = MPI_Wtime();
             trank.open += t1 - t0;
             info("Opened BigFile\n");
 
             info("Opening BigBlock\n");
             t0 = MPI_Wtime();
-            big_file_mpi_open_block(&bf, &bb, "TestBlock", MPI_COMM_WORLD);
+            if (0 != big_file_mpi_open_block(&bf, &bb, "TestBlock", MPI_COMM_WORLD)) goto failed;
             oldsize = bb.size;
-            big_block_mpi_grow_simple(&bb, Nfile, size, MPI_COMM_WORLD);
+            if (0 != big_block_mpi_grow_simple(&bb, Nfile, size, MPI_COMM_WORLD)) goto failed;
             t1 = MPI_Wtime();
             trank.open += t1 - t0;
             info("Opened BigBlock\n");
@@ -196,9 +190,7 @@ iosim(char * filename)
             info("Initialized FakeData\n");
             info("Writing BigBlock\n");
             t0 = MPI_Wtime();
-            if(0 != big_block_mpi_write(&bb, &ptr, &array, Nwriter, MPI_COMM_WORLD)) {
-                info("Error occured: %s\n", big_file_get_error_message());
-            }
+            if(0 != big_block_mpi_write(&bb, &ptr, &array, Nwriter, MPI_COMM_WORLD)) goto failed;
             t1 = MPI_Wtime();
             trank.write += t1 - t0;
             info("Written BigBlock\n");
@@ -208,9 +200,7 @@ iosim(char * filename)
             info("Reading BigBlock\n");
 
             t0 = MPI_Wtime();
-            if(0 != big_block_mpi_read(&bb, &ptr, &array, Nwriter, MPI_COMM_WORLD)) {
-                info("Error occured: %s\n", big_file_get_error_message());
-            }
+            if(0 != big_block_mpi_read(&bb, &ptr, &array, Nwriter, MPI_COMM_WORLD)) goto failed;
             t1 = MPI_Wtime();
             trank.read += t1 - t0;
             info("Reading took %f seconds\n", trank.read);
@@ -234,14 +224,14 @@ iosim(char * filename)
 
     info("Closing BigBlock\n");
     t0 = MPI_Wtime();
-    big_block_mpi_close(&bb, MPI_COMM_WORLD);
+    if(0 != big_block_mpi_close(&bb, MPI_COMM_WORLD)) goto failed;
     t1 = MPI_Wtime();
     trank.close += t1 - t0;
     info("Closed BigBlock\n");
 
     info("Closing BigFile\n");
     t0 = MPI_Wtime();
-    big_file_mpi_close(&bf, MPI_COMM_WORLD);
+    if(0 != big_file_mpi_close(&bf, MPI_COMM_WORLD)) goto failed;
     t1 = MPI_Wtime();
     trank.close += t1 - t0;
     info("Closed BigFile\n");
@@ -258,7 +248,7 @@ iosim(char * filename)
         sprintf(timelog, "%s/%s-timelog", filename, MODES[mode]);
         FILE * fp = fopen(timelog, "a+");
         if (!fp){
-            info("iosim.c: Couldn't open file %s for writting!\n", timelog);
+            printf("iosim.c: Couldn't open file %s for writting!\n", timelog);
         }
         else{
             fprintf(fp, "# mode\tNfile\tranks\twriters\titems\tnmemb\n"
@@ -270,10 +260,16 @@ iosim(char * filename)
                 fprintf(fp, "%04td\t%012.8f\t%012.8f\t%012.8f\t%012.8f\t%012.8f\n",
                     i, times[i].create, times[i].open, times[i].write, times[i].read, times[i].close);
             }
+            fclose(fp);
         }
-        fclose(fp);
     }
     free(times);
+    return 0;
+
+failed:
+    /* the collective calls fail on all ranks */
+    info("Error occured: %s\n", big_file_get_error_message());
+    return 1;
 }
 
 char * getoptstr = "hf:n:s:w:m:Ap";
@@ -304,6 +300,7 @@ int main(int argc, char * argv[]) {
     
     int i;
     int ch;
+    int rt = 0;
     char * filename = alloca(1500);
     
     while(-1 != (ch = getopt(argc, argv, getoptstr))) {
@@ -358,6 +355,10 @@ int main(int argc, char * argv[]) {
     }
 
     optind++;
+    if(optind == argc) {
+        usage();
+        goto byebye;
+    }
 
     sprintf(filename, "%s", argv[optind]);
 
@@ -372,7 +373,7 @@ int main(int argc, char * argv[]) {
         Nfile = Nwriter;
     }
 
-    iosim(filename);
+    rt = iosim(filename);
 
     if (purge) {
         if(ThisTask == 0) {
@@ -384,5 +385,5 @@ int main(int argc, char * argv[]) {
 //+++++++++++++++++ Writing Time Log +++++++++++++++++
 byebye:
     MPI_Finalize();
-    return 0;
+    return rt;
 }
-- 
2.43.0


From 80fe74bfb5e098eaf0c78c5c4c28ea401f33c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 40/44] fix: bigfile-iosim grow started the row numbers over,
 so that read called the block corrupted

---
 utils/bigfile-iosim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/bigfile-iosim.c b/utils/bigfile-iosim.c
index 985f3f1..d6fa133 100644
--- a/utils/bigfile-iosim.c
+++ b/utils/bigfile-iosim.c
@@ -184,7 +184,7 @@ iosim(char * filename)
             for(i = 0; i < localsize; i ++) {
                 int j;
                 for(j = 0; j < nmemb; j ++) {
-                    fakedata[i * nmemb + j] = start + i;
+                    fakedata[i * nmemb + j] = oldsize + start + i;
                 }
             }
             info("Initialized FakeData\n");
-- 
2.43.0


From a6cd359c27a646978b6449f47f1487ca161a3d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:58 +0000
Subject: [PATCH 41/44] fix: bigfile-iosim -p removed other files when the name
 of the file holds blanks or quotes

---
 utils/bigfile-iosim.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/utils/bigfile-iosim.c b/utils/bigfile-iosim.c
index d6fa133..21b54d9 100644
--- a/utils/bigfile-iosim.c
+++ b/utils/bigfile-iosim.c
@@ -301,7 +301,7 @@ int main(int argc, char * argv[]) {
     int i;
     int ch;
     int rt = 0;
-    char * filename = alloca(1500);
+    char * filename;
     
     while(-1 != (ch = getopt(argc, argv, getoptstr))) {
         switch(ch) {
@@ -360,7 +360,7 @@ int main(int argc, char * argv[]) {
         goto byebye;
     }
 
-    sprintf(filename, "%s", argv[optind]);
+    filename = argv[optind];
 
     if (Nwriter > NTask || Nwriter == 0) {
         info("############## CAUTION: you chose %d ranks and %d writers! ##############\n"
@@ -377,8 +377,15 @@ int main(int argc, char * argv[]) {
 
     if (purge) {
         if(ThisTask == 0) {
-            char buffer[1500];
-            sprintf(buffer, "rm -rf %s/TestBlock", filename);
+            /* the name is one word of the command whatever characters are in it */
+            char * buffer = alloca(4 * strlen(filename) + 100);
+            char * b = buffer + sprintf(buffer, "rm -rf -- '");
+            char * c;
+            for(c = filename; *c; c ++) {
+                if(*c == '\'') b += sprintf(b, "'\\''");
+                else *b++ = *c;
+            }
+            sprintf(b, "/TestBlock'");
             system(buffer);
         }
     }
-- 
2.43.0


From e180d22104c1e1d6a9fdb4ff60b9bee64d19a93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:57 +0000
Subject: [PATCH 42/44] fix: failed opens and creations leaked memory on every
 rank

---
 src/bigfile-mpi.c | 12 +++++++++---
 src/bigfile.c     | 13 +++++--------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/bigfile-mpi.c b/src/bigfile-mpi.c
index 09b7bd1..1646ff2 100644
--- a/src/bigfile-mpi.c
+++ b/src/bigfile-mpi.c
@@ -51,7 +51,9 @@ int big_file_mpi_open(BigFile * bf, const char * basename, MPI_Comm comm) {
         rt = 0;
     }
 
-    BCAST_AND_RAISEIF(rt, comm);
+    if(0 != (rt = big_file_mpi_broadcast_anyerror(rt, comm)) && rank != 0) {
+        big_file_close(bf);
+    }
 
     return rt;
 }
@@ -68,7 +70,9 @@ int big_file_mpi_create(BigFile * bf, const char * basename, MPI_Comm comm) {
         bf->basename = _strdup(basename);
         rt = 0;
     }
-    BCAST_AND_RAISEIF(rt, comm);
+    if(0 != (rt = big_file_mpi_broadcast_anyerror(rt, comm)) && rank != 0) {
+        big_file_close(bf);
+    }
 
     return rt;
 }
@@ -210,7 +214,9 @@ _big_block_mpi_create(BigBlock * bb,
         }
     }
 
-    BCAST_AND_RAISEIF(rt, comm);
+    if(0 != (rt = big_file_mpi_broadcast_anyerror(rt, comm))) {
+        _big_block_close_internal(bb);
+    }
 
     return rt;
 }
diff --git a/src/bigfile.c b/src/bigfile.c
index e6d6ce3..47b741b 100644
--- a/src/bigfile.c
+++ b/src/bigfile.c
@@ -265,6 +265,7 @@ int big_file_create(BigFile * bf, const char * basename) {
         NULL);
     return 0;
 ex_subdir:
+    big_file_close(bf);
     return -1;
 }
 
@@ -469,15 +470,13 @@ _big_block_open(BigBlock * bb, const char * basename)
         return 0;
 
 ex_fscanf1:
-        free(bb->fchecksum);
 ex_fchecksum:
-        free(bb->foffset);
 ex_foffset:
-        free(bb->fsize);
 ex_fsize:
 ex_fscanf:
         fclose(fheader);
 ex_open:
+        _big_block_close_internal(bb);
         return -1;
     } else {
         /* The meta block of a big file, has on extra files. */
@@ -487,6 +486,7 @@ ex_open:
     }
 
 ex_readattr:
+        _big_block_close_internal(bb);
         return -1;
 }
 
@@ -617,13 +617,10 @@ _big_block_create_internal(BigBlock * bb, const char * basename, const char * dt
         bb->dirty = 0;
         return 0;
 ex_flush:
-        attrset_free(bb->attrset);
-        free(bb->foffset);
 ex_foffset:
-        free(bb->fchecksum);
 ex_fchecksum:
-        free(bb->fsize);
 ex_fsize:
+        _big_block_close_internal(bb);
         return -1;
     } else {
         /* special meta block of a file */
@@ -638,7 +635,7 @@ ex_fsize:
         return 0;
 
 ex_flush2:
-        attrset_free(bb->attrset);
+        _big_block_close_internal(bb);
         return -1;
     }
 
-- 
2.43.0


From d83d68d060f1ea5e0167e2bd4a083c0ef0b8f7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:38 +0000
Subject: [PATCH 43/44] fix: Python created blocks with a negative number of
 rows

---
 bigfile/pyxbigfile.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 67c5674..7a5ce5b 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -398,6 +398,8 @@ cdef class ColumnLowLevelAPI:
                 raise ValueError("Cannot create negative number of files.")
             if Nfile == 0 and size != 0:
                 raise ValueError("Cannot create zero files for non-zero number of items.")
+            if size < 0:
+                raise ValueError("Cannot create negative number of items.")
             dtype = numpy.dtype(dtype)
             assert len(dtype.shape) <= 1
             if len(dtype.shape) == 0:
-- 
2.43.0


From 534dabe76f8d157834c796b8ec568a0d8f214308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:38 +0000
Subject: [PATCH 44/44] fix: Python wrote what it read into read-only arrays

---
 bigfile/pyxbigfile.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bigfile/pyxbigfile.pyx b/bigfile/pyxbigfile.pyx
index 7a5ce5b..a9458c6 100644
--- a/bigfile/pyxbigfile.pyx
+++ b/bigfile/pyxbigfile.pyx
@@ -506,6 +506,8 @@ cdef class ColumnLowLevelAPI:
                 raise ValueError("output array length mismatches with the request")
             if result.dtype.base.itemsize != self.dtype.base.itemsize:
                 raise ValueError("output array type mismatches with the block")
+            if not result.flags.writeable:
+                raise ValueError("output array is read-only")
 
         big_array_init(&array, result.data, self.bb.dtype, 
                 result.ndim, 
@@ -665,6 +667,8 @@ cdef class Dataset:
             out = numpy.empty(length, self.dtype)
         if out.dtype != self.dtype or out.ndim != 1 or out.shape[0] != length:
             raise ValueError("output array mismatches with the request")
+        if not out.flags.writeable:
+            raise ValueError("output array is read-only")
         # the records are adjacent in the buffer
         cdef numpy.ndarray buf = out if out.flags.c_contiguous else numpy.empty(length, self.dtype)
         with nogil:
-- 
2.43.0

