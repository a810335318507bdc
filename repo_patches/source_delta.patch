From e62c81bc5ffe45219bbda35043b12324b16334c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:25 +0000
Subject: [PATCH 01/88] fix: tag descriptors overran their buffer and read past
 the tag name

---
 src/server/tagbase.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 42a5206..f6f4219 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -564,12 +564,12 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     _set_attribute(n, attr);
 
     /* Update the '_tag_added' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
+    memset(tag_desc, 0, sizeof(tag_desc));
     *((tag_index *)tag_desc) = n;
     *((tag_type *)&tag_desc[4]) = type;
     *((dax_udint *)&tag_desc[8]) = count;
     *((uint16_t *)&tag_desc[12]) = attr;
-    memcpy(&tag_desc[14], name, DAX_TAGNAME_SIZE + 1);
+    memcpy(&tag_desc[14], name, strlen(name) + 1);
     tag_write(-1, INDEX_ADDED_TAG, 0, tag_desc, 47);
 
     dax_log(DAX_LOG_DEBUG, "Tag added with name = %s, type = 0x%X, count = %d", name, type, count);
@@ -627,12 +627,12 @@ tag_del(tag_index idx)
     dax_log(DAX_LOG_DEBUG, "Tag deleted with name = %s", _db[idx].name);
 
     /* Update the '_tag_deleted' system tag */
-    memset(&tag_desc, 0, sizeof(dax_tag));
+    memset(tag_desc, 0, sizeof(tag_desc));
     *((tag_index *)tag_desc) = idx;
     *((tag_type *)&tag_desc[4]) = _db[idx].type;
     *((dax_udint *)&tag_desc[8]) = _db[idx].count;
     *((uint16_t *)&tag_desc[12]) = _db[idx].attr;
-    memcpy(&tag_desc[14], _db[idx].name, DAX_TAGNAME_SIZE + 1);
+    memcpy(&tag_desc[14], _db[idx].name, strlen(_db[idx].name) + 1);
     tag_write(-1, INDEX_DELETED_TAG, 0, tag_desc, 47);
 
     xfree(_db[idx].name);
-- 
2.43.0


From 5094743d8a858d9c61e0198b5f3b2c774b451b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:28 +0000
Subject: [PATCH 02/88] fix: tag database growth left new entries uninitialized
 and _dbsize stale

---
 src/server/tagbase.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index f6f4219..1e68d86 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -203,7 +203,10 @@ _database_grow(void)
     if(new_index != NULL && new_db != NULL) {
         _index = new_index;
         _db = new_db;
+        memset(&_index[_dbsize], 0, _dbsize * sizeof(_dax_tag_index));
+        memset(&_db[_dbsize], 0, _dbsize * sizeof(_dax_tag_db));
         _dbsize *= 2;
+        set_dbsize(_dbsize);
         return 0;
     } else {
         /* This is to shrink the one that didn't get allocated
-- 
2.43.0


From e10aecd6e2a4044645754c0ba84e52efbbd2ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:28 +0000
Subject: [PATCH 03/88] fix: queues of compound types indexed the datatype
 array out of bounds

---
 src/libcommon.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libcommon.h b/src/libcommon.h
index c2d8199..a812c28 100644
--- a/src/libcommon.h
+++ b/src/libcommon.h
@@ -88,7 +88,7 @@
 #define CDT_GET_TYPE    0x02 /* Retrieve the type by it's type */
 
 /* Some Macros for manipulating CDT types */
-#define CDT_TO_INDEX(TYPE) (TYPE & ~DAX_CUSTOM)
+#define CDT_TO_INDEX(TYPE) ((TYPE) & ~(DAX_CUSTOM | DAX_QUEUE))
 #define CDT_TO_TYPE(INDEX) (INDEX | DAX_CUSTOM)
 
 /* Maximum size allowed for a single message */
-- 
2.43.0


From ed45f9640a49cfaf266f3502c0036df91e55463e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:28 +0000
Subject: [PATCH 04/88] fix: growing a tag left garbage in the new data,
 overran its overrides and corrupted queues

---
 src/server/tagbase.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 1e68d86..0c02edf 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -456,7 +456,8 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
 {
     int n;
     void *newdata;
-    unsigned int size;
+    unsigned int size, oldsize;
+    uint64_t bytes;
     int result;
     uint8_t tag_desc[47];
 
@@ -485,10 +486,16 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
 
     /* Figure the size in bytes */
     if(type == DAX_BOOL) {
-        size = count / 8 + 1;
+        bytes = (uint64_t)count / 8 + 1;
     } else {
-        size = type_size(type) * count;
+        bytes = (uint64_t)type_size(type) * count;
     }
+    /* The rest of the server handles offsets and sizes as integers */
+    if(bytes > INT32_MAX) {
+        dax_log(DAX_LOG_MSGERR, "Tag %s is too large", name);
+        return ERR_2BIG;
+    }
+    size = bytes;
 
     /* Check for an existing tagname in the database */
     if( (n = _get_by_name(name)) >= 0) { /* The tag already exists */
@@ -502,9 +509,26 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
         } else if(_db[n].type == type && _db[n].count < count) {
             /* If the new count is greater than the existing count then lets
              try to increase the size of the tags data */
+            if(_db[n].attr & TAG_ATTR_VIRTUAL) {
+                /* The data of these is not what is in *data */
+                dax_log(DAX_LOG_MSGERR, "Unable to change the size of tag %s", name);
+                return ERR_ILLEGAL;
+            }
+            oldsize = tag_get_size(n);
+            if(_db[n].odata != NULL) { /* The overrides have to grow too */
+                newdata = xrealloc(_db[n].odata, size);
+                if(newdata == NULL) return ERR_ALLOC;
+                _db[n].odata = newdata;
+                newdata = xrealloc(_db[n].omask, size);
+                if(newdata == NULL) return ERR_ALLOC;
+                _db[n].omask = newdata;
+                memset(&_db[n].odata[oldsize], 0, size - oldsize);
+                memset(&_db[n].omask[oldsize], 0, size - oldsize);
+            }
             newdata = xrealloc(_db[n].data, size);
             if(newdata) {
                 _db[n].data = newdata;
+                memset(&_db[n].data[oldsize], 0, size - oldsize);
                 _db[n].count = count;
                 _set_attribute(n, attr);
                 /* Since it changed we update this tag so the write event will trigger */
-- 
2.43.0


From 3726f4becebf730420ce3d984644bc7cecf41504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 05/88] fix: _tag_added mixed the index of a grown tag with the
 description of another one

---
 src/server/tagbase.c | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 0c02edf..683ea33 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -447,6 +447,20 @@ _set_attribute(tag_index idx, uint32_t attr) {
     }
 }
 
+/* Write the description of the tag at 'idx' into the system tag 'desc' */
+static void
+_write_tag_desc(tag_index desc, tag_index idx, uint16_t attr) {
+    uint8_t tag_desc[47];
+
+    memset(tag_desc, 0, sizeof(tag_desc));
+    *((tag_index *)tag_desc) = idx;
+    *((tag_type *)&tag_desc[4]) = _db[idx].type;
+    *((dax_udint *)&tag_desc[8]) = _db[idx].count;
+    *((uint16_t *)&tag_desc[12]) = attr;
+    memcpy(&tag_desc[14], _db[idx].name, strlen(_db[idx].name) + 1);
+    tag_write(-1, desc, 0, tag_desc, sizeof(tag_desc));
+}
+
 /* This adds a tag to the database. It takes a string for the name
  * of the tag, the type (see opendax.h for types) and a count.  If
  * count is greater than 1 an array is created.  It returns the index
@@ -459,7 +473,6 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     unsigned int size, oldsize;
     uint64_t bytes;
     int result;
-    uint8_t tag_desc[47];
 
     if(count == 0) {
         dax_log(DAX_LOG_ERROR, "tag_add() called with count = 0");
@@ -532,7 +545,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
                 _db[n].count = count;
                 _set_attribute(n, attr);
                 /* Since it changed we update this tag so the write event will trigger */
-                tag_write(-1, INDEX_ADDED_TAG, 0, &n, sizeof(tag_index));
+                _write_tag_desc(INDEX_ADDED_TAG, n, attr);
                 return n;
             } else {
                 dax_log(DAX_LOG_ERROR, "Unable to allocate memory to grow the size of tag %s", name);
@@ -591,13 +604,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     _set_attribute(n, attr);
 
     /* Update the '_tag_added' system tag */
-    memset(tag_desc, 0, sizeof(tag_desc));
-    *((tag_index *)tag_desc) = n;
-    *((tag_type *)&tag_desc[4]) = type;
-    *((dax_udint *)&tag_desc[8]) = count;
-    *((uint16_t *)&tag_desc[12]) = attr;
-    memcpy(&tag_desc[14], name, strlen(name) + 1);
-    tag_write(-1, INDEX_ADDED_TAG, 0, tag_desc, 47);
+    _write_tag_desc(INDEX_ADDED_TAG, n, attr);
 
     dax_log(DAX_LOG_DEBUG, "Tag added with name = %s, type = 0x%X, count = %d", name, type, count);
 
@@ -629,8 +636,6 @@ tag_clr_attribute(tag_index index, uint32_t attr) {
 int
 tag_del(tag_index idx)
 {
-    uint8_t tag_desc[47];
-
     if(idx >= _tagnextindex || idx < 0) {
         dax_log(DAX_LOG_ERROR, "tag_del() pass index out of range %d", idx);
         return ERR_ARG;
@@ -654,13 +659,7 @@ tag_del(tag_index idx)
     dax_log(DAX_LOG_DEBUG, "Tag deleted with name = %s", _db[idx].name);
 
     /* Update the '_tag_deleted' system tag */
-    memset(tag_desc, 0, sizeof(tag_desc));
-    *((tag_index *)tag_desc) = idx;
-    *((tag_type *)&tag_desc[4]) = _db[idx].type;
-    *((dax_udint *)&tag_desc[8]) = _db[idx].count;
-    *((uint16_t *)&tag_desc[12]) = _db[idx].attr;
-    memcpy(&tag_desc[14], _db[idx].name, strlen(_db[idx].name) + 1);
-    tag_write(-1, INDEX_DELETED_TAG, 0, tag_desc, 47);
+    _write_tag_desc(INDEX_DELETED_TAG, idx, _db[idx].attr);
 
     xfree(_db[idx].name);
     xfree(_db[idx].data);
-- 
2.43.0


From d48675fa9d3c5b401b75e900ceafc7e1d6971814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 06/88] fix: tag accesses with bad indexes, negative offsets or
 huge sizes went out of bounds

---
 src/server/message.c |  6 +++++-
 src/server/tagbase.c | 24 ++++++++++++++++++------
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/server/message.c b/src/server/message.c
index 69f0d51..cccfdd5 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -542,7 +542,11 @@ msg_tag_read(dax_message *msg)
 
     dax_log(DAX_LOG_MSG, "Tag Read Message from module %d, index %d, offset %d, size %d", msg->fd, index, offset, size);
 
-    result = tag_read(msg->fd, index, offset, &data, size);
+    if(size < 0 || size > MSG_DATA_SIZE) { /* It would not fit in the response */
+        result = ERR_2BIG;
+    } else {
+        result = tag_read(msg->fd, index, offset, &data, size);
+    }
     if(result) {
         _message_send(msg->fd, MSG_TAG_READ, &result, sizeof(result), ERROR);
     } else {
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 683ea33..828fda5 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -729,27 +729,39 @@ get_tagindex(void) {
 /* Returns true if the tag at the given index is read only */
 int
 is_tag_readonly(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_READONLY );
 }
 
 /* Returns true if the tag at the given index is a virtual tag */
 int
 is_tag_virtual(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_VIRTUAL );
 }
 
 /* Returns true if tag at the given index is a queue */
 int
 is_tag_queue(tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return IS_QUEUE(_db[idx].type);
 }
 
 int
 is_tag_owned(int fd, tag_index idx) {
+    if(idx < 0 || idx >= _tagnextindex) return 0;
     return (_db[idx].attr & TAG_ATTR_OWNED && _db[idx].fd == fd);
 }
 
 
+/* Returns true if the given range lies within the data of the tag */
+static int
+_range_okay(tag_index idx, int offset, int size) {
+    int tag_size = tag_get_size(idx);
+
+    return offset >= 0 && size >= 0 && size <= tag_size && offset <= tag_size - size;
+}
+
 /* These are the low level tag reading / writing interface to the
  * database.
  *
@@ -779,7 +791,7 @@ tag_read(int fd, tag_index idx, int offset, void *data, int size)
         return vf->rf(fd, idx, offset, data, size, vf->userdata);
     } else {
         /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
+        if(!_range_okay(idx, offset, size)) {
             return ERR_2BIG;
         }
         if(_db[idx].data == NULL) {
@@ -825,7 +837,7 @@ tag_write(int fd, tag_index idx, int offset, void *data, int size)
        return vf->wf(fd, idx, offset, data, size, vf->userdata);
     } else {
         /* Bounds check size */
-        if( (offset + size) > tag_get_size(idx)) {
+        if(!_range_okay(idx, offset, size)) {
             return ERR_2BIG;
         }
         if(_db[idx].data == NULL) {
@@ -854,15 +866,15 @@ tag_mask_write(int fd, tag_index idx, int offset, void *data, void *mask, int si
     uint8_t *db, *newdata, *newmask;
     int n, result;
 
-    /* We don't allow masked writes to virtual tags.  This would be
-     * too ambiguous */
-    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     /* Bounds check handle */
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
+    /* We don't allow masked writes to virtual tags.  This would be
+     * too ambiguous */
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
     /* Bounds check size */
-    if( (offset + size) > tag_get_size(idx)) {
+    if(!_range_okay(idx, offset, size)) {
         return ERR_2BIG;
     }
     if(_db[idx].data == NULL) {
-- 
2.43.0


From db79edffbf2506f00bfe742e0307abdb6cfb74ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 07/88] fix: reads of the virtual system tags ignored the
 requested range

---
 src/server/virtualtag.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index a8984b4..f58d610 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -53,14 +53,16 @@ server_time(int fd, tag_index idx, int offset, void *data, int size, void *userd
 {
     dax_time t;
 
+    if(offset < 0 || size < 0 || size > (int)sizeof(t) || offset > (int)sizeof(t) - size) return ERR_2BIG;
     t = xtime();
-    memcpy(data, &t, size);
+    memcpy(data, (uint8_t *)&t + offset, size);
     return 0;
 }
 
 int
 get_module_tag_name(int fd, tag_index idx, int offset, void *data, int size, void *userdata) {
     int result;
+    char name[DAX_TAGNAME_SIZE + 1];
     dax_tag tag;
     dax_module *mod;
 
@@ -68,8 +70,10 @@ get_module_tag_name(int fd, tag_index idx, int offset, void *data, int size, voi
     if(mod == NULL || mod->tagindex == 0) return ERR_NOTFOUND;
     result = tag_get_index(mod->tagindex, &tag);
     if(result) return result;
-    bzero(data, DAX_TAGNAME_SIZE);
-    memcpy(data, tag.name, strlen(tag.name)+1);
+    if(offset < 0 || size < 0 || offset > DAX_TAGNAME_SIZE + 1 || size > DAX_TAGNAME_SIZE + 1 - offset) return ERR_2BIG;
+    bzero(name, sizeof(name));
+    memcpy(name, tag.name, strlen(tag.name)+1);
+    memcpy(data, &name[offset], size);
     return 0;
 }
 
-- 
2.43.0


From f0661c85187924bb57978f80c7d82685bedb3eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:31 +0000
Subject: [PATCH 08/88] fix: queue growth duplicated items and used
 uninitialized pointers, reads overran the buffer, BOOL items had no size

---
 src/server/tagbase.c    | 13 +++++++++----
 src/server/virtualtag.c |  6 ++++++
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 828fda5..9dfa320 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -122,7 +122,7 @@ _checktype(tag_type type)
 int
 tag_get_size(tag_index idx)
 {
-    if(_db[idx].type == DAX_BOOL)
+    if((_db[idx].type & ~DAX_QUEUE) == DAX_BOOL)
         return _db[idx].count / 8 + 1;
     else
         return type_size(_db[idx].type)  * _db[idx].count;
@@ -299,7 +299,11 @@ _queue_add(int idx, tag_type type, unsigned int count) {
     if(q == NULL) {
         return ERR_ALLOC;
     }
-    size = type_size(type) * count;
+    if((type & ~DAX_QUEUE) == DAX_BOOL) {
+        size = (count - 1) / 8 + 1;
+    } else {
+        size = type_size(type) * count;
+    }
     q->size = size;
     q->count = count;
     q->type = type;
@@ -318,8 +322,8 @@ _queue_add(int idx, tag_type type, unsigned int count) {
     vf.userdata = (uint8_t *)q;
     _db[idx].data = malloc(sizeof(virt_functions));
     if(_db[idx].data == NULL) {
-        free(q);
         free(q->queue);
+        free(q);
         return ERR_ALLOC;
     }
     memcpy(_db[idx].data, &vf, sizeof(virt_functions));
@@ -566,7 +570,8 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
     /* If the type is a queue the data area will be allocated in the
      * queue_add() function instead of here */
     if(IS_QUEUE(type)) {
-        _queue_add(n, type, count);
+        result = _queue_add(n, type, count);
+        if(result) return result;
     } else {
         /* Allocate the data area */
         if((_db[n].data = xmalloc(size)) == NULL){
diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index f58d610..0b812c1 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -101,6 +101,10 @@ write_queue(int fd, tag_index idx, int offset, void *data, int size, void *userd
         if(q->qread > 0) {
             memcpy(&q->queue[q->qsize], &q->queue[0], q->qread*sizeof(void *));
         }
+        /* The pointers that we have moved now belong to the new area and the rest
+         * of the new area has not been allocated yet */
+        bzero(&q->queue[0], q->qread*sizeof(void *));
+        bzero(&q->queue[q->qsize + q->qread], (q->qsize - q->qread)*sizeof(void *));
         q->qsize = newqsize;
     }
     next = (q->qread + q->qcount) % q->qsize;
@@ -121,6 +125,8 @@ read_queue(int fd, tag_index idx, int offset, void *data, int size, void *userda
     tag_queue *q;
 
     q = (tag_queue *)userdata;
+    /* Just like writing we only deal with the entire tag */
+    if(offset != 0 || size != q->size) return ERR_ILLEGAL;
     if(q->qcount == 0) {
         return ERR_EMPTY;
     }
-- 
2.43.0


From 17ed687bf7a3a7b5a1199e946a63784a1bf49167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:10 +0000
Subject: [PATCH 09/88] fix: overrides ignored offsets, other overridden bits,
 BOOL sizes and bounds, and miscounted

---
 src/server/message.c |  6 +++-
 src/server/tagbase.c | 72 +++++++++++++++++++++++++++++---------------
 2 files changed, 53 insertions(+), 25 deletions(-)

diff --git a/src/server/message.c b/src/server/message.c
index cccfdd5..db11ef6 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -1030,7 +1030,11 @@ msg_get_override(dax_message *msg) {
     size = *((uint32_t *)&msg->data[8]);
     dax_log(DAX_LOG_MSG, "Get Override Message from module %d, index %d, byte %d, size %d", msg->fd, index, byte, size);
 
-    result = override_get(index, byte, size, buff, &buff[size]);
+    if(size < 0 || size > MSG_DATA_SIZE / 2) { /* It would not fit in the response */
+        result = ERR_2BIG;
+    } else {
+        result = override_get(index, byte, size, buff, &buff[size]);
+    }
 
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GET_OVRD, &result, sizeof(int), ERROR);
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 9dfa320..be8b433 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -1258,9 +1258,34 @@ cdt_add_member(datatype *cdt, char *name, tag_type type, unsigned int count)
     return 0;
 }
 
+/* Removes the whole override from the tag and updates the counters */
+static void
+_override_remove(tag_index idx) {
+    if(_db[idx].attr & TAG_ATTR_OVR_SET) {
+        _ovrdset--;
+        if(_db[INDEX_OVRD_SET].data != NULL) {
+            tag_write(-1, INDEX_OVRD_SET, 0, &_ovrdset, sizeof(tag_index));
+        }
+    }
+    if(_db[idx].attr & TAG_ATTR_OVERRIDE) {
+        _ovrdinstalled--;
+        if(_db[INDEX_OVRD_INSTALLED].data != NULL) {
+            tag_write(-1, INDEX_OVRD_INSTALLED, 0, &_ovrdinstalled, sizeof(tag_index));
+        }
+    }
+    /* Remove both of the flags that indicate we have an override installed or set */
+    _db[idx].attr &= ~(TAG_ATTR_OVERRIDE | TAG_ATTR_OVR_SET);
+    xfree(_db[idx].odata);
+    _db[idx].odata = NULL;
+    xfree(_db[idx].omask);
+    _db[idx].omask = NULL;
+}
+
 int
 override_add(tag_index idx, int offset, void *data, void *mask, int size) {
     int tag_size;
+    int n;
+    uint8_t m;
 
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
@@ -1268,7 +1293,10 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    /* The data of a virtual tag is not in the database */
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
+    if(!_range_okay(idx, offset, size)) return ERR_2BIG;
+    tag_size = tag_get_size(idx);
 
     if(_db[idx].odata == NULL) {
         _db[idx].odata = malloc(tag_size);
@@ -1280,12 +1308,15 @@ override_add(tag_index idx, int offset, void *data, void *mask, int size) {
 
             return ERR_ALLOC;
         }
-        bzero(_db[idx].odata, size);
-        bzero(_db[idx].omask, size);
+        bzero(_db[idx].odata, tag_size);
+        bzero(_db[idx].omask, tag_size);
+    }
+    /* Only the bits in the mask are ours, the others may already be overridden */
+    for(n=0;n<size;n++) {
+        m = ((uint8_t *)mask)[n];
+        _db[idx].odata[n+offset] = (((uint8_t *)data)[n] & m) | (_db[idx].odata[n+offset] & ~m);
+        _db[idx].omask[n+offset] |= m;
     }
-    if((offset + size) > tag_size) return ERR_2BIG;
-    memcpy(&_db[idx].odata[offset], data, size);
-    memcpy(&_db[idx].omask[offset], mask, size);
 
     /* If the flag for this tag is not already set then increment the counter */
     if(! (_db[idx].attr & TAG_ATTR_OVERRIDE )) {
@@ -1311,30 +1342,21 @@ override_del(tag_index idx, int offset, void *mask, int size) {
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
     if(_db[idx].odata == NULL) {
         return ERR_GENERIC;
     }
+    if(!_range_okay(idx, offset, size)) return ERR_2BIG;
     for(n=0;n<size;n++) {
         _db[idx].omask[n+offset] &= ~((uint8_t *)mask)[n];
         _db[idx].odata[n+offset] &= ~((uint8_t *)mask)[n];
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
+    tag_size = tag_get_size(idx);
     for(n=0;n<tag_size;n++) {
         if(_db[idx].omask[n])  return 0;
     }
-    /* Remove both of the flags that indicate we have an override installed or set */
-    _db[idx].attr &= ~(TAG_ATTR_OVERRIDE | TAG_ATTR_OVR_SET);
     /* If we get here then we've deleted the last of the overrides for this
      * tag so we'll free the memory */
-    _ovrdinstalled--;
-    if(_db[INDEX_OVRD_INSTALLED].data != NULL) {
-        tag_write(-1, INDEX_OVRD_INSTALLED, 0, &_ovrdinstalled, sizeof(tag_index));
-    }
-    xfree(_db[idx].odata);
-    _db[idx].odata = NULL;
-    xfree(_db[idx].omask);
-    _db[idx].omask = NULL;
+    _override_remove(idx);
 
     return 0;
 }
@@ -1342,18 +1364,20 @@ override_del(tag_index idx, int offset, void *mask, int size) {
 
 int
 override_get(tag_index idx, int offset, int size, void *data, void *mask) {
-    int tag_size;
-
     if(idx < 0 || idx >= _tagnextindex) {
         return ERR_ARG;
     }
     if(_db[idx].data == NULL) {
         return ERR_DELETED;
     }
-    tag_size = _db[idx].count * type_size(_db[idx].type);
-    if((offset + size) > tag_size) return ERR_2BIG;
-    memcpy(data, _db[idx].data, size);
-    memcpy(mask, _db[idx].omask, size);
+    if(_db[idx].attr & TAG_ATTR_VIRTUAL) return ERR_ILLEGAL;
+    if(!_range_okay(idx, offset, size)) return ERR_2BIG;
+    memcpy(data, &_db[idx].data[offset], size);
+    if(_db[idx].omask == NULL) {
+        bzero(mask, size);
+    } else {
+        memcpy(mask, &_db[idx].omask[offset], size);
+    }
     return 0;
 }
 
-- 
2.43.0


From 6ba5b5de5fa265d1770249f855bb20346975b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:10 +0000
Subject: [PATCH 10/88] fix: deleting a tag left its overrides installed and
 counted

---
 src/server/tagbase.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index be8b433..8b5842f 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -629,6 +629,8 @@ tag_clr_attribute(tag_index index, uint32_t attr) {
 }
 
 
+static void _override_remove(tag_index idx);
+
 /* Deletes the tag given my index.  The tags position in the _db array is not
  * moved.  The name and data fields are freed and set to NULL.  The events
  * and the mappings are also freed and removed.  The item in the index is also
@@ -666,6 +668,7 @@ tag_del(tag_index idx)
     /* Update the '_tag_deleted' system tag */
     _write_tag_desc(INDEX_DELETED_TAG, idx, _db[idx].attr);
 
+    _override_remove(idx);
     xfree(_db[idx].name);
     xfree(_db[idx].data);
     _db[idx].name = NULL;
-- 
2.43.0


From 2973db0e38c051c90b0868d186c571435901f5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:18 +0000
Subject: [PATCH 11/88] fix: deleting events used freed memory, missed failures
 and answered with the wrong data

---
 src/server/events.c  | 44 ++++++++++++++++++--------------------------
 src/server/message.c |  8 ++++----
 2 files changed, 22 insertions(+), 30 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 9be0d52..1d493b3 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -674,45 +674,35 @@ int
 event_del(int index, int id, dax_module *module)
 {
     _dax_event *this, *last;
-    int result = ERR_NOTFOUND;
 
     if(index >= get_tagindex() || index < 0) {
         dax_log(DAX_LOG_ERROR, "event_del() - index %d is out of range\n", index);
         return ERR_2BIG;
     }
+    last = NULL;
     this = _db[index].events;
-    if(this == NULL) return ERR_NOTFOUND;
-    if(this->id == id) {
-        if(this->notify != module) {
-            dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
-            return ERR_AUTH;
-        }
-        _db[index].events = this->next;
-        _free_event(this);
-    }
-    last = this;
-    this = this->next;
-    while(this != NULL) {
-        if(this->id == id) {
-            if(this->notify != module) {
-                dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
-                return ERR_AUTH;
-            }
-            last->next = this->next;
-            _free_event(this);
-            result = 0;
-            break; /* Uggg */
-        }
+    while(this != NULL && this->id != id) {
         last = this;
         this = this->next;
     }
+    if(this == NULL) return ERR_NOTFOUND;
+    if(this->notify != module) {
+        dax_log(DAX_LOG_ERROR, "Module cannot delete another module's event");
+        return ERR_AUTH;
+    }
+    if(last == NULL) {
+        _db[index].events = this->next;
+    } else {
+        last->next = this->next;
+    }
+    _free_event(this);
     /* If there are no more events on this tag then reset the attibute flag */
     if(_db[index].events == NULL) {
         _db[index].attr &= ~TAG_ATTR_EVENT;
     }
     module->event_count--;
     dax_log(DAX_LOG_DEBUG, "Deleted event index: %d, id: %d, module: %s", index, id, module->name);
-    return result;
+    return 0;
 }
 
 /* Traverse the linked list of events and delete them all */
@@ -722,6 +712,7 @@ events_del_all(_dax_event *head) {
     this = head;
     while(this != NULL) {
         next = this->next;
+        this->notify->event_count--;
         _free_event(this);
         this = next;
     }
@@ -757,7 +748,7 @@ event_opt(int index, int id, uint32_t options, dax_module *module) {
 int
 events_cleanup(dax_module *module) {
     int n, count;
-    _dax_event *this;
+    _dax_event *this, *next;
 
     count = get_tagindex();
     /* We start our scan at the bottom and work our way up.  It's probably
@@ -767,10 +758,11 @@ events_cleanup(dax_module *module) {
         if(_db[n].events != NULL) {
             this = _db[n].events;
             while(this != NULL) {
+                next = this->next;
                 if(this->notify == module) {
                     event_del(n, this->id, module);
                 }
-                this = this->next;
+                this = next;
             }
         }
     }
diff --git a/src/server/message.c b/src/server/message.c
index db11ef6..a5de7dd 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -665,8 +665,8 @@ msg_evnt_del(dax_message *msg)
 
     result = event_del(idx, id, module);
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_DEL, &idx, 8, RESPONSE);
+    if(result == 0) {
+        _message_send(msg->fd, MSG_EVNT_DEL, &result, sizeof(result), RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_DEL, &result, sizeof(result), ERROR);
     }
@@ -696,8 +696,8 @@ msg_evnt_opt(dax_message *msg)
 
     result = event_opt(idx, id, options, module);
 
-    if(idx >= 0) {
-        _message_send(msg->fd, MSG_EVNT_OPT, &idx, 8, RESPONSE);
+    if(result == 0) {
+        _message_send(msg->fd, MSG_EVNT_OPT, &result, sizeof(result), RESPONSE);
     } else {
         _message_send(msg->fd, MSG_EVNT_OPT, &result, sizeof(result), ERROR);
     }
-- 
2.43.0


From 6f7c2e30062a6e021a2a27a69a8e5bff820bc575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:18 +0000
Subject: [PATCH 12/88] fix: unknown event types were accepted and deletion
 events refused for BOOL and compound tags

---
 src/server/events.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 1d493b3..c16bab4 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -442,8 +442,8 @@ event_del_check(tag_index idx) {
 static inline int
 _verify_event_type(tag_type ttype, int etype)
 {
-    /* All datatypes can use Write or Change */
-    if(etype == EVENT_WRITE || etype == EVENT_CHANGE) {
+    /* All datatypes can use Write, Change or Deleted */
+    if(etype == EVENT_WRITE || etype == EVENT_CHANGE || etype == EVENT_DELETED) {
         return 0;
     }
     /* Only BOOL can use Set and Reset */
@@ -465,16 +465,17 @@ _verify_event_type(tag_type ttype, int etype)
             return 0;
         }
     }
-    /* At this point the only ones left are < > and deadband.  All
-     * except Booleans and Custom datatypes can use these */
-    if(ttype == DAX_BOOL || ttype >= DAX_CUSTOM) {
-        dax_log(DAX_LOG_ERROR, "GREATER, LESS and DEADBAND events not allowed for BOOL and Custom types");
-        return -1;
-    } else {
-        return 0;
+    /* All except Booleans and Custom datatypes can use < > and deadband */
+    if(etype == EVENT_GREATER || etype == EVENT_LESS || etype == EVENT_DEADBAND) {
+        if(ttype == DAX_BOOL || ttype >= DAX_CUSTOM) {
+            dax_log(DAX_LOG_ERROR, "GREATER, LESS and DEADBAND events not allowed for BOOL and Custom types");
+            return -1;
+        } else {
+            return 0;
+        }
     }
     /* If we get here then we were given an unknown event type */
-    dax_log(DAX_LOG_ERROR, "Unknown datatype in new event");
+    dax_log(DAX_LOG_ERROR, "Unknown event type in new event");
     return -1;
 }
 
-- 
2.43.0


From 058600ec4eb12d2fc93ce4716c9735922a3a9b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:18 +0000
Subject: [PATCH 13/88] fix: events on bit ranges, queues and deleted tags
 accessed memory out of bounds

---
 src/server/events.c | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index c16bab4..edb8236 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -33,11 +33,13 @@ extern _dax_tag_db *_db;
 static int
 _send_event(tag_index idx, _dax_event *event)
 {
-    int result;
+    int result, send_data;
     char buff[DAX_MSGMAX];
     uint32_t msgsize;
 
-    if(event->options & EVENT_OPT_SEND_DATA) {
+    /* The data of a virtual tag is not in the database */
+    send_data = (event->options & EVENT_OPT_SEND_DATA) && !is_tag_virtual(idx);
+    if(send_data) {
         msgsize = event->size + 16; /* Calculate the total size of this message */
         *(uint32_t *)(&buff[0])  = htonl(event->size + 8); /* The size that we send */
     } else {
@@ -48,7 +50,7 @@ _send_event(tag_index idx, _dax_event *event)
     *(uint32_t *)(&buff[4])  = htonl(MSG_EVENT | event->eventtype);
     *(uint32_t *)(&buff[8])  = htonl(idx);
     *(uint32_t *)(&buff[12])  = htonl(event->id);
-    if(event->options & EVENT_OPT_SEND_DATA) {
+    if(send_data) {
         memcpy(&buff[16], &_db[idx].data[event->byte], event->size);
     }
     dax_log(DAX_LOG_MSG, "Sending %d event to module %d",
@@ -405,6 +407,7 @@ void
 event_check(tag_index idx, int offset, int size) {
     _dax_event *this;
 
+    if(size <= 0) return; /* Nothing has been touched */
     this = _db[idx].events;
 
     while(this != NULL) {
@@ -500,7 +503,7 @@ _set_event_data(_dax_event *event, tag_index index, void *data) {
         case EVENT_CHANGE:
             datasize = 0;
             if(event->datatype == DAX_BOOL) {
-                testsize = (event->count - 1)/8 + 1;
+                testsize = (event->bit + event->count - 1)/8 + 1;
             } else {
                 testsize = type_size(event->datatype) * event->count;
             }
@@ -513,7 +516,7 @@ _set_event_data(_dax_event *event, tag_index index, void *data) {
         case EVENT_SET:
         case EVENT_RESET:
             datasize = 0;
-            testsize = (event->count - 1)/8 + 1;
+            testsize = (event->bit + event->count - 1)/8 + 1;
             break;
         case EVENT_EQUAL:
         case EVENT_GREATER:
@@ -579,6 +582,7 @@ int
 event_add(tag_handle h, int event_type, void *data, dax_module *module)
 {
     _dax_event *head, *new;
+    uint64_t need;
     int result;
 
     /* Bounds check handle */
@@ -586,6 +590,10 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
         dax_log(DAX_LOG_ERROR, "Tag index %d for new event is out of bounds", h.index);
         return ERR_ARG;
     }
+    if(_db[h.index].data == NULL) {
+        dax_log(DAX_LOG_ERROR, "Tag at index %d for new event has been deleted", h.index);
+        return ERR_DELETED;
+    }
     /* No events can be assigned to virtual tags unless it's a queue */
     if(is_tag_virtual(h.index) && ! is_tag_queue(h.index)) {
         dax_log(DAX_LOG_ERROR, "Events cannot be added to virtual events");
@@ -595,16 +603,26 @@ event_add(tag_handle h, int event_type, void *data, dax_module *module)
      * the entire tag not a partial handle. */
     if(is_tag_queue(h.index)) {
         if(h.byte != 0 || event_type != EVENT_WRITE ||
-           h.size != (tag_get_size(_db[h.index].type) * _db[h.index].count)) {
+           h.size != ((tag_queue *)((virt_functions *)_db[h.index].data)->userdata)->size) {
             dax_log(DAX_LOG_ERROR, "Only write events can be assigned for a queue");
             return ERR_ILLEGAL;
         }
     }
     /* Bounds check size */
-    if( (h.byte + h.size) > tag_get_size(h.index)) {
+    if(h.byte < 0 || h.size == 0 || (uint64_t)h.byte + h.size > tag_get_size(h.index)) {
         dax_log(DAX_LOG_ERROR, "Size of the affected data in the new event is too large");
         return ERR_2BIG;
     }
+    /* The items have to fit in the size that was given */
+    if((h.type & ~DAX_QUEUE) == DAX_BOOL) {
+        need = h.count == 0 ? 0 : ((uint64_t)h.bit + h.count - 1) / 8 + 1;
+    } else {
+        need = type_size(h.type) < 0 ? 0 : (uint64_t)type_size(h.type) * h.count;
+    }
+    if(h.bit > 7 || need == 0 || need > h.size) {
+        dax_log(DAX_LOG_ERROR, "Type, count and size of the new event don't match");
+        return ERR_ARG;
+    }
     if(_verify_event_type(h.type, event_type)) {
         /* error log handled in verify_event_type() function */
         return ERR_ARG;
-- 
2.43.0


From dd98980a5fbc322716f00307c87434741887b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:18 +0000
Subject: [PATCH 14/88] fix: comparison and deadband events looked at
 misaligned items after a partial write

---
 src/server/events.c | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index edb8236..5c38cd3 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -251,20 +251,21 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
 
 static int
 _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compare) {
-    int n, inc, bit, len, result;
+    int inc, bit, last, result;
     uint8_t *this, *that;
     uint8_t mask;
     result = 0;
 
     inc = TYPESIZE(event->datatype) / 8;
     /* For these 'this' is a bit field */
-    bit = MAX(0, (offset - event->byte) / inc);
     this = (uint8_t *)event->test;
-    that = (uint8_t *)&(_db[idx].data[MAX(offset, event->byte)]);
-    len = MIN(event->byte + event->size, offset + size) - MAX(offset, event->byte);
-    for(n = 0; n < len; n += inc) {
+    that = (uint8_t *)&(_db[idx].data[event->byte]);
+    /* The write may start or end in the middle of an item */
+    bit = MAX(0, offset - event->byte) / inc;
+    last = (MIN(event->byte + (int)event->size, offset + size) - event->byte - 1) / inc;
+    for(; bit <= last && bit < event->count; bit++) {
         mask = 0x01<<(bit%8);
-        if(_generic_compare(event->datatype, event->data, &(that[n])) == compare) {
+        if(_generic_compare(event->datatype, event->data, &(that[bit * inc])) == compare) {
             if(!(this[bit/8] & mask)) {
                 this[bit/8] |= mask;
                 result = 1;
@@ -272,7 +273,6 @@ _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compa
         } else {
             this[bit/8] &= ~mask; /* Unset flag so event will fire next time */
         }
-        bit++;
     }
     return result;
 }
@@ -347,19 +347,21 @@ _generic_deadband(_dax_event *event, void *data1, void *data2) {
 
 static inline int
 _event_deadband(_dax_event *event, tag_index idx, int offset, int size) {
-    int n, inc, len, result;
+    int n, inc, last, result;
     uint8_t *this, *that;
     result = 0;
 
     inc = TYPESIZE(event->datatype) / 8;
-    this = (uint8_t *)event->test + MAX(0, offset - event->byte);
-    that = (uint8_t *)&(_db[idx].data[MAX(offset, event->byte)]);
-    len = MIN(event->byte + event->size, offset + size) - MAX(offset, event->byte);
+    this = (uint8_t *)event->test;
+    that = (uint8_t *)&(_db[idx].data[event->byte]);
+    /* The write may start or end in the middle of an item */
+    n = MAX(0, offset - event->byte) / inc;
+    last = (MIN(event->byte + (int)event->size, offset + size) - event->byte - 1) / inc;
 
-    for(n = 0; n < len; n += inc) {
-        if(_generic_deadband(event, &this[n], &that[n])) {
+    for(; n <= last && n < event->count; n++) {
+        if(_generic_deadband(event, &this[n * inc], &that[n * inc])) {
             result = 1;
-            memcpy(&this[n], &that[n], inc);
+            memcpy(&this[n * inc], &that[n * inc], inc);
         }
     }
     return result;
-- 
2.43.0


From da6cebf43d22c073bf0d52fcd6acc7b8030af6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:18 +0000
Subject: [PATCH 15/88] fix: event comparisons of TIME used 32 bits and
 deadband differences overflowed

---
 src/server/events.c | 55 +++++++++++++++++----------------------------
 1 file changed, 21 insertions(+), 34 deletions(-)

diff --git a/src/server/events.c b/src/server/events.c
index 5c38cd3..ac09754 100644
--- a/src/server/events.c
+++ b/src/server/events.c
@@ -207,7 +207,6 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             u1.dax_udint = *(dax_udint *)data1;
             u2.dax_udint = *(dax_udint *)data2;
             if(u1.dax_udint < u2.dax_udint) return -1;
@@ -227,6 +226,7 @@ _generic_compare(tag_type datatype, void *data1, void *data2) {
             else if(u1.dax_ulint > u2.dax_ulint) return 1;
             else return 0;
         case DAX_LINT:
+        case DAX_TIME:
             u1.dax_lint = *(dax_lint *)data1;
             u2.dax_lint = *(dax_lint *)data2;
             if(u1.dax_lint < u2.dax_lint) return -1;
@@ -277,58 +277,45 @@ _event_compare(_dax_event *event, tag_index idx, int offset, int size, int compa
     return result;
 }
 
+static inline int
+_deadband_unsigned(dax_ulint x, dax_ulint y, dax_ulint db) {
+    return (x > y ? x - y : y - x) >= db;
+}
+
+static inline int
+_deadband_signed(dax_lint x, dax_lint y, dax_lint db) {
+    return db < 0 || (x > y ? (dax_ulint)x - (dax_ulint)y : (dax_ulint)y - (dax_ulint)x) >= (dax_ulint)db;
+}
+
 /* This function calculates whether the deadband has been exceeded for each of the
  * different datatypes.  Returns 1 if the deadband has been exceeded and 0 otherwise */
 static inline int
 _generic_deadband(_dax_event *event, void *data1, void *data2) {
     dax_type_union diff, db;
 
+    /* The difference between two items can be larger than what fits in the type */
     switch(event->datatype) {
         case DAX_BYTE:
-            db.dax_byte = *(dax_byte *)event->data;
-            diff.dax_int = *(dax_byte *)data1 - *(dax_byte *)data2;
-            if(ABS(diff.dax_int) >= db.dax_byte) return 1;
-            else return 0;
+            return _deadband_unsigned(*(dax_byte *)data1, *(dax_byte *)data2, *(dax_byte *)event->data);
         case DAX_SINT:
         case DAX_CHAR:
-            db.dax_sint = *(dax_sint *)event->data;
-            diff.dax_sint = *(dax_sint *)data1 - *(dax_sint *)data2;
-            if(ABS(diff.dax_sint) >= db.dax_sint) return 1;
-            else return 0;
+            return _deadband_signed(*(dax_sint *)data1, *(dax_sint *)data2, *(dax_sint *)event->data);
         case DAX_UINT:
         case DAX_WORD:
-            db.dax_uint = *(dax_uint *)event->data;
-            diff.dax_dint = *(dax_uint *)data1 - *(dax_uint *)data2;
-            if(ABS(diff.dax_dint) >= db.dax_uint) return 1;
-            else return 0;
+            return _deadband_unsigned(*(dax_uint *)data1, *(dax_uint *)data2, *(dax_uint *)event->data);
         case DAX_INT:
-            db.dax_int = *(dax_int *)event->data;
-            diff.dax_int = *(dax_int *)data1 - *(dax_int *)data2;
-            if(ABS(diff.dax_int) >= db.dax_int) return 1;
-            else return 0;
+            return _deadband_signed(*(dax_int *)data1, *(dax_int *)data2, *(dax_int *)event->data);
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
-            db.dax_udint = *(dax_udint *)event->data;
-            diff.dax_lint = *(dax_udint *)data1 - *(dax_udint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_udint) return 1;
-            else return 0;
+            return _deadband_unsigned(*(dax_udint *)data1, *(dax_udint *)data2, *(dax_udint *)event->data);
         case DAX_DINT:
-            db.dax_dint = *(dax_dint *)event->data;
-            diff.dax_dint = *(dax_dint *)data1 - *(dax_dint *)data2;
-            if(ABS(diff.dax_dint) >= db.dax_dint) return 1;
-            else return 0;
+            return _deadband_signed(*(dax_dint *)data1, *(dax_dint *)data2, *(dax_dint *)event->data);
         case DAX_ULINT:
         case DAX_LWORD:
-            db.dax_ulint = *(dax_ulint *)event->data;
-            diff.dax_lint = *(dax_ulint *)data1 - *(dax_ulint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_ulint) return 1;
-            else return 0;
+            return _deadband_unsigned(*(dax_ulint *)data1, *(dax_ulint *)data2, *(dax_ulint *)event->data);
         case DAX_LINT:
-            db.dax_lint = *(dax_lint *)event->data;
-            diff.dax_lint = *(dax_lint *)data1 - *(dax_lint *)data2;
-            if(ABS(diff.dax_lint) >= db.dax_lint) return 1;
-            else return 0;
+        case DAX_TIME:
+            return _deadband_signed(*(dax_lint *)data1, *(dax_lint *)data2, *(dax_lint *)event->data);
         case DAX_REAL:
             db.dax_real = *(dax_real *)event->data;
             diff.dax_real = *(dax_real *)data1 - *(dax_real *)data2;
-- 
2.43.0


From a55ed80ff9773ba443a2a06276c7e23a1919fbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:14 +0000
Subject: [PATCH 16/88] fix: dax_event_del() returned the tag index instead of
 zero

---
 src/lib/libmsg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 19c7ab3..5319b42 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1260,7 +1260,7 @@ dax_event_del(dax_state *ds, dax_id id)
         }
     }
     pthread_mutex_unlock(&ds->lock);
-    return result;
+    return 0;
 }
 
 /*!
-- 
2.43.0


From cf98ff481bc6b6d442d7cd152212d4396f7bee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:15 +0000
Subject: [PATCH 17/88] fix: mappings used freed memory, overran their bit
 masks and could not be deleted reliably

---
 src/server/mapping.c | 90 +++++++++++++++++++++++++++++---------------
 src/server/message.c |  8 +++-
 2 files changed, 66 insertions(+), 32 deletions(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index 8e28b55..95d6b55 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -60,12 +60,36 @@ _handles_equal(tag_handle h1, tag_handle h2)
            h1.size == h2.size );
 }
 
+/* Returns the number of bits that the mapping moves.  The copy is limited to
+ * what the destination handle represents */
+static int
+_map_bits(tag_handle src, tag_handle dest)
+{
+    int64_t src_bits, dest_bits;
+
+    src_bits = src.type == DAX_BOOL ? src.count : (int64_t)src.size * 8 - src.bit;
+    dest_bits = dest.type == DAX_BOOL ? dest.count : (int64_t)dest.size * 8 - dest.bit;
+    return MIN(src_bits, dest_bits);
+}
+
+/* Returns true if the handle describes a valid area of the tag */
+static int
+_handle_okay(tag_handle h)
+{
+    int64_t tag_size = tag_get_size(h.index);
+
+    if(h.bit > 7 || h.count == 0 || h.size == 0) return 0;
+    if((int64_t)h.byte + h.size > tag_size) return 0;
+    if(h.type == DAX_BOOL && (int64_t)h.bit + h.count > (int64_t)h.size * 8) return 0;
+    return 1;
+}
+
 int
 map_add(tag_handle src, tag_handle dest)
 {
     _dax_datamap *new_map;
     _dax_datamap *this;
-    int bit, offset;
+    int bit, offset, bits;
     uint8_t *mask;
 
     DF("map added index1=%d, byte1, %d, size1=%d, index2=%d, byte2=%d, size2=%d", src.index, src.byte, src.size, dest.index, dest.byte, dest.size);
@@ -79,6 +103,9 @@ map_add(tag_handle src, tag_handle dest)
        dax_log(DAX_LOG_ERROR, "Destination tag index %d for new mapping is out of bounds", dest.index);
        return ERR_ARG;
     }
+    if(_db[src.index].data == NULL || _db[dest.index].data == NULL) {
+        return ERR_DELETED;
+    }
     if(is_tag_virtual(src.index)){
         return ERR_ILLEGAL;
     }
@@ -90,12 +117,12 @@ map_add(tag_handle src, tag_handle dest)
        return ERR_READONLY;
     }
     /* Bounds check source size */
-    if( (src.byte + src.size) > tag_get_size(src.index)) {
+    if( !_handle_okay(src) ) {
         dax_log(DAX_LOG_ERROR, "Size of the affected source data in the new mapping is too large");
         return ERR_2BIG;
     }
     /* Bounds check destination size */
-    if( (dest.byte + dest.size) > tag_get_size(dest.index)) {
+    if( !_handle_okay(dest) ) {
         dax_log(DAX_LOG_ERROR, "Size of the affected destination data in the new mapping is too large");
         return ERR_2BIG;
     }
@@ -115,7 +142,7 @@ map_add(tag_handle src, tag_handle dest)
 
     new_map = _new_map(src, dest);
 
-    if(src.type == DAX_BOOL) {
+    if(src.type == DAX_BOOL || dest.type == DAX_BOOL) {
         /* This basically creates a mask to write the bits that we want.
          * We are putting the bits in mask according to the destination.
          * The data itself will have to be shifted later when we write
@@ -123,9 +150,10 @@ map_add(tag_handle src, tag_handle dest)
          */
         bit = dest.bit;
         offset = 0;
-        mask = (uint8_t *)malloc(src.size);
-        bzero(mask, src.size);
-        for(int i=0; i<src.count; i++) {
+        mask = (uint8_t *)malloc(dest.size);
+        bzero(mask, dest.size);
+        bits = _map_bits(src, dest);
+        for(int i=0; i<bits; i++) {
             mask[offset] |= (0x01 << bit);
             bit++;
             if(bit == 8) {
@@ -150,26 +178,24 @@ map_del(tag_index index, int id) {
     if(index < 0 || index >= get_tagindex()) {
         return ERR_ARG;
     }
+    prev = NULL;
     this = _db[index].mappings;
-    if(this->id == id) {
-        _db[index].mappings = this->next;
-        _free_map(this);
-        return 0;
-    } else {
-        prev = this;
-        this = this->next;
-        while(this != NULL) {
-            if(this->id == id) {  /* Found it */
+    while(this != NULL) {
+        if(this->id == id) {  /* Found it */
+            if(prev == NULL) {
+                _db[index].mappings = this->next;
+            } else {
                 prev->next = this->next;
-                _free_map(this);
-                return 0;
             }
-            this = this->next;
+            _free_map(this);
+            /* If there are no more mappings reset the attribute flag */
+            if(_db[index].mappings == NULL) {
+                _db[index].attr &= ~TAG_ATTR_MAPPING;
+            }
+            return 0;
         }
-    }
-    /* If there are no more mappings reset the attribute flag */
-    if(_db[index].mappings == NULL) {
-        _db[index].attr &= ~TAG_ATTR_MAPPING;
+        prev = this;
+        this = this->next;
     }
     return ERR_NOTFOUND;
 }
@@ -210,20 +236,23 @@ map_del_all(_dax_datamap *head) {
 
 int
 map_check(tag_index idx, int offset, int size) {
-    _dax_datamap *this;
+    _dax_datamap *this, *next;
     uint8_t *new_data, *srcdb;
     int srcByte;
     int srcBit;
     int destByte;
     int destBit;
+    int bits;
     int result;
 
+    if(size <= 0) return 0; /* Nothing has been written */
     this = _db[idx].mappings;
     /* If this is the first time we've been called then it means that is is the tag that started
      * the mapping.  If we chain too many then we'll tell the user which tag started it all. */
     while(this != NULL) {
+        next = this->next; /* We may delete this map */
 
-        if(offset <= (this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte) {
+        if(offset <= (int)(this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte) {
             srcdb = &_db[this->source.index].data[this->source.byte];
             /* Mapping Hit */
             if(this->mask != NULL) {
@@ -233,13 +262,14 @@ map_check(tag_index idx, int offset, int size) {
                 srcBit = this->source.bit;
                 destByte = 0;
                 destBit = this->dest.bit;
-                new_data = (uint8_t *)malloc(this->source.size);
+                new_data = (uint8_t *)malloc(this->dest.size);
                 if(new_data == NULL) {
                     dax_log(DAX_LOG_ERROR, "Unable to allocate memory for map mask");
                     return ERR_ALLOC;
                 }
-                bzero(new_data, this->source.size);
-                for(int n=0; n<this->source.count; n++) {
+                bzero(new_data, this->dest.size);
+                bits = _map_bits(this->source, this->dest);
+                for(int n=0; n<bits; n++) {
                     if(srcdb[srcByte] & (0x01 << srcBit)) {
                         new_data[destByte] |= (0x01 << destBit);
                     }
@@ -254,7 +284,7 @@ map_check(tag_index idx, int offset, int size) {
                         destByte++;
                     }
                 }
-                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, this->source.size);
+                result = tag_mask_write(-1, this->dest.index, this->dest.byte, new_data, this->mask, this->dest.size);
                 /* If the destination tag has been deleted then delete this map */
                 if(result == ERR_DELETED) {
                     dax_log(DAX_LOG_DEBUG, "Destination tag has been deleted, removing map %d from tag index = %d", this->id, this->source.index);
@@ -269,7 +299,7 @@ map_check(tag_index idx, int offset, int size) {
                 }
             }
         }
-        this = this->next;
+        this = next;
     }
     return 0;
 }
diff --git a/src/server/message.c b/src/server/message.c
index a5de7dd..7c1210c 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -820,7 +820,7 @@ msg_map_del(dax_message *msg)
     } else {
         _message_send(msg->fd, MSG_MAP_DEL, &result, sizeof(int), RESPONSE);
     }
-    return result;
+    return 0;
 }
 
 int msg_map_get(dax_message *msg)
@@ -830,6 +830,10 @@ int msg_map_get(dax_message *msg)
     tag_handle src, dest;
     uint8_t buff[sizeof(tag_handle) * 2];
 
+    bzero(&src, sizeof(src));
+    bzero(&dest, sizeof(dest));
+    bzero(buff, sizeof(buff));
+
     id.index = *(dax_dint *)msg->data;
     id.id = *(dax_dint *)&msg->data[4];
 
@@ -855,7 +859,7 @@ int msg_map_get(dax_message *msg)
     } else {
         _message_send(msg->fd, MSG_MAP_GET, &buff, sizeof(tag_handle) * 2, RESPONSE);
     }
-    return result;
+    return 0;
 }
 
 int
-- 
2.43.0


From 08db55836d6df03ce96399b34b08c28992e26850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:43 +0000
Subject: [PATCH 18/88] fix: atomic operations on offsets, bit ranges and TIME
 corrupted data or went out of bounds

---
 src/server/atomic.c  | 95 ++++++++++++++++++++++++++++----------------
 src/server/message.c |  1 -
 2 files changed, 61 insertions(+), 35 deletions(-)

diff --git a/src/server/atomic.c b/src/server/atomic.c
index 5468192..c6d6710 100644
--- a/src/server/atomic.c
+++ b/src/server/atomic.c
@@ -37,6 +37,31 @@ _left_shift(dax_byte *dest, dax_byte *src, size_t size, uint8_t bit) {
     dest[0] = (src[0] << bit);           /* Fix the LSB */
 }
 
+/* Returns the mask of the bits in the last byte that are above the range
+ * given by the BOOL handle. */
+inline static dax_byte
+_high_mask(tag_handle h) {
+    int used = (h.bit + h.count) % 8;
+
+    return used ? 0xFF << used : 0x00;
+}
+
+/* Toggles all of the bits in the range of a BOOL handle.  The masks are the
+ * bits in the first and last bytes that are outside of the range */
+inline static void
+_toggle(tag_handle h, dax_byte hmask, dax_byte lmask) {
+    dax_byte *data = (dax_byte *)&_db[h.index].data[h.byte];
+    dax_byte mask;
+    int n;
+
+    for(n=0;n<h.size;n++) {
+        mask = 0xFF;
+        if(n == 0) mask &= ~lmask;
+        if(n == h.size-1) mask &= ~hmask;
+        data[n] ^= mask;
+    }
+}
+
 
 static int
 _atomic_inc(tag_handle h, void *data) {
@@ -59,7 +84,6 @@ _atomic_inc(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] += *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -70,6 +94,7 @@ _atomic_inc(tag_handle h, void *data) {
             *(dax_ulint *)&_db[h.index].data[h.byte] += *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
+        case DAX_TIME:
             *(dax_lint *)&_db[h.index].data[h.byte] += *(dax_lint *)data;
             return 0;
         case DAX_REAL:
@@ -103,7 +128,6 @@ _atomic_dec(tag_handle h, void *data) {
             return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             *(dax_udint *)&_db[h.index].data[h.byte] -= *(dax_udint *)data;
             return 0;
         case DAX_DINT:
@@ -114,6 +138,7 @@ _atomic_dec(tag_handle h, void *data) {
             *(dax_ulint *)&_db[h.index].data[h.byte] -= *(dax_ulint *)data;
             return 0;
         case DAX_LINT:
+        case DAX_TIME:
             *(dax_lint *)&_db[h.index].data[h.byte] -= *(dax_lint *)data;
             return 0;
         case DAX_REAL:
@@ -166,7 +191,7 @@ _atomic_or(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
 
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] &= ~hmask;
@@ -177,7 +202,7 @@ _atomic_or(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] |= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] |= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -194,7 +219,7 @@ _atomic_and(tag_handle h, void *data) {
         return ERR_BADTYPE;
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] |= hmask;
@@ -205,7 +230,7 @@ _atomic_and(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] &= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] &= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -224,7 +249,7 @@ _atomic_nor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] &= ~hmask;
@@ -239,15 +264,11 @@ _atomic_nor(tag_handle h, void *data) {
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] |= temp[n];
         }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
-        }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        _toggle(h, hmask, lmask);
 
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] | ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] | ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -266,7 +287,7 @@ _atomic_nand(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] |= hmask;
@@ -275,14 +296,10 @@ _atomic_nand(tag_handle h, void *data) {
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] &= temp[n];
         }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
-        }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        _toggle(h, hmask, lmask);
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] & ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] & ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -300,7 +317,7 @@ _atomic_xor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         _left_shift(temp, data, h.size, h.bit);
 
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[h.size-1] &= ~hmask;
@@ -311,7 +328,7 @@ _atomic_xor(tag_handle h, void *data) {
         }
     } else {
         for(n=0; n<h.size; n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] ^= ((dax_byte *)data)[h.byte+n];
+            *(dax_byte *)&_db[h.index].data[h.byte+n] ^= ((dax_byte *)data)[n];
         }
     }
     return 0;
@@ -329,7 +346,7 @@ _atomic_xnor(tag_handle h, void *data) {
     } else if(h.type == DAX_BOOL && !(h.count % 8 == 0 && h.bit == 0)) {
         size = h.size;
         _left_shift(temp, data, size, h.bit);
-        hmask = 0xFF << ((h.bit + (h.count%8))%8);
+        hmask = _high_mask(h);
         lmask = 0xFF >> (8-h.bit);
 
         temp[size-1] &= ~hmask;
@@ -338,15 +355,11 @@ _atomic_xnor(tag_handle h, void *data) {
         for(n=0;n< size;n++) {
             ((dax_byte *)_db[h.index].data)[h.byte+n] ^= temp[n];
         }
-        for(n=1;n<size-1;n++) {
-            ((dax_byte *)_db[h.index].data)[h.byte+n] ^= 0xFF;
-        }
-        ((dax_byte *)_db[h.index].data)[size-1] ^= ~hmask;
-        ((dax_byte *)_db[h.index].data)[0]      ^= ~lmask;
+        _toggle(h, hmask, lmask);
 
     } else {
         for(n=0;n<h.size;n++) {
-            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] ^ ((dax_byte *)data)[h.byte+n]);
+            *(dax_byte *)&_db[h.index].data[h.byte+n] = ~(*(dax_byte *)&_db[h.index].data[h.byte+n] ^ ((dax_byte *)data)[n]);
         }
     }
     return 0;
@@ -356,6 +369,7 @@ _atomic_xnor(tag_handle h, void *data) {
 int
 atomic_op(tag_handle h, void *data, uint16_t op) {
     int result;
+    uint64_t size;
     /* We don't do these on custom data types */
     if(IS_CUSTOM(h.type)) {
         return ERR_BADTYPE;
@@ -364,11 +378,6 @@ atomic_op(tag_handle h, void *data, uint16_t op) {
     if(h.index < 0 || h.index >= get_tagindex()) {
         return ERR_ARG;
     }
-    /* Bounds Check Size - we can use the TYPESIZE macro here because we have
-       already excluded CDTs */
-    if((h.byte + h.size) > (_db[h.index].count * TYPESIZE(_db[h.index].type))) {
-        return ERR_2BIG;
-    }
     /* Since we directly manipulate the _db here we can't deal with virtual tags or
        special tags.*/
     if(_db[h.index].attr & (TAG_ATTR_VIRTUAL | TAG_ATTR_SPECIAL)) {
@@ -379,6 +388,23 @@ atomic_op(tag_handle h, void *data, uint16_t op) {
     if(_db[h.index].data == NULL) {
         return ERR_DELETED;
     }
+    /* The size is determined by the type and the count.  There has to be at least
+       that much data in the message.  We can use the TYPESIZE macro here because we
+       have already excluded CDTs */
+    if(h.type == DAX_BOOL) {
+        if(h.bit > 7) return ERR_ARG;
+        size = ((uint64_t)h.bit + h.count + 7) / 8;
+    } else {
+        size = (uint64_t)h.count * (TYPESIZE(h.type) / 8);
+    }
+    if(size == 0 || size > h.size) {
+        return ERR_ARG;
+    }
+    h.size = size;
+    /* Bounds Check Size */
+    if((uint64_t)h.byte + h.size > tag_get_size(h.index)) {
+        return ERR_2BIG;
+    }
     switch(op) {
         case ATOMIC_OP_INC:
             if(h.type == DAX_BOOL) return ERR_BADTYPE;
@@ -417,6 +443,7 @@ atomic_op(tag_handle h, void *data, uint16_t op) {
     if(_db[h.index].attr & TAG_ATTR_RETAIN) {
         ret_tag_write(h.index);
     }
+    map_check(h.index, h.byte, h.size);
 
     return 0;
 }
diff --git a/src/server/message.c b/src/server/message.c
index 7c1210c..fcb6cce 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -980,7 +980,6 @@ msg_atomic_op(dax_message *msg) {
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_ATOMIC_OP, &result, sizeof(int), ERROR);
     } else {
-        map_check(h.index, h.byte, h.size);
         _message_send(msg->fd, MSG_ATOMIC_OP, NULL, 0, RESPONSE);
     }
     return 0;
-- 
2.43.0


From d9301e12c1e621fab151d889aee78daa92b9e78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:39 +0000
Subject: [PATCH 19/88] fix: tag groups leaked, ignored bit offsets, ownership
 and mappings, and were accessed out of bounds

---
 src/lib/libmsg.c     |  8 ++--
 src/server/groups.c  | 95 +++++++++++++++++++++++++++++++++++---------
 src/server/groups.h  |  4 +-
 src/server/message.c | 30 +++++++++-----
 4 files changed, 104 insertions(+), 33 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 5319b42..6247e33 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1729,24 +1729,26 @@ int
 dax_group_read(dax_state *ds, tag_group_id *id, void *data, size_t size) {
     int result;
     uint32_t u_temp;
+    char buff[MSG_DATA_SIZE];
 
     if(size < id->size) return ERR_ARG;
     u_temp = mtos_udint(id->index);
-    memcpy(data, &u_temp, 4);
+    memcpy(buff, &u_temp, 4);
 
     pthread_mutex_lock(&ds->lock);
-    result = _message_send(ds, MSG_GRP_READ, data, 4);
+    result = _message_send(ds, MSG_GRP_READ, buff, 4);
     if(result) {
         pthread_mutex_unlock(&ds->lock);
         return result;
     }
 
     size = MSG_DATA_SIZE;
-    result = _message_recv(ds, MSG_GRP_READ, data, &size, 1);
+    result = _message_recv(ds, MSG_GRP_READ, buff, &size, 1);
     if(result) {
         pthread_mutex_unlock(&ds->lock);
         return result;
     }
+    memcpy(data, buff, id->size);
     if(result == 0) {
         result = group_read_format(ds, id, data);
     }
diff --git a/src/server/groups.c b/src/server/groups.c
index f8585c6..aeed584 100644
--- a/src/server/groups.c
+++ b/src/server/groups.c
@@ -71,6 +71,26 @@ _group_add(dax_module *mod) {
 }
 
 
+/* Returns a pointer to the group or NULL if it doesn't exist */
+static tag_group *
+_get_group(dax_module *mod, uint32_t index) {
+    if(mod == NULL || index >= mod->groups_size) return NULL;
+    if((mod->tag_groups[index].flags & GRP_FLAG_NOT_EMPTY) == 0) return NULL;
+    return &mod->tag_groups[index];
+}
+
+/* Copies the bits from one buffer to another */
+static void
+_copy_bits(uint8_t *dest, int dest_bit, uint8_t *src, int src_bit, int count) {
+    for(int n=0; n<count; n++, dest_bit++, src_bit++) {
+        if(src[src_bit / 8] & (0x01 << (src_bit % 8))) {
+            dest[dest_bit / 8] |= (0x01 << (dest_bit % 8));
+        } else {
+            dest[dest_bit / 8] &= ~(0x01 << (dest_bit % 8));
+        }
+    }
+}
+
 /* This adds a tag group to the given module.  It simply determines if there
  * is space on the currently allocated array and if not allocates more space.
  * The handles array is the part of the message buffer that contains the
@@ -80,7 +100,9 @@ _group_add(dax_module *mod) {
 int
 group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
     int index, datasize, offset;
+    tag_handle *h;
 
+    if(mod == NULL) return ERR_NOTFOUND;
     if(count > TAG_GROUP_MAX_MEMBERS) return ERR_ARG;
     index = _group_add(mod);
     if(index < 0) return index; /* Pass the error on up */
@@ -97,16 +119,24 @@ group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
         memcpy(&mod->tag_groups[index].members[n].size, &handles[offset+13], 4);
         memcpy(&mod->tag_groups[index].members[n].type, &handles[offset+17], 4);
 
-        datasize += mod->tag_groups[index].members[n].size;
-        if(datasize > MSG_TAG_GROUP_DATA_SIZE) {
+        h = &mod->tag_groups[index].members[n];
+        if(h->size > MSG_TAG_GROUP_DATA_SIZE || datasize + h->size > MSG_TAG_GROUP_DATA_SIZE) {
             free(mod->tag_groups[index].members);
             mod->tag_groups[index].members = NULL;
             return ERR_2BIG;
         }
+        datasize += h->size;
+        /* The bits of BOOL members have to fit in the data */
+        if(h->type == DAX_BOOL && (h->bit > 7 || (uint64_t)h->bit + h->count > (uint64_t)h->size * 8)) {
+            free(mod->tag_groups[index].members);
+            mod->tag_groups[index].members = NULL;
+            return ERR_ARG;
+        }
     }
 
     mod->tag_groups[index].flags |= GRP_FLAG_NOT_EMPTY;
     mod->tag_groups[index].count = count;
+    mod->tag_groups[index].size = datasize;
     dax_log(DAX_LOG_MSG, "Group Add message from %s", mod->name);
     return index;
 }
@@ -114,13 +144,13 @@ group_add(dax_module *mod, uint8_t *handles, uint8_t count) {
 
 /* Deletes a single tag group from the given module */
 int
-group_del(dax_module *mod, int index) {
-    if((mod->tag_groups[index].flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
+group_del(dax_module *mod, uint32_t index) {
+    if(_get_group(mod, index) == NULL) return ERR_NOTFOUND;
 
     free(mod->tag_groups[index].members);
+    mod->tag_groups[index].members = NULL;
     mod->tag_groups[index].flags = 0x00;
     mod->tag_groups[index].count = 0;
-    mod->groups_size--;
     dax_log(DAX_LOG_MSG, "Group Delete message from %s", mod->name);
     return 0;
 }
@@ -131,31 +161,60 @@ int
 group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size) {
     int n, offset=0, result;
     tag_group *group;
+    tag_handle *h;
+    uint8_t bits[MSG_TAG_GROUP_DATA_SIZE];
 
-    group = &mod->tag_groups[index];
-    if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
+    group = _get_group(mod, index);
+    if(group == NULL) return ERR_NOTFOUND;
     if(group->size > size) return ERR_ARG;
     for(n = 0;n<group->count;n++) {
-        result = tag_read(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
-        if(result) return result;
-        offset += group->members[n].size;
+        h = &group->members[n];
+        if(h->type == DAX_BOOL) {
+            /* Return the bits just like an individual read would */
+            result = tag_read(mod->fd, h->index, h->byte, bits, h->size);
+            if(result) return result;
+            bzero(&buff[offset], h->size);
+            _copy_bits(&buff[offset], 0, bits, h->bit, h->count);
+        } else {
+            result = tag_read(mod->fd, h->index, h->byte, &buff[offset], h->size);
+            if(result) return result;
+        }
+        offset += h->size;
     }
     return offset;
 }
 
-/* loop through the array of members and populate buff with
- * the data.*/
+/* loop through the array of members and write the data that
+ * is in buff to each one.  size is the amount of data in buff */
 int
-group_write(dax_module *mod, uint32_t index, uint8_t *buff) {
+group_write(dax_module *mod, uint32_t index, uint8_t *buff, int size) {
     int n, offset=0, result;
     tag_group *group;
-
-    group = &mod->tag_groups[index];
-    if((group->flags & GRP_FLAG_NOT_EMPTY) == 0) return ERR_NOTFOUND;
+    tag_handle *h;
+    uint8_t bits[MSG_TAG_GROUP_DATA_SIZE];
+    uint8_t mask[MSG_TAG_GROUP_DATA_SIZE];
+    uint8_t ones[MSG_TAG_GROUP_DATA_SIZE];
+
+    group = _get_group(mod, index);
+    if(group == NULL) return ERR_NOTFOUND;
+    if(size < (int)group->size) return ERR_ARG;
+    memset(ones, 0xFF, sizeof(ones));
     for(n = 0;n<group->count;n++) {
-        result = tag_write(-1, group->members[n].index, group->members[n].byte, &buff[offset], group->members[n].size);
+        h = &group->members[n];
+        if(is_tag_readonly(h->index) && ! is_tag_owned(mod->fd, h->index)) return ERR_READONLY;
+        if(h->type == DAX_BOOL && ! is_tag_virtual(h->index)) {
+            /* We can only write the bits that belong to the handle */
+            bzero(bits, h->size);
+            bzero(mask, h->size);
+            _copy_bits(bits, h->bit, &buff[offset], 0, h->count);
+            _copy_bits(mask, h->bit, ones, 0, h->count);
+            result = tag_mask_write(mod->fd, h->index, h->byte, bits, mask, h->size);
+        } else {
+            result = tag_write(mod->fd, h->index, h->byte, &buff[offset], h->size);
+        }
         if(result) return result;
-        offset += group->members[n].size;
+        map_check(h->index, h->byte, h->size);
+        offset += h->size;
     }
     return offset;
 }
diff --git a/src/server/groups.h b/src/server/groups.h
index f70506d..637b7ad 100644
--- a/src/server/groups.h
+++ b/src/server/groups.h
@@ -36,9 +36,9 @@
  */
 
 int group_add(dax_module *mod, uint8_t *handles, uint8_t count);
-int group_del(dax_module *mod, int index);
+int group_del(dax_module *mod, uint32_t index);
 int group_read(dax_module *mod, uint32_t index, uint8_t *buff, int size);
-int group_write(dax_module *mod, uint32_t index, uint8_t *buff);
+int group_write(dax_module *mod, uint32_t index, uint8_t *buff, int size);
 int groups_cleanup(dax_module *mod);
 
 #endif /* !__DAX_GROUPS_H */
diff --git a/src/server/message.c b/src/server/message.c
index fcb6cce..8882a94 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -862,6 +862,12 @@ int msg_map_get(dax_message *msg)
     return 0;
 }
 
+/* Messages can come from sockets that have not been registered */
+static const char *
+_module_name(dax_module *mod) {
+    return mod == NULL ? "unregistered module" : mod->name;
+}
+
 int
 msg_group_add(dax_message *msg) {
     dax_module *mod;
@@ -871,14 +877,18 @@ msg_group_add(dax_message *msg) {
     mod = module_find_fd(msg->fd);
     count = msg->data[0];
     //options = msg->data[1]; /* Might use this in the future to indicate maskable groups */
-    id = group_add(mod, (uint8_t *)&msg->data[2], count);
+    if(msg->size < 2 + 21 * (uint32_t)count) {
+        id = ERR_MSG_BAD;
+    } else {
+        id = group_add(mod, (uint8_t *)&msg->data[2], count);
+    }
 
     if(id < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Add Message for %s Returning Error %d",mod->name, id);
+        dax_log(DAX_LOG_MSGERR, "Group Add Message for %s Returning Error %d",_module_name(mod), id);
     } else {
         _message_send(msg->fd, MSG_GRP_ADD, &id, sizeof(int), RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Add Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Add Message for %s", _module_name(mod));
     }
     return 0;
 }
@@ -894,10 +904,10 @@ msg_group_del(dax_message *msg) {
     result = group_del(mod, index);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Delete Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Delete Message for %s Returning Error %d",_module_name(mod), result);
      } else {
         _message_send(msg->fd, MSG_GRP_DEL, &result, sizeof(int), RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Delete Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Delete Message for %s", _module_name(mod));
     }
     return 0;
 }
@@ -914,10 +924,10 @@ msg_group_read(dax_message *msg) {
     result = group_read(mod, index, buff, MSG_TAG_GROUP_DATA_SIZE);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_READ, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Read Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Read Message for %s Returning Error %d",_module_name(mod), result);
     } else {
         _message_send(msg->fd, MSG_GRP_READ, buff, result, RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Read Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Read Message for %s", _module_name(mod));
     }
     return 0;
 }
@@ -931,13 +941,13 @@ msg_group_write(dax_message *msg) {
     mod = module_find_fd(msg->fd);
     memcpy(&index, &msg->data[0], 4);
 
-    result = group_write(mod, index, (uint8_t *)&msg->data[4]);
+    result = group_write(mod, index, (uint8_t *)&msg->data[4], (int)msg->size - 4);
     if(result < 0) { /* Send Error */
         _message_send(msg->fd, MSG_GRP_WRITE, &result, sizeof(int), ERROR);
-        dax_log(DAX_LOG_MSGERR, "Group Write Message for %s Returning Error %d",mod->name, result);
+        dax_log(DAX_LOG_MSGERR, "Group Write Message for %s Returning Error %d",_module_name(mod), result);
     } else {
         _message_send(msg->fd, MSG_GRP_WRITE, NULL, 0, RESPONSE);
-        dax_log(DAX_LOG_MSG, "Group Write Message for %s", mod->name);
+        dax_log(DAX_LOG_MSG, "Group Write Message for %s", _module_name(mod));
     }
     return 0;
 }
-- 
2.43.0


From f6d544c81149548cf59c701c579defd8f8b5c489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:04 +0000
Subject: [PATCH 20/88] fix: retained tags were lost or corrupted by restarts,
 growth, deletion, BOOLs and nested types

---
 src/server/retain.c  | 58 ++++++++++++++++++++++++++++++++++++--------
 src/server/tagbase.c |  5 ++--
 2 files changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/server/retain.c b/src/server/retain.c
index 9175c1d..45a6c8d 100644
--- a/src/server/retain.c
+++ b/src/server/retain.c
@@ -79,7 +79,7 @@ _create_tags(void) {
 
 
     // CREATE ALL THE DATATYPES FIRST
-    result = sqlite3_prepare_v2(_sql, "SELECT name,type,count,data FROM tags;", -1, &stmt, NULL);
+    result = sqlite3_prepare_v2(_sql, "SELECT name,type,count,data FROM tags ORDER BY id;", -1, &stmt, NULL);
     if(result != SQLITE_OK) {
         /* Most errors are because we have a new file */
         dax_log(DAX_LOG_ERROR, "Unable to compile SQL statement to create tags");
@@ -98,7 +98,11 @@ _create_tags(void) {
         if(tag_index < 0) {
             dax_log(DAX_LOG_ERROR, "Retained tag not created properly");
         } else {
-            memcpy(_db[tag_index].data, data, MIN(size, tag_get_size(tag_index)));
+            if(data != NULL) {
+                memcpy(_db[tag_index].data, data, MIN(size, tag_get_size(tag_index)));
+            }
+            /* It will be added to the new table in _init() */
+            _db[tag_index].attr |= TAG_ATTR_RETAIN;
         }
     }
     if(result != SQLITE_DONE) {
@@ -136,6 +140,7 @@ _create_database_tables(void) {
 static int
 _init(char *filename) {
     int result;
+    tag_index n;
     char *errmsg;
 
     dax_log(DAX_LOG_DEBUG, "Setting up SQLite Tag Retention - %s", filename);
@@ -150,6 +155,12 @@ _init(char *filename) {
        These may fail if the file doesn't exist but that's okay */
     result = _create_types(); /* Creates the types that are stored in the data base */
     result = _create_tags(); /* Creates the tags that are in the data base */
+    /* The tables are built again because the indexes of the types may have changed.
+       If we are interrupted we keep the old ones */
+    result = sqlite3_exec(_sql, "BEGIN IMMEDIATE;", NULL, 0, &errmsg);
+    if(result != SQLITE_OK) {
+        DF("unable to begin transaction - %s", errmsg);
+    }
     result = sqlite3_exec(_sql, "DROP TABLE IF EXISTS tags;", NULL, 0, &errmsg);
     if(result != SQLITE_OK) {
         DF("unable to drop table 'tags' - %s", errmsg);
@@ -163,6 +174,16 @@ _init(char *filename) {
     if(result) {
         DF("problem with prepare %d", result);
     }
+    /* The tags that we just loaded are still retained */
+    for(n = 0; n < get_tagindex(); n++) {
+        if(_db[n].attr & TAG_ATTR_RETAIN) {
+            ret_add_tag(n);
+        }
+    }
+    result = sqlite3_exec(_sql, "COMMIT;", NULL, 0, &errmsg);
+    if(result != SQLITE_OK) {
+        DF("unable to commit transaction - %s", errmsg);
+    }
     return 0;
 }
 
@@ -189,6 +210,7 @@ _add_type(tag_type type) {
 
     if(dt == NULL) {
         dax_log(DAX_LOG_ERROR, "Bad type passed");
+        return ERR_ARG;
     }
     /* Loop through all the members and recursively add any
        compound data types that we find */
@@ -199,24 +221,27 @@ _add_type(tag_type type) {
         }
         next = next->next;
     }
-    /* Turn the type into a string that we can use to reload it later */
-    serialize_datatype(type, &type_str);
     if(_sql == NULL) return ERR_FILE_CLOSED;
+    /* Turn the type into a string that we can use to reload it later */
+    result = serialize_datatype(type, &type_str);
+    if(result < 0) return result;
 
-    snprintf(query, 256, "INSERT INTO main.types(id,name,definition) VALUES (%d,'%s',?);",index, dt->name);
+    snprintf(query, 256, "INSERT OR IGNORE INTO main.types(id,name,definition) VALUES (%d,'%s',?);",index, dt->name);
 
     result = sqlite3_prepare_v2(_sql, query, -1, &stmt , NULL);
     if(result != SQLITE_OK) {
         dax_log(DAX_LOG_ERROR, "Unable to create tag in retention ");
+        free(type_str);
         return result;
     }
     sqlite3_bind_text(stmt, 1, type_str, -1, NULL);
     result = sqlite3_step(stmt);
+    sqlite3_finalize(stmt);
+    free(type_str);
     if(result != SQLITE_DONE) {
         dax_log(DAX_LOG_ERROR, "Problem inserting tag");
         return -1;
     }
-    sqlite3_finalize(stmt);
 
     return 0;
 }
@@ -229,12 +254,15 @@ ret_add_tag(int index) {
     char query[256];
 
     dax_log(DAX_LOG_DEBUG, "Adding Retained Tag at index %d", index);
+    /* The data of virtual tags and queues is not in the database */
+    if(is_tag_virtual(index)) return ERR_ILLEGAL;
     /* TODO: Implement retaining custom data type tags */
     if(IS_CUSTOM(_db[index].type)) {
         _add_type(_db[index].type);
     }
     if(_sql == NULL) return ERR_FILE_CLOSED;
-    snprintf(query, 256, "INSERT INTO main.tags(name,type,count,data) VALUES ('%s','%s',%d,NULL);",
+    /* The tag may already be there if we are changing it */
+    snprintf(query, 256, "INSERT OR REPLACE INTO main.tags(name,type,count,data) VALUES ('%s','%s',%d,?);",
                          _db[index].name, cdt_get_name(_db[index].type), _db[index].count);
 
     result = sqlite3_prepare_v2(_sql, query, -1, &stmt , NULL);
@@ -242,7 +270,9 @@ ret_add_tag(int index) {
         dax_log(DAX_LOG_ERROR, "Unable to create tag in retention ");
         return result;
     }
+    sqlite3_bind_blob(stmt, 1, _db[index].data, tag_get_size(index), NULL);
     result = sqlite3_step(stmt);
+    sqlite3_finalize(stmt);
     if(result == SQLITE_DONE) {
         /* This might be a race condition if we ever multi thread the server */
         id = sqlite3_last_insert_rowid(_sql);
@@ -251,15 +281,23 @@ ret_add_tag(int index) {
         dax_log(DAX_LOG_ERROR, "Problem inserting tag");
         return -1;
     }
-    sqlite3_finalize(stmt);
     return 0;
 }
 
 int
 ret_del_tag(int index) {
 
-    dax_log(DAX_LOG_DEBUG, "Deleting Retained Tag at index %d", index);
+    char query[256];
+    char *errmsg = NULL;
 
+    dax_log(DAX_LOG_DEBUG, "Deleting Retained Tag at index %d", index);
+    if(_sql == NULL) return ERR_FILE_CLOSED;
+    snprintf(query, 256, "DELETE FROM main.tags WHERE id = %d;", _db[index].ret_file_pointer);
+    if(sqlite3_exec(_sql, query, NULL, 0, &errmsg) != SQLITE_OK) {
+        dax_log(DAX_LOG_ERROR, "Unable to delete retained tag - %s", errmsg);
+        sqlite3_free(errmsg);
+        return -1;
+    }
     return 0;
 }
 
@@ -267,7 +305,7 @@ int
 ret_tag_write(int index) {
     int result;
 
-    result = sqlite3_bind_blob(update_stmt, 1, _db[index].data, type_size(_db[index].type) * _db[index].count, NULL);
+    result = sqlite3_bind_blob(update_stmt, 1, _db[index].data, tag_get_size(index), NULL);
     if(result) {
         DF("Problem with bind_blob %d", result);
     }
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 8b5842f..e05cf49 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -440,7 +440,7 @@ _set_attribute(tag_index idx, uint32_t attr) {
     /* We only let the Tag Retention attribute to be set at this point */
     if(attr & TAG_ATTR_RETAIN) {
         /* TODO: add tag retention */;
-        ret_add_tag(idx);
+        if(!(_db[idx].attr & TAG_ATTR_RETAIN)) ret_add_tag(idx);
         _db[idx].attr |= TAG_ATTR_RETAIN;
     } else {
         if(attr & TAG_ATTR_OWNED && attr & TAG_ATTR_READONLY) {
@@ -548,6 +548,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
                 memset(&_db[n].data[oldsize], 0, size - oldsize);
                 _db[n].count = count;
                 _set_attribute(n, attr);
+                if(_db[n].attr & TAG_ATTR_RETAIN) ret_add_tag(n); /* Save the new size */
                 /* Since it changed we update this tag so the write event will trigger */
                 _write_tag_desc(INDEX_ADDED_TAG, n, attr);
                 return n;
@@ -1193,7 +1194,7 @@ cdt_get_entry(tag_type type) {
     int index;
 
     index = CDT_TO_INDEX(type);
-    if(IS_CUSTOM(type) && index > 0 && index < _datatype_size) {
+    if(IS_CUSTOM(type) && index >= 0 && index < _datatype_index) {
         return &_datatypes[index];
     } else {
         return NULL;
-- 
2.43.0


From 9ddc68148160d115576a3c6c6fea71dd8fc0e072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:05 +0000
Subject: [PATCH 21/88] fix: defining compound types with bad names, counts or
 no members crashed the server

---
 src/server/tagbase.c | 50 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index e05cf49..c40cdf4 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -933,6 +933,7 @@ static int
 cdt_append(datatype *cdt, char *str)
 {
     int retval, count;
+    long lcount;
     cdt_member *this, *new;
     char *name, *typestr, *countstr, *last;
     tag_type type;
@@ -944,7 +945,9 @@ cdt_append(datatype *cdt, char *str)
     if(typestr == NULL) return ERR_ARG;
     countstr = strtok_r(NULL, ",", &last);
     if(countstr == NULL) return ERR_ARG;
-    count = strtol(countstr, NULL, 0);
+    lcount = strtol(countstr, NULL, 0);
+    if(lcount <= 0 || lcount > INT32_MAX) return ERR_ARG;
+    count = lcount;
 
     /* Check that the name is okay */
     if( (retval = _validate_name(name)) ) {
@@ -999,6 +1002,24 @@ cdt_append(datatype *cdt, char *str)
 }
 
 
+/* Checks that the size of the compound datatype makes sense */
+static int
+_cdt_check_size(datatype *cdt) {
+    cdt_member *this;
+    uint64_t bits = 0;
+
+    if(cdt->members == NULL) return ERR_ARG;
+    for(this = cdt->members; this != NULL; this = this->next) {
+        if(this->type == DAX_BOOL) {
+            bits += this->count;
+        } else {
+            bits += (uint64_t)type_size(this->type) * 8 * this->count + 7;
+        }
+        if(bits > INT32_MAX) return ERR_2BIG;
+    }
+    return 0;
+}
+
 /* Creates a compound datatype using the definition string in *str.
  * Returns the positive index of the newly created datatype if
  * sucessful or 0 on failure. If *error is not NULL any error codes
@@ -1023,6 +1044,11 @@ cdt_create(char *str, int *error) {
      * and that is okay because the calling function doesn't need it anymore
      * except for printing the name so this works out okay. */
     name = strtok_r(tmp, ":", &last);
+    if(name == NULL) {
+        if(error != NULL) *error = ERR_ARG;
+        free(tmp);
+        return 0;
+    }
     /* Check that the name is okay */
     if( (result = _validate_name(name)) ) {
         if(error != NULL) *error = result;
@@ -1030,13 +1056,19 @@ cdt_create(char *str, int *error) {
         return 0;
     }
     if((type = cdt_get_type(name))) {
-        serialize_datatype(type, &serial);
-        if(strcmp(serial, str)) { /* This means the two CDT's are not equal */
+        free(tmp);
+        /* The names of the base types can't be used */
+        if(serialize_datatype(type, &serial) < 0) {
+            if(error != NULL) *error = ERR_DUPL;
+            return 0;
+        }
+        result = strcmp(serial, str);
+        free(serial);
+        if(result) { /* This means the two CDT's are not equal */
             if(error != NULL) *error = ERR_DUPL;
-            free(tmp);
             return 0;
         } else { /* If it's the same then just return it */
-            free(tmp);
+            if(error != NULL) *error = 0;
             return type;
         }
     }
@@ -1058,6 +1090,12 @@ cdt_create(char *str, int *error) {
         }
     }
     free(tmp);
+    /* The datatype has to have some data and the size has to fit in an integer */
+    if((result = _cdt_check_size(&cdt))) {
+        _cdt_destroy(&cdt);
+        if(error != NULL) *error = result;
+        return 0;
+    }
 
     /* Do we have space in the array */
     if(_datatype_index == _datatype_size) {
@@ -1430,7 +1468,7 @@ serialize_datatype(tag_type type, char **str)
 
     cdt_index = CDT_TO_INDEX(type);
 
-    if(cdt_index < 0 || cdt_index >= _datatype_index) {
+    if(!IS_CUSTOM(type) || cdt_index < 0 || cdt_index >= _datatype_index) {
         return ERR_ARG;
     }
 
-- 
2.43.0


From 833e1df41228adeb99ad93546e166882da572291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:44 +0000
Subject: [PATCH 22/88] fix: modules without a tag deleted a system tag on
 exit, bad or repeated module names corrupted tags

---
 src/server/module.c     | 29 +++++++++++++++--------------
 src/server/virtualtag.c |  2 +-
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/server/module.c b/src/server/module.c
index c8bc7a9..0d39587 100644
--- a/src/server/module.c
+++ b/src/server/module.c
@@ -115,6 +115,7 @@ module_add(char *name, unsigned int flags)
         new->flags = flags;
 
         new->fd = 0;
+        new->tagindex = -1; /* We don't have a tag yet */
         new->event_count = 0;
         new->tag_groups = NULL;
         new->groups_size = 0;
@@ -230,7 +231,7 @@ module_register(char *name, uint32_t timeout, int fd)
 {
     dax_module *mod, *test;
     char tagname[DAX_TAGNAME_SIZE + 1];
-    int result, x;
+    int result, x, len;
     dax_time starttime;
 
     bzero(tagname, DAX_TAGNAME_SIZE + 1);
@@ -254,14 +255,14 @@ module_register(char *name, uint32_t timeout, int fd)
             warning generated */
             strcpy(tagname, "_m");
             strncat(tagname, name, DAX_TAGNAME_SIZE - 2);
-            result = tag_get_name(tagname, NULL);
-            if(result==0) {
+            len = strlen(tagname);
+            while(tag_get_name(tagname, NULL) == 0) {
                 if(_mod_uuid < 1000) {
-                    x = MIN(strlen(tagname), DAX_TAGNAME_SIZE -3);
+                    x = MIN(len, DAX_TAGNAME_SIZE -3);
                     sprintf(&tagname[x], "%03d", _mod_uuid++);
                 } else {
-                    x = MIN(strlen(tagname), DAX_TAGNAME_SIZE -5);
-                    sprintf(&tagname[x], "%05d", _mod_uuid++);
+                    x = MIN(len, DAX_TAGNAME_SIZE -5);
+                    sprintf(&tagname[x], "%05d", _mod_uuid++ % 100000);
                 }
                 dax_log(DAX_LOG_WARN, "Duplicate module name.  Module tag being modified - %s", tagname);
             }
@@ -270,14 +271,14 @@ module_register(char *name, uint32_t timeout, int fd)
                 dax_log(DAX_LOG_ERROR, "Unable to add module tag- %s", tagname);
             } else {
                 mod->tagindex = result;
+                starttime = xtime();
+                tag_write(-1, result, 0, &starttime, sizeof(dax_time));
+                tag_write(-1, result, MOD_ID_OFFSET, &fd, sizeof(int));
+                /* We wait until after we have written what we want to set the special flag.
+                From now on we'll let the special functions handle the tag */
+                tag_set_attribute(result, TAG_ATTR_SPECIAL);
+                tag_write(-1, INDEX_LASTMODULE, 0, tagname, DAX_TAGNAME_SIZE);
             }
-            starttime = xtime();
-            tag_write(-1, result, 0, &starttime, sizeof(dax_time));
-            tag_write(-1, result, MOD_ID_OFFSET, &fd, sizeof(int));
-            /* We wait until after we have written what we want to set the special flag.
-            From now on we'll let the special functions handle the tag */
-            tag_set_attribute(result, TAG_ATTR_SPECIAL);
-            tag_write(-1, INDEX_LASTMODULE, 0, tagname, DAX_TAGNAME_SIZE);
         }
     } else {
         dax_log(DAX_LOG_ERROR, "Major problem registering module - %s:%d", name, fd);
@@ -307,7 +308,7 @@ module_unregister(int fd)
                 tag_del(n);
             }
         }
-        tag_del(mod->tagindex);
+        if(mod->tagindex >= 0) tag_del(mod->tagindex);
         module_del(mod);
     } else {
         dax_log(DAX_LOG_ERROR, "module_unregister() - Module File Descriptor %d Not Found", fd);
diff --git a/src/server/virtualtag.c b/src/server/virtualtag.c
index 0b812c1..87cd90e 100644
--- a/src/server/virtualtag.c
+++ b/src/server/virtualtag.c
@@ -67,7 +67,7 @@ get_module_tag_name(int fd, tag_index idx, int offset, void *data, int size, voi
     dax_module *mod;
 
     mod = module_find_fd(fd);
-    if(mod == NULL || mod->tagindex == 0) return ERR_NOTFOUND;
+    if(mod == NULL || mod->tagindex < 0) return ERR_NOTFOUND;
     result = tag_get_index(mod->tagindex, &tag);
     if(result) return result;
     if(offset < 0 || size < 0 || offset > DAX_TAGNAME_SIZE + 1 || size > DAX_TAGNAME_SIZE + 1 - offset) return ERR_2BIG;
-- 
2.43.0


From bddbfd0e9d88cba7a1b3e13a4186abff510d518d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 23/88] fix: a module that took ownership of an existing tag
 did not become its owner

---
 src/server/tagbase.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index c40cdf4..34d0019 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -521,6 +521,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
         }
         /* If the tag is identical or bigger then just return the handle */
         if(_db[n].type == type && _db[n].count >= count) {
+            if(!(_db[n].attr & TAG_ATTR_OWNED)) _db[n].fd = fd; /* It may be owned from now on */
             _set_attribute(n, attr);
             return n;
         } else if(_db[n].type == type && _db[n].count < count) {
@@ -547,6 +548,7 @@ tag_add(int fd, char *name, tag_type type, uint32_t count, uint32_t attr)
                 _db[n].data = newdata;
                 memset(&_db[n].data[oldsize], 0, size - oldsize);
                 _db[n].count = count;
+                if(!(_db[n].attr & TAG_ATTR_OWNED)) _db[n].fd = fd; /* It may be owned from now on */
                 _set_attribute(n, attr);
                 if(_db[n].attr & TAG_ATTR_RETAIN) ret_add_tag(n); /* Save the new size */
                 /* Since it changed we update this tag so the write event will trigger */
-- 
2.43.0


From e777a92340782bd9fdfc062b826aff7540729300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:42 +0000
Subject: [PATCH 24/88] fix: split, joined, short and bad messages stalled or
 crashed the server, owners could not mask write

---
 src/server/buffer.c  | 42 +++++++++++++++++++-------------
 src/server/message.c | 58 +++++++++++++++++++++++++++++++++++++++-----
 2 files changed, 77 insertions(+), 23 deletions(-)

diff --git a/src/server/buffer.c b/src/server/buffer.c
index f4d3d24..c3d242d 100644
--- a/src/server/buffer.c
+++ b/src/server/buffer.c
@@ -137,7 +137,7 @@ int
 buff_read(int fd)
 {
     dax_buffnode *node;
-    size_t result;
+    ssize_t result;
     uint32_t size;
 
     node = find_buff_slot(fd);
@@ -152,8 +152,9 @@ buff_read(int fd)
     //--result = xread(fd, &node->buffer[node->index], size);
 
     if(result < 0) {
+        if(errno == EINTR || errno == EAGAIN) return 0; /* Try again later */
         dax_log(DAX_LOG_ERROR, "Unable to read data from socket %d", fd);
-        return ERR_MSG_RECV;
+        return ERR_NO_SOCKET; /* This connection is no good anymore */
     } if(result == 0) { /* EOF means the other guy is closed */
         dax_log(DAX_LOG_COMM, "Received EOF on socket %d", fd);
         return ERR_NO_SOCKET;
@@ -161,17 +162,26 @@ buff_read(int fd)
 
     node->index += result;
 
-    /* Check the size and let the caller know how it turns out. */
-    /* First four bytes of a message should always be the size of
-       the message and it should be in network byte order */
-    size = ntohl(*(uint32_t *)node->buffer);
-    if(node->index < (size - 1)) {
-        return ERR_MSG_BAD;
-    } else if(node->index >= (size - 1)) {
-        return msg_dispatcher(fd, node->buffer);
-    }else if(size > DAX_MSGMAX) {
-        return ERR_2BIG;
+    /* There may be more than one message in the buffer and the last one
+       may not be complete yet.  In that case we leave it for the next time. */
+    while(node->index >= MSG_HDR_SIZE) {
+        /* First four bytes of a message should always be the size of
+           the message and it should be in network byte order */
+        size = ntohl(*(uint32_t *)node->buffer);
+        if(size < MSG_HDR_SIZE || size > DAX_MSGMAX) {
+            /* We can't find the next message after this */
+            dax_log(DAX_LOG_ERROR, "Message of bad size %u received on socket %d", size, fd);
+            return ERR_NO_SOCKET;
+        }
+        if(node->index < size) break;
+        result = msg_dispatcher(fd, node->buffer);
+        if(result < 0) {
+            dax_log(DAX_LOG_ERROR, "Message received with error: %d", (int)result);
+        }
+        node->index -= size;
+        memmove(node->buffer, &node->buffer[size], node->index);
     }
+    if(node->index == 0) buff_free(fd);
     return 0;
 }
 
@@ -195,8 +205,8 @@ buff_free(int fd)
     }
 }
 
-/* This function essentially marks all of the buffers as free.  If there are
- * more than min_buffers it'll free() the last one.  Kindof a poor boy
+/* If there are more than min_buffers it'll free() the last one as long as
+ * there is not a part of a message in it.  Kindof a poor boy
  * garbage collection. */
 void
 buff_freeall(void)
@@ -209,12 +219,10 @@ buff_freeall(void)
     last = NULL;
 
     while(node != NULL) {
-        node->fd = 0;
-        node->index = 0;
         n++;
         /* If we are the last node, there are more than min_buffers nodes in the list
            and last is not NULL then free the last node */
-        if(node->next == NULL && n > opt_min_buffers() && last != NULL) {
+        if(node->next == NULL && node->fd == 0 && n > opt_min_buffers() && last != NULL) {
             free(node);
             node = NULL;
             last->next = NULL;
diff --git a/src/server/message.c b/src/server/message.c
index 8882a94..8a91150 100644
--- a/src/server/message.c
+++ b/src/server/message.c
@@ -57,6 +57,33 @@ static int _maxfd;
 /* Index 0 is not used. */
 int (*cmd_arr[NUM_COMMANDS+1])(dax_message *) = {NULL};
 
+/* This is the least amount of data that each message command needs */
+static const uint32_t _min_size[NUM_COMMANDS+1] = {
+    [MSG_TAG_ADD]    = 13,
+    [MSG_TAG_DEL]    = 4,
+    [MSG_TAG_GET]    = 2,
+    [MSG_TAG_READ]   = 12,
+    [MSG_TAG_WRITE]  = 8,
+    [MSG_TAG_MWRITE] = 8,
+    [MSG_EVNT_ADD]   = 25,
+    [MSG_EVNT_DEL]   = 8,
+    [MSG_EVNT_OPT]   = 12,
+    [MSG_CDT_CREATE] = 1,
+    [MSG_CDT_GET]    = 2,
+    [MSG_MAP_ADD]    = 42,
+    [MSG_MAP_DEL]    = 8,
+    [MSG_MAP_GET]    = 8,
+    [MSG_GRP_ADD]    = 2,
+    [MSG_GRP_DEL]    = 4,
+    [MSG_GRP_READ]   = 4,
+    [MSG_GRP_WRITE]  = 4,
+    [MSG_ATOMIC_OP]  = 21,
+    [MSG_ADD_OVRD]   = 12,
+    [MSG_DEL_OVRD]   = 8,
+    [MSG_GET_OVRD]   = 12,
+    [MSG_SET_OVRD]   = 5,
+};
+
 /* Macro to check whether or not the command 'x' is valid */
 #define CHECK_COMMAND(x) (((x) <= 0 || (x) > NUM_COMMANDS) ? 1 : 0)
 
@@ -309,7 +336,7 @@ msg_receive(void)
             return ERR_MSG_RECV;
         }
     } else if(result == 0) { /* Timeout */
-        buff_freeall(); /* this erases all of the _buffer nodes */
+        buff_freeall(); /* this erases the extra _buffer nodes */
         return 0;
     } else {
         for(n = 0; n <= _maxfd; n++) {
@@ -319,6 +346,9 @@ msg_receive(void)
                     if(fd < 0) {
                         /* TODO: Need to handle these errors */
                         dax_log(DAX_LOG_ERROR, "Error Accepting socket: %s", strerror(errno));
+                    } else if(fd >= FD_SETSIZE) { /* We wouldn't be able to select() this */
+                        dax_log(DAX_LOG_ERROR, "Too many connections");
+                        close(fd);
                     } else {
                         dax_log(DAX_LOG_COMM, "Accepted socket on fd %d", n);
                         msg_add_fd(fd);
@@ -330,7 +360,8 @@ msg_receive(void)
                         module_unregister(n);
                         msg_del_fd(n);
                     } else if(result < 0) {
-                        return result; /* Pass the error up */
+                        /* The other connections still need to be handled */
+                        dax_log(DAX_LOG_ERROR, "Message received with error: %d", result);
                     }
                 }
             }
@@ -347,6 +378,7 @@ int
 msg_dispatcher(int fd, unsigned char *buff)
 {
     dax_message message;
+    int result;
 
     /* The first four bytes are the size and the size is always
      * sent in network order */
@@ -355,10 +387,15 @@ msg_dispatcher(int fd, unsigned char *buff)
      * byte order. */
     message.msg_type = ntohl(*(uint32_t *)&buff[4]);
 
-    if(CHECK_COMMAND(message.msg_type)) return ERR_MSG_BAD;
+    if(CHECK_COMMAND(message.msg_type) || message.size < _min_size[message.msg_type]) {
+        result = ERR_MSG_BAD;
+        _message_send(fd, message.msg_type, &result, sizeof(result), ERROR);
+        return result;
+    }
     message.fd = fd;
     memcpy(message.data, &buff[8], message.size);
-    buff_free(fd);
+    /* Anything that was not sent reads as zero */
+    bzero(&message.data[message.size], MSG_DATA_SIZE - message.size);
     /* Now call the function to deal with it */
     return (*cmd_arr[message.msg_type])(&message);
 }
@@ -386,6 +423,7 @@ msg_mod_register(dax_message *msg)
     if(msg->size > 0) {
         /* The first parameter is the timeout if the first registration and
          * the module id if it's the async socket registration. */
+        msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
         parint = ntohl(*((uint32_t *)&msg->data[0]));
         flags = ntohl(*((uint32_t *)&msg->data[4]));
 
@@ -431,6 +469,7 @@ msg_tag_add(dax_message *msg)
     uint32_t count;
     uint32_t attr;
 
+    msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
     type = *((uint32_t *)&msg->data[0]);
     count = *((uint32_t *)&msg->data[4]);
     attr = *((uint32_t *)&msg->data[8]);
@@ -488,6 +527,7 @@ msg_tag_get(dax_message *msg)
     dax_tag tag;
     char *buff;
 
+    tag.name[0] = '\0'; /* In case we don't find it */
     if(msg->data[0] == TAG_GET_INDEX) { /* Is it a string or index */
         index = *((tag_index *)&msg->data[1]); /* cast void * -> handle_t * then indirect */
         result = tag_get_index(index, &tag); /* get the tag */
@@ -520,7 +560,10 @@ msg_tag_get(dax_message *msg)
 int
 msg_tag_list(dax_message *msg)
 {
+    int result = ERR_NOTIMPLEMENTED;
+
     dax_log(DAX_LOG_MSG, "Tag List Message from %d", msg->fd);
+    _message_send(msg->fd, MSG_TAG_LIST, &result, sizeof(result), ERROR);
     return 0;
 }
 
@@ -602,7 +645,7 @@ msg_tag_mask_write(dax_message *msg)
     mask = &msg->data[8 + size];
 
     dax_log(DAX_LOG_MSG, "Tag Masked Write Message from module %d, index %d, offset %d, size %d", msg->fd, idx, offset, size);
-    if(is_tag_readonly(idx)) {
+    if(is_tag_readonly(idx) && ! is_tag_owned(msg->fd, idx)) {
         result =  ERR_READONLY;
     } else {
         result = tag_mask_write(msg->fd, idx, offset, data, mask, size);
@@ -676,6 +719,9 @@ msg_evnt_del(dax_message *msg)
 int
 msg_evnt_get(dax_message *msg)
 {
+    int result = ERR_NOTIMPLEMENTED;
+
+    _message_send(msg->fd, MSG_EVNT_GET, &result, sizeof(result), ERROR);
     return 0;
 }
 
@@ -708,7 +754,7 @@ msg_evnt_opt(dax_message *msg)
 int
 msg_cdt_create(dax_message *msg)
 {
-    int result;
+    int result = 0;
     tag_type type;
 
     msg->data[MSG_DATA_SIZE-1] = '\0'; /* Just to be safe */
-- 
2.43.0


From f2a62507a79c977d70c92d924cda859d5a279850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:30 +0000
Subject: [PATCH 25/88] fix: bit range writes sent an extra byte, masked bit
 writes ignored the mask, unknown types deadlocked reads and writes

---
 src/lib/libdata.c | 45 +++++++++++++++++++++------------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/lib/libdata.c b/src/lib/libdata.c
index 3d3e7b9..f609d5b 100644
--- a/src/lib/libdata.c
+++ b/src/lib/libdata.c
@@ -400,6 +400,9 @@ dax_tag_read(dax_state *ds, tag_handle handle, void *data)
         memcpy(data, newdata, handle.size);
         free(newdata);
     } else {
+        /* If the type is not in our cache this retrieves it.  It can't be
+         * retrieved while we hold the lock */
+        if(dax_get_typesize(ds, handle.type) < 0) return ERR_BADTYPE;
         pthread_mutex_lock(&ds->lock);
         result = _read_format(ds, handle.type, handle.count, data, 0);
         pthread_mutex_unlock(&ds->lock);
@@ -432,7 +435,7 @@ _write_format(dax_state *ds, tag_type type, int count, void *data, int offset)
             return ERR_NOTFOUND;
         }
         while(this != NULL) {
-            result = _write_format(ds, this->type, this->count, newdata, pos);
+            result = _write_format(ds, this->type, this->count, data, pos);
             if(result) return result;
             if(IS_CUSTOM(this->type)) {
                 pos += (dax_get_typesize(ds, this->type) * this->count);
@@ -524,12 +527,8 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
     int rsize, tsize, type_size;
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        size = handle.size;
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an exta byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
+        /* The number of bytes that the bits we are writing are spread over */
+        size = (handle.bit % 8 + handle.count - 1) / 8 + 1;
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         newdata = malloc(size);
@@ -549,16 +548,13 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
             i++;
         }
         /* Determine if the write needs to be broken up into multiple messages */
-        if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
+        if(size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = size;
-            type_size = dax_get_typesize(ds, handle.type);
-            if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) return ERR_2BIG;
             n = 0;
             while(tsize > 0) {
                 rsize = MIN(tsize, (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2);
-                rsize -= (rsize % type_size); /* This should break accross tag boundaries */
                 result = dax_mask(ds, handle.index, handle.byte+n, &((uint8_t *)newdata)[n], &mask[n], rsize);
-                if(result) return result;
+                if(result) break;
                 tsize -= rsize;
                 n += rsize;
             }
@@ -568,6 +564,9 @@ dax_tag_write(dax_state *ds, tag_handle handle, void *data)
         free(newdata);
         free(mask);
     } else {
+        /* If the type is not in our cache this retrieves it.  It can't be
+         * retrieved while we hold the lock */
+        if(dax_get_typesize(ds, handle.type) < 0) return ERR_BADTYPE;
         pthread_mutex_lock(&ds->lock);
         result =  _write_format(ds, handle.type, handle.count, data, 0);
         if(result) {
@@ -618,12 +617,8 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
     int rsize, tsize, type_size;
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        size = handle.size;
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an exta byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
+        /* The number of bytes that the bits we are writing are spread over */
+        size = (handle.bit % 8 + handle.count - 1) / 8 + 1;
         newmask = malloc(size);
         if(newmask == NULL) return ERR_ALLOC;
         newdata = malloc(size);
@@ -639,20 +634,19 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
             if( (0x01 << (n % 8)) & ((uint8_t *)data)[n / 8] ) {
                 ((uint8_t *)newdata)[i / 8] |= (1 << (i % 8));
             }
-            newmask[i / 8] |= (1 << (i % 8));
+            if( (0x01 << (n % 8)) & ((uint8_t *)mask)[n / 8] ) {
+                newmask[i / 8] |= (1 << (i % 8));
+            }
             i++;
         }
         /* Determine if the write needs to be broken up into multiple messages */
-        if(handle.size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
+        if(size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2) {
             tsize = size;
-            type_size = dax_get_typesize(ds, handle.type);
-            if(type_size > (MSG_DATA_SIZE - WRITE_HEADER_SIZE)) return ERR_2BIG;
             n = 0;
             while(tsize > 0) {
                 rsize = MIN(tsize, (MSG_DATA_SIZE - WRITE_HEADER_SIZE)/2);
-                rsize -= (rsize % type_size); /* This should break accross tag boundaries */
                 result = dax_mask(ds, handle.index, handle.byte+n, &newdata[n], &newmask[n], rsize);
-                if(result) return result;
+                if(result) break;
                 tsize -= rsize;
                 n += rsize;
             }
@@ -662,6 +656,9 @@ dax_tag_mask(dax_state *ds, tag_handle handle, void *data, void *mask)
         free(newmask);
         free(newdata);
     } else {
+        /* If the type is not in our cache this retrieves it.  It can't be
+         * retrieved while we hold the lock */
+        if(dax_get_typesize(ds, handle.type) < 0) return ERR_BADTYPE;
         pthread_mutex_lock(&ds->lock);
         result =  _write_format(ds, handle.type, handle.count, data, 0);
         if(result) {
-- 
2.43.0


From fc73a525325f05383b122c7c6b6e3d90a9e247fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:30 +0000
Subject: [PATCH 26/88] fix: client library overran buffers in tag_add,
 overrides and atomic operations and cached wrong or deleted tags

---
 src/lib/libmsg.c | 86 +++++++++++++++++++++++++-----------------------
 1 file changed, 45 insertions(+), 41 deletions(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 6247e33..0c017e1 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -466,17 +466,17 @@ dax_disconnect(dax_state *ds)
 int
 dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count, uint32_t attr)
 {
-    int result;
+    int result, type_size;
     size_t size;
     dax_tag tag;
-    char buff[DAX_TAGNAME_SIZE + 8 + 1];
+    char buff[DAX_TAGNAME_SIZE + 13];
 
     if(count == 0) return ERR_ARG;
     if(name) {
         if((size = strlen(name)) > DAX_TAGNAME_SIZE) {
             return ERR_2BIG;
         }
-        /* Add the 8 bytes for type and count to one byte for NULL */
+        /* Add the 12 bytes for type, count and attr to one byte for NULL */
         size += 13;
         /* TODO Need to do some more error checking here */
         *((uint32_t *)&buff[0]) = mtos_udint(type);
@@ -487,6 +487,9 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
     } else {
         return ERR_TAG_BAD;
     }
+    /* If the type is not in our cache this retrieves it.  It can't be
+     * retrieved while we hold the lock. The server will refuse bad types */
+    type_size = dax_get_typesize(ds, type);
     pthread_mutex_lock(&ds->lock);
 
     result = _message_send(ds, MSG_TAG_ADD, buff, size);
@@ -505,20 +508,17 @@ dax_tag_add(dax_state *ds, tag_handle *h, char *name, tag_type type, int count,
             h->bit = 0;
             h->type = type;
             h->count = count;
-            if(type == DAX_BOOL) {
+            if((type & ~DAX_QUEUE) == DAX_BOOL) {
                 h->size = (count - 1)/8 +1;
             } else {
-                h->size = count * dax_get_typesize(ds, type);
+                h->size = count * type_size;
             }
         }
-        strcpy(tag.name, name);
-        tag.idx = *(tag_index *)buff;
-        tag.type = type;
-        tag.count = count;
-        tag.attr = attr;
-        /* Just in case this call modifies the tag */
-        cache_tag_del(ds, tag.idx);
-        cache_tag_add(ds, &tag);
+        /* In case this call modified the tag or the tag had another index before.
+         * The tag may also be an existing one that is larger than what we asked
+         * for or that has other attributes, so it is not added to the cache here */
+        cache_tag_del(ds, *(tag_index *)buff);
+        if(check_cache_name(ds, name, &tag) == 0) cache_tag_del(ds, tag.idx);
     }
     pthread_mutex_unlock(&ds->lock);
     return result;
@@ -549,6 +549,9 @@ dax_tag_del(dax_state* ds, tag_index index)
 
     size = 4; /* we just need the handle */
     result = _message_recv(ds, MSG_TAG_DEL, buff, &size, 1);
+    if(result == 0 || result == ERR_DELETED) {
+        cache_tag_del(ds, index);
+    }
     pthread_mutex_unlock(&ds->lock);
     return result;
 }
@@ -580,7 +583,10 @@ dax_tag_byname(dax_state *ds, dax_tag *tag, char *name)
         /* We make buff big enough for the outgoing message and the incoming
            response message which would have 4 additional int32s */
         buff = malloc(size + 18);
-        if(buff == NULL) return ERR_ALLOC;
+        if(buff == NULL) {
+            pthread_mutex_unlock(&ds->lock);
+            return ERR_ALLOC;
+        }
         buff[0] = TAG_GET_NAME;
         strcpy(&buff[1], name);
         /* Send the message to the server.  Add 2 to the size for the subcommand and the NULL */
@@ -698,10 +704,10 @@ dax_read(dax_state *ds, tag_index idx, uint32_t offset, void *data, size_t size)
     result = _message_recv(ds, MSG_TAG_READ, (char *)data, &size, 1);
 
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -753,10 +759,10 @@ dax_write(dax_state *ds, tag_index idx, uint32_t offset, void *data, size_t size
     }
     result = _message_recv(ds, MSG_TAG_WRITE, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -809,10 +815,10 @@ dax_mask(dax_state *ds, tag_index idx, uint32_t offset, void *data, void *mask,
     }
     result = _message_recv(ds, MSG_TAG_MWRITE, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, idx);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -834,15 +840,14 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
     uint8_t buff[MSG_DATA_SIZE];
 
     size = handle.size;
+    /* The data and the mask have to fit in a single message */
+    if(handle.size > (MSG_DATA_SIZE - 12) / 2) return ERR_2BIG;
     *((tag_index *)&buff[0]) = mtos_dint(handle.index);
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an extra byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
+        /* The number of bytes that the bits are spread over */
+        size = (handle.bit % 8 + handle.count - 1) / 8 + 1;
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         newdata = malloc(size);
@@ -873,10 +878,6 @@ dax_tag_add_override(dax_state *ds, tag_handle handle, void *data) {
 
     memcpy(&buff[12 + size], mask, size);
     sendsize = size * 2 + 12;
-    if(sendsize > MSG_DATA_SIZE) {
-        if(newdata != NULL) free(newdata);
-        free(mask);
-    }
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_ADD_OVRD, buff, sendsize);
@@ -909,15 +910,14 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
     uint8_t buff[MSG_DATA_SIZE];
     size = handle.size;
 
+    /* The mask has to fit in a single message */
+    if(handle.size > MSG_DATA_SIZE - 8) return ERR_2BIG;
     *((tag_index *)&buff[0]) = mtos_dint(handle.index);
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
 
     if(handle.type == DAX_BOOL && (handle.bit > 0 || handle.count % 8 )) {
-        /* This takes care of the case where we have an even 8 bits but
-         * we are offset from zero so we need an extra byte */
-        if(handle.bit && !(handle.count % 8)) {
-            size++;
-        }
+        /* The number of bytes that the bits are spread over */
+        size = (handle.bit % 8 + handle.count - 1) / 8 + 1;
         mask = malloc(size);
         if(mask == NULL) return ERR_ALLOC;
         bzero(mask, size);
@@ -937,9 +937,6 @@ dax_tag_del_override(dax_state *ds, tag_handle handle) {
 
     memcpy(&buff[8], mask, size);
     sendsize = size + 8;
-    if(sendsize > MSG_DATA_SIZE) {
-        free(mask);
-    }
 
     pthread_mutex_lock(&ds->lock);
     result = _message_send(ds, MSG_DEL_OVRD, buff, sendsize);
@@ -975,6 +972,8 @@ dax_tag_get_override(dax_state *ds, tag_handle handle, void *data, void *mask) {
     size_t size;
     uint8_t buff[MSG_DATA_SIZE];
 
+    /* The data and the mask have to fit in a single message */
+    if(handle.size > MSG_DATA_SIZE / 2) return ERR_2BIG;
     *((tag_index *)&buff[0]) = mtos_dint(handle.index);
     *((uint32_t *)&buff[4]) = mtos_dint(handle.byte);
     *((uint32_t *)&buff[8]) = mtos_dint(handle.size);
@@ -1109,8 +1108,14 @@ dax_atomic_op(dax_state *ds, tag_handle h, void *data, uint16_t operation) {
     buff[16]=h.bit;                               /* Bit offset */
     *(dax_dint *)&buff[17] = mtos_uint(operation);/* Operation */
 
+    bzero(&buff[21], h.size);
     if(data != NULL) {
-        memcpy(&buff[21], data, h.size);
+        if(h.type == DAX_BOOL) {
+            /* With a bit offset the handle can be a byte larger than the operand */
+            memcpy(&buff[21], data, MIN(h.size, (h.count + 7) / 8));
+        } else {
+            memcpy(&buff[21], data, h.size);
+        }
     }
 
     pthread_mutex_lock(&ds->lock);
@@ -1121,10 +1126,10 @@ dax_atomic_op(dax_state *ds, tag_handle h, void *data, uint16_t operation) {
     }
     result = _message_recv(ds, MSG_ATOMIC_OP, buff, 0, 1);
     if(result) {
-        pthread_mutex_unlock(&ds->lock);
         if(result == ERR_DELETED) {
             cache_tag_del(ds, h.index);
         }
+        pthread_mutex_unlock(&ds->lock);
         return result;
     }
     pthread_mutex_unlock(&ds->lock);
@@ -1426,6 +1431,7 @@ dax_cdt_get(dax_state *ds, tag_type cdt_type, char *name)
 
     size = sizeof(tag_type);
     if(name != NULL) {
+        if(strlen(name) > DAX_TAGNAME_SIZE) return ERR_2BIG;
         buff[0] = CDT_GET_NAME;
         size = strlen(name) + 1;
         strncpy(&(buff[1]), name, size); /* Pass the cdt name in this subcommand */
@@ -1556,6 +1562,7 @@ dax_map_get(dax_state *ds, tag_handle *src, tag_handle *dest, dax_id id) {
     size = MSG_DATA_SIZE;
     result = _message_recv(ds, MSG_MAP_GET, buff, &size, 1);
     pthread_mutex_unlock(&ds->lock);
+    if(result) return result;
 
     src->index = *(dax_dint *)buff;
     src->byte = *(dax_dint *)&buff[4];
@@ -1748,12 +1755,9 @@ dax_group_read(dax_state *ds, tag_group_id *id, void *data, size_t size) {
         pthread_mutex_unlock(&ds->lock);
         return result;
     }
-    memcpy(data, buff, id->size);
-    if(result == 0) {
-        result = group_read_format(ds, id, data);
-    }
     pthread_mutex_unlock(&ds->lock);
-    return result;
+    memcpy(data, buff, id->size);
+    return group_read_format(ds, id, data);
 }
 
 /*!
-- 
2.43.0


From d7ff956d6b6d72b2136aefcff641572843f1ed6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:31 +0000
Subject: [PATCH 27/88] fix: client library lost partial messages, mixed up
 late responses and read from stdin after disconnecting

---
 src/lib/libdax.h  |  1 +
 src/lib/libinit.c |  1 +
 src/lib/libmsg.c  | 50 ++++++++++++++++++++++++++++++++++++-----------
 3 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 4061973..113d962 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -129,6 +129,7 @@ struct dax_state {
     int emsg_queue_size;     /* Total size of the Event Message Queue */
     int emsg_queue_count;    /* number of entries in the event message queue */
     dax_message *last_msg;   /* The last message received on the socket */
+    int late_msgs;           /* Responses still to come that we stopped waiting for */
     void (*disconnect_callback)(int result);
 };
 
diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 58c05c4..8b7e307 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -69,6 +69,7 @@ dax_init(const char *name)
         return NULL;
     }
     ds->last_msg = NULL;
+    ds->late_msgs = 0;
     ds->event_size = 1;
     ds->event_count = 0;
     /* Event Message FIFO Queue */
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 0c017e1..7102d1e 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -68,9 +68,11 @@ _message_get(int fd, dax_message *msg) {
 
     while( index < MSG_HDR_SIZE) {
     	/* Start by reading the header */
-        result = read(fd, &buff[index], MSG_HDR_SIZE);
+        result = read(fd, &buff[index], MSG_HDR_SIZE - index);
         if(result < 0) {
-            if(errno == EWOULDBLOCK) {
+            if(errno == EINTR || (errno == EWOULDBLOCK && index > 0)) {
+                continue; /* Don't lose the part that we already have */
+            } else if(errno == EWOULDBLOCK) {
                 return ERR_TIMEOUT;
             } else {
                 return ERR_MSG_RECV;
@@ -84,14 +86,18 @@ _message_get(int fd, dax_message *msg) {
     /* At this point we should have the size and the message type */
     msg->size = ntohl(*(uint32_t *)buff);
     msg->msg_type = ntohl(*((uint32_t *)&buff[4]));
+    if(msg->size > MSG_DATA_SIZE) {
+        dax_log(DAX_LOG_ERROR, "Message received from the server is too large");
+        return ERR_DISCONNECTED; /* There is no way to find the next message */
+    }
     /* Now we get the rest of the message */
     index = 0;
     while( index < msg->size) {
     	/* Read the rest of the message */
         result = read(fd, &buff[index], msg->size-index);
         if(result < 0) {
-            if(errno == EWOULDBLOCK) {
-                return ERR_TIMEOUT;
+            if(errno == EINTR || errno == EWOULDBLOCK) {
+                continue; /* Don't lose the part that we already have */
             } else {
                 return ERR_MSG_RECV;
             }
@@ -123,13 +129,15 @@ _message_recv(dax_state *ds, int command, void *payload, size_t *size, int respo
         clock_gettime(CLOCK_REALTIME, &timeout);
         timeout.tv_sec += ds->msgtimeout/1000;
         timeout.tv_nsec += ds->msgtimeout%1000 *1e6;
-        if(timeout.tv_nsec>1e9) {
+        if(timeout.tv_nsec>=1e9) {
             timeout.tv_sec++;
             timeout.tv_nsec-=1e9;
         }
         result = pthread_cond_timedwait(&ds->msg_cond, &ds->msg_lock, &timeout);
         if(result == ETIMEDOUT) {
             DF("message_recv() Timeout");
+            /* If the response still comes it doesn't belong to the next request */
+            ds->late_msgs++;
             pthread_mutex_unlock(&ds->msg_lock);
             return ERR_TIMEOUT;
         }
@@ -262,6 +270,9 @@ _mod_register(dax_state *ds, char *name)
     	return result;
     }
 
+    if(msg.msg_type & MSG_ERROR) { /* The server has refused us */
+        return stom_dint(*(int32_t *)&msg.data[0]);
+    }
     /* Store the unique ID that the server has sent us. */
     ds->id =  *((uint32_t *)&msg.data[0]);
     /* Here we check to see if the data that we got in the registration message is in the same
@@ -336,8 +347,15 @@ _read_next_message(dax_state *ds)
         pthread_cond_signal(&ds->event_cond);
     } else { /* All other messages we put here */
         pthread_mutex_lock(&ds->msg_lock);
-        ds->last_msg = msg;
+        if(ds->late_msgs > 0) { /* Nobody is waiting for this one anymore */
+            ds->late_msgs--;
+            free(msg);
+            msg = NULL;
+        } else {
+            ds->last_msg = msg;
+        }
         pthread_mutex_unlock(&ds->msg_lock);
+        if(msg == NULL) return 0;
         pthread_cond_signal(&ds->msg_cond);
     }
     return 0;
@@ -348,6 +366,7 @@ _connection_cleanup(dax_state *ds) {
     ds->sfd = -1;
     if(ds->last_msg != NULL) free(ds->last_msg);
     ds->last_msg = NULL;
+    ds->late_msgs = 0;
     free_tag_cache(ds);
     /* TODO: Free up the event FIFO too */
 }
@@ -365,11 +384,18 @@ _connection_thread(void *arg)
     ds->sfd = _get_connection(ds);
     if(ds->sfd >= 0) {
         result = _mod_register(ds, ds->modulename);
+        if(result < 0) {
+            close(ds->sfd);
+            ds->sfd = -1;
+            ds->error_code = result;
+            pthread_barrier_wait(&ds->connect_barrier);
+            return NULL;
+        }
         init_tag_cache(ds);
         /* This basically let's the dax_connect function return success */
         ds->error_code = 0;
         pthread_barrier_wait(&ds->connect_barrier);
-        /* dax_disconnect() will set this to zero to get us out of this loop */
+        /* dax_disconnect() will set this to -1 to get us out of this loop */
         while(ds->sfd >= 0) { /* Main connection loop */
             result = _read_next_message(ds);
             if(result == ERR_DISCONNECTED) {
@@ -429,19 +455,21 @@ dax_connect(dax_state *ds)
 int
 dax_disconnect(dax_state *ds)
 {
-    int result = -1;
+    int result = -1, fd;
     size_t len;
 
     pthread_mutex_lock(&ds->lock);
     /* Tells the connection thread to exit */
-    if(ds->sfd) {
+    if(ds->sfd >= 0) {
         result = _message_send(ds, MSG_MOD_REG, NULL, 0);
         if(! result ) {
             len = 0;
             result = _message_recv(ds, MSG_MOD_REG, NULL, &len, 1);
         }
-        close(ds->sfd);
-        ds->sfd = 0;
+        fd = ds->sfd;
+        ds->sfd = -1;
+        shutdown(fd, SHUT_RDWR); /* In case the connection thread is still reading */
+        close(fd);
     }
     pthread_mutex_unlock(&ds->lock);
     return result;
-- 
2.43.0


From 763506655faf5b16694d4f289a209e170a9cbb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:29 +0000
Subject: [PATCH 28/88] fix: tag references with nested arrays, bits, bad
 indexes or text resolved to wrong handles and names

---
 src/lib/libcdt.c | 403 ++++++++++++++++++++---------------------------
 1 file changed, 170 insertions(+), 233 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index c65251c..19c9f4f 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -224,6 +224,9 @@ add_cdt_to_cache(dax_state *ds, tag_type type, char *typedesc)
         }
     }
 
+    /* If we already have it there is nothing to do */
+    if(ds->datatypes[index].name != NULL) return 0;
+
     /* At this point we should have the spot for the datatype */
     str = strtok_r(typedesc, ":", &last);
     if(str == NULL) {
@@ -231,6 +234,7 @@ add_cdt_to_cache(dax_state *ds, tag_type type, char *typedesc)
         return ERR_ARG;
     }
     result = _insert_type(ds, index, str);
+    if(result) return result;
 
     while( (str = strtok_r(NULL, ":", &last)) ) {
         result = _add_member_to_cache(ds, index, str);
@@ -498,63 +502,103 @@ _split_tagname(char *name)
 static inline int
 _get_index(char *str)
 {
-    int i, k, len, index;
-    len = strlen(str);
-    for(i = 0; i < len && str[i] != '['; i++);
-    if(i < len) {
-        str[i] = '\0'; /* To end the string */
-        for(k = i+1; k < len && str[k] != ']'; k++) {
-            if(str[k] < '0' || str[k] > '9') return ERR_ARG;
-        }
-        index = atoi(str + i + 1);
-    } else {
-        index = ERR_NOTFOUND;
-    }
+    char *c;
+    long index = 0;
+
+    c = strchr(str, '[');
+    if(c == NULL) return ERR_NOTFOUND;
+    *c++ = '\0'; /* To end the string */
+    /* There has to be a number, the ']' and nothing else */
+    if(!isdigit((unsigned char)*c)) return ERR_ARG;
+    for(; isdigit((unsigned char)*c); c++) {
+        index = index * 10 + (*c - '0');
+        if(index > INT32_MAX) return ERR_2BIG;
+    }
+    if(c[0] != ']' || c[1] != '\0') return ERR_ARG;
     return index;
 }
 
 /* called when a bit index is found in the tag string.  i.e. tagname.3.  The
  * function determines if all is okay and if so it finishes the handle definition
- * and returns 0 otherwise it returns an error */
+ * and returns 0 otherwise it returns an error.  The handle should already point to
+ * the item that the bits are in. */
 static int
-_parse_bit_index(dax_state *ds, tag_type type, tag_handle *h, char *digit, int index, int count)
+_parse_bit_index(dax_state *ds, tag_type type, tag_handle *h, char *digit, int count)
 {
     char *endptr;
     int size;
+    long bit;
 
     if(type == DAX_BOOL || type == DAX_TIME ||
        type == DAX_REAL || type == DAX_LREAL ||
-       IS_CUSTOM(type)) {
+       IS_CUSTOM(type) || IS_QUEUE(type)) {
            return ERR_BADTYPE;
        }
-    if(index < 0) index = 0;
-    h->bit = strtol(digit, &endptr, 10);
+    bit = strtol(digit, &endptr, 10);
     /* This indicates that there is extra text past the number */
     if(endptr[0] != '\0') {
         return ERR_ARG;
     }
     size = dax_get_typesize(ds, type);
-    if(h->bit > size*8) {
-        return ERR_2BIG;
-    }
     if(count == 0) count = 1;
-    if((h->bit + count) > size*8) {
+    if(bit >= size * 8 || count > size * 8 - bit) {
         return ERR_2BIG;
     }
-    h->byte += size * index + (h->bit / 8);
-    h->bit = h->bit % 8;
+    h->byte += bit / 8;
+    h->bit = bit % 8;
     h->type = DAX_BOOL;
-    h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
+    h->size = (h->bit + count - 1) / 8 + 1;
+    h->count = count;
+    return 0;
+}
+
+/* Finishes the handle once we have found the tag or the member that it is for.
+ * 'type' and 'items' describe that tag or member.  'pos' is the position in bits
+ * of the first item. 'index' is the index that was given or ERR_NOTFOUND if
+ * there wasn't one */
+static int
+_finish_handle(dax_state *ds, tag_handle *h, tag_type type, uint64_t pos, unsigned int items, int index, int count)
+{
+    int size;
+
+    if(index == ERR_NOTFOUND) { /* This is where no index [] was given */
+        if(count == 0) count = items;
+        index = 0;
+    } else if(count == 0) {
+        count = 1;
+    }
+    if((uint64_t)index + count > items) return ERR_2BIG;
+    h->type = type;
     h->count = count;
+    if(type == DAX_BOOL) {
+        pos += index;
+        h->byte = pos / 8;
+        h->bit = pos % 8;
+        /* Two bits across the byte boundry require two bytes */
+        h->size = (h->bit + count - 1) / 8 + 1;
+    } else {
+        size = dax_get_typesize(ds, type);
+        if(size < 0) return size;
+        h->byte = pos / 8 + (uint64_t)size * index;
+        h->bit = 0;
+        if(type == (DAX_BOOL | DAX_QUEUE)) {
+            h->size = (count - 1) / 8 + 1;
+        } else {
+            h->size = size * count;
+        }
+    }
     return 0;
 }
 
+/* 'pos' is the position in bits of the compound item of the type 'lasttype'
+ * that the next member belongs to. */
 static int
-_parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, int count)
+_parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, uint64_t pos, int count)
 {
-    int index, result, size;
+    int index;
     char *name = str;
     char *nextname;
+    datatype *dtype;
     cdt_member *this;
 
     if(name == NULL) return ERR_ARG;
@@ -566,90 +610,44 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
         return index;
     }
 
-    if(dax_type_to_string(ds, lasttype) == NULL) {
+    dtype = get_cdt_pointer(ds, lasttype, NULL);
+    if(dtype == NULL) {
         return ERR_NOTFOUND; /* This is a serious problem here */
     }
 
-    this = ds->datatypes[CDT_TO_INDEX(lasttype)].members;
-
-    while(this != NULL) {
-        /* Start by adding all the bytes of the members before the
-         * one we are looking for */
-        if(strcmp(name, this->name)) {
-            if(this->type == DAX_BOOL) {
-                h->bit += this->count;
-                if(h->bit > 7) {
-                    h->byte += h->bit / 8;
-                    h->bit %= 8;
-                }
-            } else {
-                /* Gotta step up one if the last member was a bool */
-                if(h->type == DAX_BOOL && h->bit > 0) { h->byte++; }
-                h->byte += dax_get_typesize(ds, this->type) * this->count;
-                h->bit = 0;
-            }
-            h->type = this->type; /* We need to keep track of the last type */
-
-            this = this->next;
-        } else { /* Here we have found it */
-            break;
+    /* Start by adding all the members before the one we are looking for */
+    for(this = dtype->members; this != NULL; this = this->next) {
+        if(this->type != DAX_BOOL) {
+            pos = (pos + 7) / 8 * 8; /* Only BOOLs can start within a byte */
+        }
+        if(strcmp(name, this->name) == 0) break; /* Here we have found it */
+        if(this->type == DAX_BOOL) {
+            pos += this->count;
+        } else {
+            pos += (uint64_t)dax_get_typesize(ds, this->type) * this->count * 8;
         }
-
     }
     if(this == NULL) return ERR_NOTFOUND;
 
-    if(nextname) { /* Not the last item */
-        if(isdigit(nextname[0])) {
-            if(this->count > 1 && index <0) {
-                return ERR_ARG;
-            }
-            return _parse_bit_index(ds, this->type, h, nextname, index, count);
-        }
-        result = _parse_next_member(ds, this->type, h, nextname, count);
-        if(result) return result;
-        if(index != ERR_NOTFOUND) {
-            if(count == 0) count = 1;
-            if((index + count) > this->count) return ERR_2BIG;
-            h->byte += dax_get_typesize(ds, this->type) * index;
-        }
-    } else { /* We are the last item */
-        if(h->type == DAX_BOOL && this->type != DAX_BOOL && h->bit > 0) {
-            h->byte++;
-            h->bit = 0;
-        }
-
-        h->type = this->type;
-        if(index != ERR_NOTFOUND){
-            if(count == 0 ) count = 1;
-            if((index + count) > this->count ) return ERR_2BIG;
-            if(this->type == DAX_BOOL) {
-                h->byte += index / 8;
-                h->bit += index % 8;
-                /* Two bits across the byte boundry require two bytes */
-                h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
-                h->count = count;
-            } else {
-                size = dax_get_typesize(ds, this->type);
-                h->size = size * count;
-                h->byte += size * index;
-                h->bit = 0;
-                h->count = count;
-            }
-        } else { /* This is where no index was given */
-            if(count > this->count) return ERR_2BIG;
-            if(count == 0) count = this->count;
-            if(this->type == DAX_BOOL) {
-                h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
-                h->count = count;
-            } else {
-                size = dax_get_typesize(ds, this->type);
-                h->bit = 0;
-                h->size = size * count;
-                h->count = count;
-            }
+    if(nextname == NULL) { /* We are the last item */
+        return _finish_handle(ds, h, this->type, pos, this->count, index, count);
+    }
+    if(index != ERR_NOTFOUND && (unsigned int)index >= this->count) return ERR_2BIG;
+    if(isdigit((unsigned char)nextname[0])) {
+        if(this->count > 1 && index < 0) {
+            return ERR_ARG;
         }
+    } else if(!IS_CUSTOM(this->type)) {
+        return ERR_ARG;
     }
-    return 0;
+    if(index > 0) {
+        pos += (uint64_t)dax_get_typesize(ds, this->type) * index * 8;
+    }
+    if(isdigit((unsigned char)nextname[0])) {
+        h->byte = pos / 8;
+        return _parse_bit_index(ds, this->type, h, nextname, count);
+    }
+    return _parse_next_member(ds, this->type, h, nextname, pos, count);
 }
 
 /* Wrapping the function to take advantage of the variable length array
@@ -657,7 +655,8 @@ _parse_next_member(dax_state *ds, tag_type lasttype, tag_handle *h, char *str, i
 static int
 _dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
 {
-    int result, index, size;
+    int result, index;
+    uint64_t pos = 0;
     dax_tag tag;
     char tagname[strlen]; /* Hack alert */
     char *membername;
@@ -673,62 +672,30 @@ _dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int strlen, int count)
     if(result) return ERR_NOTFOUND;
     h->index = tag.idx; /* This index is the database index */
 
-    if(membername) {
-        /* This is the case where the .x is a number referring to a bit */
-        if(isdigit(membername[0])) {
-            if(tag.count > 1 && index < 0) {
-                return ERR_ARG;
-            }
-            return _parse_bit_index(ds, tag.type, h, membername, index, count);
-        }
-        else if(!IS_CUSTOM(tag.type)) {
-            dax_log(DAX_LOG_ERROR, "Tag %s, has no member %s", tagname, membername);
+    if(membername == NULL) {
+        return _finish_handle(ds, h, tag.type, 0, tag.count, index, count);
+    }
+    if(index != ERR_NOTFOUND && (unsigned int)index >= tag.count) return ERR_2BIG;
+    /* This is the case where the .x is a number referring to a bit */
+    if(isdigit((unsigned char)membername[0])) {
+        if(tag.count > 1 && index < 0) {
             return ERR_ARG;
         }
-        if(tag.count > 1 && index == ERR_NOTFOUND) {
-            dax_log(DAX_LOG_ERROR, "Ambiguous reference in tag %s", tagname);
-            return ERR_ARBITRARY;
-        }
-        result = _parse_next_member(ds, tag.type, h, membername, count);
-        if(result) return result;
-        if(index != ERR_NOTFOUND) {
-            h->byte += dax_get_typesize(ds, tag.type) * index;
-        }
-    } else {
-        h->type = tag.type;
-        if(index != ERR_NOTFOUND){
-            if(count == 0 ) count = 1;
-            if((index + count) > tag.count ) return ERR_2BIG;
-            if(tag.type == DAX_BOOL) {
-                h->byte = index / 8;
-                h->bit = index % 8;
-                h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
-                h->count = count;
-            } else {
-                size = dax_get_typesize(ds, tag.type);
-                h->size = size * count;
-                h->byte = size * index;
-                h->bit = 0;
-                h->count = count;
-            }
-        } else { /* This is where no index [] was given */
-            if(count > tag.count) return ERR_2BIG;
-            if(count == 0) count = tag.count;
-            if(tag.type == DAX_BOOL) {
-                h->byte = 0;
-                h->bit = 0;
-                h->size = (h->bit + count - 1) / 8 - (h->bit / 8) + 1;
-                h->count = count;
-            } else {
-                size = dax_get_typesize(ds, tag.type);
-                h->size = size * count;
-                h->byte = 0;
-                h->bit = 0;
-                h->count = count;
-            }
-        }
+    } else if(!IS_CUSTOM(tag.type)) {
+        dax_log(DAX_LOG_ERROR, "Tag %s, has no member %s", tagname, membername);
+        return ERR_ARG;
+    } else if(tag.count > 1 && index == ERR_NOTFOUND) {
+        dax_log(DAX_LOG_ERROR, "Ambiguous reference in tag %s", tagname);
+        return ERR_ARBITRARY;
     }
-    return 0;
+    if(index > 0) {
+        pos = (uint64_t)dax_get_typesize(ds, tag.type) * index * 8;
+    }
+    if(isdigit((unsigned char)membername[0])) {
+        h->byte = pos / 8;
+        return _parse_bit_index(ds, tag.type, h, membername, count);
+    }
+    return _parse_next_member(ds, tag.type, h, membername, pos, count);
 }
 
 /*!
@@ -754,6 +721,7 @@ dax_tag_handle(dax_state *ds, tag_handle *h, char *str, int count)
         return ERR_ARG;
     }
     bzero(h, sizeof(tag_handle)); /* Initialize h */
+    if(count < 0) return ERR_ARG;
     result = _dax_tag_handle(ds, h, str, strlen(str) + 1, count);
     if(result) {
         bzero(h, sizeof(tag_handle)); /* Reset h in case of error */
@@ -874,89 +842,64 @@ dax_cdt_member_count(dax_state *ds, tag_type type)
 /* Used to carry data around for the fqn cdt iteration callback function */
 struct _fqn_data {
     dax_state *ds;
-    cdt_iter member;
+    cdt_iter member;     /* The member that we found */
     uint8_t done;
-    int byte_position;   /* current position within the cdt in bytes*/
-    int bit_position;    /* current position within the cdt in bits*/
-    int final_byte;      /* The final position in bytes*/
-    int final_bit;       /* The final position in bits*/
-
+    uint64_t position;   /* The position within the cdt in bits that we look for */
 };
 
 static void _fqn_callback(cdt_iter member, void *udata)
 {
-    int member_size;
+    uint64_t start, size;
     struct _fqn_data *data = (struct _fqn_data *)udata;
 
-
-    if(! data->done) { /* We use this to indicate whether we've found it or not */
-        if(member.type == DAX_BOOL) {
-            data->byte_position += member.count/8;
-            data->bit_position += member.count % 8;
-            if((data->byte_position * 8 + data->bit_position) > (data->final_byte * 8 + data->final_bit)) {
-                    /* We found it so stop looking and set the member to the struct */
-                    data->member = member;
-                    data->done = 1;
-                    /* Rewind back to before this call which would be the beginning position */
-                    data->byte_position -= member.count/8;
-                    data->bit_position -= member.count % 8;
-            }
-        } else { /* Not BOOL */
-            if(data->bit_position > 0) { /* If we have any bits left over from previous BOOLs */
-                data->bit_position = 0;
-                data->byte_position++;
-            }
-            member_size = member.count * dax_get_typesize(data->ds, member.type);
-            data->byte_position += member_size;
-            if(data->byte_position > data->final_byte) {
-                data->member = member;
-                data->done = 1;
-                data->byte_position -= member_size;
-            }
-        }
-
+    start = (uint64_t)member.byte * 8 + member.bit;
+    if(member.type == DAX_BOOL) {
+        size = member.count;
+    } else {
+        size = (uint64_t)member.count * dax_get_typesize(data->ds, member.type) * 8;
+    }
+    if(!data->done && data->position >= start && data->position < start + size) {
+        data->member = member;
+        data->done = 1;
     }
 }
 
-static void _fqn_cdt_member(dax_state *ds, char *str, tag_type type, struct _fqn_data *data)
+/* Adds the rest of the name to 'str' for what the handle 'h' points to within
+ * a compound data type.  'position' is the bit position within that type.  Returns
+ * zero on success */
+static int _fqn_cdt_member(dax_state *ds, char *str, tag_type type, tag_handle *h, uint64_t position)
 {
-    int i;
-    char temp[64];
-    data->done = 0;
-    dax_cdt_iter(ds, type, data, _fqn_callback);
+    int i, len;
+    uint64_t size;
+    struct _fqn_data data;
 
-    if(data->member.count > 1) {
-        if(data->member.type == DAX_BOOL) {
-            i = (data->final_byte - data->byte_position)*8 + (data->final_bit - data->bit_position);
-        } else {
-            i = (data->final_byte - data->byte_position) / dax_get_typesize(ds, data->member.type);
-            data->byte_position += i * dax_get_typesize(ds, data->member.type);
-        }
-        snprintf(temp, FQN_TAG_SIZE, ".%s[%d]", data->member.name, i);
-        strncat(str, temp, FQN_TAG_SIZE);
+    data.ds = ds;
+    data.done = 0;
+    data.position = position;
+    if(dax_cdt_iter(ds, type, &data, _fqn_callback) || !data.done) return ERR_NOTFOUND;
+
+    position -= (uint64_t)data.member.byte * 8 + data.member.bit;
+    size = data.member.type == DAX_BOOL ? 1 : dax_get_typesize(ds, data.member.type) * 8;
+    i = position / size;
+    position -= size * i;
+
+    len = strlen(str);
+    if(data.member.count > 1) {
+        snprintf(&str[len], FQN_TAG_SIZE - len, ".%s[%d]", data.member.name, i);
     } else {
-        strncat(str, ".", FQN_TAG_SIZE);
-        strncat(str, data->member.name, FQN_TAG_SIZE);
+        snprintf(&str[len], FQN_TAG_SIZE - len, ".%s", data.member.name);
     }
     /* see if we need to go any further */
-    if(data->byte_position != data->final_byte || data->bit_position != data->final_bit) {
-        /* If the found member is custom then we have to dig some more */
-        if(IS_CUSTOM(data->member.type)) {
-            /* do it again; */
-            //data->byte_position += data->member.count * dax_get_typesize(ds, data->member.type);
-            _fqn_cdt_member(ds, str, data->member.type, data);
-        } else {
-            // do some other stuff
-            /* BOOLs should have already been handled with a [x] above, so here we add the .x to the end
-               if we have any bits left */
-            if(data->member.type != DAX_BOOL) {
-                i = (data->final_byte - data->byte_position)*8 + (data->final_bit - data->bit_position);
-                snprintf(temp, FQN_TAG_SIZE, ".%d", i);
-                strncat(str, temp, FQN_TAG_SIZE);
-            }
-        }
+    if(h->type == data.member.type) return 0;
+    /* If the found member is custom then we have to dig some more */
+    if(IS_CUSTOM(data.member.type)) {
+        return _fqn_cdt_member(ds, str, data.member.type, h, position);
     }
-
+    if(h->type == DAX_BOOL) { /* It's a bit within the member */
+        len = strlen(str);
+        snprintf(&str[len], FQN_TAG_SIZE - len, ".%d", (int)position);
+    }
+    return 0;
 }
 
 /*!
@@ -995,8 +938,9 @@ dax_fqn(dax_state *ds, tag_handle h) {
         }
     } else {
         ts = dax_get_typesize(ds, tag.type);
-        assert(ts != 0);
-        if((tag.count > 1 && ( h.byte > 0 ||  h.count != tag.count))) {
+        if(ts <= 0) return NULL;
+        if(h.byte / ts >= tag.count) return NULL;
+        if(tag.count > 1 && (h.type != tag.type || h.byte > 0 || h.count != tag.count)) {
             i = h.byte / ts;
             snprintf(s, FQN_TAG_SIZE, "%s[%d]", tag.name, i);
         } else {
@@ -1006,17 +950,10 @@ dax_fqn(dax_state *ds, tag_handle h) {
         offset = i*ts;
 
         if( IS_CUSTOM(tag.type) && h.type != tag.type) {
-            struct _fqn_data data;
-            data.ds = ds;
-            data.byte_position = offset;
-            data.bit_position = 0;
-            data.final_byte = h.byte;
-            data.final_bit = h.bit;
-
-            _fqn_cdt_member(ds, s, tag.type, &data);
+            if(_fqn_cdt_member(ds, s, tag.type, &h, (uint64_t)(h.byte - offset) * 8 + h.bit)) return NULL;
         } else if(h.type == DAX_BOOL) {
             snprintf(d, 64, ".%d", h.bit + (h.byte - offset)*8);
-            strncat(s, d, FQN_TAG_SIZE);
+            strncat(s, d, FQN_TAG_SIZE - strlen(s) - 1);
         }
     }
 
-- 
2.43.0


From 55db5c575604602e9cc33d61fa64314d2c285589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:10 +0000
Subject: [PATCH 29/88] fix: text conversion lost digits, negative times and
 zero characters, event values of DWORD and TIME were cut to 16 bits

---
 src/lib/libdax.h   |  8 ++++----
 src/lib/libevent.c |  6 +++++-
 src/lib/libfunc.c  | 35 +++++++++++++++++++++++++----------
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 113d962..914d243 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -154,10 +154,10 @@ dax_int stom_int(dax_int);
 dax_uint stom_uint(dax_uint);
 
 /* 32 Bit conversion functions */
-#define mtos_dword mtos_uint
-#define stom_dword stom_uint
-#define mtos_time mtos_uint
-#define stom_time stom_uint
+#define mtos_dword mtos_udint
+#define stom_dword stom_udint
+#define mtos_time mtos_lint
+#define stom_time stom_lint
 
 dax_dint mtos_dint(dax_dint);
 dax_udint mtos_udint(dax_udint);
diff --git a/src/lib/libevent.c b/src/lib/libevent.c
index 0fdbd3c..908ab09 100644
--- a/src/lib/libevent.c
+++ b/src/lib/libevent.c
@@ -49,6 +49,8 @@ dax_event_string_to_type(char *string) {
         return EVENT_LESS;
     } else if(!strcasecmp(string, "DEADBAND")) {
         return EVENT_DEADBAND;
+    } else if(!strcasecmp(string, "DELETED")) {
+        return EVENT_DELETED;
     } else {
         return 0;
     }
@@ -79,6 +81,8 @@ dax_event_type_to_string(int type) {
             return "LESS";
         case EVENT_DEADBAND:
             return "DEADBAND";
+        case EVENT_DELETED:
+            return "DELETED";
         default:
             return NULL;
     }
@@ -215,7 +219,7 @@ dax_event_wait(dax_state *ds, int timeout, dax_id *id)
         clock_gettime(CLOCK_REALTIME, &ts);
         ts.tv_sec += timeout/1000;
         ts.tv_nsec += timeout%1000 * 1e6;
-        if(ts.tv_nsec > 1e9) {
+        if(ts.tv_nsec >= 1e9) {
             ts.tv_sec++;
             ts.tv_nsec -= 1e9;
         }
diff --git a/src/lib/libfunc.c b/src/lib/libfunc.c
index 43e1db6..1525af9 100644
--- a/src/lib/libfunc.c
+++ b/src/lib/libfunc.c
@@ -44,10 +44,9 @@
 int
 dax_val_to_string(char *buff, int size, tag_type type, void *val, int index)
 {
-    int ms;
-    long int sec;
-    struct tm *tm;
-    char tstr[16];
+    int ms, len;
+    time_t sec;
+    struct tm tm;
 
     if(val==NULL) return ERR_EMPTY;
     switch (type) {
@@ -84,6 +83,10 @@ dax_val_to_string(char *buff, int size, tag_type type, void *val, int index)
             break;
         case DAX_REAL:
             snprintf(buff, size, "%.8g", ((dax_real *)val)[index]);
+            /* Some values need one more digit to be converted back to the same value */
+            if(strtof(buff, NULL) != ((dax_real *)val)[index]) {
+                snprintf(buff, size, "%.9g", ((dax_real *)val)[index]);
+            }
             break;
         case DAX_LWORD:
         case DAX_ULINT:
@@ -91,17 +94,28 @@ dax_val_to_string(char *buff, int size, tag_type type, void *val, int index)
             break;
         case DAX_TIME:
             ms = ((dax_lint *)val)[index] % 1000;
-            sprintf(tstr, ".%03d", ms);
             sec = ((dax_lint *)val)[index] / 1000;
-            tm = gmtime(&sec);
-            strftime(buff, size, "%FT%T", tm);
-            strncat(buff, tstr, size);
+            if(ms < 0) { /* Before 1970, the milliseconds still count up */
+                ms += 1000;
+                sec--;
+            }
+            if(gmtime_r(&sec, &tm) == NULL) return ERR_OVERFLOW;
+            len = strftime(buff, size, "%FT%T", &tm);
+            if(len == 0) {
+                if(size > 0) buff[0] = '\0';
+                return ERR_2BIG;
+            }
+            snprintf(&buff[len], size - len, ".%03d", ms);
             break;
         case DAX_LINT:
             snprintf(buff, size, "%ld", ((dax_lint *)val)[index]);
             break;
         case DAX_LREAL:
             snprintf(buff, size, "%.16g", ((dax_lreal *)val)[index]);
+            /* Some values need one more digit to be converted back to the same value */
+            if(strtod(buff, NULL) != ((dax_lreal *)val)[index]) {
+                snprintf(buff, size, "%.17g", ((dax_lreal *)val)[index]);
+            }
             break;
     }
     // TODO: return errors if needed
@@ -161,7 +175,7 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
             if(mask) ((dax_byte *)mask)[index] = 0xFF;
             break;
         case DAX_CHAR:
-            if(instr[1] == 0) { /* One character */
+            if(instr[0] == 0 || instr[1] == 0) { /* One character or none for zero */
                 ((dax_char *)buff)[index] = instr[0];
                 if(mask) ((dax_sint *)mask)[index] = 0xFF;
                 break;
@@ -182,7 +196,7 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
             break;
         case DAX_WORD:
         case DAX_UINT:
-            temp =  strtoul(instr, NULL, 0);
+            temp =  strtol(instr, NULL, 0);
             if(temp < DAX_UINT_MIN) {
                 ((dax_uint *)buff)[index] = DAX_UINT_MIN;
                 retval = ERR_UNDERFLOW;
@@ -246,6 +260,7 @@ dax_string_to_val(char *instr, tag_type type, void *buff, void *mask, int index)
         case DAX_ULINT:
             if(instr[0]=='-') {
                 ((dax_ulint *)buff)[index] = 0x0000000000000000;
+                if(mask) ((dax_ulint *)mask)[index] = DAX_64_ONES;
                 retval = ERR_UNDERFLOW;
                 break;
             }
-- 
2.43.0


From b046575b643ef23aa1800216a9f3eca6528f7b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:09 +0000
Subject: [PATCH 30/88] fix: dax_configure() returned an undefined value
 without CFG_MODCONF

---
 src/lib/libopt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/libopt.c b/src/lib/libopt.c
index 526a041..4879e0b 100644
--- a/src/lib/libopt.c
+++ b/src/lib/libopt.c
@@ -552,7 +552,7 @@ int
 dax_configure(dax_state *ds, int argc, char **argv, int flags)
 {
     char *topics;
-    int result;
+    int result = 0;
 
     if(ds->modulename == NULL) {
         return ERR_NO_INIT;
-- 
2.43.0


From f900bbabe4c7daf09bb3e826df416e08dc43b0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:09 +0000
Subject: [PATCH 31/88] fix: mappings wrote to tags that became read only and
 copied overlapping ranges

---
 src/server/mapping.c | 4 +++-
 src/server/tagbase.c | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/server/mapping.c b/src/server/mapping.c
index 95d6b55..4115a9e 100644
--- a/src/server/mapping.c
+++ b/src/server/mapping.c
@@ -252,7 +252,9 @@ map_check(tag_index idx, int offset, int size) {
     while(this != NULL) {
         next = this->next; /* We may delete this map */
 
-        if(offset <= (int)(this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte) {
+        /* The destination may have become read only after the map was made */
+        if(!is_tag_readonly(this->dest.index) &&
+           offset <= (int)(this->source.byte + this->source.size - 1) && (offset + size -1 ) >= this->source.byte) {
             srcdb = &_db[this->source.index].data[this->source.byte];
             /* Mapping Hit */
             if(this->mask != NULL) {
diff --git a/src/server/tagbase.c b/src/server/tagbase.c
index 34d0019..0c186d6 100644
--- a/src/server/tagbase.c
+++ b/src/server/tagbase.c
@@ -858,8 +858,8 @@ tag_write(int fd, tag_index idx, int offset, void *data, int size)
             result = special_tag_write(fd, idx, offset, data, size);
             if(result) return result;
         }
-        /* Copy the data into the right place. */
-        memcpy(&(_db[idx].data[offset]), data, size);
+        /* Copy the data into the right place.  A map within one tag may overlap */
+        memmove(&(_db[idx].data[offset]), data, size);
         event_check(idx, offset, size);
     }
 
-- 
2.43.0


From 9e495968bdbad056093752f165b91ea4fc7dc5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:11 +0000
Subject: [PATCH 32/88] fix: logger keeps its own copy of the module name

The name pointer given to dax_log_set_name() / init belongs to the caller; the Lua
module frees it, so later log lines read freed memory.
---
 src/lib/logger/daxlog.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/logger/daxlog.c b/src/lib/logger/daxlog.c
index 6e10e65..eabbb52 100644
--- a/src/lib/logger/daxlog.c
+++ b/src/lib/logger/daxlog.c
@@ -30,7 +30,7 @@
 /* This is the default log topic mask.  This is used if no other
  * logging services are configured. */
 static uint32_t _default_topics = DAX_LOG_FATAL | DAX_LOG_ERROR;
-static const char *_name;
+static char _name[64];
 
 static void (*_topic_callback)(char *topic);
 static service_item _services[SERVICE_LIST_SIZE];
@@ -206,7 +206,7 @@ int
 dax_init_logger(const char *name, uint32_t topics) {
     /* The name may be used for some loggin services. */
     if(name != NULL) {
-        _name = name;
+        snprintf(_name, sizeof(_name), "%s", name);
     }
     if(topics) {
         _default_topics = topics;
-- 
2.43.0


From 0fa40354ee620f762061adb6edb2ec3489712d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:20:11 +0000
Subject: [PATCH 33/88] fix: Lua bindings lose values, ignore errors and
 misread arguments

REAL, LINT, ULINT and TIME values lost precision, wrong value types were silently
written as zero, strings overran the array, errors raised in the write callback
were lost, partial tables of compound arrays overwrote omitted members, queue types
failed, and several calls did not check their arguments.
---
 src/lib/lua/libdaxlua.c | 193 ++++++++++++++++++++++++++--------------
 1 file changed, 128 insertions(+), 65 deletions(-)

diff --git a/src/lib/lua/libdaxlua.c b/src/lib/lua/libdaxlua.c
index 5e08c39..0c9b349 100644
--- a/src/lib/lua/libdaxlua.c
+++ b/src/lib/lua/libdaxlua.c
@@ -64,11 +64,11 @@ _read_to_stack(lua_State *L, tag_type type, void *buff)
             lua_pushinteger(L, (lua_Integer)*((dax_dint *)buff));
             break;
         case DAX_REAL:
-            lua_pushnumber(L, (lua_Integer)*((dax_real *)buff));
+            lua_pushnumber(L, *((dax_real *)buff));
             break;
         case DAX_LWORD:
         case DAX_ULINT:
-            lua_pushnumber(L, (lua_Integer)*((dax_ulint *)buff));
+            lua_pushinteger(L, (lua_Integer)*((dax_ulint *)buff));
             break;
         case DAX_TIME:
         case DAX_LINT:
@@ -82,11 +82,7 @@ _read_to_stack(lua_State *L, tag_type type, void *buff)
 
 static void
 _push_string(lua_State *L, cdt_iter tag, void *data) {
-    char s[tag.count+1];
-
-    memcpy(s, data, tag.count);
-    s[tag.count] = '\0';
-    lua_pushstring(L, s);
+    lua_pushlstring(L, data, strnlen(data, tag.count));
 }
 
 
@@ -145,6 +141,7 @@ _read_callback(cdt_iter member, void *udata)
     int offset, n;
     struct iter_udata newdata;
 
+    luaL_checkstack(L, 10, NULL);
     lua_pushstring(L, member.name);
 
     if(IS_CUSTOM(member.type)) {
@@ -183,6 +180,8 @@ daxlua_dax_to_lua(lua_State *L, tag_handle h, void *data)
     struct iter_udata udata;
     int offset, n;
 
+    /* One item of a queue looks like any other tag */
+    h.type &= ~DAX_QUEUE;
     udata.L = L;
     udata.data = data;
     udata.mask = NULL;
@@ -213,43 +212,64 @@ daxlua_dax_to_lua(lua_State *L, tag_handle h, void *data)
 
 /* Here begin the tag writing functions.  */
 
+/* Converts the Lua value at the given index of the stack into an integer without
+ * going through a double if it doesn't need to. */
+static lua_Integer
+_to_integer(lua_State *L, int index)
+{
+    lua_Integer x;
+    lua_Number f;
+    int isnum;
+
+    x = lua_tointegerx(L, index, &isnum);
+    if(isnum) return x;
+    f = lua_tonumber(L, index);
+    if(f >= -9223372036854775808.0 && f < 9223372036854775808.0) return (lua_Integer)f;
+    if(f > 0 && f < 18446744073709551616.0) return (lua_Integer)(uint64_t)f;
+    return 0;
+}
+
 /* Takes the Lua value at the top of the stack, converts it and places it
- * in the proper place in data.  The mask is set as well.  */
-static inline void
+ * in the proper place in data.  The mask is set as well.  If the value is
+ * not a number -1 is returned and an error message is left on the stack. */
+static inline int
 _write_from_stack(lua_State *L, unsigned int type, void *data, void *mask, int index)
 {
     lua_Integer x;
 
     assert(mask != NULL);
+    if(! lua_isnumber(L, -1)) {
+        lua_pushfstring(L, "Number needed to set tag");
+        return -1;
+    }
     switch (type) {
         case DAX_BYTE:
-            x = lua_tointeger(L, -1) % 256;
+            x = _to_integer(L, -1) % 256;
             ((dax_byte *)data)[index] = x;
             ((dax_byte *)mask)[index] = 0xFF;
             break;
         case DAX_SINT:
         case DAX_CHAR:
-            x = lua_tointeger(L, -1) % 256;
+            x = _to_integer(L, -1) % 256;
             ((dax_sint *)data)[index] = x;
             ((dax_sint *)mask)[index] = 0xFF;
             break;
         case DAX_WORD:
         case DAX_UINT:
-            ((dax_uint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_uint *)data)[index] = _to_integer(L, -1);
             ((dax_uint *)mask)[index] = 0xFFFF;
             break;
         case DAX_INT:
-            ((dax_int *)data)[index] = lua_tonumber(L, -1);
+            ((dax_int *)data)[index] = _to_integer(L, -1);
             ((dax_int *)mask)[index] = 0xFFFF;
             break;
         case DAX_DWORD:
         case DAX_UDINT:
-        case DAX_TIME:
-            ((dax_udint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_udint *)data)[index] = _to_integer(L, -1);
             ((dax_udint *)mask)[index] = 0xFFFFFFFF;
             break;
         case DAX_DINT:
-            ((dax_dint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_dint *)data)[index] = _to_integer(L, -1);
             ((dax_dint *)mask)[index] = 0xFFFFFFFF;
             break;
         case DAX_REAL:
@@ -258,11 +278,12 @@ _write_from_stack(lua_State *L, unsigned int type, void *data, void *mask, int i
             break;
         case DAX_LWORD:
         case DAX_ULINT:
-            ((dax_ulint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_ulint *)data)[index] = _to_integer(L, -1);
             ((dax_ulint *)mask)[index] = DAX_64_ONES;
             break;
+        case DAX_TIME:
         case DAX_LINT:
-            ((dax_lint *)data)[index] = lua_tonumber(L, -1);
+            ((dax_lint *)data)[index] = _to_integer(L, -1);
             ((dax_lint *)mask)[index] = DAX_64_ONES;
             break;
         case DAX_LREAL:
@@ -270,6 +291,7 @@ _write_from_stack(lua_State *L, unsigned int type, void *data, void *mask, int i
             ((uint64_t *)mask)[index] = DAX_64_ONES;
             break;
     }
+    return 0;
 }
 
 
@@ -283,8 +305,9 @@ _pop_base_datatype(lua_State *L, cdt_iter tag, void *data, void *mask)
     const char *s;
 
     if(tag.count > 1) { /* The tag is an array */
-        if(lua_type(L, -1) == LUA_TSTRING) {
+        if(lua_type(L, -1) == LUA_TSTRING && tag.type != DAX_BOOL && TYPESIZE(tag.type) == 8) {
             s = lua_tolstring(L, -1, &len);
+            memset(data, 0x00, tag.count);
             memcpy(data, s, tag.count<len ? tag.count : len);
             memset(mask, 0xFF, tag.count); /* Change it all */
         } else {
@@ -309,7 +332,7 @@ _pop_base_datatype(lua_State *L, cdt_iter tag, void *data, void *mask)
                         ((uint8_t *)mask)[bit/8] |= (1 << (bit % 8));
                     } else {
                         /* Handle the non-boolean */
-                        _write_from_stack(L, tag.type, data, mask, n);
+                        if(_write_from_stack(L, tag.type, data, mask, n)) return -1;
                     }
                 }
                 lua_pop(L, 1);
@@ -325,7 +348,7 @@ _pop_base_datatype(lua_State *L, cdt_iter tag, void *data, void *mask)
             }
             ((uint8_t *)mask)[bit/8] |= (1 << (bit % 8));
         } else {
-            _write_from_stack(L, tag.type, data, mask, 0);
+            return _write_from_stack(L, tag.type, data, mask, 0);
         }
     }
     return 0;
@@ -344,12 +367,18 @@ _write_callback(cdt_iter member, void *udata)
     unsigned char *mask = ((struct iter_udata *)udata)->mask;
     int offset, n, result = 0;
 
+    /* If there has been an error the message is on top of the stack
+     * instead of the table */
+    if(((struct iter_udata *)udata)->error) return;
+    luaL_checkstack(L, 10, NULL);
     if(IS_CUSTOM(member.type)) {
         newdata.L = L;
         newdata.error = 0;
         lua_pushstring(L, member.name);
         lua_rawget(L, -2);
-        if(member.count > 1) {
+        if(lua_isnil(L, -1)) {
+            /* Members that are not in the table don't change */
+        } else if(member.count > 1) {
             for(n = 0;n < member.count; n++) {
                 offset = member.byte + (n * dax_get_typesize(ds, member.type));
                 newdata.data = (char *)data + offset;
@@ -362,18 +391,17 @@ _write_callback(cdt_iter member, void *udata)
                 lua_rawgeti(L, -1, n+1);
                 if(! lua_isnil(L, -1)) {
                     if( ! lua_istable(L, -1) ) {
-                        lua_pop(L, 1);
                         lua_pushfstring(L, "Table needed to set - %s", member.name);
                         ((struct iter_udata *)udata)->error = -1;
                         return;
                     }
                     dax_cdt_iter(ds, member.type, &newdata , _write_callback);
                 }
-                lua_pop(L, 1);
                 if(newdata.error) {
                     ((struct iter_udata *)udata)->error = newdata.error;
                     return;
                 }
+                lua_pop(L, 1);
             }
         } else {
             newdata.data = (char *)data + member.byte;
@@ -398,11 +426,12 @@ _write_callback(cdt_iter member, void *udata)
         if(! lua_isnil(L, -1)) {
             result = _pop_base_datatype(L, member, data + member.byte, mask + member.byte);
         }
+        if(result) {
+            ((struct iter_udata *)udata)->error = result;
+            return;
+        }
         lua_pop(L, 1);
     }
-    if(result) {
-        ((struct iter_udata *)udata)->error = result;
-    }
 }
 
 /* Main function that takes the tag on the top of the given Lua stack
@@ -422,6 +451,8 @@ daxlua_lua_to_dax(lua_State *L, tag_handle h, void* data, void *mask)
     struct iter_udata udata;
     int n, offset;
 
+    /* One item of a queue looks like any other tag */
+    h.type &= ~DAX_QUEUE;
     if(IS_CUSTOM(h.type)) {
         udata.L = L;
         udata.error = 0;
@@ -443,10 +474,10 @@ daxlua_lua_to_dax(lua_State *L, tag_handle h, void* data, void *mask)
                     }
                     dax_cdt_iter(ds, h.type, &udata , _write_callback);
                 }
-                lua_pop(L, 1);
                 if(udata.error) {
                     return udata.error;
                 }
+                lua_pop(L, 1);
             }
         } else { /* Only one CDT */
             udata.data = data;
@@ -556,6 +587,7 @@ _dax_free(lua_State *L)
         luaL_error(L, "Problem Unregistering from the server");
     }
     dax_free(ds);
+    ds = NULL;
     return 0;
 }
 
@@ -580,7 +612,7 @@ _cdt_create(lua_State *L)
     if(lua_gettop(L) != 2) {
         luaL_error(L, "Wrong number of arguments to cdt_create()");
     }
-    cdt_name = (char *)lua_tostring(L, 1);
+    cdt_name = (char *)luaL_checkstring(L, 1);
     cdt = dax_cdt_new(cdt_name, NULL);
 
     if(cdt == 0) {
@@ -595,6 +627,10 @@ _cdt_create(lua_State *L)
         /* Get the table from the argument */
         lua_rawgeti(L, 2, n++);
         if(lua_isnil(L, -1)) break;
+        if(! lua_istable(L, -1)) {
+            dax_cdt_free(cdt);
+            luaL_error(L, "Members should be tables");
+        }
         lua_rawgeti(L, 3, 1);
         name = (char *)lua_tostring(L, -1);
         lua_rawgeti(L, 3, 2);
@@ -602,6 +638,10 @@ _cdt_create(lua_State *L)
         lua_rawgeti(L, 3, 3);
         count = lua_tointeger(L, -1);
         lua_pop(L, 4);
+        if(name == NULL || typename == NULL) {
+            dax_cdt_free(cdt);
+            luaL_error(L, "Name and type of the member are needed");
+        }
 
         result = dax_cdt_member(ds, cdt, name, dax_string_to_type(ds, typename), count);
         if(result) {
@@ -653,11 +693,12 @@ _tag_add(lua_State *L)
     if(lua_isnumber(L, 2)) {
         type = lua_tointeger(L, 2);
     } else {
-        type = dax_string_to_type(ds, (char *)lua_tostring(L, 2));
+        type = dax_string_to_type(ds, (char *)luaL_checkstring(L, 2));
         if(type == 0) {
             luaL_error(L, "Can't get type '%s'", (char *)lua_tostring(L, 2));
         }
     }
+    luaL_checkstring(L, 1);
     h = (tag_handle *)lua_newuserdata(L, sizeof(tag_handle));
     luaL_getmetatable(L, "OpenDAX.handle");
     lua_setmetatable(L, -2);
@@ -679,10 +720,10 @@ _tag_get(lua_State *L)
     if(lua_isnumber(L, 1)) {
         result = dax_tag_byindex(ds, &tag, (tag_index)lua_tointeger(L, 1));
     } else {
-        result = dax_tag_byname(ds, &tag, (char *)lua_tostring(L, 1));
+        result = dax_tag_byname(ds, &tag, (char *)luaL_checkstring(L, 1));
     }
     if(result != 0) {
-        luaL_error(L, "Can't get tag '%s'", (char *)lua_tostring(L, 2));
+        luaL_error(L, "Can't get tag '%s'", (char *)lua_tostring(L, 1));
     }
     lua_pushstring(L, tag.name);
     lua_pushstring(L, dax_type_to_string(ds, tag.type));
@@ -707,7 +748,7 @@ _tag_handle(lua_State *L)
     } else {
         count = lua_tointeger(L, 2);
     }
-    name = (char *)lua_tostring(L, 1);
+    name = (char *)luaL_checkstring(L, 1);
 
     h = (tag_handle *)lua_newuserdata(L, sizeof(tag_handle));
     luaL_getmetatable(L, "OpenDAX.handle");
@@ -745,7 +786,7 @@ _tag_read(lua_State *L) {
     if(lua_isuserdata(L, 1)) {
         hp = luaL_checkudata(L, 1, "OpenDAX.handle");
     } else {
-        name = (char *)lua_tostring(L, 1);
+        name = (char *)luaL_checkstring(L, 1);
 
         result = dax_tag_handle(ds, &h, name, count);
         if(result) {
@@ -791,7 +832,7 @@ _tag_write(lua_State *L) {
     if(lua_isuserdata(L, 1)) {
         hp = luaL_checkudata(L, 1, "OpenDAX.handle");
     } else {
-        name = (char *)lua_tostring(L, 1);
+        name = (char *)luaL_checkstring(L, 1);
         result = dax_tag_handle(ds, &h, name, 0);
         if(result) {
             luaL_error(L, "dax_tag_handle() returned %d", result);
@@ -859,10 +900,10 @@ _tag_del(lua_State *L) {
     if(lua_isnumber(L, 1)) {
         result = dax_tag_byindex(ds, &tag, (tag_index)lua_tointeger(L, 1));
     } else {
-        result = dax_tag_byname(ds, &tag, (char *)lua_tostring(L, 1));
+        result = dax_tag_byname(ds, &tag, (char *)luaL_checkstring(L, 1));
     }
 
-    result = dax_tag_del(ds, tag.idx);
+    if(result == 0) result = dax_tag_del(ds, tag.idx);
     if(result) {
         luaL_error(L, "Unable to delete tag");
     } else {
@@ -888,6 +929,8 @@ static void
 _event_callback(dax_state *d, void *data) {
     event_ref_data *rdata;
     rdata = (event_ref_data *)data;
+    /* There might not be a function to call */
+    if(rdata->function == LUA_REFNIL) return;
     lua_rawgeti(rdata->L, LUA_REGISTRYINDEX, rdata->function);
     lua_rawgeti(rdata->L, LUA_REGISTRYINDEX, rdata->data);
     lua_call(rdata->L, 1, 0);
@@ -913,6 +956,8 @@ _get_event_type(char *str) {
         return EVENT_GREATER;
     } else if(strcasecmp(str, "LESS") == 0) {
         return EVENT_LESS;
+    } else if(strcasecmp(str, "DELETED") == 0) {
+        return EVENT_DELETED;
     } else {
         return ERR_ARG;
     }
@@ -924,8 +969,9 @@ _get_event_type(char *str) {
  * is not a general use function for this reason and it is not re-entrant
  * or thread safe. */
 static inline void
-_convert_lua_number(tag_type datatype, void **data, lua_Number x) {
+_convert_lua_number(tag_type datatype, void **data, lua_State *L, int index) {
     static dax_type_union u1;
+    lua_Integer x = _to_integer(L, index);
 
     switch(datatype) {
         case DAX_BYTE:
@@ -948,7 +994,6 @@ _convert_lua_number(tag_type datatype, void **data, lua_Number x) {
             return;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             u1.dax_udint = (dax_udint)x;
             *data = &u1.dax_udint;
             return;
@@ -962,15 +1007,16 @@ _convert_lua_number(tag_type datatype, void **data, lua_Number x) {
             *data = &u1.dax_ulint;
             return;
         case DAX_LINT:
+        case DAX_TIME:
             u1.dax_lint = (dax_lint)x;
             *data = &u1.dax_lint;
             return;
         case DAX_REAL:
-            u1.dax_real = (dax_real)x;
+            u1.dax_real = (dax_real)lua_tonumber(L, index);
             *data = &u1.dax_real;
             return;
         case DAX_LREAL:
-            u1.dax_lreal = (dax_lreal)x;
+            u1.dax_lreal = (dax_lreal)lua_tonumber(L, index);
             *data = &u1.dax_lreal;
             return;
         default:
@@ -993,7 +1039,6 @@ static int
 _event_add(lua_State *L) {
     char *str;
     int count, type, result;
-    lua_Number number;
     tag_handle h;
     event_ref_data *edata;
     dax_id id;
@@ -1002,13 +1047,19 @@ _event_add(lua_State *L) {
     if(lua_gettop(L) != 6) {
         luaL_error(L, "Wrong number of arguments passed to event_add()");
     }
-    if(lua_isnil(L, 5) || lua_tonumber(L, 5) == 0) {
-
-    } else {
-        if(!lua_isfunction(L, 5)) {
+    if(ds == NULL) {
+        luaL_error(L, "OpenDAX is not initialized");
+    }
+    if(!lua_isfunction(L, 5)) {
+        if(lua_isnil(L, 5) || (lua_isnumber(L, 5) && lua_tonumber(L, 5) == 0)) {
+            lua_pushnil(L); /* No function */
+            lua_replace(L, 5);
+        } else {
             luaL_error(L, "Argument 5 to event_add() should be a function");
         }
     }
+    luaL_checkstring(L, 1);
+    luaL_checkstring(L, 3);
     edata = malloc(sizeof(event_ref_data));
     if(edata == NULL) {
         luaL_error(L, "Unable to allocate memory");
@@ -1029,8 +1080,7 @@ _event_add(lua_State *L) {
         luaL_error(L, "%s is not a valid event type", str);
     }
     /* Get the data that we need for < > = and deadband events. */
-    number = lua_tonumber(L, 4);
-    _convert_lua_number(h.type, &data, number);
+    _convert_lua_number(h.type, &data, L, 4);
     /* The data that was passed is actually at the top of the stack */
     edata->data = luaL_ref(L, LUA_REGISTRYINDEX); /* Also pops the value */
     /* Now the function should be at the top of the stack */
@@ -1055,7 +1105,11 @@ _event_add(lua_State *L) {
 static int
 _event_del(lua_State *L) {
     dax_id id;
+    int result;
 
+    if(ds == NULL) {
+        luaL_error(L, "OpenDAX is not initialized");
+    }
     if(!lua_istable(L, 1)) {
         luaL_error(L, "Wrong type of argument passed to event_del()");
     }
@@ -1064,7 +1118,10 @@ _event_del(lua_State *L) {
     lua_rawgeti(L, 1, 2); /* Get the id from the table */
     id.id = lua_tointeger(L, -1);
 
-    dax_event_del(ds, id);
+    result = dax_event_del(ds, id);
+    if(result) {
+        luaL_error(L, "dax_event_del() returned %d", result);
+    }
     return 0;
 }
 
@@ -1113,8 +1170,8 @@ _event_poll(lua_State *L) {
     return 1;
 }
 
-/* Wrapper for dax_event_poll() no argument  It returns 0 on if there are
- * no events and 1 if it dispatches an event */
+/* Wrapper for dax_atomic_op().  The arguments are the tagname or handle, the
+ * operand and the operation */
 static int
 _atomic_op(lua_State *L) {
     int result;
@@ -1127,13 +1184,13 @@ _atomic_op(lua_State *L) {
     if(ds == NULL) {
         luaL_error(L, "OpenDAX is not initialized");
     }
-    if(lua_gettop(L) < 1 || lua_gettop(L) > 3) {
+    if(lua_gettop(L) != 3) {
         luaL_error(L, "Wrong number of arguments passed to atomic_op()");
     }
     if(lua_isuserdata(L, 1)) {
         hp = luaL_checkudata(L, 1, "OpenDAX.handle");
     } else {
-        name = (char *)lua_tostring(L, 1);
+        name = (char *)luaL_checkstring(L, 1);
 
         result = dax_tag_handle(ds, &h, name, 0);
         if(result) {
@@ -1151,6 +1208,7 @@ _atomic_op(lua_State *L) {
         free(data);
         luaL_error(L, "atomic_op() unable to allocate mask memory");
     }
+    bzero(data, hp->size);
     bzero(mask, hp->size);
     operation = lua_tointeger(L, 3);
     lua_pop(L, 1);
@@ -1162,6 +1220,8 @@ _atomic_op(lua_State *L) {
         lua_error(L); /* The error message should already be on top of the stack */
     }
     result = dax_atomic_op(ds, *hp, data, operation);
+    free(data);
+    free(mask);
     if(result) {
         luaL_error(L, "atomic_op returned %d", result);
     }
@@ -1180,13 +1240,13 @@ _map_add(lua_State *L) {
     if(ds == NULL) {
         luaL_error(L, "OpenDAX is not initialized");
     }
-    if(lua_gettop(L) < 1 || lua_gettop(L) > 3) {
+    if(lua_gettop(L) != 2) {
         luaL_error(L, "Wrong number of arguments passed to map_add()");
     }
     if(lua_isuserdata(L, 1)) {
         hp1 = luaL_checkudata(L, 1, "OpenDAX.handle");
     } else {
-        name = (char *)lua_tostring(L, 1);
+        name = (char *)luaL_checkstring(L, 1);
 
         result = dax_tag_handle(ds, &h1, name, 0);
         if(result) {
@@ -1197,7 +1257,7 @@ _map_add(lua_State *L) {
     if(lua_isuserdata(L, 2)) {
         hp2 = luaL_checkudata(L, 2, "OpenDAX.handle");
     } else {
-        name = (char *)lua_tostring(L, 2);
+        name = (char *)luaL_checkstring(L, 2);
 
         result = dax_tag_handle(ds, &h2, name, 0);
         if(result) {
@@ -1302,7 +1362,7 @@ _override_add(lua_State *L) {
     if(lua_isuserdata(L, 1)) {
         hp = luaL_checkudata(L, 1, "OpenDAX.handle");
     } else {
-        name = (char *)lua_tostring(L, 1);
+        name = (char *)luaL_checkstring(L, 1);
         result = dax_tag_handle(ds, &h, name, 0);
         if(result) {
             luaL_error(L, "dax_tag_handle() returned %d", result);
@@ -1320,6 +1380,7 @@ _override_add(lua_State *L) {
         free(data);
         luaL_error(L, "dax_tag_add_override() unable to allocate mask memory");
     }
+    bzero(data, hp->size);
     bzero(mask, hp->size);
 
     result = daxlua_lua_to_dax(L, *hp, data, mask);
@@ -1359,7 +1420,7 @@ _override_set(lua_State *L) {
     if(lua_isuserdata(L, 1)) {
         hp = luaL_checkudata(L, 1, "OpenDAX.handle");
     } else {
-        name = (char *)lua_tostring(L, 1);
+        name = (char *)luaL_checkstring(L, 1);
         result = dax_tag_handle(ds, &h, name, 0);
         if(result) {
             luaL_error(L, "dax_tag_handle() returned %d", result);
@@ -1393,7 +1454,7 @@ _override_del(lua_State *L) {
     if(lua_isuserdata(L, 1)) {
         hp = luaL_checkudata(L, 1, "OpenDAX.handle");
     } else {
-        name = (char *)lua_tostring(L, 1);
+        name = (char *)luaL_checkstring(L, 1);
         result = dax_tag_handle(ds, &h, name, 0);
         if(result) {
             luaL_error(L, "dax_tag_handle() returned %d", result);
@@ -1428,7 +1489,7 @@ _override_clr(lua_State *L) {
     if(lua_isuserdata(L, 1)) {
         hp = luaL_checkudata(L, 1, "OpenDAX.handle");
     } else {
-        name = (char *)lua_tostring(L, 1);
+        name = (char *)luaL_checkstring(L, 1);
         result = dax_tag_handle(ds, &h, name, 0);
         if(result) {
             luaL_error(L, "dax_tag_handle() returned %d", result);
@@ -1487,7 +1548,7 @@ _log(lua_State *L) {
     if(result) {
         str = lua_tostring(L, 2);
         if(str!= NULL) {
-            dax_log(log_topics, str);
+            dax_log(log_topics, "%s", str);
         } else {
             luaL_error(L, "Problem with string passed to log()");
         }
@@ -1644,7 +1705,8 @@ _set_atomic_constants(lua_State *L) {
         ATOMIC_OP_AND,
         ATOMIC_OP_NOR,
         ATOMIC_OP_NAND,
-        ATOMIC_OP_XOR
+        ATOMIC_OP_XOR,
+        ATOMIC_OP_XNOR
     };
     const char *_str[] = {
         "ATOMIC_OP_INC",
@@ -1654,9 +1716,10 @@ _set_atomic_constants(lua_State *L) {
         "ATOMIC_OP_AND",
         "ATOMIC_OP_NOR",
         "ATOMIC_OP_NAND",
-        "ATOMIC_OP_XOR"
+        "ATOMIC_OP_XOR",
+        "ATOMIC_OP_XNOR"
     };
-    for(int n=0;n<8;n++) {
+    for(int n=0;n<9;n++) {
         lua_pushinteger(L, _ints[n]);
         lua_setglobal(L, _str[n]);
     }
@@ -1674,7 +1737,7 @@ _handle_index(lua_State *L) {
     } else {
         luaL_error(L, "How did we get here???");
     }
-    name = lua_tostring(L, 2);
+    name = luaL_checkstring(L, 2);
 
     if(strcmp(name, "index") == 0) {
         lua_pushinteger(L, h->index);
-- 
2.43.0


From 6ce94fd7a4a35e413cdef14440259d2a59d36e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 34/88] fix: modbus: an address of 15 characters was not
 terminated

---
 src/modules/modbus/mbports.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/modbus/mbports.c b/src/modules/modbus/mbports.c
index ca38732..613f87c 100644
--- a/src/modules/modbus/mbports.c
+++ b/src/modules/modbus/mbports.c
@@ -278,7 +278,8 @@ mb_set_network_port(mb_port *port, const char *ipaddress, unsigned int bindport,
     if(ipaddress == NULL) {
         strcpy(port->ipaddress, "0.0.0.0");
     } else {
-        strncpy(port->ipaddress, ipaddress, 15);
+        strncpy(port->ipaddress, ipaddress, sizeof(port->ipaddress) - 1);
+        port->ipaddress[sizeof(port->ipaddress) - 1] = 0;
     }
 
     port->bindport = bindport;
-- 
2.43.0


From 2566c793e75c22df76bda673c8c8f4f659c1fd29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:00 +0000
Subject: [PATCH 35/88] fix: modbus: requests to the server were not checked
 before they were answered

The length, quantity, byte count and value of a request were not checked, the
tag was read before the bounds were, failures of the tag server were answered
as successes, unused coil bits were random, pipelined requests waited for the
next one, a broken connection stopped the port, a client that didn't read
blocked it and the Lua callbacks shared one state without a lock, used an
uninitialized result and could not reach the tags.
---
 src/modules/modbus/database.c |   8 +-
 src/modules/modbus/database.h |   4 +-
 src/modules/modbus/mbports.c  |   1 +
 src/modules/modbus/mbserver.c |  98 ++++++++++++--------
 src/modules/modbus/mbslave.c  |   2 +-
 src/modules/modbus/modbus.c   | 162 ++++++++++++++++++++++------------
 src/modules/modbus/modbus.h   |  10 ++-
 src/modules/modbus/modopt.c   |   1 +
 8 files changed, 188 insertions(+), 98 deletions(-)

diff --git a/src/modules/modbus/database.c b/src/modules/modbus/database.c
index 93f72be..cc1af90 100644
--- a/src/modules/modbus/database.c
+++ b/src/modules/modbus/database.c
@@ -22,7 +22,7 @@
 extern dax_state *ds;
 
 
-void
+int
 slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *data)
 {
     int result;
@@ -70,10 +70,11 @@ slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *da
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to write tag data to server\n");
     }
+    return result;
 }
 
 
-void
+int
 slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *data) {
     int result;
     tag_handle h;
@@ -117,7 +118,8 @@ slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *dat
     }
     result = dax_read_tag(ds, h, data);
     if(result) {
-        dax_log(DAX_LOG_ERROR, "Unable to write tag data to server\n");
+        dax_log(DAX_LOG_ERROR, "Unable to read tag data to server\n");
     }
+    return result;
 }
 
diff --git a/src/modules/modbus/database.h b/src/modules/modbus/database.h
index 2734c8a..c47f78f 100644
--- a/src/modules/modbus/database.h
+++ b/src/modules/modbus/database.h
@@ -26,7 +26,7 @@
 #include <modopt.h>
 #include <modbus.h>
 
-void slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
-void slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
+int slave_write_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
+int slave_read_database(tag_index idx, int reg, int offset, int count, uint16_t *data);
 
 #endif
diff --git a/src/modules/modbus/mbports.c b/src/modules/modbus/mbports.c
index 613f87c..8104b21 100644
--- a/src/modules/modbus/mbports.c
+++ b/src/modules/modbus/mbports.c
@@ -49,6 +49,7 @@ initport(mb_port *p)
     FD_ZERO(&(p->fdset));
     p->maxfd = 0;
     p->running = 0;
+    p->started = 0;
     p->inhibit = 0;
     p->commands = NULL;
     p->out_callback = NULL;
diff --git a/src/modules/modbus/mbserver.c b/src/modules/modbus/mbserver.c
index f41af70..1d09d14 100644
--- a/src/modules/modbus/mbserver.c
+++ b/src/modules/modbus/mbserver.c
@@ -21,7 +21,6 @@
 #include "modbus.h"
 
 extern dax_state *ds;
-extern pthread_barrier_t port_barrier;
 extern pthread_mutex_t port_lock;
 
 
@@ -94,7 +93,16 @@ _clear_buffers(mb_port *port)
 static int
 _del_connection(mb_port *port, int fd)
 {
-
+    struct client_buffer **link, *this;
+
+    for(link = &port->buff_head; *link != NULL; link = &(*link)->next) {
+        if((*link)->fd == fd) {
+            this = *link;
+            *link = this->next;
+            free(this);
+            break;
+        }
+    }
     close(fd);
     _del_fd(port, fd);
     return 0;
@@ -115,51 +123,67 @@ _get_buff_ptr(mb_port *port, int fd)
     return NULL;
 }
 
+/* Returns zero on success, MB_ERR_NO_SOCKET if the connection should be deleted
+ * or another error code if there is a problem with the port */
 static int
 _mb_read(mb_port *port, int fd)
 {
-    int result, size;
-    unsigned char buff[100];
+    int result;
+    unsigned char buff[MB_BUFF_SIZE]; /* The message that we are dealing with */
     struct client_buffer *cc;
-    uint16_t msgsize;
-
-    size = 100;
-    result = read(fd, buff, size);
-    if(result < 0) {
-        return MB_ERR_RECV_FAIL;
-    } if(result == 0) { /* EOF means the other guy is closed */
-        return MB_ERR_NO_SOCKET;
-    }
+    uint16_t msgsize, protocol, count;
 
     cc = _get_buff_ptr(port, fd);
     assert(cc != NULL); /* If we get this far cc should exist in the port */
 
-    /* Check that we haven't received too big of a message */
-    if((result + cc->buffindex) > MB_BUFF_SIZE) {
-        return MB_ERR_OVERFLOW;
+    /* There is always room because no message is larger than the buffer */
+    result = read(fd, &(cc->buff[cc->buffindex]), MB_BUFF_SIZE - cc->buffindex);
+    if(result < 0) {
+        if(errno == EINTR || errno == EAGAIN) return 0;
+        return MB_ERR_NO_SOCKET;
+    } if(result == 0) { /* EOF means the other guy is closed */
+        return MB_ERR_NO_SOCKET;
     }
-    memcpy(&(cc->buff[cc->buffindex]), buff, result); /* Copy the new data to the buffer */
     cc->buffindex += result;
-    if(cc->buffindex > 5) {
+    /* There may be more than one message in the buffer */
+    while(cc->buffindex > 5) {
+        COPYWORD(&protocol, (uint16_t *)&cc->buff[2]); /* Zero for Modbus */
         COPYWORD(&msgsize, (uint16_t *)&cc->buff[4]); /* Get the Modbus Message size */
-        if(cc->buffindex >= (msgsize + 6)) {
-            if(port->in_callback) {
-                port->in_callback(port, cc->buff, cc->buffindex);
+        if(msgsize < 2 || msgsize > MB_MAX_MSGSIZE) {
+            dax_log(DAX_LOG_ERROR, "Impossible message size %d from fd %d", msgsize, fd);
+            return MB_ERR_NO_SOCKET; /* We don't know where the next message starts */
+        }
+        if(cc->buffindex < (msgsize + 6)) break; /* The rest is yet to come */
+        /* Some clients don't count all of the data in the size of a multiple write */
+        if((cc->buff[7] == 15 || cc->buff[7] == 16) && msgsize < cc->buff[12] + 7 &&
+           cc->buffindex >= cc->buff[12] + 7 + 6) {
+            COPYWORD(&count, (uint16_t *)&cc->buff[10]);
+            if(cc->buff[12] == (cc->buff[7] == 15 ? (count + 7) / 8 : count * 2)) {
+                msgsize = cc->buff[12] + 7;
             }
+        }
+        memcpy(buff, cc->buff, msgsize + 6);
+        cc->buffindex -= msgsize + 6;
+        memmove(cc->buff, &(cc->buff[msgsize + 6]), cc->buffindex);
+        if(protocol != 0) continue; /* Not for us */
+        if(port->in_callback) {
+            port->in_callback(port, buff, msgsize + 6);
+        }
 
-            result = create_response(port, &(cc->buff[6]), MB_BUFF_SIZE - 6);
-            if(result > 0) { /* We have a response */
-                msgsize = result;
-                COPYWORD(&(cc->buff[4]), &msgsize);
-                if(port->out_callback) {
-                    port->out_callback(port, cc->buff, result + 6);
-                }
-                write(cc->fd, cc->buff, result + 6);
-                cc->buffindex = 0;
-            } else if(result < 0) {
-                dax_log(DAX_LOG_ERROR, "Error Code Returned %d", result);
-                return result;
+        result = create_response(port, &(buff[6]), msgsize, MB_BUFF_SIZE - 6);
+        if(result > 0) { /* We have a response */
+            msgsize = result;
+            COPYWORD(&(buff[4]), &msgsize);
+            if(port->out_callback) {
+                port->out_callback(port, buff, result + 6);
+            }
+            /* If the client doesn't read it's responses then we can't wait for it */
+            if(send(fd, buff, result + 6, MSG_DONTWAIT | MSG_NOSIGNAL) != result + 6) {
+                return MB_ERR_NO_SOCKET;
             }
+        } else if(result < 0) {
+            dax_log(DAX_LOG_ERROR, "Error Code Returned %d", result);
+            return result;
         }
     }
     return 0;
@@ -185,11 +209,11 @@ _server_listen(mb_port *port)
     if(bind(fd, (const struct sockaddr *)&addr, sizeof(addr))) {
         dax_log(DAX_LOG_ERROR, "Failed to bind %s:%d", port->ipaddress, port->bindport);
         close(fd);
-        pthread_barrier_wait(&port_barrier);
+        mb_port_started(port);
         return -1;
     }
     /* Wait for all of the ports to bind */
-    pthread_barrier_wait(&port_barrier);
+    mb_port_started(port);
     /* Wait for the main thread to change our user / group ids */
     pthread_mutex_lock(&port_lock);
     pthread_mutex_unlock(&port_lock); /* We don't do anything but wait so unlock here */
@@ -242,9 +266,11 @@ _receive(mb_port *port)
                     if(fd < 0) {
                         /* TODO: Need to handle these communication errors */
                         dax_log(DAX_LOG_ERROR, "Error Accepting socket: %s", strerror(errno));
+                    } else if(fd >= FD_SETSIZE || _add_connection(port, fd)) {
+                        dax_log(DAX_LOG_ERROR, "Too many connections");
+                        close(fd);
                     } else {
                         dax_log(DAX_LOG_MAJOR, "Accepted socket on fd %d", n);
-                        _add_connection(port, fd);
                     }
                 } else {
                     result = _mb_read(port, n);
diff --git a/src/modules/modbus/mbslave.c b/src/modules/modbus/mbslave.c
index 4af37c1..b175345 100644
--- a/src/modules/modbus/mbslave.c
+++ b/src/modules/modbus/mbslave.c
@@ -82,7 +82,7 @@ _mb_read(mb_port *port, int fd)
         /* Check the checksum here. */
         result = crc16check(buff, buffindex);
         if(result) {
-            result = create_response(port, buff, MB_BUFF_SIZE);
+            result = create_response(port, buff, buffindex - 2, MB_BUFF_SIZE - 2);
             if(result > 0) { /* We have a response */
                 checksum = crc16(buff, result);
                 COPYWORD(&(buff[result]), &checksum);
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 27870b6..ecbf46b 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -39,6 +39,17 @@ timediff(struct timeval oldtime,struct timeval newtime)
 };
 
 
+/* The main thread waits until every port has been opened or bound once.  A port
+ * that is opened again must not wait for the others since they won't come back */
+void
+mb_port_started(mb_port *port)
+{
+    if(!port->started) {
+        port->started = 1;
+        pthread_barrier_wait(&port_barrier);
+    }
+}
+
 /* Opens the port passed in m_port and starts the loop that
  * will handle the port */
 int
@@ -47,13 +58,14 @@ mb_run_port(struct mb_port *m_port)
     int result;
 
     while(1) {
+        result = 0;
         /* If the port is not already open */
         if(!m_port->fd) {
             result = mb_open_port(m_port);
         }
         if(result) {
             dax_log(DAX_LOG_ERROR, "Failed to open port %s - %s", m_port->name, strerror(errno));
-            pthread_barrier_wait(&port_barrier); /* For clients and masters we just need to get past this */
+            mb_port_started(m_port); /* For clients and masters we just need to get past this */
         } else {
             /* If the port is still not open then we inhibit the port and
              * let the _loop() functions deal with it */
@@ -62,7 +74,7 @@ mb_run_port(struct mb_port *m_port)
             }
 
             if(m_port->type == MB_MASTER) {
-                pthread_barrier_wait(&port_barrier); /* For clients and masters we just need to get past this */
+                mb_port_started(m_port); /* For clients and masters we just need to get past this */
                 if(m_port->protocol == MB_TCP) {
                     dax_log(DAX_LOG_MAJOR, "Starting client loop for %s", m_port->name);
                     return client_loop(m_port);
@@ -76,7 +88,7 @@ mb_run_port(struct mb_port *m_port)
                     result = server_loop(m_port);
                     if(result) dax_log(DAX_LOG_ERROR, "Server loop exited with error, %d port %s", result, m_port->name);
                 } else {
-                    pthread_barrier_wait(&port_barrier); /* Doesn't matter since the port is already open */
+                    mb_port_started(m_port); /* Doesn't matter since the port is already open */
                     dax_log(DAX_LOG_MAJOR, "Start Slave Loop for port %s", m_port->name);
                     result = slave_loop(m_port);
                     if(result) dax_log(DAX_LOG_ERROR, "Slave loop exited with error, %d port %s", result, m_port->name);
@@ -755,6 +767,7 @@ _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, in
 {
     int n, bit, word, buffbit, buffbyte;
     unsigned int regsize;
+    tag_index idx;
     uint16_t index, count;
     uint16_t reg[150];
 
@@ -762,20 +775,24 @@ _read_bits_response(mb_port *port, int nodeid, unsigned char *buff, int size, in
     COPYWORD(&count, (uint16_t *)&buff[4]); /* Number of disc/coils requested */
 
     if(mbreg == MB_REG_COIL) {
-        slave_read_database(port->nodes[nodeid]->coil_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->coil_idx;
         regsize = port->nodes[nodeid]->coil_size;
     } else {
-        slave_read_database(port->nodes[nodeid]->disc_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->disc_idx;
         regsize = port->nodes[nodeid]->disc_size;
     }
 
-    if(((count - 1)/8+1) > (size - 3)) { /* Make sure we have enough room */
-        return MB_ERR_OVERFLOW;
+    if(count < 1 || count > 2000 || ((count - 1)/8+1) > (size - 3)) {
+        return _create_exception(buff, ME_BAD_VALUE);
     }
     if((index + count) > regsize) {
         return _create_exception(buff, ME_BAD_ADDRESS);
     }
+    if(slave_read_database(idx, mbreg, index, count, reg)) {
+        return _create_exception(buff, ME_DEVICE_FAILURE);
+    }
     buff[2] = (count - 1)/8+1;
+    bzero(&buff[3], buff[2]); /* The unused bits of the last byte are zero */
 
     bit = 0;
     word = 0;
@@ -805,6 +822,7 @@ _read_words_response(mb_port *port, int nodeid, unsigned char *buff, int size, i
 {
     int n;
     unsigned int regsize;
+    tag_index idx;
     uint16_t index, count;
     uint16_t reg[150]; /* This is where we will store the data */
 
@@ -812,19 +830,22 @@ _read_words_response(mb_port *port, int nodeid, unsigned char *buff, int size, i
     COPYWORD(&count, (uint16_t *)&buff[4]); /* Number of words/coils */
 
     if(mbreg == MB_REG_HOLDING) {
-        slave_read_database(port->nodes[nodeid]->hold_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->hold_idx;
         regsize = port->nodes[nodeid]->hold_size;
     } else {
-        slave_read_database(port->nodes[nodeid]->input_idx, mbreg, index, count, reg);
+        idx = port->nodes[nodeid]->input_idx;
         regsize = port->nodes[nodeid]->input_size;
     }
 
-    if((count * 2) > (size - 3)) { /* Make sure we have enough room */
-        return MB_ERR_OVERFLOW;
+    if(count < 1 || count > 125 || (count * 2) > (size - 3)) {
+        return _create_exception(buff, ME_BAD_VALUE);
     }
     if((index + count) > regsize) {
         return _create_exception(buff, ME_BAD_ADDRESS);
     }
+    if(slave_read_database(idx, mbreg, index, count, reg)) {
+        return _create_exception(buff, ME_DEVICE_FAILURE);
+    }
     buff[2] = count * 2;
     for(n = 0; n < count; n++) {
         COPYWORD(&buff[3+(n*2)], &reg[n]);
@@ -864,21 +885,52 @@ _check_function_code_exception(mb_port *port, int nodeid, uint8_t function) {
     return ME_WRONG_FUNCTION;
 }
 
+/* Runs a Lua callback with the given arguments and returns the integer that the
+ * callback returns or zero if there was an error.  The Lua state is shared by all
+ * of the ports */
+static int
+_run_callback(mb_port *port, int ref, int node, int function, int index, int count)
+{
+    static pthread_mutex_t lua_lock = PTHREAD_MUTEX_INITIALIZER;
+    int result = 0;
+    lua_State *L;
+
+    pthread_mutex_lock(&lua_lock);
+    L = dax_get_luastate(ds);
+
+    lua_settop(L, 0); /* Delete the stack */
+    /* Get the filter function from the registry and push it onto the stack */
+    lua_rawgeti(L, LUA_REGISTRYINDEX, ref);
+    lua_pushinteger(L, node);     /* First argument is the node number */
+    lua_pushinteger(L, function); /* Second argument is the function code */
+    lua_pushinteger(L, index); /* Third argument is the requested register (0 based)  */
+    lua_pushinteger(L, count); /* fourth argument is the count */
+    if(lua_pcall(L, 4, 1, 0) != LUA_OK) {
+        dax_log(DAX_LOG_ERROR, "callback funtion for %s - %d: %s", port->name, node, lua_tostring(L, -1));
+    } else { /* Success */
+        result = lua_tointeger(L, -1);
+    }
+    lua_settop(L, 0);
+    pthread_mutex_unlock(&lua_lock);
+    return result;
+}
+
 /* Creates a generic slave response.  buff should point to a buffer that
- * looks like an RTU request without the checksum.  This function will generate
+ * looks like an RTU request without the checksum.  length is the number of bytes
+ * of the request.  This function will generate
  * an RTU response message, and write that back into buff.  size is the total
  * size that we can write into buff.  Returns positive number of bytes written, zero
  * if no bytes written and negative error code if there is a problem. */
 int
-create_response(mb_port *port, unsigned char *buff, int size)
+create_response(mb_port *port, unsigned char *buff, int length, int size)
 {
     uint8_t node, function;
     uint16_t index, value, count;
     uint16_t data[128]; /* should be the largest Modbus data size */
     int word, bit, n;
-    int8_t result, retval;
-    lua_State *L;
+    int result = 0, retval = 0;
 
+    if(length < 2) return 0; /* There isn't even a function code */
     node = buff[0]; /* Node Number */
     function = buff[1]; /* Modbus Function Code */
 
@@ -891,23 +943,10 @@ create_response(mb_port *port, unsigned char *buff, int size)
     }
 
     if(port->nodes[node]->read_callback != LUA_REFNIL) {
-        if(function == 1 || function == 2 || function == 3 || function == 4)  {
+        if((function == 1 || function == 2 || function == 3 || function == 4) && length >= 6)  {
             COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
             COPYWORD(&count, (uint16_t *)&buff[4]); /* Count */
-            L = dax_get_luastate(ds);
-
-            lua_settop(L, 0); /* Delete the stack */
-            /* Get the filter function from the registry and push it onto the stack */
-            lua_rawgeti(L, LUA_REGISTRYINDEX, port->nodes[node]->read_callback);
-            lua_pushinteger(L, node);     /* First argument is the node number */
-            lua_pushinteger(L, function); /* Second argument is the function code */
-            lua_pushinteger(L, index); /* Third argument is the requested register (0 based)  */
-            lua_pushinteger(L, count); /* fourth argument is the count */
-            if(lua_pcall(L, 4, 1, 0) != LUA_OK) {
-                dax_log(DAX_LOG_ERROR, "callback funtion for %s - %d: %s", port->name, node, lua_tostring(L, -1));
-            } else { /* Success */
-                result = lua_tointeger(L, -1);
-            }
+            result = _run_callback(port, port->nodes[node]->read_callback, node, function, index, count);
         }
     }
     /* If the Lua callback function returns a non-zero integer then create an
@@ -918,6 +957,10 @@ create_response(mb_port *port, unsigned char *buff, int size)
     if(_check_function_code_exception(port, node, function)) {
         return _create_exception(buff, ME_WRONG_FUNCTION);
     }
+    /* All of the functions that we support have two words after the function code */
+    if(length < 6) {
+        return _create_exception(buff, ME_BAD_VALUE);
+    }
 
     switch(function) {
         case 1: /* Read Coils */
@@ -931,6 +974,9 @@ create_response(mb_port *port, unsigned char *buff, int size)
         case 5: /* Write Single Coil */
             COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
             COPYWORD(&value, (uint16_t *)&buff[4]); /* Value */
+            if(value != 0x0000 && value != 0xFF00) {
+                return _create_exception(buff, ME_BAD_VALUE);
+            }
             if(index >= port->nodes[node]->coil_size) {
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
@@ -939,7 +985,9 @@ create_response(mb_port *port, unsigned char *buff, int size)
             } else {
                 data[0] = 0x00;
             }
-            slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, 1, data);
+            if(slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, 1, data)) {
+                return _create_exception(buff, ME_DEVICE_FAILURE);
+            }
             retval = 6;
             break;
         case 6: /* Write Single Register */
@@ -949,17 +997,29 @@ create_response(mb_port *port, unsigned char *buff, int size)
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
             data[0] = value;
-            slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, 1, data);
+            if(slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, 1, data)) {
+                return _create_exception(buff, ME_DEVICE_FAILURE);
+            }
             retval = 6;
             break;
-        case 8:
-            return size / 2;
+        case 8: /* Diagnostics */
+            COPYWORD(&value, (uint16_t *)&buff[2]); /* Sub-function */
+            if(value != 0) { /* We only do 'Return Query Data' */
+                return _create_exception(buff, ME_WRONG_FUNCTION);
+            }
+            return length;
         case 15: /* Write Multiple Coils */
             COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
             COPYWORD(&count, (uint16_t *)&buff[4]); /* Count */
+            if(count < 1 || count > 1968) {
+                return _create_exception(buff, ME_BAD_VALUE);
+            }
             if((index + count) > port->nodes[node]->coil_size) {
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
+            if(length < 7 || buff[6] != (count - 1)/8+1 || length < 7 + buff[6]) {
+                return _create_exception(buff, ME_BAD_VALUE);
+            }
             word = 0;
             bit = 0;
             for(n = 0; n < count; n++) {
@@ -971,19 +1031,29 @@ create_response(mb_port *port, unsigned char *buff, int size)
                 bit++;
                 if(bit == 16) { bit = 0; word++; }
             }
-            slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, count, data);
+            if(slave_write_database(port->nodes[node]->coil_idx, MB_REG_COIL, index, count, data)) {
+                return _create_exception(buff, ME_DEVICE_FAILURE);
+            }
             retval = 6;
             break;
         case 16: /* Write Multiple Registers */
             COPYWORD(&index, (uint16_t *)&buff[2]); /* Starting Address */
             COPYWORD(&count, (uint16_t *)&buff[4]); /* Count */
+            if(count < 1 || count > 123) {
+                return _create_exception(buff, ME_BAD_VALUE);
+            }
             if((index + count) > port->nodes[node]->hold_size) {
                 return _create_exception(buff, ME_BAD_ADDRESS);
             }
+            if(length < 7 || buff[6] != count * 2 || length < 7 + buff[6]) {
+                return _create_exception(buff, ME_BAD_VALUE);
+            }
             for(n = 0; n < count; n++) {
                 COPYWORD(&data[n], &buff[7 + (n*2)]);
             }
-            slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, count, data);
+            if(slave_write_database(port->nodes[node]->hold_idx, MB_REG_HOLDING, index, count, data)) {
+                return _create_exception(buff, ME_DEVICE_FAILURE);
+            }
             retval = 6;
             break;
         default:
@@ -993,24 +1063,8 @@ create_response(mb_port *port, unsigned char *buff, int size)
     /* We should only get this far if we have had a successful write response created*/
     if(port->nodes[node]->write_callback != LUA_REFNIL) {
         if(function == 5 || function == 6 || function == 15 || function == 16)  {
-            L = dax_get_luastate(ds);
-
-            lua_settop(L, 0); /* Delete the stack */
-            /* Get the filter function from the registry and push it onto the stack */
-            lua_rawgeti(L, LUA_REGISTRYINDEX, port->nodes[node]->write_callback);
-            lua_pushinteger(L, node);     /* First argument is the node number */
-            lua_pushinteger(L, function); /* Second argument is the function code */
-            lua_pushinteger(L, index); /* Third argument is the requested register (0 based)  */
-            if(function == 5 || function == 6) {
-                lua_pushinteger(L, 1); /* fourth argument is the count for fc 5&6 it's going to be 1*/
-            } else {
-                lua_pushinteger(L, count); /* fourth argument is the count */
-            }
-            if(lua_pcall(L, 4, 1, 0) != LUA_OK) {
-                dax_log(DAX_LOG_ERROR, "callback funtion for %s - %d: %s", port->name, node, lua_tostring(L, -1));
-            } else { /* Success */
-                result = lua_tointeger(L, -1);
-            }
+            if(function == 5 || function == 6) count = 1; /* It's going to be 1 for fc 5&6 */
+            result = _run_callback(port, port->nodes[node]->write_callback, node, function, index, count);
         }
     }
     /* If the write Lua callback returns non-zero then we create an exception for that
diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index 588e2c1..165b913 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -97,6 +97,8 @@
 #define ME_WRONG_FUNCTION 1
 #define ME_BAD_ADDRESS    2
 #define ME_WRONG_DEVICE   3
+#define ME_BAD_VALUE      3
+#define ME_DEVICE_FAILURE 4
 #define ME_CHECKSUM       4
 #define ME_TIMEOUT        8
 
@@ -148,7 +150,9 @@
 /* Number of slave nodes allocated */
 #define MB_MAX_SLAVE_NODES 248
 /* Maximum size of the receive buffer */
-#define MB_BUFF_SIZE 256
+#define MB_BUFF_SIZE 264
+/* Largest message size in the header of a TCP message (unit id, function code and data) */
+#define MB_MAX_MSGSIZE 254
 /* Starting number of connections in the pool */
 #define MB_INIT_CONNECTION_SIZE 16
 /* Maximum number of connections that can be in the pool */
@@ -260,6 +264,7 @@ typedef struct mb_port {
     int dienow;
     unsigned int attempt;        /* Attempt counter */
     unsigned char running;       /* Flag to indicate the port is running */
+    unsigned char started;       /* Flag to indicate that we have been past the start barrier */
     unsigned char inhibit;       /* When set the port will not be started */
     unsigned int inhibit_time;   /* Number of seconds before the port will be retried */
     unsigned int inhibit_temp;
@@ -322,6 +327,7 @@ int mb_is_read_cmd(mb_cmd *cmd);
 
 /* End New Interface */
 int mb_run_port(mb_port *);
+void mb_port_started(mb_port *);
 int mb_send_command(mb_port *, mb_cmd *);
 
 void mb_print_portconfig(FILE *fd, mb_port *mp);
@@ -336,7 +342,7 @@ int server_loop(mb_port *port);
 int slave_loop(mb_port *port);
 
 /* Protocol Functions - defined in modbus.c */
-int create_response(mb_port * port, unsigned char *buff, int size);
+int create_response(mb_port * port, unsigned char *buff, int length, int size);
 
 /* Utility Functions - defined in modutil.c */
 uint16_t crc16(unsigned char *msg, unsigned short length);
diff --git a/src/modules/modbus/modopt.c b/src/modules/modbus/modopt.c
index 44db5bf..5fd1911 100644
--- a/src/modules/modbus/modopt.c
+++ b/src/modules/modbus/modopt.c
@@ -711,6 +711,7 @@ modbus_configure(int argc, const char *argv[])
 
     /* Add functions that make sense for any callbacks that might be configured.
        The callback functions will live in the configuration Lua state */
+    daxlua_set_state(L, ds);
     daxlua_register_function(L, "tag_get");
     daxlua_register_function(L, "tag_handle");
     daxlua_register_function(L, "tag_read");
-- 
2.43.0


From 457437cb91f2b4e2cc2674a5c02010699584ac9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:17 +0000
Subject: [PATCH 36/88] fix: a request on a lost connection returns an error
 instead of ending the module with SIGPIPE

---
 src/lib/libmsg.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 7102d1e..2f0bf00 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -50,7 +50,8 @@ _message_send(dax_state *ds, int command, void *payload, size_t size)
 
     /* TODO: We need to set some kind of timeout here.  This could block
        forever if something goes wrong.  It may be a signal or something too. */
-    result = write(ds->sfd, buff, size + MSG_HDR_SIZE);
+    /* A lost connection is an error for the caller and not a SIGPIPE */
+    result = send(ds->sfd, buff, size + MSG_HDR_SIZE, MSG_NOSIGNAL);
     if(result < 0) {
     /* TODO: Should we handle the case when this returns due to a signal */
         dax_log(DAX_LOG_ERROR, "_message_send: %s", strerror(errno));
-- 
2.43.0


From 6b5f6f4aba3dd5742072884562b421052cc0f8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:39 +0000
Subject: [PATCH 37/88] fix: modbus: malformed requests of the client

RTU write multiple coils took its byte count from the wrong place, RTU write single register sent only
the low byte, the length of long RTU requests overflowed, the last byte of a TCP write single coil was not
set and commands that were refused by mb_set_command() were sent anyway.
---
 src/modules/modbus/mbcmds.c | 20 ++++++++++++++------
 src/modules/modbus/modbus.c | 17 ++++++++---------
 2 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/modules/modbus/mbcmds.c b/src/modules/modbus/mbcmds.c
index 04bb0ec..d8389e3 100644
--- a/src/modules/modbus/mbcmds.c
+++ b/src/modules/modbus/mbcmds.c
@@ -100,7 +100,6 @@ mb_set_command(mb_cmd *cmd, uint8_t node, uint8_t function, uint16_t reg, uint16
     if(node < 1 || node > 247) {
         return MB_ERR_BAD_ARG;
     }
-    cmd->node = node;
     switch(function) {
         case 1:
         case 2:
@@ -110,22 +109,27 @@ mb_set_command(mb_cmd *cmd, uint8_t node, uint8_t function, uint16_t reg, uint16
         case 6:
         case 15:
         case 16:
-            cmd->function = function;
             break;
         default:
             return MB_ERR_FUNCTION;
     }
-    cmd->m_register = reg;
-    if(function == 1 || function == 2 || function == 15) {
+    if(function == 1 || function == 2) {
         if(length < 1 || length > 2000) {
             return MB_ERR_BAD_ARG;
         }
-    } else if(function == 3 || function == 4 || function == 16) {
+    } else if(function == 15) {
+        if(length < 1 || length > 1968) {
+            return MB_ERR_BAD_ARG;
+        }
+    } else if(function == 3 || function == 4) {
         if(length < 1 || length > 125) {
             return MB_ERR_BAD_ARG;
         }
+    } else if(function == 16) {
+        if(length < 1 || length > 123) {
+            return MB_ERR_BAD_ARG;
+        }
     }
-    cmd->length = length;
     switch(function) {
         case 1:
         case 2:
@@ -154,6 +158,10 @@ mb_set_command(mb_cmd *cmd, uint8_t node, uint8_t function, uint16_t reg, uint16
     } else {
         cmd->data = newdata;
         cmd->datasize = newsize;
+        cmd->node = node;
+        cmd->function = function;
+        cmd->m_register = reg;
+        cmd->length = length;
     }
     return 0;
 }
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index ecbf46b..44e3eb6 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -239,8 +239,8 @@ master_loop(mb_port *mp)
 static int
 sendRTUrequest(mb_port *mp, mb_cmd *cmd)
 {
-    uint8_t buff[MB_FRAME_LEN], length;
-    uint16_t crc, temp;
+    uint8_t buff[MB_FRAME_LEN];
+    uint16_t crc, temp, length;
 
     /* build the request message */
     buff[0]=cmd->node;
@@ -276,7 +276,7 @@ sendRTUrequest(mb_port *mp, mb_cmd *cmd)
              check the last checksum against the current datatable[] */
             if(cmd->enable == MB_CONTINUOUS || (temp != cmd->lastcrc)) {
                 COPYWORD(&buff[2], &cmd->m_register);
-                COPYWORD(&buff[4], &temp);
+                COPYWORD(&buff[4], cmd->data);
                 cmd->lastcrc = temp; /* Since it's a single just store the word */
                 length = 6;
                 break;
@@ -298,12 +298,11 @@ sendRTUrequest(mb_port *mp, mb_cmd *cmd)
                 COPYWORD(&buff[2], &cmd->m_register);
                 COPYWORD(&buff[4], &cmd->length);
                 buff[6] = (cmd->length-1)/8 + 1;
-                printf("Bytes = %d\n", buff[7]);
-                for(int n = 0; n < buff[7]; n++) {
+                for(int n = 0; n < buff[6]; n++) {
                     buff[7+n] = cmd->data[n];
                 }
                 cmd->lastcrc = crc; /* Store for next time */
-                length = 7 + buff[7];
+                length = 7 + buff[6];
                 break;
             } else {
                 return 0;
@@ -327,7 +326,7 @@ sendRTUrequest(mb_port *mp, mb_cmd *cmd)
             }
         /* TODO: Add the rest of the function codes */
         default:
-            break;
+            return MB_ERR_FUNCTION;
     }
     crc = crc16(buff, length);
     COPYWORD(&buff[length], &crc);
@@ -439,7 +438,7 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
                 COPYWORD(&buff[8], &cmd->m_register);
                 if(temp) buff[10] = 0xff;
                 else     buff[10] = 0x00;
-                buff[5] = 0x00;
+                buff[11] = 0x00;
                 cmd->firstrun = 1;
                 cmd->lastcrc = temp;
                 length = 6;
@@ -505,7 +504,7 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
             }
         /* TODO: Add the rest of the function codes */
         default:
-            break;
+            return MB_ERR_FUNCTION;
     }
     /* Go back and put the length in the MBAP Header */
     COPYWORD(&buff[4], &length);
-- 
2.43.0


From 2b104b4b2a3508b0e93665009552442c66ba3cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:39 +0000
Subject: [PATCH 38/88] fix: modbus: responses were not checked before they
 were used

The transaction id, the length of the message and the byte count were not compared with the request, so that
late, short or wrong responses ended up in the tag or overran the buffers.  A TCP response that comes in pieces
is put together.
---
 src/modules/modbus/mbports.c |   1 +
 src/modules/modbus/modbus.c  | 120 +++++++++++++++++++++--------------
 src/modules/modbus/modbus.h  |   1 +
 3 files changed, 76 insertions(+), 46 deletions(-)

diff --git a/src/modules/modbus/mbports.c b/src/modules/modbus/mbports.c
index 8104b21..efe555e 100644
--- a/src/modules/modbus/mbports.c
+++ b/src/modules/modbus/mbports.c
@@ -30,6 +30,7 @@ initport(mb_port *p)
     p->flags = 0x00;
     p->device = NULL;
     p->fd = 0;
+    p->tid = 0;
     p->enable = 1;
     p->type = 0;
     p->protocol = 0;
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 44e3eb6..a4a1066 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -352,7 +352,7 @@ sendRTUrequest(mb_port *mp, mb_cmd *cmd)
 
  * Returns 0 on timeout
  * Returns -1 on CRC fail
- * Returns the length of the message on success
+ * Returns the length of the message without the checksum on success
  */
 static int
 getRTUresponse(uint8_t *buff, mb_port *mp)
@@ -365,9 +365,9 @@ getRTUresponse(uint8_t *buff, mb_port *mp)
 
     while(1) {
         usleep(mp->frame * 1000);
-        result = read(mp->fd, &buff[buffptr], MB_FRAME_LEN);
+        result = read(mp->fd, &buff[buffptr], MB_FRAME_LEN - buffptr);
         if(result > 0) { /* Get some data */
-            buffptr += result; // TODO: WE NEED A BOUNDS CHECK HERE.  Seg Fault Commin'
+            buffptr += result;
         } else { /* Message is finished, good or bad */
             if(buffptr > 0) { /* Is there any data in buffer? */
 
@@ -375,10 +375,8 @@ getRTUresponse(uint8_t *buff, mb_port *mp)
                     mp->in_callback(mp, buff, buffptr);
                 }
                 /* Check the checksum here. */
-                result = crc16check(buff, buffptr);
-
-                if(!result) return -1;
-                else return buffptr;
+                if(buffptr < 4 || !crc16check(buff, buffptr)) return -1;
+                else return buffptr - 2;
 
             } else { /* No data in the buffer */
                 gettimeofday(&thistime,NULL);
@@ -404,8 +402,6 @@ getASCIIresponse(uint8_t *buff, mb_port *mp)
     return 0;
 }
 
-static uint16_t _req_tid;
-
 /* This function formulates and sends the Modbus TCP client request */
 static int
 sendTCPrequest(mb_port *mp, mb_cmd *cmd)
@@ -415,8 +411,9 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
 
     /* build the request message */
     /* MBAP Header minus the length.  We'll set it later */
-    buff[0] = _req_tid>>8;  /* Transaction ID */
-    buff[1] = _req_tid++;   /* Transaction ID */
+    mp->tid++;
+    buff[0] = mp->tid>>8;  /* Transaction ID */
+    buff[1] = mp->tid;     /* Transaction ID */
     buff[2] = 0x00;  /* Protocol ID */
     buff[3] = 0x00;  /* Protocol ID */
     /* Modbus RTU PDU */
@@ -520,41 +517,69 @@ sendTCPrequest(mb_port *mp, mb_cmd *cmd)
 }
 
 /*
- * This function immediately tries to read data from the file handle.
+ * This function reads from the file handle until we have the response to the
+ * last request that was sent.  Responses to earlier requests, that we have given
+ * up on, are thrown away.
 
  * Returns 0 on timeout
  * Returns the length of the message on success
+ * Returns MB_ERR_RECV_FAIL if the connection cannot be used any more
  */
 static int
 getTCPresponse(uint8_t *buff, mb_port *mp)
 {
-    uint8_t tempbuff[MB_FRAME_LEN];
-    struct timeval timeout;
-    int result;
-    fd_set readfs, errfs;
-
-
-    timeout.tv_usec = (mp->timeout % 1000) * 1000;
-    timeout.tv_sec = mp->timeout / 1000;
-    FD_ZERO(&readfs);
-    FD_SET(mp->fd, &readfs);
-    FD_ZERO(&errfs);
-    FD_SET(mp->fd, &errfs);
-    result = select(mp->fd+1, &readfs, NULL, &errfs, &timeout);
-    if(FD_ISSET(mp->fd, &readfs)) {
-        /* TODO Can we really assume that we'll get the whole thing in one read() */
-        result = read(mp->fd, tempbuff, MB_BUFF_SIZE);
-    }
-    if(result > 0) { /* Is there any data in buffer? */
-        if(mp->in_callback) {
-            mp->in_callback(mp, tempbuff, result);
+    uint8_t tempbuff[MB_BUFF_SIZE];
+    struct timeval start, now, timeout;
+    int result, left;
+    int count = 0; /* Number of bytes that we have of the message */
+    int size = 6;  /* Number of bytes that the message is going to have */
+    fd_set readfs;
+
+    gettimeofday(&start, NULL);
+    while(1) {
+        gettimeofday(&now, NULL);
+        left = mp->timeout - (int)timediff(start, now);
+        if(left < 0) left = 0;
+        timeout.tv_usec = (left % 1000) * 1000;
+        timeout.tv_sec = left / 1000;
+        FD_ZERO(&readfs);
+        FD_SET(mp->fd, &readfs);
+        result = select(mp->fd+1, &readfs, NULL, NULL, &timeout);
+        if(result < 0 && errno != EINTR) return MB_ERR_RECV_FAIL;
+        if(result <= 0) {
+            if(left > 0) continue;
+            /* If we have part of a message then we'd not know what the rest of it is */
+            return count ? MB_ERR_RECV_FAIL : 0;
+        }
+        /* We get datagrams all at once */
+        if(mp->socket == UDP_SOCK) result = read(mp->fd, tempbuff, MB_BUFF_SIZE);
+        else                       result = read(mp->fd, &tempbuff[count], size - count);
+        if(result < 0 && (errno == EAGAIN || errno == EINTR)) continue;
+        if(result <= 0) return MB_ERR_RECV_FAIL;
+        count += result;
+        if(count < 6) {
+            if(mp->socket == UDP_SOCK) count = 0;
+            continue;
+        }
+        size = 6 + (tempbuff[4] << 8) + tempbuff[5];
+        if(tempbuff[2] || tempbuff[3] || size < 8 || size > 6 + MB_MAX_MSGSIZE) {
+            return MB_ERR_RECV_FAIL;
         }
-        /* We have to convert the TCP message to it's RTU equivalent,
-         * because that is what the calling function is expecting. */
-        result -= 6;
-        memcpy(buff, &tempbuff[6], result);
+        if(count >= size) {
+            if(mp->in_callback) {
+                mp->in_callback(mp, tempbuff, size);
+            }
+            if(((tempbuff[0] << 8) + tempbuff[1]) == mp->tid) break;
+        } else if(mp->socket != UDP_SOCK) {
+            continue;
+        }
+        count = 0;
+        size = 6;
     }
-    return result;
+    /* We have to convert the TCP message to it's RTU equivalent,
+     * because that is what the calling function is expecting. */
+    memcpy(buff, &tempbuff[6], size - 6);
+    return size - 6;
 }
 
 
@@ -569,29 +594,31 @@ getTCPresponse(uint8_t *buff, mb_port *mp)
  * like an RTU message so the ASCII & TCP response functions should translate
  * the their responses into RTUish messages
  */
-/* TODO: There is all kinds of buffer overflow potential here.  It should all be checked */
 static int
-handleresponse(uint8_t *buff, mb_cmd *cmd)
+handleresponse(uint8_t *buff, int length, mb_cmd *cmd)
 {
     int n;
 
-    cmd->responses++;
-    if(buff[1] >= 0x80)
-        return buff[2];
+    if(length < 3)
+        return ME_BAD_VALUE;
     if(buff[0] != cmd->node)
         return ME_WRONG_DEVICE;
+    cmd->responses++;
+    if(buff[1] >= 0x80)
+        return buff[2] ? buff[2] : ME_DEVICE_FAILURE;
     if(buff[1] != cmd->function)
         return ME_WRONG_FUNCTION;
     /* If we get this far the message should be good */
     switch (cmd->function) {
         case 1:
         case 2:
-            memcpy(cmd->data, &buff[3], buff[2]);
+            if(buff[2] != cmd->datasize || length < 3 + cmd->datasize) return ME_BAD_VALUE;
+            memcpy(cmd->data, &buff[3], cmd->datasize);
             break;
         case 3:
         case 4:
-            /* TODO: There may be times when we get more data than cmd->length but how to deal with that? */
-            for(n = 0; n < (buff[2] / 2); n++) {
+            if(buff[2] != cmd->datasize || length < 3 + cmd->datasize) return ME_BAD_VALUE;
+            for(n = 0; n < cmd->length; n++) {
                 COPYWORD(&((uint16_t *)cmd->data)[n], &buff[(n * 2) + 3]);
             }
             break;
@@ -599,6 +626,7 @@ handleresponse(uint8_t *buff, mb_cmd *cmd)
         case 6:
         case 15:
         case 16:
+            if(length < 6) return ME_BAD_VALUE;
             break;
         default:
             break;
@@ -722,7 +750,7 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
         }
 
         if(msglen > 0) {
-            result = handleresponse(buff, mc); /* Returns 0 on success + on failure */
+            result = handleresponse(buff, msglen, mc); /* Returns 0 on success + on failure */
             if(result > 0) {
                 mc->exceptions++;
                 mc->lasterror = result | ME_EXCEPTION;
diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index 165b913..6be2522 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -260,6 +260,7 @@ typedef struct mb_port {
 
     struct mb_cmd *commands;  /* Linked list of Modbus commands */
     int fd;                   /* File descriptor to the port */
+    uint16_t tid;             /* Transaction ID of the last TCP request */
     int ctrl_flags;
     int dienow;
     unsigned int attempt;        /* Attempt counter */
-- 
2.43.0


From f592e1d221b6e1a6fbf15a9d537a32a0365e5d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:40 +0000
Subject: [PATCH 39/88] fix: modbus: connections of the client were used after
 they were closed

A connection that was lost or closed stayed in the pool, closed serial ports were not opened again and the
port's thread closed connections while a triggered command used them.
---
 src/modules/modbus/mbports.c | 29 ++++++++++++-
 src/modules/modbus/modbus.c  | 82 +++++++++++++++++++++++++++---------
 src/modules/modbus/modbus.h  |  1 +
 3 files changed, 89 insertions(+), 23 deletions(-)

diff --git a/src/modules/modbus/mbports.c b/src/modules/modbus/mbports.c
index efe555e..04c8ce8 100644
--- a/src/modules/modbus/mbports.c
+++ b/src/modules/modbus/mbports.c
@@ -60,6 +60,7 @@ initport(mb_port *p)
     p->connection_size = MB_INIT_CONNECTION_SIZE;
     p->connection_count = 0;
     p->persist = 1;
+    p->scanning = 0;
     pthread_mutex_init(&p->send_lock, NULL);
 };
 
@@ -180,11 +181,13 @@ openIPport(mb_port *mp, struct in_addr address, uint16_t port)
     result = connect(fd, (struct sockaddr *)&addr, sizeof(addr));
 
     if(result == -1) {
+        close(fd);
         return -1;
     }
     result = fcntl(fd, F_SETFL, O_NONBLOCK);
     if(result) {
         dax_log(DAX_LOG_ERROR, "Unable to set socket to non blocking");
+        close(fd);
         return -1 ;
     }
     return fd;
@@ -344,6 +347,7 @@ mb_close_port(mb_port *port)
 
     if(port->devtype == MB_NETWORK) {
         for(int n=0; n<port->connection_count; n++) {
+            if(port->connections[n].fd == 0) continue; /* Already closed */
             dax_log(DAX_LOG_COMM, "Closing Connection %d", port->connections[n].fd);
             result = close(port->connections[n].fd);
             port->connections[n].addr.s_addr = 0x0000;
@@ -354,7 +358,7 @@ mb_close_port(mb_port *port)
             }
         }
         port->connection_count = 0;
-    } else {
+    } else if(port->fd != 0) {
         dax_log(DAX_LOG_COMM, "Closing Port %s", port->device);
         result = close(port->fd);
         port->fd = 0;
@@ -431,7 +435,8 @@ mb_get_connection(mb_port *mp, struct in_addr address, uint16_t port) {
     int n, fd;
 
     for(n=0;n<mp->connection_count;n++) {
-        if(mp->connections[n].addr.s_addr == address.s_addr && mp->connections[n].port == port) {
+        if(mp->connections[n].fd != 0 && mp->connections[n].addr.s_addr == address.s_addr &&
+           mp->connections[n].port == port) {
             /* We found one that matches */
             return mp->connections[n].fd;
         }
@@ -440,6 +445,10 @@ mb_get_connection(mb_port *mp, struct in_addr address, uint16_t port) {
     fd = openIPport(mp, address, port);
     if(fd>=0) {
         n = _get_unused_connection(mp);
+        if(n < 0) {
+            close(fd);
+            return n;
+        }
         mp->connections[n].addr = address;
         mp->connections[n].port = port;
         mp->connections[n].fd = fd;
@@ -447,6 +456,22 @@ mb_get_connection(mb_port *mp, struct in_addr address, uint16_t port) {
     return fd;
 }
 
+/* Closes the connection and removes it from the port's connection pool, the next
+ * time that the connection is needed it is made again */
+void
+mb_drop_connection(mb_port *mp, int fd) {
+    int n;
+
+    for(n=0;n<mp->connection_count;n++) {
+        if(mp->connections[n].fd == fd) {
+            mp->connections[n].addr.s_addr = 0x0000;
+            mp->connections[n].port = 0;
+            mp->connections[n].fd = 0;
+        }
+    }
+    close(fd);
+}
+
 
 /* Adds a new command to the linked list of commands on port p
    This is the master port threads list of commands that it sends
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index a4a1066..cb11c90 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -116,6 +116,7 @@ client_loop(mb_port *mp)
     mp->running = 1; /* Tells the world that we are going */
     mp->attempt = 0;
     mp->dienow = 0;
+    mp->scanning = 1;
 
     while(1) {
         gettimeofday(&start, NULL);
@@ -148,10 +149,12 @@ client_loop(mb_port *mp)
         time_spent = (end.tv_sec-start.tv_sec)*1000 + (end.tv_usec/1000 - start.tv_usec/1000);
         /* If it takes longer than the scanrate then just go again instead of sleeping */
         if(time_spent < mp->scanrate) {
+            pthread_mutex_lock(&mp->send_lock);
             if(!mp->persist) {
                 mb_close_port(mp);
             }
-            mp->scanning = 0; /* We're going to assume this is atomic for now */
+            mp->scanning = 0;
+            pthread_mutex_unlock(&mp->send_lock);
             usleep((mp->scanrate - time_spent) * 1000);
             mp->scanning = 1;
         }
@@ -179,6 +182,7 @@ master_loop(mb_port *mp)
     mp->running = 1; /* Tells the world that we are going */
     mp->attempt = 0;
     mp->dienow = 0;
+    mp->scanning = 1;
 
     while(1) {
         gettimeofday(&start, NULL);
@@ -206,7 +210,9 @@ master_loop(mb_port *mp)
         }
         if(mp->inhibit) {
             bail = 0;
+            pthread_mutex_lock(&mp->send_lock);
             mb_close_port(mp);
+            pthread_mutex_unlock(&mp->send_lock);
             if(mp->inhibit_time) {
                 sleep(mp->inhibit_time);
                 result = mb_open_port(mp);
@@ -222,10 +228,14 @@ master_loop(mb_port *mp)
         time_spent = (end.tv_sec-start.tv_sec)*1000 + (end.tv_usec/1000 - start.tv_usec/1000);
         /* If it takes longer than the scanrate then just go again instead of sleeping */
         if(time_spent < mp->scanrate) {
+            pthread_mutex_lock(&mp->send_lock);
             if(!mp->persist) {
                 mb_close_port(mp);
             }
+            mp->scanning = 0;
+            pthread_mutex_unlock(&mp->send_lock);
             usleep((mp->scanrate - time_spent) * 1000);
+            mp->scanning = 1;
         }
     }
     /* Close the port */
@@ -686,6 +696,36 @@ _send_read_data(mb_cmd *mc) {
 }
 
 
+/* Gets the file descriptor of the connection or of the serial port for the command.
+ * The port may have been closed because it is not persistent or after a failure.
+ * Returns 0 on success */
+static int
+_get_port(mb_port *mp, mb_cmd *mc) {
+    if(mp->protocol == MB_TCP) {
+        /* We get our fd from the pool for TCP connections and put it in the
+         * port fd.  This just keeps it consistent with the serial port functions
+         * so that we don't have to pass the fd to the send/get functions */
+        mp->fd = mb_get_connection(mp, mc->ip_address, mc->port);
+        if(mp->fd < 0) return MB_ERR_OPEN;
+    } else if(mp->fd == 0) {
+        if(mp->inhibit || mb_open_port(mp)) return MB_ERR_OPEN;
+    }
+    return 0;
+}
+
+/* Called when the command is finished with the port */
+static void
+_release_port(mb_port *mp) {
+    if(!mp->scanning && !mp->persist) {
+        if(mp->protocol == MB_TCP) {
+            if(mp->fd > 0) mb_drop_connection(mp, mp->fd);
+        } else {
+            mb_close_port(mp);
+        }
+    }
+    pthread_mutex_unlock(&mp->send_lock);
+}
+
 /*!
  * External function to send a Modbus commaond (mc) to port (mp).  The function
  * sets some function pointers to the functions that handle the port protocol and
@@ -700,10 +740,11 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
     uint8_t buff[MB_FRAME_LEN]; /* Modbus Frame buffer */
     int try = 1;
     int result, msglen;
-    static int (*sendrequest)(struct mb_port *, struct mb_cmd *) = NULL;
-    static int (*getresponse)(uint8_t *,struct mb_port *) = NULL;
+    int (*sendrequest)(struct mb_port *, struct mb_cmd *) = NULL;
+    int (*getresponse)(uint8_t *,struct mb_port *) = NULL;
 
     if(!mc->enable) return 0; /* If we are not enabled we don't send */
+    if(mc->function == 0) return MB_ERR_FUNCTION; /* Was not configured properly */
   /* This sets up the function pointers so we don't have to constantly check
    *  which protocol we are using for communication.  From this point on the
    *  code is generic for RTU or ASCII */
@@ -720,32 +761,28 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
         return -1;
     }
     pthread_mutex_lock(&mp->send_lock);
-    if(mp->protocol == MB_TCP) {
-        /* We get our fd from the pool for TCP connections and put it in the
-         * port fd.  This just keeps it consistent with the serial port functions
-         * so that we don't have to pass the fd to the send/get functions */
-        mp->fd = mb_get_connection(mp, mc->ip_address, mc->port);
-        if(mp->fd < 0) {
-            pthread_mutex_unlock(&mp->send_lock);
-            return MB_ERR_OPEN;
-        }
-    }
     /* Retrieve the data from the tag server */
     if(mb_is_write_cmd(mc)) {
         result = _get_write_data(mc);
     }
     do { /* retry loop */
+        if(_get_port(mp, mc)) {
+            mc->lasterror = ME_TIMEOUT;
+            _release_port(mp);
+            return MB_ERR_OPEN;
+        }
         result = sendrequest(mp, mc);
         if(result > 0) {
             msglen = getresponse(buff, mp);
         } else if(result == 0) {
             /* Should be 0 when a conditional command simply doesn't run */
-            if(!mp->scanning && !mp->persist) close(mp->fd);
-            pthread_mutex_unlock(&mp->send_lock);
+            _release_port(mp);
             return result;
+        } else if(mp->protocol == MB_TCP) {
+            msglen = MB_ERR_RECV_FAIL; /* The connection is lost */
         } else {
-            if(!mp->scanning && !mp->persist) close(mp->fd);
-            pthread_mutex_unlock(&mp->send_lock);
+            mc->lasterror = ME_TIMEOUT;
+            _release_port(mp);
             return -1;
         }
 
@@ -761,12 +798,16 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
                     result = _send_read_data(mc);
                 }
             }
-            if(!mp->scanning && !mp->persist) close(mp->fd);
-            pthread_mutex_unlock(&mp->send_lock);
+            _release_port(mp);
             return msglen; /* We got some kind of message so no sense in retrying */
         } else if(msglen == 0) {
             mc->timeouts++;
             mc->lasterror = ME_TIMEOUT;
+        } else if(msglen == MB_ERR_RECV_FAIL) {
+            mb_drop_connection(mp, mp->fd);
+            mp->fd = 0;
+            mc->timeouts++;
+            mc->lasterror = ME_TIMEOUT;
         } else {
             /* Checksum failed in response */
             mc->crcerrors++;
@@ -775,8 +816,7 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
     } while(try++ <= mp->retries);
     /* After all the retries get out with error */
     /* TODO: Should set error code?? */
-    if(!mp->scanning && !mp->persist) close(mp->fd);
-    pthread_mutex_unlock(&mp->send_lock);
+    _release_port(mp);
     return 0 - mc->lasterror;
 }
 
diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index 6be2522..6db0a33 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -311,6 +311,7 @@ int mb_set_maxfailures(mb_port *port, int maxfailures, int inhibit);
 int mb_open_port(mb_port *port);
 int mb_close_port(mb_port *port);
 int mb_get_connection(mb_port *mp, struct in_addr address, uint16_t port);
+void mb_drop_connection(mb_port *mp, int fd);
 /* Set callback functions that are called any time data is read or written over the port */
 void mb_set_msgout_callback(mb_port *, void (*outfunc)(mb_port *,uint8_t *,unsigned int));
 void mb_set_msgin_callback(mb_port *, void (*infunc)(mb_port *,uint8_t *,unsigned int));
-- 
2.43.0


From aaf06b25a4df3fc8c7611a86efbbf08ccfdcd708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:40 +0000
Subject: [PATCH 40/88] fix: modbus: commands were sent without their data

A write command whose tag could not be read sent whatever was in the buffer, tags that were deleted and added
again were not found and BOOL tags overran the command's buffer.
---
 src/modules/modbus/mbcmds.c |   5 +-
 src/modules/modbus/modbus.c | 104 ++++++++++++++++++++++++------------
 2 files changed, 73 insertions(+), 36 deletions(-)

diff --git a/src/modules/modbus/mbcmds.c b/src/modules/modbus/mbcmds.c
index d8389e3..cd5068d 100644
--- a/src/modules/modbus/mbcmds.c
+++ b/src/modules/modbus/mbcmds.c
@@ -45,6 +45,8 @@ initcmd(struct mb_cmd *c)
     c->lastcrc = 0;
     c->firstrun = 0;
     bzero(&c->data_h, sizeof(tag_handle));
+    c->trigger_tag = NULL;
+    c->data_tag = NULL;
     c->next = NULL;
 };
 
@@ -152,7 +154,8 @@ mb_set_command(mb_cmd *cmd, uint8_t node, uint8_t function, uint16_t reg, uint16
             newsize = 2;
             break;
     }
-    newdata = realloc(cmd->data, newsize);
+    /* One more byte because bits may not start at the beginning of a byte in the tag */
+    newdata = realloc(cmd->data, newsize + 1);
     if(newdata == NULL) {
         return MB_ERR_ALLOC;
     } else {
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index cb11c90..3aa1b6a 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -644,55 +644,83 @@ handleresponse(uint8_t *buff, int length, mb_cmd *cmd)
     return 0;
 }
 
-/* This function is called before a write command request is sent.  It's purpose
- * is to read the data from the tagserver and put it in the command buffer.  First
- * it checks to see if we have already retrieved our handle from the
+/* First it checks to see if we have already retrieved our handle from the
  * tag server.  If not then we attempt to retrieve it.  Then we make sure that
- * the sizes of the tag and the command buffer are the same and adjust if necessary.
- * If the handles has been retrieved then we simply read the data from the
- * tagserver and put it in the command data buffer so that it can be sent. */
+ * the sizes of the tag and the command buffer are the same and adjust if necessary. */
 static int
-_get_write_data(mb_cmd *mc) {
+_get_data_handle(mb_cmd *mc) {
     int result;
+    unsigned int bits;
 
-    if(mc->data_h.index == 0) {
-        result = dax_tag_handle(ds, &mc->data_h, mc->data_tag, mc->tagcount);
-        if(result) return result;
-        /* We need to check if the tag size and the data buffer size in the modbus command
-         * are the same.  If not then if the tag is smaller it's no big deal but if the command
-         * data size is smaller then we'll truncate the size in the tag handle. */
-        if(mc->data_h.size != mc->datasize) {
-            dax_log(DAX_LOG_ERROR, "Tag size and Modbus request size are different.  Data may be truncated");
-            if(mc->datasize < mc->data_h.size) mc->data_h.size = mc->datasize;
+    if(mc->data_h.index != 0) return 0;
+    if(mc->data_tag == NULL) return ERR_NOTFOUND;
+    result = dax_tag_handle(ds, &mc->data_h, mc->data_tag, mc->tagcount);
+    if(result) {
+        mc->data_h.index = 0;
+        return result;
+    }
+    /* We need to check if the tag size and the data buffer size in the modbus command
+     * are the same.  If not then if the tag is smaller it's no big deal but if the command
+     * data size is smaller then we'll truncate the size in the tag handle. */
+    if(mc->data_h.size != mc->datasize) {
+        dax_log(DAX_LOG_ERROR, "Tag size and Modbus request size are different.  Data may be truncated");
+    }
+    if(mc->data_h.type == DAX_BOOL) {
+        bits = mc->datasize * 8;
+        if(mc->function == 1 || mc->function == 2 || mc->function == 15) bits = mc->length;
+        if(mc->data_h.count > bits) {
+            mc->data_h.count = bits;
+            mc->data_h.size = (mc->data_h.bit + bits - 1) / 8 + 1;
+        }
+    } else if(mc->data_h.size > mc->datasize) {
+        mc->data_h.size = mc->datasize;
+        if(IS_CUSTOM(mc->data_h.type)) {
+            mc->data_h.type = DAX_BYTE; /* We don't have all of the members */
+            mc->data_h.count = mc->datasize;
+        } else {
+            mc->data_h.count = mc->datasize / (TYPESIZE(mc->data_h.type) / 8);
         }
     }
-    /* If we get here we assume that we now have a valid tag handle */
-    return dax_read_tag(ds, mc->data_h, mc->data);
+    return 0;
+}
+
+/* If we can't use the handle then the tag may have been deleted and added again */
+static int
+_renew_data_handle(mb_cmd *mc) {
+    if(mc->data_tag != NULL) mc->data_h.index = 0;
+    return _get_data_handle(mc);
+}
+
+/* This function is called before a write command request is sent.  It's purpose
+ * is to read the data from the tagserver and put it in the command buffer so that
+ * it can be sent. */
+static int
+_get_write_data(mb_cmd *mc) {
+    int result;
+
+    result = _get_data_handle(mc);
+    if(result) return result;
+    bzero(mc->data, mc->datasize); /* The tag may be smaller */
+    result = dax_read_tag(ds, mc->data_h, mc->data);
+    if(result && _renew_data_handle(mc) == 0) {
+        result = dax_read_tag(ds, mc->data_h, mc->data);
+    }
+    return result;
 }
 
 /* This function is called after a command response has been received.  It's purpose
- * is to put the data into the tagserver.  It first checks to see if we have already
- * retrieved our handle from the tag server.  If not then we attempt to retrieve it.
- * Then we make sure that the sizes of the tag and the command buffer are the same
- * and adjust if necessary. If the handles has been retrieved then we simply write
- * the data from the command data buffer to the tagserver. */
+ * is to put the data into the tagserver. */
 static int
 _send_read_data(mb_cmd *mc) {
     int result;
 
-    if(mc->data_h.index == 0) {
-        result = dax_tag_handle(ds, &mc->data_h, mc->data_tag, mc->tagcount);
-        if(result) return result;
-        /* We need to check if the tag size and the data buffer size in the modbus command
-         * are the same.  If not then if the tag is smaller it's no big deal but if the command
-         * data size is smaller then we'll truncate the size in the tag handle. */
-        if(mc->data_h.size != mc->datasize) {
-            dax_log(DAX_LOG_ERROR, "Tag size and Modbus request size are different.  Data will be truncated");
-            if(mc->datasize < mc->data_h.size) mc->data_h.size = mc->datasize;
-        }
+    result = _get_data_handle(mc);
+    if(result) return result;
+    result = dax_write_tag(ds, mc->data_h, mc->data);
+    if(result && _renew_data_handle(mc) == 0) {
+        result = dax_write_tag(ds, mc->data_h, mc->data);
     }
-    /* If we get here we assume that we now have a valid tag handle */
-    return dax_write_tag(ds, mc->data_h, mc->data);
+    return result;
 }
 
 
@@ -764,6 +792,12 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
     /* Retrieve the data from the tag server */
     if(mb_is_write_cmd(mc)) {
         result = _get_write_data(mc);
+        if(result) { /* We don't know what to write so we don't */
+            dax_log(DAX_LOG_ERROR, "Unable to read the data of a Modbus command on port %s", mp->name);
+            mc->lasterror = ME_DEVICE_FAILURE;
+            pthread_mutex_unlock(&mp->send_lock);
+            return MB_ERR_GENERIC;
+        }
     }
     do { /* retry loop */
         if(_get_port(mp, mc)) {
-- 
2.43.0


From 1684a222234b966ad1fad512ac4635c3c72f3d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:41 +0000
Subject: [PATCH 41/88] fix: modbus: the command tag ran over its data and
 accepted bad commands

The second port's command tag used an uninitialized type.
---
 src/modules/modbus/modmain.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/modules/modbus/modmain.c b/src/modules/modbus/modmain.c
index 8ca98fb..deaaf1f 100644
--- a/src/modules/modbus/modmain.c
+++ b/src/modules/modbus/modmain.c
@@ -103,7 +103,8 @@ _enable_callback(dax_state *_ds, void *ud) {
 static void
 _async_command_callback(dax_state *_ds, void *ud) {
     mb_port *port = (mb_port *)ud;
-    uint8_t buff[port->command_h.size];
+    /* The data is not read but it is part of the data type */
+    uint8_t buff[port->command_h.size + MOD_DATA_REG_COUNT*2];
     int result;
 
     result = dax_read_tag(_ds, port->command_h, buff);
@@ -112,11 +113,15 @@ _async_command_callback(dax_state *_ds, void *ud) {
     } else {
         port->cmd->ip_address.s_addr = (buff[6]<<24) + (buff[5]<<16) + (buff[4]<<8) + buff[3];
         port->cmd->port = *(dax_uint *)&buff[7];
-        port->cmd->node = buff[9];
-        port->cmd->function = buff[10];
-        port->cmd->m_register = *(dax_uint *)&buff[11];
-        port->cmd->length = *(dax_uint *)&buff[13];
-        result = mb_send_command(port, port->cmd);
+        result = mb_set_command(port->cmd, buff[9], buff[10], *(dax_uint *)&buff[11], *(dax_uint *)&buff[13]);
+        if(result) {
+            port->cmd->lasterror = ME_BAD_VALUE | ME_EXCEPTION;
+        } else {
+            /* We only use the part of the tag that belongs to this command */
+            port->cmd->data_h.size = MIN(port->cmd->datasize, MOD_DATA_REG_COUNT*2);
+            port->cmd->data_h.count = port->cmd->data_h.size / 2;
+            mb_send_command(port, port->cmd);
+        }
         buff[0] = 0;
         *(dax_int *)&buff[1] = port->cmd->lasterror;
         dax_write_tag(_ds, port->command_h, buff);
@@ -135,7 +140,7 @@ _add_async_command_tag(mb_port *port) {
     char ctag[256];
     static int type_added;
     dax_cdt *cdt;
-    tag_type type;
+    static tag_type type;
     tag_handle h;
 
     if(type_added == 0) { /* First time we're called we add the CDT */
-- 
2.43.0


From 302f09bc52ad7b00a7e26023a77381ebcdcce713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:41 +0000
Subject: [PATCH 42/88] fix: modbus: events of commands were not installed if
 their tags came later

Only the last port and the last command counted.  A retry count of zero set the timeout to 1 ms.
---
 src/modules/modbus/modmain.c | 20 ++++++++++----------
 src/modules/modbus/modopt.c  |  2 +-
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/modules/modbus/modmain.c b/src/modules/modbus/modmain.c
index deaaf1f..f14f558 100644
--- a/src/modules/modbus/modmain.c
+++ b/src/modules/modbus/modmain.c
@@ -264,7 +264,7 @@ _setup_port(mb_port *port)
         if(result) {
             dax_log(DAX_LOG_ERROR, "Unable to add connection enable tag for port %s", port->name);
         } else {
-            bits = malloc(ud->h.size);
+            bits = calloc(1, ud->h.size);
             if(bits == NULL) return ERR_ALLOC;
             mc = port->commands;
             n=0;
@@ -294,7 +294,7 @@ _setup_port(mb_port *port)
  * calling function can call it repeatedly until all of the tags have been created.*/
 static int
 _setup_master_events(mb_port *port) {
-    int result=0;
+    int result, errors=0;
     struct mb_cmd *mc;
     event_ud *ud; /* This is the userdata for change and trigger events */
 
@@ -309,13 +309,13 @@ _setup_master_events(mb_port *port) {
             if(result) {
                 dax_log(DAX_LOG_ERROR, "Unable to find tag for command write event");
                 free(ud);
-                result++;
+                errors++;
             } else {
                 result = dax_event_add(ds, &ud->h, EVENT_WRITE, NULL, NULL, _change_callback, ud, _free_ud);
                 if(result) {
                     dax_log(DAX_LOG_ERROR, "Unable to add event for command write event");
                     free(ud);
-                    result++;
+                    errors++;
                 } else {
                     /* Success... Turn the mode bit off so that we don't do this again if
                      * the function is called again. We turn of the change bit if it's set
@@ -333,14 +333,14 @@ _setup_master_events(mb_port *port) {
             if(result) {
                 dax_log(DAX_LOG_ERROR, "Unable to find tag for command change event");
                 free(ud);
-                result++;
+                errors++;
             } else {
                 result = dax_event_add(ds, &ud->h, EVENT_CHANGE, NULL, NULL, _change_callback, ud, _free_ud);
                 DF("dax_event_add() returned %d",result);
                 if(result) {
                     dax_log(DAX_LOG_ERROR, "Unable to add event for command change event");
                     free(ud);
-                    result++;
+                    errors++;
                 } else {
                     /* Success */
                     mc->mode &= ~(MB_ONCHANGE);
@@ -356,13 +356,13 @@ _setup_master_events(mb_port *port) {
             if(result) {
                 dax_log(DAX_LOG_ERROR, "Unable to find tag for command trigger event");
                 free(ud);
-                result++;
+                errors++;
             } else {
                 result = dax_event_add(ds, &ud->h, EVENT_SET, NULL, NULL, _trigger_callback, ud, _free_ud);
                 if(result) {
                     dax_log(DAX_LOG_ERROR, "Unable to add event for command trigger event");
                     free(ud);
-                    result++;
+                    errors++;
                 } else {
                     /* Success */
                     mc->mode &= ~(MB_TRIGGER);
@@ -371,7 +371,7 @@ _setup_master_events(mb_port *port) {
         }
         mc = mc->next;
     }
-    return result;
+    return errors;
 }
 
 static int
@@ -493,8 +493,8 @@ main (int argc, const char * argv[]) {
         /* for the first minute or until we have all the errors clear in the event
          * setting logic we try to setup the events in the master port */
         if(master_errors && loop_count < 60) {
+            master_errors = 0;
             for(n = 0; n < config.portcount; n++) {
-                master_errors = 0;
                 master_errors += _setup_master_events(config.ports[n]);
             }
         }
diff --git a/src/modules/modbus/modopt.c b/src/modules/modbus/modopt.c
index 5fd1911..8dd58ec 100644
--- a/src/modules/modbus/modopt.c
+++ b/src/modules/modbus/modopt.c
@@ -286,7 +286,7 @@ _add_port(lua_State *L)
 
     lua_getfield(L, -1, "retries");
     p->retries = (unsigned int)lua_tonumber(L, -1);
-    if(p->retries == 0) p->timeout = 1;
+    if(p->retries == 0) p->retries = 1;
     if(p->retries > MAX_RETRIES) p->retries = MAX_RETRIES;
     lua_pop(L, 1);
 
-- 
2.43.0


From 9a9c05a778fde47f0e1feebd5b938d2f94225387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:41 +0000
Subject: [PATCH 43/88] fix: modbus: triggered commands never got the lock of a
 busy port

---
 src/modules/modbus/mbports.c | 1 +
 src/modules/modbus/modbus.c  | 3 +++
 src/modules/modbus/modbus.h  | 1 +
 3 files changed, 5 insertions(+)

diff --git a/src/modules/modbus/mbports.c b/src/modules/modbus/mbports.c
index 04c8ce8..aaf18c8 100644
--- a/src/modules/modbus/mbports.c
+++ b/src/modules/modbus/mbports.c
@@ -62,6 +62,7 @@ initport(mb_port *p)
     p->persist = 1;
     p->scanning = 0;
     pthread_mutex_init(&p->send_lock, NULL);
+    pthread_mutex_init(&p->wait_lock, NULL);
 };
 
 static int
diff --git a/src/modules/modbus/modbus.c b/src/modules/modbus/modbus.c
index 3aa1b6a..f2dc02f 100644
--- a/src/modules/modbus/modbus.c
+++ b/src/modules/modbus/modbus.c
@@ -788,7 +788,10 @@ mb_send_command(mb_port *mp, mb_cmd *mc)
     } else {
         return -1;
     }
+    /* The port's loop would get the lock again and again if it doesn't sleep */
+    pthread_mutex_lock(&mp->wait_lock);
     pthread_mutex_lock(&mp->send_lock);
+    pthread_mutex_unlock(&mp->wait_lock);
     /* Retrieve the data from the tag server */
     if(mb_is_write_cmd(mc)) {
         result = _get_write_data(mc);
diff --git a/src/modules/modbus/modbus.h b/src/modules/modbus/modbus.h
index 6db0a33..0004a10 100644
--- a/src/modules/modbus/modbus.h
+++ b/src/modules/modbus/modbus.h
@@ -277,6 +277,7 @@ typedef struct mb_port {
     uint8_t scanning;             /* A flag to tell us if we are currently scanning the port */
 
     pthread_mutex_t send_lock;
+    pthread_mutex_t wait_lock;    /* Held by the thread that will get the send_lock next */
     tag_handle command_h;         /* Handle to command tag */
     mb_cmd *cmd;                  /* Pointer to the asynchronous command structure */
 
-- 
2.43.0


From 002e9251a824a8b2507e7709b25e7aed9ce54307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 44/88] fix: daxlua: keep track of the size of the script array
 when it grows

---
 src/modules/daxlua/scripts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index 3d98026..ce08a4b 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -52,6 +52,7 @@ get_new_script(void)
         ns = realloc(scripts, sizeof(script_t) * (scripts_size + NUM_SCRIPTS));
         if(ns != NULL) {
             scripts = ns;
+            scripts_size += NUM_SCRIPTS;
         } else {
             dax_log(DAX_LOG_ERROR, "Failure to allocate additional scripts");
             return NULL;
-- 
2.43.0


From 2764e8a823c870380f6f6060706fe40e90332c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 45/88] fix: daxlua: script queue wrapped after the full test,
 lost wakeups and blocked at start when it was full

---
 src/modules/daxlua/threads.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 715852b..5937edb 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -41,7 +41,7 @@ static pthread_attr_t attr;
 
 static script_t **script_queue;
 static int q_first, q_last;
-static int q_full, q_empty;
+static int q_full, q_empty = 1;
 static int q_exit;
 
 
@@ -71,9 +71,9 @@ _q_push(script_t *script) {
     //DF("pushing %s, q_first = %d, q_last = %d",script->name, q_first, q_last);
     script_queue[q_last] = script;
     q_last++;
+    if(q_last >= queue_size) q_last = 0;
     if(q_last == q_first) q_full = 1;
     q_empty = 0;
-    if(q_last >= queue_size) q_last = 0;
     return 0;
 }
 
@@ -225,7 +225,7 @@ __queue_thread(void *num) {
     pthread_mutex_lock(&q_lock);
     while(1) {
         if(q_exit) break;
-        pthread_cond_wait(&q_cond, &q_lock);
+        if(q_empty) pthread_cond_wait(&q_cond, &q_lock);
 
         while(! q_empty) {
             script = _q_pop(); // Get the job off of the queue <<sorta>>
@@ -278,6 +278,7 @@ _run_queue_scripts(void) {
                 pthread_mutex_unlock(&q_lock);
                 n++;
             } else { /* If the queue is full */
+                pthread_mutex_unlock(&q_lock);
                 usleep(50000);
             }
         } else { /* Not an event script */
-- 
2.43.0


From 6308ba325e352904f202d8b1797078bfd7459db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 46/88] fix: daxlua: interval threads added the nanoseconds
 they should subtract

---
 src/modules/daxlua/threads.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 5937edb..c1c89c9 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -140,7 +140,7 @@ _interval_thread(void* thread_def) {
         }
         clock_gettime(CLOCK_MONOTONIC, &end);
 
-        sleep_time = (t->interval * 1000) - ((end.tv_sec - start.tv_sec) * 1e6) + ((end.tv_nsec - start.tv_nsec) / 1e3);
+        sleep_time = (long long)t->interval * 1000 - (end.tv_sec - start.tv_sec) * 1000000LL - (end.tv_nsec - start.tv_nsec) / 1000;
         if(sleep_time < 0) {
             t->overruns++;
             *(dax_udint *)(t->tag_data + DAX_TAGNAME_SIZE+ sizeof(dax_udint)*2) = t->overruns;
-- 
2.43.0


From 9d96154f9de6c4dba13fe9ab88469943449872bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 47/88] fix: daxlua: get_script_name() with a negative index
 read outside the script array

---
 src/modules/daxlua/scripts.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index ce08a4b..ff831b3 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -391,7 +391,7 @@ _get_script_name(lua_State *L) {
     int idx, result;
 
     idx = lua_tointegerx(L, 1, &result);
-    if(result && idx < scriptcount) {
+    if(result && idx >= 0 && idx < scriptcount) {
         lua_pushstring(L, scripts[idx].name);
     } else {
         lua_pushnil(L);
-- 
2.43.0


From 6e2ade4f2538eee9b1714754fd78c8cc683f9e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 48/88] fix: daxlua: one global that can't be written stopped
 the others and left values on the stack

---
 src/modules/daxlua/scripts.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index ff831b3..1625846 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -209,8 +209,10 @@ static inline int
 _send_globals(script_t *s)
 {
     global_t *this;
+    int top, result = 0;
 
     this = s->globals;
+    top = lua_gettop(s->L);
 
     while(this != NULL) {
         /* If the write mode flag is set and we are initialized */
@@ -218,14 +220,17 @@ _send_globals(script_t *s)
             lua_getglobal(s->L, this->name);
 
             if(send_tag(s->L, this->handle)) {
-                return -1;
+                /* The others still have to be written */
+                dax_log(DAX_LOG_ERROR, "Unable to write global tag %s of script %s", this->tagname, s->name);
+                result = -1;
             }
-            lua_pop(s->L, 1);
+            /* There may be an error message on top of the value */
+            lua_settop(s->L, top);
         }
 
         this = this->next;
     }
-    return 0;
+    return result;
 }
 
 void
@@ -271,6 +276,7 @@ run_script(script_t *s) {
         /* Run the script that is on the top of the stack */
         if( lua_pcall(s->L, 0, 0, 0) ) {
             dax_log(DAX_LOG_ERROR, "Error Running Script %s - %s",s->name, lua_tostring(s->L, -1));
+            lua_pop(s->L, 1); /* The error message */
             if(s->flags & CONFIG_FAIL_ON_ERROR)s->failed = 1;
         }
         s->running = 0;
-- 
2.43.0


From 7a282190715018cb4e20234dd8f43bda37113a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 49/88] fix: daxlua: the script's tag did not show that it was
 enabled or disabled by a trigger

---
 src/modules/daxlua/scripts.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index 1625846..396a885 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -247,6 +247,7 @@ run_script(script_t *s) {
             s->enabled = 0;
         }
         s->command = 0x00;
+        write_script_tag(s);
     }
     /* In this case do nothing */
     if(s->failed || s->enabled == 0 || runsignal == 0) {
-- 
2.43.0


From a81ae1a9e3d13c2cb7b348c8349a0c86de120cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 50/88] fix: daxlua: a trigger without a tag or a type crashed
 the module

---
 src/modules/daxlua/luaopt.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/modules/daxlua/luaopt.c b/src/modules/daxlua/luaopt.c
index b14f45d..f3bb7ef 100644
--- a/src/modules/daxlua/luaopt.c
+++ b/src/modules/daxlua/luaopt.c
@@ -41,16 +41,19 @@ _set_trigger(lua_State *L, trigger_t *t) {
     t->buff = NULL;
     /* This indicates to the starting func that we are not configured */
     t->handle.size = 0;
-    t->tagname = strdup((char *)lua_tostring(L, -1));
     t->new_data = 0;
-    if(t->tagname == NULL) {
+    if(! lua_isstring(L, -1)) {
         return "'tagname' is required for an event trigger";
     }
+    t->tagname = strdup((char *)lua_tostring(L, -1));
+    if(t->tagname == NULL) {
+        return "unable to allocate memory for an event trigger";
+    }
     lua_pop(L, 1);
 
     lua_getfield(L, -1, "type");
     string = (char *)lua_tostring(L, -1);
-    t->type = dax_event_string_to_type(string);
+    t->type = string == NULL ? 0 : dax_event_string_to_type(string);
     if(t->type == 0) {
         return "'type' event type is required for an event trigger";
     }
-- 
2.43.0


From 7887e9da45020e9168e669a3d4370fa5792d61ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 51/88] fix: daxlua: retry a trigger whose event could not be
 added and have its buffer before the event

---
 src/modules/daxlua/threads.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index c1c89c9..4fd6d3b 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -415,14 +415,19 @@ _set_trigger_events(void *x) {
                     fails++;
                 } else {
                     _convert_lua_number(t->handle.type, &u, t->value);
+                    /* If this is NULL we won't mess with the data in the dispatch function.
+                       The event can come in as soon as it has been added */
+                    if(t->buff == NULL) t->buff = malloc(t->handle.size);
                     result = dax_event_add(ds, &t->handle, t->type, (void *)&u,
                                            &t->id, _script_event_dispatch, s, NULL);
                     if(result) {
                         fails++;
+                        /* Try this one again next time */
+                        t->handle.size = 0;
+                        free(t->buff);
+                        t->buff = NULL;
                     } else {
                         result = dax_event_options(ds, t->id, EVENT_OPT_SEND_DATA);
-                        /* If this is NULL we won't mess with the data in the dispatch function*/
-                        t->buff = malloc(t->handle.size);
                     }
                 }
             }
-- 
2.43.0


From fc0e90a9ab1cfcdf9dc06d2036f6082b0bda1349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 52/88] fix: daxlua: _trigger_data of BOOL triggers that don't
 begin at the start of a byte

---
 src/modules/daxlua/threads.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 4fd6d3b..39bef46 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -293,7 +293,7 @@ static void
 _script_event_dispatch(dax_state *d, void *udata) {
     script_t *script;
     trigger_t *t;
-    int result;
+    int result, n, bit;
 
     script = (script_t *)udata;
     t = script->script_trigger; /* Just to make life easier */
@@ -303,6 +303,17 @@ _script_event_dispatch(dax_state *d, void *udata) {
            state yet because of race conditions. */
         result = dax_event_get_data(ds, t->buff, t->handle.size);
         if(result > 0) {
+            if(t->handle.type == DAX_BOOL) {
+                /* The bits are where they are in the tag, but we want them at the beginning */
+                for(n = 0; n < t->handle.count; n++) {
+                    bit = n + t->handle.bit;
+                    if(t->buff[bit / 8] & (1 << (bit % 8))) {
+                        t->buff[n / 8] |= 1 << (n % 8);
+                    } else {
+                        t->buff[n / 8] &= ~(1 << (n % 8));
+                    }
+                }
+            }
             t->new_data = 1; /* This flag tells run_script() that we have new data */
         }
     }
-- 
2.43.0


From 9bd8791893cceaad7748b7415cacd1fa61bb0f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 53/88] fix: daxlua: events of the module's own changes to the
 script tags changed the scripts back

---
 src/modules/daxlua/daxlua.h  |  1 +
 src/modules/daxlua/scripts.c | 57 ++++++++++++++++++++++++++----------
 2 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/src/modules/daxlua/daxlua.h b/src/modules/daxlua/daxlua.h
index e6d63bf..09abc46 100644
--- a/src/modules/daxlua/daxlua.h
+++ b/src/modules/daxlua/daxlua.h
@@ -75,6 +75,7 @@ typedef struct Script_t {
     pthread_mutex_t lock;
     tag_handle handle;
     unsigned char enabled;
+    unsigned char tag_enabled; /* The enable bit that we put in our tag */
     unsigned char failed;
     unsigned char command;
     unsigned char flags;
diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index 396a885..383a811 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -29,6 +29,9 @@
 static script_t *scripts = NULL;
 static int scripts_size = 0;
 static int scriptcount = 0;
+
+/* So that what we write to the tags of the scripts and what we find there is in step */
+static pthread_mutex_t tag_lock = PTHREAD_MUTEX_INITIALIZER;
 extern dax_state *ds;
 extern int runsignal;
 
@@ -68,6 +71,7 @@ get_new_script(void)
     scripts[n].firstrun = 1;
     scripts[n].executions = 0;
     scripts[n].running = 0;
+    scripts[n].tag_enabled = 0; /* What a new tag has in it */
     scripts[n].command = 0;
     scripts[n].script_trigger = NULL;
     scripts[n].enable_trigger = NULL;
@@ -537,17 +541,19 @@ _initialize_script(script_t *s)
 static void
 _script_tag_callback(dax_state *ds, void *udata) {
     script_t *script = (script_t *)udata;
-    uint8_t buff[SCRIPT_TAG_LEN];
-
-    dax_event_get_data(ds, buff, SCRIPT_TAG_LEN);
-
-    if(buff[DAX_TAGNAME_SIZE] & 0x01) { /* check enable bit */
-        script->enabled = 1;
-    } else {
-        script->enabled = 0;
+    uint8_t buff;
+
+    /* This may be an old event and it may be our own writing that caused it,
+       so we look at what is there now.  If that isn't what we have last written
+       or seen then someone else has changed it. */
+    pthread_mutex_lock(&tag_lock);
+    if(dax_read(ds, script->handle.index, script->handle.byte + DAX_TAGNAME_SIZE, &buff, 1) == 0) {
+        buff &= 0x01; /* check enable bit */
+        if(buff != script->tag_enabled) {
+            script->enabled = script->tag_enabled = buff;
+        }
     }
-
-    write_script_tag(script);
+    pthread_mutex_unlock(&tag_lock);
 }
 
 int
@@ -558,7 +564,8 @@ start_all_scripts(void)
     dax_cdt *script_cdt;
     tag_type script_type;
     char tagname[DAX_TAGNAME_SIZE+1];
-    char tagname2[DAX_TAGNAME_SIZE+12];
+    char tagname2[DAX_TAGNAME_SIZE+20];
+    tag_handle enable;
     dax_id id;
 
     script_cdt = dax_cdt_new("lua_script", &result);
@@ -585,11 +592,15 @@ start_all_scripts(void)
 
         snprintf(tagname2, sizeof(tagname2), "%s[%d]", tagname, n);
         result = dax_tag_handle(ds, &scripts[n].handle, tagname2, 0);
+        write_script_tag(&scripts[n]);
         if(result == ERR_OK) {
-            result = dax_event_add(ds, &scripts[n].handle, EVENT_CHANGE, NULL , &id, _script_tag_callback, &scripts[n], NULL);
-            result = dax_event_options(ds, id, EVENT_OPT_SEND_DATA);
+            /* Only the enable bit.  Everything else in the tag is ours */
+            snprintf(tagname2, sizeof(tagname2), "%s[%d].enable", tagname, n);
+            result = dax_tag_handle(ds, &enable, tagname2, 0);
+            if(result == ERR_OK) {
+                result = dax_event_add(ds, &enable, EVENT_CHANGE, NULL , &id, _script_tag_callback, &scripts[n], NULL);
+            }
         }
-        write_script_tag(&scripts[n]);
     }
 
     thread_start_all();
@@ -631,15 +642,29 @@ get_script_name(char *name)
 int
 write_script_tag(script_t *script) {
     uint8_t buff[SCRIPT_TAG_LEN];
+    uint8_t mask[SCRIPT_TAG_LEN];
+    int result;
+    unsigned char enabled;
 
+    pthread_mutex_lock(&tag_lock);
+    enabled = script->enabled;
     bzero(buff, SCRIPT_TAG_LEN);
+    memset(mask, 0xFF, SCRIPT_TAG_LEN);
     memccpy(buff, script->name, '\0', DAX_TAGNAME_SIZE);
-    if(script->enabled) {
+    if(enabled) {
         buff[DAX_TAGNAME_SIZE] = 0x01;
     }
     if(script->failed) {
         buff[DAX_TAGNAME_SIZE] |= 0x02;
     }
     *(dax_ulint *)&buff[DAX_TAGNAME_SIZE + 1] = script->executions;
-    return dax_tag_write(ds, script->handle, buff);
+    /* Someone else may be writing the enable bit so we leave it alone unless
+       it is us who changed it */
+    if(enabled == script->tag_enabled) {
+        mask[DAX_TAGNAME_SIZE] &= ~0x01;
+    }
+    script->tag_enabled = enabled;
+    result = dax_tag_mask(ds, script->handle, buff, mask);
+    pthread_mutex_unlock(&tag_lock);
+    return result;
 }
\ No newline at end of file
-- 
2.43.0


From 4647f1d350635890077d9366e9dd0f4981e37620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 54/88] fix: daxlua: the data of a trigger could change while
 it was being read

---
 src/modules/daxlua/daxlua.h  |  1 +
 src/modules/daxlua/luaopt.c  |  1 +
 src/modules/daxlua/scripts.c | 13 +++++++++----
 src/modules/daxlua/threads.c |  2 ++
 4 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/modules/daxlua/daxlua.h b/src/modules/daxlua/daxlua.h
index 09abc46..d97fe6e 100644
--- a/src/modules/daxlua/daxlua.h
+++ b/src/modules/daxlua/daxlua.h
@@ -66,6 +66,7 @@ typedef struct Trigger_t {
     tag_handle handle;
     uint8_t *buff;
     uint8_t new_data;
+    pthread_mutex_t lock; /* For buff and new_data */
     dax_id id;
 } trigger_t;
 
diff --git a/src/modules/daxlua/luaopt.c b/src/modules/daxlua/luaopt.c
index f3bb7ef..cb461e3 100644
--- a/src/modules/daxlua/luaopt.c
+++ b/src/modules/daxlua/luaopt.c
@@ -42,6 +42,7 @@ _set_trigger(lua_State *L, trigger_t *t) {
     /* This indicates to the starting func that we are not configured */
     t->handle.size = 0;
     t->new_data = 0;
+    pthread_mutex_init(&t->lock, NULL);
     if(! lua_isstring(L, -1)) {
         return "'tagname' is required for an event trigger";
     }
diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index 383a811..36972f0 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -264,10 +264,15 @@ run_script(script_t *s) {
     s->thisscan = start.tv_sec*1e6 + start.tv_nsec / 1000;
 
     pthread_mutex_lock(&s->lock); /* Make sure we only run one at a time. */
-    if(s->script_trigger && s->script_trigger->new_data) {
-        daxlua_dax_to_lua(s->L, s->script_trigger->handle, s->script_trigger->buff);
-        lua_setglobal(s->L, "_trigger_data");
-        s->script_trigger->new_data = 0;
+    if(s->script_trigger) {
+        /* The next event could be coming in right now */
+        pthread_mutex_lock(&s->script_trigger->lock);
+        if(s->script_trigger->new_data) {
+            daxlua_dax_to_lua(s->L, s->script_trigger->handle, s->script_trigger->buff);
+            lua_setglobal(s->L, "_trigger_data");
+            s->script_trigger->new_data = 0;
+        }
+        pthread_mutex_unlock(&s->script_trigger->lock);
     }
 
     /* Get the configured tags and set the globals for the script */
diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index 39bef46..d939f00 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -301,6 +301,7 @@ _script_event_dispatch(dax_state *d, void *udata) {
     if(t->buff != NULL) {
         /* We have to retrieve the data here but we cannot write it to the Lua
            state yet because of race conditions. */
+        pthread_mutex_lock(&t->lock);
         result = dax_event_get_data(ds, t->buff, t->handle.size);
         if(result > 0) {
             if(t->handle.type == DAX_BOOL) {
@@ -316,6 +317,7 @@ _script_event_dispatch(dax_state *d, void *udata) {
             }
             t->new_data = 1; /* This flag tells run_script() that we have new data */
         }
+        pthread_mutex_unlock(&t->lock);
     }
 
     pthread_mutex_lock(&q_lock);
-- 
2.43.0


From 50914a556875c69d7957efe85fada88e79ce2fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 55/88] fix: threads that share a connection could use a
 compound type that another thread was still adding to the cache

---
 src/lib/libcdt.c  | 158 +++++++++++++++++++++++++++++-----------------
 src/lib/libdax.h  |   3 +-
 src/lib/libinit.c |   6 ++
 src/lib/libmsg.c  |   2 +-
 4 files changed, 108 insertions(+), 61 deletions(-)

diff --git a/src/lib/libcdt.c b/src/lib/libcdt.c
index 19c9f4f..35fe5c8 100644
--- a/src/lib/libcdt.c
+++ b/src/lib/libcdt.c
@@ -29,16 +29,18 @@
 # define DAX_DATATYPE_SIZE 8
 #endif
 
-/* Inserts the given datatype into the array */
+static void _cdt_member_free(cdt_member *member);
+
+/* Puts the name into the given datatype */
 static int
-_insert_type(dax_state *ds, int index, char *typename) {
+_insert_type(datatype *dt, char *typename) {
     /* Right now all we are doing is checking that the name isn't
      * too big.  We are assuming that the server hasn't sent us a
      * name that is malformed. */
     if(strlen(typename) <= DAX_TAGNAME_SIZE) {
-        ds->datatypes[index].name = strdup(typename);
+        dt->name = strdup(typename);
     }
-    if(ds->datatypes[index].name == NULL) {
+    if(dt->name == NULL) {
         return ERR_ALLOC;
     }
     return 0;
@@ -46,9 +48,9 @@ _insert_type(dax_state *ds, int index, char *typename) {
 
 /* Adds the member that is described by the string desc.  This string
  * would look like the one generated by the serialize_datatype() function
- * in the server.  The index is the array index in _datatypes[] */
+ * in the server. */
 static int
-_add_member_to_cache(dax_state *ds, int index, char *desc) {
+_add_member_to_cache(dax_state *ds, datatype *dt, char *desc) {
     char *str, *last;
     char *name, *type;
     int count;
@@ -82,9 +84,9 @@ _add_member_to_cache(dax_state *ds, int index, char *desc) {
         new->next = NULL;
         //--printf("_add_member() - name = %s type = 0x%X count = %ld\n", new->name, new->type, new->count);
         /* Add the new member to the end of the linked list */
-        this = ds->datatypes[index].members;
+        this = dt->members;
         if(this == NULL) {
-            ds->datatypes[index].members = new;
+            dt->members = new;
         } else {
             while(this->next != NULL) this = this->next;
             this->next = new;
@@ -111,6 +113,7 @@ dax_get_typesize(dax_state *ds, tag_type type)
 {
     int size = 0;
     unsigned int pos = 0; /* Bit position within the data area */
+    datatype *dt;
     cdt_member *this;
 
     type &= ~DAX_QUEUE; /* Delete the Queue bit from the type */
@@ -118,7 +121,9 @@ dax_get_typesize(dax_state *ds, tag_type type)
         return ERR_ARG;
 
     if(IS_CUSTOM(type)) {
-        this = ds->datatypes[CDT_TO_INDEX(type)].members;
+        dt = get_cdt_pointer(ds, type, NULL);
+        if(dt == NULL) return ERR_ARG;
+        this = dt->members;
         while (this != NULL) {
             if(this->type == DAX_BOOL) {
                 pos += this->count; /* BOOLs are easy just add the number of bits */
@@ -151,24 +156,38 @@ dax_get_typesize(dax_state *ds, tag_type type)
     return size;
 }
 
-/* Retrieves a pointer to the datatype array element identified by type
+/* Looks for the type in the array.  Returns NULL if we don't have it */
+static datatype *
+_find_type(dax_state *ds, tag_type type)
+{
+    datatype *dt = NULL;
+    int index = CDT_TO_INDEX(type);
+
+    pthread_mutex_lock(&ds->cdt_lock);
+    if(index < ds->datatype_size) dt = ds->datatypes[index];
+    pthread_mutex_unlock(&ds->cdt_lock);
+    return dt;
+}
+
+/* Retrieves a pointer to the datatype identified by type
  * returns NULL on failure and if the error pointer is not NULL the error
- * code will be placed there. */
+ * code will be placed there.  Once we have them the datatypes neither
+ * change nor move so the pointer can be used without a lock. */
 datatype *
 get_cdt_pointer(dax_state *ds, tag_type type, int *error)
 {
-    int index;
+    datatype *dt;
     int result;
 
     if(error != NULL) *error = 0;
     if(IS_CUSTOM(type)) {
-        index = CDT_TO_INDEX(type);
-        if(index < ds->datatype_size && ds->datatypes[index].name != NULL) {
-            return &ds->datatypes[index];
+        dt = _find_type(ds, type);
+        if(dt != NULL) {
+            return dt;
         } else {
             result = dax_cdt_get(ds, type, NULL);
             if(result == 0) {
-                return &ds->datatypes[index];
+                return _find_type(ds, type);
             } else {
                 if(error != NULL) *error = result;
             }
@@ -179,27 +198,24 @@ get_cdt_pointer(dax_state *ds, tag_type type, int *error)
     }
 }
 
-/* Adds the given type to the array cache.  'type' is the type id
- * and typedesc is the type description string that would be generated
- * by a call to serialize_datatype() in the server. */
-int
-add_cdt_to_cache(dax_state *ds, tag_type type, char *typedesc)
+/* The cdt_lock must be held before calling this function */
+static int
+_add_cdt(dax_state *ds, tag_type type, char *typedesc)
 {
     int index, result, n;
     char *str, *last;
+    datatype *dt;
 
     index = CDT_TO_INDEX(type);
 
     if(ds->datatype_size == 0) { /* Make sure we have an array */
         /* Allocate the datatype array and set the initial counters */
-        ds->datatypes = malloc(sizeof(datatype) * DAX_DATATYPE_SIZE);
+        ds->datatypes = malloc(sizeof(datatype *) * DAX_DATATYPE_SIZE);
         if(ds->datatypes == NULL) {
             return ERR_ALLOC;
         }
-        /* Set both pointers to NULL */
         for(n = 0; n < DAX_DATATYPE_SIZE; n++) {
-            ds->datatypes[n].name = NULL;
-            ds->datatypes[n].members = NULL;
+            ds->datatypes[n] = NULL;
         }
         ds->datatype_size = DAX_DATATYPE_SIZE;
     }
@@ -207,16 +223,14 @@ add_cdt_to_cache(dax_state *ds, tag_type type, char *typedesc)
     /* Do we need to grow the array */
     while(index >= ds->datatype_size) {
         /* Allocate more space for the array */
-        datatype *new_datatype;
+        datatype **new_datatype;
 
-        new_datatype = realloc(ds->datatypes, (ds->datatype_size + DAX_DATATYPE_SIZE) * sizeof(datatype));
+        new_datatype = realloc(ds->datatypes, (ds->datatype_size + DAX_DATATYPE_SIZE) * sizeof(datatype *));
 
         if(new_datatype != NULL) {
             ds->datatypes = new_datatype;
-            /* Set both pointers to NULL */
             for(n = ds->datatype_size; n < ds->datatype_size + DAX_DATATYPE_SIZE; n++) {
-                ds->datatypes[n].name = NULL;
-                ds->datatypes[n].members = NULL;
+                ds->datatypes[n] = NULL;
             }
             ds->datatype_size += DAX_DATATYPE_SIZE;
         } else {
@@ -225,7 +239,7 @@ add_cdt_to_cache(dax_state *ds, tag_type type, char *typedesc)
     }
 
     /* If we already have it there is nothing to do */
-    if(ds->datatypes[index].name != NULL) return 0;
+    if(ds->datatypes[index] != NULL) return 0;
 
     /* At this point we should have the spot for the datatype */
     str = strtok_r(typedesc, ":", &last);
@@ -233,17 +247,39 @@ add_cdt_to_cache(dax_state *ds, tag_type type, char *typedesc)
         dax_log(DAX_LOG_ERROR, "add_cdt_to_cache(): Something is seriously wrong with the string");
         return ERR_ARG;
     }
-    result = _insert_type(ds, index, str);
-    if(result) return result;
+    dt = calloc(1, sizeof(datatype));
+    if(dt == NULL) return ERR_ALLOC;
+    result = _insert_type(dt, str);
 
-    while( (str = strtok_r(NULL, ":", &last)) ) {
-        result = _add_member_to_cache(ds, index, str);
-        if(result) return result;
+    while( result == 0 && (str = strtok_r(NULL, ":", &last)) ) {
+        result = _add_member_to_cache(ds, dt, str);
+    }
+    if(result) {
+        if(dt->members != NULL) _cdt_member_free(dt->members);
+        free(dt->name);
+        free(dt);
+        return result;
     }
+    /* Nobody gets to see it until it is complete */
+    ds->datatypes[index] = dt;
     //DF("add_cdt_to_cache() type = 0x%X, name = %s", type, typedesc);
     return 0;
 }
 
+/* Adds the given type to the array cache.  'type' is the type id
+ * and typedesc is the type description string that would be generated
+ * by a call to serialize_datatype() in the server. */
+int
+add_cdt_to_cache(dax_state *ds, tag_type type, char *typedesc)
+{
+    int result;
+
+    pthread_mutex_lock(&ds->cdt_lock);
+    result = _add_cdt(ds, type, typedesc);
+    pthread_mutex_unlock(&ds->cdt_lock);
+    return result;
+}
+
 /*!
  * Creates an empty Custom Datatype
  *
@@ -355,6 +391,24 @@ dax_cdt_free(dax_cdt *cdt) {
 }
 
 
+/* Looks for the name in the array. Returns 0 if we don't have it */
+static tag_type
+_find_type_name(dax_state *ds, char *name)
+{
+    int n;
+    tag_type type = 0;
+
+    pthread_mutex_lock(&ds->cdt_lock);
+    for(n = 0; n < ds->datatype_size; n++) {
+        if(ds->datatypes[n] != NULL && !strcasecmp(name, ds->datatypes[n]->name)) {
+            type = CDT_TO_TYPE(n);
+            break;
+        }
+    }
+    pthread_mutex_unlock(&ds->cdt_lock);
+    return type;
+}
+
 /*!
  * Find the data type of the given name and return it's numeric ID.
  * both base data types and compound data types can be found with
@@ -367,7 +421,8 @@ dax_cdt_free(dax_cdt *cdt) {
 tag_type
 dax_string_to_type(dax_state *ds, char *type)
 {
-    int result, n;
+    int result;
+    tag_type found;
 
     if(type == NULL) return 0;
     if(!strcasecmp(type, "BOOL"))  return DAX_BOOL;
@@ -388,11 +443,8 @@ dax_string_to_type(dax_state *ds, char *type)
     if(!strcasecmp(type, "LREAL")) return DAX_LREAL;
 
     /* See if we already have it in the cache */
-    for(n = 0; n<ds->datatype_size; n++) {
-        if(ds->datatypes[n].name != NULL && !strcasecmp(type, ds->datatypes[n].name)) {
-            return CDT_TO_TYPE(n);
-        }
-    }
+    found = _find_type_name(ds, type);
+    if(found) return found;
 
     /* If not go to the server for it */
     result = dax_cdt_get(ds, 0, type);
@@ -401,14 +453,10 @@ dax_string_to_type(dax_state *ds, char *type)
         return 0;
     } else {
         /* Search Again - It'll be there this time */
-        for(n = 0; n < ds->datatype_size; n++) {
-            if(ds->datatypes[n].name != NULL && !strcasecmp(type, ds->datatypes[n].name)) {
-                return CDT_TO_TYPE(n);
-            }
-        }
+        found = _find_type_name(ds, type);
     }
     /* We should have found it by now.  If not return error */
-    return 0;
+    return found;
 }
 
 /*!
@@ -422,19 +470,11 @@ dax_string_to_type(dax_state *ds, char *type)
 const char *
 dax_type_to_string(dax_state *ds, tag_type type)
 {
-    int index;
+    datatype *dt;
 
-    /* TODO: Could replace this with a call to get_cdt_pointer() */
     if(IS_CUSTOM(type)) {
-        index = CDT_TO_INDEX(type);
-        if(index < ds->datatype_size && ds->datatypes[index].name != NULL) {
-            return ds->datatypes[index].name;
-        } else {
-            if(!dax_cdt_get(ds, type, NULL)) {
-                return ds->datatypes[index].name;
-            }
-            return NULL;
-        }
+        dt = get_cdt_pointer(ds, type, NULL);
+        return dt == NULL ? NULL : dt->name;
     } else {
         switch (type) {
             case DAX_BOOL:
diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 914d243..5aa9676 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -113,9 +113,10 @@ struct dax_state {
     tag_cnode *cache_head; /* First node in the cache list */
     int cache_limit;       /* Total number of nodes that we'll allocate */
     int cache_count;       /* How many nodes we actually have */
-    datatype *datatypes;
+    datatype **datatypes;
     unsigned int datatype_size;
     pthread_mutex_t lock;
+    pthread_mutex_t cdt_lock; /* For the datatype array.  Never take this one while holding lock */
     pthread_t connection_thread;
     pthread_barrier_t connect_barrier; /* Synchronize the connection thread */
     pthread_mutex_t event_lock, msg_lock; /* Locks for the message handling functions */
diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 8b7e307..516822c 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -39,6 +39,7 @@ dax_state *
 dax_init(const char *name)
 {
     dax_state *ds;
+    pthread_mutexattr_t attr;
     ds = malloc(sizeof(dax_state));
     if(ds == NULL) return NULL;
 
@@ -79,6 +80,10 @@ dax_init(const char *name)
     ds->disconnect_callback = NULL;
     /* Initialize locks and condition variables */
     pthread_mutex_init(&ds->lock, NULL);
+    pthread_mutexattr_init(&attr);
+    pthread_mutexattr_settype(&attr, PTHREAD_MUTEX_RECURSIVE);
+    pthread_mutex_init(&ds->cdt_lock, &attr);
+    pthread_mutexattr_destroy(&attr);
     pthread_mutex_init(&ds->event_lock, NULL);
     pthread_mutex_init(&ds->msg_lock, NULL);
     pthread_cond_init(&ds->event_cond, NULL);
@@ -105,6 +110,7 @@ dax_free(dax_state *ds)
 {
     pthread_mutex_unlock(&ds->lock);
     pthread_mutex_destroy(&ds->lock);
+    pthread_mutex_destroy(&ds->cdt_lock);
     free(ds->modulename);
     /* TODO: gotta loop through and free the udata in the events. */
     free(ds->events);
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 2f0bf00..6499393 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1418,6 +1418,7 @@ dax_cdt_create(dax_state *ds, dax_cdt *cdt, tag_type *type)
 
     size = 10;
     result = _message_recv(ds, MSG_CDT_CREATE, rbuff, &size, 1);
+    pthread_mutex_unlock(&ds->lock);
 
     if(result == 0) {
         if(type != NULL) {
@@ -1426,7 +1427,6 @@ dax_cdt_create(dax_state *ds, dax_cdt *cdt, tag_type *type)
         result = add_cdt_to_cache(ds, stom_udint(*((tag_type *)rbuff)), buff);
         dax_cdt_free(cdt);
     }
-    pthread_mutex_unlock(&ds->lock);
     return result;
 }
 
-- 
2.43.0


From 798d0828442e6b9922f9339e0099ea5cad5ee276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:44 +0000
Subject: [PATCH 56/88] fix: dispatching an event while another thread added or
 deleted events used freed memory

---
 src/lib/libevent.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/lib/libevent.c b/src/lib/libevent.c
index 908ab09..281dfbf 100644
--- a/src/lib/libevent.c
+++ b/src/lib/libevent.c
@@ -153,8 +153,10 @@ del_event(dax_state *ds, dax_id id)
 int
 dispatch_event(dax_state *ds, dax_message *msg, dax_id *id)
 {
-    int n;
+    int n, found = 0;
     uint32_t idx, eid;
+    void (*callback)(dax_state *ds, void *udata) = NULL;
+    void *udata = NULL;
 
     idx =      ntohl(*(uint32_t *)(&msg->data[0]));
     eid =      ntohl(*(uint32_t *)(&msg->data[4]));
@@ -162,19 +164,29 @@ dispatch_event(dax_state *ds, dax_message *msg, dax_id *id)
      * This data can be retrieved in the callback by dax_event_get_data() */
     ds->event_data = &msg->data[8];
     ds->event_data_size = msg->size-8;
+    /* Another thread may be adding or deleting events.  If this is an event that
+     * is being added right now then it'll be in the array once we have the lock. */
+    pthread_mutex_lock(&ds->lock);
     for(n = 0; n < ds->event_count; n ++) {
         if(ds->events[n].idx == idx && ds->events[n].id == eid) {
-            if(ds->events[n].callback != NULL) {
-                ds->events[n].callback(ds, ds->events[n].udata);
-            }
-            if(id != NULL) {
-                id->id = eid;
-                id->index = idx;
-            }
-            ds->event_data = NULL; /* This indicates that the data is out of scope now */
-            return 0;
+            callback = ds->events[n].callback;
+            udata = ds->events[n].udata;
+            found = 1;
+            break;
         }
     }
+    pthread_mutex_unlock(&ds->lock);
+    if(found) {
+        if(callback != NULL) {
+            callback(ds, udata);
+        }
+        if(id != NULL) {
+            id->id = eid;
+            id->index = idx;
+        }
+        ds->event_data = NULL; /* This indicates that the data is out of scope now */
+        return 0;
+    }
     ds->event_data = NULL; /* This indicates that the data is out of scope now */
     dax_log(DAX_LOG_ERROR, "dax_event_dispatch() received an event that does not exist in database");
     return ERR_GENERIC;
-- 
2.43.0


From f611897b117d292f3c52fae2a69ff4d00dcdb730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:11 +0000
Subject: [PATCH 57/88] fix: daxlua: trigger values for TIME tags were only
 half written

---
 src/modules/daxlua/threads.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/daxlua/threads.c b/src/modules/daxlua/threads.c
index d939f00..8e4d875 100644
--- a/src/modules/daxlua/threads.c
+++ b/src/modules/daxlua/threads.c
@@ -373,7 +373,6 @@ _convert_lua_number(tag_type datatype, dax_type_union *dest, lua_Number x) {
             return;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             dest->dax_udint = (dax_udint)x;
             return;
         case DAX_DINT:
@@ -384,6 +383,7 @@ _convert_lua_number(tag_type datatype, dax_type_union *dest, lua_Number x) {
             dest->dax_ulint = (dax_ulint)x;
             return;
         case DAX_LINT:
+        case DAX_TIME:
             dest->dax_lint = (dax_lint)x;
             return;
         case DAX_REAL:
-- 
2.43.0


From 2f05be55222f2391ec42ee49da8e07422f8e704d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:11 +0000
Subject: [PATCH 58/88] fix: daxlua: a script that stopped itself still ran
 when another worker was waiting for it

---
 src/modules/daxlua/scripts.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modules/daxlua/scripts.c b/src/modules/daxlua/scripts.c
index 36972f0..7816d32 100644
--- a/src/modules/daxlua/scripts.c
+++ b/src/modules/daxlua/scripts.c
@@ -241,6 +241,7 @@ void
 run_script(script_t *s) {
     struct timespec start;
 
+    pthread_mutex_lock(&s->lock); /* Make sure we only run one at a time. */
     /* this is to avoid a race condition where another script could set the
        enabled flag while the script was running and then the script would
        disable itself afterward. */
@@ -255,6 +256,7 @@ run_script(script_t *s) {
     }
     /* In this case do nothing */
     if(s->failed || s->enabled == 0 || runsignal == 0) {
+        pthread_mutex_unlock(&s->lock);
         return;
     }
 
@@ -263,7 +265,6 @@ run_script(script_t *s) {
     /* This is the time that we are running the script now in mSec since system startup */
     s->thisscan = start.tv_sec*1e6 + start.tv_nsec / 1000;
 
-    pthread_mutex_lock(&s->lock); /* Make sure we only run one at a time. */
     if(s->script_trigger) {
         /* The next event could be coming in right now */
         pthread_mutex_lock(&s->script_trigger->lock);
-- 
2.43.0


From cb1ec76e84ec344884683b253f61e0effd45d16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:13 +0000
Subject: [PATCH 59/88] fix: histlog: changes of BOOL tags were never logged
 and those of unsigned and 64 bit tags were miscalculated

---
 src/modules/histlog/histlog.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/modules/histlog/histlog.c b/src/modules/histlog/histlog.c
index 0e944b5..0999db9 100644
--- a/src/modules/histlog/histlog.c
+++ b/src/modules/histlog/histlog.c
@@ -33,9 +33,15 @@ static int _quitsignal;
 static double _flush_interval;
 extern tag_config *tag_list;
 
+/* The unsigned values can't simply be subtracted */
+#define DIFF(a, b) (((a) > (b)) ? (a) - (b) : (b) - (a))
+
 static int
 _test_difference(void *data1, void *data2, tag_type datatype, double threshold) {
     switch(datatype) {
+        case DAX_BOOL:
+            if(DIFF(*(dax_byte *)data1 & 0x01, *(dax_byte *)data2 & 0x01) >= threshold) return 1;
+            else return 0;
         case DAX_BYTE:
             if(ABS(*(dax_byte *)data1 - *(dax_byte *)data2) >= threshold) return 1;
             else return 0;
@@ -45,26 +51,31 @@ _test_difference(void *data1, void *data2, tag_type datatype, double threshold)
             else return 0;
         case DAX_UINT:
         case DAX_WORD:
-            if(ABS(*(dax_dint *)data1 - *(dax_dint *)data2) >= threshold) return 1;
+            if(DIFF(*(dax_uint *)data1, *(dax_uint *)data2) >= threshold) return 1;
             else return 0;
         case DAX_INT:
             if(ABS(*(dax_int *)data1 - *(dax_int *)data2) >= threshold) return 1;
             else return 0;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
-            if(ABS(*(dax_udint *)data1 - *(dax_udint *)data2) >= threshold) return 1;
+            if(DIFF(*(dax_udint *)data1, *(dax_udint *)data2) >= threshold) return 1;
             else return 0;
         case DAX_DINT:
-            if(ABS(*(dax_dint *)data1 - *(dax_dint *)data2) >= threshold) return 1;
+            /* The difference may not fit in the type */
+            if(ABS((dax_lint)*(dax_dint *)data1 - *(dax_dint *)data2) >= threshold) return 1;
             else return 0;
         case DAX_ULINT:
         case DAX_LWORD:
-            if(ABS(*(dax_ulint *)data1 - *(dax_ulint *)data2) >= threshold) return 1;
+            if(DIFF(*(dax_ulint *)data1, *(dax_ulint *)data2) >= threshold) return 1;
             else return 0;
         case DAX_LINT:
-            if(ABS(*(dax_lint *)data1 - *(dax_lint *)data2) >= threshold) return 1;
-            else return 0;
+        case DAX_TIME:
+            if(*(dax_lint *)data1 > *(dax_lint *)data2) {
+                if(*(dax_ulint *)data1 - *(dax_ulint *)data2 >= threshold) return 1;
+            } else {
+                if(*(dax_ulint *)data2 - *(dax_ulint *)data1 >= threshold) return 1;
+            }
+            return 0;
         case DAX_REAL:
             if(ABS(*(dax_real *)data1 - *(dax_real *)data2) >= threshold) return 1;
             else return 0;
-- 
2.43.0


From f720000f88309b922426f7c8465badbdd593965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:48 +0000
Subject: [PATCH 60/88] fix: histlog: the wrong bit was logged for BOOL tags
 that don't start a byte

---
 src/modules/histlog/histlog.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/histlog/histlog.c b/src/modules/histlog/histlog.c
index 0999db9..feda4f6 100644
--- a/src/modules/histlog/histlog.c
+++ b/src/modules/histlog/histlog.c
@@ -102,6 +102,9 @@ void _event_callback(dax_state *ds, void *udata) {
             dax_log(DAX_LOG_ERROR, "Unable to read tag: %s", tag->name);
             return;
         }
+    } else if(tag->h.type == DAX_BOOL) {
+        /* The bit is where it is in the tag but we want it to be the first one */
+        buff[0] = (buff[0] >> tag->h.bit) & 0x01;
     }
     /* Check if we are old */
     if(tag->timeout > 0.0 && (now - tag->lasttimestamp) > tag->timeout) {
-- 
2.43.0


From 53cb16b28c4694ca0fcbdca03cd16a11ddad4b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:48 +0000
Subject: [PATCH 61/88] fix: histlog: the first value of a tag with a timeout
 always caused a NULL before the start of the log

---
 src/modules/histlog/histlog.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/histlog/histlog.c b/src/modules/histlog/histlog.c
index feda4f6..8565d5a 100644
--- a/src/modules/histlog/histlog.c
+++ b/src/modules/histlog/histlog.c
@@ -191,7 +191,9 @@ _add_tags(void) {
                     write_data(this->tag, NULL, hist_gettime());
                     /* Read the current tag data and write it to the plugin */
                     result = dax_read_tag(ds, this->h, buff);
-                    if(result == 0) write_data(this->tag, buff, hist_gettime());
+                    /* The timeout starts now */
+                    this->lasttimestamp = hist_gettime();
+                    if(result == 0) write_data(this->tag, buff, this->lasttimestamp);
                     else dax_log(DAX_LOG_ERROR, "Unable to read tag %s", this->name);
                     if(this->trigger == ON_CHANGE) {
                         /* Allocate the memory that we use to figure out and stored changed data */
-- 
2.43.0


From 38c6fc870920835c3dffe65fec8cdf0948b5580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:49 +0000
Subject: [PATCH 62/88] fix: histlog: the time was not passed to the plugins,
 purging used an arbitrary one

---
 src/modules/histlog/histlog.c | 4 ++--
 src/modules/histlog/histlog.h | 2 +-
 src/modules/histlog/plugin.c  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/modules/histlog/histlog.c b/src/modules/histlog/histlog.c
index 8565d5a..5c7c383 100644
--- a/src/modules/histlog/histlog.c
+++ b/src/modules/histlog/histlog.c
@@ -288,7 +288,7 @@ main(int argc,char *argv[]) {
                 interval += 1;
                 if(interval > 12) interval=12;
             }
-            flush_data();
+            flush_data(time_now);
             //lasttime = ts.tv_sec;
             lasttime = time_now;
             loopcount++;
@@ -325,7 +325,7 @@ getout(int exitstatus) {
         write_data(this->tag, NULL, time_now);
         this = this->next;
     }
-    flush_data();
+    flush_data(time_now);
     dax_disconnect(ds);
     exit(exitstatus);
 }
diff --git a/src/modules/histlog/histlog.h b/src/modules/histlog/histlog.h
index 72e772d..1c127f1 100644
--- a/src/modules/histlog/histlog.h
+++ b/src/modules/histlog/histlog.h
@@ -63,6 +63,6 @@ int plugin_load(char *file);
 extern tag_object *(*add_tag)(const char *tagname, uint32_t type, const char *attributes);
 extern int (*free_tag)(tag_object *tag);
 extern int (*write_data)(tag_object *tag, void *value, double timestamp);
-extern int (*flush_data)(void);
+extern int (*flush_data)(double time);
 
 #endif
diff --git a/src/modules/histlog/plugin.c b/src/modules/histlog/plugin.c
index 94c3a5e..3ac85a4 100644
--- a/src/modules/histlog/plugin.c
+++ b/src/modules/histlog/plugin.c
@@ -32,7 +32,7 @@ static int (*_init)(dax_state *ds);
 tag_object *(*add_tag)(const char *tagname, uint32_t type, const char *attributes);
 int (*free_tag)(tag_object *tag);
 int (*write_data)(tag_object *tag, void *value, double timestamp);
-int (*flush_data)(void);
+int (*flush_data)(double time);
 void (*set_timefunc)(double (*f)(void));
 
 /* Loads the dynamic library that represents the plugin, sets all of the
-- 
2.43.0


From cd21777c67bd4838c70b10530f154b1afd2cb69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:49 +0000
Subject: [PATCH 63/88] fix: histlog: missing tags, plugins, files and
 parameters crashed the module

---
 src/modules/histlog/histlog.c                   | 12 +++++++++---
 src/modules/histlog/histopts.c                  | 10 +++++++---
 src/modules/histlog/plugin.c                    |  4 ++++
 src/modules/histlog/plugins/file/dhl_file.c     | 17 ++++++++++++-----
 src/modules/histlog/plugins/sqlite/dhl_sqlite.c |  2 +-
 5 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/modules/histlog/histlog.c b/src/modules/histlog/histlog.c
index 5c7c383..84571d6 100644
--- a/src/modules/histlog/histlog.c
+++ b/src/modules/histlog/histlog.c
@@ -187,6 +187,11 @@ _add_tags(void) {
                     dax_log(DAX_LOG_ERROR, "Tag custom datatypes are not supported - %s", this->name);
                 } else {
                     this->tag = add_tag(this->name, this->h.type, this->attributes);
+                    if(this->tag == NULL) {
+                        dax_log(DAX_LOG_ERROR, "Unable to add tag %s to the log", this->name);
+                        this = this->next;
+                        continue;
+                    }
                     /* Write a NULL to signify that we were down */
                     write_data(this->tag, NULL, hist_gettime());
                     /* Read the current tag data and write it to the plugin */
@@ -264,8 +269,8 @@ main(int argc,char *argv[]) {
 
     result = plugin_load(dax_get_attr(ds, "plugin"));
     if(result) {
-        dax_log(DAX_LOG_ERROR, "Unable to load a plugin");
-        kill(getpid(), SIGQUIT);
+        dax_log(DAX_LOG_FATAL, "Unable to load a plugin");
+        exit(result);
     }
     _flush_interval = atof(dax_get_attr(ds, "flush_interval"));
     DF("flush interval set to %f", _flush_interval);
@@ -322,7 +327,8 @@ getout(int exitstatus) {
     time_now = hist_gettime();
     this = tag_list;
     while(this != NULL) {
-        write_data(this->tag, NULL, time_now);
+        /* We may not have found this one */
+        if(this->tag != NULL) write_data(this->tag, NULL, time_now);
         this = this->next;
     }
     flush_data(time_now);
diff --git a/src/modules/histlog/histopts.c b/src/modules/histlog/histopts.c
index 17d74b3..89dc989 100644
--- a/src/modules/histlog/histopts.c
+++ b/src/modules/histlog/histopts.c
@@ -30,6 +30,7 @@ tag_config *tag_list = NULL;
 static int
 _add_tag(lua_State *L) {
     int arg_count;
+    const char *name, *attributes;
     tag_config *tag;
 
     arg_count = lua_gettop(L);
@@ -38,17 +39,20 @@ _add_tag(lua_State *L) {
         return 0;
     }
 
+    name = luaL_checkstring(L, 1);
+    attributes = luaL_checkstring(L, 5);
     tag = malloc(sizeof(tag_config));
     if(tag == NULL) {
         luaL_error(L, "Unable to allocate tag configuration object");
         return 0;
     }
-    tag->name = strdup(lua_tolstring(L, 1, NULL));
+    tag->name = strdup(name);
     tag->status = 0;
+    tag->tag = NULL;
     tag->trigger = lua_tointeger(L, 2);
     tag->trigger_value = lua_tonumber(L, 3);
     tag->timeout = lua_tonumber(L, 4);
-    tag->attributes = strdup(lua_tolstring(L, 5, NULL));
+    tag->attributes = strdup(attributes);
     tag->cmpvalue = NULL;
     tag->lastvalue = NULL;
     tag->lasttimestamp = 0.0;
@@ -69,7 +73,7 @@ histlog_configure(int argc,char *argv[]) {
 
     flags = CFG_CMDLINE | CFG_MODCONF | CFG_ARG_REQUIRED;
     result += dax_add_attribute(ds, "plugin","plugin", 'p', flags, NULL);
-    result += dax_add_attribute(ds, "flush_interval","flush", 'f', flags, NULL);
+    result += dax_add_attribute(ds, "flush_interval","flush", 'f', flags, "10");
     L = dax_get_luastate(ds);
 
     /* Add globals to the Lua Configuration State. */
diff --git a/src/modules/histlog/plugin.c b/src/modules/histlog/plugin.c
index 3ac85a4..0b3d8f0 100644
--- a/src/modules/histlog/plugin.c
+++ b/src/modules/histlog/plugin.c
@@ -55,6 +55,10 @@ plugin_load(char *file) {
     *(void **)(&write_data) = dlsym(plugin, "write_data");
     *(void **)(&flush_data) = dlsym(plugin, "flush_data");
     *(void **)(&set_timefunc) = dlsym(plugin, "set_timefunc");
+    if(_init == NULL || add_tag == NULL || write_data == NULL || flush_data == NULL || set_timefunc == NULL) {
+        dax_log(DAX_LOG_ERROR, "%s is not a plugin", file);
+        return ERR_GENERIC;
+    }
     set_timefunc(hist_gettime);
     return _init(ds);
 }
diff --git a/src/modules/histlog/plugins/file/dhl_file.c b/src/modules/histlog/plugins/file/dhl_file.c
index 8b5b24d..0cda6a1 100644
--- a/src/modules/histlog/plugins/file/dhl_file.c
+++ b/src/modules/histlog/plugins/file/dhl_file.c
@@ -39,12 +39,21 @@ _rotate_callback(dax_state *_ds, void *udata) {
     rotate_flag = 1;
 }
 
-static void
+static int
 _open_file(void) {
     char filename[256]; /* Should probably allocate this */
+    FILE *new;
 
     snprintf(filename, 256, "%s/dax_%f.log", log_directory, _gettime());
-    log_file = fopen(filename, "a");
+    new = fopen(filename, "a");
+    if(new == NULL) {
+        dax_log(DAX_LOG_ERROR, "Unable to open %s: %s", filename, strerror(errno));
+        return ERR_GENERIC;
+    }
+    /* If this fails we stay with the file that we have */
+    if(log_file != NULL) fclose(log_file);
+    log_file = new;
+    return 0;
 }
 
 int
@@ -85,8 +94,7 @@ init(dax_state *_ds) {
     } else {
         dax_log(DAX_LOG_ERROR, "%s", strerror(errno));
     }
-    _open_file();
-    return 0;
+    return _open_file();
 }
 
 
@@ -147,7 +155,6 @@ flush_data(double time) {
     if(rotate_flag) {
         dax_sint val = 0;
         DF("rotate");
-        fclose(log_file);
         _open_file();
         dax_write_tag(ds, rotate_handle, &val); /* reset the command */
         rotate_flag = 0;
diff --git a/src/modules/histlog/plugins/sqlite/dhl_sqlite.c b/src/modules/histlog/plugins/sqlite/dhl_sqlite.c
index ab9481a..22eaa25 100644
--- a/src/modules/histlog/plugins/sqlite/dhl_sqlite.c
+++ b/src/modules/histlog/plugins/sqlite/dhl_sqlite.c
@@ -121,7 +121,7 @@ init(dax_state *_ds) {
     dax_log(DAX_LOG_DEBUG, "Purge interval set to %f", purge_interval);
     lua_pop(L, 1);
 
-    _open_file();
+    if(_open_file() != SQLITE_OK) return ERR_GENERIC;
     _build_database(log_db);
     return 0;
 }
-- 
2.43.0


From 875c15e416259c1558126f42df977e0ff7e4113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:49 +0000
Subject: [PATCH 64/88] fix: histlog: the sqlite plugin could not store TIME
 and CHAR values

---
 src/modules/histlog/plugins/sqlite/dhl_sqlite.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/modules/histlog/plugins/sqlite/dhl_sqlite.c b/src/modules/histlog/plugins/sqlite/dhl_sqlite.c
index 22eaa25..19e60d4 100644
--- a/src/modules/histlog/plugins/sqlite/dhl_sqlite.c
+++ b/src/modules/histlog/plugins/sqlite/dhl_sqlite.c
@@ -178,15 +178,18 @@ write_data(tag_object *tag, void *value, double timestamp) {
     char val_string[128];
     char *errorMsg = NULL;
     int result;
-    char sql[256];
+    char *sql;
 
     if(value == NULL) {
-        snprintf(sql, 256, "INSERT INTO Data ('tagid', 'timestamp') VALUES (%d, %f);", tag->tag_index, timestamp);
+        sql = sqlite3_mprintf("INSERT INTO Data ('tagid', 'timestamp') VALUES (%u, %f);", tag->tag_index, timestamp);
     } else {
         dax_val_to_string(val_string, 128, tag->type, value, 0);
-        snprintf(sql, 256, "INSERT INTO Data ('tagid', 'timestamp', 'data') VALUES (%d, %f, %s);", tag->tag_index, timestamp, val_string);
+        /* The quotes are for the characters and times.  The numbers are still stored as numbers */
+        sql = sqlite3_mprintf("INSERT INTO Data ('tagid', 'timestamp', 'data') VALUES (%u, %f, '%q');", tag->tag_index, timestamp, val_string);
     }
-    result = sqlite3_exec(log_db, sql, _add_tag_callback, &tag->tag_index, &errorMsg);
+    if(sql == NULL) return ERR_ALLOC;
+    result = sqlite3_exec(log_db, sql, NULL, 0, &errorMsg);
+    sqlite3_free(sql);
     if( result != SQLITE_OK ){
         dax_log(DAX_LOG_ERROR, "Adding Data: %s - %d", errorMsg, result);
         sqlite3_free(errorMsg);
-- 
2.43.0


From cbe5a17fc23fae8c2b559e20c43323c7ca9a32d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:23 +0000
Subject: [PATCH 65/88] fix: master: argument lists of processes without
 arguments were not terminated, printing the processes read beyond their
 arguments

---
 src/master/mstr_config.c | 5 ++++-
 src/master/process.c     | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/master/mstr_config.c b/src/master/mstr_config.c
index e135581..52a07d5 100644
--- a/src/master/mstr_config.c
+++ b/src/master/mstr_config.c
@@ -212,7 +212,10 @@ _add_process(lua_State *L)
     lua_pop(L, 1);
 
     lua_getfield(L, -1, "env");
-    proc->env = (char *)lua_tostring(L, -1);
+    proc->env = NULL;
+    if(lua_isstring(L, -1)) {
+        proc->env = strdup(lua_tostring(L, -1));
+    }
     lua_pop(L, 1);
 
     lua_getfield(L, -1, "delay");
diff --git a/src/master/process.c b/src/master/process.c
index 0ee7746..7cd3ada 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -105,10 +105,9 @@ _arglist_tok(char *path, char *str)
             arr[index++] = strdup(token); /* TODO: ERROR CHECK THIS */
             token = strtok_r(NULL, " ", &save);
         }
-        arr[index] = NULL;
-
         free(temp);
     }
+    arr[index] = NULL;
     return arr;
 }
 
@@ -519,12 +518,13 @@ _print_process_list(void)
     dax_process *this;
     this = _process_list;
     char **args;
-    int n = 0;
+    int n;
 
     while(this != NULL) {
         printf("Process %s\n", this->name);
         printf("  path    = %s\n", this->path);
         args = this->arglist;
+        n = 0;
         while(args[n] != NULL) {
             printf("  arg[%d]    = %s\n", n, args[n]);
             n++;
-- 
2.43.0


From 1fbd3899c2068fea5483865b9646361e5c7ca23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:23 +0000
Subject: [PATCH 66/88] fix: master: a user or group that is not a string
 crashed it, -T was not known

---
 src/master/mstr_config.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/master/mstr_config.c b/src/master/mstr_config.c
index 52a07d5..6e9d295 100644
--- a/src/master/mstr_config.c
+++ b/src/master/mstr_config.c
@@ -48,7 +48,7 @@ setdefaults(void)
 static void
 parsecommandline(int argc, const char *argv[])
 {
-    char c;
+    int c;
 
     static struct option options[] = {
         {"config", required_argument, 0, 'C'},
@@ -61,7 +61,7 @@ parsecommandline(int argc, const char *argv[])
     };
 
 /* Get the command line arguments */
-    while ((c = getopt_long (argc, (char * const *)argv, "C:p:VvD",options, NULL)) != -1) {
+    while ((c = getopt_long (argc, (char * const *)argv, "C:T:p:VvD",options, NULL)) != -1) {
         switch (c) {
         case 'C':
             _configfile = strdup(optarg);
@@ -180,7 +180,7 @@ _add_process(lua_State *L)
     /* for some reason not doing this strdup() would cause the username
      * 'opendax' to be read as 'openda'???*/
     lua_getfield(L, -1, "user");
-    if(! lua_isnil(L, -1)) {
+    if(lua_isstring(L, -1)) {
         proc->user = strdup((char *)lua_tostring(L, -1));
     } else {
         proc->user = "opendax";
@@ -188,7 +188,7 @@ _add_process(lua_State *L)
     lua_pop(L, 1);
 
     lua_getfield(L, -1, "group");
-    if(! lua_isnil(L, -1)) {
+    if(lua_isstring(L, -1)) {
         proc->group = strdup((char *)lua_tostring(L, -1));
     } else {
         proc->group = "opendax";
-- 
2.43.0


From 31fd73d0adcdbdda8d9e779b969d9c227f654d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:23 +0000
Subject: [PATCH 67/88] fix: master: more than ten processes that died at once
 overran an array and were never started again, the logger was called in
 signal handlers

---
 src/master/master.c  | 16 ++++------------
 src/master/process.c | 35 ++++++-----------------------------
 src/master/process.h |  6 ------
 3 files changed, 10 insertions(+), 47 deletions(-)

diff --git a/src/master/master.c b/src/master/master.c
index 0c418ac..fbbce2a 100644
--- a/src/master/master.c
+++ b/src/master/master.c
@@ -111,22 +111,14 @@ quit_signal(int sig)
 void
 catch_signal(int sig)
 {
-    // TODO: No printfs in signal handlers
-    dax_log(DAX_LOG_MINOR, "Master received signal %d", sig);
+    /* Nothing that is not async signal safe may be called here, not
+     * even the logger */
 }
 
 
-/* Clean up any child modules that have shut down */
+/* The dead children are collected by process_scan().  This only has to
+ * interrupt the sleep in the main loop */
 void
 child_signal(int sig)
 {
-    int status;
-    pid_t pid;
-
-    do {
-        pid = waitpid(-1, &status, WNOHANG);
-        if(pid > 0) {
-            process_dpq_add(pid, status);
-        }
-    } while(pid > 0);
 }
diff --git a/src/master/process.c b/src/master/process.c
index 7cd3ada..6b54e1d 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -23,16 +23,10 @@
 #include <common.h>
 #include <opendax.h>
 #include <sys/time.h>
+#include <sys/wait.h>
 #include <unistd.h>
 #include <signal.h>
 
-/* This array is the dead process list.
-   TODO: This should be improved to allow it to grow when needed.
-*/
-#ifndef DPQ_SIZE
-  #define DPQ_SIZE 10
-#endif
-static dead_process _dpq[DPQ_SIZE];
 static dax_process *_process_list = NULL;
 
 #ifdef HAVE_PROCDIR
@@ -421,18 +415,16 @@ _process_restart(dax_process *proc)
 int
 process_scan(void)
 {
-    int n, restart, interval;
+    int restart, interval, status;
+    pid_t pid;
     long runtime;
     dax_process *this;
     struct timeval now;
     static unsigned int count;
 
-    /* Check the dead module queue for pid's that need cleaning */
-    for(n = 0; n < DPQ_SIZE; n++) {
-        if(_dpq[n].pid != 0) {
-            _cleanup_process(_dpq[n].pid, _dpq[n].status);
-            _dpq[n].pid = 0;
-        }
+    /* Collect all of the processes that have died */
+    while((pid = waitpid(-1, &status, WNOHANG)) > 0) {
+        _cleanup_process(pid, status);
     }
 
     this = _process_list;
@@ -497,21 +489,6 @@ process_stop(dax_process *proc)
     return 0;
 }
 
-/* Adds the dead module to the first blank spot in the list.  If the list
-   is overflowed then it'll just overwrite the last one.
-   TODO: If more than DMQ_SIZE modules dies all at once this will cause
-         problems.  Should be fixed. */
-void
-process_dpq_add(pid_t pid, int status)
-{
-    int n = 0;
-    while(_dpq[n].pid != 0 && n < DPQ_SIZE) {
-        n++;
-    }
-    _dpq[n].pid = pid;
-    _dpq[n].status = status;
-}
-
 void
 _print_process_list(void)
 {
diff --git a/src/master/process.h b/src/master/process.h
index 7bb1f4e..c8cb09b 100644
--- a/src/master/process.h
+++ b/src/master/process.h
@@ -77,16 +77,10 @@ typedef struct dax_process {
     struct dax_process *next;
 } dax_process;
 
-typedef struct {
-    pid_t pid;
-    int status;
-} dead_process;
-
 void process_init(void);
 void process_start_all(void);
 pid_t process_start(dax_process *);
 int process_scan(void);
-void process_dpq_add(pid_t, int);
 dax_process *process_add(char *name, char *path, char *arglist, unsigned int flags);
 void _print_process_list(void);
 
-- 
2.43.0


From b0bf0c998af5dc6e226b5777648a50b482ab871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 68/88] fix: master: a process that could not be forked at the
 start was never tried again

---
 src/master/process.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/master/process.c b/src/master/process.c
index 6b54e1d..a6287e9 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -116,6 +116,9 @@ process_add(char *name, char *path, char *arglist, unsigned int flags)
         new->fd = 0;
         new->efd = 0;
         new->pid = 0;
+        new->exit_status = 0;
+        new->state = PSTATE_DEAD;
+        new->flags = flags;
 
         /* Add the module path to the struct */
         if(path) {
@@ -284,6 +287,10 @@ process_start(dax_process *proc)
             }
         } else { /* Error on the fork */
             dax_log(DAX_LOG_ERROR, "process_start fork failed - %s - %s", proc->path, strerror(errno));
+            /* So that it will be tried again if it's supposed to be restarted */
+            proc->state = PSTATE_DEAD;
+            gettimeofday(&proc->deadtime, NULL);
+            if(proc->starttime.tv_sec == 0) proc->starttime = proc->deadtime;
         }
     } else {
         return 0;
-- 
2.43.0


From d454fd69be5691118b84469d4842253d273dbbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 69/88] fix: master: the group of a process could not be set
 after its user was, and it kept the groups of the master

---
 src/master/process.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/master/process.c b/src/master/process.c
index a6287e9..9bf7eb0 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -243,11 +243,11 @@ _set_user_group(dax_process *proc)
     uid = geteuid();
     gid = getegid();
 
-    if(proc->uid >= 0 && proc->uid != uid) {
-        dax_log(DAX_LOG_MINOR, "Changing user id to %d process %s", proc->uid, proc->name);
-        result = setuid(proc->uid);
-        if(result) {
-            dax_log(DAX_LOG_ERROR, "Unable to set uid %d - %s", proc->uid, strerror(errno));
+    /* The groups have to be set first because we may not be allowed to do
+     * so anymore once we have given up our user id */
+    if(uid == 0 && ((proc->uid > 0) || (proc->gid > 0))) {
+        if(setgroups(0, NULL)) {
+            dax_log(DAX_LOG_ERROR, "Unable to drop supplementary groups - %s", strerror(errno));
         }
     }
     if(proc->gid >= 0 && proc->gid != gid) {
@@ -257,6 +257,13 @@ _set_user_group(dax_process *proc)
             dax_log(DAX_LOG_ERROR, "Unable to set gid %d - %s", proc->gid, strerror(errno));
         }
     }
+    if(proc->uid >= 0 && proc->uid != uid) {
+        dax_log(DAX_LOG_MINOR, "Changing user id to %d process %s", proc->uid, proc->name);
+        result = setuid(proc->uid);
+        if(result) {
+            dax_log(DAX_LOG_ERROR, "Unable to set uid %d - %s", proc->uid, strerror(errno));
+        }
+    }
 }
 
 /* This function is used to start a module */
-- 
2.43.0


From e705638eb2ccc278c83456b43a1cfc2ec33c92f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 70/88] fix: master: the use of resources of programs with a
 blank in their name could not be read and each attempt left a file open

---
 src/master/process.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/master/process.c b/src/master/process.c
index 9bf7eb0..5e649ea 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -355,8 +355,8 @@ _process_get_cpu_stat(dax_process *proc)
 {
     FILE *f;
     char filename[128];
-    char line[1024];
-    int pid, result;
+    char line[1024], *s;
+    int result;
     unsigned long utime, stime, ptime, etime, times[4];
     long rss;
 
@@ -366,10 +366,14 @@ _process_get_cpu_stat(dax_process *proc)
         dax_log(DAX_LOG_ERROR, "Unable to open file %s", filename);
         return errno;
     }
-    result = fscanf(f, "%d %*s %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %*d %*d %*d %*d %*d %*d %*u %*u %ld", &pid, &utime, &stime, &rss);
-    if(result < 4) return -1;
-    ptime = utime + stime;
+    s = fgets(line, 1024, f);
     fclose(f);
+    /* The name of the program is in parenthesis and may contain anything */
+    if(s != NULL) s = strrchr(line, ')');
+    if(s == NULL) return -1;
+    result = sscanf(s + 1, " %*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu %*d %*d %*d %*d %*d %*d %*u %*u %ld", &utime, &stime, &rss);
+    if(result < 3) return -1;
+    ptime = utime + stime;
     /* Now read and parse the cpu stat file */
     f = fopen("/proc/stat", "r");
     if(f == NULL) {
-- 
2.43.0


From 16d8fb3f19d9ddc6512f17ddbc51ddba0cd8f624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 71/88] fix: master: a process that had ended over its memory
 limit made the master signal its whole process group

---
 src/master/process.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/master/process.c b/src/master/process.c
index 5e649ea..d352501 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -336,6 +336,8 @@ _cleanup_process(pid_t pid, int status)
         proc->pid = 0;
         proc->last_etime = 0;
         proc->last_ptime = 0;
+        proc->pcpu = 0.0;
+        proc->rss = 0;
         proc->exit_status = status;
         proc->state = PSTATE_DEAD;
         gettimeofday(&proc->deadtime, NULL);
@@ -466,7 +468,7 @@ process_scan(void)
             /* approximately every minute we'll get cpu stats and deal with
              * the processes that misbehave.  We add the pid so that we don't
              * do every process in the same scan */
-            if((count + this->pid) % 64 == 0) {
+            if(this->pid > 0 && (count + this->pid) % 64 == 0) {
                 /* If we come back around and have been condemned then we
                  * need to kill it the hard way.*/
                 if(this->state == PSTATE_CONDEMNED) {
-- 
2.43.0


From 153dee62cc8cef3a0f993ddd9047aa2219bf0539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 72/88] fix: master: the CPU threshold is a fraction but was
 taken as percent

---
 src/master/process.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/master/process.c b/src/master/process.c
index d352501..c3d74fc 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -476,7 +476,7 @@ process_scan(void)
                     kill(this->pid, SIGKILL);
                 }
                 _process_get_cpu_stat(this);
-                if(this->cpu > 0.0 && this->pcpu > this->cpu) {
+                if(this->cpu > 0.0 && this->pcpu > this->cpu * 100.0) {
                     dax_log(DAX_LOG_MODULE, "Process %s [%d] has exceeded CPU usage of %f",
                             this->name, this->pid, this->cpu);
                     this->state = PSTATE_CONDEMNED;
-- 
2.43.0


From 268efb77e6e484894e0c6e8e925bbb2a66def300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:13 +0000
Subject: [PATCH 73/88] fix: master: the result of nanosleep() was judged by an
 old errno

---
 src/master/process.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/master/process.c b/src/master/process.c
index c3d74fc..f0cfcc7 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -224,9 +224,10 @@ process_start_all(void)
             while(result) {
                 timeout = rem;
                 result = nanosleep(&timeout, &rem);
-                if(errno == EFAULT)
+                if(result && errno != EINTR) {
                     dax_log(DAX_LOG_FATAL, "Serious problem with nanosleep in function process_start_all()");
-                assert(errno != EINVAL);
+                    break;
+                }
             }
         }
         this = this->next;
-- 
2.43.0


From 790dd2930386c989d5392512ff48e19a291a79a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:30 +0000
Subject: [PATCH 74/88] fix: master: a process that had just been forked missed
 the signal to quit and was left running

---
 src/master/process.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/master/process.c b/src/master/process.c
index f0cfcc7..40e8d21 100644
--- a/src/master/process.c
+++ b/src/master/process.c
@@ -271,12 +271,25 @@ _set_user_group(dax_process *proc)
 pid_t
 process_start(dax_process *proc)
 {
+    static const int handled[] = {SIGQUIT, SIGINT, SIGTERM, SIGHUP, SIGPIPE, SIGCHLD};
+    sigset_t all, old;
+    unsigned int n;
     pid_t child_pid;
     int result = 0;
 
     if(proc) { /* We are the parent */
         if(result) dax_log(DAX_LOG_ERROR,"Unable to properly set up pipes for %s\n", proc->name);
+        /* The signals are blocked because the child would run our handlers
+         * and forget about the signal until it calls exec */
+        sigfillset(&all);
+        sigprocmask(SIG_BLOCK, &all, &old);
         child_pid = fork();
+        if(child_pid == 0) {
+            for(n = 0; n < sizeof(handled) / sizeof(handled[0]); n++) {
+                signal(handled[n], SIG_DFL);
+            }
+        }
+        sigprocmask(SIG_SETMASK, &old, NULL);
         if(child_pid > 0) { /* This is the parent */
             proc->pid = child_pid;
             proc->exit_status = 0;
-- 
2.43.0


From adbb27f97c011ee8f7a4e329229ab5a4c1568c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:56 +0000
Subject: [PATCH 75/88] fix: daxc: the array of the arguments of a command was
 too small, repeated spaces gave empty arguments

---
 src/modules/daxc/daxc.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/modules/daxc/daxc.c b/src/modules/daxc/daxc.c
index 09608e1..03f1c8c 100644
--- a/src/modules/daxc/daxc.c
+++ b/src/modules/daxc/daxc.c
@@ -48,13 +48,12 @@ _str_daxtok(char *input) {
 
     if(input != NULL) {
         token = input;
-        start = input;
-        lastchar = '\0';
-    } else {
-        start = token;
-        if(*token =='\0') {
-            start = NULL;
-        }
+    }
+    while(*token == ' ') token++; /* Any number of spaces separates the tokens */
+    start = token;
+    lastchar = '\0';
+    if(*token == '\0') {
+        start = NULL;
     }
     while(*token != '\0') {
         if(inQuote) {
@@ -289,10 +288,14 @@ runcmd(char *instr)
             tcount++;
         }
     }
+    if(tcount == 0) { /* Nothing but spaces */
+        free(temp);
+        return 0;
+    }
 
     /* Now that we know how many tokens we can allocate the array
      * We get one more than needed so that we can add the NULL */
-    tokens = malloc(sizeof(char *) * tcount+1);
+    tokens = malloc(sizeof(char *) * (tcount+1));
 
     if(tokens == NULL) {
         fprintf(stderr, "ERROR: Unable to allocate memory\n");
@@ -376,6 +379,7 @@ runcmd(char *instr)
     }
 
     free(tokens);
+    free(temp);
     return result;
 }
 
-- 
2.43.0


From 48e82c7baac924399d40e9e4aae5d60c2596d2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 76/88] fix: daxc: the last command of a file was executed
 twice, lines longer than 255 bytes were cut in two, an empty file crashed

---
 src/modules/daxc/daxc.c | 11 ++++++-----
 src/modules/daxc/daxc.h |  1 -
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/modules/daxc/daxc.c b/src/modules/daxc/daxc.c
index 03f1c8c..34c5cbd 100644
--- a/src/modules/daxc/daxc.c
+++ b/src/modules/daxc/daxc.c
@@ -386,21 +386,22 @@ runcmd(char *instr)
 int
 runfile(char *filename)
 {
-    char string[LINE_BUFF_SIZE];
+    char *string = NULL;
+    size_t size = 0;
     FILE *file;
-    int len;
+    ssize_t len;
 
     file = fopen(filename, "r");
     if(file == NULL) {
         fprintf(stderr, "ERROR: Unable to open file - %s\n", filename);
         return -1;
     }
-    while(!feof(file)) {
-        fgets(string, LINE_BUFF_SIZE, file);
-        len = strlen(string);
+    while((len = getline(&string, &size, file)) > 0) {
         if(string[len-1] == '\n') string[len-1] = '\0';
         runcmd(string);
     }
+    free(string);
+    fclose(file);
     return 0;
 }
 
diff --git a/src/modules/daxc/daxc.h b/src/modules/daxc/daxc.h
index 114042f..46c3ab4 100644
--- a/src/modules/daxc/daxc.h
+++ b/src/modules/daxc/daxc.h
@@ -30,7 +30,6 @@
 
 /* This is the maximum number of events that we can store. */
 #define MAX_EVENTS 64
-#define LINE_BUFF_SIZE 256
 
 #define DAX_FMT_HEX  0x01
 #define DAX_FMT_BIN  0x02
-- 
2.43.0


From 6fb16e7a1c732ad0b3a066743539eab38dff3cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 77/88] fix: daxc: 'del tag' without a name crashed

---
 src/modules/daxc/daxc_tag.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 6d72844..e0fd79c 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -131,6 +131,10 @@ tag_del(char **tokens)
     dax_tag temp_tag;
     int result;
 
+    if(tokens[0] == NULL) {
+        fprintf(stderr, "ERROR: No tagname given\n");
+        return 1;
+    }
     if(isdigit(tokens[0][0])) {
         result = dax_tag_byindex(ds, &temp_tag, atoi(tokens[0]));
     } else {
@@ -146,6 +150,9 @@ tag_del(char **tokens)
     } else if(result == ERR_DELETED) {
         fprintf(stderr, "ERROR: Tag was already deleted\n");
         return 1;
+    } else if(result) {
+        fprintf(stderr, "ERROR: Unable to find tag %s\n", tokens[0]);
+        return 1;
     }
     result = dax_tag_del(ds, temp_tag.idx);
     if(result == ERR_ILLEGAL) {
-- 
2.43.0


From e3ea1564872c090c757859690b95dde8b4ff951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 78/88] fix: daxc: op inc and dec without a value did nothing,
 xnor did xor, a skipped value took the next with it

---
 src/modules/daxc/daxc_tag.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index e0fd79c..5b8ad1b 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -816,7 +816,7 @@ _get_atomic_op_type(char *op) {
     else if(!strncasecmp(op, "nor", 3)) return ATOMIC_OP_NOR;
     else if(!strncasecmp(op, "nand", 4)) return ATOMIC_OP_NAND;
     else if(!strncasecmp(op, "xor", 3)) return ATOMIC_OP_XOR;
-    else if(!strncasecmp(op, "xnor", 3)) return ATOMIC_OP_XOR;
+    else if(!strncasecmp(op, "xnor", 4)) return ATOMIC_OP_XNOR;
     else  return 0;
 }
 
@@ -868,47 +868,47 @@ atomic_op(char **tokens, int count)
             switch(handle.type) {
                 case DAX_BYTE:
                     *(dax_byte *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_SINT:
                 case DAX_CHAR:
                     *(dax_sint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_UINT:
                 case DAX_WORD:
                     *(dax_uint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_INT:
                     *(dax_int *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_UDINT:
                 case DAX_DWORD:
                 case DAX_TIME:
                     *(dax_udint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_DINT:
                     *(dax_dint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_ULINT:
                 case DAX_LWORD:
                     *(dax_ulint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_LINT:
                     *(dax_lint *)buff = 1;
-                    return 0;
+                    break;
                 case DAX_REAL:
                     *(dax_real *)buff = 1.0;
-                    return 0;
+                    break;
                 case DAX_LREAL:
                     *(dax_lreal *)buff = 1.0;
-                    return 0;
+                    break;
                 default:
-                    fprintf(stderr, "ERROR: Bad type");
+                    fprintf(stderr, "ERROR: Bad type\n");
                     free(buff);
                     free(mask);
                     return -1;
             }
         } else if(operation != ATOMIC_OP_NOT) {
-            fprintf(stderr,"ERROR: Value required for '%s' operation", tokens[1]);
+            fprintf(stderr,"ERROR: Value required for '%s' operation\n", tokens[1]);
             free(buff);
             free(mask);
             return -1;
@@ -919,7 +919,7 @@ atomic_op(char **tokens, int count)
             points = handle.count;
         }
         for(n = 0; n < points; n++) {
-            if(strncmp(tokens[n+1], "~", 1)) {
+            if(strncmp(tokens[n+2], "~", 1)) {
                 dax_string_to_val(tokens[n + 2], handle.type, buff, mask, n);
             }
         }
-- 
2.43.0


From e21366c801e16ade43dbdb4e9f29d808e9bbf503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 79/88] fix: daxc: overrides of tags that do not exist were set
 with an uninitialised handle

---
 src/modules/daxc/daxc_tag.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 5b8ad1b..7c8355a 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -736,6 +736,7 @@ override_set(char **tokens, int count)
     result = dax_tag_handle(ds, &handle, name, 0);
     if(result) {
         fprintf(stderr, "ERROR: Unable to retrieve tag %s code = %d\n", name, result);
+        return ERR_ARG;
     }
 
     result = dax_tag_set_override(ds, handle);
@@ -766,6 +767,7 @@ override_clr(char **tokens, int count)
     result = dax_tag_handle(ds, &handle, name, 0);
     if(result) {
         fprintf(stderr, "ERROR: Unable to retrieve tag %s code = %d\n", name, result);
+        return ERR_ARG;
     }
 
     result = dax_tag_clr_override(ds, handle);
@@ -796,6 +798,7 @@ override_del(char **tokens, int count)
     result = dax_tag_handle(ds, &handle, name, 0);
     if(result) {
         fprintf(stderr, "ERROR: Unable to retrieve tag %s code = %d\n", name, result);
+        return ERR_ARG;
     }
 
     result = dax_tag_del_override(ds, handle);
-- 
2.43.0


From d86acd7ba035f74fb48066113b37521f60867670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 80/88] fix: daxc: a type was created without the members that
 could not be added

---
 src/modules/daxc/daxc_tag.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 7c8355a..ac3a211 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -526,6 +526,8 @@ cdt_add(char **tokens, int tcount)
 
         if(result) {
             fprintf(stderr, "ERROR: Unable to add member %s\n", tokens[n]);
+            dax_cdt_free(type);
+            return result;
         }
     }
 
-- 
2.43.0


From f337ecf22b89c105be0dac97c97ca203dc583f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 81/88] fix: daxc: the place of a deleted event was never free
 again, event 65 could be deleted, half of the value of a TIME event was not
 set

---
 src/modules/daxc/daxc_event.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/modules/daxc/daxc_event.c b/src/modules/daxc/daxc_event.c
index d046b56..6cdf602 100644
--- a/src/modules/daxc/daxc_event.c
+++ b/src/modules/daxc/daxc_event.c
@@ -37,7 +37,7 @@ _event_callback(dax_state *d, void *udata) {
     id = (dax_id *)udata;
 
     for(n = 0; n < MAX_EVENTS; n++) {
-        if(events[n].event.index == id->index && events[n].event.id == id->id) {
+        if(events[n].used && events[n].event.index == id->index && events[n].event.id == id->id) {
             if(!quiet_mode) {
                 printf("Event %d Received\n", n+1);
             } else {
@@ -69,7 +69,6 @@ _convert_data_str(tag_type datatype, dax_type_union *dest, char *str) {
             return;
         case DAX_UDINT:
         case DAX_DWORD:
-        case DAX_TIME:
             dest->dax_udint = (dax_udint)strtoul(str, NULL, 0);
             return;
         case DAX_DINT:
@@ -80,6 +79,7 @@ _convert_data_str(tag_type datatype, dax_type_union *dest, char *str) {
             dest->dax_ulint = (dax_ulint)strtoull(str, NULL, 0);
             return;
         case DAX_LINT:
+        case DAX_TIME:
             dest->dax_lint = (dax_lint)strtoll(str, NULL, 0);
             return;
         case DAX_REAL:
@@ -153,10 +153,11 @@ event_del(char **tokens)
         return -1;
     }
     index = strtol(tokens[0], NULL, 0) - 1;
-    if(index < 0 || index > MAX_EVENTS) {
-        fprintf(stderr, "ERROR: Event %d, is out of range\n", index);
+    if(index < 0 || index >= MAX_EVENTS || !events[index].used) {
+        fprintf(stderr, "ERROR: There is no event %s\n", tokens[0]);
         return -1;
     }
+    events[index].used = 0;
     return dax_event_del(ds, events[index].event);
 }
 
-- 
2.43.0


From c3fee118f8217c8d943d7c8bc77670778fbf2ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:32 +0000
Subject: [PATCH 82/88] fix: daxc: only the first element of arrays in compound
 tags was printed

---
 src/modules/daxc/daxc_tag.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index ac3a211..5fee71c 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -282,7 +282,9 @@ _read_cdt_callback(cdt_iter iter, void *buff)
     if(IS_CUSTOM(iter.type)) {
         indent += 2;
         fprintf(stdout, "\n");
-        _print_compound_tag(iter.type, buff+iter.byte);
+        for(n=0;n<iter.count;n++) {
+            _print_compound_tag(iter.type, buff+iter.byte+dax_get_typesize(ds, iter.type)*n);
+        }
         indent -= 2;
     } else if(iter.type == DAX_CHAR) {
         s = (char *)(buff+iter.byte);
-- 
2.43.0


From 7277148c5833a002ab68ab8b70eac652c5d2a08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:32 +0000
Subject: [PATCH 83/88] fix: daxc: writing values to a compound tag or
 overriding it set it to zero

---
 src/modules/daxc/daxc_tag.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 5fee71c..e47b011 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -456,6 +456,10 @@ tag_write(char **tokens, int tcount) {
             fprintf(stderr, "ERROR: %s Not a Valid Tag\n", tokens[0]);
             return ERR_ARG;
         }
+        if(IS_CUSTOM(handle.type)) {
+            fprintf(stderr, "ERROR: Values can only be written to the members of %s\n", name);
+            return ERR_ARG;
+        }
 
         buff = malloc(handle.size);
         mask = malloc(handle.size);
@@ -680,6 +684,10 @@ override_add(char **tokens, int count)
             fprintf(stderr, "ERROR: %s Not a Valid Tag\n", tokens[0]);
             return ERR_ARG;
         }
+        if(IS_CUSTOM(handle.type)) {
+            fprintf(stderr, "ERROR: Values can only be written to the members of %s\n", name);
+            return ERR_ARG;
+        }
 
         buff = malloc(handle.size);
         mask = malloc(handle.size);
-- 
2.43.0


From 4e3a0201d6f3478e14adc946c4d15478576d5a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 84/88] fix: daxc: unknown types were not recognised, 'list
 type' of one listed all types

---
 src/modules/daxc/daxc_tag.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index e47b011..db600e6 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -80,7 +80,7 @@ tag_add(char **tokens)
 
     if( tokens[1] ) {
         type = dax_string_to_type(ds, tokens[1]);
-        if( type < 0 ) {
+        if( type == 0 ) {
             fprintf(stderr, "ERROR: Invalid Type '%s' Given\n", tokens[1]);
             return 1;
         }
@@ -568,6 +568,10 @@ list_types(char **tokens)
         dax_cdt_iter(ds, 0, NULL, _print_cdt_callback);
     } else {
         type = dax_string_to_type(ds, tokens[0]);
+        if(type == 0) {
+            fprintf(stderr, "ERROR: Invalid Type '%s' Given\n", tokens[0]);
+            return 1;
+        }
         dax_cdt_iter(ds, type, &type, _print_cdt_callback);
     }
     return 0;
-- 
2.43.0


From 5312afcadfd26e7917d296fc5908415e6bd67c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 85/88] fix: daxc: listing the tags page by page left out the
 last one

---
 src/modules/daxc/daxc_tag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index db600e6..45e1260 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -195,7 +195,7 @@ list_tags(char **tokens)
     if(result) return result;
     result = dax_read_tag(ds, h, &lastindex);
     if(result) return result;
-    if(nextindex >= lastindex) nextindex=0;
+    if(nextindex > lastindex) nextindex=0;
 
     if(arg[0]) {
         start = strtol(arg[0], &end_ptr, 0);
-- 
2.43.0


From 22d366093cdd64f75c06478e3729ae744f925059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:01 +0000
Subject: [PATCH 86/88] fix: daxc: strings were written over some compound tags

---
 src/modules/daxc/daxc_tag.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modules/daxc/daxc_tag.c b/src/modules/daxc/daxc_tag.c
index 45e1260..2d1b044 100644
--- a/src/modules/daxc/daxc_tag.c
+++ b/src/modules/daxc/daxc_tag.c
@@ -441,7 +441,7 @@ tag_write(char **tokens, int tcount) {
             }
             return ERR_ARG;
         }
-        if(TYPESIZE(handle.type) != 8) {
+        if(IS_CUSTOM(handle.type) || TYPESIZE(handle.type) != 8) {
             fprintf(stderr, "ERROR: Strings can only be written to 8 bit data types\n");
             return ERR_ARG;
         }
@@ -673,7 +673,7 @@ override_add(char **tokens, int count)
             }
             return ERR_ARG;
         }
-        if(TYPESIZE(handle.type) != 8) {
+        if(IS_CUSTOM(handle.type) || TYPESIZE(handle.type) != 8) {
             fprintf(stderr, "ERROR: Strings can only be written to 8 bit data types\n");
             return ERR_ARG;
         }
-- 
2.43.0


From 6bd9cf077681f363f91ab0a8b20c7b53a06b465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:41 +0000
Subject: [PATCH 87/88] fix: an event that compares with a value was accepted
 without one and compared with what was left in a buffer

---
 src/lib/libmsg.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index 6499393..bd6ada3 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -1206,6 +1206,11 @@ dax_event_add(dax_state *ds, tag_handle *h, int event_type, void *data,
     dax_id eid;
     char buff[MSG_DATA_SIZE];
 
+    /* These compare with a value */
+    if(data == NULL && (event_type == EVENT_EQUAL || event_type == EVENT_GREATER ||
+                        event_type == EVENT_LESS || event_type == EVENT_DEADBAND)) {
+        return ERR_ARG;
+    }
     temp = mtos_dint(h->index);      /* Index */
     memcpy(buff, &temp, 4);
     temp = mtos_dint(h->byte);       /* Byte offset */
-- 
2.43.0


From 33e532398825f98a94080df656618a43b6f5b781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:22 +0000
Subject: [PATCH 88/88] fix: a module's own dax_disconnect() was reported as a
 disconnection by the server, daxc ended with a random status

---
 src/lib/libdax.h  |  1 +
 src/lib/libinit.c |  1 +
 src/lib/libmsg.c  | 10 ++++++----
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lib/libdax.h b/src/lib/libdax.h
index 5aa9676..ebcfc4a 100644
--- a/src/lib/libdax.h
+++ b/src/lib/libdax.h
@@ -108,6 +108,7 @@ struct dax_state {
     int msgtimeout;
     uint32_t id;           /* ID uniquely identifies the server instance */
     int sfd;               /* Server's File Descriptor */
+    volatile int disconnecting; /* Set by dax_disconnect(), the end of the connection is no surprise then */
     unsigned int reformat; /* Flags to show how to reformat the incoming data */
     int logflags;
     tag_cnode *cache_head; /* First node in the cache list */
diff --git a/src/lib/libinit.c b/src/lib/libinit.c
index 516822c..5d649e0 100644
--- a/src/lib/libinit.c
+++ b/src/lib/libinit.c
@@ -53,6 +53,7 @@ dax_init(const char *name)
     ds->msgtimeout = 0;
     ds->id = 0;
     ds->sfd = -1;       /* Server's File Descriptor */
+    ds->disconnecting = 0;
     ds->reformat = 0;  /* Flags to show how to reformat the incoming data */
     ds->logflags = 0;
     /* Tag Cache */
diff --git a/src/lib/libmsg.c b/src/lib/libmsg.c
index bd6ada3..6a4a334 100644
--- a/src/lib/libmsg.c
+++ b/src/lib/libmsg.c
@@ -318,10 +318,10 @@ _read_next_message(dax_state *ds)
 
     result = _message_get(ds->sfd, msg);
     if(result) {
-        if(result == ERR_DISCONNECTED) {
+        if(ds->disconnecting || result == ERR_TIMEOUT) {
+            ; /* Do nothing for timeout, or when we are the ones who disconnect */
+        } else if(result == ERR_DISCONNECTED) {
             dax_log(DAX_LOG_ERROR, "Server disconnected abruptly");
-        } else if(result == ERR_TIMEOUT) {
-            ; /* Do nothing for timeout */
         } else {
             dax_log(DAX_LOG_ERROR, "_message_get() returned error %d", result);
         }
@@ -382,6 +382,7 @@ _connection_thread(void *arg)
 
     /* This is the connection that we used for all the functional
      * request / response messages. */
+    ds->disconnecting = 0;
     ds->sfd = _get_connection(ds);
     if(ds->sfd >= 0) {
         result = _mod_register(ds, ds->modulename);
@@ -400,7 +401,7 @@ _connection_thread(void *arg)
         while(ds->sfd >= 0) { /* Main connection loop */
             result = _read_next_message(ds);
             if(result == ERR_DISCONNECTED) {
-                if(ds->disconnect_callback) {
+                if(ds->disconnect_callback && !ds->disconnecting) {
                     ds->disconnect_callback(result);
                 }
                 break;
@@ -462,6 +463,7 @@ dax_disconnect(dax_state *ds)
     pthread_mutex_lock(&ds->lock);
     /* Tells the connection thread to exit */
     if(ds->sfd >= 0) {
+        ds->disconnecting = 1;
         result = _message_send(ds, MSG_MOD_REG, NULL, 0);
         if(! result ) {
             len = 0;
-- 
2.43.0

