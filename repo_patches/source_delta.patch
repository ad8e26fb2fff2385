From c4a34dee9ef01fbbb5bcfe1124c46329e22d9b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 01/49] fix: FLUSH removes the files of the namespace and keeps
 its mode

---
 libzdb/filesystem.c | 20 +++++++++++++++-----
 libzdb/namespace.c  |  9 +++++++++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/libzdb/filesystem.c b/libzdb/filesystem.c
index 7190c62..2af2618 100644
--- a/libzdb/filesystem.c
+++ b/libzdb/filesystem.c
@@ -70,19 +70,29 @@ int zdb_dir_remove(char *path) {
     return nftw(path, dir_remove_cb, 64, FTW_DEPTH | FTW_PHYS);
 }
 
+// payload files are named with a single letter prefix (d for data, i for
+// index) followed by the file id, like d0, i0, d12, i12, ...
+static int file_is_payload(const char *filename, char prefix) {
+    if(filename[0] != prefix || filename[1] == '\0')
+        return 0;
+
+    return strspn(filename + 1, "0123456789") == strlen(filename + 1);
+}
+
 static int dir_clean_cb(const char *fpath, const struct stat *sb, int tflag, struct FTW *ftwbuf) {
     (void) sb;
-    (void) ftwbuf;
-    (void) tflag;
     char *fullpath = (char *) fpath;
-    size_t length = strlen(fullpath);
+    const char *filename = fpath + ftwbuf->base;
+
+    if(tflag != FTW_F && tflag != FTW_SL)
+        return 0;
 
-    if(strncmp(fullpath + length - 14, "zdb-data-", 9) == 0) {
+    if(file_is_payload(filename, 'd')) {
         zdb_debug("[+] filesystem: removing datafile: %s\n", fullpath);
         unlink(fullpath);
     }
 
-    if(strncmp(fullpath + length - 15, "zdb-index-", 10) == 0) {
+    if(file_is_payload(filename, 'i')) {
         zdb_debug("[+] filesystem: removing indexfile: %s\n", fullpath);
         unlink(fullpath);
     }
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 23a2409..ed5c960 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -634,6 +634,7 @@ int namespace_flush(namespace_t *namespace) {
 
     char *indexpath = strdup(namespace->index->indexdir);
     char *datapath = strdup(namespace->data->datadir);
+    index_mode_t mode = namespace->index->mode;
 
     zdb_debug("[+] namespace: flushing: destroying objects\n");
     index_destroy(namespace->index);
@@ -646,6 +647,14 @@ int namespace_flush(namespace_t *namespace) {
     zdb_debug("[+] namespace: flushing: reloading data\n");
     namespace_load_lazy(nsroot, namespace);
 
+    // fresh index files are created with the default mode,
+    // this namespace keeps the mode it had
+    if(namespace->index->mode != mode) {
+        namespace->index->mode = mode;
+        index_switch_mode(namespace->index);
+        index_rehash(namespace->index);
+    }
+
     free(indexpath);
     free(datapath);
 
-- 
2.43.0


From b83e20d7b81f93b9d7b907fe78ad9f45f0a810d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 02/49] fix: FLUSH honours read-only, lock, freeze and worm

---
 zdbd/commands_namespace.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 0566d62..2d44710 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -647,6 +647,24 @@ int command_flush(redis_client_t *client) {
         return 1;
     }
 
+    if(!client->writable) {
+        zdbd_debug("[-] command: flush: denied, read-only namespace\n");
+        redis_hardsend(client, "-Namespace is in read-only mode");
+        return 1;
+    }
+
+    if(namespace_is_frozen(namespace))
+        return command_error_frozen(client);
+
+    if(namespace_is_locked(namespace))
+        return command_error_locked(client);
+
+    if(namespace->worm) {
+        zdbd_debug("[-] command: flush: denied, worm mode enabled\n");
+        redis_hardsend(client, "-Namespace is protected by worm mode");
+        return 1;
+    }
+
     if(namespace_flush(namespace)) {
         redis_hardsend(client, "-Internal Server Error");
         return 1;
-- 
2.43.0


From 8f6069c91d7cfe83c8d0f74c6d975acdc261a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 03/49] fix: sequential lookup refuses ids which were never
 allocated

---
 libzdb/index_get.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libzdb/index_get.c b/libzdb/index_get.c
index 42adfda..353bae8 100644
--- a/libzdb/index_get.c
+++ b/libzdb/index_get.c
@@ -24,6 +24,12 @@ static index_entry_t *index_get_handler_sequential(index_root_t *index, void *id
     memcpy(&key, id, sizeof(seqid_t));
     // key = be64toh(key);
 
+    // this id was never allocated
+    if(key >= index->nextentry) {
+        zdb_debug("[-] index: sequential get: id out of range\n");
+        return NULL;
+    }
+
     // resolving key into file id
     index_seqmap_t *seqmap = index_fileid_from_seq(index, key);
 
-- 
2.43.0


From 88a9d6e319d52a8c76c5bb17ce4d703d4ec3450e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 04/49] fix: sequential id map supports index files without
 entries

---
 libzdb/index_loader.c | 23 ++++++++++-------------
 libzdb/index_seq.c    |  7 +++++++
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 2cfd371..7202ec0 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -298,8 +298,16 @@ static size_t index_load_file(index_root_t *root) {
         zdb_diep("index buffer: read");
 
     // positioning seeker to beginin of index entries
-    char *initseeker = filebuf + sizeof(index_header_t);
-    char *seeker = initseeker;
+    char *seeker = filebuf + sizeof(index_header_t);
+
+    // checking if we are in sequential mode, we need to
+    // populate our mapping with the first key of this file, even
+    // if this file is still empty (next key will be added there)
+    //
+    // the set operation will update 'nextentry' counter
+    // we need to update seqid before inserting key
+    if(root->seqid)
+        index_seqid_push(root, root->nextentry, root->indexid);
 
     // reading the index, populating memory
     //
@@ -337,17 +345,6 @@ static size_t index_load_file(index_root_t *root) {
             .parentoff = entry->parentoff,
         };
 
-        // checking if we are in sequential mode
-        // and this if the first key, we need to populate
-        // our mapping with this key
-        //
-        // the set operation will update 'nextentry' counter
-        // we need to update seqid before inserting key
-        if(root->seqid && seeker == initseeker) {
-            index_seqid_push(root, root->nextentry, root->indexid);
-            // index_seqid_dump(root);
-        }
-
         // insert this entry like it was inserted by a user
         // this allows us to keep a generic way of inserting data and keeping a
         // single point of logic when adding data (logic for overwrite, resize bucket, ...)
diff --git a/libzdb/index_seq.c b/libzdb/index_seq.c
index 9226bb0..6f3447d 100644
--- a/libzdb/index_seq.c
+++ b/libzdb/index_seq.c
@@ -50,6 +50,13 @@ index_seqmap_t *index_fileid_from_seq(index_root_t *root, seqid_t seqid) {
 void index_seqid_push(index_root_t *root, seqid_t id, fileid_t indexid) {
     zdb_debug("[+] index seq: mapping id %" PRIu64 " to file %u\n", id, indexid);
 
+    // previous file doesn't contain any entry, this id (which is not
+    // allocated yet) will be found on the new file
+    if(root->seqid->length > 0 && root->seqid->seqmap[root->seqid->length - 1].seqid == id) {
+        root->seqid->seqmap[root->seqid->length - 1].fileid = indexid;
+        return;
+    }
+
     if(root->seqid->length + 1 == root->seqid->allocated) {
         // growing up the vector
         root->seqid->allocated += 1024;
-- 
2.43.0


From 047562901b4e4491e2cce9fa8d29c26a6ec2af76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:32 +0000
Subject: [PATCH 05/49] fix: backward scan walks across index files without
 entries

---
 libzdb/index_scan.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/libzdb/index_scan.c b/libzdb/index_scan.c
index e3480d0..f0baa53 100644
--- a/libzdb/index_scan.c
+++ b/libzdb/index_scan.c
@@ -135,7 +135,14 @@ static index_scan_t index_previous_header_real(index_scan_t scan) {
     lseek(scan.fd, scan.target, SEEK_SET);
 
     // reading the fixed-length
-    if(read(scan.fd, &source, sizeof(index_item_t)) != sizeof(index_item_t)) {
+    ssize_t length;
+
+    if((length = read(scan.fd, &source, sizeof(index_item_t))) != sizeof(index_item_t)) {
+        // nothing at that offset, this file doesn't contain any entry
+        // and the one expected is on a file before
+        if(length == 0)
+            return index_scan_error(scan, INDEX_SCAN_REQUEST_PREVIOUS);
+
         zdb_warnp("index rscan: previous-header: could not read previous offset datafile");
         return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
     }
@@ -451,7 +458,14 @@ static index_scan_t index_last_header_real(index_scan_t scan) {
     lseek(scan.fd, scan.target, SEEK_SET);
 
     // reading the fixed-length
-    if(read(scan.fd, &source, sizeof(index_item_t)) != sizeof(index_item_t)) {
+    ssize_t length;
+
+    if((length = read(scan.fd, &source, sizeof(index_item_t))) != sizeof(index_item_t)) {
+        // nothing at that offset, this file doesn't contain any entry
+        // (files were just rotated), last entry is on a file before
+        if(length == 0)
+            return index_scan_error(scan, INDEX_SCAN_REQUEST_PREVIOUS);
+
         zdb_warnp("index scan: previous-header: could not read previous offset indexfile");
         return index_scan_error(scan, INDEX_SCAN_UNEXPECTED);
     }
-- 
2.43.0


From bcd1eacdfb93427ce2eae9cdb65e6815b3282c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 06/49] fix: index file left without header by an interrupted
 rotation is initialized

---
 libzdb/index_loader.c | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 7202ec0..8c5c6b7 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -215,17 +215,12 @@ static size_t index_load_file(index_root_t *root) {
         // we could not read anything, which basicly means that
         // the file is empty, we probably just created it
         //
-        // if the current indexid is not zero, this is probably
-        // a new file not expected, otherwise if index is zero,
-        // this is the initial index file we need to create
-        if(root->indexid > 0) {
-            zdb_verbose("[+] index: discarding file\n");
-            close(root->indexfd);
-            return 0;
-        }
-
-        // if we are here, it's the first index file found
-        // and we are in read-only mode, we can't write on the index
+        // if the current indexid is not zero, the rotation which created
+        // this file was interrupted before the header was written, this
+        // will be the active file and it needs its header, otherwise if
+        // index is zero, this is the initial index file we need to create
+        //
+        // if we are in read-only mode, we can't write on the index
         // and it's empty, there is no use in doing anything
         // let's crash
         if(root->status & INDEX_READ_ONLY) {
-- 
2.43.0


From 38136c08fa59ab1de4ae5749448e59009790d21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 07/49] fix: index records hold the data file of their payload

---
 libzdb/api.c        | 2 ++
 zdbd/commands_set.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index e5bf558..382dda3 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -151,6 +151,7 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
@@ -232,6 +233,7 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
         .offset = offset,
         .length = psize,
         .crc = dreq.crc,
+        .dataid = ns->data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index 90ff943..a293264 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -138,7 +138,7 @@ static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *e
         .offset = offset,
         .length = request->argv[2]->length,
         .crc = dreq.crc,
-        // .dataid = data->dataid,
+        .dataid = data->dataid,
         .flags = 0,
         .timestamp = timestamp,
     };
-- 
2.43.0


From 62380b72fb81e9caa83553dbb7c1303f60c6536d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:26 +0000
Subject: [PATCH 08/49] fix: HISTORY and KEYCUR only accept the exact key

---
 zdbd/commands_history.c | 18 ++++++++++++++++--
 zdbd/commands_scan.c    |  5 +++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/zdbd/commands_history.c b/zdbd/commands_history.c
index d6f3fc8..26ebffe 100644
--- a/zdbd/commands_history.c
+++ b/zdbd/commands_history.c
@@ -110,7 +110,7 @@ int history_send(redis_client_t *client, index_item_t *item, index_ekey_t *ekey)
     if(!response.payload.buffer) {
         zdb_log("[-] command: history: cannot read payload\n");
         redis_hardsend(client, "-Internal Error");
-        free(response.payload.buffer);
+        free(item);
         return 0;
     }
 
@@ -152,6 +152,12 @@ int command_history(redis_client_t *client) {
         return 1;
     }
 
+    if(client->request->argv[1]->length == 0 || client->request->argv[1]->length > MAX_KEY_LENGTH) {
+        zdbd_debug("[-] command: history: invalid key size\n");
+        redis_hardsend(client, "-Invalid key");
+        return 1;
+    }
+
     if(namespace_is_frozen(client->ns))
         return command_error_frozen(client);
 
@@ -178,6 +184,12 @@ int command_history(redis_client_t *client) {
 
         index_item_t *item = index_item_get_disk(index, entry->indexid, entry->idxoffset, entry->idlength);
 
+        if(!item) {
+            zdbd_debug("[-] command: history: cannot read index entry\n");
+            redis_hardsend(client, "-Internal Error");
+            return 1;
+        }
+
         return history_send(client, item, &ekey);
     }
 
@@ -211,7 +223,9 @@ int command_history(redis_client_t *client) {
         return 1;
     }
 
-    if(memcmp(userkey, item->id, idlength)) {
+    // the length needs to match too, otherwise a prefix of another
+    // key would be accepted
+    if(item->idlength != idlength || memcmp(userkey, item->id, idlength)) {
         zdbd_debug("[-] command: history: key mismatch from user and index, denied\n");
         free(item);
         redis_hardsend(client, "-Invalid arguments (invalid key)");
diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 311cbc7..1a9e67c 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -345,6 +345,11 @@ int command_keycur(redis_client_t *client) {
     index_root_t *index = client->ns->index;
     resp_object_t *key = request->argv[1];
 
+    if(key->length > MAX_KEY_LENGTH) {
+        redis_hardsend(client, "-Invalid key");
+        return 1;
+    }
+
     if(!(entry = index_get(index, key->buffer, key->length))) {
         redis_hardsend(client, "-Key not found");
         return 1;
-- 
2.43.0


From 00f0b0db2f1dab881292f281d82a8eccf63532d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:10 +0000
Subject: [PATCH 09/49] fix: data records are written whole or not at all

---
 libzdb/data.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 7e7aac3..459ab92 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -595,9 +595,10 @@ size_t data_insert(data_root_t *root, data_request_t *source) {
     unsigned char *id = (unsigned char *) source->vid;
     size_t offset = lseek(root->datafd, 0, SEEK_END);
     size_t headerlength = sizeof(data_entry_header_t) + source->idlength;
+    size_t fulllength = headerlength + source->datalength;
     data_entry_header_t *header;
 
-    if(!(header = malloc(headerlength)))
+    if(!(header = malloc(fulllength)))
         zdb_diep("data_insert: malloc");
 
     header->idlength = source->idlength;
@@ -608,23 +609,27 @@ size_t data_insert(data_root_t *root, data_request_t *source) {
     header->timestamp = source->timestamp;
 
     memcpy(header->id, id, source->idlength);
+    memcpy(header->id + source->idlength, source->data, source->datalength);
 
     // data offset will always be >= 1 (see initializer notes)
     // we can use 0 as error detection
+    //
+    // header and payload are written in a single call, a header is
+    // never left on the file without the payload which belongs to it
+
+    if(!data_write(root->datafd, header, fulllength, 1, root)) {
+        zdb_verbose("[-] data entry: write failed\n");
+
+        // discard what was (maybe) partially written
+        if(ftruncate(root->datafd, offset) < 0)
+            zdb_warnp("data entry: discard");
 
-    if(!data_write(root->datafd, header, headerlength, 0, root)) {
-        zdb_verbose("[-] data header: write failed\n");
         free(header);
         return 0;
     }
 
     free(header);
 
-    if(!data_write(root->datafd, source->data, source->datalength, 1, root)) {
-        zdb_verbose("[-] data payload: write failed\n");
-        return 0;
-    }
-
     // set this current offset as the latest
     // offset inserted
     root->previous = offset;
-- 
2.43.0


From 73f7300c8d755cbf4f8cc7f49d3b6f9314ccdef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 10/49] fix: update of a key is never lost by an interrupted or
 failed write

---
 libzdb/index.c     | 22 +++++++++--------
 libzdb/index_set.c | 59 +++++++++++++++++++++++++++++++---------------
 2 files changed, 52 insertions(+), 29 deletions(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index 56a325b..bff1521 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -1,4 +1,5 @@
 #include <stdio.h>
+#include <stddef.h>
 #include <stdlib.h>
 #include <string.h>
 #include <unistd.h>
@@ -539,10 +540,6 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     // compute this object size on disk
     size_t entrylength = sizeof(index_item_t) + entry->idlength;
 
-    // mark entry as deleted
-    // this affect the memory object (runtime)
-    entry->flags |= INDEX_ENTRY_DELETED;
-
     // (re-)open the expected index file, in read-write mode
     if((fd = index_open_file_readwrite(root, entry->indexid)) < 0)
         return 1;
@@ -561,15 +558,16 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
     index_item_header_dump(index_transition);
 
     // update the flags
-    index_transition->flags = entry->flags;
+    index_transition->flags = entry->flags | INDEX_ENTRY_DELETED;
 
-    // rollback to point to the entry again
-    zdb_debug("[+] index: delete: overwriting key\n");
-    lseek(fd, entry->idxoffset, SEEK_SET);
+    // rollback to point to the flags of this entry
+    zdb_debug("[+] index: delete: overwriting flags\n");
+    lseek(fd, entry->idxoffset + offsetof(index_item_t, flags), SEEK_SET);
 
-    // overwrite the key
+    // overwrite the flags, nothing else changes and writing a single
+    // byte can't leave the entry partially written
     // FIXME: why not using index_write ?
-    if(write(fd, index_transition, entrylength) != (ssize_t) entrylength) {
+    if(write(fd, &index_transition->flags, 1) != 1) {
         zdb_warnp("index_entry_delete write");
 
         // FIXME: not needed if using index_write
@@ -582,6 +580,10 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
 
     close(fd);
 
+    // mark entry as deleted
+    // this affect the memory object (runtime)
+    entry->flags |= INDEX_ENTRY_DELETED;
+
     // flag index entry as dirty, it was just modified
     index_dirty_set(root, entry->indexid, 1);
 
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index 70f492d..4269195 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -133,6 +133,15 @@ index_item_t *index_item_from_set(index_root_t *root, index_set_t *set) {
     return index_transition;
 }
 
+// drop what was written on the active index file after offset and
+// restore the previous offset the next entry will point to
+static void index_rollback_entry(index_root_t *root, off_t offset, size_t previous) {
+    if(ftruncate(root->indexfd, offset) < 0)
+        zdb_warnp("index: could not rollback entry");
+
+    root->previous = previous;
+}
+
 int index_append_entry_on_disk(index_root_t *root, index_set_t *set) {
     index_entry_t *entry = set->entry;
     off_t curoffset = lseek(root->indexfd, 0, SEEK_END);
@@ -147,19 +156,18 @@ int index_append_entry_on_disk(index_root_t *root, index_set_t *set) {
 
     index_item_t *item = index_item_from_set(root, set);
 
-    // updating global previous
-    root->previous = curoffset;
-
     // writing data on the disk
     if(!index_write(root->indexfd, item, entrylength, root)) {
         zdb_verbosep("index_append_entry_on_disk", "cannot write index entry on disk");
 
-        // it's easier to flag the entry as deleted than
-        // removing it from the list
-        entry->flags |= INDEX_ENTRY_DELETED;
+        // the entry could be partially written, dropping it
+        index_rollback_entry(root, curoffset, root->previous);
         return 1;
     }
 
+    // updating global previous
+    root->previous = curoffset;
+
     return 0;
 }
 
@@ -302,24 +310,29 @@ index_entry_t *index_update_memory_handler_sequential(index_root_t *root, index_
 
 // public disk and memory part
 index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, index_entry_t *previous) {
-    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
-    index_entry_delete_disk(root, previous);
-
-    // update memory state
-    index_entry_t *entry = index_update_memory_handler_memkey(root, set, previous);
+    size_t rootprev = root->previous;
 
-    index_set_t updated = {
-        .entry = entry,
-        .id = set->id,
-    };
+    // ensure flags are empty and keep track of the history
+    set->entry->flags = 0;
+    set->entry->parentid = previous->indexid;
+    set->entry->parentoff = previous->idxoffset;
 
-    // append the data on the disk
-    if(index_append_entry_on_disk(root, &updated)) {
+    // append the data on the disk, this needs to be done before flagging the
+    // previous key, to always have a valid entry for this key on the disk
+    if(index_append_entry_on_disk(root, set)) {
         zdb_debug("[-] index: update entry failed: could not write on disk\n");
         return NULL;
     }
 
-    return entry;
+    zdb_debug("[+] index: flagging previous key as deleted, on disk\n");
+    if(index_entry_delete_disk(root, previous)) {
+        zdb_debug("[-] index: update entry failed: could not flag previous key\n");
+        index_rollback_entry(root, set->entry->idxoffset, rootprev);
+        return NULL;
+    }
+
+    // update memory state
+    return index_update_memory_handler_memkey(root, set, previous);
 }
 
 index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *set, index_entry_t *previous) {
@@ -439,8 +452,16 @@ index_entry_t *index_set_memory(index_root_t *root, void *id, index_entry_t *ent
         return index_update_memory_handler_sequential(root, &setter, NULL);
 
     // others mode (aka userkey mode)
-    if((existing = index_get(root, id, entry->idlength)))
+    if((existing = index_get(root, id, entry->idlength))) {
+        // both entries are valid on the disk, an update was interrupted
+        // before the previous entry was flagged, let's do it now
+        if(!index_entry_is_deleted(entry) && !(root->status & INDEX_READ_ONLY)) {
+            if(index_entry_delete_disk(root, existing))
+                zdb_warning("[-] index: could not flag previous entry");
+        }
+
         return index_update_memory_handler_memkey(root, &setter, existing);
+    }
 
     return index_insert_memory_handler_memkey(root, &setter);
 }
-- 
2.43.0


From e911d8cda21b30d93fcec720b00eac001e2d4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 11/49] fix: sequential update is refused as a whole when a
 write fails

---
 libzdb/index_set.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index 4269195..75c027c 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -97,6 +97,12 @@ int index_seq_overwrite(index_root_t *root, index_set_t *set) {
 
     if(write(fd, item, entrylength) != (ssize_t) entrylength) {
         zdb_warnp("index_seq_overwrite re-write");
+
+        // the entry could be partially written, restoring the original
+        lseek(fd, offset, SEEK_SET);
+        if(write(fd, &original, sizeof(index_item_t)) != sizeof(index_item_t))
+            zdb_warnp("index_seq_overwrite restore");
+
         close(fd);
         return 1;
     }
@@ -337,6 +343,7 @@ index_entry_t *index_update_entry_memkey(index_root_t *root, index_set_t *set, i
 
 index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *set, index_entry_t *previous) {
     zdb_debug("[+] index: update on sequential keys, duplicating key flagged\n");
+    size_t rootprev = root->previous;
 
     // mark previous as deleted, and writing this object on the index
     // this will add a *new* entry on the index file, and we will use this
@@ -357,7 +364,12 @@ index_entry_t *index_update_entry_sequential(index_root_t *root, index_set_t *se
     // with the latest data (the new one, basicly)
     set->entry->parentid = root->indexid;
     set->entry->parentoff = previous->idxoffset;
-    index_seq_overwrite(root, set);
+
+    if(index_seq_overwrite(root, set)) {
+        zdb_debug("[-] index: update entry failed: could not overwrite entry\n");
+        index_rollback_entry(root, previous->idxoffset, rootprev);
+        return NULL;
+    }
 
     // since we added a new entry on the index, the next id needs
     // to be incremented to skip this position in the futur
-- 
2.43.0


From 69eae5bf9dff432868d227c1adaa56a8aa85ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 12/49] fix: SELECT SECURE consumes the challenge

---
 zdbd/commands_namespace.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 2d44710..8cab78c 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -215,6 +215,10 @@ int command_select(redis_client_t *client) {
 
                 resp_object_t *user = request->argv[3];
 
+                // a challenge can only be used once, granted or not
+                free(client->nonce);
+                client->nonce = NULL;
+
                 if(zdbd_password_check(user->buffer, user->length, expected) == 0) {
                     free(expected);
                     zdbd_debug("[-] namespace: auth: secure authentication denied\n");
-- 
2.43.0


From eb99bd5cda3ef51bdd5ee75edba73293a410bdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 13/49] fix: passwords are compared in full, null bytes
 included

---
 zdbd/auth.c               |  7 +++----
 zdbd/commands_namespace.c | 12 ++++--------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/zdbd/auth.c b/zdbd/auth.c
index 0d4b947..d417a17 100644
--- a/zdbd/auth.c
+++ b/zdbd/auth.c
@@ -8,10 +8,9 @@
 // check if user input (buffer with buffer length)
 // does match with expected password string, unified way
 int zdbd_password_check(char *input, int length, char *expected) {
-    char password[192];
-    sprintf(password, "%.*s", length, input);
-
-    if(strcmp(password, expected) == 0) {
+    // input is binary and could contains null bytes, comparing
+    // the length first to ensure the whole input is the password
+    if(length == (int) strlen(expected) && memcmp(input, expected, length) == 0) {
         zdbd_debug("[+] password: access granted\n");
         return 1;
     }
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 8cab78c..212d3cb 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -162,19 +162,15 @@ int command_select(redis_client_t *client) {
 
             // SELECT namespace password
             if(request->argc == 3) {
-                char password[256];
+                resp_object_t *user = request->argv[2];
 
-                if(request->argv[2]->length > (ssize_t) sizeof(password) - 1) {
+                if(user->length > 255) {
                     redis_hardsend(client, "-Password too long");
                     return 1;
                 }
 
-                // copy password to a temporary variable
-                // to check password match using strcmp and no any strncmp
-                // to ensure we check exact password
-                sprintf(password, "%.*s", request->argv[2]->length, (char *) request->argv[2]->buffer);
-
-                if(strcmp(password, namespace->password) != 0) {
+                // ensure we check exact password
+                if(zdbd_password_check(user->buffer, user->length, namespace->password) == 0) {
                     redis_hardsend(client, "-Access denied");
                     return 1;
                 }
-- 
2.43.0


From 2bb2e15b3b01ba8b713ba7f05b3de008f1ce4b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:47 +0000
Subject: [PATCH 14/49] fix: cursor of a sequential entry stays valid after an
 update

---
 libzdb/index.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/libzdb/index.c b/libzdb/index.c
index bff1521..59aa28f 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -646,7 +646,23 @@ index_entry_t *index_entry_deserialize(index_root_t *root, index_bkey_t *key) {
     zdb_debug("[+] index: deserialize: length %u <> %u\n", item->length, key->length);
     zdb_debug("[+] index: deserialize: crc %08x <> %08x\n", item->crc, key->crc);
 
-    if(item->length != key->length || item->crc != key->crc) {
+    int valid = (item->idlength == key->idlength);
+
+    // in sequential mode, updating a key overwrites its entry, the
+    // payload can be different since the cursor was made, but entries have
+    // a fixed length and can't be moved
+    if(root->mode == ZDB_MODE_SEQUENTIAL) {
+        size_t entrylength = sizeof(index_item_t) + sizeof(seqid_t);
+
+        valid = valid && key->idlength == sizeof(seqid_t);
+        valid = valid && key->idxoffset >= sizeof(index_header_t);
+        valid = valid && (key->idxoffset - sizeof(index_header_t)) % entrylength == 0;
+
+    } else {
+        valid = valid && item->length == key->length && item->crc == key->crc;
+    }
+
+    if(!valid) {
         zdb_debug("[-] index: deserialize: invalid key requested (fields mismatch)\n");
         free(item);
         return NULL;
-- 
2.43.0


From 091455a7389074cde36e4a116beb977317ce0d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:54 +0000
Subject: [PATCH 15/49] fix: scan always makes progress and lengths, timestamps
 are unsigned

---
 zdbd/commands_scan.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 1a9e67c..48cd339 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -142,10 +142,10 @@ static int command_scan_send_scanlist(scan_list_t *scanlist, redis_client_t *cli
         offset += entry->idlength;
 
         // adding the length of the payload
-        offset += sprintf(response + offset, "\r\n:%d\r\n", entry->length);
+        offset += sprintf(response + offset, "\r\n:%u\r\n", entry->length);
 
         // adding the timestamp to the payload
-        offset += sprintf(response + offset, ":%d\r\n", entry->timestamp);
+        offset += sprintf(response + offset, ":%u\r\n", entry->timestamp);
     }
 
     redis_reply_heap(client, response, offset, free);
@@ -246,7 +246,9 @@ int command_scan(redis_client_t *client) {
     // the keys and building our scan response
     uint64_t basetime = ustime();
 
-    while(ustime() - basetime < SCAN_TIMESLICE_US) {
+    // whatever the time spent, at least one step is made, otherwise an empty
+    // list would be sent like if the end was reached
+    do {
         zdbd_debug("[+] scan: elapsed time: %" PRIu64 " us\n", ustime() - basetime);
 
         // reading entry and appending it
@@ -261,7 +263,8 @@ int command_scan(redis_client_t *client) {
 
         // append object to the list
         scanlist_append(&scanlist, &scan, &info);
-    }
+
+    } while(ustime() - basetime < SCAN_TIMESLICE_US);
 
     zdbd_debug("[+] scan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
 
@@ -303,7 +306,9 @@ int command_rscan(redis_client_t *client) {
     // the keys and building our scan response
     uint64_t basetime = ustime();
 
-    while(ustime() - basetime < SCAN_TIMESLICE_US) {
+    // whatever the time spent, at least one step is made, otherwise an empty
+    // list would be sent like if the end was reached
+    do {
         zdbd_debug("[+] rscan: elapsed time: %" PRIu64 " us\n", ustime() - basetime);
 
         // reading entry and appending it
@@ -318,7 +323,8 @@ int command_rscan(redis_client_t *client) {
 
         // append object to the list
         scanlist_append(&scanlist, &scan, &info);
-    }
+
+    } while(ustime() - basetime < SCAN_TIMESLICE_US);
 
     zdbd_debug("[+] rscan: retreived %lu entries in %" PRIu64 " us\n", scanlist.length, ustime() - basetime);
 
-- 
2.43.0


From 142be83fbcf7a01bcc6499ac5bcf885862982c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 16/49] fix: DATA RAW returns deletions and empty payloads

---
 libzdb/data.c          | 6 +++---
 zdbd/commands_system.c | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 459ab92..fb5033e 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -365,8 +365,8 @@ data_raw_t data_raw_get_real(int fd, off_t offset) {
     }
 
     if(raw.header.flags & DATA_ENTRY_DELETED) {
-        zdb_debug("[+] data: raw: entry deleted\n");
-        return data_raw_error(raw);
+        zdb_debug("[+] data: raw: entry deleted, no payload\n");
+        return raw;
     }
 
     zdb_debug("[+] data: raw: fetching payload from header offset\n");
@@ -398,7 +398,7 @@ data_raw_t data_raw_get(data_root_t *root, fileid_t dataid, off_t offset) {
 
     // acquire data id fd
     if((fd = data_grab_dataid(root, dataid)) < 0)
-        return raw;
+        return data_raw_error(raw);
 
     raw = data_raw_get_real(fd, offset);
 
diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index 01dc272..7f93070 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -281,7 +281,7 @@ static int command_data_raw(redis_client_t *client) {
         return 1;
     }
 
-    if(raw.header.datalength == 0 || raw.header.datalength != raw.payload.length) {
+    if(raw.header.datalength != raw.payload.length) {
         if((raw.header.flags & DATA_ENTRY_DELETED) == 0) {
             // something went wrong when fetching data from file
             zdb_log("[-] command: data: raw: invalid read at specified data/offset\n");
@@ -322,7 +322,8 @@ static int command_data_raw(redis_client_t *client) {
     length += sprintf(response + length, ":%u\r\n", raw.header.flags);
     length += sprintf(response + length, ":%u\r\n", raw.header.timestamp);
 
-    if(raw.payload.length > 0) {
+    // only a deletion comes without payload, a payload can be empty
+    if((raw.header.flags & DATA_ENTRY_DELETED) == 0) {
         length += sprintf(response + length, "$%lu\r\n", raw.payload.length);
         memcpy(response + length, raw.payload.buffer, raw.payload.length);
         length += raw.header.datalength;
-- 
2.43.0


From d4c3b4b85b63d4e55c85e4b80ff5383b4f429cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:40 +0000
Subject: [PATCH 17/49] fix: library API uses the namespace mode, whole keys
 and whole payloads

---
 libzdb/api.c | 55 ++++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 10 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 382dda3..93847de 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -105,6 +105,33 @@ char *zdb_api_debug_type(zdb_api_type_t type) {
 //
 // api
 //
+
+// lookup a key, no key can be longer than the maximum allowed and the length
+// is stored on a single byte
+static index_entry_t *api_index_get(namespace_t *ns, void *key, size_t ksize) {
+    if(ksize > MAX_KEY_LENGTH)
+        return NULL;
+
+    return index_get(ns->index, key, ksize);
+}
+
+// check if payload is exactly the same than the one already stored
+static int api_payload_match(namespace_t *ns, index_entry_t *existing, data_request_t *dreq) {
+    if(existing->crc != dreq->crc || existing->length != dreq->datalength)
+        return 0;
+
+    // checksum matches, but this doesn't mean payload is the same
+    data_payload_t payload = data_get(ns->data, existing->offset, existing->length, existing->dataid, existing->idlength);
+
+    if(!payload.buffer)
+        return 0;
+
+    int match = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);
+    free(payload.buffer);
+
+    return match;
+}
+
 static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksize, void *payload, size_t psize, index_entry_t *existing) {
     if(ksize == 0)
         return zdb_api_reply_error("Invalid argument, key needed");
@@ -126,8 +153,8 @@ static zdb_api_t *api_set_handler_userkey(namespace_t *ns, void *key, size_t ksi
     };
 
     // checking if we need to update this entry of if data are unchanged
-    if(existing && existing->crc == dreq.crc) {
-        zdb_debug("[+] api: set: existing %08x <> %08x crc match, ignoring\n", existing->crc, dreq.crc);
+    if(existing && api_payload_match(ns, existing, &dreq)) {
+        zdb_debug("[+] api: set: existing %08x <> %08x match, ignoring\n", existing->crc, dreq.crc);
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
 
@@ -207,8 +234,8 @@ static zdb_api_t *api_set_handler_sequential(namespace_t *ns, void *key, size_t
     };
 
     // checking if we need to update this entry of if data are unchanged
-    if(existing && existing->crc == dreq.crc) {
-        zdb_debug("[+] api: set: existing %08x <> %08x crc match, ignoring\n", existing->crc, dreq.crc);
+    if(existing && api_payload_match(ns, existing, &dreq)) {
+        zdb_debug("[+] api: set: existing %08x <> %08x match, ignoring\n", existing->crc, dreq.crc);
         return zdb_api_reply(ZDB_API_UP_TO_DATE, NULL);
     }
 
@@ -271,6 +298,9 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
     index_entry_t *entry = NULL;
     size_t floating = 0;
 
+    if(ksize > MAX_KEY_LENGTH)
+        return zdb_api_reply_error("Key too large");
+
     // if the user want to override an existing key
     // and the maxsize of the namespace is reached, we need
     // to know if the replacement data is shorter, this is
@@ -280,7 +310,7 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
     // update an existing key, we can only delete it
     if(ksize) {
         // userkey id is not null
-        if((entry = index_get(ns->index, key, ksize)))
+        if((entry = api_index_get(ns, key, ksize)))
             floating = entry->length;
     }
 
@@ -304,7 +334,7 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
         data_jump_next(ns->data, newid);
     }
 
-    return api_set_handlers[zdb_rootsettings.mode](ns, key, ksize, payload, psize, entry);
+    return api_set_handlers[ns->index->mode](ns, key, ksize, payload, psize, entry);
 }
 
 
@@ -315,7 +345,7 @@ zdb_api_t *zdb_api_get(namespace_t *ns, void *key, size_t ksize) {
     index_entry_t *entry = NULL;
 
     // fetching index entry for this key
-    if(!(entry = index_get(ns->index, key, ksize))) {
+    if(!(entry = api_index_get(ns, key, ksize))) {
         zdb_debug("[-] api: get: key not found\n");
         return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
     }
@@ -349,7 +379,7 @@ zdb_api_t *zdb_api_get(namespace_t *ns, void *key, size_t ksize) {
 // DATASET
 //
 zdb_api_t *zdb_api_exists(namespace_t *ns, void *key, size_t ksize) {
-    index_entry_t *entry = index_get(ns->index, key, ksize);
+    index_entry_t *entry = api_index_get(ns, key, ksize);
 
     zdb_debug("[+] api: exists: entry found: %s\n", (entry ? "yes" : "no"));
 
@@ -366,7 +396,7 @@ zdb_api_t *zdb_api_exists(namespace_t *ns, void *key, size_t ksize) {
 }
 
 zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
-    index_entry_t *entry = index_get(ns->index, key, ksize);
+    index_entry_t *entry = api_index_get(ns, key, ksize);
 
     // key not found at all
     if(!entry) {
@@ -385,6 +415,11 @@ zdb_api_t *zdb_api_check(namespace_t *ns, void *key, size_t ksize) {
     zdb_debug("[+] api: get: data file: %d, data offset: %" PRIu32 "\n", entry->dataid, entry->offset);
 
     int status = data_check(ns->data, entry->offset, entry->dataid);
+
+    // payload could not be read
+    if(status < 0)
+        return zdb_api_reply(ZDB_API_INTERNAL_ERROR, NULL);
+
     return zdb_api_reply(status ? ZDB_API_TRUE : ZDB_API_FALSE, NULL);
 }
 
@@ -392,7 +427,7 @@ zdb_api_t *zdb_api_del(namespace_t *ns, void *key, size_t ksize) {
     index_entry_t *entry;
 
     // grabbing original entry
-    if(!(entry = index_get(ns->index, key, ksize))) {
+    if(!(entry = api_index_get(ns, key, ksize))) {
         zdb_debug("[-] api: del: key not found\n");
         return zdb_api_reply(ZDB_API_NOT_FOUND, NULL);
     }
-- 
2.43.0


From 954ef14600568054c0a385714be42b7a47042c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 18/49] fix: namespace descriptor is written at once

---
 libzdb/namespace.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index ed5c960..53e3428 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -84,16 +84,19 @@ void namespace_descriptor_update(namespace_t *namespace, int fd) {
     if(namespace->worm)
         header.flags |= NS_FLAGS_WORM;
 
-    if(write(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t))
-        zdb_warnp("namespace legacy header write");
+    // writing everything at once, an interrupted update needs to keep either the
+    // previous or the new settings, never a mix of them
+    char buffer[sizeof(ns_header_t) + 512];
+    size_t length = sizeof(ns_header_t) + header.namelength + header.passlength;
 
-    if(write(fd, namespace->name, header.namelength) != (ssize_t) header.namelength)
-        zdb_warnp("namespace header name write");
+    memcpy(buffer, &header, sizeof(ns_header_t));
+    memcpy(buffer + sizeof(ns_header_t), namespace->name, header.namelength);
 
-    if(namespace->password) {
-        if(write(fd, namespace->password, header.passlength) != (ssize_t) header.passlength)
-            zdb_warnp("namespace header password write");
-    }
+    if(namespace->password)
+        memcpy(buffer + sizeof(ns_header_t) + header.namelength, namespace->password, header.passlength);
+
+    if(pwrite(fd, buffer, length, 0) != (ssize_t) length)
+        zdb_warnp("namespace header write");
 
     // ensure metadata are written
     fsync(fd);
-- 
2.43.0


From c5f40f05e41bb2a9d8c58f63770b8e5c5fcd2c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 19/49] fix: longest subcommand doesn't overflow its buffer

---
 zdbd/commands_namespace.c | 2 +-
 zdbd/commands_system.c    | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 212d3cb..accafb6 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -506,7 +506,7 @@ int command_nsset(redis_client_t *client) {
     if(!command_args_namespace(client, 1))
         return 1;
 
-    if(!command_args_overflow(client, 2, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 2, COMMAND_MAXLEN - 1))
         return 1;
 
     // limit size of the value
diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index 7f93070..a2bf6a0 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -186,7 +186,7 @@ static int command_index_dirty(redis_client_t *client) {
     char *response;
 
     if(request->argc == 3) {
-        if(!command_args_overflow(client, 2, COMMAND_MAXLEN))
+        if(!command_args_overflow(client, 2, COMMAND_MAXLEN - 1))
             return 1;
 
         sprintf(subcommand, "%.*s", request->argv[2]->length, (char *) request->argv[2]->buffer);
@@ -237,7 +237,7 @@ int command_index(redis_client_t *client) {
     if(!command_args_validate_min(client, 2))
         return 1;
 
-    if(!command_args_overflow(client, 1, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 1, COMMAND_MAXLEN - 1))
         return 1;
 
     sprintf(command, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
@@ -350,7 +350,7 @@ int command_data(redis_client_t *client) {
     if(!command_args_validate_min(client, 2))
         return 1;
 
-    if(!command_args_overflow(client, 1, COMMAND_MAXLEN))
+    if(!command_args_overflow(client, 1, COMMAND_MAXLEN - 1))
         return 1;
 
     sprintf(command, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
-- 
2.43.0


From b10ad440b4678d15693d5d964a687839fcc90d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:08 +0000
Subject: [PATCH 20/49] fix: payload compared on update and replaced password
 are freed

---
 zdbd/commands_namespace.c | 1 +
 zdbd/commands_set.c       | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index accafb6..975d41e 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -402,6 +402,7 @@ static int command_nsset_password(namespace_t *namespace, char *value) {
 
     } else {
         // updating password
+        free(namespace->password);
         namespace->password = strdup(value);
         zdbd_debug("[+] command: nsset: password set and updated\n");
     }
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index a293264..d3b63cd 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -65,12 +65,13 @@ static int data_compare_matching(index_entry_t *existing, data_request_t *dreq,
         return 0;
 
     // check if data are the same
-    if(memcmp(payload.buffer, dreq->data, dreq->datalength) == 0) {
+    int match = (memcmp(payload.buffer, dreq->data, dreq->datalength) == 0);
+    free(payload.buffer);
+
+    if(match)
         zdbd_debug("[+] command: set: matching data, ignoring update\n");
-        return 1;
-    }
 
-    return 0;
+    return match;
 }
 
 static size_t redis_set_handler_userkey(redis_client_t *client, index_entry_t *existing) {
-- 
2.43.0


From 18795fa7f18a6bb50034c5635679501ab6b07e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:25 +0000
Subject: [PATCH 21/49] fix: rotation refused by the filesystem is reported,
 not fatal

---
 libzdb/api.c                        |  4 +--
 libzdb/data.c                       | 34 +++++++++++++++++------
 libzdb/data.h                       |  1 +
 libzdb/index.c                      | 13 +++++++--
 libzdb/index_loader.c               | 43 +++++++++++++++++++++++------
 libzdb/index_loader.h               |  1 +
 libzdb/namespace.c                  | 17 ++++++++++++
 libzdb/namespace.h                  |  1 +
 tools/index-rebuild/index-rebuild.c |  8 ++++--
 zdbd/commands_namespace.c           |  6 ++--
 zdbd/commands_set.c                 |  6 ++--
 zdbd/redis.c                        |  5 ++--
 12 files changed, 111 insertions(+), 28 deletions(-)

diff --git a/libzdb/api.c b/libzdb/api.c
index 93847de..b76becd 100644
--- a/libzdb/api.c
+++ b/libzdb/api.c
@@ -330,8 +330,8 @@ zdb_api_t *zdb_api_set(namespace_t *ns, void *key, size_t ksize, void *payload,
     // if we do this after adding data, we could have an empty data file
     // which will fake the 'previous' offset when computing it on reload
     if(data_next_offset(ns->data) + psize > zdb_rootsettings.datasize) {
-        size_t newid = index_jump_next(ns->index);
-        data_jump_next(ns->data, newid);
+        if(!namespace_jump_next(ns))
+            return zdb_api_reply_error("Cannot rotate files right now");
     }
 
     return api_set_handlers[ns->index->mode](ns, key, ksize, payload, psize, entry);
diff --git a/libzdb/data.c b/libzdb/data.c
index fb5033e..2faffd2 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -242,15 +242,16 @@ static inline void data_release_dataid(data_root_t *root, fileid_t dataid, int f
 //
 // data management
 //
-void data_initialize(char *filename, data_root_t *root) {
+static int data_create(char *filename, fileid_t dataid, data_root_t *root) {
     int fd;
 
     if((fd = open(filename, O_CREAT | O_RDWR, 0600)) < 0) {
         // ignoring initializer on read-only filesystem
         if(errno == EROFS)
-            return;
+            return 0;
 
-        zdb_diep(filename);
+        zdb_warnp(filename);
+        return 1;
     }
 
     #ifdef __linux__
@@ -267,12 +268,21 @@ void data_initialize(char *filename, data_root_t *root) {
     header.version = ZDB_DATAFILE_VERSION;
     header.created = 0; // timestamp are not used anymore, this allows
     header.opened = 0;  // checksum comparaison more efficient across replicat
-    header.fileid = root->dataid;
+    header.fileid = dataid;
 
-    if(!data_write(fd, &header, sizeof(data_header_t), 1, root))
-        zdb_diep(filename);
+    if(!data_write(fd, &header, sizeof(data_header_t), 1, root)) {
+        close(fd);
+        return 1;
+    }
 
     close(fd);
+
+    return 0;
+}
+
+void data_initialize(char *filename, data_root_t *root) {
+    if(data_create(filename, root->dataid, root))
+        zdb_diep(filename);
 }
 
 // simply set globally the current filename based on it's id
@@ -408,8 +418,17 @@ data_raw_t data_raw_get(data_root_t *root, fileid_t dataid, off_t offset) {
     return raw;
 }
 
+// prepare the data file used after the next jump, nothing changes on
+// the running data, returns non-zero if the file can't be created
+int data_jump_prepare(data_root_t *root, fileid_t newid) {
+    char filename[ZDB_PATH_MAX];
+    snprintf(filename, sizeof(filename), "%s/d%u", root->datadir, newid);
+
+    return data_create(filename, newid, root);
+}
+
 // jumping to the next id close the current data file
-// and open the next id file, it will create the new file
+// and open the next id file, this file needs to be prepared before
 size_t data_jump_next(data_root_t *root, fileid_t newid) {
     hook_t *hook = NULL;
 
@@ -435,7 +454,6 @@ size_t data_jump_next(data_root_t *root, fileid_t newid) {
     root->dataid = newid;
     data_set_id(root);
 
-    data_initialize(root->datafile, root);
     data_open_final(root);
 
     if(zdb_rootsettings.hook) {
diff --git a/libzdb/data.h b/libzdb/data.h
index 425706d..cbcdcf9 100644
--- a/libzdb/data.h
+++ b/libzdb/data.h
@@ -134,6 +134,7 @@
     data_header_t *data_descriptor_validate(data_header_t *header, data_root_t *root);
 
     void data_destroy(data_root_t *root);
+    int data_jump_prepare(data_root_t *root, fileid_t newid);
     size_t data_jump_next(data_root_t *root, fileid_t newid);
     void data_emergency(data_root_t *root);
     fileid_t data_dataid(data_root_t *root);
diff --git a/libzdb/index.c b/libzdb/index.c
index 59aa28f..d81c931 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -339,9 +339,20 @@ char *index_dirty_list_generate(index_root_t *root) {
 // jumping to the next index id file, this needs to be in sync with the
 // data file, we only do this when datafile changes basicly, this is
 // triggered by a datafile too big event
+//
+// returns zero if the next file can't be created, in this case
+// nothing changes and the current file is still the active one
 size_t index_jump_next(index_root_t *root) {
     hook_t *hook = NULL;
     char *dirtylist = NULL;
+    char nextfile[ZDB_PATH_MAX];
+    uint64_t fileid = root->indexid + 1;
+
+    // preparing the next file, with its header
+    snprintf(nextfile, sizeof(nextfile), "%s/i%" PRIu64, root->indexdir, fileid);
+
+    if(index_create(nextfile, fileid, root))
+        return 0;
 
     zdb_verbose("[+] index: jumping to the next file [closing %s]\n", root->indexfile);
 
@@ -365,7 +376,6 @@ size_t index_jump_next(index_root_t *root) {
     index_close(root);
 
     // moving to the next file
-    uint64_t fileid = root->indexid + 1;
     root->nextid = 0;
 
     // do not reset root->previous
@@ -375,7 +385,6 @@ size_t index_jump_next(index_root_t *root) {
     index_set_id(root, fileid);
 
     index_open_final(root);
-    index_initialize(root->indexfd, root->indexid, root);
 
     if(zdb_rootsettings.hook) {
         hook_append(hook, root->indexfile);
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 8c5c6b7..e1f32a8 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -83,17 +83,44 @@ static void index_dump_statistics(index_root_t *root) {
 // initialize an index file
 // this basicly create the header and write it
 //
-index_header_t index_initialize(int fd, fileid_t indexid, index_root_t *root) {
+static int index_header_write(int fd, fileid_t indexid, index_root_t *root, index_header_t *header) {
+    memcpy(header->magic, "IDX0", 4);
+    header->version = ZDB_IDXFILE_VERSION;
+    header->created = 0; // not used anymore to keep coherence
+    header->opened = 0;  // across replicat checksum
+    header->fileid = indexid;
+    header->mode = root->mode;
+
+    return index_write(fd, header, sizeof(index_header_t), root);
+}
+
+// create an index file which is not used yet, nothing is changed on the
+// running index and nothing is left on the disk if this is not possible
+int index_create(char *filename, fileid_t indexid, index_root_t *root) {
     index_header_t header;
+    int fd;
 
-    memcpy(header.magic, "IDX0", 4);
-    header.version = ZDB_IDXFILE_VERSION;
-    header.created = 0; // not used anymore to keep coherence
-    header.opened = 0;  // across replicat checksum
-    header.fileid = indexid;
-    header.mode = root->mode;
+    if((fd = open(filename, O_CREAT | O_RDWR, 0600)) < 0) {
+        zdb_warnp(filename);
+        return 1;
+    }
+
+    if(!index_header_write(fd, indexid, root, &header)) {
+        zdb_logerr("[-] index: could not create index file\n");
+        unlink(filename);
+        close(fd);
+        return 1;
+    }
+
+    close(fd);
+
+    return 0;
+}
+
+index_header_t index_initialize(int fd, fileid_t indexid, index_root_t *root) {
+    index_header_t header;
 
-    if(!index_write(fd, &header, sizeof(index_header_t), root))
+    if(!index_header_write(fd, indexid, root, &header))
         zdb_diep("index_initialize: write");
 
     // reset updated flag, this flag is used to notify
diff --git a/libzdb/index_loader.h b/libzdb/index_loader.h
index 5f1fc68..6e3e8a3 100644
--- a/libzdb/index_loader.h
+++ b/libzdb/index_loader.h
@@ -2,6 +2,7 @@
     #define __ZDB_INDEX_LOADER_H
 
     // initialize index header file
+    int index_create(char *filename, fileid_t indexid, index_root_t *root);
     index_header_t index_initialize(int fd, fileid_t indexid, index_root_t *root);
 
     // initialize the whole index system
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 53e3428..6b8a56a 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -600,6 +600,23 @@ static void namespace_reload_hook(namespace_t *namespace) {
     hook_execute(hook);
 }
 
+// move index and data to their next file, both needs to be in sync
+//
+// returns the new id or zero if the new files can't be created, in
+// this case files in use are not changed
+size_t namespace_jump_next(namespace_t *namespace) {
+    fileid_t nextid = index_indexid(namespace->index) + 1;
+    size_t newid;
+
+    if(data_jump_prepare(namespace->data, nextid))
+        return 0;
+
+    if((newid = index_jump_next(namespace->index)) == 0)
+        return 0;
+
+    return data_jump_next(namespace->data, newid);
+}
+
 // start a namespace reload procees
 // when reloading a namespace, we destroy it from
 // memory then reload contents, we don't change anything related
diff --git a/libzdb/namespace.h b/libzdb/namespace.h
index 5bafc73..af9a612 100644
--- a/libzdb/namespace.h
+++ b/libzdb/namespace.h
@@ -79,6 +79,7 @@
     int namespace_create(char *name);
     int namespace_delete(namespace_t *namespace);
     int namespace_commit(namespace_t *namespace);
+    size_t namespace_jump_next(namespace_t *namespace);
     int namespace_flush(namespace_t *namespace);
     int namespace_reload(namespace_t *namespace);
     int namespace_is_fresh(namespace_t *namespace);
diff --git a/tools/index-rebuild/index-rebuild.c b/tools/index-rebuild/index-rebuild.c
index 931ea73..dbe86b9 100644
--- a/tools/index-rebuild/index-rebuild.c
+++ b/tools/index-rebuild/index-rebuild.c
@@ -47,8 +47,12 @@ int index_data_jump_to(fileid_t fileid, index_root_t *zdbindex, data_root_t *zdb
     // only take care of next index id if it's not the first
     // doing it at the end to avoid creating an empty index
     // for non-existing data
-    if(fileid > 0)
-        index_jump_next(zdbindex);
+    if(fileid > 0) {
+        if(!index_jump_next(zdbindex)) {
+            fprintf(stderr, "[-] index-rebuild: cannot create next index file\n");
+            return 1;
+        }
+    }
 
     return 0;
 }
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 975d41e..83a39eb 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -590,8 +590,10 @@ int command_nsjump(redis_client_t *client) {
 
     zdbd_debug("[+] command: nsjump: forcing index and data jump\n");
 
-    size_t newid = index_jump_next(client->ns->index);
-    data_jump_next(client->ns->data, newid);
+    if(!namespace_jump_next(client->ns)) {
+        redis_hardsend(client, "-Cannot rotate files right now");
+        return 1;
+    }
 
     redis_hardsend(client, "+OK");
 
diff --git a/zdbd/commands_set.c b/zdbd/commands_set.c
index d3b63cd..2ca5356 100644
--- a/zdbd/commands_set.c
+++ b/zdbd/commands_set.c
@@ -369,8 +369,10 @@ int command_set(redis_client_t *client) {
     zdb_settings_t *zdb_settings = zdb_settings_get();
 
     if(data_next_offset(client->ns->data) + request->argv[2]->length > zdb_settings->datasize) {
-        size_t newid = index_jump_next(client->ns->index);
-        data_jump_next(client->ns->data, newid);
+        if(!namespace_jump_next(client->ns)) {
+            redis_hardsend(client, "-Cannot rotate files right now");
+            return 0;
+        }
     }
 
     size_t offset = redis_set_handlers[mode](client, entry);
diff --git a/zdbd/redis.c b/zdbd/redis.c
index 7d6b3fb..a0dffc4 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -1103,8 +1103,9 @@ void redis_files_rotate() {
 
         if(diffsec > zdbd_rootsettings.rotatesec) {
             zdbd_log("[+] system: rotation requested (%s, %ld seconds)\n", ns->name, diffsec);
-            size_t newid = index_jump_next(ns->index);
-            data_jump_next(ns->data, newid);
+
+            if(!namespace_jump_next(ns))
+                zdbd_log("[-] system: rotation failed (%s)\n", ns->name);
         }
     }
 }
-- 
2.43.0


From 296a2e3a29a9efd4188e3a3e511da25ac210a11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:13 +0000
Subject: [PATCH 22/49] fix: request of a client without namespace doesn't
 reach mirrors

---
 zdbd/commands.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zdbd/commands.c b/zdbd/commands.c
index f20a994..76124b7 100644
--- a/zdbd/commands.c
+++ b/zdbd/commands.c
@@ -169,6 +169,11 @@ int redis_dispatcher(redis_client_t *client) {
     // is not available anymore and we disconnect it
     if(client->ns == NULL) {
         zdbd_debug("[-] command: request fd: %d, no namespace, disconnecting.\n", client->fd);
+
+        // this request executes nothing, mirrors and watchers
+        // don't have to be notified (there is no namespace anymore)
+        client->executed = NULL;
+
         redis_hardsend(client, "-Your active namespace is not available anymore (probably removed).");
         return RESP_STATUS_DISCARD;
     }
-- 
2.43.0


From 21c0eed9476a083597510e194f8d72d1256d7cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:58 +0000
Subject: [PATCH 23/49] fix: requests of a regular client are owned by the
 instance

---
 zdbd/redis.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index a0dffc4..e3145a6 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -892,6 +892,9 @@ redis_client_t *socket_client_new(int fd) {
     client->request->argc = 0;
     client->request->argv = NULL;
 
+    // by default, requests are owned by this instance
+    client->request->owner = zdb_instanceid_get();
+
     // attach default namespace to this client
     client->ns = namespace_get_default();
 
-- 
2.43.0


From b1cbbab76ff901166800fc04d5395ee2d1db329c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:17 +0000
Subject: [PATCH 24/49] fix: request of a master client without valid owner is
 refused

---
 zdbd/redis.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index e3145a6..ad6adb7 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -611,11 +611,19 @@ static inline int redis_handle_resp_ownerid(redis_client_t *client) {
     }
 
     // this comes from a replication client
+    // there is nothing left to execute without the owner id
+    if(client->request->argc < 2) {
+        zdbd_debug("[-] redis: owner check: missing owner, dropping\n");
+        redis_hardsend(client, "-Missing owner id");
+        return 1;
+    }
+
     // extracting the owner id (which is the last argument)
     // and checking if it's a replay of our own database
     resp_object_t *ownobj = client->request->argv[client->request->argc - 1];
     if(ownobj->length > 32) {
         zdbd_debug("[-] redis: owner check: malformed owner, id is too long, dropping\n");
+        redis_hardsend(client, "-Malformed owner id");
         return 1;
     }
 
-- 
2.43.0


From db34fe953dc304fa3a5a904059f39ad237153ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:39 +0000
Subject: [PATCH 25/49] fix: discard an incomplete index entry left by an
 interrupted append

Loading it read beyond the end of the file contents and inserted a garbage
key, and entries appended after it could not be found any more.
---
 libzdb/index_loader.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index e1f32a8..040e028 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -349,6 +349,18 @@ static size_t index_load_file(index_root_t *root) {
 
         entry = (index_item_t *) seeker;
         off_t offset = seeker - filebuf;
+        size_t remain = fullsize - offset;
+
+        // the last append on this file was interrupted, this entry was never
+        // acknowledged and the next entry needs to be written at this place
+        if(remain < sizeof(index_item_t) || remain < sizeof(index_item_t) + entry->idlength) {
+            zdb_warning("[-] index: loader: incomplete entry found, discarding it");
+
+            if(!(root->status & INDEX_READ_ONLY) && ftruncate(root->indexfd, offset) < 0)
+                zdb_warnp("index: loader: discard incomplete entry");
+
+            break;
+        }
 
         // create a gateway struct to fill our index memory
         // this is not nice (lot of copy) but make things more
-- 
2.43.0


From e1adf29a9369d54916881509009598b1a39a06e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:20 +0000
Subject: [PATCH 26/49] fix: NSNEW and NSSET answer an error when their files
 cannot be written

NSNEW killed the daemon when the first index file of the namespace could
not be written, NSSET answered OK when the settings were not saved (and
were lost by a restart). A reload does not need to rewrite headers.
---
 libzdb/data.c             |   9 +++-
 libzdb/index_loader.c     |   3 +-
 libzdb/namespace.c        | 104 +++++++++++++++++++++++++++++++++-----
 libzdb/namespace.h        |   3 +-
 zdbd/commands_namespace.c |  55 +++++++++++++++++---
 5 files changed, 151 insertions(+), 23 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 2faffd2..672deee 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -281,8 +281,13 @@ static int data_create(char *filename, fileid_t dataid, data_root_t *root) {
 }
 
 void data_initialize(char *filename, data_root_t *root) {
-    if(data_create(filename, root->dataid, root))
-        zdb_diep(filename);
+    struct stat sb;
+
+    if(data_create(filename, root->dataid, root)) {
+        // this is not an issue if the header is already there
+        if(stat(filename, &sb) != 0 || sb.st_size < (off_t) sizeof(data_header_t))
+            zdb_diep(filename);
+    }
 }
 
 // simply set globally the current filename based on it's id
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 040e028..36ebf7c 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -282,8 +282,9 @@ static size_t index_load_file(index_root_t *root) {
         header.opened = 0;
         lseek(root->indexfd, 0, SEEK_SET);
 
+        // the header is already there, this is not required to continue
         if(!index_write(root->indexfd, &header, sizeof(index_header_t), root))
-            zdb_diep(root->indexfile);
+            zdb_warnp(root->indexfile);
     }
 
     /*
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 6b8a56a..d489e70 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -66,8 +66,8 @@ namespace_t *namespace_get(char *name) {
     return NULL;
 }
 
-// FIXME: no error handled externally
-void namespace_descriptor_update(namespace_t *namespace, int fd) {
+// returns non-zero if the descriptor could not be written
+int namespace_descriptor_update(namespace_t *namespace, int fd) {
     ns_header_t header;
 
     zdb_debug("[+] namespaces: updating header\n");
@@ -95,11 +95,15 @@ void namespace_descriptor_update(namespace_t *namespace, int fd) {
     if(namespace->password)
         memcpy(buffer + sizeof(ns_header_t) + header.namelength, namespace->password, header.passlength);
 
-    if(pwrite(fd, buffer, length, 0) != (ssize_t) length)
+    if(pwrite(fd, buffer, length, 0) != (ssize_t) length) {
         zdb_warnp("namespace header write");
+        return 1;
+    }
 
     // ensure metadata are written
     fsync(fd);
+
+    return 0;
 }
 
 static int namespace_descriptor_open(namespace_t *namespace) {
@@ -128,9 +132,9 @@ static int namespace_descriptor_load(namespace_t *namespace) {
 
     if(read(fd, &header, sizeof(ns_header_t)) != sizeof(ns_header_t)) {
         // probably new file, let's write initial namespace information
-        namespace_descriptor_update(namespace, fd);
+        int failed = namespace_descriptor_update(namespace, fd);
         close(fd);
-        return 0;
+        return failed ? -1 : 0;
     }
 
     if(header.version != NAMESPACE_CURRENT_VERSION) {
@@ -177,19 +181,27 @@ static void namespace_commit_hook(namespace_t *namespace) {
     hook_execute(hook);
 }
 
-// update persistence data of a namespace
-// basically, this rewrites it's metadata on disk
-int namespace_commit(namespace_t *namespace) {
-    int fd;
+// write the settings of a namespace on disk
+int namespace_save(namespace_t *namespace) {
+    int fd, failed;
 
     if((fd = namespace_descriptor_open(namespace)) < 0)
         return fd;
 
     // update metadata
-    namespace_descriptor_update(namespace, fd);
+    failed = namespace_descriptor_update(namespace, fd);
 
     close(fd);
 
+    return failed ? -1 : 0;
+}
+
+// update persistence data of a namespace
+// basically, this rewrites it's metadata on disk
+int namespace_commit(namespace_t *namespace) {
+    if(namespace_save(namespace) < 0)
+        return -1;
+
     // trigger updated hook
     namespace_commit_hook(namespace);
 
@@ -340,6 +352,54 @@ static void namespace_create_hook(namespace_t *namespace) {
     hook_execute(hook);
 }
 
+// check if nothing exists yet for a namespace in this directory
+static int namespace_path_unused(char *prefix, char *name) {
+    char *path;
+    int unused;
+
+    if(!(path = namespace_path(prefix, name)))
+        return 0;
+
+    unused = (access(path, F_OK) != 0);
+    free(path);
+
+    return unused;
+}
+
+// remove the directories of a namespace which could not be created
+static void namespace_discard(char *name) {
+    char *prefix[] = {nsroot->settings->indexpath, nsroot->settings->datapath};
+    char *path;
+
+    for(int i = 0; i < 2; i++) {
+        if((path = namespace_path(prefix[i], name))) {
+            zdb_dir_remove(path);
+            free(path);
+        }
+    }
+}
+
+// create the first index and data files of a new namespace, returns
+// non-zero if this is not possible
+static int namespace_prepare(namespace_t *namespace) {
+    index_root_t *index = index_init_lazy(nsroot->settings, namespace->indexpath, namespace);
+    data_root_t *data = data_init_lazy(nsroot->settings, namespace->datapath, 0);
+    int failed = 0;
+
+    index_set_id(index, 0);
+
+    if(zdb_file_exists(index->indexfile) != ZDB_FILE_EXISTS)
+        failed = index_create(index->indexfile, 0, index);
+
+    if(!failed && zdb_file_exists(data->datafile) != ZDB_FILE_EXISTS)
+        failed = data_jump_prepare(data, 0);
+
+    index_destroy(index);
+    data_destroy(data);
+
+    return failed;
+}
+
 //
 // create (load) a new namespace
 //
@@ -353,9 +413,29 @@ int namespace_create(char *name) {
 
     zdb_log("[+] namespace: creating: %s\n", name);
 
-    // call the generic namespace loader
-    if(!(namespace = namespace_load(nsroot, name)))
+    // call the generic namespace loader, if this is not possible (no space
+    // left, ...) nothing is left on the disk
+    int fresh = namespace_path_unused(nsroot->settings->indexpath, name) &&
+                namespace_path_unused(nsroot->settings->datapath, name);
+
+    if(!(namespace = namespace_load_light(nsroot, name, 1))) {
+        if(fresh)
+            namespace_discard(name);
+
         return 0;
+    }
+
+    if(namespace_prepare(namespace)) {
+        namespace_free(namespace);
+
+        if(fresh)
+            namespace_discard(name);
+
+        return 0;
+    }
+
+    // populating memory
+    namespace_load_lazy(nsroot, namespace);
 
     // append the namespace to the main list
     if(!namespace_push(nsroot, namespace))
diff --git a/libzdb/namespace.h b/libzdb/namespace.h
index af9a612..ffed495 100644
--- a/libzdb/namespace.h
+++ b/libzdb/namespace.h
@@ -71,7 +71,7 @@
 
     size_t namespace_length();
     int namespace_valid_name(char *name);
-    void namespace_descriptor_update(namespace_t *namespace, int fd);
+    int namespace_descriptor_update(namespace_t *namespace, int fd);
 
     namespace_t *namespace_iter();
     namespace_t *namespace_iter_next(namespace_t *namespace);
@@ -79,6 +79,7 @@
     int namespace_create(char *name);
     int namespace_delete(namespace_t *namespace);
     int namespace_commit(namespace_t *namespace);
+    int namespace_save(namespace_t *namespace);
     size_t namespace_jump_next(namespace_t *namespace);
     int namespace_flush(namespace_t *namespace);
     int namespace_reload(namespace_t *namespace);
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 83a39eb..70c0c92 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -426,6 +426,26 @@ static int command_nsset_worm(namespace_t *namespace, char *value) {
     return 0;
 }
 
+static int command_nsset_failed(redis_client_t *client) {
+    redis_hardsend(client, "-Cannot write settings right now");
+    return 1;
+}
+
+static int command_nsset_mode_switch(namespace_t *namespace, index_mode_t mode) {
+    index_mode_t previous = namespace->index->mode;
+
+    namespace->index->mode = mode;
+
+    if(index_switch_mode(namespace->index)) {
+        namespace->index->mode = previous;
+        return 1;
+    }
+
+    index_rehash(namespace->index);
+
+    return 0;
+}
+
 // NSSET mode
 static int command_nsset_mode(redis_client_t *client, namespace_t *namespace, char *value) {
      zdb_settings_t *settings = zdb_settings_get();
@@ -446,15 +466,13 @@ static int command_nsset_mode(redis_client_t *client, namespace_t *namespace, ch
 
     if(strcmp(value, "user") == 0) {
         zdbd_debug("[+] command: nsset: switching to user mode\n");
-        namespace->index->mode = ZDB_MODE_KEY_VALUE;
-        index_switch_mode(namespace->index);
-        index_rehash(namespace->index);
+        if(command_nsset_mode_switch(namespace, ZDB_MODE_KEY_VALUE))
+            return command_nsset_failed(client);
 
     } else if(strcmp(value, "seq") == 0) {
         zdbd_debug("[+] command: nsset: switching to sequential mode\n");
-        namespace->index->mode = ZDB_MODE_SEQUENTIAL;
-        index_switch_mode(namespace->index);
-        index_rehash(namespace->index);
+        if(command_nsset_mode_switch(namespace, ZDB_MODE_SEQUENTIAL))
+            return command_nsset_failed(client);
 
     } else {
         zdbd_debug("[-] command: nsset: unknown mode '%s'\n", value);
@@ -525,6 +543,10 @@ int command_nsset(redis_client_t *client) {
         return 1;
     }
 
+    // keep a copy of the settings, to restore them if they can't be saved
+    namespace_t previous = *namespace;
+    index_mode_t mode = namespace->index->mode;
+
     //
     // testing properties which can be applied
     // to any namespace, including default one
@@ -557,6 +579,9 @@ int command_nsset(redis_client_t *client) {
             return 1;
 
     } else if(strcmp(command, "password") == 0) {
+        // the previous password is kept until settings are saved
+        namespace->password = NULL;
+
         if(command_nsset_password(namespace, value) == 1)
             return 1;
 
@@ -575,7 +600,23 @@ int command_nsset(redis_client_t *client) {
     }
 
     // update persistant setting
-    namespace_commit(namespace);
+    if(namespace_commit(namespace) < 0) {
+        if(namespace->password != previous.password)
+            free(namespace->password);
+
+        *namespace = previous;
+
+        if(namespace->index->mode != mode)
+            command_nsset_mode_switch(namespace, mode);
+
+        // the descriptor could be partially written
+        namespace_save(namespace);
+
+        return command_nsset_failed(client);
+    }
+
+    if(namespace->password != previous.password)
+        free(previous.password);
 
     // confirmation
     redis_hardsend(client, "+OK");
-- 
2.43.0


From 1f5486935da207c1a9bd1f86fd5442d6137b01a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:24 +0000
Subject: [PATCH 27/49] fix: NSSET mode depends on a single write

---
 libzdb/namespace.c        |  2 +-
 libzdb/namespace.h        |  1 +
 zdbd/commands_namespace.c | 11 ++++++++---
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index d489e70..5aa6c7a 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -171,7 +171,7 @@ static int namespace_descriptor_load(namespace_t *namespace) {
     return 1;
 }
 
-static void namespace_commit_hook(namespace_t *namespace) {
+void namespace_commit_hook(namespace_t *namespace) {
     if(!zdb_rootsettings.hook)
         return;
 
diff --git a/libzdb/namespace.h b/libzdb/namespace.h
index ffed495..45f1b12 100644
--- a/libzdb/namespace.h
+++ b/libzdb/namespace.h
@@ -79,6 +79,7 @@
     int namespace_create(char *name);
     int namespace_delete(namespace_t *namespace);
     int namespace_commit(namespace_t *namespace);
+    void namespace_commit_hook(namespace_t *namespace);
     int namespace_save(namespace_t *namespace);
     size_t namespace_jump_next(namespace_t *namespace);
     int namespace_flush(namespace_t *namespace);
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 70c0c92..d35570e 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -599,6 +599,14 @@ int command_nsset(redis_client_t *client) {
         return 1;
     }
 
+    // the mode is persistant on the index itself, there is nothing else to save
+    if(namespace->index->mode != mode) {
+        namespace_commit_hook(namespace);
+        redis_hardsend(client, "+OK");
+
+        return 0;
+    }
+
     // update persistant setting
     if(namespace_commit(namespace) < 0) {
         if(namespace->password != previous.password)
@@ -606,9 +614,6 @@ int command_nsset(redis_client_t *client) {
 
         *namespace = previous;
 
-        if(namespace->index->mode != mode)
-            command_nsset_mode_switch(namespace, mode);
-
         // the descriptor could be partially written
         namespace_save(namespace);
 
-- 
2.43.0


From b9b073b0bfbec130b598e3b20ffd790a919ba249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:17 +0000
Subject: [PATCH 28/49] fix: requests left in the socket when one ends at the
 end of the buffer

---
 zdbd/redis.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index ad6adb7..a47a5f3 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -691,6 +691,7 @@ resp_status_t redis_chunk_read(int fd) {
     resp_request_t *request = client->request;
     buffer_t *buffer = &client->buffer;
     ssize_t length;
+    size_t requested;
 
     // default return value
     int value = RESP_STATUS_SUCCESS;
@@ -702,6 +703,8 @@ go_again:
         return RESP_STATUS_DISCARD;
     }
 
+    requested = buffer->remain;
+
     pzdbd_debug("[+] redis: perform read on the socket\n");
     if((length = recv(fd, buffer->writer, buffer->remain, 0)) < 0) {
         if(errno != EAGAIN && errno != EWOULDBLOCK) {
@@ -808,8 +811,10 @@ go_again:
         return value;
     }
 
-    // not suceed, let's try again
-    if(value != RESP_STATUS_SUCCESS) {
+    // not suceed, or the buffer was completely filled: more data could
+    // be available on the socket, we are notified only one time for them,
+    // let's try again
+    if(value != RESP_STATUS_SUCCESS || (size_t) length == requested) {
         pzdbd_debug("[+] redis: parsing didn't suceed, trying again\n");
         goto go_again;
     }
-- 
2.43.0


From 832a3b5d1e979e2efe267d6992bb64779031e5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 29/49] fix: negative argument lengths were accepted, numbers
 were parsed beyond the read buffer

---
 zdbd/redis.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index a47a5f3..046e5ae 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -81,12 +81,15 @@ static buffer_t buffer_new() {
     // initializing empty buffer
     buffer_reset(&buffer);
 
-    // allocating memory
-    if(!(buffer.buffer = (char *) malloc(sizeof(char) * REDIS_BUFFER_SIZE))) {
+    // allocating memory, one more byte always ends the buffer
+    // as string (numbers are parsed directly from it)
+    if(!(buffer.buffer = (char *) malloc(sizeof(char) * (REDIS_BUFFER_SIZE + 1)))) {
         zdbd_warnp("new client buffer malloc");
         return buffer;
     }
 
+    buffer.buffer[REDIS_BUFFER_SIZE] = '\0';
+
     // reset pointer to the new buffer
     buffer.reader = buffer.buffer;
     buffer.writer = buffer.buffer;
@@ -507,14 +510,20 @@ static resp_status_t redis_handle_resp_header(redis_client_t *client) {
 
     // reading the length of the array
     argument->length = atoi(buffer->reader + 1);
-    // real size is the length + 2 (\r\n)
-    argument->size = argument->length + 2;
+
+    if(argument->length < 0) {
+        resp_discard(client, "Malformed query string");
+        return RESP_STATUS_DISCARD;
+    }
 
     if(argument->length > REDIS_MAX_PAYLOAD) {
         resp_discard(client, "Payload too big");
         return RESP_STATUS_DISCARD;
     }
 
+    // real size is the length + 2 (\r\n)
+    argument->size = argument->length + 2;
+
     if(!(argument->buffer = (unsigned char *) malloc(argument->size))) {
         zdbd_warnp("argument buffer malloc");
         resp_discard(client, "Internal memory error");
-- 
2.43.0


From f078eeb0e0b3bb1d421274a83362cf327c829cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:52 +0000
Subject: [PATCH 30/49] fix: a namespace name with a null byte named another
 namespace, or the directory of all of them

---
 libzdb/namespace.c        | 4 ++++
 zdbd/commands_namespace.c | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 5aa6c7a..0124200 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -448,6 +448,10 @@ int namespace_create(char *name) {
 }
 
 int namespace_valid_name(char *name) {
+    // this would be the root directory of all the namespaces
+    if(*name == '\0')
+        return 0;
+
     if(strcmp(name, ".") == 0 || strcmp(name, "..") == 0)
         return 0;
 
diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index d35570e..252cb54 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -31,7 +31,9 @@ int command_nsnew(redis_client_t *client) {
     // get string formatted namespace
     sprintf(target, "%.*s", request->argv[1]->length, (char *) request->argv[1]->buffer);
 
-    if(!namespace_valid_name(target)) {
+    // the name ends at the first null byte, two different
+    // requested names can't be the same namespace
+    if(strlen(target) != (size_t) request->argv[1]->length || !namespace_valid_name(target)) {
         zdbd_debug("[-] command: nsnew: namespace name doesn't fit critera\n");
         redis_hardsend(client, "-This name is not allowed");
         return 1;
-- 
2.43.0


From 6be1f3e86c63b53fee14cc4b0feb94733e2e7317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:41 +0000
Subject: [PATCH 31/49] fix: index-rebuild crashed on the deletion of a key
 which is not in the index

---
 tools/index-rebuild/index-rebuild.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tools/index-rebuild/index-rebuild.c b/tools/index-rebuild/index-rebuild.c
index dbe86b9..1702107 100644
--- a/tools/index-rebuild/index-rebuild.c
+++ b/tools/index-rebuild/index-rebuild.c
@@ -109,7 +109,9 @@ ssize_t index_rebuild_pass(index_root_t *zdbindex, data_root_t *zdbdata, time_t
         index_entry_t *existing = index_get(zdbindex, entry->id, entry->idlength);
 
         if(entry->flags & DATA_ENTRY_DELETED) {
-            if(index_entry_delete(zdbindex, existing)) {
+            // a deletion can be found twice for the same key, if it was
+            // interrupted before the index was updated
+            if(existing && index_entry_delete(zdbindex, existing)) {
                 fprintf(stderr, "[-] index-rebuild: could not delete index item\n");
                 return -1;
             }
-- 
2.43.0


From 79a1fe12fc8ffeaaa9fc1ee7c814e663861e5bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 32/49] fix: a hook killed by a signal or never started is not
 a success

---
 libzdb/hook.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index dd17c78..4aa6251 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -116,6 +116,15 @@ int hook_append(hook_t *hook, char *argument) {
     return (int) hook->argidx;
 }
 
+// result of a terminated hook: its exit code or, when it was
+// killed by a signal, a failure (like a shell would report it)
+static int hook_result(int status) {
+    if(WIFSIGNALED(status))
+        return 128 + WTERMSIG(status);
+
+    return WEXITSTATUS(status);
+}
+
 pid_t hook_execute(hook_t *hook) {
     pid_t pid;
 
@@ -126,6 +135,10 @@ pid_t hook_execute(hook_t *hook) {
             zdb_warnp("hook: fork");
             pid = 0;
 
+            // never started, this is a failure
+            hook->finished = hook->created;
+            hook->status = EXIT_FAILURE;
+
         } else {
             // adding one pending child
             zdb_rootsettings.stats.childwait += 1;
@@ -152,11 +165,18 @@ int hook_execute_wait(hook_t *hook) {
     child = hook_execute(hook);
     zdb_debug("[+] hooks: waiting for hook to finish: %d\n", child);
 
+    // could not be started, nothing to wait for
+    if(child == 0)
+        return hook->status;
+
+    hook->status = EXIT_FAILURE;
+
     if(waitpid(child, &status, 0) < 0)
         zdb_warnp("waitpid");
+    else
+        hook->status = hook_result(status);
 
     hook->finished = time(NULL);
-    hook->status = WEXITSTATUS(status);
 
     // update stats, since we wait, this won't be handled
     // by recurring scrubber
@@ -232,7 +252,7 @@ void libzdb_hooks_cleanup() {
             // only match same pid and running (not finished) process
             if(hook->pid == pid && hook->finished == 0) {
                 hook->finished = time(NULL);
-                hook->status = WEXITSTATUS(status);
+                hook->status = hook_result(status);
                 break;
             }
         }
-- 
2.43.0


From ac79781b2d6ddca533e156debe4371be43037133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 33/49] fix: orphans reaped along with hooks neither crash the
 daemon nor count as hooks

---
 libzdb/hook.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/libzdb/hook.c b/libzdb/hook.c
index 4aa6251..3393f5e 100644
--- a/libzdb/hook.c
+++ b/libzdb/hook.c
@@ -240,17 +240,19 @@ void libzdb_hooks_cleanup() {
     while((pid = waitpid(-1, &status, WNOHANG)) > 0) {
         zdb_debug("[+] hooks: pid %d terminated, status: %d\n", pid, WEXITSTATUS(status));
 
-        // one child terminated
-        if(WIFEXITED(status) || WIFSIGNALED(status)) {
-            zdb_rootsettings.stats.childwait -= 1;
-        }
-
         // looking for matching hook
         for(size_t i = 0; i < hooks->length; i++) {
             hook_t *hook = hooks->hooks[i];
 
-            // only match same pid and running (not finished) process
+            // empty slot
+            if(hook == NULL)
+                continue;
+
+            // only match same pid and running (not finished) process, the
+            // child can be unknown: when running as init process, we inherit
+            // orphans left by hooks
             if(hook->pid == pid && hook->finished == 0) {
+                zdb_rootsettings.stats.childwait -= 1;
                 hook->finished = time(NULL);
                 hook->status = hook_result(status);
                 break;
-- 
2.43.0


From 5fb046ffc8b244a5cc5a3519bd29f558a4c76b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 34/49] fix: long index paths overflow fixed size buffers

---
 libzdb/bootstrap.c    | 2 +-
 libzdb/index.c        | 4 ++--
 libzdb/index_loader.c | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/libzdb/bootstrap.c b/libzdb/bootstrap.c
index 4c2b089..2138396 100644
--- a/libzdb/bootstrap.c
+++ b/libzdb/bootstrap.c
@@ -93,7 +93,7 @@ static int zdb_lock(char *lockpath) {
 }
 
 zdb_settings_t *zdb_open(zdb_settings_t *zdb_settings) {
-    char lockpath[512];
+    char lockpath[ZDB_PATH_MAX];
 
     //
     // ensure default directories exists
diff --git a/libzdb/index.c b/libzdb/index.c
index d81c931..9f3a92b 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -176,10 +176,10 @@ void index_set_id(index_root_t *root, fileid_t fileid) {
 //
 // open index _without_ changing internal fd
 static int index_open_file_mode(index_root_t *root, fileid_t fileid, int mode) {
-    char filename[512];
+    char filename[ZDB_PATH_MAX];
     int fd;
 
-    sprintf(filename, "%s/i%u", root->indexdir, fileid);
+    snprintf(filename, sizeof(filename), "%s/i%u", root->indexdir, fileid);
     zdb_debug("[+] index: opening file: %s (ro: %s)\n", filename, (mode & O_RDONLY) ? "yes" : "no");
 
     if((fd = open(filename, mode)) < 0) {
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 36ebf7c..4ccb252 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -443,8 +443,8 @@ void index_internal_load(index_root_t *root) {
 
     // legacy check:
     // check for old database file
-    char legacy[256];
-    sprintf(legacy, "%s/zdb-index-00000", root->indexdir);
+    char legacy[ZDB_PATH_MAX];
+    snprintf(legacy, sizeof(legacy), "%s/zdb-index-00000", root->indexdir);
     if(zdb_file_exists(legacy) == ZDB_FILE_EXISTS) {
         zdb_danger("[-] index: =================================");
         zdb_danger("[-] index: unsupported database detected");
-- 
2.43.0


From f2227b80eada7a15d8d7374c75ae16935f1f730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 35/49] fix: HOOKS overflows its response buffer with long
 arguments

---
 zdbd/commands_system.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/zdbd/commands_system.c b/zdbd/commands_system.c
index a2bf6a0..d7909ea 100644
--- a/zdbd/commands_system.c
+++ b/zdbd/commands_system.c
@@ -132,7 +132,19 @@ int command_hooks(redis_client_t *client) {
     if(!command_admin_authorized(client))
         return 1;
 
-    if(!(info = calloc(sizeof(char), (hooks->active + 1) * 1024)))
+    // numbers and protocol fits in 1024 bytes per hook, arguments (paths,
+    // dirty list) can be longer
+    size_t required = (hooks->active + 1) * 1024;
+
+    for(size_t i = 0; i < hooks->length; i++) {
+        if(!(hook = hooks->hooks[i]))
+            continue;
+
+        for(size_t s = 3; s < hook->argc - 1; s++)
+            required += strlen(hook->argv[s]) + 32;
+    }
+
+    if(!(info = calloc(sizeof(char), required)))
         return 1;
 
     len += sprintf(info, "*%lu\r\n", hooks->active);
-- 
2.43.0


From e399c88584a37c4c64122c1b752a07f1e6f35b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 36/49] fix: a lock file which can't be locked is refused,
 nothing stays locked by a refused start

---
 libzdb/bootstrap.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/libzdb/bootstrap.c b/libzdb/bootstrap.c
index 2138396..2fbcc4a 100644
--- a/libzdb/bootstrap.c
+++ b/libzdb/bootstrap.c
@@ -80,12 +80,12 @@ static int zdb_lock(char *lockpath) {
     }
 
     if(flock(fd, LOCK_EX | LOCK_NB) < 0) {
-        if(errno != EWOULDBLOCK) {
+        if(errno != EWOULDBLOCK)
             zdb_warnp(lockpath);
-            return 1;
-        }
+        else
+            zdb_danger("[-] bootstrap: an instance of zdb is already using: %s", lockpath);
 
-        zdb_danger("[-] bootstrap: an instance of zdb is already using: %s", lockpath);
+        close(fd);
         return -1;
     }
 
@@ -129,8 +129,11 @@ zdb_settings_t *zdb_open(zdb_settings_t *zdb_settings) {
         return NULL;
 
     snprintf(lockpath, sizeof(lockpath), "%s/.lockfile", zdb_settings->datapath);
-    if((zdb_settings->datalock = zdb_lock(lockpath)) < 0)
+    if((zdb_settings->datalock = zdb_lock(lockpath)) < 0) {
+        // do not keep index directory locked, we don't use it
+        close(zdb_settings->indexlock);
         return NULL;
+    }
 
     // namespace is the root of the whole index/data system
     // anything related to data is always attached to at least
-- 
2.43.0


From 4eeda3a9090a38de2086137687b0f58a56808699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 37/49] fix: hooks do not inherit the locks of the directories

---
 libzdb/bootstrap.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libzdb/bootstrap.c b/libzdb/bootstrap.c
index 2fbcc4a..05c40cc 100644
--- a/libzdb/bootstrap.c
+++ b/libzdb/bootstrap.c
@@ -74,7 +74,9 @@ static int zdb_lock(char *lockpath) {
 
     zdb_debug("[+] bootstrap: checking lockfile: %s\n", lockpath);
 
-    if((fd = open(lockpath, O_CREAT | O_RDONLY, 0664)) < 0) {
+    // hooks must not inherit the lock: it would still be held by them
+    // when this instance is gone
+    if((fd = open(lockpath, O_CREAT | O_RDONLY | O_CLOEXEC, 0664)) < 0) {
         zdb_warnp(lockpath);
         return -1;
     }
-- 
2.43.0


From c8b86bdd2c5a5abcaae30676e922d7d9bb46b84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:06 +0000
Subject: [PATCH 38/49] fix: KSCAN is refused in a frozen namespace like every
 other read

---
 zdbd/commands_scan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zdbd/commands_scan.c b/zdbd/commands_scan.c
index 48cd339..92bbf9a 100644
--- a/zdbd/commands_scan.c
+++ b/zdbd/commands_scan.c
@@ -477,6 +477,9 @@ int command_kscan(redis_client_t *client) {
     if(!command_args_validate(client, 2))
         return 1;
 
+    if(namespace_is_frozen(client->ns))
+        return command_error_frozen(client);
+
     resp_object_t *key = request->argv[1];
     list_t keys = list_init(NULL);
 
-- 
2.43.0


From 26de5419b34515c9120027e8fdb56135458cceca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 39/49] fix: a closed connection is removed from epoll

While a hook is being started (or runs, and inherited the connection), the
file descriptor is shared: after close(), epoll still notified about it, and
the daemon used the client it had released (crash), or a new client which got
the same number.
---
 zdbd/socket_epoll.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/zdbd/socket_epoll.c b/zdbd/socket_epoll.c
index a23efe9..1665498 100644
--- a/zdbd/socket_epoll.c
+++ b/zdbd/socket_epoll.c
@@ -51,6 +51,15 @@ static int socket_client_accept(redis_handler_t *redis, int fd) {
     return 1;
 }
 
+// the file descriptor is shared with an hook which is starting: closing it
+// is not enough to not be notified about this connection anymore
+static void socket_client_discard(redis_handler_t *redis, int fd) {
+    if(epoll_ctl(redis->evfd, EPOLL_CTL_DEL, fd, NULL) < 0)
+        zdbd_verbosep("socket_event", "epoll_ctl");
+
+    socket_client_free(fd);
+}
+
 static int socket_event(struct epoll_event *events, int notified, redis_handler_t *redis) {
     struct epoll_event *ev;
 
@@ -62,7 +71,7 @@ static int socket_event(struct epoll_event *events, int notified, redis_handler_
         // discard this client
         if((ev->events & EPOLLERR) || (ev->events & EPOLLHUP)) {
             zdbd_verbosep("socket_event", "epoll");
-            socket_client_free(ev->data.fd);
+            socket_client_discard(redis, ev->data.fd);
             continue;
         }
 
@@ -89,7 +98,7 @@ static int socket_event(struct epoll_event *events, int notified, redis_handler_
 
             // client error, we discard it
             if(ctrl == RESP_STATUS_DISCARD || ctrl == RESP_STATUS_DISCONNECTED) {
-                socket_client_free(ev->data.fd);
+                socket_client_discard(redis, ev->data.fd);
                 continue;
             }
 
-- 
2.43.0


From 38e7c7192c3e1c500ad1fc8e914c0d61db3c423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:02 +0000
Subject: [PATCH 40/49] fix: hooks do not inherit the sockets

A hook which was still running kept connections open which the daemon had
closed, and kept the address in use when the daemon was started again.
---
 zdbd/redis.c         | 12 ++++++++++++
 zdbd/redis.h         |  1 +
 zdbd/socket_epoll.c  |  1 +
 zdbd/socket_kqueue.c |  1 +
 4 files changed, 15 insertions(+)

diff --git a/zdbd/redis.c b/zdbd/redis.c
index 046e5ae..408cc62 100644
--- a/zdbd/redis.c
+++ b/zdbd/redis.c
@@ -842,6 +842,17 @@ void socket_nonblock(int fd) {
     fcntl(fd, F_SETFL, flags | O_NONBLOCK);
 }
 
+// sockets are not inherited by the hooks: a hook can outlive a connection,
+// or the daemon itself (and keep the address it listens on in use)
+void socket_cloexec(int fd) {
+    int flags;
+
+    if((flags = fcntl(fd, F_GETFD, 0)) < 0)
+        zdbd_diep("fcntl");
+
+    fcntl(fd, F_SETFD, flags | FD_CLOEXEC);
+}
+
 void socket_keepalive(int fd) {
     int optval = 1;
 
@@ -1364,6 +1375,7 @@ int redis_listen(char *listenaddr, char *port, char *socket) {
     // configuring each sockets
     for(int i = 0; i < redis.fdlen; i++) {
         socket_nonblock(redis.mainfd[i]);
+        socket_cloexec(redis.mainfd[i]);
 
         if(listen(redis.mainfd[i], SOMAXCONN) == -1)
             zdbd_diep("listen");
diff --git a/zdbd/redis.h b/zdbd/redis.h
index 0fc8d22..d7c467a 100644
--- a/zdbd/redis.h
+++ b/zdbd/redis.h
@@ -178,6 +178,7 @@
     resp_status_t redis_delayed_write(int fd);
 
     void socket_nonblock(int fd);
+    void socket_cloexec(int fd);
     void socket_keepalive(int fd);
     void socket_block(int fd);
 
diff --git a/zdbd/socket_epoll.c b/zdbd/socket_epoll.c
index 1665498..5c275e3 100644
--- a/zdbd/socket_epoll.c
+++ b/zdbd/socket_epoll.c
@@ -26,6 +26,7 @@ static int socket_client_accept(redis_handler_t *redis, int fd) {
     }
 
     socket_nonblock(clientfd);
+    socket_cloexec(clientfd);
     socket_keepalive(clientfd);
     socket_client_new(clientfd);
 
diff --git a/zdbd/socket_kqueue.c b/zdbd/socket_kqueue.c
index 5b1f6f7..13757a4 100644
--- a/zdbd/socket_kqueue.c
+++ b/zdbd/socket_kqueue.c
@@ -27,6 +27,7 @@ static int socket_client_accept(redis_handler_t *redis, int fd) {
     }
 
     socket_nonblock(clientfd);
+    socket_cloexec(clientfd);
     socket_keepalive(clientfd);
     socket_client_new(clientfd);
 
-- 
2.43.0


From b9f55307e8a694e8eba7f93d76121e18656a17a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 41/49] fix: hooks run by a program without id (library) do not
 end it

---
 libzdb/data.c  | 4 ++--
 libzdb/index.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libzdb/data.c b/libzdb/data.c
index 672deee..047282d 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -117,7 +117,7 @@ int data_open_notfound_hook(char *filename) {
     zdb_debug("[+] data: trying to fetch missing datafile: %s\n", filename);
 
     hook = hook_new("missing-data", 2);
-    hook_append(hook, zdb_rootsettings.zdbid);
+    hook_append(hook, zdb_rootsettings.zdbid ? zdb_rootsettings.zdbid : "unknown-id");
     hook_append(hook, filename);
     retval = hook_execute_wait(hook);
 
@@ -441,7 +441,7 @@ size_t data_jump_next(data_root_t *root, fileid_t newid) {
 
     if(zdb_rootsettings.hook) {
         hook = hook_new("jump-data", 3);
-        hook_append(hook, zdb_rootsettings.zdbid);
+        hook_append(hook, zdb_rootsettings.zdbid ? zdb_rootsettings.zdbid : "unknown-id");
         hook_append(hook, root->datafile);
     }
 
diff --git a/libzdb/index.c b/libzdb/index.c
index 9f3a92b..24c2bff 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -358,7 +358,7 @@ size_t index_jump_next(index_root_t *root) {
 
     if(zdb_rootsettings.hook) {
         hook = hook_new("jump-index", 4);
-        hook_append(hook, zdb_rootsettings.zdbid);
+        hook_append(hook, zdb_rootsettings.zdbid ? zdb_rootsettings.zdbid : "unknown-id");
         hook_append(hook, root->indexfile);
 
         // generate dirty list string
-- 
2.43.0


From ff549e4cb3911fc1cb3a0d7c34a4d6fa26bf8e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:18 +0000
Subject: [PATCH 42/49] fix: closing the library releases its locks even while
 a hook is being started

---
 libzdb/bootstrap.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libzdb/bootstrap.c b/libzdb/bootstrap.c
index 05c40cc..8964499 100644
--- a/libzdb/bootstrap.c
+++ b/libzdb/bootstrap.c
@@ -162,6 +162,10 @@ void zdb_close(zdb_settings_t *zdb_settings) {
     zdb_settings->initialized = 0;
 
     zdb_debug("[+] bootstrap: releasing locks\n");
+    // a hook being started may hold a copy of these descriptors,
+    // closing them would not be enough
+    flock(zdb_settings->indexlock, LOCK_UN);
+    flock(zdb_settings->datalock, LOCK_UN);
     close(zdb_settings->indexlock);
     close(zdb_settings->datalock);
 }
-- 
2.43.0


From 605b74edef9e70a0cf95df0a66134a571df439cf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:28:03 +0000
Subject: [PATCH 43/49] fix: integrity-check accepts the names data files have

---
 tools/integrity-check/integrity-check.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/integrity-check/integrity-check.c b/tools/integrity-check/integrity-check.c
index 4644a60..b7b556b 100644
--- a/tools/integrity-check/integrity-check.c
+++ b/tools/integrity-check/integrity-check.c
@@ -127,12 +127,12 @@ int main(int argc, char *argv[]) {
     char *filedir = dirname(strdup(filename));
     char *datafile = basename(filename);
 
-    if(strncmp(datafile, "zdb-data-", 9)) {
+    if(datafile[0] != 'd' || datafile[1] < '0' || datafile[1] > '9') {
         fprintf(stderr, "[-] integrity-check: data filename seems wrong\n");
         exit(EXIT_FAILURE);
     }
 
-    fileid_t dataid = atoi(datafile + 9);
+    fileid_t dataid = atoi(datafile + 1);
 
     printf("[+] datafile path: %s\n", filedir);
     printf("[+] datafile name: %s\n", datafile);
-- 
2.43.0


From e5aa6e88b0e3b6460d50e47abe971b36b3d2c6dc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:32:31 +0000
Subject: [PATCH 44/49] fix: integrity-check does not succeed with 256 errors

---
 tools/integrity-check/integrity-check.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/integrity-check/integrity-check.c b/tools/integrity-check/integrity-check.c
index b7b556b..f3620dc 100644
--- a/tools/integrity-check/integrity-check.c
+++ b/tools/integrity-check/integrity-check.c
@@ -162,6 +162,7 @@ int main(int argc, char *argv[]) {
     if((val = data_integrity(zdbdata)))
         fprintf(stderr, "[-] data file inconsistency: %d error(s)\n", val);
 
-    return val;
+    // the exit status only keeps the 8 lowest bits
+    return val ? EXIT_FAILURE : EXIT_SUCCESS;
 }
 
-- 
2.43.0


From 8653ae3b53c6eaaa3dd49e752f85ebd5661f291a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:32:31 +0000
Subject: [PATCH 45/49] fix: namespace-dump reports a namespace which cannot be
 loaded

---
 tools/namespace-dump/namespace-dump.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/namespace-dump/namespace-dump.c b/tools/namespace-dump/namespace-dump.c
index 5873159..0c64d9a 100644
--- a/tools/namespace-dump/namespace-dump.c
+++ b/tools/namespace-dump/namespace-dump.c
@@ -37,6 +37,11 @@ int main(int argc, char *argv[]) {
     ns_root_t *nsroot = namespaces_allocate(zdb_settings);
     namespace_t *ns = namespace_load_light(nsroot, nsname, 0);
 
+    if(!ns) {
+        fprintf(stderr, "[-] namespace-dump: could not load namespace\n");
+        return 1;
+    }
+
     printf("[+] ----------------------------------------\n");
     printf("[+] name        : %s\n", ns->name);
     printf("[+] password    : %s\n", ns->password ? ns->password : "<no password set>");
-- 
2.43.0


From 20536624b8b2ef561a1ff0e6eac7d3f69193d83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:46 +0000
Subject: [PATCH 46/49] fix: quick-compact writes a namespace the daemon can
 open

The files were named zdb-index-00000/zdb-data-00000, which nothing reads nor
writes anymore, and each entry of the new index file had the offset of the
previous record.
---
 tools/quick-compaction/quick-compact.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tools/quick-compaction/quick-compact.c b/tools/quick-compaction/quick-compact.c
index 90a3bb1..fcf1c3e 100644
--- a/tools/quick-compaction/quick-compact.c
+++ b/tools/quick-compaction/quick-compact.c
@@ -144,13 +144,13 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
     uint32_t dataoffset = sizeof(data_header_t);
 
     // create target index and data files
-    snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-index-%05d", output->indexpath, output->nsname, fileid);
+    snprintf(filebuf, sizeof(filebuf), "%s/%s/i%u", output->indexpath, output->nsname, fileid);
 
     printf("[+] quick-compact: creating target index: %s\n", filebuf);
     if((indexfd = open(filebuf, O_CREAT | O_RDWR, 0600)) < 0)
         diep(filebuf);
 
-    snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-data-%05d", output->datapath, output->nsname, fileid);
+    snprintf(filebuf, sizeof(filebuf), "%s/%s/d%u", output->datapath, output->nsname, fileid);
 
     printf("[+] quick-compact: creating target data: %s\n", filebuf);
     if((datafd = open(filebuf, O_CREAT | O_RDWR, 0600)) < 0)
@@ -199,7 +199,9 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
         }
 
         // update offset which could be modified by
-        // previous truncation
+        // previous truncation, this entry will be written
+        // at the current position of the data file
+        dataoffset = lseek(datafd, 0, SEEK_CUR);
         item->offset = dataoffset;
 
         // always reset dataid to this fileid
@@ -229,7 +231,7 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
         if(truedid != fileid) {
             printf("[+] quick-compact: opening another datafile\n");
 
-            snprintf(filebuf, sizeof(filebuf), "%s/%s/zdb-data-%05d", input->datapath, output->nsname, truedid);
+            snprintf(filebuf, sizeof(filebuf), "%s/%s/d%u", input->datapath, output->nsname, truedid);
 
             if((transfd = open(filebuf, O_RDONLY, 0600)) < 0)
                 diep(buffer);
@@ -272,8 +274,7 @@ size_t quick_compact_pass(instance_t *input, instance_t *output, fileid_t fileid
         ssize_t writelen = sizeof(data_entry_header_t) + item->idlength + item->length;
 
         // saving current position as previous entry
-        session->dataprev = lseek(datafd, 0, SEEK_CUR);
-        dataoffset = session->dataprev;
+        session->dataprev = dataoffset;
 
         // writing new data
         if(write(datafd, dataentry, writelen) != writelen)
-- 
2.43.0


From 9a7b14edc7bbf3e9629e15067dde6c2627a46157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:27 +0000
Subject: [PATCH 47/49] fix: --sync forces every write of the index to the disk

The flag of a deleted entry, the entry of an updated sequential key and the
mode of a namespace were written but not synced, a power loss could undo an
acknowledged deletion or update.
---
 libzdb/index.c        | 4 ++++
 libzdb/index_loader.c | 3 +++
 libzdb/index_set.c    | 4 ++++
 3 files changed, 11 insertions(+)

diff --git a/libzdb/index.c b/libzdb/index.c
index 24c2bff..43ec580 100644
--- a/libzdb/index.c
+++ b/libzdb/index.c
@@ -587,6 +587,10 @@ int index_entry_delete_disk(index_root_t *root, index_entry_t *entry) {
         return 1;
     }
 
+    // this file is not (always) the active one, it needs its own flush
+    if(root->sync)
+        fsync(fd);
+
     close(fd);
 
     // mark entry as deleted
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index 4ccb252..ef4b10f 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -717,6 +717,9 @@ int index_switch_mode(index_root_t *root) {
         return 1;
     }
 
+    if(root->sync)
+        fsync(fd);
+
     close(fd);
 
     return 0;
diff --git a/libzdb/index_set.c b/libzdb/index_set.c
index 75c027c..50692ee 100644
--- a/libzdb/index_set.c
+++ b/libzdb/index_set.c
@@ -107,6 +107,10 @@ int index_seq_overwrite(index_root_t *root, index_set_t *set) {
         return 1;
     }
 
+    // this file is not (always) the active one, it needs its own flush
+    if(root->sync)
+        fsync(fd);
+
     close(fd);
 
     // flag index entry as dirty, it was just modified
-- 
2.43.0


From 5df847f61a9c40f631a9abb7a0dba7934a94f4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:59 +0000
Subject: [PATCH 48/49] fix: NSSET on the default namespace does not save the
 password and limit given by options

---
 zdbd/commands_namespace.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zdbd/commands_namespace.c b/zdbd/commands_namespace.c
index 252cb54..105a7b3 100644
--- a/zdbd/commands_namespace.c
+++ b/zdbd/commands_namespace.c
@@ -601,8 +601,9 @@ int command_nsset(redis_client_t *client) {
         return 1;
     }
 
-    // the mode is persistant on the index itself, there is nothing else to save
-    if(namespace->index->mode != mode) {
+    // the mode is persistant on the index itself and the settings of the
+    // default namespace are given by the options: there is nothing else to save
+    if(namespace->index->mode != mode || strcmp(target, NAMESPACE_DEFAULT) == 0) {
         namespace_commit_hook(namespace);
         redis_hardsend(client, "+OK");
 
-- 
2.43.0


From cb5aab283b04edf1bc79cfadda2fee344436e03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:14 +0000
Subject: [PATCH 49/49] fix: discard the incomplete data record a crash left
 behind when loading the active data file

A crash while a large payload is written leaves part of its record at the end of
the active data file. Later records were appended behind it, where walking over
the file (index-rebuild, integrity-check) does not find them. The index loader
already does the same with its own incomplete entry. Nothing is discarded when
the index refers to something behind the incomplete record.
---
 libzdb/data.c         | 40 ++++++++++++++++++++++++++++++++++++++++
 libzdb/data.h         |  1 +
 libzdb/index.h        |  3 +++
 libzdb/index_loader.c | 11 +++++++++++
 libzdb/namespace.c    |  5 +++++
 5 files changed, 60 insertions(+)

diff --git a/libzdb/data.c b/libzdb/data.c
index 047282d..aeaca82 100644
--- a/libzdb/data.c
+++ b/libzdb/data.c
@@ -745,6 +745,46 @@ data_root_t *data_init(zdb_settings_t *settings, char *datapath, fileid_t dataid
     return root;
 }
 
+// the last append on the active file could have been interrupted (crash while
+// writing the payload), what is left of this record was never acknowledged and
+// next records needs to follow the last complete one, otherwise nothing written
+// later could be found when walking over this file (eg: to rebuild the index)
+//
+// known is the end of the last record referenced by the index on this file,
+// nothing is discarded when the index knows something after this record
+void data_discard_incomplete(data_root_t *root, size_t known) {
+    data_entry_header_t header;
+    off_t fullsize = lseek(root->datafd, 0, SEEK_END);
+    off_t offset = sizeof(data_header_t);
+    size_t previous = 0;
+
+    while(offset < fullsize) {
+        lseek(root->datafd, offset, SEEK_SET);
+
+        if(read(root->datafd, &header, sizeof(header)) != (ssize_t) sizeof(header))
+            break;
+
+        off_t next = offset + sizeof(header) + header.idlength + header.datalength;
+        if(next > fullsize)
+            break;
+
+        previous = offset;
+        offset = next;
+    }
+
+    if(offset >= fullsize || known > (size_t) offset)
+        return;
+
+    zdb_warning("[-] data: incomplete record found, discarding it");
+
+    if(ftruncate(root->datafd, offset) < 0) {
+        zdb_warnp("data: discard incomplete record");
+        return;
+    }
+
+    root->previous = previous;
+}
+
 void data_emergency(data_root_t *root) {
     if(!root)
         return;
diff --git a/libzdb/data.h b/libzdb/data.h
index cbcdcf9..da0bcf7 100644
--- a/libzdb/data.h
+++ b/libzdb/data.h
@@ -127,6 +127,7 @@
     } data_request_t;
 
     data_root_t *data_init(zdb_settings_t *settings, char *datapath, fileid_t dataid);
+    void data_discard_incomplete(data_root_t *root, size_t known);
     data_root_t *data_init_lazy(zdb_settings_t *settings, char *datapath, fileid_t dataid);
     int data_open_id_mode(data_root_t *root, fileid_t id, int mode);
 
diff --git a/libzdb/index.h b/libzdb/index.h
index 138622c..dd6b4c0 100644
--- a/libzdb/index.h
+++ b/libzdb/index.h
@@ -211,6 +211,9 @@
 
         size_t previous;    // keep latest offset inserted to the indexfile
 
+        fileid_t datalast;  // last datafile id referenced by loaded entries
+        size_t dataend;     // end of the last record referenced on that datafile
+
     } index_root_t;
 
     // key used in direct mode
diff --git a/libzdb/index_loader.c b/libzdb/index_loader.c
index ef4b10f..5b42606 100644
--- a/libzdb/index_loader.c
+++ b/libzdb/index_loader.c
@@ -380,6 +380,17 @@ static size_t index_load_file(index_root_t *root) {
             .parentoff = entry->parentoff,
         };
 
+        // keep track of where ends what we know about the last datafile
+        size_t dataend = entry->offset + sizeof(data_entry_header_t) + entry->idlength + entry->length;
+
+        if(entry->dataid > root->datalast) {
+            root->datalast = entry->dataid;
+            root->dataend = 0;
+        }
+
+        if(entry->dataid == root->datalast && dataend > root->dataend)
+            root->dataend = dataend;
+
         // insert this entry like it was inserted by a user
         // this allows us to keep a generic way of inserting data and keeping a
         // single point of logic when adding data (logic for overwrite, resize bucket, ...)
diff --git a/libzdb/namespace.c b/libzdb/namespace.c
index 0124200..c2e6bf7 100644
--- a/libzdb/namespace.c
+++ b/libzdb/namespace.c
@@ -245,6 +245,11 @@ static int namespace_load_lazy(ns_root_t *nsroot, namespace_t *namespace) {
     namespace->index = index_init(nsroot->settings, namespace->indexpath, namespace, nsroot->branches);
     namespace->data = data_init(nsroot->settings, namespace->datapath, namespace->index->indexid);
 
+    index_root_t *index = namespace->index;
+
+    if(!(index->status & INDEX_READ_ONLY))
+        data_discard_incomplete(namespace->data, (index->datalast == namespace->data->dataid) ? index->dataend : 0);
+
     return 0;
 }
 
-- 
2.43.0

