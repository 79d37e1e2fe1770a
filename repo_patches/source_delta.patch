From 1ed01a9f44fccbf1b21b1c848e9d2aabb2fd9567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:29 +0000
Subject: [PATCH 01/74] fix: OR path matches into the hits of the other parts
 of the same search key

---
 search.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/search.c b/search.c
index 27b02b8..6b6ac26 100644
--- a/search.c
+++ b/search.c
@@ -325,19 +325,19 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
       /* Optimise common cases for few errors to allow optimizer to keep bitmaps
        * in registers */
       case 0:
-        hits[i] = substring_match_0(a, hit, left_anchor, token);
+        hits[i] |= substring_match_0(a, hit, left_anchor, token);
         break;
       case 1:
-        hits[i] = substring_match_1(a, hit, left_anchor, token);
+        hits[i] |= substring_match_1(a, hit, left_anchor, token);
         break;
       case 2:
-        hits[i] = substring_match_2(a, hit, left_anchor, token);
+        hits[i] |= substring_match_2(a, hit, left_anchor, token);
         break;
       case 3:
-        hits[i] = substring_match_3(a, hit, left_anchor, token);
+        hits[i] |= substring_match_3(a, hit, left_anchor, token);
         break;
       default:
-        hits[i] = substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
+        hits[i] |= substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
         break;
     }
 next_message:
-- 
2.43.0


From 4fc4dfad9365b0800db94f844b7eacd7b7f6eebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:25 +0000
Subject: [PATCH 02/74] fix: rescan a message file whose size changed although
 its mtime did not

---
 db.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db.c b/db.c
index 3b37ace..b5dd72d 100644
--- a/db.c
+++ b/db.c
@@ -942,7 +942,8 @@ int update_database(struct database *db, struct msgpath *sorted_paths, int n_msg
           } else {
             switch (do_stat(sorted_paths + matched_index)) {
               case STAT_RESULT_FILE:
-                if (sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime) {
+                if ((sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime) &&
+                    (sorted_paths[matched_index].src.mpf.size == db->msgs[i].src.mpf.size)) {
                   /* Treat stale files as though the path has changed. */
                   file_in_db[matched_index] = 1;
                   file_in_new_list[i] = 1;
-- 
2.43.0


From 008988d9aaebc54e5ead8836d8ab4621d0e9bad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:50 +0000
Subject: [PATCH 03/74] fix: keep vanished messages out of threads and renumber
 threads when purging

---
 db.c     | 18 +++++++++++++++---
 search.c |  2 +-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/db.c b/db.c
index b5dd72d..254f639 100644
--- a/db.c
+++ b/db.c
@@ -787,6 +787,10 @@ static void find_threading(struct database *db)/*{{{*/
       int cur, first=1;
       int new_base=-1, old_base;
       while (int_list_reader_read(&ilr, &cur)) {
+        if (db->type[cur] == MTY_DEAD) {
+          /* A message that has gone doesn't join others into a thread. */
+          continue;
+        }
         if (first) {
           new_base = find_base(ix, cur);
           first = 0;
@@ -815,7 +819,9 @@ static void find_threading(struct database *db)/*{{{*/
   /* Now allocate contiguous thread group numbers */
   next_tid = 0;
   for (i=0; i<np; i++) {
-    if (ix[i] == i) {
+    if (db->type[i] == MTY_DEAD) {
+      db->msgs[i].tid = 0; /* not in any thread */
+    } else if (ix[i] == i) {
       db->msgs[i].tid = next_tid++;
     } else {
       db->msgs[i].tid = db->msgs[ix[i]].tid;
@@ -1048,9 +1054,10 @@ int update_database(struct database *db, struct msgpath *sorted_paths, int n_msg
   /* Add newly found mbox messages. */
   any_new |= add_mbox_messages(db);
 
-  if (any_new) {
+  if (any_new || (n_newly_pruned > 0)) {
     find_threading(db);
-  } else {
+  }
+  if (!any_new) {
     if (verbose) fprintf(stderr, "No new messages found\n");
   }
 
@@ -1314,6 +1321,11 @@ int cull_dead_messages(struct database *db, int do_integrity_checks)/*{{{*/
   /* .. and cull dead mboxen */
   cull_dead_mboxen(db);
 
+  if (any_culled) {
+    /* Thread numbers have to stay below the number of messages. */
+    find_threading(db);
+  }
+
   return any_culled;
 }
 /*}}}*/
diff --git a/search.c b/search.c
index 6b6ac26..e37aa65 100644
--- a/search.c
+++ b/search.c
@@ -1057,7 +1057,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
     tids = new_array(char, db->n_msgs);
     memset(tids, 0, db->n_msgs);
     for (i=0; i<db->n_msgs; i++) {
-      if (hit3[i]) {
+      if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD) {
         tids[db->tid_table[i]] = 1;
       }
     }
-- 
2.43.0


From 73263ead88d57a08f10e3f4c882b552aeca185f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:01 +0000
Subject: [PATCH 04/74] fix: rescan an mbox message that grew after it was
 indexed as the last one

---
 mbox.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mbox.c b/mbox.c
index 49e973a..5a7efdd 100644
--- a/mbox.c
+++ b/mbox.c
@@ -124,6 +124,13 @@ static int message_is_intact(struct mbox *mb, int idx, char *va, size_t len)/*{{
     return 0;
   } else {
     checksum_t csum;
+    size_t end = mb->start[idx] + mb->len[idx];
+    if ((end < len) &&
+        ((len - end < 5) || (memcmp(va + end, "From ", 5) && memcmp(va + end, "\1\1\1\1\n", 5)))) {
+      /* Was the last message in the file, and has grown since then (e.g. its
+         delivery was still in progress.) */
+      return 0;
+    }
     compute_checksum(va + mb->start[idx], mb->len[idx], &csum);
     if (!memcmp(mb->check_all[idx], &csum, sizeof(checksum_t))) {
       return 1;
-- 
2.43.0


From bbbc04a0e546f31d018be24a1bfb33a405aafb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:37 +0000
Subject: [PATCH 05/74] fix: never unmap a decompressed mbox that the mapping
 cache still holds

---
 rfc822.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rfc822.c b/rfc822.c
index c3dcdfb..cad3593 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1333,6 +1333,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
     if (ro) {
       *data = ro->map;
       *len = ro->len;
+      data_alloc_type = ALLOC_NONE; /* the cache keeps the mapping */
       return;
     }
 
-- 
2.43.0


From f4545110caefde62a624c734a6dba7d229c81ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:29 +0000
Subject: [PATCH 06/74] fix: replace the database atomically instead of
 overwriting it in place

A kill or an I/O error while the database was being written left a corrupt
database behind.  Write a new file and rename it over the old one.
---
 writer.c | 78 ++++++++++++++++++++++++++++++++------------------------
 1 file changed, 44 insertions(+), 34 deletions(-)

diff --git a/writer.c b/writer.c
index 4b37274..8b0821a 100644
--- a/writer.c
+++ b/writer.c
@@ -86,47 +86,41 @@ struct write_map {/*{{{*/
 };
 /*}}}*/
 
-static void create_rw_mapping(char *filename, size_t len, int *out_fd, char **out_data)/*{{{*/
+static void give_up_writing(const char *what, const char *filename)/*{{{*/
+{
+  /* Leave the previous database (if any) alone, only clear up the partly
+   * written new one. */
+  report_error(what, filename);
+  unlink(filename);
+  unlock_and_exit(2);
+}
+/*}}}*/
+static void create_rw_mapping(char *filename, size_t len, mode_t mode, int *out_fd, char **out_data)/*{{{*/
 {
   int fd;
   char *data;
-  struct stat sb;
 
-  fd = open(filename, O_RDWR | O_CREAT, 0600);
+  /* Anything there already is left over from an interrupted run. */
+  unlink(filename);
+  fd = open(filename, O_RDWR | O_CREAT | O_TRUNC, 0600);
   if (fd < 0) {
     report_error("open", filename);
     unlock_and_exit(2);
   }
 
-  if (fstat(fd, &sb) < 0) {
-    report_error("stat", filename);
-    unlock_and_exit(2);
+  if (mode && (fchmod(fd, mode) < 0)) {
+    give_up_writing("fchmod", filename);
   }
-
-  if (sb.st_size < len) {
-    /* Extend */
-    if (lseek(fd, len - 1, SEEK_SET) < 0) {
-      report_error("lseek", filename);
-      unlock_and_exit(2);
-    }
-    if (write(fd, "\000", 1) < 0) {
-      report_error("write", filename);
-      unlock_and_exit(2);
-    }
-  } else if (sb.st_size > len) {
-    /* Truncate */
-    if (ftruncate(fd, len) < 0) {
-      report_error("ftruncate", filename);
-      unlock_and_exit(2);
-    }
-  } else {
-    /* Exactly the right length already - nothing to do! */
+  if (lseek(fd, len - 1, SEEK_SET) < 0) {
+    give_up_writing("lseek", filename);
+  }
+  if (write(fd, "\000", 1) != 1) {
+    give_up_writing("write", filename);
   }
 
   data = mmap(0, len, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
   if (data == MAP_FAILED) {
-    report_error("writer:mmap", filename);
-    unlock_and_exit(2);
+    give_up_writing("writer:mmap", filename);
   }
 
   *out_data = data;
@@ -577,6 +571,9 @@ void write_database(struct database *db, char *filename, int do_integrity_checks
 {
   int file_len;
   int fd;
+  char *real_name, *new_name;
+  struct stat sb;
+  mode_t mode = 0;
   char *data, *cdata;
   unsigned int *uidata;
   struct write_map map;
@@ -594,7 +591,18 @@ void write_database(struct database *db, char *filename, int do_integrity_checks
 
   file_len = char_length(db) + (4 * map.beyond_last_ui_offset);
 
-  create_rw_mapping(filename, file_len, &fd, &data);
+  /* Write to a new file that replaces the old one once it's complete, so that
+   * there's a usable database whatever happens on the way. */
+  real_name = realpath(filename, NULL); /* look through a symlink */
+  if (real_name) {
+    if (stat(real_name, &sb) >= 0) mode = sb.st_mode & 07777;
+    filename = real_name;
+  }
+  new_name = new_array(char, strlen(filename) + sizeof(".new"));
+  strcpy(new_name, filename);
+  strcat(new_name, ".new");
+
+  create_rw_mapping(new_name, file_len, mode, &fd, &data);
   uidata = (unsigned int *) data; /* align(int) < align(page)! */
   cdata = data + (4 * map.beyond_last_ui_offset);
 
@@ -614,16 +622,18 @@ void write_database(struct database *db, char *filename, int do_integrity_checks
   /* Write data */
   /* Unmap / close file */
   if (munmap(data, file_len) < 0) {
-    report_error("munmap", filename);
-    unlock_and_exit(2);
+    give_up_writing("munmap", new_name);
   }
   if (fsync(fd) < 0) {
-    report_error("fsync", filename);
-    unlock_and_exit(2);
+    give_up_writing("fsync", new_name);
   }
   if (close(fd) < 0) {
-    report_error("close", filename);
-    unlock_and_exit(2);
+    give_up_writing("close", new_name);
+  }
+  if (rename(new_name, filename) < 0) {
+    give_up_writing("rename", new_name);
   }
+  free(new_name);
+  free(real_name);
 }
   /*}}}*/
-- 
2.43.0


From 473bc873750369bc46d986704f243da56a0575fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:54 +0000
Subject: [PATCH 07/74] fix: only hold or remove a lock that is really ours

If link() failed for another reason than a lock file that can be read, mairix
went on without a lock.  An interrupt before the lock was obtained (or after
it was released) removed the lock of another process.
---
 dotlock.c | 57 +++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 43 insertions(+), 14 deletions(-)

diff --git a/dotlock.c b/dotlock.c
index a5b4ead..04183e2 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -24,10 +24,25 @@
 #include <sys/utsname.h>
 #include <sys/types.h>
 #include <pwd.h>
+#include <signal.h>
 #include <unistd.h>
 
+/* Name of the lock file, only set while we hold the lock. */
 static char *lock_file_name = NULL;
 
+/* Keep the signals that make us give up the lock away while the lock changes
+ * hands, so that the handler never sees a half-way state. */
+static void block_signals(sigset_t *old)/*{{{*/
+{
+  sigset_t ss;
+  sigemptyset(&ss);
+  sigaddset(&ss, SIGHUP);
+  sigaddset(&ss, SIGINT);
+  sigaddset(&ss, SIGQUIT);
+  sigprocmask(SIG_BLOCK, &ss, old);
+}
+/*}}}*/
+
 /* This locking code was originally written for tdl */
 
 void lock_database(char *path, int forced_unlock)/*{{{*/
@@ -36,9 +51,10 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   struct passwd *pw;
   int pid;
   int len;
-  char *tname;
+  char *name, *tname;
   struct stat sb;
   FILE *out;
+  sigset_t old_mask;
 
   if (uname(&uu) < 0) {
     perror("uname");
@@ -51,11 +67,11 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   }
   pid = getpid();
   len = 1 + strlen(path) + 5;
-  lock_file_name = new_array(char, len);
-  sprintf(lock_file_name, "%s.lock", path);
+  name = new_array(char, len);
+  sprintf(name, "%s.lock", path);
 
   if (forced_unlock) {
-    unlock_database();
+    unlink(name);
     forced_unlock = 0;
   }
 
@@ -63,7 +79,8 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   /* add on max width of pid field (allow up to 32 bit pid_t) + 2 '.' chars */
   len += (10 + 2);
   tname = new_array(char, len);
-  sprintf(tname, "%s.%d.%s", lock_file_name, pid, uu.nodename);
+  sprintf(tname, "%s.%d.%s", name, pid, uu.nodename);
+  block_signals(&old_mask);
   out = fopen(tname, "w");
   if (!out) {
     fprintf(stderr, "Cannot open lock file %s for writing\n", tname);
@@ -72,7 +89,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   fprintf(out, "%d,%s,%s\n", pid, uu.nodename, pw->pw_name);
   fclose(out);
 
-  if (link(tname, lock_file_name) < 0) {
+  if (link(tname, name) < 0) {
     /* check if link count==2 */
     if (stat(tname, &sb) < 0) {
       fprintf(stderr, "Could not stat the lock file\n");
@@ -81,15 +98,18 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
     } else {
       if (sb.st_nlink != 2) {
         FILE *in;
-        in = fopen(lock_file_name, "r");
+        char line[2048];
+        line[0] = 0;
+        in = fopen(name, "r");
         if (in) {
-          char line[2048];
-          fgets(line, sizeof(line), in);
-          line[strlen(line)-1] = 0; /* strip trailing newline */
-          fprintf(stderr, "Database %s appears to be locked by (pid,node,user)=(%s)\n", path, line);
-          unlink(tname);
-          exit(1);
+          if (fgets(line, sizeof(line), in)) {
+            line[strcspn(line, "\n")] = 0; /* strip trailing newline */
+          }
+          fclose(in);
         }
+        fprintf(stderr, "Database %s appears to be locked by (pid,node,user)=(%s)\n", path, line);
+        unlink(tname);
+        exit(1);
       } else {
         /* lock succeeded apparently */
       }
@@ -97,14 +117,23 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   } else {
     /* lock succeeded apparently */
   }
+  lock_file_name = name;
   unlink(tname);
+  sigprocmask(SIG_SETMASK, &old_mask, NULL);
   free(tname);
   return;
 }
 /*}}}*/
 void unlock_database(void)/*{{{*/
 {
-  if (lock_file_name) unlink(lock_file_name);
+  sigset_t old_mask;
+
+  block_signals(&old_mask);
+  if (lock_file_name) {
+    unlink(lock_file_name);
+    lock_file_name = NULL;
+  }
+  sigprocmask(SIG_SETMASK, &old_mask, NULL);
   return;
 }
 /*}}}*/
-- 
2.43.0


From 31848c060958433b0abb34e084bd1702be010b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:04 +0000
Subject: [PATCH 08/74] fix: release the lock when giving up for lack of memory

---
 mairix.c | 2 +-
 rfc822.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mairix.c b/mairix.c
index dfef26b..724c9e4 100644
--- a/mairix.c
+++ b/mairix.c
@@ -410,7 +410,7 @@ void out_of_mem(char *file, int line, size_t size)/*{{{*/
   write(2, ", ", 2);
   emit_int(size);
   write(2, msg2, sizeof(msg2)-1);
-  exit(2);
+  unlock_and_exit(2);
 }
 /*}}}*/
 void report_error(const char *str, const char *filename)/*{{{*/
diff --git a/rfc822.c b/rfc822.c
index cad3593..5fe4769 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1446,7 +1446,7 @@ void free_ro_mapping(unsigned char *data, int len)/*{{{*/
     r = munmap(data, len);
     if(r < 0) {
       fprintf(stderr, "munmap() errord\n");
-      exit(1);
+      unlock_and_exit(1);
     }
   }
 }
-- 
2.43.0


From 8fa2db28a489896a3bc36078b71d2bc11c89dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:20 +0000
Subject: [PATCH 09/74] fix: do not take an unreadable database for a missing
 one

---
 mairix.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index 724c9e4..8fc4695 100644
--- a/mairix.c
+++ b/mairix.c
@@ -27,6 +27,7 @@
 #include "mairix.h"
 #include "version.h"
 #include <assert.h>
+#include <errno.h>
 #include <sys/types.h>
 #include <sys/stat.h>
 #include <pwd.h>
@@ -68,7 +69,8 @@ static enum filetype classify_file(char *name)/*{{{*/
 {
   struct stat sb;
   if (stat(name, &sb) < 0) {
-    return M_NONE;
+    /* Anything but absence means we can't tell what is there. */
+    return ((errno == ENOENT) || (errno == ENOTDIR)) ? M_NONE : M_OTHER;
   }
   if (S_ISREG(sb.st_mode)) {
     return M_FILE;
-- 
2.43.0


From 14df66d32e66f507ea5d965319d7ea72635a9942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:27 +0000
Subject: [PATCH 10/74] fix: keep the last byte of a copied mbox message unless
 it is the separating empty line

---
 search.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index e37aa65..38f7f12 100644
--- a/search.c
+++ b/search.c
@@ -671,6 +671,13 @@ static void write_to_file(const char *data, size_t len, void *arg)/*{{{*/
 }
 /*}}}*/
 
+static int len_without_separator(const unsigned char *data, int len)/*{{{*/
+{
+  /* The empty line before the next separator isn't part of the message */
+  return ((len > 1) && (data[len-1] == '\n') && (data[len-2] == '\n')) ? (len - 1) : len;
+}
+/*}}}*/
+
 static int had_failed_checksum;
 
 static void get_validated_mbox_msg(struct read_db *db, int msg_index,/*{{{*/
@@ -749,7 +756,7 @@ static void try_copy_to_path(struct read_db *db, int msg_index, char *target_pat
     if (out) {
       fprintf(out, "X-source-folder: %s\n",
               db->data + db->mbox_paths_table[mbi]);
-      fwrite(start, sizeof(char), msg_len?msg_len-1:0, out);
+      fwrite(start, sizeof(char), len_without_separator(start, msg_len), out);
       fclose(out);
     }
   }
-- 
2.43.0


From c5e91b96867b32fe9b7204a7d6bedca6dc4ce040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:38 +0000
Subject: [PATCH 11/74] fix: when augmenting, never write over (or through)
 what is in the match folder already

---
 search.c | 92 ++++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 80 insertions(+), 12 deletions(-)

diff --git a/search.c b/search.c
index 38f7f12..08b22d8 100644
--- a/search.c
+++ b/search.c
@@ -557,7 +557,7 @@ static void find_flag_matches_in_table(struct read_db *db, char *flag_expr, char
 }
 /*}}}*/
 
-static char *mk_maildir_path(int token, char *output_dir, int is_in_new,
+static char *mk_maildir_path(int token, int attempt, char *output_dir, int is_in_new,
     int is_seen, int is_replied, int is_flagged)/*{{{*/
 {
   char *result;
@@ -568,7 +568,11 @@ static char *mk_maildir_path(int token, char *output_dir, int is_in_new,
   result = new_array(char, len + 1 + sizeof(":2,FRS"));
   strcpy(result, output_dir);
   strcat(result, is_in_new ? "/new/" : "/cur/");
-  sprintf(uniq_buf, "123456789.%d.mairix", token);
+  if (attempt > 0) {
+    sprintf(uniq_buf, "123456789.%d_%d.mairix", token, attempt);
+  } else {
+    sprintf(uniq_buf, "123456789.%d.mairix", token);
+  }
   strcat(result, uniq_buf);
   if (is_seen || is_replied || is_flagged) {
     strcat(result, ":2,");
@@ -594,6 +598,26 @@ static char *mk_mh_path(int token, char *output_dir)/*{{{*/
   return result;
 }
 /*}}}*/
+static int path_in_use(const char *path)/*{{{*/
+{
+  struct stat sb;
+  return (lstat(path, &sb) >= 0);
+}
+/*}}}*/
+static int is_lone_file(const char *path)/*{{{*/
+{
+  /* A file of our own, i.e. not (another name of) one of the messages */
+  struct stat sb;
+  return (lstat(path, &sb) >= 0) && S_ISREG(sb.st_mode) && (sb.st_nlink == 1);
+}
+/*}}}*/
+static int is_same_file(const char *path1, const char *path2)/*{{{*/
+{
+  struct stat sb1, sb2;
+  return (stat(path1, &sb1) >= 0) && (stat(path2, &sb2) >= 0) &&
+    (sb1.st_dev == sb2.st_dev) && (sb1.st_ino == sb2.st_ino);
+}
+/*}}}*/
 static int looks_like_maildir_new_p(const char *p)/*{{{*/
 {
   const char *s1, *s2;
@@ -741,6 +765,34 @@ static void append_mboxmsg_to_mbox(struct read_db *db, int msg_index, FILE *out)
   }
 }
 /*}}}*/
+static int holds_copy(struct read_db *db, int msg_index, const char *path)/*{{{*/
+{
+  /* Is PATH what try_copy_to_path would write for this message? */
+  unsigned char *data, *start;
+  int mbox_len, msg_len;
+  int mbi, i, result = 0;
+  char *header;
+  FILE *in;
+
+  if (!is_lone_file(path)) return 0;
+  get_validated_mbox_msg(db, msg_index, &mbi, &data, &mbox_len, &start, &msg_len);
+  if (start && (in = fopen(path, "rb"))) {
+    header = new_array(char, strlen(db->data + db->mbox_paths_table[mbi]) + sizeof("X-source-folder: \n"));
+    sprintf(header, "X-source-folder: %s\n", db->data + db->mbox_paths_table[mbi]);
+    result = 1;
+    for (i=0; result && header[i]; i++) result = (getc(in) == (unsigned char) header[i]);
+    msg_len = len_without_separator(start, msg_len);
+    for (i=0; result && (i<msg_len); i++) result = (getc(in) == start[i]);
+    if (result) result = (getc(in) == EOF);
+    free(header);
+    fclose(in);
+  }
+  if (data) {
+    free_ro_mapping(data, mbox_len);
+  }
+  return result;
+}
+/*}}}*/
 static void try_copy_to_path(struct read_db *db, int msg_index, char *target_path)/*{{{*/
 {
   unsigned char *data;
@@ -814,6 +866,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
   int i;
   int ii;
   int n_hits;
+  int mh_token = 0;
   int left_anchor;
   int imap_tried = 0;
   struct imap_ll *imapc;
@@ -1098,10 +1151,15 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
             {
               char *target_path;
               char *message_path;
-              int is_in_new;
+              int is_in_new, attempt = 0;
               message_path = db->data + db->path_offsets[i];
               is_in_new = looks_like_maildir_new_p(message_path);
-              target_path = mk_maildir_path(i, output_path, is_in_new, is_seen, is_replied, is_flagged);
+              target_path = mk_maildir_path(i, attempt, output_path, is_in_new, is_seen, is_replied, is_flagged);
+              /* When augmenting, leave what an earlier search put there */
+              while (path_in_use(target_path) && !is_same_file(target_path, message_path)) {
+                free(target_path);
+                target_path = mk_maildir_path(i, ++attempt, output_path, is_in_new, is_seen, is_replied, is_flagged);
+              }
               create_symlink(message_path, target_path);
               free(target_path);
             }
@@ -1109,7 +1167,12 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
           case DB_MSG_IMAP:
             {
               char *target_path;
-              target_path = mk_maildir_path(i, output_path, 0, is_seen, is_replied, is_flagged);
+              int attempt = 0;
+              target_path = mk_maildir_path(i, attempt, output_path, 0, is_seen, is_replied, is_flagged);
+              while (path_in_use(target_path) && !is_lone_file(target_path)) {
+                free(target_path);
+                target_path = mk_maildir_path(i, ++attempt, output_path, 0, is_seen, is_replied, is_flagged);
+              }
               GET_IMAP;
               if (imapc) imap_fetch_message_raw(db->data + db->path_offsets[i], imapc, write_to_file, target_path);
               free(target_path);
@@ -1117,7 +1180,12 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
             break;
           case DB_MSG_MBOX:
             {
-              char *target_path = mk_maildir_path(i, output_path, !is_seen, is_seen, is_replied, is_flagged);
+              int attempt = 0;
+              char *target_path = mk_maildir_path(i, attempt, output_path, !is_seen, is_seen, is_replied, is_flagged);
+              while (path_in_use(target_path) && !holds_copy(db, i, target_path)) {
+                free(target_path);
+                target_path = mk_maildir_path(i, ++attempt, output_path, !is_seen, is_seen, is_replied, is_flagged);
+              }
               try_copy_to_path(db, i, target_path);
               free(target_path);
             }
@@ -1128,31 +1196,31 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
 /*}}}*/
     case FT_MH:/*{{{*/
       for (ii=0; ii<n_hits; ii++) {
+        char *target_path;
         i = results[ii];
+        /* When augmenting, carry on after what earlier searches put there */
+        while (target_path = mk_mh_path(mh_token++, output_path), path_in_use(target_path)) {
+          free(target_path);
+        }
         switch (rd_msg_type(db, i)) {
           case DB_MSG_FILE:
             {
-              char *target_path = mk_mh_path(ii, output_path);
               create_symlink(db->data + db->path_offsets[i], target_path);
-              free(target_path);
             }
             break;
           case DB_MSG_IMAP:
             {
-              char *target_path = mk_mh_path(ii, output_path);
               GET_IMAP;
               if (imapc) imap_fetch_message_raw(db->data + db->path_offsets[i], imapc, write_to_file, target_path);
-              free(target_path);
             }
             break;
           case DB_MSG_MBOX:
             {
-              char *target_path = mk_mh_path(ii, output_path);
               try_copy_to_path(db, i, target_path);
-              free(target_path);
             }
             break;
         }
+        free(target_path);
       }
       break;
 /*}}}*/
-- 
2.43.0


From 1bfc99763462d225bd0e35d97ef01072c937c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:44 +0000
Subject: [PATCH 12/74] fix: refuse match folders whose use would remove or mix
 with indexed messages

---
 mairix.c | 81 ++++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 73 insertions(+), 8 deletions(-)

diff --git a/mairix.c b/mairix.c
index 8fc4695..6d4be1e 100644
--- a/mairix.c
+++ b/mairix.c
@@ -81,6 +81,70 @@ static enum filetype classify_file(char *name)/*{{{*/
   }
 }
 /*}}}*/
+static int same_file(const char *dir1, const char *name1, const char *dir2, const char *name2)/*{{{*/
+{
+  /* if cannot even get stat() info, probably not wrecking any mail
+     files or dirs, so treat as different. */
+  struct stat sb1, sb2;
+  char *path1, *path2;
+  int result;
+  path1 = new_array(char, strlen(dir1) + strlen(name1) + 1);
+  path2 = new_array(char, strlen(dir2) + strlen(name2) + 1);
+  strcat(strcpy(path1, dir1), name1);
+  strcat(strcpy(path2, dir2), name2);
+  result = (stat(path1, &sb1) == 0) && (stat(path2, &sb2) == 0) &&
+    (sb1.st_dev == sb2.st_dev) && (sb1.st_ino == sb2.st_ino);
+  free(path1);
+  free(path2);
+  return result;
+}
+/*}}}*/
+static int disturbs_messages(const char *mfolder, const char *folder, enum folder_type ft)/*{{{*/
+{
+  /* Would clearing or filling MFOLDER affect the messages in FOLDER? */
+  static const char *subdirs[3] = {"/new", "/cur", "/tmp"};
+  char *parent, *folder_parent, *base, *folder_base_name;
+  int i, j, len, result = 0;
+
+  parent = new_string(mfolder);
+  for (len = strlen(parent); (len > 1) && (parent[len-1] == '/'); len--) parent[len-1] = '\0';
+  base = strrchr(parent, '/');
+  if (base) *base++ = '\0';
+  folder_parent = new_string(folder);
+  folder_base_name = strrchr(folder_parent, '/');
+  if (folder_base_name) *folder_base_name++ = '\0';
+
+  /* the match folder is in the place of a message */
+  if (base && (ft == FT_MAILDIR)) {
+    for (j=0; j<2; j++) {
+      result |= same_file(mfolder, "", folder, subdirs[j]) || same_file(parent, "/", folder, subdirs[j]);
+    }
+  } else if (base && (ft == FT_MH)) {
+    result |= valid_mh_filename_p(base) && same_file(parent, "/", folder, "");
+  }
+
+  /* the directories that get cleared have messages or an mbox in them */
+  for (i=0; i<3; i++) {
+    if ((output_folder_type == FT_MAILDIR) && !result) {
+      result |= same_file(mfolder, subdirs[i], folder, "");
+      if (ft == FT_MAILDIR) {
+        for (j=0; j<2; j++) result |= same_file(mfolder, subdirs[i], folder, subdirs[j]);
+      } else if ((ft == FT_MBOX) && folder_base_name && (i < 2)) {
+        result |= same_file(mfolder, subdirs[i], folder_parent, "/");
+      }
+    }
+  }
+  if (output_folder_type == FT_MH) {
+    if ((ft == FT_MBOX) && folder_base_name && valid_mh_filename_p(folder_base_name)) {
+      result |= same_file(mfolder, "", folder_parent, "/");
+    }
+  }
+
+  free(parent);
+  free(folder_parent);
+  return result;
+}
+/*}}}*/
 /*{{{ member of*/
 /* returns 1 iff COMPLETE_MFOLDER (i.e. the match folder with
    folder_base prepended if needed) matches one of the FOLDERS after
@@ -94,9 +158,11 @@ int member_of (const char *complete_mfolder,
     struct globber_array *omit_globs) {
   char **raw_paths, **paths;
   int n_raw_paths, n_paths, i;
+  char *real_mfolder;
 
   if (!folders)
     return 0;
+  real_mfolder = realpath(complete_mfolder, NULL);
   split_on_colons(folders, &n_raw_paths, &raw_paths);
   switch (ft) {
     case FT_MAILDIR:
@@ -114,23 +180,22 @@ int member_of (const char *complete_mfolder,
       break;
   }
   for (i=0; i<n_paths; i++) {
-    struct stat mfolder_sb, src_folder_sb; /* for checking inode numbers */
-
     /* if the complete path names are the same, definitely a match */
     if (strcmp (complete_mfolder, paths[i]) == 0)
       return 1;
     /* also a match if they point to the same file or directory but
        via different routes (e.g. absolute path for one but path with
        ../.. for the other), so check inode numbers */
-    /* if cannot even get stat() info, probably not wrecking any mail
-       files or dirs, so continue, i.e. skip inode check. */
-    if (stat (complete_mfolder, &mfolder_sb) != 0 ||
-        stat (paths[i], &src_folder_sb) != 0)
-      continue;
-    if (mfolder_sb.st_ino == src_folder_sb.st_ino)
+    if (same_file(complete_mfolder, "", paths[i], ""))
+      return 1;
+    /* nor can results go where they would replace or join messages
+       although the folders as such are different */
+    if (disturbs_messages(complete_mfolder, paths[i], ft) ||
+        (real_mfolder && disturbs_messages(real_mfolder, paths[i], ft)))
       return 1;
   }
 
+  free(real_mfolder);
   free_string_array(n_raw_paths, &raw_paths);
   free_string_array(n_paths, &paths);
 
-- 
2.43.0


From cf3e7d818c32bbe25e74b8fbe3017284576a0555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:44 +0000
Subject: [PATCH 13/74] fix: include the first day of the period in d:period
 searches

---
 dates.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dates.c b/dates.c
index e2bbf31..3945852 100644
--- a/dates.c
+++ b/dates.c
@@ -348,10 +348,14 @@ int scan_date_string(char *in, time_t *start, int *has_start, time_t *end, int *
     *has_start = *has_end = 1;
     status = scan_date_expr(in, nullchar, &start_tm, &end_tm);
     if (status) return status;
-    *start = mktime(&start_tm);
+    /* The search is for dates later than start, so that the first day of the
+     * period is found too. */
+    *start = mktime(&start_tm) - 1;
     *end = mktime(&end_tm);
     return 0;
   } else {
+    /* Of a range, the start day itself does not belong to the matches. */
+    start_tm = end_tm;
     if (hyphen+1 < nullchar) {
       *has_end = 1;
       status = scan_date_expr(hyphen+1, nullchar, NULL, &end_tm);
-- 
2.43.0


From 31d019d227396b1b178e5a93c637d9aef2a80fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:53 +0000
Subject: [PATCH 14/74] fix: make relative dates mean days, whatever the time
 of day and however many

---
 dates.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/dates.c b/dates.c
index 3945852..b7d2d31 100644
--- a/dates.c
+++ b/dates.c
@@ -110,6 +110,14 @@ static void set_day(struct tm *x, int y)/*{{{*/
   x->tm_mday = y; /* Always */
 }
 /*}}}*/
+static void set_date(struct tm *x, const struct tm *from)/*{{{*/
+{
+  /* Take over the date only, to keep the time of day (start or end of the day). */
+  x->tm_mday = from->tm_mday;
+  x->tm_mon = from->tm_mon;
+  x->tm_year = from->tm_year;
+}
+/*}}}*/
 static int is_later_dm(struct tm *x, int m, int d)/*{{{*/
 {
   int m1 = m-1;
@@ -125,15 +133,22 @@ static int scan_date_expr(char *first, char *last, struct tm *start, struct tm *
   type = discover_type(first, last);
 
   if (type == DS_SCALED) {/*{{{*/
-    int v;
+    time_t v;
     char *p;
     time_t then;
+    struct tm *then_tm;
 
     p = first;
     v = 0;
     while (isdigit(*p)) {
       v = (v*10) + (*p - '0');
       p++;
+      if (v > 1000000) {
+        fputs("Relative date too far back [", stderr);
+        fwrite(first, sizeof(char), last-first, stderr);
+        fputs("]\n", stderr);
+        return -1;
+      }
     }
     switch(*p) {
       case 'd': v *= 86400; break;
@@ -145,11 +160,12 @@ static int scan_date_expr(char *first, char *last, struct tm *start, struct tm *
         return -1;
     }
     then = now - v;
+    then_tm = localtime(&then);
     if (start) {
-      *start = *localtime(&then);
+      set_date(start, then_tm);
     }
     if (end) {
-      *end = *localtime(&then);
+      set_date(end, then_tm);
     }/*}}}*/
   } else if (type == DS_FAILURE) {
     fputs("Cannot parse date expression [", stderr);
-- 
2.43.0


From 689fdd83b040b9aaebdff43ec11b016e91b3d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:03 +0000
Subject: [PATCH 15/74] fix: let a bare day number mean the latest month that
 has that day

---
 dates.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dates.c b/dates.c
index b7d2d31..a98634a 100644
--- a/dates.c
+++ b/dates.c
@@ -99,13 +99,15 @@ static int last_day(int mon, int y) {/*{{{*/
 static void set_day(struct tm *x, int y)/*{{{*/
 {
   if (y > x->tm_mday) {
-    /* Shorthand for that day in previous month */
-    if (x->tm_mon == 0) {
-      x->tm_mon = 11;
-      --x->tm_year;
-    } else {
-      --x->tm_mon;
-    }
+    /* Shorthand for that day in the latest earlier month that has it */
+    do {
+      if (x->tm_mon == 0) {
+        x->tm_mon = 11;
+        --x->tm_year;
+      } else {
+        --x->tm_mon;
+      }
+    } while (y > last_day(x->tm_mon, x->tm_year));
   }
   x->tm_mday = y; /* Always */
 }
-- 
2.43.0


From b46d61da3ec0de6901ffef93afdab47bf64d1f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:12 +0000
Subject: [PATCH 16/74] fix: do not overflow on sizes of 2 GB and more in z:
 searches

---
 search.c | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/search.c b/search.c
index 08b22d8..d69aa9a 100644
--- a/search.c
+++ b/search.c
@@ -378,21 +378,23 @@ static void match_string_in_table2(struct read_db *db, struct toktable2_db *tt,
   }
 }
 /*}}}*/
-static int parse_size_expr(char *x)/*{{{*/
+static long long parse_size_expr(char *x)/*{{{*/
 {
-  int result;
+  long long result;
   int n;
 
-  if (1 == sscanf(x, "%d%n", &result, &n)) {
+  if (1 == sscanf(x, "%lld%n", &result, &n)) {
+    /* more than any message, and safe to scale */
+    if (result > (1LL << 40)) result = 1LL << 40;
     x += n;
     switch (*x) {
       case 'k':
       case 'K':
-        result <<= 10;
+        result *= 1024;
         break;
       case 'm':
       case 'M':
-        result <<= 20;
+        result *= 1024*1024;
         break;
       default:
         break;
@@ -401,11 +403,12 @@ static int parse_size_expr(char *x)/*{{{*/
     return result;
   } else {
     fprintf(stderr, "Could not parse message size expression <%s>\n", x);
+    unlock_and_exit (2);
     return -1;
   }
 }
 /*}}}*/
-static void parse_size_range(char *size_expr, int *has_start, int *start, int *has_end, int *end)/*{{{*/
+static void parse_size_range(char *size_expr, int *has_start, long long *start, int *has_end, long long *end)/*{{{*/
 {
   char *x = size_expr;
   char *dash;
@@ -445,7 +448,7 @@ static void parse_size_range(char *size_expr, int *has_start, int *start, int *h
 /*}}}*/
 static void find_size_matches_in_table(struct read_db *db, char *size_expr, char *hits)/*{{{*/
 {
-  int start, end;
+  long long start, end;
   int has_start, has_end, start_cond, end_cond;
   int i;
 
@@ -454,7 +457,7 @@ static void find_size_matches_in_table(struct read_db *db, char *size_expr, char
   if (has_start && has_end) {
     /* Allow user to put the endpoints in backwards */
     if (start > end) {
-      int temp = start;
+      long long temp = start;
       start = end;
       end = temp;
     }
-- 
2.43.0


From bfabd109a6505c7ca7262eeafec72fe17950f549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:22 +0000
Subject: [PATCH 17/74] fix: take maildir flags from the file name only

---
 db.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/db.c b/db.c
index 254f639..680e6fb 100644
--- a/db.c
+++ b/db.c
@@ -676,7 +676,8 @@ static void scan_maildir_flags(struct msgpath *m)/*{{{*/
   m->replied = 0;
   m->flagged = 0;
   for (p=start; *p; p++) {}
-  for (p--; (p >= start) && ((*p) != ':'); p--) {}
+  /* The info suffix belongs to the file name, not to a folder on the way. */
+  for (p--; (p >= start) && ((*p) != ':') && ((*p) != '/'); p--) {}
   if (p >= start) {
     if (!strncmp(p, ":2,", 3)) {
       p += 3;
-- 
2.43.0


From fa36bb2f2cee6487fbd1dcd780e84d5f2f1dd48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:24 +0000
Subject: [PATCH 18/74] fix: apply omit patterns below folders given as
 'xxx/...' or '...'

---
 mbox.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mbox.c b/mbox.c
index 5a7efdd..b8ca1ab 100644
--- a/mbox.c
+++ b/mbox.c
@@ -566,7 +566,7 @@ static int append_deep(char *path, int base_len, struct stat *sb, struct string_
         if (!strcmp(de->d_name, ".")) continue;
         if (!strcmp(de->d_name, "..")) continue;
         strcpy(xpath, path);
-        strcat(xpath, "/");
+        if (!*path || (path[strlen(path) - 1] != '/')) strcat(xpath, "/");
         strcat(xpath, de->d_name);
         if (!is_globber_array_match(omit_globs, xpath+base_len)) {
           /* Filter out omissions at this point, e.g. to avoid wasting time on
@@ -764,6 +764,11 @@ static void handle_one_path(const char *folder_base,
   last_comp = last_slash ? (last_slash + 1) : full_path;
   if ((len >= 4) && !strcmp(full_path + (len - 3), "...")) {
     full_path[len - 3] = '\0';
+    /* Drop the slash of 'xxx/...', otherwise it would be doubled in the paths
+     * below it, where the omit patterns would not match. */
+    for (len -= 3; (len > 1) && (len > base_len) && (full_path[len - 1] == '/'); len--) {
+      full_path[len - 1] = '\0';
+    }
     if (is_wild(last_comp)) {
       handle_wild(full_path, base_len, last_comp, list, append_deep, methods, omit_globs);
     } else {
-- 
2.43.0


From 3720d8508e3e3123405f2087d7361397721d925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:12 +0000
Subject: [PATCH 19/74] fix: index the folders below an omitted one unless they
 match an omit pattern themselves

---
 mbox.c | 60 ++++++++++++++++++++++++++--------------------------------
 1 file changed, 27 insertions(+), 33 deletions(-)

diff --git a/mbox.c b/mbox.c
index b8ca1ab..a35e7bc 100644
--- a/mbox.c
+++ b/mbox.c
@@ -568,34 +568,32 @@ static int append_deep(char *path, int base_len, struct stat *sb, struct string_
         strcpy(xpath, path);
         if (!*path || (path[strlen(path) - 1] != '/')) strcat(xpath, "/");
         strcat(xpath, de->d_name);
-        if (!is_globber_array_match(omit_globs, xpath+base_len)) {
-          /* Filter out omissions at this point, e.g. to avoid wasting time on
-           * a recursive expansion of a tree that's going to get pruned in at
-           * the deepest level anyway. */
-          status = (methods->scrutinize)(this_file_matched, de->d_name);
+        /* Omissions are filtered out by append_shallow.  A directory matching an
+         * omit pattern is scanned all the same, because what is inside it need
+         * not match (a single * does not match a /). */
+        status = (methods->scrutinize)(this_file_matched, de->d_name);
 #if 0
-          /* debugging */
-          fprintf(stderr, "scrutinize for %s in %s returned %s\n",
-              de->d_name,
-              path,
-              (status == TRAV_FINISH) ? "FINISH" :
-              (status == TRAV_IGNORE) ? "IGNORE" : "PROCESS");
+        /* debugging */
+        fprintf(stderr, "scrutinize for %s in %s returned %s\n",
+            de->d_name,
+            path,
+            (status == TRAV_FINISH) ? "FINISH" :
+            (status == TRAV_IGNORE) ? "IGNORE" : "PROCESS");
 #endif
-          switch (status) {
-            case TRAV_FINISH:
-              goto done_this_dir;
-            case TRAV_IGNORE:
-              goto next_path;
-            case TRAV_PROCESS:
-              if (stat(xpath, &sb2) >= 0) {
-                if (S_ISREG(sb2.st_mode)) {
-                  appended_any |= append_shallow(xpath, base_len, &sb2, list, methods, omit_globs);
-                } else if (S_ISDIR(sb2.st_mode)) {
-                  appended_any |= append_deep(xpath, base_len, &sb2, list, methods, omit_globs);
-                }
+        switch (status) {
+          case TRAV_FINISH:
+            goto done_this_dir;
+          case TRAV_IGNORE:
+            goto next_path;
+          case TRAV_PROCESS:
+            if (stat(xpath, &sb2) >= 0) {
+              if (S_ISREG(sb2.st_mode)) {
+                appended_any |= append_shallow(xpath, base_len, &sb2, list, methods, omit_globs);
+              } else if (S_ISDIR(sb2.st_mode)) {
+                appended_any |= append_deep(xpath, base_len, &sb2, list, methods, omit_globs);
               }
-              break;
-          }
+            }
+            break;
         }
 next_path:
         (void) 0;
@@ -646,14 +644,10 @@ static void handle_wild(char *path, int base_len, char *last_comp, struct string
         strcpy(xpath, temp_path);
         strcat(xpath, "/");
         strcat(xpath, de->d_name);
-        if (!is_globber_array_match(omit_globs, xpath+base_len)) {
-          /* Filter out omissions at this point, e.g. to avoid wasting time on
-           * a recursive expansion of a tree that's going to get pruned in full
-           * later anyway. */
-          had_matches = 1;
-          if (stat(xpath, &xsb) >= 0) {
-            (*append)(xpath, base_len, &xsb, list, methods, omit_globs);
-          }
+        /* Omissions are filtered out when appending. */
+        had_matches = 1;
+        if (stat(xpath, &xsb) >= 0) {
+          (*append)(xpath, base_len, &xsb, list, methods, omit_globs);
         }
       }
     }
-- 
2.43.0


From 79aaebd2896cbf294614ad6a7e7e699a463b6dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:06 +0000
Subject: [PATCH 20/74] fix: match glob patterns of any length

---
 glob.c | 111 +++++++++++++++++++++++++++++----------------------------
 mbox.c |   2 +-
 2 files changed, 57 insertions(+), 56 deletions(-)

diff --git a/glob.c b/glob.c
index 67f423e..fc46ba0 100644
--- a/glob.c
+++ b/glob.c
@@ -27,11 +27,19 @@
 #include "mairix.h"
 
 
+/* One bit per position in the pattern, so that there is no limit on the
+ * length of the pattern. */
+#define GLOB_BITS 32
+#define GLOB_WORD(n) ((n) / GLOB_BITS)
+#define GLOB_MASK(n) (1U << ((n) % GLOB_BITS))
+
 struct globber {
-  unsigned int pat[256];
-  unsigned int starpat;
-  unsigned int twostarpat;
-  unsigned int hit;
+  unsigned int *pat[256];
+  unsigned int *starpat;
+  unsigned int *twostarpat;
+  unsigned int *reg;    /* workspace for matching */
+  int n_words;
+  int hit;
 };
 
 struct globber_array {
@@ -39,15 +47,17 @@ struct globber_array {
   struct globber **globs;
 };
 
-static const char *parse_charclass(const char *in, struct globber *result, unsigned int mask)/*{{{*/
+static const char *parse_charclass(const char *in, struct globber *result, int n)/*{{{*/
 {
   int first = 1;
   int prev = -1;
+  const int word = GLOB_WORD(n);
+  const unsigned int mask = GLOB_MASK(n);
   in++; /* Advance over '[' */
   while (*in) {
     if (*in == ']') {
       if (first) {
-        result->pat[(int)']'] |= mask;
+        result->pat[(int)']'][word] |= mask;
       } else {
         return in;
       }
@@ -56,7 +66,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
       if ((prev < 0) || !in[1] || (in[1]==']')) {
         /* - at either end of string (or right after an earlier range) means
          * normal - */
-        result->pat['-'] |= mask;
+        result->pat['-'][word] |= mask;
       } else {
         int next = in[1];
         int hi, lo;
@@ -69,7 +79,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
         }
         for (i=lo; i<=hi; i++) {
           int index = 0xff & i;
-          result->pat[index] |= mask;
+          result->pat[index][word] |= mask;
         }
         /* require 1 extra increment */
         in++;
@@ -77,7 +87,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
       }
     } else {
       int index = 0xff & (int)*in;
-      result->pat[index] |= mask;
+      result->pat[index][word] |= mask;
     }
     prev = *in;
     first = 0;
@@ -90,108 +100,99 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
 struct globber *make_globber(const char *wildstring)/*{{{*/
 {
   struct globber *result;
+  unsigned int *words;
   int n, i;
   const char *p;
   char c;
   int index;
-  unsigned int mask;
 
   result = new(struct globber);
-  memset(&result->pat, 0x00, 256*sizeof(unsigned int));
-  memset(&result->starpat, 0x00, sizeof(unsigned int));
-  memset(&result->twostarpat, 0x00, sizeof(unsigned int));
-  mask = 0x1;
+  /* Each character of the wildcard makes 1 position at most, and there is the
+   * final one. */
+  result->n_words = GLOB_WORD(strlen(wildstring)) + 1;
+  words = new_array(unsigned int, (256 + 3) * result->n_words);
+  memset(words, 0x00, (256 + 3) * result->n_words * sizeof(unsigned int));
+  for (i=0; i<256; i++) {
+    result->pat[i] = words + i * result->n_words;
+  }
+  result->starpat = words + 256 * result->n_words;
+  result->twostarpat = words + 257 * result->n_words;
+  result->reg = words + 258 * result->n_words;
 
   n = 0;
   for (p=wildstring; *p; p++) {
-    mask = 1<<n;
     c = *p;
     switch (c) {
       case '*':/*{{{*/
         if (p[1] == '*') {
-          result->twostarpat |= mask;
+          result->twostarpat[GLOB_WORD(n)] |= GLOB_MASK(n);
           p++;
         } else {
           /* Match zero or more of anything */
-          result->starpat |= mask;
+          result->starpat[GLOB_WORD(n)] |= GLOB_MASK(n);
         }
         break;
 /*}}}*/
       case '[':/*{{{*/
-        p = parse_charclass(p, result, mask);
+        p = parse_charclass(p, result, n);
         n++;
+        if (!*p) --p; /* class not terminated */
         break;
 /*}}}*/
       case '?':/*{{{*/
         for (i=0; i<256; i++) {
-          result->pat[i] |= mask;
+          result->pat[i][GLOB_WORD(n)] |= GLOB_MASK(n);
         }
         n++;
         break;
 /*}}}*/
       default:/*{{{*/
         index = 0xff & (int)c;
-        result->pat[index] |= mask;
+        result->pat[index][GLOB_WORD(n)] |= GLOB_MASK(n);
         n++;
         break;
 /*}}}*/
     }
   }
 
-  result->hit = (1<<n);
+  result->hit = n;
   return result;
 
 }
 /*}}}*/
 void free_globber(struct globber *old)/*{{{*/
 {
+  free(old->pat[0]);
   free(old);
 }
 /*}}}*/
 
-#define DODEBUG 0
-
 int is_glob_match(struct globber *g, const char *s)/*{{{*/
 {
-  unsigned int reg;
-  unsigned int stars;
-  unsigned int twostars;
-  unsigned int stars2;
-  int index;
+  int index, i;
 
-  reg = 0x1;
+  memset(g->reg, 0x00, g->n_words * sizeof(unsigned int));
+  g->reg[0] = 0x1;
   while (*s) {
+    unsigned int carry = 0;
     index = 0xff & (int) *s;
-#if DODEBUG
-    printf("*s=%c index=%02x old_reg=%08lx pat=%08lx //",
-           *s, index, reg, g->pat[index]);
-#endif
-    stars = (reg & g->starpat);
-    twostars = (reg & g->twostarpat);
-    if (index != '/') {
-      stars2 = stars | twostars;
-    } else {
-      stars2 = twostars;
+    for (i=0; i<g->n_words; i++) {
+      unsigned int reg = g->reg[i];
+      unsigned int stars;
+      unsigned int next;
+      stars = (reg & g->twostarpat[i]);
+      if (index != '/') {
+        stars |= (reg & g->starpat[i]);
+      }
+      reg &= g->pat[index][i];
+      next = reg >> (GLOB_BITS - 1);
+      g->reg[i] = (reg << 1) | carry | stars;
+      carry = next;
     }
-    reg &= g->pat[index];
-    reg <<= 1;
-    reg |= stars2;
-#if DODEBUG
-    printf(" new_reg=%08lx ", reg);
-    printf("starpat=%08lx stars=%08lx stars2=%08lx\n", g->starpat, stars, stars2);
-#endif
     s++;
   }
 
-#if DODEBUG
-  printf("reg=%08lx hit=%08lx\n", reg, g->hit);
-#endif
-  reg &= g->hit;
-  if (reg) {
-    return 1;
-  } else {
-    return 0;
-  }
+  return (g->reg[GLOB_WORD(g->hit)] & GLOB_MASK(g->hit)) ? 1 : 0;
 }
 /*}}}*/
 
diff --git a/mbox.c b/mbox.c
index a35e7bc..ac63573 100644
--- a/mbox.c
+++ b/mbox.c
@@ -662,7 +662,7 @@ static void handle_wild(char *path, int base_len, char *last_comp, struct string
 
   free(temp_path);
   free(xpath);
-  free(gg);
+  free_globber(gg);
 }
 /*}}}*/
 static void handle_single(char *path, int base_len, struct string_list *list,/*{{{*/
-- 
2.43.0


From 250dda2ae968e652c4963d6d7990af246974b9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:15 +0000
Subject: [PATCH 21/74] fix: take a folder given with a trailing slash for the
 same folder

---
 mbox.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/mbox.c b/mbox.c
index ac63573..4ca102e 100644
--- a/mbox.c
+++ b/mbox.c
@@ -714,6 +714,17 @@ static int is_wild(const char *x)/*{{{*/
   return 0;
 }
 /*}}}*/
+static void drop_trailing_slashes(char *path, int base_len)/*{{{*/
+{
+  /* Drop the slash of 'xxx/' and 'xxx/...', otherwise it would be doubled in the
+   * paths below it, where neither omit patterns nor other definitions of the
+   * same folder would match. */
+  int len;
+  for (len = strlen(path); (len > 1) && (len > base_len) && (path[len - 1] == '/'); len--) {
+    path[len - 1] = '\0';
+  }
+}
+/*}}}*/
 /*{{{ handle_one_path() */
 static void handle_one_path(const char *folder_base,
     const char *path,
@@ -758,17 +769,14 @@ static void handle_one_path(const char *folder_base,
   last_comp = last_slash ? (last_slash + 1) : full_path;
   if ((len >= 4) && !strcmp(full_path + (len - 3), "...")) {
     full_path[len - 3] = '\0';
-    /* Drop the slash of 'xxx/...', otherwise it would be doubled in the paths
-     * below it, where the omit patterns would not match. */
-    for (len -= 3; (len > 1) && (len > base_len) && (full_path[len - 1] == '/'); len--) {
-      full_path[len - 1] = '\0';
-    }
+    drop_trailing_slashes(full_path, base_len);
     if (is_wild(last_comp)) {
       handle_wild(full_path, base_len, last_comp, list, append_deep, methods, omit_globs);
     } else {
       handle_single(full_path, base_len, list, append_deep, methods, omit_globs);
     }
   } else {
+    drop_trailing_slashes(full_path, base_len);
     if (is_wild(last_comp)) {
       handle_wild(full_path, base_len, last_comp, list, append_shallow, methods, omit_globs);
     } else {
-- 
2.43.0


From 7eb365bb17232dea7d6acd56d391483b5402e75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:34 +0000
Subject: [PATCH 22/74] fix: notice changes of an mbox that is reached through
 a symlink

---
 mbox.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbox.c b/mbox.c
index 4ca102e..0c80ff8 100644
--- a/mbox.c
+++ b/mbox.c
@@ -849,6 +849,8 @@ void build_mbox_lists(struct database *db, const char *folder_base, /*{{{*/
         if (verbose) {
           printf("%s is a link - skipping\n", path);
         }
+      } else if (stat(path, &sb) < 0) {
+        /* dangling link */
       } else {
         extant_mboxen[n_extant].full_path = new_string(path);
         extant_mboxen[n_extant].mtime = sb.st_mtime;
-- 
2.43.0


From 200a7acdc69fc06299f489239190d14a03051adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:03 +0000
Subject: [PATCH 23/74] fix: look up the name= parameter of Content-Type
 case-insensitively

---
 rfc822.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index 5fe4769..4fd5745 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -722,7 +722,7 @@ static void do_body(struct msg_src *src,
         } else {
           /* Some messages have name=... in content-type: instead of
            * filename=... in content-disposition. */
-          lookup = nvp_lookup(ct_nvp, "name");
+          lookup = nvp_lookupcase(ct_nvp, "name");
           if (lookup) {
             new_att->filename = new_string(lookup);
           } else {
-- 
2.43.0


From 6847c23f1d6a62348b2de571554e5f8741e9832b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:14 +0000
Subject: [PATCH 24/74] fix: index the file name of attachments without a
 Content-Type

---
 rfc822.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index 4fd5745..9191cec 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -759,8 +759,15 @@ static void do_body(struct msg_src *src,
   } else {
     /* Treat as text/plain {{{*/
     struct attachment *new_att;
+    const char *disposition;
+    const char *lookup;
     new_att = new(struct attachment);
-    new_att->filename = NULL;
+    disposition = cd_nvp ? nvp_first(cd_nvp) : NULL;
+    lookup = NULL;
+    if (disposition && !strcasecmp(disposition, "attachment")) {
+      lookup = nvp_lookupcase(cd_nvp, "filename");
+    }
+    new_att->filename = lookup ? new_string(lookup) : NULL;
     new_att->ct = CT_TEXT_PLAIN;
     new_att->data.normal.len = decoded_body_len;
     /* Add null termination on the end */
-- 
2.43.0


From 29a6e4d1ebe00dd033cbe3a826d18715cb5c9031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:24 +0000
Subject: [PATCH 25/74] fix: don't read past the end of quoted-printable data

---
 rfc822.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 9191cec..a1ad9a5 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -436,18 +436,17 @@ static void parse_content_type(struct nvp *ct_nvp, struct content_type_header *r
 }
 
 /*}}}*/
-static char *looking_at_ws_then_newline(char *start)/*{{{*/
+static char *looking_at_ws_then_newline(char *start, char *end)/*{{{*/
 {
   char *result;
   result = start;
-  do {
+  while (result < end) {
          if (*result == '\n')   return result;
     else if (!isspace(*(unsigned char *) result)) return NULL;
     else                        result++;
-  } while (1);
+  }
 
-  /* Can't get here */
-  assert(0);
+  return NULL;
 }
 /*}}}*/
 
@@ -488,11 +487,13 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
             char *r;
             int val;
             q++;
-            r = looking_at_ws_then_newline(q);
+            r = looking_at_ws_then_newline(q, end_input);
             if (r) {
               q = r + 1; /* Point into next line */
               continue;
             }
+            /* truncated escape at the end of the data? */
+            if (end_input - q < 2) break;
             /* not that case. */
             val =  hex_to_val(*q++) << 4;
             val += hex_to_val(*q++);
-- 
2.43.0


From 3aa6da44d1bb1f3f6fff494f3d00db574647888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:36 +0000
Subject: [PATCH 26/74] fix: decode x-uuencode from the start of each line and
 within bounds

---
 rfc822.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index a1ad9a5..24b0b66 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -549,13 +549,14 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
         /* skip to EOL */
         while (q < end_input && *q != '\n')
           q++;
+        q++; /* to the first line of data */
         p = result;
         while (q < end_input) { /* process line */
 #define DEC(c) (((c) - ' ') & 077)
           int len = DEC(*q++);
           if (len == 0)
             break;
-          for (; len > 0; q += 4, len -= 3) {
+          for (; len > 0 && end_input - q >= 4; q += 4, len -= 3) {
             if (len >= 3) {
               *p++ = DEC(q[0]) << 2 | DEC(q[1]) >> 4;
               *p++ = DEC(q[1]) << 4 | DEC(q[2]) >> 2;
@@ -569,6 +570,7 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
           }
           while (q < end_input && *q != '\n')
             q++;
+          q++; /* to the next line */
         }
         end_result = p;
       }
-- 
2.43.0


From d20c01bd0be8ba316933b8d7c5204f6012e57ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:21:27 +0000
Subject: [PATCH 27/74] fix: join adjacent encoded-words in headers (RFC 2047)

---
 rfc822.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 24b0b66..1e72855 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -297,6 +297,7 @@ static void decode_header_value(char *text){/*{{{*/
   /* rfc2047 decode, written by Mikael Ylikoski */
 
   char *s, *a, *b, *e, *p, *q;
+  char *prev = NULL; /* end of the text of the previous encoded-word */
 
   for (p = q = s = text; (s = strstr(s, "=?")); s = e + 2) {
     if (p == q)
@@ -314,8 +315,14 @@ static void decode_header_value(char *text){/*{{{*/
     e = strstr(b, "?=");
     if (!e) break;
     /* have found an encoded-word */
-    if (b - a != 2)
+    if (b - a != 2 || !strchr("qQbB", *a))
       continue; /* unknown encoding */
+    /* white space between adjacent encoded-words is not part of the text */
+    if (prev) {
+      char *t = prev;
+      while (t < p && isspace(*(unsigned char *) t)) t++;
+      if (t == p) p = prev;
+    }
     if (*a == 'q' || *a == 'Q') {
       int val;
       q = b;
@@ -331,7 +338,7 @@ static void decode_header_value(char *text){/*{{{*/
         } else
           *p++ = *q++;
       }
-    } else if (*a == 'b' || *a == 'B') {
+    } else {
       int reg, nc, eq; /* register, #characters in reg, #equals */
       int dc; /* decoded character */
       eq = reg = nc = 0;
@@ -353,10 +360,9 @@ static void decode_header_value(char *text){/*{{{*/
           }
         }
       }
-    } else {
-      continue; /* unknown encoding */
     }
     q = e + 2;
+    prev = p;
   }
   if (p == q) return;
   while (*q != '\0')
-- 
2.43.0


From 9ad5b93fd3c69c7f512fc6b0d044ab6687620382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:57 +0000
Subject: [PATCH 28/74] fix: accept a language tag in RFC 2231 parameter values

---
 nvp.nfa | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/nvp.nfa b/nvp.nfa
index 0f2ccd9..60789c2 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -107,6 +107,15 @@ Block minor {
         -> out
 }
 
+Block language {
+    State in
+        NAME1 -> name1
+
+    State name1
+        NAME1 -> name1
+        -> out
+}
+
 Block namevalue {
     State in
         OWS ; <name:in->out> ; OWS ; [=] -> rhs_normal
@@ -127,6 +136,7 @@ Block namevalue {
     State rhs_charset
         OWS ; ['] ; ['] ; <value:in->out> ; OWS -> out_charset
         OWS ; <minor:in->out> ; ['] ; ['] ; <value:in->out> ; OWS -> out_charset
+        OWS ; <minor:in->out> ; ['] ; <language:in->out> ; ['] ; <value:in->out> ; OWS -> out_charset
 
     State rhs_charset_continue
         OWS ; <value:in->out> ; OWS -> out_charset_continue
-- 
2.43.0


From 4a4910a1a8d33c190576fd6232482dc6e9c2f888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:11 +0000
Subject: [PATCH 29/74] fix: accept empty quoted strings as MIME parameter
 values

---
 nvp.nfa | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nvp.nfa b/nvp.nfa
index 60789c2..4ecc436 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -126,6 +126,7 @@ Block namevalue {
 
     State rhs_normal
         OWS ; <qvalue:in->out> ; OWS -> out_normal
+        OWS ; ["] ; ["] ; OWS -> out_normal
         OWS ; <value:in->out> ; OWS -> out_normal
         OWS ; ; EOS -> out_normal
 
-- 
2.43.0


From 3c68404bed62e3d11a62da7986fb0a665c2864ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:21 +0000
Subject: [PATCH 30/74] fix: recognize MIME parameters with blanks before the =

---
 nvp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nvp.c b/nvp.c
index 3cd99f5..e9e56ab 100644
--- a/nvp.c
+++ b/nvp.c
@@ -205,6 +205,10 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
 	newstring[q - copy_start] = 0;
         switch (last_copier) {
           case COPY_TO_NAME:
+            /* blanks before '=' are not part of the name */
+            tempdst = newstring + strlen(newstring);
+            while (tempdst > newstring && isspace(*(unsigned char *) (tempdst - 1))) tempdst--;
+            *tempdst = 0;
             free(name);
             name = newstring;
 #ifdef VERBOSE_TEST
-- 
2.43.0


From cecbc9fe757ff8e0f79ba8bb82239ce6c5e16881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:07 +0000
Subject: [PATCH 31/74] fix: report damaged compressed mailboxes instead of
 crashing

---
 rfc822.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index 1e72855..8f6081e 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1335,13 +1335,14 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
   {
     report_error("stat", filename);
     *data = NULL;
+    *len = -1; /* not an empty file */
     return;
   }
 
 #if USE_GZIP_MBOX || USE_BZIP_MBOX || USE_XZ_MBOX
   if(cb == MAP_DECOMPRESS_IF_APPLICABLE && is_compressed(filename)) {
     unsigned char *p;
-    size_t cur_read;
+    int cur_read;
     struct ro_mapping *ro;
     FILE *tmpf;
 
@@ -1369,6 +1370,12 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
     }
     p = new_array(unsigned char, SIZE_STEP);
     cur_read = xx_zread(zf, p, SIZE_STEP);
+    if (cur_read < 0) {
+      fprintf(stderr, "Could not decompress %s\n", filename);
+      free(p);
+      xx_zclose(zf);
+      goto comp_error;
+    }
     if (fwrite(p, cur_read, 1, tmpf) != 1) {
       fprintf(stderr, "failed writing to temp file for %s\n", filename);
       goto comp_error;
-- 
2.43.0


From 831132267eb5fdf1b463fc16bb407929d9365b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:17 +0000
Subject: [PATCH 32/74] fix: read all streams of a bzip2 compressed mbox

---
 rfc822.c | 52 +++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 49 insertions(+), 3 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 8f6081e..cc95293 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1164,6 +1164,9 @@ struct zFile {/*{{{*/
 #endif
     void *zptr;
   } foo;
+#ifdef USE_BZIP_MBOX
+  FILE *bzfile; /* the file below foo.bzf */
+#endif
   int type;
 };
 /*}}}*/
@@ -1180,7 +1183,15 @@ static struct zFile * xx_zopen(const char *filename, const char *mode) {/*{{{*/
 #endif
 #ifdef USE_BZIP_MBOX
     case COMPRESSION_BZIP:
-      zf->foo.bzf = BZ2_bzopen(filename, "rb");
+      {
+        int bzerror;
+        zf->foo.bzf = NULL;
+        zf->bzfile = fopen(filename, "rb");
+        if (zf->bzfile) {
+          zf->foo.bzf = BZ2_bzReadOpen(&bzerror, zf->bzfile, 0, 0, NULL, 0);
+          if (!zf->foo.bzf) fclose(zf->bzfile);
+        }
+      }
       break;
 #endif
 #ifdef USE_XZ_MBOX
@@ -1210,7 +1221,11 @@ static void xx_zclose(struct zFile *zf) {/*{{{*/
 #endif
 #ifdef USE_BZIP_MBOX
     case COMPRESSION_BZIP:
-      BZ2_bzclose(zf->foo.bzf);
+      {
+        int bzerror;
+        if (zf->foo.bzf) BZ2_bzReadClose(&bzerror, zf->foo.bzf);
+        fclose(zf->bzfile);
+      }
       break;
 #endif
 #ifdef USE_XZ_MBOX
@@ -1225,6 +1240,37 @@ static void xx_zclose(struct zFile *zf) {/*{{{*/
   free(zf);
 }
 /*}}}*/
+#ifdef USE_BZIP_MBOX
+static int read_bzip(struct zFile *zf, char *buf, int len) {/*{{{*/
+  /* A bzip2 file may be several streams, one after the other. */
+  int got = 0;
+  while (got < len && zf->foo.bzf) {
+    int bzerror;
+    int n = BZ2_bzRead(&bzerror, zf->foo.bzf, buf + got, len - got);
+    if (bzerror != BZ_OK && bzerror != BZ_STREAM_END) {
+      return got ? got : -1;
+    }
+    got += n;
+    if (bzerror == BZ_STREAM_END) {
+      void *unused;
+      int n_unused, c;
+      char rest[BZ_MAX_UNUSED];
+      BZ2_bzReadGetUnused(&bzerror, zf->foo.bzf, &unused, &n_unused);
+      memcpy(rest, unused, n_unused);
+      BZ2_bzReadClose(&bzerror, zf->foo.bzf);
+      zf->foo.bzf = NULL;
+      if (n_unused == 0) {
+        c = getc(zf->bzfile);
+        if (c == EOF) break;
+        ungetc(c, zf->bzfile);
+      }
+      zf->foo.bzf = BZ2_bzReadOpen(&bzerror, zf->bzfile, 0, 0, rest, n_unused);
+    }
+  }
+  return got;
+}
+/*}}}*/
+#endif
 static int xx_zread(struct zFile *zf, void *buf, int len) {/*{{{*/
   switch (zf->type) {
 #ifdef USE_GZIP_MBOX
@@ -1234,7 +1280,7 @@ static int xx_zread(struct zFile *zf, void *buf, int len) {/*{{{*/
 #endif
 #ifdef USE_BZIP_MBOX
     case COMPRESSION_BZIP:
-      return BZ2_bzread(zf->foo.bzf, buf, len);
+      return read_bzip(zf, buf, len);
       break;
 #endif
 #ifdef USE_XZ_MBOX
-- 
2.43.0


From c3d5cba147c28344624815c3e970f73df9a400ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:42 +0000
Subject: [PATCH 33/74] fix: give messages that cannot be parsed a defined date
 and flags

---
 db.c   | 3 ++-
 mbox.c | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/db.c b/db.c
index 680e6fb..082f98d 100644
--- a/db.c
+++ b/db.c
@@ -701,6 +701,8 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
     struct rfc822 *msg = NULL;
     int len = strlen(db->msgs[i].src.mpf.path);
 
+    db->msgs[i].date = 0;
+    scan_maildir_flags(&db->msgs[i]);
     if (len > 10 && !strcmp(db->msgs[i].src.mpf.path + len - 11, "/.gitignore"))
       continue;
 
@@ -723,7 +725,6 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
     if(msg)
     {
       db->msgs[i].date = msg->hdrs.date;
-      scan_maildir_flags(&db->msgs[i]);
       tokenise_message(i, db, msg);
       free_rfc822(msg);
     }
diff --git a/mbox.c b/mbox.c
index 0c80ff8..e2e7df6 100644
--- a/mbox.c
+++ b/mbox.c
@@ -1022,6 +1022,10 @@ int add_mbox_messages(struct database *db)/*{{{*/
         db->type[n] = MTY_MBOX;
         db->msgs[n].src.mbox.file_index = i;
         db->msgs[n].src.mbox.msg_index = j;
+        db->msgs[n].date = 0;
+        db->msgs[n].seen = 0;
+        db->msgs[n].replied = 0;
+        db->msgs[n].flagged = 0;
 
         if (r8) {
           if (verbose) {
-- 
2.43.0


From af5c6aa21fd61ed95cca80046891e5e886a0f37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:49 +0000
Subject: [PATCH 34/74] fix: limit the depth of nested MIME parts so that mail
 can't exhaust the stack

---
 rfc822.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index cc95293..45c315d 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -681,6 +681,12 @@ static int split_and_splice_header(struct msg_src *src, char *data, size_t data_
 /*}}}*/
 
 /* Forward prototypes */
+/* Nested multipart and message/rfc822 parts are handled recursively.  Stop
+ * looking inside them beyond this depth, so that the nesting found in a
+ * message can't exhaust the stack. */
+#define MAX_PART_NESTING 200
+static int part_nesting = 0;
+
 static void do_multipart(struct msg_src *src, char *input, int input_len,
     const char *boundary, struct attachment *atts,
     enum data_to_rfc822_error *error);
@@ -712,7 +718,11 @@ static void do_body(struct msg_src *src,
     struct content_type_header ct;
     parse_content_type(ct_nvp, &ct);
     if (ct.major && !strcasecmp(ct.major, "multipart")) {
-      do_multipart(src, decoded_body, decoded_body_len, ct.boundary, atts, error);
+      if (part_nesting < MAX_PART_NESTING) {
+        part_nesting++;
+        do_multipart(src, decoded_body, decoded_body_len, ct.boundary, atts, error);
+        part_nesting--;
+      }
       /* Don't need decoded body any longer - copies have been taken if
        * required when handling multipart attachments. */
       free(decoded_body);
@@ -750,14 +760,17 @@ static void do_body(struct msg_src *src,
           new_att->ct = CT_TEXT_OTHER;
         }
       } else if (ct.major && !strcasecmp(ct.major, "message") &&
-                 ct.minor && !strcasecmp(ct.minor, "rfc822")) {
+                 ct.minor && !strcasecmp(ct.minor, "rfc822") &&
+                 part_nesting < MAX_PART_NESTING) {
         new_att->ct = CT_MESSAGE_RFC822;
       } else {
         new_att->ct = CT_OTHER;
       }
 
       if (new_att->ct == CT_MESSAGE_RFC822) {
+        part_nesting++;
         new_att->data.rfc822 = data_to_rfc822(src, decoded_body, decoded_body_len, error);
+        part_nesting--;
         free(decoded_body); /* data no longer needed */
       } else {
         new_att->data.normal.len = decoded_body_len;
-- 
2.43.0


From 32b05781f47e94c7e6c989f169b7e62e3876ab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:53 +0000
Subject: [PATCH 35/74] fix: refuse an unrecognized mformat instead of writing
 a maildir

---
 mairix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mairix.c b/mairix.c
index 6d4be1e..cc838b4 100644
--- a/mairix.c
+++ b/mairix.c
@@ -253,6 +253,7 @@ static void parse_output_folder(char *p)/*{{{*/
   }
   else {
     fprintf(stderr, "Unrecognized mformat <%s>\n", temp);
+    exit(2);
   }
   free(temp);
 }
-- 
2.43.0


From 1dcd882adfab40cc7ae715f3d4fc17278484bc7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:03 +0000
Subject: [PATCH 36/74] fix: use the value of MAIRIX_MAILDIR_FOLDERS

---
 mairix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index cc838b4..9c3262e 100644
--- a/mairix.c
+++ b/mairix.c
@@ -715,7 +715,7 @@ int main (int argc, char **argv)/*{{{*/
   }
 
   if (getenv("MAIRIX_MAILDIR_FOLDERS")) {
-    maildir_folders = getenv("MAIRIX_MAIDIR_FOLDERS");
+    maildir_folders = getenv("MAIRIX_MAILDIR_FOLDERS");
   }
 
   if (getenv("MAIRIX_MH_FOLDERS")) {
-- 
2.43.0


From e5f8434ef45a481e6c07712d276ef975cafc204f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:13 +0000
Subject: [PATCH 37/74] fix: don't look before the start of an rc file line
 starting with a zero byte

---
 mairix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index 9c3262e..9bd2143 100644
--- a/mairix.c
+++ b/mairix.c
@@ -300,7 +300,7 @@ static void parse_rc_file(char *name)/*{{{*/
       exit(2);
     }
 
-    if (line[len-1] == '\n') {
+    if ((len > 0) && (line[len-1] == '\n')) {
       line[len-1] = '\0';
     }
 
-- 
2.43.0


From 4bcbbcebc9cce089c63b221a36d182a56dff63fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:22 +0000
Subject: [PATCH 38/74] fix: ignore folder directives without a value in the rc
 file

---
 mairix.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index 9bd2143..fe964e0 100644
--- a/mairix.c
+++ b/mairix.c
@@ -217,7 +217,10 @@ static void add_folders(char **folders, char *extra_folders)/*{{{*/
 {
   /* note : extra_pointers is stale after this routine exits. */
 
-  if (!*folders) {
+  if (!extra_folders) {
+    /* directive without a value */
+    return;
+  } else if (!*folders) {
     *folders = extra_folders;
   } else {
     char *old_folders = *folders;
-- 
2.43.0


From 5f7c93d849956ff222231b0f37732c893bff65d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:19:05 +0000
Subject: [PATCH 39/74] fix: sort results whose dates are more than 68 years
 apart correctly

---
 search.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index d69aa9a..0fe085d 100644
--- a/search.c
+++ b/search.c
@@ -854,7 +854,10 @@ static int db_date_cmp(const void *va, const void *vb)
   const int *ap = (const int *) va;
   const int *bp = (const int *) vb;
 
-  return qsortdb->date_table[*ap] - qsortdb->date_table[*bp];
+  unsigned int a = qsortdb->date_table[*ap];
+  unsigned int b = qsortdb->date_table[*bp];
+
+  return (a > b) - (a < b);
 }
 
 static int do_search(struct read_db *db, char **args, char *output_path, int show_threads, enum folder_type ft, int verbose, const char *imap_pipe, const char *imap_server, const char *imap_username, const char *imap_password, int please_clear, int sort_by_date)/*{{{*/
-- 
2.43.0


From b055f356c323e09257071e1eef85123de0b5787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:59 +0000
Subject: [PATCH 40/74] fix: undo the escapes in quoted strings an IMAP server
 sends

---
 imap.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/imap.c b/imap.c
index 6e3105e..e1a7927 100644
--- a/imap.c
+++ b/imap.c
@@ -242,6 +242,7 @@ char cur;
 struct imap_ll_tokenlist *line = NULL;
 struct imap_ll_tokenlist *node = NULL;
 int linestate = 0;
+int escaped = 0;
 int recv_tag = 0;
 char *curtoken = NULL;
 size_t curtoken_now = 0;
@@ -365,11 +366,14 @@ token_extend:
 					break;
 				case 5:
 					/* quoted string */
-					if (cur == 34) {
+					if ((cur == 92) && !escaped) {
+						escaped = 1;
+					} else if ((cur == 34) && !escaped) {
 						growlist(&node, mktoken(TLTYPE_STRING, curtoken, curtoken_now));
 						curtoken = NULL;
 						linestate = 4;
 					} else {
+						escaped = 0;
 						goto token_extend;
 					}
 					break;
-- 
2.43.0


From 6a1ccc3927843dbc9dda414fd7c70bcfa4871f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:00 +0000
Subject: [PATCH 41/74] fix: send strings with a backslash to the IMAP server
 as literals

---
 imap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/imap.c b/imap.c
index e1a7927..4487816 100644
--- a/imap.c
+++ b/imap.c
@@ -552,6 +552,7 @@ char close = 0;
 				if (
 					(t->leaf[i] < 32) ||
 					(t->leaf[i] == 34) ||
+					(t->leaf[i] == 92) ||
 					(t->leaf[i] > 126)
 				) break;
 			}
-- 
2.43.0


From 1fbca94f474ed7424a8dc6afe7033d4b0cedbefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:00 +0000
Subject: [PATCH 42/74] fix: don't crash when the IMAP server closes the
 connection

---
 imap.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/imap.c b/imap.c
index 4487816..0f31188 100644
--- a/imap.c
+++ b/imap.c
@@ -842,6 +842,8 @@ imap_ll_append(struct imap_ll_tokenlist *list, struct imap_ll_tokenlist *item)
 const char *
 imap_ll_status(struct imap_ll_tokenlist *t)
 {
+	/* no response at all (connection lost) */
+	if (!t) return "BAD";
 	t = t->last->first;
 	if (!t) return "BAD";
 	if ((t->type) != TLTYPE_ATOM) return "BAD";
@@ -991,6 +993,7 @@ int plusindent = 0;
 int i;
 const char *close = NULL;
 
+	if (!t) return;
 	switch (t->type) {
 		case TLTYPE_UNTAGGED:
 			for (i = 0; i < indent; i++) fputc(9, out);
@@ -1050,9 +1053,10 @@ const char *close = NULL;
 static struct imap_ll_tokenlist *
 find_capability_list_in_untagged_response(struct imap_ll_tokenlist *l)
 {
-	for (l = l->first; l; l = l->next) {
+	for (l = l ? l->first : NULL; l; l = l->next) {
 		if (
 			((l->type) == TLTYPE_UNTAGGED) &&
+			(l->first) &&
 			((l->first->type) == TLTYPE_ATOM) &&
 			(0 == strcmp(l->first->leaf, "CAPABILITY"))
 		) return l->first->next;
-- 
2.43.0


From c218d49cebb7637db0b4824ca083a4768709233e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:00 +0000
Subject: [PATCH 43/74] fix: don't crash on short untagged responses from an
 IMAP server

---
 imapinterface.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/imapinterface.c b/imapinterface.c
index 2dcb4a9..b7df46a 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -105,9 +105,11 @@ long exists;
 		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;	/* sequence */
 		l2 = l2->next;
+		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;
 		if (0 != strcmp(l2->leaf, "FETCH")) continue;
 		l2 = l2->next;
+		if (!l2) continue;
 		if (l2->type != TLTYPE_LIST) continue;
 		uid = NULL;
 		deleted = 0;
@@ -216,9 +218,11 @@ const char *actual_uidvalidity, *got_uid, *got_raw;
 		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;	/* sequence */
 		l2 = l2->next;
+		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;
 		if (0 != strcmp(l2->leaf, "FETCH")) continue;
 		l2 = l2->next;
+		if (!l2) continue;
 		if (l2->type != TLTYPE_LIST) continue;
 		got_uid = got_raw = NULL;
 		for (l2 = l2->first; l2 && (l2->next); l2 = l2->next) {
-- 
2.43.0


From 2806a008c09e026cfcef90250f45240dad281f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:01 +0000
Subject: [PATCH 44/74] fix: don't use an uninitialised pointer when an IMAP
 message cannot be fetched

---
 imapinterface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/imapinterface.c b/imapinterface.c
index b7df46a..4edb04c 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -273,6 +273,7 @@ make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc)
 struct make_rfc822_from_imap_s s;
 
 	s.pseudopath = pseudopath;
+	s.r = NULL;
 	imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
 	return s.r;
 }
-- 
2.43.0


From 8a1c8c42b01192cb3c866e75351fdb02c4662abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:38 +0000
Subject: [PATCH 45/74] fix: don't die from SIGPIPE when the IMAP server goes
 away

---
 imapinterface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/imapinterface.c b/imapinterface.c
index 4edb04c..0929850 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <string.h>
+#include <signal.h>
 #ifdef USE_OPENSSL
 #include <openssl/ssl.h>
 #include <openssl/err.h>
@@ -32,6 +33,10 @@ struct imap_ll *imapc;
 	imapc = pipe ? imap_ll_pipe_connect(pipe) : imap_ll_connect(server, "143");
 	if (!imapc) return NULL;
 
+	/* a lost connection is reported as a write error, don't die from it
+	   with the database still locked */
+	signal(SIGPIPE, SIG_IGN);
+
 	switch (imap_login(
 		imapc, username, -1, password, -1
 #ifdef USE_OPENSSL
-- 
2.43.0


From 8c4eb8644c2486ecfb996ebc230cf9669d52a605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:39 +0000
Subject: [PATCH 46/74] fix: remember that no IMAP folder is selected after a
 failed SELECT

---
 imap.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/imap.c b/imap.c
index 0f31188..a48242c 100644
--- a/imap.c
+++ b/imap.c
@@ -1264,6 +1264,11 @@ long exists = 0;
 		return ll->selected_folder_uidvalidity;
 	}
 
+	/* Whether it succeeds or not, the command leaves the current folder */
+	if (ll->selected_folder) free(ll->selected_folder);
+	if (ll->selected_folder_uidvalidity) free(ll->selected_folder_uidvalidity);
+	ll->selected_folder = ll->selected_folder_uidvalidity = NULL;
+
 	command_name = need_write ? "SELECT" : "EXAMINE";
 	cmd = imap_ll_build(
 		TLTYPE_TAGGED,
@@ -1316,8 +1321,6 @@ long exists = 0;
 		return NULL;
 	}
 
-	if (ll->selected_folder) free(ll->selected_folder);
-	if (ll->selected_folder_uidvalidity) free(ll->selected_folder_uidvalidity);
 	ll->selected_folder = malloc(foldername_len);
 	if (ll->selected_folder) {
 		memcpy(ll->selected_folder, foldername, foldername_len);
-- 
2.43.0


From 35e5b2968101e85bd131c806e5d423ca2ef873c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:42 +0000
Subject: [PATCH 47/74] fix: try again to index IMAP messages the server failed
 to deliver

---
 db.c            | 9 ++++++++-
 imapinterface.c | 4 ++--
 imapinterface.h | 3 ++-
 search.c        | 3 ++-
 4 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/db.c b/db.c
index 082f98d..e59ad34 100644
--- a/db.c
+++ b/db.c
@@ -700,6 +700,7 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
   for (i=start_at; i<db->n_msgs; i++) {
     struct rfc822 *msg = NULL;
     int len = strlen(db->msgs[i].src.mpf.path);
+    int fetched = 1;
 
     db->msgs[i].date = 0;
     scan_maildir_flags(&db->msgs[i]);
@@ -719,7 +720,7 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
         break;
       case MTY_IMAP:
         if (verbose) fprintf(stderr, "Scanning IMAP <%s>\n", db->msgs[i].src.mpf.path);
-        msg = make_rfc822_from_imap(db->msgs[i].src.mpf.path, imapc);
+        msg = make_rfc822_from_imap(db->msgs[i].src.mpf.path, imapc, &fetched);
         break;
     }
     if(msg)
@@ -730,6 +731,12 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
     }
     else
       fprintf(stderr, "Skipping %s (could not parse message)\n", db->msgs[i].src.mpf.path);
+    if (!fetched) {
+      /* Its content is unknown : make the next run try again. */
+      free(db->msgs[i].src.mpf.path);
+      db->msgs[i].src.mpf.path = NULL;
+      db->type[i] = MTY_DEAD;
+    }
   }
 }
 /*}}}*/
diff --git a/imapinterface.c b/imapinterface.c
index 0929850..e474d68 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -273,13 +273,13 @@ struct msg_src src;	/* assuming this is for error message presentation only! */
 }
 
 struct rfc822 *
-make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc)
+make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc, int *fetched)
 {
 struct make_rfc822_from_imap_s s;
 
 	s.pseudopath = pseudopath;
 	s.r = NULL;
-	imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
+	*fetched = imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
 	return s.r;
 }
 
diff --git a/imapinterface.h b/imapinterface.h
index 71f7a4f..2159f3f 100644
--- a/imapinterface.h
+++ b/imapinterface.h
@@ -21,8 +21,9 @@ int imap_fetch_message_raw(
 	   data is no longer valid. */
 );
 
+/* sets *fetched to 0 if the server did not deliver the message, 1 otherwise */
 struct rfc822 *
-make_rfc822_from_imap(const char *pseudopath, struct imap_ll *);
+make_rfc822_from_imap(const char *pseudopath, struct imap_ll *, int *fetched);
 
 void imap_clear_folder(struct imap_ll *, const char *);
 void imap_append_new_message(struct imap_ll *, const char *folder, const unsigned char *data, size_t len, int seen, int answered, int flagged);
diff --git a/search.c b/search.c
index 0fe085d..6e1f803 100644
--- a/search.c
+++ b/search.c
@@ -1307,11 +1307,12 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
           case DB_MSG_IMAP:
             {
               char *filename;
+              int fetched;
               printf("---------------------------------\n");
               filename = db->data + db->path_offsets[i];
               printf("%s\n", filename);
               GET_IMAP;
-              parsed = imapc ? make_rfc822_from_imap(filename, imapc) : NULL;
+              parsed = imapc ? make_rfc822_from_imap(filename, imapc, &fetched) : NULL;
             }
             break;
           case DB_MSG_MBOX:
-- 
2.43.0


From b24e9039b066c7d265c3a232c0132e85e2aa5266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:17 +0000
Subject: [PATCH 48/74] fix: let search results from local folders create the
 IMAP match folder

---
 imapinterface.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/imapinterface.c b/imapinterface.c
index e474d68..15f90e6 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -390,7 +390,6 @@ imap_append_new_message(
 {
 struct imap_ll_tokenlist *flags, *cmd, *result;
 
-	if (!imap_select(imapc, folder, -1, 1, NULL)) return;
 	flags = imap_ll_build(TLTYPE_LIST, TLTYPE_END);
 	if (seen) {
 		imap_ll_append(flags, imap_ll_build(
-- 
2.43.0


From b14e66805e3b119ca4cc99a153ab9a088593ff2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:00 +0000
Subject: [PATCH 49/74] fix: refuse to put search results into an indexed IMAP
 folder

---
 mairix.c | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/mairix.c b/mairix.c
index fe964e0..a1e344b 100644
--- a/mairix.c
+++ b/mairix.c
@@ -202,6 +202,26 @@ int member_of (const char *complete_mfolder,
   return 0;
 }
 /*}}}*/
+static int imap_member_of(const char *mfolder, const char *folders, struct globber_array *omit_globs)/*{{{*/
+{
+  /* the same for IMAP folders.  (The name INBOX is case-insensitive.) */
+  char **names;
+  int n_names, i;
+  int result = 0;
+
+  if (!folders)
+    return 0;
+  split_on_colons(folders, &n_names, &names);
+  for (i=0; i<n_names; i++) {
+    if ((!strcmp(mfolder, names[i]) ||
+         (!strcasecmp(mfolder, "INBOX") && !strcasecmp(names[i], "INBOX"))) &&
+        !is_globber_array_match(omit_globs, names[i]))
+      result = 1;
+  }
+  free_string_array(n_names, &names);
+  return result;
+}
+/*}}}*/
 static char *copy_value(char *text)/*{{{*/
 {
   char *p;
@@ -824,11 +844,10 @@ int main (int argc, char **argv)/*{{{*/
       case FT_RAW:
       case FT_EXCERPT:
         break;
-      case FT_IMAP:
-        /* the same check as below could be implemented in the future */
-        break;
       default:
-        if ((member_of(complete_mfolder,folder_base, maildir_folders, FT_MAILDIR, omit_globs)||
+        if ((output_folder_type == FT_IMAP) ?
+            imap_member_of(complete_mfolder, imap_folders, omit_globs) :
+            (member_of(complete_mfolder,folder_base, maildir_folders, FT_MAILDIR, omit_globs)||
              member_of (complete_mfolder, folder_base, mh_folders, FT_MH, omit_globs) ||
              member_of (complete_mfolder, folder_base, mboxen, FT_MBOX, omit_globs))) {
           fprintf (stderr,
-- 
2.43.0


From a72e9a01864ed5c02fa2f7375efa1d8a19df72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:18 +0000
Subject: [PATCH 50/74] fix: don't abort path searches in a database with IMAP
 messages

---
 search.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search.c b/search.c
index 6e1f803..3894cf6 100644
--- a/search.c
+++ b/search.c
@@ -308,6 +308,7 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
     unsigned int mbix, msgix;
     switch (rd_msg_type(db, i)) {
       case DB_MSG_FILE:
+      case DB_MSG_IMAP:
         token = db->data + db->path_offsets[i];
         break;
       case DB_MSG_MBOX:
-- 
2.43.0


From 52c00e2447ba2aba75f859720702755c4f22e49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:19 +0000
Subject: [PATCH 51/74] fix: don't crash uploading a mbox message that has
 changed since it was indexed

---
 search.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 3894cf6..4584e56 100644
--- a/search.c
+++ b/search.c
@@ -1397,7 +1397,9 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               unsigned char *start, *data;
               int mbox_len, msg_len, mbi;
               get_validated_mbox_msg(db, i, &mbi, &data, &mbox_len, &start, &msg_len);
-              imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged);
+              if (start) {
+                imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged);
+              }
               if (data) {
                 free_ro_mapping(data, mbox_len);
               }
-- 
2.43.0


From eeb68c678e2ffb846fb644bdd5da5c9421889ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:18 +0000
Subject: [PATCH 52/74] fix: reject IMAP literals of more than 2 GB

---
 imap.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/imap.c b/imap.c
index a48242c..1504857 100644
--- a/imap.c
+++ b/imap.c
@@ -4,6 +4,7 @@
 #include <unistd.h>
 #include <string.h>
 #include <errno.h>
+#include <limits.h>
 #include <netdb.h>
 #include <fcntl.h>
 #include <time.h>
@@ -297,7 +298,7 @@ struct pollfd pfd;
 							/* wrong tag */
 							linestate = 3;
 						}
-					} else if ((cur >= '0') && (cur <= '9')) {
+					} else if ((cur >= '0') && (cur <= '9') && (recv_tag < INT_MAX/10)) {
 						recv_tag *= 10;
 						recv_tag += cur - '0';
 					} else {
@@ -381,7 +382,7 @@ token_extend:
 					/* literal count */
 					if (cur == 125) {
 						linestate = 7;
-					} else if ((cur >= '0') && (cur <= '9')) {
+					} else if ((cur >= '0') && (cur <= '9') && (recv_tag < INT_MAX/10)) {
 						recv_tag *= 10;
 						recv_tag += cur - '0';
 					} else {
-- 
2.43.0


From 4b961d40ac3a102359760fa41856fc6f2558bc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:18 +0000
Subject: [PATCH 53/74] fix: remove the lock when there is no memory for an
 IMAP response

---
 imap.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/imap.c b/imap.c
index 1504857..b82b177 100644
--- a/imap.c
+++ b/imap.c
@@ -20,6 +20,7 @@
 #define __BSD_VISIBLE 1
 #endif
 #include "imap.h"
+#include "mairix.h"
 
 struct imap_ll {
 	int w_socket;
@@ -178,8 +179,7 @@ struct imap_ll_tokenlist *tl;
 	tl = malloc(sizeof(*tl));
 	if (!tl) {
 		fprintf(stderr, "imap_ll mktoken: malloc failed (fatal)\n");
-		sleep(1);
-		_exit(0);
+		unlock_and_exit(2);
 	}
 	tl->type = type;
 	tl->first = tl->last = NULL;
@@ -225,8 +225,7 @@ struct imap_ll_tokenlist *t2, *next;
 	curtoken = malloc((alloc_size) + 1); \
 	if (!curtoken) { \
 		fprintf(stderr, "imap_ll_waitline(%d): malloc failed (fatal)\n", (alloc_size)); \
-		sleep(1); \
-		_exit(0); \
+		unlock_and_exit(2); \
 	} \
 	curtoken_now = 0; \
 	curtoken_max = (alloc_size); \
@@ -358,8 +357,7 @@ token_extend:
 							curtoken = realloc(curtoken, curtoken_max + 1);
 							if (!curtoken) {
 								fprintf(stderr, "imap_ll_waitline(size=%d): malloc failed (fatal)\n", (int)curtoken_max);
-								sleep(1);
-								_exit(0);
+								unlock_and_exit(2);
 							}
 						}
 						curtoken[curtoken_now++] = cur;
-- 
2.43.0


From c2ec59f51b07f7275e4160697b2b07d23fc77079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:46 +0000
Subject: [PATCH 54/74] fix: limit the nesting of lists in IMAP responses

---
 imap.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/imap.c b/imap.c
index b82b177..1034e92 100644
--- a/imap.c
+++ b/imap.c
@@ -221,6 +221,9 @@ struct imap_ll_tokenlist *t2, *next;
 	}
 }
 
+/* lists are freed and printed recursively */
+#define MAX_NESTING 1000
+
 #define MKPRETOKEN(alloc_size) { \
 	curtoken = malloc((alloc_size) + 1); \
 	if (!curtoken) { \
@@ -243,6 +246,7 @@ struct imap_ll_tokenlist *line = NULL;
 struct imap_ll_tokenlist *node = NULL;
 int linestate = 0;
 int escaped = 0;
+int depth = 0;
 int recv_tag = 0;
 char *curtoken = NULL;
 size_t curtoken_now = 0;
@@ -323,7 +327,11 @@ struct pollfd pfd;
 						(line->first == line->last)
 					) {
 						growlist(&node, mktoken(TLTYPE_SQLIST, NULL, 0));
+					} else if ((cur == 40) && (depth >= MAX_NESTING)) {
+						/* give up -- discard the rest of the line */
+						linestate = 3;
 					} else if (cur == 40) {
+						depth++;
 						growlist(&node, mktoken(TLTYPE_LIST, NULL, 0));
 					} else if ((
 						(node->type == TLTYPE_LIST) &&
@@ -332,6 +340,7 @@ struct pollfd pfd;
 						(node->type == TLTYPE_SQLIST) &&
 						(cur == 93)
 					)) {
+						if (cur == 41) depth--;
 						if (curtoken) {
 							growlist(&node, mktoken(TLTYPE_ATOM, curtoken, curtoken_now));
 							curtoken = NULL;
-- 
2.43.0


From 10da3b9068bc8df716274f3bb4d97c467fdff812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:09 +0000
Subject: [PATCH 55/74] fix: attachment names: an RFC 2231 form replaces the
 plain one, it's not appended to it

---
 nvp.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nvp.c b/nvp.c
index e9e56ab..271656d 100644
--- a/nvp.c
+++ b/nvp.c
@@ -42,6 +42,7 @@ struct nvp_entry {/*{{{*/
   struct nvp_entry *next;
   struct nvp_entry *prev;
   enum nvp_type type;
+  int extended; /* NAMEVALUE in one of the RFC 2231 forms */
   char *lhs;
   char *rhs;
 };
@@ -62,6 +63,7 @@ static void append(struct nvp *nvp, struct nvp_entry *ne)/*{{{*/
   }
   ne->next = NULL;
   ne->prev = nvp->last;
+  ne->extended = 0;
   if (nvp->last) nvp->last->next = ne;
   else nvp->first = ne;
   nvp->last = ne;
@@ -105,7 +107,7 @@ static void combine_namevalue(struct nvp *nvp, char **name, char **value)/*{{{*/
 {
   struct nvp_entry *n;
   for (n=nvp->first; n; n=n->next) {
-    if (n->type == NVP_NAMEVALUE) {
+    if ((n->type == NVP_NAMEVALUE) && n->extended) {
       if (!strcmp(n->lhs, *name)) {
         char *new_rhs;
         new_rhs = new_array(char, strlen(n->rhs) + strlen(*value) + 1);
@@ -119,6 +121,7 @@ static void combine_namevalue(struct nvp *nvp, char **name, char **value)/*{{{*/
   }
   /* No match : it's the first one */
   append_namevalue(nvp, name, value);
+  nvp->last->extended = 1;
 }
 /*}}}*/
 static int hex_to_val(int ch)/*{{{*/
@@ -354,15 +357,19 @@ const char *nvp_lookup(struct nvp *nvp, const char *name)/*{{{*/
 /*}}}*/
 const char *nvp_lookupcase(struct nvp *nvp, const char *name)/*{{{*/
 {
+  /* Where there's an RFC 2231 form besides the plain one, that's the real
+   * value. */
   struct nvp_entry *ne;
+  const char *result = NULL;
   for (ne = nvp->first; ne; ne=ne->next) {
     if (ne->type == NVP_NAMEVALUE) {
       if (!strcasecmp(ne->lhs, name)) {
-        return ne->rhs;
+        if (ne->extended) return ne->rhs;
+        if (!result) result = ne->rhs;
       }
     }
   }
-  return NULL;
+  return result;
 }
 /*}}}*/
 
-- 
2.43.0


From 38d239909ac289f7ad1a27ad90f1165f5b950d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:43 +0000
Subject: [PATCH 56/74] fix: accept more than ten extended sections of a MIME
 header parameter

---
 nvp.nfa | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nvp.nfa b/nvp.nfa
index 4ecc436..d16e5ba 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -123,6 +123,7 @@ Block namevalue {
         OWS ; <name:in->out> ; [*] ; OWS ; [=] -> rhs_charset
         OWS ; <name:in->out> ; [*] ; [0] ; [*] ; OWS ; [=] -> rhs_charset
         OWS ; <name:in->out> ; [*] ; [1-9A-Za-z] ; [*] ; OWS ; [=] -> rhs_charset_continue
+        OWS ; <name:in->out> ; [*] ; [1-9] ; <digits:in->out> ; [*] ; OWS ; [=] -> rhs_charset_continue
 
     State rhs_normal
         OWS ; <qvalue:in->out> ; OWS -> out_normal
-- 
2.43.0


From 115c2f07c5072ed149d9965ea88ae2259ea27fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:19 +0000
Subject: [PATCH 57/74] fix: accept 8-bit characters in MIME header parameters

---
 nvp.nfa | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nvp.nfa b/nvp.nfa
index d16e5ba..29acc74 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -20,7 +20,7 @@
 # =======================================================================
 
 Tokens EOS
-Abbrev VALUE = [\041-~]~[\\";]
+Abbrev VALUE = [\041-~\x80-\xff]~[\\";]
 Abbrev QVALUE = VALUE | [\011\040;] | <escape:in->out>
 Abbrev NAME1 = [0-9a-zA-Z_\-]
 Abbrev MINOR = NAME1 | [\.\-+]
-- 
2.43.0


From 109f0e2cdb2b4305cc809a85318747f8fcd08147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:55 +0000
Subject: [PATCH 58/74] fix: keep the whole value of MIME header parameters
 with quoted pairs

---
 nvp.c   | 6 ++++++
 nvp.nfa | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/nvp.c b/nvp.c
index 271656d..bf83648 100644
--- a/nvp.c
+++ b/nvp.c
@@ -226,6 +226,12 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
 #endif
             break;
           case COPY_TO_VALUE:
+            /* drop the backslash of quoted pairs */
+            for (tempsrc = tempdst = newstring; *tempsrc; tempsrc++) {
+              if ((*tempsrc == '\\') && tempsrc[1]) tempsrc++;
+              *tempdst++ = *tempsrc;
+            }
+            *tempdst = 0;
             free(value);
             value = newstring;
 #ifdef VERBOSE_TEST
diff --git a/nvp.nfa b/nvp.nfa
index 29acc74..2949775 100644
--- a/nvp.nfa
+++ b/nvp.nfa
@@ -32,8 +32,11 @@ Abbrev OWS = <optwhite:in->out>
 
 Block escape {
     State in
-        [\\] ; [\\] -> out
-        [\\] ; ["]  -> out
+        [\\] -> esc
+
+    State esc
+        = COPY_TO_VALUE
+        [\011\040-~\x80-\xff] -> out
 }
 
 Block optwhite {
-- 
2.43.0


From 4e6177d01c2790e105e6f2a996db8a9621419083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:23 +0000
Subject: [PATCH 59/74] fix: give up in order when the IMAP code runs out of
 memory

---
 imap.c | 53 ++++++++++-------------------------------------------
 1 file changed, 10 insertions(+), 43 deletions(-)

diff --git a/imap.c b/imap.c
index 1034e92..5d352e3 100644
--- a/imap.c
+++ b/imap.c
@@ -87,12 +87,7 @@ int s;
 		return NULL;
 	}
 
-	ll = malloc(sizeof(*ll));
-	if (!ll) {
-		fprintf(stderr, "malloc failed\n");
-		close(s);
-		return NULL;
-	}
+	ll = Malloc(sizeof(*ll));
 	memset(ll, 0, sizeof(*ll));
 	ll->w_socket = ll->r_socket = s;
 	ll->current_tag_number = -1;
@@ -109,7 +104,6 @@ imap_ll_pipe_connect(const char *cmd)
 {
 struct imap_ll *ll;
 pid_t child;
-int status;
 int r[2], w[2];
 
 	if (pipe(&(r[0])) < 0) {
@@ -143,15 +137,7 @@ int r[2], w[2];
 	close(r[1]);
 	close(w[0]);
 
-	ll = malloc(sizeof(*ll));
-	if (!ll) {
-		fprintf(stderr, "malloc failed\n");
-		close(r[0]);
-		close(w[1]);
-		kill(child, SIGTERM);
-		waitpid(child, &status, 0);
-		return NULL;
-	}
+	ll = Malloc(sizeof(*ll));
 	memset(ll, 0, sizeof(*ll));
 	ll->w_socket = w[1];
 	ll->r_socket = r[0];
@@ -687,11 +673,7 @@ char *cmds, *cmdend;
 struct imap_ll_tokenlist *result, *cur;
 
 	len = string_len(cmd);
-	cmds = malloc(len+1);
-	if (!cmds) {
-		fprintf(stderr, "imap_ll_command: malloc failed\n");
-		return NULL;
-	}
+	cmds = Malloc(len+1);
 	cmdend = format_cmd(cmds, ll, cmd);
 	*(cmdend++) = 13;
 	*(cmdend++) = 10;
@@ -774,20 +756,9 @@ enum imap_ll_tltype next_type = maintype;
 				s = va_arg(ap, char *);
 				slen = va_arg(ap, size_t);
 				if (slen == -1) slen = strlen(s);
-				l = malloc(sizeof(*l));
-				if (!l) {
-nomem:
-					fprintf(stderr, "imap_ll_build: malloc failure\n");
-					imap_ll_freeline(top);
-					va_end(ap);
-					return NULL;
-				}
+				l = Malloc(sizeof(*l));
 				l->type = next_type;
-				l->leaf = malloc(slen+1);
-				if (!(l->leaf)) {
-					free(l);
-					goto nomem;
-				}
+				l->leaf = Malloc(slen+1);
 				memcpy(l->leaf, s, slen);
 				l->leaf[slen] = 0;
 				l->leaflen = slen;
@@ -797,15 +768,13 @@ nomem:
 			case TLTYPE_UNTAGGED:
 			case TLTYPE_LIST:
 			case TLTYPE_SQLIST:
-				l = malloc(sizeof(*l));
-				if (!l) goto nomem;
+				l = Malloc(sizeof(*l));
 				l->type = next_type;
 				l->leaf = NULL;
 				descend = 1;
 				break;
 			case TLTYPE_CONTINUATION:
-				l = malloc(sizeof(*l));
-				if (!l) goto nomem;
+				l = Malloc(sizeof(*l));
 				l->type = TLTYPE_CONTINUATION;
 				l->leaf = NULL;
 				descend = 0;
@@ -1329,12 +1298,10 @@ long exists = 0;
 		return NULL;
 	}
 
-	ll->selected_folder = malloc(foldername_len);
-	if (ll->selected_folder) {
-		memcpy(ll->selected_folder, foldername, foldername_len);
-	}
+	ll->selected_folder = Malloc(foldername_len);
+	memcpy(ll->selected_folder, foldername, foldername_len);
 	ll->selected_folder_namelen = foldername_len;
-	ll->selected_folder_uidvalidity = strdup(uidvalidity);
+	ll->selected_folder_uidvalidity = new_string(uidvalidity);
 	ll->selected_folder_writable = need_write;
 	ll->selected_folder_exists = exists;
 	if (exists_p) *exists_p = exists;
-- 
2.43.0


From cd15b1d47a462a0dcc6ec1f948cb300000a65863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:26 +0000
Subject: [PATCH 60/74] fix: report results that cannot be written to the match
 folder

---
 search.c | 49 +++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 43 insertions(+), 6 deletions(-)

diff --git a/search.c b/search.c
index 4584e56..5a9a4a3 100644
--- a/search.c
+++ b/search.c
@@ -32,6 +32,7 @@
 #include <assert.h>
 #include <dirent.h>
 #include <errno.h>
+#include <fcntl.h>
 
 /* Lame fix for systems where NAME_MAX isn't defined after including the above
  * set of .h files (Solaris, FreeBSD so far).  Probably grossly oversized but
@@ -639,13 +640,41 @@ static int looks_like_maildir_new_p(const char *p)/*{{{*/
   }
 }
 /*}}}*/
+static int had_output_error;
+
+static void output_error(const char *path)/*{{{*/
+{
+  fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", path, strerror(errno));
+  had_output_error = 1;
+}
+/*}}}*/
+static void close_output(FILE *out, const char *path)/*{{{*/
+{
+  int failed = ferror(out);
+  if (fclose(out) || failed) {
+    output_error(path);
+  }
+}
+/*}}}*/
 static void create_symlink(char *link_target, char *new_link)/*{{{*/
 {
-  if ((!do_hardlinks && symlink(link_target, new_link) < 0) || link(link_target, new_link)) {
+  struct stat sb;
+  int err;
+
+  if ((do_hardlinks ? link(link_target, new_link) : symlink(link_target, new_link)) < 0) {
+    err = errno;
     if (verbose) {
       perror("symlink");
       fprintf(stderr, "Failed path <%s> -> <%s>\n", link_target, new_link);
     }
+    if ((err == EEXIST) && is_same_file(link_target, new_link)) {
+      /* Augmenting, and an earlier search has put it there */
+    } else if ((stat(link_target, &sb) < 0) ? (errno == ENOENT) : !S_ISREG(sb.st_mode)) {
+      /* The message is gone */
+    } else {
+      errno = err;
+      output_error(new_link);
+    }
   }
 }
 /*}}}*/
@@ -691,11 +720,11 @@ static void write_to_file(const char *data, size_t len, void *arg)/*{{{*/
 {
   FILE *fp;
   if (!(fp = fopen((char *)arg, "w"))) {
-    fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", (char *)arg, strerror(errno));
+    output_error((char *)arg);
     return;
   }
   fwrite(data, 1, len, fp);
-  fclose(fp);
+  close_output(fp, (char *)arg);
 }
 /*}}}*/
 
@@ -802,18 +831,22 @@ static void try_copy_to_path(struct read_db *db, int msg_index, char *target_pat
   unsigned char *data;
   int mbox_len, msg_len;
   int mbi;
+  int fd;
   FILE *out;
   unsigned char *start;
 
   get_validated_mbox_msg(db, msg_index, &mbi, &data, &mbox_len, &start, &msg_len);
 
   if (start) {
-    out = fopen(target_path, "wb");
+    fd = open(target_path, O_WRONLY | O_CREAT | O_EXCL, 0666);
+    out = (fd >= 0) ? fdopen(fd, "wb") : NULL;
     if (out) {
       fprintf(out, "X-source-folder: %s\n",
               db->data + db->mbox_paths_table[mbi]);
       fwrite(start, sizeof(char), len_without_separator(start, msg_len), out);
-      fclose(out);
+      close_output(out, target_path);
+    } else if ((errno != EEXIST) || !holds_copy(db, msg_index, target_path)) {
+      output_error(target_path);
     }
   }
 
@@ -1261,7 +1294,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               break;
           }
         }
-        fclose(out);
+        close_output(out, output_path);
       }
 
       break;
@@ -1431,6 +1464,10 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
             "You may need to run mairix in indexing mode then repeat your search.\n");
   }
 
+  if (had_output_error) {
+    return 2;
+  }
+
   /* Return error code 1 to the shell if no messages were matched. */
   return (n_hits == 0) ? 1 : 0;
 }
-- 
2.43.0


From 9af722c76605f8090811c2ac87a000bb627a85ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:26 +0000
Subject: [PATCH 61/74] fix: report entries of the match folder that cannot be
 removed

---
 search.c | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/search.c b/search.c
index 5a9a4a3..8ef670c 100644
--- a/search.c
+++ b/search.c
@@ -1530,6 +1530,13 @@ static void maybe_create_maildir(char *path)/*{{{*/
   return;
 }
 /*}}}*/
+static void clear_error(const char *path)/*{{{*/
+{
+  if (errno == ENOENT) return; /* gone already */
+  fprintf(stderr, "Clearing %s failed: %s\n", path, strerror(errno));
+  had_output_error = 1;
+}
+/*}}}*/
 static void clear_maildir_subfolder(char *path, char *subdir)/*{{{*/
 {
   char *sdir;
@@ -1549,7 +1556,7 @@ static void clear_maildir_subfolder(char *path, char *subdir)/*{{{*/
 
   d = opendir(sdir);
   if (d) {
-    while ((de = readdir(d))) {
+    while (errno = 0, (de = readdir(d))) {
       strcpy(fpath, sdir);
       strcat(fpath, "/");
       strcat(fpath, de->d_name);
@@ -1559,12 +1566,19 @@ static void clear_maildir_subfolder(char *path, char *subdir)/*{{{*/
         if (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode)) {
           /* FIXME : Can you unlink from a directory while doing a readdir loop over it? */
           if (unlink(fpath) < 0) {
-            fprintf(stderr, "Unlinking %s failed\n", fpath);
+            clear_error(fpath);
           }
         }
+      } else {
+        clear_error(fpath);
       }
     }
+    if (errno) {
+      clear_error(sdir);
+    }
     closedir(d);
+  } else {
+    clear_error(sdir);
   }
 
   free(fpath);
@@ -1585,7 +1599,7 @@ static void clear_mh_folder(char *path)/*{{{*/
 
   d = opendir(path);
   if (d) {
-    while ((de = readdir(d))) {
+    while (errno = 0, (de = readdir(d))) {
       if (valid_mh_filename_p(de->d_name)) {
         strcpy(fpath, path);
         strcat(fpath, "/");
@@ -1595,13 +1609,20 @@ static void clear_mh_folder(char *path)/*{{{*/
           if (S_ISLNK(sb.st_mode) || S_ISREG(sb.st_mode)) {
             /* FIXME : Can you unlink from a directory while doing a readdir loop over it? */
             if (unlink(fpath) < 0) {
-              fprintf(stderr, "Unlinking %s failed\n", fpath);
+              clear_error(fpath);
             }
           }
+        } else {
+          clear_error(fpath);
         }
       }
     }
+    if (errno) {
+      clear_error(path);
+    }
     closedir(d);
+  } else {
+    clear_error(path);
   }
 
   free(fpath);
@@ -1609,7 +1630,9 @@ static void clear_mh_folder(char *path)/*{{{*/
 /*}}}*/
 static void clear_mbox_folder(char *path)/*{{{*/
 {
-  unlink(path);
+  if (unlink(path) < 0) {
+    clear_error(path);
+  }
 }
 /*}}}*/
 
-- 
2.43.0


From 602b24010baab2d3e2312b53e39f88d95384703c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:26 +0000
Subject: [PATCH 62/74] fix: report failures to write to standard output

---
 mairix.c | 4 ++++
 search.c | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index a1e344b..ed26f89 100644
--- a/mairix.c
+++ b/mairix.c
@@ -805,6 +805,10 @@ int main (int argc, char **argv)/*{{{*/
   if (do_dump) {
     dump_database(database_path);
     result = 0;
+    if (fflush(stdout) || ferror(stdout)) {
+      perror("Cannot write to standard output");
+      result = 2;
+    }
 
   } else if (do_search) {
     int len;
diff --git a/search.c b/search.c
index 8ef670c..255d119 100644
--- a/search.c
+++ b/search.c
@@ -1455,7 +1455,9 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
   if ((ft != FT_RAW) && (ft != FT_EXCERPT)) {
     printf("Matched %d messages\n", n_hits);
   }
-  fflush(stdout);
+  if (fflush(stdout) || ferror(stdout)) {
+    output_error("standard output");
+  }
 
   if (had_failed_checksum) {
     fprintf(stderr,
-- 
2.43.0


From d4b99b3a87a145d60d7cf0544e567b0efd6e0fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:05 +0000
Subject: [PATCH 63/74] fix: accept white space after MIME boundaries

---
 rfc822.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 45c315d..1b2d261 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -919,11 +919,12 @@ static void do_multipart(struct msg_src *src,
       boundary_ok = 1;
       if ((b1 > input) && (*(b1-1) != '\n'))
         boundary_ok = 0;
-      if (!looking_at_end_boundary && (b1 + boundary_len + 3 < be) && !(
-          ((b1 + boundary_len + 2 < input + input_len) && (*(b1 + boundary_len + 2) == '\n')) ||
-          ((b1 + boundary_len + 3 < input + input_len) && (*(b1 + boundary_len + 2) == '\r') && (*(b1 + boundary_len + 3) == '\n'))
-      ))
-        boundary_ok = 0;
+      if (!looking_at_end_boundary && (b1 + boundary_len + 3 < be)) {
+        /* white space may follow the boundary */
+        for (bx = b1 + boundary_len + 2; bx < be && strchr(" \t\r", *bx) && *bx; bx++) ;
+        if (bx < be && *bx != '\n')
+          boundary_ok = 0;
+      }
       if (!boundary_ok) {
         char *eol = strchr(b1, '\n');
         if (!eol) {
-- 
2.43.0


From 41fda166cfc5b4def357c02c456f0075fb0df928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:38 +0000
Subject: [PATCH 64/74] fix: map a file with the size it has when it is opened

If a mailbox was replaced by a shorter one between stat() and open(), more was
mapped than there is, and reading it was fatal (SIGBUS, with the lock left
behind).
---
 rfc822.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rfc822.c b/rfc822.c
index 1b2d261..f410f6c 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1503,6 +1503,24 @@ comp_error:
   {
     report_error("open", filename);
     *data = NULL;
+    *len = -1;
+    return;
+  }
+
+  /* The file may have been replaced since its name was looked up : mapping more
+   * than there is would be fatal. */
+  if (fstat(fd, &sb) < 0)
+  {
+    report_error("fstat", filename);
+    close(fd);
+    *data = NULL;
+    *len = -1;
+    return;
+  }
+  *len = sb.st_size;
+  if (!S_ISREG(sb.st_mode) || (*len == 0)) {
+    close(fd);
+    *data = NULL;
     return;
   }
 
-- 
2.43.0


From e9181e2a609afd6d0aa46eec2a8d25ce1a35cdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:00 +0000
Subject: [PATCH 65/74] fix: cope with mailboxes that change while they are
 indexed

New messages are located in one mapping of the mailbox and read from another
one.  If the mailbox was replaced in between, messages were cut out at wrong
places, for good as their checksums were right, or beyond the end of the file;
if it was gone, the whole run failed.
---
 mbox.c | 42 +++++++++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 11 deletions(-)

diff --git a/mbox.c b/mbox.c
index e2e7df6..b57a097 100644
--- a/mbox.c
+++ b/mbox.c
@@ -909,6 +909,31 @@ void build_mbox_lists(struct database *db, const char *folder_base, /*{{{*/
 }
 /*}}}*/
 
+static int mbox_has_changed(struct mbox *mb)/*{{{*/
+{
+  struct stat sb;
+  return (stat(mb->path, &sb) < 0) || (sb.st_mtime != mb->current_mtime) ||
+    ((size_t) sb.st_size != mb->current_size);
+}
+/*}}}*/
+static void find_new_messages_again(struct mbox *mb, char *va, size_t len)/*{{{*/
+{
+  struct message_list *next;
+
+  for (; mb->new_msgs; mb->new_msgs = next) {
+    next = mb->new_msgs->next;
+    free(mb->new_msgs);
+  }
+  mb->n_new_msgs = 0;
+
+  if (va && (find_number_intact(mb, va, len) >= mb->n_old_msgs_valid)) {
+    mb->new_msgs = build_new_message_list(mb, va, len, &mb->n_new_msgs);
+  } else {
+    /* Leave it to the next run, whatever the mbox looks like then. */
+    mb->current_mtime = 0;
+  }
+}
+/*}}}*/
 static struct msg_src *setup_msg_src(char *filename, off_t start, size_t len)/*{{{*/
 {
   static struct msg_src result;
@@ -933,6 +958,12 @@ int add_mbox_messages(struct database *db)/*{{{*/
     struct message_list *here, *next;
 
     if (mb->new_msgs) {
+      create_ro_mapping(mb->path, &va, &valen, MAP_DECOMPRESS_IF_APPLICABLE);
+      if (!va || mbox_has_changed(mb)) {
+        /* What was found when the mbox was scanned needn't be there any more. */
+        find_new_messages_again(mb, (char *) va, valen);
+      }
+
       /* Upper bound : we may need to coalesce 2 or more messages if false
        * matches on From lines have occurred inside MIME encoded body parts. */
       N = mb->n_old_msgs_valid + mb->n_new_msgs;
@@ -943,7 +974,6 @@ int add_mbox_messages(struct database *db)/*{{{*/
         mb->check_all = grow_array(checksum_t, N, mb->check_all);
       }
 
-      va = NULL; /* lazy mmap */
       for (j=mb->n_old_msgs_valid, here=mb->new_msgs; here; j++, here=next) {
         int n;
         int trials = 0;
@@ -955,16 +985,6 @@ int add_mbox_messages(struct database *db)/*{{{*/
 
         next = here->next;
 
-        if (!va) {
-          create_ro_mapping(mb->path, &va, &valen,
-              MAP_DECOMPRESS_IF_APPLICABLE);
-        }
-        if (!va) {
-          fprintf(stderr, "Couldn't create mapping of file %s\n", mb->path);
-          unlock_and_exit(1);
-        }
-
-
         /* Try to parse the next 'From' -to- 'From' chunk as an rfc822 message.
          * If we get an unterminated MIME encoding, coalesce the next chunk
          * onto the current one and try again.  Keep going until it works, or
-- 
2.43.0


From ea3bedc8c2ae0425ee6a2eb3c886f6e7c179a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:22 +0000
Subject: [PATCH 66/74] fix: try messages again that could not be opened

A message that was renamed between the directory scan and reading it was
recorded as indexed, without content.  If it was back under its old name in the
next run, it stayed that way.
---
 db.c     | 2 +-
 mairix.h | 2 +-
 rfc822.c | 7 +++++--
 search.c | 2 +-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/db.c b/db.c
index e59ad34..0c5d3fc 100644
--- a/db.c
+++ b/db.c
@@ -716,7 +716,7 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
         break;
       case MTY_FILE:
         if (verbose) fprintf(stderr, "Scanning <%s>\n", db->msgs[i].src.mpf.path);
-        msg = make_rfc822(db->msgs[i].src.mpf.path);
+        msg = make_rfc822(db->msgs[i].src.mpf.path, &fetched);
         break;
       case MTY_IMAP:
         if (verbose) fprintf(stderr, "Scanning IMAP <%s>\n", db->msgs[i].src.mpf.path);
diff --git a/mairix.h b/mairix.h
index b63bf46..490041e 100644
--- a/mairix.h
+++ b/mairix.h
@@ -332,7 +332,7 @@ void build_message_list(char *folder_base, char *folders, enum folder_type ft,
     struct msgpath_array *msgs, struct globber_array *omit_globs);
 
 /* In rfc822.c */
-struct rfc822 *make_rfc822(char *filename);
+struct rfc822 *make_rfc822(char *filename, int *fetched);
 void free_rfc822(struct rfc822 *msg);
 enum data_to_rfc822_error {
   DTR8_OK,
diff --git a/rfc822.c b/rfc822.c
index f410f6c..af76666 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1561,14 +1561,17 @@ static struct msg_src *setup_msg_src(char *filename)/*{{{*/
   return &result;
 }
 /*}}}*/
-struct rfc822 *make_rfc822(char *filename)/*{{{*/
+struct rfc822 *make_rfc822(char *filename, int *fetched)/*{{{*/
 {
+  /* FETCHED (which may be NULL) becomes false if the file can't be opened. */
   int len;
   unsigned char *data;
   struct rfc822 *result;
 
   create_ro_mapping(filename, &data, &len, MAP_DECOMPRESS_IF_APPLICABLE);
 
+  if (fetched) *fetched = data || (len >= 0);
+
   /* Don't process empty files */
   result = NULL;
 
@@ -1673,7 +1676,7 @@ int main (int argc, char **argv)/*{{{*/
     unlock_and_exit(2);
   }
 
-  msg = make_rfc822(argv[1]);
+  msg = make_rfc822(argv[1], NULL);
   show_rfc822(msg, 0);
   free_rfc822(msg);
 
diff --git a/search.c b/search.c
index 255d119..17cd355 100644
--- a/search.c
+++ b/search.c
@@ -1335,7 +1335,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               printf("---------------------------------\n");
               filename = db->data + db->path_offsets[i];
               printf("%s\n", filename);
-              parsed = make_rfc822(filename);
+              parsed = make_rfc822(filename, NULL);
             }
             break;
           case DB_MSG_IMAP:
-- 
2.43.0


From ff554df8a15afd6b29918b65f32411f4910e0f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:50 +0000
Subject: [PATCH 67/74] fix: release the lock when terminated

SIGTERM, what kill sends by default, left the lock behind.
---
 mairix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mairix.c b/mairix.c
index ed26f89..d5e8d77 100644
--- a/mairix.c
+++ b/mairix.c
@@ -799,6 +799,7 @@ int main (int argc, char **argv)/*{{{*/
   signal(SIGHUP, handlesig);
   signal(SIGINT, handlesig);
   signal(SIGQUIT, handlesig);
+  signal(SIGTERM, handlesig);
 
   lock_database(database_path, do_forced_unlock);
 
-- 
2.43.0


From 2509d8d0a29f09dfa0560d3f66fb7afd8b78ffc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:55 +0000
Subject: [PATCH 68/74] fix: release the lock if a file is truncated while it
 is read

Reading the lost part of a mapped file is fatal (SIGBUS), and the lock stayed
behind.
---
 mairix.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mairix.c b/mairix.c
index d5e8d77..f77e9a5 100644
--- a/mairix.c
+++ b/mairix.c
@@ -537,6 +537,10 @@ static void print_version(void)/*{{{*/
 /*}}}*/
 static void handlesig(int signo)/*{{{*/
 {
+  static const char truncated[] = "A file was truncated while mairix was reading it\n";
+  if ((signo == SIGBUS) && (write(2, truncated, sizeof(truncated) - 1) < 0)) {
+    /* never mind */
+  }
   unlock_and_exit(7);
 }
 /*}}}*/
@@ -800,6 +804,8 @@ int main (int argc, char **argv)/*{{{*/
   signal(SIGINT, handlesig);
   signal(SIGQUIT, handlesig);
   signal(SIGTERM, handlesig);
+  /* A file that is truncated by another program while it is mapped */
+  signal(SIGBUS, handlesig);
 
   lock_database(database_path, do_forced_unlock);
 
-- 
2.43.0


From 8bc88f8c784b8e18caa0bc0335e0abe1cb113873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:50 +0000
Subject: [PATCH 69/74] fix: keep SIGTERM away while the lock changes hands

Like the other signals that make mairix give up the lock: the temporary file
for the lock was left behind otherwise.
---
 dotlock.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dotlock.c b/dotlock.c
index 04183e2..056ea88 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -39,6 +39,7 @@ static void block_signals(sigset_t *old)/*{{{*/
   sigaddset(&ss, SIGHUP);
   sigaddset(&ss, SIGINT);
   sigaddset(&ss, SIGQUIT);
+  sigaddset(&ss, SIGTERM);
   sigprocmask(SIG_BLOCK, &ss, old);
 }
 /*}}}*/
-- 
2.43.0


From 998ea48f5ad919c24748f7f6a4133b097f6a930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:04 +0000
Subject: [PATCH 70/74] fix: do not take mail that cannot be read for empty
 mail

---
 rfc822.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index af76666..642c977 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1436,7 +1436,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
       xx_zclose(zf);
       goto comp_error;
     }
-    if (fwrite(p, cur_read, 1, tmpf) != 1) {
+    if ((cur_read > 0) && (fwrite(p, cur_read, 1, tmpf) != 1)) {
       fprintf(stderr, "failed writing to temp file for %s\n", filename);
       goto comp_error;
     }
@@ -1467,6 +1467,10 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
     data_alloc_type = ALLOC_NONE;
 
     if(*len > 0) {
+      if (fflush(tmpf)) {
+        fprintf(stderr, "failed writing to temp file for %s\n", filename);
+        goto comp_error;
+      }
       ro = add_ro_cache(filename, fileno(tmpf), *len);
       if (!ro)
         goto comp_error;
@@ -1480,7 +1484,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
 
 comp_error:
     *data = NULL;
-    *len = 0;
+    *len = -1; /* not an empty file */
     if (tmpf)
       fclose(tmpf);
     return;
@@ -1530,6 +1534,7 @@ comp_error:
   if (*data == MAP_FAILED) {
     report_error("rfc822:mmap", filename);
     *data = NULL;
+    *len = -1;
     return;
   }
   data_alloc_type = ALLOC_MMAP;
-- 
2.43.0


From 17902a0dce721bed1c8c722c781011ea9f71ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:26 +0000
Subject: [PATCH 71/74] fix: notice failures while decompressing large
 mailboxes

---
 rfc822.c | 12 +++++++++++-
 xzfile.c |  4 +++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 642c977..d40818c 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1261,6 +1261,9 @@ static int read_bzip(struct zFile *zf, char *buf, int len) {/*{{{*/
   while (got < len && zf->foo.bzf) {
     int bzerror;
     int n = BZ2_bzRead(&bzerror, zf->foo.bzf, buf + got, len - got);
+    if (bzerror == BZ_IO_ERROR) {
+      return -1;
+    }
     if (bzerror != BZ_OK && bzerror != BZ_STREAM_END) {
       return got ? got : -1;
     }
@@ -1275,6 +1278,7 @@ static int read_bzip(struct zFile *zf, char *buf, int len) {/*{{{*/
       zf->foo.bzf = NULL;
       if (n_unused == 0) {
         c = getc(zf->bzfile);
+        if (c == EOF && ferror(zf->bzfile)) return -1;
         if (c == EOF) break;
         ungetc(c, zf->bzfile);
       }
@@ -1445,7 +1449,13 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
       while(1) {
         int ret;
         cur_read = xx_zread(zf, p, SIZE_STEP);
-        if (cur_read <= 0)
+        if (cur_read < 0) {
+          fprintf(stderr, "Could not decompress %s\n", filename);
+          free(p);
+          xx_zclose(zf);
+          goto comp_error;
+        }
+        if (cur_read == 0)
           break;
         *len += cur_read;
         ret = fwrite(p, cur_read, 1, tmpf);
diff --git a/xzfile.c b/xzfile.c
index c64b823..dd8ca8b 100644
--- a/xzfile.c
+++ b/xzfile.c
@@ -73,6 +73,7 @@ int
 xzread(xzFile *xzf, void *buf, int len)
 {
   lzma_stream *lzs;
+  lzma_ret     ret;
 
   if(xzf == NULL || buf == NULL || len <= 0)
     return -1;
@@ -80,7 +81,8 @@ xzread(xzFile *xzf, void *buf, int len)
   lzs = &xzf->m_lzma;
   lzs->next_out = buf;
   lzs->avail_out = len;
-  if(lzma_code(lzs, LZMA_RUN) != LZMA_OK) /* Argh! */
+  ret = lzma_code(lzs, LZMA_RUN);
+  if(ret != LZMA_OK && ret != LZMA_BUF_ERROR) /* Argh! */
     return -1;
 
   return lzs->next_out - (uint8_t *) buf;
-- 
2.43.0


From ec27adf0612cdabf579bbce62bbf24608046467d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:09 +0000
Subject: [PATCH 72/74] fix: recognize header names and MIME types in any
 locale

---
 mairix.c | 52 ++++++++++++++++++++++++++--------------------------
 mairix.h |  3 +++
 nvp.c    |  4 ++--
 rfc822.c | 37 ++++++++++++++++++++++++++++---------
 4 files changed, 59 insertions(+), 37 deletions(-)

diff --git a/mairix.c b/mairix.c
index f77e9a5..0f64d2e 100644
--- a/mairix.c
+++ b/mairix.c
@@ -214,7 +214,7 @@ static int imap_member_of(const char *mfolder, const char *folders, struct globb
   split_on_colons(folders, &n_names, &names);
   for (i=0; i<n_names; i++) {
     if ((!strcmp(mfolder, names[i]) ||
-         (!strcasecmp(mfolder, "INBOX") && !strcasecmp(names[i], "INBOX"))) &&
+         (!ascii_strcasecmp(mfolder, "INBOX") && !ascii_strcasecmp(names[i], "INBOX"))) &&
         !is_globber_array_match(omit_globs, names[i]))
       result = 1;
   }
@@ -261,17 +261,17 @@ static void parse_output_folder(char *p)/*{{{*/
 {
   char *temp;
   temp = copy_value(p);
-  if (!strncasecmp(temp, "mh", 2)) {
+  if (!ascii_strncasecmp(temp, "mh", 2)) {
     output_folder_type = FT_MH;
-  } else if (!strncasecmp(temp, "maildir", 7)) {
+  } else if (!ascii_strncasecmp(temp, "maildir", 7)) {
     output_folder_type = FT_MAILDIR;
-  } else if (!strncasecmp(temp, "raw", 3)) {
+  } else if (!ascii_strncasecmp(temp, "raw", 3)) {
     output_folder_type = FT_RAW;
-  } else if (!strncasecmp(temp, "excerpt", 3)) {
+  } else if (!ascii_strncasecmp(temp, "excerpt", 3)) {
     output_folder_type = FT_EXCERPT;
-  } else if (!strncasecmp(temp, "mbox", 4)) {
+  } else if (!ascii_strncasecmp(temp, "mbox", 4)) {
     output_folder_type = FT_MBOX;
-  } else if (!strncasecmp(temp, "imap", 4)) {
+  } else if (!ascii_strncasecmp(temp, "imap", 4)) {
     output_folder_type = FT_IMAP;
   }
   else {
@@ -343,33 +343,33 @@ static void parse_rc_file(char *name)/*{{{*/
     if (all_blank) continue;
 
     /* Now a real line to parse */
-    if (!strncasecmp(p, "base", 4)) folder_base = copy_value(p);
-    else if (!strncasecmp(p, "folders", 7)) {
+    if (!ascii_strncasecmp(p, "base", 4)) folder_base = copy_value(p);
+    else if (!ascii_strncasecmp(p, "folders", 7)) {
       fprintf(stderr, "'folders=' option in rc file is depracated, use 'maildir='\n");
       add_folders(&maildir_folders, copy_value(p));
     }
-    else if (!strncasecmp(p, "maildir=", 8)) add_folders(&maildir_folders, copy_value(p));
-    else if (!strncasecmp(p, "mh_folders=", 11)) {
+    else if (!ascii_strncasecmp(p, "maildir=", 8)) add_folders(&maildir_folders, copy_value(p));
+    else if (!ascii_strncasecmp(p, "mh_folders=", 11)) {
       fprintf(stderr, "'mh_folders=' option in rc file is depracated, use 'mh='\n");
       add_folders(&mh_folders, copy_value(p));
     }
-    else if (!strncasecmp(p, "mh=", 3)) add_folders(&mh_folders, copy_value(p));
-    else if (!strncasecmp(p, "mbox=", 5)) add_folders(&mboxen, copy_value(p));
-    else if (!strncasecmp(p, "imap=", 5)) add_folders(&imap_folders, copy_value(p));
-    else if (!strncasecmp(p, "imap_pipe=", 10)) imap_pipe = copy_value(p);
-    else if (!strncasecmp(p, "imap_server=", 12)) imap_server = copy_value(p);
-    else if (!strncasecmp(p, "imap_username=", 14)) imap_username = copy_value(p);
-    else if (!strncasecmp(p, "imap_password=", 14)) imap_password = copy_value(p);
-    else if (!strncasecmp(p, "follow_mbox_symlinks", 20)) follow_mbox_symlinks = 1;
-    else if (!strncasecmp(p, "omit=", 5)) add_folders(&omit, copy_value(p));
-
-    else if (!strncasecmp(p, "mformat=", 8)) {
+    else if (!ascii_strncasecmp(p, "mh=", 3)) add_folders(&mh_folders, copy_value(p));
+    else if (!ascii_strncasecmp(p, "mbox=", 5)) add_folders(&mboxen, copy_value(p));
+    else if (!ascii_strncasecmp(p, "imap=", 5)) add_folders(&imap_folders, copy_value(p));
+    else if (!ascii_strncasecmp(p, "imap_pipe=", 10)) imap_pipe = copy_value(p);
+    else if (!ascii_strncasecmp(p, "imap_server=", 12)) imap_server = copy_value(p);
+    else if (!ascii_strncasecmp(p, "imap_username=", 14)) imap_username = copy_value(p);
+    else if (!ascii_strncasecmp(p, "imap_password=", 14)) imap_password = copy_value(p);
+    else if (!ascii_strncasecmp(p, "follow_mbox_symlinks", 20)) follow_mbox_symlinks = 1;
+    else if (!ascii_strncasecmp(p, "omit=", 5)) add_folders(&omit, copy_value(p));
+
+    else if (!ascii_strncasecmp(p, "mformat=", 8)) {
       parse_output_folder(p);
     }
-    else if (!strncasecmp(p, "mfolder=", 8)) mfolder = copy_value(p);
-    else if (!strncasecmp(p, "database=", 9)) database_path = copy_value(p);
-    else if (!strncasecmp(p, "nochecks", 8)) skip_integrity_checks = 1;
-    else if (!strncasecmp(p, "sort=date+", 10)) sort_by_date = 1;
+    else if (!ascii_strncasecmp(p, "mfolder=", 8)) mfolder = copy_value(p);
+    else if (!ascii_strncasecmp(p, "database=", 9)) database_path = copy_value(p);
+    else if (!ascii_strncasecmp(p, "nochecks", 8)) skip_integrity_checks = 1;
+    else if (!ascii_strncasecmp(p, "sort=date+", 10)) sort_by_date = 1;
     else {
       if (verbose) {
         fprintf(stderr, "Unrecognized option at line %d in %s\n", lineno, name);
diff --git a/mairix.h b/mairix.h
index 490041e..8eed570 100644
--- a/mairix.h
+++ b/mairix.h
@@ -332,6 +332,9 @@ void build_message_list(char *folder_base, char *folders, enum folder_type ft,
     struct msgpath_array *msgs, struct globber_array *omit_globs);
 
 /* In rfc822.c */
+/* For header names, MIME types, directives etc : these are ASCII in any locale */
+int ascii_strcasecmp(const char *a, const char *b);
+int ascii_strncasecmp(const char *a, const char *b, size_t n);
 struct rfc822 *make_rfc822(char *filename, int *fetched);
 void free_rfc822(struct rfc822 *msg);
 enum data_to_rfc822_error {
diff --git a/nvp.c b/nvp.c
index bf83648..744276e 100644
--- a/nvp.c
+++ b/nvp.c
@@ -163,7 +163,7 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
   size_t pfxlen;
 
   pfxlen = strlen(pfx);
-  if (strncasecmp(pfx, s, pfxlen))
+  if (ascii_strncasecmp(pfx, s, pfxlen))
     return NULL;
   s += pfxlen;
 
@@ -369,7 +369,7 @@ const char *nvp_lookupcase(struct nvp *nvp, const char *name)/*{{{*/
   const char *result = NULL;
   for (ne = nvp->first; ne; ne=ne->next) {
     if (ne->type == NVP_NAMEVALUE) {
-      if (!strcasecmp(ne->lhs, name)) {
+      if (!ascii_strcasecmp(ne->lhs, name)) {
         if (ne->extended) return ne->rhs;
         if (!result) result = ne->rhs;
       }
diff --git a/rfc822.c b/rfc822.c
index d40818c..24677e6 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -213,10 +213,29 @@ static int audit_header(struct line *header)/*{{{*/
   /* If we get here the header must have been OK */
   return 1;
 }/*}}}*/
+static int ascii_tolower(char c)/*{{{*/
+{
+  return ((c >= 'A') && (c <= 'Z')) ? (c - 'A' + 'a') : (unsigned char) c;
+}
+/*}}}*/
+int ascii_strncasecmp(const char *a, const char *b, size_t n)/*{{{*/
+{
+  for (; n > 0; n--, a++, b++) {
+    int diff = ascii_tolower(*a) - ascii_tolower(*b);
+    if (diff || !*a) return diff;
+  }
+  return 0;
+}
+/*}}}*/
+int ascii_strcasecmp(const char *a, const char *b)/*{{{*/
+{
+  return ascii_strncasecmp(a, b, strlen(a) + 1);
+}
+/*}}}*/
 static int match_string(const char *ref, const char *candidate)/*{{{*/
 {
   int len = strlen(ref);
-  return !strncasecmp(ref, candidate, len);
+  return !ascii_strncasecmp(ref, candidate, len);
 }
 /*}}}*/
 
@@ -717,7 +736,7 @@ static void do_body(struct msg_src *src,
   if (ct_nvp) {
     struct content_type_header ct;
     parse_content_type(ct_nvp, &ct);
-    if (ct.major && !strcasecmp(ct.major, "multipart")) {
+    if (ct.major && !ascii_strcasecmp(ct.major, "multipart")) {
       if (part_nesting < MAX_PART_NESTING) {
         part_nesting++;
         do_multipart(src, decoded_body, decoded_body_len, ct.boundary, atts, error);
@@ -733,7 +752,7 @@ static void do_body(struct msg_src *src,
       const char *disposition;
       new_att = new(struct attachment);
       disposition = cd_nvp ? nvp_first(cd_nvp) : NULL;
-      if (disposition && !strcasecmp(disposition, "attachment")) {
+      if (disposition && !ascii_strcasecmp(disposition, "attachment")) {
         const char *lookup;
         lookup = nvp_lookupcase(cd_nvp, "filename");
         if (lookup) {
@@ -751,16 +770,16 @@ static void do_body(struct msg_src *src,
       } else {
         new_att->filename = NULL;
       }
-      if (ct.major && !strcasecmp(ct.major, "text")) {
-        if (ct.minor && !strcasecmp(ct.minor, "plain")) {
+      if (ct.major && !ascii_strcasecmp(ct.major, "text")) {
+        if (ct.minor && !ascii_strcasecmp(ct.minor, "plain")) {
           new_att->ct = CT_TEXT_PLAIN;
-        } else if (ct.minor && !strcasecmp(ct.minor, "html")) {
+        } else if (ct.minor && !ascii_strcasecmp(ct.minor, "html")) {
           new_att->ct = CT_TEXT_HTML;
         } else {
           new_att->ct = CT_TEXT_OTHER;
         }
-      } else if (ct.major && !strcasecmp(ct.major, "message") &&
-                 ct.minor && !strcasecmp(ct.minor, "rfc822") &&
+      } else if (ct.major && !ascii_strcasecmp(ct.major, "message") &&
+                 ct.minor && !ascii_strcasecmp(ct.minor, "rfc822") &&
                  part_nesting < MAX_PART_NESTING) {
         new_att->ct = CT_MESSAGE_RFC822;
       } else {
@@ -786,7 +805,7 @@ static void do_body(struct msg_src *src,
     new_att = new(struct attachment);
     disposition = cd_nvp ? nvp_first(cd_nvp) : NULL;
     lookup = NULL;
-    if (disposition && !strcasecmp(disposition, "attachment")) {
+    if (disposition && !ascii_strcasecmp(disposition, "attachment")) {
       lookup = nvp_lookupcase(cd_nvp, "filename");
     }
     new_att->filename = lookup ? new_string(lookup) : NULL;
-- 
2.43.0


From 86d2e0c422e43aa1a4ae82902762985ea232a360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:31 +0000
Subject: [PATCH 73/74] fix: recognize databases of other programs

All three bytes of the magic number have to match, not any one of them.
---
 reader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.c b/reader.c
index d04a75e..e0e7273 100644
--- a/reader.c
+++ b/reader.c
@@ -205,8 +205,8 @@ struct read_db *open_db(char *filename)/*{{{*/
   result->data = data;
 
   /*{{{ Magic number check */
-  if (ucdata[0] == HEADER_MAGIC0 ||
-      ucdata[1] == HEADER_MAGIC1 ||
+  if (ucdata[0] == HEADER_MAGIC0 &&
+      ucdata[1] == HEADER_MAGIC1 &&
       ucdata[2] == HEADER_MAGIC2) {
     if (ucdata[3] != HEADER_MAGIC3) {
       fprintf(stderr, "Another version of this program produced the existing database!  Please rebuild.\n");
-- 
2.43.0


From c5df78a2d0a27cd0bef21e7507fc402ae8125fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:48 +0000
Subject: [PATCH 74/74] fix: refuse a database that is cut off

The tables at the start of the file were checked, but not whether the text
and lists they refer to are all there; searches then silently missed messages,
and indexing failed an assertion and left the lock behind.
---
 reader.c | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/reader.c b/reader.c
index e0e7273..b789131 100644
--- a/reader.c
+++ b/reader.c
@@ -149,6 +149,38 @@ static int read_toktable2_db(char *data, int len, struct toktable2_db *toktable,
   return 1;
 }
 /*}}}*/
+static int has_last_list(const struct read_db *db, const unsigned int *offsets, int n)/*{{{*/
+{
+  /* Is the last list of a table all there? */
+  struct int_list_reader ilr;
+  int index;
+
+  if (offsets[n-1] >= (unsigned int) db->len) return 0;
+  read_db_int_list_reader_init(&ilr, db, offsets[n-1]);
+  while (int_list_reader_read(&ilr, &index)) ;
+  return (ilr.pos < ilr.end) && (*ilr.pos == 0xff);
+}
+/*}}}*/
+static int is_complete_db(const struct read_db *db)/*{{{*/
+{
+  /* The database is written in order, so look at the last table in it that has
+   * any tokens. */
+  const struct toktable_db *tables[6];
+  int i;
+
+  if (db->msg_ids.n > 0) return has_last_list(db, db->msg_ids.enc1_offsets, db->msg_ids.n);
+  tables[0] = &db->attachment_name;
+  tables[1] = &db->body;
+  tables[2] = &db->subject;
+  tables[3] = &db->from;
+  tables[4] = &db->cc;
+  tables[5] = &db->to;
+  for (i=0; i<6; i++) {
+    if (tables[i]->n > 0) return has_last_list(db, tables[i]->enc_offsets, tables[i]->n);
+  }
+  return 1;
+}
+/*}}}*/
 struct read_db *open_db(char *filename)/*{{{*/
 {
   int fd, len;
@@ -268,7 +300,8 @@ corrupt:
     read_toktable_db(data, len, &result->subject, UI_SUBJECT_BASE, uidata) &&
     read_toktable_db(data, len, &result->body, UI_BODY_BASE, uidata) &&
     read_toktable_db(data, len, &result->attachment_name, UI_ATTACHMENT_NAME_BASE, uidata) &&
-    read_toktable2_db(data, len, &result->msg_ids, UI_MSGID_BASE, uidata)
+    read_toktable2_db(data, len, &result->msg_ids, UI_MSGID_BASE, uidata) &&
+    is_complete_db(result)
   )) {
     goto corrupt;
   }
-- 
2.43.0

