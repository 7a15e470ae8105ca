From 66e0b9b819608fbdc19e5d665f4db282d969e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 1/7] fix: SkipList::RandomHeight asserted height < 0, aborting
 every insert

---
 db/skiplist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/skiplist.h b/db/skiplist.h
index 9b17dd4..bb4cc5a 100644
--- a/db/skiplist.h
+++ b/db/skiplist.h
@@ -246,7 +246,7 @@ int SkipList<Key, Comparator>::RandomHeight() {
   while (height < kMaxHeight && ((rnd_.Next() % kBranching) == 0)) {
     height++;
   }
-  assert(height < 0);
+  assert(height > 0);
   assert(height <= kMaxHeight);
   return height;
 }
-- 
2.43.0


From 0254c136c2a99c9157be688466a9cd704c697689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 2/7] fix: memenv NewAppendableFile did not store a new file in
 the namespace

---
 helpers/memenv/memenv.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index cbcd91f..516aad0 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -282,6 +282,7 @@ class InMemoryEnv : public EnvWapper {
     if (file == nullptr) {
       file = new FileState();
       file->Ref();
+      *sptr = file;
     }
     *result = new WritableFileImpl(file);
     return Status::OK();
-- 
2.43.0


From 56c9075ce0b2ade6dd39ad21def4c9eeba51ee7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 3/7] fix: memenv RenameFile onto itself destroyed the file

---
 helpers/memenv/memenv.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 516aad0..035e0d1 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -350,6 +350,9 @@ class InMemoryEnv : public EnvWapper {
     if (file_map_.find(src) == file_map_.end()) {
       return Status::IOError(src, "File not found");
     }
+    if (src == target) {
+      return Status::OK();
+    }
 
     RemoveFileInternal(target);
     file_map_[target] = file_map_[src];
-- 
2.43.0


From 2548a7e9f7267e9aa1842d3701309e89a1d3f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 4/7] fix: PosixMmapReadableFile::Read bound check could
 overflow

---
 util/env_posix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 509fcf6..818b77a 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -227,7 +227,7 @@ class PosixMmapReadableFile final : public RandomAccessFile {
 
   Status Read(uint64_t offset, size_t n, Slice* result,
               char* scratch) const override {
-    if (offset + n > length_) {
+    if (offset > length_ || n > length_ - offset) {
       *result = Slice();
       return PosixError(filename_, EINVAL);
     }
-- 
2.43.0


From cdad511f6ae7391994615c71be1dde0d537313ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 5/7] fix: PosixEnv::LockFile on a held lock dropped the
 holder's fcntl lock

---
 util/env_posix.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 818b77a..f5e6bcd 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -633,16 +633,19 @@ class PosixEnv : public Env {
   Status LockFile(const std::string& filename, FileLock** lock) override {
     *lock = nullptr;
 
-    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
-    if (fd < 0) {
-      return PosixError(filename, errno);
-    }
-
+    // Closing any descriptor of a file drops the fcntl() locks this process
+    // holds on it, so do not open the file before knowing it is not held.
     if (!locks_.Insert(filename)) {
-      ::close(fd);
       return Status::IOError("lock " + filename, "already held by process");
     }
 
+    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
+    if (fd < 0) {
+      int open_errno = errno;
+      locks_.Remove(filename);
+      return PosixError(filename, open_errno);
+    }
+
     if (LockOrUnlock(fd, true) == -1) {
       int lock_errno = errno;
       ::close(fd);
-- 
2.43.0


From f73068fd311da84982f489f6e890eacf52d25161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:03 +0000
Subject: [PATCH 6/7] fix: PosixEnv::UnlockFile closed its descriptor after
 releasing the name

---
 util/env_posix.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index f5e6bcd..ad15553 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -665,8 +665,10 @@ class PosixEnv : public Env {
     if (LockOrUnlock(posix_file_lock->fd(), false) == -1) {
       return PosixError("unlock " + posix_file_lock->filename(), errno);
     }
-    locks_.Remove(posix_file_lock->filename());
+    // Close before giving up the table entry: closing drops any fcntl() lock
+    // another thread could otherwise take on the file in between.
     ::close(posix_file_lock->fd());
+    locks_.Remove(posix_file_lock->filename());
     delete posix_file_lock;
     return Status::OK();
   }
-- 
2.43.0


From 91c5bc320196c9a157fee04671377a2ad5b23e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:18 +0000
Subject: [PATCH 7/7] fix: ShardedLRUCache capacity per shard wrapped near
 SIZE_MAX

(capacity + 15) / 16 overflowed for capacities within 15 of SIZE_MAX, giving every
shard capacity 0: the cache was silently switched off.
---
 util/cache.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/cache.cc b/util/cache.cc
index 3830e26..1ce9125 100644
--- a/util/cache.cc
+++ b/util/cache.cc
@@ -391,7 +391,9 @@ const int kNumShards = 1 << kNumShardBits;
 class ShardedLRUCache : public Cache {
  public:
   explicit ShardedLRUCache(size_t capacity) : last_id_(0) {
-    const size_t per_shard = (capacity + (kNumShards - 1)) / kNumShards;
+    // Round up without letting the sum wrap for capacities near SIZE_MAX.
+    const size_t per_shard =
+        capacity / kNumShards + (capacity % kNumShards != 0 ? 1 : 0);
     for (int s = 0; s < kNumShards; ++s) {
       shard_[s].SetCapacity(per_shard);
     }
-- 
2.43.0

