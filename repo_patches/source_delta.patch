From ded7f9f0a721c0bea5a1c319be8fa17fbf3b1d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 01/13] fix: do not overflow when dividing a huge cache
 capacity among shards

---
 util/cache.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/cache.cc b/util/cache.cc
index 3830e26..e222af9 100644
--- a/util/cache.cc
+++ b/util/cache.cc
@@ -391,7 +391,9 @@ const int kNumShards = 1 << kNumShardBits;
 class ShardedLRUCache : public Cache {
  public:
   explicit ShardedLRUCache(size_t capacity) : last_id_(0) {
-    const size_t per_shard = (capacity + (kNumShards - 1)) / kNumShards;
+    // Round up without overflowing for capacities close to the largest size_t.
+    const size_t per_shard =
+        capacity / kNumShards + (capacity % kNumShards != 0 ? 1 : 0);
     for (int s = 0; s < kNumShards; ++s) {
       shard_[s].SetCapacity(per_shard);
     }
-- 
2.43.0


From 2bfc78e8f705ac1d4aada8b5a8acb0b7fc5219b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 02/13] fix: skip list height assertion aborted every insertion
 in debug builds

---
 db/skiplist.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/db/skiplist.h b/db/skiplist.h
index 9b17dd4..bb4cc5a 100644
--- a/db/skiplist.h
+++ b/db/skiplist.h
@@ -246,7 +246,7 @@ int SkipList<Key, Comparator>::RandomHeight() {
   while (height < kMaxHeight && ((rnd_.Next() % kBranching) == 0)) {
     height++;
   }
-  assert(height < 0);
+  assert(height > 0);
   assert(height <= kMaxHeight);
   return height;
 }
-- 
2.43.0


From e1ef4caf654c06cb83b7ec7be4b98b7060da3815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 03/13] fix: in-memory append-open of a missing file must
 create the file

---
 helpers/memenv/memenv.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index cbcd91f..150d9e2 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -280,8 +280,10 @@ class InMemoryEnv : public EnvWapper {
     FileState** sptr = &file_map_[filename];
     auto file = *sptr;
     if (file == nullptr) {
+      // File is not currently open.
       file = new FileState();
       file->Ref();
+      *sptr = file;
     }
     *result = new WritableFileImpl(file);
     return Status::OK();
-- 
2.43.0


From cd0e410caffa30495d5a9fdf0fa5d06a1b282521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:45 +0000
Subject: [PATCH 04/13] fix: renaming an in-memory file to itself must keep it

---
 helpers/memenv/memenv.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 150d9e2..f80f62c 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -351,6 +351,10 @@ class InMemoryEnv : public EnvWapper {
     if (file_map_.find(src) == file_map_.end()) {
       return Status::IOError(src, "File not found");
     }
+    if (src == target) {
+      // Renaming a file to itself must not lose it.
+      return Status::OK();
+    }
 
     RemoveFileInternal(target);
     file_map_[target] = file_map_[src];
-- 
2.43.0


From 62bfc0d61ff8b4839e6e3abf99fcc73a84c24ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 05/13] fix: report NotFound when opening a missing in-memory
 file for reading

---
 helpers/memenv/memenv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index f80f62c..51438a8 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -235,7 +235,7 @@ class InMemoryEnv : public EnvWapper {
     MutexLock lock(&mutex_);
     if (file_map_.find(filename) == file_map_.end()) {
       *result = nullptr;
-      return Status::IOError(filename, "File not found");
+      return Status::NotFound(filename, "File not found");
     }
 
     *result = new SequentialFileImpl(file_map_[filename]);
@@ -247,7 +247,7 @@ class InMemoryEnv : public EnvWapper {
     MutexLock lock(&mutex_);
     if (file_map_.find(filename) == file_map_.end()) {
       *result = nullptr;
-      return Status::IOError(filename, "File not found");
+      return Status::NotFound(filename, "File not found");
     }
 
     *result = new RandomAccessFileImpl(file_map_[filename]);
-- 
2.43.0


From fd6037e8f3c1f1d2fcb85f6b5e9cf1efa3db6a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 06/13] fix: the directory of a file in the root directory is /

---
 util/env_posix.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 509fcf6..76f0871 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -400,6 +400,10 @@ class PosixWritableFile final : public WritableFile {
     // If it does, the splitting was done incorrectly.
     assert(filename.find('/', separator_pos + 1) == std::string::npos);
 
+    // A file in the root directory.
+    if (separator_pos == 0) {
+      return std::string("/");
+    }
     return filename.substr(0, separator_pos);
   }
 
-- 
2.43.0


From 6aca8bee6f7925d112227a3163a4e8966342e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:24 +0000
Subject: [PATCH 07/13] fix: an empty file can be opened for random access

---
 util/env_posix.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 76f0871..a77c780 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -531,6 +531,12 @@ class PosixEnv : public Env {
 
     uint64_t file_size;
     Status status = GetFileSize(filename, &file_size);
+    if (status.ok() && file_size == 0) {
+      // mmap() rejects an empty region: read an empty file with pread().
+      mmap_limiter_.Release();
+      *result = new PosixRandomAccessFile(filename, fd, &fd_limiter_);
+      return Status::OK();
+    }
     if (status.ok()) {
       void* mmap_base =
           ::mmap(nullptr, file_size, PROT_READ, MAP_SHARED, fd, 0);
-- 
2.43.0


From 1524eaf86c4bb386a0bc0d3bd0e9bcc80a5abc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 08/13] fix: range check of mapped reads must not wrap around

---
 util/env_posix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index a77c780..5c30ac2 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -227,7 +227,7 @@ class PosixMmapReadableFile final : public RandomAccessFile {
 
   Status Read(uint64_t offset, size_t n, Slice* result,
               char* scratch) const override {
-    if (offset + n > length_) {
+    if (offset > length_ || n > length_ - offset) {
       *result = Slice();
       return PosixError(filename_, EINVAL);
     }
-- 
2.43.0


From 83afae982ed502120c9851729f15016b4becaf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:30 +0000
Subject: [PATCH 09/13] fix: skipping in a POSIX file must stop at its end

---
 util/env_posix.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 5c30ac2..2c88701 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -127,6 +127,18 @@ class PosixSequentialFile final : public SequentialFile {
   }
 
   Status Skip(uint64_t n) override {
+    // Stop at the end of a regular file: lseek() would move beyond it, or
+    // backwards when |n| does not fit in off_t.
+    struct ::stat file_stat;
+    off_t position = ::lseek(fd_, 0, SEEK_CUR);
+    if (position == static_cast<off_t>(-1) || ::fstat(fd_, &file_stat) != 0) {
+      return PosixError(filename_, errno);
+    }
+    if (S_ISREG(file_stat.st_mode)) {
+      uint64_t remaining =
+          file_stat.st_size > position ? file_stat.st_size - position : 0;
+      n = std::min(n, remaining);
+    }
     if (::lseek(fd_, n, SEEK_CUR) == static_cast<off_t>(-1)) {
       return PosixError(filename_, errno);
     }
-- 
2.43.0


From 71cf8e6d37681cb0c1300f6cdba9f6e7b4d1ffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:58 +0000
Subject: [PATCH 10/13] fix: in-memory sequential Skip reads the file size once

Two reads of the size let a truncation in between move the reader past
the end of the file (or wrap the available count).
---
 helpers/memenv/memenv.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/helpers/memenv/memenv.cc b/helpers/memenv/memenv.cc
index 51438a8..65314b8 100644
--- a/helpers/memenv/memenv.cc
+++ b/helpers/memenv/memenv.cc
@@ -165,10 +165,12 @@ class SequentialFileImpl : public SequentialFile {
   }
 
   Status Skip(uint64_t n) override {
-    if (pos_ > file_->Size()) {
+    // Another thread may truncate the file, so look at its size only once.
+    const uint64_t size = file_->Size();
+    if (pos_ > size) {
       return Status::IOError("pos_ > file_->Slice()");
     }
-    const uint64_t available = file_->Size() - pos_;
+    const uint64_t available = size - pos_;
     if (n > available) {
       n = available;
     }
-- 
2.43.0


From 93f0a0df315859c03a5e72e0f344a1d58ef960b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:46 +0000
Subject: [PATCH 11/13] fix: a failing LockFile no longer drops the lock held
 by the process

---
 util/env_posix.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 2c88701..2ff5b87 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -655,16 +655,19 @@ class PosixEnv : public Env {
   Status LockFile(const std::string& filename, FileLock** lock) override {
     *lock = nullptr;
 
-    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
-    if (fd < 0) {
-      return PosixError(filename, errno);
-    }
-
+    // Closing any descriptor of the file drops this process's fcntl() lock on
+    // it, so only the thread that has entered the name may open and close it.
     if (!locks_.Insert(filename)) {
-      ::close(fd);
       return Status::IOError("lock " + filename, "already held by process");
     }
 
+    int fd = ::open(filename.c_str(), O_RDWR | O_CREAT | kOpenBaseFlags, 0644);
+    if (fd < 0) {
+      Status status = PosixError(filename, errno);
+      locks_.Remove(filename);
+      return status;
+    }
+
     if (LockOrUnlock(fd, true) == -1) {
       int lock_errno = errno;
       ::close(fd);
-- 
2.43.0


From 3c8833fca22a97a0779b7a8430564e5113fe6e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:26 +0000
Subject: [PATCH 12/13] fix: UnlockFile closes the file before another thread
 can lock it

---
 util/env_posix.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 2ff5b87..16db5aa 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -687,8 +687,10 @@ class PosixEnv : public Env {
     if (LockOrUnlock(posix_file_lock->fd(), false) == -1) {
       return PosixError("unlock " + posix_file_lock->filename(), errno);
     }
-    locks_.Remove(posix_file_lock->filename());
+    // Closing before another thread can enter the name: closing afterwards
+    // would drop the fcntl() lock that thread may have taken meanwhile.
     ::close(posix_file_lock->fd());
+    locks_.Remove(posix_file_lock->filename());
     delete posix_file_lock;
     return Status::OK();
   }
-- 
2.43.0


From cb839cba72b7575ccc9841f19bc7ee8b65ddd57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:51 +0000
Subject: [PATCH 13/13] fix: size the mapping of a random access file by its
 descriptor

NewRandomAccessFile() opened the file and then asked for the size by name. When
the name was renamed over or removed in between, the size of another file was
used: reads inside the file were rejected, bytes beyond its end were returned
as data (or raised SIGBUS), or the open failed after it had succeeded.
---
 util/env_posix.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/util/env_posix.cc b/util/env_posix.cc
index 16db5aa..3b2dbbb 100644
--- a/util/env_posix.cc
+++ b/util/env_posix.cc
@@ -541,8 +541,16 @@ class PosixEnv : public Env {
       return Status::OK();
     }
 
-    uint64_t file_size;
-    Status status = GetFileSize(filename, &file_size);
+    // Ask the descriptor, not the name: the name may already stand for another
+    // file, of another size.
+    struct ::stat file_stat;
+    uint64_t file_size = 0;
+    Status status;
+    if (::fstat(fd, &file_stat) != 0) {
+      status = PosixError(filename, errno);
+    } else {
+      file_size = file_stat.st_size;
+    }
     if (status.ok() && file_size == 0) {
       // mmap() rejects an empty region: read an empty file with pread().
       mmap_limiter_.Release();
-- 
2.43.0

