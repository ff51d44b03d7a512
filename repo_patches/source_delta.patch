From 72bc6e749c38a2e7a00577425c3808f17775ddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 01/73] fix: ThreadPool::endTask must wake every thread blocked
 in wait()

---
 src/eckit/thread/ThreadPool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index 04622bd..d5f4c4b 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -142,7 +142,7 @@ void ThreadPool::startTask() {
 void ThreadPool::endTask() {
     AutoLock<MutexCond> lock(active_);
     tasks_--;
-    active_.signal();
+    active_.broadcast();
     // Log::info() << "ThreadPool::notifyStart " << name_ << " running: " << running_ << std::endl;
 }
 
-- 
2.43.0


From e8217958998d098899d3d24709ae461d46103ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 02/73] fix: ThreadPool::push of a list must account for its
 tasks, or the count underflows

---
 src/eckit/thread/ThreadPool.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index d5f4c4b..de819eb 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -166,6 +166,12 @@ void ThreadPool::push(ThreadPoolTask* r) {
 }
 
 void ThreadPool::push(std::list<ThreadPoolTask*>& l) {
+    for (ThreadPoolTask* task : l) {
+        if (task) {
+            startTask();
+        }
+    }
+
     AutoLock<MutexCond> lock(ready_);
 
     for (std::list<ThreadPoolTask*>::iterator j = l.begin(); j != l.end(); ++j) {
-- 
2.43.0


From 0a912f90ff6770bc403d62a2d54c97e71795113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 03/73] fix: ThreadPool must count a worker as running before
 starting it, or waitForThreads() can return early

---
 src/eckit/thread/ThreadPool.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/eckit/thread/ThreadPool.cc b/src/eckit/thread/ThreadPool.cc
index de819eb..dd7885b 100644
--- a/src/eckit/thread/ThreadPool.cc
+++ b/src/eckit/thread/ThreadPool.cc
@@ -33,8 +33,6 @@ public:
 };
 
 void ThreadPoolThread::run() {
-    owner_.notifyStart();
-
     Monitor::instance().name(owner_.name());
 
     // Log::info() << "Start of ThreadPoolThread " << std::endl;
@@ -218,8 +216,16 @@ void ThreadPool::resize(size_t size) {
     }
 
     while (count_ < size) {
-        ThreadControler c(new ThreadPoolThread(*this), true, stack_);
-        c.start();
+        // Account for the thread before it exists: waitForThreads() could otherwise find nothing running yet and return
+        notifyStart();
+        try {
+            ThreadControler c(new ThreadPoolThread(*this), true, stack_);
+            c.start();
+        }
+        catch (...) {
+            notifyEnd();
+            throw;
+        }
         count_++;
     }
 }
-- 
2.43.0


From 3306e95473dc398c4cdbbaa3ee45a3a9629f3aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 04/73] fix: AsyncHandle destructor could wait for ever, its
 writer missing the stop signal

---
 src/eckit/io/AsyncHandle.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/AsyncHandle.cc b/src/eckit/io/AsyncHandle.cc
index cc991d1..d0ebb11 100644
--- a/src/eckit/io/AsyncHandle.cc
+++ b/src/eckit/io/AsyncHandle.cc
@@ -103,11 +103,12 @@ AsyncHandle::~AsyncHandle() {
             delete buffers_.front().second;
             buffers_.pop_front();
         }
+
+        // Stop under the lock: the writer could otherwise miss the signal between testing stopped() and waiting
+        thread_.stop();
         cond_.signal();
     }
 
-    thread_.stop();
-    cond_.signal();
     thread_.wait();
 }
 
-- 
2.43.0


From dc2bfe96c97c710abe8826e73389c27752f6fb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 05/73] fix: AsyncHandle could lose a write error, and never
 reported its reason

---
 src/eckit/io/AsyncHandle.cc | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/eckit/io/AsyncHandle.cc b/src/eckit/io/AsyncHandle.cc
index d0ebb11..5199a5d 100644
--- a/src/eckit/io/AsyncHandle.cc
+++ b/src/eckit/io/AsyncHandle.cc
@@ -39,7 +39,7 @@ public:
 void AsyncHandleWriter::run() {
     while (!stopped()) {
         Buffer* delme = nullptr;
-        try {
+        {
             AutoLock<MutexCond> lock(owner_.cond_);
             while (owner_.buffers_.empty() && !stopped()) {
                 owner_.cond_.wait();
@@ -56,21 +56,23 @@ void AsyncHandleWriter::run() {
             owner_.used_ -= p.second->size();
             delme = p.second;
 
-            long written = owner_.handle().write(p.second->data(), p.first);
-            if (written != static_cast<long>(p.first)) {
-                std::ostringstream oss;
-                oss << "AsyncHandleWriter: written " << written << " out of " << p.first << Log::syserr;
-                throw WriteError(oss.str());
+            // The error must be recorded before the lock is released: the buffer is not in the queue any more
+            try {
+                long written = owner_.handle().write(p.second->data(), p.first);
+                if (written != static_cast<long>(p.first)) {
+                    std::ostringstream oss;
+                    oss << "AsyncHandleWriter: written " << written << " out of " << p.first << Log::syserr;
+                    throw WriteError(oss.str());
+                }
+            }
+            catch (std::exception& e) {
+                eckit::Log::error() << "AsyncHandleWriter got an exception: " << e.what() << " " << owner_ << std::endl;
+                owner_.error_   = true;
+                owner_.message_ = e.what();
             }
 
             owner_.cond_.signal();
         }
-        catch (std::exception& e) {
-            eckit::Log::error() << "AsyncHandleWriter got an exception: " << e.what() << " " << owner_ << std::endl;
-            AutoLock<MutexCond> lock(owner_.cond_);
-            owner_.error_ = e.what();
-            owner_.cond_.signal();
-        }
         delete delme;
         delme = nullptr;
     }
-- 
2.43.0


From 8d05a1e352dbdeb0c1ec875b645fc78ef42cab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 06/73] fix: DblBuffer left its writer running on freed buffers
 when read() returned an error

---
 src/eckit/io/DblBuffer.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eckit/io/DblBuffer.cc b/src/eckit/io/DblBuffer.cc
index 2c690a6..d602619 100644
--- a/src/eckit/io/DblBuffer.cc
+++ b/src/eckit/io/DblBuffer.cc
@@ -183,6 +183,9 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate)
         try {
             double x           = reader.elapsed();
             buffers[i].length_ = in.read(buffers[i].buffer_, bufSize_);
+            if (buffers[i].length_ < 0) {
+                throw ReadError(in.name());
+            }
             double s           = reader.elapsed() - x;
             Log::status() << Bytes(estimate) << " at " << Bytes(buffers[i].length_ / s) << "/s" << std::endl;
             rate += s;
-- 
2.43.0


From a0be49eaeab643ac0af6316c8dae26305e301dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:43 +0000
Subject: [PATCH 07/73] fix: DblBuffer took any failure following a restart for
 another restart

---
 src/eckit/io/DblBuffer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eckit/io/DblBuffer.cc b/src/eckit/io/DblBuffer.cc
index d602619..3c0ab3a 100644
--- a/src/eckit/io/DblBuffer.cc
+++ b/src/eckit/io/DblBuffer.cc
@@ -152,6 +152,7 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate)
     Progress progress("Reading data", 0, estimate);
 
     error_   = false;
+    restart_ = false;
     inBytes_ = outBytes_ = 0;
 
     ThreadControler thread(new DblBufferTask(out, *this, buffers, estimate, Monitor::instance().self()), false);
-- 
2.43.0


From a7e6d6b0d8b01da06ba423377fb140644a61e1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 08/73] fix: DblBuffer::copy after a restart returned the
 length of the last part, and failed if the total was unknown

---
 src/eckit/io/DblBuffer.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/DblBuffer.cc b/src/eckit/io/DblBuffer.cc
index 3c0ab3a..ddc7282 100644
--- a/src/eckit/io/DblBuffer.cc
+++ b/src/eckit/io/DblBuffer.cc
@@ -99,6 +99,7 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out) {
 
     Length total  = estimate;
     Length copied = 0;
+    Offset start(0);
 
     static Resource<long> maxRetriesResource("dblBufferMaxRetries", 5);
     long maxRetries = maxRetriesResource;
@@ -129,13 +130,14 @@ Length DblBuffer::copy(DataHandle& in, DataHandle& out) {
             watcher_.restartFrom(retry.from());
             in.restartReadFrom(retry.from());
             out.restartWriteFrom(retry.from());
-            estimate = total - retry.from();
+            start    = retry.from();
+            estimate = total ? Length(total - retry.from()) : Length(0);
             more     = true;
         }
     }
 
     Log::info() << "Transfer rate " << Bytes(estimate, timer) << std::endl;
-    return copied;
+    return copied + start;
 }
 
 Length DblBuffer::copy(DataHandle& in, DataHandle& out, const Length& estimate) {
-- 
2.43.0


From bfd3be2ae18dd1fd4d302c4403b080beb1c1656e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:11 +0000
Subject: [PATCH 09/73] fix: FilePool::checkin must wake every waiter, they may
 be waiting for different files

---
 src/eckit/io/FilePool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/FilePool.cc b/src/eckit/io/FilePool.cc
index bcd689c..6e3ac96 100644
--- a/src/eckit/io/FilePool.cc
+++ b/src/eckit/io/FilePool.cc
@@ -79,7 +79,7 @@ void FilePool::checkin(DataHandle* handle) {
         if (itr->second == handle) {
             cache_.insert(itr->first, itr->second);
             inUse_.erase(itr);
-            cond_.signal();
+            cond_.broadcast();
             return;
         }
     }
-- 
2.43.0


From cfe10d0f2df4c2aa6e66a436f708cc8dbe2b1df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:29 +0000
Subject: [PATCH 10/73] fix: TxnLog ignores the temporary file an interrupted
 update leaves behind

---
 src/eckit/transaction/TxnLog.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/eckit/transaction/TxnLog.cc b/src/eckit/transaction/TxnLog.cc
index 87e3a89..841a5a0 100644
--- a/src/eckit/transaction/TxnLog.cc
+++ b/src/eckit/transaction/TxnLog.cc
@@ -192,6 +192,18 @@ bool TxnLog<T>::exists(T& event) {
     return path.exists();
 }
 
+// Active transactions. An interrupted update() may leave a temporary file behind: it is not a transaction
+
+inline void activeTransactions(const PathName& path, std::vector<PathName>& result) {
+    PathName::match(path + "/[0-9]*", result);
+    result.erase(std::remove_if(result.begin(), result.end(),
+                                [](const PathName& p) {
+                                    return std::string(p.baseName()).find_first_not_of("0123456789") !=
+                                           std::string::npos;
+                                }),
+                 result.end());
+}
+
 template <class T>
 class RecoverThread : public Thread {
     TxnArray& nextID_;
@@ -211,7 +223,7 @@ template <class T>
 RecoverThread<T>::RecoverThread(const PathName& path, TxnArray& nextID, TxnRecoverer<T>& client, long age) :
     nextID_(nextID), client_(client), age_(age), now_(::time(nullptr)) {
     AutoLock<TxnArray> lock(nextID_);
-    PathName::match(path + "/[0-9]*", result_);
+    activeTransactions(path, result_);
 
     // Sort by ID to preserve order
     std::sort(result_.begin(), result_.end());
@@ -275,10 +287,9 @@ void TxnLog<T>::find(TxnFinder<T>& r) {
 
     if (r.active()) {
 
-        PathName path = path_ + "/[0-9]*";
         std::vector<PathName> active;
 
-        PathName::match(path, active);
+        activeTransactions(path_, active);
 
         LOG_DEBUG_LIB(LibEcKit) << "TxnLog found active: " << active << std::endl;
 
-- 
2.43.0


From ebb5130a8248a1366114e90399e249b427c06ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:31 +0000
Subject: [PATCH 11/73] fix: CacheManager counts the size of the first entry
 and of entries made again after their removal

---
 src/eckit/container/CacheManager.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/eckit/container/CacheManager.cc b/src/eckit/container/CacheManager.cc
index 1d35539..b37e4e0 100644
--- a/src/eckit/container/CacheManager.cc
+++ b/src/eckit/container/CacheManager.cc
@@ -37,10 +37,15 @@ std::string CacheManagerBase::loader() const {
 template <class T>
 static bool compare(const T& a, const T& b) {
 
+    // entries that were removed (last_ is 0) come last
     if (a.second.last_ == 0) {
         return false;
     }
 
+    if (b.second.last_ == 0) {
+        return true;
+    }
+
     return a.second.last_ < b.second.last_;
 }
 
@@ -91,16 +96,15 @@ void CacheManagerBase::rescanCache(const PathName& base) const {
         cache_key_t total_key(".total");
         cache_entry_t total_entry = {0, 0, 0};
 
-        if (!btree.get(key, entry)) {
+        if (!btree.get(key, entry) || entry.last_ == 0) {
             entry.size_  = size_t(file.size());
             entry.count_ = 1;
             entry.last_  = ::time(nullptr);
             btree.set(key, entry);
 
-            if (btree.get(total_key, total_entry)) {
-                total_entry.size_ += entry.size_;
-                total_entry.count_++;
-            }
+            btree.get(total_key, total_entry);
+            total_entry.size_ += entry.size_;
+            total_entry.count_++;
             btree.set(total_key, total_entry);
         }
     }
@@ -141,7 +145,7 @@ void CacheManagerBase::touch(const PathName& base, const PathName& path) const {
         cache_key_t key(md5.digest());
         cache_entry_t entry = {0, 0, 0};
 
-        if (!btree.get(key, entry)) {  // entry not in cache-manager.btree
+        if (!btree.get(key, entry) || entry.last_ == 0) {  // entry not in cache-manager.btree, or removed since
 
             FileLock lock(mapping);
             AutoLock<FileLock> locker(lock);
@@ -156,10 +160,9 @@ void CacheManagerBase::touch(const PathName& base, const PathName& path) const {
 
             entry.size_ = size_t(path.size());
 
-            if (btree.get(total_key, total_entry)) {
-                total_entry.size_ += entry.size_;
-                total_entry.count_++;
-            }
+            btree.get(total_key, total_entry);
+            total_entry.size_ += entry.size_;
+            total_entry.count_++;
             btree.set(total_key, total_entry);
 
             {
-- 
2.43.0


From 1bdd07f92265a67cb85e2feb6fff2030d0876dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:31 +0000
Subject: [PATCH 12/73] fix: FileLock never leaves two holders when a lock file
 is removed by one of them

---
 src/eckit/io/FileLock.cc | 35 +++++++++++++++++++++++++++++++----
 src/eckit/io/FileLock.h  |  1 +
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/eckit/io/FileLock.cc b/src/eckit/io/FileLock.cc
index 663b6c8..7740f1f 100644
--- a/src/eckit/io/FileLock.cc
+++ b/src/eckit/io/FileLock.cc
@@ -11,6 +11,7 @@
 #include "eckit/io/FileLock.h"
 
 #include <fcntl.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include "eckit/exception/Exceptions.h"
@@ -30,25 +31,51 @@ static int openLock(const PathName& lockFile) {
 }
 
 
+// The lock file may have been removed, and maybe created again, since it was opened: a lock on it then excludes nobody
+static bool isLockFile(int fd, const PathName& lockFile) {
+    struct stat opened;
+    struct stat current;
+    SYSCALL2(::fstat(fd, &opened), lockFile);
+    return ::stat(lockFile.asString().c_str(), &current) == 0 && opened.st_dev == current.st_dev &&
+           opened.st_ino == current.st_ino;
+}
+
+
 FileLock::FileLock(const PathName& lockFile, bool unlink_at_destruction) :
-    lockFile_(unlink_at_destruction ? lockFile : ""), fd_(openLock(lockFile)), locker_(fd_) {}
+    lockFile_(lockFile), unlink_(unlink_at_destruction), fd_(openLock(lockFile)), locker_(fd_) {}
 
 
 FileLock::~FileLock() {
-    ::close(fd_);
-    if (!lockFile_.asString().empty()) {
+    if (unlink_) {
         try {
-            lockFile_.unlink(false);
+            // Only remove the file while no one else holds the lock: otherwise, that is left to its holder
+            struct flock lock = {};
+            lock.l_type       = F_WRLCK;
+            lock.l_whence     = SEEK_SET;
+            if (::fcntl(fd_, F_SETLK, &lock) == 0 && isLockFile(fd_, lockFile_)) {
+                lockFile_.unlink(false);
+            }
         }
         catch (const FailedSystemCall& e) {
             Log::warning() << "Failed to unlink lock file " << lockFile_ << " -- " << e.what() << std::endl;
         }
     }
+    ::close(fd_);
 }
 
 
 void FileLock::lock() {
     locker_.lockExclusive();
+
+    while (!isLockFile(fd_, lockFile_)) {
+        locker_.unlock();
+
+        int fd = openLock(lockFile_);
+        SYSCALL2(::dup2(fd, fd_), lockFile_);
+        ::close(fd);
+
+        locker_.lockExclusive();
+    }
 }
 
 
diff --git a/src/eckit/io/FileLock.h b/src/eckit/io/FileLock.h
index cf75bbc..3da3473 100644
--- a/src/eckit/io/FileLock.h
+++ b/src/eckit/io/FileLock.h
@@ -44,6 +44,7 @@ public:
 private:
 
     const PathName lockFile_;
+    const bool unlink_;
     int fd_;
     FileLocker locker_;
 };
-- 
2.43.0


From ffdeb13a2886ff77066d22c10953358a32594ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:33 +0000
Subject: [PATCH 13/73] fix: FamList keeps concurrent insertions: pushBack
 links backward past a concurrent pushFront, opening a list never unlinks
 elements

---
 src/eckit/io/fam/FamList.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/eckit/io/fam/FamList.cc b/src/eckit/io/fam/FamList.cc
index 1cf9970..30948e1 100644
--- a/src/eckit/io/fam/FamList.cc
+++ b/src/eckit/io/fam/FamList.cc
@@ -46,13 +46,15 @@ FamList::FamList(FamRegion region, const std::string& list_name) :
     head_{region_.ensureObject(sizeof(FamListNode), list_name + "h")},
     tail_{region_.ensureObject(sizeof(FamListNode), list_name + "t")},
     size_{region_.ensureObject(sizeof(size_type), list_name + "s")} {
-    // set head's next to tail's prev (idempotent)
+    // link head and tail (idempotent). The offsets are only set if they are not yet: another client may be
+    // opening the list, and may already have inserted elements.
     if (FamListNode::getNextOffset(head_) == 0) {
-        head_.put(tail_.descriptor(), FamListNode::nextOff());
+        head_.put(tail_.regionId(), FamListNode::nextOff() + offsetof(FamDescriptor, region));
+        head_.compareSwap(FamListNode::nextOffsetOff(), fam::index_t{0}, tail_.offset());
     }
-    // set tail's prev to head's next (idempotent)
     if (FamListNode::getPrevOffset(tail_) == 0) {
-        tail_.put(head_.descriptor(), offsetof(FamListNode, prev));
+        tail_.put(head_.regionId(), offsetof(FamListNode, prev) + offsetof(FamDescriptor, region));
+        tail_.compareSwap(FamListNode::prevOffsetOff(), fam::index_t{0}, head_.offset());
     }
 }
 
@@ -170,7 +172,12 @@ void FamList::pushBack(const void* data, const size_type length) {
                     const auto old =
                         current.compareSwap(FamListNode::nextOffsetOff(), tail_.offset(), new_object.offset());
                     if (old == tail_.offset()) {
-                        break;  // Successfully linked into forward chain
+                        // Successfully linked into forward chain. If a concurrent pushFront got in
+                        // between, the backward link follows the node we have been linked to.
+                        if (current.offset() != last_offset) {
+                            new_object.put(current.descriptor(), offsetof(FamListNode, prev));
+                        }
+                        break;
                     }
                     // CAS failed — another node was inserted. Follow the new link.
                     current.replaceWith({region_.index(), old});
-- 
2.43.0


From 0dacca97d125b84f3cbb36f4e66543d8288fe67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 14/73] fix: MultiHandle took a short read for the end of a
 part and hid a failing one

---
 src/eckit/io/MultiHandle.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/eckit/io/MultiHandle.cc b/src/eckit/io/MultiHandle.cc
index 87035f0..f7b539b 100644
--- a/src/eckit/io/MultiHandle.cc
+++ b/src/eckit/io/MultiHandle.cc
@@ -146,14 +146,13 @@ long MultiHandle::read1(char* buffer, long length) {
         return 0;
     }
 
+    // A short read is not the end of a handle
     long n = (*current_)->read(buffer, length);
-    if (n < length) {
+    if (n == 0) {
         (*current_)->close();
         current_++;
         openCurrent();
-        if (n <= 0) {
-            return read1(buffer, length);
-        }
+        return read1(buffer, length);
     }
     return n;
 }
-- 
2.43.0


From e51bf0db42dd8190a876b954d2acb811fbd07c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 15/73] fix: MultiHandle could not write to parts of no length,
 nor report writing beyond its end

---
 src/eckit/io/MultiHandle.cc | 24 +++++++++++++++++++-----
 src/eckit/io/MultiHandle.h  |  1 +
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/eckit/io/MultiHandle.cc b/src/eckit/io/MultiHandle.cc
index f7b539b..28fb24a 100644
--- a/src/eckit/io/MultiHandle.cc
+++ b/src/eckit/io/MultiHandle.cc
@@ -114,6 +114,7 @@ void MultiHandle::openForWrite(const Length& length) {
     openCurrent();
 
     written_ = 0;
+    nextIfFull();
 
     Log::info() << "MultiHandle::openForWrite " << length_.size() << std::endl;
 
@@ -173,7 +174,24 @@ long MultiHandle::read(void* buffer, long length) {
     return total > 0 ? total : n;
 }
 
+// There may be nothing to write to the next handles
+void MultiHandle::nextIfFull() {
+    while (current_ != datahandles_.end() && written_ == (*curlen_)) {
+        (*current_)->close();
+        current_++;
+        curlen_++;
+        openCurrent();
+        written_ = 0;
+    }
+}
+
 long MultiHandle::write(const void* buffer, long length) {
+    if (length == 0) {
+        return 0;
+    }
+
+    ASSERT(current_ != datahandles_.end());
+
     Length len = std::min(Length(*curlen_ - written_), Length(length));
     long l     = static_cast<long>(len);
 
@@ -193,11 +211,7 @@ long MultiHandle::write(const void* buffer, long length) {
 
 
     if (written_ == (*curlen_)) {
-        (*current_)->close();
-        current_++;
-        curlen_++;
-        openCurrent();
-        written_ = 0;
+        nextIfFull();
 
         // Some more ?
         if (length > l) {
diff --git a/src/eckit/io/MultiHandle.h b/src/eckit/io/MultiHandle.h
index a0cd619..98db317 100644
--- a/src/eckit/io/MultiHandle.h
+++ b/src/eckit/io/MultiHandle.h
@@ -103,6 +103,7 @@ private:
     // -- Methods
 
     void openCurrent();
+    void nextIfFull();
     void open();
     long read1(char*, long);
 
-- 
2.43.0


From 846513809ba79982431467d3c262923ceea4d074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 16/73] fix: BufferedHandle overran its buffer when the
 underlying read failed

---
 src/eckit/io/BufferedHandle.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/eckit/io/BufferedHandle.cc b/src/eckit/io/BufferedHandle.cc
index 4206053..d0f24ea 100644
--- a/src/eckit/io/BufferedHandle.cc
+++ b/src/eckit/io/BufferedHandle.cc
@@ -93,17 +93,20 @@ long BufferedHandle::read(void* buffer, long length) {
         ASSERT(left >= 0);
 
         if (left == 0 && !eof_) {
-            // read() is supposed to return a non-negative number
-            used_ = handle().read(buffer_, size_);
-            pos_  = 0;
-            if (used_ <= 0) {
-                eof_ = true;
+            used_ = pos_ = 0;
+            long n       = handle().read(buffer_, size_);
+            if (n <= 0) {
+                if (n < 0 && len == 0) {
+                    return n;  // an error is not the end of the data
+                }
+                eof_ = (n == 0);
                 if (len > 0) {
                     position_ += len;
                 }
                 return len;
             }
-            left = used_;
+            used_ = n;
+            left  = n;
         }
 
         char* p = buffer_;
-- 
2.43.0


From 23e0130ed897ddc43fed9d23b34ea6a1b0ff50ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 17/73] fix: BufferedHandle lost what was buffered when seeking
 while writing

---
 src/eckit/io/BufferedHandle.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eckit/io/BufferedHandle.cc b/src/eckit/io/BufferedHandle.cc
index d0f24ea..06d0698 100644
--- a/src/eckit/io/BufferedHandle.cc
+++ b/src/eckit/io/BufferedHandle.cc
@@ -169,6 +169,9 @@ void BufferedHandle::flush() {
 }
 
 void BufferedHandle::rewind() {
+    if (!read_) {
+        bufferFlush();
+    }
     position_ = 0;
     used_ = pos_ = 0;
     eof_         = false;
@@ -176,6 +179,9 @@ void BufferedHandle::rewind() {
 }
 
 Offset BufferedHandle::seek(const Offset& off) {
+    if (!read_) {
+        bufferFlush();
+    }
     used_ = pos_ = 0;
     eof_         = false;
     position_    = handle().seek(off);
-- 
2.43.0


From 1b6681ee5b79f4319d6fa1d9d664dab0e0c72df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 18/73] fix: seeking from the end of a wrapped DataHandle went
 the wrong way

---
 src/eckit/io/FOpenDataHandle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/FOpenDataHandle.cc b/src/eckit/io/FOpenDataHandle.cc
index da088cd..15123c2 100644
--- a/src/eckit/io/FOpenDataHandle.cc
+++ b/src/eckit/io/FOpenDataHandle.cc
@@ -116,7 +116,7 @@ off_t FOpenDataHandle::seek(off_t pos, int whence) {
             break;
 
         case SEEK_END:
-            where = (long long)(handle_->size()) - pos;
+            where = (long long)(handle_->size()) + pos;
             break;
 
         default:
-- 
2.43.0


From 2f5e25a5eaa35fdf03ca3ca1a04edb6f54c85924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 19/73] fix: a failing close of a wrapped DataHandle ended the
 process

---
 src/eckit/io/FOpenDataHandle.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/FOpenDataHandle.cc b/src/eckit/io/FOpenDataHandle.cc
index 15123c2..0f883d9 100644
--- a/src/eckit/io/FOpenDataHandle.cc
+++ b/src/eckit/io/FOpenDataHandle.cc
@@ -137,7 +137,11 @@ off_t FOpenDataHandle::seek(off_t pos, int whence) {
 }
 
 int FOpenDataHandle::close() {
-    delete this;
+    std::unique_ptr<FOpenDataHandle> self(this);
+    if (open_close_) {
+        open_close_ = false;
+        handle_->close();  // may throw, so not in the destructor
+    }
     return 0;
 }
 
-- 
2.43.0


From 7c92cab6926fb707a1255f3a4a830e368e5f2ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 20/73] fix: HandleBuf ended the process when what it held
 could not be written

---
 src/eckit/io/HandleBuf.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/HandleBuf.cc b/src/eckit/io/HandleBuf.cc
index 83b2def..937c7b0 100644
--- a/src/eckit/io/HandleBuf.cc
+++ b/src/eckit/io/HandleBuf.cc
@@ -12,6 +12,7 @@
 
 #include "eckit/exception/Exceptions.h"
 #include "eckit/io/HandleBuf.h"
+#include "eckit/log/Log.h"
 
 //----------------------------------------------------------------------------------------------------------------------
 
@@ -25,7 +26,13 @@ HandleBuf::HandleBuf(DataHandle& handle, bool throwOnError) : handle_(handle), t
 }
 
 HandleBuf::~HandleBuf() {
-    sync();
+    try {
+        sync();
+    }
+    catch (std::exception& e) {
+        Log::error() << "** " << e.what() << " Caught in " << Here() << std::endl;
+        Log::error() << "** Exception is ignored" << std::endl;
+    }
 }
 
 int HandleBuf::sync() {
-- 
2.43.0


From f5813e2a2410189e59cabd9fc669cacd7da93203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 21/73] fix: an empty file could not be read with
 MMappedFileHandle

---
 src/eckit/io/MMappedFileHandle.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/MMappedFileHandle.cc b/src/eckit/io/MMappedFileHandle.cc
index 1b2772d..294d478 100644
--- a/src/eckit/io/MMappedFileHandle.cc
+++ b/src/eckit/io/MMappedFileHandle.cc
@@ -58,7 +58,8 @@ Length MMappedFileHandle::openForRead() {
 
     SYSCALL2(fd_ = ::open(path_.c_str(), O_RDONLY), path_);
 
-    mmap_ = MMap::mmap(nullptr, length_, PROT_READ, MAP_SHARED, fd_, 0);
+    // An empty file cannot be mapped
+    mmap_ = length_ ? MMap::mmap(nullptr, length_, PROT_READ, MAP_SHARED, fd_, 0) : nullptr;
     if (mmap_ == MAP_FAILED) {
         Log::error() << "MMappedFileHandle path=" << path_ << " size=" << length_
                      << " fails to mmap(0,length,PROT_READ,MAP_SHARED,fd_,0)" << Log::syserr << std::endl;
-- 
2.43.0


From 132111792650ce3d3a74487f59cdcc778eb899e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 22/73] fix: MemoryHandle grew by too much when overwriting,
 and not growing held nothing

---
 src/eckit/io/MemoryHandle.cc | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/src/eckit/io/MemoryHandle.cc b/src/eckit/io/MemoryHandle.cc
index 674de45..dded4ca 100644
--- a/src/eckit/io/MemoryHandle.cc
+++ b/src/eckit/io/MemoryHandle.cc
@@ -128,29 +128,22 @@ long MemoryHandle::write(const void* buffer, long length) {
     ASSERT(!read_);
     ASSERT(length >= 0);
 
-    size_t left = size_ - position_;
-
-
-    if (grow_ && (left < size_t(length))) {
-        if ((capacity_ - position_) < size_t(length)) {
-            size_t newcapacity = round(capacity_ + size_t(length), 1024 * 1024);
-            char* newdata      = new char[newcapacity];
-            ASSERT(newdata);
+    if (grow_ && (capacity_ - position_) < size_t(length)) {
+        size_t newcapacity = round(capacity_ + size_t(length), 1024 * 1024);
+        char* newdata      = new char[newcapacity];
+        ASSERT(newdata);
 
-            ::memcpy(newdata, address_, position_);
-            delete[] address_;
-            address_  = newdata;
-            capacity_ = newcapacity;
-        }
-
-        size_ += length;
-
-        left = size_ - position_;
+        ::memcpy(newdata, address_, size_);
+        delete[] address_;
+        address_  = newdata;
+        capacity_ = newcapacity;
     }
 
+    size_t left = capacity_ - position_;
     size_t size = std::min(left, size_t(length));
     ::memcpy(address_ + position_, buffer, size);
     position_ += size;
+    size_ = std::max(size_, size_t(position_));
 
     return size;
 }
-- 
2.43.0


From 0d9ea505af2a74ec11d1d1bd0bcc9be0c46feacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:00 +0000
Subject: [PATCH 23/73] fix: flushing an AIOHandle which is not open failed
 when it synchronises

---
 src/eckit/io/AIOHandle.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/io/AIOHandle.cc b/src/eckit/io/AIOHandle.cc
index 32d200d..d4e2c34 100644
--- a/src/eckit/io/AIOHandle.cc
+++ b/src/eckit/io/AIOHandle.cc
@@ -219,7 +219,7 @@ void AIOHandle::flush() {
         }
     }
 
-    if (fsync_) {  // request all current operations to the synchronized I/O completion state
+    if (fsync_ && fd_ != -1) {  // request all current operations to the synchronized I/O completion state
         struct aiocb aio;
 
         eckit::zero(aio);
-- 
2.43.0


From a54b2188edfba1b0214c4c8553f3a974c4e780e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:00 +0000
Subject: [PATCH 24/73] fix: DataHandle::compare took failing handles for equal
 and short reads for differences

---
 src/eckit/io/DataHandle.cc | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/eckit/io/DataHandle.cc b/src/eckit/io/DataHandle.cc
index bb6983d..e746500 100644
--- a/src/eckit/io/DataHandle.cc
+++ b/src/eckit/io/DataHandle.cc
@@ -261,6 +261,22 @@ Streamable* Reanimator<DataHandle>::ressucitate(Stream& s) const {
     return nullptr;
 }
 
+// A short read is not the end of a handle
+static long readFully(DataHandle& handle, Buffer& buffer) {
+    long total = 0;
+    while (total < long(buffer.size())) {
+        long len = handle.read(static_cast<char*>(buffer.data()) + total, buffer.size() - total);
+        if (len < 0) {
+            throw ReadError(handle.title());
+        }
+        if (len == 0) {
+            break;
+        }
+        total += len;
+    }
+    return total;
+}
+
 bool DataHandle::compare(DataHandle& other) {
     size_t bufsize = static_cast<size_t>(Resource<long>("compareBufferSize", 10 * 1024 * 1024));
 
@@ -286,8 +302,8 @@ bool DataHandle::compare(DataHandle& other) {
     Length total = 0;
 
     for (;;) {
-        long len1 = self.read(buffer1, buffer1.size());
-        long len2 = other.read(buffer2, buffer2.size());
+        long len1 = readFully(self, buffer1);
+        long len2 = readFully(other, buffer2);
 
         if (len1 != len2) {
             Log::error() << "DataHandle::compare(" << self << "," << other << ") failed: read() returns " << len1
@@ -295,7 +311,7 @@ bool DataHandle::compare(DataHandle& other) {
             return false;
         }
 
-        if (len1 <= 0 && len2 <= 0) {
+        if (len1 == 0) {
             Log::info() << "DataHandle::compare(" << self << "," << other << ") is successful" << std::endl;
             return true;
         }
-- 
2.43.0


From 2070ae296bdac13ebfba7078c4590ab1863c2112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:07 +0000
Subject: [PATCH 25/73] fix: PooledHandle's position was that of the last
 reader of the file, and it had no estimate

---
 src/eckit/io/PooledHandle.cc | 15 ++++++++++++++-
 src/eckit/io/PooledHandle.h  |  1 +
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/eckit/io/PooledHandle.cc b/src/eckit/io/PooledHandle.cc
index 230cb1f..05f3c29 100644
--- a/src/eckit/io/PooledHandle.cc
+++ b/src/eckit/io/PooledHandle.cc
@@ -176,6 +176,14 @@ public:
         return n;
     }
 
+    Offset position(const PooledHandle* handle) const {
+        auto s = statuses_.find(handle);
+        ASSERT(s != statuses_.end());
+        ASSERT(s->second.opened_);
+
+        return s->second.position_;
+    }
+
     long seek(const PooledHandle* handle, Offset position) {
         auto s = statuses_.find(handle);
         ASSERT(s != statuses_.end());
@@ -268,7 +276,12 @@ void PooledHandle::hash(MD5& md5) const {
 }
 
 Offset PooledHandle::position() {
-    return entry_->handle_->position();
+    ASSERT(entry_);
+    return entry_->position(this);
+}
+
+Length PooledHandle::estimate() {
+    return path_.size();
 }
 
 }  // namespace eckit
diff --git a/src/eckit/io/PooledHandle.h b/src/eckit/io/PooledHandle.h
index 47e3cc6..1aaee70 100644
--- a/src/eckit/io/PooledHandle.h
+++ b/src/eckit/io/PooledHandle.h
@@ -43,6 +43,7 @@ public:
     bool canSeek() const override { return true; }
     void hash(MD5& md5) const override;
     Offset position() override;
+    Length estimate() override;
 
     // for testing
 
-- 
2.43.0


From 3ffd121c20c8189b01eb1df9cb1292c6218f6810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:14 +0000
Subject: [PATCH 26/73] fix: a PooledHandle whose open failed was taken for
 open ever after

---
 src/eckit/io/PooledHandle.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/eckit/io/PooledHandle.cc b/src/eckit/io/PooledHandle.cc
index 05f3c29..9131171 100644
--- a/src/eckit/io/PooledHandle.cc
+++ b/src/eckit/io/PooledHandle.cc
@@ -110,10 +110,11 @@ public:
             checkMaxPooledHandles();
 
             nbOpens_++;
-            handle_.reset(path_.fileHandle());
-            ASSERT(handle_);
-            LOG_DEBUG_LIB(LibEcKit) << "PooledHandle::openForRead(" << *handle_ << ")" << std::endl;
-            estimate_ = handle_->openForRead();
+            std::unique_ptr<DataHandle> handle(path_.fileHandle());
+            ASSERT(handle);
+            LOG_DEBUG_LIB(LibEcKit) << "PooledHandle::openForRead(" << *handle << ")" << std::endl;
+            estimate_ = handle->openForRead();
+            handle_   = std::move(handle);
         }
 
         s->second.opened_   = true;
-- 
2.43.0


From 33e4853f1708455f23b276a8464d9732449bda0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:14 +0000
Subject: [PATCH 27/73] fix: a PooledHandle destroyed by another thread than
 its creator's reached freed memory

---
 src/eckit/io/PooledHandle.cc | 27 +++++++++++++++------------
 src/eckit/io/PooledHandle.h  |  4 +++-
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/eckit/io/PooledHandle.cc b/src/eckit/io/PooledHandle.cc
index 9131171..087053c 100644
--- a/src/eckit/io/PooledHandle.cc
+++ b/src/eckit/io/PooledHandle.cc
@@ -27,7 +27,8 @@ class PoolHandleEntry;
 
 /// @note in anonymous namespace to solve some compilers link issue (eg. xlc)
 namespace {
-static thread_local std::map<PathName, std::unique_ptr<PoolHandleEntry>> pool_;
+// An entry belongs to its handles, which may outlive the thread that created them
+static thread_local std::map<PathName, std::weak_ptr<PoolHandleEntry>> pool_;
 }
 
 static size_t maxPooledHandles() {
@@ -95,8 +96,10 @@ public:
 
         if (statuses_.size() == 0) {
             doClose();
-            pool_.erase(path_);
-            // No code after !!!
+            auto j = pool_.find(path_);
+            if (j != pool_.end() && (j->second.expired() || j->second.lock().get() == this)) {
+                pool_.erase(j);
+            }
         }
     }
 
@@ -136,7 +139,8 @@ public:
         size_t opened = 0;
 
         for (auto i = pool_.begin(); i != pool_.end(); ++i) {
-            if ((*i).second->handle_) {
+            auto entry = (*i).second.lock();
+            if (entry && entry->handle_) {
                 opened++;
             }
         }
@@ -145,8 +149,9 @@ public:
             LOG_DEBUG_LIB(LibEcKit) << "PooledHandle maximum number of open files reached: " << maxPooledHandles()
                                     << std::endl;
             for (auto i = pool_.begin(); i != pool_.end(); ++i) {
-                if ((*i).second->canClose()) {
-                    (*i).second->doClose();
+                auto entry = (*i).second.lock();
+                if (entry && entry->canClose()) {
+                    entry->doClose();
                 }
             }
         }
@@ -203,14 +208,12 @@ public:
 };
 
 
-PooledHandle::PooledHandle(const PathName& path) : path_(path), entry_{nullptr} {
-    auto j = pool_.find(path);
-    if (j == pool_.end()) {
-        pool_.emplace(std::make_pair(path, std::unique_ptr<PoolHandleEntry>(new PoolHandleEntry(path))));
-        j = pool_.find(path);
+PooledHandle::PooledHandle(const PathName& path) : path_(path), entry_{pool_[path].lock()} {
+    if (!entry_) {
+        entry_       = std::make_shared<PoolHandleEntry>(path);
+        pool_[path] = entry_;
     }
 
-    entry_ = (*j).second.get();
     entry_->add(this);
 }
 
diff --git a/src/eckit/io/PooledHandle.h b/src/eckit/io/PooledHandle.h
index 1aaee70..44f8d96 100644
--- a/src/eckit/io/PooledHandle.h
+++ b/src/eckit/io/PooledHandle.h
@@ -15,6 +15,8 @@
 #ifndef eckit_io_PooledHandle_h
 #define eckit_io_PooledHandle_h
 
+#include <memory>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/filesystem/PathName.h"
 #include "eckit/io/DataHandle.h"
@@ -54,7 +56,7 @@ public:
 private:
 
     PathName path_;
-    PoolHandleEntry* entry_;
+    std::shared_ptr<PoolHandleEntry> entry_;
 
     void print(std::ostream& s) const override;
 };
-- 
2.43.0


From 51f4158198ffb7fb834224174a401a1d96a8755e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:14 +0000
Subject: [PATCH 28/73] fix: readers of pooled files in different threads
 disturbed each other

---
 src/eckit/io/PooledFile.cc | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/eckit/io/PooledFile.cc b/src/eckit/io/PooledFile.cc
index 3b55814..5f712fc 100644
--- a/src/eckit/io/PooledFile.cc
+++ b/src/eckit/io/PooledFile.cc
@@ -45,8 +45,8 @@ public:
         static Pool pool;
         return pool;
     }
-    eckit::PoolFileEntry* get(const eckit::PathName& name);
-    void erase(const eckit::PathName& name);
+    eckit::PoolFileEntry* add(const eckit::PooledFile* file, const eckit::PathName& name);
+    void remove(const eckit::PooledFile* file, eckit::PoolFileEntry* entry);
 };
 
 }  // namespace
@@ -72,6 +72,8 @@ public:
 
     std::map<const PooledFile*, PoolFileEntryStatus> statuses_;
 
+    mutable std::mutex mutex_;  // the pool is shared by all threads
+
     size_t nbOpens_ = 0;
     size_t nbReads_ = 0;
     size_t nbSeeks_ = 0;
@@ -92,23 +94,27 @@ public:
     }
 
     void add(const PooledFile* file) {
+        std::lock_guard<std::mutex> lock(mutex_);
         ASSERT(statuses_.find(file) == statuses_.end());
         statuses_[file] = PoolFileEntryStatus();
     }
 
-    void remove(const PooledFile* file) {
+    // Returns true if the entry is no longer used
+    bool remove(const PooledFile* file) {
+        std::lock_guard<std::mutex> lock(mutex_);
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
 
         statuses_.erase(s);
         if (statuses_.size() == 0) {
             doClose();
-            Pool::instance().erase(name_);
-            // No code after !!!
+            return true;
         }
+        return false;
     }
 
     void open(const PooledFile* file) {
+        std::lock_guard<std::mutex> lock(mutex_);
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
         ASSERT(!s->second.opened_);
@@ -138,6 +144,7 @@ public:
     }
 
     void close(const PooledFile* file) {
+        std::lock_guard<std::mutex> lock(mutex_);
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
 
@@ -146,6 +153,7 @@ public:
     }
 
     int fileno(const PooledFile* file) const {
+        std::lock_guard<std::mutex> lock(mutex_);
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
         ASSERT(s->second.opened_);
@@ -153,6 +161,7 @@ public:
     }
 
     long read(const PooledFile* file, void* buffer, long len) {
+        std::lock_guard<std::mutex> lock(mutex_);
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
         ASSERT(s->second.opened_);
@@ -179,6 +188,7 @@ public:
     }
 
     long seek(const PooledFile* file, off_t position) {
+        std::lock_guard<std::mutex> lock(mutex_);
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
         ASSERT(s->second.opened_);
@@ -199,6 +209,7 @@ public:
     }
 
     long seekEnd(const PooledFile* file) {
+        std::lock_guard<std::mutex> lock(mutex_);
         auto s = statuses_.find(file);
         ASSERT(s != statuses_.end());
         ASSERT(s->second.opened_);
@@ -218,14 +229,11 @@ public:
 };
 
 
-PooledFile::PooledFile(const PathName& name) : name_(name), entry_(Pool::instance().get(name)) {
-
-    entry_->add(this);
-}
+PooledFile::PooledFile(const PathName& name) : name_(name), entry_(Pool::instance().add(this, name)) {}
 
 PooledFile::~PooledFile() {
     ASSERT(entry_);
-    entry_->remove(this);
+    Pool::instance().remove(this, entry_);
 }
 
 void PooledFile::open() {
@@ -284,18 +292,21 @@ PooledFileError::PooledFileError(const std::string& file, const std::string& msg
 
 namespace {
 
-eckit::PoolFileEntry* Pool::get(const eckit::PathName& name) {
+eckit::PoolFileEntry* Pool::add(const eckit::PooledFile* file, const eckit::PathName& name) {
     std::lock_guard<std::mutex> lock(filePoolMutex_);
     auto j = filePool_.find(name);
     if (j == filePool_.end()) {
         filePool_.emplace(name, new eckit::PoolFileEntry(name));
         j = filePool_.find(name);
     }
+    (*j).second->add(file);
     return (*j).second.get();
 }
-void Pool::erase(const eckit::PathName& name) {
+void Pool::remove(const eckit::PooledFile* file, eckit::PoolFileEntry* entry) {
     std::lock_guard<std::mutex> lock(filePoolMutex_);
-    filePool_.erase(name);
+    if (entry->remove(file)) {
+        filePool_.erase(eckit::PathName(entry->name_));
+    }
 }
 
 }  // namespace
-- 
2.43.0


From e416838a3614c69e024db7e72372d639e74bddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:43 +0000
Subject: [PATCH 29/73] fix: BTree::flock took a shared lock for a writer and
 an exclusive one for a reader

---
 src/eckit/container/BTree.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/container/BTree.cc b/src/eckit/container/BTree.cc
index 33de294..b0ea96b 100644
--- a/src/eckit/container/BTree.cc
+++ b/src/eckit/container/BTree.cc
@@ -673,7 +673,7 @@ void BTree<K, V, S, L>::unlock() {
 template <class K, class V, int S, class L>
 void BTree<K, V, S, L>::flock() {
 
-    if (::flock(file_.fileno(), readOnly_ ? LOCK_EX : LOCK_SH) < 0) {
+    if (::flock(file_.fileno(), readOnly_ ? LOCK_SH : LOCK_EX) < 0) {
         bool skip = false;
 #ifdef ENOTSUP
         if (errno == ENOTSUP) {
-- 
2.43.0


From d5e913742550613c1182cf1d318dd257dd0bd963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:43 +0000
Subject: [PATCH 30/73] fix: BTree::range found nothing when its first key lay
 beyond the last key of the page it belongs to

---
 src/eckit/container/BTree.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/eckit/container/BTree.cc b/src/eckit/container/BTree.cc
index b0ea96b..ca7f750 100644
--- a/src/eckit/container/BTree.cc
+++ b/src/eckit/container/BTree.cc
@@ -477,6 +477,14 @@ void BTree<K, V, S, L>::search(unsigned long page, const K& key1, const K& key2,
 
     const LeafEntry* e = std::lower_bound(begin, end, key1);
 
+    // key1 may be greater than all the keys of this page, the range then starts in the next one
+    if (e == end && p.right_) {
+        loadPage(p.right_, p);
+        ASSERT(!p.node_);
+        e   = p.leafPage().lentries_;
+        end = e + p.count_;
+    }
+
     if (e == end)
         return;
 
-- 
2.43.0


From 309e18b04fef67ea349343dc5cc918c384f9db26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:43 +0000
Subject: [PATCH 31/73] fix: an empty item could not be inserted in a FamList

---
 src/eckit/io/fam/FamList.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eckit/io/fam/FamList.cc b/src/eckit/io/fam/FamList.cc
index 30948e1..27ed58f 100644
--- a/src/eckit/io/fam/FamList.cc
+++ b/src/eckit/io/fam/FamList.cc
@@ -101,7 +101,9 @@ void FamList::pushFront(const void* data, const size_type length) {
     // 1. Allocate new node with data
     auto new_object = region_.allocateObject(sizeof(FamListNode) + length);
     new_object.put(length, offsetof(FamListNode, length));
-    new_object.put(data, sizeof(FamListNode), length);
+    if (length > 0) {
+        new_object.put(data, sizeof(FamListNode), length);
+    }
 
     // 2. Link into list: use CAS-loop (Compare-And-Swap) to atomically update head.next
     //    This ensures the new node becomes visible to other readers
@@ -140,7 +142,9 @@ void FamList::pushBack(const void* data, const size_type length) {
     // 1. Allocate new node with data
     auto new_object = region_.allocateObject(sizeof(FamListNode) + length);
     new_object.put(length, offsetof(FamListNode, length));
-    new_object.put(data, sizeof(FamListNode), length);
+    if (length > 0) {
+        new_object.put(data, sizeof(FamListNode), length);
+    }
 
     // 2. Link into list: use CAS-loop to atomically update tail.prev
     //    This ensures new node becomes visible to other readers
-- 
2.43.0


From 8fd2716432e49019f92a7bb7cbe10483ce949581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:54 +0000
Subject: [PATCH 32/73] fix: the end of a stream over a std::fstream or
 std::ifstream was an assertion failure

---
 src/eckit/serialisation/FstreamStream.h  | 5 ++---
 src/eckit/serialisation/IfstreamStream.h | 4 ++--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/eckit/serialisation/FstreamStream.h b/src/eckit/serialisation/FstreamStream.h
index 668584a..4ca7192 100644
--- a/src/eckit/serialisation/FstreamStream.h
+++ b/src/eckit/serialisation/FstreamStream.h
@@ -58,10 +58,9 @@ private:
     }
 
     virtual long read(void* buf, long len) {
-        std::streampos here = f_.tellp();
         f_.read(static_cast<char*>(buf), len);
-        ASSERT(!f_.eof() && !f_.bad());
-        return f_.tellp() - here;
+        ASSERT(!f_.bad());
+        return f_.gcount();
     }
 
     virtual std::string name() const { return "FstreamStream"; }
diff --git a/src/eckit/serialisation/IfstreamStream.h b/src/eckit/serialisation/IfstreamStream.h
index 1711155..33c1069 100644
--- a/src/eckit/serialisation/IfstreamStream.h
+++ b/src/eckit/serialisation/IfstreamStream.h
@@ -54,8 +54,8 @@ private:
 
     virtual long read(void* buf, long len) {
         f_.read(static_cast<char*>(buf), len);
-        ASSERT(!f_.eof() && !f_.bad());
-        return len;
+        ASSERT(!f_.bad());
+        return f_.gcount();
     }
 
     virtual std::string name() const { return "IfstreamStream"; }
-- 
2.43.0


From 021e712050e58d4b91445e71216415c8f4445086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:54 +0000
Subject: [PATCH 33/73] fix: an empty Buffer could not be written to a stream
 over a file handle

---
 src/eckit/serialisation/Stream.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/eckit/serialisation/Stream.cc b/src/eckit/serialisation/Stream.cc
index d4582b7..3588109 100644
--- a/src/eckit/serialisation/Stream.cc
+++ b/src/eckit/serialisation/Stream.cc
@@ -72,6 +72,10 @@ void Stream::print(std::ostream& s) const {
 Stream::~Stream() {}
 
 void Stream::putBytes(const void* buf, long len) {
+    if (len == 0) {
+        return;
+    }
+
     writeCount_ += len;
     if (write(buf, len) != len) {
         throw WriteError(name());
@@ -84,6 +88,10 @@ std::ostream& operator<<(std::ostream& out, const Stream& s) {
 }
 
 void Stream::getBytes(void* buf, long len) {
+    if (len == 0) {
+        return;
+    }
+
     if (read(buf, len) != len) {
         throw ReadError(name());
     }
-- 
2.43.0


From b8c87cb1aa1ff9bad5d217e6e48ceed366fb65db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:12 +0000
Subject: [PATCH 34/73] fix: HandleStream took a short read of its handle for
 an error

---
 src/eckit/serialisation/HandleStream.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/eckit/serialisation/HandleStream.h b/src/eckit/serialisation/HandleStream.h
index f5b5ca9..6c569a4 100644
--- a/src/eckit/serialisation/HandleStream.h
+++ b/src/eckit/serialisation/HandleStream.h
@@ -49,7 +49,21 @@ private:
 
     virtual long write(const void* buf, long len) { return handle_.write(buf, len); }
 
-    virtual long read(void* buf, long len) { return handle_.read(buf, len); }
+    virtual long read(void* buf, long len) {
+        // a handle may return less than asked for before its end
+        long done = 0;
+        while (done < len) {
+            long n = handle_.read(static_cast<char*>(buf) + done, len - done);
+            if (n < 0) {
+                return n;
+            }
+            if (n == 0) {
+                break;
+            }
+            done += n;
+        }
+        return done;
+    }
 
     virtual std::string name() const { return "HandleStream"; }
 };
-- 
2.43.0


From d750c5bb05985d7aa39e96c1426148acb47e23f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:12 +0000
Subject: [PATCH 35/73] fix: after looking for the end of an object, a rewound
 stream still returned the tag found

---
 src/eckit/serialisation/FileStream.cc            | 1 +
 src/eckit/serialisation/MemoryStream.cc          | 1 +
 src/eckit/serialisation/ResizableMemoryStream.cc | 1 +
 src/eckit/serialisation/Stream.h                 | 3 +++
 4 files changed, 6 insertions(+)

diff --git a/src/eckit/serialisation/FileStream.cc b/src/eckit/serialisation/FileStream.cc
index a97fd69..3e8911f 100644
--- a/src/eckit/serialisation/FileStream.cc
+++ b/src/eckit/serialisation/FileStream.cc
@@ -94,6 +94,7 @@ void FileStream::rewind() {
     ::fflush(file_);
     fseeko(file_, 0, SEEK_SET);
     resetBytesWritten();
+    forgetTag();
 }
 
 void FileStream::print(std::ostream& s) const {
diff --git a/src/eckit/serialisation/MemoryStream.cc b/src/eckit/serialisation/MemoryStream.cc
index 892b23d..5f7b2c1 100644
--- a/src/eckit/serialisation/MemoryStream.cc
+++ b/src/eckit/serialisation/MemoryStream.cc
@@ -52,6 +52,7 @@ long MemoryStream::write(const void* buffer, long length) {
 
 void MemoryStream::rewind() {
     position_ = 0;
+    forgetTag();
 }
 
 std::string MemoryStream::name() const {
diff --git a/src/eckit/serialisation/ResizableMemoryStream.cc b/src/eckit/serialisation/ResizableMemoryStream.cc
index 16f2436..67a7e4f 100644
--- a/src/eckit/serialisation/ResizableMemoryStream.cc
+++ b/src/eckit/serialisation/ResizableMemoryStream.cc
@@ -51,6 +51,7 @@ long ResizableMemoryStream::write(const void* buffer, long length) {
 
 void ResizableMemoryStream::rewind() {
     position_ = 0;
+    forgetTag();
 }
 
 std::string ResizableMemoryStream::name() const {
diff --git a/src/eckit/serialisation/Stream.h b/src/eckit/serialisation/Stream.h
index 84882fc..14f2dc3 100644
--- a/src/eckit/serialisation/Stream.h
+++ b/src/eckit/serialisation/Stream.h
@@ -149,6 +149,9 @@ protected:
 
     size_t blobSize();
 
+    /// To be called when the position in the stream changes
+    void forgetTag() { lastTag_ = tag_zero; }
+
 private:
 
     enum tag {
-- 
2.43.0


From 36a78b1841386dd1718da396f865e6d858d99a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:49 +0000
Subject: [PATCH 36/73] fix: PathName::match returned the directory itself and
 its parent

---
 src/eckit/filesystem/LocalPathName.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index 78a80f1..79c78a4 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -632,6 +632,11 @@ void LocalPathName::match(const LocalPathName& root, std::vector<LocalPathName>&
             break;
         }
 
+        // the directory itself and its parent are not entries of the directory
+        if (::strcmp(e->d_name, ".") == 0 || ::strcmp(e->d_name, "..") == 0) {
+            continue;
+        }
+
         //        Log::info() << "e->d_name = " << e->d_name << std::endl;
 
         if (re.match(e->d_name)) {
-- 
2.43.0


From d3363d44ae09b364cbdc628423841185fd0c2d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:49 +0000
Subject: [PATCH 37/73] fix: relativePath expanded names starting with '~'

---
 src/eckit/filesystem/LocalPathName.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index 79c78a4..cec87f2 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -700,7 +700,11 @@ LocalPathName LocalPathName::relativePath(const LocalPathName& other) const {
         result = ".";
     }
 
-    return result;
+    // Names starting with '~' are not to be expanded
+
+    bool tildeIsUserHome    = false;
+    bool skipTildeExpansion = true;
+    return LocalPathName(result, tildeIsUserHome, skipTildeExpansion);
 }
 
 
-- 
2.43.0


From 30f27aeb53fcc37b425abfc773ee6958e56f1af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:49 +0000
Subject: [PATCH 38/73] fix: relative paths that lead back to where they start
 became the root

"a/../" was tidied to "/", and PathName("a/..") / "b" was "/b"
---
 src/eckit/filesystem/LocalPathName.cc | 11 +++++++----
 src/eckit/filesystem/PathName.cc      | 19 +++++++++++++------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/eckit/filesystem/LocalPathName.cc b/src/eckit/filesystem/LocalPathName.cc
index cec87f2..f73947c 100644
--- a/src/eckit/filesystem/LocalPathName.cc
+++ b/src/eckit/filesystem/LocalPathName.cc
@@ -419,15 +419,15 @@ void operator>>(Stream& s, LocalPathName& path) {
 }
 
 LocalPathName operator/(const LocalPathName& p1, const LocalPathName& p2) {
-    bool tildeIsUserHome    = false;
-    bool skipTildeExpansion = true;
-    return eckit::LocalPathName(p1.path() + "/" + p2.path(), tildeIsUserHome, skipTildeExpansion);
+    return p1 / p2.c_str();
 }
 
 LocalPathName operator/(const LocalPathName& p1, const char* p2) {
     bool tildeIsUserHome    = false;
     bool skipTildeExpansion = true;
-    return eckit::LocalPathName(p1.path() + "/" + p2, tildeIsUserHome, skipTildeExpansion);
+    // an empty path (as tidied from e.g. "a/..") is not the root
+    const std::string dir = p1.path().empty() ? "" : p1.path() + "/";
+    return eckit::LocalPathName(dir + p2, tildeIsUserHome, skipTildeExpansion);
 }
 
 LocalPathName LocalPathName::fullName() const {
@@ -577,6 +577,9 @@ static void rebuild_path(const std::vector<std::string>& v, std::string& path, b
         }
     }
     if (trail) {  // preserve trailing '/'
+        if (path.empty()) {
+            path = ".";  // a relative path back to where it started, not the root
+        }
         path += '/';
     }
 }
diff --git a/src/eckit/filesystem/PathName.cc b/src/eckit/filesystem/PathName.cc
index 60a234e..a6cf440 100644
--- a/src/eckit/filesystem/PathName.cc
+++ b/src/eckit/filesystem/PathName.cc
@@ -322,19 +322,26 @@ PathName operator+(const PathName& p, char s) {
     return PathName(p.asString() + s);
 }
 
+template <typename T>
+static std::string join(const PathName& p, const T& s) {
+    const std::string dir = p.asString();
+    // an empty path (as tidied from e.g. "a/..") is not the root
+    return (dir.empty() ? dir : dir + "/") + s;
+}
+
 PathName operator/(const PathName& p, const std::string& s) {
     // TODO: delegate that to "path_"
-    return PathName(p.asString() + "/" + s);
+    return PathName(join(p, s));
 }
 
 PathName operator/(const PathName& p, const char* s) {
     // TODO: delegate that to "path_"
-    return PathName(p.asString() + "/" + s);
+    return PathName(join(p, s));
 }
 
 PathName operator/(const PathName& p, char s) {
     // TODO: delegate that to "path_"
-    return PathName(p.asString() + "/" + s);
+    return PathName(join(p, s));
 }
 
 void operator<<(Stream& s, const PathName& path) {
@@ -397,19 +404,19 @@ const std::string& PathName::path() const {
 
 PathName& PathName::operator/=(const std::string& s) {
     // TODO: Review me
-    *this = PathName(this->asString() + "/" + s);
+    *this = PathName(join(*this, s));
     return *this;
 }
 
 PathName& PathName::operator/=(const char* s) {
     // TODO: Review me
-    *this = PathName(this->asString() + "/" + s);
+    *this = PathName(join(*this, s));
     return *this;
 }
 
 PathName& PathName::operator/=(char s) {
     // TODO: Review me
-    *this = PathName(this->asString() + "/" + s);
+    *this = PathName(join(*this, s));
     return *this;
 }
 PathName& PathName::operator+=(const std::string& s) {
-- 
2.43.0


From 647f8e48526e7fc34ee9f542e0aedb310fe31f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:49 +0000
Subject: [PATCH 39/73] fix: LocalPathName operator/ did not tidy its result

---
 src/eckit/filesystem/LocalPathName.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/eckit/filesystem/LocalPathName.h b/src/eckit/filesystem/LocalPathName.h
index ac7732f..12663cd 100644
--- a/src/eckit/filesystem/LocalPathName.h
+++ b/src/eckit/filesystem/LocalPathName.h
@@ -46,15 +46,11 @@ public:  // methods
 
     LocalPathName(const char* p = "/", bool tildeIsUserHome = false, bool skipTildeExpansion = false) :
         path_(parsePath(p)) {
-        if (!skipTildeExpansion) {
-            tidy(tildeIsUserHome, skipTildeExpansion);
-        }
+        tidy(tildeIsUserHome, skipTildeExpansion);
     }
     LocalPathName(const std::string& p, bool tildeIsUserHome = false, bool skipTildeExpansion = false) :
         path_(parsePath(p)) {
-        if (!skipTildeExpansion) {
-            tidy(tildeIsUserHome, skipTildeExpansion);
-        }
+        tidy(tildeIsUserHome, skipTildeExpansion);
     }
     explicit LocalPathName(const PathName& path);
     LocalPathName(const LocalPathName& p) : path_(p.path_) {}
-- 
2.43.0


From 4e231693319a4ac733a0c591705d07c5083904a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:02 +0000
Subject: [PATCH 40/73] fix: reading a missing key of a const map Value inserts
 nothing

Value::element(key) const called the inserting element() of the content, so that
reading through a const Value added a nil to a content that copies may share.
---
 src/eckit/value/Value.cc | 4 ++++
 src/eckit/value/Value.h  | 8 +-------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/eckit/value/Value.cc b/src/eckit/value/Value.cc
index bb4c1e0..fb53c43 100644
--- a/src/eckit/value/Value.cc
+++ b/src/eckit/value/Value.cc
@@ -347,6 +347,10 @@ Value& Value::element(const Value& key) {
 }
 
 Value Value::element(const Value& key) const {
+    // A missing key reads as nil, without being inserted into the (possibly shared) content
+    if (content_->isMap() && !content_->contains(key)) {
+        return Value();
+    }
     return content_->element(key);
 }
 
diff --git a/src/eckit/value/Value.h b/src/eckit/value/Value.h
index 86eaa43..3ecf6dd 100644
--- a/src/eckit/value/Value.h
+++ b/src/eckit/value/Value.h
@@ -82,13 +82,7 @@ namespace eckit {
 /// 12. Equality testing for ValueMaps gives unintuitive results, as the maps contain copies of Values, and these will
 ///     have differing memory addresses (see (7)).
 ///
-/// 13. operator[] discards constness of ValueMaps:
-///
-///         ValueMap vm;
-///         const Value cv(vm);
-///         cv[10];
-///
-///         Log::info() << cv; // This gives {10 => (nil)}
+/// 13. (FIXED)
 ///
 /// 14. Indexing ValueMaps with Value(bool) doesn't work. I suspect this is due to point (8).
 ///
-- 
2.43.0


From 19e6386b2f391803136c46786f0834b0812a3634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:02 +0000
Subject: [PATCH 41/73] fix: setting a configuration into itself copies it

LocalConfiguration::set(name, *this) made the content contain itself.
---
 src/eckit/config/LocalConfiguration.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eckit/config/LocalConfiguration.cc b/src/eckit/config/LocalConfiguration.cc
index ba6b610..fbea608 100644
--- a/src/eckit/config/LocalConfiguration.cc
+++ b/src/eckit/config/LocalConfiguration.cc
@@ -182,7 +182,8 @@ LocalConfiguration& LocalConfiguration::set(const std::string& s, const std::vec
 
 
 LocalConfiguration& LocalConfiguration::set(const std::string& s, const Configuration& value) {
-    setValue(s, value.getValue());
+    eckit::Value v = value.getValue();  // a copy, as value may be this configuration
+    setValue(s, v);
     return *this;
 }
 
-- 
2.43.0


From 36bc9fee199d6a1c487e459c93d00c50fcde8897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:02 +0000
Subject: [PATCH 42/73] fix: LocalConfiguration::set refuses an empty name
 instead of reading past its empty path

---
 src/eckit/config/LocalConfiguration.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eckit/config/LocalConfiguration.cc b/src/eckit/config/LocalConfiguration.cc
index fbea608..915869d 100644
--- a/src/eckit/config/LocalConfiguration.cc
+++ b/src/eckit/config/LocalConfiguration.cc
@@ -12,6 +12,7 @@
 /// @date Jul 2015
 
 #include "eckit/config/LocalConfiguration.h"
+#include "eckit/exception/Exceptions.h"
 #include "eckit/serialisation/Stream.h"
 #include "eckit/utils/Tokenizer.h"
 #include "eckit/value/Value.h"
@@ -67,6 +68,7 @@ void LocalConfiguration::setValue(const std::string& s, const eckit::Value& valu
     eckit::Tokenizer parse(separator_);
     std::vector<std::string> path;
     parse(s, path);
+    ASSERT(!path.empty());
 
     setValue(path, 0, *root_, value);
 }
-- 
2.43.0


From 1750db31d365d31a18aacea8d20264506f74db26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:02 +0000
Subject: [PATCH 43/73] fix: LocalConfiguration::remove takes a path, as has,
 get and set do

---
 src/eckit/config/LocalConfiguration.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/eckit/config/LocalConfiguration.cc b/src/eckit/config/LocalConfiguration.cc
index 915869d..2155181 100644
--- a/src/eckit/config/LocalConfiguration.cc
+++ b/src/eckit/config/LocalConfiguration.cc
@@ -208,6 +208,22 @@ LocalConfiguration& LocalConfiguration::set(const Configuration& other) {
 }
 
 LocalConfiguration& LocalConfiguration::remove(const std::string& name) {
+    if (root_->isMap() && !root_->contains(name)) {
+        // The name may be a path
+        eckit::Tokenizer parse(separator_);
+        std::vector<std::string> path;
+        parse(name, path);
+
+        if (!path.empty() && has(name)) {
+            eckit::Value* r = root_.get();
+            for (size_t i = 0; i + 1 < path.size(); ++i) {
+                r = &r->element(path[i]);
+            }
+            r->remove(path.back());
+        }
+        return *this;
+    }
+
     root_->remove(name);
     return *this;
 }
-- 
2.43.0


From 82466b61c9fcd82e7f43567f196cc2860df254e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:01 +0000
Subject: [PATCH 44/73] fix: no spaces within a number or literal of a JSON
 text ([1 2] was read as 12)

---
 src/eckit/parser/ObjectParser.cc | 48 ++++++++++++++++++--------------
 src/eckit/parser/StreamParser.cc | 10 ++++++-
 2 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/eckit/parser/ObjectParser.cc b/src/eckit/parser/ObjectParser.cc
index 3e8d1cd..6374cb0 100644
--- a/src/eckit/parser/ObjectParser.cc
+++ b/src/eckit/parser/ObjectParser.cc
@@ -70,45 +70,45 @@ Value ObjectParser::parseNumber() {
         case '8':
         case '9':
             s += c;
-            while (isdigit(peek())) {
-                s += next();
+            while (isdigit(peek(true))) {
+                s += next(true);
             }
             break;
         default:
             throw StreamParser::Error(std::string("ObjectParser::parseNumber invalid char '") + c + "'");
     }
 
-    if (peek() == '.') {
+    if (peek(true) == '.') {
         real = true;
-        s += next();
-        c = next();
+        s += next(true);
+        c = next(true);
         if (!isdigit(c)) {
             throw StreamParser::Error(std::string("ObjectParser::parseNumber invalid char '") + c + "'");
         }
         s += c;
-        while (isdigit(peek())) {
-            s += next();
+        while (isdigit(peek(true))) {
+            s += next(true);
         }
     }
 
 
-    c = peek();
+    c = peek(true);
     if (c == 'e' || c == 'E') {
         real = true;
-        s += next();
+        s += next(true);
 
-        c = next();
+        c = next(true);
         if (c == '-' || c == '+') {
             s += c;
-            c = next();
+            c = next(true);
         }
 
         if (!isdigit(c)) {
             throw StreamParser::Error(std::string("ObjectParser::parseNumber invalid char '") + c + "'");
         }
         s += c;
-        while (isdigit(peek())) {
-            s += next();
+        while (isdigit(peek(true))) {
+            s += next(true);
         }
     }
 
@@ -131,18 +131,24 @@ static std::string utf8(uint32_t code) {
 }
 
 
-std::string ObjectParser::unicode() {
-    std::string tmp;
+uint32_t ObjectParser::unicodeUnit() {
+    uint32_t code = 0;
 
-    while (true) {
-        char c = peek();
+    for (int i = 0; i < 4; ++i) {
+        char c = next(true);
 
-        if ((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) {
-            consume(c);
-            tmp += c;
+        code <<= 4;
+        if (c >= '0' && c <= '9') {
+            code += c - '0';
+        }
+        else if (c >= 'a' && c <= 'f') {
+            code += c - 'a' + 10;
+        }
+        else if (c >= 'A' && c <= 'F') {
+            code += c - 'A' + 10;
         }
         else {
-            break;
+            throw StreamParser::Error(std::string("ObjectParser::unicode invalid hexadecimal digit '") + c + "'");
         }
     }
 
diff --git a/src/eckit/parser/StreamParser.cc b/src/eckit/parser/StreamParser.cc
index 9c93a2b..d5b735f 100644
--- a/src/eckit/parser/StreamParser.cc
+++ b/src/eckit/parser/StreamParser.cc
@@ -121,8 +121,16 @@ void StreamParser::consume(char c) {
 }
 
 void StreamParser::consume(const char* p) {
+    if (*p) {
+        consume(*p++);  // spaces are allowed before the token, not within it
+    }
     while (*p) {
-        consume(*p++);
+        char n = next(true);
+        if (*p != n) {
+            throw StreamParser::Error(std::string("StreamParser::consume expecting '") + *p + "', got '" + n + "'",
+                                      line_ + 1);
+        }
+        p++;
     }
 }
 
-- 
2.43.0


From cf768c558c238e3c5a25a427958a4b96580a7e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:01 +0000
Subject: [PATCH 45/73] fix: \u in a JSON string is followed by exactly four
 hexadecimal digits; surrogate pairs

---
 src/eckit/parser/ObjectParser.cc | 26 ++++++++++++++++++++------
 src/eckit/parser/ObjectParser.h  |  1 +
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/eckit/parser/ObjectParser.cc b/src/eckit/parser/ObjectParser.cc
index 6374cb0..a6da32b 100644
--- a/src/eckit/parser/ObjectParser.cc
+++ b/src/eckit/parser/ObjectParser.cc
@@ -50,10 +50,10 @@ Value ObjectParser::parseNumber() {
     bool string = false;
 
     std::string s;
-    char c = next();
+    char c = next();  // no spaces are allowed within a number
     if (c == '-') {
         s += c;
-        c = next();
+        c = next(true);
     }
 
     switch (c) {
@@ -152,12 +152,26 @@ uint32_t ObjectParser::unicodeUnit() {
         }
     }
 
+    return code;
+}
 
-    std::istringstream iss(tmp);
-    uint32_t code;
-    iss >> std::hex >> code;
+std::string ObjectParser::unicode() {
+    uint32_t code = unicodeUnit();
 
-    // std::cout << " [" << code << ", " << utf8(code) << "]" << std::endl;
+    if (code >= 0xD800 && code <= 0xDBFF) {
+        // first half of a surrogate pair
+        uint32_t low = 0;
+        if (next(true) == '\\' && next(true) == 'u') {
+            low = unicodeUnit();
+        }
+        if (low < 0xDC00 || low > 0xDFFF) {
+            throw StreamParser::Error("ObjectParser::unicode unpaired surrogate");
+        }
+        code = 0x10000 + ((code - 0xD800) << 10) + (low - 0xDC00);
+    }
+    else if (code >= 0xDC00 && code <= 0xDFFF) {
+        throw StreamParser::Error("ObjectParser::unicode unpaired surrogate");
+    }
 
     return utf8(code);
 }
diff --git a/src/eckit/parser/ObjectParser.h b/src/eckit/parser/ObjectParser.h
index 949eb29..b2e1a03 100644
--- a/src/eckit/parser/ObjectParser.h
+++ b/src/eckit/parser/ObjectParser.h
@@ -53,6 +53,7 @@ protected:  // methods
 
 private:
 
+    uint32_t unicodeUnit();
     std::string unicode();
     bool yaml_;
 };
-- 
2.43.0


From 9e066e1dd73dc1c0ca4e174bd231c65ec4c43a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:01 +0000
Subject: [PATCH 46/73] fix: JSON strings are written with NULs, control
 characters escaped; so are single characters

---
 src/eckit/log/JSON.cc | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/eckit/log/JSON.cc b/src/eckit/log/JSON.cc
index d1f143d..d05f4f0 100644
--- a/src/eckit/log/JSON.cc
+++ b/src/eckit/log/JSON.cc
@@ -8,6 +8,7 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cstring>
 #include <iomanip>
 #include <string>
 
@@ -90,9 +91,9 @@ void JSON::sep() {
     }
 }
 
-static std::ostream& encode(std::ostream& s, const char* p) {
+static std::ostream& encode(std::ostream& s, const char* p, size_t len) {
     s << '"';
-    while (*p) {
+    for (const char* end = p + len; p != end; ++p) {
         switch (*p) {
 
             case '\\':
@@ -124,10 +125,16 @@ static std::ostream& encode(std::ostream& s, const char* p) {
                 break;
 
             default:
-                s << *p;
+                if (static_cast<unsigned char>(*p) < 0x20) {
+                    // other control characters
+                    static const char* hex = "0123456789abcdef";
+                    s << "\\u00" << hex[(*p >> 4) & 0xf] << hex[*p & 0xf];
+                }
+                else {
+                    s << *p;
+                }
                 break;
         }
-        p++;
     }
 
     s << '"';
@@ -200,14 +207,15 @@ JSON& JSON::operator<<(bool n) {
 JSON& JSON::operator<<(char n) {
     null_ = false;
     sep();
-    out_ << '"' << n << '"';
+    encode(out_, &n, 1);
     return *this;
 }
 
 JSON& JSON::operator<<(unsigned char n) {
     null_ = false;
     sep();
-    out_ << '"' << n << '"';
+    const char c = static_cast<char>(n);
+    encode(out_, &c, 1);
     return *this;
 }
 
@@ -270,14 +278,14 @@ JSON& JSON::operator<<(double n) {
 JSON& JSON::operator<<(const std::string& s) {
     null_ = false;
     sep();
-    encode(out_, s.c_str());
+    encode(out_, s.c_str(), s.size());
     return *this;
 }
 
 JSON& JSON::operator<<(const char* s) {
     null_ = false;
     sep();
-    encode(out_, s);
+    encode(out_, s, std::strlen(s));
     return *this;
 }
 
-- 
2.43.0


From ea7befa11a2e700243ceddacc30065980bb5ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:05 +0000
Subject: [PATCH 47/73] fix: order of far apart integer values

---
 src/eckit/value/NumberContent.cc | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/eckit/value/NumberContent.cc b/src/eckit/value/NumberContent.cc
index 219ac97..18e8c5b 100644
--- a/src/eckit/value/NumberContent.cc
+++ b/src/eckit/value/NumberContent.cc
@@ -65,15 +65,12 @@ int NumberContent::compare(const Content& other) const {
 }
 
 int NumberContent::compareNumber(const NumberContent& other) const {
-    long long dif = (value_ - other.value_);
-    if (dif == 0) {
-        return dif;
-    }
-    if (dif < 0) {
-        return -1;
+    // not through their difference, which overflows when they are far apart
+    if (value_ == other.value_) {
+        return 0;
     }
 
-    return 1;
+    return value_ < other.value_ ? -1 : 1;
 }
 
 int NumberContent::compareDouble(const DoubleContent& other) const {
-- 
2.43.0


From 1fa49a01d82c08eb95f6b3836b68ef6133468f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:05 +0000
Subject: [PATCH 48/73] fix: iteration over a k-d tree misses what was inserted
 after an earlier iteration

---
 src/eckit/container/KDTree.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eckit/container/KDTree.h b/src/eckit/container/KDTree.h
index f6d9866..ea20fd2 100644
--- a/src/eckit/container/KDTree.h
+++ b/src/eckit/container/KDTree.h
@@ -59,6 +59,9 @@ public:
         Alloc& a   = this->alloc_;
         Node* root = Node::insert(a, value, a.convert(this->root_, (Node*)0), 0);
 
+        // The nodes may already have been linked by an iterator: have the next one link them again, with the new node
+        root->next(a, nullptr);
+
         if (a.convert(root) != this->root_) {
             a.root(a.convert(root));
             this->root_ = a.convert(root);
-- 
2.43.0


From bcfd1d33e3f06a596df97b15e8741e124718b19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:05 +0000
Subject: [PATCH 49/73] fix: size of tensors of 2^31 elements and more

---
 src/eckit/linalg/Tensor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/linalg/Tensor.h b/src/eckit/linalg/Tensor.h
index f422a99..a227746 100644
--- a/src/eckit/linalg/Tensor.h
+++ b/src/eckit/linalg/Tensor.h
@@ -53,7 +53,7 @@ public:  // class methods
     };
 
     static Size flatSize(const std::vector<Size>& shape) {
-        return std::accumulate(std::begin(shape), std::end(shape), 1, std::multiplies<Size>());
+        return std::accumulate(std::begin(shape), std::end(shape), Size{1}, std::multiplies<Size>());
     }
 
     static std::vector<Size> strides(Layout layout, const std::vector<Size>& shape) {
-- 
2.43.0


From ae755c14b6e3280b32db6c4033d13d755e1174d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:05 +0000
Subject: [PATCH 50/73] fix: dates of days or months out of range taken for
 others

---
 src/eckit/types/Date.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/eckit/types/Date.cc b/src/eckit/types/Date.cc
index 478b55e..1b2286f 100644
--- a/src/eckit/types/Date.cc
+++ b/src/eckit/types/Date.cc
@@ -51,6 +51,12 @@ Date::Date(long date) : julian_(dateToJulian(date)) {
 
 Date::Date(long year, long month, long day) : julian_(dateToJulian(year * 10000 + month * 100 + day)) {
     check(*this, year * 10000 + month * 100 + day);
+    // e.g. the 120th of January reads like the 20th of February above
+    if (month != this->month() || day != this->day()) {
+        std::ostringstream os;
+        os << "Invalid date, year " << year << ", month " << month << ", day " << day;
+        throw BadDate(os.str());
+    }
 }
 
 // Warning, unchecked...
@@ -124,7 +130,11 @@ long Date::parse(const std::string& s) {
                     long day  = atol(result[1].c_str());
 
                     Date date(year, 1, 1);
+                    year = date.year();
                     date += day - 1;
+                    if (date.year() != year) {
+                        err = true;
+                    }
                     value = date.yyyymmdd();
                 }
             }
-- 
2.43.0


From 29c8a81648a67f2346c2d11c561715a8579e71c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:05 +0000
Subject: [PATCH 51/73] fix: date-time plus negative seconds, day of the year
 in DateTime::format

---
 src/eckit/types/DateTime.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eckit/types/DateTime.cc b/src/eckit/types/DateTime.cc
index 2a725e5..c95281e 100644
--- a/src/eckit/types/DateTime.cc
+++ b/src/eckit/types/DateTime.cc
@@ -56,6 +56,7 @@ std::string DateTime::format(const std::string& fmt) {
     convert.tm_mday   = date().day();
     convert.tm_mon    = date().month() - 1;
     convert.tm_year   = date().year() - 1900;
+    convert.tm_yday   = date() - Date(date().year(), 1, 1);
 
     int mm = date().month();
     int yy = date().year();
@@ -135,6 +136,10 @@ DateTime DateTime::operator+(const Second& s) const {
         d += 1;
         t -= 86400;
     }
+    else if (t < 0) {
+        d -= 1;
+        t += 86400;
+    }
 
     return DateTime(d, Second(t));
 }
-- 
2.43.0


From 91fddee581baa5f6ff138282534f3fffc62ec1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:05 +0000
Subject: [PATCH 52/73] fix: crash on an hour without digits

---
 src/eckit/types/Hour.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eckit/types/Hour.cc b/src/eckit/types/Hour.cc
index ebc6b9e..f9910b0 100644
--- a/src/eckit/types/Hour.cc
+++ b/src/eckit/types/Hour.cc
@@ -40,6 +40,10 @@ Hour::Hour(const std::string& s) {
     parse(s, result);
     bool error = false;
 
+    if (result.empty()) {
+        throw BadHour(std::string("Invalid hour '") + s + "'");
+    }
+
     if (result.size() > 3) {
         error = true;
     }
-- 
2.43.0


From d61742f1b8de41610f9fd2d51c22e1863886691f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:05 +0000
Subject: [PATCH 53/73] fix: numbers of semantic versions with leading zeros
 read as octal

---
 src/eckit/types/SemanticVersion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/types/SemanticVersion.cc b/src/eckit/types/SemanticVersion.cc
index c61d222..4bfb15e 100644
--- a/src/eckit/types/SemanticVersion.cc
+++ b/src/eckit/types/SemanticVersion.cc
@@ -28,7 +28,7 @@ SemanticVersion::SemanticVersion(unsigned long major, unsigned long minor, unsig
 
 static unsigned long s2int(const std::string& s) {
     if (s.size() == std::count_if(s.begin(), s.end(), [](unsigned char c) { return std::isdigit(c); })) {
-        unsigned long r = ::strtoul(s.data(), nullptr, 0);
+        unsigned long r = ::strtoul(s.data(), nullptr, 10);
         if (r != ULONG_MAX) {
             return r;
         }
-- 
2.43.0


From 73ea231b0985e6b949886d41ea5c26244bcf6cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:05 +0000
Subject: [PATCH 54/73] fix: times with trailing digits, misplaced colons or
 ignored signs accepted

---
 src/eckit/types/Time.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/eckit/types/Time.cc b/src/eckit/types/Time.cc
index ec0fa45..bc8cda9 100644
--- a/src/eckit/types/Time.cc
+++ b/src/eckit/types/Time.cc
@@ -118,7 +118,7 @@ tokenized_time checkTimeFormat(const std::string_view time) {
                     hasColon = true;
                     tokenId  = 1;
                 }
-                if (tokenId > 2 || i <= tokenStart) {
+                if (hasDecimal || hasUnits || tokenId > 2 || i <= tokenStart) {
                     tt.type = TimeFormat::INVALID;
                     return tt;
                 }
@@ -141,7 +141,12 @@ tokenized_time checkTimeFormat(const std::string_view time) {
             tt.integers[tokenId] = time.substr(tokenStart, time.length() - tokenStart);
         }
     }
-    else if (!hasUnits) {
+    else if (hasUnits) {
+        if (tokenStart < time.length()) {  // number without a unit
+            tt.type = TimeFormat::INVALID;
+        }
+    }
+    else {
         tt.integers[1] = time.substr(tokenStart);
         tt.type        = hasDecimal ? TimeFormat::DECIMAL : TimeFormat::DIGITS;
     }
@@ -239,6 +244,14 @@ Time::Time(const std::string& s, bool extended) {
             hh = s2l(tt.integers[1]);
             mm = s2l(tt.integers[2]);
             ss = s2l(tt.integers[3]);
+            if (mm >= 60 || ss >= 60) {
+                throw BadTime("Wrong input for time: " + s);
+            }
+            if (tt.minus) {
+                hh = -hh;
+                mm = -mm;
+                ss = -ss;
+            }
             break;
         case TimeFormat::UNITS:
             dd = s2l(tt.integers[0]);
@@ -261,7 +274,7 @@ Time::Time(const std::string& s, bool extended) {
             throw BadTime("Unkown format for time: " + s);
     }
 
-    if (mm >= 60 || ss >= 60 || (!extended && (hh >= 24 || dd > 0 || hh < 0 || mm < 0 || ss < 0))) {
+    if (mm >= 60 || ss >= 60 || (!extended && (hh >= 24 || dd != 0 || hh < 0 || mm < 0 || ss < 0))) {
         std::string msg = "Wrong input for time: ";
         if (dd > 0) {
             msg += std::to_string(dd);
-- 
2.43.0


From 922e5d5d1a791c78eaadb6a13ad4d743a6a2a6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:12 +0000
Subject: [PATCH 55/73] fix: sparse matrix made identity within memory of
 another shape

---
 src/eckit/linalg/SparseMatrix.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/eckit/linalg/SparseMatrix.cc b/src/eckit/linalg/SparseMatrix.cc
index 2dd6b52..71cd70f 100644
--- a/src/eckit/linalg/SparseMatrix.cc
+++ b/src/eckit/linalg/SparseMatrix.cc
@@ -338,21 +338,25 @@ SparseMatrix& SparseMatrix::setIdentity(Size rows, Size cols) {
 
     auto nnz = std::min(rows, cols);
 
-    reserve(rows, cols, nnz);
+    // in memory of its own: the present one may be of another shape, and shared
+    SparseMatrix tmp;
+    tmp.reserve(rows, cols, nnz);
 
     for (Size i = 0; i < nnz; ++i) {
-        spm_.outer_[i] = static_cast<UIndex>(i);
-        spm_.inner_[i] = static_cast<Index>(i);
+        tmp.spm_.outer_[i] = static_cast<UIndex>(i);
+        tmp.spm_.inner_[i] = static_cast<Index>(i);
     }
 
-    for (Size i = nnz; i <= shape_.rows_; ++i) {
-        spm_.outer_[i] = static_cast<UIndex>(nnz);
+    for (Size i = nnz; i <= rows; ++i) {
+        tmp.spm_.outer_[i] = static_cast<UIndex>(nnz);
     }
 
-    for (Size i = 0; i < shape_.size_; ++i) {
-        spm_.data_[i] = static_cast<Scalar>(1);
+    for (Size i = 0; i < nnz; ++i) {
+        tmp.spm_.data_[i] = static_cast<Scalar>(1);
     }
 
+    swap(tmp);
+
     return *this;
 }
 
-- 
2.43.0


From fd239745f9759a3cc39119eaf16c551c59f7bf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:12 +0000
Subject: [PATCH 56/73] fix: SparseMatrix::prune spoils the matrix when nothing
 remains

---
 src/eckit/linalg/SparseMatrix.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/eckit/linalg/SparseMatrix.cc b/src/eckit/linalg/SparseMatrix.cc
index 71cd70f..a965f65 100644
--- a/src/eckit/linalg/SparseMatrix.cc
+++ b/src/eckit/linalg/SparseMatrix.cc
@@ -405,12 +405,12 @@ SparseMatrix SparseMatrix::rowReduction(const std::vector<size_t>& p) const {
 SparseMatrix& SparseMatrix::prune(Scalar val) {
     std::vector<Scalar> v;
     std::vector<Index> inner;
+    std::vector<UIndex> outer;  // not in place: should nothing remain, or the memory be shared, this is to stay as it is
 
     Size nnz = 0;
     for (Size r = 0; r < shape_.rows_; ++r) {
-        const auto start = spm_.outer_[r];
-        spm_.outer_[r]   = static_cast<UIndex>(nnz);
-        for (auto c = start; c < spm_.outer_[r + 1]; ++c) {
+        outer.push_back(static_cast<UIndex>(nnz));
+        for (auto c = spm_.outer_[r]; c < spm_.outer_[r + 1]; ++c) {
             if (spm_.data_[c] != val) {
                 v.push_back(spm_.data_[c]);
                 inner.push_back(spm_.inner_[c]);
@@ -418,13 +418,13 @@ SparseMatrix& SparseMatrix::prune(Scalar val) {
             }
         }
     }
-    spm_.outer_[shape_.rows_] = static_cast<UIndex>(nnz);
+    outer.push_back(static_cast<UIndex>(nnz));
 
     SparseMatrix tmp;
     tmp.reserve(shape_.rows_, shape_.cols_, nnz);
 
     std::memcpy(tmp.spm_.data_, v.data(), nnz * sizeof(Scalar));
-    std::memcpy(tmp.spm_.outer_, spm_.outer_, shape_.outerSize() * sizeof(UIndex));
+    std::memcpy(tmp.spm_.outer_, outer.data(), shape_.outerSize() * sizeof(UIndex));
     std::memcpy(tmp.spm_.inner_, inner.data(), nnz * sizeof(Index));
 
     swap(tmp);
-- 
2.43.0


From 979f392dc662cfdaaf0247bb635d79a1f26a56fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:12 +0000
Subject: [PATCH 57/73] fix: iteration over sparse matrices gives the wrong row
 after empty rows

---
 src/eckit/linalg/SparseMatrix.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/eckit/linalg/SparseMatrix.cc b/src/eckit/linalg/SparseMatrix.cc
index a965f65..e844a3c 100644
--- a/src/eckit/linalg/SparseMatrix.cc
+++ b/src/eckit/linalg/SparseMatrix.cc
@@ -521,7 +521,7 @@ bool SparseMatrix::const_iterator::operator==(const SparseMatrix::const_iterator
 
 SparseMatrix::const_iterator::const_iterator(const SparseMatrix& matrix) :
     matrix_(const_cast<SparseMatrix*>(&matrix)), index_(0) {
-    for (row_ = 0; matrix_->spm_.outer_[row_ + 1] == 0;) {
+    for (row_ = 0; !matrix_->empty() && matrix_->spm_.outer_[row_ + 1] == 0;) {
         ++row_;
     }
 }
@@ -532,7 +532,7 @@ SparseMatrix::const_iterator::const_iterator(const SparseMatrix& matrix, Size ro
     if (const Size rows = matrix_->rows(); row_ > rows) {
         row_ = rows;
     }
-    index_ = static_cast<Size>(matrix_->spm_.outer_[row_]);
+    index_ = matrix_->empty() ? 0 : static_cast<Size>(matrix_->spm_.outer_[row_]);
 }
 
 
@@ -548,10 +548,11 @@ Size SparseMatrix::const_iterator::row() const {
 
 
 SparseMatrix::const_iterator& SparseMatrix::const_iterator::operator++() {
-    if (lastOfRow()) {
+    index_++;
+    // on to the row of this entry, over the rows that have none
+    while (row_ < matrix_->rows() && static_cast<Size>(matrix_->spm_.outer_[row_ + 1]) <= index_) {
         row_++;
     }
-    index_++;
     return *this;
 }
 
-- 
2.43.0


From 1e1b560e37805c947601ac08405cb8c6938bb185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:12 +0000
Subject: [PATCH 58/73] fix: dump of a sparse matrix shorter than its header
 read

---
 src/eckit/linalg/SparseMatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/linalg/SparseMatrix.cc b/src/eckit/linalg/SparseMatrix.cc
index e844a3c..8ef18fb 100644
--- a/src/eckit/linalg/SparseMatrix.cc
+++ b/src/eckit/linalg/SparseMatrix.cc
@@ -207,7 +207,7 @@ void SparseMatrix::load(const void* buffer, size_t bufferSize, Layout& layout, S
     mh.openForRead();
 
     struct SPMInfo info;
-    mh.read(&info, sizeof(SPMInfo));
+    ASSERT(mh.read(&info, sizeof(SPMInfo)) == static_cast<long>(sizeof(SPMInfo)));
 
     ASSERT(info.size_ && info.rows_ && info.cols_);
     ASSERT(info.data_ > 0 && info.outer_ > 0 && info.inner_ > 0);
-- 
2.43.0


From 9aa6c611ec581329ca1e7a1f48501f72debb8af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:53 +0000
Subject: [PATCH 59/73] fix: setting a key of a record twice spoils the record
 when the kind of item changes

---
 src/eckit/codec/RecordWriter.cc | 35 ++++++++++++++++++++++++++-------
 src/eckit/codec/RecordWriter.h  |  3 +++
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/eckit/codec/RecordWriter.cc b/src/eckit/codec/RecordWriter.cc
index e6eda8e..72a80bd 100644
--- a/src/eckit/codec/RecordWriter.cc
+++ b/src/eckit/codec/RecordWriter.cc
@@ -150,9 +150,7 @@ void RecordWriter::checksum(bool on) {
 //---------------------------------------------------------------------------------------------------------------------
 
 void RecordWriter::set(const RecordWriter::Key& key, Link&& link, const Configuration&) {
-    keys_.emplace_back(key);
-    encoders_[key] = Encoder{link};
-    info_.emplace(key, DataInfo{});
+    set(key, Encoder{link}, DataInfo{});
 }
 
 //---------------------------------------------------------------------------------------------------------------------
@@ -160,13 +158,36 @@ void RecordWriter::set(const RecordWriter::Key& key, Link&& link, const Configur
 void RecordWriter::set(const RecordWriter::Key& key, Encoder&& encoder, const Configuration& config) {
     DataInfo info;
     if (encoder.encodes_data()) {
-        ++nb_data_sections_;
         info.compression(config.getString("compression", compression_));
-        info.section(nb_data_sections_);
+        info.section(nb_data_sections_ + 1);
+    }
+    set(key, std::move(encoder), std::move(info));
+}
+
+//---------------------------------------------------------------------------------------------------------------------
+
+void RecordWriter::set(const RecordWriter::Key& key, Encoder&& encoder, DataInfo&& info) {
+    const bool replace = info_.find(key) != info_.end();
+
+    if (not replace) {
+        keys_.emplace_back(key);
+    }
+    if (info.section() != 0) {
+        ++nb_data_sections_;
     }
-    keys_.emplace_back(key);
     encoders_[key] = std::move(encoder);
-    info_.emplace(key, std::move(info));
+    info_[key]     = std::move(info);
+
+    if (replace) {
+        // data sections are numbered in the order they are written
+        nb_data_sections_ = 0;
+        for (const auto& k : keys_) {
+            auto& i = info_.at(k);
+            if (i.section() != 0) {
+                i.section(++nb_data_sections_);
+            }
+        }
+    }
 }
 
 //---------------------------------------------------------------------------------------------------------------------
diff --git a/src/eckit/codec/RecordWriter.h b/src/eckit/codec/RecordWriter.h
index 2b99e66..6967ab4 100644
--- a/src/eckit/codec/RecordWriter.h
+++ b/src/eckit/codec/RecordWriter.h
@@ -128,6 +128,9 @@ private:
     int do_checksum_{defaults::checksum_write() ? 1 : 0};
     int nb_data_sections_{0};
 
+    /// Add item to record, or replace the one that has been set with the same key
+    void set(const Key&, Encoder&&, DataInfo&&);
+
     std::string metadata() const;
 };
 
-- 
2.43.0


From ca6d96d0658b610f9e1174dea8831c51e1134def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:53 +0000
Subject: [PATCH 60/73] fix: RecordReader ignores further requests for the same
 key

---
 src/eckit/codec/RecordReader.cc | 14 ++++++++++++--
 src/eckit/codec/RecordReader.h  | 16 ++++++----------
 2 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/eckit/codec/RecordReader.cc b/src/eckit/codec/RecordReader.cc
index 64f7fa7..971d4ed 100644
--- a/src/eckit/codec/RecordReader.cc
+++ b/src/eckit/codec/RecordReader.cc
@@ -12,6 +12,8 @@
 
 #include "eckit/codec/RecordReader.h"
 
+#include <stdexcept>
+
 #include "eckit/codec/Metadata.h"
 #include "eckit/codec/RecordItemReader.h"
 
@@ -49,7 +51,11 @@ void RecordReader::trace(const std::string&, const char* file, int line, const c
 //---------------------------------------------------------------------------------------------------------------------
 
 void RecordReader::wait(const std::string& key) {
-    request(key).wait();
+    request(key);  // there is one
+    auto range = requests_.equal_range(key);
+    for (auto it = range.first; it != range.second; ++it) {
+        it->second.wait();
+    }
 }
 
 //---------------------------------------------------------------------------------------------------------------------
@@ -65,7 +71,11 @@ void RecordReader::wait() {
 //---------------------------------------------------------------------------------------------------------------------
 
 ReadRequest& RecordReader::request(const std::string& key) {
-    return requests_.at(key);
+    auto it = requests_.upper_bound(key);
+    if (it == requests_.begin() || (--it)->first != key) {
+        throw std::out_of_range("RecordReader: no request for key \"" + key + "\"");
+    }
+    return it->second;  // the last one
 }
 
 //---------------------------------------------------------------------------------------------------------------------
diff --git a/src/eckit/codec/RecordReader.h b/src/eckit/codec/RecordReader.h
index 560db6e..79018fc 100644
--- a/src/eckit/codec/RecordReader.h
+++ b/src/eckit/codec/RecordReader.h
@@ -35,17 +35,13 @@ public:
     ReadRequest& read(const std::string& key, T& value) {
         trace("read(" + key + ")", __FILE__, __LINE__, __func__);
 
-        if (stream_) {
-            trace("stream", __FILE__, __LINE__, __func__);
-            requests_.emplace(key, ReadRequest{stream_, offset_, key, value});
-        }
-        else {
-            requests_.emplace(key, ReadRequest{uri(key), value});
-        }
+        // Several requests can be made for the same key
+        auto& request = stream_ ? requests_.emplace(key, ReadRequest{stream_, offset_, key, value})->second
+                                : requests_.emplace(key, ReadRequest{uri(key), value})->second;
         if (do_checksum_ >= 0) {
-            requests_.at(key).checksum(do_checksum_);
+            request.checksum(do_checksum_);
         }
-        return requests_.at(key);
+        return request;
     }
 
     void wait(const std::string& key);
@@ -72,7 +68,7 @@ private:
 
     Stream stream_;
 
-    std::map<std::string, ReadRequest> requests_;
+    std::multimap<std::string, ReadRequest> requests_;
 
     std::string path_;
     std::uint64_t offset_;
-- 
2.43.0


From 40ebd77306b3be272789ea65cb8cb7aae4dcfdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:53 +0000
Subject: [PATCH 61/73] fix: empty checksum in a damaged or incomplete record
 read out of bounds

---
 src/eckit/codec/detail/Checksum.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/codec/detail/Checksum.cc b/src/eckit/codec/detail/Checksum.cc
index 5072c36..e3582c8 100644
--- a/src/eckit/codec/detail/Checksum.cc
+++ b/src/eckit/codec/detail/Checksum.cc
@@ -24,7 +24,7 @@ Checksum::Checksum(const std::string& checksum) {
     std::vector<std::string> tokens;
     Tokenizer tokenizer(':');
     Tokenizer{':'}(checksum, tokens);
-    if (tokens.size() == 1) {
+    if (tokens.size() < 2) {
         algorithm_ = "none";
         checksum_  = "";
     }
-- 
2.43.0


From aef801643690915e86a9514baa23ee09cdb7dfc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:54 +0000
Subject: [PATCH 62/73] fix: size of arrays with more than 2^31 elements
 overflows in ArrayMetadata

---
 src/eckit/codec/types/array/ArrayMetadata.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/codec/types/array/ArrayMetadata.cc b/src/eckit/codec/types/array/ArrayMetadata.cc
index 8686eda..7c74748 100644
--- a/src/eckit/codec/types/array/ArrayMetadata.cc
+++ b/src/eckit/codec/types/array/ArrayMetadata.cc
@@ -56,7 +56,7 @@ ArrayMetadata::ArrayMetadata(const Metadata& metadata) :
 //---------------------------------------------------------------------------------------------------------------------
 
 size_t ArrayMetadata::size() const {
-    return size_t(std::accumulate(shape_.begin(), shape_.end(), 1, std::multiplies<>()));
+    return std::accumulate(shape_.begin(), shape_.end(), size_t{1}, std::multiplies<>());
 }
 
 //---------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 91fcf67f2f6e6398b15a37d514756cc5d795ddbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:06:54 +0000
Subject: [PATCH 63/73] fix: damaged index length of a record overruns the
 index read from it

---
 src/eckit/codec/Record.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eckit/codec/Record.cc b/src/eckit/codec/Record.cc
index 2ba182d..637279d 100644
--- a/src/eckit/codec/Record.cc
+++ b/src/eckit/codec/Record.cc
@@ -228,6 +228,9 @@ Record& Record::read(Stream& in, bool read_to_end) {
     const auto index_length = (static_cast<size_t>(r.index_length) - sizeof(RecordDataIndexSection::Begin) -
                                sizeof(RecordDataIndexSection::End));
     const auto index_size   = index_length / sizeof(RecordDataIndexSection::Entry);
+    if (index_length != index_size * sizeof(RecordDataIndexSection::Entry)) {
+        throw InvalidRecord("Unexpected data index section length.");
+    }
     auto& data_sections     = record_->data_sections;
     data_sections.resize(index_size);
     if (in.read(data_sections.data(), index_length) != index_length) {
-- 
2.43.0


From 46e5962b84b2034f2d3af2f3f56c4dca0ec31417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:25 +0000
Subject: [PATCH 64/73] fix: SQL joins skip combinations of rows

When nothing is output at once (ORDER BY, DISTINCT, aggregates), or the condition involves several
tables, rows of the tables other than the first were advanced without being combined with the others.
The tables are now nested, the last one advancing fastest.
---
 src/eckit/sql/SQLSelect.cc | 78 ++++++++++++++++++++++----------------
 src/eckit/sql/SQLSelect.h  |  1 +
 2 files changed, 46 insertions(+), 33 deletions(-)

diff --git a/src/eckit/sql/SQLSelect.cc b/src/eckit/sql/SQLSelect.cc
index a684a9a..e268406 100644
--- a/src/eckit/sql/SQLSelect.cc
+++ b/src/eckit/sql/SQLSelect.cc
@@ -622,6 +622,37 @@ bool SQLSelect::processNextTableRow(size_t tableIndex) {
 }
 
 
+bool SQLSelect::processNextCombination(bool first) {
+
+    /// The tables are nested in order, the last one advancing fastest, as the checks of a table
+    /// may involve the current rows of those before it.
+
+    const size_t ntables = cursors_.size();
+
+    if (ntables == 0) {
+        return first;
+    }
+
+    size_t idx = first ? 0 : ntables - 1;
+
+    while (true) {
+        if (processNextTableRow(idx)) {
+            if (++idx == ntables) {
+                return true;
+            }
+            cursors_[idx]->rewind();
+        }
+        else {
+            // This table is exhausted. Move on in the one before it
+            if (idx == 0) {
+                return false;
+            }
+            --idx;
+        }
+    }
+}
+
+
 bool SQLSelect::processOneRow() {
 
     // n.b. it is acceptable for fromTables.size() == 0, if the expressions
@@ -640,45 +671,26 @@ bool SQLSelect::processOneRow() {
         return false;
     }
 
-    // If this is the first retrieve, we need to initialise all tables
-
-    if (count_ == 0) {
-        for (size_t idx = 0; idx < cursors_.size(); idx++) {
-            if (!processNextTableRow(idx)) {
-                return false;  // If false, there is no data
-            }
-        }
-
-        if (writeOutput()) {
-            count_++;
-            return true;
-            ;
-        }
-    }
-
-    // Otherwise, start by incrementing the first table. If that is exhausted, reset that table
-    // and increment the second, and continue until we have enumerated all possible combinations
-    // of valid data across the tables.
+    // Enumerate all possible combinations of valid data across the tables.
+    // n.b. keep going until writeOutput() has done something - i.e. a row has been
+    // returned. This allows us to have filtering/unique/aggregation in the Output
 
     if (!mixedAggregatedAndScalar_ || aggregatedResultsIterator_ == aggregatedResults_.end()) {
 
-        for (size_t idx = 0; idx < cursors_.size(); idx++) {
+        bool first = (count_ == 0);
+        bool found = false;
 
-            // n.b. keep going until writeOutput() has done something - i.e. a row has been
-            // returned. This allows us to have filtering/unique/aggregation in the Output
-            while (processNextTableRow(idx)) {
-                if (writeOutput()) {
-                    count_++;
-                    return true;
-                }
+        while (processNextCombination(first)) {
+            first = false;
+            found = true;
+            if (writeOutput()) {
+                count_++;
+                return true;
             }
+        }
 
-            // If we have exhausted the available rows, rewind and increment those in the next table
-
-            if (idx != cursors_.size() - 1) {
-                cursors_[idx]->rewind();
-                ASSERT(processNextTableRow(idx));
-            }
+        if (count_ == 0 && !found) {
+            return false;  // There is no data
         }
     }
 
diff --git a/src/eckit/sql/SQLSelect.h b/src/eckit/sql/SQLSelect.h
index e4df64f..ad9c4bf 100644
--- a/src/eckit/sql/SQLSelect.h
+++ b/src/eckit/sql/SQLSelect.h
@@ -136,6 +136,7 @@ private:
     std::shared_ptr<SQLExpression> findAliasedExpression(const std::string& alias);
 
     bool processNextTableRow(size_t tableIndex);
+    bool processNextCombination(bool first);
 
     friend class expression::function::FunctionROWNUMBER;  // needs access to count_
     friend class expression::function::FunctionTHIN;       // needs access to count_
-- 
2.43.0


From 412f946f0e6db12796cd18184a1f56f353ff20c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:25 +0000
Subject: [PATCH 65/73] fix: SQL condition that is always false makes the
 SELECT fail

The preparation of the SELECT was abandoned half way. It is completed, and the condition checked as any other.
---
 src/eckit/sql/SQLSelect.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/eckit/sql/SQLSelect.cc b/src/eckit/sql/SQLSelect.cc
index e268406..d982153 100644
--- a/src/eckit/sql/SQLSelect.cc
+++ b/src/eckit/sql/SQLSelect.cc
@@ -246,7 +246,6 @@ void SQLSelect::prepareExecute() {
             }
             else {
                 Log::debug<LibEcKit>() << "WHERE condition always false" << std::endl;
-                return;
             }
         }
     }
-- 
2.43.0


From 50d52c26dd6ed0140e344ebf3aaebae8ec3bb0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:25 +0000
Subject: [PATCH 66/73] fix: SQL AND and OR with a missing operand

One false operand makes AND false and one true operand makes OR true, whether the other is missing or not.
---
 src/eckit/sql/expression/function/FunctionAND.cc | 16 +++++++++++++++-
 src/eckit/sql/expression/function/FunctionOR.cc  | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/src/eckit/sql/expression/function/FunctionAND.cc b/src/eckit/sql/expression/function/FunctionAND.cc
index 73e976f..561713f 100644
--- a/src/eckit/sql/expression/function/FunctionAND.cc
+++ b/src/eckit/sql/expression/function/FunctionAND.cc
@@ -35,7 +35,21 @@ const type::SQLType* FunctionAND::type() const {
 }  // TODO: bool?
 
 double FunctionAND::eval(bool& missing) const {
-    return args_[0]->eval(missing) && args_[1]->eval(missing);
+    // False if either is false, whether the other is missing or not
+    bool missing0 = false;
+    if (!args_[0]->eval(missing0) && !missing0) {
+        return false;
+    }
+
+    bool missing1 = false;
+    if (!args_[1]->eval(missing1) && !missing1) {
+        return false;
+    }
+
+    if (missing0 || missing1) {
+        missing = true;
+    }
+    return true;
 }
 
 bool FunctionAND::andSplit(expression::Expressions& e) {
diff --git a/src/eckit/sql/expression/function/FunctionOR.cc b/src/eckit/sql/expression/function/FunctionOR.cc
index 4d36caa..76d5f5e 100644
--- a/src/eckit/sql/expression/function/FunctionOR.cc
+++ b/src/eckit/sql/expression/function/FunctionOR.cc
@@ -32,7 +32,21 @@ const type::SQLType* FunctionOR::type() const {
 }
 
 double FunctionOR::eval(bool& missing) const {
-    return args_[0]->eval(missing) || args_[1]->eval(missing);
+    // True if either is true, whether the other is missing or not
+    bool missing0 = false;
+    if (args_[0]->eval(missing0) && !missing0) {
+        return true;
+    }
+
+    bool missing1 = false;
+    if (args_[1]->eval(missing1) && !missing1) {
+        return true;
+    }
+
+    if (missing0 || missing1) {
+        missing = true;
+    }
+    return false;
 }
 
 std::shared_ptr<SQLExpression> FunctionOR::simplify(bool& changed) {
-- 
2.43.0


From c13df4e84bf9c6b61c614d1f54d6e6af582dcdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:25 +0000
Subject: [PATCH 67/73] fix: SQL first() and sum() keep state of the previous
 execution of the statement

---
 src/eckit/sql/expression/function/FunctionFIRST.cc | 6 ++++--
 src/eckit/sql/expression/function/FunctionSUM.cc   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/eckit/sql/expression/function/FunctionFIRST.cc b/src/eckit/sql/expression/function/FunctionFIRST.cc
index f065063..83e11af 100644
--- a/src/eckit/sql/expression/function/FunctionFIRST.cc
+++ b/src/eckit/sql/expression/function/FunctionFIRST.cc
@@ -46,12 +46,14 @@ double FunctionFIRST::eval(bool& missing) const {
 
 void FunctionFIRST::prepare(SQLSelect& sql) {
     FunctionExpression::prepare(sql);
-    value_ = DBL_MAX;
+    value_    = DBL_MAX;
+    notFirst_ = false;
 }
 
 void FunctionFIRST::cleanup(SQLSelect& sql) {
     FunctionExpression::cleanup(sql);
-    value_ = DBL_MAX;
+    value_    = DBL_MAX;
+    notFirst_ = false;
 }
 
 void FunctionFIRST::output(SQLOutput& s) const {
diff --git a/src/eckit/sql/expression/function/FunctionSUM.cc b/src/eckit/sql/expression/function/FunctionSUM.cc
index a1d98e8..9527c8f 100644
--- a/src/eckit/sql/expression/function/FunctionSUM.cc
+++ b/src/eckit/sql/expression/function/FunctionSUM.cc
@@ -42,12 +42,14 @@ double FunctionSUM::eval(bool& missing) const {
 
 void FunctionSUM::prepare(SQLSelect& sql) {
     FunctionExpression::prepare(sql);
-    value_ = 0;
+    value_      = 0;
+    resultNULL_ = true;
 }
 
 void FunctionSUM::cleanup(SQLSelect& sql) {
     FunctionExpression::cleanup(sql);
-    value_ = 0;
+    value_      = 0;
+    resultNULL_ = true;
 }
 
 void FunctionSUM::partialResult() {
-- 
2.43.0


From a89c105613dc2a0ab0a6084cd3fe509ced9fda46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:25 +0000
Subject: [PATCH 68/73] fix: SQL unary minus applies to the whole rest of the
 expression

-a + 1 was -(a + 1), a > -1 and b = 2 was a > -(1 and b = 2).
---
 src/eckit/sql/sqly.y | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eckit/sql/sqly.y b/src/eckit/sql/sqly.y
index 45eba6c..171d484 100755
--- a/src/eckit/sql/sqly.y
+++ b/src/eckit/sql/sqly.y
@@ -612,7 +612,7 @@ optional_hash : HASH DOUBLE { $$ = std::make_shared<NumberExpression>($2); }
 
 
 atom_or_number : '(' expression ')'           { $$ = $2; }
-               | '-' expression               { $$ = FunctionFactory::instance().build("-",$2); }
+               | '-' atom_or_number           { $$ = FunctionFactory::instance().build("-",$2); }
                | DOUBLE                       { $$ = std::make_shared<NumberExpression>($1); }
                |
                column
-- 
2.43.0


From 87440395243609ebe98f144240b06dbf7f14019a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:25 +0000
Subject: [PATCH 69/73] fix: SQL statement with AND and a constant operand
 crashes when executed again

The simplification removed the operands of the original condition.
---
 src/eckit/sql/expression/function/FunctionAND.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/eckit/sql/expression/function/FunctionAND.cc b/src/eckit/sql/expression/function/FunctionAND.cc
index 561713f..af8e95a 100644
--- a/src/eckit/sql/expression/function/FunctionAND.cc
+++ b/src/eckit/sql/expression/function/FunctionAND.cc
@@ -82,8 +82,6 @@ std::shared_ptr<SQLExpression> FunctionAND::simplify(bool& changed) {
                 changed = true;
 
                 std::shared_ptr<SQLExpression> x = args_[1 - i];
-                args_.clear();
-
                 std::cout << *x << std::endl;
                 return x;
             }
-- 
2.43.0


From 098280c46f5f8e4c03096919b03f3769947a90dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:25 +0000
Subject: [PATCH 70/73] fix: log lines longer than 4096 characters are garbled

LineBasedTarget dropped the beginning of the line when it enlarged its buffer.
---
 src/eckit/log/LineBasedTarget.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/eckit/log/LineBasedTarget.cc b/src/eckit/log/LineBasedTarget.cc
index 51735d5..2f07905 100644
--- a/src/eckit/log/LineBasedTarget.cc
+++ b/src/eckit/log/LineBasedTarget.cc
@@ -8,6 +8,8 @@
  * does it submit to any jurisdiction.
  */
 
+#include <cstring>
+
 #include "eckit/exception/Exceptions.h"
 #include "eckit/maths/Functions.h"
 
@@ -27,10 +29,13 @@ LineBasedTarget::~LineBasedTarget() {
 
 void LineBasedTarget::reserve(size_t size) {
     if (size_ < size) {
+        size         = round(size, 1024 * 1024);
+        char* buffer = new char[size];
+        ASSERT(buffer);
+        ::memcpy(buffer, buffer_, position_);  // the beginning of the current line
         delete[] buffer_;
-        size_   = round(size, 1024 * 1024);
-        buffer_ = new char[size_];
-        ASSERT(buffer_);
+        size_   = size;
+        buffer_ = buffer;
     }
 }
 
-- 
2.43.0


From 8db9ffa56db4b996d393e4bab0c2663fd2236f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:49 +0000
Subject: [PATCH 71/73] fix: reset of a hash keeps the digest asked for before

---
 src/eckit/utils/MD4.cc       | 1 +
 src/eckit/utils/MD5.cc       | 1 +
 src/eckit/utils/SHA1.cc      | 1 +
 src/eckit/utils/xxHashing.cc | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/eckit/utils/MD4.cc b/src/eckit/utils/MD4.cc
index 3bc79a9..7c765b5 100644
--- a/src/eckit/utils/MD4.cc
+++ b/src/eckit/utils/MD4.cc
@@ -43,6 +43,7 @@ MD4::~MD4() {}
 
 void MD4::reset() const {
     MD4_Init(&ctx_);
+    digest_ = digest_t();
 }
 
 Hash::digest_t MD4::compute(const void* buffer, long size) {
diff --git a/src/eckit/utils/MD5.cc b/src/eckit/utils/MD5.cc
index 0dd48b4..5ab84f0 100644
--- a/src/eckit/utils/MD5.cc
+++ b/src/eckit/utils/MD5.cc
@@ -297,6 +297,7 @@ MD5::~MD5() {}
 
 void MD5::reset() const {
     Init(&s_);
+    digest_ = digest_t();
 }
 
 Hash::digest_t MD5::compute(const void* buffer, long size) {
diff --git a/src/eckit/utils/SHA1.cc b/src/eckit/utils/SHA1.cc
index 99c0001..b10732b 100644
--- a/src/eckit/utils/SHA1.cc
+++ b/src/eckit/utils/SHA1.cc
@@ -44,6 +44,7 @@ SHA1::~SHA1() {}
 
 void SHA1::reset() const {
     SHA1_Init(&ctx_);
+    digest_ = digest_t();
 }
 
 Hash::digest_t SHA1::compute(const void* buffer, long size) {
diff --git a/src/eckit/utils/xxHashing.cc b/src/eckit/utils/xxHashing.cc
index 25ba004..90bb4fe 100644
--- a/src/eckit/utils/xxHashing.cc
+++ b/src/eckit/utils/xxHashing.cc
@@ -75,6 +75,7 @@ xxHash::~xxHash() {}
 
 void xxHash::reset() const {
     ctx_->reset();
+    digest_ = digest_t();
 }
 
 Hash::digest_t xxHash::compute(const void* buffer, long size) {
-- 
2.43.0


From cc5ebf658a19e29fc2a8bc795ac471b72e02f5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:49 +0000
Subject: [PATCH 72/73] fix: MD5::digest is wrong after MD5::numericalDigest

---
 src/eckit/utils/MD5.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eckit/utils/MD5.cc b/src/eckit/utils/MD5.cc
index 5ab84f0..8a9e87b 100644
--- a/src/eckit/utils/MD5.cc
+++ b/src/eckit/utils/MD5.cc
@@ -356,7 +356,8 @@ MD5::digest_t MD5::digest() const {
 }
 
 void MD5::numericalDigest(unsigned char out[MD5_DIGEST_LENGTH]) const {
-    MD5::Final(&out[0], &s_);
+    MD5_CTX ctx = s_;  // digest() may be asked for next
+    MD5::Final(&out[0], &ctx);
 }
 
 namespace {
-- 
2.43.0


From 3ae58387ad9ac317689f59031137aa28181dd549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:06:49 +0000
Subject: [PATCH 73/73] fix: RLE encoding corrupt when its time runs out
 between the two encodings of a group

---
 src/eckit/utils/RLE.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/eckit/utils/RLE.cc b/src/eckit/utils/RLE.cc
index 1d058f1..2672818 100644
--- a/src/eckit/utils/RLE.cc
+++ b/src/eckit/utils/RLE.cc
@@ -68,7 +68,7 @@ long long RLEencode2timeout(T first, T last, U output, long long maxLoop,
             T other     = from + n;
             long long a = 0;
 
-            while (from != last && *from == *other) {
+            while (other != last && *from == *other) {
                 ++from;
                 ++other;
                 a++;
@@ -113,16 +113,22 @@ stop:
         if (k > 1) {
             *output++ = -k;
             n++;
-            int m = RLEencode2timeout(from, from + x, make_dummy((typename std::iterator_traits<T>::value_type*)(0)),
-                                      maxLoop, deadline, maxDepth);
+            // n.b. encode this only once, as the result depends on when the deadline passes
+            std::vector<typename std::iterator_traits<T>::value_type> group;
+            long long m = RLEencode2timeout(from, from + x, std::back_inserter(group), maxLoop, deadline, maxDepth);
 
             if (m > 1) {
                 *output++ = -m;
                 n++;
             }
+
+            std::copy(group.begin(), group.end(), output);
+            n += m;
+        }
+        else {
+            n += RLEencode2timeout(from, from + x, output, maxLoop, deadline, maxDepth);
         }
 
-        n += RLEencode2timeout(from, from + x, output, maxLoop, deadline, maxDepth);
         n += RLEencode2timeout(from + k * x, last, output, maxLoop, deadline, maxDepth);
 
         return n;
-- 
2.43.0

