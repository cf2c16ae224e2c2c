From 036b5197d17da0486e21d4a68606a107f2b54012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:10 +0000
Subject: [PATCH 01/43] fix: MutexLock records its owner only while it is held

---
 kanon/thread/mutex_lock.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kanon/thread/mutex_lock.h b/kanon/thread/mutex_lock.h
index 72496f8..c2e13e2 100644
--- a/kanon/thread/mutex_lock.h
+++ b/kanon/thread/mutex_lock.h
@@ -87,6 +87,7 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 
  public:
   MutexLock()
+    : holder_(0)
   {
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_init(&mutex_, NULL));
@@ -106,12 +107,12 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 
   void Lock() ACQUIRE()
   {
-    assignHolder();
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_lock(&mutex_));
 #else
     mutex_.lock();
 #endif
+    assignHolder();
   }
 
   /**
@@ -132,18 +133,18 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 #else
     success = mutex_.try_lock();
 #endif
-    if (success) unassignHolder();
+    if (success) assignHolder();
     return success;
   }
 
   void Unlock() RELEASE()
   {
+    unassignHolder();
 #ifdef KANON_ON_UNIX
     TCHECK(pthread_mutex_unlock(&mutex_));
 #else
     mutex_.unlock();
 #endif
-    unassignHolder();
   }
 
   // TODO Implement this
-- 
2.43.0


From a021e960c539a0309170dd87aae8e10c4bea0f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 02/43] fix: CountDownLatch waits in loops and wakes waiters
 whenever the count reaches zero

---
 kanon/thread/count_down_latch.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/kanon/thread/count_down_latch.h b/kanon/thread/count_down_latch.h
index 6d26b77..db2e22f 100644
--- a/kanon/thread/count_down_latch.h
+++ b/kanon/thread/count_down_latch.h
@@ -30,26 +30,30 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     count_ = count;
+    if (count_ <= 0) cond_.NotifyAll();
   }
 
   void ResetAndWait(int count) KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     count_ = count;
-    if (count_ > 0) cond_.Wait();
+    if (count_ <= 0) cond_.NotifyAll();
+    while (count_ > 0) cond_.Wait();
   }
 
   void Add(int count) KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     count_ += count;
+    if (count_ <= 0) cond_.NotifyAll();
   }
 
   void AddAndWait(int count) KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     count_ += count;
-    if (count_ > 0) cond_.Wait();
+    if (count_ <= 0) cond_.NotifyAll();
+    while (count_ > 0) cond_.Wait();
   }
 
   void Incr() KANON_NOEXCEPT
@@ -62,19 +66,21 @@ class CountDownLatch : noncopyable {
   {
     MutexGuard guard(mutex_);
     ++count_;
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0) cond_.Wait();
   }
 
   KANON_DEPRECATED_ATTR void Minus(int count) KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     count_ -= count;
+    if (count_ <= 0) cond_.NotifyAll();
   }
 
   KANON_DEPRECATED_ATTR void Decr() KANON_NOEXCEPT
   {
     MutexGuard guard(mutex_);
     --count_;
+    if (count_ <= 0) cond_.NotifyAll();
   }
 
   int GetCount() const KANON_NOEXCEPT
@@ -86,7 +92,7 @@ class CountDownLatch : noncopyable {
   void Wait()
   {
     MutexGuard guard(mutex_);
-    if (count_ > 0) cond_.Wait();
+    while (count_ > 0) cond_.Wait();
   }
 
   void Countdown() KANON_NOEXCEPT
-- 
2.43.0


From 55f13a43835d1b635da3cb2bcd3a462eae5e8b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:33 +0000
Subject: [PATCH 03/43] fix: MutexLock::AssertLocked accepts the owner and
 rejects everybody else

---
 kanon/thread/mutex_lock.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/thread/mutex_lock.h b/kanon/thread/mutex_lock.h
index c2e13e2..22996fb 100644
--- a/kanon/thread/mutex_lock.h
+++ b/kanon/thread/mutex_lock.h
@@ -103,7 +103,7 @@ class CAPABILITY("mutexlock") MutexLock : noncopyable {
 
   bool IsLockedInThisThread() { return holder_ == CurrentThread::tid(); }
 
-  void AssertLocked() { ASSERT(IsLockedInThisThread()); }
+  void AssertLocked() { ASSERT(IsLockedInThisThread() ? 0 : EPERM); }
 
   void Lock() ACQUIRE()
   {
-- 
2.43.0


From 4d07536ac5f11f0898755a639cacf88b408ba775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 04/43] fix: EventLoopThread publishes and clears its loop
 under the mutex and always joins its thread

---
 kanon/net/event_loop_thread.cc | 24 +++++++++++++++---------
 kanon/net/event_loop_thread.h  | 11 +++++++++--
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/kanon/net/event_loop_thread.cc b/kanon/net/event_loop_thread.cc
index c4407be..b9a05c1 100644
--- a/kanon/net/event_loop_thread.cc
+++ b/kanon/net/event_loop_thread.cc
@@ -8,6 +8,7 @@ EventLoopThread::EventLoopThread(std::string const &name)
   : loop_{nullptr}
   , mutex_{}
   , cond_{mutex_}
+  , started_{false}
   , thr_{name}
 {
 }
@@ -16,10 +17,15 @@ EventLoopThread::~EventLoopThread() KANON_NOEXCEPT
 {
   // if Quit() is not called through pointer return from StartRun()
   // we should call quit explicitly
-  if (loop_ != nullptr) {
-    loop_->Quit();
-    thr_.Join(); // wait loop quiting
+  {
+    // The loop lives on the stack of the thread, it can't go away while the
+    // mutex is held
+    MutexGuard guard{mutex_};
+    if (loop_ != nullptr) loop_->Quit();
   }
+
+  // The thread uses this object until it returns
+  if (started_) thr_.Join(); // wait loop quiting
 }
 
 EventLoop *EventLoopThread::StartRun(ThreadInitCallback const &init_cb)
@@ -27,12 +33,11 @@ EventLoop *EventLoopThread::StartRun(ThreadInitCallback const &init_cb)
   thr_.StartRun(
       std::bind(&EventLoopThread::BackGroundStartLoop, this,
                 std::reference_wrapper<ThreadInitCallback const>(init_cb)));
+  started_ = true;
 
-  {
-    MutexGuard guard{mutex_};
-    while (loop_ == nullptr) {
-      cond_.Wait();
-    }
+  MutexGuard guard{mutex_};
+  while (loop_ == nullptr) {
+    cond_.Wait();
   }
 
   return loop_;
@@ -51,7 +56,8 @@ void EventLoopThread::BackGroundStartLoop(ThreadInitCallback const &init_cb)
 
   // Maybe quit before StartLoop() be called,
   // but it is harmless.
-  loop_->StartLoop();
+  loop.StartLoop();
 
+  MutexGuard guard{mutex_};
   loop_ = nullptr;
 }
diff --git a/kanon/net/event_loop_thread.h b/kanon/net/event_loop_thread.h
index 33a52c5..61bd208 100644
--- a/kanon/net/event_loop_thread.h
+++ b/kanon/net/event_loop_thread.h
@@ -35,9 +35,15 @@ class EventLoopThread : noncopyable {
   KANON_INLINE EventLoop *StartRun() { return StartRun({}); }
 
   KANON_NET_API EventLoop *StartRun(ThreadInitCallback const &init_cb);
-  KANON_NET_API EventLoop *GetLoop() KANON_NOEXCEPT { return loop_; }
+  KANON_NET_API EventLoop *GetLoop() KANON_NOEXCEPT
+  {
+    MutexGuard guard{mutex_};
+    return loop_;
+  }
+
   KANON_NET_API EventLoop const *GetLoop() const KANON_NOEXCEPT
   {
+    MutexGuard guard{mutex_};
     return loop_;
   }
 
@@ -47,9 +53,10 @@ class EventLoopThread : noncopyable {
 
   EventLoop *loop_;
 
-  MutexLock mutex_;
+  mutable MutexLock mutex_;
   Condition cond_ GUARDED_BY(mutex_);
 
+  bool started_; //!< Whether there is a thread to join
   Thread thr_;
 };
 
-- 
2.43.0


From fad1147ec82cf27878135124839d537c22c350b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 05/43] fix: TcpServer reads its connection table under the
 lock only

---
 kanon/net/tcp_server.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 6324dfc..88b285c 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -108,9 +108,6 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
         LOG_TRACE_KANON << "Pool block num = " << conn_pool_.GetBlockNum();
         LOG_TRACE_KANON << "Pool usage = "
                         << conn_pool_.GetUsage(sizeof(TcpConnection));
-        LOG_TRACE_KANON << "The number of alive connections: "
-                        << connections_.size();
-
         auto conn =
             enable_pool_
                 ? TcpConnection::NewTcpConnection(
@@ -122,6 +119,8 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
 
         {
           MutexGuard guard(lock_conn_);
+          LOG_TRACE_KANON << "The number of alive connections: "
+                          << connections_.size();
           connections_[conn_name] = conn;
         }
 
-- 
2.43.0


From ded39085f4fbe81350e25fa97f826e7b6efa5312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 06/43] fix: TcpServer::ApplyAllPeers calls back without
 holding the connection lock

---
 kanon/net/tcp_server.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 88b285c..3a2cc4a 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -221,8 +221,17 @@ bool TcpServer::IsRunning() KANON_NOEXCEPT { return acceptor_->Listening(); }
 
 void TcpServer::ApplyAllPeers(ConnApplyCb cb)
 {
-  MutexGuard gaurd(lock_conn_);
-  for (auto &name_conn : connections_) {
-    cb(name_conn.second);
+  // The callback may close a peer, which needs the lock
+  std::vector<TcpConnectionPtr> conns;
+  {
+    MutexGuard gaurd(lock_conn_);
+    conns.reserve(connections_.size());
+    for (auto &name_conn : connections_) {
+      conns.emplace_back(name_conn.second);
+    }
+  }
+
+  for (auto &conn : conns) {
+    cb(conn);
   }
 }
-- 
2.43.0


From 95c893bef07e21a5a7805667f1050e9965afdbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 07/43] fix: ThreadPool workers run tasks until the pool is
 destroyed, which no longer blocks on idle workers

---
 kanon/thread/thread_pool.cc | 16 ++++++++++++----
 kanon/thread/thread_pool.h  |  9 ++++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/kanon/thread/thread_pool.cc b/kanon/thread/thread_pool.cc
index 556529e..ca13c99 100644
--- a/kanon/thread/thread_pool.cc
+++ b/kanon/thread/thread_pool.cc
@@ -10,10 +10,17 @@ ThreadPool::ThreadPool(int max_queue_size,
   , not_full_{ mutex_ }
   , not_empty_{ mutex_ }
   , max_queue_size_{ max_queue_size }
+  , stopping_{ false }
   , name_{ name }
 { }
 
 ThreadPool::~ThreadPool() KANON_NOEXCEPT {
+  {
+    MutexGuard guard{ mutex_ };
+    stopping_ = true;
+    not_empty_.NotifyAll();
+  }
+
   for (auto& thr : threads_) {
     thr->Join();
   }
@@ -24,9 +31,7 @@ void ThreadPool::StartRun(int thread_num) {
 
   for (int i = 0; i != thread_num; ++i) {
     auto up_thr = kanon::make_unique<Thread>([this]() {
-      auto task = Pop();
-
-      if (task) {
+      for (auto task = Pop(); task; task = Pop()) {
         // Exception is handled by Thread
         task();
       }
@@ -39,9 +44,11 @@ void ThreadPool::StartRun(int thread_num) {
 }
 
 void ThreadPool::Push(Task task) {
+  if (!task) return;
+
   MutexGuard guard{ mutex_ };
 
-  while (static_cast<int>(tasks_.size()) == max_queue_size_) {
+  while (static_cast<int>(tasks_.size()) >= max_queue_size_) {
     not_full_.Wait();
   }
 
@@ -54,6 +61,7 @@ auto ThreadPool::Pop() -> Task
   MutexGuard guard{ mutex_ };
 
   while (tasks_.size() == 0) {
+    if (stopping_) return Task();
     not_empty_.Wait();
   }
 
diff --git a/kanon/thread/thread_pool.h b/kanon/thread/thread_pool.h
index 6a85d64..b1ef624 100644
--- a/kanon/thread/thread_pool.h
+++ b/kanon/thread/thread_pool.h
@@ -46,13 +46,19 @@ class ThreadPool : noncopyable {
 
   void SetMaxQueueSize(int num) KANON_NOEXCEPT
   {
-    if (num > 0) max_queue_size_ = num;
+    MutexGuard guard{mutex_};
+    if (num > 0) {
+      max_queue_size_ = num;
+      not_full_.NotifyAll();
+    }
   }
 
  private:
   /**
    * \brief pop the task from queue, and notify Push() to produce which can
    * produce more task
+   * \return
+   *   Empty task if the pool is stopping and there is no task left
    */
   Task Pop();
 
@@ -61,6 +67,7 @@ class ThreadPool : noncopyable {
   Condition not_empty_ GUARDED_BY(mutex_);
 
   int max_queue_size_;
+  bool stopping_; //!< Workers exit once the queue is empty
 
   std::vector<std::unique_ptr<kanon::Thread>> threads_;
   std::queue<Task> tasks_;
-- 
2.43.0


From 540ba6061f1dc6c78bd23c1d1657b3c20099fe2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 08/43] fix: LogFile hands files to its remover under the lock
 and never loses the quit wakeup

---
 kanon/log/log_file.cc | 33 ++++++++++++++++++++++-----------
 kanon/log/log_file.h  |  2 +-
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/kanon/log/log_file.cc b/kanon/log/log_file.cc
index e0507b3..aeca8dd 100644
--- a/kanon/log/log_file.cc
+++ b/kanon/log/log_file.cc
@@ -26,19 +26,22 @@ LogFile<T>::LogFile(StringView basename, size_t roll_size, StringView prefix,
 
   if (log_file_num_ != UINT_MAX) {
     remove_thr_.StartRun([this]() {
-      while (!quit_remove_thr_) {
+      for (;;) {
+        std::vector<std::string> removed_files;
         {
           MutexGuard guard(remove_mtx_);
-          // There is one consumer only, don't use while is also ok
-          if (log_files_dup_.size() < log_file_num_ - 1) {
+          while (log_files_dup_.empty() && !quit_remove_thr_) {
             remove_cond_.Wait();
           }
+          removed_files.swap(log_files_dup_);
         }
 
-        for (auto log_file : log_files_dup_) {
+        // Only empty when quiting
+        if (removed_files.empty()) break;
+
+        for (auto const &log_file : removed_files) {
           ::remove(log_file.c_str());
         }
-        log_files_dup_.clear();
       }
     });
   }
@@ -48,8 +51,11 @@ template <bool T>
 KANON_INLINE LogFile<T>::~LogFile() KANON_NOEXCEPT
 {
   if (log_file_num_ != UINT_MAX) {
-    quit_remove_thr_ = true;
-    remove_cond_.Notify();
+    {
+      MutexGuard guard(remove_mtx_);
+      quit_remove_thr_ = true;
+      remove_cond_.Notify();
+    }
 
     remove_thr_.Join();
   }
@@ -87,11 +93,16 @@ void LogFile<T>::Append(char const *data, size_t num) KANON_NOEXCEPT
     auto last_file = std::move(log_files_.back());
     log_files_.pop_back();
 
-    log_files_dup_.swap(log_files_);
-    log_files_.emplace_back(std::move(last_file));
+    {
+      KANON_MUTEX_GUARD(remove_mtx_);
+      for (auto &log_file : log_files_) {
+        log_files_dup_.emplace_back(std::move(log_file));
+      }
+      remove_cond_.Notify();
+    }
 
-    KANON_MUTEX_GUARD(remove_mtx_);
-    remove_cond_.Notify();
+    log_files_.clear();
+    log_files_.emplace_back(std::move(last_file));
   }
 }
 
diff --git a/kanon/log/log_file.h b/kanon/log/log_file.h
index bbea378..33f6c08 100644
--- a/kanon/log/log_file.h
+++ b/kanon/log/log_file.h
@@ -83,8 +83,8 @@ class LogFile : noncopyable {
   std::vector<std::string> log_files_;
   std::vector<std::string> log_files_dup_;
   Thread remove_thr_;
+  MutexLock remove_mtx_; //!< Protect log_files_dup_ and quit_remove_thr_
   Condition remove_cond_;
-  MutexLock remove_mtx_;
   bool quit_remove_thr_;
 
   static constexpr uint32_t kRollPerSeconds_ = 24 * 60 * 60; // or 86400
-- 
2.43.0


From f28f403ed62cf6c34c2fdc207534ff1d3ee45326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 09/43] fix: AsyncLog writes what was appended after the last
 swap before it stops

---
 kanon/log/async_log.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/kanon/log/async_log.cc b/kanon/log/async_log.cc
index 89e1e0f..8c3f997 100644
--- a/kanon/log/async_log.cc
+++ b/kanon/log/async_log.cc
@@ -140,6 +140,20 @@ void AsyncLog::StartRun()
       output.Flush();
     }
 
+    // Front threads may have appended since the last swap
+    {
+      MutexGuard guard{mutex_};
+      buffers_.emplace_back(std::move(current_buffer_));
+      buffers_dup_.swap(buffers_);
+      current_buffer_ = std::move(buffer1);
+    }
+
+    for (auto &buffer : buffers_dup_) {
+      output.Append(buffer->data(), buffer->len());
+    }
+
+    buffers_dup_.clear();
+
     // Flush output buffer(the last)
     output.Flush();
   });
-- 
2.43.0


From 68a9da4afacebcb6f18de020510714b472c8e2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 10/43] fix: AppendFile counts partially written data and
 creates a usable directory

---
 kanon/log/append_file.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kanon/log/append_file.cc b/kanon/log/append_file.cc
index 81300ee..0b272ce 100644
--- a/kanon/log/append_file.cc
+++ b/kanon/log/append_file.cc
@@ -29,7 +29,7 @@ AppendFile::AppendFile(StringArg filename)
     auto ret = 0;
 
 #ifdef KANON_ON_UNIX
-    ret = ::mkdir(dir.data(), S_IRUSR);
+    ret = ::mkdir(dir.data(), S_IRWXU);
 #elif defined(KANON_ON_WIN)
     ret = ::_mkdir(dir.data());
 #else
@@ -61,15 +61,14 @@ void AppendFile::_Append(char const *data, size_t num) KANON_NOEXCEPT
   do {
     size_t left = num - written;
     auto n = write(data + written, left);
+    written += n;
 
     if (n != left) {
-      auto err = ferror(fp_);
-      if (err)
+      auto err = errno;
+      if (ferror(fp_))
         fprintf(stderr, "AppendFile::Append() failed %s\n", strerror_tl(err));
       break;
     }
-
-    written += n;
   } while (written != num);
 
   writtenBytes_ += written;
-- 
2.43.0


From c1e3e1d625b3ce043579ac1adb717a0fa69acf24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 11/43] fix: strerror_tl returns the message of both strerror_r
 variants

---
 kanon/log/logger.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index 89b7b74..922e2af 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -86,16 +86,31 @@ Logger::FlushCallback Logger::flush_callback_ = &DefaultFlush;
 KANON_TLS char t_errorBuf[ERRNO_BUFFER_SIZE];
 KANON_TLS char t_lastErrorBuf[ERRNO_BUFFER_SIZE];
 
+#ifdef KANON_ON_UNIX
+// There are two strerror_r(): the XSI one fills the buffer, the GNU one
+// returns the message and may not touch the buffer
+static KANON_INLINE char const *StrerrorMsg(int, char const *buf)
+{
+  return buf;
+}
+
+static KANON_INLINE char const *StrerrorMsg(char const *msg, char const *)
+{
+  return msg;
+}
+#endif
+
 // tl = thread local
 char const *strerror_tl(int savedErrno)
 {
 #ifdef KANON_ON_UNIX
-  auto ret = ::strerror_r(savedErrno, t_errorBuf, ERRNO_BUFFER_SIZE);
+  return StrerrorMsg(::strerror_r(savedErrno, t_errorBuf, ERRNO_BUFFER_SIZE),
+                     t_errorBuf);
 #else
   auto ret = ::strerror_s(t_errorBuf, ERRNO_BUFFER_SIZE, savedErrno);
-#endif
   KANON_UNUSED(ret);
   return t_errorBuf;
+#endif
 }
 
 #ifdef KANON_ON_WIN
-- 
2.43.0


From 2cbeafc830f717b6be74723a999345f5e42dfb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:55 +0000
Subject: [PATCH 12/43] fix: logging leaves errno alone and never prints an
 uninitialised buffer

---
 kanon/log/logger.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kanon/log/logger.cc b/kanon/log/logger.cc
index 922e2af..a56bad4 100644
--- a/kanon/log/logger.cc
+++ b/kanon/log/logger.cc
@@ -128,6 +128,7 @@ Logger::Logger(SourceFile file, size_t line, LogLevel level)
   , cur_log_level_(level)
   , line_(line)
 {
+  auto savedErrno = errno;
   FormatTime();
   CurrentThread::tid();
   stream_ << StringView(CurrentThread::t_tidString,
@@ -144,6 +145,7 @@ Logger::Logger(SourceFile file, size_t line, LogLevel level)
   } else {
     stream_ << "[" << s_log_level_names_[level] << "] ";
   }
+  errno = savedErrno;
 }
 
 Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
@@ -152,6 +154,7 @@ Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
   // dummy parameter
   KANON_UNUSED(is_sys);
   char error_buf[4096];
+  error_buf[0] = '\0';
 #ifdef KANON_ON_UNIX
   auto savedErrno = errno;
   if (savedErrno) {
@@ -171,6 +174,7 @@ Logger::Logger(SourceFile basefile, size_t line, LogLevel level, bool is_sys)
 
 Logger::~Logger() KANON_NOEXCEPT
 {
+  auto savedErrno = errno;
   stream_ << " - " << basename_ << ":" << line_ << "\n";
   output_callback_(stream_.data(), stream_.size());
 
@@ -179,6 +183,7 @@ Logger::~Logger() KANON_NOEXCEPT
     flush_callback_();
     abort();
   }
+  errno = savedErrno;
 }
 
 void Logger::FormatTime() KANON_NOEXCEPT
-- 
2.43.0


From 5ea534b522b15b43041e9ab9d75e8ce2e5cd6f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:32 +0000
Subject: [PATCH 13/43] fix: ChunkListWriteFd reports write errors, limits each
 writev and stops after a short write

---
 kanon/linux/net/chunk_list.cc | 46 +++++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/kanon/linux/net/chunk_list.cc b/kanon/linux/net/chunk_list.cc
index f8ef9f2..1d30936 100644
--- a/kanon/linux/net/chunk_list.cc
+++ b/kanon/linux/net/chunk_list.cc
@@ -1,6 +1,10 @@
 #include "kanon/net/chunk_list.h"
 
+#include <errno.h>
 #include <sys/uio.h>
+
+#include <algorithm>
+
 #include "kanon/algo/fixed_vector.h"
 #include "kanon/net/sock_api.h"
 
@@ -12,42 +16,48 @@ static constexpr unsigned IOVEC_MAX = IOV_MAX;
 static constexpr unsigned IOVEC_MAX = 1024;
 #endif
 
-static size_t RoundUpDivideIn2(size_t x, size_t y) KANON_NOEXCEPT
-{
-  return (x == 0) ? 0 : ((x - 1) / y + 1);
-}
-
 ChunkList::SizeType kanon::ChunkListWriteFd(ChunkList &buffer, FdType fd,
                                             int &saved_errno) KANON_NOEXCEPT
 {
   if (buffer.GetChunkSize() == 1) {
     auto first_chunk = buffer.GetFirstChunk();
-    return (ChunkList::SizeType)sock::Write(
-        fd, buffer.GetFirstChunk()->GetReadBegin(),
-        first_chunk->GetReadableSize());
+    auto n = sock::Write(fd, first_chunk->GetReadBegin(),
+                         first_chunk->GetReadableSize());
+    if (n < 0) {
+      saved_errno = errno;
+      return 0;
+    }
+    return (ChunkList::SizeType)n;
   }
 
-  FixedVector<struct iovec> iovecs(buffer.GetChunkSize());
+  FixedVector<struct iovec> iovecs(
+      std::min<size_t>(buffer.GetChunkSize(), IOVEC_MAX));
   auto first_chunk = buffer.begin();
-  auto cnt = RoundUpDivideIn2(buffer.GetChunkSize(), IOVEC_MAX);
+  size_t remaining_chunks = buffer.GetChunkSize();
 
   ChunkList::SizeType ret = 0;
 
-  while (cnt--) {
-    for (auto &x : iovecs) {
-      x.iov_base = first_chunk->GetReadBegin();
-      x.iov_len = first_chunk->GetReadableSize();
+  while (remaining_chunks > 0) {
+    const size_t iov_num = std::min(remaining_chunks, iovecs.size());
+    size_t total = 0;
+    for (size_t i = 0; i < iov_num; ++i) {
+      iovecs[i].iov_base = first_chunk->GetReadBegin();
+      iovecs[i].iov_len = first_chunk->GetReadableSize();
+      total += iovecs[i].iov_len;
       ++first_chunk;
     }
 
-    auto n = ::writev(fd, iovecs.data(), (int)iovecs.size());
+    auto n = ::writev(fd, iovecs.data(), (int)iov_num);
 
-    if (n >= 0) {
-      ret += (ChunkList::SizeType)n;
-    } else {
+    if (n < 0) {
       saved_errno = errno;
       break;
     }
+
+    ret += (ChunkList::SizeType)n;
+    // Short write, the following chunks can't be written before the rest
+    if ((size_t)n < total) break;
+    remaining_chunks -= iov_num;
   }
 
   return ret;
-- 
2.43.0


From bf0568177e21f0a089119602487e1436f307bd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 14/43] fix: ChunkList appends another list at its end and
 counts partially filled chunks

---
 kanon/buffer/chunk_list.cc | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/kanon/buffer/chunk_list.cc b/kanon/buffer/chunk_list.cc
index 29fce37..10b2274 100644
--- a/kanon/buffer/chunk_list.cc
+++ b/kanon/buffer/chunk_list.cc
@@ -48,6 +48,8 @@ void ChunkList::Append(void const *data, size_t len)
 {
   auto buf = reinterpret_cast<char const *>(data);
 
+  if (len == 0) return;
+
   /* Allow user append data even though the size header
    * has prepended. */
 
@@ -125,30 +127,13 @@ buffers_.size() > 0.
 
 auto ChunkList::GetReadableSize() const KANON_NOEXCEPT->SizeType
 {
-  if (IsEmpty()) {
-    return 0;
-  } else {
-    auto first_chunk = buffers_.begin();
-    if (buffers_.size() == 1) {
-      return first_chunk->GetReadableSize();
-    } else if (buffers_.size() == 2) {
-      return first_chunk->GetReadableSize() +
-             first_chunk.next()->GetReadableSize();
-    }
-
-    auto last_chunk = buffers_.before_end();
-    // return first_chunk->GetMaxSize() != 4096
-    //            ? first_chunk->GetReadableSize() +
-    //                  first_chunk.next()->GetReadableSize() +
-    //                  (GetChunkSize() - 3) * CHUNK_SIZE +
-    //                  last_chunk->GetReadableSize()
-    //            : first_chunk->GetReadableSize() +
-    //                  (GetChunkSize() - 2) * CHUNK_SIZE +
-    //                  last_chunk->GetReadableSize();
-    return first_chunk->GetReadableSize() +
-           first_chunk.next()->GetReadableSize() +
-           (GetChunkSize() - 3) * CHUNK_SIZE + last_chunk->GetReadableSize();
+  // Chunks in the middle aren't always full since the content of other list
+  // can be appended (AppendChunkList())
+  SizeType size = 0;
+  for (auto const &chunk : buffers_) {
+    size += chunk.GetReadableSize();
   }
+  return size;
 }
 
 bool ChunkList::PutToFreeChunk() KANON_NOEXCEPT
@@ -216,7 +201,7 @@ auto ChunkList::ReserveWriteSpace(size_t size) -> void
     size -= buffer.GetWritableSize();
   }
 
-  assert(size >= 1);
+  if (size == 0) return;
   const auto chunk_size = ((size - 1) >> 12) + 1;
   ReserveFreeChunk(chunk_size);
 }
@@ -232,7 +217,7 @@ auto ChunkList::GetFreeChunk() KANON_NOEXCEPT->ListType::Iterator
 
 auto ChunkList::AppendChunkList(ChunkList *rhs) -> void
 {
-  buffers_.splice_after(buffers_.end(), rhs->buffers_);
+  buffers_.splice_after(buffers_.before_end(), rhs->buffers_);
 }
 
 auto ChunkList::DebugPrint() -> void
-- 
2.43.0


From 91c3be76c8530be0446705ce8f1a7aaad7bace12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:12 +0000
Subject: [PATCH 15/43] fix: connections queue what the socket does not take
 and never send new data before pending data

---
 .../linux/net/connection/connection_base.inl  | 128 ++++++++++--------
 1 file changed, 74 insertions(+), 54 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 0435bc0..71abf60 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -60,36 +60,40 @@ void ConnectionBase<D>::SendInLoopForBuf(InputBuffer &buffer)
     int saved_errno = 0;
     auto n = ChunkListWriteFd(output_buffer_, channel_->GetFd(), saved_errno);
 
+    LOG_TRACE_KANON << "Write length = " << n;
+    output_buffer_.AdvanceRead(n);
+
     if (saved_errno && saved_errno != EAGAIN) {
       LOG_SYSERROR_KANON << "write unexpected error occurred";
+      output_buffer_.AdvanceReadAll();
+      return;
     }
 
-    if (n > 0) {
-      LOG_TRACE_KANON << "Write length = " << n;
-      output_buffer_.AdvanceRead(n);
-      if (output_buffer_.HasReadable()) {
+    if (output_buffer_.HasReadable()) {
 #ifdef PRINT_REMAIN
-        LOG_TRACE_KANON << "Remaining length = "
-                        << output_buffer_.GetReadableSize();
+      LOG_TRACE_KANON << "Remaining length = "
+                      << output_buffer_.GetReadableSize();
 #endif
 
-        if (output_buffer_.GetReadableSize() >= high_water_mark_ &&
-            high_water_mark_callback_)
-        {
-          loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                       this->shared_from_this(),
-                                       output_buffer_.GetReadableSize()));
-        }
+      if (output_buffer_.GetReadableSize() >= high_water_mark_ &&
+          high_water_mark_callback_)
+      {
+        loop_->QueueToLoop(std::bind(high_water_mark_callback_,
+                                     this->shared_from_this(),
+                                     output_buffer_.GetReadableSize()));
+      }
+
+      if (!channel_->IsWriting()) {
         channel_->EnableWriting();
-      } else {
-        if (write_complete_callback_) {
-          loop_->QueueToLoop(
-              std::bind(write_complete_callback_, this->shared_from_this()));
-        }
+      }
+    } else {
+      if (write_complete_callback_) {
+        loop_->QueueToLoop(
+            std::bind(write_complete_callback_, this->shared_from_this()));
+      }
 
-        if (channel_->IsWriting()) {
-          channel_->DisableWriting();
-        }
+      if (channel_->IsWriting()) {
+        channel_->DisableWriting();
       }
     }
   } else {
@@ -111,45 +115,58 @@ void ConnectionBase<D>::SendInLoopForChunkList(OutputBuffer &buffer)
   //     "The Send() for ChunkList must be called when output_buffer_ is
   //     empty");
 
-  int saved_errno = 0;
-  auto write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
-
-  if (saved_errno && saved_errno != EAGAIN) {
-    LOG_SYSERROR_KANON << "write unexpected error occurred";
+  if (state_ != kConnected) {
+    LOG_WARN_KANON << "This connection[" << name_
+                   << "] is not connected, don't send any message";
+    return;
   }
 
-  if (write_n > 0) {
+  // The contents of output_buffer_ must be sent before
+  if (!output_buffer_.HasReadable()) {
+    int saved_errno = 0;
+    auto write_n = ChunkListWriteFd(buffer, channel_->GetFd(), saved_errno);
+
     LOG_DEBUG_KANON << "Write " << write_n << " bytes";
     buffer.AdvanceRead(write_n);
 
-    if (buffer.HasReadable()) {
-      if (high_water_mark_callback_ &&
-          buffer.GetReadableSize() > high_water_mark_)
-      {
-        loop_->QueueToLoop(std::bind(high_water_mark_callback_,
-                                     this->shared_from_this(),
-                                     high_water_mark_));
-      }
+    if (saved_errno && saved_errno != EAGAIN) {
+      LOG_SYSERROR_KANON << "write unexpected error occurred";
+      buffer.AdvanceReadAll();
+      return;
+    }
+  }
 
-#if 1
-      if (output_buffer_.HasReadable()) {
-        output_buffer_.AppendChunkList(&buffer);
-      } else {
-        output_buffer_.swap(buffer);
-      }
-#else
-      output_buffer_.swap(buffer);
-#endif
+  if (buffer.HasReadable()) {
+    const size_t readable_len = output_buffer_.GetReadableSize();
+    const size_t remaining = buffer.GetReadableSize();
+
+    if (high_water_mark_callback_ &&
+        readable_len + remaining >= high_water_mark_ &&
+        readable_len < high_water_mark_)
+    {
+      loop_->QueueToLoop(std::bind(high_water_mark_callback_,
+                                   this->shared_from_this(),
+                                   readable_len + remaining));
+    }
+
+    if (output_buffer_.HasReadable()) {
+      output_buffer_.AppendChunkList(&buffer);
     } else {
-      LOG_DEBUG_KANON << "Write complete";
-      if (write_complete_callback_) {
-        loop_->QueueToLoop(std::bind(&ConnectionBase::CallWriteCompleteCallback,
-                                     this->shared_from_this()));
-      }
+      output_buffer_.swap(buffer);
+    }
 
-      if (channel_->IsWriting()) {
-        channel_->DisableWriting();
-      }
+    if (!channel_->IsWriting()) {
+      channel_->EnableWriting();
+    }
+  } else if (!output_buffer_.HasReadable()) {
+    LOG_DEBUG_KANON << "Write complete";
+    if (write_complete_callback_) {
+      loop_->QueueToLoop(std::bind(&ConnectionBase::CallWriteCompleteCallback,
+                                   this->shared_from_this()));
+    }
+
+    if (channel_->IsWriting()) {
+      channel_->DisableWriting();
     }
   }
 }
@@ -257,9 +274,12 @@ void ConnectionBase<D>::SendInLoop(void const *data, size_t len)
         return;
       }
     } else {
-      if (errno != EAGAIN) // EWOULDBLOCK
+      if (errno != EAGAIN) { // EWOULDBLOCK
         LOG_SYSERROR_KANON << "write unexpected error occurred";
-      return;
+        return;
+      }
+      // Nothing is written, store entire message
+      n = 0;
     }
   }
 
-- 
2.43.0


From 5a927ca42c84d09a138dea8193e75de48edb4f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:41 +0000
Subject: [PATCH 16/43] fix: a graceful shutdown drains queued and pending
 output first and is always carried out

---
 kanon/net/connection/connection_base.cc | 41 +++++++++++++------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 103e481..7e87fa2 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -254,7 +254,7 @@ void ConnectionBase<D>::HandleLtWrite()
       // need write(channel_->IsWriting()) to kernel space, delay the shutdown()
       // to here
       if (state_ == kDisconnecting) {
-        ShutdownWrite();
+        socket_->ShutdownWrite();
       }
     }
   }
@@ -266,7 +266,8 @@ void ConnectionBase<D>::CallWriteCompleteCallback()
   if (write_complete_callback_(this->shared_from_this())) {
     LOG_TRACE_KANON << "Last chunk in the pipeline write";
     // The write_complete_callback_ maybe disable writing in the SendInLoop()
-    if (channel_->IsWriting()) {
+    // If there is pending message, HandleWrite() will disable writing
+    if (channel_->IsWriting() && !output_buffer_.HasReadable()) {
       channel_->DisableWriting();
     }
   } else {
@@ -291,19 +292,18 @@ void ConnectionBase<D>::HandleEtWrite()
     auto writen =
         ChunkListWriteFd(output_buffer_, channel_->GetFd(), saved_errno);
 
-    if (saved_errno) {
-      if (saved_errno != EAGAIN) {
-        LOG_SYSERROR_KANON << "Write event handle error";
-        HandleError();
-      }
-    }
-
     LOG_TRACE_KANON << "Write " << writen << " bytes to [Connection: " << name_
                     << ", fd: " << channel_->GetFd() << "]";
 
     output_buffer_.AdvanceRead(writen);
 
-    if (!output_buffer_.HasReadable() && saved_errno == EAGAIN) {
+    if (saved_errno && saved_errno != EAGAIN) {
+      errno = saved_errno;
+      LOG_SYSERROR_KANON << "Write event handle error";
+      HandleError();
+    }
+
+    if (saved_errno || writen == 0 || !output_buffer_.HasReadable()) {
       break;
     }
   }
@@ -369,15 +369,18 @@ template <typename D>
 void ConnectionBase<D>::ShutdownWrite() KANON_NOEXCEPT
 {
   if (state_ == kConnected) {
-    state_ = kDisconnecting;
-
-    // Pass raw pointer is safe.
-    loop_->RunInLoop([this]() {
-      // If channel is writing state, we need write all message to
-      // the buffer in kernel space, in case peer half-close can
-      // also receive message
-      if (!channel_->IsWriting() || loop_->IsEdgeTriggerMode()) {
-        socket_->ShutdownWrite();
+    // The state is changed in the loop, then the messages sent before this
+    // call(maybe queued in the loop) aren't discarded.
+    const auto self = this->shared_from_this();
+    loop_->RunInLoop([self]() {
+      if (self->state_ != kConnected) return;
+      self->state_ = kDisconnecting;
+
+      // If there are messages in the output buffer, we need write all message
+      // to the buffer in kernel space, in case peer half-close can also receive
+      // message. HandleWrite() shutdown after the last one.
+      if (!self->output_buffer_.HasReadable()) {
+        self->socket_->ShutdownWrite();
       }
     });
   }
-- 
2.43.0


From 6132a49147e99bbe337809b30dc3b81ff8bd1d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:12 +0000
Subject: [PATCH 17/43] fix: an edge triggered read stops at an error and after
 the connection is closed

---
 kanon/net/connection/connection_base.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 7e87fa2..ce062c0 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -160,11 +160,11 @@ void ConnectionBase<D>::HandleEtRead(TimeStamp recv_time)
 
     if (saved_errno != 0) {
       if (saved_errno != EAGAIN) {
+        errno = saved_errno;
         LOG_SYSERROR_KANON << "Read event handle error";
         HandleError();
-      } else {
-        break;
       }
+      break;
     }
 
     LOG_DEBUG_KANON << "Read " << readn << " bytes from [Connection: " << name_
@@ -184,6 +184,11 @@ void ConnectionBase<D>::HandleEtRead(TimeStamp recv_time)
       LOG_WARN_KANON << "If user want to process message from peer, should set "
                         "proper message_callback_";
     }
+
+    // The connection may be closed in the message_callback_
+    if (state_ == kDisconnected) {
+      break;
+    }
   }
 }
 
-- 
2.43.0


From 18de278aee5b8a08aa24c31572d93b50d721645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:33 +0000
Subject: [PATCH 18/43] fix: a connection is taken down once whatever asks for
 it, and its state changes on its loop only

---
 kanon/linux/net/connection/connection_base.inl |  4 ++--
 kanon/net/connection/connection_base.cc        | 11 ++++++-----
 kanon/net/connection/connection_base.h         |  4 +++-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/kanon/linux/net/connection/connection_base.inl b/kanon/linux/net/connection/connection_base.inl
index 71abf60..3a2bdfe 100644
--- a/kanon/linux/net/connection/connection_base.inl
+++ b/kanon/linux/net/connection/connection_base.inl
@@ -22,9 +22,9 @@ void ConnectionBase<D>::HandleWrite()
   // 1. HandleClose() call DisableAll()
   // 2. ConnectionDestoryed() is called when connection is active
   //    (e.g. TcpServer desctroyed)
+  // 3. The message_callback_ of the same event handling write completely
   if (!channel_->IsWriting()) {
-    assert(state_ == kDisconnected);
-    LOG_TRACE_KANON << "This Connection: " << name_ << " is down";
+    LOG_TRACE_KANON << "This Connection: " << name_ << " isn't writing";
     return;
   }
 
diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index ce062c0..8405b53 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -77,7 +77,7 @@ void ConnectionBase<D>::ConnectionDestroyed()
                   << " destoryed";
   // This may be called by TcpServer dtor or close_callback_(see TcpServer)
   // if close_callback_ has be called, just remove channel;
-  if (state_ == kConnected) {
+  if (state_ == kConnected || state_ == kDisconnecting) {
     channel_->DisableAll();
     state_ = kDisconnected;
 
@@ -349,7 +349,10 @@ void ConnectionBase<D>::HandleClose()
   loop_->AssertInThread();
   // Connected ==> read event handling
   // Disconnecting ==> call ForceClose()
-  assert(state_ == kConnected || state_ == kDisconnecting);
+  // The connection may be closed by other cause already
+  if (state_ != kConnected && state_ != kDisconnecting) {
+    return;
+  }
   state_ = kDisconnected;
 
   LOG_DEBUG_KANON << "The connection [" << name_ << "] is disconnected";
@@ -398,8 +401,6 @@ void ConnectionBase<D>::ForceClose() KANON_NOEXCEPT
   // disconnected,
   // ForceClose() do nothing.
   if (state_ == kConnected || state_ == kDisconnecting) {
-    state_ = kDisconnecting;
-
     loop_->RunInLoop(
         std::bind(&ConnectionBase<D>::HandleClose, this->shared_from_this()));
   }
@@ -511,7 +512,7 @@ void ConnectionBase<D>::EnableRead()
 template <typename D>
 char const *ConnectionBase<D>::State2String() const KANON_NOEXCEPT
 {
-  switch (state_) {
+  switch (state_.load()) {
     case kConnecting:
       return "Connecting";
     case kConnected:
diff --git a/kanon/net/connection/connection_base.h b/kanon/net/connection/connection_base.h
index e25cac7..0c85f66 100644
--- a/kanon/net/connection/connection_base.h
+++ b/kanon/net/connection/connection_base.h
@@ -1,6 +1,7 @@
 #ifndef KANON_NET_CONNECTION_BASE_H
 #define KANON_NET_CONNECTION_BASE_H
 
+#include <atomic>
 #include <memory>
 
 #include "kanon/util/noncopyable.h"
@@ -302,7 +303,8 @@ class ConnectionBase
    * about a specific connnection(So, it named context)
    */
   RawAny context_;
-  State state_; //!< Internal useage
+  // Changed in the loop only but is read by other threads also
+  std::atomic<State> state_; //!< Internal useage
 
 #ifdef KANON_ON_WIN
  public:
-- 
2.43.0


From 766bbd0e8e97a206e13f2f3d47cabdf347e03806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 19/43] fix: destroy a closed connection whose client is gone
 already

---
 kanon/net/tcp_client.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index 89a5e61..b0c6338 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -176,6 +176,10 @@ void TcpClient::CloseConnectionHandler(std::weak_ptr<TcpClient> const &wp_cli,
 {
   auto cli = wp_cli.lock();
   if (!cli) {
+    // The client has been destroyed, but the channel must also be removed
+    conn->GetLoop()->QueueToLoop([conn]() {
+      conn->ConnectionDestroyed();
+    });
     return;
   }
 
-- 
2.43.0


From 4cc1959718e9bee08508a9310bd984c4f430c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 20/43] fix: a loop that quits runs the functors queued by then

---
 kanon/net/event_loop.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index fdbd520..c592fa0 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -173,6 +173,10 @@ void EventLoop::StartLoop()
     activeChannels.clear();
   }
 
+  // Run the functors that were queued before Quit() was called, the tear down
+  // of connections is among them
+  CallFunctors();
+
   LOG_TRACE_KANON << "EventLoop " << this << " loop stop";
 
   looping_ = false;
@@ -236,10 +240,6 @@ void EventLoop::RemoveChannel(Channel *ch) { poller_->RemoveChannel(ch); }
 
 void EventLoop::CallFunctors()
 {
-  if (quit_) {
-    return;
-  }
-
   decltype(functors_) functors;
   {
     MutexGuard dummy{lock_};
-- 
2.43.0


From 857445820d528f0d968906f3b2ca942764484467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 21/43] fix: Poller watches a channel again that had no
 interest and tells an interrupted poll by errno

---
 kanon/linux/net/poller.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/kanon/linux/net/poller.cc b/kanon/linux/net/poller.cc
index 721fd45..5463f96 100644
--- a/kanon/linux/net/poller.cc
+++ b/kanon/linux/net/poller.cc
@@ -26,6 +26,7 @@ TimeStamp Poller::Poll(int ms, ChannelVec &active_channels) KANON_NOEXCEPT
 
   auto ret = ::poll(pollfds_.data(), static_cast<nfds_t>(pollfds_.size()), ms);
 
+  int saved_errno = errno;
   TimeStamp now{TimeStamp::Now()};
 
   if (ret > 0) {
@@ -54,7 +55,9 @@ TimeStamp Poller::Poll(int ms, ChannelVec &active_channels) KANON_NOEXCEPT
   } else if (ret == 0) {
     LOG_TRACE_KANON << "none events are ready";
   } else {
-    if (ret != EINTR) {
+    // use saved_errno to avoid misunderstand error
+    if (saved_errno != EINTR) {
+      errno = saved_errno;
       LOG_SYSERROR_KANON << "Poll() error occurred";
     }
   }
@@ -94,11 +97,10 @@ void Poller::UpdateChannel(Channel *ch)
     assert(index != -1 && index <= static_cast<int>(pollfds_.size()));
     auto &now_pollfd = pollfds_[index];
 
-    assert(now_pollfd.fd == ch->GetFd());
+    assert(now_pollfd.fd == ch->GetFd() || now_pollfd.fd == -ch->GetFd() - 1);
 
-    if (ch->IsNoneEvent()) {
-      now_pollfd.fd = -now_pollfd.fd - 1;
-    }
+    // poll() ignores negative fd
+    now_pollfd.fd = ch->IsNoneEvent() ? -ch->GetFd() - 1 : ch->GetFd();
 
     now_pollfd.events = static_cast<short>(ch->GetEvents());
     now_pollfd.revents = 0;
@@ -114,7 +116,7 @@ void Poller::RemoveChannel(Channel *ch)
   if (it != channels_map_.end()) {
     auto channel = it->second;
 
-    if (channel->GetFd() == pollfds_.back().fd) {
+    if (channel->GetIndex() == static_cast<int>(pollfds_.size()) - 1) {
       // ch is the last pollfd
       // just pop back
       pollfds_.pop_back();
@@ -149,6 +151,8 @@ void Poller::RemoveChannel(Channel *ch)
     }
 
     channels_map_.erase(it);
+    // then we can add it again
+    ch->SetIndex(-1);
   }
 }
 
-- 
2.43.0


From 50bc06c08f6ed4716c113f1f837f127659e6f2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 22/43] fix: EventLoop and TimerQueue close their event and
 timer descriptors

---
 kanon/linux/net/timer/timer_queue.cc | 3 +++
 kanon/net/event_loop.cc              | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 8bd68c6..56dd0c6 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -128,6 +128,9 @@ TimerQueue::~TimerQueue() KANON_NOEXCEPT
   for (auto &timer_seq : timers_) {
     delete timer_seq.first;
   }
+
+  // Channel does not own its fd
+  ::close(timer_channel_->GetFd());
 }
 
 TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
diff --git a/kanon/net/event_loop.cc b/kanon/net/event_loop.cc
index c592fa0..398e8c6 100644
--- a/kanon/net/event_loop.cc
+++ b/kanon/net/event_loop.cc
@@ -148,6 +148,11 @@ EventLoop::~EventLoop()
   //     BUT! The assertion will make effect at first, and the exception
   //     information is messing.
   // assert(!looping_);
+
+#ifdef KANON_ON_UNIX
+  // Channel does not own its fd
+  ::close(ev_channel_->GetFd());
+#endif
 }
 
 void EventLoop::StartLoop()
-- 
2.43.0


From 526a56c70be596623c7d96d6c0184132cff15d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 23/43] fix: timers are freed once and cancelling never touches
 a timer that is gone

---
 kanon/linux/net/timer/timer_queue.cc | 47 ++++++++++++++++++----------
 kanon/linux/net/timer/timer_queue.h  | 22 +++++--------
 kanon/net/timer/timer_id.h           |  6 ++--
 3 files changed, 40 insertions(+), 35 deletions(-)

diff --git a/kanon/linux/net/timer/timer_queue.cc b/kanon/linux/net/timer/timer_queue.cc
index 56dd0c6..d1e5e4a 100644
--- a/kanon/linux/net/timer/timer_queue.cc
+++ b/kanon/linux/net/timer/timer_queue.cc
@@ -137,6 +137,10 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
                              double interval)
 {
   Timer *timer = new Timer(std::move(cb), time, interval);
+  // If this is not the loop thread, the timer may have been expired and
+  // deleted when RunInLoop() returns
+  const TimerId id(timer);
+
   loop_->RunInLoop([this, timer]() {
     loop_->AssertInThread();
 
@@ -147,7 +151,7 @@ TimerId TimerQueue::AddTimer(Timer::TimerCallback cb, TimeStamp time,
     }
   });
 
-  return timer;
+  return id;
 }
 
 void TimerQueue::CancelTimer(TimerId id)
@@ -157,14 +161,18 @@ void TimerQueue::CancelTimer(TimerId id)
   loop_->RunInLoop([this, id]() {
     loop_->AssertInThread();
 
-    const auto active_timer_iter = timers_.find({id.timer_, id.seq_});
+    // The timer may have been deleted, don't dereference id.timer_
+    const auto active_timer_iter = active_timers_.find(id.seq_);
 
-    if (timers_.end() != active_timer_iter) {
-      timers_.erase(active_timer_iter);
+    if (active_timers_.end() != active_timer_iter) {
+      Timer *timer = active_timer_iter->second;
+      timers_.erase({timer, id.seq_});
+      active_timers_.erase(active_timer_iter);
+      delete timer;
     } else if (calling_timer_) {
-      // Self-cancel
+      // Self-cancel, or cancel of a timer that expired together
       // \see ProcessAllExpiredTimers()
-      canceling_timers_.emplace(id.timer_, id.seq_);
+      canceling_timers_.emplace(id.seq_);
     }
   });
 }
@@ -181,6 +189,7 @@ bool TimerQueue::Emplace(Timer *timer)
   }
 
   timers_.emplace(timer, timer->sequence());
+  active_timers_.emplace(timer->sequence(), timer);
   LOG_TRACE_KANON << "Now total timer count = " << timers_.size();
   return ret;
 }
@@ -210,6 +219,9 @@ void TimerQueue::ProcessAllExpiredTimers(TimeStamp recv_time)
   calling_timer_ = true;
 
   for (auto const &timer : expired_timers) {
+    // Canceled by the callback of a timer that expired together
+    if (canceling_timers_.count(timer->sequence())) continue;
+
     try {
       timer->run();
     }
@@ -226,8 +238,8 @@ void TimerQueue::ProcessAllExpiredTimers(TimeStamp recv_time)
     }
   }
 
-  calling_timer_ = false;
   ResetTimers(expired_timers, now);
+  calling_timer_ = false;
 }
 
 auto TimerQueue::GetExpiredTimers(TimeStamp time) -> TimerVector
@@ -254,6 +266,9 @@ auto TimerQueue::GetExpiredTimers(TimeStamp time) -> TimerVector
                    return x.first;
                  });
 
+  for (auto const &timer : expireds) {
+    active_timers_.erase(timer->sequence());
+  }
   timers_.erase(timers_.begin(), expired_end);
   LOG_DEBUG_KANON << "Expired time =  " << time.ToFormattedString(true);
   LOG_DEBUG_KANON << "Expired timer count = " << expireds.size();
@@ -266,16 +281,14 @@ void TimerQueue::ResetTimers(TimerVector &expireds, TimeStamp now)
   Timer *next_expire{nullptr};
 
   for (auto &timer : expireds) {
-    if (timer->repeat()) {
-      // If timer is repeat, we should restart it
-      // but if it in such case as self-cancel,
-      // we shouldn't restart it and do nothing.
-      if (canceling_timers_.find({timer, timer->sequence()}) ==
-          canceling_timers_.end())
-      {
-        timer->restart(now);
-        Emplace(timer);
-      }
+    // If timer is repeat, we should restart it
+    // but if it in such case as self-cancel,
+    // we shouldn't restart it.
+    if (timer->repeat() && canceling_timers_.find(timer->sequence()) ==
+                               canceling_timers_.end())
+    {
+      timer->restart(now);
+      Emplace(timer);
     } else {
       delete timer;
     }
diff --git a/kanon/linux/net/timer/timer_queue.h b/kanon/linux/net/timer/timer_queue.h
index 909db52..933099e 100644
--- a/kanon/linux/net/timer/timer_queue.h
+++ b/kanon/linux/net/timer/timer_queue.h
@@ -4,13 +4,12 @@
 #include "kanon/net/timer/itimer_queue_platform.h"
 
 #include <set>
+#include <unordered_map>
 #include <unordered_set>
 #include "kanon/util/ptr.h"
 #include "kanon/util/time_stamp.h"
 #include "kanon/net/channel.h"
 
-#include <third-party/xxHash/xxhash.h>
-
 namespace kanon {
 
 class TimerQueue : public ITimerQueuePlatform {
@@ -135,8 +134,8 @@ class TimerQueue : public ITimerQueuePlatform {
    *  timer the expired timestamp will updated when timer
    *  is expired. so, the timestamp becomes invalid)
    *
-   * ActiveTimer is a pair of <uint64_t, Timer*> intead of
-   * a single Timer* The uint64_t object is the timer id.
+   * The key is the sequence(i.e. the timer id) instead of
+   * a single Timer*.
    * Because two difference timer object maybe have same
    * address, I can't use Timer* to identify timer in
    * active_timers_.
@@ -160,7 +159,8 @@ class TimerQueue : public ITimerQueuePlatform {
    *  more exact, but we need provide a predicate like
    *  std::pair<> to sort it, thus, just reuse std::pair<> :D)
    */
-  // std::set<ActiveTimer> active_timers_; //!< Detect a timer if is active
+  std::unordered_map<uint64_t, Timer *>
+      active_timers_; //!< Sequence -> timer of all the timers in timers_
 
   /**
    * Self-cancel indicates user cancel a timer in
@@ -178,16 +178,8 @@ class TimerQueue : public ITimerQueuePlatform {
    * The all timers are not reset, and before the next phase of
    * calling callback will be cleared.
    */
-  struct TimerEntryHash {
-    KANON_INLINE uint64_t operator()(TimerEntry const &x) const KANON_NOEXCEPT
-    {
-      return XXH64(&x.first, sizeof x.first, time(NULL)) ^
-             (XXH64(&x.second, sizeof x.second, time(NULL)) << 1);
-    }
-  };
-
-  std::unordered_set<TimerEntry, TimerEntryHash>
-      canceling_timers_; //!< Store the self-cancel timer to avoid reset
+  std::unordered_set<uint64_t>
+      canceling_timers_; //!< Sequence of the timers canceled by a callback
 };
 } // namespace kanon
 
diff --git a/kanon/net/timer/timer_id.h b/kanon/net/timer/timer_id.h
index 083557e..a070870 100644
--- a/kanon/net/timer/timer_id.h
+++ b/kanon/net/timer/timer_id.h
@@ -36,9 +36,9 @@ class KANON_NET_NO_API TimerId {
   KANON_INLINE ~TimerId() = default;
 
  private:
-  Timer *timer_;
-  uint64_t seq_;
-  void *ctx_;
+  Timer *timer_ = nullptr;
+  uint64_t seq_ = UINT64_MAX; // no timer has it
+  void *ctx_ = nullptr;
 };
 
 //!@}
-- 
2.43.0


From 20f3cc949271f821d095c2aff2b6eac16bd31ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 24/43] fix: work a connector defers keeps it or its old
 channel alive

---
 kanon/linux/net/connector.cc |  2 +-
 kanon/net/connector.cc       | 20 +++++++++++++-------
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/kanon/linux/net/connector.cc b/kanon/linux/net/connector.cc
index cab1787..5635b4b 100644
--- a/kanon/linux/net/connector.cc
+++ b/kanon/linux/net/connector.cc
@@ -77,12 +77,12 @@ void Connector::CompleteConnect(FdType sockfd)
   channel_ = kanon::make_unique<Channel>(loop_, sockfd);
 
   channel_->SetWriteCallback([this]() {
-    FdType sockfd = channel_->GetFd();
     // NOTICE:
     // OUT maybe occurs with ERR(and HUP).
     // Therefore, the error callback is called before this,
     // use state to distinguish them.
     if (state_ == State::kConnecting) {
+      FdType sockfd = channel_->GetFd();
       ResetChannel();
       int err = sock::GetSocketError(sockfd);
 
diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index 4d5a919..35afba2 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -30,7 +30,8 @@ Connector::~Connector() KANON_NOEXCEPT
 
 void Connector::StartRun()
 {
-  loop_->RunInLoop([this]() {
+  auto self = shared_from_this();
+  loop_->RunInLoop([this, self]() {
     loop_->AssertInThread();
 
     assert(state_ == kDisconnected);
@@ -75,7 +76,8 @@ void Connector::StopInLoop()
 
 void Connector::Restrat()
 {
-  loop_->RunInLoop([this]() {
+  auto self = shared_from_this();
+  loop_->RunInLoop([this, self]() {
     connect_ = true;
 
     /*
@@ -107,9 +109,10 @@ void Connector::Retry(FdType sockfd)
     LOG_TRACE_KANON << "Client will reconnect to " << serv_addr_.ToIpPort()
                     << " after " << delay_sec << " seconds";
 
+    auto self = shared_from_this();
     timer_ = loop_->RunAfter(
-        [this]() {
-          StartRun();
+        [self]() {
+          self->StartRun();
         },
         delay_sec);
 
@@ -128,8 +131,11 @@ void Connector::ResetChannel()
 
   // \warning
   // In event handle phase now if called in phase2
-  // So, you can't call it immediately
-  loop_->QueueToLoop([this]() {
-    channel_.reset();
+  // So, you can't call it immediately.
+  // The connector may be destroyed or connect again before the functor runs,
+  // so the functor owns the old channel.
+  std::shared_ptr<Channel> channel(std::move(channel_));
+  loop_->QueueToLoop([channel]() {
+    KANON_UNUSED(channel);
   });
 }
-- 
2.43.0


From ce1a8507f7149b8f13380b6f64cde345517926bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 25/43] fix: the retry interval of a connector stays at its
 maximum

---
 kanon/net/connector.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/net/connector.cc b/kanon/net/connector.cc
index 35afba2..7bc947a 100644
--- a/kanon/net/connector.cc
+++ b/kanon/net/connector.cc
@@ -116,7 +116,7 @@ void Connector::Retry(FdType sockfd)
         },
         delay_sec);
 
-    retry_interval_ *= 2;
+    retry_interval_ = std::min<uint32_t>(retry_interval_ * 2, MAX_RETRY_INTERVAL);
   }
 }
 
-- 
2.43.0


From df5f406ff2e502c1fa5bf330095ec1a609217f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 26/43] fix: a connected socket nobody takes over is closed

---
 kanon/linux/net/connector.cc | 1 +
 kanon/net/tcp_client.cc      | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/kanon/linux/net/connector.cc b/kanon/linux/net/connector.cc
index 5635b4b..10e8d41 100644
--- a/kanon/linux/net/connector.cc
+++ b/kanon/linux/net/connector.cc
@@ -116,6 +116,7 @@ void Connector::CompleteConnect(FdType sockfd)
           else {
             LOG_WARN_KANON << "There is no new connection callback, cannot to create "
                         "connection";
+            sock::Close(sockfd);
           }
           LOG_TRACE_KANON << "Connection is established successfully";
         } else {
diff --git a/kanon/net/tcp_client.cc b/kanon/net/tcp_client.cc
index b0c6338..9b42d1c 100644
--- a/kanon/net/tcp_client.cc
+++ b/kanon/net/tcp_client.cc
@@ -110,7 +110,11 @@ void TcpClient::NewConnection(FdType sockfd, InetAddr const &serv_addr,
   /* Avoid reference cycle */
   auto cli = wcli.lock();
 
-  if (!cli || cli->conn_) return;
+  if (!cli || cli->conn_) {
+    // There is nobody to take the socket over
+    sock::Close(sockfd);
+    return;
+  }
 
   LOG_DEBUG_KANON << "cli sc = " << cli.use_count();
 
-- 
2.43.0


From 9e54543ffe11c9ce0c23c6f21d44f3663ee61e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 27/43] fix: a transient accept failure does not end the
 process

---
 kanon/linux/net/sock_api.cc | 21 ++++++++++++++++-----
 kanon/net/acceptor.cc       |  4 ++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/kanon/linux/net/sock_api.cc b/kanon/linux/net/sock_api.cc
index 5fe07b3..06a7edd 100644
--- a/kanon/linux/net/sock_api.cc
+++ b/kanon/linux/net/sock_api.cc
@@ -53,16 +53,27 @@ FdType sock::Accept(FdType fd, sockaddr_in6 *addr) KANON_NOEXCEPT
       case EINTR:
       case EMFILE: // per-process limit on the number of open fd has been
                    // reached
+      case ENFILE: // system-wide limit
+      case ENOBUFS:
+      case ENOMEM:
+      // Firewall rules forbid connection
+      case EPERM:
+      // Already-pending network errors on the new socket
+      // \see man 2 accept
+      case ENETDOWN:
+      case EPROTO:
+      case ENOPROTOOPT:
+      case EHOSTDOWN:
+      case ENONET:
+      case EHOSTUNREACH:
+      case EOPNOTSUPP:
+      case ENETUNREACH:
+      case ETIMEDOUT:
         LOG_SYSERROR_KANON << "accept() expected error occurred";
         break;
       case EFAULT:
       case EINVAL:
-      case ENFILE:
       case ENOTSOCK:
-      case EOPNOTSUPP:
-      case EPROTO:
-      case ENOBUFS:
-      case ENOMEM:
         LOG_SYSFATAL << "accept() unexpected error occurred";
         break;
       default:
diff --git a/kanon/net/acceptor.cc b/kanon/net/acceptor.cc
index 7aa0192..2409647 100644
--- a/kanon/net/acceptor.cc
+++ b/kanon/net/acceptor.cc
@@ -42,12 +42,12 @@ Acceptor::Acceptor(EventLoop *loop, InetAddr const &addr, bool reuseport)
       // since we take level trigger policy,
       // so it will cause busy loop
       // so we should use dummy fd to accept and close it
-      if (errno == EMFILE) {
+      if (errno == EMFILE || errno == ENFILE) {
 // first close dummy fd, leave a space for fd in wait queue
 #ifdef KANON_ON_UNIX
         ::close(dummyfd_);
         // accept the fd
-        dummyfd_ = ::accept(socket_.GetFd(), NULL, NULL);
+        dummyfd_ = ::accept4(socket_.GetFd(), NULL, NULL, SOCK_CLOEXEC);
         ::close(dummyfd_);
         // create new dummy fd to use after
         dummyfd_ = ::open("/dev/null", O_RDONLY | O_CLOEXEC);
-- 
2.43.0


From 506c52e3005ba252e35fd595d4cfedd17cbc1c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:03 +0000
Subject: [PATCH 28/43] fix: EventLoopPool stays within the loops it has
 started

---
 kanon/net/event_loop_pool.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/net/event_loop_pool.cc b/kanon/net/event_loop_pool.cc
index 3a1db11..f7e025f 100644
--- a/kanon/net/event_loop_pool.cc
+++ b/kanon/net/event_loop_pool.cc
@@ -51,7 +51,7 @@ EventLoop *EventLoopPool::GetNextLoop()
   if (!loop_threads_.empty()) {
     loop = loop_threads_[next_]->GetLoop();
     ++next_;
-    if (next_ >= loop_num_) {
+    if (next_ >= static_cast<int>(loop_threads_.size())) {
       next_ = 0;
     }
 
-- 
2.43.0


From 85c99ae0b69def44af8814fa138b04b13ed8d016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:28 +0000
Subject: [PATCH 29/43] fix: TcpServer starts once and is torn down without
 racing with its loops

---
 kanon/net/tcp_server.cc | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/kanon/net/tcp_server.cc b/kanon/net/tcp_server.cc
index 3a2cc4a..6b9f410 100644
--- a/kanon/net/tcp_server.cc
+++ b/kanon/net/tcp_server.cc
@@ -132,7 +132,6 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
           io_loop->AssertInThread();
 
           size_t n = 0;
-          KANON_UNUSED(n);
           {
             MutexGuard guard(lock_conn_);
             n = connections_.erase(conn->GetName());
@@ -140,7 +139,8 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
                             << connections_.size();
           }
 
-          assert(n == 1);
+          // It is destroyed by the destructor of server
+          if (n == 0) return;
 
           // !Must call QueueToLoop() here,
           // we can't destroy the channel_ in the handling events phase,
@@ -171,8 +171,14 @@ TcpServer::TcpServer(EventLoop *loop, InetAddr const &listen_addr,
 
 TcpServer::~TcpServer() KANON_NOEXCEPT
 {
-  //
-  for (auto &conn_pair : connections_) {
+  // The loops of pool may be closing connections now
+  ConnectionMap connections;
+  {
+    MutexGuard guard(lock_conn_);
+    connections.swap(connections_);
+  }
+
+  for (auto &conn_pair : connections) {
     auto conn = conn_pair.second;
     conn_pair.second.reset();
 
@@ -181,6 +187,9 @@ TcpServer::~TcpServer() KANON_NOEXCEPT
       conn->ConnectionDestroyed();
     });
   }
+
+  // The connections use the other members until their loops have quited
+  pool_.reset();
 }
 
 void TcpServer::SetLoopNum(int num) KANON_NOEXCEPT { pool_->SetLoopNum(num); }
@@ -195,6 +204,9 @@ void TcpServer::StartRun() KANON_NOEXCEPT
   if (!start_once_) {
     // start IO loop
     loop_->RunInLoop([this]() {
+      // An other call may have been queued, too
+      if (start_once_.exchange(true)) return;
+
       // Boot the loop pool in the binded loop
       // to avoid block the thread that call StartRun()
       // e.g.
@@ -212,7 +224,6 @@ void TcpServer::StartRun() KANON_NOEXCEPT
       pool_->StartRun(init_cb_);
       LOG_INFO_KANON << name_ << " is listening in " << ip_port_;
       acceptor_->Listen();
-      start_once_ = true;
     });
   }
 }
-- 
2.43.0


From 4494dabd82c9155e3db13076a4150f71f7cad1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 30/43] fix: log files are opened close-on-exec

---
 kanon/log/append_file.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/kanon/log/append_file.cc b/kanon/log/append_file.cc
index 0b272ce..ccdafec 100644
--- a/kanon/log/append_file.cc
+++ b/kanon/log/append_file.cc
@@ -11,12 +11,19 @@
 
 #include "kanon/log/logger.h"
 
+// Don't leak the log file to the programs executed by this process
+#ifdef KANON_ON_UNIX
+#define OPEN_MODE "ae"
+#else
+#define OPEN_MODE "a"
+#endif
+
 namespace kanon {
 
 AppendFile::AppendFile(StringArg filename)
   : writtenBytes_(0)
 {
-  while (!(fp_ = ::fopen(filename.data(), "a"))) {
+  while (!(fp_ = ::fopen(filename.data(), OPEN_MODE))) {
     if (errno != ENOENT) {
       ::fprintf(stderr, "Failed to open file: %s\n", filename.data());
       ::fflush(stderr);
-- 
2.43.0


From 839bcc8be89ed8bce82602327426db3f8a0f7c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:39 +0000
Subject: [PATCH 31/43] fix: Epoller delivers hang-up and error of a channel
 without interest

---
 kanon/linux/net/epoller.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kanon/linux/net/epoller.cc b/kanon/linux/net/epoller.cc
index 88f5c2b..c969278 100644
--- a/kanon/linux/net/epoller.cc
+++ b/kanon/linux/net/epoller.cc
@@ -85,8 +85,7 @@ void Epoller::FillActiveChannels(int ev_nums,
   for (int i = 0; i < ev_nums; ++i) {
     // we use the data.ptr so that no need to look up in channels_map_
     auto channel = reinterpret_cast<Channel *>(events_[i].data.ptr);
-    assert(!channel->IsNoneEvent());
-
+    // EPOLLHUP and EPOLLERR are reported even if no event is interested
     int fd = channel->GetFd();
     KANON_UNUSED(fd);
 
-- 
2.43.0


From cbd731485b861e7172d4e92f3d54ed0f3224c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:02 +0000
Subject: [PATCH 32/43] fix: pause and resume reading of a connection in the
 thread of its loop

---
 kanon/net/connection/connection_base.cc | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/kanon/net/connection/connection_base.cc b/kanon/net/connection/connection_base.cc
index 8405b53..1f0bb95 100644
--- a/kanon/net/connection/connection_base.cc
+++ b/kanon/net/connection/connection_base.cc
@@ -496,17 +496,25 @@ void ConnectionBase<D>::SendInLoop(StringView data)
 template <typename D>
 void ConnectionBase<D>::DisbaleRead()
 {
-  if (state_ == kConnected && channel_->IsReading()) {
-    channel_->DisableReading();
-  }
+  const auto self = this->shared_from_this();
+  // The channel can only be touched in the thread of loop
+  loop_->RunInLoop([self]() {
+    if (self->state_ == kConnected && self->channel_->IsReading()) {
+      self->channel_->DisableReading();
+    }
+  });
 }
 
 template <typename D>
 void ConnectionBase<D>::EnableRead()
 {
-  if (state_ == kConnected && !channel_->IsReading()) {
-    channel_->EnableReading();
-  }
+  const auto self = this->shared_from_this();
+  // The channel can only be touched in the thread of loop
+  loop_->RunInLoop([self]() {
+    if (self->state_ == kConnected && !self->channel_->IsReading()) {
+      self->channel_->EnableReading();
+    }
+  });
 }
 
 template <typename D>
-- 
2.43.0


From 83a4210d2ec326659ca6c5b15d79a0ce0294f8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 33/43] fix: a moved-from Thread doesn't own the thread any
 more, and move assignment gives up its own thread

---
 kanon/thread/thread.cc |  4 +++-
 kanon/thread/thread.h  | 10 ++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/kanon/thread/thread.cc b/kanon/thread/thread.cc
index 77c73b1..cb311b4 100644
--- a/kanon/thread/thread.cc
+++ b/kanon/thread/thread.cc
@@ -42,7 +42,9 @@ Thread::Thread(Threadfunc func, string const &name)
   SetDefaultName();
 }
 
-Thread::~Thread()
+Thread::~Thread() { DetachIfRunning(); }
+
+void Thread::DetachIfRunning() KANON_NOEXCEPT
 {
   if (is_started_ && !is_joined_) {
 #ifdef KANON_ON_UNIX
diff --git a/kanon/thread/thread.h b/kanon/thread/thread.h
index 1d83727..6a992d3 100644
--- a/kanon/thread/thread.h
+++ b/kanon/thread/thread.h
@@ -61,11 +61,17 @@ class Thread : noncopyable {
     , pthreadId_{rhs.pthreadId_}
     , name_{std::move(rhs.name_)}
   {
+    // Only this object joins or detaches the thread
     rhs.pthreadId_ = 0;
+    rhs.is_started_ = false;
+    rhs.is_joined_ = false;
   }
 
   Thread &operator=(Thread &&rhs) KANON_NOEXCEPT
   {
+    if (this == &rhs) return *this;
+
+    DetachIfRunning();
     func_ = std::move(rhs.func_);
     is_started_ = rhs.is_started_;
     is_joined_ = rhs.is_joined_;
@@ -74,6 +80,7 @@ class Thread : noncopyable {
 
     rhs.pthreadId_ = 0;
     rhs.is_started_ = false;
+    rhs.is_joined_ = false;
 
     return *this;
   }
@@ -89,6 +96,9 @@ class Thread : noncopyable {
  private:
   KANON_CORE_NO_API void SetDefaultName();
 
+  //! Give up a thread that was started but not joined
+  KANON_CORE_API void DetachIfRunning() KANON_NOEXCEPT;
+
   friend void *detail::Run(void *arg);
 
  private:
-- 
2.43.0


From 1ecdad0897db8da50a7bdd9f3fa8c20d7a6a86c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:10 +0000
Subject: [PATCH 34/43] fix: starting a loop thread returns even if its loop
 ends at once

---
 kanon/net/event_loop_thread.cc | 5 ++++-
 kanon/net/event_loop_thread.h  | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/kanon/net/event_loop_thread.cc b/kanon/net/event_loop_thread.cc
index b9a05c1..c2d6779 100644
--- a/kanon/net/event_loop_thread.cc
+++ b/kanon/net/event_loop_thread.cc
@@ -8,6 +8,7 @@ EventLoopThread::EventLoopThread(std::string const &name)
   : loop_{nullptr}
   , mutex_{}
   , cond_{mutex_}
+  , published_{false}
   , started_{false}
   , thr_{name}
 {
@@ -36,7 +37,8 @@ EventLoop *EventLoopThread::StartRun(ThreadInitCallback const &init_cb)
   started_ = true;
 
   MutexGuard guard{mutex_};
-  while (loop_ == nullptr) {
+  // The loop may quit and end before this thread wakes up
+  while (!published_) {
     cond_.Wait();
   }
 
@@ -51,6 +53,7 @@ void EventLoopThread::BackGroundStartLoop(ThreadInitCallback const &init_cb)
   {
     MutexGuard guard{mutex_};
     loop_ = &loop;
+    published_ = true;
     cond_.Notify();
   }
 
diff --git a/kanon/net/event_loop_thread.h b/kanon/net/event_loop_thread.h
index 61bd208..df5e325 100644
--- a/kanon/net/event_loop_thread.h
+++ b/kanon/net/event_loop_thread.h
@@ -31,6 +31,8 @@ class EventLoopThread : noncopyable {
    * \brief Start a new thread and start event loop
    * \note
    *   Must be called in main thread
+   * \return
+   *   The loop, or nullptr if it has already ended
    */
   KANON_INLINE EventLoop *StartRun() { return StartRun({}); }
 
@@ -56,6 +58,7 @@ class EventLoopThread : noncopyable {
   mutable MutexLock mutex_;
   Condition cond_ GUARDED_BY(mutex_);
 
+  bool published_; //!< Whether the loop has been created
   bool started_; //!< Whether there is a thread to join
   Thread thr_;
 };
-- 
2.43.0


From 71c966fda66ca869f6f89bd6ff292b86a85bdea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:12 +0000
Subject: [PATCH 35/43] fix: a Channel stands for one registered descriptor and
 must not be copyable

---
 kanon/linux/net/channel.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kanon/linux/net/channel.h b/kanon/linux/net/channel.h
index 02b2283..a26b2f1 100644
--- a/kanon/linux/net/channel.h
+++ b/kanon/linux/net/channel.h
@@ -38,7 +38,7 @@ class EventLoop;
  *
  * \warning Internal class
  */
-class Channel {
+class Channel : noncopyable {
   /**
    * Use enum class is not a better choice,
    * since it should be compatible with C API
-- 
2.43.0


From 098ef84451f6d299b044433efcdc4b9910f5dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:12 +0000
Subject: [PATCH 36/43] fix: a copied FixedVector freed its elements twice

---
 kanon/algo/fixed_vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/algo/fixed_vector.h b/kanon/algo/fixed_vector.h
index 73a9088..6272a8e 100644
--- a/kanon/algo/fixed_vector.h
+++ b/kanon/algo/fixed_vector.h
@@ -5,13 +5,14 @@
 #include <assert.h>
 
 #include "kanon/util/macro.h"
+#include "kanon/util/noncopyable.h"
 
 #include "construct.h"
 
 namespace kanon {
 
 template<typename T>
-class FixedVector {
+class FixedVector : noncopyable {
 public:
   explicit FixedVector(size_t size)
   : data_(nullptr)
-- 
2.43.0


From de175397cd957cd66b311c5d4c2a03a2f9887618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 37/43] fix: Buffer::Shrink cut off the prefix and left the
 indices beyond the storage

---
 kanon/buffer/buffer.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/kanon/buffer/buffer.cc b/kanon/buffer/buffer.cc
index 3d24d36..7d02419 100644
--- a/kanon/buffer/buffer.cc
+++ b/kanon/buffer/buffer.cc
@@ -19,9 +19,13 @@ void Buffer::Shrink(size_type n)
   // tmp.ReserveWriteSpace(GetReadableSize() + n);
   // tmp.Append(ToStringView());
   // swap(tmp);
-  if (read_index_ != BUFFER_PREFIX_SIZE) {
+  if (read_index_ > BUFFER_PREFIX_SIZE) {
+    auto readable = GetReadableSize();
+
     std::copy(offset(read_index_), offset(write_index_),
               offset(BUFFER_PREFIX_SIZE));
+    read_index_ = BUFFER_PREFIX_SIZE;
+    write_index_ = read_index_ + readable;
   }
 
 #ifndef NDEBUG
@@ -30,7 +34,7 @@ void Buffer::Shrink(size_type n)
   }
 #endif
 
-  data_.Shrink(GetReadableSize() + n);
+  data_.Shrink(write_index_ + n);
 }
 
 void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
-- 
2.43.0


From 28f025a927869f157ef525df8fe523ffbdab1ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 38/43] fix: appending after a prepend could move the data past
 the end of the buffer

---
 kanon/buffer/buffer.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/buffer/buffer.cc b/kanon/buffer/buffer.cc
index 7d02419..aa09f4d 100644
--- a/kanon/buffer/buffer.cc
+++ b/kanon/buffer/buffer.cc
@@ -56,7 +56,9 @@ void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
   // | | |                        |
   // +-+-+------------------------+
   //
-  if (len > GetPrependableSize() - BUFFER_PREFIX_SIZE + GetWritableSize()) {
+  //
+  // The prepend region may be smaller than the prefix, so don't subtract.
+  if (len + BUFFER_PREFIX_SIZE > GetPrependableSize() + GetWritableSize()) {
     // FIXME Need copy [readable region] to the BUFFER_PREFIX_SIZE?
 #if 0
     size_t at_least_size = write_index_ + len;
-- 
2.43.0


From a996fe552ef3c0f72abb89e456a6c8533cdb95b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:44 +0000
Subject: [PATCH 39/43] fix: peeking an integer of a Buffer didn't check that
 it is readable

---
 kanon/buffer/buffer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/buffer/buffer.h b/kanon/buffer/buffer.h
index fef9675..6781830 100644
--- a/kanon/buffer/buffer.h
+++ b/kanon/buffer/buffer.h
@@ -283,6 +283,7 @@ class Buffer {
   uint##size##_t GetReadBegin##size() const KANON_NOEXCEPT                     \
   {                                                                            \
     uint##size##_t i;                                                          \
+    assert(GetReadableSize() >= sizeof i);                                     \
     ::memcpy(&i, GetReadBegin(), sizeof i);                                    \
     return sock::ToHostByteOrder##size(i);                                     \
   }
@@ -295,6 +296,7 @@ class Buffer {
   uint8_t GetReadBegin8() const KANON_NOEXCEPT
   {
     uint8_t i;
+    assert(GetReadableSize() >= sizeof i);
     ::memcpy(&i, GetReadBegin(), sizeof i);
 
     return i;
-- 
2.43.0


From 2f7fc1ef52c805aa3f704f7f84fa0eef7bc7b689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:19 +0000
Subject: [PATCH 40/43] fix: integers that straddle two chunks of a ChunkList
 couldn't be read

---
 kanon/buffer/chunk_list.h | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/kanon/buffer/chunk_list.h b/kanon/buffer/chunk_list.h
index f19978b..bee0f8d 100644
--- a/kanon/buffer/chunk_list.h
+++ b/kanon/buffer/chunk_list.h
@@ -1,6 +1,8 @@
 #ifndef KANON_NET_CHUNK_LIST_H
 #define KANON_NET_CHUNK_LIST_H
 
+#include <algorithm>
+
 #include "kanon/util/macro.h"
 #include "kanon/string/string_view.h"
 #include "kanon/util/mem.h"
@@ -245,15 +247,16 @@ class ChunkList final {
 #define KANON_CHUNK_LIST_GET_READ_BEGIN_UINT(size)                             \
   uint##size##_t GetReadBegin##size() KANON_NOEXCEPT                           \
   {                                                                            \
-    assert(buffers_.front().GetReadableSize() >= sizeof(uint##size##_t));      \
-    return sock::ToHostByteOrder##size(                                        \
-        *reinterpret_cast<uint##size##_t *>(buffers_.front().GetReadBegin())); \
+    uint##size##_t ni;                                                         \
+    CopyReadable(&ni, sizeof ni);                                              \
+    return sock::ToHostByteOrder##size(ni);                                    \
   }
 
   uint8_t GetReadBegin8() KANON_NOEXCEPT
   {
-    assert(buffers_.front().GetReadableSize() >= sizeof(uint8_t));
-    return *reinterpret_cast<uint8_t *>(buffers_.front().GetReadBegin());
+    uint8_t i;
+    CopyReadable(&i, sizeof i);
+    return i;
   }
 
   KANON_CHUNK_LIST_GET_READ_BEGIN_UINT(16)
@@ -332,6 +335,20 @@ class ChunkList final {
   void DebugPrint();
 
  private:
+  //! Copy the first \p len readable bytes, which may be spread over chunks
+  void CopyReadable(void *dst, size_t len) const KANON_NOEXCEPT
+  {
+    assert(len <= GetReadableSize());
+    auto out = static_cast<char *>(dst);
+    for (auto const &chunk : buffers_) {
+      const size_t n = std::min<size_t>(len, chunk.GetReadableSize());
+      ::memcpy(out, chunk.GetReadBegin(), n);
+      out += n;
+      len -= n;
+      if (len == 0) return;
+    }
+  }
+
   bool PutToFreeChunk() KANON_NOEXCEPT;
   ListType::Iterator GetFreeChunk() KANON_NOEXCEPT;
 
-- 
2.43.0


From 2628a9ecc8097271a5696c8521e0ba8d8b2460b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:38 +0000
Subject: [PATCH 41/43] fix: Buffer::Shrink must not cut into the prefix

---
 kanon/buffer/buffer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kanon/buffer/buffer.cc b/kanon/buffer/buffer.cc
index aa09f4d..5a350df 100644
--- a/kanon/buffer/buffer.cc
+++ b/kanon/buffer/buffer.cc
@@ -34,7 +34,8 @@ void Buffer::Shrink(size_type n)
   }
 #endif
 
-  data_.Shrink(write_index_ + n);
+  // The prefix is always there, also if the read region lies in it
+  data_.Shrink(std::max<size_type>(write_index_, BUFFER_PREFIX_SIZE) + n);
 }
 
 void Buffer::ReserveWriteSpace(size_type len) KANON_NOEXCEPT
-- 
2.43.0


From 78186d336a8a2b69d487aa70f8d5e69b9dcb2c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:29 +0000
Subject: [PATCH 42/43] fix: check the space a pointer takes before writing it
 to a FixedBuffer

ptrToHexStr() always writes 16 digits, so "0x" and the terminator need 19
bytes, but appendPtr() only required 11 to be free.
---
 kanon/string/fixed_buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kanon/string/fixed_buffer.h b/kanon/string/fixed_buffer.h
index 105a06f..3cc543c 100644
--- a/kanon/string/fixed_buffer.h
+++ b/kanon/string/fixed_buffer.h
@@ -123,7 +123,7 @@ class FixedBuffer {
 
     if (!p && avali() > 6) {
       Append("(null)", 6);
-    } else if (avali() > 10) {
+    } else if (avali() > kMaxPtrSize) {
       cur[0] = '0';
       cur[1] = 'x';
 
@@ -164,6 +164,8 @@ class FixedBuffer {
  private:
   static constexpr unsigned kMaxIntSize = 32;
   static constexpr unsigned kMaxFloatingSize = 324;
+  // "0x" and at most 16 hexadecimal digits
+  static constexpr unsigned kMaxPtrSize = 18;
 
   char data_[SZ];
   unsigned len_;
-- 
2.43.0


From 74569bfc07c254e538e21edcca972c9040f16dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:29 +0000
Subject: [PATCH 43/43] fix: keep the length of a truncated Fmt inside its
 buffer

snprintf() returns the length of the whole output even if it was truncated,
so buf() and len() described more bytes than the buffer has.
---
 kanon/string/lexical_stream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kanon/string/lexical_stream.h b/kanon/string/lexical_stream.h
index fae952a..58d9e6c 100644
--- a/kanon/string/lexical_stream.h
+++ b/kanon/string/lexical_stream.h
@@ -176,6 +176,8 @@ class KANON_DEPRECATED_ATTR Fmt {
     auto ret = snprintf(buf_, sizeof buf_, str, val);
     if (ret < 0) throw std::runtime_error("Failed to call snprintf in Fmt");
     len_ = (size_type)ret;
+    // The output is truncated if it does not fit
+    if (len_ >= sizeof buf_) len_ = sizeof buf_ - 1;
   }
 
   explicit Fmt(std::string const &str)
-- 
2.43.0

