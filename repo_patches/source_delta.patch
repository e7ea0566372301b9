From de08546c2bdd4c22825680e50a2bce23ff1c3a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:39 +0000
Subject: [PATCH 01/24] fix: timed semaphore acquisition waits for the given
 timeout (it always expired immediately)

---
 EigenIPC/src/MemUtils.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 71f9722..ca1a15b 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -667,12 +667,24 @@ namespace EigenIPC{
             
             // blocking wait with timeout
 
-            clock_gettime(CLOCK_REALTIME, &timeout);
+            struct timespec deadline; // sem_timedwait wants an absolute time
+
+            clock_gettime(CLOCK_REALTIME, &deadline);
+
+            deadline.tv_sec += timeout.tv_sec;
+            deadline.tv_nsec += timeout.tv_nsec;
+
+            if (deadline.tv_nsec >= 1000000000L) {
+
+                deadline.tv_sec += 1;
+                deadline.tv_nsec -= 1000000000L;
+
+            }
 
             return_code = return_code + ReturnCode::SEMACQTRY;
 
             int result = sem_timedwait(sem,
-                                &timeout);
+                                &deadline);
 
             if (result == 0) {
 
-- 
2.43.0


From 591a8bae352c08352f0ccda6d10287f328eb4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:44 +0000
Subject: [PATCH 02/24] fix: report failed semaphore releases (the failure code
 was reset before being checked)

---
 EigenIPC/src/Client.cpp | 5 ++---
 EigenIPC/src/Server.cpp | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 4e777a5..76128e1 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -647,9 +647,6 @@ namespace EigenIPC {
                             verbose,
                             _vlevel);
 
-        _return_code = _return_code + ReturnCode::RESET;
-
-
         if (isin(ReturnCode::SEMRELFAIL, _return_code)) {
 
             MemUtils::failWithCode(_return_code,
@@ -658,6 +655,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index c47187e..25a062d 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -609,9 +609,6 @@ namespace EigenIPC {
                         verbose, // no verbosity (this is called very frequently)
                         _vlevel);
 
-        _return_code = _return_code + ReturnCode::RESET;
-
-
         if (isin(ReturnCode::SEMRELFAIL, _return_code)) {
 
             MemUtils::failWithCode(_return_code,
@@ -620,6 +617,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
-- 
2.43.0


From cf747780683f848b7bf7db175e521268f56d57ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:01 +0000
Subject: [PATCH 03/24] fix: fail when the data memory cannot be created, sized
 or mapped

---
 EigenIPC/src/Client.cpp | 37 +++++++++++++++++--------------------
 EigenIPC/src/Server.cpp | 39 ++++++++++++++++++---------------------
 2 files changed, 35 insertions(+), 41 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 76128e1..df65641 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -801,27 +801,22 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
-        if (!isin(ReturnCode::MEMCREATFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMSETFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMMAPFAIL,
-                 _return_code)) {
-
-            MemUtils::initMem<Scalar, Layout>(_n_rows,
-                            _n_cols,
-                            _mem_config.mem_path,
-                            _data_shm_fd,
-                            _tensor_view,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel);
-
-            _return_code = _return_code + ReturnCode::RESET;
+        MemUtils::initMem<Scalar, Layout>(_n_rows,
+                        _n_cols,
+                        _mem_config.mem_path,
+                        _data_shm_fd,
+                        _tensor_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
 
-        }
-        else {
+        if (isin(ReturnCode::MEMCREATFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMSETFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMMAPFAIL,
+                 _return_code)) {
 
             MemUtils::failWithCode(_return_code,
                                    _journal,
@@ -829,6 +824,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 25a062d..fbe70f1 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -854,28 +854,23 @@ namespace EigenIPC {
 
         _return_code = _return_code + ReturnCode::RESET;
 
-        if (!isin(ReturnCode::MEMCREATFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMSETFAIL,
-                _return_code) &&
-            !isin(ReturnCode::MEMMAPFAIL,
-                 _return_code)) {
-
-            MemUtils::initMem<Scalar, Layout>(
-                            _n_rows,
-                            _n_cols,
-                            _mem_config.mem_path,
-                            _data_shm_fd,
-                            _tensor_view,
-                            _journal,
-                            _return_code,
-                            _verbose,
-                            _vlevel);
-
-            _return_code = _return_code + ReturnCode::RESET;
+        MemUtils::initMem<Scalar, Layout>(
+                        _n_rows,
+                        _n_cols,
+                        _mem_config.mem_path,
+                        _data_shm_fd,
+                        _tensor_view,
+                        _journal,
+                        _return_code,
+                        _verbose,
+                        _vlevel);
 
-        }
-        else {
+        if (isin(ReturnCode::MEMCREATFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMSETFAIL,
+                _return_code) ||
+            isin(ReturnCode::MEMMAPFAIL,
+                 _return_code)) {
 
             MemUtils::failWithCode(_return_code,
                                    _journal,
@@ -883,6 +878,8 @@ namespace EigenIPC {
 
         }
 
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
-- 
2.43.0


From 9ec70903f3aeef9e89c8c7ab2cba172eaafc4459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:01 +0000
Subject: [PATCH 04/24] fix: fail when a semaphore cannot be opened or
 recreated

---
 EigenIPC/src/Client.cpp   | 11 +++++++++++
 EigenIPC/src/MemUtils.hpp | 10 ++++++++++
 EigenIPC/src/Server.cpp   | 11 +++++++++++
 3 files changed, 32 insertions(+)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index df65641..ed0300e 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -918,6 +918,7 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_initSems()
     {
+        _return_code = _return_code + ReturnCode::RESET;
 
         MemUtils::semInit(_mem_config.mem_path_data_sem,
                           _data_sem,
@@ -926,6 +927,16 @@ namespace EigenIPC {
                           _verbose,
                           _vlevel);
 
+        if (isin(ReturnCode::SEMOPENFAIL, _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index ca1a15b..70c0efc 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -858,6 +858,16 @@ namespace EigenIPC{
                         verbose,
                         vlevel);
 
+                    if (isin(ReturnCode::SEMOPENFAIL, return_code)) {
+
+                        // could not be recreated: nothing to acquire
+
+                        return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                        return;
+
+                    }
+
                     // recursive call. This will now work
                     acquireSemTimeout(sem_path,
                             sem,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index fbe70f1..3be4b8f 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -885,6 +885,7 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Server<Scalar, Layout>::_initSems()
     {
+        _return_code = _return_code + ReturnCode::RESET;
 
         MemUtils::semInit(_mem_config.mem_path_server_sem,
                           _srvr_sem,
@@ -900,6 +901,16 @@ namespace EigenIPC {
                           _verbose,
                           _vlevel);
 
+        if (isin(ReturnCode::SEMOPENFAIL, _return_code)) {
+
+            MemUtils::failWithCode(_return_code,
+                                   _journal,
+                                   __FUNCTION__);
+
+        }
+
+        _return_code = _return_code + ReturnCode::RESET;
+
     }
 
     template <typename Scalar, int Layout>
-- 
2.43.0


From fbff02f559fb1fcf1be162bd38c081d25ec213e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:43 +0000
Subject: [PATCH 05/24] fix: close each descriptor and semaphore handle exactly
 once, and never an unopened one

---
 EigenIPC/include/EigenIPC/Client.hpp | 16 ++++++++--------
 EigenIPC/include/EigenIPC/Server.hpp | 18 +++++++++---------
 EigenIPC/src/MemUtils.hpp            | 25 +++++++++++++------------
 EigenIPC/src/Server.cpp              |  8 ++++++++
 4 files changed, 38 insertions(+), 29 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index f869b82..7fe4d9c 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -120,13 +120,13 @@ namespace EigenIPC{
             int _n_rows = -1;
             int _n_cols = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1;
 
             static const int _mem_layout = Layout;
 
@@ -146,7 +146,7 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _data_sem = nullptr; // semaphore for safe data access
 
             ReturnCode _return_code = ReturnCode::NONE; // overwritten by all methods
             // this is to avoid dyn. allocation
diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 9b28538..0f6d432 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -123,13 +123,13 @@ namespace EigenIPC{
 
             int _n_clients = -1;
 
-            int _data_shm_fd; // shared memory file descriptor
-            int _nrows_shm_fd,
-                _ncols_shm_fd,
-                _n_clients_shm_fd,
-                _dtype_shm_fd,
-                _isrunning_shm_fd,
-                _mem_layout_shm_fd;
+            int _data_shm_fd = -1; // shared memory file descriptor
+            int _nrows_shm_fd = -1,
+                _ncols_shm_fd = -1,
+                _n_clients_shm_fd = -1,
+                _dtype_shm_fd = -1,
+                _isrunning_shm_fd = -1,
+                _mem_layout_shm_fd = -1;
 
             static const int _mem_layout = Layout;
 
@@ -144,8 +144,8 @@ namespace EigenIPC{
 
             SharedMemConfig _mem_config;
 
-            sem_t* _srvr_sem; // semaphore for servers uniqueness
-            sem_t* _data_sem; // semaphore for safe data access
+            sem_t* _srvr_sem = nullptr; // semaphore for servers uniqueness
+            sem_t* _data_sem = nullptr; // semaphore for safe data access
 
             Journal _journal; // for rt-friendly logging
 
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index 70c0efc..a437018 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -218,9 +218,14 @@ namespace EigenIPC{
                         bool unlink = false) {
 
             // Closing the file descriptor (for this process only)
-            ::close(shm_fd);
+            if (shm_fd != -1) {
+
+                ::close(shm_fd);
+
+                shm_fd = -1; // not to be closed twice
 
-            return_code = return_code + ReturnCode::MEMFDCLOSED;
+                return_code = return_code + ReturnCode::MEMFDCLOSED;
+            }
 
             if (verbose
                     && vlevel > VLevel::V2) {
@@ -307,15 +312,6 @@ namespace EigenIPC{
 
                 }
 
-                if (shm_fd != -1) {
-                    // Close the file descriptor opened for checking existence
-
-                    ::close(shm_fd);
-
-                    return_code = return_code + ReturnCode::MEMFDCLOSED;
-
-                }
-
             }
 
         }
@@ -526,7 +522,12 @@ namespace EigenIPC{
                          VLevel vlevel = Journal::VLevel::V0,
                          bool unlink = false) {
 
-            sem_close(sem); // closes semaphore for the current process
+            if (sem != nullptr) {
+
+                sem_close(sem); // closes semaphore for the current process
+
+                sem = nullptr; // not to be closed or used again
+            }
 
             return_code = return_code + ReturnCode::SEMCLOSE;
 
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 3be4b8f..502dab6 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -704,6 +704,14 @@ namespace EigenIPC {
                              _vlevel,
                              _unlink_data);
 
+        MemUtils::cleanUpMem(_mem_config.mem_path_isrunning,
+                             _isrunning_shm_fd,
+                             _journal,
+                             _return_code,
+                             _verbose,
+                             _vlevel,
+                             false); // clients may be waiting on it: not unlinked
+
         _return_code = _return_code + ReturnCode::RESET;
 
 
-- 
2.43.0


From 0be68f90afeae6f86a153da487ad8036f139cf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:43 +0000
Subject: [PATCH 06/24] fix: operations on a closed (or never attached)
 endpoint fail instead of using closed semaphores

---
 EigenIPC/src/MemUtils.hpp | 30 +++++++++++++++++++++++++++++-
 EigenIPC/src/Server.cpp   | 10 ++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index a437018..c3ba298 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -592,7 +592,8 @@ namespace EigenIPC{
             }
 
             // Release the semaphore
-            if (sem_post(sem) == -1) {
+            if (sem == nullptr || // not opened, or already closed
+                sem_post(sem) == -1) {
 
                 // Handle semaphore release error
 
@@ -633,6 +634,15 @@ namespace EigenIPC{
 
             return_code = return_code + ReturnCode::SEMACQTRY;
 
+            if (sem == nullptr) { // not opened, or already closed
+
+                return_code = return_code + ReturnCode::UNKNOWN;
+                return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                return -1;
+
+            }
+
             int result = sem_wait(sem);
 
             if (result == 0) {
@@ -668,6 +678,15 @@ namespace EigenIPC{
             
             // blocking wait with timeout
 
+            if (sem == nullptr) { // not opened, or already closed
+
+                return_code = return_code + ReturnCode::UNKNOWN;
+                return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                return -1;
+
+            }
+
             struct timespec deadline; // sem_timedwait wants an absolute time
 
             clock_gettime(CLOCK_REALTIME, &deadline);
@@ -723,6 +742,15 @@ namespace EigenIPC{
 
             // this is nonblocking --> one-shot acquisition 
 
+            if (sem == nullptr) { // not opened, or already closed
+
+                return_code = return_code + ReturnCode::UNKNOWN;
+                return_code = return_code + ReturnCode::SEMACQFAIL;
+
+                return -1;
+
+            }
+
             // try to acquire the semaphore
             int result = sem_trywait(sem);
 
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 502dab6..bbc8f7a 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -177,6 +177,16 @@ namespace EigenIPC {
     void Server<Scalar, Layout>::run()
     {
 
+        if (_terminated) {
+
+            _journal.log(__FUNCTION__,
+                std::string("Server at ") + _mem_config.mem_path +
+                    std::string(" was closed: it cannot be run again."),
+                LogType::EXCEP,
+                true); // throw exception
+
+        }
+
         if (!isRunning()) {
             
             _acquireSemTimeout(_mem_config.mem_path_server_sem,
-- 
2.43.0


From 19584785c1a187d4052461f9610d67a1673c8e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:55 +0000
Subject: [PATCH 07/24] fix: Server::run() after stop() does not release the
 data semaphore a second time

---
 EigenIPC/include/EigenIPC/Server.hpp |  3 +++
 EigenIPC/src/Server.cpp              | 13 ++++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 0f6d432..338cb8c 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -115,6 +115,9 @@ namespace EigenIPC{
 
             bool _force_reconnection = false;
 
+            bool _init_lock = false; // true while holding the data semaphore
+            // acquired at construction, i.e. until the first run()
+
             bool _data_acquired = false; // aux. variable,
             // preallocated for efficiency
 
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index bbc8f7a..312ebd9 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -108,6 +108,8 @@ namespace EigenIPC {
                         _data_sem,
                         _verbose); 
 
+        _init_lock = true;
+
         _return_code = _return_code + ReturnCode::RESET; // resets to None
 
         MemUtils::checkMem(_mem_config.mem_path,
@@ -195,9 +197,14 @@ namespace EigenIPC {
             // other servers trying to transition to running state will fail
             // due to the sever semaphore being acquired
 
-            _releaseSem(_mem_config.mem_path_data_sem,
-                        _data_sem,
-                        _verbose); // data can now be acquired by clients
+            if (_init_lock) { // not when running again after a stop()
+
+                _init_lock = false;
+
+                _releaseSem(_mem_config.mem_path_data_sem,
+                            _data_sem,
+                            _verbose); // data can now be acquired by clients
+            }
 
             // set the running flag to true
             _running = true;
-- 
2.43.0


From fd51d499e160f65265f986f287f0a6241e73f98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:59 +0000
Subject: [PATCH 08/24] fix: a second Server cannot take over the memory of a
 running one; a failed construction gives back the data semaphore

---
 EigenIPC/include/EigenIPC/Server.hpp |  4 ++
 EigenIPC/src/Server.cpp              | 76 ++++++++++++++++++++++++++++
 2 files changed, 80 insertions(+)

diff --git a/EigenIPC/include/EigenIPC/Server.hpp b/EigenIPC/include/EigenIPC/Server.hpp
index 338cb8c..5fc24b3 100644
--- a/EigenIPC/include/EigenIPC/Server.hpp
+++ b/EigenIPC/include/EigenIPC/Server.hpp
@@ -173,6 +173,10 @@ namespace EigenIPC{
 
             void _initSems();
 
+            void _abortInit();
+            void _closeMem(const std::string& mem_path,
+                        int& shm_fd);
+
             void _acquireSemTimeout(const std::string& sem_path,
                             sem_t*& sem,
                             bool verbose = false);
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 312ebd9..b5c2d13 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -102,6 +102,12 @@ namespace EigenIPC {
         _sem_timeout.tv_sec = 0;
         _sem_timeout.tv_nsec = timeoutInNanoseconds % 1000000000;
 
+        // if the initialization fails (i.e. throws), what was acquired is given back
+        struct InitGuard {
+            Server* server;
+            ~InitGuard() { if (server != nullptr) server->_abortInit(); }
+        } init_guard{this};
+
         _initSems(); // creates necessary semaphores
 
         _acquireSemTimeout(_mem_config.mem_path_data_sem,
@@ -110,6 +116,15 @@ namespace EigenIPC {
 
         _init_lock = true;
 
+        // a running server holds the server semaphore: its memory must not be touched
+        _acquireSemTimeout(_mem_config.mem_path_server_sem,
+                        _srvr_sem,
+                        _verbose);
+
+        _releaseSem(_mem_config.mem_path_server_sem,
+                        _srvr_sem,
+                        _verbose);
+
         _return_code = _return_code + ReturnCode::RESET; // resets to None
 
         MemUtils::checkMem(_mem_config.mem_path,
@@ -133,6 +148,8 @@ namespace EigenIPC {
                                             _n_cols); // used to hold
         // a copy of the shared tensor data
 
+        init_guard.server = nullptr; // initialized
+
         _terminated = false; // just in case
 
         if (_verbose &&
@@ -775,6 +792,65 @@ namespace EigenIPC {
 
     }
 
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_abortInit()
+    {
+        // gives back what was acquired by a failed initialization, without
+        // unlinking anything (it may belong to another server)
+
+        if (_init_lock) {
+
+            MemUtils::releaseSem(_mem_config.mem_path_data_sem,
+                                _data_sem,
+                                _journal,
+                                _return_code,
+                                _verbose,
+                                _vlevel);
+
+            _init_lock = false;
+
+        }
+
+        _closeMem(_mem_config.mem_path, _data_shm_fd);
+        _closeMem(_mem_config.mem_path_nrows, _nrows_shm_fd);
+        _closeMem(_mem_config.mem_path_ncols, _ncols_shm_fd);
+        _closeMem(_mem_config.mem_path_clients_counter, _n_clients_shm_fd);
+        _closeMem(_mem_config.mem_path_dtype, _dtype_shm_fd);
+        _closeMem(_mem_config.mem_path_isrunning, _isrunning_shm_fd);
+        _closeMem(_mem_config.mem_path_mem_layout, _mem_layout_shm_fd);
+
+        MemUtils::semClose(_mem_config.mem_path_server_sem,
+                           _srvr_sem,
+                           _journal,
+                           _return_code,
+                           _verbose,
+                           _vlevel,
+                           false);
+
+        MemUtils::semClose(_mem_config.mem_path_data_sem,
+                           _data_sem,
+                           _journal,
+                           _return_code,
+                           _verbose,
+                           _vlevel,
+                           false);
+
+    }
+
+    template <typename Scalar, int Layout>
+    void Server<Scalar, Layout>::_closeMem(const std::string& mem_path,
+                                    int& shm_fd)
+    {
+        MemUtils::cleanUpMem(mem_path,
+                             shm_fd,
+                             _journal,
+                             _return_code,
+                             _verbose,
+                             _vlevel,
+                             false); // not unlinking
+
+    }
+
     template <typename Scalar, int Layout>
     void Server<Scalar, Layout>::_initMetaMem()
     {
-- 
2.43.0


From 413fec8fc6b8b726cf76a26967118d764f619ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 09/24] fix: a failed Client::attach() gives back the data
 semaphore; attaching again neither recounts the client nor leaks handles

---
 EigenIPC/include/EigenIPC/Client.hpp |  2 ++
 EigenIPC/src/Client.cpp              | 34 +++++++++++++++++++++++++---
 EigenIPC/src/MemUtils.hpp            | 10 ++++++++
 3 files changed, 43 insertions(+), 3 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/Client.hpp b/EigenIPC/include/EigenIPC/Client.hpp
index 7fe4d9c..373924d 100644
--- a/EigenIPC/include/EigenIPC/Client.hpp
+++ b/EigenIPC/include/EigenIPC/Client.hpp
@@ -192,6 +192,8 @@ namespace EigenIPC{
             void _checkMemLayout(); // checks if mem. layout is
             // consistent with Server
 
+            void _abortAttach();
+
             void _initDataMem();
             void _initMetaMem();
 
diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index ed0300e..81adf37 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -106,6 +106,13 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::attach()
     {
+        if (_attached) {
+
+            return; // already counted by the server
+        }
+
+        _terminated = false; // what is opened here has to be cleaned up (again)
+
         if (_verbose &&
             _vlevel > VLevel::V1) {
 
@@ -128,13 +135,18 @@ namespace EigenIPC {
         // (at this point is actually guaranteed to be free anyway)
         _acquireData(true, true); // blocking
 
+        // if attaching fails (i.e. throws), the data semaphore is given back
+        struct AttachGuard {
+            Client* client;
+            ~AttachGuard() { if (client != nullptr) client->_abortAttach(); }
+        } attach_guard{this};
+
         _checkDType(); // checks data type consistency
 
         _checkMemLayout(); // checks memory layout consistency
 
         _n_rows = _n_rows_view(0, 0);
         _n_cols = _n_cols_view(0, 0);
-        _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
 
         // we have now all the info to create the shared tensor
         _initDataMem();
@@ -143,11 +155,15 @@ namespace EigenIPC {
                                             _n_cols); // used to hold
         // a copy of the shared tensor data
 
-        // releasing data semaphore so that other clients/the server can access the tensor
-        _releaseData();
+        _n_clients_view(0, 0) = _n_clients_view(0, 0) + 1; // increase clients counter
 
         _attached = true;
 
+        attach_guard.client = nullptr; // attached
+
+        // releasing data semaphore so that other clients/the server can access the tensor
+        _releaseData();
+
         if (_verbose &&
             _vlevel > VLevel::V1) {
 
@@ -161,6 +177,18 @@ namespace EigenIPC {
         }
     }
 
+    template <typename Scalar, int Layout>
+    void Client<Scalar, Layout>::_abortAttach()
+    {
+        MemUtils::releaseSem(_mem_config.mem_path_data_sem,
+                            _data_sem,
+                            _journal,
+                            _return_code,
+                            _verbose,
+                            _vlevel);
+
+    }
+
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::detach()
     {
diff --git a/EigenIPC/src/MemUtils.hpp b/EigenIPC/src/MemUtils.hpp
index c3ba298..3dcc6a7 100644
--- a/EigenIPC/src/MemUtils.hpp
+++ b/EigenIPC/src/MemUtils.hpp
@@ -109,6 +109,11 @@ namespace EigenIPC{
             // Determine the size based on the Scalar type
             std::size_t data_size = sizeof(Scalar) * n_rows * n_cols;
 
+            if (shm_fd != -1) {
+
+                ::close(shm_fd); // left over by a previous initialization
+            }
+
             // Create shared memory
             shm_fd = shm_open(mem_path.c_str(),
                               O_CREAT | O_RDWR,
@@ -473,6 +478,11 @@ namespace EigenIPC{
                     bool verbose = true,
                     VLevel vlevel = Journal::VLevel::V0) {
 
+            if (sem != nullptr) {
+
+                sem_close(sem); // left over by a previous initialization
+            }
+
             sem = sem_open(sem_path.c_str(),
                                   O_CREAT, S_IRUSR | S_IWUSR,
                                   1); // initial val to 1 -> binary semaphore
-- 
2.43.0


From 31eff57fa16ebeb54e5e343717e511e7a8ba7e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 10/24] fix: Client::attach() detects a data type mismatch also
 between types of the same size

---
 EigenIPC/src/Client.cpp | 10 ++++------
 EigenIPC/src/Server.cpp |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/EigenIPC/src/Client.cpp b/EigenIPC/src/Client.cpp
index 81adf37..463e9df 100644
--- a/EigenIPC/src/Client.cpp
+++ b/EigenIPC/src/Client.cpp
@@ -546,13 +546,11 @@ namespace EigenIPC {
     template <typename Scalar, int Layout>
     void Client<Scalar, Layout>::_checkDType()
     {
-        if (_dtype_view(0, 0) != sizeof(Scalar)) {
+        if (_dtype_view(0, 0) != static_cast<int>(getScalarType())) {
 
-            // not impeccable: different types may have in general different sizes
-
-            std::string error = std::string("Client initialized with element size of ") +
-                    std::to_string(sizeof(Scalar)) +
-                    std::string(", while the Server was initialized with size ") +
+            std::string error = std::string("Client initialized with data type ") +
+                    std::to_string(static_cast<int>(getScalarType())) +
+                    std::string(", while the Server was initialized with data type ") +
                     std::to_string(_dtype_view(0, 0));
 
             _journal.log(__FUNCTION__,
diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index b5c2d13..4cfd816 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -934,7 +934,7 @@ namespace EigenIPC {
 
             _mem_layout_view(0, 0) = _mem_layout; // mem layout
 
-            _dtype_view(0, 0) = sizeof(Scalar);
+            _dtype_view(0, 0) = static_cast<int>(getScalarType());
 
             _return_code = _return_code + ReturnCode::RESET;
 
-- 
2.43.0


From 31dfc583c1c9a343db2290e3394df8c274e1e113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:14 +0000
Subject: [PATCH 11/24] fix: blocks of negative size do not fit

---
 EigenIPC/include/EigenIPC/Helpers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/include/EigenIPC/Helpers.hpp b/EigenIPC/include/EigenIPC/Helpers.hpp
index fcef2f2..e172ede 100644
--- a/EigenIPC/include/EigenIPC/Helpers.hpp
+++ b/EigenIPC/include/EigenIPC/Helpers.hpp
@@ -63,7 +63,8 @@ namespace EigenIPC {
             }
 
             // Check if there's enough space for the submatrix
-            if (i + n_rows2fit > n_rows ||
+            if (n_rows2fit < 0 || n_cols2fit < 0 ||
+                i + n_rows2fit > n_rows ||
                 j + n_cols2fit > n_cols) {
 
                 if (verbose &&
-- 
2.43.0


From de6271649cbd50269040f76abbb060f8ee9707ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:31 +0000
Subject: [PATCH 12/24] fix: StringTensor rejects strings longer than a column
 and negative indexes instead of writing out of bounds

---
 EigenIPC/src/StringTensor.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index a7658a5..9c6d175 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -218,7 +218,8 @@ namespace EigenIPC {
 
         if (!isRunning() ||
             col_index < 0 ||
-            col_index >= _length) {
+            col_index >= _length ||
+            str.size() > _max_chars) { // would overflow its column
 
             return false;
         }
@@ -285,6 +286,14 @@ namespace EigenIPC {
 
         }
 
+        for (const auto& str : vec) {
+
+            if (str.size() > _max_chars) { // would overflow its column
+
+                return false;
+            }
+        }
+
         for (const auto& str : vec) { // for each string
 
             _encode_str(str, col_index);
@@ -371,7 +380,7 @@ namespace EigenIPC {
     bool StringTensor<ShMemType>::_fits(const std::vector<std::string>& vec,
                                        int index) {
 
-        if (index + vec.size() > _length) {
+        if (index < 0 || index + vec.size() > _length) {
 
             return false;
         }
-- 
2.43.0


From 77df85a0693a84af80c4fa853c582be3d1a65b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:31 +0000
Subject: [PATCH 13/24] fix: a closed StringTensor does not report to be
 running

---
 EigenIPC/src/StringTensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/EigenIPC/src/StringTensor.cpp b/EigenIPC/src/StringTensor.cpp
index 9c6d175..59134c3 100644
--- a/EigenIPC/src/StringTensor.cpp
+++ b/EigenIPC/src/StringTensor.cpp
@@ -265,6 +265,8 @@ namespace EigenIPC {
 
         _sh_mem.close();
 
+        _running = false;
+
     }
 
     template <typename ShMemType>
-- 
2.43.0


From 453b3838075be6fd1d180630b2a6d52aec26b9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:31 +0000
Subject: [PATCH 14/24] fix: Consumer::wait_and_ack() reports a failed pre_ack

---
 EigenIPC/src/Consumer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index dae8778..6ca6bfd 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -120,28 +120,28 @@ namespace EigenIPC {
     bool Consumer::wait_and_ack(std::function<bool()> pre_ack,
                     int ms_timeout) {
 
-        _fail_count = 0;
+        int fail_count = 0; // (_fail_count is reset by ack())
         
         if (!wait(ms_timeout)) {
 
-            _fail_count += 1;
+            fail_count += 1;
 
         } else {
 
             if (!pre_ack()) {
 
-                _fail_count += 1;
+                fail_count += 1;
             }
 
             if (!ack()) { 
 
-                _fail_count += 1;
+                fail_count += 1;
 
             }
 
         } 
 
-        return _fail_count == 0;
+        return fail_count == 0;
     }
 
     bool Consumer::ack() {
-- 
2.43.0


From 1ebf61a076ef5f8bb054006885446c56e7a01e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:51 +0000
Subject: [PATCH 15/24] fix: every return code has its own bit and its own
 description

---
 EigenIPC/include/EigenIPC/ReturnCodes.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/include/EigenIPC/ReturnCodes.hpp b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
index f35e7bb..1264b99 100644
--- a/EigenIPC/include/EigenIPC/ReturnCodes.hpp
+++ b/EigenIPC/include/EigenIPC/ReturnCodes.hpp
@@ -43,7 +43,7 @@ namespace EigenIPC {
         SEMACQ = 1ULL << 16, // semaphore acquired
         SEMACQFAIL = 1ULL << 17, // semaphore acquisition failed
         SEMACQTRY = 1ULL << 18, // trying semaphore acquisition
-        SEMACQRETRY = 1ULL << 18, // retrying semaphore acquisition
+        SEMACQRETRY = 1ULL << 28, // retrying semaphore acquisition
         SEMACQSIGINT = 1ULL << 19, // retrying semaphore acquisition
         SEMOPEN = 1ULL << 20, // semaphore opened
         SEMOPENFAIL = 1ULL << 21, // failed to open semaphore
@@ -84,12 +84,15 @@ namespace EigenIPC {
                 {ReturnCode::SEMACQFAIL, "SEMACQFAIL"},
                 {ReturnCode::SEMACQTRY, "SEMACQTRY"},
                 {ReturnCode::SEMACQRETRY, "SEMACQRETRY"},
+                {ReturnCode::SEMACQSIGINT, "SEMACQSIGINT"},
                 {ReturnCode::SEMOPEN, "SEMOPEN"},
                 {ReturnCode::SEMOPENFAIL, "SEMOPENFAIL"},
                 {ReturnCode::SEMREL, "SEMREL"},
                 {ReturnCode::SEMRELFAIL, "SEMRELFAIL"},
                 {ReturnCode::SEMCLOSE, "SEMCLOSE"},
                 {ReturnCode::SEMUNLINK, "SEMUNLINK"},
+                {ReturnCode::WRITEFAIL, "WRITEFAIL"},
+                {ReturnCode::READFAIL, "READFAIL"},
                 // ... other codes
                 {ReturnCode::OTHER, "OTHER"},
                 {ReturnCode::UNKNOWN, "UNKNOWN"},
@@ -157,7 +160,7 @@ namespace EigenIPC {
         bool first = true;
 
         // Iterate through each base code and check if it is present in the combinedCode
-        for (unsigned long long i = 0; i <= 62; ++i) {
+        for (unsigned long long i = 0; i <= 63; ++i) {
 
             ReturnCode baseCode = static_cast<ReturnCode>(1ULL << i);
 
-- 
2.43.0


From 1ba9e7ec9a4bd604a0eb50723b732d584ab077cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:51 +0000
Subject: [PATCH 16/24] fix: StringTensorServer.read_str() is bound to the
 server type

---
 EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
index 30d1431..dde35ce 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyStringTensor.cpp
@@ -94,7 +94,7 @@ void PyEigenIPC::PyStringTensor::declare_StringTensorServer(py::module &m) {
             &StringTensor<StrServer>::write,
             py::arg("to_write"), py::arg("index") = 0)
 
-        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrClient>& self, int index) {
+        .def("read_str", [](EigenIPC::StringTensor<EigenIPC::StrServer>& self, int index) {
             std::string result_str;
             bool success = self.read(result_str, index);
 
-- 
2.43.0


From 3da24cc09d4750eb74dcd98897c9cb8af4a71893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:51 +0000
Subject: [PATCH 17/24] fix: numpy arrays whose strides are not multiples of
 the element size are rejected

---
 .../bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp     | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
index 4e3c6f3..f64f780 100644
--- a/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
+++ b/EigenIPC/bindings/PyEigenIPC/src/PyEigenIPCUtils.hpp
@@ -50,6 +50,19 @@ namespace PyEigenIPC {
 
             } // we restrict ourselves to work with only 2D tensors
 
+            if (buf_info.strides[0] % buf_info.itemsize != 0 ||
+                    buf_info.strides[1] % buf_info.itemsize != 0) {
+
+                // elements are not at a whole number of elements from each other
+                // (e.g. a field of a structured array) -> cannot be viewed as a tensor
+
+                EigenIPC::Journal::log("PyEigenIPC::Utils",
+                            "CheckInputBuffer",
+                            "Expected strides to be multiples of the element size.",
+                            LogType::EXCEP);
+
+                return false;
+            }
 
             if ((Layout == EigenIPC::RowMajor) &&
                     (buf_info.strides[0] < buf_info.strides[1]) ) { // not coherent -> stop
-- 
2.43.0


From 40781908c71a8bec042319226882bbebe515cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:39 +0000
Subject: [PATCH 18/24] fix: Server::close() removes its data memory (it was
 left behind)

---
 EigenIPC/src/Server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/src/Server.cpp b/EigenIPC/src/Server.cpp
index 4cfd816..d618b71 100644
--- a/EigenIPC/src/Server.cpp
+++ b/EigenIPC/src/Server.cpp
@@ -765,7 +765,8 @@ namespace EigenIPC {
                                  _journal,
                                  _return_code,
                                  _verbose,
-                                 _vlevel);
+                                 _vlevel,
+                                 _unlink_data);
 
             _return_code = _return_code + ReturnCode::RESET;
 
-- 
2.43.0


From 74c0717846c8202232c0aad9e130a9f4c26a0f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:22 +0000
Subject: [PATCH 19/24] fix: Consumer::wait() fails when the trigger counter
 cannot be read (it used an uninitialised or stale value)

---
 EigenIPC/src/Consumer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/EigenIPC/src/Consumer.cpp b/EigenIPC/src/Consumer.cpp
index 6ca6bfd..22d4cff 100644
--- a/EigenIPC/src/Consumer.cpp
+++ b/EigenIPC/src/Consumer.cpp
@@ -206,8 +206,14 @@ namespace EigenIPC {
 
     bool Consumer::_check_trigger_received() {
 
-        _trigger_counter_clnt.read(_trigger_counter, 0, 0); // reads current value
-        // of trigger counter (only written by Producer)
+        // reads current value of trigger counter (only written by Producer)
+        if (!_trigger_counter_clnt.read(_trigger_counter, 0, 0)) {
+
+            _journal.log(__FUNCTION__+_unique_id,
+                "Could not read trigger counter!",
+                LogType::EXCEP, 
+                true); // throw exception
+        }
 
         _trigger_counter_increment = _trigger_counter(0, 0) - _internal_trigger_counter;
 
-- 
2.43.0


From 1922b9ecbebda4c4a1ad2aecef01b22155391dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 20/24] fix: SharedTWrapper.read into an array does not need a
 torch view

The bounds were taken from the torch view, which is None unless with_torch_view
is set: every read into a numpy array then ended with an AttributeError.
---
 EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index f3e0e65..88417cb 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -273,7 +273,7 @@ class SharedTWrapper:
                         message,
                         LogType.EXCEP,
                         throw_when_excep = True)
-                if not self._fits_into(data, self._torch_view, 
+                if not self._fits_into(data, self._numpy_view, 
                                     row_index, col_index):
                     message = "Provided data does not fit in data view!!"
                     Logger.log(self.__class__.__name__,
-- 
2.43.0


From 18dbcbab20ab43b727e84a4fc55cdbc5ef2fcbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 21/24] fix: SharedTWrapper.write refuses negative indices
 before touching the local view

A negative index was wrapped around by numpy: the write to the shared memory was
refused, but other rows or columns of the local view had been overwritten and
reached the shared memory with the next synch.
---
 .../PyEigenIPC/wrappers/shared_data_view.py         | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index 88417cb..1b2f10b 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -107,7 +107,8 @@ class SharedTWrapper:
         end_col_index = col_index + data1.shape[1]
 
         # Check if data1 fits within the bounds of data2
-        return end_row_index <= data2.shape[0] and end_col_index <= data2.shape[1]
+        return row_index >= 0 and col_index >= 0 and \
+            end_row_index <= data2.shape[0] and end_col_index <= data2.shape[1]
 
     def _init_gpu_mirror(self):
         
@@ -197,6 +198,16 @@ class SharedTWrapper:
         if isinstance(data, (int, float, bool,
                             np.float32, np.float64)):  
             
+            if row_index < 0 or col_index < 0:
+                # negative indices would wrap around in the local view 
+                # (the shared memory refuses them)
+                message = "Provided indices have to be non-negative!!"
+                Logger.log(self.__class__.__name__,
+                    "write",
+                    message,
+                    LogType.EXCEP,
+                    throw_when_excep = True)
+
             # write scalar into numpy view
             self._numpy_view[row_index, col_index] = data
             # write to shared memory
-- 
2.43.0


From d72b12f7fa2f5a9c6d8734f3c55672a15c25dabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 22/24] fix: SharedTWrapper.synch refuses a negative number of
 rows or columns

The slice [index:index + n] wraps around when index + n is negative: a request
for -1 rows at row 0 transferred all rows but the last.
---
 EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
index 1b2f10b..651a259 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_data_view.py
@@ -349,7 +349,8 @@ class SharedTWrapper:
         end_col_index = col_index + n_cols
 
         # Check if we are withing bounds
-        fits = (end_row_index <= self._numpy_view.shape[0] \
+        fits = (n_rows >= 0 and n_cols >= 0 \
+            and end_row_index <= self._numpy_view.shape[0] \
             and end_col_index <= self._numpy_view.shape[1])
         if not fits:
             return False
-- 
2.43.0


From 614fbe09335d19b5bbec7166b9126a9271f956ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:44 +0000
Subject: [PATCH 23/24] fix: SharedTensorDict.write refuses data with more rows
 than the block of the name

The rows in excess were written into the block of the next name.
---
 .../bindings/PyEigenIPC/wrappers/shared_tensor_dict.py    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
index 74c42be..b29e002 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
@@ -258,6 +258,14 @@ class SharedTensorDict():
 
         data_2D = np.atleast_2d(data)
 
+        if data_2D.shape[0] > self.dimensions[data_idx]:
+            # would overwrite the block of the next name
+            Journal.log(self.__class__.__name__,
+                "write",
+                "Provided data has more rows than the block of " + name + "!!",
+                LogType.EXCEP,
+                throw_when_excep = True)
+
         if retry: 
 
             self.data.write_retry(np.atleast_2d(data_2D), starting_idx, 0) # blocking
-- 
2.43.0


From aeec34903096dc3159cd26dd963f43f6755f131f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 24/24] fix: a SharedTensorDict client waits until the server
 has written names and dimensions

The shared memories are marked as running before the server fills them. A client
attaching in between kept empty names or dimensions of -1 for good. The server
writes the dimensions last: the client now waits for dimensions which account for
all the rows of the data, and reads the names afterwards.
---
 .../PyEigenIPC/wrappers/shared_tensor_dict.py | 30 ++++++++++++++-----
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
index b29e002..1fee48a 100644
--- a/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
+++ b/EigenIPC/bindings/PyEigenIPC/wrappers/shared_tensor_dict.py
@@ -222,19 +222,35 @@ class SharedTensorDict():
         
         self.data.run()
 
-        self.shared_names.run()
+        if self.is_server:
 
-        self.shared_dims.run()
+            self.shared_names.run()
 
-        if not self.is_server:
+            self.shared_dims.run() # after the names: clients
+            # rely on this order
 
-            self.names = self.shared_names.names
-            
-            # updates shared dims
-            self.shared_dims.synch_all(read=True, retry=True)
+        else:
+
+            self.shared_dims.run()
 
             self.dimensions = self.shared_dims.dims.flatten().tolist()
 
+            # a client may get here before the server has written the
+            # dimensions: wait until they account for all the rows
+            while min(self.dimensions) < 0 or sum(self.dimensions) != self.data.n_rows:
+
+                # updates shared dims
+                self.shared_dims.synch_all(read=True, retry=True)
+
+                self.dimensions = self.shared_dims.get_numpy_mirror().flatten().tolist()
+
+            self.shared_dims.dims = self.shared_dims.get_numpy_mirror()[:, :].copy()
+
+            # at this point the server has also written the names
+            self.shared_names.run()
+
+            self.names = self.shared_names.names
+
             self.n_dims = self.data.n_rows
             self.n_nodes = self.data.n_cols
 
-- 
2.43.0

