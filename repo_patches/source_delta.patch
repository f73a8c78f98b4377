From 8d86157368b7408f24d5baad32300f27edfca88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 01/17] fix: logLevel no longer registers an unknown level

---
 src/loglevels.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index a148e8f..2265dba 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -118,9 +118,8 @@ namespace g3 {
 
    bool logLevel(const LEVELS& log_level) {
 #ifdef G3_DYNAMIC_LOGGING
-      int level = log_level.value;
-      bool status = internal::g_log_levels[level].status.value();
-      return status;
+      const auto it = internal::g_log_levels.find(log_level.value);
+      return (it != internal::g_log_levels.end()) && it->second.status.value();
 #else
       return true;
 #endif
-- 
2.43.0


From 6f7bd64aefbfac90929372233d6e4a2dd1831adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 02/17] fix: swapping and assigning log messages keeps the full
 path and the formatting function

---
 src/g3log/logmessage.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/g3log/logmessage.hpp b/src/g3log/logmessage.hpp
index 9fc2d23..6898d56 100644
--- a/src/g3log/logmessage.hpp
+++ b/src/g3log/logmessage.hpp
@@ -116,9 +116,11 @@ namespace g3 {
 
       friend void swap(LogMessage& first, LogMessage& second) {
          using std::swap;
+         swap(first._logDetailsToStringFunc, second._logDetailsToStringFunc);
          swap(first._timestamp, second._timestamp);
          swap(first._call_thread_id, second._call_thread_id);
          swap(first._file, second._file);
+         swap(first._file_path, second._file_path);
          swap(first._line, second._line);
          swap(first._function, second._function);
          swap(first._level, second._level);
-- 
2.43.0


From b15c3d8be09de5213682f895e6f6cc53517785c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 03/17] fix: copying a level keeps its whole text

---
 src/g3log/loglevels.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/g3log/loglevels.hpp b/src/g3log/loglevels.hpp
index 998ca30..eb9b95a 100644
--- a/src/g3log/loglevels.hpp
+++ b/src/g3log/loglevels.hpp
@@ -35,7 +35,7 @@ struct LEVELS {
 
    LEVELS(const LEVELS& other) :
        value(other.value),
-       text(other.text.c_str()) {}
+       text(other.text.c_str(), other.text.size()) {}
 
    LEVELS(int id, const std::string& idtext) :
        value(id),
-- 
2.43.0


From 2a70175e9288c1bcc3822cb66eb5c6241698f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:22 +0000
Subject: [PATCH 04/17] fix: fractions and seconds of time points before 1970

---
 src/time.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/time.cpp b/src/time.cpp
index a94d394..1cd876e 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -49,9 +49,10 @@ namespace g3 {
       // 1 us --> 000001
       // 1 ns --> 000000001
       std::string to_string(const g3::system_time_point& ts, Fractional fractional) {
-         auto duration = ts.time_since_epoch();
-         auto sec_duration = std::chrono::duration_cast<std::chrono::seconds>(duration);
-         duration -= sec_duration;
+         auto duration = ts.time_since_epoch() % std::chrono::seconds(1);
+         if (duration.count() < 0) {
+            duration += std::chrono::seconds(1);  // before 1970: count from the start of the second
+         }
          auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(duration).count();
 
          auto zeroes = 9;       // default ns
@@ -144,7 +145,8 @@ namespace g3 {
 
    std::string localtime_formatted(const g3::system_time_point& ts, const std::string& time_format) {
       auto format_buffer = internal::localtime_formatted_fractions(ts, time_format);
-      auto time_point = std::chrono::system_clock::to_time_t(ts);
+      // floor, so that also before 1970 it is the second which the fraction is a part of
+      auto time_point = static_cast<std::time_t>(std::chrono::floor<std::chrono::seconds>(ts.time_since_epoch()).count());
       std::tm t = localtime(time_point);
       return g3::put_time(&t, format_buffer.c_str());  // format example: //"%Y/%m/%d %H:%M:%S");
    }
-- 
2.43.0


From 894542f6a4fac9e6aa3da7263dcbda1c40aa5b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 05/17] fix: mark a printf-style message of exactly the limit
 as truncated

---
 src/logcapture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index ad448c9..d4f138b 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -105,7 +105,7 @@ void LogCapture::capturef(const char* printf_like_message, ...) {
    if (nbrcharacters < 0) {
       stream() << "\n\tERROR LOG MSG NOTIFICATION: Failure to successfully parse the message";
       stream() << '"' << printf_like_message << '"' << std::endl;
-   } else if (nbrcharacters > finished_message_len) {
+   } else if (nbrcharacters >= finished_message_len) {
       stream() << finished_message << kTruncatedWarningText;
    } else {
       stream() << finished_message;
-- 
2.43.0


From a5531a815c4c66d4b6720a89dd41e37457a92b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 06/17] fix: a parenthesis in a file name is part of the base
 name

---
 src/logmessage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logmessage.cpp b/src/logmessage.cpp
index 5e6faa9..16f80cc 100644
--- a/src/logmessage.cpp
+++ b/src/logmessage.cpp
@@ -15,7 +15,7 @@ namespace g3 {
 
    std::string LogMessage::splitFileName(const std::string& str) {
       size_t found;
-      found = str.find_last_of("(/\\");
+      found = str.find_last_of("/\\");
       return str.substr(found + 1);
    }
 
-- 
2.43.0


From 67788884a77b232ffdc5ca8879576bc2dcb60e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:00 +0000
Subject: [PATCH 07/17] fix: a fatal event before logging is initialized does
 not call an empty hook

---
 src/g3log.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index a5bfa52..61e6cc3 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -164,7 +164,9 @@ namespace g3 {
          // then it's possible that the "other" fatal stack trace will be shown
          // that's OK since it was anyhow the first crash detected
          static const std::string first_stack_trace = stack_trace;
-         fatalhook();
+         if (fatalhook) {  // no hook before initializeLogging
+            fatalhook();
+         }
          message.get()->write().append(stack_trace);
 
          if (g_fatal_hook_recursive_counter.load() > 1) {
-- 
2.43.0


From f49c24dfa3cffd0140cc2a07bd1700d2a63f425d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 08/17] fix: keep the root directory as log directory instead
 of falling back to the current one

---
 src/filesinkhelper.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filesinkhelper.ipp b/src/filesinkhelper.ipp
index 1e42999..34a4bb7 100644
--- a/src/filesinkhelper.ipp
+++ b/src/filesinkhelper.ipp
@@ -55,6 +55,7 @@ namespace g3 {
          // Unify the delimeters,. maybe sketchy solution but it seems to work
          // on at least win7 + ubuntu. All bets are off for older windows
          std::replace(path.begin(), path.end(), '\\', '/');
+         const bool is_absolute = !path.empty() && path.front() == '/';
 
          // clean up in case of multiples
          auto contains_end = [&](std::string & in) -> bool {
@@ -68,7 +69,7 @@ namespace g3 {
             path.erase(path.size() - 1);
          }
 
-         if (!path.empty()) {
+         if (!path.empty() || is_absolute) {  // the root directory stays the root directory
             path.insert(path.end(), '/');
          }
 
-- 
2.43.0


From e458dbeb83111e57e6c55155b27f0be0bd312417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:02 +0000
Subject: [PATCH 09/17] fix: CHECK, CHECKF, LOG_IF and LOGF_IF take their
 expression as a condition instead of comparing it with true or false

---
 src/g3log/g3log.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/g3log/g3log.hpp b/src/g3log/g3log.hpp
index af5363d..838e397 100644
--- a/src/g3log/g3log.hpp
+++ b/src/g3log/g3log.hpp
@@ -149,12 +149,12 @@ namespace g3 {
 
 // 'Conditional' stream log
 #define LOG_IF(level, boolean_expression)  \
-   if (!g3::logLevel(level) || false == (boolean_expression)) {} else INTERNAL_LOG_MESSAGE(level).stream()
+   if (!g3::logLevel(level) || !static_cast<bool>(boolean_expression)) {} else INTERNAL_LOG_MESSAGE(level).stream()
 
 // 'Design By Contract' stream API. Broken Contracts will exit the application by using fatal signal SIGABRT
 //  For unit testing, you can override the fatal handling using setFatalExitHandler(...). See tes_io.cpp for examples
 #define CHECK(boolean_expression)        \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).stream()
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).stream()
 
 
 /** For details please see this
@@ -210,18 +210,18 @@ And here is possible output
 
 // Conditional log printf syntax
 #define LOGF_IF(level,boolean_expression, printf_like_message, ...) \
-   if (!g3::logLevel(level) || false == (boolean_expression)) {} else INTERNAL_LOG_MESSAGE(level).capturef(printf_like_message, ##__VA_ARGS__)
+   if (!g3::logLevel(level) || !static_cast<bool>(boolean_expression)) {} else INTERNAL_LOG_MESSAGE(level).capturef(printf_like_message, ##__VA_ARGS__)
 
 // Design By Contract, printf-like API syntax with variadic input parameters.
 // Calls the signal handler if the contract failed with the default exit for a failed contract. This is typically SIGABRT
 // See g3log, setFatalExitHandler(...) which can be overriden for unit tests (ref test_io.cpp)
 #define CHECKF(boolean_expression, printf_like_message, ...)    \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
 
 // Backwards compatible. The same as CHECKF.
 // Design By Contract, printf-like API syntax with variadic input parameters.
 // Calls the signal handler if the contract failed. See g3log, setFatalExitHandler(...) which can be overriden for unit tests
 // (ref test_io.cpp)
 #define CHECK_F(boolean_expression, printf_like_message, ...)    \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
    // clang-format on
\ No newline at end of file
-- 
2.43.0


From 740ceaf91aa73d06bd1cfb390c44833d07172163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 10/17] fix: changing the log file never erases what has
 already been logged

---
 src/filesinkhelper.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesinkhelper.ipp b/src/filesinkhelper.ipp
index 34a4bb7..4b2916a 100644
--- a/src/filesinkhelper.ipp
+++ b/src/filesinkhelper.ipp
@@ -100,7 +100,7 @@ namespace g3 {
 
       bool openLogFile(const std::string &complete_file_with_path, std::ofstream &outstream) {
          std::ios_base::openmode mode = std::ios_base::out; // for clarity: it's really overkill since it's an ofstream
-         mode |= std::ios_base::trunc;
+         mode |= std::ios_base::app;  // never erase what has already been logged
          outstream.open(complete_file_with_path, mode);
          if (!outstream.is_open()) {
             std::ostringstream ss_error;
-- 
2.43.0


From 027e26faccd11574eac6610d25a9e9c94662db65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:19 +0000
Subject: [PATCH 11/17] fix: installing crash handling twice keeps the
 application's own signal handlers

---
 src/crashhandler_unix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 9c40449..b38d869 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -102,7 +102,8 @@ namespace {
          if (sigaction(sig_pair.first, &action, &old_action) < 0) {
             std::string signalerror = "sigaction - " + sig_pair.second;
             perror(signalerror.c_str());
-         } else {
+         } else if (!(old_action.sa_flags & SA_SIGINFO) || old_action.sa_sigaction != &signalHandler) {
+            // (when installed twice the old action is our own handler: keep the one saved the first time)
             gSavedSigActions[sig_pair.first] = old_action;
          }
       }
-- 
2.43.0


From bf16975729630e76e3a2f384b563da0b218dc0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 12/17] fix: logging while another thread shuts logging down
 never uses a missing worker

---
 src/g3log.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 61e6cc3..bbc59d2 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -34,7 +34,7 @@
 
 namespace {
    std::once_flag g_initialize_flag;
-   g3::LogWorker* g_logger_instance = nullptr;  // instantiated and OWNED somewhere else (main)
+   std::atomic<g3::LogWorker*> g_logger_instance = {nullptr};  // instantiated and OWNED somewhere else (main)
    std::mutex g_logging_init_mutex;
 
    std::unique_ptr<g3::LogMessage> g_first_uninitialized_msg = {nullptr};
@@ -194,7 +194,8 @@ namespace g3 {
             */
       void pushMessageToLogger(LogMessagePtr incoming) {  // todo rename to Push SavedMessage To Worker
          // Uninitialized messages are ignored but does not CHECK/crash the logger
-         if (!internal::isLoggingInitialized()) {
+         LogWorker* logger = g_logger_instance;  // read once: logging might be shut down at any time
+         if (nullptr == logger) {
             std::call_once(g_set_first_uninitialized_flag, [&] {
                g_first_uninitialized_msg = incoming.release();
                std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
@@ -207,7 +208,7 @@ namespace g3 {
          }
 
          // logger is initialized
-         g_logger_instance->save(incoming);
+         logger->save(incoming);
       }
 
       /** Fatal call saved to logger. This will trigger SIGABRT or other fatal signal
@@ -216,7 +217,8 @@ namespace g3 {
           * message and kills the software with the fatal signal.
           */
       void pushFatalMessageToLogger(FatalMessagePtr message) {
-         if (!isLoggingInitialized()) {
+         LogWorker* logger = g_logger_instance;  // read once: logging might be shut down at any time
+         if (nullptr == logger) {
             std::ostringstream error;
             error << "FATAL CALL but logger is NOT initialized\n"
                   << "CAUSE: " << message.get()->reason()
@@ -225,7 +227,7 @@ namespace g3 {
             std::cerr << error.str() << std::flush;
             internal::exitWithDefaultSignalHandler(message.get()->_level, message.get()->_signal_id);
          }
-         g_logger_instance->fatal(message);
+         logger->fatal(message);
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
          }
-- 
2.43.0


From 0df925c75cceedf7b50d1b9506a9c7793172d657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 13/17] fix: the first message logged while logging is being
 initialized is neither lost nor torn

---
 src/g3log.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index bbc59d2..c576c9a 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -197,6 +197,12 @@ namespace g3 {
          LogWorker* logger = g_logger_instance;  // read once: logging might be shut down at any time
          if (nullptr == logger) {
             std::call_once(g_set_first_uninitialized_flag, [&] {
+               // logging might be initialized right now: the message is kept before that or goes to the new worker
+               std::lock_guard<std::mutex> lock(g_logging_init_mutex);
+               logger = g_logger_instance;
+               if (nullptr != logger) {
+                  return;
+               }
                g_first_uninitialized_msg = incoming.release();
                std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
                err.append(g_first_uninitialized_msg->message());
@@ -204,7 +210,9 @@ namespace g3 {
                str.clear();
                str.append(err); // replace content
                std::cerr << str << std::endl; });
-            return;
+            if (nullptr == logger) {
+               return;
+            }
          }
 
          // logger is initialized
-- 
2.43.0


From 728b7b1addf9eb060b2e4c950ae86075e73d0a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 14/17] fix: shutting down on behalf of a worker never shuts
 down another worker initialized at the same time

---
 src/g3log.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index c576c9a..085897b 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -127,15 +127,19 @@ namespace g3 {
        * @return true if the correct worker was given,. and shutDownLogging was called
        */
       bool shutDownLoggingForActiveOnly(LogWorker* active) {
-         if (isLoggingInitialized() && nullptr != active && (active != g_logger_instance)) {
-            LOG(WARNING) << "\n\t\tAttempted to shut down logging, but the ID of the Logger is not the one that is active."
-                         << "\n\t\tHaving multiple instances of the g3::LogWorker is likely a BUG"
-                         << "\n\t\tEither way, this call to shutDownLogging was ignored"
-                         << "\n\t\tTry g3::internal::shutDownLogging() instead";
-            return false;
+         {
+            // checked and shut down in one step: another worker might be initialized in between
+            std::lock_guard<std::mutex> lock(g_logging_init_mutex);
+            if (!isLoggingInitialized() || nullptr == active || active == g_logger_instance) {
+               g_logger_instance = nullptr;
+               return true;
+            }
          }
-         shutDownLogging();
-         return true;
+         LOG(WARNING) << "\n\t\tAttempted to shut down logging, but the ID of the Logger is not the one that is active."
+                      << "\n\t\tHaving multiple instances of the g3::LogWorker is likely a BUG"
+                      << "\n\t\tEither way, this call to shutDownLogging was ignored"
+                      << "\n\t\tTry g3::internal::shutDownLogging() instead";
+         return false;
       }
 
       /** explicitly copy of all input. This is makes it possibly to use g3log across dynamically loaded libraries
-- 
2.43.0


From 6a62a1a7edbd9223e7d133ee83fb5a5fdedf4c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 15/17] fix: illegal initialization with a static log worker
 terminates instead of deadlocking

---
 src/g3log.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 085897b..02822fd 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -56,7 +56,7 @@ namespace g3 {
       std::call_once(g_initialize_flag, [] {
          installCrashHandler();
       });
-      std::lock_guard<std::mutex> lock(g_logging_init_mutex);
+      std::unique_lock<std::mutex> lock(g_logging_init_mutex);
       if (internal::isLoggingInitialized() || nullptr == bgworker) {
          std::ostringstream exitMsg;
          exitMsg << __FILE__ "->" << __FUNCTION__ << ":" << __LINE__ << std::endl;
@@ -64,6 +64,7 @@ namespace g3 {
          exitMsg << "\t(due to multiple initializations? : " << std::boolalpha << internal::isLoggingInitialized();
          exitMsg << ", due to nullptr == bgworker? : " << std::boolalpha << (nullptr == bgworker) << ")";
          std::cerr << exitMsg.str() << std::endl;
+         lock.unlock();  // a worker with static storage duration is destroyed at exit and shuts down logging
          std::exit(EXIT_FAILURE);
       }
 
-- 
2.43.0


From face03367e5d2fc3a0996ff1a670afdad73e53c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:14 +0000
Subject: [PATCH 16/17] fix: of several threads that crash at the same time
 only one runs the pre-fatal hook

---
 src/g3log.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 02822fd..e96304f 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -42,6 +42,7 @@ namespace {
    std::once_flag g_save_first_uninitialized_flag;
    const std::function<void(void)> g_pre_fatal_hook_that_does_nothing = [] { /*does nothing */ };
    std::function<void(void)> g_fatal_pre_logging_hook;
+   std::mutex g_fatal_pre_logging_hook_mutex;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
 }  // namespace
@@ -90,8 +91,7 @@ namespace g3 {
    *     so please call this function, if you ever need to, after initializeLogging(...)
    */
    void setFatalPreLoggingHook(std::function<void(void)> pre_fatal_hook) {
-      static std::mutex m;
-      std::lock_guard<std::mutex> lock(m);
+      std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
       g_fatal_pre_logging_hook = pre_fatal_hook;
    }
 
@@ -160,10 +160,13 @@ namespace g3 {
       }
 
       void saveFatalMessage(const char* stack_trace, g3::LogMessagePtr& message, int& fatal_signal) {
-         auto fatalhook = g_fatal_pre_logging_hook;
-         // In case the fatal_pre logging actually will cause a crash in its turn
-         // let's not do recursive crashing!
-         setFatalPreLoggingHook(g_pre_fatal_hook_that_does_nothing);
+         auto fatalhook = g_pre_fatal_hook_that_does_nothing;
+         {
+            // In case the fatal_pre logging actually will cause a crash in its turn
+            // let's not do recursive crashing! Of several threads that crash only one gets the hook
+            std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
+            std::swap(fatalhook, g_fatal_pre_logging_hook);
+         }
          ++g_fatal_hook_recursive_counter;  // thread safe counter
          // "benign" race here. If two threads crashes, with recursive crashes
          // then it's possible that the "other" fatal stack trace will be shown
-- 
2.43.0


From 102f835237851cfdbeae98d431b54c0a0c7c1eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:16 +0000
Subject: [PATCH 17/17] fix: a fatal signal while no logger is active ends the
 process by that signal

---
 src/crashhandler_unix.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index b38d869..02f5fd9 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -233,6 +233,11 @@ namespace g3 {
                    << __FUNCTION__ << ":" << __LINE__ << ". Exiting due to " << level.text << ", " << signal_number << "   \n\n"
                    << std::flush;
 
+         // When called from the signal handler the signal is blocked: it would stay pending instead of ending the process
+         sigset_t fatal_signal;
+         sigemptyset(&fatal_signal);
+         sigaddset(&fatal_signal, signal_number);
+         pthread_sigmask(SIG_UNBLOCK, &fatal_signal, nullptr);
          raise(signal_number);
 
          // When running as PID1 the above kill doesn't have any effect (execution simply passes through it, contrary
-- 
2.43.0

