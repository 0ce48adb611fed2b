From 131af68733136165e72206d93429de677af2cb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 01/26] fix: flag printf-style messages that lose exactly their
 last character

vsnprintf returns the length without the terminator, so a result equal to the
buffer size is a truncated message as well.
---
 src/logcapture.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index ad448c9..d4f138b 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -105,7 +105,7 @@ void LogCapture::capturef(const char* printf_like_message, ...) {
    if (nbrcharacters < 0) {
       stream() << "\n\tERROR LOG MSG NOTIFICATION: Failure to successfully parse the message";
       stream() << '"' << printf_like_message << '"' << std::endl;
-   } else if (nbrcharacters > finished_message_len) {
+   } else if (nbrcharacters >= finished_message_len) {
       stream() << finished_message << kTruncatedWarningText;
    } else {
       stream() << finished_message;
-- 
2.43.0


From fb346e21bf953863214a045271265fb8883fa525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 02/26] fix: swap and assignment of LogMessage carry over every
 attribute

The full file path and the details formatter stayed behind.
---
 src/g3log/logmessage.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/g3log/logmessage.hpp b/src/g3log/logmessage.hpp
index 9fc2d23..6898d56 100644
--- a/src/g3log/logmessage.hpp
+++ b/src/g3log/logmessage.hpp
@@ -116,9 +116,11 @@ namespace g3 {
 
       friend void swap(LogMessage& first, LogMessage& second) {
          using std::swap;
+         swap(first._logDetailsToStringFunc, second._logDetailsToStringFunc);
          swap(first._timestamp, second._timestamp);
          swap(first._call_thread_id, second._call_thread_id);
          swap(first._file, second._file);
+         swap(first._file_path, second._file_path);
          swap(first._line, second._line);
          swap(first._function, second._function);
          swap(first._level, second._level);
-- 
2.43.0


From dfc51bc22ade6b4d86650e856254d7c69f25a776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 03/26] fix: asking whether a level is enabled does not
 register it

operator[] inserted unknown levels, from whichever thread logged.
---
 src/loglevels.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index a148e8f..5212363 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -118,9 +118,8 @@ namespace g3 {
 
    bool logLevel(const LEVELS& log_level) {
 #ifdef G3_DYNAMIC_LOGGING
-      int level = log_level.value;
-      bool status = internal::g_log_levels[level].status.value();
-      return status;
+      const auto it = internal::g_log_levels.find(log_level.value);
+      return internal::g_log_levels.end() != it && it->second.status.get().load();
 #else
       return true;
 #endif
-- 
2.43.0


From 736b2eaee32298567cabb7c2379a4b82daf61e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 04/26] fix: enabling and disabling a level only changes its
 atomic status

Assigning the whole entry rewrote the level's text, unsynchronized with
other threads that change or print the levels.
---
 src/loglevels.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loglevels.cpp b/src/loglevels.cpp
index 5212363..6305550 100644
--- a/src/loglevels.cpp
+++ b/src/loglevels.cpp
@@ -63,7 +63,7 @@ namespace g3 {
       void set(LEVELS level, bool enabled) {
          auto it = internal::g_log_levels.find(level.value);
          if (it != internal::g_log_levels.end()) {
-            internal::g_log_levels[level.value] = {level, enabled};
+            it->second.status = enabled;
          }
       }
 
-- 
2.43.0


From e369c756be5b96e125e23c1efd3351a9e46c4335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 05/26] fix: installing the crash handler twice keeps the
 original signal actions

The second installation saved g3log's own handler as the action to restore.
---
 src/crashhandler_unix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 9c40449..187abf2 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -102,7 +102,7 @@ namespace {
          if (sigaction(sig_pair.first, &action, &old_action) < 0) {
             std::string signalerror = "sigaction - " + sig_pair.second;
             perror(signalerror.c_str());
-         } else {
+         } else if (old_action.sa_sigaction != &signalHandler) {
             gSavedSigActions[sig_pair.first] = old_action;
          }
       }
-- 
2.43.0


From 0ea84bc94dddd545809b1989f3e8265a8ebb4b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 06/26] fix: format time points before the epoch

The fraction became negative, which made the padding length wrap around and
std::string throw.
---
 src/time.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/time.cpp b/src/time.cpp
index a94d394..40b3966 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -50,7 +50,7 @@ namespace g3 {
       // 1 ns --> 000000001
       std::string to_string(const g3::system_time_point& ts, Fractional fractional) {
          auto duration = ts.time_since_epoch();
-         auto sec_duration = std::chrono::duration_cast<std::chrono::seconds>(duration);
+         auto sec_duration = std::chrono::floor<std::chrono::seconds>(duration);
          duration -= sec_duration;
          auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(duration).count();
 
@@ -144,7 +144,7 @@ namespace g3 {
 
    std::string localtime_formatted(const g3::system_time_point& ts, const std::string& time_format) {
       auto format_buffer = internal::localtime_formatted_fractions(ts, time_format);
-      auto time_point = std::chrono::system_clock::to_time_t(ts);
+      auto time_point = std::chrono::system_clock::to_time_t(std::chrono::floor<std::chrono::seconds>(ts));
       std::tm t = localtime(time_point);
       return g3::put_time(&t, format_buffer.c_str());  // format example: //"%Y/%m/%d %H:%M:%S");
    }
-- 
2.43.0


From c1a20301af23af7e19c0f01e805f5a24ca6da1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 07/26] fix: no file sink without an open log file in builds
 without assert

The first entry written dereferenced a null stream.
---
 src/filesink.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/filesink.cpp b/src/filesink.cpp
index 2e559d0..c7a78db 100644
--- a/src/filesink.cpp
+++ b/src/filesink.cpp
@@ -38,7 +38,10 @@ namespace g3 {
          _log_file_with_path = "./" + file_name;
          _outptr = createLogFile(_log_file_with_path);
       }
-      assert(_outptr && "cannot open log file at startup");
+      if (!_outptr) {
+         std::cerr << "g3log: forced abort, cannot open any log file at startup" << std::endl;
+         abort();
+      }
    }
 
    FileSink::~FileSink() {
-- 
2.43.0


From 59d4cda4a0cf0e8bd20bea06ff1709bd2e24e7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 08/26] fix: a file sink batching interval of 0 does not divide
 by zero

---
 src/filesink.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesink.cpp b/src/filesink.cpp
index c7a78db..99bb645 100644
--- a/src/filesink.cpp
+++ b/src/filesink.cpp
@@ -22,7 +22,7 @@ namespace g3 {
        _header("\t\tLOG format: [YYYY/MM/DD hh:mm:ss uuu* LEVEL FILE->FUNCTION:LINE] message\n\n\t\t(uuu*: microseconds fractions of the seconds value)\n\n"),
        _firstEntry(true),
        _write_counter(0),
-       _write_to_log_every_x_message(write_to_log_every_x_message) {
+       _write_to_log_every_x_message(write_to_log_every_x_message == 0 ? 1 : write_to_log_every_x_message) {
       _log_prefix_backup = prefixSanityFix(log_prefix);
       if (!isValidFilename(_log_prefix_backup)) {
          std::cerr << "g3log: forced abort due to illegal log prefix [" << log_prefix << "]" << std::endl;
-- 
2.43.0


From dd45ef800d1fc5438193e7c1a269b47654ecd945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 09/26] fix: write the log file header to the new file when
 changing log file

It was written, once more, to the file that is left.
---
 src/filesink.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/filesink.cpp b/src/filesink.cpp
index 99bb645..a2ad235 100644
--- a/src/filesink.cpp
+++ b/src/filesink.cpp
@@ -86,7 +86,6 @@ namespace g3 {
          return {};  // no success
       }
 
-      addLogFileHeader();
       std::ostringstream ss_change;
       ss_change << "\n\tChanging log file from : " << _log_file_with_path;
       ss_change << "\n\tto new location: " << prospect_log << "\n";
@@ -96,6 +95,8 @@ namespace g3 {
       std::string old_log = _log_file_with_path;
       _log_file_with_path = std::move(prospect_log);
       _outptr = std::move(log_stream);
+      addLogFileHeader();
+      _firstEntry = false;
       ss_change << "\n\tNew log file. The previous log file was at: ";
       ss_change << old_log << "\n";
       filestream() << now_formatted << ss_change.str();
-- 
2.43.0


From dd94c883137849632d36b933a2d0bce11f5432e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 10/26] fix: opening a log file keeps what it already holds

File names have a resolution of one second. Changing log file back within
that second emptied a file that already held entries.
---
 src/filesinkhelper.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filesinkhelper.ipp b/src/filesinkhelper.ipp
index 1e42999..c67916e 100644
--- a/src/filesinkhelper.ipp
+++ b/src/filesinkhelper.ipp
@@ -99,7 +99,7 @@ namespace g3 {
 
       bool openLogFile(const std::string &complete_file_with_path, std::ofstream &outstream) {
          std::ios_base::openmode mode = std::ios_base::out; // for clarity: it's really overkill since it's an ofstream
-         mode |= std::ios_base::trunc;
+         mode |= std::ios_base::app;
          outstream.open(complete_file_with_path, mode);
          if (!outstream.is_open()) {
             std::ostringstream ss_error;
-- 
2.43.0


From 3f453b6ccf5865315e79481a520320370bd24b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 11/26] fix: an illegal initialization does not hang when the
 LogWorker is static

std::exit ran the LogWorker's destructor, which takes the lock that was still held.
---
 src/g3log.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index a5bfa52..38ed3c4 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -56,7 +56,7 @@ namespace g3 {
       std::call_once(g_initialize_flag, [] {
          installCrashHandler();
       });
-      std::lock_guard<std::mutex> lock(g_logging_init_mutex);
+      std::unique_lock<std::mutex> lock(g_logging_init_mutex);
       if (internal::isLoggingInitialized() || nullptr == bgworker) {
          std::ostringstream exitMsg;
          exitMsg << __FILE__ "->" << __FUNCTION__ << ":" << __LINE__ << std::endl;
@@ -64,6 +64,7 @@ namespace g3 {
          exitMsg << "\t(due to multiple initializations? : " << std::boolalpha << internal::isLoggingInitialized();
          exitMsg << ", due to nullptr == bgworker? : " << std::boolalpha << (nullptr == bgworker) << ")";
          std::cerr << exitMsg.str() << std::endl;
+         lock.unlock();  // exit may destroy the LogWorker, which shuts down logging
          std::exit(EXIT_FAILURE);
       }
 
-- 
2.43.0


From e0d52d211a1accdfbffd46483d8d4d13d0031d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 12/26] fix: no unsynchronized access to the active LogWorker

A logging thread tested and then read again a plain pointer that another thread
may set to null in between.
---
 src/g3log.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 38ed3c4..c6aba4d 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -34,7 +34,7 @@
 
 namespace {
    std::once_flag g_initialize_flag;
-   g3::LogWorker* g_logger_instance = nullptr;  // instantiated and OWNED somewhere else (main)
+   std::atomic<g3::LogWorker*> g_logger_instance = {nullptr};  // instantiated and OWNED somewhere else (main)
    std::mutex g_logging_init_mutex;
 
    std::unique_ptr<g3::LogMessage> g_first_uninitialized_msg = {nullptr};
@@ -193,7 +193,8 @@ namespace g3 {
             */
       void pushMessageToLogger(LogMessagePtr incoming) {  // todo rename to Push SavedMessage To Worker
          // Uninitialized messages are ignored but does not CHECK/crash the logger
-         if (!internal::isLoggingInitialized()) {
+         LogWorker* logger = g_logger_instance.load();
+         if (nullptr == logger) {
             std::call_once(g_set_first_uninitialized_flag, [&] {
                g_first_uninitialized_msg = incoming.release();
                std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
@@ -206,7 +207,7 @@ namespace g3 {
          }
 
          // logger is initialized
-         g_logger_instance->save(incoming);
+         logger->save(incoming);
       }
 
       /** Fatal call saved to logger. This will trigger SIGABRT or other fatal signal
@@ -215,7 +216,8 @@ namespace g3 {
           * message and kills the software with the fatal signal.
           */
       void pushFatalMessageToLogger(FatalMessagePtr message) {
-         if (!isLoggingInitialized()) {
+         LogWorker* logger = g_logger_instance.load();
+         if (nullptr == logger) {
             std::ostringstream error;
             error << "FATAL CALL but logger is NOT initialized\n"
                   << "CAUSE: " << message.get()->reason()
@@ -224,7 +226,7 @@ namespace g3 {
             std::cerr << error.str() << std::flush;
             internal::exitWithDefaultSignalHandler(message.get()->_level, message.get()->_signal_id);
          }
-         g_logger_instance->fatal(message);
+         logger->fatal(message);
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
          }
-- 
2.43.0


From a10e3a8c69936ff4e3c2c0288699a4fb1b75353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 13/26] fix: shutting down for one LogWorker cannot turn off
 another one

A worker made active between the test and the shutdown was deactivated.
---
 src/g3log.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index c6aba4d..5651ee7 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -128,14 +128,22 @@ namespace g3 {
        * @return true if the correct worker was given,. and shutDownLogging was called
        */
       bool shutDownLoggingForActiveOnly(LogWorker* active) {
-         if (isLoggingInitialized() && nullptr != active && (active != g_logger_instance)) {
+         bool is_foreign = false;
+         {
+            std::lock_guard<std::mutex> lock(g_logging_init_mutex);
+            LogWorker* current = g_logger_instance.load();
+            is_foreign = nullptr != current && nullptr != active && active != current;
+            if (!is_foreign) {
+               g_logger_instance = nullptr;
+            }
+         }
+         if (is_foreign) {
             LOG(WARNING) << "\n\t\tAttempted to shut down logging, but the ID of the Logger is not the one that is active."
                          << "\n\t\tHaving multiple instances of the g3::LogWorker is likely a BUG"
                          << "\n\t\tEither way, this call to shutDownLogging was ignored"
                          << "\n\t\tTry g3::internal::shutDownLogging() instead";
             return false;
          }
-         shutDownLogging();
          return true;
       }
 
-- 
2.43.0


From cc11c4a21b6d212d1f78c7d45fdef1bcd33cf8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 14/26] fix: two threads with fatal events do not both run the
 pre fatal hook

The hook was copied outside of the lock and disarmed afterwards.
---
 src/g3log.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 5651ee7..cec06d5 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -42,6 +42,7 @@ namespace {
    std::once_flag g_save_first_uninitialized_flag;
    const std::function<void(void)> g_pre_fatal_hook_that_does_nothing = [] { /*does nothing */ };
    std::function<void(void)> g_fatal_pre_logging_hook;
+   std::mutex g_fatal_pre_logging_hook_mutex;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
 }  // namespace
@@ -90,8 +91,7 @@ namespace g3 {
    *     so please call this function, if you ever need to, after initializeLogging(...)
    */
    void setFatalPreLoggingHook(std::function<void(void)> pre_fatal_hook) {
-      static std::mutex m;
-      std::lock_guard<std::mutex> lock(m);
+      std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
       g_fatal_pre_logging_hook = pre_fatal_hook;
    }
 
@@ -164,10 +164,13 @@ namespace g3 {
       }
 
       void saveFatalMessage(const char* stack_trace, g3::LogMessagePtr& message, int& fatal_signal) {
-         auto fatalhook = g_fatal_pre_logging_hook;
          // In case the fatal_pre logging actually will cause a crash in its turn
          // let's not do recursive crashing!
-         setFatalPreLoggingHook(g_pre_fatal_hook_that_does_nothing);
+         std::function<void(void)> fatalhook = g_pre_fatal_hook_that_does_nothing;
+         {
+            std::lock_guard<std::mutex> lock(g_fatal_pre_logging_hook_mutex);
+            fatalhook.swap(g_fatal_pre_logging_hook);
+         }
          ++g_fatal_hook_recursive_counter;  // thread safe counter
          // "benign" race here. If two threads crashes, with recursive crashes
          // then it's possible that the "other" fatal stack trace will be shown
-- 
2.43.0


From e85316ee0e8290e3a068f62a72397cd0874433d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 15/26] fix: a fatal event without a pre fatal hook ends the
 process

Before initialization, or with an empty hook, it threw std::bad_function_call
into the application instead.
---
 src/g3log.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index cec06d5..e8d069f 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -176,7 +176,9 @@ namespace g3 {
          // then it's possible that the "other" fatal stack trace will be shown
          // that's OK since it was anyhow the first crash detected
          static const std::string first_stack_trace = stack_trace;
-         fatalhook();
+         if (fatalhook) {
+            fatalhook();
+         }
          message.get()->write().append(stack_trace);
 
          if (g_fatal_hook_recursive_counter.load() > 1) {
-- 
2.43.0


From 19c16efa731700471cd96ec0065fc02d574574d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 16/26] fix: storing the first uninitialized message races with
 initialization

---
 src/g3log.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index e8d069f..fc87e9e 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -209,6 +209,7 @@ namespace g3 {
          LogWorker* logger = g_logger_instance.load();
          if (nullptr == logger) {
             std::call_once(g_set_first_uninitialized_flag, [&] {
+               std::lock_guard<std::mutex> lock(g_logging_init_mutex);
                g_first_uninitialized_msg = incoming.release();
                std::string err = {"LOGGER NOT INITIALIZED:\n\t\t"};
                err.append(g_first_uninitialized_msg->message());
-- 
2.43.0


From aa304c1ff3f5f8b0715e6fe286218275eb43e815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:49 +0000
Subject: [PATCH 17/26] fix: a second fatal event does not end the process
 before the first is flushed

While the worker flushes it has turned off logging; another thread with a fatal
event took that for a logger that never was initialized and exited.
---
 src/g3log.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index fc87e9e..485c746 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -45,6 +45,7 @@ namespace {
    std::mutex g_fatal_pre_logging_hook_mutex;
 
    std::atomic<size_t> g_fatal_hook_recursive_counter = {0};
+   std::atomic<bool> g_fatal_handed_to_worker = {false};
 }  // namespace
 
 namespace g3 {
@@ -231,7 +232,7 @@ namespace g3 {
           */
       void pushFatalMessageToLogger(FatalMessagePtr message) {
          LogWorker* logger = g_logger_instance.load();
-         if (nullptr == logger) {
+         if (nullptr == logger && !g_fatal_handed_to_worker.load()) {
             std::ostringstream error;
             error << "FATAL CALL but logger is NOT initialized\n"
                   << "CAUSE: " << message.get()->reason()
@@ -240,7 +241,11 @@ namespace g3 {
             std::cerr << error.str() << std::flush;
             internal::exitWithDefaultSignalHandler(message.get()->_level, message.get()->_signal_id);
          }
-         logger->fatal(message);
+         // Once a worker has the first fatal message it is the worker that ends the process
+         if (nullptr != logger) {
+            g_fatal_handed_to_worker = true;
+            logger->fatal(message);
+         }
          while (shouldBlockForFatalHandling()) {
             std::this_thread::sleep_for(std::chrono::seconds(1));
          }
-- 
2.43.0


From df12f91ad18c949e4c3efa49f7948bbe6f13639f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:58 +0000
Subject: [PATCH 18/26] fix: a log message containing a null character is
 logged in full

The streamed text was passed on as a C string.
---
 src/g3log.cpp       | 2 +-
 src/g3log/g3log.hpp | 2 +-
 src/logcapture.cpp  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/g3log.cpp b/src/g3log.cpp
index 485c746..a435aff 100644
--- a/src/g3log.cpp
+++ b/src/g3log.cpp
@@ -150,7 +150,7 @@ namespace g3 {
 
       /** explicitly copy of all input. This is makes it possibly to use g3log across dynamically loaded libraries
       * i.e. (dlopen + dlsym)  */
-      void saveMessage(const char* entry, const char* file, int line, const char* function, const LEVELS& level,
+      void saveMessage(const std::string& entry, const char* file, int line, const char* function, const LEVELS& level,
                        const char* boolean_expression, int fatal_signal, const char* stack_trace) {
          LEVELS msgLevel{level};
          LogMessagePtr message{std::make_unique<LogMessage>(file, line, function, msgLevel)};
diff --git a/src/g3log/g3log.hpp b/src/g3log/g3log.hpp
index af5363d..5254193 100644
--- a/src/g3log/g3log.hpp
+++ b/src/g3log/g3log.hpp
@@ -103,7 +103,7 @@ namespace g3 {
       bool isLoggingInitialized();
 
       // Save the created LogMessage to any existing sinks
-      void saveMessage(const char* message, const char* file, int line, const char* function, const LEVELS& level,
+      void saveMessage(const std::string& message, const char* file, int line, const char* function, const LEVELS& level,
                        const char* boolean_expression, int fatal_signal, const char* stack_trace);
 
       void saveFatalMessage(const char* stack_trace, g3::LogMessagePtr& message, int& fatal_signal);
diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index d4f138b..1a9ecfd 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -43,7 +43,7 @@ void g3::only_change_at_initialization::setMaxMessageSize(size_t max_size) {
 LogCapture::~LogCapture() noexcept(false) {
    using namespace g3::internal;
    SIGNAL_HANDLER_VERIFY();
-   saveMessage(_stream.str().c_str(), _file, _line, _function, _level, _expression, _fatal_signal, _stack_trace.c_str());
+   saveMessage(_stream.str(), _file, _line, _function, _level, _expression, _fatal_signal, _stack_trace.c_str());
 }
 
 /// Called from crash handler when a fatal signal has occurred (SIGSEGV etc)
-- 
2.43.0


From dbc0cb041e80ddbd4ee4ad420a1a043fdab32cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:53 +0000
Subject: [PATCH 19/26] fix: CHECK passes for every condition that is true, not
 only for one that equals true

---
 src/g3log/g3log.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/g3log/g3log.hpp b/src/g3log/g3log.hpp
index 5254193..3eb2daf 100644
--- a/src/g3log/g3log.hpp
+++ b/src/g3log/g3log.hpp
@@ -154,7 +154,7 @@ namespace g3 {
 // 'Design By Contract' stream API. Broken Contracts will exit the application by using fatal signal SIGABRT
 //  For unit testing, you can override the fatal handling using setFatalExitHandler(...). See tes_io.cpp for examples
 #define CHECK(boolean_expression)        \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).stream()
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).stream()
 
 
 /** For details please see this
@@ -216,12 +216,12 @@ And here is possible output
 // Calls the signal handler if the contract failed with the default exit for a failed contract. This is typically SIGABRT
 // See g3log, setFatalExitHandler(...) which can be overriden for unit tests (ref test_io.cpp)
 #define CHECKF(boolean_expression, printf_like_message, ...)    \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
 
 // Backwards compatible. The same as CHECKF.
 // Design By Contract, printf-like API syntax with variadic input parameters.
 // Calls the signal handler if the contract failed. See g3log, setFatalExitHandler(...) which can be overriden for unit tests
 // (ref test_io.cpp)
 #define CHECK_F(boolean_expression, printf_like_message, ...)    \
-   if (true == (boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
+   if (static_cast<bool>(boolean_expression)) {} else INTERNAL_CONTRACT_MESSAGE(#boolean_expression).capturef(printf_like_message, ##__VA_ARGS__)
    // clang-format on
\ No newline at end of file
-- 
2.43.0


From f9078abe1ecd1a34e2cacf102879e1eba7b2b8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 20/26] fix: printf style text with an embedded NUL character
 is logged in full, also with a maximum size of 0

---
 src/logcapture.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index 1a9ecfd..e9e6534 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -106,8 +106,9 @@ void LogCapture::capturef(const char* printf_like_message, ...) {
       stream() << "\n\tERROR LOG MSG NOTIFICATION: Failure to successfully parse the message";
       stream() << '"' << printf_like_message << '"' << std::endl;
    } else if (nbrcharacters >= finished_message_len) {
-      stream() << finished_message << kTruncatedWarningText;
+      const int nbrfitting = finished_message_len > 0 ? finished_message_len - 1 : 0;
+      stream().write(finished_message, nbrfitting) << kTruncatedWarningText;
    } else {
-      stream() << finished_message;
+      stream().write(finished_message, nbrcharacters);
    }
 }
-- 
2.43.0


From 6006287722dcb2c4316cbb0668e8b0976e43108a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:00 +0000
Subject: [PATCH 21/26] fix: a maximum message size beyond int is in force as
 the largest int, not as a negative size

---
 src/logcapture.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logcapture.cpp b/src/logcapture.cpp
index e9e6534..2e74e65 100644
--- a/src/logcapture.cpp
+++ b/src/logcapture.cpp
@@ -11,6 +11,8 @@
 #include "g3log/g3log.hpp"
 
 #ifdef G3_DYNAMIC_MAX_MESSAGE_SIZE
+#include <algorithm>
+#include <limits>
 #include <vector>
 #endif /* G3_DYNAMIC_MAX_MESSAGE_SIZE */
 
@@ -31,7 +33,7 @@
 static int MaxMessageSize = 2048;
 
 void g3::only_change_at_initialization::setMaxMessageSize(size_t max_size) {
-   MaxMessageSize = max_size;
+   MaxMessageSize = static_cast<int>(std::min<size_t>(max_size, std::numeric_limits<int>::max()));
 }
 #endif /* G3_DYNAMIC_MAX_MESSAGE_SIZE */
 
-- 
2.43.0


From 92d7ac34bf0342e390912b3f845a88ceddcc5bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:42 +0000
Subject: [PATCH 22/26] fix: copying a level keeps its whole name, also with an
 embedded NUL character

---
 src/g3log/loglevels.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/g3log/loglevels.hpp b/src/g3log/loglevels.hpp
index 998ca30..a7f8743 100644
--- a/src/g3log/loglevels.hpp
+++ b/src/g3log/loglevels.hpp
@@ -35,7 +35,7 @@ struct LEVELS {
 
    LEVELS(const LEVELS& other) :
        value(other.value),
-       text(other.text.c_str()) {}
+       text(other.text) {}
 
    LEVELS(int id, const std::string& idtext) :
        value(id),
-- 
2.43.0


From 264dcf093fe5d7e5d4b203c5c629847e99566c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:38 +0000
Subject: [PATCH 23/26] fix: threads that end the process at the same time
 don't race for the saved signal actions

---
 src/crashhandler_unix.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 187abf2..b705443 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -19,6 +19,7 @@
 #include <execinfo.h>
 #include <unistd.h>
 #include <atomic>
+#include <chrono>
 #include <csignal>
 #include <cstdlib>
 #include <cstring>
@@ -222,6 +223,16 @@ namespace g3 {
       void exitWithDefaultSignalHandler(const LEVELS& level, g3::SignalType fatal_signal_id) {
          const int signal_number = static_cast<int>(fatal_signal_id);
 
+         // The first thread to get here ends the process. Without a logger several threads
+         // can get here at the same time, the others wait for the process to end
+         static std::atomic<std::thread::id> ending_thread{};
+         std::thread::id first{};
+         if (!ending_thread.compare_exchange_strong(first, std::this_thread::get_id()) && first != std::this_thread::get_id()) {
+            while (true) {
+               std::this_thread::sleep_for(std::chrono::seconds(1));
+            }
+         }
+
          // Restore all saved signal handlers. If handling a signal which causes exiting
          // than let the original signal handlers to handle other signals.
          for (const auto& sig : gSignals) {
-- 
2.43.0


From 8855c8c51a696cd8f08d19fe4b6e9125771c1116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:51 +0000
Subject: [PATCH 24/26] fix: a fatal signal that is ignored by its original
 action ends the process also with a static LogWorker

---
 src/crashhandler_unix.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index b705443..9910cf4 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -250,7 +250,9 @@ namespace g3 {
          // we must unblock the thread that received the original signal otherwise the process will never terminate.
          gBlockForFatal = false;
 
-         exit(signal_number);
+         // The signal may also be ignored by its original action. This can be the thread of the LogWorker: exit() would
+         // destroy a static LogWorker, which waits for this thread
+         std::_Exit(signal_number);
       }
 
       // This function is intended to be async-signal-safe. Using write and STDERR_FILENO should be
-- 
2.43.0


From 442e67327b643cb1164c0354ac8ab66060343bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:20 +0000
Subject: [PATCH 25/26] fix: a signal raised while its thread handles the first
 one waited for itself

---
 src/crashhandler_unix.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 9910cf4..427fec3 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -52,9 +52,11 @@ namespace {
    std::map<int, struct sigaction> gSavedSigActions;
 
    bool shouldDoExit() {
-      static std::atomic<uint64_t> firstExit{0};
-      auto const count = firstExit.fetch_add(1, std::memory_order_relaxed);
-      return (0 == count);
+      // A thread that crashes again while it handles the first signal, e.g. in the pre fatal hook, must
+      // not wait for itself
+      static std::atomic<std::thread::id> firstThread{};
+      std::thread::id first{};
+      return firstThread.compare_exchange_strong(first, std::this_thread::get_id()) || std::this_thread::get_id() == first;
    }
 
    // Dump of stack,. then exit through g3log background worker
-- 
2.43.0


From fb48b896f3a6c930892a060718ae01e5fb15a554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 26/26] fix: the process did not die by a signal that is
 blocked while it is handled

---
 src/crashhandler_unix.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/crashhandler_unix.cpp b/src/crashhandler_unix.cpp
index 427fec3..1f71ae7 100644
--- a/src/crashhandler_unix.cpp
+++ b/src/crashhandler_unix.cpp
@@ -245,6 +245,12 @@ namespace g3 {
                    << __FUNCTION__ << ":" << __LINE__ << ". Exiting due to " << level.text << ", " << signal_number << "   \n\n"
                    << std::flush;
 
+         // A signal is blocked while it is handled, and raise would leave it pending
+         sigset_t raised;
+         sigemptyset(&raised);
+         sigaddset(&raised, signal_number);
+         pthread_sigmask(SIG_UNBLOCK, &raised, nullptr);
+
          raise(signal_number);
 
          // When running as PID1 the above kill doesn't have any effect (execution simply passes through it, contrary
-- 
2.43.0

