// Analysis input only: never linked, never run.  Instantiates g3log's templates and uses its macros the way
// client code does, so that the analyser sees resolved instances of them.
#include <g3log/active.hpp>
#include <g3log/crashhandler.hpp>
#include <g3log/future.hpp>
#include <g3log/filesink.hpp>
#include <g3log/g3log.hpp>
#include <g3log/logcapture.hpp>
#include <g3log/loglevels.hpp>
#include <g3log/logmessage.hpp>
#include <g3log/logworker.hpp>
#include <g3log/moveoncopy.hpp>
#include <g3log/shared_queue.hpp>
#include <g3log/sink.hpp>
#include <g3log/sinkhandle.hpp>
#include <g3log/time.hpp>
#include <exception>
#include <functional>
#include <memory>
#include <string>

namespace probe {
   // opaque client code
   struct ProbeSink {
      ProbeSink();
      ~ProbeSink();
      void receive(g3::LogMessageMover m);
      int query(int a, std::string b);
      void change(const std::string& v);
   };
   struct TextSink {
      TextSink();
      ~TextSink();
      void receive(std::string text);
   };
   const char* text();
   int arg();
   bool condition();
   bool condition2();
   int bits();
   const LEVELS& level();
   void other();

   // --- macros
   void log_stream() { LOG(level()) << text(); }
   void log_if() { LOG_IF(level(), condition()) << text(); }
   void log_printf() { LOGF(level(), "%s %d", text(), arg()); }
   void log_printf_if() { LOGF_IF(level(), condition(), "%s %d", text(), arg()); }
   void check_stream() { CHECK(condition()) << text(); }
   void check_printf() { CHECKF(condition(), "%s %d", text(), arg()); }
   void check_printf2() { CHECK_F(condition(), "%s %d", text(), arg()); }
   void log_fatal() { LOG(FATAL) << text(); }
   void log_info() { LOG(INFO) << text(); }
   void log_debug() { LOG(G3LOG_DEBUG) << text(); }
   void log_warning() { LOG(WARNING) << text(); }
   void log_debug_printf() { LOGF(G3LOG_DEBUG, "%s %d", text(), arg()); }
   void log_choice(bool b) { LOG(b ? INFO : WARNING) << text(); }
   void log_printf_choice(bool b) { LOGF(b ? INFO : WARNING, "%s", text()); }
   void log_if_or() { LOG_IF(level(), condition() || condition2()) << text(); }
   void log_printf_if_or() { LOGF_IF(level(), condition() || condition2(), "%s", text()); }
   void check_and() { CHECK(condition() && condition2()) << text(); }
   void check_printf_and() { CHECKF(condition() && condition2(), "%s", text()); }
   void check_printf2_and() { CHECK_F(condition() && condition2(), "%s", text()); }
   void check_bits() { CHECK(bits() & 6) << text(); }
   void check_printf_bits() { CHECKF(bits() & 6, "%s", text()); }
   void check_printf2_bits() { CHECK_F(bits() & 6, "%s", text()); }
   // use as the only statement of an if with an else
   void nested_log(bool outer) { if (outer) LOG(level()) << text(); else other(); }
   void nested_log_if(bool outer) { if (outer) LOG_IF(level(), condition()) << text(); else other(); }
   void nested_logf(bool outer) { if (outer) LOGF(level(), "%s", text()); else other(); }
   void nested_logf_if(bool outer) { if (outer) LOGF_IF(level(), condition(), "%s", text()); else other(); }
   void nested_check(bool outer) { if (outer) CHECK(condition()) << text(); else other(); }
   void nested_checkf(bool outer) { if (outer) CHECKF(condition(), "%s", text()); else other(); }
   void nested_check_f(bool outer) { if (outer) CHECK_F(condition(), "%s", text()); else other(); }

   // --- sinks
   void add_message_sink(g3::LogWorker& w, std::unique_ptr<ProbeSink> s) {
      auto h = w.addSink(std::move(s), &ProbeSink::receive);
   }
   void add_text_sink(g3::LogWorker& w, std::unique_ptr<TextSink> s) {
      auto h = w.addSink(std::move(s), &TextSink::receive);
   }
   void add_functor_sink(g3::LogWorker& w, std::unique_ptr<ProbeSink> s, void (*f)(ProbeSink*, g3::LogMessageMover)) {
      auto h = w.addSink(std::move(s), f);
   }
   void add_default(g3::LogWorker& w, const std::string& a, const std::string& b, const std::string& c) {
      auto h = w.addDefaultLogger(a, b, c);
   }
   void remove_sink(g3::LogWorker& w, std::unique_ptr<g3::SinkHandle<ProbeSink>> h) { w.removeSink(std::move(h)); }
   void remove_all(g3::LogWorker& w) { w.removeAllSinks(); }
   std::future<int> handle_call(g3::SinkHandle<ProbeSink>& h, int a, std::string b) {
      return h.call(&ProbeSink::query, a, b);
   }
   std::future<void> handle_call_void(g3::SinkHandle<ProbeSink>& h, std::string v) {
      return h.call(&ProbeSink::change, v);
   }
   std::future<std::string> handle_file_name(g3::SinkHandle<g3::FileSink>& h) { return h.call(&g3::FileSink::fileName); }
   std::weak_ptr<g3::internal::Sink<ProbeSink>> handle_sink(g3::SinkHandle<ProbeSink>& h) { return h.sink(); }

   // --- tasks
   struct IntTask { int operator()(); };
   std::future<int> task(kjellkod::Active* worker, IntTask t) { return g3::spawn_task(t, worker); }
   std::unique_ptr<kjellkod::Active> active() { return kjellkod::Active::createActive(); }

   // --- messages
   void message_copy(const g3::LogMessage& a, g3::LogMessage& b) { b = a; }
   void message_swap(g3::LogMessage& a, g3::LogMessage& b) { swap(a, b); }
   void level_swap(LEVELS& a, LEVELS& b) { swap(a, b); }
   void level_assign(LEVELS& a, const LEVELS& b) { a = b; }
   g3::LogMessageMover mover_copy(const g3::LogMessageMover& m) { return g3::LogMessageMover(m); }
   g3::LogMessageMover mover_move(g3::LogMessageMover& m) { return g3::LogMessageMover(std::move(m)); }
   void mover_assign(g3::LogMessageMover& a, const g3::LogMessageMover& b) { a = b; }
   void mover_move_assign(g3::LogMessageMover& a, g3::LogMessageMover& b) { a = std::move(b); }
   void ptr_assign(g3::LogMessagePtr& a, const g3::LogMessagePtr& b) { a = b; }
   std::string level_equal(const LEVELS& a, const LEVELS& b) { return a == b ? "eq" : a != b ? "ne" : ""; }
}  // namespace probe

// every member of the queue in the instance that the library uses
template class shared_queue<kjellkod::Callback>;
template struct g3::internal::Sink<probe::ProbeSink>;
template class g3::SinkHandle<probe::ProbeSink>;
