// Client translation unit: instantiates g3log's header templates and macros so
// that the exporter sees the code that runs.  Nothing in here is verified
// itself; it only names instantiations (and the generic "user" side).
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <g3log/filesink.hpp>
#include <g3log/future.hpp>
#include <g3log/active.hpp>
#include <g3log/shared_queue.hpp>
#include <g3log/time.hpp>
#include <memory>
#include <string>
#include <functional>
namespace client {
   struct Sink {                       // an arbitrary user sink (bodies opaque)
      void recvMsg(g3::LogMessageMover m);
      void recvStr(std::string s);
      int calc(int a, const std::string& b);
      void act(int a);
   };
   struct Tok { Tok(const Tok&); Tok(Tok&&); Tok& operator=(const Tok&); Tok& operator=(Tok&&); ~Tok(); int id; };
   // ---- queue ----
   void q_push(shared_queue<int>& q, int v) { q.push(v); }
   bool q_try(shared_queue<int>& q, int& v) { return q.try_and_pop(v); }
   void q_wait(shared_queue<int>& q, int& v) { q.wait_and_pop(v); }
   bool q_empty(const shared_queue<int>& q) { return q.empty(); }
   unsigned q_size(const shared_queue<int>& q) { return q.size(); }
   void qs_push(shared_queue<std::string>& q, std::string v) { q.push(std::move(v)); }
   bool qs_try(shared_queue<std::string>& q, std::string& v) { return q.try_and_pop(v); }
   void qs_wait(shared_queue<std::string>& q, std::string& v) { q.wait_and_pop(v); }
   void qf_push(shared_queue<std::function<void()>>& q, std::function<void()> v) { q.push(std::move(v)); }
   bool qf_try(shared_queue<std::function<void()>>& q, std::function<void()>& v) { return q.try_and_pop(v); }
   void qf_wait(shared_queue<std::function<void()>>& q, std::function<void()>& v) { q.wait_and_pop(v); }
   void qu_push(shared_queue<std::unique_ptr<Tok>>& q, std::unique_ptr<Tok> v) { q.push(std::move(v)); }
   bool qu_try(shared_queue<std::unique_ptr<Tok>>& q, std::unique_ptr<Tok>& v) { return q.try_and_pop(v); }
   void qu_wait(shared_queue<std::unique_ptr<Tok>>& q, std::unique_ptr<Tok>& v) { q.wait_and_pop(v); }
   // ---- active ----
   void a_send(kjellkod::Active& a, kjellkod::Callback c) { a.send(c); }
   std::unique_ptr<kjellkod::Active> a_create() { return kjellkod::Active::createActive(); }
   // ---- sinks ----
   std::unique_ptr<g3::SinkHandle<Sink>> addMsgSink(g3::LogWorker& w, std::unique_ptr<Sink> s) { return w.addSink(std::move(s), &Sink::recvMsg); }
   std::unique_ptr<g3::SinkHandle<Sink>> addStrSink(g3::LogWorker& w, std::unique_ptr<Sink> s) { return w.addSink(std::move(s), &Sink::recvStr); }
   void removeSink(g3::LogWorker& w, std::unique_ptr<g3::SinkHandle<Sink>> h) { w.removeSink(std::move(h)); }
   void removeAll(g3::LogWorker& w) { w.removeAllSinks(); }
   std::future<int> callCalc(g3::SinkHandle<Sink>& h, int a, const std::string& b) { return h.call(&Sink::calc, a, b); }
   std::future<void> callAct(g3::SinkHandle<Sink>& h, int a) { return h.call(&Sink::act, a); }
   std::weak_ptr<g3::internal::Sink<Sink>> handleSink(g3::SinkHandle<Sink>& h) { return h.sink(); }
   std::future<int> spawn(std::function<int()> f, kjellkod::Active* a) { return g3::spawn_task(f, a); }
   std::future<void> spawnv(std::function<void()> f, kjellkod::Active* a) { return g3::spawn_task(f, a); }
   // ---- messages ----
   void lm_swap(g3::LogMessage& a, g3::LogMessage& b) { swap(a, b); }
   void lm_assign(g3::LogMessage& a, const g3::LogMessage& b) { a = b; }
   g3::LogMessage lm_copy(const g3::LogMessage& b) { return g3::LogMessage(b); }
   g3::LogMessage lm_move(g3::LogMessage& b) { return g3::LogMessage(std::move(b)); }
   std::string lm_render(const g3::LogMessage& m) { return m.toString(); }
   std::string lm_render_with(const g3::LogMessage& m, g3::LogMessage::LogDetailsFunc f) { return m.toString(f); }
   std::string lm_timestamp(const g3::LogMessage& m) { return m.timestamp(); }
   g3::FatalMessage fm_make(const g3::LogMessage& b, int s) { return g3::FatalMessage(b, s); }
   g3::FatalMessage fm_copy(const g3::FatalMessage& b) { return g3::FatalMessage(b); }
   void mover_assign(g3::LogMessageMover& a, const g3::LogMessageMover& b) { a = b; }
   void mover_massign(g3::LogMessageMover& a, g3::LogMessageMover& b) { a = std::move(b); }
   g3::LogMessageMover mover_copy(const g3::LogMessageMover& b) { return g3::LogMessageMover(b); }
   g3::LogMessageMover mover_move(g3::LogMessageMover& b) { return g3::LogMessageMover(std::move(b)); }
   g3::LogMessage mover_release(g3::LogMessageMover& b) { return b.release(); }
   g3::LogMessagePtr mptr_copy(const g3::LogMessagePtr& b) { return g3::LogMessagePtr(b); }
   void mptr_assign(g3::LogMessagePtr& a, const g3::LogMessagePtr& b) { a = b; }
   g3::FatalMessagePtr fptr_copy(const g3::FatalMessagePtr& b) { return g3::FatalMessagePtr(b); }
   LEVELS lv_copy(const LEVELS& a) { return LEVELS(a); }
   void lv_assign(LEVELS& a, const LEVELS& b) { a = b; }
   void lv_swap(LEVELS& a, LEVELS& b) { swap(a, b); }
   bool lv_eq(const LEVELS& a, const LEVELS& b) { return a == b; }
   bool lv_ne(const LEVELS& a, const LEVELS& b) { return a != b; }
   // ---- macros ----
   int side(int tag);                  // observable side effects, opaque
   bool condv(int tag);
   int condi(int tag);
   Sink* condp(int tag);
   struct Booly { explicit operator bool() const; };
   Booly condb(int tag);
   void mLOG(const LEVELS& l) { LOG(l) << side(1); }
   void mLOG_IF(const LEVELS& l) { LOG_IF(l, condv(2)) << side(1); }
   void mLOGF(const LEVELS& l) { LOGF(l, "%d", side(1)); }
   void mLOGF_IF(const LEVELS& l) { LOGF_IF(l, condv(2), "%d", side(1)); }
   void mCHECK() { CHECK(condv(2)) << side(1); }
   void mCHECKF() { CHECKF(condv(2), "%d", side(1)); }
   void mCHECK_F() { CHECK_F(condv(2), "%d", side(1)); }
   void mCHECKi() { CHECK(condi(2)) << side(1); }
   void mCHECKFi() { CHECKF(condi(2), "%d", side(1)); }
   void mCHECK_Fi() { CHECK_F(condi(2), "%d", side(1)); }
   int mElse(const LEVELS& l, bool a) { if (a) LOG(l) << side(1); else return 7; return 3; }
   int mElseIf(const LEVELS& l, bool a) { if (a) LOG_IF(l, condv(2)) << side(1); else return 7; return 3; }
   int mElseC(bool a) { if (a) CHECK(condv(2)) << side(1); else return 7; return 3; }
}
namespace client {
   // ---- time ----
   std::string frac_ms(const g3::system_time_point& t) { return g3::internal::to_string(t, g3::internal::Fractional::Millisecond); }
   std::string frac_us(const g3::system_time_point& t) { return g3::internal::to_string(t, g3::internal::Fractional::Microsecond); }
   std::string frac_ns(const g3::system_time_point& t) { return g3::internal::to_string(t, g3::internal::Fractional::Nanosecond); }
   std::string frac_nd(const g3::system_time_point& t) { return g3::internal::to_string(t, g3::internal::Fractional::NanosecondDefault); }
   g3::system_time_point to_sys(const g3::high_resolution_time_point& t) { return g3::to_system_time(t); }
}
namespace client {
   // ---- file sink ----
   std::string fs_name(const std::string& prefix, const std::string& dir, const std::string& id, size_t n) { g3::FileSink s(prefix, dir, id, n); return s.fileName(); }
   std::string fs_name_default(const std::string& prefix, const std::string& dir) { g3::FileSink s(prefix, dir); return s.fileName(); }
}
namespace client {
   g3::FileSink* fs_new(const std::string& prefix, const std::string& dir, const std::string& id, size_t n) { return new g3::FileSink(prefix, dir, id, n); }
   void fs_write(g3::FileSink& s, const g3::LogMessage& m) { s.fileWrite(g3::LogMessageMover(g3::LogMessage(m))); }
   std::string fs_change(g3::FileSink& s, const std::string& dir, const std::string& id) { return s.changeLogFile(dir, id); }
   std::string fs_current(g3::FileSink& s) { return s.fileName(); }
   void fs_details(g3::FileSink& s, g3::LogMessage::LogDetailsFunc f) { s.overrideLogDetails(f); }
   void fs_header(g3::FileSink& s, const std::string& h) { s.overrideLogHeader(h); }
   void fs_delete(g3::FileSink* s) { delete s; }
}
