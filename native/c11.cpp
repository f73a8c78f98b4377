// cfg: def
// Bounded test: what reaches the sinks (or the fatal handler) is what the log statement said.
#include "common.hpp"
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <g3log/logcapture.hpp>
#include <g3log/crashhandler.hpp>
#include <thread>
#include <mutex>
using namespace vc;
struct Sink { std::vector<g3::LogMessage>* v; std::mutex* m; void recv(g3::LogMessageMover x) { std::lock_guard<std::mutex> l(*m); v->push_back(x.get()); } };
static std::vector<g3::LogMessage> got; static std::mutex gm; static std::vector<g3::FatalMessage> fatals;
static std::string base(const std::string& p) { auto i = p.find_last_of("/\\"); return i == std::string::npos ? p : p.substr(i + 1); }
static std::string any(unsigned n) { std::string s; unsigned k = rnd(n); for (unsigned i = 0; i < k; ++i) { char c = (char)(rnd(8) ? "abcXYZ019_-.(){}[] :/\\%\n\t"[rnd(25)] : 1 + rnd(255)); s += c; } if (!strs.empty() && rnd(6) == 0) s = strs[rnd(strs.size())].c_str(); return s; }
template <class F> static std::vector<g3::LogMessage> messages(F f) {
   { std::lock_guard<std::mutex> l(gm); got.clear(); } fatals.clear(); f();
   g3::internal::saveMessage("FENCE", "", 0, "", INFO, "", 0, "");
   for (int i = 0; i < 100000; ++i) { { std::lock_guard<std::mutex> l(gm); if (!got.empty() && got.back().message() == "FENCE") { auto r = got; r.pop_back(); return r; } } usleep(i < 100 ? 10 : 1000); }
   vc::fail("fence", "a message never arrived"); exit(vc::finish());
}
int main(int argc, char** argv) {
   start(argc, argv);
   auto w = g3::LogWorker::createLogWorker(); auto h = w->addSink(std::unique_ptr<Sink>(new Sink{&got, &gm}), &Sink::recv); g3::initializeLogging(w.get());
   g3::setFatalExitHandler([](g3::FatalMessagePtr m) { fatals.push_back(*m.get()); });
   unsigned n = thorough ? 40000 : 6000;
   // what fatal messages add, learnt from the real stack dumper interface
   for (unsigned i = 0; i < n; ++i) {
      std::string text = any(rnd(6) ? 60 : rnd(200) ? 5000 : 300000), file = any(50), fn = any(30), ex = any(20), dump = "dump<" + std::to_string(i) + ">"; int line = rint(), val = rint(), sig = rnd(2) ? SIGABRT : 1 + rnd(31); LEVELS lv{val, any(12)};
      auto t0 = std::chrono::system_clock::now();
      auto r = messages([&] {
         char* b[5]; std::string s[5] = {file, fn, ex, dump, ""};
         for (int k = 0; k < 4; ++k) b[k] = strdup(s[k].c_str());
         { std::unique_ptr<LEVELS> l(new LEVELS(lv)); LogCapture c(b[0], line, b[1], *l, b[2], sig, b[3]); c.stream() << text.substr(0, text.size() / 2); c.stream() << text.substr(text.size() / 2); }
         for (int k = 0; k < 4; ++k) { memset(b[k], '#', s[k].size()); free(b[k]); }
      });
      auto t1 = std::chrono::system_clock::now(); bool fatal = val >= 1000;
      VC_EXPECT("once", r.size() == (fatal ? 0u : 1u) && fatals.size() == (fatal ? 1u : 0u), "level value " << val << " gave " << r.size() << " messages and " << fatals.size() << " fatal messages");
      if (r.size() + fatals.size() != 1) continue;
      const g3::LogMessage& m = fatal ? static_cast<const g3::LogMessage&>(fatals[0]) : r[0];
      std::string full = text; if (fatal) full += "\n*******\tSTACKDUMP *******\n" + dump;
      bool rec = fatal && m.message().compare(0, full.size(), full) == 0;   // later fatal events are marked as recursive crashes (C09)
      VC_EXPECT("text", m.message() == full || rec, "text " << show(m.message()) << " instead of " << show(full));
      VC_EXPECT("attr", m.file_path() == file, "path " << show(m.file_path()) << " instead of " << show(file));
      VC_EXPECT("attr", m.file() == base(file), "file " << show(m.file()) << " of " << show(file));
      VC_EXPECT("attr", m._line == line && m.function() == fn && m.expression() == ex && m._level.value == val && m.level() == lv.text, "line/function/expression/level of the message differ: " << m.line() << " " << show(m.function()) << " " << show(m.expression()) << " " << m._level.value);
      VC_EXPECT("attr", m._call_thread_id == std::this_thread::get_id() && m._timestamp >= t0 && m._timestamp <= t1, "thread or time of the message differ");
      if (fatal) VC_EXPECT("attr", fatals[0]._signal_id == sig, "signal " << fatals[0]._signal_id << " instead of " << sig);
      VC_EXPECT("fatal", g3::internal::wasFatal(lv) == fatal, "wasFatal of " << val);
   }
   // statements
   auto one = [&](std::vector<g3::LogMessage> r, const std::string& text, const int& line, const std::string& what) {
      VC_EXPECT("macro", r.size() == 1, what << " gave " << r.size() << " messages"); if (r.size() != 1) return;
      VC_EXPECT("macro", r[0].message() == text, what << " has text " << show(r[0].message()) << " instead of " << show(text));
      VC_EXPECT("macro", r[0]._line == line && r[0].file() == base(__FILE__) && r[0].file_path() == __FILE__ && r[0].expression() == "", what << " has wrong call-site data " << r[0].file() << ":" << r[0].line());
      VC_EXPECT("macro", contains(r[0].function(), "operator()") || contains(r[0].function(), "main"), what << " has function " << show(r[0].function()));
   };
   for (int i = 0; i < 50; ++i) {
      std::string s = any(100), t = s; int k = rint(), L = 0;
      one(messages([&] { L = __LINE__; LOG(WARNING) << s << k; }), s + std::to_string(k), L, "LOG");
      one(messages([&] { L = __LINE__; LOG_IF(INFO, k == k) << s << k; }), s + std::to_string(k), L, "LOG_IF");
      one(messages([&] { L = __LINE__; LOGF(DEBUG, "%s|%d", s.c_str(), k); }), s + "|" + std::to_string(k), L, "LOGF");
      one(messages([&] { L = __LINE__; LOGF_IF(INFO, true, "%s|%d", s.c_str(), k); }), s + "|" + std::to_string(k), L, "LOGF_IF");
      auto fat = [&](const std::string& text, const int& line, const std::string& expr, const LEVELS& lv, const std::string& what) {
         VC_EXPECT("contract", fatals.size() == 1, what << " gave " << fatals.size() << " fatal messages"); if (fatals.size() != 1) return;
         auto& m = fatals[0];
         VC_EXPECT("contract", m.message().compare(0, text.size(), text) == 0 && contains(m.message(), "STACKDUMP"), what << " has text " << show(m.message()));
         VC_EXPECT("contract", m.expression() == expr && m._level == lv && m._line == line && m.file() == base(__FILE__) && m._signal_id == SIGABRT, what << " has expression " << show(m.expression()) << " level " << m.level() << " line " << m.line());
      };
      messages([&] { L = __LINE__; CHECK(k != k) << s << k; }); fat(s + std::to_string(k), L, "k != k", g3::internal::CONTRACT, "CHECK");
      messages([&] { L = __LINE__; CHECKF(k == k + 0 * k && t != s, "%s|%d", s.c_str(), k); }); fat(s + "|" + std::to_string(k), L, "k == k + 0 * k && t != s", g3::internal::CONTRACT, "CHECKF");
      messages([&] { L = __LINE__; CHECK_F(false, "%s", s.c_str()); }); fat(s, L, "false", g3::internal::CONTRACT, "CHECK_F");
      messages([&] { L = __LINE__; LOG(FATAL) << s; }); fat(s, L, "", FATAL, "LOG(FATAL)");
   }
   { auto r = messages([&] { LOG(INFO) << std::string("before\0after", 12); }); VC_EXPECT("embedded-nul", r.size() == 1 && r[0].message() == std::string("before\0after", 12), "text with an embedded NUL character is cut: " << show(r.empty() ? "" : r[0].message())); }
   return finish();
}
