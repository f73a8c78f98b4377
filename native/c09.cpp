// cfg: def
// libs: -pthread
// time: 240
// Bounded stress test: random sequences of setting hooks, initializing and fatal events (also from inside the hook, and on several threads) against a model.
#include "common.hpp"
#include <g3log/crashhandler.hpp>
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <atomic>
#include <mutex>
#include <thread>
#include "chaos.hpp"
using namespace vc;
namespace g3 { namespace internal { void saveMessage(const char*, const char*, int, const char*, const LEVELS&, const char*, int, const char*); } }
static void put(const std::string& s) { (void)!write(1, s.data(), s.size()); }
static const LEVELS mine{1500, {"MYFATAL"}};
static int seq = 0;
struct Ev { std::string text, trace; int sig; };
static Ev make() { Ev e; ++seq; e.text = "text" + std::to_string(seq) + rstr("ab %\n", 12) + "|"; e.trace = "<trace" + std::to_string(seq) + rstr("xy", 6) + ">"; e.sig = 1 + rnd(20); return e; }
static void strike(const Ev& e) { g3::internal::saveMessage(e.text.c_str(), "f.cpp", 1, "fn", mine, "", e.sig, e.trace.c_str()); }
struct Got { std::string m; int sig; std::thread::id th; };
static std::vector<std::string> order; static std::vector<Got> got; static std::mutex mu;
static void custom(g3::FatalMessagePtr p) { std::lock_guard<std::mutex> l(mu); order.push_back("message"); got.push_back({p.get()->_message, p.get()->_signal_id, std::this_thread::get_id()}); }
static void history() {
   auto w = g3::LogWorker::createLogWorker(); g3::initializeLogging(w.get()); g3::setFatalExitHandler(custom);
   bool set = false, other = false; int nested = 0; std::string first, log; std::vector<Ev> inner; int ran = 0;
   auto hook = [&](int k) { return [&, k] { order.push_back("hook"); ++ran; for (int i = 0; i < k; ++i) { inner.push_back(make()); if (rnd(3)) strike(inner.back()); else std::thread([&] { strike(inner.back()); }).join(); } }; };
   for (int i = 0, n = 1 + rnd(12); i < n && !failures; ++i) switch (rnd(5)) {
      case 0: nested = rnd(3); set = true; g3::setFatalPreLoggingHook(hook(nested)); log += " set-hook(" + std::to_string(nested) + ")"; break;
      case 1: g3::internal::shutDownLogging(); g3::initializeLogging(w.get()); set = other = false; log += " initialize"; break;
      case 2: LOG(INFO) << "hello"; log += " log"; break;
      default: {
         Ev e = make(); if (first.empty()) first = e.trace; order.clear(); got.clear(); inner.clear(); ran = 0; log += " fatal"; strike(e);
         int k = set ? nested : 0;
         VC_EXPECT("once", ran == (set ? 1 : 0), "after" << log << ": the hook ran " << ran << " times");
         VC_EXPECT("handler", (int)got.size() == k + 1, "after" << log << ": the handler got " << got.size() << " messages, expected " << k + 1);
         if ((int)got.size() != k + 1) return;
         if (set) VC_EXPECT("order", order[0] == "hook", "after" << log << ": the hook did not run first");
         for (int j = 0; j <= k; ++j) { const Ev& x = j < k ? inner[j] : e; VC_EXPECT("complete", got[j].m.compare(0, x.text.size() + x.trace.size(), x.text + x.trace) == 0 && got[j].sig == x.sig, "after" << log << ": message " << show(got[j].m) << " with signal " << got[j].sig << ", expected " << show(x.text + x.trace) << " and " << x.sig); }
         for (int j = 0; j < k; ++j) { std::string rest = got[j].m.substr(inner[j].text.size() + inner[j].trace.size()); VC_EXPECT("recursive", contains(rest, "recursive crash") && contains(rest, first), "after" << log << ": the message of an event raised by the hook is " << show(got[j].m)); }
         if (!other && !k) VC_EXPECT("unmarked", got[0].m == e.text + e.trace, "after" << log << ": the only fatal event since initialization has the message " << show(got[0].m));
         set = false; other = true;
      } }
   g3::internal::shutDownLogging();
}
static void race(int nt) {
   auto w = g3::LogWorker::createLogWorker(); g3::initializeLogging(w.get()); g3::setFatalExitHandler(custom);
   for (int i = 0; i < 150 && !failures; ++i) {
      std::atomic<int> ran{0}, ready{0}; std::thread::id who; std::atomic<bool> early{false}; got.clear(); order.clear(); std::vector<Ev> ev; for (int t = 0; t < nt; ++t) ev.push_back(make());
      g3::setFatalPreLoggingHook([&] { ++ran; who = std::this_thread::get_id(); if (chaos) usleep(chaos_r() % 100); std::lock_guard<std::mutex> l(mu); for (auto& g : got) if (g.th == who) early = true; });
      std::vector<std::thread> th; for (int t = 0; t < nt; ++t) th.emplace_back([&, t] { ++ready; while (ready < nt) {} strike(ev[t]); }); for (auto& t : th) t.join();
      VC_EXPECT("once", ran == 1, nt << " threads failing at the same time: the hook ran " << ran << " times"); VC_EXPECT("handler", (int)got.size() == nt, nt << " threads failing at the same time: " << got.size() << " messages"); VC_EXPECT("order", !early, "the hook ran after its thread's message had been handed over");
      for (auto& e : ev) { int n = 0; for (auto& g : got) n += g.m.compare(0, e.text.size() + e.trace.size(), e.text + e.trace) == 0 && g.sig == e.sig; VC_EXPECT("handler", n == 1, "a fatal message is handed over " << n << " times"); }
   }
   g3::internal::shutDownLogging();
}
struct Sink { void recv(g3::LogMessageMover m) { std::string t = m.get().message(); if (contains(t, "text") || contains(t, "SIG")) put("<M " + t + ">"); } };
/// default handling: the hook's effects precede the message; a hook that crashes
static void real() {
   int kind = rnd(4), hook = rnd(4); bool thread = rnd(2); static bool never = false; static const int D[] = {SIGSEGV, SIGFPE, SIGTERM}; int s = D[rnd(3)];
   Res r = child([&] {
      auto w = g3::LogWorker::createLogWorker(); w->addSink(std::make_unique<Sink>(), &Sink::recv); g3::initializeLogging(w.get());
      g3::setFatalPreLoggingHook([&] { put("<HOOK>"); usleep(1000); if (hook == 1) LOG(FATAL) << "inner"; if (hook == 2 && kind < 3) raise(s); if (hook == 3) CHECK(never) << "inner"; });
      auto go = [&] { switch (kind) { case 0: LOG(FATAL) << "text"; break; case 1: CHECK(never) << "text"; break; case 2: LOGF(FATAL, "%s", "text"); break; default: raise(s); } };
      if (thread) { std::thread t(go); t.join(); } else go();
   }, 60);
   std::ostringstream o; o << "fatal event " << kind << ", hook that " << (hook == 0 ? "returns" : hook == 2 ? "raises a signal" : "logs a fatal message") << ": "; std::string what = o.str();
   if (r.timeout) { fail("hang", what + "the process does not end within 60 s"); return; }
   VC_EXPECT("once", count(r.out, "<HOOK>") == 1, what << "the hook ran " << count(r.out, "<HOOK>") << " times"); size_t h = r.out.find("<HOOK>"), m = r.out.find("<M ");
   VC_EXPECT("order", m != std::string::npos && h < m, what << show(r.out)); bool rec = hook == 1 || hook == 3 || (hook == 2 && kind < 3); int sig = hook == 1 || hook == 3 ? SIGABRT : hook == 2 && kind < 3 ? s : kind < 3 ? SIGABRT : s;
   VC_EXPECT("recursive", !rec || contains(r.out, "recursive crash"), what << "the message of the event raised by the hook is not marked: " << show(r.out));
   VC_EXPECT("signal", WIFSIGNALED(r.status) && WTERMSIG(r.status) == sig, what << "ends with " << st(r));
}
int main(int argc, char** argv) {
   start(argc, argv); unsigned n = thorough ? 20000 : 2500; Res r;
   for (unsigned i = 0; i < n && !failures; ++i) {
      unsigned s = rng(); r = child([&] { rng.seed(s); int f0 = failures; for (int k = 0; k < 1; ++k) history(); put(" cases " + std::to_string(cases)); _exit(failures != f0); }, 60); cases += 20;
      if (r.timeout || r.status) { fail("history", "seed " + std::to_string(s) + ": " + (r.timeout ? "hangs" : st(r))); }
      if (i % 50 == 0) { unsigned c = rnd(2) ? 1 + rnd(5) : 0; int nt = 2 + rnd(4); Res q = child([&] { chaos = c; race(nt); _exit(failures != 0); }, 60); cases += 100; if (q.timeout || q.status) fail("race", std::to_string(nt) + " threads: " + (q.timeout ? std::string("hangs") : st(q))); }
      if (i % 5 == 0) real();
   }
   finish();
}
