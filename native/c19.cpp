// cfg: def,dyn
// Bounded test: what conditional statements and contracts produce and evaluate, for many condition types.
#include "common.hpp"
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <g3log/loglevels.hpp>
#include <mutex>
#include <memory>
#include <optional>
#include <cmath>
using namespace vc;
struct Sink { std::vector<std::string>* v; std::mutex* m; void recv(g3::LogMessageMover x) { std::lock_guard<std::mutex> l(*m); v->push_back(x.get().message()); } };
static std::vector<std::string> got; static std::mutex gm; static int fatals, sides, conds; static bool dyn =
#ifdef G3_DYNAMIC_LOGGING
   true;
#else
   false;
#endif
static int side() { ++sides; return 4711; }
template <class T> static const T& cnd(const T& t) { ++conds; return t; }
template <class F> static size_t messages(F f) {
   { std::lock_guard<std::mutex> l(gm); got.clear(); } fatals = sides = conds = 0; f();
   g3::internal::saveMessage("FENCE", "", 0, "", INFO, "", 0, "");
   for (int i = 0; i < 100000; ++i) { { std::lock_guard<std::mutex> l(gm); if (!got.empty() && got.back() == "FENCE") return got.size() - 1; } usleep(i < 100 ? 10 : 1000); }
   vc::fail("fence", "a message never arrived"); exit(vc::finish());
}
static void judge(const char* what, const char* type, size_t n, int f, bool want, int wc, bool contract) {
   std::string w = std::string(what) + " with a condition of type " + type;
   if ((contract ? (size_t)f : n) != (want ? 1u : 0u)) fail("count", "%s: %d messages, %d fatal events instead of %d", w.c_str(), (int)n, f, want ? 1 : 0);
   if (sides != (want ? 1 : 0)) fail("arguments", "%s: arguments evaluated %d times", w.c_str(), sides);
   if (wc >= 0 && conds != wc) fail("condition", "%s: condition evaluated %d times instead of %d", w.c_str(), conds, wc);
   done();
}
template <class T> static void all(const char* type, const T& v, bool truth) {
   size_t n;
   n = messages([&] { CHECK(cnd(v)) << side(); }); judge("CHECK", type, n, fatals, !truth, 1, true);
   n = messages([&] { CHECKF(cnd(v), "%d", side()); }); judge("CHECKF", type, n, fatals, !truth, 1, true);
   n = messages([&] { CHECK_F(cnd(v), "%d", side()); }); judge("CHECK_F", type, n, fatals, !truth, 1, true);
   for (bool on : {true, false}) {
      if (!on && !dyn) continue;
      LEVELS lv{350, "L"};
#ifdef G3_DYNAMIC_LOGGING
      g3::only_change_at_initialization::addLogLevel(lv, on);
#endif
      n = messages([&] { LOG_IF(lv, cnd(v)) << side(); }); judge("LOG_IF", type, n, 0, truth && on, on, false);
      n = messages([&] { LOGF_IF(lv, cnd(v), "%d", side()); }); judge("LOGF_IF", type, n, 0, truth && on, on, false);
      n = messages([&] { LOG(lv) << side(); }); judge("LOG", type, n, 0, on, 0, false);
      n = messages([&] { LOGF(lv, "%d", side()); }); judge("LOGF", type, n, 0, on, 0, false);
   }
}
struct B { bool b; explicit operator bool() const { return b; } };
struct N { int n; operator int() const { return n; } };
struct P { int* p; operator int*() const { return p; } };
struct E { bool b; operator bool() const { return b; } bool operator==(bool) const { return !b; } friend bool operator==(bool, const E& e) { return !e.b; } };
enum En { zero, one, two = 2, many = 1000 };
int main(int argc, char** argv) {
   start(argc, argv);
   auto w = g3::LogWorker::createLogWorker(); auto h = w->addSink(std::unique_ptr<Sink>(new Sink{&got, &gm}), &Sink::recv); g3::initializeLogging(w.get());
   g3::setFatalExitHandler([](g3::FatalMessagePtr) { ++fatals; });
   all("bool", true, true); all("bool", false, false);
   for (int i : {0, 1, 2, -1, 256, 65536, INT_MIN, INT_MAX}) { all("int", i, i != 0); all("long", (long)i << 20, ((long)i << 20) != 0); all("operator int", N{i}, i != 0); }
   for (auto v : ints) all("long long", v, v != 0);
   for (unsigned long u : {0ul, 1ul, 2ul, 1ul << 63, 1ul << 32}) all("unsigned long", u, u != 0);
   for (double d : {0.0, -0.0, 1.0, 0.5, 2.0, (double)NAN, 1e-300}) all("double", d, d != 0);
   for (int c = -128; c < 128; c += 17) all("signed char", (signed char)c, (signed char)c != 0);
   int x = 0; all("pointer", &x, true); all("pointer", (int*)nullptr, false); all("operator int*", P{&x}, true); all("operator int*", P{nullptr}, false); all("nullptr", nullptr, false); all("function pointer", &side, true);
   for (bool b : {false, true}) { all("explicit operator bool", B{b}, b); all("operator bool and odd comparison", E{b}, b); }
   for (auto e : {zero, one, two, many}) all("enumeration", e, e != zero);
   all("unique_ptr", std::unique_ptr<int>(new int(1)), true); all("unique_ptr", std::unique_ptr<int>(), false); all("shared_ptr", std::shared_ptr<int>(new int(1)), true); all("optional", std::optional<int>(0), true); all("optional", std::optional<int>(), false);
   all("function", std::function<void()>(), false); all("function", std::function<void()>([] {}), true); all("true_type", std::true_type{}, true); all("false_type", std::false_type{}, false);
   // single statements
   for (bool a : {false, true}) for (bool b : {false, true}) {
      int r = 0; size_t n = messages([&] { if (a) LOG_IF(INFO, cnd(b)) << side(); else r = 7; }); if (r != (a ? 0 : 7) || (int)n != (a && b)) fail("else", "LOG_IF in if/else"); done();
      r = 0; n = messages([&] { if (a) CHECK(cnd(b)) << side(); else r = 7; }); if (r != (a ? 0 : 7) || fatals != (a && !b)) fail("else", "CHECK in if/else"); done();
      r = 0; n = messages([&] { if (a) LOGF(INFO, "%d", side()); else r = 7; }); if (r != (a ? 0 : 7) || (int)n != a) fail("else", "LOGF in if/else"); done();
      r = 0; n = messages([&] { if (a) LOG(INFO) << side(); else r = 7; }); if (r != (a ? 0 : 7) || (int)n != a) fail("else", "LOG in if/else"); done();
      r = 0; n = messages([&] { if (a) LOGF_IF(INFO, cnd(b), "%d", side()); else r = 7; }); if (r != (a ? 0 : 7) || (int)n != (a && b)) fail("else", "LOGF_IF in if/else"); done();
      r = 0; n = messages([&] { if (a) CHECKF(cnd(b), "%d", side()); else r = 7; }); if (r != (a ? 0 : 7) || fatals != (a && !b)) fail("else", "CHECKF in if/else"); done();
      r = 0; n = messages([&] { if (a) CHECK_F(cnd(b), "%d", side()); else r = 7; }); if (r != (a ? 0 : 7) || fatals != (a && !b)) fail("else", "CHECK_F in if/else"); done();
      n = messages([&] { LOG(INFO); LOG(INFO) << ""; LOG(WARNING) << std::string(); LOGF(INFO, "%s", ""); LOGF_IF(INFO, true, "%s", ""); LOG_IF(INFO, true); LOG(INFO) << std::string(100000, 'x'); }); if (n != 7) fail("text", "%d of 7 messages arrive with empty and long texts", (int)n); done();
      n = messages([&] { CHECK(false); CHECK(false) << ""; CHECKF(false, "%s", ""); LOG(FATAL); }); if (fatals != 4) fail("text", "%d of 4 fatal events with empty texts", fatals); done();
      n = messages([&] { int i = b ? 1 : 0; LOG_IF(INFO, i || a) << side(); CHECK(a || b ? true : false) << side(); LOG_IF(INFO, a == b) << side(); }); (void)n;
   }
   // every registered and unregistered level, threads
   for (auto& lv : {DEBUG, INFO, WARNING}) {
#ifdef G3_DYNAMIC_LOGGING
      g3::log_levels::disable(lv); size_t n = messages([&] { LOG(lv) << side(); LOG_IF(lv, cnd(true)) << side(); LOGF(lv, "%d", side()); LOGF_IF(lv, cnd(true), "%d", side()); }); if (n || sides || conds) fail("disabled", "a disabled level produces %d messages, %d evaluations", (int)n, sides + conds); g3::log_levels::enable(lv); done();
#endif
      size_t m = messages([&] { LOG(lv) << side(); LOGF(lv, "%d", side()); }); if (m != 2) fail("enabled", "an enabled level produces %d of 2 messages", (int)m); done();
   }
   return finish();
}
