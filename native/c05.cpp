// cfg: def
// libs: -pthread
// time: 240
// Bounded stress test: calls through handles from several threads, mixed with messages, while sinks are removed.
#include "common.hpp"
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <g3log/future.hpp>
#include <vector>
#include "chaos.hpp"
using namespace vc;
struct Ev { int thr, k, kind; std::string text; std::thread::id tid; };
struct Rec { std::vector<Ev> ev; std::atomic<bool> dead{false}; bool late = false; int lag = 0; };
struct Err { int t, k; };
struct S {
   Rec* r; S(Rec* p) : r(p) {} S(const S&) = delete; ~S() { r->dead = true; }
   void note(int t, int k, int kind, std::string s) { if (r->dead) r->late = true; r->ev.push_back({t, k, kind, std::move(s), std::this_thread::get_id()}); if (r->lag && chaos_r() % 4 == 0) usleep(chaos_r() % r->lag); }
   void recv(g3::LogMessageMover m) { int t = -1, k = -1; sscanf(m.get().message().c_str(), "M#%d,%d$", &t, &k); note(t, k, 0, ""); }
   std::string join(int t, int k, const std::string& s) { note(t, k, 1, s); if (k % 5 == 0) throw Err{t, k}; return s + "|" + std::to_string(t * 1000 + k); }
   void act(int t, int k) { note(t, k, 2, ""); if (k % 7 == 0) throw std::runtime_error("act " + std::to_string(k)); }
   std::unique_ptr<int> own(int t, int k, std::vector<int> v) { note(t, k, 3, std::to_string(v.size())); return std::unique_ptr<int>(new int(v.empty() ? -1 : v.back())); }
};
static bool badly = false;
#define CHECK_(id, c, w) do { ++cases; if (!(c)) { std::ostringstream o_; o_ << w; fail(id, o_.str()); badly = true; } } while (0)
static std::mutex mu; template <class F> static void under(F f) { std::lock_guard<std::mutex> l(mu); f(); }
static void round_(int nt, int each, int lag, bool drop) {
   Rec r; r.lag = lag; std::vector<std::vector<int>> executed(nt, std::vector<int>(each, -1));   // 1: must have been, 0: must not
   { auto w = g3::LogWorker::createLogWorker(); auto h = w->addSink(std::make_unique<S>(&r), &S::recv); g3::initializeLogging(w.get());
     g3::SinkHandle<S> copy(*h); std::atomic<int> done{0}; std::vector<std::thread> th; int dropat = drop ? rnd(nt * each) : -1;
     for (int t = 0; t < nt; ++t) th.emplace_back([&, t] {
        unsigned x = t * 7919u + each; std::vector<std::pair<int, std::future<std::string>>> fs; std::vector<std::pair<int, std::future<void>>> fv; std::vector<std::pair<int, std::future<std::unique_ptr<int>>>> fo;
        for (int k = 0; k < each; ++k) { x = x * 1664525u + 1013904223u; ++done;
           switch (x >> 29) {
           case 0: case 1: case 2: { std::string s(x >> 20 & 255, 'a' + k % 26); int kk = k; fs.emplace_back(k, copy.call(&S::join, t, kk, s)); s.assign(s.size(), '#'); kk = -5; break; }
           case 3: case 4: fv.emplace_back(k, copy.call(&S::act, t, k)); break;
           case 5: { std::vector<int> v(k + 1, k); fo.emplace_back(k, copy.call(&S::own, t, k, v)); v.assign(1, -1); break; }
           default: executed[t][k] = 2; LOG(INFO) << "M#" << t << "," << k << "$"; }
        }
        auto gone = [&](int k) { executed[t][k] = 0; if (!drop) under([&] { CHECK_("gone", false, "call " << k << " of thread " << t << " says the sink is gone"); }); };
        for (auto& p : fs) { int k = p.first; try { auto s = p.second.get(); executed[t][k] = 1; under([&] { CHECK_("result", k % 5 != 0 && s.size() > 0 && s.substr(s.find('|')) == "|" + std::to_string(t * 1000 + k) && s.substr(0, s.find('|')).find_first_not_of((char)('a' + k % 26)) == std::string::npos, "call " << k << " of thread " << t << " yields " << show(s)); }); }
           catch (const Err& e) { executed[t][k] = 1; under([&] { CHECK_("exception", k % 5 == 0 && e.t == t && e.k == k, "call " << k << " of thread " << t << " yields the exception of call " << e.k); }); }
           catch (const std::bad_weak_ptr&) { gone(k); } catch (const std::exception& e) { under([&] { CHECK_("exception", false, "call " << k << " yields " << e.what()); }); } }
        for (auto& p : fv) { int k = p.first; try { p.second.get(); executed[t][k] = 1; under([&] { CHECK_("result", k % 7 != 0, "the exception of call " << k << " is lost"); }); }
           catch (const std::bad_weak_ptr&) { gone(k); } catch (const std::exception& e) { executed[t][k] = 1; under([&] { CHECK_("exception", k % 7 == 0 && "act " + std::to_string(k) == e.what(), "call " << k << " yields " << e.what()); }); } }
        for (auto& p : fo) { int k = p.first; try { auto u = p.second.get(); executed[t][k] = 1; under([&] { CHECK_("result", u && *u == k, "call " << k << " yields something else"); }); } catch (const std::bad_weak_ptr&) { gone(k); } catch (const std::exception& e) { under([&] { CHECK_("exception", false, "call " << k << " yields " << e.what()); }); } }
     });
     if (drop) { while (done < dropat) usleep(10); w->removeSink(std::move(h)); }
     for (auto& t : th) t.join();
     if (drop) { CHECK_("owner", r.dead, "the handle keeps the sink alive"); CHECK_("owner", !copy.sink().lock(), "the handle of a removed sink yields a sink"); size_t n = r.ev.size(); auto f = copy.call(&S::act, 9, 9); bool ok = false; try { f.get(); } catch (const std::bad_weak_ptr&) { ok = true; } catch (...) {} CHECK_("gone", ok && r.ev.size() == n, "a call to a removed sink yields no bad_weak_ptr"); }
   }
   CHECK_("late", !r.late, "a destroyed sink is called"); CHECK_("owner", r.dead, "the sink outlives the log worker");
   std::vector<std::vector<int>> seen(nt, std::vector<int>(each, 0)); std::vector<int> last(nt, -1);
   for (auto& e : r.ev) {
      if (e.thr < 0 || e.thr >= nt || e.k < 0 || e.k >= each) { CHECK_("args", false, "called with " << e.thr << ", " << e.k); break; }
      ++seen[e.thr][e.k]; CHECK_("thread", e.tid == r.ev[0].tid, "calls and messages are carried out on different threads");
      if (e.kind == 1) CHECK_("args", e.text.find_first_not_of((char)('a' + e.k % 26)) == std::string::npos, "call " << e.k << " gets " << show(e.text)); if (e.kind == 3) CHECK_("args", e.text == std::to_string(e.k + 1), "call " << e.k << " gets a vector of " << e.text);
      if (e.kind) { CHECK_("order", last[e.thr] < e.k, "call " << e.k << " of thread " << e.thr << " carried out after call " << last[e.thr]); last[e.thr] = e.k; }
      if (badly) break;
   }
   for (int t = 0; t < nt && !badly; ++t) for (int k = 0; k < each; ++k) { int e = executed[t][k]; CHECK_("once", e == 2 ? drop || seen[t][k] == 1 : seen[t][k] == e, (e == 2 ? "message " : "call ") << k << " of thread " << t << " carried out " << seen[t][k] << " times"); if (badly) break; }
}
static void spawn() {
   auto f = g3::spawn_task([] { return 3; }, (kjellkod::Active*)nullptr); bool e = false; try { f.get(); } catch (const std::exception&) { e = true; } CHECK_("null", e, "a task for no worker yields no error");
   auto a = kjellkod::Active::createActive(); std::atomic<int> n{0}; auto g = g3::spawn_task([&] { ++n; return std::string("x"); }, a.get()); CHECK_("spawn", g.get() == "x" && n == 1, "spawn_task"); auto v = g3::spawn_task([&] { ++n; throw 5; }, a.get()); int got = 0; try { v.get(); } catch (int i) { got = i; } CHECK_("spawn", got == 5 && n == 2, "spawn_task with exception");
}
// messages forwarded to the sink before a call are carried out before it
static void mixed(int n) {
   Rec r; { auto w = g3::LogWorker::createLogWorker(); auto h = w->addSink(std::make_unique<S>(&r), &S::recv); g3::initializeLogging(w.get()); std::vector<std::future<void>> f;
     for (int k = 0; k < n; ++k) { LOG(INFO) << "M#0," << k << "$"; w->removeSink(std::unique_ptr<g3::SinkHandle<S>>()); auto* tr = new Rec; auto t = w->addSink(std::make_unique<S>(tr), &S::recv); f.push_back(h->call(&S::act, 1, k * 7 + 1)); t->call(&S::act, 1, 1); w->removeSink(std::move(t)); CHECK_("owner", tr->dead && tr->ev.size() == 1, "a sink called through its handle outlives its removal"); }
     for (auto& x : f) x.wait(); }
   CHECK_("mixed", (int)r.ev.size() == 2 * n, r.ev.size() << " of " << 2 * n); for (size_t i = 0; i < r.ev.size() && !badly; ++i) CHECK_("mixed", r.ev[i].kind == (i % 2 ? 2 : 0) && r.ev[i].k == (int)(i % 2 ? i / 2 * 7 + 1 : i / 2), "message and call out of order at " << i);
}
int main(int argc, char** argv) {
   start(argc, argv); unsigned n = thorough ? 15000 : 1500;
   for (unsigned i = 0; i < n && !failures; ++i) {
      int t = 1 + rnd(4), e = 1 + rnd(120), lag = rnd(2) ? 0 : 1 + rnd(60); bool d = rnd(2); unsigned ch = rnd(4) ? 1 + rnd(5) : 0, m = rnd(20);
      Res r = child([&] { chaos = ch; if (m == 0) spawn(); else if (m == 1) mixed(1 + rnd(20)); else round_(t, e, lag, d); _exit(badly ? 3 : 0); }, 90); ++cases;
      std::ostringstream what; what << t << " threads, " << e << " calls each" << (d ? ", sink removed meanwhile" : "");
      if (r.timeout) fail("hang", what.str() + ": nothing happens for 90 s");
      else if (WIFSIGNALED(r.status)) fail("crash", what.str() + ": " + st(r));
      else if (WEXITSTATUS(r.status)) ++failures;
   }
   return finish();
}
