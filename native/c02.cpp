// cfg: def
// libs: -pthread
// time: 240
// Bounded stress test of the background worker: many submitters, nested submissions, destruction while work is queued, disturbed schedules.
#include "common.hpp"
#include <g3log/active.hpp>
#include <vector>
#include "chaos.hpp"
using namespace vc; using kjellkod::Active;
static bool badly = false;
#define CHECK_(id, c, w) do { ++cases; if (!(c)) { std::ostringstream o_; o_ << w; fail(id, o_.str()); badly = true; } } while (0)
static void round_(int submitters, int tasks, int lag, int nest, bool pause) {
   std::vector<std::vector<int>> seen(submitters), nestq(submitters); std::atomic<int> running{0}, overlap{0}, nested{0}, inlined{0}, ran{0}, want{0}; std::vector<std::thread::id> ids; std::vector<std::thread> th;
   auto enter = [&] { if (running.fetch_add(1) != 0) ++overlap; auto me = std::this_thread::get_id(); if (ids.empty() || ids.back() != me) ids.push_back(me); };
   auto a = Active::createActive(); Active* p = a.get(); std::thread::id main_ = std::this_thread::get_id();
   for (int s = 0; s < submitters; ++s) th.emplace_back([&, s] {
      for (int k = 0; k < tasks; ++k) {
         p->send([&, s, k, p] {
            enter(); seen[s].push_back(k); if (lag && chaos_r() % 16 == 0) usleep(lag);
            if (nest && k % nest == 0) { int before = nested; ++want; p->send([&, s, k] { enter(); ++nested; nestq[s].push_back(k); --running; }); if (nested != before) ++inlined; }
            --running; ++ran; });
         if (pause && chaos_r() % 8 == 0) usleep(chaos_r() % 30);
      } });
   for (auto& t : th) t.join();
   if (nest) { while (ran != submitters * tasks) usleep(100); }     // nested submissions come before the destruction, too
   a.reset();
   CHECK_("overlap", !overlap, "two tasks ran at once");
   CHECK_("thread", ids.size() <= 1 && (ids.empty() || ids[0] != main_), "tasks ran on " << ids.size() << " threads or on the submitter's");
   CHECK_("inline", !inlined, "a task submitted from inside a task ran at once");
   CHECK_("count", ran == submitters * tasks && nested == want, "executed " << ran << " of " << submitters * tasks << " tasks, " << nested << " of " << want << " nested ones");
   for (auto* q : {&seen, &nestq}) for (auto& v : *q) for (size_t i = 1; i < v.size(); ++i) if (v[i] <= v[i - 1]) { CHECK_("order", false, "tasks of one submitter ran out of order: " << v[i - 1] << " before " << v[i]); break; }
}
static void drain(int k, int us) {
   std::atomic<int> n{0}; auto a = Active::createActive(); if (chaos_r() % 2) usleep(us);
   for (int i = 0; i < k; ++i) a->send([&n, us] { usleep(us); ++n; });
   a.reset(); int got = n; CHECK_("drain", got == k, "destroying the worker executed " << got << " of " << k << " tasks submitted before"); usleep(200); CHECK_("late", n == got, "a task ran after the worker's destruction");
}
int main(int argc, char** argv) {
   start(argc, argv); unsigned n = thorough ? 1000 : 120;
   for (unsigned i = 0; i < n && !failures; ++i) {
      int s = 1 + rnd(4), t = 1 + rnd(300), lag = rnd(2) ? 0 : rnd(60), nest = rnd(2) ? 0 : 1 + rnd(9), k = rnd(30), us = rnd(300); bool pause = rnd(2); unsigned ch = rnd(4) ? 1 + rnd(5) : 0;
      Res r = child([&] { chaos = ch; round_(s, t, lag, nest, pause); for (int j = 0; j < 10; ++j) { drain(j ? k : 0, us); drain(1 + j % 3, 500); } _exit(badly ? 3 : 0); }, 90); ++cases;
      std::ostringstream what; what << s << " submitters, " << t << " tasks each, nested every " << nest;
      if (r.timeout) fail("hang", what.str() + ": nothing happens for 90 s");
      else if (WIFSIGNALED(r.status)) fail("crash", what.str() + ": " + st(r));
      else if (WEXITSTATUS(r.status)) ++failures;
   }
   for (int k : {1000, 20000, thorough ? 500000 : 100000}) {
      Res r = child([&] { std::atomic<int> n{0}; std::atomic<bool> go{false}; auto a = Active::createActive(); a->send([&] { while (!go) usleep(100); usleep(100000); }); for (int i = 0; i < k; ++i) a->send([&] { ++n; }); go = true; a.reset(); CHECK_("backlog", n == k, "destroying the worker executed " << n << " of " << k << " waiting tasks"); _exit(badly ? 3 : 0); }, 120); ++cases;
      if (r.timeout) fail("hang", "a backlog of " + std::to_string(k) + " tasks is not executed within 120 s"); else if (WIFSIGNALED(r.status)) fail("crash", st(r)); else if (WEXITSTATUS(r.status)) ++failures;
   }
   return finish();
}
