// cfg: def
// libs: -pthread
// time: 240
// Bounded stress test of shared_queue: producers and consumers with injected yields, spurious wakeups and delayed notifications.
#include "common.hpp"
#include <g3log/shared_queue.hpp>
#include <thread>
#include <atomic>
#include <memory>
#include "chaos.hpp"
using namespace vc;
struct It { int prod = -1, n = -1; std::unique_ptr<int> own; };
static void round_(int np, int nc, int each, int polls, int burst) {
   shared_queue<It> q; std::vector<std::vector<std::pair<int, int>>> got(nc + polls); std::vector<std::thread> th; std::atomic<int> taken{0}; int total = np * each; std::atomic<bool> badsize{false}, altered{false};
   for (int c = 0; c < nc; ++c) th.emplace_back([&, c] { for (;;) { It i; q.wait_and_pop(i); if (i.prod == -2) break; if (i.prod < 0 || !i.own || *i.own != i.n) altered = true; got[c].push_back({i.prod, i.n}); ++taken; } });
   for (int c = 0; c < polls; ++c) th.emplace_back([&, c] { while (taken < total) { It i; i.n = 77; if (q.try_and_pop(i)) { if (i.prod < 0 || !i.own || *i.own != i.n) altered = true; got[nc + c].push_back({i.prod, i.n}); ++taken; } else { if (i.n != 77) altered = true; std::this_thread::yield(); } if (q.size() > (unsigned)(total + nc)) badsize = true; (void)q.empty(); } });
   std::vector<std::thread> pr;
   for (int p = 0; p < np; ++p) pr.emplace_back([&, p] { for (int n = 0; n < each; ++n) { It i; i.prod = p; i.n = n; i.own.reset(new int(n)); q.push(std::move(i)); if (burst && n % burst == 0) usleep(20); } });
   for (auto& t : pr) t.join();
   while (taken < total) usleep(200);
   for (int c = 0; c < polls; ++c) th[nc + c].join();  // (a polling consumer must not take one of the items below)
   th.resize(nc);
   // every waiting consumer must be reachable
   for (int c = 0; c < nc; ++c) { It i; i.prod = -2; q.push(std::move(i)); }
   for (auto& t : th) t.join();
   VC_EXPECT("size", !badsize && q.size() == 0 && q.empty(), "size out of range"); VC_EXPECT("altered", !altered, "an item or an untouched output was altered");
   std::map<std::pair<int, int>, int> seen; for (auto& g : got) { std::map<int, int> last; for (auto& e : g) { ++seen[e]; auto l = last.find(e.first); if (l != last.end() && l->second >= e.second) { fail("order", "producer %d: item %d taken after %d by one consumer", e.first, e.second, l->second); return; } last[e.first] = e.second; } }
   for (auto& s : seen) if (s.second != 1) { fail("once", "item %d/%d was taken %d times", s.first.first, s.first.second, s.second); return; }
   VC_EXPECT("all", (int)seen.size() == total, seen.size() << " of " << total << " items taken");
}
static void sequential() {
   shared_queue<std::string> q; std::vector<std::string> m; size_t head = 0;
   for (int i = 0; i < 20000; ++i) {
      switch (rnd(5)) {
         case 0: case 1: { std::string s = rstr("abc", 9) + std::to_string(i); q.push(s); m.push_back(s); break; }
         case 2: { std::string o = "untouched"; bool r = q.try_and_pop(o); bool w = head < m.size(); VC_EXPECT("try", r == w && o == (w ? m[head] : std::string("untouched")), "try_and_pop gave " << r << " " << show(o)); if (w) ++head; break; }
         case 3: if (head < m.size()) { std::string o; q.wait_and_pop(o); VC_EXPECT("wait", o == m[head], "wait_and_pop gave " << show(o) << ", expected " << show(m[head])); ++head; } break;
         default: VC_EXPECT("size", q.size() == m.size() - head && q.empty() == (m.size() == head), "size " << q.size() << ", expected " << m.size() - head);
      }
      if (failures) return;
   }
}
int main(int argc, char** argv) {
   start(argc, argv); sequential(); unsigned n = thorough ? 1200 : 150;
   for (unsigned i = 0; i < n && !failures; ++i) {
      int np = 1 + rnd(4), nc = rnd(5), pl = nc ? rnd(3) : 1 + rnd(2), each = 50 + rnd(400), burst = rnd(3) ? 0 : 1 + rnd(20); unsigned ch = rnd(4) ? 1 + rnd(5) : 0;
      Res r = child([&] { chaos = ch; int b = failures; round_(np, nc, each, pl, burst); _exit(failures > b ? 3 : 0); }, 90); ++cases;
      std::ostringstream what; what << np << " producers, " << nc << " blocking and " << pl << " polling consumers, " << each << " items each";
      if (r.timeout) fail("lost-wakeup", what.str() + ": an item and a waiting consumer, yet nothing happens for 90 s");
      else if (WIFSIGNALED(r.status)) fail("crash", what.str() + ": " + st(r));
      else if (WEXITSTATUS(r.status)) ++failures;
   }
   return finish();
}
