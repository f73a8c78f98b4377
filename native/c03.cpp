// cfg: def
// libs: -pthread
// time: 240
// Bounded stress test: several logging threads, several sinks of both kinds, sinks that alter and keep their messages.
#include "common.hpp"
#include <g3log/g3log.hpp>
#include <g3log/logworker.hpp>
#include <vector>
#include "chaos.hpp"
using namespace vc;
struct Rec { std::vector<std::string> got; std::atomic<int> in{0}; std::atomic<bool> overlap{false}, onlogger{false}; std::vector<std::thread::id> ids; int lag = 0; bool alter = false; };
static std::vector<std::thread::id> loggers;
static void enter(Rec& r) { if (r.in.fetch_add(1)) r.overlap = true; auto me = std::this_thread::get_id(); if (r.ids.empty() || r.ids.back() != me) r.ids.push_back(me); if (r.lag && chaos_r() % 8 == 0) usleep(r.lag); }
struct MsgSink { Rec* r; void recv(g3::LogMessageMover m) { enter(*r); auto& l = m.get(); r->got.push_back(l.message() + "|" + l.level() + "|" + l.line() + "|" + l.function()); if (r->alter) { l.write() = "altered"; l._level = FATAL; l._file = "x"; } --r->in; } };
struct StrSink { Rec* r; void recv(std::string s) { enter(*r); r->got.push_back(s); if (r->alter) s = "altered"; --r->in; } };
static bool badly = false;
#define CHECK_(id, c, w) do { ++cases; if (!(c)) { std::ostringstream o_; o_ << w; fail(id, o_.str()); badly = true; } } while (0)
static std::string tail(const std::string& s) { size_t p = s.find("T#"); return p == std::string::npos ? "?" : s.substr(p, s.find('$', p) - p); }
static void round_(int nt, int each, int ns, int lag, bool alter, bool big) {
   std::vector<Rec> recs(ns); std::string pad(big ? 3000 : 5, 'p');
   { auto w = g3::LogWorker::createLogWorker(); for (int i = 0; i < ns; ++i) { recs[i].lag = i % 2 ? lag : 0; recs[i].alter = alter; if (i % 3 == 2) w->addSink(std::make_unique<StrSink>(StrSink{&recs[i]}), &StrSink::recv); else w->addSink(std::make_unique<MsgSink>(MsgSink{&recs[i]}), &MsgSink::recv); }
     g3::initializeLogging(w.get());
     std::vector<std::thread> th; for (int t = 0; t < nt; ++t) th.emplace_back([&, t] { for (int k = 0; k < each; ++k) { if (k % 3) LOG(INFO) << "T#" << t << "," << k << "$" << pad; else LOGF(WARNING, "T#%d,%d$%s", t, k, pad.c_str()); } });
     for (auto& t : th) t.join(); }
   for (int i = 0; i < ns; ++i) for (int j = 0; j < i; ++j) if (!recs[i].ids.empty() && !recs[j].ids.empty()) CHECK_("thread", recs[i].ids[0] != recs[j].ids[0], "sinks " << i << " and " << j << " are called on the same thread");
   for (int i = 0; i < ns; ++i) {
      auto& r = recs[i]; bool str = i % 3 == 2; CHECK_("count", (int)r.got.size() == nt * each, "sink " << i << " received " << r.got.size() << " of " << nt * each << " messages");
      std::vector<int> next(nt, 0);
      for (auto& g : r.got) {
         int t = -1, k = -1; if (sscanf(tail(g).c_str(), "T#%d,%d", &t, &k) != 2 || t < 0 || t >= nt) { CHECK_("content", false, "sink " << i << " received " << show(g)); break; }
         CHECK_("order", next[t] == k, "sink " << i << " received message " << k << " of thread " << t << ", expected " << next[t]); if (next[t] != k) break; ++next[t];
         CHECK_("content", contains(g, "T#" + std::to_string(t) + "," + std::to_string(k) + "$" + pad.substr(0, 2000)) && contains(g, k % 3 ? "INFO" : "WARNING"), "sink " << i << " received " << show(g)); if (badly) break;
         if (!str && i && recs[0].got.size() == r.got.size()) CHECK_("same", recs[0].got[&g - &r.got[0]] == g, "sinks 0 and " << i << " differ: " << show(recs[0].got[&g - &r.got[0]]) << " and " << show(g));
         if (str && recs[0].got.size() == r.got.size()) CHECK_("same", tail(recs[0].got[&g - &r.got[0]]) == tail(g), "sinks 0 and " << i << " receive in different orders");
         if (badly) break;
      }
      CHECK_("overlap", !r.overlap, "sink " << i << " was called by two threads at once"); CHECK_("thread", r.ids.size() <= 1 && (r.ids.empty() || r.ids[0] != std::this_thread::get_id()), "sink " << i << " was called on " << r.ids.size() << " threads or on the logging thread");
   }
}
static void nosinks(const std::string& text) { auto w = g3::LogWorker::createLogWorker(); g3::initializeLogging(w.get()); LOG(INFO) << text; }
int main(int argc, char** argv) {
   start(argc, argv); unsigned n = thorough ? 2000 : 200;
   for (unsigned i = 0; i < n && !failures; ++i) {
      int t = 1 + rnd(4), e = 1 + rnd(250), s = 1 + rnd(6), lag = rnd(2) ? 0 : rnd(80); bool al = rnd(2), big = rnd(8) == 0; unsigned ch = rnd(4) ? 1 + rnd(5) : 0;
      Res r = child([&] { chaos = ch; round_(t, e, s, lag, al, big); _exit(badly ? 3 : 0); }, 90); ++cases;
      std::ostringstream what; what << t << " threads, " << e << " messages each, " << s << " sinks";
      if (r.timeout) fail("hang", what.str() + ": nothing happens for 90 s");
      else if (WIFSIGNALED(r.status)) fail("crash", what.str() + ": " + st(r));
      else if (WEXITSTATUS(r.status)) ++failures;
   }
   for (int i = 0; i < 5; ++i) { std::string t = "text " + rstr("abc %s\n", 40) + "."; Res r = child([&] { nosinks(t); }, 60); VC_EXPECT("nosink", !r.timeout && count(r.err, t) == 1, "no sink: " << show(t) << " printed " << count(r.err, t) << " times: " << show(r.err)); }
   return finish();
}
